from ocfl import feat2


def run(ctx, name_):
    s = ctx.str("s", 0, 2, "abA/%1\u00e9\n ")
    feat2.B = ctx.path()
    ctx.check(bool(getattr(feat2, name_)(s)), name_)
