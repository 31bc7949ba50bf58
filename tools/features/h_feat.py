from ocfl import feat


def run(ctx, name_):
    s = ctx.str("s", 0, 2, "abA/%1\u00e9\n ")
    ctx.check(bool(getattr(feat, name_)(s)), name_)
