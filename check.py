#!/opt/veriftools/pyvenv/bin/python
"""Run the solver-based check of one property.  Usage: check.py ID [--tier quick|thorough] [--job NAME]
check.py --replay FILE re-runs a recorded counterexample on the real code."""
import argparse
import json
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def load_known():
    """known-findings.txt -> (known {(property, id): text}, fixed list)."""
    known, fixed = {}, []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                known[(f["property"], f["id"])] = line.split(None, 3)[3]
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


def write_replay(pid, n, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(p, "w", encoding="utf-8") as fh:
        json.dump(rec, fh, indent=1, ensure_ascii=True)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--job")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SYMX_WORKERS", "0")) or min(8, os.cpu_count() or 4))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from symex.server import Replayer
    from symex import replay as rp
    if a.replay:
        rec = json.load(open(a.replay))
        r = Replayer([rec["mod"]])
        res = r.run(rec["mod"], rec["fn"], rec["params"], rec["inputs"])
        r.close()
        print(json.dumps(res, indent=1))
        return 1 if res["violations"] else 0
    t0 = time.time()
    import plan
    spec = plan.PROPERTIES[a.property]
    jobs = plan.jobs(a.property, a.tier)
    if a.job:
        jobs = [j for j in jobs if a.job in j.name]
    budget = a.budget or spec.get("budget", {}).get(a.tier) or {"quick": 240, "thorough": 700}[a.tier]
    from symex.world import World
    from symex import explore as ex
    known, fixed = load_known()
    rep = Replayer(sorted({j.mod for j in jobs}))
    confirmed, nonrepro, knownhits = [], [], {}
    kfseen = set()
    seen_sig = set()

    def replay(ji, inputs):
        j = jobs[ji]
        return rep.run(j.mod, j.fn, j.params, inputs)

    def harvest(ji, inputs, r, how):
        """Violations and known findings a concrete run produced."""
        got = False
        for label, info in rp.jdec(r["violations"]):
            sig = (jobs[ji].name, label)
            got = True
            if sig in seen_sig:
                continue
            seen_sig.add(sig)
            confirmed.append(dict(property=a.property, job=jobs[ji].name, mod=jobs[ji].mod, fn=jobs[ji].fn,
                                  params=jobs[ji].params, inputs=inputs, label=label, info=rp.jenc(info), how=how))
        for kid, label in rp.jdec(r["known"]):
            got = True
            if (a.property, kid) in known:
                knownhits.setdefault(kid, (ji, label, inputs))
            else:
                sig = (jobs[ji].name, label, kid)
                if sig not in seen_sig:
                    seen_sig.add(sig)
                    confirmed.append(dict(property=a.property, job=jobs[ji].name, mod=jobs[ji].mod, fn=jobs[ji].fn,
                                          params=jobs[ji].params, inputs=inputs, label="%s (%s)" % (label, kid),
                                          info={}, how=how))
        return got

    def on_violation(v):
        ji, label, inputs, why = v
        r = replay(ji, inputs)
        if not harvest(ji, inputs, r, why):
            nonrepro.append((jobs[ji].name, label, why, inputs, r["status"], r.get("err")))
        return len(confirmed) >= 1 and not a.v

    try:
        world = World()
        for j in jobs:
            world.load("harness." + j.mod)
        world.finish()
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s cannot load the code: %s: %s" % (a.property, type(e).__name__, e))
        rep.close()
        return 3
    res = ex.explore(world, jobs, budget, seed, a.workers, trace_rate=spec.get("traces", {"quick": 3, "thorough": 8}[a.tier]),
                     on_violation=on_violation)
    # known findings the solver found: replay them
    for kid, hits in res.known.items():
        for ji, label, inputs in hits[:4]:
            r = replay(ji, inputs)
            if harvest(ji, inputs, r, "known finding %s" % kid):
                break
        else:
            nonrepro.append((jobs[ji].name, label, "known " + kid, inputs, "", ""))
    # translator validation: sampled path models, and concretised unsupported paths, on the real code
    validated, mismatches, uns_run = 0, [], 0
    tdeadline = time.time() + {"quick": 60, "thorough": 200}[a.tier]
    if not confirmed or a.v:
        for ji, inputs, obs in res.traces:
            if time.time() > tdeadline:
                break
            r = replay(ji, inputs)
            if r["violations"] or r["known"]:
                harvest(ji, inputs, r, "replay of a sampled path model")
                continue
            if r["status"] == "ok":
                if obs is not None and [list(x) for x in obs] != rp_norm(r["obs"]):
                    mismatches.append((jobs[ji].name, inputs, obs, r["obs"]))
                else:
                    validated += 1
            else:
                mismatches.append((jobs[ji].name, inputs, r["status"], r.get("err")))
        for ji, inputs in res.uns:
            if time.time() > tdeadline:
                break
            r = replay(ji, inputs)
            uns_run += 1
            if r["violations"] or r["known"]:
                harvest(ji, inputs, r, "concrete run of a path the encoding does not support")
    rep.close()
    wall = time.time() - t0
    # ---------------------------------------------------------------- evidence
    s = res.stats
    per_job = []
    for ji, j in enumerate(jobs):
        d = res.js[ji]
        per_job.append({"harness": j.name, "bounds": j.bounds, "params": j.params,
                        **{k: v for k, v in d.items() if isinstance(v, int)},
                        "assertions_reached": d["labels"], "unexplored_prefixes": res.truncated.get(ji, 0),
                        "unsupported": d["unsup"], "functions_encoded": len([c for c in d["cov"] if not c.startswith("harness") and not c.startswith("symx")])})
    cov = sorted({c for d in res.js for c in d["cov"] if not c.startswith("harness") and not c.startswith("symx")})
    vacuous = [j.name for ji, j in enumerate(jobs) if not res.js[ji]["labels"]]
    trunc = sum(res.truncated.values())
    samples = [{"harness": jobs[ji].name, "inputs": inp} for ji, inp, _ in res.traces[:6]]
    ev = {
        "property": a.property, "tier": a.tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": s.paths, "transitions": s.decisions, "traces_validated_against_impl": validated,
            "samples": samples or [{"harness": jobs[0].name if jobs else "", "inputs": {}}],
            "exhaustive": trunc == 0 and s.unsupported == 0 and s.budget == 0 and s.concretised_capped == 0
            and not confirmed and not nonrepro and not mismatches and not vacuous and not res.crashes,
            "assertions": s.asserts, "assertions_decided_by_constant_folding": s.asserts_folded,
            "assertions_decided_by_solver": s.asserts_solver,
            "solver_queries": s.queries, "solver_sat": s.sat, "solver_unsat": s.unsat, "solver_unknown": s.unknown,
            "solver_seconds": round(s.solver_s, 2), "execution_seconds": round(s.exec_s, 2),
            "paths_pruned": s.pruned, "paths_unsupported": s.unsupported, "paths_over_decision_budget": s.budget,
            "concretisations_capped": s.concretised_capped, "unexplored_prefixes": trunc,
            "unsupported_paths_run_concretely": uns_run,
            "functions_encoded": cov, "harnesses": per_job, "approximations": res.notes,
            "vacuous_harnesses": vacuous,
            "encoding_mismatches": len(mismatches), "counterexamples_not_reproduced": len(nonrepro),
            "explanation": "Each state is one symbolic path of the harness through the instrumented code of /repo; "
                           "the path condition ranges over all inputs within the harness bounds.",
        },
        "assumptions": spec.get("assumptions", []) + plan.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True, default=str)
    for kid in sorted(knownhits):
        print("KNOWN-FINDING: property=%s %s %s" % (a.property, kid, known[(a.property, kid)]))
    for x in nonrepro[:5 if not a.v else 50]:
        print("INCONCLUSIVE counterexample not reproduced on the real code:", ascii(x)[:1500])
    for x in mismatches[:5 if not a.v else 50]:
        print("INCONCLUSIVE encoding and real code differ on a trace:", ascii(x)[:3000])
    for x in vacuous:
        print("INCONCLUSIVE no assertion was evaluated by", x)
    for c in res.crashes:
        print("WORKER-CRASH", c)
    for pj in per_job:
        if a.v or pj["unsupported"] or pj["unexplored_prefixes"]:
            print("  job %-40s paths=%d unexplored=%d %s" % (
                pj["harness"], pj["paths"], pj["unexplored_prefixes"],
                ascii({k: pj[k] for k in ("complete", "ended", "pruned", "exception", "unsupported", "assertions_reached") if pj.get(k)})[:900 if a.v else 160]))
    if a.v:
        print("notes:", res.notes)
        for ji, d in enumerate(res.js):
            if d["errors"]:
                print("errors:", jobs[ji].name, d["errors"])
    print("%s %s: paths=%d decisions=%d asserts=%d (solver %d) queries=%d solver=%.1fs validated=%d exhaustive=%s wall=%.1fs"
          % (a.property, a.tier, s.paths, s.decisions, s.asserts, s.asserts_solver, s.queries, s.solver_s, validated,
             ev["coverage"]["exhaustive"], wall))
    for i, c in enumerate(confirmed):
        p = write_replay(a.property, i, c)
        print("VIOLATION property=%s replay=%s job=%s: %s inputs=%s info=%s" % (
            a.property, p, c["job"], c["label"], ascii(rp.jdec(c["inputs"]))[:600], ascii(rp.jdec(c["info"]))[:1200]))
    if confirmed:
        return 1
    if res.crashes and s.paths == 0:
        return 3
    return 0


def rp_norm(obs):
    return [list(x) for x in obs]


if __name__ == "__main__":
    sys.exit(main())
