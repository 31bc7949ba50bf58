"""Write properties.jsonl and MANIFEST.json from props_meta.py and plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan
from props_meta import P, NOT_APPLICABLE

assert set(P) - set(NOT_APPLICABLE) == set(plan.PROPERTIES), set(P) ^ set(plan.PROPERTIES)
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for pid in sorted(P):
        m = P[pid]
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        fh.write(json.dumps(dict(id=pid, title=m["title"], statement=m["statement"],
                                 quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
                                 anchors=dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mech"]],
                                              observe_at=m["observe"], hook_needed=None))) + "\n")
NOTE = ("Bounded symbolic execution: within the stated bounds the assertion holds for every value (z3 verdict per path, all paths explored; "
        "evidence says so if not). Trusted: the instrumentation and string/container/file-system models in symex/ (cross-checked by replaying "
        "solver models against the real code on every run), z3. ")
man = dict(version=1, setup_cmd="bash setup.sh",
           checks=[dict(property=pid, quick_cmd="python3-vt check.py %s --tier quick" % pid,
                        thorough_cmd="python3-vt check.py %s --tier thorough" % pid,
                        technique="symbolic execution of the instrumented Python source with z3, counterexamples replayed on the real code",
                        level="model_checking", level_note=NOTE + P[pid]["note"]) for pid in sorted(P) if pid not in NOT_APPLICABLE],
           not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
           notes="No hooks in /repo: the code is instrumented in memory from the current source on every run.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
