"""Create and confirm a seeded bug.  usage: python3 tools/seed.py DIR   (DIR holds edit.py with EDITS=[(file, old, new)...])

Makes a scratch copy of /repo, applies the edits, writes patch.diff, runs demo.sh on both trees and the stable tests on the changed one.
"""
import json, os, shutil, subprocess, sys, tempfile

d = os.path.abspath(sys.argv[1])
w = tempfile.mkdtemp(prefix="seed")
try:
    r = os.path.join(w, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True); subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
    env = dict(os.environ)
    def bash(cmd, cwd, t=600):
        return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=t)
    demo = os.path.join(w, "demo")
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json", "edit.py"))
    c = bash("bash " + demo + "/demo.sh", r, 300)
    ok = c.returncode == 0
    if not ok:
        print("CLEAN DEMO FAILS", c.stdout[-800:], c.stderr[-800:])
    e = os.path.join(d, "edit.py")
    if os.path.exists(e):
        ns = {}
        exec(open(e).read(), ns)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(r, f)
            s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    else:
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, check=True)
    c = bash("bash " + demo + "/demo.sh", r, 300)
    if c.returncode == 0:
        print("PATCHED DEMO PASSES", c.stdout[-800:]); ok = False
    j = os.path.join(w, "junit.xml")
    bash("python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s tests" % j, r)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", w + "/out.json", "junit:" + j], capture_output=True)
    got = json.load(open(w + "/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = stable - set(got["passed"])
    if bad:
        print("TESTS FAIL", sorted(bad)); ok = False
    print(os.path.basename(d), "OK" if ok else "BAD")
finally:
    shutil.rmtree(w)
