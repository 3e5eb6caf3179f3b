"""Confirm and record planted bugs: python3 tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=<python>, needs, breaks)].
Everything happens in a scratch copy; /repo is not touched.
"""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypy-venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = BASE.get("stable") or BASE.get("passed") or BASE.get("tests") or BASE


def run(cmd, cwd, src, **kw):
    env = dict(os.environ, PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    common = g.get("COMMON", "")
    for b in g["BUGS"]:
        if only and b["id"] not in only:
            continue
        w = tempfile.mkdtemp(prefix="plant")
        try:
            one(b, w, common)
        finally:
            shutil.rmtree(w)


def one(b, w, common):
    r = os.path.join(w, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(r, "src/pylogit", f)
        s = open(p, newline="").read()
        if s.count(old) != 1:
            print(b["id"], "PATTERN", s.count(old), repr(old)[:60])
            return
        open(p, "w", newline="").write(s.replace(old, new))
    d = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
    demo = os.path.join(w, "demo.py")
    open(demo, "w").write(common + b["demo"])
    src = os.path.join(r, "src")
    good = run([PY, "-W", "ignore", demo], w, "/repo/src", timeout=300)
    if good.returncode:
        print(b["id"], "DEMO FAILS ON CLEAN\n", good.stdout[-1500:])
        return
    bad = run([PY, "-W", "ignore", demo], w, src, timeout=300)
    if not bad.returncode:
        print(b["id"], "DEMO PASSES WITH BUG\n", bad.stdout[-500:])
        return
    x = os.path.join(w, "j.xml")
    t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300", "-W",
             "ignore:np.find_common_type is deprecated:DeprecationWarning", "-o", "junit_family=xunit2",
             "--junitxml=" + x, "--disable-warnings", "tests"], r, src)
    o = os.path.join(w, "o.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], stdout=subprocess.DEVNULL)
    passed = set(json.load(open(o)).get("passed", []))
    miss = [n for n in STABLE if n not in passed]
    if miss:
        print(b["id"], "TESTS FAIL", len(miss), miss[:4])
        return
    env = dict(os.environ, VERIF_REPO=r)
    c = subprocess.run([sys.executable, "-m", "sa", b["property"]], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True) if os.path.exists(
        os.path.join(VERIF, "sa/checks", b["property"].lower() + ".py")) else None
    caught = c is not None and c.returncode == 1
    dst = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "patch.diff"), "wb").write(d)
    shutil.copy(demo, os.path.join(dst, "demo.py"))
    open(os.path.join(dst, "demo.sh"), "w").write(
        '#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
        'exec /opt/pypy-venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(dst, "meta.json"), "w"), indent=1)
    print(b["id"], b["property"], "KEPT", "CAUGHT" if caught else "missed rc=%s" % (c and c.returncode),
          "" if caught else "\n" + (c.stdout[-800:] if c else ""))


main()
