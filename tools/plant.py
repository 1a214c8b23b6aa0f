#!/opt/venv/bin/python
"""
Build and judge planted bugs.

  tools/plant.py SPEC.py [id ...]     SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
  tools/plant.py --verify [id ...]    re-judge what is in seeded/

In a scratch copy of /repo: apply, compile, stable tests, demo without / with the change, then the
quick check of the property. Nothing is ever applied to /repo.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$here/demo.py"\n'
HEAD = '"""Exit 0 if the behaviour is right, nonzero otherwise."""\nimport os, sys, tempfile\nimport numpy as np\nimport toughio\n\ntmp = tempfile.TemporaryDirectory()\npath = lambda name: os.path.join(tmp.name, name)\n\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stable(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    xml = os.path.join(copy + ".xml")
    w = tempfile.mkdtemp()
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "stable_ids", "-n", "8", "--timeout=30", "--tb=short", "-o", "junit_family=xunit2", "--junitxml=" + xml, "test"],
           copy, PYTHONPATH=copy + ":/opt/vp/plugin", TMPDIR=w)
    shutil.rmtree(w, ignore_errors=True)
    out = copy + ".json"
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + xml], check=True, stdout=subprocess.DEVNULL)
    res = json.load(open(out))
    passed = set(res["passed"])
    os.unlink(xml); os.unlink(out)
    return [t for t in base if t not in passed]


def judge(bid, run_check=True, prop=None):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    root = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    copy = os.path.join(root, "x")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        demo = os.path.join(root, "d"); shutil.copytree(d, demo)
        r0 = sh(["bash", os.path.join(demo, "demo.sh")], copy)
        a = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if a.returncode:
            return "%s: PATCH DOES NOT APPLY %s" % (bid, a.stdout)
        miss = stable(copy)
        r1 = sh(["bash", os.path.join(demo, "demo.sh")], copy)
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        msg = "%s: %s demo %d/%d missing tests %s" % (bid, "counts" if ok else "DOES NOT COUNT", r0.returncode, r1.returncode, miss[:3])
        if not ok:
            msg += "\n" + r0.stdout[-800:] + "\n---\n" + r1.stdout[-500:]
        if run_check:
            import time
            t = time.time()
            c = sh([os.path.join(V, "check"), prop or meta["property"]], V, TOUGHIO_REPO=copy)
            line = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION")]
            nxt = c.stdout.split("\n")
            det = nxt[nxt.index(line[0]) + 2].strip()[:160] if line else ""
            if ok:
                cp = os.path.join(V, "tools", "caught.json")
                C = json.load(open(cp)) if os.path.exists(cp) else {}
                pr = prop or meta["property"]
                C[bid] = pr if c.returncode == 1 and line else (C.get(bid) if C.get(bid) not in (None, "none", meta["property"]) else "none")
                json.dump(C, open(cp, "w"), indent=1, sort_keys=True)
            msg += "\n   %s %s (%.0f s) %s" % (meta["property"], "caught" if c.returncode == 1 and line else "MISSED rc=%d" % c.returncode, time.time() - t, det)
        return msg
    finally:
        shutil.rmtree(root, ignore_errors=True)


def build(b):
    d = os.path.join(V, "seeded", b["id"])
    root = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    copy = os.path.join(root, "x")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # at least one removed or replaced line must come from the original repository
    root0 = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()[0]
    orig = 0
    for f in {e[0] for e in b["edits"]}:
        u = subprocess.run(["git", "blame", "-s", "-l", "--root", f], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split("\n")
        gone = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        own = [l for l in u if any(l.endswith(") " + g) for g in gone)]
        orig += sum("fix:" not in subprocess.run(["git", "log", "-1", "--format=%s", l.split()[0]], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout for l in own)
    if not orig:
        print(b["id"], "WARNING: no original line changed")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--verify":
        ids = a[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    else:
        spec = importlib.util.spec_from_file_location("spec", a[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs = [b for b in m.BUGS if not a[1:] or b["id"] in a[1:]]
        for b in bugs:
            build(b)
        ids = [b["id"] for b in bugs]
    for i in ids:
        print(judge(i), flush=True)
