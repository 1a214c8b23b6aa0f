#!/opt/venv/bin/python
"""
Mutation analysis: which small changes of /repo does no check notice?

  tools/mutate.py COVDIR OUT.json [--files substr,...] [--maxbound N] [--only OUT2.json survivors of a former run]

COVDIR holds cov.<property>.json: [[file, line], ...] executed by the check. Mutants are made in copies in /dev/shm; each
is run against the checks that execute its line, until one reports a violation.
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
UNWRAP = {"deepcopy", "sorted", "list", "tuple", "abs", "copy", "float", "int", "str", "bool", "numpy.asarray", "numpy.array", "numpy.abs", "numpy.copy", "set", "numpy.unique", "numpy.sort"}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "numpy.argmin": "numpy.argmax", "numpy.argmax": "numpy.argmin", "numpy.minimum": "numpy.maximum", "numpy.maximum": "numpy.minimum",
        "startswith": "endswith", "lower": "upper", "upper": "lower", "strip": "rstrip", "rstrip": "strip", "append": None, "ljust": "rjust", "rjust": "ljust", "numpy.ceil": "numpy.floor", "numpy.floor": "numpy.ceil",
        "numpy.cos": "numpy.sin", "numpy.sin": "numpy.cos", "numpy.row_stack": None}


def mutants(path, src, lines_ok):
    tree = ast.parse(src)
    L = src.split("\n")
    off = [0]
    for l in L:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, what, span=None):
        s, e = span or pos(n)
        out.append((n.lineno, s, e, new, what))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infn.add(n)
    inraise = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.Raise):
            for n in ast.walk(f):
                inraise.add(n)
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or n in doc or n in inraise and not isinstance(n, ast.Raise):
            continue
        if n.lineno not in lines_ok:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o2.join("(%s)" % seg(v) for j, v in enumerate(n.values) if j != i) + ")", "bool-drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 2 + 1.0), "const")
            elif isinstance(v, str) and n in infn and 0 < len(v) <= 24 and seg(n)[:1] in "\"'":
                add(n, repr(v + "Q"), "str")
        elif isinstance(n, ast.If) and n in infn:
            add(n.test, "True", "if")
            add(n.test, "False", "if")
        elif isinstance(n, ast.While):
            add(n.test, "False", "while")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % seg(n.body), "ifexp")
            add(n, "(%s)" % seg(n.orelse), "ifexp")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)) and n in infn:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and n in infn and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f in UNWRAP and len(n.args) == 1 and not n.keywords:
                add(n, "(%s)" % seg(n.args[0]), "unwrap")
            last = f.split(".")[-1]
            k = f if f in SWAP else last if isinstance(n.func, ast.Attribute) and not f.startswith("numpy.") else None
            if k in SWAP and SWAP[k]:
                add(n.func, f[: len(f) - len(k)] + SWAP[k], "swap")
            if isinstance(n.func, ast.Attribute) and last in ("copy", "strip", "rstrip", "lower", "upper", "ravel", "tolist") and not n.args:
                add(n, seg(n.func.value), "unwrap")
            for kw in n.keywords:
                if kw.arg and isinstance(kw.value, ast.Constant) and kw.value.lineno == n.lineno:
                    pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(n.value), "noslice")
        elif isinstance(n, ast.comprehension) and n.ifs:
            pass
        elif isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)):
            for g in n.generators:
                for t in g.ifs:
                    add(t, "True", "filter")
    res = []
    seen = set()
    for ln, s, e, new, what in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        old = b[s:e].decode()
        if t in seen or old.startswith(("print(", "sys.stdout.flush", "help=", "logging.")) or what == "str" and (" " in old or L[ln - 1].strip().startswith("help=")):
            continue
        seen.add(t)
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        res.append(dict(file=path, line=ln, what=what, old=b[s:e].decode(), new=new, s=s, e=e, text=L[ln - 1].strip()))
    return res


def main():
    cov, outp = sys.argv[1:3]
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    hit = {}
    size = {}
    for f in sorted(os.listdir(cov)):
        if f.startswith("cov.") and f.endswith(".json"):
            for a, l in json.load(open(os.path.join(cov, f))):
                hit.setdefault((a, l), []).append(f[4:-5])
    cost = json.load(open(os.path.join(cov, "cost.json"))) if os.path.exists(os.path.join(cov, "cost.json")) else {}
    total = {}
    for v in hit.values():
        for p in v:
            total[p] = total.get(p, 0) + 1
    if "--only" in opt:
        # the same mutants in the current sources
        old = {(m["file"], m["what"], m["old"], m["new"], m["text"]): m for m in json.load(open(opt["--only"])) if m.get("result", "survived") == "survived"}
        M = []
        for f in sorted({m["file"] for m in old.values()}):
            if "--files" in opt and not any(x in f for x in opt["--files"].split(",")):
                continue
            src = open("/repo/" + f).read()
            for m in mutants(f, src, range(1, src.count("\n") + 2)):
                o = old.get((f, m["what"], m["old"], m["new"], m["text"]))
                if o and not ("--nokind" in opt and m["what"] in opt["--nokind"].split(",")):
                    hit.setdefault((f, m["line"]), o.get("checks", []))
                    M.append(m)
    else:
        M = []
        files = subprocess.run(["git", "ls-files", "toughio/*.py", "toughio/**/*.py"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()
        for f in sorted(set(files)):
            if "--files" in opt and not any(x in f for x in opt["--files"].split(",")):
                continue
            ok = {l for (a, l) in hit if a == f}
            M += mutants(f, open("/repo/" + f).read(), ok)
    print(len(M), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="mutate-", dir="/dev/shm")
    pool = Queue()
    N = int(opt.get("--procs", 8))
    for i in range(N):
        d = os.path.join(base, str(i)); os.mkdir(d)
        shutil.copytree("/repo/toughio", d + "/toughio", ignore=shutil.ignore_patterns("__pycache__"))
        pool.put(d)
    done = [0, 0]
    t0 = time.time()

    def run(m):
        d = pool.get()
        p = os.path.join(d, m["file"])
        src = open("/repo/" + m["file"]).read()
        try:
            b = src.encode()
            open(p, "wb").write(b[: m["s"]] + m["new"].encode() + b[m["e"]:])
            # lines of a multi-line statement are recorded under one of them
            ps = hit.get((m["file"], m["line"]), [])
            ps = sorted(set(ps), key=lambda q: cost.get(q, 1))
            res = "survived"; m["checks"] = ps
            env = dict(os.environ, TOUGHIO_REPO=d, MC_PROCS=opt.get("--mcprocs", "1"), MC_MAXBOUND=opt.get("--maxbound", "1"), MC_BUDGET=opt.get("--budget", "60"), MC_EVIDENCE=os.path.join(d, "ev"))
            for q in ps:
                if "--skip" in opt and q in opt["--skip"].split(","):
                    continue
                try:
                    r = subprocess.run([os.path.join(V, "check"), q], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=float(opt.get("--budget", "60")) + 60)
                except subprocess.TimeoutExpired:
                    res = "timeout " + q
                    break
                if r.returncode == 1:
                    res = "killed " + q; break
                if r.returncode != 0:
                    res = "error " + q; m["tail"] = r.stdout[-300:]; break
            m["result"] = res
        finally:
            open(p, "w").write(src)
            pool.put(d)
        done[0] += 1
        done[1] += m["result"] == "survived"
        if done[0] % 100 == 0:
            print(done[0], "of", len(M), "survived", done[1], "%.0f s" % (time.time() - t0), flush=True)
            json.dump(M, open(outp, "w"), indent=0)
        return m

    try:
        with ThreadPoolExecutor(N) as ex:
            M[:] = list(ex.map(run, M))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    json.dump(M, open(outp, "w"), indent=0)
    r = {}
    for m in M:
        k = m["result"].split()[0]; r[k] = r.get(k, 0) + 1
    print(r, "%.0f s" % (time.time() - t0))


main()
