"""
Bounded exhaustive explorer of the real code.

A *driver* is a Python function ``driver(ch)`` that builds one closed execution of
the code under test.  Every decision it takes goes through the chooser ``ch``:

  ch.choose(label, options)   first option is the default; any other option costs 1
  ch.free(label, options)     every option costs 0 (full product)
  ch.flag(label)              choose(label, [False, True])

The explorer enumerates, without repetition, EVERY choice vector whose total cost is
at most the driver's bound, and runs the driver on each one (stateless search with a
deviation bound, iterated 0..bound by construction: shorter vectors are prefixes).
Choices may not depend on anything the code under test returned: the label/option
signature of a replayed prefix is compared and a divergence is a hard error.

``ch.call(name, fn, ...)`` runs one public entry point of the code under test (one
transition); an exception, a hang (CPU-time limit) or memory exhaustion inside it is
a violation unless the driver declared it as expected.
``ch.state(obj)`` records a canonical state; ``ch.validated(n)`` counts observations of
the implementation that were compared with the reference model.
"""
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TOUGHIO_REPO", "/repo")
CPU_LIMIT = 10.0          # seconds of CPU per execution (normal executions: milliseconds)
MEM_LIMIT = 6 << 30       # address space per worker


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class EngineError(Exception):
    pass


def _on_prof(signum, frame):
    raise Hang("execution exceeded its limit of CPU time")


class Chooser:
    def __init__(self, prefix, scratch, tier):
        self.prefix = list(prefix)
        self.trace = []          # (label, n_options, index, unit_cost)
        self.scratch = scratch
        self.tier = tier
        self.calls = 0
        self.states = set()
        self.nvalid = 0
        self.notes = []
        self.digest = hashlib.blake2b(digest_size=8)
        self._n = 0

    # -- decisions ---------------------------------------------------------
    def _pick(self, label, options, unit):
        n = len(options)
        i = len(self.trace)
        if n == 0:
            raise EngineError("empty option list at {}".format(label))
        k = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= k < n:
            raise EngineError(
                "replay diverged at {!r}: index {} of {}".format(label, k, n)
            )
        self.trace.append((label, n, k, unit))
        o = options[k]
        if k:
            self.notes.append("{}={}".format(label, _short(o)))
        return o

    def choose(self, label, options):
        return self._pick(label, options, 1)

    def free(self, label, options):
        return self._pick(label, options, 0)

    def flag(self, label):
        return self._pick(label, [False, True], 1)

    # -- observation -------------------------------------------------------
    def call(self, name, fn, *args, **kwargs):
        self.calls += 1
        try:
            return fn(*args, **kwargs)
        except Hang as e:
            raise Violation("{}: does not terminate ({})".format(name, e))
        except MemoryError:
            raise Violation("{}: memory exhausted".format(name))
        except Violation:
            raise
        except RecursionError:
            raise Violation("{}: recursion does not end".format(name))
        except SystemExit as e:
            raise Violation("{}: unexpected SystemExit({})".format(name, e))
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ""
            for fr in reversed(tb):
                if "/toughio/" in fr.filename:
                    where = " at {}:{}".format(
                        fr.filename.split("/toughio/", 1)[1], fr.lineno
                    )
                    break
            raise Violation(
                "{}: raised {}: {}{}".format(name, type(e).__name__, e, where)
            )

    def raises(self, name, types, fn, *args, **kwargs):
        """The call must raise one of the exception types (messages are ignored)."""
        self.calls += 1
        try:
            fn(*args, **kwargs)
        except types:
            return
        except Hang as e:
            raise Violation("{}: does not terminate ({})".format(name, e))
        except Exception as e:
            raise Violation(
                "{}: raised {}({}) instead of {}".format(
                    name, type(e).__name__, e, [t.__name__ for t in types]
                )
            )
        raise Violation("{}: accepted without an error".format(name))

    def check(self, cond, msg, *args):
        self.nvalid += 1
        if not cond:
            m = msg.format(*args) if args else msg
            raise Violation(m if len(m) < 2000 else m[:1000] + " ... " + m[-900:])

    def validated(self, n=1):
        self.nvalid += n

    def state(self, obj):
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        self.states.add(h)
        self.digest.update(h)

    def path(self, name):
        self._n += 1
        return os.path.join(self.scratch, name)

    # -- accounting --------------------------------------------------------
    def vector(self):
        return [t[2] for t in self.trace]


def _short(o, n=200):
    s = repr(o)
    return s if len(s) <= n else s[: n - 3] + "..."


class Driver:
    def __init__(self, name, fn, bound=1, what="", bounds=None, cpu=None):
        self.cpu = cpu or CPU_LIMIT
        self.name = name
        self.fn = fn
        self.bound = bound
        self.what = what
        self.bounds = bounds or {}


def _clean(path):
    for e in os.listdir(path):
        p = os.path.join(path, e)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


_CUR = {}


def run_one(driver, prefix, scratch, tier):
    """One execution. Returns (chooser, violation message or None)."""
    ch = Chooser(prefix, scratch, tier)
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, driver.cpu, 1.0)
    msg = None
    cwd = os.getcwd()
    try:
        try:
            driver.fn(ch)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        msg = str(e)
    except EngineError:
        raise
    except Hang as e:
        msg = "does not terminate: {}".format(e)
    except MemoryError:
        msg = "memory exhausted"
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        msg = "result cannot be interpreted: {}: {}\n{}".format(type(e).__name__, e, tb)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        try:
            if os.getcwd() != cwd:
                os.chdir(cwd)
        except OSError:
            os.chdir(cwd)
        _clean(scratch)
    # choices past the failing point are unknown, which is fine
    if len(ch.trace) < len(ch.prefix) and msg is None:
        raise EngineError(
            "replay diverged in {}: execution took {} choices, prefix has {}".format(
                driver.name, len(ch.trace), len(ch.prefix)
            )
        )
    return ch, msg


def children(ch, plen, bound):
    """Prefixes of the subtrees hanging off this execution (each visited once)."""
    out = []
    cost = 0
    for i, (_, n, k, unit) in enumerate(ch.trace):
        if i >= plen:
            if cost + unit <= bound:
                vec = [t[2] for t in ch.trace[:i]]
                sig = [(t[0], t[1]) for t in ch.trace[: i + 1]]
                for alt in range(1, n):
                    out.append((vec + [alt], sig))
        if k:
            cost += unit
    return out


def check_sig(driver, ch, sig):
    got = [(t[0], t[1]) for t in ch.trace[: len(sig)]]
    if len(got) == len(sig) and got != sig:
        raise EngineError(
            "replay diverged in {}: {} != {}".format(driver.name, got[-3:], sig[-3:])
        )


class Stats:
    def __init__(self):
        self.execs = 0
        self.calls = 0
        self.nvalid = 0
        self.states = set()
        self.outcomes = set()
        self.maxcost = 0
        self.violations = []
        self.samples = []
        self.truncated = 0
        self.choices = 0

    def add(self, ch, msg, driver):
        self.execs += 1
        self.calls += ch.calls
        self.nvalid += ch.nvalid
        self.states |= ch.states
        self.outcomes.add(ch.digest.digest())
        self.choices += len(ch.trace)
        cost = sum(t[3] for t in ch.trace if t[2])
        self.maxcost = max(self.maxcost, cost)
        if msg is not None:
            self.violations.append(
                {
                    "driver": driver.name,
                    "vector": ch.vector(),
                    "deviations": cost,
                    "choices": [
                        [t[0], t[2], t[1]] for t in ch.trace
                    ],
                    "notes": ch.notes,
                    "message": msg,
                }
            )

    def merge(self, o):
        self.execs += o.execs
        self.calls += o.calls
        self.nvalid += o.nvalid
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.maxcost = max(self.maxcost, o.maxcost)
        self.violations += o.violations
        self.samples += o.samples
        self.truncated += o.truncated
        self.choices += o.choices


MAX_VIOL = 6


def explore_subtree(driver, prefix, sig, scratch, tier, deadline, known):
    st = Stats()
    stack = [(prefix, sig)]
    while stack:
        if time.time() > deadline:
            st.truncated += len(stack)
            break
        pre, sg = stack.pop()
        _note_current(driver, pre)
        ch, msg = run_one(driver, pre, scratch, tier)
        check_sig(driver, ch, sg)
        st.add(ch, msg, driver)
        if st.execs % 997 == 1:
            st.samples.append({"driver": driver.name, "deviations": ch.notes[:8]})
        if msg is not None:
            # the subtree below a failing execution is still explored, except that
            # the search stops early once enough distinct failures were collected
            if len([v for v in st.violations if not known(v)]) >= MAX_VIOL:
                st.truncated += len(stack)
                break
        stack.extend(children(ch, len(pre), driver.bound))
    return st


_WORKER = {}


def _note_current(driver, pre):
    f = _WORKER.get("cur")
    if f is not None:
        f.seek(0)
        f.write(json.dumps([driver.name, pre]).ljust(64) + "\n")
        f.truncate()
        f.flush()


def _limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass


def _worker(wid, conn, drivers, scratch_root, tier, deadline, known):
    _limit_memory()
    scratch = os.path.join(scratch_root, "w{}".format(wid))
    os.makedirs(scratch, exist_ok=True)
    _WORKER["cur"] = open(os.path.join(scratch_root, "cur.{}".format(wid)), "w")
    # silence the code under test
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    try:
        while True:
            task = conn.recv()
            if task is None:
                break
            di, pre, sig = task
            try:
                st = explore_subtree(
                    drivers[di], pre, sig, scratch, tier, deadline, known
                )
                conn.send(("ok", st))
            except EngineError as e:
                conn.send(("engine", "{}: {}".format(drivers[di].name, e)))
            except BaseException as e:
                conn.send(("engine", "{}: {}".format(drivers[di].name, traceback.format_exc())))
    finally:
        conn.close()
        os._exit(0)


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def explore(drivers, tier, budget, known=lambda v: False, nproc=None, log=None):
    """Explore every driver; returns (per-driver stats, engine errors, timed_out)."""
    nproc = nproc or int(os.environ.get("MC_PROCS", 0)) or min(8, os.cpu_count() or 1)
    deadline = time.time() + budget
    root = tempfile.mkdtemp(prefix="mc-", dir=scratch_base())
    stats = {d.name: Stats() for d in drivers}
    errors = []
    ctx = mp.get_context("fork")
    workers = []
    try:
        def spawn(wid):
            a, b = ctx.Pipe()
            p = ctx.Process(
                target=_worker,
                args=(wid, b, drivers, root, tier, deadline, known),
            )
            p.daemon = True
            p.start()
            b.close()
            return {"p": p, "c": a, "busy": None, "wid": wid}

        # queue of subtrees; the roots are expanded in the parent's order
        queue = []
        master_scratch = os.path.join(root, "m")
        os.makedirs(master_scratch)

        # Root executions and first-level splitting also run in (forked) workers so
        # that a crash of the code under test cannot take the explorer down: the
        # split executes only in a throw-away child.
        def split(di, pre, sig, depth):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    if not os.environ.get("MC_DEBUG"):
                        os.dup2(devnull, 2)
                    _limit_memory()
                    out = _split(drivers[di], pre, sig, depth, master_scratch, tier)
                    data = pickle.dumps(("ok", out))
                except BaseException:
                    data = pickle.dumps(("engine", traceback.format_exc()))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                return ("died", None)
            return pickle.loads(data)

        for di, d in enumerate(drivers):
            kind, out = split(di, [], [], 1)
            if kind == "ok":
                st, kids = out
                stats[d.name].merge(st)
                queue += [(di, p, s) for p, s in kids]
            elif kind == "engine":
                errors.append(out)
            else:
                stats[d.name].violations.append(
                    {
                        "driver": d.name,
                        "vector": [],
                        "deviations": 0,
                        "choices": [],
                        "notes": [],
                        "message": "the process running the default execution died",
                    }
                )
        if errors:
            return stats, errors, False

        # largest subtrees first is unknown; interleave drivers for load balance
        queue.reverse()
        nproc = max(1, min(nproc, len(queue)))
        workers = [spawn(i) for i in range(nproc)] if queue else []
        from multiprocessing.connection import wait

        wid = nproc
        while queue or any(w["busy"] for w in workers):
            for w in workers:
                if w["busy"] is None and queue:
                    w["busy"] = queue.pop()
                    w["c"].send(w["busy"])
            ready = wait([w["c"] for w in workers if w["busy"]], timeout=5)
            for w in list(workers):
                if w["c"] in ready:
                    di = w["busy"][0]
                    d = drivers[di]
                    try:
                        kind, out = w["c"].recv()
                    except (EOFError, OSError):
                        cur = w["busy"][1]
                        try:
                            with open(os.path.join(root, "cur.{}".format(w["wid"]))) as f:
                                cur = json.loads(f.read())[1]
                        except Exception:
                            pass
                        stats[d.name].violations.append(
                            {
                                "driver": d.name,
                                "vector": cur,
                                "deviations": None,
                                "choices": [],
                                "notes": [],
                                "message": "the process running the code under test died",
                            }
                        )
                        workers.remove(w)
                        workers.append(spawn(wid))
                        wid += 1
                        continue
                    w["busy"] = None
                    if kind == "ok":
                        stats[d.name].merge(out)
                        if out.truncated and time.time() <= deadline:
                            # enough failures: drop the remaining work of this driver
                            n = len(queue)
                            queue = [q for q in queue if q[0] != di]
                            stats[d.name].truncated += n - len(queue)
                        nv = len([v for v in stats[d.name].violations if not known(v)])
                        if nv >= MAX_VIOL:
                            n = len(queue)
                            queue = [q for q in queue if q[0] != di]
                            stats[d.name].truncated += n - len(queue)
                    else:
                        errors.append(out)
                        queue = []
            if time.time() > deadline + 60:
                for w in workers:
                    if w["busy"]:
                        stats[drivers[w["busy"][0]].name].truncated += 1
                break
        for w in workers:
            try:
                w["c"].send(None)
            except (OSError, BrokenPipeError):
                pass
        for w in workers:
            w["p"].join(2)
            if w["p"].is_alive():
                w["p"].kill()
                w["p"].join()
        return stats, errors, time.time() > deadline
    finally:
        for w in workers:
            if w["p"].is_alive():
                w["p"].kill()
                w["p"].join()
        shutil.rmtree(root, ignore_errors=True)


def _split(driver, pre, sig, depth, scratch, tier):
    """Run one execution (twice: replay must be deterministic); return its children."""
    st = Stats()
    ch, msg = run_one(driver, pre, scratch, tier)
    ch2, msg2 = run_one(driver, pre, scratch, tier)
    if [t[:2] for t in ch.trace] != [t[:2] for t in ch2.trace] and not (msg or msg2):
        raise EngineError("replay diverged in {}: choice labels differ".format(driver.name))
    if msg is None and msg2 is None and ch.digest.digest() != ch2.digest.digest():
        msg = "the same execution, run twice in one process, gave different results"
    msg = msg if msg is not None else msg2
    st.add(ch, msg, driver)
    st.samples.append(
        {"driver": driver.name, "default execution": [t[0] for t in ch.trace][:40]}
    )
    kids = children(ch, len(pre), driver.bound)
    # second level so that the work divides well
    if len(kids) < 64 and depth:
        more = []
        for p, s in kids:
            c, m = run_one(driver, p, scratch, tier)
            check_sig(driver, c, s)
            st.add(c, m, driver)
            more += children(c, len(p), driver.bound)
        kids = more
    return st, kids


# ---------------------------------------------------------------------------
# command line
# ---------------------------------------------------------------------------


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def make_known(prop):
    entries = load_known(prop)

    def known(v):
        for e in entries:
            if e["driver"] == v["driver"] and any(
                sorted(n) == sorted(v["notes"]) for n in e["notes"]
            ):
                return e
        return None

    return known, entries


def main(prop, module, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if "--replay" in argv:
        return replay(prop, module, argv[argv.index("--replay") + 1])
    drivers = module.drivers(tier)
    only = os.environ.get("MC_DRIVER")
    if only:
        drivers = [d for d in drivers if d.name in only.split(",")]
    if os.environ.get("MC_BOUND"):
        for d in drivers:
            d.bound = int(os.environ["MC_BOUND"])
    if os.environ.get("MC_MAXBOUND"):
        for d in drivers:
            d.bound = min(d.bound, int(os.environ["MC_MAXBOUND"]))
    budget = float(
        os.environ.get("MC_BUDGET", 420 if tier == "quick" else 3 * 3600)
    )
    known, entries = make_known(prop)
    stats, errors, timed_out = explore(drivers, tier, budget, known)
    wall = time.time() - t0
    if errors:
        print("ENGINE ERROR property={}: {}".format(prop, errors[0]))
        return 3

    total = Stats()
    for d in drivers:
        total.merge(stats[d.name])
    viols = [v for v in total.violations if not known(v)]
    viols.sort(key=lambda v: (v["deviations"] if v["deviations"] is not None else 99, len(v["vector"])))
    hit = {}
    for v in total.violations:
        e = known(v)
        if e:
            hit.setdefault(e["id"], (e, v))

    exhaustive = total.truncated == 0 and not timed_out
    per = {}
    for d in drivers:
        s = stats[d.name]
        per[d.name] = {
            "what": d.what,
            "deviation_bound": d.bound,
            "executions": s.execs,
            "calls_into_toughio": s.calls,
            "choice_points": s.choices,
            "distinct_states": len(s.states),
            "distinct_outcomes": len(s.outcomes),
            "comparisons": s.nvalid,
            "max_deviations_reached": s.maxcost,
            "unexplored_prefixes": s.truncated,
            "bounds": d.bounds,
        }
    level = getattr(module, "LEVEL", "model_checking")
    cov = {
        "states": len(total.states),
        "transitions": total.calls,
        "traces_validated_against_impl": total.execs,
        "evaluations": total.execs,
        "distinct_nontrivial": len(total.outcomes),
        "rule": (
            "one evaluation = one complete execution of a driver (one choice vector within "
            "the deviation bound); non-trivial and distinct = different sequence of canonical "
            "states observed from the real code"
        ),
        "comparisons_with_reference_model": total.nvalid,
        "exhaustive": exhaustive,
        "drivers": per,
        "samples": total.samples[:12],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(viols),
    }
    evdir = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for d in drivers:
        s = stats[d.name]
        print(
            "  {:28s} bound={} executions={} calls={} states={} outcomes={} comparisons={}{}".format(
                d.name, d.bound, s.execs, s.calls, len(s.states), len(s.outcomes), s.nvalid,
                "" if not s.truncated else " UNEXPLORED={}".format(s.truncated),
            )
        )
    print(
        "property={} tier={} executions={} states={} transitions={} exhaustive={} wall={:.1f}s".format(
            prop, tier, total.execs, len(total.states), total.calls, exhaustive, wall
        )
    )
    for eid, (e, v) in sorted(hit.items()):
        print("KNOWN-FINDING: property={} {} {}".format(prop, eid, e["what"]))
    if viols:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for i, v in enumerate(viols):
            key = (v["driver"], v["message"][:60])
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            path = os.path.join(rdir, "{}-{}.json".format(prop, len(shown)))
            v["property"] = prop
            v["tier"] = tier
            v["replay_cmd"] = "cd {} && ./check {} --replay {}".format(VERIF, prop, path)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property={} replay={}".format(prop, path))
            print("   driver={} deviations={}".format(v["driver"], v["notes"][:10]))
            print("   " + v["message"].replace("\n", "\n   ")[:1500])
        return 1
    return 0


def replay(prop, module, path):
    with open(path) as f:
        v = json.load(f)
    drivers = module.drivers(v.get("tier", "quick"))
    d = [x for x in drivers if x.name == v["driver"]][0]
    root = tempfile.mkdtemp(prefix="mc-", dir=scratch_base())
    try:
        ch, msg = run_one(d, v["vector"], root, v.get("tier", "quick"))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for t in ch.trace:
        print("   {:50s} {}/{}".format(str(t[0]), t[2], t[1]))
    if msg is None:
        print("replay: property holds on this execution")
        return 0
    print("VIOLATION property={} replay={}".format(prop, path))
    print(msg)
    return 1
