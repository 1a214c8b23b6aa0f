"""No call changes what another one does, whatever the functions, and nothing is left behind in the process."""
import copy
import gc
import os
import pickle
import select
import signal
import sys
import time
import warnings

import meshio
import numpy as np
import toughio

from ..engine import Driver, Violation
from .. import mesh_common as M
from .. import output_common as O
from .. import ref_input as R
from .. import ref_output as Q
from .c09 import decks, full

LEVEL = "model_checking"
ASSUMPTIONS = [
    "every call finds its own source files, under the same names as those of the calls before it; the target of a call may exist already",
    "registering a format, plotting and printing progress are not judged",
    "libraries used (numpy, scipy, meshio, pyvista) are loaded before the first call",
]

for _m in ("scipy.spatial", "pyvista", "xml.etree.ElementTree", "lzma", "zlib", "h5py", "pkg_resources", "importlib.resources"):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            __import__(_m)
        except Exception:
            pass

gc.freeze()
LIMIT = 60.0  # seconds for one history


def rows(conn=False, k=0, n=4, labs=("AAA 0", "AAA 1", "AAA 2", "AAA 3")):
    labs = [str(x) for x in labs][:n]
    if conn:
        labs = [[labs[0], labs[1]], [labs[2], labs[3]]] if n == 4 else [[labs[0], labs[1]]]
    m = len(labs)
    c = [(0.5, 0.5, 0.5), (2.0, 0.5, 0.5), (0.5, 0.5, 2.0), (2.0, 0.5, 2.0)][:m]
    return [(1.0e6 * (s + 1 + k), labs, {"X": [p[0] for p in c], "Y": [p[1] for p in c], "Z": [p[2] for p in c], "PRES": [1.0e5 + 8.0 * i + s + 32 * k for i in range(m)], "T": [20.0 + i + k for i in range(m)]})
            for s in range(2)]


def listing(k=0):
    drop = lambda M_: [(t, l, {n: v for n, v in d.items() if n not in "XYZ"}) for t, l, d in M_]
    return Q.enc_listing(drop(rows(False, k)), drop(rows(True, k)), w=20, d=12)


SAVE = "INCON -- INITIAL CONDITIONS FOR     2 ELEMENTS AT TIME  0.315576E+08\n" + "".join(
    "{:15}{}\n{}{}\n".format(l, Q.fort(p, 15, 8), Q.fort(a, 20, 13), Q.fort(b, 20, 13)) for l, p, a, b in (("AAA 0", 0.25, 1.0e5, 20.0), ("AAA 1", 0.5, 2.0e5, 30.0))) + "+++\n    1    3    1 0.00000000E+00 0.31557600E+08\n"


class Pool:
    """Objects every call of a history shares."""

    def __init__(self):
        self.full = full()
        self.sparse = dict(decks())["sparse"]
        self.deck = R.encode(R.expected(self.full), R.Style(), 5, R.n_values(self.full))
        self.small = R.encode(R.expected(self.sparse), R.Style(), 5, R.n_values(self.sparse))
        self.mesh = toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0, 2.0])
        self.mesh.add_cell_data("initial_condition", np.arange(8.0).reshape(4, 2) + 1.0)
        self.mesh.add_cell_data("porosity", [0.1, 0.2, 0.3, 0.4])
        self.mesh.add_point_data("t", np.arange(float(self.mesh.n_points)))
        p, c = M.LIB["tower"]()
        self.tower = M.build(M.ints(p), M.group([(t, tuple(v)) for t, v in c], True), cell_data={"material": np.array([2, 1, 1, 5]), "v": np.arange(4.0)}, field_data={"a": np.array([1, 3]), "bb": np.array([2, 3]), "c": np.array([5, 3])})
        q = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (2.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 1.0, 0.0), (2.0, 1.0, 0.0)]
        self.flat = M.build(q, [("quad", [(0, 1, 4, 3)]), ("triangle", [(1, 2, 4), (2, 5, 4)])], cell_data={"material": np.array([1, 2, 1])}, field_data={"a": np.array([1, 2]), "bb": np.array([2, 2])})
        mk = lambda M_, t: [toughio.Output(t, "tough", time_, np.array(l), {a: np.array(v) for a, v in d.items()}) for time_, l, d in M_]
        self.elems, self.other, self.conns = mk(rows(labs=self.mesh.labels), "element"), mk(rows(k=3), "element"), mk(rows(True, labs=self.mesh.labels), "connection")
        self.order = ["AAA 3", "AAA 1", "AAA 0", "AAA 2"]
        self.saturation = np.linspace(0.0, 1.0, 9)


def put(name, text):
    with open(name, "w") as f:
        f.write(text)


def text(name):
    """Contents without comments, which may tell the time."""
    with open(name, "rb") as f:
        return b"".join(x for x in f.read().splitlines(True) if not x.startswith((b"*", b"#")))


def outs(x):
    x = x if isinstance(x, list) else [x]
    return [(o.type, o.format, o.time, M.snap(np.asarray(o.labels)), M.snap(dict(o.data))) for o in x]


def mesh(m):
    return (M.snap(m), M.snap(np.asarray(m.labels)), M.snap(np.asarray(m.centers)))


OPS = {}


def op(name, *sources):
    def add(f):
        OPS[name] = f
        return f

    return add


def _input(which, **kw):
    def f(P):
        toughio.write_input("target", getattr(P, which), **kw)
        return text("target")

    return f


OPS["write deck"] = _input("full", file_format="tough")
OPS["write other deck"] = _input("sparse", file_format="tough")
OPS["write json"] = _input("full", file_format="json")
OPS["write other json"] = _input("sparse", file_format="json")
OPS["write mesh blocks"] = _input("full", file_format="tough", block="mesh")
OPS["write incon block"] = _input("full", file_format="tough", block="incon")


def _refused(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return "accepted"


@op("refused parameters")
def _(P):
    put("target", "precious\n")
    U = copy.deepcopy(P.full)
    U["generators"]["AAA 0"] = {"type": 3}
    return _refused(lambda: toughio.write_input("target", U, file_format="tough")), text("target")


@op("read deck")
def _(P):
    put("source", P.deck)
    return M.snap(toughio.read_input("source", file_format="tough"))


@op("read other deck")
def _(P):
    put("source", P.small)
    return M.snap(toughio.read_input("source", file_format="tough"))


@op("read cut deck")
def _(P):
    put("source", P.deck[: P.deck.index("GENER") + 100])
    return _refused(lambda: toughio.read_input("source", file_format="tough"))


@op("read strange deck")
def _(P):
    put("source", "title\nROCKS\nSAND     x.y       1.0\n\n")
    return _refused(lambda: toughio.read_input("source", file_format="tough"))


@op("read json")
def _(P):
    put("source.json", '{"title": "t", "rocks": {"SAND": {"density": 2600.0}}, "times": [1.0, 2.0]}')
    return M.snap(toughio.read_input("source.json"))


@op("read MESH")
def _(P):
    put("MESH", MESH)
    return M.snap(toughio.read_mesh("MESH", file_format="tough"))


@op("read long labels")
def _(P):
    put("MESH", "ELEME\n" + "".join("AAAA{:3}        SAND{:10.3e}                    {:10.3e}{:10.3e}{:10.3e}\n".format(i, 1.0, 1.0 * i, 0.0, 0.0) for i in range(3)) + "\n")
    return M.snap(toughio.read_input("MESH", file_format="tough", label_length=7))


MESH = "ELEME\n" + "".join("AAA{:2}          SAND{:10.3e}                    {:10.3e}{:10.3e}{:10.3e}\n".format(i, 1.0, *c) for i, c in enumerate([(0.5, 0.5, 0.5), (2.0, 0.5, 0.5), (0.5, 0.5, 2.0), (2.0, 0.5, 2.0)])) + "\n" \
    + "CONNE\n" + "AAA 0AAA 1                   1 5.000e-01 1.000e+00 1.000e+00 0.000e+00\nAAA 2AAA 3                   1 5.000e-01 1.000e+00 1.000e+00 0.000e+00\n\n"


def _read(textf, **kw):
    def f(P):
        put("source", textf())
        k = dict(kw)
        if "labels_order" in k:
            k["labels_order"] = P.order
        return outs(toughio.read_output("source", **k))

    return f


OPS["read csv"] = _read(lambda: Q.enc_csv(rows()))
OPS["read other csv"] = _read(lambda: Q.enc_csv(rows(k=3, n=3)))
OPS["read csv ordered"] = _read(lambda: Q.enc_csv(rows()), labels_order=1)
OPS["read connections"] = _read(lambda: Q.enc_csv(rows(True), True))
OPS["read petrasim"] = _read(lambda: Q.enc_petrasim(rows()))
OPS["read tecplot"] = _read(lambda: Q.enc_tecplot(rows()))
OPS["read listing"] = _read(lambda: listing())
OPS["read other listing"] = _read(lambda: listing(2))
OPS["read listing connections"] = _read(lambda: listing(), connection=True)
OPS["read listing length"] = _read(lambda: listing(), label_length=5)
OPS["read SAVE"] = _read(lambda: SAVE)


@op("read strange output")
def _(P):
    put("source", "nothing of the kind\n1 2 3\n")
    return _refused(lambda: toughio.read_output("source"))


@op("read broken csv")
def _(P):
    put("source", Q.enc_csv(rows()).replace("AAA 1", "AAA 1,,,,x"))
    return _refused(lambda: toughio.read_output("source"))


@op("read history")
def _(P):
    put("source", '"TIME(S)","PRES"\n 1.0, 2.0\n 3.0, 4.0\n')
    return M.snap(toughio.read_history("source"))


def _write(which, fmt, **kw):
    def f(P):
        x = getattr(P, which)
        toughio.write_output("target", x, file_format=fmt, **kw)
        return text("target"), outs(x)

    return f


for _f in ("csv", "petrasim", "tecplot"):
    OPS["write " + _f] = _write("elems", _f)
OPS["write other csv"] = _write("other", "csv")
OPS["write connections"] = _write("conns", "csv")


@op("write output refused")
def _(P):
    put("target", "precious\n")
    return _refused(lambda: toughio.write_output("target", P.elems, file_format="nope")), text("target")


OPS["grid"] = lambda P: mesh(toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [3.0], origin=[1.0, 2.0, 3.0], material="rock1", layer=True))
OPS["other grid"] = lambda P: mesh(toughio.meshmaker.structured_grid([1.0], [2.0, 2.0], [3.0]))
OPS["flat grid"] = lambda P: mesh(toughio.meshmaker.structured_grid([1.0, 2.0], [1.0]))
OPS["cylinder"] = lambda P: mesh(toughio.meshmaker.cylindric_grid([1.0, 2.0], [1.0, 2.0])) + (toughio.meshmaker.cylindric_grid([1.0, 2.0], [1.0, 2.0]).volumes.tolist(),)
OPS["triangles"] = lambda P: mesh(toughio.meshmaker.triangulate([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.1]]))
OPS["voxels"] = lambda P: mesh(toughio.meshmaker.voxelize([[0.5, 0.5, 0.5], [1.5, 0.5, 0.5]], [0.0, 0.0, 0.0]))
OPS["grid refused"] = lambda P: _refused(lambda: toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [3.0], origin=[1.0]))
OPS["extrude"] = lambda P: mesh(P.flat.extrude_to_3d(height=[1.0, 2.0], inplace=False))
OPS["prune"] = lambda P: mesh(P.mesh.prune_duplicates(inplace=False))
OPS["to meshio"] = lambda P: mesh(toughio.from_meshio(P.tower.to_meshio()))
OPS["to pyvista"] = lambda P: mesh(toughio.from_pyvista(P.tower.to_pyvista()))
OPS["geometry"] = lambda P: M.snap([P.mesh.volumes, P.mesh.connections, P.mesh.face_areas, P.mesh.face_normals, P.mesh.qualities, np.asarray(P.mesh.materials)])
OPS["other geometry"] = lambda P: M.snap([P.tower.volumes, P.tower.connections, P.tower.face_areas, P.tower.face_normals, P.tower.qualities, np.asarray(P.tower.materials)])
OPS["near and box"] = lambda P: M.snap([P.mesh.near([2.0, 0.5, 0.5]), P.mesh.filter.box(x0=1.0), P.tower.filter("box", z0=0.5)])


@op("cells to points")
def _(P):
    m = copy.deepcopy(P.mesh)
    m.cell_data_to_point_data()
    return M.snap(m)


@op("points to cells")
def _(P):
    m = copy.deepcopy(P.mesh)
    m.point_data_to_cell_data()
    return M.snap(m)


@op("materials")
def _(P):
    m = copy.deepcopy(P.mesh)
    m.set_material("rock2", [0, 2])
    m.add_cell_data("v", [1, 2, 3, 4])
    return mesh(m) + (list(m.materials),)


@op("results to mesh")
def _(P):
    m = copy.deepcopy(P.mesh)
    put("source", Q.enc_csv(rows(labs=P.mesh.labels)))
    m.read_output("source")
    m2 = copy.deepcopy(P.mesh)
    m2.read_output(P.elems, time_step=0)
    m3 = copy.deepcopy(P.mesh)
    m3.read_output(P.conns)
    return M.snap([m.cell_data, m2.cell_data, m3.cell_data]), outs(P.elems)


@op("results refused")
def _(P):
    m = copy.deepcopy(P.mesh)
    put("source", Q.enc_csv(rows(n=3)))
    return _refused(lambda: m.read_output("source")), M.snap(m)


@op("long labels")
def _(P):
    m, g = copy.deepcopy(P.mesh), toughio.meshmaker.structured_grid([1.0] * 3, [1.0], [1.0])
    m.label_length = 7
    g.label_length = 6
    m.write_tough("MESH")
    m.write_incon("INCON")
    return mesh(m), mesh(g), text("MESH"), text("INCON")


@op("write MESH")
def _(P):
    P.mesh.write_tough("MESH", incon=True)
    return text("MESH"), text("INCON"), M.snap(P.mesh)


@op("write other MESH")
def _(P):
    P.tower.write_tough("MESH", nodal_distance="orthogonal", material_name={"a": "SAND"}, material_end="c")
    return text("MESH"), M.snap(P.tower)


@op("write INCON")
def _(P):
    P.mesh.write_incon("INCON")
    return text("INCON"), M.snap(P.mesh)


@op("MESH refused")
def _(P):
    return _refused(lambda: P.flat.write_tough("MESH")), M.snap(P.flat)


def _file(which, name, fmt, **kw):
    def f(P):
        m = getattr(P, which)
        m.write(name, file_format=fmt, **kw)
        before = M.snap(m)
        return text(name), before, mesh(toughio.read_mesh(name, file_format=fmt))

    return f


OPS["avsucd"] = _file("mesh", "target.avs", "avsucd")
OPS["other avsucd"] = _file("tower", "target.avs", "avsucd")
OPS["flac3d"] = _file("mesh", "target.f3grid", "flac3d")
OPS["flac3d binary"] = _file("tower", "target.f3grid", "flac3d", binary=True)
OPS["tecplot mesh"] = _file("mesh", "target.dat", "tecplot")
OPS["pickled mesh"] = _file("tower", "target.pickle", "pickle")
OPS["vtk mesh"] = _file("mesh", "target.vtk", "vtk")
OPS["vtu mesh"] = _file("tower", "target.vtu", "vtu")


def _strange(name, s, fmt):
    def f(P):
        put(name, s)
        return _refused(lambda: toughio.read_mesh(name, file_format=fmt))

    return f


OPS["strange flac3d"] = _strange("target.f3grid", "G 1 0 0 0\nZ B9 1 1\n", "flac3d")
OPS["strange avsucd"] = _strange("target.avs", "1 1 0 0 0\n1 0 0\n", "avsucd")
OPS["strange tecplot mesh"] = _strange("target.dat", "VARIABLES = X\nZONE F=NOPE\n", "tecplot")


@op("time series")
def _(P):
    m = P.mesh
    for e in os.listdir("."):
        if e.startswith("ts"):
            os.unlink(e)
    toughio.write_time_series("ts.xdmf", m.points, m.cells, cell_data=[{"P": np.arange(4.0)}, {"P": np.arange(4.0) + 1}], time_steps=[1.0, 2.0])
    r = toughio.read_time_series("ts.xdmf")
    return M.snap([np.asarray(r[0]), [(c.type, np.asarray(c.data)) for c in r[1]], r[2], r[3], r[4]]), M.snap(m)


@op("curves")
def _(P):
    R_, C = toughio.relative_permeability, toughio.capillarity
    return M.snap([R_.Corey(0.3, 0.05)(P.saturation), R_.vanGenuchtenMualem(0.457, 0.15, 1.0, 0.1)(P.saturation), C.vanGenuchten(0.457, 0.0, 5.105e-4, 1.0e7, 0.999)(P.saturation), C.Linear(1.0e6, 0.2, 0.8)(0.5)]), M.snap(P.saturation)


OPS["curve refused"] = lambda P: [_refused(lambda: toughio.relative_permeability.Corey(0.8, 0.5)), _refused(lambda: toughio.capillarity.Linear(1.0, 0.5, 0.4)), _refused(lambda: toughio.relative_permeability.Corey(0.3, 0.05)(1.5))]


def cli(f, argv, how=None):
    """A command, its arguments given or taken from the command line of the process."""
    old = sys.argv
    if how == "argv":
        sys.argv = ["toughio-command"] + argv
        mine = sys.argv
    try:
        f() if how == "argv" else f(argv)
        if how == "argv" and (sys.argv is not mine or sys.argv[1:] != argv):
            raise RuntimeError("sys.argv was changed")
    finally:
        sys.argv = old


def _extract(how, *extra):
    def f(P):
        put("source", listing())
        put("MESH", MESH)
        for e in os.listdir("."):
            if e.startswith("target"):
                os.unlink(e)
        cli(toughio._cli.extract, ["source", "MESH", "-o", "target.csv"] + list(extra), how)
        return [(e, text(e)) for e in sorted(os.listdir(".")) if e.startswith("target")]

    return f


OPS["extract"] = _extract("argv")
OPS["extract connections"] = _extract(None, "-c")
OPS["extract split"] = _extract(None, "--split")
OPS["extract refused"] = lambda P: _refused(lambda: toughio._cli.extract(["nowhere", "MESH"]))


def _export(how, fmt, *extra):
    def f(P):
        put("source", Q.enc_csv(rows()))
        for e in os.listdir("."):
            if e.startswith("target"):
                os.unlink(e)
        t = "target." + {"vtk": "vtk", "vtu": "vtu", "tecplot": "dat", "xdmf": "xdmf"}[fmt]
        cli(toughio._cli.export, ["source", "-f", fmt, "-o", t] + list(extra), how)
        if fmt == "xdmf":
            r = toughio.read_time_series(t)
            return M.snap([np.asarray(r[0]), [(c.type, np.asarray(c.data)) for c in r[1]], r[2], r[3], r[4]])
        return text(t)

    return f


OPS["export vtk"] = _export(None, "vtk")
OPS["export tecplot"] = _export("argv", "tecplot")
OPS["export vtu"] = _export(None, "vtu")
OPS["export xdmf"] = _export(None, "xdmf")
OPS["export refused"] = lambda P: _refused(lambda: toughio._cli.export(["nowhere"]))


def _merge(incon, how):
    def f(P):
        os.makedirs("run", exist_ok=True)
        for e in os.listdir("run"):
            os.unlink(os.path.join("run", e))
        put("run/INFILE", P.small)
        put("run/MESH", MESH)
        if incon:
            put("run/INCON", SAVE.split("+++")[0] + "\n")
        cli(toughio._cli.merge, ["run/INFILE", "target"], how)
        return text("target"), sorted(os.listdir("run"))

    return f


OPS["merge"] = _merge(True, "argv")
OPS["merge without INCON"] = _merge(False, None)
OPS["merge refused"] = lambda P: _refused(lambda: toughio._cli.merge(["nowhere", "target"]))


def _s2i(how, *extra):
    def f(P):
        put("source", SAVE)
        cli(toughio._cli.save2incon, ["source", "INCON"] + list(extra), how)
        return text("INCON")

    return f


OPS["save2incon"] = _s2i("argv")
OPS["save2incon reset"] = _s2i(None, "-r")


@op("co2tab")
def _(P):
    os.makedirs("tab", exist_ok=True)
    cli(toughio._cli.co2tab, ["tab"], "argv")
    return len(text("tab/CO2TAB")), sorted(os.listdir("tab"))


NAMES = list(OPS)
SIDE = [n for n in NAMES if "refused" in n or "strange" in n or "cut" in n or "broken" in n]


def process(fd=True):
    """What belongs to the process and not to the library."""
    gc.collect()
    return {
        "current folder": os.getcwd(),
        "environment": sorted(os.environ.items()),
        "numpy errors": sorted(np.geterr().items()),
        "numpy printing": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "random numbers": repr(np.random.get_state()[1][:8].tolist()) + repr(np.random.get_state()[2:]),
        "sys.argv": list(sys.argv),
        "recursion limit": sys.getrecursionlimit(),
        "umask": _umask(),
        "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "open files": _fds() if fd else None,
    }


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def _fds():
    out = []
    for e in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink("/proc/self/fd/" + e)
        except OSError:
            continue
        if not t.startswith(("/proc", "pipe:", "anon_inode", "socket:", "/dev")) or t.startswith("/dev/shm"):
            out.append(t)
    return out


def play(names, folder, pool=None):
    """Run the calls in a process of their own; returns what each gave."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            os.close(null)
            sys.stdout = open(os.devnull, "w")
            np.random.seed(5)
            os.chdir(folder)
            P = Pool()
            out = []
            warnings.simplefilter("ignore")
            before = process()
            for n in names:
                try:
                    res = OPS[n](P)
                except SystemExit as e:
                    res = ("SystemExit", str(e))
                except Exception as e:
                    res = ("raised", type(e).__name__, str(e)[:200])
                after = process()
                out.append((pickle.dumps(res, 4), [(k, before[k], after[k]) for k in before if before[k] != after[k]]))
                before = after
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b"", time.time() + LIMIT
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise Violation("calls {} do not end".format(names))
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if st or not data:
        raise Violation("the process ended while running {} (status {})".format(names, st))
    return [(pickle.loads(a), b) for a, b in pickle.loads(data)]


ALONE = {}


def alone(ch, name):
    if name not in ALONE:
        d = os.path.join(ch.scratch, "alone")
        os.mkdir(d)
        ALONE[name] = play([name], d)[0]
    return ALONE[name]


def judge(ch, names):
    d = os.path.join(ch.scratch, "here")
    os.mkdir(d)
    got = play(names, d)
    ch.calls += len(names)
    for k, n in enumerate(names):
        res, left = got[k]
        want, _ = alone(ch, n)
        ch.check(not (isinstance(res, tuple) and res and res[0] in ("SystemExit", "raised")), "{}: {} after {}", n, res, names[:k])
        ch.check(not left, "{} changed the process: {}", n, left)
        ch.check(res == want, "{} gives another result after {}: {}", n, names[:k], where(res, want))
    ch.state((names[-1], repr(got[-1][0])[:2000]))


def where(a, b, path=""):
    if type(a) == type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, path + "[%d]" % i)
    return "{} {!r} instead of {!r}".format(path, str(a)[:300], str(b)[:300])


def pairs(ch):
    """Every call after every other one (and after itself), then the first one again."""
    b = ch.free("call", NAMES)
    a = ch.free("after", ["nothing"] + NAMES)
    judge(ch, [b] if a == "nothing" else [a, b, a])


def triples(ch):
    """A failed call, then any two."""
    b = ch.free("call", NAMES)
    a = ch.free("after", NAMES)
    c = ch.free("after first", SIDE)
    judge(ch, [c, a, b])


def drivers(tier):
    out = [Driver("pairs", pairs, 0, "every ordered pair (a, b) of {} calls, as a, b, a in a process of its own".format(len(NAMES)))]
    if tier == "thorough":
        out.append(Driver("triples", triples, 0, "a failed call, then every ordered pair"))
    return out
