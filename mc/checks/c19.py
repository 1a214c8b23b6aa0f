"""Blocks ELEME and COORD of a MESH file written from a mesh."""
import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .. import mesh_file as F
from .. import ref_input as RI

ASSUMPTIONS = ["material names of 1-5 characters (longer ones are cut to the field); label length that suffices"]

NAMES = ["ROCK1", "SAND", "A", "B 12", "dfalt"]


def write(ch, long=False):
    p, blocks = M.topology(ch, ["2x2x2", "tower and pair", "hexahedron", "6 tetras", "2 wedges"], renumber=False)
    p, tr = M.transform(ch, p, ["identity", "scale", "rotate", "large"])
    cells = M.flat(blocks)
    n = len(cells)
    L = ch.free("label length", [8, 9]) if long else ch.choose("label length", [None, 5, 6, 7])
    kind = ch.choose("materials", ["names", "integers", "unnamed integer", "absent"])
    names = list(NAMES)
    ids = [1, 2, 3, 4, 5] if ch.choose("ids", ["small", "large"]) == "small" else [7, 3, 12, 1, 40]
    assign = []
    for i in range(n):
        assign.append(ch.choose("material of cell {}".format(i), [i % 3, 3, 4, 0, 1]) if i in (0, 1, n - 1) else i % 3)
    cd, fd = {}, {}
    if kind != "absent":
        cd["material"] = np.array([ids[a] for a in assign])
        if kind != "integers":
            skip = 2 if kind == "unnamed integer" else None
            fd = {nm: np.array([ids[k], 3]) for k, nm in enumerate(names) if k != skip}
    if kind == "names":
        mats = [names[a] for a in assign]
    elif kind == "absent":
        mats = [1] * n
    else:
        mats = [ids[a] for a in assign]
        if kind == "unnamed integer" and 2 not in assign:
            mats = [names[a] for a in assign]
    bcs = ch.choose("boundary cells", [None, "first", "last", "all", "none", "bool", "twos", "negative", "floats"])
    bc = {"twos": [2] + [0] * (n - 2) + [3] * (n > 1), "negative": [0] * (n - 1) + [-1], "floats": [0.5] + [0.0] * (n - 1), None: None, "first": [1] + [0] * (n - 1), "last": [0] * (n - 1) + [1], "all": [1] * n, "none": [0] * n, "bool": [True] + [False] * (n - 1)}[bcs]
    if bc is not None:
        cd["boundary_condition"] = np.array(bc)
    key = lambda k: names[k] if kind == "names" else mats[0]
    rename = ch.choose("material_name", [None, {}, {key(0): "NEW"}, {key(1): "NEW12", key(0): key(1)}, {key(2): "Z"}, {"nope": "NEW"}])
    end = ch.choose("material_end", [None, key(0) if kind == "names" else [key(0)], [key(1)], (key(2), key(0)), [], ["nope"], [key(0), key(1), key(2), key(0)]])
    coord = ch.choose("coord", [False, True])
    m = M.build(p, blocks, how=M.arrays(ch), cell_data=cd, field_data=fd)
    m.label_length = L
    before = M.snap(m)
    kw = {}
    if rename is not None:
        kw["material_name"] = rename
    if end is not None:
        kw["material_end"] = end
    if coord:
        kw["coord"] = True
    f = ch.path("MESH")
    how = ch.choose("call", ["write", "write_tough", "write_mesh"])
    if how == "write":
        ch.call("Mesh.write", m.write, f, file_format="tough", **kw)
    elif how == "write_tough":
        ch.call("Mesh.write_tough", m.write_tough, f, **kw)
    else:
        ch.call("write_mesh", toughio.write_mesh, f, m, file_format="tough", **kw)
    text = open(f).read()
    D = RI.decode(text, L or 5, have_title=False)
    ends = [end] if isinstance(end, str) else list(end or [])
    F.check_eleme(ch, D, p, blocks, mats, L or 5, bc, rename, ends, coord)
    ch.check(M.snap(m) == before, "writing MESH modified the mesh")
    ch.state(text)
    if how == "write":
        back = ch.call("read_mesh", toughio.read_mesh, f, "tough", label_length=L or 5)
        ch.check(list(back["elements"]) == D["elements_order"], "read_mesh lists other elements")


def many(ch):
    """Many cells, many materials."""
    kind = ch.free("cells", ["hexahedron", "mixed"])
    n = ch.free("size", Z.sizes(ch.tier, 2049 * (1 if ch.tier == "quick" else 8), kind == "hexahedron"))
    nm = ch.free("materials", Z.some(n, [3, 40]))
    L = ch.free("label length", Z.some(n, [5, 7]))
    p, c = M.strip(kind, n)
    blocks = M.group(c, True)
    n = len(c)
    names = ["R{}".format(k) for k in range(nm)]
    mats = [names[(i * 7 + i // 50) % nm] for i in range(n)]
    bc = [int(i % 101 == 3 or i == n - 1) for i in range(n)]
    m = M.build(p, blocks, cell_data={"material": np.array([names.index(x) + 1 for x in mats]), "boundary_condition": np.array(bc)}, field_data={x: np.array([k + 1, 3]) for k, x in enumerate(names)})
    m.label_length = L
    f = ch.path("MESH")
    end = ch.free("material_end", Z.some(n, [None, names[1]]))
    ch.call("Mesh.write_tough", m.write_tough, f, **({"material_end": end} if end else {}))
    D = RI.decode(open(f).read(), L, have_title=False)
    F.check_eleme(ch, D, p, blocks, mats, L, bc, None, [end] if end else [], False)
    back = ch.call("read_mesh", toughio.read_mesh, f, "tough", label_length=L)
    ch.check(list(back["elements"]) == D["elements_order"], "read_mesh lists other elements")
    ch.state((kind, n, nm, L, end))


def extreme(ch):
    """Numbers whose exponents have three digits stay in their fields."""
    p, blocks = M.topology(ch, ["2x2x2", "hexahedron", "2 wedges", "6 tetras"], renumber=False)
    k = ch.free("scale", [1.0e34, 1.0e60, 1.0e-40, 1.0e-60])
    p = [tuple(k * x for x in q) for q in p]
    if ch.free("side", ["+", "-"]) == "-":
        p = [tuple(-x for x in q) for q in p]
    n = len(M.flat(blocks))
    bc = ch.free("boundary cells", [None, [1] + [0] * (n - 1)])
    m = M.build(p, blocks, cell_data={} if bc is None else {"boundary_condition": np.array(bc)})
    f = ch.path("MESH")
    L = ch.free("label length", [5, 9])
    m.label_length = L
    how = ch.free("nodal distance", ["line", "orthogonal"])
    coord = ch.free("coord", [False, True])
    ch.call("Mesh.write_tough", m.write_tough, f, nodal_distance=how, coord=coord)
    text = open(f).read()
    ch.check(max(len(l.rstrip()) for l in text.split("\n")) <= 80, "records are longer than 80 columns")
    D = RI.decode(text, L, have_title=False)
    F.check_eleme(ch, D, p, blocks, [1] * n, L, bc, None, [], coord)
    F.check_conne(ch, D, p, blocks, L, how, bc)
    ch.state(text)


def drivers(tier):
    b = 3 if tier == "quick" else 4
    return [Driver("long labels", lambda ch: write(ch, True), b - 3), Driver("eleme", write, b), Driver("extreme", extreme, 1), Driver("many", many, 0, "many cells", cpu=120)]
