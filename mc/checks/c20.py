"""Block CONNE of a MESH file written from a mesh."""
import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M
from .. import mesh_file as F
from .. import ref_input as RI

ASSUMPTIONS = ["conformal meshes with planar faces; ISOT is judged only when the connection is clearly along or clearly off an axis"]


def write(ch, long=False):
    p, blocks = M.topology(ch)
    p, tr = M.transform(ch, p)
    n = len(M.flat(blocks))
    L = ch.free("label length", [8, 9]) if long else ch.choose("label length", [None, 5, 6, 7])
    how = ch.free("nodal distance", ["line", "orthogonal"])
    bcs = ch.choose("boundary cells", [None, "first", "last", "all", "none"])
    bc = {None: None, "first": [1] + [0] * (n - 1), "last": [0] * (n - 1) + [1], "all": [1] * n, "none": [0] * n}[bcs]
    m = M.build(p, blocks, how=M.arrays(ch), cell_data={} if bc is None else {"boundary_condition": np.array(bc)})
    m.label_length = L
    f = ch.path("MESH")
    kw = {} if how == "line" and ch.flag("default nodal distance") else {"nodal_distance": how}
    ch.call("Mesh.write_tough", m.write_tough, f, **kw)
    text = open(f).read()
    D = RI.decode(text, L or 5, have_title=False)
    F.check_conne(ch, D, p, blocks, L or 5, how, bc)
    ch.state(text)


def many(ch):
    """Many connections."""
    kind = ch.free("cells", ["hexahedron", "mixed", "tetra", "fan"])
    n = ch.free("size", Z.sizes(ch.tier, (257 if kind == "tetra" else 1025) * (1 if ch.tier == "quick" else 8), kind == "hexahedron"))
    L = ch.free("label length", Z.some(n, [5, 7]))
    how = ch.free("nodal distance", Z.some(n, ["line", "orthogonal"]))
    p, c = M.strip(kind, n)
    blocks = M.group(c, True)
    bc = [int(i % 101 == 3) for i in range(len(c))]
    m = M.build(p, blocks, cell_data={"boundary_condition": np.array(bc)})
    m.label_length = L
    f = ch.path("MESH")
    ch.call("Mesh.write_tough", m.write_tough, f, nodal_distance=how)
    F.check_conne(ch, RI.decode(open(f).read(), L, have_title=False), p, blocks, L, how, bc)
    ch.state((kind, n, L, how))


def refuse(ch):
    p, blocks = M.LIB["2 wedges"]()
    m = M.build(M.ints(p), M.group(blocks, True))
    kw, err = ch.free("argument", [({"nodal_distance": "foo"}, ValueError), ({"material_name": "A"}, TypeError), ({"material_end": 3}, TypeError), ({"incon": 1}, TypeError)])
    f = ch.path("MESH")
    with open(f, "w") as g:
        g.write("precious\n")
    ch.raises("Mesh.write_tough", (err,), m.write_tough, f, **kw)
    ch.check(open(f).read() == "precious\n", "the refused call overwrote the target")


def drivers(tier):
    b = 3 if tier == "quick" else 4
    return [Driver("long labels", lambda ch: write(ch, True), b - 3), Driver("conne", write, b), Driver("refuse", refuse, 0), Driver("many", many, 0, "many connections", cpu=120)]
