"""Volumes, centers, faces, normals, areas, connections and qualities of meshes."""
import numpy as np
import toughio

from ..engine import Driver
from .. import long as Z
from .. import mesh_common as M

ASSUMPTIONS = [
    "conformal meshes of first-order cells with planar faces and star-shaped cells; points and cells unique; coordinates as floats, integers or lists, indices as integers of any size, arrays in any memory layout",
    "affine and projective images of a library of small meshes; floating-point tolerance 1e-9 relative",
]


def close_pts(a, b, scale):
    return all(abs(x - y) <= 1e-9 * scale for x, y in zip(a, b))


def geometry(ch):
    p, blocks = M.topology(ch)
    p, tr = M.transform(ch, p)
    judge(ch, p, blocks, tr, M.arrays(ch))


def long(ch):
    """Meshes of many cells."""
    kind = ch.free("cells", ["hexahedron", "wedge", "tetra", "mixed", "fan"])
    n = ch.free("size", Z.sizes(ch.tier, (513 if kind == "tetra" else 1025) * (1 if ch.tier == "quick" else 5), kind == "hexahedron"))
    p, c = M.strip(kind, n)
    judge(ch, p, M.group(c, True), "identity")


def judge(ch, p, blocks, tr, how=None):
    m = M.build(p, blocks, how=how)
    before = M.snap(m)
    cells = M.flat(blocks)
    scale = max(abs(x) for q in p for x in q)
    cent = ch.call("centers", lambda: m.centers)
    vol = ch.call("volumes", lambda: m.volumes)
    faces = ch.call("faces", lambda: m.faces)
    normals = ch.call("face_normals", lambda: m.face_normals)
    areas = ch.call("face_areas", lambda: m.face_areas)
    conn = ch.call("connections", lambda: m.connections)
    adj = M.adjacency(p, blocks)
    ch.check(len(cent) == len(vol) == len(faces) == len(normals) == len(areas) == len(conn) == len(cells), "lengths differ from the number of cells")
    links = {}
    for (a, b), sh in adj.items():
        links.setdefault(a, []).append((b, sh))
        links.setdefault(b, []).append((a, sh))
    sizes = [min(M.norm(M.sub(p[a], p[b])) for a in c for b in c if a != b) for _, c in cells]
    for i, cell in enumerate(cells):
        s = sizes[i]
        tol = max(1e-9, 1e-13 * scale / s)  # rounding of coordinates relative to the shortest edge
        v = M.volume(p, cell)
        ch.check(M.close(float(vol[i]), v, tol, 0), "volume of cell {} ({}) is {} instead of {}", i, cell[0], vol[i], v)
        g = M.mean([p[k] for k in cell[1]])
        ch.check(close_pts(cent[i], g, scale), "center of cell {} is {} instead of {}", i, list(cent[i]), g)
        ref = {frozenset(f[0]): f for f in M.cell_faces(p, cell)}
        got = [tuple(int(x) for x in f if x >= 0) for f in faces[i] if (f >= 0).any()]
        ch.check({frozenset(f) for f in got} == set(ref) and len(got) == len(ref), "faces of cell {} are {} instead of {}", i, got, [f[0] for f in ref.values()])
        ch.check(len(normals[i]) == len(areas[i]) == len(got), "cell {}: {} faces, {} normals, {} areas", i, len(got), len(normals[i]), len(areas[i]))
        for k, f in enumerate(got):
            vs, fc, a = ref[frozenset(f)]
            if len(f) == 4:      # listed around the face, not across
                ring = {frozenset(e) for e in zip(vs, vs[1:] + vs[:1])}
                ch.check({frozenset(e) for e in zip(f, f[1:] + f[:1])} == ring, "face {} of cell {} is not listed around", f, i)
            A = M.norm(a)
            ch.check(M.close(float(areas[i][k]), A, tol, 0), "area of face {} of cell {} is {} instead of {}", f, i, areas[i][k], A)
            n = [float(x) for x in normals[i][k]]
            c = M.dot(n, a) / A
            ch.check(abs(M.norm(n) - 1) < 1e-9 and abs(abs(c) - 1) < 10 * tol, "normal of face {} of cell {} is {}", f, i, n)
            if tr != "mirror":
                ch.check(c > 0, "normal of face {} of cell {} points inwards", f, i)
            owner = [j for j, sh in links.get(i, []) if sh == frozenset(f)]
            want = owner[0] if owner else -1
            ch.check(int(conn[i][k]) == want, "cell {} face {} is connected to {} instead of {}", i, f, conn[i][k], want)
        ch.check(all(int(x) == -1 for x in conn[i][len(got):]), "cell {} has connections beyond its faces: {}", i, conn[i])
    linked = {i for pair in adj for i in pair}
    if len(linked) == len(cells):
        q = ch.call("qualities", lambda: m.qualities)
        for i in range(len(cells)):
            w = min(M.connection(p, blocks, min(i, j), max(i, j), sh, cells)["quality"] for j, sh in links[i])
            ch.check(abs(float(q[i]) - w) < max(1e-8, 1e-12 * scale / sizes[i]), "quality of cell {} is {} instead of {}", i, q[i], w)
    ch.check(M.snap(m) == before, "asking for geometry modified the mesh")
    ch.state((M.snap(np.asarray(vol)), M.snap(np.asarray(conn)), M.snap(faces)))


def drivers(tier):
    return [Driver("geometry", geometry, 4 if tier == "quick" else 6, what="library of conformal meshes x numbering x cell order x vertex order x transform"),
            Driver("long", long, 0, what="many cells", cpu=120)]
