"""Writes DESIGN.md from design.md.in, the properties, known findings, evidence of the last run and seeded bugs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
from props import P

D = {
"C01": ("The reference model of a deck (nested dict after rounding each number to what its field can hold). Drivers: one material with every field present/absent/None, three materials (every record shape following every other), RPCAP/FLAC models and defaults.", "write, read, compare field by field; write again and compare the text."),
"C02": ("As C01, for PARAM (lists of 0-13 time steps, options, default initial conditions), MULTI/SOLVR/START/MOMOP/TIMES/FOFT/COFT/GOFT/DIFFU, SELEC (any number of integers and floats) and OUTPU.", "as C01; absent options must stay absent."),
"C03": ("One generator with every optional field; several elements; *stacks*: every sequence of 1-3 generators of five kinds (constant, constant with enthalpy, table, table with enthalpy, named) in one element, the next element following.", "as C01, tables aligned with times."),
"C04": ("ELEME, COORD, CONNE, INCON with labels of 5-9 characters from name alphabets (usual, numeric, lower case, with blanks), every optional field, 1-8 primary variables, orders; a driver with many records.", "as C01."),
"C05": ("Presence of every block, from the empty and from the complete deck (up to 3/4 additions or removals), and each `block=` selector.", "the block's value alone vs in company; terminators present."),
"C06": ("All families of C01-C04.", "independent fixed-column *decoder*: the value of each column range is the parameter's, rounded to the best representation the field allows."),
"C07": ("All families x `Style` (number notation E/D/sign-only, alignment, short records, terminators, block order, comments, generators' records mixed), encoded by an independent *encoder*; partial files (MESH, INCON, GENER alone).", "read_input gives the model."),
"C08": ("All families, numpy containers and scalars.", "JSON -> same parameters, int keys restored; TOUGH -> JSON -> TOUGH gives the same text."),
"C09": ("Every history of two earlier calls out of 21 (reads and writes of decks that use the module-level defaults), then every probe.", "deep snapshot of the arguments; answer equal to that of a fresh process."),
"C10": ("Full product field x wrong type (empty values included); inconsistent generator tables; unknown EOS/format/arguments; unknown names in up to two places.", "an error, and the target file byte-identical; unknown names: same deck as without them."),
"C11": ("Every prefix (each byte) of seven reference decks; every file of at most 3 records from a menu of 20.", "ends within the step budget; complete blocks hold their values."),
"C12": ("Tables: rows, steps, coordinates, names, extreme values, close times, containers, labels of 5-9, options that do not apply; all permutations of 4 labels.", "independent decoders of what is written; independent encoders (notation, spacing, quoting, units) of what is read; conversions between the formats."),
"C13": ("Listings: tables per step, pages, blank values, glued numbers (with or without leading zeros), exponents without E, label shapes, columns.", "every printed number under its label and column."),
"C14": ("SAVE files: variables 1-8, porosity and user data, notation, counters.", "read_output, read_input, save2incon and the restart file against the model; refusals leave the target."),
"C15": ("History files: header styles, columns, rows, notation.", "each printed number, in order, under its name."),
"C16": ("Every byte of reference outputs (csv, PetraSim, Tecplot, listing, SAVE, history) and meshes (AVS-UCD, FLAC3D both, Tecplot, MESH, pickle).", "ends within the budget; complete steps hold their values."),
"C17": ("Library of conformal meshes of tetrahedra, pyramids, wedges, hexahedra and mixes x 9 transforms (scale, rotation, shear, projective: non-parallel planar faces, mirrored, large offsets, nanometers) x renumberings of points, cells and vertices x number types and layouts of the arrays (integers, unsigned bytes, lists, strided, read-only).", "volumes, centers, faces, areas, normals, connections and qualities derived from coordinates by divergence theorem and vertex sets; tolerance 1e-9 relative."),
"C18": ("Numbers of cells around every carry, lengths 5-9, several meshes in a row; all 3 185 000 labels of 5 characters.", "validity, uniqueness, stability, length."),
"C19": ("Meshes x transforms x materials x label length x coordinates on/off, pool, ordering.", "independent decode of ELEME/COORD: label, material, volume, center of each cell to field precision."),
"C20": ("As C19 for CONNE: nodal distances `line`/`orthogonal`, gravity, anisotropy.", "each adjacent pair exactly once with distances, area, beta and ISOT."),
"C21": ("Initial conditions/porosity/permeability/user data: given, undefined, partly defined, each sign, per cell.", "decoded INCON holds exactly the cells with something."),
"C22": ("Full product of spacings, origin, layer order, units (nanometers to kilometers), number types; all subsets of a 3x3 cloud, all orders of voxel centers.", "box volume, order, neighbours; hull area and use of each point."),
"C23": ("Spacings, origins, layer order, edits before writing.", "annulus volumes, areas and distances, in the mesh and in MESH."),
"C24": ("2D meshes x heights x axis x data (scalars, vectors, tensors) x number types x in place.", "levels, volumes, layers' data; source unchanged unless asked."),
"C25": ("Meshes x duplicated points (zeros of both signs) and cells x blocks x data (scalars, vectors, tensors).", "reference pruning; idempotent."),
"C26": ("Every history of edits up to depth 3/4 from several initial meshes.", "reference model of material and data of each cell after each step; copies share nothing."),
"C27": ("Meshes x numbering x data shapes (scalars, vectors, tensors, one column) and types.", "means computed from the cell list."),
"C28": ("Meshes x numbering x lower-dimensional cells x data x names x options; foreign files (FLAC3D ASCII and binary: slots, degenerate bricks, comments, blank lines).", "same mesh back; independent encoders for files of other programs."),
"C29": ("Meshes x data x material keys; meshio and PyVista objects; files meshio writes.", "same cells in order, same data and names; the source is not modified."),
"C30": ("Every permutation of rows of small meshes x steps x sources x kinds of data.", "value of each cell is that printed under its label; flows are the vector sum of outgoing connections."),
"C31": ("Meshes (small cells far away included, data with the names of other things) x query points; every combination of limits around every center.", "brute-force distances; comparison of centers with limits."),
"C32": ("Meshes x all orders of times (equal and nearly equal ones included) x data x containers.", "steps sorted, each with its data."),
"C33": ("Full product of functions x parameters x saturations at and next to every breakpoint.", "independent formulas; bounds; monotonicity; scalar = array; refusals."),
"C34": ("As C33.", "as C33."),
"C35": ("Listings x mesh orders x formats x options.", "independent decoders; positions from the mesh."),
"C36": ("Meshes and clouds in 1D-3D (far from the origin too) x order of rows x steps x formats x options.", "value at each position."),
"C37": ("Decks x INCON x end records x final newlines x folders x target.", "independent text composition and read_input of the merged deck."),
"C38": ("Every history of up to 4/5 registrations and calls over 2 names and 2 extensions; every format x extension x case; files and folders named like extensions.", "reference model of the registries."),
"C40": ("Every history of edits (17 kinds) up to depth 3/4 from four meshes; all 22 views asked twice, in two orders, before and after each edit.", "the answers of a mesh built from scratch with the same contents; the mesh and an earlier mesh unchanged."),
"C41": ("Every ordered pair of 87 calls over all public functions and commands, as a, b, a (thorough: also after each of the failing calls), on shared objects and the same file names; every history in a forked process.", "each call alone in a fresh process; arguments, targets and the state of the process (folder, environment, open files, numpy settings, random numbers, argv, streams) compared."),
"C42": ("29 files of every text format x line ends (LF, CRLF, mixed) x final newline x trailing blanks x blank lines at the end; 7 commands x which files are rewritten.", "what is read from the plain file."),
"C39": ("Directories x existing files x repetition.", "byte equality; nothing else touched."),
}
import importlib
sys.path.insert(0, root)
out = ["## 3. Properties", "", "`b` is the deviation bound (quick); executions and states are those of the last quick run on the committed tree.", ""]
for p in P:
    i = p["prop"]["id"]; space, oracle = D[i]
    try:
        e = json.load(open(os.path.join(root, "tools", "quick.json")))[i]
    except (OSError, KeyError):
        e = None
    out.append("**%s - %s.**  " % (i, p["prop"]["title"]))
    out.append("*Explored:* " + space + "  ")
    out.append("*Oracle:* " + oracle + "  ")
    if e:
        out.append("*Quick:* " + e + ".  ")
    out.append("")
fx = json.load(open(os.path.join(root, "known_findings.json")))["fixed"]
f = ["| property | commit | what failed |", "|---|---|---|"]
for x in fx:
    _, a, c, *w = x.split(" ")
    f.append("| %s | %s | %s |" % (a.split("=")[1], c, " ".join(w).replace("|", "/")))
try:
    C = json.load(open(os.path.join(root, "tools", "caught.json")))
except OSError:
    C = {}
s = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    s.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), C.get(b, "?")))
t = open(os.path.join(here, "design.md.in")).read()
t = t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@FIXES@@", "\n".join(f)).replace("@@SEEDED@@", "\n".join(s))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
