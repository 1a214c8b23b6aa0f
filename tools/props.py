"""Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


W = "toughio/_io/input/tough/_write.py"
R = "toughio/_io/input/tough/_read.py"
H = "toughio/_io/input/tough/_helpers.py"
CM = "toughio/_common.py"
IH = "toughio/_io/input/_helpers.py"
J = "toughio/_io/input/json/_json.py"

RT = "stateless bounded-exhaustive exploration of the real writer and reader against a reference parameter model"
RTN = ("Every choice vector of the driver's alphabet up to the deviation bound is executed on the real code and the result compared, field by "
       "field, with an independently written model of the deck. Exhaustive within those bounds; nothing is claimed for values outside the alphabet "
       "or for more simultaneous deviations than the bound.")

prop("C01", "Materials survive writing and reading a TOUGH input file",
     "Writing any valid set of materials (rock properties, second-record properties, relative permeability and capillarity models, initial conditions, "
     "FLAC models, default models, rocks order) with write_input and reading it back with read_input gives the same materials, same order and same values, "
     "to the precision of the fixed-column field. Writing what was read again gives the same text.",
     ["inputs", "programs"], "every dictionary of 1-3 materials whose optional parameters are present, absent or None in any combination up to the deviation bound, over value alphabets that include extreme exponents, negative, integer, zero and array forms",
     "Tests round-trip one random deck per block with friendly values; which optional records are emitted depends on the combination of parameters present.",
     [W, R, H, CM, IH], [("_write_rocks/_write_rpcap/_write_indom/_write_flac", W), ("_read_rocks/_read_rpcap/_read_indom/_read_flac", R), ("fixed-column formats", CM)],
     ["toughio.write_input", "toughio.read_input"], RT, RTN)
prop("C02", "Run-control blocks survive writing and reading a TOUGH input file",
     "EOS/MULTI, SOLVR, START, PARAM (options, extra options, default initial condition, time steps), MOMOP, SELEC, TIMES, FOFT/COFT/GOFT, DIFFU, OUTPU and NOVER "
     "settings read back equal what was written, to field precision. Options that were not given do not appear with other values, and writing again gives the same text.",
     ["inputs"], "every combination of present, absent and None options up to the deviation bound, list lengths around every record boundary (4, 5, 8 values per record)",
     "Record counts, continuation counters and sign conventions depend on list lengths and on which neighbours are absent; tests sample one length.",
     [W, R, H, CM, IH], [("_write_param/_write_selec/_write_times/...", W), ("_read_param/_read_selec/_read_times/...", R)],
     ["toughio.write_input", "toughio.read_input"], RT, RTN)
prop("C03", "Generators survive writing and reading a TOUGH input file",
     "Every set of generators (single or several per element, constant or time-dependent rates, with or without specific enthalpies, names, layer thickness and repetition counts) "
     "reads back attached to the same element with the same aligned tables, to field precision.",
     ["inputs"], "one to three generators per element in every mix of constant/tabulated rates and enthalpies, table lengths 1 to 9 around the 4-values-per-record boundary",
     "Tests use one table length and one mix; misalignment needs a specific mix of absent and present tables or a particular length.",
     [W, R, H, IH], [("_write_gener", W), ("_read_gener", R)], ["toughio.write_input", "toughio.read_input"], RT, RTN)
prop("C04", "Elements, connections and initial conditions survive a TOUGH input file",
     "Elements, coordinates, connections and initial conditions read back with the same labels, order, materials (names or indices), geometry, porosity, user data and primary "
     "variables, for element labels of 5 to 9 characters, to field precision.",
     ["inputs"], "label lengths 5-9, optional fields present/absent/None per record up to the deviation bound, all numbers of primary variables 1-8, explicit and partial orders",
     "Column offsets depend on label length and on which optional fields are blank; tests sample one random deck for each length.",
     [W, R, H, CM], [("_write_eleme/_write_coord/_write_conne/_write_incon", W), ("_read_eleme/_read_coord/_read_conne/_read_incon", R), ("get_label_length", CM)],
     ["toughio.write_input", "toughio.read_input"], RT, RTN)
prop("C05", "Blocks compose: a deck holds exactly the requested blocks, undisturbed",
     "A deck written from any subset of blocks reads back to exactly these blocks with the values each has when written alone, and block='gener', 'mesh' or 'incon' writes only that part. "
     "Decks written this way end properly and every block is closed.",
     ["inputs", "configurations"], "every subset of blocks obtained from the full deck and from the empty deck by up to the bound of removals/additions, for each block selector",
     "2^20 subsets; tests write one block at a time.", [W, R], [("write_buffer block selection", W), ("read dispatch loop", R)],
     ["toughio.write_input", "toughio.read_input"], RT, RTN)
prop("C06", "Written TOUGH input follows the fixed-column format",
     "Every record write_input produces places each value in the columns the TOUGH2 format assigns to it, values keep the most digits their field can hold and never overflow into the next field (an integer too large for its field is refused), "
     "blocks are headed and terminated as the format requires.",
     ["inputs"], "the parameter alphabets of C01-C04, decoded by an independent fixed-column decoder",
     "A reader and writer that share a format table can be wrong together; tests compare only the pair.",
     [W, H, CM], [("block_to_format", CM), ("write_record/to_str", CM)], ["the file written by toughio.write_input"],
     "bounded-exhaustive enumeration of decks; independent fixed-column decoder as oracle", RTN + " The column tables are transcribed from the TOUGH2 manual and trusted.")
prop("C07", "Any well-formed TOUGH input file is read with the values it contains",
     "read_input returns the values a deck holds whatever legal way it was formatted: number notation (E, D, sign-only exponents), alignment in the field, short records, block order, "
     "comments after the block keyword, blank or '+++' terminators, missing optional blocks, trailing text after ENDCY.",
     ["inputs", "configurations"], "decks from an independent encoder over formatting styles x block permutations x parameter alphabets up to the deviation bound",
     "Files written by other pre-processors are formatted differently from toughio's own output; tests read what toughio wrote.",
     [R, H, CM], [("read dispatch loop", R), ("read_record/to_float", CM)], ["toughio.read_input"],
     "bounded-exhaustive enumeration of decks from an independent encoder, read by the real reader", RTN)
prop("C08", "JSON input files round-trip parameters",
     "write_input followed by read_input in JSON format returns the same parameters (arrays as lists, integer-keyed options with integer keys), for every valid parameter set; "
     "a TOUGH deck converted to JSON and back writes the same deck.",
     ["inputs"], "the parameter alphabets of C01-C04, numpy scalars and arrays, non-finite and None values",
     "Tests serialise one dictionary; key types and numpy types depend on the parameters present.", [J, IH], [("json default hook and key restoration", J)],
     ["toughio.write_input", "toughio.read_input"], RT, RTN)
prop("C09", "Reading and writing input files is pure",
     "write_input never modifies the parameters it is given, read_input gives independent objects, and the result of a call does not depend on the calls made before it in the same process.",
     ["histories", "inputs"], "every history of earlier calls up to the depth bound, then every probe call, compared with a fresh process' answer",
     "Module-level default dictionaries are shared; a leak shows only in particular call histories.", [W, R, H, IH, "toughio/_io/input/tough/_common.py"],
     [("deepcopy of defaults", W), ("module-level default dicts", "toughio/_io/input/tough/_common.py")], ["toughio.write_input", "toughio.read_input"],
     "exhaustive enumeration of call histories on the real code, compared with the history-free answer", RTN)
prop("C10", "Invalid input parameters are refused and nothing is overwritten",
     "write_input raises for parameters of a wrong type and for inconsistent generator tables, more values than a record holds, an unknown EOS or an unknown format, and leaves an existing target file untouched when it does. "
     "Unknown parameter names are ignored without changing the deck, and read_input refuses unusable arguments.",
     ["inputs"], "every checked parameter x every wrong type, every inconsistent-table case, unknown names in any two places",
     "Tests check a couple of wrong types per block.", [W, H, IH], [("check_parameters", H), ("write: buffer first, then open", W)], ["toughio.write_input", "toughio.read_input"],
     "bounded-exhaustive enumeration of invalid calls on the real code", RTN)
prop("C11", "Reading a truncated or foreign input file ends, and complete blocks are kept",
     "read_input always terminates, by returning or by raising an error, on every prefix of a deck and on decks with foreign lines; when it returns, the blocks that were complete hold the right values.",
     ["crash_points", "inputs"], "every truncation point (each line and bytes within lines) of reference decks, every single foreign line at every position",
     "Unterminated blocks make read loops run past end of file; tests never read an incomplete file.", [R], [("block readers' loops", R), ("FileIterator", CM)],
     ["toughio.read_input"], "exhaustive crash-point enumeration (every prefix of a file) on the real reader", RTN)

O_ = "toughio/_io/output/"
OC = O_ + "_common.py"
prop("C12", "Simulator output tables survive csv, PetraSim and Tecplot files",
     "write_output followed by read_output gives the same time steps, labels, variables and values (to the precision each format stores), for element and connection tables, one or several steps; "
     "tables written by another program in the same format, whatever legal notation and spacing, are read with the values they hold; labels_order reorders every step consistently.",
     ["inputs", "configurations"], "every table up to the deviation bound over numbers of rows, steps, variables, coordinates, names, extreme values, and (foreign files) notation and spacing styles; every permutation of labels up to 4 rows",
     "Column alignment, step boundaries and label/value pairing depend on the combination of sizes and names; the stable tests hold no such file for most formats.",
     [O_ + "csv/_csv.py", O_ + "petrasim/_petrasim.py", O_ + "tecplot/_tecplot.py", OC, O_ + "_helpers.py"],
     [("read/write csv", O_ + "csv/_csv.py"), ("read/write petrasim", O_ + "petrasim/_petrasim.py"), ("read/write tecplot", O_ + "tecplot/_tecplot.py"), ("to_output, reorder_labels", OC)],
     ["toughio.write_output", "toughio.read_output"],
     "stateless bounded-exhaustive exploration of the real writer and reader; independent encoders and decoders as oracle", RTN)
prop("C13", "TOUGH listings are read with every printed value in its place",
     "read_output of a TOUGH listing returns, for element or connection tables, every printed step with its time, the label of every row and each printed number under its own column: rows interrupted by page "
     "headers, several tables per step, blank values, numbers without blanks between them or without an E, and labels of 5 to 9 characters with blanks inside.",
     ["inputs", "configurations"], "listings from an independent encoder, every layout up to the deviation bound",
     "The only listings in the tests are git-lfs pointers; column detection depends on the first rows and on negative or three-digit exponents.",
     [O_ + "tough/_tough.py", OC, O_ + "_helpers.py"], [("_read_table / _read_eleme / _read_conne column detection", O_ + "tough/_tough.py"), ("to_output", OC)], ["toughio.read_output"],
     "bounded-exhaustive enumeration of listings from an independent encoder, read by the real reader", RTN)
prop("C14", "SAVE files are read and turned into INCON without loss",
     "read_output and read_input of a SAVE file return every element's porosity, user data and primary variables (one or two records) under its label, and save2incon writes an INCON file with the same initial "
     "conditions (counters reset only when asked) that is a valid restart; an invalid SAVE file is refused and the target left alone.",
     ["inputs", "configurations"], "every SAVE file up to the deviation bound over number of elements, variables 1-8, label lengths, porosity and user data present or not, notation, option reset",
     "Tests convert two files; the second record and optional fields are data dependent.",
     [O_ + "save/_save.py", "toughio/_cli/_save2incon.py", R], [("read", O_ + "save/_save.py"), ("save2incon", "toughio/_cli/_save2incon.py")],
     ["toughio.read_output", "toughio.read_input", "toughio-save2incon"],
     "bounded-exhaustive enumeration of SAVE files from an independent encoder, run through the real readers and converter", RTN)
prop("C15", "History files are read with every value under its own name",
     "read_history of a history file (FOFT/COFT/GOFT, quoted-csv or blank-separated) returns one array per named column holding exactly the printed numbers in order.",
     ["inputs", "configurations"], "every history file up to the deviation bound over header style, number of columns and rows, names, number notation and spacing",
     "Header parsing and column splitting depend on names and on how numbers are printed.",
     [O_ + "_helpers.py", H], [("read_history", O_ + "_helpers.py"), ("str2float", H)], ["toughio.read_history"],
     "bounded-exhaustive enumeration of files from an independent encoder, read by the real reader", RTN)
prop("C16", "Output and mesh files cut anywhere: reading ends, complete parts are right",
     "Reading an output, SAVE, history or mesh file cut after any byte terminates by returning or raising; when it returns, the time steps (records of SAVE, history and FLAC3D files) that were complete hold the values that were written.",
     ["crash_points"], "every byte of reference files of every output and mesh format",
     "A simulator killed by a time limit leaves a file cut anywhere; tests read complete files.",
     [O_ + "csv/_csv.py", O_ + "petrasim/_petrasim.py", O_ + "tecplot/_tecplot.py", O_ + "tough/_tough.py", O_ + "save/_save.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/flac3d/_flac3d.py"],
     [("readline loops", O_ + "tecplot/_tecplot.py"), ("_read_zone_data", "toughio/_mesh/tecplot/_tecplot.py")], ["toughio.read_output", "toughio.read_mesh", "toughio.read_history"],
     "exhaustive crash-point enumeration (every prefix of a file) on the real readers", RTN)

M_ = "toughio/_mesh/_mesh.py"
MP = "toughio/_mesh/_properties.py"
MT = "toughio/_mesh/tough/_tough.py"
MH = "toughio/_mesh/_helpers.py"
MC_ = "toughio/_mesh/_common.py"
MM = "toughio/meshmaker/"
EX = "stateless bounded-exhaustive exploration of the real code against an independently written reference model"
ENUM = "bounded-exhaustive enumeration of meshes, run through the real code; independent geometry as oracle"

prop("C17", "Mesh geometry is right for every conformal mesh",
     "For every conformal mesh of tetrahedra, pyramids, wedges and hexahedra, volumes, centers, faces, face areas, outward unit normals, connections and connection qualities equal the values derived from the "
     "coordinates. Connections are symmetric and join exactly the cells that share a face. None of this depends on how points, cells, blocks or vertices are numbered, on orientation, rotation or position.",
     ["inputs"], "a library of 17 conformal meshes (each cell type, every pair of types sharing a face, disconnected cells) x point numbering x cell order x vertex order x block layout x 9 transformations, up to the deviation bound",
     "Tests evaluate one mesh per cell type in one numbering; face tables and neighbour search depend on how vertices and cells are numbered and mixed.",
     [M_, MP, MC_], [("volumes, areas, normals, qualities", MP), ("connections, faces, centers", M_)], ["toughio.Mesh.volumes", "toughio.Mesh.centers", "toughio.Mesh.connections", "toughio.Mesh.face_areas", "toughio.Mesh.face_normals", "toughio.Mesh.qualities"], ENUM, RTN)
prop("C18", "Cell labels are unique, well-formed and stable",
     "Every cell gets a distinct label of the requested length (or of five characters, more when the mesh has too many cells for five) made of three characters and a number, in the order of the cells, the same on every "
     "call and whatever length was used before. Labels of a mesh do not depend on the size of the mesh as long as their length is the same.",
     ["inputs", "histories"], "all 3 185 000 five-character labels, sizes around every carry x lengths 5-9 x lengths requested before",
     "Uniqueness is a property of the whole label space; tests look at a few labels.", [MC_, M_], [("labeler", MC_), ("labels, label_length", M_)], ["toughio.Mesh.labels"],
     "exhaustive enumeration of the label space of the real code", "All labels of five characters are enumerated; longer labels are enumerated around every carry of every position.")
prop("C19", "MESH files list every cell with its own volume, material and position",
     "Block ELEME of a MESH file written from a mesh has one record for each cell under the label of that cell, with its volume, material (renamed as asked, moved to the bottom as asked) and center, boundary cells with a huge "
     "volume. Coordinates are in block COORD instead when asked, in the order of the elements.",
     ["inputs", "configurations"], "meshes x materials x boundary cells x label lengths x options of the writer up to the deviation bound",
     "Order of records, materials and coordinates are independent lists in the writer; tests check one mesh with one option at a time.", [MT, "toughio/_mesh/tough/_helpers.py", M_], [("block, _write_eleme, _write_coord", "toughio/_mesh/tough/_helpers.py")], ["toughio.Mesh.write_tough", "toughio.write_mesh"],
     "bounded-exhaustive enumeration of meshes and options; independent fixed-column decoder and geometry as oracle", RTN)
prop("C20", "MESH files connect the right cells with the right geometry",
     "Block CONNE of a MESH file written from a mesh has exactly one record for each pair of cells that share a face, with interface area, both nodal distances of the requested kind (each next to its own cell), direction "
     "of anisotropy and cosine of the angle with gravity as the geometry says; connections between two boundary cells are dropped and distances of boundary cells are tiny.",
     ["inputs", "configurations"], "library of conformal meshes x numbering x transformations x boundary cells x kind of distance x label length up to the deviation bound",
     "Sides, signs and directions depend on numbering and orientation; tests check the geometry of one structured mesh.", [MT, MC_, MP], [("_write_conne, _intersection_line_plane, _isot", MT)], ["toughio.Mesh.write_tough"],
     "bounded-exhaustive enumeration of meshes and options; independent fixed-column decoder and geometry as oracle", RTN)
prop("C21", "INCON files give every cell its own initial conditions",
     "An INCON file written from a mesh lists exactly the cells that have initial conditions, porosity or permeability, each under its own label with its own values, and nothing for undefined values; a mesh without any is refused or gets no file as asked.",
     ["inputs", "configurations"], "which of initial condition, porosity, permeability and user data are given, undefined or partly defined for each cell, values of both signs, label lengths, up to the deviation bound",
     "Undefined values are encoded as sentinels; which records appear depends on the combination present in each cell.", [MT, M_], [("_write_incon, init_incon", MT)], ["toughio.Mesh.write_tough"],
     "bounded-exhaustive enumeration of meshes and data; independent fixed-column decoder as oracle", RTN)
prop("C22", "Structured, voxelized and triangulated meshes cover exactly what was asked",
     "A structured grid has one cell for each triple (or pair) of spacings, in the documented order, filling its box exactly from the origin and connected to its neighbours; voxelizing cell centers rebuilds the grid they came from "
     "whatever their order; triangulating points covers their convex hull with cells that use every point once.",
     ["inputs"], "full product of spacings, origins and orders; every subset of a 3 x 3 cloud; every argument container", "Tests use equal spacings, where exchanged axes and offsets cancel.",
     [MM + "_structured_grid.py", MM + "_voxelize.py", MM + "_triangulate.py"], [("structured_grid", MM + "_structured_grid.py"), ("voxelize", MM + "_voxelize.py"), ("triangulate", MM + "_triangulate.py")],
     ["toughio.meshmaker.structured_grid", "toughio.meshmaker.voxelize", "toughio.meshmaker.triangulate"], ENUM, RTN)
prop("C23", "Cylindric grids have the volumes and areas of annuli",
     "Cells of a cylindric grid have the volume of the annulus they stand for and connections have cylindrical or annular areas and radial or vertical distances, in the mesh and in the MESH file, whatever the spacings, origin, order of layers and later edits.",
     ["inputs"], "spacings x origins x layer orders x label lengths x edits before writing up to the deviation bound", "Tests check one grid and not its MESH file.",
     [MM + "_cylindric_grid.py", MT], [("CylindricMesh", MM + "_cylindric_grid.py")], ["toughio.meshmaker.cylindric_grid", "toughio.Mesh.write_tough"], ENUM, RTN)
prop("C24", "Extruding a 2D mesh stacks it without losing or mixing data",
     "Extruding a mesh of triangles and quadrangles along an axis gives the wedges and hexahedra between the asked levels, with the volumes expected, layer after layer, each with the data and material of the cell it comes from; in place or not, the rest of the mesh is "
     "kept and the source is changed only when asked.",
     ["inputs"], "mixed 2D meshes x heights x axis x in place x data up to the deviation bound", "Tests extrude one mesh of one cell type with one height.", [M_], [("extrude_to_3d", M_)], ["toughio.Mesh.extrude_to_3d"], ENUM, RTN)
prop("C25", "Pruning duplicates keeps geometry, cells and data",
     "Pruning duplicate points and cells merges exactly the coincident points and keeps exactly one copy of each cell, with its own data (the order of points and of cells within a block may change); cells keep their vertices' positions, sets name the same points and cells, and pruning twice changes nothing more.",
     ["inputs"], "meshes x which points and cells are duplicated, within and across cell blocks, x data x in place up to the deviation bound", "Tests duplicate a whole mesh at once.", [M_], [("prune_duplicates", M_)], ["toughio.Mesh.prune_duplicates"], EX, RTN)
prop("C40", "What a mesh says depends on what it holds, not on its history",
     "After any sequence of edits through the documented attributes and methods (new or modified points, cells, data, label length, materials, interpolation, extrusion, pruning, results, copies, conversions), every view of the mesh - labels, centers, volumes, faces, "
     "normals, areas, connections, qualities, materials, cell blocks, nearest cells, filters, the printed summary - is that of a mesh made from scratch with the same contents, lists cells in the same order, and asking for it changes nothing in the mesh or in other meshes.",
     ["histories"], "every history of up to 3 (quick) or 4 (thorough) edits out of 17 from four initial meshes, all views asked before and after each", "Tests ask a new mesh once; stale or shared state needs a query, an edit and a second query.",
     [M_, "toughio/_mesh/_properties.py", MC_], [("properties of Mesh", M_), ("labeler", MC_)], ["toughio.Mesh"],
     "explicit exploration of all edit and query sequences on the real code, differential against a mesh built from scratch", RTN)
prop("C26", "Mesh edits keep materials and data with their cells",
     "After any sequence of edits (adding data, setting materials by masks or indices, pruning, copying, saving, converting), each cell has the material and data the history gave it, names and ids of materials agree, and copies share nothing with the original.",
     ["histories", "inputs"], "every sequence of edits up to the depth bound from several initial meshes, compared after each step with a reference model", "Material ids are allocated from state left by earlier edits; tests make one edit.",
     [M_, MC_], [("set_material, add_cell_data, add_point_data, materials", M_)], ["toughio.Mesh.set_material", "toughio.Mesh.add_cell_data", "toughio.Mesh.materials"],
     "explicit exploration of all edit sequences on the real code in lock-step with a reference model", RTN)
prop("C27", "Interpolation between cells and points is the stated average",
     "Cell data given to points is the mean over the cells around each point, weighted by their volumes, and point data given to cells the mean over the points of each cell, for scalars and vectors, whatever the cell types, blocks and numbering; the interpolated data replace their source, other data are not changed.",
     ["inputs"], "meshes x numbering x data shapes and types up to the deviation bound", "Tests interpolate a constant or one scalar field.", [M_], [("cell_data_to_point_data, point_data_to_cell_data", M_)],
     ["toughio.Mesh.cell_data_to_point_data", "toughio.Mesh.point_data_to_cell_data"], EX, RTN)
prop("C28", "Mesh files give back the mesh that was written",
     "Writing a mesh to AVS-UCD, FLAC3D (ASCII or binary), Tecplot or pickle and reading it back gives the same points, cells, materials or groups with their names, and the data the format stores, each with its own cell or point; files other programs write in these formats are read with what they hold.",
     ["inputs", "configurations"], "meshes x numbering x lower-dimensional cells x data x names x writer options up to the deviation bound; foreign files from independent encoders",
     "Tests round-trip one mesh for each format; offsets depend on mixes of cell types, groups and data.", ["toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/pickle/_pickle.py", MH],
     [("read/write", "toughio/_mesh/avsucd/_avsucd.py"), ("read/write", "toughio/_mesh/flac3d/_flac3d.py"), ("read/write", "toughio/_mesh/tecplot/_tecplot.py"), ("read/write", "toughio/_mesh/pickle/_pickle.py")],
     ["toughio.write_mesh", "toughio.read_mesh"], "stateless bounded-exhaustive exploration of the real writers and readers; independent encoders as oracle for foreign files", RTN)
prop("C29", "Meshes convert to and from meshio and PyVista without loss",
     "Converting a mesh to meshio or PyVista and back, or through the files meshio writes, keeps points, cells, order, materials (with their names; PyVista stores no names) and data with its own cells and points, and never changes the object it converts.",
     ["inputs", "configurations"], "meshes x lower-dimensional cells x data x material keys x sources up to the deviation bound", "Tests convert one mesh with random data; VTK cell layouts and id maps depend on mixes of cell types.",
     [M_, MC_, MH], [("to_meshio, to_pyvista, from_meshio, from_pyvista", M_)], ["toughio.from_meshio", "toughio.from_pyvista", "toughio.Mesh.to_meshio", "toughio.Mesh.to_pyvista", "toughio.read_mesh"], EX, RTN)
prop("C30", "Simulation results are given to the cells they belong to",
     "Reading element results into a mesh gives each cell the values printed under its label, for the requested time step and whatever the order of the rows; reading connection results gives each cell the sum of its outgoing flows as vectors along the connections. "
     "The results are not modified and incompatible results are refused.",
     ["inputs", "configurations"], "every permutation of rows of small meshes x steps x sources (objects, csv, PetraSim) x kinds of data up to the deviation bound", "Tests use results in the order of the mesh.", [M_, OC],
     [("read_output", M_), ("reorder_labels", OC)], ["toughio.Mesh.read_output"], EX, RTN)
prop("C31", "Finding cells by position is exact",
     "near returns the cell whose center is the closest to each point, and box filters select exactly the cells whose centers are inside, for any combination of limits.",
     ["inputs"], "meshes x query points around every boundary x every combination of given and omitted limits", "Tests query one point and one box.", [M_, "toughio/_mesh/_filter/box/_box.py"], [("near", M_), ("filter", "toughio/_mesh/_filter/box/_box.py")],
     ["toughio.Mesh.near", "toughio.Mesh.filter"], EX, RTN)
prop("C32", "Time series store every step with its own data",
     "Writing time series of point and cell data and reading them back gives the same points, cells, times in increasing order and, at each time, the data that was given for it; inconsistent series are refused before anything is written.",
     ["inputs"], "meshes x every order of up to three times (and some of four) x data x containers up to the deviation bound", "Tests give times in order and the same shape of data.", [MH], [("write_time_series, read_time_series", MH)],
     ["toughio.write_time_series", "toughio.read_time_series"], EX, RTN)
RP = "toughio/relative_permeability/"
CP = "toughio/capillarity/"
prop("C33", "Relative permeability functions are the documented ones and stay in bounds",
     "Each relative permeability function returns, for every saturation in [0, 1], the value its formula gives with its parameters, within the range of the model, increasing for liquid and decreasing for gas, the same for scalars and arrays, with the TOUGH id and parameters it was built from, plots draw that curve and printing tells the parameters; invalid parameters are refused.",
     ["inputs"], "every function x parameter sets x saturations at and around every breakpoint", "Tests check the signature of each function with random parameters, not values near the breakpoints.", [RP + "_base.py", RP + "_van_genuchten_mualem.py", RP + "_corey.py", RP + "_grant.py", RP + "_linear.py", RP + "_fatt_klikoff.py", RP + "_pickens.py", RP + "_verma.py"],
     [("_eval", RP)], ["toughio.relative_permeability"], "exhaustive evaluation of the real functions on a grid that contains every breakpoint; independent formulas as oracle", RTN)
prop("C34", "Capillary pressure functions are the documented ones and stay in bounds",
     "Each capillary pressure function returns, for every saturation in [0, 1], the value its formula gives with its parameters, never positive, not stronger than its maximum, monotonic where the model is, the same for scalars and arrays, with the TOUGH id and parameters it was built from, plots draw that curve and printing tells the parameters; invalid parameters are refused.",
     ["inputs"], "every function x parameter sets x saturations at and around every breakpoint", "Tests check the signature of each function, not values near the breakpoints.", [CP + "_base.py", CP + "_van_genuchten.py", CP + "_trust.py", CP + "_milly.py", CP + "_pickens.py", CP + "_linear.py"],
     [("_eval", CP)], ["toughio.capillarity"], "exhaustive evaluation of the real functions on a grid that contains every breakpoint; independent formulas as oracle", RTN)
CL = "toughio/_cli/"
prop("C35", "toughio-extract keeps every printed value and adds the right positions",
     "toughio-extract writes the element or connection tables of a listing in the requested format, every step in one file or one file for each step, with all values and labels and the position of each cell (or middle of each connection) from the mesh. "
     "Unusable arguments or files are refused and nothing is written.",
     ["inputs", "configurations"], "listings x mesh orders x formats x options x file names up to the deviation bound", "Tests extract one listing (a git-lfs pointer here).", [CL + "_extract.py", O_ + "tough/_tough.py"], [("extract", CL + "_extract.py")], ["toughio-extract"],
     "bounded-exhaustive exploration of command lines and files from independent encoders on the real command; independent decoders as oracle", RTN)
prop("C36", "toughio-export shows every value at its own place",
     "toughio-export writes the requested step (all steps for XDMF) so that each value is at the cell or point it was computed for: by label when a mesh is given, by position when cells are rebuilt from their centers, by point otherwise. "
     "Unusable arguments are refused and nothing is written.",
     ["inputs", "configurations"], "meshes and clouds in 1D, 2D and 3D x order of rows x steps x input formats x output formats x options up to the deviation bound", "Tests export one output (a git-lfs pointer here) with one layer of cells.",
     [CL + "_export.py", M_, MM + "_voxelize.py", MH], [("export, _get_points", CL + "_export.py")], ["toughio-export"],
     "bounded-exhaustive exploration of command lines and files from independent encoders on the real command; positions and values as oracle", RTN)
prop("C37", "toughio-merge makes one valid deck and loses no record",
     "toughio-merge writes the records of the input file with those of MESH and INCON inserted right before its end record, so that the merged deck reads as the three files together; the sources of another folder are never used. Unusable files are refused and nothing is written.",
     ["inputs", "configurations"], "decks x INCON or not x end records and trailing text x final newlines x folders x target, up to the deviation bound", "Tests count lines of files of random text.", [CL + "_merge.py"], [("merge", CL + "_merge.py")], ["toughio-merge"],
     "bounded-exhaustive exploration of command lines and files on the real command; independent text and parameter model as oracle", RTN)
prop("C38", "File formats are chosen by name, else by extension",
     "Reading and writing inputs, outputs and meshes use the format that is named, else the one registered for the extension in any case (TOUGH for inputs); a registered format is used from then on, the newest registration of a name or extension counts, and the others are not disturbed. Wrong arguments are refused and nothing is written.",
     ["histories", "configurations"], "every history of up to 4 (5) registrations, reads and writes over two names and two extensions; every format x extension x case", "Registries are process-wide; tests never register a format twice.",
     [CM, IH, O_ + "_helpers.py", MH], [("register_format, filetype_from_filename", CM)], ["toughio.register_input", "toughio.register_output", "toughio.register_mesh", "toughio.read_input", "toughio.write_output", "toughio.read_mesh"],
     "exhaustive enumeration of registration histories on the real code in lock-step with a reference model", RTN)
prop("C39", "toughio-co2tab copies the table of the package and nothing else",
     "toughio-co2tab puts an exact copy of the CO2 table of the package in the given directory, replacing an older one and touching no other file; a missing directory is refused.",
     ["configurations"], "directories x files there before x forms of the path x repetitions", "Tests look at whether a file exists.", [CL + "_co2tab.py"], [("co2tab", CL + "_co2tab.py")], ["toughio-co2tab"],
     "exhaustive enumeration of the command's situations on the real code", RTN)
prop("C41", "No call changes what another one does, or leaves anything behind",
     "What reading, writing, meshing, converting, interpolating, evaluating a curve or running a command gives depends on its arguments and files only: the same call gives the same result whatever calls, successful or refused, of whatever functions, "
     "came before on the same objects and file names; arguments are not modified, existing targets are replaced entirely, and the process (current folder, environment, open files, numpy settings, random numbers, arguments of the command line) is left as it was.",
     ["histories"], "every ordered pair (quick: a, b, a) of 87 calls that cover all public functions and commands, each history in a process of its own; thorough: also every pair after each failed call", "Tests run each function on fresh objects and file names; leaks of state need two unrelated calls.",
     ["toughio/_io/", "toughio/_mesh/", "toughio/_cli/", "toughio/meshmaker/", CM], [("all public functions and commands", "toughio/__init__.py")], ["toughio", "toughio._cli"],
     "exhaustive enumeration of call histories on the real code, each in a forked process, differential against the call alone", RTN)
prop("C42", "Line ends, trailing blanks and blank last lines do not change what is read",
     "Input files, MESH and SAVE files, simulator outputs, history files, text mesh files and JSON files are read the same, by the readers and by the commands, with Unix or Windows line ends, mixed or not, with blanks at the ends of their lines, "
     "with or without a newline after the last record, and with blank lines at the end.",
     ["inputs", "configurations"], "every text format x line ends x final newline x trailing blanks x blank lines at the end; every command x which of its files are so written", "Tests read files as they were written on the same system.",
     [R, "toughio/_io/output/", "toughio/_mesh/", "toughio/_cli/"], [("readers of all formats", "toughio/_io, toughio/_mesh")], ["toughio.read_input", "toughio.read_output", "toughio.read_history", "toughio.read_mesh", "toughio-merge", "toughio-extract", "toughio-save2incon", "toughio-export"],
     "exhaustive enumeration of file variants on the real readers and commands, differential against the plain file", RTN)
P.sort(key=lambda p: p["prop"]["id"])
