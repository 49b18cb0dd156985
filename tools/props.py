"""Texts of the properties: single source of properties.jsonl and MANIFEST.json (see gen.py)."""

I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"
TECH = "runtime monitoring: seeded workloads on the real code, oracle = "


def p(title, statement, over, text, why, files, mech, oracle, note, observe=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, oracle=oracle, note=note,
                observe=observe)


TW, TR = "toughio/_io/input/tough/_write.py", "toughio/_io/input/tough/_read.py"
OUT = "toughio/_io/output"

P = {}
P["C01"] = p(
    "A written TOUGH input file says exactly what the parameters say",
    "Every value given in the parameter dictionary appears in the written TOUGH input file in the record and columns the simulator "
    "documents for it, at the full precision its field can hold, and nothing else does. A number is never truncated, glued to its "
    "neighbour or pushed outside its columns, lists of any length are continued on as many records as needed, and undefined values "
    "are left blank or take their documented default.",
    [I, C], "all parameter dictionaries: every block, optional keys present or absent, list lengths around record boundaries, labels of 5 to 9 "
    "characters, negative / tiny / huge / NumPy numbers",
    "The tests write a few dictionaries with mid-range positive values and compare through the library's own reader, so an error made in both "
    "directions, or a value that overflows its columns, is invisible.",
    [TW, "toughio/_io/input/tough/_helpers.py", "toughio/_common.py"],
    [("record formats", "toughio/_common.py block_to_format"), ("number formatting", "toughio/_io/input/tough/_helpers.py write_record"),
     ("block writers", TW + " _write_*")],
    "an independent column-by-column layout model of every TOUGH record",
    "Exploration over generated dictionaries; trusts the record layouts transcribed from the simulators' manuals.")
P["C02"] = p(
    "Reading back a written TOUGH input file returns the parameters",
    "Reading a TOUGH input file written from a parameter dictionary returns the same parameters, to the precision of each field, in the "
    "same order, with nothing added but documented defaults. Writing what was read and reading it again changes nothing, neither in the "
    "file nor in the parameters.",
    [I, C], "all parameter dictionaries and label lengths (given or detected), and any number of write/read rounds",
    "The tests check single blocks with one or two entries; interactions between blocks, boundary list lengths and idempotence over whole "
    "decks are not sampled.",
    [TW, TR], [("block readers", TR + " _read_*"), ("label length detection", "toughio/_common.py get_label_length"),
               ("pruning of undefined values", "toughio/_io/input/tough/_helpers.py prune_nones_*")],
    "effective-parameter model derived from the input dictionary, and byte comparison of the second file",
    "Exploration; trusts the generator's notion of the effective parameters.")
P["C03"] = p(
    "TOUGH input files written by others are read for what they say",
    "A valid TOUGH input file is read to the values its columns say however it is spelled: Fortran exponents, missing points, "
    "justification, stripped trailing blanks, text after a block keyword, order of the blocks, files holding only some blocks, or "
    "continuation marks. Reading any file, damaged or truncated ones included, terminates: it returns parameters or raises an error.",
    [I], "all spellings of a deck, and all truncations / damaged copies of it",
    "The tests only read what the library itself wrote.",
    [TR, "toughio/_io/input/tough/_helpers.py"], [("Fortran number parsing", "toughio/_io/input/tough/_helpers.py str2float"), ("record splitting", "toughio/_io/input/tough/_helpers.py read_record"),
                                 ("block dispatch", TR + " read")],
    "independent deck renderer and record interpreter; line budget through interpreter monitoring for termination",
    "Exploration; number spellings and block orders are sampled. Damaged files are judged on termination and on values of undamaged parts.")
P["C04"] = p(
    "A JSON input file holds exactly the parameters",
    "Parameters written as a JSON input file and read back are equal to the parameters given, to the last bit of every number and whatever "
    "container or NumPy type held them, and the TOUGH input file written from either is the same. A failed write leaves an existing file "
    "as it was.",
    [I], "all parameter dictionaries including NumPy scalars/arrays, tuples and integer-like keys",
    "The tests cover one dictionary with plain Python values.",
    ["toughio/_io/input/json/_json.py"], [("JSON encoding and key restoration", "toughio/_io/input/json/_json.py")],
    "exact comparison with the given dictionary and with the TOUGH deck", "Exploration; exact equality, no tolerance.")
P["C05"] = p(
    "An input file written in parts and merged again is the whole input file",
    "Writing only some blocks, or all but some blocks, writes exactly the records the whole file has for them, and nothing of the others. "
    "The merge command puts a main file and its MESH and INCON files back together into one file that says the same as the whole, "
    "keeps every record of every part once, and refuses incomplete sets without damaging anything.",
    [I, C, H], "all decks, block selections and layouts of the part files (missing final newline, text after the end keyword)",
    "The tests merge three tiny files made of blank blocks.",
    [TW, "toughio/_cli/_merge.py"], [("block selection", TW + " write"), ("merge", "toughio/_cli/_merge.py merge")],
    "record sets expected from the layout model; equality with the deck written whole", "Exploration.")
P["C06"] = p(
    "Calls leave their arguments alone and do not depend on earlier calls",
    "Reading, writing, converting and computing leave the caller's dictionaries, arrays, meshes, outputs and files unchanged unless the call "
    "documents a change in place. The same call gives the same result whatever calls (successful, failed or interrupted) came before it, and a result already "
    "returned is not altered by later calls or by changes made to another result.",
    [H, "crash_points", I], "all sequences of library calls mixing inputs, outputs, meshes and models",
    "Tests run each function once on fresh data; leaks through shared defaults, caches or aliased arrays need a history.",
    [TW, TR, "toughio/_io/output/_helpers.py", "toughio/_mesh/_mesh.py", "toughio/_common.py"],
    [("default parameters", "toughio/_io/input/tough/_helpers.py default"), ("registries", "toughio/_io/*/_helpers.py"),
     ("aliasing of mesh arrays", "toughio/_mesh/_mesh.py")],
    "deep snapshots of every argument before/after, and comparison with the same call in a fresh process",
    "Exploration over random call histories.")
P["C07"] = p(
    "Malformed parameters are refused before a file is touched",
    "Parameters of the wrong type are refused with a TypeError that names the culprit, inconsistent lengths or values with a ValueError, and in both "
    "cases no file is created and an existing one is left as it was. Keys the library does not know are skipped with a "
    "warning and change nothing in what is written.",
    [I, F], "every documented key, at every depth, replaced by every wrong type; unknown keys anywhere",
    "The tests check a handful of wrong types on single keys and never look at the file.",
    [TW, "toughio/_io/input/tough/_helpers.py"], [("type table", "toughio/_io/input/tough/_helpers.py dtypes, check_parameters")],
    "mutation of valid dictionaries, exception class, warning text and file bytes", "Exploration; the table of types comes from the documentation.")
P["C08"] = p(
    "Output files hold the same data in every format",
    "Outputs written in any supported format and read back give the same labels, times, columns and values, to the number of digits of the "
    "format, for any number of elements or connections, times and variables, and converting from one format to another keeps the data. A file "
    "written by a simulator is read to the values in its columns, and reading a damaged file terminates.",
    [I, C], "all outputs (element or connection data, several times, label lengths, extreme values) and all formats able to hold them",
    "The tests compare two fixed files with each other; numeric extremes, several zones, missing columns or times are not reached.",
    [OUT + "/csv/_csv.py", OUT + "/tecplot/_tecplot.py", OUT + "/petrasim/_petrasim.py", "toughio/_io/output/_helpers.py"],
    [("writers and readers", OUT + "/*/_*.py"), ("zone parsing", OUT + "/tecplot/_tecplot.py")],
    "comparison with the generated outputs, independent renderers of simulator-style files, line budget", "Exploration.")
P["C09"] = p(
    "Main listings are read completely and without misplacing a value",
    "Reading the main listing of a simulation gives, for each printed time, one row per element (or connection) in the order of the listing, each "
    "with its own label and the values of its own columns, across page breaks and repeated headers, for every label length. Numbers printed without a "
    "blank between them, with three-digit exponents or without an E are separated correctly, and a value that is not a number reads as not-a-number.",
    [I], "all listings: label lengths 5-9, page breaks, glued or overflowing numbers, secondary tables, truncated files",
    "The stable tests do not parse a listing at all.",
    [OUT + "/tough/_tough.py"], [("table reader", OUT + "/tough/_tough.py _read_table"), ("column detection", OUT + "/tough/_tough.py")],
    "independent Fortran-style listing writer: what was printed is what must be read", "Exploration; trusts the modelled listing layout.")
P["C10"] = p(
    "Restart files keep every element's own state and convert to INCON",
    "Reading a restart file gives every element its own primary variables, porosity and user data at the printed time, whatever the number of variables and "
    "label length. Converting it to initial conditions keeps every element, value and optional column and drops only what it was asked to drop, and a conversion that fails "
    "leaves the target file as it was.",
    [I, C, F], "all restart files: 1-8 variables, label lengths, optional columns per element, trailers; all conversion options",
    "The stable tests use one or two tiny files.",
    [OUT + "/save/_save.py", "toughio/_cli/_save2incon.py"], [("restart reader", OUT + "/save/_save.py"), ("conversion", "toughio/_cli/_save2incon.py")],
    "independent restart-file renderer and INCON parser", "Exploration.")
P["C11"] = p(
    "Asking for a label order only reorders the data",
    "Reading an output in a given order of labels returns exactly the rows of the file, in that order, every row keeping its own label and values in every "
    "column and at every time, for every format whose rows are labelled, whatever the order in the file and the container that holds the labels. Connection data, which have no "
    "label of their own, keep the order of the file. Rows of the file are never lost, duplicated or exchanged.",
    [I, C], "all permutations, formats, containers and label lengths",
    "The tests do not use the option with more than one format.",
    ["toughio/_io/output/_helpers.py", OUT + "/_common.py"], [("reordering", "toughio/_io/output/_common.py reorder_labels")],
    "row-by-row comparison with the same file read without an order", "Exploration.")
P["C12"] = p(
    "History files are read to the series they print",
    "Reading a time-history file (element, connection, source or rock history, comma- or blank-separated) gives one series per printed column, under its own "
    "header, with one value per printed time step in file order, for any number of columns and steps and any Fortran spelling of the numbers. Reading "
    "ends at the end of the data and never shifts values to another column.",
    [I], "all history files: number of columns and steps, header styles, number spellings",
    "No stable test reads a history file.",
    ["toughio/_io/output/_helpers.py"], [("history reader", "toughio/_io/output/_helpers.py read_history")],
    "independent renderer of history files", "Exploration; trusts the modelled layouts.")
P["C13"] = p(
    "The extract command exports every printed time with coordinates of its own cell",
    "Extracting a simulation output with its mesh writes every element (or connection) at every printed time, with all its values and the "
    "coordinates of its own element (the midpoint of the two elements for a connection), in the file and format asked for, in one file or one file per time. A "
    "call that is refused leaves existing files as they were.",
    [I, C], "all listings/outputs, orders of elements in the mesh file, formats and options of the command",
    "No stable test runs the command on a real listing.",
    ["toughio/_cli/_extract.py"], [("extraction", "toughio/_cli/_extract.py extract")],
    "expected table computed from the generated listing and mesh file; independent parsing of what was written", "Exploration.")
P["C14"] = p(
    "The export command gives every cell of the exported file its own data",
    "Exporting a simulation output to a mesh file attaches to every cell (or point) the coordinates and values of its own element, at the time step asked for, "
    "in every available format, with or without a mesh, through triangulation or voxelization. A time step that does not exist and inconsistent options are refused.",
    [I, C], "all outputs, element orders, time steps, formats and options of the command",
    "No stable test runs the command.",
    ["toughio/_cli/_export.py"], [("export", "toughio/_cli/_export.py export")],
    "nearest-cell lookup in the exported file read through an independent reader", "Exploration.")
P["C15"] = p(
    "The format of a file is the one asked for, or the one its name says",
    "Reading and writing give the same result whether the format is asked for or follows from the extension of the file name in any case, wherever the file is and "
    "however its place is written. An unknown format, or a file argument that is not a name, is refused without touching anything, and a newly registered format "
    "is used for its extensions and by its name without disturbing the others.",
    [I, C, H], "all formats of inputs, outputs and meshes, file names, directories and registrations",
    "The tests use one file name per format.",
    ["toughio/_io/input/_helpers.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py", "toughio/_common.py"],
    [("format registries", "toughio/_io/*/_helpers.py, toughio/_mesh/_helpers.py"), ("file opening", "toughio/_common.py filetype_from_filename, reader/writer of each format")],
    "equality between all ways of asking for the same thing", "Exploration.")
P["C16"] = p(
    "Geometric quantities of a mesh are those of its cells",
    "For any mesh of planar-faced cells, the centers, volumes, faces, face areas, face normals, neighbours and qualities reported are those of the polyhedra the points describe, "
    "for every cell type, block layout and numbering. They add up (cells fill the mesh, two neighbours share exactly one face with opposite normals), and renumbering or moving the mesh changes them accordingly.",
    [I, C], "all conforming first-order meshes, of any mix of cell types, blocks and numbering",
    "The tests check sums on one or two helper meshes.",
    ["toughio/_mesh/_mesh.py", "toughio/_mesh/_properties.py", "toughio/_mesh/_common.py"],
    [("volumes and faces", "toughio/_mesh/_properties.py"), ("connections", "toughio/_mesh/_properties.py _connections")],
    "independent polyhedron model (divergence theorem) and metamorphic renumbering/motion", "Exploration; relative tolerance 1e-9.")
P["C17"] = p(
    "A mesh exported for the simulator describes the same cells and interfaces",
    "The exported MESH file has one element per cell, with its label, material, volume and center, and one connection per pair of neighbouring cells with their nodal distances, interface area, direction and "
    "gravity cosine, each to the digits of its columns. Fixed-state cells keep their place but become infinitely large and close, and the naming, ordering and distance options affect only what they name.",
    [I, C], "all meshes, materials, boundary cells, label lengths and export options",
    "The tests read back one mesh with the library's reader.",
    ["toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py"],
    [("element and connection records", "toughio/_mesh/tough/_tough.py"), ("nodal distances", "toughio/_mesh/tough/_tough.py write_conne")],
    "independent MESH parser compared with the polyhedron model", "Exploration.")
P["C18"] = p(
    "Initial conditions of a mesh reach the INCON file cell by cell",
    "The exported initial conditions give every cell its own variables, porosity and permeability modifiers under its own label, leave undefined values blank, and omit only cells for which nothing is defined, "
    "for any number of variables. Nothing is written, and an existing file is left alone, when nothing is defined, when it was not asked for or when the data are malformed.",
    [I, C], "all meshes and initial-condition arrays with 1-8 variables, undefined values, optional porosity and permeability",
    "The tests use uniform positive values.",
    ["toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py"], [("INCON writer", "toughio/_mesh/tough/_helpers.py _write_incon")],
    "independent INCON parser compared with the arrays", "Exploration.")
P["C19"] = p(
    "Generated meshes fill exactly the asked domain",
    "Structured, cylindrical, triangulated and voxelized meshes have exactly the cells asked for, at the asked origin and sizes, numbered in the documented (column or layer) order, with uniform material, without holes or overlaps. Volumes, "
    "areas and nodal distances are those of the given increments, and input that does not describe such a mesh is refused.",
    [I, C], "all increments, origins, layouts and options, in one to three dimensions",
    "The tests generate a few grids of a few equal cells.",
    ["toughio/meshmaker/_structured_grid.py", "toughio/meshmaker/_cylindric_grid.py", "toughio/meshmaker/_triangulate.py", "toughio/meshmaker/_voxelize.py"], [("grids", "toughio/meshmaker/_structured_grid.py"), ("cylindrical geometry", "toughio/meshmaker/_cylindric_grid.py")],
    "closed-form centers, volumes and ordering computed from the increments", "Exploration.")
P["C20"] = p(
    "Editing a mesh changes what was asked and keeps everything else with its cell",
    "Adding data, assigning materials, extruding, removing duplicate points, interpolating and splitting change exactly what they name. Every cell and point keeps its own data, material and place "
    "through any sequence of edits, every cell keeps one material whose name is the one last assigned to it, and a refused edit changes nothing.",
    [H, I], "all sequences of edits on all meshes",
    "The tests apply one edit to one mesh.",
    ["toughio/_mesh/_mesh.py", "toughio/_mesh/_common.py"], [("edits", "toughio/_mesh/_mesh.py"), ("material identifiers", "toughio/_mesh/_mesh.py add_material / set_material")],
    "shadow model of cells keyed by identity, updated along the same history", "Exploration over random histories.")
P["C21"] = p(
    "Mesh files keep points, cells, data and groups",
    "A mesh written in a supported file format and read back has the same points, cells and, where the format can hold them, the same materials and data on the same cells, to the digits of the format, whatever the mix of cell types and "
    "the names of the data. Reading a damaged file terminates.",
    [I, C], "all meshes the format can hold, all formats and variants (ASCII/binary)",
    "The tests write a helper mesh with one kind of cell and one data array.",
    ["toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/pickle/_pickle.py"],
    [("readers and writers", "toughio/_mesh/*/_*.py"), ("node reordering", "toughio/_mesh/flac3d/_flac3d.py, toughio/_mesh/avsucd/_avsucd.py")],
    "cells compared as point-coordinate sets with their data; independent parsing of what was written", "Exploration.")
P["C22"] = p(
    "Converted meshes are the same mesh",
    "Converting a mesh to or from another mesh library keeps points, cells, data and materials on the same cells, for any mix of cell types and any numbering, and leaves the source unchanged. Converting back and forth is the identity, and files written through the other library are the ones read back.",
    [I, C], "all meshes, all block layouts, data shapes and materials",
    "The tests convert a helper mesh of one cell type.",
    ["toughio/_mesh/_helpers.py", "toughio/_mesh/_mesh.py"], [("conversions", "toughio/_mesh/_helpers.py from_meshio, from_pyvista; _mesh.py to_meshio, to_pyvista")],
    "cells compared as point-coordinate sets with their data", "Exploration.")
P["C23"] = p(
    "Labels of a mesh are unique, well-formed and stable",
    "Every cell has its own label of exactly the asked length (5 to 9 characters, or the shortest that can name all cells), made of the characters the simulator accepts in each position (a letter, two "
    "alphanumeric characters other than zero, digits). The label of a cell depends on nothing but its position and the length, and a length that cannot name all cells is refused.",
    [I, C], "all numbers of cells up to and beyond the capacity of a length, all lengths and layouts of the mesh",
    "The tests look at the first labels of tiny meshes; collisions and rollovers only show after many thousands of cells.",
    ["toughio/_mesh/_common.py"], [("naming", "toughio/_mesh/_common.py labeler")],
    "closed form of the label of every position, set-uniqueness, prefix stability, over ranges crossing every rollover",
    "Exploration; up to 3.2 million cells (capacity of 5 characters).")
P["C24"] = p(
    "Simulation results are attached to the cells they belong to",
    "Reading an output into a mesh gives every cell the values of the element that has its label, at the time step asked for, whatever the order of the elements, format or source, and connection data become the sum of the flows along the lines that join the cells. "
    "Series of meshes written in time keep their own times and data, in order, and nothing is attached when the output does not match the mesh.",
    [I, C], "all outputs, element orders, time steps, meshes and series",
    "The tests read one file in mesh order.",
    ["toughio/_mesh/_mesh.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py"], [("read_output", "toughio/_mesh/_mesh.py read_output"), ("time series", "toughio/_mesh/_helpers.py write_time_series / read_time_series")],
    "cell values looked up by label in the generated output", "Exploration.")
P["C25"] = p(
    "Relative permeability models follow their published equations",
    "For every liquid saturation between 0 and 1 and all admissible parameters, each relative permeability model returns the values of its published equation, within [0, 1], with the liquid value not decreasing and the gas value not increasing with "
    "liquid saturation. Arrays give the values of their elements, the identifier and parameters reported are the simulator's, and inadmissible parameters or saturations are refused.",
    [I], "all models, admissible parameters and saturations",
    "The tests evaluate each model at one set of parameters against stored numbers.",
    ["toughio/relative_permeability"], [("models", "toughio/relative_permeability/*.py")],
    "independent formulas from the manuals; bounds, monotonicity and vectorization monitors", "Exploration.")
P["C26"] = p(
    "Capillarity models follow their published equations",
    "For every liquid saturation between 0 and 1 where its published equation is defined, and all admissible parameters, each capillarity model returns the capillary pressure of that equation with its documented cut-offs: a finite real number, never positive, "
    "within the maximum pressure and not decreasing with liquid saturation where the equation says so. Arrays give the values of their elements, the identifier and parameters reported are the simulator's, and inadmissible parameters or saturations are refused.",
    [I], "all models, admissible parameters and saturations",
    "The tests evaluate each model at one set of parameters against stored numbers.",
    ["toughio/capillarity"], [("models", "toughio/capillarity/*.py")],
    "independent formulas from the manuals; sign, bound, monotonicity and vectorization monitors", "Exploration.")
P["C27"] = p(
    "Calls write exactly the files they are given, and reading changes none",
    "A reading call or command leaves every file as it was; a writing one creates or replaces exactly the files it was asked for (with their companions: HDF5 data of an XDMF file, INCON beside MESH, numbered files of a split "
    "extraction), completely by the time it returns, whatever was there before, whatever the working folder and however the name is spelled. Nothing else is created, changed or removed, no file is left open, results do not depend on other "
    "files in the folder nor on later changes of the files read, and a call that cannot read or cannot write all of its file raises.",
    [I, C, F], "all readers, writers and commands, names, folders, working folders, files already there, missing files and folders, full disks",
    "The tests write to fresh temporary files with plain names and look at nothing else in the folder.",
    ["toughio/_io", "toughio/_mesh", "toughio/_cli"], [("commands", "toughio/_cli/_merge.py, _extract.py, _export.py, _save2incon.py, _co2tab.py"), ("opening of files", "every 'with open' of toughio/_io and toughio/_mesh"),
     ("companion INCON", "toughio/_mesh/tough/_tough.py write")],
    "audit events recorded during the call and images of the whole tree before and after it", "Exploration; files written by HDF5 are judged by their state after the call only.")
P["C28"] = p(
    "Calls made at the same time do not disturb each other",
    "Calls made from several threads at the same time, on arguments and files that they only read, return and write exactly what each would return and write alone, whatever the interleaving, and a call that fails in one thread "
    "does not affect the others.",
    ["schedules", I, H], "all interleavings of any calls of the public API at source lines of the library",
    "The tests run in one thread; shared module state that survives a whole call cannot show there.",
    ["toughio/_io", "toughio/_mesh", "toughio/_cli", "toughio/meshmaker"], [("module-level maps", "_reader_map, _writer_map, _extension_to_filetype, block_to_format"), ("state of readers", "toughio/_io/input/tough/_read.py, toughio/_io/output/tough/_tough.py")],
    "results of the same calls made alone, under a deterministic line-level scheduler", "Exploration; interleavings inside one source line are not explored.")
P["C29"] = p(
    "Results do not depend on the environment of the process",
    "The same calls with the same arguments return and write the same in every process: whatever the hash seed, the optimisation level of the interpreter, terminal, locale, time zone, user, umask and working folder, NumPy print options "
    "and error state, random states, logging level, decimal context, warning filters and garbage collection, and whichever thread makes them.",
    [C, I], "all calls of the public API and all such environments",
    "The tests run in one environment; iteration over a set, a printed array or an assertion with an effect gives the same there every time.",
    ["toughio/_io", "toughio/_mesh", "toughio/_cli", "toughio/meshmaker"], [("texts of numbers", "toughio/_mesh/tecplot/_tecplot.py, toughio/_mesh/avsucd/_avsucd.py, toughio/_mesh/flac3d/_flac3d.py"), ("orders", "toughio/_mesh/flac3d/_flac3d.py, toughio/_io/output/csv/_csv.py, toughio/_mesh/_mesh.py prune_duplicates")],
    "results of the same calls in a process started in another environment, compared bit for bit", "Exploration; locales other than C and UTF-8 are not installed here, and warnings turned into errors are not part of it.")
