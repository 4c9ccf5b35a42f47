"""The table from which tools/gen.py writes properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[{"name": a, "where": b} for a, b in mechanism], technique=technique, note=note))


NODES, PHYS, FLOW, FUNCS = "pyconform/flownodes.py", "pyconform/physarray.py", "pyconform/dataflow.py", "pyconform/functions.py"
DATA, PARSE, INDEX, XC = "pyconform/datasets.py", "pyconform/parsing.py", "pyconform/indexing.py", "pyconform/cli/xconform.py"

prop("C01", "Output does not depend on chunking",
     "For every choice of chunk sizes over any set of output dimensions that may be chunked, the output files hold exactly the "
     "same variables, values, missing-data pattern and attributes as an unchunked run. A request to chunk over a dimension that "
     "some definition reduces over, over an unknown dimension, or with a size that is not a positive integer is refused (in debug "
     "mode, reduced dimensions are dropped from the request instead) and writes no output.",
     ["configurations", "inputs"], "all assignments of chunk sizes to output dimensions, in every order, over data sets with inverted, transposed, "
     "partial, scalar, character, masked and range-checked variables",
     "The tests run three chunkings of one data set; the property quantifies over every chunk vector and its interplay with inversion and masking.",
     [NODES, FLOW], [("chunk enumeration, inversion of read chunks and bookkeeping of written chunks", NODES + " WriteNode.execute"),
                     ("refusal of chunking over reduced dimensions", FLOW + " DataFlow.execute")],
     "bounded exhaustive model checking: complete enumeration of chunk vectors on the real pipeline, differential against the unchunked run and a reference value model",
     "Every chunk vector with sizes 1..n(+1) over 4 dimensions of sizes 2-3; larger dimensions and other data sets are not covered.")
prop("C02", "An output variable holds the value of its definition",
     "For every output variable whose definition is meaningful, the values written to its file equal the mathematical value of the "
     "definition applied to the input data - evaluated by dimension name, converted to the requested units and sign convention, and laid out in the "
     "requested dimension order. A definition without meaning (mismatched dimensions or units) is refused and produces no output file.",
     ["programs", "inputs"], "all definitions up to depth 2 over a vocabulary of variables, constants, indices, operators and built-in functions, "
     "times output dimension orders, units, sign conventions and data types",
     "Tests fix about a dozen definitions; composition of operators, mapping, transposition and conversion needs all of them together.",
     [FLOW, NODES, FUNCS, PHYS, PARSE], [("definition to node graph", FLOW + " DataFlow"), ("by-name arithmetic", PHYS), ("validation and layout", NODES + " ValidateNode")],
     "bounded exhaustive model checking: all definitions up to depth 2 run through the real pipeline against a reference evaluator",
     "Exhaustive over the stated grammar up to depth 2; values from one fixed data set chosen to distinguish elements.")
prop("C03", "Output files only ever appear complete, whatever fails",
     "At every instant of a run, under every failure of a single file operation, lack of disk space or sudden death of the process, the name of an output file "
     "holds either what it held before or the complete new content, and a run that reports success has written all its files. "
     "After any such failure the same write can be repeated, with the same objects or in a new run, and completes.",
     ["crash_points", "fault_sequences"], "death at every file operation and source line, failure before/after every file operation, every file-size limit of a grid, from empty, older and stale starting states",
     "No test injects a fault or kills a run.", [NODES], [("temporary file renamed on completion", NODES + " WriteNode._close_"), ("abandoning a failed file", NODES + " WriteNode.execute")],
     "crash- and fault-point enumeration on the real writer (forked processes, operation-level fault injector)",
     "All single faults of a two-file chunked run; two faults in one run, power loss and network file systems are not modelled.")
prop("C04", "Parallel runs write every file once, completely, under any schedule",
     "For every number of ranks and every interleaving of them, all ranks finish, each output file is written by exactly one rank, "
     "and its content equals that of a serial run. Concurrent creation of shared output directories never fails.",
     ["schedules", "configurations"], "rank counts 1-5, six output layouts, all schedules up to a deviation bound",
     "Tests run serially or on one rank; no interleaving is ever exercised.", [FLOW, NODES, XC],
     [("partition of files over ranks and barriers", FLOW + " DataFlow.execute"), ("tolerant directory creation", NODES + " WriteNode")],
     "stateless model checking: controlled scheduler over simulated ranks, all schedules with at most k deviations",
     "Ranks are threads behind a communicator with asaptools' MPI semantics; MPI itself is trusted.")
prop("C05", "The command line honours its options and ends on every rank",
     "Every combination of the conversion command's options has its documented effect on the output files - chunking leaves content unchanged, the compression level overrides "
     "every file's own, provenance is written unless switched off, out-of-range data abort the run only in error mode, user modules provide their functions - and with no "
     "(matching) input files the specification is validated only. Every rank terminates, and wrong usage is refused without writing output.",
     ["configurations"], "all combinations of small option menus (up to two or three departures from the default) on 1-3 ranks",
     "The tests only parse arguments and run one invocation.", [XC, FLOW], [("option handling", XC + " main")],
     "exhaustive enumeration of option combinations on the real command under simulated ranks",
     "Menus are small and departures bounded; failing runs are explored on one rank only.")
prop("C06", "Joining two index expressions equals indexing twice",
     "For every array shape and every pair of index expressions (integers and slices with any start, stop and step, positional, elliptic or by dimension name), indexing once with the joined "
     "expression selects exactly the elements, in the same order and shape, that indexing with the first and then with the second selects. "
     "If the second indexing is out of range, the join is refused.",
     ["inputs"], "all array lengths up to a bound with all integer and slice indices around them, and tuple, ellipsis and dictionary forms in 2-3 dimensions",
     "Tests sample a few index pairs; the case analysis on negative steps and bounds is combinatorial.", [INDEX],
     [("index algebra", INDEX + " join, align_index")],
     "exhaustive enumeration of index pairs against direct double indexing", "All lengths up to 5 (7) in one dimension; steps -3..3; for length 100 (and 1500) all slices between 11 ends with 7 steps.")
prop("C07", "Definitions parse to what the arithmetic grammar says",
     "Every well-formed definition is read with the conventional precedence, associativity, sign, call, keyword, subscript and literal rules, and everything else is refused with a parse error. "
     "Numbers, strings and slices keep their exact value and type.",
     ["inputs"], "all token sequences and character strings up to a length, all operator chains, signs, brackets, calls and subscripts up to 3-4 items",
     "Tests cover some sixty strings; precedence and sign placement interact in thousands.", [PARSE, "pyconform/parsetab.py"],
     [("lexer and LALR grammar", PARSE)], "exhaustive enumeration of token strings against an independent reference reader",
     "All token strings up to length 5 (6) of an 18-token alphabet plus structured longer ones.")
prop("C08", "Parsing depends on nothing but the text",
     "The result of reading a definition is the same whatever was read before it, valid or not, and whatever callers did with earlier results. "
     "Writing a parsed definition out as text and reading that gives an equal definition.",
     ["histories"], "all sequences of up to 3-4 readings over a menu of valid and invalid definitions with the results altered in between",
     "Tests never interleave failing and succeeding parses in one parser object.", [PARSE], [("module-level parser", PARSE)],
     "exhaustive exploration of call histories on the real parser", "Menu of 16 definitions; histories to length 3 (4).")
prop("C09", "Arithmetic combines data by dimension name",
     "For every pair of arrays, whatever the order and overlap of their named dimensions, the result of an arithmetic operator at each named coordinate is the operator applied to the operands at that coordinate, "
     "it is missing exactly where an operand is missing (or the result undefined), and its dimensions are those of the left operand followed by the new ones of the right. Equal names with unequal sizes are refused.",
     ["inputs"], "all ordered dimension tuples over three names for both operands, all operators, masks, plain and in-place forms, three-operand expressions",
     "Tests use one or two pairs of dimension tuples per operator.", [PHYS], [("by-name broadcasting", PHYS + " PhysArray._broadcast_")],
     "exhaustive enumeration of dimension tuples and operators against a map-based reference array", "Sizes 1-3, up to three dimensions per operand.")
prop("C10", "Units are carried and converted exactly",
     "Every arithmetic operation yields data whose values and units together denote the physically correct quantity, whatever compatible units and data types the operands have, and a conversion changes "
     "the representation but never the quantity, its sign convention, dimensions or missing data. Operands of incompatible units are refused where the operation needs compatible ones.",
     ["inputs"], "all ordered pairs of 16 units and all operators, plain and in-place, over floating and integer data, chains of two operators",
     "Tests check a handful of unit pairs.", [PHYS, FUNCS], [("unit conversion", PHYS + " PhysArray.convert, _safe_convert_")],
     "exhaustive enumeration of unit pairs, operators and types against an exact unit table", "Units from a 16-entry table including offset units.")
prop("C11", "The sign convention of directed quantities is never lost or mixed",
     "Operands with opposite positive-up/positive-down conventions are brought to a common one before they are combined, the result carries the convention its values have, and converting between conventions "
     "negates the values exactly once. Data without a convention are never negated.",
     ["inputs"], "all combinations of conventions for two and three operands, all operators plain and in-place, with unit conversion and broadcasting; all sequences of direction changes to depth 4",
     "Tests cover single operators on equal layouts.", [PHYS, FUNCS], [("matching of conventions", PHYS + " PhysArray._match_positive_, flip, up, down")],
     "exhaustive enumeration against a reference model of directed quantities", "Depth 2 expressions; five dimension layouts.")
prop("C12", "Operations never modify their operands",
     "Evaluating an expression leaves every operand and every array shared with it unchanged - values, missing data, units, dimensions, sign convention and name - except the target of an explicit in-place operation. "
     "This holds after any history of operations over shared arrays.",
     ["histories"], "all operation histories up to a depth over four registers that share arrays",
     "Aliasing faults need a history in which an array is used twice; each test uses fresh arrays.", [PHYS, FUNCS], [("copying in operators", PHYS)],
     "explicit-state model checking: breadth-first search over operation histories on the real arrays in step with a value-semantics model",
     "Depth 3 (4) over four registers and the operator menu.")
prop("C14", "Part of a result equals the part of the whole, however often asked",
     "Requesting any part of a computed quantity, selected by dimension name along dimensions the computation does not reduce, gives exactly that part of the whole quantity. Repeating a request, in any order with "
     "others, gives the same answer.",
     ["programs", "inputs"], "all expressions up to depth 1-2 over the built-in operators and functions, with a menu of index dictionaries each",
     "Chunked evaluation relies on this for every function; tests slice a few functions once.", [NODES, FUNCS],
     [("index pass-through", FUNCS + " Function.__getitem__"), ("node evaluation", NODES)],
     "bounded exhaustive model checking: all expressions up to depth 2 and all slice selections against a reference evaluator", "Depth 2; index menu of single and paired slices.")
prop("C13", "Reductions act on exactly the named dimensions and on valid data only",
     "Means, sums, minima and maxima over any set of dimensions of data in any layout are taken over exactly those dimensions, in any order of naming, "
     "from the data that are not missing; the remaining dimensions, units, sign convention are kept, and a result is missing exactly where there is no valid datum. "
     "Naming dimensions the data do not have changes nothing; zonalmean is the mean over the fourth dimension.",
     ["inputs"], "all layouts of up to three dimensions, masks, number types and sequences of dimension names",
     "Tests reduce one or two complete arrays over the first dimension.", [FUNCS, PHYS],
     [("mean, sum, min, max functions", FUNCS), ("mean and sum of arrays", PHYS + " PhysArray.mean, PhysArray.sum")],
     "exhaustive enumeration of layouts, masks and dimension sequences against explicit loops", "Sizes 1-3, up to three dimensions; all masks up to 6 elements.")
prop("C15", "Probing a computation predicts its result without touching data",
     "Asking any node of a computation for its metadata only yields the dimensions, units, sign convention and (unless reduced to a single number) kind of number that the evaluated result "
     "then has. A probe reads no values, holds none and leaves later results unchanged, and it is refused when evaluation would be.",
     ["programs"], "all definitions up to depth 2, in memory and from files, with and without renaming",
     "Planning of output relies on probes of every definition; tests compare a handful.", [NODES, FUNCS, PHYS],
     [("evaluation with index None", NODES + " EvalNode, ReadNode, MapNode")],
     "bounded exhaustive enumeration of definitions, probe compared with evaluation and reference", "Depth 2 over five variables.")
prop("C16", "Renaming dimensions changes names only",
     "Mapping input dimension names to output names changes neither values, order of elements, missing data, units nor sign convention, for every injective map, including maps that exchange names. "
     "Requests by dimension name are understood in the new names, requests by position as for the original, and successive renamings compose.",
     ["inputs", "configurations"], "all injective renamings of up to three dimensions with all menu requests, chains of renamings, arithmetic of renamed data",
     "Tests rename with one map and slice once.", [NODES, FUNCS], [("MapNode", NODES + " MapNode"), ("chdims function", FUNCS)],
     "exhaustive enumeration of renamings and requests against a reference array", "Up to three dimensions, chains of three renamings.")
prop("C17", "Input variables are read exactly",
     "For every file format and kind of variable, reading any selection gives exactly the stored physical values, missing data, units (with calendar) and sign convention, with selections in a definition and later requests "
     "composing as two indexings. A reference to an absent variable or file is refused, and reading never alters a file, nor does altering what was read alter what is read next.",
     ["inputs", "configurations"], "file formats x kinds of variables x pairs of selections",
     "Tests read one variable with a few slices.", [NODES, DATA, INDEX], [("reading", NODES + " ReadNode"), ("headers", DATA + " InputDatasetDesc")],
     "exhaustive enumeration of variables and selection pairs, read through the real nodes and compared with the written values", "Four formats, up to three dimensions.")
prop("C18", "What is written has the declared type, layout, units and sign convention",
     "Data delivered for an output variable have exactly the declared data type, dimension order, units and sign convention and still denote the same quantity; what is not declared stays as computed. "
     "Data whose type, dimensions or units cannot be brought to the declaration without loss of meaning are refused. Parts and probes obey the same rules.",
     ["configurations", "inputs"], "all pairs of source and declared types, units, conventions and dimension orders; all partial declarations of reference times",
     "Tests validate a dozen combinations; conversions interact.", [NODES], [("validation", NODES + " ValidateNode")],
     "exhaustive enumeration of declarations against a reference model", "Two dimensions; 9 source and 11 declared types; 7 units.")
prop("C19", "Declared limits hide and report exactly the values beyond them",
     "A value is missing in the output exactly if it was missing or lies strictly below valid_min or strictly above valid_max, after conversion to the declared units and sign convention; every other value is unchanged. "
     "A warning (an error in error mode) is raised exactly if some value is out of range or the mean absolute value leaves its limits, whole or in parts.",
     ["inputs"], "all small vectors and 2x2 arrays with missing data, all pairs of limits, with conversions",
     "Tests cover one or two violations.", [NODES, FUNCS], [("limit checks", NODES + " ValidateNode"), ("limit function", FUNCS)],
     "exhaustive enumeration of value vectors and limit pairs against the definition", "Values from five numbers and missing; lengths up to 3.")
prop("C20", "Coordinates are written in their declared direction, paired with their data",
     "A coordinate declared increasing or decreasing is written in that direction, and every datum of every variable in the file stands at the coordinate value it belongs to in the input, whether or not anything was reversed and however it was chunked. "
     "Values that are not strictly monotonic in a coordinate with a declared direction are refused.",
     ["configurations", "inputs"], "coordinate shapes x declared directions x definitions of the coordinate x one and two dimensions x second files x chunk sizes",
     "Tests invert one axis of one file.", [NODES, FLOW, DATA], [("inversion of dimensions", NODES + " WriteNode"), ("direction attribute", DATA)],
     "exhaustive enumeration of configurations on the real pipeline, pairing of data and coordinates recomputed from the input", "Axes of three points, two axes.")
prop("C21", "Output dimensions are matched to input dimensions consistently",
     "The correspondence of output and input dimensions does not depend on the names or the order of declaration of variables; whenever coordinates and elimination determine it, data are written under the right dimensions, with inherited sizes. "
     "Contradictory declarations are refused, never silently mislabelled.",
     ["configurations"], "all subsets of coordinates, layouts of two data variables, namings, sizes and orders of declaration",
     "Tests build one data flow with one order.", [FLOW], [("inference of the dimension map", FLOW + " DataFlow")],
     "exhaustive enumeration of data set layouts on the real pipeline, written data compared by named coordinates", "Three dimensions, two data variables.")
prop("C31", "Elementary functions of a definition do what their names say",
     "chunits relabels a quantity with the given units, reference date and calendar - each missing one taken from the quantity itself - without touching values; limit moves exactly the values beyond a bound to that bound; sqrt takes roots of values and units and refuses units without one; up and down flip the values exactly when the convention changes; rmunits only removes units. "
     "Missing values stay missing, dimensions and sign conventions are kept, and the operand, which other definitions share, is unchanged, for data, computed quantities and numbers, evaluated in any order and repeatedly.",
     ["inputs", "programs"], "all combinations of data, units, reference dates and calendars; all bounds x types; all sequences of up to four sign calls",
     "Tests call each function on one array.", [FUNCS, NODES], [("functions", FUNCS + " ChangeUnitsFunction, LimitFunction, SquareRootFunction, Positive*Function, RemoveUnitsFunction")],
     "exhaustive enumeration of calls on the real evaluation nodes against a model", "Arrays of up to four values; a menu of units, dates, bounds and types.")
prop("C35", "Walks of the data flow graph are complete, and names find their functions",
     "A depth-first or breadth-first walk from a node starts there and meets every node and constant it depends on, directly or not, exactly once - children of the latest node first, or nearest first - however paths join, without altering the graph, and refuses anything that is not a node. "
     "An operator is found by exactly its symbol and number of arguments and a function by exactly its key; user-defined functions are found like built-in ones and listed, and a key defined twice is refused.",
     ["inputs", "programs"], "all graphs of up to four nodes with ordered, repeated inputs and all of five (thorough: six) nodes; all sets of up to two (three) user classes",
     "Tests walk one small graph.", [NODES, FUNCS], [("walks", NODES + " iter_dfs, iter_bfs"), ("registries", FUNCS + " find, find_operator, find_function, list_*")],
     "exhaustive enumeration of graphs and registries on the real code against reachability, distances and the definition of depth-first order", "Up to five nodes in quick tier, six in thorough.")
prop("C28", "Input files are put in order and gaps between or within them found",
     "get_files_in_order returns all given files (of at least three time steps each) in the order of their times with their numbers of steps, whatever the order given, the units of time, reference date, calendar, period (hours to decades) or use of time bounds. "
     "It reports an error exactly if the steps, taken together (by their bounds where they have any), are not equally far apart: a gap, a repetition, an overlap or disorder, within or between files. It alters no file.",
     ["inputs", "histories"], "all sequences of three (four) of six steps in a file; all pairs of runs of nine steps and triples of covering, repeated or overlapping runs in every order; x calendars x units x periods x bounds",
     "Tests use three files of one calendar and unit with times at midnight.", ["pyconform/mapdates.py", "pyconform/climIO.py"],
     [("dates and order", "pyconform/mapdates.py get_files_in_order")],
     "exhaustive enumeration of files and their orders on the real code against integer step numbers", "Nine steps, three files.")
prop("C38", "Parts of a physical array are selected and assigned by name or position alike",
     "Selecting from an array by position, ellipsis or dimension name yields exactly the selected elements with their dimensions, missing data, units and sign convention, and transposing only reorders. "
     "Assigning to a selection changes exactly the selected elements, converting the assigned data's units, sign convention and dimension order; incompatible data are refused and leave the array unchanged.",
     ["inputs"], "all layouts of up to three dimensions, all menu indices, all kinds of assigned values, all transpositions",
     "Tests select and assign in a few ways.", [PHYS], [("selection and assignment", PHYS + " PhysArray.__getitem__, __setitem__, transpose")],
     "exhaustive enumeration of indices and assignments against a map-based reference array", "Sizes 2-3, up to three dimensions.")
prop("C22", "What cannot be computed is skipped with a warning, and nothing else",
     "An output variable without a definition, or whose definition refers (anywhere in it) to variables that are neither input variables nor data of the specification, is skipped together with exactly the files that need it, "
     "each with a warning that names it. All other files are written, with the same content as if nothing were missing.",
     ["configurations"], "all subsets of missing inputs x definitions of three variables x their roles in two files",
     "Tests leave out one variable; which files are affected depends on every reference between variables, files and attributes.", [FLOW, DATA],
     [("skipping of variables and files", FLOW + " DataFlow._create_definition_nodes_, _create_write_nodes_"), ("empty definitions", DATA + " OutputDatasetDesc")],
     "exhaustive enumeration of missing inputs and specifications on the real pipeline against a dependency model",
     "Four inputs, two files, three definitions out of seventeen.")
prop("C23", "One name has one description throughout a data set",
     "In a data set all files and variables that use a dimension or variable name share one description of it, settled as soon as any of them settles it, so that a change through one is seen by all. "
     "Descriptions that contradict each other (dimension size, limited or unlimited, string length; variable type, dimensions and their order; contents of a file) are refused.",
     ["histories", "configurations"], "all small data sets of up to three files and variables, then all short histories of changes through every path to a dimension",
     "Tests build two or three data sets.", [DATA], [("unification by name", DATA + " DimensionDesc.unique, VariableDesc.unique, FileDesc.unique, DatasetDesc")],
     "explicit-state exploration: every data set of the bounded space and every history of changes replayed on the real objects in step with a shared-record model",
     "Up to 3 files, 3 variables, 2 dimensions; histories to length 2.")
prop("C24", "Input files are described as their headers say",
     "The description of an input data set lists for every file its format, global attributes, variables with type, dimension order and attributes, and the dimensions they use with size and limitedness, and for every variable the files that hold it. "
     "Files that contradict each other or cannot be read are refused, in any order, and no file is altered.",
     ["inputs"], "all headers over menus of variables, types, attributes and formats; all pairs of consistent and contradictory files",
     "Tests describe three hand-made files.", [DATA], [("reading of headers", DATA + " InputDatasetDesc")],
     "exhaustive enumeration of file headers, description compared with what was written", "Up to three variables per file and three files.")
prop("C25", "A specification determines exactly which variables a file holds",
     "Each output file holds its owner, its listed metavars, every variable without a file whose dimensions (at least one) all occur among theirs, and the variables named by bounds and coordinates attributes, and nothing else, in any order of declaration. "
     "Specifications that name unknown variables, own a file twice, lack names or dimensions, or ask for a format, compression level or data type that does not exist or that the format cannot hold, are refused.",
     ["configurations"], "all dimension lists of two owners x metavars x references x orders of declaration; all pairs of type and format; all single omissions",
     "Tests check the contents of two files.", [DATA], [("composition of files", DATA + " OutputDatasetDesc")],
     "exhaustive enumeration of specifications against the rule, descriptions and written files", "Two owners, three further variables, three dimensions.")
prop("C26", "Dates in file names are the first and last times of the file",
     "A pattern {from-to} in an output file name becomes the first and last time of the file's time variable, formatted as asked, in the calendar and units of that variable; a declared time variable is used before one called time, and that before others, and a hidden one (leading underscore) is not written. "
     "Names without pattern stay as they are, without any time variable a warning is given and the name kept, malformed patterns and files that come to have the same name are refused.",
     ["inputs", "configurations"], "all calendars, reference dates, units, time axes and patterns; all arrangements of candidate time variables",
     "Tests parse a few names in one calendar.", [NODES, FLOW], [("file name patterns", NODES + " WriteNode")],
     "exhaustive enumeration on the real pipeline against independent calendar arithmetic", "Nine calendars, five reference dates, three units, five axes.")
prop("C27", "The header of an output file is what was declared",
     "An output file has the declared format, compression level (or the override), dimension sizes and limitedness, global attributes plus the creation date, and for each variable its type and exactly its declared attributes with their values and types, except direction (never written) and history (written if and only if requested, with the dimensions that were turned round). "
     "Units and calendars left open are those of the data. Executing again gives the same header.",
     ["configurations"], "all formats x levels x overrides; all pairs of attributes from a menu for four kinds of variables; all open and declared units and reference times",
     "Tests look at values, hardly at headers.", [NODES, DATA], [("writing of headers", NODES + " WriteNode"), ("inherited units", NODES + " ValidateNode")],
     "exhaustive enumeration of declarations on the real pipeline, complete header compared with a model", "Pairs of attributes from a menu of 20; one file of five variables.")
prop("C29", "The dependency report names exactly the variables referred to",
     "For every definition that parses, vardeps reports exactly the input variables that occur in it - in arguments, subscripts' bases, keyword arguments and comparisons - for each requested output variable and in total, whether the definition stands in a specification or a definition file, "
     "and says so of variables that do not exist or cannot be parsed. Every reported variable is one the conversion itself needs.",
     ["programs", "configurations"], "all definitions up to depth 2 x file kinds x requests x frequency and realm attributes",
     "Tests run the command twice without looking at its output.", ["pyconform/cli/vardeps.py", PARSE],
     [("collection of variables", "pyconform/cli/vardeps.py"), ("parse trees", PARSE)],
     "exhaustive enumeration of definitions and requests on the real command, printed report compared with the variables put in", "Six leaves, depth 2.")
prop("C30", "iconform specifies every defined and requested variable as the tables say",
     "For definition files, MIP tables (CMOR files and the CMIP6 data request), global attributes, experiments and selections of activities, tables and variables, iconform writes exactly one specification per experiment, activity, table and realm, in which exactly the variables which are both defined and requested stand, "
     "each with its definition, the table's non-empty attributes, type, dimensions (slowest first) and file - name in the directory structure with the time stamp of its frequency, format, compression and the global attributes, those to be filled in taken from the table - and an axis for each dimension, with requested values or the realm's definition. Definition files may repeat headings, contain remarks and '=' in definitions. "
     "Specifications made from tables can be run by xconform and give the file they name.",
     ["inputs", "configurations"], "all definition files of three lines; MIP tables, attributes and axes field by field and pairwise; all 322 experiments of the CMIP6 data request",
     "Tests do not run iconform at all.", ["pyconform/cli/iconform.py", "pyconform/miptableparser.py", DATA],
     [("reading definitions", "pyconform/cli/iconform.py load"), ("variables, files and axes", "pyconform/cli/iconform.py"), ("MIP tables", "pyconform/miptableparser.py")],
     "exhaustive enumeration of definition files, tables and attributes on the real command, the JSON files compared key by key with a model; real data request for every experiment; specifications run to the end",
     "Four tables, two variables each; realms matched by one section; parents of experiments with a branch method and the request without MIP tables not specified.")
prop("C32", "Texts are written letter by letter whatever lengths and chunks",
     "A char variable of an output file decodes to exactly the texts of its definition - of an input file or given as data, selected, reversed or transposed - however long they are, with a common string dimension as long as the longest needs, under any chunking, also over the string dimension. "
     "Char arrays refuse units, sign conventions and moving the letters' dimension.",
     ["inputs", "configurations"], "all triples of texts of different length x sources x layouts x chunk vectors; all char arrays of up to three texts",
     "Tests write one char variable of one length.", [NODES, PHYS, DATA], [("string dimension and stretching", NODES + " ValidateNode, WriteNode"), ("char arrays", PHYS + " CharArray")],
     "exhaustive enumeration of texts, layouts and chunk vectors on the real pipeline, decoded and compared", "Four texts in quick tier, five in thorough; three per variable.")
COMMON, LUNIT, PFT = "pyconform/modules/commonfunctions.py", "pyconform/modules/CLM_landunit_to_CMIP6_Lut.py", "pyconform/modules/CLM_pft_to_CMIP6_vegtype.py"
DYN, DIAG, IDL = "pyconform/modules/dynvarmipfunctions.py", "pyconform/modules/dynvarmipdiags.py", "pyconform/modules/idl.py"
prop("C33", "Bounds, climatologies and calendar functions use the right cells and months",
     "bounds gives every cell of a coordinate its two edges - midpoints between neighbours, the given interfaces, or spans before or after the point - also for part of the coordinate; climatologies and yearly means average exactly the same calendar months or the months of each year, missing values left out; "
     "yearly data are repeated or spread over the months, burnt fractions add up from January, ages of air measure the time since the tracer had its value. "
     "Times and time bounds made for them are those of the periods averaged, names of dimensions and units are known before the data, and a conversion in chunks gives the same as a whole one or is refused.",
     ["inputs", "configurations"], "all coordinates of up to four of six values x types x locations x interfaces x parts; all time axes up to three years x single and pairs of missing values; all start months",
     "Tests do not call these functions.", [COMMON], [("calendar functions", COMMON + " bounds, oclim*, monthtoyear_noleap*, yeartomonth*, burntFraction, ageofair")],
     "exhaustive enumeration of coordinates, time axes and missing values on the real functions and whole conversions against models written cell by cell",
     "Up to four coordinates, three years, calendars without leap days; bounds of a single point not specified.")
prop("C34", "What is computed of an ocean uses exactly the cells above the sea floor",
     "For every sea floor (number of wet levels of every column, none on land) the values at the bottom, vertical sums and differences, means over the surface and the volume, and the sea fraction are those of exactly the wet cells, weighted with exactly their thickness and area, and missing where a column has no wet cell, whatever stands below the floor. "
     "The units are those of the quantities multiplied, the dimensions those left, both known before the data; a conversion in chunks gives the same as a whole one or is refused.",
     ["inputs", "configurations"], "all sea floors of up to four columns and three levels x data below the floor present or missing x missing values inside x chunk sizes",
     "Tests do not call these functions.", [COMMON], [("ocean functions", COMMON + " POP_*, diff_axis1_ind0bczero_4d, rsdoabsorb, sftof")],
     "exhaustive enumeration of sea floors and missing values on the real functions and whole conversions against models written cell by cell",
     "Up to four columns and four levels; missing values in the water for differences and sums not specified.")
prop("C36", "Land, ice and region functions put every value into the cell it belongs to",
     "The values of land units and plant types are put into the grid cells they lie in, by their coordinates, averaged with their weights over exactly the active ones of the kind asked for, and missing where there are none; land use types, soil pools, basins and hemispheres are selected, summed or repeated cell by cell; conditions and transports of ice take exactly the cells meant, at their own time. "
     "What is missing stays missing and is never used as a number, arguments are left unchanged; dimensions and units are known before the data, and a conversion in chunks gives the same as a whole one or is refused.",
     ["inputs", "configurations"], "all states of the land units and plant types of a cell; all sets of land cells; all patterns of missing values; all conditions; all chunk sizes",
     "Tests do not call these functions.", [COMMON, LUNIT, PFT],
     [("land units and plant types", LUNIT), ("plant types", PFT), ("selection and sums", COMMON + " reduce_lu, get_soilpools, get_nonwoodyveg, expand_latlon, ocean_basin, hemisphere, cice_where, cice_regions, masked_invalid")],
     "exhaustive enumeration of cells, states and missing values on the real functions and whole conversions against models written cell by cell",
     "Grids of two by three cells; one vegetated unit per cell; selection of 'nlut' not specified.")
prop("C37", "DynVarMIP diagnostics solve the transformed Eulerian mean equations",
     "deriv is the derivative of the parabola through three neighbouring points (of the first or last three at the ends), spl_init and spl_interp are the natural cubic spline, int_tabulated is Boole's rule on it, along any axis and grid. The eight diagnostics (wtem, vtem, utendvtem, utendwtem, epfy, epfz, utendepfd, psitem) are the TEM equations with pressure 100 x level, latitude in degrees and the constants of dynvarmipdiags, each time and further dimension by itself, in the units and direction given. "
     "Where a value needed is missing, or potential temperature does not change with pressure, the result is missing; a conversion in chunks gives the same as a whole one or is refused.",
     ["inputs", "configurations"], "all grids of up to six of seven abscissae x unit vectors and small integers x axes; all grids of three to five levels and three or four latitudes; every argument changed or missing at every point; chunk sizes",
     "Tests call the diagnostics on random numbers without looking at the results.", [DYN, DIAG, IDL],
     [("calculus", IDL + " deriv, spl_init, spl_interp, int_tabulated"), ("equations", DIAG), ("functions of definitions", DYN)],
     "exhaustive enumeration of grids and single-point changes on the real functions and whole conversions against the equations written point by point",
     "Grids of up to six points; levels from the top down; the shear of the zonal wind of two diagnostics is a known finding.")
prop("C39", "Density, aerosol and lightning emissions use the pressure of their own cell",
     "On hybrid levels of pressure p = hyam P0 + hybm PS, rho is p / (287.04 T), pm25 is the concentration times 287 T / p, and emilnox is the production times thickness of the layer (between the interfaces, which are listed from the other end than the levels) over 9.81 rho times the area of the cell, in moles - each cell from its own column, level and time. "
     "Missing values stay missing, surface pressure may be in any unit of pressure for rho and pm25, dimensions and units are known before the data, and a conversion in chunks gives the same as a whole one or is refused.",
     ["inputs", "configurations"], "all shapes of up to two times, three levels, latitudes and longitudes x single missing values x orders of dimensions x chunk sizes",
     "Tests do not call these functions.", [COMMON], [("formulas", COMMON + " rhoFunction, pm25Function, emilnoxFunction")],
     "exhaustive enumeration of shapes and missing values on the real functions and whole conversions against the formulas cell by cell",
     "Up to three cells in each direction; the names of the units of rho and pm25 not specified.")
prop("C40", "A file made after a template has its metadata and each step written",
     "With the netCDF4 port of climIO, create_file makes a file of the format, compression and history asked for; define_file gives it the dimensions of the template (time unlimited), its global attributes "
     "(a history beginning with the line 'Standardized'), and of each metadata variable and the template variable - under its own or another name - type, dimensions and all attributes, with the values of the metadata variables; "
     "create_var makes a variable of the type, dimensions and attributes given. After any sequence of write_var, each step of a variable - the first by default - holds the values last written to it, unrounded, with missing values missing, "
     "and steps never written are filled; read_slice and get_var_info give back what is in the file. get_filename is the file in the directory, else the name itself, else what the pattern gives, else None; template and arguments stay unaltered.",
     ["histories", "inputs", "configurations"], "all output formats x ordered selections of metadata variables x template variables; all sequences of up to three writes over variables, steps and shapes of values; sequences of files of one port",
     "The tests of the facade need PyNIO and look at one write only; most of the netCDF4 port was never run.", ["pyconform/climIO.py"],
     [("template files", "pyconform/climIO.py NetCDF4PyPort.create_file, define_file, create_var"), ("records", "pyconform/climIO.py NetCDF4PyPort.write_var, read_slice"), ("names", "pyconform/climIO.py get_filename")],
     "exhaustive enumeration of templates and of operation sequences on the real facade against a model of the file's contents",
     "One template layout of seventeen variables in three formats; sequences of three writes (four in the thorough tier); the PyNIO port cannot run here.")
