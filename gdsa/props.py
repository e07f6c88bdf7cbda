"""The properties: one table from which properties.jsonl and MANIFEST.json are
written (python3 tools/gen.py)."""

P = []


def prop(id, title, statement, over, forall, why, files, mechanism, technique=None, note=None, explain=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, explain=explain, na=na, observe=observe))


LIM = " Undecided sites are counted in the evidence (zero on the current tree), never reported as violations."

prop(
    "C01", "GDSII records are exactly as long as they announce",
    "Every record written to a GDSII stream announces, as a big-endian 16-bit count, exactly the number of bytes the record occupies (its 4-byte header included). That count is even - odd-length strings are padded with a single NUL byte that the count includes - and never exceeds the 16-bit field, whatever the number of vertices, the length of names and texts or the properties. The data-type byte of the record agrees with the encoding of its payload (2-byte and 4-byte big-endian integers, 8-byte reals, ASCII).",
    ["inputs", "programs"], "all libraries, cells, elements, name lengths, vertex counts, properties and writer options; all writers, including the incremental writer",
    "Tests write a handful of small layouts and compare hashes; record lengths depend on vertex counts, string parities and chunk boundaries (8190/8191 points) that no test reaches.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
    [("element serialisers", "to_gds of PolygonSet, FlexPath, RobustPath, Label, CellReference, CellArray, Cell"), ("library serialisers", "GdsLibrary.write_gds, GdsWriter")],
    "byte-count dataflow: linear size abstraction of every written value along every path of the writers, compared with the announced length",
    "Sound for the paths and value shapes the size domain understands; assumes ASCII strings and two-column coordinate arrays." + LIM,
    "Every write of every serialiser is turned into header/payload tokens; sizes are linear expressions over lengths; each path must balance announced and written bytes, with parity and 16-bit bounds discharged from path facts.",
)
prop(
    "C02", "Written streams follow the GDSII grammar, each element exactly once",
    "On every path through the writers the sequence of record types is a sentence of the GDSII syntax: library header, structures with name, elements with their mandatory records in order, optional records only where allowed, and a terminator for everything that was opened. Every polygon, every parallel path, every label, every reference and every selected cell is written exactly once, and end extensions are written exactly when the path type requires them.",
    ["inputs", "programs"], "all contents of cells and libraries and all writer options, including empty collections and many parallel paths",
    "The test suite checks a few fixed layouts; a record omitted or repeated only for one path type, a transformation combination or the last element of a collection is not exercised.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
    [("element serialisers", "to_gds of PolygonSet, FlexPath, RobustPath, Label, CellReference, CellArray, Cell"), ("library serialisers", "GdsLibrary.write_gds, GdsWriter")],
    "typestate analysis: the record-type sequence of every writer path is run through the GDSII syntax automaton; loop-coverage dataflow for exactly-once",
    "Sound for the resolved writes; loops are checked against an iteration-invariant automaton state." + LIM,
    "The record automaton (library, structure, element levels) is run over all paths; loops must return to their entry state; loops must range over the complete collection and write one element per iteration.",
)
prop(
    "C03", "Each GDSII record carries the data of the object it was written from",
    "Layer, datatype/texttype, path type, width, end extensions, text, anchor, reference name, origin, columns, rows, array lattice corners, magnification, rotation and reflection flag in the stream are those of the written object, all taken for the same polygon or parallel path. The vertices of a boundary are written completely, in order and closed by repeating the first one, and path spines completely and in order, also when they must be split over several coordinate records.",
    ["inputs", "programs"], "all elements, attribute values, collection sizes and vertex counts",
    "Tests use one or two elements per kind, mostly with equal layers and few vertices; mixed-up indices or attributes need several parallel elements or large vertex counts to show.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
    [("element serialisers", "to_gds of PolygonSet, FlexPath, RobustPath, Label, CellReference, CellArray")],
    "value-flow provenance: each payload token is traced back to object attributes and index sites in the value-flow graph; lattice corners and vertex chunking by polynomial normal forms",
    "Decides which attribute, index and algebraic expression reaches each record; numerical accuracy of the encodings is not decided." + LIM,
    "For each record the value-flow graph gives the attributes and iteration sites its payload derives from; these are compared with the record's meaning; array corners and chunk bounds are compared as polynomials.",
)
prop(
    "C04", "Lengths are scaled to database units once and rounded to nearest",
    "Every coordinate, path width and end extension written to a GDSII stream is the user value multiplied exactly once by the library's unit/precision ratio and then rounded to the nearest integer as the last operation, never truncated. No other record value depends on that ratio, and the sign of a width says whether it scales with magnification.",
    ["inputs", "programs"], "all coordinates, widths, extensions and unit/precision settings",
    "Tests use coordinates for which truncation and rounding agree and a single ratio; the difference shows only for particular fractional values.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
    [("element serialisers", "to_gds of PolygonSet, FlexPath, RobustPath, Label, CellReference, CellArray")],
    "units-of-measure dataflow over the value-flow graph (degree in the multiplier, rounding state)",
    "Abstract domain: power of the multiplier and rounding state of every value reaching a length record." + LIM,
    "An abstract interpretation with domain (power of the multiplier) x (exact, rounded, truncated) evaluates every payload of XY, WIDTH, BGNEXTN and ENDEXTN records.",
)
prop(
    "C06", "Element properties are written with every element they belong to",
    "Each GDSII element written from an object with properties - every polygon of a set, every parallel path, path geometry converted to polygons, labels, references and arrays - carries exactly one attribute/value pair for each property of that object, between the element's data and its terminator. The attribute number and value written are those of the property, and elements of objects without properties carry none.",
    ["inputs", "programs"], "all objects, numbers of polygons or parallel paths, and property dictionaries",
    "Existing tests attach properties to few objects and rarely to multi-polygon sets or paths converted to polygons.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
    [("property records", "to_gds of PolygonSet, FlexPath, RobustPath, Label, CellReference, CellArray"), ("property hand-over", "FlexPath.to_polygonset, RobustPath.to_polygonset")],
    "path-sensitive dataflow: between start and end of every element segment exactly one covering loop over the properties",
    "Sound for the resolved writers; guards on the property dictionary are decided with finite constant propagation over its size." + LIM,
    "Every element segment of every writer path is inspected for a loop over the whole property mapping that writes one PROPATTR/PROPVALUE pair per iteration, guarded at most by the mapping being non-empty.",
)
prop(
    "C07", "An explicit timestamp makes the written file reproducible",
    "When a timestamp is given to a writer, every date field it writes - library and structure headers, creation and access times - is year, month, day, hour, minute and second of that timestamp in this order, and it reaches every cell written by that call. The current time is consulted only when no timestamp was given.",
    ["inputs", "configurations"], "all timestamps, sets of cells and writer entry points",
    "A test with equal month and day, or with a single cell, cannot tell swapped fields or a timestamp not forwarded to some cells.",
    ["gdspy/library.py"],
    [("timestamp fields", "GdsLibrary.write_gds, GdsWriter.__init__, GdsWriter.write_cell, Cell.to_gds")],
    "value-flow provenance of the twelve date fields on every path",
    "Decides the origin of every date field; the clock itself is only required not to be used." + LIM,
    "For each BGNLIB/BGNSTR record the twelve fields are traced to attributes of the timestamp under the fact that it is given; calls to nested writers must forward it.",
)
prop(
    "C08", "Library header units agree with the scaling of the cells",
    "The units record of every written library holds precision/unit followed by precision, and every cell of that library is scaled by exactly unit/precision, so that reading the file back gives the same physical sizes. The name record holds the library's name, and the one-shot and the incremental writer produce the same header.",
    ["configurations", "inputs"], "all unit and precision settings and names, for both library writers",
    "Tests use the default units almost everywhere, for which swapped or inverted ratios can cancel or be invisible in round trips through the same library.",
    ["gdspy/library.py"],
    [("library header", "GdsLibrary.write_gds, GdsWriter.__init__, GdsWriter.write_cell")],
    "polynomial value numbering of header fields and multipliers",
    "Symbolic equality of the header expressions and the multiplier passed to the cells." + LIM,
    "UNITS payloads and the multiplier given to nested serialisers are reduced to rational normal forms and compared with precision/unit, precision and unit/precision.",
)
RD = ["gdspy/library.py", "gdspy/gdsiiformat.py"]
prop(
    "C10", "Imported elements carry exactly what their GDSII records say",
    "When a GDSII stream is read, layer, datatype/boxtype and texttype numbers are replaced through the corresponding mapping when listed there and kept otherwise; text, anchor, magnification, rotation, reflection flag, columns, rows, property numbers and values, path type and explicit end extensions arrive unchanged in the attribute they belong to. Polygons lose only their repeated closing vertex, paths keep all points and stay GDSII paths with a negative width meaning one that does not scale, and the spacing of arrays is recovered from their corners for every rotation and reflection.",
    ["inputs", "configurations"], "all record values, mapping options, property numbers, and combinations of optional records (one or both extensions, reflection and rotation of arrays)",
    "Round-trip tests use a few values and rarely the mapping options, single extensions, rotated reflected arrays or unusual property numbers.",
    RD, [("record dispatch", "GdsLibrary.read_gds"), ("element factories", "GdsLibrary._create_polygon, _create_path, _create_label, _create_reference, _create_array")],
    "constant propagation of record type and payload through the reading loop (one transfer function per record type), composed with the element factories; array spacing compared as polynomials with sine/cosine atoms",
    "Each record type is a constant of the dataflow pass, so its effect on the reader's state is exact for the shown payloads; numerical accuracy is not decided." + LIM,
    "The reading loop is analysed once per record type; the resulting stores into the element attributes are traced through the factories to constructor parameters and compared with the meaning of the record.",
)
prop(
    "C11", "Elements read from GDSII do not influence one another",
    "While reading, everything collected for an element - attributes, optional records, properties - is discarded at the end of that element, also when its kind is not supported, and never appears in a later element or is shared between elements. Every supported element becomes one object of its kind, added exactly once to the structure being read, whatever was read before; unknown record types never make the import fail.",
    ["inputs", "histories"], "all sequences of elements and records, including unsupported elements and record types",
    "Leaks need a particular order of elements (an unsupported one with properties, then a supported one) or unknown record numbers that no test file contains.",
    RD, [("record dispatch", "GdsLibrary.read_gds")],
    "typestate/liveness analysis of loop-carried state at the element terminator; index-bound check of tables under constant record types",
    "Decides the loop-carried state at ENDEL on every path." + LIM,
    "Loop-carried variables and mappings are evaluated at the end-of-element transfer on every path; all 256 record types are run through the dispatch as constants for table accesses.",
)
prop(
    "C12", "Imported lengths are converted with the units the caller asked for",
    "Reading with units 'skip' scales database integers by the file's database unit in user units; 'import' additionally sets the library's unit and precision to those of the file; 'convert' scales by the file's database unit in metres over the library's unit and leaves unit and precision alone; any other option raises an error. Coordinates, widths (as absolute values) and end extensions - also those of elements whose coordinates span several records - are multiplied by that factor exactly once and in file order, and nothing else is. get_gds_units returns the unit and precision the file announces.",
    ["configurations", "inputs"], "all units options and unit records, all record splits of coordinates",
    "Tests use files whose units equal the library's, for which inverted or repeated conversion cannot be seen, and no element with several coordinate records at other units.",
    RD, [("units record", "GdsLibrary.read_gds"), ("file units", "get_gds_units")],
    "polynomial value numbering of the scale factor and of every length store, per units option",
    "Symbolic in the two reals of the units record and the library's unit; assumes these are positive." + LIM,
    "For each option the transfer function of the UNITS record gives factor, unit and precision as rational normal forms, which are substituted in the stores of XY, WIDTH, BGNEXTN and ENDEXTN.",
)
prop(
    "C13", "Structure and reference names are mapped alike and all references resolve",
    "A structure name and a reference to it are renamed by the same rule: the rename table when the name is listed there, the template otherwise. Each structure becomes a new cell stored in this library under its new name and not in the global library, and a second structure with the same name raises an error. Every reference read is kept with its new name and, once all structures are known, points to the cell of that name in this library, or keeps the name if there is none.",
    ["inputs", "configurations"], "all orders of structures and references (including forward references), rename tables and templates",
    "Tests rename one or two cells; mismatches appear only when tables and templates are combined, with forward references, or when the global library has cells of the same names.",
    RD, [("names and references", "GdsLibrary.read_gds"), ("reference factories", "GdsLibrary._create_reference, _create_array")],
    "constant propagation of names through the reading loop; provenance and coverage of the reference list",
    "Names are folded as constants, the collection of references is decided by coverage of the loop that resolves it." + LIM,
    "STRNAME and SNAME transfers are compared for names in and outside the table; the factories must collect each reference; the resolving loop must cover all of them after the last structure.",
)
prop(
    "C14", "GDSII records and 8-byte reals are decoded without losing bytes or bits",
    "The record reader consumes exactly the bytes each header announces, for every data type and length, reports the record type of the header, and decodes payloads as big-endian 16-bit bit arrays, 16-bit and 32-bit integers, 8-byte reals or text that loses nothing but one padding NUL; empty texts stay empty texts, and a truncated header ends the stream. Encoding a real writes sign, exponent and all 56 mantissa bits of |x|*16^(14-e) with e normalised so that the mantissa fills but never exceeds its field (zero as eight zero bytes); decoding computes the value of exactly these fields.",
    ["inputs"], "all record lengths and data types; all bit patterns and values of 8-byte reals",
    "Tests decode the records that happen to be in small files and a few reals; exact powers of 16, negative or maximal exponents and odd lengths are not covered.",
    ["gdspy/gdsiiformat.py"], [("record decoding", "_record_reader"), ("8-byte reals", "_eight_byte_real, _eight_byte_real_to_float")],
    "constant propagation of record headers through the decoder; bit-slice abstract domain (weight of every bit) for the real codec",
    "The codec is compared bit by bit with the format; floating-point rounding of log2 and powers is assumed exact." + LIM,
    "Headers are constants of the dataflow pass, giving the bytes read and the unpack formats; the real codec is evaluated as weighted sums of input bits and compared with the 8-byte real layout.",
)
prop(
    "C15", "Raw stream tools keep record boundaries and touch only what they should",
    "Extracted binary cells hold every record of their structure once, in order and unmodified, from its beginning to its end record, under the structure's name. The file hash covers the complete contents of every structure after its header, is independent of the order of structures and of all timestamps, and counts every structure. Setting a timestamp overwrites only the dates of library and structure headers, with both copies of the given date in field order, and leaves all other bytes in place.",
    ["inputs"], "all streams, record types and sizes",
    "Tests use one or two small files; dropped record types, order dependence or misaligned positions show only for other records and lengths.",
    ["gdspy/gdsiiformat.py", "gdspy/library.py"], [("raw records", "_raw_record_reader"), ("extraction", "get_binary_cells"), ("hash and timestamp", "gdsii_hash, set_gdsii_timestamp")],
    "constant propagation of record headers through the loops; file-position dataflow; provenance of hashed slices",
    "Decides positions, slices and stored records for representative headers of every kind." + LIM,
    "Each loop is analysed with the record header as a constant: position change, slice bounds relative to the position, records stored and bytes written must match the format.",
)
prop(
    "C32", "Referenced geometry is placed exactly where the transformation puts it",
    "For CellReference and CellArray with a Cell, get_polygons (plain and by specification), get_polygonsets, get_paths and get_labels return every element of the referenced cell - for arrays once for each of columns x rows positions - mapped by: magnification, then displacement by (column * spacing x, row * spacing y) for arrays, then reflection about the x axis, then rotation in degrees, then translation to the origin; components that are not given have no effect. With set_transform the labels' own magnification, rotation and reflection are composed with those of the reference. The area of a reference is the area of the cell times the magnification squared and the number of repetitions.",
    ["inputs", "configurations"], "all combinations of rotation, magnification, reflection, origin, array sizes and spacings, and contents of the referenced cell",
    "Tests place small symmetric shapes with one or two components given; wrong composition order, swapped columns and rows or a component applied in only one of the five accessors need particular combinations to show.",
    ["gdspy/library.py", "gdspy/path.py"],
    [("single references", "CellReference._transform_polygons, get_polygons, get_polygonsets, get_paths, get_labels, area"), ("arrays", "CellArray._transform_polygons, get_polygons, get_polygonsets, get_paths, get_labels, area")],
    "vector-valued algebraic value numbering of one generic vertex per combination of given components, compared with the affine map's normal form; loop-coverage dataflow over elements and lattice",
    "Exact over the reals for every combination of the four optional components; floating-point rounding is not decided; the mapping of paths is decided as the arguments of their transform method." + LIM,
    "Each accessor is analysed once per combination of given components (constants of the dataflow pass); the returned coordinates of a generic vertex are polynomials over the inputs with sine/cosine atoms and must equal the specified affine map; loops must range over the complete collections.",
)
prop(
    "C33", "Transforming an object moves all of its coordinates and lengths together",
    "translate, rotate, scale and mirror of PolygonSet and every polygon class (Path and L1Path included), translate, rotate, scale and transform of FlexPath and RobustPath, and translate of Label, CellReference and CellArray replace every stored coordinate - all vertices of all polygons, the points of the spine, the end position from which a path continues, the matrix of every section of every parallel path - by its image under the same affine map: translation by (dx, dy); rotation by the given angle about the given center; scaling about the center by scalex and scaley (scaley defaulting to scalex); mirroring over the line through p1 and p2; for transform: magnification, array displacement, reflection about the x axis, rotation, then translation, each only if given. The direction of Path and L1Path turns with them, also if it was stored as a name. Under magnification by a factor, widths (unless width_transform is off for a path kept as a GDSII path), offsets, bend radii, custom end extensions and the width, distance and length of a Path are multiplied by that factor, and are unchanged by the other maps (offsets, and widths of RobustPath sections, follow the sign of a reflection).",
    ["inputs", "configurations"], "all objects, numbers of polygons, paths and sections, centers, angles, factors, mirror lines and combinations of given transform arguments",
    "Tests transform a few shapes, often about the origin, and look at the polygons; state that only matters when the object is extended, written as a path or transformed again (end position, direction, radii, extensions, distance) is not looked at.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/library.py"],
    [("polygons", "PolygonSet, Path, L1Path: translate, rotate, scale, mirror"), ("flexible paths", "FlexPath.translate, rotate, scale, transform"), ("robust paths", "RobustPath.translate, rotate, scale, transform"), ("others", "Label.translate, CellReference.translate, CellArray.translate")],
    "vector-valued algebraic value numbering of every stored coordinate and length, per combination of given arguments, compared with the normal form of the affine map; loop-coverage dataflow",
    "Exact over the reals (trigonometric atoms); floating-point rounding is not decided." + LIM,
    "Each method is analysed for every combination of given arguments; the final value of each attribute slot is a polynomial in its initial value and the arguments and must equal the affine image; loops must cover all polygons, paths and sections.",
)
prop(
    "C25", "Polygons, layers and datatypes stay aligned",
    "In every polygon set - rectangles, circles, text, paths built by segments, arcs, turns and parametric curves, fractured, transformed, filtered and flattened ones and the ones paths convert to - the lists of polygons, layers and datatypes have equal lengths and item i of each describes the same polygon: whatever adds or removes polygons adds or removes as many layers and datatypes at the same places, layer values go to the layers and datatype values to the datatypes, and lists of layers or datatypes are assigned to parallel paths in order, starting over when they are used up.  FlexPath and RobustPath have exactly one layer, datatype, end type (and corner type, bend radius, width and offset where kept per path) for each parallel path, taken from the argument of that name, and nothing changes that number later.",
    ["inputs", "histories"], "all arguments, numbers of parallel paths, polygon sizes and sequences of methods",
    "Tests build sets with one layer and few pieces; lists of different lengths show only with several parallel paths, list arguments, curves cut into pieces, or fracture of a particular polygon.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/library.py"], [("polygon sets", "constructors of PolygonSet and its subclasses; Path.segment, arc, parametric; PolygonSet.fracture and transformations; Cell.remove_polygons, Cell.flatten; to_polygonset"), ("paths", "constructors, scale, transform of FlexPath and RobustPath; Cell.flatten")],
    "symbolic length analysis: every effect on the three lists becomes a term (polynomial number of items, value source) nested in its loops; the normal forms of the three lists are compared on every path",
    "Equal numbers of iterations of the same loop are assumed equal for the three lists; lists edited by users are outside." + LIM,
    "All stores, appends, extensions and removals of the lists in all functions are enumerated per object, split on all conditions they depend on, loops with a known number of iterations are folded into polynomial counts, and the sequences (loop, count) and removed positions of the three lists must be identical; values are traced to the layer or datatype argument, to list elements modulo the list length, or to the same list.",
)
prop(
    "C26", "FlexPath keeps a width and an offset for every spine point",
    "A FlexPath has as many rows of widths and of offsets as spine points, after construction and after every sequence of segment, arc, turn, parametric, smooth, bezier, scale, rotate, translate, transform and mirror. With no width (offset) argument a section keeps those of the last point; with a number or a list the rows added go linearly from those of the last point to the values asked for - the width itself, the last offset plus a number, or the list of offsets - which the last row reaches; with gdsii_path the widths never change.",
    ["inputs", "histories"], "all end points, radii, angles, curves, widths and offsets as numbers or lists, and numbers of points the curves are cut into",
    "Tests add sections with one or two parallel paths and compare drawings; rows missing or doubled, profiles reversed or jumping to the last value show only for particular combinations of number, list and omitted arguments on curves of many points.",
    ["gdspy/path.py"], [("rows", "FlexPath.__init__, segment, arc, turn, parametric, smooth, bezier and transformations"), ("profiles", "the same sections, for omitted, number and list arguments, with and without gdsii_path")],
    "symbolic shape analysis (polynomial row counts of stacked arrays, on every path) and affine evaluation of the added rows in the section parameter",
    "Lists are taken to have one value for each parallel path, as documented; the number of points a curve is cut into is symbolic." + LIM,
    "Every stored value of points, widths and offsets becomes a stack of blocks with symbolic numbers of rows, which must agree on every path; for each of 18 combinations of argument kinds the last row and the profile of the rows added are evaluated as polynomials in the section parameter and compared.",
)
prop(
    "C29", "Unresolved references are skipped by queries, never dereferenced",
    "A reference may name a cell that is not there (its ref_cell is a string). Every method of Cell, CellReference and CellArray then works without treating that name as a cell: polygons, polygon sets, paths and labels of such a reference are empty (a dictionary when asked by specification), its area is zero (or an empty dictionary), its bounding box is None, and layers, datatypes, texttypes, SVG classes and dependencies of a cell containing it are those of its other contents.",
    ["inputs"], "all cells with any mixture of resolved and unresolved references; all methods of the three classes that look at the referenced cell",
    "Tests create one missing reference and call a few methods; the others are only ever called with resolved references.",
    ["gdspy/library.py"], [("references", "CellReference and CellArray methods"), ("cells", "Cell.get_layers, get_datatypes, get_texttypes, get_svg_classes, get_dependencies")],
    "type-state dataflow: one pass per method with the referenced cell typed as a string; any operation of a cell reached on it is a violation; collections compared by canonical contributions",
    "Decides which operations are reached under the type tests in the code; library-level methods are covered by other properties." + LIM,
    "Each method is interpreted with ref_cell of type str: branches on its type are decided, everything else is explored; no attribute or method of Cell may be applied to it, and the results must be the empty ones.",
)
prop(
    "C30", "Queries of a cell collect every element it contains, once",
    "Without depth limit, Cell.get_polygons returns each polygon of each polygon set, of each path and of each reference exactly once: as one list, as a dictionary in which every polygon is under the (layer, datatype) of its own index and nothing already collected is lost or replaced, or only those whose layer and datatype are both the requested ones. get_polygonsets, get_paths and get_labels return every own element and those of every reference; area sums all polygon sets, paths and references (per specification: under the same keys); get_layers, get_datatypes, get_texttypes and get_svg_classes cover all polygon sets, paths, labels and referenced cells; get_dependencies covers every referenced cell and, if recursive, their dependencies; iterating over a cell yields all its polygon sets, paths, labels and references.",
    ["inputs"], "all cells: any number of elements of each kind, polygons per set, parallel paths and references, and any layers and datatypes, shared or not",
    "Tests query cells with one or two elements per kind; elements lost when two share a key, when a set has several layers, or when references and own elements meet are not sampled.",
    ["gdspy/library.py"], [("queries", "Cell.get_polygons, get_polygonsets, get_paths, get_labels, area, get_layers, get_datatypes, get_texttypes, get_svg_classes, get_dependencies, __iter__")],
    "collection dataflow: the contributions to the returned list, set, dictionary or sum are computed as canonical generic items (value, key, guards, loop domains) and compared with the required ones",
    "Exact on generic items for the collection operations understood; the contents returned by paths and references are C32's concern." + LIM,
    "Every append, extend, add, update, comprehension and dictionary store reaching the return value is traced to a generic item over the cell's own lists with its key and conditions; loops must be complete, keys must belong to the same index, and dictionary updates must never overwrite.",
)
prop(
    "C31", "Depth limits stop at the right level and are handed down unchanged",
    "With depth d the queries of a cell include references that are at most d levels below it: depth 0 gives get_polygonsets, get_paths and get_labels the cell's own elements only, while get_polygons asks each reference for depth -1; for larger depths references are asked with depth - 1, and with None always with None. A negative depth makes get_polygons return the cell's bounding box as a single rectangle - filed under the cell's name when asked by specification - or nothing if the cell is empty or a single specification was requested. CellReference and CellArray ask the referenced cell for the same collection with the depth, by_spec and set_transform they were given.",
    ["inputs", "configurations"], "all hierarchies and depths (None, negative, zero, positive), with and without by_spec and set_transform",
    "Tests use two-level hierarchies with one or two depths; an off-by-one or an argument dropped in one of the two reference classes shows only in deeper hierarchies.",
    ["gdspy/library.py"], [("cells", "Cell.get_polygons, get_polygonsets, get_paths, get_labels"), ("references", "CellReference and CellArray get_polygons, get_polygonsets, get_paths, get_labels")],
    "collection dataflow per class of depths (None, negative, zero, positive); argument provenance of the calls between cells and references",
    "Depth classes are decided for all members by interval reasoning on the comparisons in the code." + LIM,
    "Each query is interpreted once per class of depths and form of by_spec; the calls to references and referenced cells must carry the required arguments, and the items returned must be the required ones.",
)
prop(
    "C34", "A library lists its cells under their names and references follow them",
    "GdsLibrary.add lists every cell given under the cell's own name, and, if and only if include_dependencies is set, also every cell they depend on, directly or not. If another cell of that name is listed, an error is raised and the entry stays, unless overwrite_duplicate is set: then the cell takes its place and, if and only if update_references is set, references to the name are changed to the new cell. rename_cell moves the entry to the new name and gives the cell that name, both or neither: an error is raised and nothing changes if the cell is not in the library, another cell is listed under its name, or the new name is taken; references to the old name are updated if and only if asked for. replace_references changes every reference in every cell of the library whose cell has the old name, be it a Cell or just a name, and no other, to the new cell (looked up if a name), and counts them. remove takes the cell out of the list and, if and only if asked for, removes all references to its name in every cell, and no others, and counts them. top_level returns the cells no cell of the library depends on. A new library is empty and shares its list with no other. Every cell read from a file is listed under the name it got, and an error is raised if that name is taken.",
    ["inputs", "histories"], "all libraries, cells, hierarchies, names, combinations of options, and histories of these operations",
    "Tests rename, replace and remove with a few resolved references; missed references by name, cells deep in the hierarchy, unresolved names and untouched state after an error are not looked at.",
    ["gdspy/library.py"], [("the list of cells", "GdsLibrary.__init__, add, remove, rename_cell, read_gds"), ("references", "GdsLibrary.replace_references, remove, top_level")],
    "path-sensitive effect analysis: the stores, deletions, errors and calls of each method are evaluated under every combination of the facts its conditions depend on, for an arbitrary cell and an arbitrary reference of the library",
    "A library whose add fails may have taken other cells of the same call before. What get_dependencies returns is C10's concern; references in cells outside the library are not changed." + LIM,
    "Facts enumerated: cell or name given, name listed, listed cell the same, new name taken, options, reference resolved or a name, name equal or not. For each combination the effects whose guards hold must be exactly those required; loops must run over all cells, their references, or the set of cells to be added (an inclusion analysis of its updates).",
)
prop(
    "C37", "Copying or flattening a cell keeps its whole contents and geometry",
    "Cell.copy returns another cell, with the name asked for, holding every polygon set, path, label and reference of the original: the same objects in lists of its own for a plain copy; copies of them - references copied with properties of their own but still pointing to the same cells - for a deep copy or whenever a transformation is asked for. Every element of a transformed copy is the original one scaled by scale, reflected about the x axis if x_reflection, rotated by rotation and translated by translation, in this order, each only if given: all polygon vertices and paths, positions of labels and origins of references, with the elements' own magnification, rotation (degrees) and reflection flag composed with it, and the spacing of arrays scaled. Cell.flatten returns the cell itself with its polygons, paths and labels replaced by those of all levels of its hierarchy, and without references. single_layer replaces every layer of every polygon, path and label, single_datatype every datatype of every polygon and path, single_texttype the texttype of every label; those not given (None, as opposed to 0) change nothing, and the layer and datatype lists keep one value per polygon or parallel path.",
    ["inputs", "configurations"], "all cells, element attributes (also labels and references already rotated, magnified or reflected) and combinations of the optional arguments",
    "Tests copy a cell or two with a single transformation and flatten simple hierarchies; compositions of reflections with rotations, arrays, own magnifications and layer 0 are not sampled.",
    ["gdspy/library.py"], [("copy", "Cell.copy"), ("flatten", "Cell.flatten")],
    "value-flow analysis of the new lists per combination of given arguments; the image of every coordinate, and the composed components, compared as polynomials with sine/cosine atoms",
    "Exact over the reals; what the element methods called (scale, rotate, translate, transform) do is C33's concern, what the queries used by flatten return C30's." + LIM,
    "Cell.copy is interpreted for all 16 combinations of arguments times 8 combinations of own components of labels, references and arrays, Cell.flatten for all 8: sources of the lists, order of reads and stores, sequences of transformation calls and final attribute values are compared with the required ones.",
)
prop(
    "C24", "Bounding boxes cover all contents and are never stale",
    "get_bounding_box of a PolygonSet, Cell, CellReference or CellArray returns ((min x, min y), (max x, max y)) over the vertices of everything it contains: all polygons of a set; all polygon sets, paths and references of a cell; all polygons of a reference or array - for which the box of the referenced cell may stand in only if the rotation is None or a multiple of 90 degrees. It is None exactly when there is nothing (for a reference: when the referenced cell has no box). The array returned is the caller's own: changing it does not change what later calls return. A cell returns its cached box only if it is marked valid, and so are those of all cells it depends on at any depth, none calculated later than its own; and every method of Cell and GdsLibrary that adds to, removes from or replaces the polygons, paths or references of a cell (also the cells its references point to) marks the cached box of that cell invalid on every path; flattening, which keeps the geometry, excepted.",
    ["inputs", "histories"], "all contents and hierarchies, rotations, and histories of queries interleaved with additions, removals and replacements",
    "Tests ask for boxes of a few cells once; staleness needs a history (query, change deep in the hierarchy, query of intermediate cells, query again), and extremes lost for one kind of content need that content to stick out.",
    ["gdspy/polygon.py", "gdspy/library.py"], [("boxes", "PolygonSet.get_bounding_box, Cell.get_bounding_box, CellReference.get_bounding_box, CellArray.get_bounding_box"), ("invalidation", "Cell.add, remove_polygons, remove_paths, GdsLibrary.remove, replace_references and their callers")],
    "abstract evaluation of the returned box to extremes over canonical collections of points; typestate of the cache: guards under which it is returned, and an effect analysis pairing every change of a cell's contents with an invalidation on the same path",
    "What the polygons of paths and references are is decided by C30 and C32; elements changed by their own methods after being added to a cell are out of scope, as in the library." + LIM,
    "Each corner of the returned array is evaluated to (min or max, coordinate, set of generic points); the conditions of the None and cached returns are compared with emptiness and validity; every store or list mutation reaching polygons, paths or references of a cell needs a store of False to _bb_valid of the same cell under no further conditions.",
)
prop(
    "C20", "Results of queries belong to the caller",
    "Lists, dictionaries, arrays, polygon sets, paths and labels returned by the queries - get_polygons, get_polygonsets, get_paths, get_labels, get_bounding_box, get_layers, get_datatypes, get_texttypes and get_svg_classes of cells, and those of references and arrays that they have, get_polygons and to_polygonset of paths, evaluation of a RobustPath, Curve.get_points - and by boolean, offset, slice and copy are newly created, together with every element in them that could be changed: no part of the result is an object kept by the cell, path, curve, cache or argument queried. Modifying a result in place therefore never changes the layout, and no later change of the layout changes the result.",
    ["inputs", "histories"], "all objects and options, and histories in which results are changed in place between queries",
    "Tests look at results but do not write into them and query again; whether part of a result is shared shows only for particular options (by_spec, depth 0, cached polygons).",
    ["gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/curve.py", "gdspy/operation.py"], [("queries", "get_* methods of Cell, CellReference, CellArray, FlexPath, RobustPath, PolygonSet, Curve"), ("operations", "boolean, offset, slice, copy")],
    "alias/escape analysis: fixpoint over the value-flow graph of what every returned value and its contents, four levels deep, may denote (new object, or object existing before the call)",
    "May-alias analysis over the collection, copy and numpy view operations understood; values returned by functions supplied by the caller, strings, numbers and property values are handed over." + LIM,
    "For every return of every query, the objects the value may denote and their contents are labelled new or old; an old object (reached from self, an argument or a global) in the result is a violation.",
)
prop(
    "C21", "No function changes what it should only read",
    "Arguments passed to functions and methods - lists of points, layers, widths or offsets, arrays, dictionaries, elements, cells used as operands - are never modified in place, neither directly nor later through an attribute that kept them; default values of parameters and module or class level tables (record names, precomputed constants) are never modified. Queries, exports and boolean operations (get_*, to_*, write_*, area, copy, inside, boolean, offset, slice) leave the objects they are applied to as they were, private caches and the dropping of repeated points of paths excepted.",
    ["inputs", "histories"], "all public functions, arguments and histories in which the same argument or object is used again",
    "Tests pass literals and use every object once; a modified argument shows only when the caller reuses it, and a query with a side effect only when it is repeated.",
    ["gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/curve.py", "gdspy/operation.py", "gdspy/label.py", "gdspy/gdsiiformat.py"], [("all public functions", "every public function and method of the package except the viewer")],
    "effect analysis: every in-place change on every path is attributed to the objects it may affect by the alias fixpoint; kept arguments paired with later in-place changes of the attribute",
    "Augmented assignments change their object only if it is a list or array by form or documentation; gdspy.current_library, the engine given to gdsii_hash and the cell given to rename_cell are there to be changed; functions supplied by the caller hand over what they return." + LIM,
    "All stores, item stores, augmented assignments and calls of mutating methods of all functions are enumerated; the object changed must be new, the receiver of a method that is not a query, or an object handed over.",
)
prop(
    "C23", "Cached path polygons are never stale, partial or cut down",
    "The polygons FlexPath and RobustPath keep after they were calculated are those of the present path: every method that changes anything their calculation reads - spine points, sub-paths, widths, offsets, bend radii, end extensions, layers, datatypes - and Cell.flatten, which changes layers and datatypes of paths, discards them on every path through it, and nothing recalculates them in between. They are kept only once all polygons of all parallel paths are complete, so that after an error no partial result is returned later, and do not depend on the form first asked for: get_polygons returns all of them, under their specification or as one list, each once.",
    ["histories", "inputs"], "all paths and histories in which polygons are queried between construction steps, transformations and changes of layers",
    "Tests build a path and query it once; a stale cache needs a query, then a change through a particular method, then another query.",
    ["gdspy/path.py", "gdspy/library.py"], [("caches", "FlexPath.get_polygons, RobustPath.get_polygons"), ("changes", "translate, rotate, scale, transform, segment, arc, turn, parametric, bezier, smooth of FlexPath and RobustPath; Cell.flatten")],
    "effect analysis with alias information: attributes read by the calculation are extracted; every effect on them or on objects reached through them must be paired with an unconditional reset of the cache of the same object; typestate of the cache store",
    "Which polygons are calculated is not decided here; attributes assigned directly by users are outside the interface." + LIM,
    "Attributes read in get_polygons are collected; all functions of the package are searched for effects on them; guards and loops of the matching resets are compared; updates after the cache store and dependence on by_spec are violations; items served from the cache are compared with the complete cache.",
)
prop(
    "C45", "Arguments reach what they are named after",
    "No argument of a public function, method or constructor is ignored: each one reaches the result, an effect or a condition of one. When an argument is passed on to another function or method of the library that has a parameter of the same name, it is bound to that parameter and to no other; when a call passes on some of the caller's arguments, it leaves out none that the called function has as an option of the same name. An attribute of a new object that has the name of an argument of its constructor is calculated from that argument.",
    ["inputs"], "all public functions, methods and constructors except the viewer, all calls between them and all combinations of arguments",
    "Tests give most options their default value or one other: an option that is dropped, or bound to its neighbour, on the way to the function that implements it changes nothing they look at.",
    ["gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/operation.py", "gdspy/label.py", "gdspy/curve.py"], [("wrappers", "turn, bezier, smooth of all paths; Cell.write_svg, to_gds, to_svg; GdsLibrary.new_cell, read_gds, write_gds; boolean, offset, slice"), ("constructors", "all classes")],
    "interprocedural value-flow analysis: binding of actual to formal parameters at every resolved call, and reachability of every parameter from results, effects and conditions",
    "Calls of methods on objects of unknown class are compared with all classes that have such a method. What the functions then do with an option is decided by other properties." + LIM,
    "All public functions are interpreted with symbolic arguments and private helpers inlined; for every call of a library function the parameters bound to unchanged arguments are compared by name, and every parameter must occur in an effect, a result or a guard.",
)
prop(
    "C52", "Every section of a RobustPath continues the path and ends where it says",
    "segment, arc, turn, bezier and smooth of a RobustPath add, to every parallel path and exactly once (once for each point in smooth), a section that starts at the current end of the path; parametric adds the given curve, moved by the end of the path if relative and unmoved otherwise. The end of the path, `x`, becomes the end of that section. A segment runs straight to its end point (added to the end of the path if relative), an arc follows the circle of its radius through the end of the path from its initial to its final angle, a turn sweeps its angle starting in the direction of the path. The gradient kept with the section is its derivative: exact for segments, arcs and Bezier curves, the derivative given or a difference quotient of the curve for parametric ones. Along the section the width of each parallel path goes linearly from its last value to the width asked for (a number for all, or one of a list for each), is the function given, or stays - also if none is given or the path is a GDSII path; the offset goes linearly to its last value plus the number given, to the absolute value given in a list, follows the last value plus the function given or the function in a list, or stays. Widths and offsets kept for the next section are the values at the end of this one.",
    ["inputs", "histories"], "all sequences of sections, numbers of parallel paths and forms of arguments",
    "Tests draw a few sections with one kind of width and offset and compare total areas; a section that starts, ends or turns wrongly needs a particular form of argument, or a second section after it.",
    ["gdspy/path.py"], [("sections", "RobustPath.segment, arc, turn, parametric, bezier, smooth, _parse_width, _parse_offset; _SubPath"), ("functions of a section", "_func_const, _func_linear, _func_offset, _func_bezier and local functions")],
    "symbolic evaluation of the closures kept in each section: position, gradient, width and offset as polynomials of the parameter (with sine and cosine atoms), compared at its ends with the state of the path before and after, for every kind of argument",
    "Exact over the reals. The curve given to parametric, the Hobby control points of smooth and the average direction at which a turn starts are taken as they are." + LIM,
    "Each method is interpreted for every form of width, offset and derivative; the four functions stored in the new section are applied to 0, 1 and a symbolic parameter in the state the method leaves; Bezier loops are recognised as de Casteljau recursions over all control points; the results must be the ones required, for every parallel path.",
)
prop(
    "C53", "Every section of a Path continues the path and has the outline asked for",
    "segment, arc, turn and parametric of a Path (bezier and smooth draw with them) start their section at the end point of the path; segments with the default direction and turns start in its current direction, of which the names '+x', '-x', '+y' and '-y' mean the same as the angles and are kept as long as turns are by quarters. Afterwards the position, direction, half width and distance of the path are those at the end of the section - the start plus the length along the direction and the offset to its right, the point of the circle at the final angle, or the curve at 1 (added to the position if relative) - and its length is larger by that of the section. To every one of the n parallel paths, centred i d - (n - 1) d / 2 to the side of the axis for the distance d, exactly one polygon is added (one for each piece of an arc or of a sampled curve, pieces sharing their ends), whose two sides are half the width to either side of it; width and distance go linearly from the last values to the final ones, follow the function given, or stay. At an end without width the two sides share one point. A parametric curve is sampled at 0, at 1 and between, and refined exactly where it is further from the chord than the tolerance; its direction is the derivative given or a difference quotient towards larger parameters.",
    ["inputs", "histories"], "all sequences of sections, numbers of parallel paths, directions, angles and forms of arguments",
    "Tests draw a handful of sections and look at areas; a wrong side, shift or end needs a particular direction, a second path, a width of zero or more than one piece.",
    ["gdspy/polygon.py"], [("sections", "Path.segment, Path.arc, Path.turn, Path.parametric")],
    "value-flow analysis: outlines as sequences of blocks of rows (functions of a parameter, numbers of rows as polynomials), compared up to rotation and reversal with the sides required, for every kind of argument and sign of the widths",
    "Exact over the reals; equality of expressions with sines and roots and the order of numbers of rows are decided by values at fixed points. Numbers of points of arcs, and final widths given as a function that are zero at an end, are not decided. Widths and distances are taken as not negative." + LIM,
    "Each method is interpreted for every kind of direction, angle, width, distance and derivative; stores and slices of arrays become operations on blocks of rows; the polygon appended (after stores to it) is compared with the outline for the only, first, middle and last piece; positions and points of samples must be added together.",
)

prop(
    "C16", "Files that gdspy opens are closed, streams of the caller are left open",
    "Every function that reads or writes a GDSII or SVG file (read_gds, write_gds, write_svg, get_gds_units, get_binary_cells, gdsii_hash, set_gdsii_timestamp, and GdsWriter with its close()) opens the file itself exactly if it is given a name or a path object, in the mode needed (binary for GDSII, text for SVG, writing for output and reading for input), uses the open file only until it closes it, and has closed it whenever it returns. If it is given an open stream (of the functions that accept one), it opens nothing and does not close the stream.",
    ["inputs", "histories"], "all files and streams, every way to a normal end of the functions (early returns included)",
    "Files that stay open lose their last part or cannot be replaced only on some platforms or later in the program; tests read or write each kind of argument once and never look at the state of the stream.",
    ["gdspy/library.py", "gdspy/gdsiiformat.py"], [("files and streams", "read_gds, write_gds, write_svg, get_gds_units, get_binary_cells, gdsii_hash, set_gdsii_timestamp, GdsWriter")],
    "resource typestate analysis: abstract execution of each function for a name, a path object and a stream; on every return path the value of open() must have been closed, after its last use, and the stream of the caller must not be",
    "A function that raises may leave its file open (GDSII files opened by name are not closed when reading fails)." + LIM,
    "The functions are found by the call of open in them or their helpers; tests of the kind of argument are decided for each of the three kinds, everything else is left open. The conditions under which a file is closed must follow from those of each return.",
)

prop(
    "C55", "Curve commands continue the curve at its end and leave what smooth ones need",
    "A Curve starts at the point given (two numbers or a complex number). L, C, S, Q, T and B add lines, cubic, smooth cubic, quadratic, smooth quadratic and general Bezier curves whose control points are the end of the curve as it is and the points given, each as two numbers or one complex number, all of them, in order; H and V keep the other coordinate of the end. Commands in lower case add the position of the end at the time of the call to every point. Smooth curves use the reflection of the last control point of the curve drawn directly before if it has the same degree, and their start otherwise: every command leaves its own last control point, or none if it draws no such curve. I and i draw one cubic curve between any two consecutive points (and from the last to the first if closed) with the two control points computed for it. arc starts at the end of the curve and follows the ellipse with the radii, rotation and angles given. Curves are sampled at both ends and refined exactly where they are further than the tolerance from the chord of two samples, and nothing of them is left out; get_points leaves out the last point exactly if it is within the tolerance of the first.",
    ["inputs", "histories"], "all sequences of commands, numbers of points and forms of coordinates",
    "Tests draw some commands once each; what a command leaves for the next one, several segments in one call and mixed forms of coordinates are not covered.",
    ["gdspy/curve.py", "gdspy/path.py"], [("commands", "Curve.L .. Curve.i, Curve.arc, Curve.get_points, _func_bezier")],
    "inductive value-flow analysis of one round of each command for every kind of items, with loops of constant length unrolled; what is added, read next and left behind is compared as polynomials",
    "Exact over the reals, except values of sines and the condition of refinement, which are compared at fixed points. The number of points of an arc and the control points of I and i (Hobby's algorithm) are not decided." + LIM,
    "Each command is interpreted for all kinds of its items (and with and without a curve of the same degree before it): the points read must be those at the cursor, the cursor must move past them, the control array must have the rows required, samples must be inserted with their positions, and the control point kept must be the last but one (or the middle one).",
)

prop(
    "C54", "Smooth curves go through every given point in order",
    "smooth of Path, FlexPath and RobustPath calculates its control points for the current end of the path followed by all given points - each added to the end of the path if relative, unchanged otherwise - with the angles, curls, tensions and cycle flag given, and then adds, for each of these points but the first and in order, one Bezier section that ends there and uses its own pair of control points in the order leaving, arriving; if and only if the curve is a cycle one more, with the last pair of control points, that ends at the first point.",
    ["inputs"], "all lists of points, relative or absolute, open or closed, of the three classes of paths",
    "Tests draw one smooth curve per class with fixed points; an off-by-one, exchanged control points or a dropped option changes the curve without failing.",
    ["gdspy/polygon.py", "gdspy/path.py"], [("smooth curves", "Path.smooth, FlexPath.smooth, RobustPath.smooth")],
    "value-flow analysis: rows of the array of points as polynomials over the arguments, index arithmetic of the sections against the number of rows, provenance of control points and options",
    "The control points themselves (Hobby's algorithm) are numeric and not decided; that sections start at the end of the path is C52's and C53's concern." + LIM,
    "The calls of _hobby and bezier in each method are analysed for all combinations of relative and cycle: first, second and last rows of the points, range of the loop, indices of the three points of each section, guards, and every option handed on.",
)

prop(
    "C42", "The clipper extension handles Python objects correctly on every path",
    "On every path through every function of the extension module (clip, offset, inside, _chop and those they call) - well-formed operands or not, any Python call failing at any point - every reference the function obtains is released exactly once, returned, or handed to a tuple or list; references it does not own are never released or returned, and none is used after it was given up. A NULL result is never used, NULL is returned exactly when an exception is set, allocated memory is freed, an item at a fixed position is read only from a container known to have it, no container is given a negative size, and no exception of the clipper library leaves a function called by the interpreter. Operands that are empty or not what they should be therefore raise a Python exception or give a result; they never crash the interpreter or damage objects of the caller.",
    ["inputs"], "all paths through the functions, every Python call succeeding or failing",
    "Tests pass well-formed polygons: error paths of the C++ code are never taken, and a reference released twice shows only later, elsewhere.",
    ["gdspy/clipper.cpp"], [("binding", "parse_polygon, parse_polygon_set, build_polygon_tuple, clip, offset, inside, chop")],
    "path-sensitive abstract interpretation of the C++ syntax tree (clang): typestate of references (owned, borrowed, given up), of the pending exception, of allocated memory and of sizes of containers; summaries of helpers; closure of functions that may throw",
    "Loops are iterated to a fixpoint. Indices that are variables and the algorithms of the clipper library itself (functions without Python objects, except what they throw and read at fixed positions) are not decided, nor values of numbers beyond the range of cInt." + LIM,
    "clang parses clipper.cpp against declarations of the Python API; each function with Python objects is executed abstractly, every Python call forks into success and failure; problems at returns, releases, uses, reads and calls that may throw are violations.",
)

prop(
    "C40", "Operations use all operand polygons and return what clipper computes from them",
    "An operand of boolean, offset, slice and inside may be None, a polygon set, path or reference, or an iterable of polygon sets, paths, references and lists of points in any mix; all its polygons take part, each exactly once. boolean: for every operation and numbers of polygons in the operands, also none, what is given to the clipper is a region equal to the one asked for (an empty operand is the empty set). boolean and offset return None exactly if there are no polygons in the result, otherwise a polygon set with these polygons on the given layer and datatype, fractured; the distance, join, tolerance, operation, axis and inverse precision reach the extension in its order of arguments. slice cuts every polygon at all positions in increasing order and returns one item for each part, in order: None if it is empty, otherwise a polygon set with all its polygons on the layer and datatype taken cyclically. inside passes one list of points as one group without short-circuit, and groups as they are, short-circuited on the first point inside for 'any' and outside for 'all'.",
    ["inputs"], "all kinds of operands, operations and options; numbers of polygons 0, 1 and 2 stand for all",
    "Tests use a few non-empty operands; an empty one, a list with a path or more positions than layers takes branches that no test does.",
    ["gdspy/operation.py"], [("operands", "_gather_polys"), ("operations", "boolean, offset, slice, inside")],
    "symbolic evaluation by case: value-flow of operand lists (tokens of polygons through append, pop, concatenation) to the calls of the extension, truth tables of the region they describe, content of collections built in loops",
    "What clipper computes from its arguments is the concern of C41 and, for the algorithms themselves, not decided; nor is what get_polygons returns (other properties)." + LIM,
    "The functions are interpreted with symbolic arguments; for each kind of operand the list of polygons must be the required one, and for each operation and numbers of polygons the result is evaluated as a boolean function of membership in the polygons and compared.",
)

prop(
    "C60", "No function uses a name, attribute or parameter that does not exist",
    "In every function of the package (viewer excepted) each variable that is read has a value: no way through the function, whatever its optional inputs (absent, false or given), reaches the use of a variable that no statement on this way has set and no outer scope defines. Each attribute used of an object whose class is known (self, objects just constructed, objects tested for their class) is one the class or a class derived from it has: a slot, a method or a class attribute; attributes are set only if they are slots. Each call of a function or constructor of the package gives it arguments it has parameters for, none twice, and all it requires. Each constructor gives a value to every attribute that a method of the class reads before it sets it.",
    ["inputs", "configurations"], "all functions, all ways through them that take loops at least once, all combinations of optional inputs",
    "Python finds such names only when the statement is executed: tests of the combinations of options that reach it are missing in most functions.",
    ["gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/operation.py", "gdspy/label.py", "gdspy/curve.py", "gdspy/gdsiiformat.py", "gdspy/hobby.py"], [("functions", "every function of the package"), ("constructors", "all classes")],
    "path-sensitive definite-assignment analysis, attribute and signature resolution over the value-flow of each function",
    "Whether conditions other than tests of one optional input exclude each other is not decided, nor attributes of objects of unknown class and of libraries." + LIM,
    "Each function is interpreted once; the value of each variable at each use is known as a choice over the conditions of the path. A use is a violation if the variable is without value under conditions the path leaves open.",
)

prop(
    "C27", "Functions return what is documented; modifying methods return the object",
    "Every method documented to return this object (curve, cell, path, ...) returns the very object it was called on, on every way to its end - early returns included -, so that calls can be chained. No function documented to return something returns nothing (None) on any way unless its documentation says that it may, nor a list, dictionary, set, tuple, number, truth value or object of another class where the documentation names a different one.",
    ["inputs", "histories"], "all public functions whose documentation has a Returns section, all ways to their end",
    "Tests that use the result of a method do so on one way through it; early returns for empty input are rarely chained.",
    ["gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/operation.py", "gdspy/label.py", "gdspy/curve.py", "gdspy/gdsiiformat.py"], [("this object", "modifying methods of Curve, Path, FlexPath, RobustPath, PolygonSet, Label, Cell, CellReference, CellArray, GdsLibrary"), ("results", "other documented functions")],
    "value-flow of the results on every return path, compared with the type named in the documentation of the function itself",
    "Values of unknown type (parameters, results of numpy and of functions outside the package) are not judged, except where this object is due. Errors are not results." + LIM,
    "Each function is interpreted with opaque arguments; every return contributes the nodes its value may be.",
)

prop(
    "C28", "Values that may be None are tested before they are used as a value",
    "A parameter whose default is None, or whose documentation names None, or to which another function of the package hands such a value, an attribute that a constructor takes from such a parameter (rotation, magnification, origin, ...), and the result of a function documented to return None at times (the bounding box of an empty cell, the polygons of an empty path, ...) is indexed, iterated over, searched, compared by order, computed with, given to numpy or asked for an attribute only where the conditions on the way there exclude that it is None. So the default of every optional parameter works, with every combination of the others, and so do empty cells, empty references and empty paths.",
    ["inputs", "histories"], "all combinations of optional parameters given and left out, all objects with and without the optional attributes, all functions of the package except the viewer, and all paths through them",
    "The combinations of optional arguments are exponentially many, and tests use a few; results are None for empty cells and paths, which tests rarely build.",
    ["gdspy/library.py", "gdspy/path.py", "gdspy/polygon.py", "gdspy/operation.py", "gdspy/label.py", "gdspy/curve.py", "gdspy/gdsiiformat.py", "gdspy/hobby.py"], [("transformations", "copy, transform, scale and the placement of references"), ("bounding boxes", "every use of get_bounding_box"), ("defaults", "timestamps, engines, styles, numbers of points")],
    "nullness analysis: path-sensitive value-flow from the sources of None to the operations that None does not have, with the conditions of the path and of the value",
    "Elements of lists given as parameters (angles of a smooth curve, final widths) are not followed, nor is None put in a list. A condition that mentions the value without plainly testing it leaves the use undecided." + LIM,
    "Each function is interpreted with opaque arguments and private helpers in place; every operation on a value that may come from a source of None is an obligation.",
)

# -- properties this family does not reach ------------------------------------------


prop(
    "C70", "SVG files show every element where the layout has it",
    "The SVG output draws the layout. Cell.to_svg writes one group with the name of the cell as identifier and the attributes given, which contains every polygon set, path, label and reference of the cell once. A polygon set or path writes every polygon with the class of its layer and datatype and all its vertices as scaling times their coordinates. A reference writes a use element that links to the identifier of its cell (given as object or as name), magnified, reflected, rotated and moved to scaling times its origin, in the order of the GDSII transformation, for whatever of these is set; an array writes one for each of its columns and rows, at scaling times the multiples of its spacing, which are rotated and reflected but not magnified. A label writes its text, with the characters special in XML replaced, upright under the same transformation, with the class of its layer and texttype and its anchor. Every number depending on coordinates is written with the precision given. Cell.write_svg writes a document whose size, view box and background rectangle are the bounding box times scaling, mirrored, with the margin if there is a background; a rule for each class of polygons and labels with the style given for it; all cells used, at any depth, as definitions; and the cell itself once, mirrored so that y points up.",
    ["inputs"], "all cells, elements, combinations of optional components, anchors, styles, scalings and precisions",
    "Tests compare one SVG file with few elements; combinations of rotation, reflection, magnification and arrays, names with special characters and optional arguments are not drawn, and nothing else reads the output.",
    ["gdspy/library.py", "gdspy/label.py", "gdspy/polygon.py", "gdspy/path.py"], [("references", "CellReference.to_svg, CellArray.to_svg"), ("labels", "Label.to_svg"), ("polygons", "PolygonSet.to_svg, FlexPath.to_svg, RobustPath.to_svg"), ("cells and documents", "Cell.to_svg, Cell.write_svg")],
    "string value-flow analysis: what is written is put together from constants and formatted values and parsed as elements; transformations are compared as polynomials, links, classes and contents as value identities",
    "The default colors are not decided, nor whether an SVG program accepts unusual names of cells." + LIM,
    "Each method is interpreted for every combination of rotation, magnification, reflection and kind of reference: the text must be one element, and its transformation must equal the affine map of the element for symbolic components.",
)

# -- properties this family does not reach -------------------------------------


def out_of_reach(id, title, statement, over, forall, why, files, mechanism, na):
    prop(id, title, statement, over, forall, why, files, mechanism, na=na)


out_of_reach(
    "C80", "A library that is written and read back is the same layout",
    "Reading the file a library was written to gives cells with the same names, whose polygons, labels, references and properties are those written, with coordinates equal up to half a database unit, for any units of writing and reading.",
    ["inputs", "programs"], "all libraries, units and writers",
    "Tests round-trip two small layouts.",
    ["gdspy/library.py"], [("round trip", "GdsLibrary.write_gds, GdsLibrary.read_gds")],
    "equality of values after encoding, rounding and decoding is a statement about runtime numbers; the parts that are decided from the source (record contents, scaling, rounding, dispatch of records, units, names) are C01-C15",
)
out_of_reach(
    "C81", "Boolean operations, offsets and slices compute the exact region",
    "The region covered by the result of a boolean operation, offset or slice differs from the exact one only within the precision given, also for self-intersecting, touching and degenerate polygons.",
    ["inputs"], "all polygons, operations and precisions",
    "Tests compare a few results with fixed polygons.",
    ["gdspy/clipper.cpp", "gdspy/operation.py"], [("Vatti sweep", "Clipper, ClipperOffset")],
    "correctness of a sweep-line algorithm over integers needs an invariant of its active edge list for all inputs; no static analysis in reach proves it. What is given to the algorithm and taken from it is C40-C42",
)
out_of_reach(
    "C82", "Eight-byte reals keep all the digits the format has",
    "Encoding a number as a GDSII eight-byte real and decoding it gives the nearest number the format can represent; powers of the base are exact.",
    ["inputs"], "all finite numbers in the range of the format",
    "Tests encode a few constants.",
    ["gdspy/gdsiiformat.py"], [("reals", "_eight_byte_real, _eight_byte_real_to_float")],
    "accuracy depends on floating-point results of log2, power and division at run time, which a sound interval analysis cannot bound to the last bit; the structure of the conversion is decided by C14",
)
out_of_reach(
    "C83", "Curves stay within the tolerance of the ideal shape",
    "The polygons of round shapes, fillets, bends and parametric or Bezier curves deviate from the curves they approximate by at most the tolerance given, unless their number of points is limited.",
    ["inputs"], "all radii, angles, curves and tolerances",
    "Tests compare areas of a few shapes.",
    ["gdspy/polygon.py", "gdspy/path.py", "gdspy/curve.py"], [("sampling", "Round, fillet, Curve, RobustPath.get_polygons, parametric")],
    "the number of points follows from runtime quantities (arccos of tolerance over radius, adaptive bisection driven by user functions); no static bound on the deviation is in reach",
)
out_of_reach(
    "C84", "Fracturing does not change the region and ends",
    "fracture gives polygons with at most the number of points asked for that cover the same region and overlap only at their edges, and it terminates for every polygon.",
    ["inputs"], "all polygons and limits",
    "Tests fracture a few polygons and compare areas.",
    ["gdspy/polygon.py"], [("fracture", "PolygonSet.fracture")],
    "region equality and progress of the recursive cuts depend on the numbers of points the clipper returns; bookkeeping of layers, datatypes and properties through fracture is decided by C25 and C06",
)
out_of_reach(
    "C85", "Smooth interpolating curves are smooth",
    "The control points of smooth curves make the direction and, without curls and tensions, the curvature continuous at every point, as Hobby's algorithm prescribes.",
    ["inputs"], "all lists of points, angles, curls and tensions",
    "Tests compare total areas of paths.",
    ["gdspy/curve.py"], [("control points", "_hobby")],
    "continuity is a property of the solution of a linear system computed at run time; which points and options reach the algorithm and how its result is used is decided by C54",
)
out_of_reach(
    "C86", "Paths have the joins, ends and bends that their options name",
    "The outline of a flexible or robust path covers every point within half its width of its spine and none beyond it but for the joins, ends and bends named, also where sections of different widths or directions meet.",
    ["inputs"], "all spines, widths, offsets, joins, ends and bends",
    "Tests compare areas of a few paths.",
    ["gdspy/path.py"], [("outline", "FlexPath.get_polygons, RobustPath.get_polygons")],
    "the outline is built from intersections found numerically and from user functions; whether it covers a point depends on runtime values",
)
out_of_reach(
    "C87", "The viewer shows the layout it is given",
    "The layout viewer draws every polygon and label of the hierarchy that its options select, at its place, and its tools measure what they show.",
    ["inputs", "programs"], "all layouts, options and user interactions",
    "Tests do not open the viewer.",
    ["gdspy/viewer.py"], [("drawing", "LayoutViewer")],
    "what is on the screen is decided by the graphical toolkit and the order of user events; no static rule states it. The queries it draws from are C24 and C29-C32",
)
