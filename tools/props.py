import json
out=[]
def p(id,title,st,over,qt,why,mech,state=None,obs=None,files=("tg.c","tg.h")):
    a={"files":list(files),"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    out.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
D=("tg.c","tg.h","deps/json.c","deps/fp.c")
p("C01","Parsing any bytes is safe, and everything parsed is safe to use",
 "Whatever bytes are handed to any reader (auto-detecting, GeoJSON, WKT, WKB, hex or GeoBIN, with any indexing option), the call touches no memory outside the input, asks for memory only in proportion to the input, always ends, and returns either a geometry or an error that carries a message. A geometry that was accepted can be given to every accessor, predicate, search and writer and then be freed without memory errors, undefined behaviour or leaks. The GeoBIN rectangle helpers are equally safe on any bytes and fill in every dimension they report.",
 ["inputs","configurations"],"every byte string, through every reader, for every indexing option, in the amalgamated and the split build",
 "The tests parse a few hundred hand-written documents; memory safety of a reader is a statement about all byte strings, above all the malformed, truncated and hostile ones.",
 [("GeoJSON reader","tg.c parse_geojson*, deps/json.c"),("WKT reader","tg.c parse_wkt*"),("WKB reader","tg.c parse_wkb*"),("hex reader","tg.c parse_hex*"),("GeoBIN reader and rect helpers","tg.c parse_geobin, tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point"),("depth limit","tg.c MAXDEPTH, JSON_MAXDEPTH")],
 files=D,obs=["tg_parse*","tg_geom_error","allocator hooks"])
p("C02","WKB and hex are encoded and decoded exactly",
 "Writing any geometry as WKB yields exactly the standard little-endian encoding (type code plus 1000 for Z, 2000 for M, 3000 for both) of its coordinates, bit for bit, and hex is the same bytes spelled in hexadecimal. Reading well-formed WKB in either byte order at any nesting level, with standard or extended (high-bit) type codes, with or without an embedded SRID, or hex in either letter case, yields exactly the geometry it encodes.",
 ["inputs"],"all geometry types, nested collections, 2 to 4 dimensions, all coordinate bit patterns, both byte orders per nested geometry",
 "Tests compare a fixed list of encodings; correctness is over every combination of type, dimension, count, byte order and coordinate value.",
 [("WKB writer","tg.c write_*_wkb"),("WKB reader","tg.c parse_wkb*"),("hex","tg.c tg_geom_hex, parse_hex*")],obs=["tg_geom_wkb","tg_geom_hex","tg_parse_wkb","tg_parse_hex"])
p("C03","WKT is read and written faithfully",
 "Any well-formed WKT text (numbers spelled as JSON spells them, any letter case, any white space, optional Z, M or ZM tags, points of a multipoint with or without their own parentheses, nested collections) is read as exactly the geometry it describes. Writing any geometry with finite coordinates as WKT yields well-formed text which reads back as the same geometry, with every coordinate equal to the last bit (a negative zero may lose its sign).",
 ["inputs"],"all geometry types, nested collections, 2 to 4 dimensions, all finite coordinates, all spellings of the grammar",
 "Tests hold a list of samples; the grammar has unboundedly many spellings and the coordinates 2^64 values.",
 [("WKT reader","tg.c parse_wkt*"),("WKT writer","tg.c write_*_wkt"),("number formatting","deps/fp.c")],files=D,obs=["tg_geom_wkt","tg_parse_wkt"])
p("C04","GeoJSON geometry is read and written faithfully",
 "Any well-formed GeoJSON geometry object (any member order, white space, escaped spellings of keys and type names, numeric spellings, two or more numbers per position, of which the first four count) is read as exactly the geometry it describes. Writing any geometry with finite coordinates as GeoJSON yields valid JSON with the right type name and coordinate nesting, which reads back as the same geometry, with every coordinate equal to the last bit (a negative zero may lose its sign, and a lone M is read back as Z).",
 ["inputs"],"all geometry types, nested collections, 2 to 4 dimensions, all finite coordinates, all JSON spellings",
 "Tests hold a list of samples; JSON admits unboundedly many spellings of one geometry and coordinates have 2^64 values.",
 [("GeoJSON reader","tg.c parse_geojson*"),("JSON iterator","deps/json.c"),("GeoJSON writer","tg.c write_*_geojson")],files=D,obs=["tg_geom_geojson","tg_parse_geojson"])
p("C05","GeoJSON features and extra members survive",
 "For any valid GeoJSON document, reading and then writing it keeps Feature and FeatureCollection kind, the feature id, the properties object (null and absent-or-empty told apart), a null geometry, and every foreign member of the feature, of its geometry and of the collection, with the exact text of their values. The extra members are reported as one valid JSON text without the standard members, and a second read and write changes nothing.",
 ["inputs"],"all GeoJSON documents over nested members, arbitrary JSON values, any member order, features within collections",
 "Tests look at fixed documents; what must be preserved is arbitrary JSON in arbitrary order and placement.",
 [("member capture","tg.c take_basic_geojson, buf_append_json_pair"),("feature parsing","tg.c parse_geojson_feature, parse_geojson_featurecollection"),("feature writing","tg.c write_base_geom_geojson, write_geom_geometrycollection_geojson")],
 state=[("extra json","members that are not part of the geometry","tg.c struct tg_geom xjson")],files=D,obs=["tg_geom_geojson","tg_geom_extra_json","tg_geom_is_feature","tg_geom_is_featurecollection"])
p("C06","GeoBIN is encoded and decoded losslessly",
 "Writing any geometry as GeoBIN yields the documented layout (head byte, bounding rectangle on all dimensions, null-terminated extra JSON, little-endian WKB, and for feature collections a counted list of GeoBIN features), and reading it back yields the same geometry, coordinates to the bit, with the same feature kind and the same extra JSON. The rectangle and point helpers report, straight from the bytes, the same rectangle and centre as the geometry itself. Whether a feature's geometry or properties were null is not part of this claim.",
 ["inputs"],"all geometry types, dimensions, features, collections of features and extra JSON",
 "Tests use a few documents; the layout has to be right for every combination of kind, dimension, extra JSON and nesting.",
 [("GeoBIN writer","tg.c write_*_geobin"),("GeoBIN reader","tg.c parse_geobin"),("rect helpers","tg.c tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point")],files=("tg.c","tg.h","docs/GEOBIN.md"),obs=["tg_geom_geobin","tg_parse_geobin","tg_geobin_fullrect","tg_geobin_rect","tg_geobin_point"])
p("C07","Numbers are read and written exactly",
 "Every decimal number in GeoJSON or WKT, spelled as JSON spells numbers, whatever its number of digits or exponent, is read as the IEEE double nearest to it, as the C library reads it. Every finite coordinate is written as a decimal that any correct reader turns back into the same double and that has no more significant digits than needed; with fixed-notation printing switched on, the text has no exponent and still reads back as the same double.",
 ["inputs","configurations"],"all finite doubles and all decimal spellings of up to a few hundred digits, both printing modes",
 "There are 2^64 doubles and unboundedly many spellings; tests check a few and rounding errors show on one value in thousands to millions.",
 [("printing","deps/fp.c fp_dtoa"),("reading","deps/fp.c fp_atod, deps/json.c json_double, tg.c parse_wkt_posns"),("printing mode","tg.c tg_env_set_print_fixed_floats")],files=D,obs=["tg_geom_wkt","tg_geom_geojson","tg_parse_wkt","tg_parse_geojson"])
p("C08","Malformed documents are rejected, well-formed ones accepted",
 "A GeoJSON text is accepted only if it is valid JSON and a structurally correct GeoJSON object; WKT, WKB, hex and GeoBIN only if they follow their grammar to the end of what they announce. In every format a line with fewer than two positions, a ring with fewer than three positions or not closed, a missing or wrongly typed member, a bad type name or code, mismatched dimensions among text positions where a Z or M tag fixes them, unbalanced nesting, and any truncation of a document is an error, and never a geometry. Well-formed documents are never rejected, up to the documented nesting limit.",
 ["inputs"],"all documents obtained from valid ones by structural mutation or truncation, judged by an independent validator",
 "Tests reject a list of samples; the claim is about all texts near the grammar's edge.",
 [("JSON validation","deps/json.c json_validn_ex"),("GeoJSON structure checks","tg.c take_basic_geojson, parse_geojson_posns, check_parse_posns"),("WKT grammar","tg.c parse_wkt*"),("WKB bounds","tg.c read_uint32, read_posn, parse_wkb*")],files=D,obs=["tg_parse*","tg_geom_error"])
p("C09","A geometry is the same whatever format it arrives in",
 "Auto-detection returns for every document of a supported format the same result as that format's own reader, for text with or without leading white space and for binary data. One geometry delivered as GeoJSON, WKT, WKB, hex or GeoBIN, or built with constructors, has the same type, structure, coordinates and rectangle, writes the same WKB, and answers every predicate alike.",
 ["inputs"],"all geometries, all formats, all indexing options",
 "Tests exercise formats separately on samples; agreement is a relation over all geometries.",
 [("auto-detection","tg.c tg_parse_ix"),("readers","tg.c parse_geojson*, parse_wkt*, parse_wkb*, parse_hex*, parse_geobin")],files=D,obs=["tg_parse","tg_parse_*"])
p("C10","Writers respect the caller's buffer",
 "For every geometry, output format and buffer size (including none), a writer returns the full length of the representation no matter how large the buffer is, stores the longest prefix of it that fits, never writes past the given size, and terminates text with a null whenever the size is not zero. The stored content never depends on what the buffer held before.",
 ["inputs"],"all geometries, all five formats, both number notations, every buffer size from zero past the full length",
 "Tests use ample buffers or a few sizes; the off-by-one cases live at specific sizes inside specific elements.",
 [("writer primitives","tg.c write_byte, write_nullterm, write_string_double"),("bulk copies","tg.c write_ring_points_wkb*, write_posn_wkb*"),("hex writer","tg.c tg_geom_hex")],obs=["tg_geom_geojson","tg_geom_wkt","tg_geom_wkb","tg_geom_hex","tg_geom_geobin"])
p("C11","Indexing never changes an answer",
 "The indexing option (none, natural, y-stripes, default, with any spread) chosen for rings and lines, by argument, by environment setting or at parse time, never changes the answer of any predicate, the set of pairs reported by segment searches, the distances reported by nearest-segment iteration, or any measurement. An index's levels are consistent: each rectangle encloses everything it summarises, and the reported spread and level sizes match the number of segments.",
 ["inputs","configurations"],"all rings and lines from three to thousands of points, all index kinds, all spreads",
 "Indexes only appear above a size threshold and have many shapes; tests run a few large fixtures.",
 [("natural index","tg.c index structs, ring inflation"),("y-stripes","tg.c process_ystripes"),("traversals","tg.c pip, segment search, ring-line and ring-ring search"),("selection","tg.c tg_index_extract_spread, tg_env_set_index")],
 state=[("index levels","rectangles grouping segments","tg.c struct index"),("stripes","segment ids per horizontal stripe","tg.c struct ystripes")],obs=["tg_ring_index_*","predicates","searches"])
p("C12","Point-in-polygon is exact",
 "For any polygon with any number of vertices and holes and any point, intersects and covers hold exactly when the point lies inside or on the boundary of the polygon (not strictly inside a hole), contains exactly when strictly inside, and touches exactly when on the boundary. This holds for every index kind, for the xy shortcut, and for points level with vertices, on horizontal or vertical edges, and on shared hole boundaries.",
 ["inputs","configurations"],"polygons with up to thousands of vertices on exactly representable coordinates, all index kinds",
 "The ray-casting degeneracies (vertex height, horizontal edges, collinear points) and index paths combine in ways a sample cannot cover.",
 [("ray casting","tg.c raycast"),("indexed walks","tg.c pip with natural index and with y-stripes"),("polygon location","tg.c tg_poly_covers_point, contains, touches")],obs=["tg_geom_intersects","tg_geom_intersects_xy","tg_geom_covers","tg_geom_contains","tg_geom_touches"])
p("C13","Segment and rectangle primitives are exact",
 "Two segments are reported to intersect exactly when they share a point, including end-point touches, collinear overlap, degenerate one-point segments, in any argument order and direction. Rectangle tests (rect with rect, rect with point, point with rect), expansion, centre and bounding rectangles of points and segments agree with their set definitions, edges included.",
 ["inputs"],"all segments and rectangles with exactly representable coordinates, up to large magnitudes",
 "Degenerate and collinear configurations are many; tests list a few.",
 [("segment intersection","tg.c tg_segment_intersects_segment"),("rect functions","tg.c tg_rect_*, tg_point_*, tg_segment_rect")],obs=["tg_segment_intersects_segment","tg_rect_*","tg_point_*","tg_segment_rect"])
p("C14","Intersects and disjoint decide whether two shapes share a point",
 "For any two points, lines or polygons with holes (valid, on exactly representable coordinates, of any size and index kind), intersects holds exactly when some point belongs to both, and disjoint is its negation. The rectangle and xy forms agree with the same question asked about the equivalent polygon or point.",
 ["inputs","configurations"],"all pairs of simple shapes, including shared edges, shared vertices, nested holes and large indexed shapes",
 "Pairs of shapes in degenerate position are endless; the tests take a fixed list of pairs.",
 [("intersects","tg.c tg_geom_intersects, tg_ring_intersects_ring, tg_ring_intersects_line, tg_line_intersects_line, tg_poly_intersects_poly")],obs=["tg_geom_intersects","tg_geom_disjoint","tg_geom_intersects_rect","tg_geom_intersects_xy"])
p("C15","Covers and contains decide whether one shape lies in another",
 "For any two valid points, simple lines or polygons with holes, covers holds exactly when no point of the second lies outside the first, and contains exactly when in addition the interiors of the two share a point; covered-by and within are the same with arguments exchanged. Excluded is the one case where the outer ring of the second coincides with a hole of the first.",
 ["inputs","configurations"],"all pairs of simple shapes, including shared edges, concave shapes, holes and large indexed shapes",
 "Containment goes wrong in rare alignments (a line leaving and re-entering a concave ring at vertices, holes touching); tests take a fixed list.",
 [("covers","tg.c tg_geom_covers, tg_poly_covers_*, tg_ring_contains_*, tg_line_covers_*"),("contains","tg.c tg_geom_contains"),("duals","tg.c tg_geom_within, tg_geom_coveredby")],obs=["tg_geom_covers","tg_geom_coveredby","tg_geom_contains","tg_geom_within"])
p("C16","Touches decides contact without overlap",
 "For any two valid points, simple lines or polygons with holes, touches holds exactly when the shapes share at least one point but their interiors share none, where the interior of a line excludes its two ends unless it is closed and that of a polygon excludes all its edges. It is symmetric.",
 ["inputs","configurations"],"all pairs of simple shapes, including collinear overlaps, shared edges, vertices and holes",
 "Contact configurations are endless; tests take a fixed list.",
 [("touches","tg.c tg_geom_touches, tg_point_touches_*, tg_line_touches_*, tg_poly_touches_*")],obs=["tg_geom_touches"])
p("C17","Equality and the algebra of predicates",
 "Two single shapes are equal exactly when they are the same set of points: starting vertex, direction, repeated or collinear vertices and wrapping in collections do not matter; collections are equal when each covers the other member by member. Whatever the two geometries, including collections and random floating-point ones in general position: intersects, disjoint, touches and equals are symmetric, within and covered-by mirror contains and covers, contains implies covers implies intersects, touches implies intersects and excludes contains, disjoint negates intersects, and every non-empty shape intersects, covers, contains and equals itself.",
 ["inputs"],"all pairs of valid geometries of every type",
 "Laws are over all pairs; the tests assert individual answers.",
 [("equals","tg.c tg_geom_equals"),("duals","tg.c tg_geom_within, tg_geom_coveredby, tg_geom_disjoint")],obs=["all predicates"])
p("C18","Collections answer as the combination of their members",
 "A collection of any kind, flat or nested, with few or many members, intersects a shape exactly when one of its members does; a shape covers (contains) a collection exactly when it covers (contains) every non-empty member; a collection covers (contains) a single-part shape exactly when one of its members does; and touching needs a member that touches and none whose interior meets the other. Wrapping a shape as a one-member collection, feature or Z/M variant, or adding empty members to a collection, changes no predicate, and empty geometries intersect nothing.",
 ["inputs","configurations"],"all collections of points, lines, polygons and nested collections, with and without a member index",
 "Member counts, nesting and index thresholds multiply; tests use two-member samples.",
 [("member iteration","tg.c tg_geom_foreach"),("member index","tg.c multi_geom_inflate_index"),("collection predicates","tg.c base_geom_intersects_geom, base_geom_covers_geom")],obs=["tg_geom_intersects","tg_geom_covers"])
p("C19","Predicates do not depend on how or where a shape is drawn",
 "Answers of all predicates stay the same when both geometries are moved, mirrored, transposed or scaled by amounts that keep coordinates exact, when a ring starts at another vertex or runs the other way, when a line is reversed, when collinear or duplicate vertices are added, and when hole or member order changes.",
 ["inputs"],"all pairs of geometries and all exact transformations, including large indexed shapes",
 "It is a relation between runs; single-answer tests cannot state it.",
 [("orientation and convexity flags","tg.c process_points, ring clockwise and convex"),("predicates","tg.c")],obs=["all predicates"])
p("C20","Segment searches report exactly the intersecting pairs",
 "Searching two rings, a ring and a line, or two lines reports every pair of segments that intersect, each exactly once, with the right segments and indices, and no other pair, for all sizes and index kinds; returning false from the callback stops the search at once.",
 ["inputs","configurations"],"all pairs of rings and lines, small to thousands of segments, all index kinds and spreads",
 "Index traversal prunes; completeness is about every pair, and tests count a few.",
 [("searches","tg.c tg_ring_ring_search, tg_ring_line_search, tg_line_line_search"),("joint index walk","tg.c segment search over two indexes")],obs=["tg_ring_ring_search","tg_ring_line_search","tg_line_line_search"])
p("C21","Searching a collection finds exactly the members in the rectangle",
 "Searching any collection with a rectangle visits exactly the members whose bounding rectangle intersects it, each once and with its own index, whatever the number of members and their placement; returning false from the callback stops the search, and geometries that are not collections yield nothing.",
 ["inputs"],"all collections, below and above the indexing threshold, with coincident, collinear and far-apart members, all rectangles",
 "The member index has a size threshold and a spatial sort; tests count hits on a few files.",
 [("member index","tg.c multi_geom_inflate_index, tg_point_hilbert"),("search","tg.c tg_geom_search, multi_index_search")],obs=["tg_geom_search"])
p("C22","Nearest-segment iteration is complete and ordered",
 "For any ring or line, index kind and consistent pair of distance callbacks, nearest-segment iteration yields segments in non-decreasing distance, each once with its own index and distance, all of them if never stopped; stopping early yields a prefix, and the multi-distance ('more') protocol is honoured. It reports success unless memory ran out.",
 ["inputs","configurations"],"all rings and lines, query points, index kinds, stopping points",
 "Best-first search over a tree is right or wrong per data set; tests check two data sets.",
 [("priority queue walk","tg.c tg_ring_nearest_segment, nearest queue")],obs=["tg_ring_nearest_segment","tg_line_nearest_segment"])
p("C23","Ring and line measurements are right",
 "Area (unsigned), perimeter, length, orientation and bounding rectangle of any ring or line agree with their definitions, and convexity is reported exactly for simple rings, whatever the start vertex, direction, collinear or duplicate vertices and size; point and segment accessors return exactly the input points. A ring given without its closing point is treated as closed.",
 ["inputs"],"all rings and lines, from degenerate to thousands of points, exactly representable coordinates",
 "The attributes are computed in one fused loop with special first and last steps; tests check a few shapes.",
 [("fused attribute pass","tg.c process_points"),("measurements","tg.c tg_ring_area, tg_ring_perimeter, tg_line_length, tg_ring_clockwise, tg_ring_convex")],obs=["tg_ring_*","tg_line_*","tg_poly_clockwise"])
p("C24","Bounding rectangles are minimal in every dimension",
 "The rectangle of any geometry is the smallest one enclosing all its coordinates, empty members adding nothing, and the full rectangle reports in addition exact Z and M ranges with the right number of dimensions. Constructed, parsed and copied geometries agree on it, for every type and nesting.",
 ["inputs"],"all geometries of every type and dimension, nested collections, empty members",
 "Depends on which element holds each extreme coordinate; tests place it in few positions.",
 [("rects","tg.c tg_geom_rect, multi_geom_inflate_rect, tg_geom_fullrect"),("point loop","tg.c process_points")],obs=["tg_geom_rect","tg_geom_fullrect","tg_ring_rect","tg_line_rect","tg_poly_rect"])
p("C25","Accessors return what constructors were given",
 "For every constructor and input, the type, dimensions, emptiness, points, lines, polygons, rings, holes, members, Z and M values and extra coordinates read back are exactly those given, in order. Any index out of range and any accessor applied to another type returns the documented neutral value (null, zero or empty), without touching memory it should not.",
 ["inputs"],"all constructors, all types, any index including negative and huge ones",
 "Accessor by type by representation is a large table, and out-of-range behaviour needs every boundary.",
 [("constructors","tg.c tg_geom_new_*"),("accessors","tg.c tg_geom_*_at, tg_geom_num_*, tg_geom_z, tg_geom_m, tg_geom_extra_coords, tg_poly_hole_at, tg_ring_point_at")],obs=["tg_geom_*","tg_poly_*","tg_ring_*","tg_line_*"])
p("C26","Clones, copies and frees keep every live handle valid",
 "In any history of creating, cloning, copying, composing, parsing, reading and freeing geometries, lines, rings and polygons, every handle not yet freed keeps exactly its original value, no matter which related handles were freed first; memory is released once when the last owner goes and nothing leaks. Clones share, copies share no memory with the original, and no query or writer changes any geometry.",
 ["histories","configurations"],"all histories over a pool of handles, with atomic and non-atomic reference counting",
 "Ownership errors need particular orders of operations; tests follow simple create-use-free paths.",
 [("reference counts","tg.c rc_retain, rc_release"),("clone and copy","tg.c tg_*_clone, tg_*_copy, geom_copy"),("free","tg.c tg_*_free, geom_free")],
 state=[("reference count","owners of a shared object","tg.c struct head rc")],obs=["tg_*_clone","tg_*_copy","tg_*_free","allocator hooks"])
p("C27","Running out of memory is reported, never fatal",
 "If any allocation fails, at any point of any constructor, copy, parser or search, the operation returns null, an error or false as documented, or completes correctly without that memory, but never crashes, hangs or returns a wrong result. Everything it had allocated is released, existing geometries stay intact, and the same operation succeeds afterwards.",
 ["fault_sequences","inputs"],"every allocation of every operation failing once or from then on, over all kinds of inputs",
 "It needs a fault at each allocation of each operation; the tests fail a few at random.",
 [("allocation checks","tg.c tg_malloc and tg_realloc call sites"),("cleanup paths","tg.c fail and cleanup labels")],files=D,obs=["tg_env_set_allocator","tg_geom_error"])
p("C28","Geometries can be shared between threads",
 "Any number of threads may at the same time read, query, write out, copy, clone and free handles to the same geometries, each thread freeing only its own handles, without data races, and get the answers a single thread gets; the last owner, whichever thread it is, releases the memory exactly once.",
 ["schedules","histories"],"all interleavings of reading, cloning and freeing threads",
 "Races depend on interleavings; the tests are single-threaded.",
 [("atomic reference counts","tg.c rc_retain, rc_release"),("per-thread scratch","tg.c thread-local and static state")],obs=["tg_*_clone","tg_*_free","predicates"])
p("C29","All build configurations behave alike",
 "The single-file build, the build from the separate sources, the build with non-atomic reference counts, and builds at different optimisation levels accept the same documents and give the same outputs, errors, predicate answers, measurements and rectangles for every input.",
 ["configurations","inputs"],"all documents and geometries, each compared across builds",
 "Each test run sees one build; agreement between builds on all inputs is not a test's question.",
 [("embedded copies","tg.c bundled json.c and fp.c blocks, deps/json.c, deps/fp.c"),("build switches","tg.c TG_NOAMALGA, TG_NOATOMICS and arithmetic helpers")],files=D,obs=["the public API"])
with open('/verif/properties.jsonl','w') as f:
    for o in out: f.write(json.dumps(o)+"\n")
for o in out:
    assert len(o['title'])<=80,o['id']
    n=o['statement'].count('. ')+1
    if n>3: print(o['id'],n)
