"""Regenerates properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe)}})

p("C01", "GDSII 8-byte real numbers are encoded and decoded exactly",
  "Every finite double whose magnitude lies in the GDSII range is encoded to 8 bytes in excess-64 base-16 form that decode back to exactly the same double, with the sign bit, exponent and mantissa fields each staying inside their field. Decoding any 8 bytes gives (-1)^sign * mantissa/2^56 * 16^(exponent-64).",
  ["inputs"], "all doubles with 2^-250 <= |x| <= 2^250 and zero (encode, round trip); all 2^64 bit patterns (decode)",
  "The tests encode a handful of values; the failures live at powers of 16, at sign/exponent field boundaries and in mantissa truncation.",
  ["gdspy/gdsiiformat.py"], [("_eight_byte_real", "gdspy/gdsiiformat.py"), ("_eight_byte_real_to_float", "gdspy/gdsiiformat.py")],
  ["units, magnifications, rotations in files"])
p("C02", "Every stream gdspy writes is a well-formed GDSII record sequence",
  "Whatever polygons, paths, labels, references, arrays and properties a library holds, writing it (or a single cell through a GdsWriter) yields records whose declared even length equals their actual length, whose data type fits the record type, nested library > cell > element > property with every element and cell closed and exactly one end-of-library record. String records carry the text padded with at most one zero byte, and oversized vertex lists are split over several coordinate records without losing or repeating a vertex.",
  ["inputs", "configurations"], "all coordinates in 32-bit range, all 16-bit layers/types, all texts, property values and names up to 3 characters, all optional-field combinations, vertex lists around the split limit",
  "Tests write a few fixed cells and compare them through gdspy's own reader, which tolerates malformed sizes.",
  ["gdspy/library.py", "gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py"],
  [("to_gds of PolygonSet/FlexPath/RobustPath/Label/CellReference/CellArray/Cell", "gdspy/polygon.py, path.py, label.py, library.py"), ("GdsLibrary.write_gds, GdsWriter", "gdspy/library.py")], ["bytes written"])
p("C03", "Polygons and labels survive a GDSII write/read round trip",
  "Reading back a written library returns every polygon with the same layer, datatype, properties and vertices, and every label with the same text, layer, texttype, anchor, rotation, magnification, reflection, properties and position. Each coordinate equals the original one rounded to the nearest multiple of the library precision.",
  ["inputs", "configurations"], "all coordinates (|value/precision| < 2^31 - 1), all layers/datatypes/texttypes in 0..32767, all anchors, all texts/property values up to 3 characters, all combinations of optional label attributes, several elements per cell",
  "Tests round-trip a few fixed polygons and labels; rounding of arbitrary coordinates, odd/even/empty strings and every attribute combination are not sampled.",
  ["gdspy/polygon.py", "gdspy/label.py", "gdspy/library.py", "gdspy/gdsiiformat.py"],
  [("PolygonSet.to_gds, Label.to_gds", "gdspy/polygon.py, gdspy/label.py"), ("GdsLibrary.read_gds, _create_polygon, _create_label", "gdspy/library.py"), ("_record_reader", "gdspy/gdsiiformat.py")], ["read_gds result"])
p("C04", "Cell hierarchy, references and arrays survive a GDSII round trip",
  "Reading back a written library returns the same cells, and each reference or array comes back pointing at the cell of the same name with the same origin (rounded to the grid), rotation, magnification, reflection, columns, rows, spacing and properties. The lattice of an array is preserved whatever its rotation, and references to cells that are not in the file stay references by name.",
  ["inputs", "configurations"], "all origins, spacings, rotations, magnifications, reflections, columns/rows up to the bound, with and without each optional attribute",
  "Tests use a handful of fixed references; the array coordinates combine rotation, spacing and counts in ways no sample covers.",
  ["gdspy/library.py"], [("CellReference.to_gds, CellArray.to_gds", "gdspy/library.py"), ("_create_reference, _create_array, read_gds", "gdspy/library.py")], ["read_gds result"])
p("C05", "GDSII path elements round-trip: spine, width, ends, layer, offset",
  "A path written as a GDSII path element comes back with the same spine vertices shifted to each parallel element's offset, the same width, layer, datatype, end type and end extensions and properties, each coordinate rounded to the nearest multiple of the precision. Width scaling with magnification is preserved, and this holds after the path has been translated, scaled or mirrored.",
  ["inputs", "configurations"], "all spine coordinates on straight and bent spines, all widths, layers, datatypes, end types and extensions, both FlexPath and RobustPath, width_transform on and off",
  "Tests write one or two fixed paths; off-grid coordinates, extensions, several parallel elements and transformed paths are unsampled.",
  ["gdspy/path.py", "gdspy/library.py"], [("FlexPath.to_gds, RobustPath.to_gds", "gdspy/path.py"), ("_create_path", "gdspy/library.py")], ["read_gds result"])
p("C06", "read_gds honours units, layer/datatype/texttype maps and renaming",
  "With units 'skip', 'import' or 'convert' every length read from a file is scaled by the documented factor and the library unit and precision end up as documented, while angles, magnifications and counts are never scaled. Layer, datatype and texttype maps and cell renaming rules apply to every element they document and to nothing else, consistently between a renamed cell and the references to it. Optional records may be present or absent in any combination, and what one element carries never reaches another.",
  ["inputs", "configurations"], "all unit/precision values of file and library, all coordinates, all map contents, all unit modes, all element kinds",
  "Tests read one file with a couple of unit settings; maps keyed on arbitrary numbers and unit ratios are not sampled.",
  ["gdspy/library.py"], [("GdsLibrary.read_gds and _create_*", "gdspy/library.py")], ["library after read_gds"])
p("C07", "File hash ignores timestamps only; set_gdsii_timestamp edits only them",
  "The GDSII hash of a file depends on the content of its cells and not on any timestamp, nor on the order of cells, and differs in the hashed content whenever any cell byte outside a timestamp differs. Setting the timestamp replaces all library and cell timestamps by the given date, and leaves every other byte and the file length as they were.",
  ["inputs"], "all well-formed streams of bounded record count and size with arbitrary payload bytes and timestamps",
  "Tests hash two fixed files; payload bytes that look like record headers, and cell orders, are not sampled.",
  ["gdspy/gdsiiformat.py"], [("gdsii_hash", "gdspy/gdsiiformat.py"), ("set_gdsii_timestamp", "gdspy/gdsiiformat.py")], ["hash input", "file bytes"])
p("C08", "Binary cell extraction and unit query return the file's own bytes",
  "Extracting binary cells from a GDSII stream returns for every cell, under its name, exactly the bytes between its begin and end records, so that a GdsWriter writing them back reproduces those bytes. The unit query returns the unit and precision stored in the file whatever other records precede them, and both leave caller-owned streams open.",
  ["inputs"], "all well-formed streams of bounded record count with arbitrary payload bytes, names up to 3 characters",
  "Tests extract from one fixed file.",
  ["gdspy/library.py", "gdspy/gdsiiformat.py"], [("get_binary_cells, get_gds_units", "gdspy/library.py"), ("_raw_record_reader", "gdspy/gdsiiformat.py"), ("GdsWriter.write_binary_cells", "gdspy/library.py")], ["returned bytes"])
p("C09", "References place geometry by reflect, magnify, rotate, translate, in order",
  "The polygons of a reference are the polygons of the referenced cell reflected about the x axis if requested, then magnified, then rotated, then translated to the origin; an array repeats this at origin plus the rotated (and reflected) lattice vectors for each column and row, with unmagnified spacing. This composes through nested references to any depth, stops at the requested depth, and keeps every polygon's layer and datatype.",
  ["inputs", "configurations"], "all origins, rotations, magnifications, reflections, spacings; columns and rows 1..3; nesting 2; all by_spec/depth modes",
  "Tests check a few right-angle placements with small integer offsets.",
  ["gdspy/library.py"], [("CellReference._transform_polygons/get_polygons", "gdspy/library.py"), ("CellArray._transform_polygons/get_polygons", "gdspy/library.py"), ("Cell.get_polygons", "gdspy/library.py")], ["get_polygons"])
p("C10", "All views of a cell agree: polygons, polygon sets, paths, labels, flatten",
  "For any cell with nested references, the geometry listed by get_polygons, by get_polygonsets plus get_paths, and by a flattened copy is the same set of polygons with the same layers and datatypes, and grouping by specification partitions exactly that list. Labels collected through references or by flattening get the same text, type and transformed position, depth limits mean the same in every view, and area equals the sum of the polygon areas scaled by each placement's magnification squared.",
  ["inputs", "configurations"], "all origins, rotations, magnifications, reflections of references and arrays, nesting 2, mixed polygons, paths and labels",
  "Tests compare views on fixed placements, mostly with one transformation at a time.",
  ["gdspy/library.py", "gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py"], [("Cell.get_polygons/get_polygonsets/get_paths/get_labels/flatten/area", "gdspy/library.py"), ("CellReference and CellArray counterparts", "gdspy/library.py")], ["return values"])
p("C11", "Bounding boxes are tight and follow every change",
  "The bounding box of a polygon set, path, cell, reference or array is the exact minimum and maximum of all its polygon vertices, and None when there is no geometry. It is right after any sequence of additions, removals, flattening, moves of elements or changes in a referenced cell, whatever was queried before.",
  ["inputs", "histories"], "all coordinates and placements; histories of up to 3 operations from add, remove, flatten, child change and bounding-box query over a 2 level hierarchy",
  "Tests query fresh cells; stale cached boxes need a particular order of queries and changes.",
  ["gdspy/library.py", "gdspy/polygon.py"], [("Cell.get_bounding_box and its cache", "gdspy/library.py"), ("CellReference/CellArray.get_bounding_box", "gdspy/library.py"), ("PolygonSet.get_bounding_box", "gdspy/polygon.py")], ["get_bounding_box"])
p("C12", "Copying a cell with a transformation transforms its whole contents",
  "Copying a cell with translation, rotation, scale and reflection yields a cell whose polygons, paths, labels, references and arrays, expanded, are exactly the originals under that transformation (reflect, scale, rotate, translate). A deep copy shares no element with the original and leaves the original unchanged.",
  ["inputs", "configurations"], "all transformation parameters, all reference/array/label placements including reflected and magnified ones",
  "Tests copy one cell without, and a few shapes with, a transformation.",
  ["gdspy/library.py"], [("Cell.copy", "gdspy/library.py"), ("transform/translate/rotate/scale/mirror of elements", "gdspy/polygon.py, gdspy/path.py, gdspy/label.py")], ["copied cell"])
p("C13", "Library bookkeeping keeps names, references and hierarchy consistent",
  "After any sequence of add, remove, rename and replace operations on a library, each cell is stored under its own name, references follow the renames and replacements they were asked to, removed cells leave no references behind, and name conflicts are refused unless overwriting was requested. Dependencies (recursive or not) and top-level cells are exactly those implied by the graph of resolved references (references by a name alone do not count), and refused operations change nothing.",
  ["histories", "configurations"], "all reference graphs over up to 3-4 cells (acyclic), references and arrays, operations with all flag combinations, sequences of 1-2 operations",
  "Tests run a few scripted operations on one small hierarchy.",
  ["gdspy/library.py"], [("GdsLibrary.add/remove/rename_cell/replace_references/top_level", "gdspy/library.py"), ("Cell.get_dependencies", "gdspy/library.py")], ["library.cells, references"])
p("C14", "Polygon-set transformations are the stated affine maps and keep the rest",
  "Translating, rotating about a centre, scaling (uniformly or per axis) about a centre and mirroring across a line move every vertex by exactly that affine map and keep layers, datatypes, polygon count and vertex order. Areas scale by the determinant's magnitude, the by-specification area splits the total by layer and datatype, and applying the inverse transformation restores the vertices.",
  ["inputs"], "all vertices, angles, centres, scales and mirror lines; up to 2 polygons of up to 4 vertices",
  "Tests use fixed numbers, mostly symmetric shapes at the origin.",
  ["gdspy/polygon.py"], [("PolygonSet.translate/rotate/scale/mirror/area", "gdspy/polygon.py"), ("Polygon/Rectangle/Round constructors", "gdspy/polygon.py")], ["polygons, layers, datatypes"])
p("C15", "Fracturing and slicing split polygons without losing their metadata",
  "Fracturing ends, leaves no polygon above the requested vertex count, leaves polygons within the limit untouched, makes progress with every cut (inside the polygon's extent) and keeps one layer and datatype per resulting polygon, inherited from the polygon it came from. Slicing at given positions along an axis returns, for each slab in order of position, exactly the pieces of every operand polygon in that slab with the layer and datatype requested for the slab, and None for empty slabs.",
  ["inputs"], "all vertex coordinates of polygons of up to 8 vertices with the limit at 5; all cut positions; up to 2 polygons with distinct layers",
  "Tests fracture a circle and slice a few rectangles.",
  ["gdspy/polygon.py", "gdspy/path.py", "gdspy/operation.py"], [("PolygonSet.fracture", "gdspy/polygon.py"), ("slice", "gdspy/operation.py"), ("get_polygons fracture loop", "gdspy/path.py")], ["polygons, layers, datatypes"])
p("C16", "Geometry operations use exactly the polygons their operands denote",
  "Boolean, offset and inside operations act on exactly the polygons denoted by the operands, whether given as polygon sets, paths, references, arrays, point lists or nested lists of them, with placements applied, and pass on the requested operation, distance, join, tolerance and precision. Results carry the requested layer and datatype, are fractured to the requested vertex limit, empty results are reported as None, and operands are left unchanged.",
  ["inputs", "configurations"], "all operand kinds and mixes up to 3 entries, all coordinates and placements, all options; the clipping engine itself replaced by an arbitrary result",
  "Tests use two polygon sets and a few precisions.",
  ["gdspy/operation.py"], [("_gather_polys, boolean, offset, inside, copy", "gdspy/operation.py")], ["engine arguments and results"])
p("C17", "FlexPath outlines follow spine, widths, offsets and transformations",
  "A flexible path yields, for each parallel element, polygons whose sides lie at half the width on either side of the spine shifted by the element's offset, ending exactly at the spine's ends (extended as the end type says), on the layer and datatype of the element. Translating, rotating, scaling, mirroring or placing the path transforms its polygons by the same map, also after its polygons were already queried.",
  ["inputs", "configurations", "histories"], "all widths, offsets, transformation parameters on straight and one-bend spines; 1-2 parallel elements; all end types",
  "Tests compare some fixed paths against stored outlines.",
  ["gdspy/path.py"], [("FlexPath.get_polygons", "gdspy/path.py"), ("FlexPath.segment/turn/arc/translate/rotate/scale/mirror/transform", "gdspy/path.py")], ["get_polygons"])
p("C18", "RobustPath outlines follow spine, widths, offsets and transformations",
  "A robust path yields, for each parallel element, polygons whose sides lie at half the width on either side of the spine shifted by the element's offset, with widths and offsets interpolated as requested along each section, on the layer and datatype of the element. Translating, rotating, scaling, mirroring or placing the path transforms its polygons by the same map, also after its polygons were already queried.",
  ["inputs", "configurations", "histories"], "all widths, offsets, transformation parameters on single-section spines; 1-2 parallel elements; flush and extended ends",
  "Tests compare some fixed paths against stored outlines.",
  ["gdspy/path.py"], [("RobustPath.get_polygons, width, offset, spine, grad", "gdspy/path.py"), ("RobustPath transformations", "gdspy/path.py")], ["get_polygons"])
p("C19", "Path construction tracks end point, direction, width and length",
  "Each section appended to a path (segment, arc, turn) starts where the last one ended with the width it ended with, and moves the stored end point, direction, width and length as its length, radius and angles say, adding one polygon per parallel path with the requested layer and datatype at the requested distances. Transforming the path transforms its end point and direction consistently with its polygons.",
  ["inputs", "histories"], "all lengths, widths, distances, directions and transformation parameters; 1-3 parallel paths; sequences of 2 sections",
  "Tests follow a few scripted shapes.",
  ["gdspy/polygon.py"], [("Path.segment/arc/turn/parametric/bezier/transformations", "gdspy/polygon.py"), ("L1Path, PolyPath", "gdspy/polygon.py")], ["x, y, direction, w, length, polygons"])
p("C20", "Curve sections pass through the given points, relative equal to absolute",
  "Every curve command starts at the current point and ends exactly at its stated end point, each lower-case (relative) command produces the same points as its upper-case (absolute) counterpart with the coordinates shifted by the current point, and sampled arc points lie on the stated ellipse while sampled Bezier points lie on the stated curve. Smooth continuation reflects the last control point of the preceding section of the same degree.",
  ["inputs", "histories"], "all coordinates, radii and angles; command sequences of up to 3 sections; fixed number of sampling steps",
  "Tests compare a few curves against stored points.",
  ["gdspy/curve.py", "gdspy/path.py"], [("Curve.L/H/V/arc/Q/T/C/S/B/I and lower-case forms", "gdspy/curve.py"), ("_func_bezier", "gdspy/path.py")], ["get_points"])
p("C21", "Primitive shapes have their vertices exactly where stated",
  "Rectangles have exactly the two given corners as extremes, round shapes have every vertex on the stated inner or outer ellipse within the stated angles, with as many polygons and vertices as the limit requires. Text glyph polygons scale, shift and advance linearly with size, position, angle and direction.",
  ["inputs"], "all corners, centres, radii, angles, text sizes and positions; small vertex counts",
  "Tests compare a few shapes against stored outlines.",
  ["gdspy/polygon.py"], [("Rectangle, Round, Text", "gdspy/polygon.py")], ["polygons"])
p("C22", "Filters remove exactly what matches; listings report exactly what exists",
  "Removing polygons, paths or labels by a predicate removes from the cell exactly the matching ones, keeps all others with their layer and datatype in order, and leaves the cell fully usable. The layers, datatypes and texttypes listed for a cell are exactly those of its polygons, paths and labels and of everything it references.",
  ["inputs", "histories"], "all layers, datatypes, texttypes and coordinates; up to 3 polygons/paths/labels; predicates on points, layer and datatype; hierarchies of depth 2",
  "Tests remove one layer from one cell.",
  ["gdspy/library.py"], [("Cell.remove_polygons/remove_paths/remove_labels", "gdspy/library.py"), ("Cell.get_layers/get_datatypes/get_texttypes/get_svg_classes", "gdspy/library.py")], ["cell contents, return values"])
p("C23", "SVG output draws every element at its scaled, placed position",
  "The SVG written for a cell contains every polygon vertex, label anchor and reference placement at its coordinates multiplied by the scaling factor, nested transforms that compose to the reference placement, an array placement for every column and row, and a view box that is the scaled bounding box with padding. Label text and attributes are escaped so that the document is well-formed for every text.",
  ["inputs", "configurations"], "all coordinates, placements and scalings; texts of up to 2 characters",
  "Tests only check that output is produced for one cell.",
  ["gdspy/library.py", "gdspy/polygon.py", "gdspy/label.py", "gdspy/path.py"], [("to_svg methods, Cell.write_svg", "gdspy/library.py, gdspy/polygon.py, gdspy/label.py, gdspy/path.py")], ["SVG text"])
p("C24", "Queries and writers do not change the geometry they read",
  "Querying polygons, polygon sets, paths, labels, areas, bounding boxes, SVG or GDSII output never changes the cell, its elements or the cells it references, and repeating a query gives the same answer. Modifying objects returned as copies (flattened polygons, polygon sets, labels, paths, copied elements) does not modify the source.",
  ["histories", "inputs"], "all coordinates and placements; every query, every element kind, in-place change of every returned array",
  "Tests never query twice nor modify results.",
  ["gdspy/library.py", "gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/operation.py"], [("get_polygons/get_polygonsets/get_paths/get_labels/area/to_gds/to_svg", "gdspy/library.py, gdspy/polygon.py, gdspy/path.py, gdspy/label.py")], ["state before and after"])
p("C25", "inside() answers the point-in-polygon question for points and groups",
  "A point is reported inside a set of polygons exactly when it is in the interior or on the boundary of at least one of them, after rounding to the requested precision. For groups, 'any' and 'all' modes report the disjunction and conjunction of the answers for the points of each group.",
  ["inputs"], "all integer grid coordinates in a bounded range; triangles and quadrilaterals, up to 2 polygons, groups of up to 2 points",
  "Tests check a few points well inside or outside.",
  ["gdspy/clipper.cpp", "gdspy/operation.py"], [("inside, bounding_box, PointInPolygon", "gdspy/clipper.cpp"), ("inside", "gdspy/operation.py")], ["returned booleans"])
p("C26", "Boolean operations and offsets compute the exact point-set result",
  "Union, intersection, difference and symmetric difference return non-overlapping polygons covering exactly the points of the set-theoretic result on the grid of the precision, with holes linked by zero-width seams; slices cover exactly the points of each slab. Offsetting grows or shrinks the covered region by the given distance with the given join.",
  ["inputs"], "all sizes and positions of: pairs (every order of their sides), triples and nested sets of rectangles; polygons of fixed shapes with slanted edges at any scale and relative position whose intersections are on the grid; coordinates below 2^29 units of the precision; a symbolic test point decides coverage", "Tests compare a few areas.",
  ["gdspy/clipper.cpp", "gdspy/operation.py"], [("Clipper::Execute, link_holes, ClipperOffset, clip, offset, chop", "gdspy/clipper.cpp"), ("boolean, offset, slice", "gdspy/operation.py")], ["returned polygons"])
p("C27", "Smooth interpolation passes through its points with the stated angles",
  "The smooth interpolation of curves and paths passes through all its points in order, by cubic Bezier sections on the tangent lines of the stated directions, with continuous direction where none is stated and back to the start for closed curves. Free directions satisfy the mock curvature conditions of Hobby's algorithm for the stated tensions and curls, and smooth sections of paths are the Bezier sections of these control points.",
  ["inputs"], "symbolic position, section lengths, tensions and curls over fixed section directions (1-4 sections); fixed shapes at symbolic position and scale for the values of free directions", "Tests compare a few stored curves.",
  ["gdspy/hobby.py", "gdspy/curve.py", "gdspy/path.py", "gdspy/polygon.py"], [("_hobby", "gdspy/hobby.py"), ("Curve.I, Curve.i", "gdspy/curve.py"), ("smooth", "gdspy/path.py, gdspy/polygon.py")], ["curve points", "path polygons"])
p("C28", "Filleting replaces each corner by the stated tangent arc",
  "Filleting replaces every corner of every polygon by an arc of the stated radius tangent to both of its sides, cut back so that it takes at most 49% of either side, with the fraction of the points per circle that corresponds to its angle. Straight vertices, layers and datatypes stay, repeated vertices go with their radii, and radii are matched to polygons and vertices in each documented form or refused.",
  ["inputs", "configurations"], "symbolic position, size and radii of convex, reflex, straight and slanted shapes of 3-6 sides in both orientations; all documented forms of radius lists", "Tests compare a few fixed shapes; the limits of radii by short sides, reflex corners and lists of radii combine in ways no sample covers.",
  ["gdspy/polygon.py"], [("PolygonSet.fillet", "gdspy/polygon.py")], ["polygons after fillet"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert x["statement"].count(". ") <= 2 and len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
