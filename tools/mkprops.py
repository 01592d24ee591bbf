#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=x, meaning=x, where=mech[0][1]) for x in state], observe_at=observe, hook_needed=hook)))

MQ=["src/hob3lop/matq.c","include/hob3lop/matq.h"]
p("P01","Integer division and rounding are exact for every operand",
  "For all coordinate operands with a non-zero divisor, division yields the Euclidean quotient and a remainder in [0,|divisor|) with quotient*divisor+remainder equal to the dividend, and the rounding division by a positive divisor yields the nearest integer with halves rounded upwards; a fractional coordinate rounds to the pixel whose half-open unit cell contains it. A wide dividend whose quotient does not fit the coordinate type, and a rounded value that does not fit, are reported through the overflow failure instead of returning a wrong value, and no other operand is.",
  ["inputs"],"all dividends and divisors of the coordinate, wide and unsigned types",
  "The unit tests try a few dozen operand pairs; sign combinations and range ends are 2^64..2^128 combinations.",
  MQ,[("Euclidean and rounding division","include/hob3lop/matq.h cq_divmod, cq_divmodw, cq_divw_rnd; src/hob3lop/matq.c cq_divmodx, cq_round")],
  ["quotient","remainder"],["return values"])
p("P02","Multi-word coordinate products and quotients are exact",
  "Products of two 64-bit magnitudes, additions, subtractions and comparisons of 96/128-bit intermediate values, and the scaled quotient a*b/c with its exact fractional part equal the mathematically exact values for all operands that satisfy the documented ranges. No carry, borrow or partial product is ever lost.",
  ["inputs"],"all operands of the wide multiply, extended add/subtract/compare and multiply-divide operations",
  "Carry chains fail only on rare digit patterns; tests sample a handful.",
  MQ,[("wide arithmetic","src/hob3lop/matq.c cq_udimw_mul_aux, cq_udime_*, cq_dim_div_ew, cq_dimif_mul_div_nww")],
  ["multi-word values"],["return values, fraction structures"])
p("P03","Exact fractional coordinates compare in their true numeric order",
  "Comparing two fractional coordinates (integer part plus proper fraction) returns the sign of their exact rational difference for all representable values, so the order is total, antisymmetric and transitive, and equal values compare equal whatever their numerator/denominator representation. The portable comparison routine and the wide-integer routine always agree.",
  ["inputs"],"all pairs of fractional coordinates / non-negative fractions with 64-bit numerator and positive denominator",
  "Wrong order shows only for fractions closer than any sampled pair.",
  MQ,[("fraction comparison","src/hob3lop/matq.c cq_dimif_cmp_frac, cq_dimif_cmp_frac_aux; include/hob3lop/matq.h cq_dimif_cmp, cq_dimif_cmp_frac_eq")],
  ["fractional coordinates"],["return value -1/0/+1"])
p("P04","Segment intersection reports exactly the right case and point",
  "For any two line segments with coordinates in the supported range, the intersection routine reports 'no crossing' exactly when the closed segments share no single point of the supporting lines, classifies collinear and parallel segments correctly, flags exactly those endpoints that lie on the other segment, and otherwise delivers the exact rational crossing point. The answer does not depend on the direction in which a segment is given nor on the order of the two segments.",
  ["inputs"],"all pairs of segments with coordinates in the supported range",
  "Degenerate touching configurations and huge/small coordinate mixes are too many to sample.",
  MQ,[("exact line intersection","src/hob3lop/matq.c cq_vec2if_intersect")],
  ["segments"],["return flags and crossing point"])
p("P05","Classifying a pixel against an edge honours the tolerance square exactly",
  "For any edge of non-zero length and any point that is not entirely beside, above or below the edge's end points, the tolerant comparison returns 0 exactly when the edge's supporting line meets the unit tolerance square around the point (half-open: the lower and left boundary belong to the square), and otherwise the side on which the square lies; for points beside the edge it returns the side of the line, never 0; the exact comparison returns the exact sign of the side.",
  ["inputs"],"all points and edges with coordinates in the supported range",
  "Only edges grazing a pixel corner discriminate; the tests have a few.",
  MQ+["src/hob3lop/op-sweep-internal.h"],[("tolerant and exact point/edge comparison","src/hob3lop/matq.c cq_cmp_edge_rnd; src/hob3lop/op-sweep-internal.h vec2_edge_cmp_exact, vec2_edge_cmp_tolerant")],
  ["point, edge"],["return value -1/0/+1"])
p("P06","Coordinate arithmetic never silently wraps around",
  "Every checked addition, subtraction, multiplication, negation, absolute value, bounding minimum/maximum and vector operation (cross product of two vectors and around a centre point, squared length, squared distance) on coordinates either returns the exact mathematical result or takes the overflow failure exit; it never returns a wrapped value. Operands whose exact result fits never cause an overflow failure.",
  ["inputs"],"all 32-bit and 64-bit operand combinations",
  "The wrap-around corner is a measure-zero set for sampled tests.",
  MQ+["include/hob3lop/gon.h"],[("checked operations","include/hob3lop/matq.h cq_dim_add.., cq_dimw_..; vec2 helpers")],
  ["coordinates"],["return value or overflow exit"])
p("P07","Importing model coordinates rounds to the grid or fails, never distorts",
  "Converting a real coordinate to the integer grid yields the nearest grid point (the documented bias is towards rounding .4999995 up) and converting back gives a value within half a grid unit of the input; values outside the representable range or not-a-number are rejected with the overflow failure. Every grid coordinate survives export followed by import unchanged.",
  ["inputs"],"all double values (including NaN and infinities) and all grid coordinates, for power-of-two grid scales",
  "2^64 double bit patterns; failures sit at range ends and exact halves.",
  ["src/hob3lop/gon.c","include/hob3lop/gon.h"],[("float/grid conversion","src/hob3lop/gon.c cq_import_dim; include/hob3lop/gon.h cq_export_dim")],
  ["grid scale"],["return values"])
p("P08","Insertion keeps the dictionary balanced and sorted; search and steps agree",
  "Inserting a node at a place found by a search, directly before or after any member, or as a new minimum or maximum puts it exactly there in the order and keeps every other member and its order. After each insertion parent/child links agree, the root has no parent, and the balance invariant (no two consecutive red nodes, equal black height on both sides, correct stored height) holds. A search returns a member iff one with the key is there (with equal keys, insertion places go before or after all of them as asked), going to the first, last, next or previous member gives the direct neighbour in the order or nothing at the end, and the root of any member is the root of the tree.",
  ["histories","inputs"],"all trees and all sequences of insertions",
  "Shape-dependent rebalancing cases grow exponentially; tests run fixed sequences.",
  ["src/hob3lbase/dict.c","include/hob3lbase/dict.h"],[("red-black tree insertion","src/hob3lbase/dict.c cp_dict_insert_ref_aug, _balance_insert, rb_rotate"),("search and iteration","src/hob3lbase/dict.c cp_dict_find_ref_, cp_dict_start, cp_dict_step, cp_dict_root")],
  ["tree nodes: parent, edge, stat"],["traversal order, lookup result, tree structure"])
p("P35","Removal, exchange, join and split keep the dictionary a balanced sorted set",
  "After removing a node, exchanging two nodes, joining two trees with a middle node or splitting a tree at a node, in-order traversal yields exactly the resulting members in order, parent/child links agree and the balance invariant of P08 holds. Aggregates kept per subtree are notified so that they equal the aggregate of the subtree.",
  ["histories","inputs"],"all trees and all operation sequences",
  "Shape-dependent rebalancing cases grow exponentially; tests run fixed sequences.",
  ["src/hob3lbase/dict.c","include/hob3lbase/dict.h"],[("red-black tree","src/hob3lbase/dict.c remove/swap/join/split")],
  ["tree nodes: parent, edge, stat"],["traversal order, lookup result"])
p("P09","The heap always yields a smallest element and loses none",
  "After building a heap, inserting, removing, replacing or updating elements, the heap array holds exactly the expected elements, every parent is not greater than its children so the first element is a minimum, and the position stored inside each element equals its index (removed elements are marked as not contained).",
  ["histories","inputs"],"all heap sizes, contents, comparison results and operation sequences",
  "Sift paths depend on the comparison outcomes of the whole array.",
  ["src/hob3lbase/heap.c","include/hob3lbase/heap.h"],[("index-embedding binary heap","src/hob3lbase/heap.c")],
  ["heap array, element index"],["extracted element"])
p("P10","Growable vectors behave as mathematical sequences",
  "Append, insert, overwrite, remove, reverse, extract, inflate and resize produce exactly the sequence the operation denotes: all other elements keep their value and order, new slots are zeroed, capacity is never smaller than the length, also when a vector is inserted or copied into itself. Requests whose byte size is not representable fail instead of allocating too little.",
  ["inputs","histories"],"all lengths, element sizes, positions and aliasing combinations",
  "Element shifts go wrong only for particular position/length/alias combinations.",
  ["src/hob3lbase/vec.c","include/hob3lbase/vec.h"],[("generic vector","src/hob3lbase/vec.c cp_v_*")],
  ["data,size,alloc"],["element sequence"])
p("P11","Circular lists stay well linked under every insert, remove and splice",
  "Initialising, inserting, removing or splicing (chaining) ring nodes keeps every forward link matched by the backward link and yields exactly the expected cyclic order; nodes that are not named are only relinked next to the named ones. Removing a node leaves it a singleton ring.",
  ["inputs","histories"],"all rings and all choices of nodes, including adjacent and identical nodes",
  "Adjacent/identical node aliasing is where pointer splices break.",
  ["src/hob3lbase/list.c","include/hob3lbase/list.h"],[("ring list","include/hob3lbase/list.h cp_list_*")],
  ["next, prev"],["iteration order"])
p("P12","The pool allocator hands out disjoint, aligned, zeroed memory",
  "Every block returned by the pool is properly aligned, zero filled, lies completely within memory owned by the pool and overlaps no other block handed out since the last clear; impossible sizes fail loudly instead of returning a short block.",
  ["histories","inputs"],"all sequences of request sizes, counts and alignments",
  "Overlap needs specific size/alignment residues at block ends.",
  ["src/hob3lbase/pool.c","include/hob3lbase/pool.h"],[("pool allocation","src/hob3lbase/pool.c cp_pool_calloc")],
  ["block list, brk/end"],["returned pointers"])
p("P13","UTF-8 text is decoded and encoded exactly, malformed text is rejected",
  "Encoding any Unicode scalar value and decoding the bytes gives back the same value with exactly those bytes consumed; every ill-formed sequence (stray or missing continuation, overlong form, surrogate, beyond U+10FFFF, truncated) is reported as an error at its first byte and never as a character. String escapes decode to the character they denote, and no byte outside the given buffer is read or written.",
  ["inputs"],"all byte sequences and all code points, all remaining lengths",
  "2^32 byte combinations; tests only use ASCII.",
  ["src/hob3lbase/utf8.c","include/hob3lbase/utf8.h"],[("UTF-8 codec","src/hob3lbase/utf8.c")],
  ["decoder position, remaining size, error"],["code point, error message"])
p("P14","Reported source positions point to the true file and line",
  "For every position inside any loaded input text, the position lookup returns the file that contains it, the line whose text range contains it and correct line start and end, and reports failure for positions outside of all loaded files. Reading a file keeps its whole text and starts a line at the text start and after every newline, and the column shown is the output column of the character at the position.",
  ["inputs"],"all line tables and positions",
  "Off-by-one at line starts/ends and at first/last line; tests never check messages.",
  ["src/hob3l/syn-msg.c","src/hob3l/syn.c","src/hob3lbase/vec.c"],[("line lookup","src/hob3l/syn-msg.c cp_syn_get_loc")],
  ["line start table"],["file, line, column"])
p("P15","Boolean function tables combine exactly like the set operations they denote",
  "For every input combination, the table built for and, or, difference, exclusive-or, negation or a smaller table shifted to further inputs evaluates to the truth value of the respective operation on the operands' values, so the table of a nested expression equals the expression. This holds for every number of inputs up to the supported maximum.",
  ["inputs"],"all tables, all offsets and numbers of inputs up to the maximum, all input combinations",
  "2^(2^n) tables; tests use a few solids.",
  ["src/hob3lbase/bool-bitmap.c","include/hob3lbase/bool-bitmap.h","src/hob3l/csg2-bool.c"],[("bitmaps","src/hob3lbase/bool-bitmap.c")],
  ["bitmap words"],["lookup result"])
p("P16","Sweep events are processed in one consistent total order",
  "The comparisons that order sweep-line events are consistent: comparing in reverse gives the opposite sign, the relation is transitive, primary order is by x then y (then right end points before left end points, then by angle), crossing events are ordered by exact coordinate (in the rounding phase first by rounded coordinate), with the south pass only mirroring the y order; vertices, edges, pixels and bundles on the scan line are ordered from bottom to top by the exact or tolerant side.",
  ["inputs"],"all vertices, edges and crossings with coordinates in the supported range",
  "An inconsistent comparison corrupts the search tree only for particular triples.",
  ["src/hob3lop/op-sweep.c","src/hob3lop/op-sweep-internal.h"],[("event comparison","src/hob3lop/op-sweep.c cq_sweep_agenda_*_cmp, cq_sweep_result_vertex_cmp")],
  ["event coordinates"],["comparison result"])
p("P17","Inverting a transformation yields its true inverse and determinant",
  "For every square or affine matrix whose determinant is not negligible, the computed inverse multiplied with the matrix is the identity and the returned determinant is the true determinant; for negligible determinants the result is the zero matrix and determinant 0. Matrices that carry their inverse keep both parts inverse to each other through construction, multiplication, inversion, transposition and conversion.",
  ["inputs"],"all real matrices of every supported dimension, including in-place use",
  "Algebraic identities over 16 reals cannot be sampled at every cofactor.",
  ["src/hob3lmat/algo.c","src/hob3lmat/mat_gen_ext.c","include/hob3lmat/mat_gen_inl.h"],[("inverse","src/hob3lmat/algo.c cp_mat*_inv, cp_mat*_det, cp_mat*i_from_*; src/hob3lmat/mat_gen_ext.c cp_mat*i_mul")],
  ["matrix, inverse, determinant"],["matrix entries"])
p("P18","Composing transformations equals applying them one after the other",
  "Applying the product of two transformations to a point equals applying the right one first and then the left one, translation included, for every dimension and also when result and operand are the same object. Translations, scalings, conversions between matrix kinds and multiplication with identity act on points exactly as their definition says.",
  ["inputs"],"all real matrices and points, all aliasing of result and operands",
  "A swapped index or stale read in one entry stays unseen by image-less tests.",
  ["src/hob3lmat/mat_gen_ext.c","include/hob3lmat/mat_gen_inl.h","src/hob3lmat/algo.c"],[("matrix application and product","src/hob3lmat/mat_gen_ext.c cp_mat*_mul, cp_vec*_xform")],
  ["matrix entries"],["transformed point"])
p("P19","Rotations and mirrors are isometries with the documented axis and sense",
  "A rotation built from an axis and sine/cosine is orthonormal with determinant +1, keeps its axis fixed and turns counter-clockwise by the right-hand rule; a mirror is an involution that negates its normal and keeps the mirror plane; a rotation into Z maps the given direction to the positive Z axis and is a proper rotation; an axis or direction of (near) zero length yields the identity.",
  ["inputs"],"all unit axes and all (sin,cos) pairs on the unit circle",
  "Tests compare few concrete matrices.",
  ["src/hob3lmat/algo.c","src/hob3lmat/mat_gen_ext.c","include/hob3lmat/mat_gen_inl.h"],[("rotation and mirror generators","src/hob3lmat/algo.c cp_dim3_rot_unit, cp_dim*_mirror_unit, cp_dim3_rot_unit_into_z")],
  ["matrix rows"],["matrix entries"])
p("P20","Vector geometry helpers satisfy their defining equations",
  "Sums, differences, products and quotients with a scalar, dot and cross products, lengths and distances, unit vectors, linear interpolation, nearest point on a line, collinearity tests, normals, and componentwise minimum/maximum and bounding boxes satisfy their defining algebraic equations for all real inputs and under in-place use.",
  ["inputs"],"all real vectors and parameters, all aliasing of result and operands",
  "A wrong component is visible only on inputs that exercise it alone.",
  ["src/hob3lmat/algo.c","src/hob3lmat/mat_gen_ext.c","include/hob3lmat/mat_gen_inl.h","include/hob3lmat/mat.h","src/hob3lbase/arith.c","include/hob3lbase/arith.h"],[("vector helpers","include/hob3lmat/mat_gen_inl.h; src/hob3lbase/arith.c")],
  ["vector components"],["vector components"])
p("P21","Bounding boxes contain every object and are tight",
  "The bounding box of a model is the union of the boxes of its solid parts (for an intersection the common part, subtracted parts do not count), contains every vertex and the extent of every ellipsoid, and each side of it is attained by some part. It does not depend on the order in which the parts are given.",
  ["inputs","programs"],"all object trees, coordinates and transformation matrices",
  "A bound lost for one order of objects needs a particular scene to be seen.",
  ["src/hob3l/csg3.c","src/hob3lmat/mat_gen_ext.c","src/hob3lop/gon.c"],[("bounding box accumulation","src/hob3l/csg3.c cp_csg3_tree_minmax; cp_vec3_minmax*")],
  ["min/max corners"],["bounding box"])
p("P22","Circle subdivision is complete, symmetric and exact at special angles",
  "Iterating a circle with n segments visits every index 0..n-1 exactly once, assigns index i the angle i*360/n, and is symmetric to the x axis by exact negation of the sine; sine and cosine are exact at all multiples of 90 and for the multiples of 30 degrees with rational result, for every integer angle in range including negative ones.",
  ["inputs"],"all segment counts and all integer-valued angles",
  "Parity and wrap-around of the index order and the range of angles are not covered by tests.",
  ["src/hob3lmat/algo.c","include/hob3lmat/algo.h"],[("circle iterator and exact trigonometry","src/hob3lmat/algo.c cp_circle_iter_step, cp_sin_deg, cp_cos_deg, cp_f_get_int")],
  ["iterator state"],["index, sine, cosine"])
p("P23","The model height is divided into the right layers, looked up correctly",
  "For every minimum, maximum and positive step (in exact arithmetic), the number of layers is the smallest count whose steps cover the height up to the comparison tolerance (one for a flat model, none if the maximum is below the minimum); layer i is cut at the minimum plus i times the step and is one step thick; a layer lookup returns the stored layer exactly for indices inside the stored range and nothing outside it.",
  ["inputs"],"all double minima, maxima, steps, all layer ranges and indices",
  "Rounding at exact multiples of the step is not sampled.",
  ["include/hob3lbase/arith.h","src/hob3l/csg2-layer.c"],[("layer range","include/hob3lbase/arith.h cp_range_init; src/hob3l/csg2-layer.c cp_csg2_stack_get_layer")],
  ["range min/step/count, layer index base"],["layer count, layer pointer"])
p("P24","Cutting a polyhedron face by a plane yields its exact cut points",
  "Cutting a closed face by a horizontal plane produces one point per edge that crosses from at-or-below to above the plane and none for other edges, hence an even number; each point lies on its edge at the plane's height up to rounding to the nearest grid coordinate, independent of the direction of the edge, and the cut segments' end points are exactly these points.",
  ["inputs"],"all faces with vertices in the supported range, all plane heights",
  "Vertices exactly on the plane and extreme coordinates are rare in samples.",
  ["src/hob3lop/op-slice.c"],[("slicing","src/hob3lop/op-slice.c cq_slice_add_face, cq_slice_fini")],
  ["output point vector"],["cut points"])
p("P25","Each written STL layer is a closed, outward oriented solid",
  "For every triangulated layer polygon whose outline flags mark the boundary edges, and every layer thicker than the comparison tolerance, the written triangles of top, bottom and sides form a closed surface: every directed edge is matched by its reverse, top normals point up and bottom normals down, and the triangle count announced in a binary file equals the number of records written, in little-endian 50-byte records.",
  ["inputs"],"all layer polygons, triangulations, heights and both file formats",
  "Tests only check that a non-empty file is written.",
  ["src/hob3l/csg2-2stl.c"],[("STL writer","src/hob3l/csg2-2stl.c cp_csg2_tree_put_stl")],
  ["triangle list, flags, z"],["written bytes"])
p("P26","STL input is read completely and exactly or rejected",
  "A binary STL file of consistent size is read into exactly the announced number of triangles with the coordinates of the file in order; a size that does not match is rejected; no byte outside the file content is read. A text STL file whose solids have names or not yields exactly its facets.",
  ["inputs"],"all file contents and sizes",
  "Only one or two files are tried by tests.",
  ["src/hob3l/stl-parse.c"],[("STL reader","src/hob3l/stl-parse.c")],
  ["file content, position"],["polyhedron points and faces"])
p("P27","Solids built from point towers are closed and consistently oriented",
  "Every solid generated from a stack of point rings (cubes, cylinders, cones, spheres, linear extrusions) has faces in which each directed edge occurs exactly once and its reverse exactly once, uses every ring point, and reverses its orientation exactly when requested or when the transformation mirrors.",
  ["inputs"],"all segment counts, ring counts, with and without tip, all side triangulation modes and transformations",
  "A missing or flipped face still gives a non-empty output file.",
  ["src/hob3l/csg3.c"],[("tower faces","src/hob3l/csg3.c faces_n_edges_from_tower")],
  ["face index lists"],["polyhedron faces"])
p("P28","Input text is tokenised completely and within its bounds",
  "For every NUL-terminated text the lexer terminates, never reads outside of the text, skips comments and blanks, and yields tokens that are consecutive, non-overlapping pieces of the text; unterminated strings and comments are reported as errors.",
  ["inputs"],"all input texts",
  "Malformed input space is unbounded.",
  ["src/hob3l/syn.c"],[("lexer","src/hob3l/syn.c")],["lexer position"],["token kind and text"])
p("P29","The 2D boolean result equals the point-set operation up to grid rounding",
  "For any set of polygons and any boolean expression, the sweep produces a polygon set whose interior equals the boolean combination of the inputs' interiors up to the rounding of crossing points to the grid.",
  ["inputs"],"all polygon sets and boolean expressions",
  "Unbounded geometry.",
  ["src/hob3lop/op-sweep.c","src/hob3lop/op-sweep-reduce.c","src/hob3lop/op-poly.c","src/hob3l/csg2-bool.c"],[("sweep-line snap rounding","src/hob3lop/op-sweep.c")],["sweep state, agenda"],["output polygons"])
p("P30","Triangulation covers each polygon exactly once",
  "For any set of non-crossing polygon outlines, the triangulation's triangles do not overlap, their union is the polygon's interior, and the outline flags mark exactly the boundary edges.",
  ["inputs"],"all sets of outlines",
  "Unbounded geometry.",
  ["src/hob3lop/op-trianglify.c"],[("monotone triangulation","src/hob3lop/op-trianglify.c")],["sweep state"],["triangles"])
p("P31","Printing a parsed model and reading it back gives the same model",
  "Dumping the parsed syntax or object tree as SCAD text and parsing it again yields an equal tree for every valid input.",
  ["programs"],"all valid input programs",
  "Needs all programs.",
  ["src/hob3l/scad-2scad.c","src/hob3l/syn-2scad.c","src/hob3l/syn.c","src/hob3l/scad.c"],[("dump and parse","src/hob3l/scad-2scad.c")],["trees"],["text"])
p("P32","SVG paths and XML documents are interpreted per specification",
  "Every well-formed SVG document yields the polygons its path, shape and transform definitions denote, and malformed XML is rejected with an error.",
  ["inputs"],"all documents","Unbounded grammar.",
  ["src/hob3l/svg-parse.c","src/hob3l/xml-parse.c"],[("SVG import","src/hob3l/svg-parse.c")],["parser state"],["polygons"])
p("P33","Primitive solids and transformations are as requested",
  "For every parameter value that is accepted: a cube has exactly its eight requested corners, centred when asked; a cylinder or cone has its rings at the requested heights with the requested radii at evenly spaced angles; a sphere has the requested radius and ring heights; every transformation (translate, scale, mirror, rotate, multmatrix) multiplies the matrix of the surrounding context on the right by exactly the requested matrix (rotations in the order X, then Y, then Z), and colours are inherited and overridden as requested.",
  ["inputs","configurations"],"all dimensions, angles, centring flags, facet counts and surrounding matrices",
  "The sizes and angles are real parameters and facet counts are unbounded; tests sample a few models.",
  ["src/hob3l/csg3.c"],[("primitive solids","src/hob3l/csg3.c"),("transformations","src/hob3l/csg3.c")],["context matrix and colour"],["points, faces and matrices of the solids"])
p("P34","Set operations of the model are kept from the tree down to each layer",
  "For every nesting of difference, intersection and union with any number of children: difference denotes the first object minus all others, intersection the common part of all children that yield objects, union everything; the tree over stacks of layers has the same structure and the same operations in the same order, has layers at the heights minimum + step*i, slicing a layer visits every object that can contribute to it, and evaluating the tree in a layer combines the layer polygons with exactly the operations of the tree.",
  ["programs","inputs"],"all trees with any number of children and any layer count",
  "Nesting and number of children are unbounded, and operands may yield nothing in a layer; tests sample a few trees.",
  ["src/hob3l/csg3.c","src/hob3l/csg2-tree.c","src/hob3l/csg2-layer.c","src/hob3l/csg2-bool.c"],[("from syntax to set operations","src/hob3l/csg3.c"),("tree of layer stacks","src/hob3l/csg2-tree.c"),("layers","src/hob3l/csg2-layer.c"),("evaluation in a layer","src/hob3l/csg2-bool.c")],["trees and stacks of layers"],["the set denoted in each layer"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
