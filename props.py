# The properties: texts for properties.jsonl and MANIFEST.json. NA: properties not claimed, with the reason.
def P(id, title, statement, over, text, why, files, mech, note, technique=None, **kw):
    return {**({"technique": technique} if technique else {}), "id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
            "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None, **kw}, "level_note": note}
TRUST = " Trusts clang 18's IR, the executor in engine/qsx.cpp and Z3; counterexamples are replayed natively before they are reported, so alarms do not rest on that trust."
PYT = "symbolic execution of the Python sources with Z3 deciding every branch and assertion; replay of counterexamples with the real numpy and scipy"
PROPS = [
P("G01", "Grid cell numbering is a bijection and steps move by exactly one cell",
  "Cells of a background grid are numbered so that linear numbers and (i,j,k) positions convert into each other without loss. Stepping forward or backward in a direction leads to the cell next to it in that direction, wraps to the next row or layer at the end of a row, reports that end, and reports the end of the partition or grid at its last cell; forward and backward steps undo each other.",
  "inputs configurations", "all grid sizes within the bounds, all sub-partitions, all cells, all six directions",
  "Tests walk two or three fixed grids; wrap-around and sub-partition ends depend on every combination of sizes, position and direction.",
  "queso/containers/grid_indexer.hpp", [("index/matrix conversion, next-index stepping", "queso/containers/grid_indexer.hpp: GetMatrixIndicesFromVectorIndex, GetVectorIndexFromMatrixIndices, GetNextIndex*")],
  "Bounded: grids up to 4 cells per direction with symbolic cell, partition and direction, plus four large grids; nothing is said about other sizes." + TRUST),
P("G02", "Grid cells tile the domain in both coordinate spaces",
  "The boxes of all cells of a grid partition the given physical bounds and the given parametric bounds: the first and last cells touch the bounds, neighbouring cells share exactly one face, no cell is empty. For B-spline grids the parametric box of a cell is the matching part of the parametric domain; for finite-element grids every cell has the whole given parametric box.",
  "inputs configurations", "every grid size in the bounds and all real bounds of the domain",
  "Tests compare a few cells of fixed grids with tabulated numbers; overlap or gaps for other sizes and bounds are not visible to them.",
  "queso/containers/grid_indexer.hpp", [("cell boxes", "queso/containers/grid_indexer.hpp: GetBoundingBoxXYZFromIndex, GetBoundingBoxUVWFromIndex")],
  "Grids up to 3 (thorough 4) cells per direction; bounds are arbitrary reals in [-100,100]." + TRUST),
P("G03", "Maps between parametric and global space are inverse and keep measures",
  "Mapping a point from global to parametric space and back gives the point again, for any cell box in either space, and corners map to corners. Volume weights scale with the ratio of the cell volumes. Boundary data keep unit normals, map normals to the right direction, and boundary weights scale so that areas and fluxes in the two spaces agree.",
  "inputs", "all cell boxes, points, weights and unit normals in the bounds",
  "Tests use a handful of boxes and axis-aligned normals; the area factor for oblique normals with anisotropic scaling is a property of all of them.",
  "queso/utilities/mapping_utilities.hpp queso/containers/element_base.hpp", [("point maps and Jacobians", "queso/utilities/mapping_utilities.hpp")],
  "Non-linear real arithmetic decided by Z3 for all boxes in the stated ranges, exact reals instead of rounded doubles (assertions carry a rounding allowance)." + TRUST),
P("G04", "Clipping a triangle with a cell keeps exactly the part inside the cell",
  "Clipping a triangle against a box gives a polygon that lies in the triangle's plane, inside the triangle and inside the box, keeps the triangle's orientation, and whose area is the area of the part of the triangle that lies in the box; triangles that do not meet the box give nothing. Parts that lie in a cell face are attributed once among neighbouring cells. Triangulating a polygon keeps its area and orientation.",
  "inputs", "triangle shapes at any position relative to the cell, including touching and in-face positions; polygons with arbitrary vertex positions",
  "Tests sum clipped areas of a few meshes at fixed positions with loose tolerances; degenerate contacts happen on measure-zero sets only a solver hits systematically.",
  "queso/embedding/clipper.h queso/embedding/clipper.cpp queso/embedding/polygon.h queso/embedding/polygon.cpp", [("Sutherland-Hodgman clipping against six planes", "queso/embedding/clipper.cpp"), ("polygon triangulation", "queso/embedding/polygon.cpp")],
  "Eight triangle shapes, any translation along one or two axes from five places; arbitrary rotations are outside the bounds." + TRUST),
P("G05", "Box, triangle and tree intersection tests never miss a contact",
  "The test of a triangle against a box reports every triangle that meets the box and rejects triangles that are separated from it by more than the tolerance; the test of two boxes does the same. A query of the search tree over a triangle mesh returns every triangle whose bounding box meets the query box, and the question whether the surface meets a cell is answered accordingly.",
  "inputs", "triangle shapes at any position and with moving vertices, any tolerance, any boxes, any query",
  "Tests check fixed meshes on a fixed lattice of cells; a missed separating axis or tree branch shows only for particular relative positions.",
  "queso/embedding/aabb_primitive.h queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.h queso/embedding/aabb_tree.cpp queso/embedding/geometry_query.cpp external_libraries/aabb_tree/AABB_base.cc", [("separating axes", "queso/embedding/aabb_primitive.cpp"), ("tree query", "queso/embedding/aabb_tree.cpp"), ("geometry query", "queso/embedding/geometry_query.cpp")],
  "Fixed triangle shapes with symbolic position, tolerance and partly symbolic vertices; trees up to 4 boxes or the meshes in harness/meshes.h." + TRUST),
P("G06", "Points are classified inside or outside a body exactly",
  "Intersecting a ray with a box or a triangle agrees with the geometric definition, and the reported distance is the distance to the hit point. For a closed surface a point is classified inside exactly if it lies in the enclosed body, for every direction the ray happens to take; points close to the surface may go either way.",
  "inputs schedules", "any query point, fixed ray directions; fixed points with any (random) ray direction; several bodies, with and without cavities, closed or open at a boundary plane",
  "The implementation shoots rays in random directions; tests fix a seed and sample points. The claim is for all points and all random outcomes.",
  "queso/embedding/ray_aabb_primitive.h queso/embedding/ray_aabb_primitive.cpp queso/embedding/geometry_query.h queso/embedding/geometry_query.cpp", [("ray/box, ray/triangle", "queso/embedding/ray_aabb_primitive.cpp"), ("ray casting over the tree", "queso/embedding/geometry_query.cpp: IsInside")],
  "Bodies of harness/meshes.h; random directions are symbolic values (or listed directions where arbitrary ones are out of reach)." + TRUST),
P("G07", "The element store finds, counts and traverses exactly what was put in",
  "A background grid holds each element once under its id, reports an error for a second one, counts full and trimmed elements, and iterates over each exactly once with its kind. Looking up an id returns the element if and only if it was stored and its kind is asked for. Steps through the grid return the neighbouring element if it is stored, and flag the end of a row and missing neighbours.",
  "inputs histories configurations", "every assignment of empty, full and trimmed cells on small grids, several insertion orders, every id and every step",
  "Tests fill the grid in one way with one pattern; what is found depends on the whole history of insertions.",
  "queso/containers/background_grid.hpp queso/containers/element_view.hpp queso/includes/dereference_iterator.hpp", [("id maps", "queso/containers/background_grid.hpp: MakeElement, GetElementView, pGetElement"), ("steps", "queso/containers/background_grid.hpp: GetNextElement*")],
  "Grids with up to 4 (thorough 6) cells; insertion histories are explored as symbolic choices, stored boxes are symbolic." + TRUST),
P("G08", "Moments of a trimmed cell equal the exact volume integrals",
  "The moments used for fitting a rule in a cut cell, computed from boundary integration points alone, equal the volume integrals of the polynomial basis over the enclosed body. The moments of a given set of volume points are the weighted sums of the basis.",
  "inputs", "every axis-aligned sub-body with free end faces, orders up to 3 per direction; any weights",
  "Tests compare summed moments for two bodies; a wrong term in one direction, order or normal component cancels there.",
  "queso/quadrature/trimmed_element.hpp queso/utilities/polynomial_utilities.hpp", [("divergence theorem", "queso/quadrature/trimmed_element.hpp: ComputeConstantTerms")],
  "Bodies are boxes inside a cell with one symbolic extent per run (three in the thorough tier); curved bodies follow only by the divergence theorem, not by this check." + TRUST),
P("G09", "Polynomial basis and its antiderivative are the shifted Legendre polynomials",
  "The polynomial basis used for fitting evaluates the orthogonal polynomials on the given interval for every supported order, and the companion function is an antiderivative of it. Shifting or scaling the interval does not change the values.",
  "inputs", "any point, any interval, every supported order",
  "Tests check orthogonality integrals with Gauss points on few intervals; a wrong antiderivative constant or coefficient at one order is only partially visible.",
  "queso/utilities/polynomial_utilities.hpp", [("tabulated polynomials", "queso/utilities/polynomial_utilities.hpp")],
  "Every order 0..8; polynomial identities over the reals decided by Z3." + TRUST),
P("G10", "Non-negative least squares returns the constrained optimum",
  "The solver returns non-negative coefficients that satisfy the optimality conditions of the least-squares problem, and the residual norm it reports is the norm of the actual residual. Fitting the weights of integration points returns the best non-negative weights, leaves the points and moments alone, and reports their relative residual.",
  "inputs", "any right-hand side for given systems; a free matrix entry; any moments for given point sets",
  "Tests solve two systems with known answers; the active-set path depends on every sign pattern of the right-hand side.",
  "queso/solvers/nnls.h queso/solvers/nnls.cpp queso/quadrature/trimmed_element.hpp external_libraries/nnls/nnls_impl.h", [("active set", "queso/solvers/nnls.cpp"), ("fitting", "queso/quadrature/trimmed_element.hpp: MomentFitting")],
  "Systems up to 3 equations and 4 unknowns listed in harness/h_fit.cpp; all right-hand sides in [-1,1]^m or listed ranges." + TRUST),
P("G11", "Point elimination only removes points and reports the true residual",
  "Reducing the integration points of a cut cell keeps a subset of the given points with non-negative weights, and never needs more points than moments. The residual it reports is the residual of the returned rule, and a target that can be met is met.",
  "inputs", "any targeted residual, several bodies, orders and point sets (also with fewer points than moments)",
  "Tests run it with two targets on one body; which points survive depends on the target in every iteration.",
  "queso/quadrature/trimmed_element.hpp", [("elimination loop", "queso/quadrature/trimmed_element.hpp: PointElimination")],
  "The targeted residual is symbolic; point sets and bodies are listed in harness/h_fit.cpp; a crash on few points found here is fixed." + TRUST),
P("G12", "Gauss rules integrate polynomials of full degree exactly",
  "Each tabulated Gauss rule with n points on an interval has positive weights summing to the length of the interval, points inside it, and integrates every polynomial of degree 2n-1 exactly.",
  "inputs configurations", "every order, arbitrary polynomial coefficients",
  "Tests integrate one polynomial per rule; exactness is a statement about the whole space.",
  "queso/quadrature/integration_points_1d/integration_points_factory_1d.h queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp", [("tables", "queso/quadrature/integration_points_1d")],
  "All tabulated orders; coefficients of the polynomial are symbolic reals in [-1,1]." + TRUST),
P("G13", "Generalised Gauss rules integrate every spline of their space exactly",
  "For any number of elements the generalised Gauss rule of a direction has positive weights summing to the length, points in increasing order inside the domain, and integrates every spline of the target space (degree and continuity of the method) exactly.",
  "inputs configurations", "method, degree, number of elements in the bounds, arbitrary spline coefficients",
  "Tests compare a few element numbers against the sum of weights or one function; the rules are assembled from tables differently for each parity and size.",
  "queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d", [("table assembly", "queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp: GetGGQPoints")],
  "1..60 (thorough 120) elements; spline coefficients symbolic." + TRUST),
P("G14", "The tensor rule of a full cell is exact and stays inside the cell",
  "The rule of a full cell has (as many points as the orders prescribe) positive weights that add up to the parametric volume of the cell, points strictly inside the cell, and integrates tensor-product polynomials of full degree exactly, for each of the Gauss variants.",
  "inputs configurations", "cell anywhere, orders in the bounds, arbitrary polynomial coefficients",
  "Tests use one cell and one order triple; mixing up directions is invisible with equal orders.",
  "queso/quadrature/single_element.hpp", [("tensor assembly", "queso/quadrature/single_element.hpp: AssembleIPs")],
  "Orders 1..3 per direction, all three Gauss variants, cell bounds symbolic." + TRUST),
P("G15", "Generalised rules over groups of full cells integrate exactly over their union",
  "For every arrangement of full cells in the grid, assembling generalised rules over groups of cells stores points in the cell that contains them, with positive weights that add up to the volume of the full cells. Every spline of the target space is integrated exactly over their union.",
  "inputs configurations", "every subset of full cells on small grids, with or without trimmed cells in between, method, degree, arbitrary splines",
  "Tests use three bodies; the grouping of cells into blocks depends on the whole arrangement (this check found wrong sums for an L-shaped arrangement, since fixed).",
  "queso/quadrature/multiple_elements.hpp", [("box growing and assembly", "queso/quadrature/multiple_elements.hpp")],
  "Grids up to 3x3x1 / 2x2x2 / 4x2x1; splines vary in one direction with symbolic coefficients." + TRUST),
P("G16", "Mesh measures, boxes, refinement and joining are exact for every mesh",
  "For a closed triangle mesh anywhere in space, area, volume and directional volumes equal those of the body, the parallel versions agree with the serial ones for any number of threads, and the closedness measure is (near) zero exactly for closed meshes. The box of a mesh is its tight axis-aligned box. A generated cuboid is closed, covers its faces once and has outward normals. Refining gives at least the requested number of triangles on the same closed surface with the same normals; appending keeps all triangles of both meshes unchanged.",
  "inputs configurations", "any position and size, any number of threads, any requested number of triangles, any missing triangle, any vertex coordinates",
  "Tests measure a handful of STL files at their original place with one thread count; refinement depends on the requested number and the shape.",
  "queso/utilities/mesh_utilities.h queso/utilities/mesh_utilities.cpp", [("measures, refinement, joining, cuboids", "queso/utilities/mesh_utilities.cpp")],
  "Bodies listed in harness/meshes.h with symbolic position or extents; 1..9 threads, executed one after the other; up to 60 (thorough 200) requested triangles." + TRUST),
P("G17", "Triangle geometry and triangle quadrature are correct for any triangle",
  "Area, unit normal, centre and aspect ratio of a triangle are right for any position, vertex order and orientation. The quadrature rules of a triangle have their points inside it, positive weights summing to its area, carry its normal, and integrate every polynomial of the degree of the rule exactly.",
  "inputs", "any position and vertex order of several shapes; any third vertex over a fixed edge; arbitrary polynomial coefficients",
  "Tests evaluate three triangles and the sum of weights; exactness of a rule is a statement about a whole space of polynomials.",
  "queso/utilities/triangle_utilities.hpp queso/quadrature/triangle_gauss_legendre_integration_points.hpp", [("triangle utilities", "queso/utilities/triangle_utilities.hpp")],
  "Six triangle shapes anywhere, plus a symbolic vertex; all five rules." + TRUST),
P("G18", "Mesh containers and views hold exactly what was put in",
  "After any history of added and removed triangles a mesh holds exactly the remaining triangles, each with its own normal and vertices. Views visit each selected triangle once, in order, and stop when asked, for native and for foreign meshes alike. The consistency check rejects exactly the meshes whose triangles name missing vertices; edges stored on a clipping plane are returned for that plane only, with their end points and normal.",
  "histories inputs", "all histories up to 5 (7) steps, all index lists up to 3 entries with every stop position, all vertex indices, all planes",
  "Tests fill a mesh once; mistakes after removals or in an early stop need a particular sequence of operations.",
  "queso/containers/triangle_mesh.hpp queso/containers/triangle_mesh_view.hpp queso/containers/clipped_triangle_mesh.hpp", [("containers and views", "queso/containers/triangle_mesh.hpp, triangle_mesh_view.hpp, clipped_triangle_mesh.hpp")],
  "Histories and index lists of bounded length; coordinates symbolic." + TRUST),
P("G19", "Settings and model info return exactly the values that were stored",
  "Dictionaries start with their documented defaults. Storing a value, through a typed key or by name, changes that value and no other, and both ways of access see the same values. By name a value is accepted exactly when its type fits the key (integers also fit real values, negative integers do not fit indices); anything else, and any unknown name, is refused and changes nothing. Printing gives well-formed text that contains every value under its name.",
  "inputs histories", "every dictionary, every key, any value of every type, one or two stores",
  "Tests store a few values in some keys; a wrong key registration or conversion shows only for the key and type concerned.",
  "queso/containers/data_set.hpp queso/containers/dictionary.hpp queso/includes/dictionary_factory.hpp queso/includes/register_keys.hpp queso/includes/keys.hpp", [("storage and access", "queso/containers/data_set.hpp, dictionary.hpp"), ("keys and defaults", "queso/includes/register_keys.hpp, dictionary_factory.hpp")],
  "All keys of the four dictionaries; histories of at most two stores; printing with fixed values." + TRUST),
P("G20", "Incomplete or inconsistent settings are rejected, complete ones accepted",
  "The check of required values fails exactly when a required value is missing anywhere in the dictionary: in sub-dictionaries or list entries too. Settings pass validation exactly when they are complete, every polynomial order is at least one, twofold reduced Gauss rules have order two or more, and generalised rules have orders two to four and a B-spline grid.",
  "inputs configurations", "up to two missing values anywhere, list entries included; orders 0..1000 per direction, every method and grid type",
  "Tests check one missing value and a few wrong combinations.",
  "queso/containers/dictionary.hpp queso/containers/data_set.hpp queso/utilities/check_dictionary_utilities.hpp", [("required values", "queso/containers/dictionary.hpp: CheckRequired"), ("validation", "queso/utilities/check_dictionary_utilities.hpp: CheckSettings")],
  "Up to two missing values; up to two list entries." + TRUST),
P("G21", "Cells are classified as inside, outside or cut, exactly, whatever the number of threads",
  "The classification of all cells of the background grid marks a cell as cut exactly when the surface of the body passes through it, and every other cell as inside exactly when it lies in the body: for any placement of the body against the grid, any topology (holes, cavities, several parts), grid shape and cell size, and for any number of threads used.",
  "inputs configurations", "any position of several bodies along an axis, several grids and cell sizes, 1..8 threads",
  "Tests classify three bodies at one position; the partition of the grid, the seeds of the fill and the merging of groups depend on the position, the grid and the number of threads.",
  "queso/embedding/flood_fill.cpp queso/embedding/flood_fill.h queso/embedding/brep_operator.cpp", [("fill, merge, ray counts", "queso/embedding/flood_fill.cpp"), ("cell against surface", "queso/embedding/brep_operator.cpp")],
  "Nine voxel bodies, up to 4x4x4 cells, one free coordinate; threads are executed one after the other here (schedules: G28). Surfaces lie exactly on grid planes or at least 1e-9 of a cell size away from them: closer than that (about 1e-12) the snapping tolerances of the code decide." + TRUST),
P("G22", "Cut cells have closed boundary meshes whose parts add up to the body",
  "Clipping a closed surface with the cells of a grid yields parts that stay in their cells, keep their orientation and add up to the whole surface. The boundary mesh built for a cut cell is closed, lies in the cell, is oriented outwards, and the enclosed volumes of the cells add up to the volume of the body, wherever the cell faces cut it (also exactly along faces of the body).",
  "inputs configurations", "any place of the cutting plane for seven bodies, per axis, with a second fixed cut, and cuts exactly at faces",
  "Tests sum up a few large meshes on one grid; loops on cell faces are closed differently depending on where edges end.",
  "queso/embedding/trimmed_domain.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain_on_plane.h queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp", [("closing of the cut faces", "queso/embedding/trimmed_domain_on_plane.cpp"), ("clipping", "queso/embedding/brep_operator.cpp: ClipTriangleMesh")],
  "Cuts at least 1e-9 away from parallel faces, or exactly on them (within about 1e-13 of a face the code's own tolerances decide)." + TRUST),
P("G23", "Queries about a cut cell agree with the exact body",
  "For a cut cell, a point is reported inside exactly when it lies in the body; a box within the cell is reported cut exactly when the surface passes through it, and otherwise inside exactly when it lies in the body. Asking for the domain of a cell returns nothing exactly when the enclosed share of the cell is below the limit; otherwise a closed mesh with the exact volume, at least the requested number of triangles, and bounds that are tight.",
  "inputs configurations", "points and boxes at any place along lines in the cell, cell faces at any place, four volume ratios, nine bodies",
  "Tests query a handful of points against another implementation; octree and point elimination rely on each of these answers.",
  "queso/embedding/trimmed_domain.cpp queso/embedding/trimmed_domain.h queso/embedding/brep_operator.cpp queso/embedding/brep_operator.h queso/embedding/geometry_query.cpp", [("point and box queries", "queso/embedding/trimmed_domain.cpp"), ("domain of a cell", "queso/embedding/brep_operator.cpp: pGetTrimmedDomain")],
  "One free coordinate per query; points at least 1e-6 and surfaces at least 1e-9 away from the decision." + TRUST),
P("G24", "STL files hold exactly the mesh, and foreign or damaged files are handled",
  "A mesh written as STL, binary or text, reads back with the same triangles in the same order, corners within the precision of the format, right normals, and shared vertices stored once. Binary files of other programs are read whatever their header, normals and attribute bytes; text files whatever their indentation and number format; shortened or malformed files are refused. The file of a boundary condition holds every triangle of every segment.",
  "inputs", "free coordinates, every header kind, every truncated length, several layouts, defects and encodings",
  "Tests read a few files from disk and write one.",
  "queso/io/io_utilities.cpp queso/io/io_utilities.h queso/io/io_utilities.tpp", [("STL reading and writing", "queso/io/io_utilities.cpp")],
  "Meshes of up to 16 triangles; text is modelled with symbolic numbers rounded to the printed digits." + TRUST),
P("G25", "VTK files are well formed and hold exactly the data",
  "The VTK files of a mesh, of the active cells and of the integration points are well formed in text and binary, hold every corner, cell and point in global coordinates with the right connectivity, cell types and weights. The buffered writer behind them emits every byte once, in order and in the byte order asked for, for every buffer size.",
  "inputs configurations histories", "every arrangement of full, cut and empty cells in a row of a grid, domain anywhere, both encodings; every write sequence of three values and buffer size up to 12",
  "Tests only check that the calls return or compare sizes.",
  "queso/io/io_utilities.cpp queso/io/io_utilities.tpp queso/io/binary_buffer_writer.hpp", [("VTK writing", "queso/io/io_utilities.cpp, io_utilities.tpp"), ("buffer", "queso/io/binary_buffer_writer.hpp")],
  "One grid of six cells; buffer sizes up to 12 (24) bytes." + TRUST),
P("G26", "The model represents the body: cells, points, weights and the reported numbers",
  "Building the model of a closed body activates exactly the cells filled by more than the volume ratio limit, as full or cut cells, once each. The integration points of every active cell represent the body's volume in it, with positive weights at points inside the body; with a fictitious domain, Gauss points outside the body are added with their weight times the factor. The model info reports the resulting numbers of cells, numbers of points, represented volume and geometry. Building everything from files gives the same model as building it from meshes, and writes every requested file.",
  "inputs configurations", "any volume ratio limit and fictitious factor, five bodies at several places, grids, orders and methods",
  "Tests compare totals of a few models with stored numbers; single cells, limits and the reported numbers are not related to the body.",
  "queso/embedded_model.cpp queso/embedded_model.h queso/embedding/element_builders.hpp queso/quadrature/trimmed_element.hpp queso/containers/background_grid.hpp", [("volume", "queso/embedded_model.cpp: ComputeVolume"), ("builders", "queso/embedding/element_builders.hpp"), ("files", "queso/embedded_model.h: CreateAllFromSettings, embedded_model.cpp: WriteModelToFile")],
  "The position of the body is one of up to 24 fixed places per run (moment fitting cannot be followed with a free position); ratio limit and factor are free; orders 1..3." + TRUST),
P("G27", "Boundary conditions are cut into segments that cover the surface within the grid once",
  "Creating a condition cuts its surface into one segment per cell: every segment lies in its cell, keeps the surface's orientation, and all segments together cover the part of the surface within the grid exactly once. A segment has a parent element exactly when its cell is active, and then the right one. The condition reports the area of the surface and the share of it in active cells, and is listed in the model info.",
  "inputs", "five surfaces at any position along an axis against models with full, cut and empty cells",
  "Tests compare the area of large surfaces with one model.",
  "queso/embedded_model.cpp queso/containers/condition.hpp queso/containers/condition_segment.hpp queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/containers/background_grid.hpp", [("conditions", "queso/embedded_model.cpp: ComputeCondition"), ("clipping", "queso/embedding/brep_operator.cpp: ClipTriangleMeshUnique")],
  "One free coordinate; grids of up to 12 cells; surfaces at least 1e-9 away from parallel grid planes." + TRUST),
P("G28", "Results do not depend on the thread schedule: no data races, no deadlocks",
  "Wherever the code runs in several threads (classification of cells, building the elements of the model, conditions, parallel area and volume) no two threads access the same memory without synchronisation unless both only read, threads never block each other for ever, and whatever order the threads pass critical sections, reductions and loop chunks in, classification, cells, points, segments, model info, area and volume are the same, exact ones.",
  "inputs schedules", "every order of threads at synchronisation points (the first decisions of a path free), 2 to 4 threads, bodies and surfaces at any position within the bounds",
  "Tests run one schedule; a lost update or a wrong order shows up rarely and on some machines only.",
  "queso/embedding/flood_fill.cpp queso/embedded_model.cpp queso/containers/background_grid.hpp queso/embedding/element_builders.hpp queso/utilities/mesh_utilities.cpp", [("parallel fill", "queso/embedding/flood_fill.cpp: ClassifyElements, PartitionedFill, GetOffsets, MergeGroups"), ("parallel element and segment building", "queso/embedded_model.cpp: ComputeVolume, ComputeCondition"), ("container", "queso/containers/background_grid.hpp: AddElement"), ("parallel sums", "queso/utilities/mesh_utilities.cpp: AreaOMP, VolumeOMP")],
  "Threads switch at synchronisation points only; that is complete as long as no data race exists, and races are detected between all accesses of the executed IR that the followed synchronisation does not order (vector clocks). The first 2 to 5 decisions of a path are free, later ones fixed; accesses inside libstdc++'s compiled part are not seen. Runs of up to 4 threads on grids of up to 12 (24) cells." + TRUST),
P("G29", "The B-spline volume and the point maps of the Python interface are the grid's linear map",
  "The point maps of the Python interface are the linear maps between the parametric and the global box and each other's inverse. The B-spline volume has elements plus order control points per direction, knots at the element ends (repeated at the ends or continued uniformly), and its control points, numbered first in u, then v, then w, make it exactly the linear map from parametric to global space, for both knot vector types. Other knot vector types and direction indices are refused.",
  "inputs configurations", "any bounds and points, orders 1..4, 1..5 elements, any type string",
  "Tests compare eight volumes with stored numbers and check the map at hardly any point.",
  "queso/python/scripts/helper.py queso/python/scripts/b_spline_volume.py", [("maps", "queso/python/scripts/helper.py"), ("volume", "queso/python/scripts/b_spline_volume.py: _construct_b_spline, ControlPoints, ControlPointsMatrix")],
  "Exact arithmetic instead of floating point; scipy's knot insertion is modelled; bounds in [-1000,1000], extents at least 0.01.", PYT),
P("G30", "Settings files are read exactly, and only the output folder is replaced",
  "Reading a settings file through the Python interface stores every value of the file exactly once, unchanged, in its place (dictionary, list entry), turns the names of integration methods and grid types into their values, skips what is marked as not set and stores nothing else; unknown methods and values the core refuses are reported as errors. Writing passes the given settings and file name on. Starting a run removes and recreates the output folder only if output is asked for, and never removes any other folder, in particular not the working directory or one above it.",
  "inputs configurations", "any keys and values, nested dictionaries, lists of numbers and of dictionaries, any refused value, any folder name",
  "Tests read two fixed files and never an output folder that is dangerous.",
  "queso/python/scripts/json_io.py queso/python/PyQuESo.py", [("reading", "queso/python/scripts/json_io.py"), ("output folder", "queso/python/PyQuESo.py: __init__")],
  "The core module is replaced by a recorder and Python's JSON parser by any parsed tree; up to two entries per level, three levels.", PYT),
]
NA = {}
