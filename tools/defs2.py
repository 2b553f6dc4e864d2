TR="src/triangle/"; PO="src/polygonlization/"; GC="src/graphcut/"; ME="src/mesh/"
P(id="T01", title="Planar triangulation of points is Delaunay and covers the hull",
  statement="Triangulating distinct 2D points without segments yields counter-clockwise triangles that tile the convex hull of the points and use every point as a vertex. No point lies strictly inside the circumcircle of a triangle, and collinear or too few points yield no triangles.",
  quant="every finite set of distinct points: random, lattice, cocircular, collinear, clustered or differing by a few ulps",
  why="Inputs: the test checks that 1000 random points triangulate without crashing; degenerate configurations drive every other branch of the divide-and-conquer merge.",
  files=[TR+"triangle.rs", PR+"predicates.rs"],
  mech=[("divide and conquer with alternating cuts", TR+"triangle.rs alternate_axes, div_conq_recurse, merge_hulls"), ("ghost triangles removed", TR+"triangle.rs mark_ghost")],
  observe=["gpf::triangle::triangulate"],
  technique="property-based testing: exact integer oracle for tiling, hull, vertex use and the empty-circle property on generated point sets",
  note="About 15 s per quick run; exact arithmetic decides every condition, so no tolerance is involved.")
P(id="T02", title="Constrained planar triangulation keeps segments and region",
  statement="Triangulating points with oriented boundary segments returns counter-clockwise triangles that tile exactly the region to the left of the segments, holes and outside removed, and every segment is a union of triangle edges. Away from the segments the triangulation is Delaunay, and outlines that enclose nothing yield no triangles.",
  quant="all non-crossing oriented boundaries with nested holes and islands, touching vertices, points on segments and free points inside or outside",
  why="Inputs: one fixed outline is tested; segment insertion, cavities and inside or outside marking depend on the configuration, in particular on vertices lying on segments.",
  files=[TR+"triangle.rs"],
  mech=[("segment recovery by flips", TR+"triangle.rs form_skeleton, insert_segment, scout_segment"), ("region marking from segment direction", TR+"triangle.rs triangulate")],
  observe=["gpf::triangle::triangulate with segments"],
  technique="property-based testing: exact tiling, boundary and constrained-Delaunay oracle on generated polygonal regions",
  note="About 15 s per quick run; regions of up to a few dozen vertices.")
P(id="T03", title="A planar polygon in space is triangulated faithfully",
  statement="Triangulating a polygon with holes that lies in a plane of space, given a frame of the plane, returns indices of the given points that form triangles tiling the polygon in the orientation of the frame.",
  quant="all polygonal regions embedded by frames whose projection is exact, with any indexing of a larger point list",
  why="Inputs: index maps and frames are exercised by two model files only, which never have unused or repeated indices in the patterns that matter.",
  files=[TR+"triangle.rs"],
  mech=[("projection and local indices", TR+"triangle.rs triangulate_polygon, unique_indices")],
  observe=["gpf::triangle::triangulate_polygon"],
  technique="property-based testing: exact tiling oracle in the plane of the polygon",
  note="About 15 s per quick run.")
P(id="T04", title="A polygon soup is triangulated face by face with correct parents",
  statement="Triangulating a list of faces over one point list returns for every triangle the face it comes from, and the triangles with one parent tile exactly that face. Faces that have collapsed contribute nothing.",
  quant="all lists of planar faces with holes over shared points, including collapsed and empty faces",
  why="Inputs: the tests run two model files and look only at the printed result.",
  files=[TR+"triangle.rs"],
  mech=[("parents per face", TR+"triangle.rs triangulate_polygon_soup")],
  observe=["gpf::triangle::triangulate_polygon_soup"],
  technique="property-based testing: per-face exact tiling oracle over generated face lists",
  note="About 15 s per quick run.")
P(id="T05", title="Tetrahedralization is Delaunay, covers the hull and uses every point",
  statement="The tetrahedra of a set of distinct points are uniformly oriented, fill the convex hull without overlap, use every point and have no point strictly inside a circumsphere. Neighbour links, ghost tetrahedra and the point-to-tetrahedron table are consistent, whatever the insertion order, and coplanar points give no tetrahedra.",
  quant="all sets of distinct points including cospherical, coplanar, collinear and clustered ones, and all random insertion orders",
  why="Inputs and histories: one test runs random points; degenerate predicates, flat starts and large cavities arise only for special sets and insertion orders.",
  over=["inputs", "histories"],
  files=[TR+"tetrahedron.rs", PR+"predicates.rs"],
  mech=[("Bowyer-Watson insertion with symbolic perturbation", TR+"tetrahedron.rs insert_vertex_bw"), ("point location walk", TR+"tetrahedron.rs locate_dt"), ("spatial sorting", TR+"tetrahedron.rs brio_multiscale_sort, hilbert_sort")],
  observe=["gpf::triangle::tetrahedralize: tets, neighbours, p2t"],
  technique="property-based testing: exact big-integer oracle for orientation, hull, overlap, Euler count and empty spheres, with the shuffle seeded by the case",
  note="About 25 s per quick run; the global empty-sphere condition point by point up to 24 points and through adjacent tets above.")
P(id="T06", title="Tetrahedral mesh navigation matches the mesh",
  statement="Every handle operation of the tetrahedral mesh (rotations, symmetric faces, edge neighbours, origin, destination, apex, opposite) reaches the face the mesh itself dictates, for every version of every tetrahedron. The star of a vertex lists exactly the tetrahedra that contain it, and flags used meanwhile are restored.",
  quant="all meshes of distinct points, all walks of handle operations, all histories of flag and star queries",
  why="Histories: lookup tables cover 12 versions and their compositions; no test navigates.",
  over=["inputs", "histories"],
  files=[TR+"tetrahedron.rs"],
  mech=[("version tables", TR+"tetrahedron.rs TriFace and its eprev, enext, esym, fsym, fnext tables"), ("star search", TR+"tetrahedron.rs TetMesh::incident"), ("flag bits", TR+"tetrahedron.rs infect, mark_test")],
  observe=["gpf::triangle::TetMesh and TriFace methods"],
  technique="stateful property-based testing: random walks against a model that navigates by vertex sets",
  note="About 15 s per quick run.")
P(id="G01", title="GraphCut finds the maximum flow and a minimum cut",
  statement="GraphCut returns the value of a maximum flow between source and sink, again when asked again. The sides it reports form a cut whose capacity equals that flow.",
  quant="all networks with non-negative capacities, parallel edges, dead ends and disconnected parts, whatever order edges are added in",
  why="Inputs: one network with a known flow is tested and its sides never are; trees are adopted and orphaned only on networks with the right shape.",
  files=[GC+"mod.rs"],
  mech=[("grow, augment, adopt search trees", GC+"mod.rs GraphCut::max_flow, augment, process_source_orphan, process_sink_orphan")],
  observe=["gpf::graphcut::GraphCut::max_flow, is_sink"],
  technique="property-based testing: differential against a reference maximum flow on integers, plus cut capacity equal to flow",
  note="6M networks per quick run (about 20 s).")
P(id="G02", title="The push-relabel solver reports a minimum cut",
  statement="After finding the maximum flow, the sides reported by the push-relabel solver separate source from sink by a cut of minimum capacity. Arcs assembled by the arc builder are exactly the terminal and neighbour arcs added to it.",
  quant="all networks with non-negative capacities, one-directional and symmetric arcs, zero capacities and disconnected parts",
  why="Inputs: the mesh tests only see its effect on two models; wrong labels or a missed relabelling produce a wrong cut only for certain networks.",
  files=[GC+"push_relabel_fifo.rs"],
  mech=[("FIFO push, relabel, global update and gap", GC+"push_relabel_fifo.rs find_max_flow and helpers"), ("sides", GC+"push_relabel_fifo.rs is_sink"), ("arcs", GC+"push_relabel_fifo.rs ArcBuilder")],
  observe=["gpf::graphcut::{PushRelabelFifo, ArcBuilder}"],
  technique="property-based testing: differential against a reference maximum flow, cut capacity compared on exact integers",
  note="3M networks per quick run (about 15 s).")
P(id="D01", title="Disjoint sets track merges exactly",
  statement="After any history of merges, two elements are in one group exactly if merges connect them. The group count and the listed groups agree with this.",
  quant="all sizes and all histories of merges and queries",
  why="Histories: path compression and ranks make the state depend on every earlier operation; no test exercises it.",
  over=["histories"],
  files=["src/disjoint_set/mod.rs"],
  mech=[("union and find with path compression", "src/disjoint_set/mod.rs")],
  observe=["gpf::disjoint_set::DisjointSet methods"],
  technique="stateful property-based testing: operation histories against a naive partition model",
  note="About 15 s per quick run.")
P(id="M01", title="A surface mesh represents exactly the polygons it was built from",
  statement="A mesh built from polygons has one face per polygon with the same cyclic vertices, one edge per vertex pair used, and the matching counts and iterators, for manifold, boundary and non-manifold input. Every halfedge belongs to its face and edge.",
  quant="all polygon lists: shared edges by any number of faces, unused vertices, any vertex numbering",
  why="Inputs: one non-manifold mesh is built in a test; sibling and vertex lists depend on the incidence pattern.",
  files=[ME+"surface_mesh.rs", ME+"mesh_core_data.rs", ME+"mesh.rs"],
  mech=[("construction from polygons", ME+"surface_mesh.rs SurfaceMesh::new"), ("iterators", ME+"element/")],
  observe=["gpf::mesh::SurfaceMesh construction, counts, faces, edges, vertices"],
  technique="property-based testing: differential against a list-of-loops model",
  note="4M polygon lists per quick run.")
P(id="M02", title="Editing a surface mesh changes exactly what the edit says",
  statement="Splitting an edge inserts one vertex into every face around it, splitting a face between two of its vertices replaces it by two faces joined by a new edge, and adding a face over existing halfedges creates just that face. After any history the faces, edges and counts equal those of the edited polygons.",
  quant="all polygon lists and all histories of edge splits, face splits and added faces",
  why="Histories: each edit rewires several linked lists, and errors surface only after further edits at the same place.",
  over=["inputs", "histories"],
  files=[ME+"surface_mesh.rs", ME+"mesh_core_data.rs"],
  mech=[("edits", ME+"surface_mesh.rs split_edge, split_face, add_face_by_halfedges")],
  observe=["gpf::mesh::SurfaceMesh edits and counts"],
  technique="stateful property-based testing: edit histories against a list-of-loops model",
  note="1.5M histories per quick run.")
P(id="M03", title="Mesh navigation is complete and consistent after every edit",
  statement="At every point of an editing history the circulators around a vertex, edge or face list exactly the incident halfedges, edges, faces and neighbours, each once. Next, previous, twin, sibling and direction queries agree with the faces.",
  quant="all polygon lists, all editing histories, every element at every step",
  why="Histories: a stale link is invisible until a circulator passes over it; no test walks a circulator after an edit.",
  over=["inputs", "histories"],
  files=[ME+"surface_mesh.rs", ME+"mesh.rs", ME+"element/"],
  mech=[("vertex and edge circulators", ME+"surface_mesh.rs he_vert_in_next, he_vert_out_next, he_sibling"), ("iterators", ME+"element/")],
  observe=["gpf::mesh::Mesh queries and element iterators"],
  technique="stateful property-based testing: every query compared with the model after every edit",
  note="400k histories per quick run, every query after every step.")
P(id="N01", title="Vector helpers compute what they name",
  statement="The difference, dot product, cross product and norm helpers return the mathematical result on every component, exactly where floating point represents it.",
  quant="all vectors of the supported lengths with exactly representable results, and general ones within rounding",
  why="Inputs: nothing tests them directly, and a wrong component is invisible on symmetric data.",
  files=["src/math/mod.rs"],
  mech=[("sub, dot, cross, norm", "src/math/mod.rs")],
  observe=["gpf::math functions"],
  technique="property-based testing: differential against exact integer arithmetic",
  note="4M generated vectors per quick run.")
P(id="R01", title="Merging duplicate points respects the tolerance",
  statement="Merging points under a tolerance maps every input point to an output point no farther from it than the tolerance in any coordinate, merges equal points, merges only points within the tolerance of each other, and leaves no two output points equal and none unused. With tolerance zero the points stay as they are.",
  quant="all point lists and tolerances, with clusters closer and farther apart than the tolerance, on both sides of rounding boundaries",
  why="Inputs: the tests only use it through two models; boundaries of the snapping grid and sorting ties need special coordinates.",
  files=[PO+"mod.rs", PR+"mod.rs"],
  mech=[("snapping to a power-of-two grid and sorting", PO+"mod.rs remove_duplicates")],
  observe=["gpf::polygonlization::remove_duplicates"],
  technique="property-based testing: model of the snapping grid over generated clusters",
  note="4M point lists per quick run.")
P(id="P01", title="A closed triangle mesh is reproduced as the same solid",
  statement="Polygonizing the triangles of one closed solid returns a closed mesh that is oriented outward, has no unused points, encloses exactly the solid and has its volume and surface area. Order, numbering, duplicate points and subdivision of the faces make no difference.",
  quant="all closed solids: convex, unions of boxes with holes, T-junctions and touching parts, in any position, with coordinates above the tolerance",
  why="Inputs: three models are run and the result is written to files nobody checks; the partition has branches for every degenerate contact.",
  files=[PO+"mod.rs", PO+"bsp_complex.rs", PO+"conforming_mesh.rs", TR+"tetrahedron.rs", GC+"push_relabel_fifo.rs"],
  mech=[("constraint insertion", PO+"conforming_mesh.rs"), ("exact cell splitting", PO+"bsp_complex.rs split_cell"), ("inside or outside by minimum cut", PO+"bsp_complex.rs complex_partition"), ("merging coplanar faces", PO+"bsp_complex.rs merge_faces")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="property-based testing: generated solids with a known point-membership function; winding number of the result compared at sample points, plus volume, area and exact edge balance",
  note="200k solids per quick run; membership is sampled, volume and area are compared to 1e-6.")
P(id="P02", title="Several closed shells give the union of their solids",
  statement="Polygonizing two or three closed shells returns one closed, outward oriented mesh that encloses a point exactly if some shell does, however the shells intersect, touch, coincide or contain each other.",
  quant="all pairs and triples of closed solids in special and general position",
  why="Inputs: the tests have one pair of models in general position; coplanar, touching and coinciding faces are where the exact splitting is needed.",
  files=[PO+"mod.rs", PO+"bsp_complex.rs", PO+"conforming_mesh.rs", GC+"push_relabel_fifo.rs"],
  mech=[("constraint insertion", PO+"conforming_mesh.rs"), ("splitting by several shells", PO+"bsp_complex.rs split_cell"), ("one cut per shell", PO+"bsp_complex.rs complex_partition"), ("outlines of merged faces", PO+"bsp_complex.rs extract_faces_outlines, merge_colinear_edges")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="property-based testing: union membership of generated solids against the winding number of the result, plus exact edge balance and faces lying on input faces",
  note="45k cases per quick run; thin parts whose closure is cheaper elsewhere are recognised and skipped.")
P(id="P03", title="Any triangle soup yields a well-formed closed mesh",
  statement="Polygonizing arbitrary triangles, however open, crossing, overlapping or degenerate, terminates without a crash. The result is empty or a closed oriented mesh without unused points, within the bounding box of the input, that winds zero or one times around every point.",
  quant="all triangle lists over points whose arrangement has no features at the level of rounding, in any number of shells",
  why="Inputs: the tests contain clean closed models only; arbitrary soups reach every contact between constraint and cell.",
  files=[PO+"mod.rs", PO+"bsp_complex.rs", PO+"conforming_mesh.rs"],
  mech=[("whole pipeline on open input", PO+"mod.rs make_mesh_for_triangles, make_mesh_for_proper_triangles"), ("virtual constraints on open edges", PO+"conforming_mesh.rs place_virtual_constraints")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="property-based testing / fuzzing with structured soups: invariant oracle (edge balance, winding number, box, index validity), crash and hang detection",
  note="80k soups of up to 50 triangles per quick run.")
P(id="P04", title="Solids given by polygon faces are reproduced",
  statement="Polygonizing faces with holes, given by directed boundary edges and a frame each, returns a closed outward mesh enclosing exactly the union of the solids the faces bound, for every tolerance below the features. The order of edges and faces and duplicated points make no difference.",
  quant="one to three solids given by polygon faces with holes and many edges, in any order, with any tolerance below their features",
  why="Inputs: one model file goes through this entry point; holes, shared edges and merged points in faces are not in it.",
  files=[PO+"mod.rs", TR+"triangle.rs", PO+"bsp_complex.rs"],
  mech=[("merging points and dropping collapsed edges", PO+"mod.rs make_polyhedral_mesh"), ("faces to triangles with parents", TR+"triangle.rs triangulate_polygon_soup")],
  observe=["gpf::polygonlization::make_polyhedral_mesh"],
  technique="property-based testing: union membership of the generated solids against the winding number of the result",
  note="80k cases per quick run.")
P(id="P05", title="An opening in a flat face is closed by the face",
  statement="If triangles of one side of a box-shaped solid, of the floor of a notch in it or of the top of a boss on it, or of the base of a steep spire, are missing, wholly or partly, the result is the complete solid: same points enclosed, same volume, same surface area.",
  quant="all boxes with sides within a factor of two, subdivided in any way, also with a notch or boss in the middle of a thick side, and all convex solids on a flat base whose upper faces are all steeper than sixty degrees, alone, beside boxes or as a hole in a block, with any part of one side, floor, top or base missing",
  why="Inputs: no test has an opening; closing it depends on costs over the whole partition and on virtual constraints at the open edges.",
  files=[PO+"bsp_complex.rs", PO+"conforming_mesh.rs", GC+"push_relabel_fifo.rs"],
  mech=[("costs and minimum cut", PO+"bsp_complex.rs complex_partition"), ("virtual constraints", PO+"conforming_mesh.rs place_virtual_constraints")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="property-based testing: the complete solid is the oracle for membership, volume and area",
  note="60k boxes, notched blocks, blocks with a boss and spires per quick run.")
P(id="P06", title="Polygonizing a result again reproduces it",
  statement="Feeding the mesh returned for any input back in returns a closed mesh of the same solid: membership and volume agree up to the snapping tolerance.",
  quant="all results, of soups and of several shells, renumbered or not",
  why="Inputs: tests never feed a result back; the results have the rounded, nearly degenerate coordinates that hand-made inputs lack.",
  files=[PO+"mod.rs", PO+"bsp_complex.rs", PO+"conforming_mesh.rs"],
  mech=[("whole pipeline", PO+"mod.rs make_mesh_for_triangles")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="metamorphic property-based testing: idempotence, compared through winding numbers and volume",
  note="50k inputs per quick run, each polygonized twice.")
P(id="P07", title="A stray triangle does not change the solid",
  statement="Adding one triangle that does not touch the surface, inside or outside the solid, leaves the result unchanged: same points enclosed, same volume, same surface area.",
  quant="all closed solids and all stray triangles clear of the surface",
  why="Inputs: no test has a stray triangle; it cuts cells throughout the partition and must be discarded by the minimum cut.",
  files=[PO+"bsp_complex.rs", PO+"conforming_mesh.rs", GC+"push_relabel_fifo.rs"],
  mech=[("costs and minimum cut", PO+"bsp_complex.rs complex_partition"), ("merging faces back", PO+"bsp_complex.rs merge_faces")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="metamorphic property-based testing: solid with and without the stray triangle",
  note="100k cases per quick run.")
P(id="P08", title="Overlapping convex parts in one shell give their union",
  statement="Two convex solids given in one shell, overlapping, touching or apart, give a closed outward mesh of their union.",
  quant="all pairs of convex solids in special and general position within one shell",
  why="Inputs: no test has self-intersecting input in a shell.",
  files=[PO+"bsp_complex.rs", PO+"conforming_mesh.rs", GC+"push_relabel_fifo.rs"],
  mech=[("splitting and costs within a shell", PO+"bsp_complex.rs split_cell, complex_partition")],
  observe=["gpf::polygonlization::make_mesh_for_triangles"],
  technique="property-based testing: union membership against the winding number of the result",
  note="60k pairs per quick run.")
