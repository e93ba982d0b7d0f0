"""Manifest texts of the checks registered after the first milestone."""
MC = "TLA+ design model checked by TLC; recorded executions of the real code validated by TLC against the specification"
TV = "recorded executions of the real code validated by TLC against an exact TLA+ specification"
INFO = {
    "C04": (MC, "Polygon lists are enumerated for small vertex counts and sampled above; the exported connectivity is compared with the abstract mesh the specification builds from the polygons."),
    "C05": (MC, "Edit histories are generated and replayed on the three mesh types; after every edit TLC compares the whole exported structure with the abstract mesh. Histories are bounded in length."),
    "C06": (MC, "Every traversal started from every element of every recorded mesh state is compared with the incidence TLC computes from the abstract mesh."),
    "C11": (TV, "Exact classification in integers over small and large grids with deliberate degeneracy; sampled."),
    "C12": (TV, "Expansions are read as big integers and every operation's result is compared in exact big-integer arithmetic; sampled operands including overlapping, cancelling and zero components."),
    "C13": (TV, "Interval operations against exact big-integer arithmetic over operands with rounding; sampled."),
    "C14": (MC + "; all sets of points of a lattice replayed", "The merge step is exhaustive over all small lattice sets and all orders of cutting; the same sets and sampled larger, cocircular, collinear and nearly degenerate ones are judged exactly by TLC on the code's output."),
    "C15": (MC + "; all simple polygons on small point sets replayed", "Segment insertion is exhaustive over every polygon on small point sets, every order of the segments and every place the search may start; those polygons are replayed into the code, larger and degenerate regions are sampled."),
    "C27": (MC + "; all simple polygons on small point sets replayed", "As C15, with the constrained Delaunay property of every edge as invariant of the model and clause of the trace."),
    "C16": (TV, "As C14 per polygon in space; inputs sampled over planes of many orientations."),
    "C26": (MC, "Order independence is proved of the algorithm for small degenerate point sets (every insertion order) and checked of the code by comparing repeated calls, each of which draws its own order; inputs sampled."),
    "C17": (MC, "Structure, orientation, convexity and local Delaunay decided exactly by TLC on recorded tetrahedralizations, including more than 1000 points; inputs sampled."),
    "C18": (TV, "Navigation maps and stars of every recorded tetrahedralization are compared with the incidence computed from the tetrahedra."),
    "C19": (MC, "Design model of the grouping exhaustive in small scope; recorded runs compared with the rounding classes computed by TLC; inputs sampled."),
    "C20": (TV, "Index-level balance, exactness on the lattice and winding numbers of recorded outputs decided by TLC; shells are sampled from lattice regions, convex hulls and shells on a common face."),
    "C21": (MC, "The union is computed by TLC from the input shells as winding numbers at one probe per cell of the plane arrangement (all lattice cells where the input is a lattice region) and compared with the output, with area and volume where exact."),
    "C22": (MC, "As C20, and as C21 for the complete shells; what may be added where shells are open is bounded by the rules TLC proves of the labelling model (cost of the closing surface), evaluated on the recorded outputs, and by the box of the input."),
    "C23": (TV, "As C20 and C21 with the faces joined to polygons with holes, repeated and jittered points, any plane axes."),
    "C24": (TV, "Winding numbers at mapped probes compared between presentations of one input."),
    "C28": (TV, "Every pass over a sampled input is judged as in C20, and its winding numbers at the probes are compared with the first pass."),
    "C25": (TV, "Projection axes compared with exact normals in integers; sampled with near ties."),
}
