"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/compas_cem/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


EQ = ["equilibrium/force.py", "equilibrium/force_numpy.py"]
TOPO = "diagrams/topology/topology.py"

prop("C01", "Every returned form diagram is in static equilibrium",
     "In every form diagram returned by either form-finding engine, at every node the applied load, the axial forces of all incident edges (positive pulling towards the neighbour, negative pushing away) and, at supports, the reaction force sum to zero within the convergence tolerance. Nodes that are not supports carry no reaction, all returned coordinates, forces, lengths and reactions are finite, and the sum of all loads plus all reactions (and of their moments) vanishes.",
     ["inputs", "configurations"],
     "for every valid topology (any number and length of trails, any direct/indirect deviation edges incl. edges at supports and within a trail, any loads, signs, planes, sequence shifts) and both engines, whenever the call returns",
     "tests check final numbers of about five fixed 2D structures; equilibrium must hold for every combination of topology, load, sign, plane and shift",
     EQ + ["diagrams/form.py"],
     [("static_equilibrium / equilibrium_state", EQ[0]), ("static_equilibrium_numpy", EQ[1]), ("direct/indirect deviation edge classification", TOPO)],
     ["FormDiagram node coordinates, loads, reactions, edge forces"])

prop("C02", "The two form-finding engines agree",
     "For the same topology diagram and the same settings, the plain-Python engine and the NumPy engine either both return a form diagram or both refuse, and when they return, node positions, edge forces, signed edge lengths, loads and reaction forces agree up to the convergence tolerance. This includes degenerate inputs: unloaded (zero force) trail edges, coincident end nodes of a deviation edge, and planes that are parallel to, or pass through the start of, a trail edge.",
     ["inputs", "configurations"],
     "for every valid topology and setting accepted by both engines",
     "tests compare both engines with stored numbers on a few fixtures, never with each other on degenerate or indirect-heavy structures",
     EQ,
     [("static_equilibrium", EQ[0]), ("static_equilibrium_numpy", EQ[1]), ("trail_length_from_plane_intersection[_numpy]", EQ[1])],
     ["both FormDiagrams"])

prop("C03", "The form honours everything the user prescribed",
     "In a returned form diagram origin nodes stay at their input positions, loads, supports, connectivity, deviation forces and assigned planes are unchanged, and every force-carrying trail edge has either its prescribed length (negative length giving compression, positive giving tension) or, if a plane is assigned and the trail direction intersects it away from the edge's start node, its end node lies on that plane and the edge state is the one that reaches it; otherwise the prescribed length applies. Every edge's reported length is its true geometric length carrying the sign of its force.",
     ["inputs", "configurations"],
     "for every valid topology, combination of lengths, signs, planes, forces and loads, and both engines",
     "tests use planes on one straight chain and uniform signs; the fallback, sign-flip and mixed combinations are not sampled",
     EQ + ["elements/trail.py", "elements/deviation.py", "diagrams/form.py"],
     [("plane/length handling in equilibrium_state", EQ[0]), ("form_update", EQ[0]), ("FormDiagram.from_topology_diagram", "diagrams/form.py")],
     ["FormDiagram attributes vs TopologyDiagram attributes"])

prop("C04", "Form finding never returns an unconverged form",
     "With an iteration budget of at least two, form finding returns only if the sum over all nodes of the position change in the last performed iteration is not larger than the threshold, and raises ValueError otherwise. It stops at the first iteration that meets the threshold, so raising the budget beyond the first sufficient one changes nothing, every smaller budget of at least two is refused, and a structure whose iteration contracts is never refused given enough iterations; a budget of one returns the single-sweep form without a convergence verdict, with or without logging. Without settings the budget is 100 and the threshold 1e-6.",
     ["inputs", "configurations"],
     "for every valid topology with indirect deviation edges (contracting, slowly contracting and oscillating), every budget 1..T and thresholds from coarse to tight, both engines",
     "tests have one or two indirect structures at default budget; the threshold/budget boundary is never exercised",
     EQ, [("iteration loop and convergence check", EQ[0]), ("iteration loop and convergence check", EQ[1])],
     ["return vs ValueError; FormDiagram positions"])

prop("C05", "Form finding is pure, repeatable and leaves the topology untouched",
     "Calling a form-finding engine, whether it returns or raises, leaves the topology diagram exactly as it was, and the returned form shares no mutable state with it: changing one afterwards never changes the other. Repeating the call, interleaving it with calls on other diagrams or with the other engine, switching logging on, or passing a callback gives bit-identical results.",
     ["histories", "inputs"],
     "for every sequence of engine calls, edits and reads over one or two diagrams up to the explored depth",
     "unit tests run every engine once on a fresh fixture, so state leaking between calls or diagrams is invisible",
     EQ + ["diagrams/form.py", "diagrams/diagram.py"],
     [("local state containers", EQ[0]), ("FormDiagram.from_topology_diagram copy", "diagrams/form.py")],
     ["TopologyDiagram data before/after, FormDiagram data"])

prop("C06", "Trail building partitions the diagram or rejects it",
     "Building trails without auxiliary trails succeeds exactly when the trail edges form disjoint simple paths that cover every node, each path having exactly one support, at one of its ends; then the trails are exactly those paths ordered from origin to support and keyed by origin, origins and only origins are marked as such, supports stay supports, and each node's sequence is its position in its trail. Any other diagram (no supports, no trail edges, uncovered nodes, a support without trail edge, several supports on one path, branching, sharing or cyclic trails) is rejected with an exception and its previously stored trails, node types and sequences are left as they were; form finding and queries of node sequences refuse a diagram that has no trails.",
     ["configurations", "inputs"],
     "for every graph with trail and deviation edges in any orientation, every support assignment, up to the bound",
     "tests cover seven fixed diagrams, three of them invalid; whether other malformed diagrams are silently mis-trailed is not sampled",
     [TOPO], [("build_trails", TOPO)], ["trails(), origin_nodes(), support_nodes(), node_sequence()"])

prop("C07", "Rebuilding trails after any edit equals building from scratch",
     "After any sequence of edits (adding nodes, edges, supports or loads, shifting trails, failed or successful earlier builds), building trails gives the same trails, origins, supports, sequences and subsequent equilibrium form as building once on a fresh diagram with the same final content. Nothing from earlier builds, such as stale origins, sequences or shifts, survives.",
     ["histories"],
     "for every interleaving of edit and build operations up to the explored depth",
     "every test builds trails once on a finished diagram",
     [TOPO], [("build_trails recalculation", TOPO), ("shift_trail", TOPO)], ["trails(), origin_nodes(), node_sequence(), FormDiagram"])

prop("C08", "Auxiliary trails complete a diagram and nothing else",
     "Building with auxiliary trails gives every node not on a regular trail exactly one two-node auxiliary trail ending in a new support, offset from it along the configured auxiliary direction by the configured auxiliary length; all existing nodes, edges, loads, supports and regular trails are unchanged and form finding then accepts the diagram. The diagram reports as auxiliary exactly these trails and their edges, also after building again, and a diagram without uncovered nodes gains nothing.",
     ["configurations", "histories"],
     "for every diagram with uncovered nodes up to the bound, every auxiliary length and direction in the alphabet, and every repetition of builds",
     "one fixture with default length and direction, built once",
     [TOPO, "diagrams/mixins/node_mixins.py"], [("build_trails(auxiliary_trails=True)", TOPO), ("is_auxiliary_trail_edge", TOPO)],
     ["auxiliary_trails(), auxiliary_trail_edges(), nodes, edges, coordinates"])

prop("C09", "Sequences, trail shifts and deviation classes stay consistent",
     "After any history of trail shifts, each trail occupies consecutive sequences starting at the last requested one while all other trails are unaffected, and the sequence listing partitions all nodes by sequence. A deviation edge is direct exactly when its end nodes share a sequence and indirect otherwise, trail edges are neither, and all counters, per-node incident-edge queries and trail/sequence mappings agree with the listings; shifting a node that is not an origin is refused.",
     ["histories", "configurations"],
     "for every sequence of shifts over all trails up to the explored depth on every layout",
     "tests shift one trail once or read static fixtures",
     [TOPO], [("shift_trail", TOPO), ("is_direct_deviation_edge / edge_sequence", TOPO)],
     ["node_sequence, sequences, direct/indirect edges, counters, trails_sequences"])

prop("C10", "Results do not depend on how the diagram was written down",
     "Two topology diagrams that describe the same structure give the same trails and the same equilibrium form up to the renaming, whatever the node keys, the order in which nodes, edges, supports and loads are added, the orientation of each edge, and whether elements are referenced by key or by coordinates.",
     ["inputs", "histories"],
     "for every permutation of insertions, orientation of edges, key assignment and referencing mode in the bounds, both engines",
     "every fixture uses ascending contiguous keys and one insertion order",
     EQ + [TOPO, "diagrams/mixins/edge_mixins.py", "diagrams/mixins/node_mixins.py"],
     [("edge key correction in the engines", EQ[0]), ("build_trails traversal", TOPO), ("incoming edge vectors", EQ[1])],
     ["FormDiagram modulo renaming"])

prop("C11", "Coordinates identify nodes across every edit history",
     "At any point of a history of adding nodes, moving them (changing their coordinates or adding their key again elsewhere), deleting them and adding edges, looking up a position (within the diagram's rounding tolerance) yields the node most recently placed there if it is still there, otherwise some node that is, and yields nothing where no node is; this also holds in returned form diagrams and in the topology after an optimization. Adding an edge by positions reuses exactly those nodes and creates the missing ones, assigning a support or load by position affects exactly that node, a support or load at an empty position or unknown key is refused without changing anything, and an edge given by unknown keys likewise.",
     ["histories"],
     "for every sequence of add/move/delete/add-edge/add-support/add-load operations by key or position over a small set of positions (including near-coincident ones), up to the explored depth",
     "tests never move or delete a node and use one position per node",
     ["diagrams/mixins/node_mixins.py", "diagrams/mixins/edge_mixins.py", "diagrams/diagram.py", TOPO],
     [("gkey_node map", "diagrams/diagram.py"), ("add_node/update_node_xyz/node_key", "diagrams/mixins/node_mixins.py"), ("add_edge", "diagrams/mixins/edge_mixins.py")],
     ["node_key, node_exists, node_xyz, edges, support_nodes, node_load"])

prop("C12", "Diagrams survive copying and serialisation",
     "Copying a topology or form diagram, or writing it to JSON (string or file) and reading it back, at any stage of its life yields a diagram that answers every query identically (nodes, edges, attributes, trails by key, auxiliary trails, sequences, coordinate lookup), accepts the same further operations with the same results, and gives the same equilibrium form. The copy is independent: editing either one never changes the other.",
     ["histories", "inputs"],
     "for every diagram reachable by the explored build histories, and every operation applied after the round trip",
     "no test serialises or copies a diagram",
     ["diagrams/diagram.py", TOPO, "diagrams/form.py", "data/data.py"],
     [("Data interface inherited from COMPAS", "data/data.py"), ("diagram attributes", TOPO)],
     ["all public queries before and after the round trip"])

prop("C13", "Parameters and constraints survive copying and serialisation",
     "Every optimization parameter and constraint, for every kind, key, bound (absent, zero, negative, positive) and weight, keeps its key, bounds, target and weight, and hence its start value, bounds, target and penalty, through copying and through JSON data. The restored object is of the same class and independent of the original.",
     ["inputs", "programs"],
     "for every parameter and constraint class over the alphabet of keys, bounds, targets and weights and every round-trip route",
     "no test touches parameters or constraints",
     ["optimization/parameters/edge.py", "optimization/parameters/node.py", "optimization/parameters/parameter.py", "optimization/constraints/constraint.py"],
     [("data getters/setters", "optimization/constraints/constraint.py"), ("data getters/setters", "optimization/parameters/edge.py")],
     ["key(), bound_low/up, start_value, penalty, repr"])

prop("C14", "Optimization results are mutually consistent",
     "Whatever points the numerical solver tries, in whatever order, and however it stops (converged, budget exhausted, roundoff), after solving, the returned form is the equilibrium form of the topology with its parameters at the reported optimum, the topology holds those parameter values, the reported penalty is the weighted sum of all constraint penalties of that form and the reported gradient belongs to that point; the reported status and number of evaluations are the solver's. Only parametrised attributes of the topology change, and a solve that fails with a runtime error reports no optimum of an earlier solve.",
     ["schedules", "histories", "fault_sequences"],
     "for every sequence of trial points and every stop of the solver up to the explored length, and for all real solver algorithms and iteration budgets",
     "no test runs the optimizer; the last point a solver evaluates usually equals the best, hiding mismatches",
     ["optimization/optimizer.py", "optimization/proxy.py", "optimization/nlopt.py", "optimization/objective_func.py"],
     [("Optimizer.solve", "optimization/optimizer.py"), ("solve_proxy", "optimization/proxy.py")],
     ["returned FormDiagram, Optimizer.x_opt/penalty/gradient/status, TopologyDiagram"])

prop("C15", "Optimizer bookkeeping and bounds follow every add/remove history",
     "After any history of adding and removing parameters and constraints, the optimization problem is exactly that of a fresh optimizer holding the surviving ones in order: same start vector, same bounds (start value minus/plus the absolute bound, unbounded when absent), same objective. Removing an unknown key raises KeyError and changes nothing, an empty problem and an unknown algorithm or gradient method are refused without touching the diagram, the solver is given the requested algorithm, iteration budget and thresholds (by default SLSQP with automatic differentiation, 100 iterations, 1e-6 and 1e-8, and form finding with 100 iterations and 1e-6), and real solves keep every parameter within its bounds and, unless stopped by roundoff, never end worse than they started.",
     ["histories", "inputs"],
     "for every add/remove sequence over parameter and constraint alphabets up to the explored depth, and all supported algorithms",
     "no test runs the optimizer or removes anything",
     ["optimization/optimizer.py", "optimization/parameters/parameter.py", "optimization/nlopt.py"],
     [("add/remove_parameter, optimization_parameters, optimization_bounds", "optimization/optimizer.py"), ("bound_low/bound_up", "optimization/parameters/parameter.py")],
     ["start vector and bounds received by the solver; x_opt; KeyError/ValueError"])

prop("C16", "Objective gradients are the true derivatives",
     "At every point where the objective is differentiable, the gradient handed to the solver and reported afterwards equals the derivative of the objective with respect to each parameter, in parameter order, for automatic differentiation exactly and for finite differences up to the step size; where some trail edge carries no force it is still finite. It holds for every kind of parameter (trail length, deviation force, origin coordinate, load component) and constraint, with direct and indirect deviation edges and planes.",
     ["inputs", "configurations"],
     "for every parameter kind x constraint kind x structure x evaluation point of the alphabet",
     "no test evaluates a gradient",
     ["optimization/optimizer.py", "optimization/grad.py", "optimization/objective_func.py", "equilibrium/force_numpy.py"],
     [("grad_autograd / grad_finite_differences", "optimization/grad.py"), ("differentiable engine", "equilibrium/force_numpy.py")],
     ["gradient array filled for the solver; Optimizer.gradient, gradient_norm"])

prop("C17", "Constraint penalties measure squared distance to their target",
     "For every equilibrium state, each constraint's penalty is its weight times the squared distance between the constrained quantity and its target: a node to a point, infinite line, plane or polyline (closest point), an edge's unit direction to the nearer of the two target orientations, a deviation edge's length, a trail edge's signed force or a support's reaction vector to the given value. Penalties are zero exactly on target, never negative, and add up over constraints.",
     ["inputs", "configurations"],
     "for every constraint kind, target and weight of the alphabet and every explored form",
     "no test touches constraints",
     ["optimization/constraints/constraint.py", "optimization/constraints/polyline.py", "optimization/constraints/direction.py", "optimization/constraints/force.py", "optimization/constraints/length.py", "optimization/constraints/line.py", "optimization/constraints/plane.py", "optimization/constraints/point.py"],
     [("penalty/reference/target", "optimization/constraints/constraint.py")], ["objective value seen by the solver, Optimizer.penalty"])

prop("C18", "Partial equilibrium stops exactly at the requested sequence",
     "With a last sequence requested, nodes up to that sequence are in equilibrium, the unbalanced force at the cut being reported as the reaction of the nodes on it, while nodes beyond it keep their input positions and trail edges beyond it carry no force. A value at or beyond the diagram's last sequence is the same as none, and a negative value is refused.",
     ["inputs", "configurations"],
     "for every layout, shift combination and value from 0 to beyond the last sequence",
     "no test passes the argument",
     ["equilibrium/force.py"], [("kmax handling in equilibrium_state", EQ[0])], ["FormDiagram positions, reactions, trail forces"])

prop("C19", "Form finding respects rotation, translation and scaling",
     "Rotating or translating all inputs (positions, loads, planes) rotates or translates the form and leaves all forces and lengths unchanged; multiplying loads and deviation forces by a positive factor multiplies all forces and reactions and leaves the geometry unchanged; multiplying positions, trail lengths and planes by a positive factor scales the geometry and leaves forces unchanged.",
     ["inputs", "configurations"],
     "for all 24 axis rotations, translations and scale factors of the alphabet, over the explored structures, both engines",
     "all fixtures are axis aligned in one plane with unit-size data",
     EQ, [("vector algebra of both engines", EQ[0])], ["FormDiagram"])

prop("C20", "Mesh import maps every mesh edge to the right element",
     "Creating a topology diagram from a quad mesh keeps every vertex as a node with its key and position and marks exactly the given supports. Edges of polyedges with no supported end (or closed) become deviation edges, edges of polyedges with one supported end become trail edges, a polyedge of at least four nodes supported at both ends is split into two trails by one central deviation edge, and polyedges consisting of supports are left out; each deviation force and trail length has the requested magnitude and sign, and without a requested length trail edges have their mesh edge length.",
     ["inputs", "configurations"],
     "for every grid size, polyedge direction and support subset, lengths, forces and states of the alphabet",
     "no test imports a mesh",
     ["diagrams/topology/mesh_mixins.py"], [("from_dualquadmesh", "diagrams/topology/mesh_mixins.py")], ["TopologyDiagram nodes, edges, attributes"])

prop("C21", "Queries and counters report exactly what was put in",
     "After any history of adding, re-adding and deleting nodes, edges, loads and supports and of building trails, the listings, predicates and counters of a diagram (nodes, edges, trail and deviation edges, supported edges, loaded nodes above a minimum magnitude, supports, origins, trails, sequences, their numbers) all describe one and the same content: exactly the elements that are in the diagram, each once and with the values last given to it (forces of trail edges, lengths of deviation edges and reactions being zero before form finding); a counter equals the length of the corresponding listing, a predicate agrees with membership in it, and adding an element of one kind does not alter elements of another. Form diagrams answer the shared queries in the same way.",
     ["histories", "inputs"],
     "for every edit history up to the depth bound over the operation alphabet, from empty and built diagrams",
     "the tests query a handful of diagrams right after construction",
     ["diagrams/topology/topology.py", "diagrams/mixins/*", "diagrams/form.py"],
     [("loaded_nodes", "diagrams/mixins/node_mixins.py"), ("trail_edges", "diagrams/topology/topology.py"), ("is_edge_supported", "diagrams/mixins/edge_mixins.py")], ["all iterators, predicates and number_of_* methods of TopologyDiagram and FormDiagram"])

prop("C22", "Drawings show exactly what a diagram holds",
     "What an artist draws of a form or topology diagram is what the diagram holds: one mark per selected node at its position and one line per selected edge between its ends, nothing for an empty selection and everything when none is given; supports, origins, edge types and tension or compression get their documented colours; edge widths given as a range grow linearly with the absolute force; loads and reactions of at least the tolerance appear as arrows that touch their node and equal the scaled force vector, smaller ones do not appear; labels show the requested quantity (key, index, position, force, length, type, state, sequence or a given text) of the node or edge they stand on; switches turn on and off only what they name. This holds for the plotter, the Grasshopper artists and the viewer objects, and drawing does not change the diagram.",
     ["inputs", "configurations"],
     "for every structure of the bounded family, diagram kind and combination of drawing options up to the bound",
     "no test draws anything",
     ["plotters/formartist.py", "plotters/topologyartist.py", "ghpython/artists.py", "viewers/*"],
     [("draw_reactions", "plotters/formartist.py"), ("_draw_forces", "ghpython/artists.py"), ("_force_vectors", "viewers/diagramobject.py")], ["matplotlib scene", "points, lines and polylines handed to Grasshopper", "objects handed to compas_view2"])

prop("C23", "Grasshopper components do what the library does and leave their inputs alone",
     "Each Grasshopper component yields what the corresponding library call yields for the same values: edges, loads, supports, constraints and parameters hold the given geometry, key and numbers (zero is a value, not a missing input; a missing weight is 1); the assembled topology diagram holds exactly the listed elements, ignoring empty entries, with its trails built; form finding and constrained form finding use the given settings and the documented defaults (tmax 100, eta 1e-6, SLSQP, 100 iterations, eps 1e-6, kappa 1e-8) and return the library's result; listings, searches, file export and import and drawings return the data of the diagram for the given selection. Diagrams given as input are never changed: shifting trails, moving origins and optimizing work on copies. Incomplete input yields nothing. A shared proxy is used while one is running and left running; otherwise a temporary one is started and stopped.",
     ["inputs", "histories", "configurations"],
     "for every input combination, assembly, selection and sequence of proxy and solve runs within the bounds",
     "no test runs a component",
     ["ghpython/components/*", "optimization/proxy.py"],
     [("RunScript", "ghpython/components/CompasCem_ConstrainedFormFinding/code.py"), ("RunScript", "ghpython/components/CompasCem_TrailsShift/code.py"), ("solve_proxy", "optimization/proxy.py")], ["component outputs", "input diagrams", "proxies started, called and stopped"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
