"""Writes DESIGN.md from design.src.md, the table below, known_findings.json and seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (explored, oracle, bounds, cost)
D = {
    "C01": ("Every structure within the departure bound of the base structures, built through the public API and solved by both engines with tight and loose thresholds and small budgets.",
            "Nodal balance (load + axial forces + reaction), absence of reactions away from supports, finiteness, global force and moment balance, recomputed from the returned form only.",
            "2 departures on layouts (1),(2),(3),(1,1),(2,1),(2,2), 1 on five larger ones, 0 or 1 on the large list; thorough one deeper (three on the smallest).", "30 s"),
    "C02": ("The same structures plus axis-aligned degenerate ones (zero forces, coincident nodes, planes parallel or through the start).",
            "Differential: both engines return or both refuse, and agree; mc/ref.py decides whether the case is well conditioned.",
            "as C01, up to 3 departures on the smallest.", "30 s"),
    "C03": ("The same structures with lengths, signs and planes varied.",
            "The returned form against every prescribed quantity; planes: the end node lies on the plane if the direction found intersects it, and the prescribed length applies otherwise.",
            "as C02.", "30 s"),
    "C04": ("(structure, budget, threshold, engine): structures with one or two deviation edges in every position and with every force of an alphabet that contains contracting, slow and oscillating iterations; budgets 1..12, 17, 25, 100, 400; five thresholds.",
            "Model: reference iteration under every processing order of the trails gives the displacement of each iteration, hence the verdict and the iteration at which to stop; the implementation's verdict and positions must match one of the orders for all budgets at once.",
            "646 structures x 80 settings x 2 engines quick.", "30 s"),
    "C05": ("All histories of engine calls (both engines, logging, callback, small budgets, failing settings) and edits over two live diagrams.",
            "Each result bit-identical with the same call made first in a freshly forked process on fresh content; each diagram equal to its content; forms and topologies share no mutable state.",
            "23 operations, length 3 (thorough 4).", "20 s"),
    "C06": ("All edge-labelled graphs (no edge / trail edge in either orientation / deviation edge) x all support sets; valid diagrams edited and built again; trail graphs on 6 nodes up to isomorphism; long paths, cycles, tadpoles and branches.",
            "mc/graphs.py decides from the graph whether it is a valid partition and which trails it has; rejected diagrams must stay as they were.",
            "exhaustive to 4 nodes, trail graphs to 6, shapes to 12 (thorough 20).", "35 s"),
    "C07": ("All histories of edits, builds, shifts and engine calls that end with a build.",
            "A fresh diagram that receives only the edits and is built once; compared in every query and in the form.",
            "18 operations to length 4, 8 structural ones to length 6 (thorough 5 and 8).", "12 s"),
    "C08": ("Diagrams with regular trails and uncovered nodes x auxiliary settings x histories of builds, edits and changes of settings; uncovered nodes that lie exactly where an auxiliary support goes.",
            "Content model: one new support and trail edge per uncovered node with the length and direction configured at that build, all else unchanged, and form finding accepts the result.",
            "3 uncovered nodes, histories to 5 operations.", "40 s"),
    "C09": ("All histories of shifts (starts 0,1,2,5, up to 300 on large layouts), rebuilds and refused shifts.",
            "Abstract model trail -> start in lockstep; every listing, counter and per-node query derived from it.",
            "length 3 on 6 layouts (thorough 4), 1-2 on large ones.", "6 s"),
    "C10": ("All presentations of a structure: node orders, edge orders, orientations, key assignments, support and load orders, reference by key or by position.",
            "Trails and forms of all presentations equal those of the standard one modulo renaming, both engines.",
            "full products on small structures; rotations, reflections and single changes on large ones.", "7 s"),
    "C11": ("All histories of adding, moving, replacing and deleting nodes, adding edges by position or key, supports and loads by position or key, failing operations; near-coincident positions and two tolerances; lookups in forms and after optimizations.",
            "Placement model (latest live placement per rounding cell), compared at the end of every history, each prefix being a history.",
            "53 operations to length 3, 19 to 4, 9 to 5 (thorough one more).", "16 s"),
    "C12": ("Start diagrams x build histories x 8 copy/JSON routes x follow-up operations; forms of both engines.",
            "Every query of the copy against the original; each follow-up on both gives the same outcome; on one only, the other stays.",
            "histories to length 2 (3 in `deep`), 17 follow-ups.", "50 s"),
    "C13": ("Parameter and constraint classes x keys x bounds/targets (COMPAS geometry and plain lists) x weights x routes, also two routes in a row.",
            "Behaviour before and after: key, bounds, start value on a diagram, penalty on a form, class, independence.",
            "complete product of the alphabets.", "50 s"),
    "C14": ("The solver as an adversary: mc/opt.py replaces NLopt by every machine that evaluates a sequence of points (with or without gradient) and ends by returning any tried point with any code, RoundoffLimited, RuntimeError or ForcedStop; several solves in a row; plus all real algorithms x budgets x gradient methods, and solve_proxy.",
            "Re-evaluation at x_opt on a fresh diagram: form, topology, penalty, gradient and untouched attributes; failed solves report nothing stale.",
            "2-3 trial points out of 3, two and three solves in a row.", "60 s"),
    "C15": ("All histories of adding and removing parameters and constraints and of solving; all bound pairs of an alphabet; ordered selections of parameters; all algorithms x budgets x thresholds; real solves.",
            "What reaches the solver (start, bounds, objective values, settings) against a fresh optimizer and the bound arithmetic; real solves stay in bounds and do not end worse.",
            "depth 4 from empty, 3 from filled (thorough +1).", "40 s"),
    "C16": ("Structure x constraint x parameter order x gradient method x evaluation point, all parameters at once and one at a time.",
            "Richardson-extrapolated central differences of the real objective at the solver boundary; kinks screened by two step sizes.",
            "2 points quick, 4 thorough.", "80 s"),
    "C17": ("Structure x constraint x key x target (also exactly on target) x weight; pairs and triples.",
            "mc/pen.py: independent closest-point computations on the independently recomputed form.",
            "complete product of the alphabets.", "60 s"),
    "C18": ("Structures within the departure bound x last sequence from none over 0 to two beyond the last, and negative.",
            "Reference cut model: equilibrium up to the cut with the unbalanced force as reaction, input positions and no trail forces beyond, equality with 'none' at or beyond the last.",
            "2 departures on small layouts.", "26 s"),
    "C19": ("Structures x all 23 non-trivial axis rotations, 3 oblique ones, translations, load factors, length factors x engines.",
            "Form of the transformed input against the transformed form.",
            "831 structures x 42 transformations x 2 engines.", "25 s"),
    "C20": ("Grids, rings, strips and tubes x all support subsets (of the boundary for the larger) x vertex keys, polyedge orders and orientations x all settings.",
            "Element-mapping model from the polyedges.",
            "6x2 / 4x4 quick, 7x2 / 5x3 thorough, strips to 14 (30) rows.", "10 s"),
    "C21": ("All histories of adding, replacing and deleting nodes, edges, loads and supports, and of builds, from empty, plain, built and re-typed diagrams.",
            "Content model in lockstep; every iterator, predicate and counter after every history.",
            "21-28 operations to length 3-4 quick, 4-6 thorough.", "27 s (290 s)"),
    "C22": ("Structures x combinations of drawing options; plotter (real matplotlib), Grasshopper artists and viewer objects (stand-ins).",
            "The scene read back and matched element by element with the diagram: positions, colours, widths, arrows, labels, selections, switches; the diagram is unchanged.",
            "1-2 option departures quick, 2-3 thorough.", "10 s (30 s)"),
    "C23": ("All inputs of all components over alphabets with nothing, zero and values; assemblies of structures with holes and permuted lists; edits; listings; searches; files; all sequences of proxy and solve runs.",
            "The library call for the same values, a content model, and input diagrams observed before and after; proxy life-cycle model.",
            "1 departure and length 4 quick, 2 departures and length 5 thorough.", "14 s (36 s)"),
}
MISSED = [
    "C01, C04, C09, C19: changes with a size or magnitude threshold led to the list of larger structures, to load and geometry factors (`mag`) and to large shifts.",
    "C05: changes that show only in a second call with other settings led to more call variants (logging, callback, small budgets, failing settings) in the alphabet.",
    "C06, C07: changes that act only on a diagram that was built before led to the spaces `again` and `core`.",
    "C08: an auxiliary support that coincides with an existing node led to the space `coincident`.",
    "C11, C14: lookups after failed or successful optimizations and lookups at near-coincident positions were added.",
    "C13, C15: zero and negative bounds, zero weights and repeated round trips were added to the alphabets.",
    "C22: a drawing that changes the diagram led to observing the diagram before and after.",
    "C01-C04, C09, C10, C12, C14, C15: changes that act on more elements than the small structures have (a node with ten deviation edges, trail number eleven, parameter number nine, constraint number eight, sequences above 256 on two trails) led to the bases `fan` and the spaces `many`, `wide`, `shifts-far`.",
    "C02, C03: planes all but parallel to the trail, trail edges of no length and forces of 1e-11 were added to the alphabets.",
    "C04: movements counted for some nodes only or with another norm led to thresholds a ten-thousandth below and above the movements that occur, and to structures of which only a few, late nodes move.",
    "C07, C08: stale trails after edits that keep all counts, and auxiliary trails undone by deletions or real edges, led to the spaces `many` and `undone`.",
    "C21, C22, C23: nodes with many edges, tolerances met exactly, partial forms, short edges, faint loads and combinations of a minimum force and a scale were added.",
    "C01-C03: changes that act only after ten sweeps, or only with a callback, led to the structures `hub` (tens of sweeps, many ties at one node) and to runs with logging and a callback.",
    "C09, C13, C15, C18, C20, C21: shifts by one step at a distance, long and negative targets, every algorithm with every number of parameters, small budgets together with a last sequence, short trail lengths, and everything given by position in either direction were added.",
]


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    out = []
    for p in props:
        e, o, b, c = D[p["id"]]
        out.append("### {} {}\n\n* *Explored:* {}\n* *Oracle:* {}\n* *Bounds:* {} *Cost:* {}.\n* *Beyond the tests:* {}.\n".format(p["id"], p["title"], e, o, b, c, p["why_tests_cant"]))
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    fixes = "\n".join("* " + f.replace("fixed: property=", "") for f in kf["fixed"])
    rows = ["| id | caught by | needs | breaks |", "|---|---|---|---|"]
    metas = sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
    for m in metas:
        d = json.load(open(m))
        rows.append("| {} | {} | {} | {} |".format(os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
    s = open(os.path.join(HERE, "tools", "design.src.md")).read()
    for k, v in (("PROPS", "\n".join(out)), ("FIXES", fixes), ("SEEDED", "\n".join(rows)), ("NSEED", str(len(metas))), ("MISSED", "\n".join("* " + m for m in MISSED))):
        s = s.replace("{" + k + "}", v)
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(s)


main()
