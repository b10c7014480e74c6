"""Writes MANIFEST.json from the table below and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("explicit exploration of the real engines over all structures within a departure bound; nodal/global balance monitor", "Every structure reachable from the base structures by a bounded number of departures is built and solved by both real engines; equilibrium is recomputed from the returned form by independent vector algebra."),
    "C02": ("exhaustive differential exploration of both real engines on every structure in the bound", "Both engines run on every structure of the bound incl. degenerate ones; a reference iteration screens out cases at numerical discontinuities."),
    "C03": ("explicit exploration of the real engines; returned forms compared with every prescribed quantity", "Every length/sign/plane/force/load combination within the departure bound."),
    "C04": ("exhaustive exploration of (structure, iteration budget, threshold); reference iteration model replayed against the engines", "Model: reference iteration; conformance: verdict and positions of the implementation for every budget 1..T and threshold. Cases within 1% of the threshold are skipped."),
    "C05": ("stateless exploration of all histories of engine calls and edits over two live diagrams", "Oracle: the same call in a freshly forked process on fresh content; bit-exact."),
    "C06": ("explicit enumeration of all small edge-labelled graphs and support sets; trail-partition model replayed on the real code", "Exhaustive up to 4 nodes (5 in parts); small-scope hypothesis beyond."),
    "C07": ("exhaustive exploration of all edit/build histories up to a depth on the real diagram", "Oracle: fresh diagram with the same final content, built once."),
    "C08": ("exhaustive exploration of diagrams with uncovered nodes and of auxiliary build histories", "Model of the expected completion compared with the real diagram after every build."),
    "C09": ("exhaustive exploration of all trail-shift histories up to a depth", "Abstract model (trail -> start) replayed in lockstep with the real diagram."),
    "C10": ("exhaustive enumeration of presentations (orders, orientations, keys, reference modes) of structures", "All presentations of a structure must give the same trails and form modulo renaming."),
    "C11": ("exhaustive exploration of node/edge edit histories against a coordinate-identity model", "Model: most recently placed live node per rounding cell; compared after every operation."),
    "C12": ("exhaustive exploration of build histories x copy/serialisation routes x follow-up operations", "Every query and every follow-up operation on the copy compared with the original."),
    "C13": ("exhaustive enumeration of parameters/constraints x alphabets x round-trip routes", "Behavioural comparison (bounds, start values, penalties) before and after."),
    "C14": ("exhaustive exploration of scripted solver behaviours (trial sequences x stops) on the real optimizer, plus all real algorithms x budgets", "The numerical solver is replaced by a scripted one that enumerates evaluation sequences and outcomes; the real solver is run on a grid of settings."),
    "C15": ("exhaustive exploration of add/remove histories; captured optimization problem compared with a fresh optimizer's", "Problem captured at the solver boundary; real solves checked for bounds and monotonicity."),
    "C16": ("exhaustive exploration of parameter x constraint x structure x point; central-difference monitor on the real objective", "Gradient compared with Richardson-extrapolated central differences; non-smooth points screened."),
    "C17": ("exhaustive exploration of constraint x target x weight x form; independent penalty model", "Penalty seen at the solver boundary compared with an independent geometric computation."),
    "C18": ("exhaustive exploration of layout x shift x last sequence; reference cut model replayed on the engine", "Every value from 0 to beyond the last sequence."),
    "C19": ("exhaustive exploration of structures x symmetry group elements", "All 24 rotations, translations and scale factors of the alphabet."),
    "C20": ("exhaustive enumeration of grids x support subsets x import settings; element-mapping model", "Duck-typed quad mesh, since compas_singular is not installed."),
    "C21": ("explicit-state exploration of edit histories in lockstep with a content model", "Every public query is compared after every step."),
    "C22": ("exhaustive enumeration of structures x drawing options; scenes read back and matched with the content of the diagram", "Real matplotlib; recording stand-ins for Grasshopper and compas_view2."),
    "C23": ("exhaustive enumeration of component inputs and of proxy/solve sequences in recording host stand-ins; library and content model as oracle", "Host applications are stand-ins (mc/host.py)."),
}


def main():
    checks, na = [], []
    for pid in sorted(T):
        if os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
            tech, note = T[pid]
            checks.append({"property": pid, "quick_cmd": "./check {} quick".format(pid),
                           "thorough_cmd": "./check {} thorough".format(pid),
                           "evidence_file": "evidence/{}.json".format(pid),
                           "technique": "model checking: " + tech, "level": "model_checking",
                           "level_note": note + " Exhaustive within the bounds listed in the evidence file; nothing is claimed beyond them. Trusts CPython, numpy, COMPAS and the oracle code in /verif/mc."})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks drive the public API. Only fix: commits were made there."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
