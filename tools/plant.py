"""Writes /verif/seeded/<id>/ from tools/plants/*.py, and confirms each planted change.

A plants file defines bug(id, property, edits, demo, needs, breaks) calls. For each one:
the edit is made in a scratch copy of /repo, diffed, and confirmed there: tests pass, demo exits
0 before and nonzero after; then a scratch copy of the checks is run on the changed copy.

    plant.py [--no-check] [--write-only] [id ...]
"""
import glob, json, os, queue, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}

PRELUDE = '''import os, sys, json, tempfile
from math import sqrt
from compas.geometry import Plane, Point, Line, Vector, Polyline
from compas_cem.diagrams import TopologyDiagram, FormDiagram
from compas_cem.elements import Node, TrailEdge, DeviationEdge
from compas_cem.loads import NodeLoad
from compas_cem.supports import NodeSupport
from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy


def topo(nodes, trails, devs=(), supports=(), loads={}, build=True):
    """nodes {key: xyz}; trails [(u, v, length[, plane])]; devs [(u, v, force)]"""
    t = TopologyDiagram()
    for k, xyz in nodes.items():
        t.add_node(Node(k, list(xyz)))
    for e in trails:
        t.add_edge(TrailEdge(e[0], e[1], length=e[2], plane=e[3] if len(e) > 3 else None))
    for u, v, f in devs:
        t.add_edge(DeviationEdge(u, v, force=f))
    for s in supports:
        t.add_support(NodeSupport(s))
    for k, q in loads.items():
        t.add_load(NodeLoad(k, list(q)))
    if build:
        t.build_trails()
    return t


def residual(form):
    """The largest norm of the sum of load, edge forces and reaction over the nodes."""
    worst = 0.0
    for n in form.nodes():
        r = [float(a) for a in form.node_load(n)]
        q = [float(a) for a in form.reaction_force(n)]
        r = [a + b for a, b in zip(r, q)]
        p = form.node_coordinates(n)
        for u, v in form.connected_edges(n):
            o = form.node_coordinates(v if u == n else u)
            d = [float(b - a) for a, b in zip(p, o)]
            l = sqrt(sum(a * a for a in d))
            if l:
                f = float(form.edge_force((u, v)))
                r = [a + f * b / l for a, b in zip(r, d)]
        worst = max(worst, sqrt(sum(a * a for a in r)))
    return worst


def dist(a, b):
    return sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(a, b)))


def check(ok, msg="property broken"):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)

'''


def bug(id, property, edits, demo, needs, breaks):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def foreign(repo, diff):
    """Removed lines that do not come from the original repository."""
    mine = set(sh("git -C %s rev-list 5af35ab..HEAD" % repo).stdout.split())
    out, f, n = [], None, 0
    for ln in diff.splitlines():
        if ln.startswith("--- "):
            f = ln[6:]
        elif ln.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", ln).group(1))
        elif ln.startswith("-"):
            c = sh("git -C %s blame -l -L %d,%d HEAD -- %s" % (repo, n, n, f)).stdout.split()[0].lstrip("^")
            if any(m.startswith(c[:30]) for m in mine):
                out.append(ln)
            n += 1
        elif ln.startswith(" "):
            n += 1
    return out


class Lane(object):
    """A scratch copy of /repo and of /verif whose checks look at that copy."""
    def __init__(self, root, i):
        self.dir = os.path.join(root, str(i))
        self.repo, self.verif = self.dir + "/repo", self.dir + "/verif"
        os.makedirs(self.dir)
        sh("cp -a /repo %s" % self.repo)
        os.makedirs(self.verif)
        sh("cp -a check setup mc checks known_findings.json %s/" % self.verif, cwd=V)
        sh("sed -i 's#/repo/src#%s/src#g' check mc/main.py" % self.repo, cwd=self.verif)
        self.env = dict(os.environ, PYTHONPATH=self.repo + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")

    def undo(self):
        sh("git -C %s checkout -- ." % self.repo)

    def write(self, b):
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        for f, old, new in b["edits"]:
            p = os.path.join(self.repo, "src/compas_cem", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % self.repo).stdout
        self.undo()
        own = foreign(self.repo, diff)
        if own:
            print(b["id"], "touches lines of our own commits:", own, flush=True)
        for name, text in (("patch.diff", diff), ("demo.py", PRELUDE + "\n" + b["demo"].strip() + "\n"),
                           ("demo.sh", '#!/bin/sh\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'),
                           ("meta.json", json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1))):
            open(d + "/" + name, "w").write(text)
        os.chmod(d + "/demo.sh", 0o755)
        return d

    def confirm(self, b, d, check=True):
        r = {"id": b["id"], "property": b["property"]}
        txt = []
        k = dict(cwd=self.repo, env=self.env)
        clean = sh("sh %s/demo.sh" % d, timeout=300, **k)
        r["demo_clean"] = clean.returncode
        if clean.returncode:
            txt.append(clean.stdout[-800:] + clean.stderr[-1500:])
        try:
            a = sh("git -C %s apply %s/patch.diff" % (self.repo, d))
            assert a.returncode == 0, a.stderr
            bad = sh("sh %s/demo.sh" % d, timeout=300, **k)
            r["demo_bad"] = bad.returncode
            if "FAIL" not in bad.stdout:
                txt.append("   demo with patch: " + bad.stdout[-300:] + bad.stderr[-600:])
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300", **k)
            m = re.search(r"(\d+) passed", t.stdout)
            r["tests_failed"] = 92 - int(m.group(1)) if m else -1
            r["ok"] = r["demo_clean"] == 0 and r["demo_bad"] != 0 and r["tests_failed"] == 0
            if check and r["ok"]:
                t0 = time.time()
                c = sh("./check %s quick" % b["property"], cwd=self.verif, timeout=2400)
                r["check"] = c.returncode
                r["s"] = round(time.time() - t0)
                m = re.findall(r"VIOLATION property=(\S+)", c.stdout)
                r["caught"] = c.returncode == 1 and b["property"] in m
        finally:
            self.undo()
        r["text"] = "\n".join(txt)
        return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for f in sorted(glob.glob(os.path.join(V, "tools/plants/*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    todo = [b for i, b in BUGS.items() if not args or i in args or b["property"] in args or any(i.startswith(a + "-") for a in args)]
    out = []
    root = tempfile.mkdtemp(prefix="plant_")
    try:
        nl = 4 if "--no-check" in sys.argv else 2
        lanes = queue.Queue()
        for i in range(nl):
            lanes.put(Lane(root, i))

        def job(b):
            lane = lanes.get()
            try:
                d = lane.write(b)
                if "--write-only" in sys.argv:
                    return
                r = lane.confirm(b, d, check="--no-check" not in sys.argv)
                out.append(r)
                text = r.pop("text")
                print(json.dumps(r) + ("\n" + text if text.strip() else ""), flush=True)
            except Exception as e:
                lane.undo()
                print(b["id"], "FAILED TO PLANT", repr(e)[:600], flush=True)
            finally:
                lanes.put(lane)
        with ThreadPoolExecutor(nl) as ex:
            list(ex.map(job, todo))
    finally:
        shutil.rmtree(root)
    print("total", len(out), "ok", sum(r["ok"] for r in out), "caught", sum(bool(r.get("caught")) for r in out))
    print("missed:", sorted(r["id"] for r in out if r["ok"] and not r.get("caught")), "invalid:", sorted(r["id"] for r in out if not r["ok"]))


if __name__ == "__main__":
    main()
