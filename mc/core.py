"""Explorer core: exhaustive, deterministic, parallel enumeration of cases on the real code.

A check is a list of Spaces.  A Space is a finite, deterministically ordered set of cases
(JSON-able values) plus a function ``evaluate(case, ctx)`` that runs the real code of /repo on
the case and returns ``None`` or a violation message.  Every case of every space is evaluated:
there is no sampling.  The cases are dealt to forked workers by stride; the violation with the
smallest index (the simplest one, as spaces are ordered simplest first) is reported.
"""
import contextlib
import hashlib
import io
import json
import mmap
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
CASE_TIMEOUT = 120


class Timeout(Exception):
    pass


class Rejected(Exception):
    """Raised by nobody; kept for readability of outcomes."""


class Space(object):
    def __init__(self, name, cases, evaluate, bound):
        self.name = name          # short name, part of the replay file
        self.cases = cases        # zero-argument callable returning an iterator of JSON-able cases
        self.evaluate = evaluate  # evaluate(case, ctx) -> None | str
        self.bound = bound        # text: what the space contains


class Ctx(object):
    """Counters measured while running."""
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []

    def state(self, obj):
        """Register a distinct explored state (by canonical content)."""
        if not isinstance(obj, (str, bytes)):
            obj = canon(obj)
        if isinstance(obj, str):
            obj = obj.encode()
        self.states.add(hashlib.blake2b(obj, digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n


def canon(obj):
    return json.dumps(obj, sort_keys=True, default=repr)


def _alarm(signum, frame):
    raise Timeout("case did not finish within {} s".format(CASE_TIMEOUT))


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = sys.stdout
        sys.stdout = _Null()
        try:
            yield
        finally:
            sys.stdout = old


def _text(e):
    try:
        return str(e)
    except Exception:
        return "?"


def _where(e):
    """The innermost frames; only extraction, since formatting may call code of the objects involved."""
    fr = traceback.extract_tb(e.__traceback__)[-3:]
    return " / ".join('File "{}", line {}, in {}: {}'.format(f.filename, f.lineno, f.name, f.line) for f in fr)


def guarded(space, case, ctx):
    """Evaluate one case; exceptions escaping from it are violations with a traceback."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with quiet():
            return space.evaluate(case, ctx)
    except Timeout as e:
        return "no answer: {}".format(e)
    except (Exception, SystemExit) as e:  # an operation that must succeed raised
        return "unexpected {}: {} | {}".format(type(e).__name__, _text(e), _where(e))
    finally:
        signal.alarm(0)


def _worker(space, w, n, path, deadline, known, mark):
    ctx = Ctx()
    res = {"done": 0, "violation": None, "known": [], "capped": False}
    for i, case in enumerate(space.cases()):
        if i % n != w:
            continue
        if time.time() > deadline:
            res["capped"] = True
            break
        mark[8 * w:8 * w + 8] = i.to_bytes(8, "little")
        msg = guarded(space, case, ctx)
        res["done"] += 1
        if res["done"] <= 2 and w == 0:
            ctx.samples.append(case)
        if msg:
            key = known_key(space.name, case)
            if key in known:
                res["known"].append((key, msg))
                continue
            res["violation"] = (i, case, msg)
            break
    res["ctx"] = ctx
    with open(path, "wb") as f:
        pickle.dump(res, f)


def known_key(space_name, case):
    return space_name + "|" + canon(case)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    out = {}
    for e in json.load(open(path)).get("findings", []):
        if e.get("property") == pid:
            out[known_key(e["space"], e["case"])] = e["what"]
    return out


def run_space(space, jobs, deadline, known):
    tmp = tempfile.mkdtemp(prefix="cemmc_")
    pids = {}
    mark = mmap.mmap(-1, 8 * jobs)
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(jobs):
        path = os.path.join(tmp, str(w))
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                import gc
                gc.freeze()
                _worker(space, w, jobs, path, deadline, known, mark)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = (w, path)
    results, crash, broken = [], None, False
    while pids:
        pid, st = os.wait()
        if pid not in pids:
            continue
        w, path = pids.pop(pid)
        if os.WIFSIGNALED(st):
            at = int.from_bytes(mark[8 * w:8 * w + 8], "little")
            crash = min(crash, (at, os.WTERMSIG(st))) if crash else (at, os.WTERMSIG(st))
        elif os.WEXITSTATUS(st) != 0:
            broken = True
        else:
            with open(path, "rb") as f:
                results.append(pickle.load(f))
    for fn in os.listdir(tmp):
        os.unlink(os.path.join(tmp, fn))
    os.rmdir(tmp)
    if broken:
        raise RuntimeError("a worker of space {} failed inside the explorer".format(space.name))
    viol = [r["violation"] for r in results if r["violation"]]
    if crash:
        at, sig = crash
        if sig == signal.SIGKILL:
            raise RuntimeError("a worker was killed (out of memory?)")
        case = next(c for i, c in enumerate(space.cases()) if i == at)
        viol.append((at, case, "the process died with signal {} on this case".format(sig)))
    first = min(viol, key=lambda v: v[0]) if viol else None
    return results, first


def run(pid, spaces, tier, level_note, assumptions=(), jobs=None, budget=None):
    """Explore all spaces, write evidence, print the verdict, return the exit code."""
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = budget or (600 if tier == "quick" else 6 * 3600)
    start = time.time()
    deadline = start + budget
    known = load_known(pid)
    states, transitions, traces, outcomes, samples = set(), 0, 0, {}, []
    bounds, violations, capped, seen_known = [], [], False, {}
    for sp in spaces:
        t0 = time.time()
        results, first = run_space(sp, jobs, deadline, known)
        done = sum(r["done"] for r in results)
        cap = any(r["capped"] for r in results)
        capped = capped or cap
        n_states = set()
        for r in results:
            c = r["ctx"]
            n_states |= c.states
            transitions += c.transitions
            traces += c.traces
            for k, v in c.outcomes.items():
                outcomes[k] = outcomes.get(k, 0) + v
            for s in c.samples[:2]:
                samples.append({"space": sp.name, "case": s})
            for key, msg in r["known"]:
                seen_known[key] = msg
        states |= n_states
        bounds.append({"space": sp.name, "contains": sp.bound, "cases": done, "states": len(n_states),
                       "complete": not cap and first is None, "wall_s": round(time.time() - t0, 2)})
        print("{} {}: {} cases, {} states, {:.1f} s{}".format(
            pid, sp.name, done, len(n_states), time.time() - t0, " (CAPPED)" if cap else ""))
        if first:
            violations.append((sp.name,) + first)
            break
    for key, msg in sorted(seen_known.items()):
        print("KNOWN-FINDING: property={} {}".format(pid, known[key]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": transitions,
                       "traces_validated_against_impl": traces,
                       "samples": samples[:12],
                       "exhaustive": not capped and not violations,
                       "spaces": bounds, "outcomes": outcomes,
                       "workers": jobs},
          "assumptions": list(assumptions), "wall_s": round(time.time() - start, 2),
          "violations": len(violations)}
    os.makedirs(EVID, exist_ok=True)
    tmpf = os.path.join(EVID, pid + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmpf, os.path.join(EVID, pid + ".json"))
    if violations:
        name, idx, case, msg = violations[0]
        rp = os.path.join(EVID, "replay_{}.json".format(pid))
        with open(rp, "w") as f:
            json.dump({"property": pid, "space": name, "index": idx, "case": case, "message": msg}, f, indent=1, default=repr)
        print("violating case #{} of space {}: {}".format(idx, name, canon(case)))
        print("  " + msg)
        print("VIOLATION property={} replay={}".format(pid, rp))
        return 1
    print("{} held: {} states, {} transitions, {} traces, outcomes {}, {:.1f} s".format(
        pid, len(states), transitions, traces, outcomes, time.time() - start))
    return 0


def replay(pid, spaces, path):
    rec = json.load(open(path))
    for sp in spaces:
        if sp.name == rec["space"]:
            first = guarded(sp, rec["case"], Ctx())
            again = guarded(sp, rec["case"], Ctx())
            if (first is None) != (again is None):
                print("replay diverged: {!r} vs {!r}".format(first, again))
                return 3
            if first:
                print("  " + first)
                print("VIOLATION property={} replay={}".format(pid, path))
                return 1
            print("replay: the case passes")
            return 0
    print("unknown space " + rec["space"])
    return 3
