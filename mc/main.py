import importlib
import os
import sys


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = argv[1:]
    rp = None
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            rp = rest.pop(0)
    try:
        mod = importlib.import_module("checks." + pid)
        from mc import core
        import compas_cem
        src = os.path.dirname(os.path.abspath(compas_cem.__file__))
        if not src.startswith("/repo/src/"):
            print("compas_cem imported from {} instead of /repo/src".format(src))
            return 2
        spaces = mod.spaces(tier)
        if rp:
            return core.replay(pid, spaces, rp)
        return core.run(pid, spaces, tier, getattr(mod, "NOTE", ""), getattr(mod, "ASSUMPTIONS", ()))
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        frames = traceback.extract_tb(e.__traceback__)
        if isinstance(e, Exception) and any(f.filename.startswith("/repo/src/") for f in frames):
            # the code under test cannot even be imported or asked for its operations
            from mc import core
            os.makedirs(core.EVID, exist_ok=True)
            path = os.path.join(core.EVID, "replay_{}.json".format(pid))
            with open(path, "w") as f:
                f.write('{"property": "%s", "space": "import"}\n' % pid)
            print("the code under test fails on import: " + core._where(e))
            print("VIOLATION property={} replay={}".format(pid, path))
            return 1
        traceback.print_exc()
        print("check error (not a verdict)")
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
