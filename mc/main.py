import os
import sys

HERE = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


def main(argv):
    sys.path[:] = [p for p in sys.path if p != ""]
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if argv[:1] == ["--selftest"]:
        from mc import compat, selftest  # noqa: F401
        return selftest.main()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    jobs = int(argv[argv.index("--jobs") + 1]) if "--jobs" in argv else None
    os.chdir(os.environ.get("TMPDIR", "/tmp"))      # nothing may drop files into the caller's directory
    from mc import compat  # noqa: F401
    from mc import core
    import importlib
    meta = importlib.import_module('mc.props.%s' % prop.lower()).META
    if "--replay" in argv:
        return core.replay(prop, argv[argv.index("--replay") + 1])
    return core.run_property(prop, tier, meta, jobs)


if __name__ == "__main__":
    import traceback
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
