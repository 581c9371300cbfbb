#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough]   run one check
   run.py --replay FILE                  re-decide one recorded violation
   run.py --selftest                     import everything, check the reference library
   run.py --all [--tier T]               all checks, one after another"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing.connection
from mc import core
import glob, time


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    core.setup_imports()
    if argv[:1] == ["--replay"]:
        return core.replay(argv[1])
    ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(core.ROOT, "checks", "c[0-9]*.py")))
    if argv[:1] == ["--selftest"]:
        from mc import selftest
        selftest.run()
        for i in ids:
            m = core.load_check(i)
            for t in ("quick", "thorough"):
                n = list(m.shards(t))
                assert n and len(dict(n)) == len(n), i
        print("selftest ok:", len(ids), "checks importable")
        return 0
    if argv[:1] == ["--all"]:
        rc = 0
        for i in argv[1:] or ids:
            rc = max(rc, core.run_check(core.load_check(i), tier))
        return rc
    return core.run_check(core.load_check(argv[0].upper()), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
