"""python sim/__main__.py check C01 [--tier T] [--runs N] [--seed S] [--workers W] [--log F] | replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.dirname(os.path.abspath(__file__))]

from sim import runtime as rt  # noqa: E402


def main():
    rt.reexec([os.path.abspath(__file__)] + sys.argv[1:])
    rt.setup()
    from sim import runner
    a = sys.argv[1:]
    opt = {}
    while len(a) > 1 and a[-2].startswith("--"):
        opt[a[-2][2:]] = a[-1]
        a = a[:-2]
    if a[0] == "replay":
        return runner.replay(os.path.abspath(a[1]))
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("seed") or os.environ.get("VERIF_SEED") or 1)
    return runner.check(a[1], tier, seed, int(opt["runs"]) if "runs" in opt else None,
                        int(opt["workers"]) if "workers" in opt else None, opt.get("log"))


if __name__ == "__main__":
    sys.exit(main())
