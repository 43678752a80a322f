"""python -B -m mc.run <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True
import argparse  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    # always the working tree of /repo, whatever is installed
    sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    from mc import core
    import importlib
    import pytorch_kinematics as pk
    want = os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
    assert os.path.realpath(pk.__file__).startswith(want + os.sep), pk.__file__
    from mc import ref
    ref.selfcheck()
    mod = importlib.import_module("mc.checks." + a.prop.lower())
    return core.main(a.prop, mod, a.tier, replay=a.replay, jobs=a.jobs)


if __name__ == "__main__":
    sys.exit(main())
