"""Explorer shared by all checks.

A check module provides
    cases(tier)   -> iterable of JSON-able case descriptions, enumerated exhaustively and deterministically
    run(case, cx) -> explores everything in that case on the real code, reporting to cx
The explorer runs every case (8 processes), collects counts, violations and distinct outcomes, writes the
evidence file and a replay file per violation.  Nothing is sampled: VERIF_SEED is recorded, no choice depends on it.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "0"))


class CaseTimeout(BaseException):
    pass


class Cx:
    """What one case reports."""

    def __init__(self):
        self.states = 0  # distinct inputs / configurations / histories reached
        self.transitions = 0  # calls of the implementation that were executed and judged
        self.traces = 0  # reference-model traces replayed on the implementation and compared
        self.fails = []  # (signature, message)
        self.outcomes = set()
        self.sample = None
        self.counts = {}

    def add(self, states=0, transitions=0, traces=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def outcome(self, *xs):
        h = hashlib.blake2b(repr(xs).encode(), digest_size=6).hexdigest()
        self.outcomes.add(h)

    def fail(self, sig, msg=""):
        self.fails.append((str(sig), str(msg)[:4000]))

    def expect(self, ok, sig, msg=""):
        self.transitions += 1
        if not ok:
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(ok)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, limit=300):
    """Run a single case; an exception of the implementation on an input it must answer is a violation."""
    import torch
    cx = Cx()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        torch.manual_seed(0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, cx)
    except CaseTimeout:
        cx.fail("timeout:" + case_name(case), "no answer within %d s" % limit)
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        cx.fail("exception:%s:%s" % (case_name(case), type(e).__name__),
                "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_list(tb[-6:]))))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return cx


def case_name(case):
    if isinstance(case, dict) and "name" in case:
        return str(case["name"])
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=6).hexdigest()


_MOD = None
_CASES = None
_LIMIT = 300


def _work(i):
    t = time.time()
    cx = run_one(_MOD, _CASES[i], _LIMIT)
    if os.environ.get("VERIF_PROFILE"):
        print("PROFILE %.2f %s" % (time.time() - t, case_name(_CASES[i])), file=sys.stderr)
    return i, cx.states, cx.transitions, cx.traces, cx.fails, cx.outcomes, cx.sample, cx.counts


def load_known(prop):
    """known_findings.txt: lines 'finding: property=<id> sig=<signature> <what fails>' (and 'fixed: ...', ignored)."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding: property=%s " % prop):
                continue
            rest = line.split(" ", 2)[2]
            assert rest.startswith("sig="), line
            sig, _, what = rest[4:].partition(" ")
            known[sig] = what
    return known


def main(prop, mod, tier, replay=None, jobs=None, level="model_checking"):
    global _MOD, _CASES, _LIMIT
    _LIMIT = CASE_TIMEOUT or (300 if tier == "quick" else 3000)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        rec = json.load(open(replay))
        cases = [rec["case"]]
    else:
        cases = list(mod.cases(tier))
    _MOD, _CASES = mod, cases
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    known = load_known(prop)
    tot = dict(states=0, transitions=0, traces=0)
    outcomes, samples, fails, counts = set(), [], [], {}
    done = 0
    if jobs == 1 or len(cases) == 1:
        results = map(_work, range(len(cases)))
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs)
        chunk = getattr(mod, "CHUNK", None) or max(1, min(16, len(cases) // (jobs * 8)))
        results = pool.imap_unordered(_work, range(len(cases)), chunksize=chunk)
    try:
        for i, s, t, tr, fl, oc, sample, cn in results:
            done += 1
            tot["states"] += s
            tot["transitions"] += t
            tot["traces"] += tr
            outcomes |= oc
            for k, v in cn.items():
                counts[k] = counts.get(k, 0) + v
            if sample is not None:
                samples.append((i, sample))
            for sig, msg in fl:
                fails.append((i, sig, msg))
    finally:
        if pool is not None:
            pool.terminate()
    fails.sort()
    samples.sort(key=lambda x: x[0])
    found_known, viol = {}, []
    for i, sig, msg in fails:
        if sig in known:
            found_known.setdefault(sig, msg)
        else:
            viol.append((i, sig, msg))
    for sig in known:
        if sig in found_known:
            print("KNOWN-FINDING: property=%s sig=%s %s" % (prop, sig, known[sig]))
    lines = []
    if viol:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for i, sig, msg in viol:
            if sig in shown:
                continue
            shown.add(sig)
            if len(shown) > 5:
                break
            h = hashlib.blake2b((prop + sig).encode(), digest_size=5).hexdigest()
            path = os.path.join(rdir, "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(dict(property=prop, signature=sig, message=msg, case=cases[i], tier=tier,
                               how="python -B -m mc.run %s --replay %s" % (prop, path)), f, indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s" % (sig, msg.strip().splitlines()[0][:300] if msg.strip() else ""), file=sys.stderr)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"],
                            cases=done, distinct_outcomes=len(outcomes),
                            exhaustive=(replay is None and done == len(cases)),
                            explanation=getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
                            bounds=getattr(mod, "BOUNDS", {}).get(tier, "") if isinstance(
                                getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", ""),
                            samples=[s for _, s in samples[:3]] + [s for _, s in samples[-2:]],
                            known_findings_reproduced=sorted(found_known), **counts),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS)
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d known=%d violations=%d wall=%.1fs" % (
        prop, tier, done, tot["states"], tot["transitions"], tot["traces"], len(outcomes), len(found_known),
        len(viol), wall))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if viol else 0


COMMON_ASSUMPTIONS = [
    "CPU only; PyTorch, NumPy, lxml and MuJoCo are trusted",
    "the NumPy reference model in mc/ref.py is right (it is checked against itself at start-up)",
    "values outside the stated alphabets and sizes beyond the stated bounds are not covered",
]
