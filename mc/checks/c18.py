"""Full product of solver variants and options (step kernel, limits enforced or not, clamping each step, line search, both
ways of stopping early, iterations allowed from none, learning rate, weights, damping, tolerances from impossible to
anything goes) on several robots; every call solves a batch of targets of all kinds (solved by the first start, by the last
start, near, far, out of reach, exactly and nearly half a turn away, displaced) from several starts.  Every reported error
is recomputed from the reported configuration by the reference kinematics, every flag from the errors, and starts that
solve a target must come back unchanged."""
import itertools
import warnings

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *
from mc.ikc import *

BOUNDS = dict(quick="2 kernels x 2 enforcement x 2 clamping x 2 line search x 2 x 4 early stopping x 4 iteration bounds x 3 option sets, 3 robots, 8 targets x 3 starts; all target orders of 3; tolerances 5 x 5",
              thorough="6 option sets, 6 iteration bounds, 7 robots, both number types")
OPTS = [dict(), dict(lr=.3, position_weight=2., orientation_weight=.5), dict(lm_damping=0., regularlization=1e-3), dict(lr=1, lm_damping=1.),
        dict(position_weight=.1, orientation_weight=3., regularlization=1e-2), dict(orientation_weight=0., lm_damping=.5)]
TOLS = [1e-9, 1e-6, 1e-3, .25, 100.]


def lims(k):
    return [(-.8, 1.1), None, (-2., 2.5), (-.5, 5.), None, (-3., 3.)][k % 6]


def cases(tier):
    robots = ["rpr", "six", "mixed"] if tier == "quick" else list(ROBOTS)
    its = [0, 1, 4, 11] if tier == "quick" else [0, 1, 2, 4, 11, 30]
    out = []
    for rb in robots:
        for cls, oi, mi in itertools.product(CLS, range(3 if tier == "quick" else 6), its):
            for dt in (["f64"] if tier == "quick" else ["f64", "f32"]):
                out.append(dict(name="opts:%s:%s:%d:%d:%s" % (rb, cls, oi, mi, dt), kind="opts", robot=rb, cls=cls, oi=oi, mi=mi, dt=dt))
    for rb in robots:
        for cls in CLS:
            out.append(dict(name="tols:%s:%s" % (rb, cls), kind="tols", robot=rb, cls=cls))
            out.append(dict(name="order:%s:%s" % (rb, cls), kind="order", robot=rb, cls=cls))
            out.append(dict(name="f32:%s:%s" % (rb, cls), kind="f32", robot=rb, cls=cls))
    for rb in (ROBOTS if tier == "thorough" else ["one", "slide", "six"]):
        out.append(dict(name="single:%s" % rb, kind="single", robot=rb))
    out += [dict(name=k, kind=k) for k in ("sampled", "wrong", "shown")]
    return out


def line(on):
    return pk.BacktrackingLineSearch(max_lr=.7, max_iterations=3) if on else None


def solve_and_judge(cx, lab, spec, sc, st, mats, dtype, enforce, tp=1e-3, tr=1e-2, at=(), kind="dls", mi=11, **kw):
    ik = solver(sc, st, dtype, kind, max_iterations=mi, enforce_joint_limits=enforce, pos_tolerance=tp, rot_tolerance=tr, **kw)
    T = tf(mats, dtype)
    keep, conf = T.get_matrix().clone(), ik.initial_config.clone()
    sol = ik.solve(T)
    cx.add(states=len(mats) * len(st))
    judge(cx, lab, spec, sol, mats, st, dtype, mi, tp, tr, enforce)
    cx.expect(torch.equal(T.get_matrix(), keep) and torch.equal(ik.initial_config, conf), "inputs:" + lab)
    for i, j in at:  # target i is solved by start j
        cx.expect(bool(sol.converged[i, j]), "start-solves:" + lab, lambda: "%s %s" % (sol.err_pos[i, j], sol.err_rot[i, j]))
        if not enforce:
            cx.expect(torch.equal(sol.solutions[i, j], torch.tensor(st[j], dtype=dtype)), "start-returned:" + lab, lambda: "%s from %s" % (sol.solutions[i, j], st[j]))
        else:
            cx.expect(R.maxerr(npa(sol.solutions[i, j]), st[j]) < (1e-5 if dtype == F64 else 5e-2), "start-kept:" + lab, lambda: "%s from %s" % (sol.solutions[i, j], st[j]))
    if mi == 0 and not enforce:
        cx.expect(torch.equal(sol.solutions, torch.tensor(st, dtype=dtype).expand(len(mats), -1, -1)), "no-iterations:" + lab)
    cx.outcome(lab.split(":")[0], tuple(sol.converged.flatten().tolist()), sol.iterations)
    return sol


def run(case, cx):
    torch.set_num_threads(1)
    kind = case["kind"]
    if kind in ("sampled", "wrong", "shown"):
        return globals()[kind](cx)
    spec = spec_of(case["robot"], lims)
    n = len(ref.movable(spec))
    st = starts(n, 3)
    tg = targets(spec, st)
    order = list(tg)
    mats = [tg[k] for k in order]
    at = [(order.index("at0"), 0), (order.index("atlast"), 2)]
    if kind == "opts":
        dt = DT[case["dt"]]
        sc = serial(spec, dt)
        for en, cl, ls, an, ni in itertools.product((False, True), (False, True), (False, True), (False, True), (None, "all", "any", .5)):
            lab = "opts:%s:%s:%d:%d:en%d:cl%d:ls%d:an%d:%s" % (case["robot"], case["cls"], case["oi"], case["mi"], en, cl, ls, an, ni)
            s = solve_and_judge(cx, lab, spec, sc, st, mats, dt, en, at=at, kind=case["cls"], mi=case["mi"], clamp_to_limits=cl, line_search=line(ls),
                                early_stopping_any_converged=an, early_stopping_no_improvement=ni, **OPTS[case["oi"]])
        cx.sample = dict(solver=case["cls"], options=OPTS[case["oi"]], targets=order, converged=s.converged.tolist(), err_pos=npa(s.err_pos).tolist())
    elif kind == "tols":
        sc = serial(spec)
        for tp, tr, en in itertools.product(TOLS, TOLS, (False, True)):
            solve_and_judge(cx, "tols:%s:%g:%g:%d" % (case["robot"], tp, tr, en), spec, sc, st, mats, F64, en, tp, tr, at=at, kind=case["cls"], mi=8)
        # tolerances exactly at an error that was reported: not below it
        ik = solver(sc, st, F64, case["cls"], max_iterations=0, enforce_joint_limits=False)
        s = ik.solve(tf(mats, F64))
        i = order.index("shifted")
        tp, tr = float(s.err_pos[i, 1]), float(s.err_rot[i, 1])
        for a, b in itertools.product((tp, tp * (1 + 1e-9), tp * (1 - 1e-9)), (tr, tr * (1 + 1e-9), tr * (1 - 1e-9))):
            s = solve_and_judge(cx, "tols-exact:%s" % case["robot"], spec, sc, st, mats, F64, False, a, b, kind=case["cls"], mi=0)
            cx.expect(bool(s.converged[i, 1]) == (a > tp and b > tr), "tols-exact-flag:%s" % case["robot"])
    elif kind == "order":
        sc = serial(spec)
        for sel in itertools.chain(itertools.permutations(range(len(mats)), 2), itertools.permutations(range(4), 3), [()], [(0,)], [(4, 4, 4)]):
            for en in (False, True):
                for Rn in (1, 2) if len(sel) < 3 else (3,):
                    solve_and_judge(cx, "order:%s:%s:%d" % (case["robot"], ",".join(order[i] for i in sel), en), spec, sc, st[:Rn], [mats[i] for i in sel] if sel else np.zeros((0, 4, 4)),
                                    F64, en, kind=case["cls"], mi=3)
    elif kind == "f32":
        sc = serial(spec, F32)
        for en, ls, an, mi in itertools.product((False, True), (False, True), (False, True), (0, 2, 9)):
            solve_and_judge(cx, "f32:%s:en%d:ls%d:an%d:%d" % (case["robot"], en, ls, an, mi), spec, sc, st, mats, F32, en, at=at, kind=case["cls"], mi=mi, line_search=line(ls),
                            early_stopping_any_converged=an)
    elif kind == "single":
        # one target, one retry, unbatched-looking shapes; shapes that coincide (targets = retries = joints)
        sc = serial(spec)
        for M, Rn in [(1, 1), (1, 2), (2, 1), (n, n), (n, 1), (1, n), (6, 6), (6, 1), (1, 6), (4, 3), (3, 4)]:
            stt = starts(n, Rn)
            t = [mats[i % len(mats)] for i in range(M)]
            for en, cls, ls in itertools.product((False, True), CLS, (False, True)):
                solve_and_judge(cx, "single:%s:%dx%d:%d:%s:%d" % (case["robot"], M, Rn, en, cls, ls), spec, sc, stt, t, F64, en, kind=cls, mi=4, line_search=line(ls))
    cx.add(traces=cx.states)


def wrong(cx):
    """settings that cannot be followed are refused instead of being answered with something else"""
    for rb in ROBOTS:
        spec = spec_of(rb)
        sc = serial(spec)
        n = len(ref.movable(spec))
        bad = [dict(), dict(num_retries=3), dict(num_retries=3, config_sampling_method="uniform"), dict(num_retries=2, config_sampling_method="normal"), dict(num_retries=2, config_sampling_method=None)]
        bad += [dict(retry_configs=torch.zeros(k, m)) for k in (1, 2, n) for m in (n - 1, n + 1, 2 * n) if m > 0]
        for kw, cls in itertools.product(bad, CLS):
            cx.expect(raises(CLS[cls], sc, **kw), "accepted", lambda: "%s %s" % (rb, {k: getattr(v, "shape", v) for k, v in kw.items()}))
            cx.add(states=1, traces=1)


def shown(cx):
    """with the diagnostic display on, the answers are the same"""
    from matplotlib import pyplot as plt
    for rb, cls, Rn, mi in itertools.product(("rpr", "slide", "one"), CLS, (1, 3), (1, 4, 11)):
        spec = spec_of(rb)
        sc = serial(spec)
        n = len(ref.movable(spec))
        tg = list(targets(spec, starts(n, 2)).values())
        st = starts(n, Rn)
        for M in (1, 3, len(tg)):
            got = []
            for debug in (False, True):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got.append(solver(sc, st, F64, cls, max_iterations=mi, debug=debug).solve(tf(tg[:M], F64)))
                    plt.close("all")
            for f in ("solutions", "err_pos", "err_rot", "converged", "converged_any", "iterations"):
                a, b = (getattr(g, f) for g in got)
                cx.expect(torch.equal(a, b) if torch.is_tensor(a) else a == b, "shown:" + f, lambda: "%s %s %d starts, %d targets: %s differs with the display on" % (rb, cls, Rn, M, f))
            cx.add(states=M * Rn, traces=1)


def sampled(cx):
    """start configurations drawn by the solver: number, type and range; solutions honest as for given starts"""
    for rb, dt in itertools.product(("rpr", "six"), (F32, F64)):
        spec = spec_of(rb, lambda k: (-.5 - .1 * k, .2 + .3 * k))
        sc = serial(spec, dt)
        n = len(ref.movable(spec))
        tg = list(targets(spec, starts(n, 2)).values())
        lim = torch.tensor([[-.5 - .1 * k, .2 + .3 * k] for k in range(n)], dtype=dt)
        c = torch.tensor(starts(n, 1)[0], dtype=dt)
        for how, Rn in itertools.product(("uniform", "gaussian", "around", "own"), (1, 2, 5)):
            m = {"around": pk.gaussian_around_config(c, .1), "own": lambda k: c.repeat(k, 1)}.get(how, how)
            torch.manual_seed(3)
            ik = pk.PseudoInverseIK(sc, num_retries=Rn, joint_limits=lim, config_sampling_method=m, max_iterations=4)
            st = ik.initial_config
            lab = "sampled:%s:%s:%d" % (rb, how, Rn)
            cx.expect(st.shape == (Rn, n) and st.dtype == dt, "sample-shape:" + lab, lambda: "%s %s" % (st.shape, st.dtype))
            if how == "uniform":
                cx.expect(bool(((st >= lim[:, 0]) & (st <= lim[:, 1])).all()), "sample-range:" + lab, lambda: str(st))
            if how == "own":
                cx.expect(torch.equal(st, c.repeat(Rn, 1)), "sample-own:" + lab)
            if how in ("uniform", "gaussian", "around") and Rn > 1:
                cx.expect(len({tuple(r) for r in st.tolist()}) == Rn, "sample-distinct:" + lab)
            sol = ik.solve(tf(tg, dt))
            judge(cx, lab, spec, sol, tg, npa(st), dt, 4, 1e-3, 1e-2, True)
            cx.add(states=len(tg) * Rn, traces=len(tg) * Rn)
