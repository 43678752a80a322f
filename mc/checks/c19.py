"""Full product, per joint, of limit kinds (none, one sided, narrow, wider than a turn, exactly a turn, a single value, far
from zero, excluding every equivalent) and of start values displaced by every combination of full turns, on robots mixing
revolute and prismatic joints.  Starts that solve the target up to full turns must come back in range and solved whenever
an in-range equivalent exists; in every case all reported values lie within the limits, are finite, and are judged on the
limited values.  The same limits are run through all solver options after real iterations; with enforcement off results
must be identical to those on the same robot without limits, and with clamping at each step no step leaves the limits."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *
from mc.ikc import *

BOUNDS = dict(quick="13 limit kinds per revolute, 5 per prismatic joint; shifts -3,-1,0,1,2 turns per joint; 3 movable joints; 2 kernels, 2 number types",
              thorough="4 and 6 movable joints as well (all pairs of kinds); shifts up to 8 turns")
INF = np.inf
TAU = 2 * np.pi
# relative to the value b that solves the target
RKIND = dict(none=None, low=(-1., INF), high=(-INF, 1.), narrow=(-.4, .3), wide=(-9., 8.), turn=(-1., TAU - 1.), point=(0., 0.), far=(3 * TAU - .5, 3 * TAU + .5),
             excl=(1., 2.), lowfar=(5 * TAU - .2, INF), highfar=(-INF, -2 * TAU + .1),
             lowhalf=(-3.1, INF), highhalf=(-INF, 3.05))
PKIND = dict(none=None, low=(-1., INF), high=(-INF, 1.), narrow=(-.4, .3), excl=(.5, 2.), point=(0., 0.))


def cases(tier):
    out = []
    rk, pk_ = list(RKIND), list(PKIND)
    for a, b in itertools.product(rk, pk_):
        out.append(dict(name="turn:rpr:%s:%s" % (a, b), kind="turn", robot="rpr", k=[a, b, None]))
    for cls, dt, rb in itertools.product(CLS, ("f64", "f32"), ("rpr", "six", "mixed", "slide")):
        out.append(dict(name="iter:%s:%s:%s" % (cls, dt, rb), kind="iter", cls=cls, dt=dt, robot=rb))
    for rb in ("rpr", "six", "seven", "slide", "one"):
        for cls in CLS:
            out.append(dict(name="off:%s:%s" % (rb, cls), kind="off", robot=rb, cls=cls))
            out.append(dict(name="clamp:%s:%s" % (rb, cls), kind="clamp", robot=rb, cls=cls))
    if tier == "thorough":
        for rb in ("six", "seven", "mixed"):
            mv = ref.movable(spec_of(rb))
            for i, j in itertools.permutations(range(len(mv)), 2):
                out.append(dict(name="turn2:%s:%d:%d" % (rb, i, j), kind="turn2", robot=rb, ij=[i, j]))
        for a, b, c in itertools.product(rk, pk_, rk):
            out.append(dict(name="turnlong:%s:%s:%s" % (a, b, c), kind="turnlong", robot="rpr", k=[a, b, c]))
    return out


def limit(kind, jtype, b):
    k = (PKIND if jtype == "prismatic" else RKIND)[kind]
    return None if k is None else (b + k[0], b + k[1])


def with_limits(name, kinds, base):
    spec = spec_of(name)
    for n, k, b in zip(ref.movable(spec), kinds, base):
        n["limits"] = limit(k, n["jtype"], b)
    return spec


def fits(spec, q):
    """is there an equivalent of q (full turns of revolute joints) inside the limits; None when too close to tell"""
    lo, hi = limits_of(spec)
    for n, v, a, b in zip(ref.movable(spec), q, lo, hi):
        if n["jtype"] == "prismatic":
            if not a <= v <= b:
                return False
            continue
        ks = np.arange(-40, 41) * TAU + v
        if not ((ks >= a - 1e-12) & (ks <= b + 1e-12)).any():
            return False
    return True


def turned(cx, lab, spec, base, shifts, cls, dt=F64, mi=0, **kw):
    sc = serial(spec, dt)
    mv = ref.movable(spec)
    sh = np.array(shifts, float) * TAU
    for i, n in enumerate(mv):
        if n["jtype"] == "prismatic":
            sh[:, i] = 0
    st = base[None] + sh
    tgt = pose_of(spec, base[None])
    ik = solver(sc, st, dt, cls, max_iterations=mi, **kw)
    sol = ik.solve(tf(tgt, dt))
    judge(cx, lab, spec, sol, tgt, st, dt, mi, 1e-3, 1e-2, True, tol=1e-6 if dt == F64 else 5e-3)
    q = npa(sol.solutions)[0]
    cx.add(states=len(st), traces=len(st))
    if fits(spec, base):
        cx.expect(bool(sol.converged.all()) and bool(sol.converged_any.all()), "equivalent-lost:" + lab,
                  lambda: "starts %s solutions %s err %s" % (st[npa(~sol.converged[0]).astype(bool)].tolist(), q[npa(~sol.converged[0]).astype(bool)].tolist(), sol.err_pos))
        d = q - base[None]
        rvm = np.array([n["jtype"] != "prismatic" for n in mv])
        d[:, rvm] -= np.round(d[:, rvm] / TAU) * TAU
        cx.expect(np.abs(d).max() < (1e-6 if dt == F64 else 2e-2), "equivalent-changed:" + lab, lambda: "%s from %s" % (q.tolist(), st.tolist()))
    cx.outcome(lab, fits(spec, base), bool(sol.converged.all()))
    return sol


def run(case, cx):
    torch.set_num_threads(1)
    kind = case["kind"]
    if kind in ("turn", "turnlong"):
        base = np.array([.4, -.3, -.7])
        sh = (-3, -1, 0, 1, 2) if kind == "turn" else range(-8, 9, 2)
        for c in (RKIND if case["k"][2] is None else [case["k"][2]]):
            spec = with_limits(case["robot"], case["k"][:2] + [c], base)
            shifts = [(a, 0, b) for a, b in itertools.product(sh, repeat=2)]
            for cls in CLS if kind == "turn" else ["dls"]:
                s = turned(cx, "turn:%s:%s:%s:%s" % (case["k"][0], case["k"][1], c, cls), spec, base, shifts, cls)
            if kind == "turn":
                turned(cx, "turn32:%s:%s:%s" % (case["k"][0], case["k"][1], c), spec, base, shifts, "dls", F32)
                turned(cx, "turn0:%s:%s:%s" % (case["k"][0], case["k"][1], c), spec, base, shifts, "dls", num_limit_refinement_iterations=0)
                turned(cx, "turn5:%s:%s:%s" % (case["k"][0], case["k"][1], c), spec, base, shifts, "dls", mi=3)
        cx.sample = dict(limits=case["k"], starts=len(shifts), converged=int(s.converged.sum()))
    elif kind == "turn2":
        n = len(ref.movable(spec_of(case["robot"])))
        base = starts(n, 1, 1.)[0]
        i, j = case["ij"]
        jt = [x["jtype"] for x in ref.movable(spec_of(case["robot"]))]
        for a, b in itertools.product(PKIND if jt[i] == "prismatic" else RKIND, PKIND if jt[j] == "prismatic" else RKIND):
            kinds = ["none"] * n
            kinds[i], kinds[j] = a, b
            spec = with_limits(case["robot"], kinds, base)
            shifts = []
            for x, y in itertools.product((-8, -3, -1, 0, 1, 2), repeat=2):
                s = [1] * n
                s[i], s[j] = x, y
                shifts.append(s)
            turned(cx, "turn2:%s:%d%s:%d%s" % (case["robot"], i, a, j, b), spec, base, shifts, "dls")
    elif kind == "iter":
        dt = DT[case["dt"]]
        plain = spec_of(case["robot"])
        mv = ref.movable(plain)
        n = len(mv)
        st = np.concatenate([starts(n, 2), starts(n, 2, 9.)])
        mats = list(targets(plain, starts(n, 2)).values())
        pats = [[list(RKIND)[(3 * v + i * (1 + v)) % len(RKIND)] if m["jtype"] != "prismatic" else list(PKIND)[(v + i) % len(PKIND)] for i, m in enumerate(mv)] for v in range(8)]
        pats += [["high"] * n, ["low"] * n, ["narrow"] * n, ["point"] * n, ["excl"] * n, ["none"] * n]
        for ks in pats:
            spec = with_limits(case["robot"], ks, starts(n, 1)[0])
            sc = serial(spec, dt)
            for mi, cl, an, ls, rf in [(0, 0, 0, 0, 10), (1, 0, 0, 0, 10), (8, 0, 0, 0, 10), (8, 1, 0, 0, 10), (8, 0, 1, 0, 10), (8, 0, 0, 1, 10), (8, 1, 1, 1, 0), (8, 0, 0, 0, 0), (8, 0, 0, 0, 1)]:
                ik = solver(sc, st, dt, case["cls"], max_iterations=mi, clamp_to_limits=bool(cl), early_stopping_any_converged=bool(an),
                            line_search=pk.BacktrackingLineSearch() if ls else None, num_limit_refinement_iterations=rf)
                lo, hi = sc.get_joint_limits()
                sol = ik.solve(tf(mats, dt))
                lab = "iter:%s:%s:%s:%s:%d%d%d%d:%d" % (case["robot"], case["cls"], case["dt"], "-".join(ks), mi, cl, an, ls, rf)
                judge(cx, lab, spec, sol, mats, st, dt, mi, 1e-3, 1e-2, True, tol=None if dt == F64 else 5e-3)
                cx.expect(list(map(float, lo)) == list(map(float, sc.get_joint_limits()[0])) and list(map(float, hi)) == list(map(float, sc.get_joint_limits()[1])), "limits-changed:" + lab)
                cx.add(states=sol.converged.numel(), traces=sol.converged.numel())
                cx.outcome(lab, tuple(sol.converged.flatten().tolist()))
    elif kind == "off":
        plain = spec_of(case["robot"])
        mv = ref.movable(plain)
        n = len(mv)
        st = np.concatenate([starts(n, 2), starts(n, 1, 9.)])
        mats = list(targets(plain, starts(n, 2)).values())
        free = serial(plain)
        for v in range(11):
            ks = [list(RKIND)[(v + i) % len(RKIND)] if m["jtype"] != "prismatic" else list(PKIND)[(v + i) % len(PKIND)] for i, m in enumerate(mv)]
            spec = with_limits(case["robot"], ks, starts(n, 1)[0])
            sc = serial(spec)
            for mi, an, ls in itertools.product((0, 1, 7), (False, True), (False, True)):
                kw = dict(max_iterations=mi, early_stopping_any_converged=an, line_search=pk.BacktrackingLineSearch() if ls else None, enforce_joint_limits=False)
                a = snap(solver(sc, st, F64, case["cls"], **kw).solve(tf(mats, F64)))
                b = snap(solver(free, st, F64, case["cls"], **kw).solve(tf(mats, F64)))
                cx.expect(not same(a, b), "off-altered:%s:%s:%d:%d" % (case["robot"], "-".join(ks), mi, an), lambda: str(same(a, b)))
                # without limits there is nothing to enforce
                if v == 0:
                    kw["enforce_joint_limits"] = True
                    c = snap(solver(free, st, F64, case["cls"], **kw).solve(tf(mats, F64)))
                    cx.expect(not same(b, c), "unlimited-altered:%s" % case["robot"], lambda: str(same(b, c)))
                cx.add(states=len(mats) * len(st), traces=len(mats) * len(st))
    elif kind == "clamp":
        plain = spec_of(case["robot"])
        mv = ref.movable(plain)
        n = len(mv)
        kk = ["none", "low", "high", "narrow", "point"]
        sets = list(itertools.product(kk, repeat=n)) if n <= 3 else [[kk[(v + i * (1 + v // 5)) % 5] for i in range(n)] for v in range(25)] + [[k] * n for k in kk]
        for ks in sets:
            base = starts(n, 1)[0]
            spec = with_limits(case["robot"], ks, base)
            lo, hi = limits_of(spec)
            st = np.stack([base, np.clip(base + .25 * np.sin(np.arange(n) + 1.), lo, hi)])
            mats = list(targets(plain, starts(n, 2)).values())
            for mi, lsn in ((1, 0), (5, 0), (3, 1)):
                for ls in ([pk.BacktrackingLineSearch(max_iterations=3)] if lsn else [None]):
                    sol = solver(serial(spec), st, F64, case["cls"], max_iterations=mi, enforce_joint_limits=False, clamp_to_limits=True, line_search=ls).solve(tf(mats, F64))
                    q = npa(sol.solutions)
                    cx.expect(((q >= lo) & (q <= hi)).all(), "clamped-step-leaves:%s:%s" % (case["robot"], "-".join(ks)), lambda: "%s %s %s" % (q, lo, hi))
                    judge(cx, "clamp:%s:%s" % (case["robot"], "-".join(ks)), spec, sol, mats, st, F64, mi, 1e-3, 1e-2, False)
                    cx.add(states=q.size // n, traces=q.size // n)
