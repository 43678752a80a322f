"""Exhaustive groupings and histories of solves.  Every way of splitting and ordering a set of problems of all kinds
(solved at the start, near, far, out of reach, half a turn away) and of retries into calls is executed and each problem's
result compared with the result of solving it alone: equal without early stopping, and with early stopping nothing solved
alone may be lost.  Every sequence of calls on one solver (other targets, other numbers of targets, other solvers on the
same chain, queries in between) must repeat its results, bit for bit, as a fresh solver does.  Starts on a grid of
displacements around configurations on a grid must be solved, and starts that are singular, huge or at limits must
terminate with finite results."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *
from mc.ikc import *

BOUNDS = dict(quick="all ordered groupings of up to 3 of 8 problems, all subsets of 3 retries; all call sequences of length 3 over 6 operations; up to 257 problems or attempts at a time; chains of 9..20 joints; nearby starts: 7 robots x 6 attribute variants x 6 configurations x 6 displacements, 2 kernels; 12 kinds of extreme starts",
              thorough="all ordered groupings of up to 4 problems; call sequences of length 4; nearby starts: 12 variants x 12 configurations x 12 displacements; both number types")


def cases(tier):
    th = tier == "thorough"
    out = []
    for rb, cls in itertools.product(("rpr", "six", "mixed") if not th else ROBOTS, CLS):
        for en in (0, 1):
            for es in ("none", "any", "imp-any", "imp-all", "imp-half"):
                out.append(dict(name="group:%s:%s:%d:%s" % (rb, cls, en, es), kind="group", robot=rb, cls=cls, en=en, es=es, depth=4 if th else 3))
    for rb, cls in itertools.product(("rpr", "six"), CLS):
        out.append(dict(name="hist:%s:%s" % (rb, cls), kind="hist", robot=rb, cls=cls, depth=4 if th else 3))
    for rb in ROBOTS:
        for v in range(12 if th else 6):
            for dt in (("f64", "f32") if th else ("f64",)):
                out.append(dict(name="near:%s:%d:%s" % (rb, v, dt), kind="near", robot=rb, v=v, n=12 if th else 6, dt=dt))
    for rb in ROBOTS:
        for cls in CLS:
            for dt in ("f64", "f32"):
                out.append(dict(name="extreme:%s:%s:%s" % (rb, cls, dt), kind="extreme", robot=rb, cls=cls, dt=dt))
    for rb in (("rpr", "six", "slide") if not th else ROBOTS):
        for cls in CLS:
            for es in ES:
                out.append(dict(name="many:%s:%s:%s" % (rb, cls, es), kind="many", robot=rb, cls=cls, es=es, top=260 if not th else 2100))
    for k in ((9, 12, 20) if not th else (9, 10, 11, 12, 13, 16, 17, 20, 33)):
        for cls in CLS:
            out.append(dict(name="long:%d:%s" % (k, cls), kind="long", k=k, cls=cls))
    return out


ES = {"none": dict(early_stopping_no_improvement=None), "any": dict(early_stopping_any_converged=True, early_stopping_no_improvement=None),
      "imp-any": dict(early_stopping_no_improvement="any"), "imp-all": dict(early_stopping_no_improvement="all"),
      "imp-half": dict(early_stopping_no_improvement=.5, early_stopping_any_converged=True)}


def lims(k):
    return [(-1.8, 2.1), None, (-2., 2.5), (-2.5, 5.), None, (-3., 3.)][k % 6]


def group(case, cx):
    spec = spec_of(case["robot"], lims)
    n = len(ref.movable(spec))
    sc = serial(spec)
    st = starts(n, 3)
    tg = targets(spec, st)
    mats = list(tg.values())
    en, cls = bool(case["en"]), case["cls"]
    kw = dict(max_iterations=14, enforce_joint_limits=en, **ES[case["es"]])
    if case["es"] != "none" and en:
        kw["num_limit_refinement_iterations"] = 0  # refinement may solve by itself what stopping early left unsolved
    lab = case["name"]
    alone = [snap(solver(sc, st, F64, cls, **kw).solve(tf([m], F64))) for m in mats]
    exact = case["es"] == "none"

    def cmp(i, s, j, what):
        a = alone[i]
        if exact:
            e = R.maxerr(npa(s["solutions"][j]), npa(a["solutions"][0]))
            cx.expect(e < 1e-6, "not-alone:%s:%s" % (lab, what), lambda: "target %s: %s alone %s" % (list(tg)[i], s["solutions"][j], a["solutions"][0]))
            cx.expect(torch.equal(s["converged"][j], a["converged"][0]), "not-alone-flags:%s:%s" % (lab, what), lambda: "target %s" % list(tg)[i])
            cx.expect(R.maxerr(npa(s["err_pos"][j]), npa(a["err_pos"][0])) < 1e-6 and R.maxerr(npa(s["err_rot"][j]), npa(a["err_rot"][0])) < 1e-6, "not-alone-errors:%s:%s" % (lab, what))
        else:
            cx.expect(bool((s["converged"][j] | ~a["converged"][0]).all()) and bool(s["converged_any"][j] or not a["converged_any"][0]), "lost:%s:%s" % (lab, what),
                      lambda: "target %s: %s alone %s" % (list(tg)[i], s["converged"][j], a["converged"][0]))

    sels = [s for d in range(2, case["depth"] + 1) for s in (itertools.permutations(range(len(mats)), d) if d < 3 else itertools.combinations(range(len(mats)), d))]
    sels += [tuple(range(len(mats))), tuple(reversed(range(len(mats)))), (3,) * 5, (3, 1) * 4, (4, 4, 2)]
    for sel in sels:
        ik = solver(sc, st, F64, cls, **kw)
        s = snap(ik.solve(tf([mats[i] for i in sel], F64)))
        for j, i in enumerate(sel):
            cmp(i, s, j, "group")
        cx.expect(s["iterations"] == kw["max_iterations"] if exact else s["iterations"] <= kw["max_iterations"], "iterations:" + lab)
        cx.add(states=len(sel), traces=len(sel))
        cx.outcome(lab, sel, tuple(s["converged"].flatten().tolist()))
    # retries alone and in every subset and order
    if exact:
        for d in (1, 2, 3):
            for sub_ in itertools.permutations(range(3), d):
                s = snap(solver(sc, st[list(sub_)], F64, cls, **kw).solve(tf(mats, F64)))
                for j, r in enumerate(sub_):
                    for i in range(len(mats)):
                        cx.expect(R.maxerr(npa(s["solutions"][i, j]), npa(alone[i]["solutions"][0, r])) < 1e-6 and bool(s["converged"][i, j] == alone[i]["converged"][0, r]),
                                  "retry-not-alone:" + lab, lambda: "target %s retry %d" % (list(tg)[i], r))
                cx.add(states=d * len(mats), traces=d * len(mats))
    cx.sample = dict(group=case["name"], targets=list(tg), solved_alone=[bool(a["converged_any"][0]) for a in alone])


def hist(case, cx):
    spec = spec_of(case["robot"], lims)
    n = len(ref.movable(spec))
    st = starts(n, 2)
    tg = targets(spec, st)
    mats = list(tg.values())
    cls = case["cls"]
    kw = dict(max_iterations=7)

    def fresh():
        return solver(serial(spec), st, F64, cls, **kw)

    batches = dict(a=mats[:3], b=[mats[5]], c=mats[2:])
    want = {k: snap(fresh().solve(tf(b, F64))) for k, b in batches.items()}
    ops = list(batches) + ["clear", "query", "other", "anyconv"]
    for seq in itertools.product(ops, repeat=case["depth"]):
        if seq[-1] not in batches:
            continue
        ik = fresh()
        sc = ik.chain
        conf = ik.initial_config.clone()
        held = []
        for op in seq:
            if op in batches:
                T = tf(batches[op], F64)
                m0 = T.get_matrix().clone()
                sol = ik.solve(T)
                s = snap(sol)
                bad = same(s, want[op])
                cx.expect(not bad, "not-repeated:%s" % case["name"], lambda: "%s: %s differ" % (seq, bad))
                cx.expect(torch.equal(T.get_matrix(), m0), "target-modified:" + case["name"])
                held.append((sol, s))
                with torch.no_grad():
                    T.get_matrix().zero_()  # the caller's target is the caller's
            elif op == "clear":
                ik.clear()
            elif op == "query":
                sc.forward_kinematics(torch.zeros(3, n, dtype=F64))
                sc.jacobian(torch.ones(1, n, dtype=F64))
            elif op == "other":
                solver(sc, st + .3, F64, "svd" if cls == "dls" else "dls", max_iterations=3, pos_tolerance=1.).solve(tf(mats[:2], F64))
            else:
                ik2 = solver(sc, st, F64, cls, max_iterations=3, early_stopping_any_converged=True)
                r = ik2.solve(tf(mats[:1], F64))
                r.solutions.fill_(9.)
            cx.expect(torch.equal(ik.initial_config, conf), "starts-modified:" + case["name"])
            cx.expect(all(not same(snap(a), b) for a, b in held), "earlier-solution-changed:" + case["name"], lambda: str(seq))
        cx.add(states=1, traces=1)
        cx.outcome(seq)


def near(case, cx):
    types, _ = ROBOTS[case["robot"]]
    dt = DT[case["dt"]]
    spec = R.chain_spec(types, case["v"])
    mv = ref.movable(spec)
    n, N = len(mv), case["n"]
    sc = serial(spec, dt)
    q, _ = qrows(spec, N, case["v"])
    q = np.stack([q[m["jname"]] for m in mv], 1)
    q[0] = 0
    disp = [d * np.cos(np.arange(n) * (1.1 + k) + .7 * k) for d in (.05, .2) for k in range(N // 2)] + [np.full(n, .1)]
    mats = pose_of(spec, q)
    for i in range(N):
        st = np.stack([q[i] + d for d in disp])
        for cls in CLS:
            for es in ("none", "any"):
                ik = solver(sc, st, dt, cls, max_iterations=40, **ES[es])
                s = ik.solve(tf(mats[i:i + 1], dt))
                lab = "near:%s:%d:%s:%s" % (case["robot"], case["v"], cls, es)
                judge(cx, lab, spec, s, mats[i:i + 1], st, dt, 40, 1e-3, 1e-2, True, tol=1e-6 if dt == F64 else 5e-3)
                ok = s.converged.all() if es == "none" else s.converged_any.all()
                cx.expect(bool(ok), "unsolved:" + lab, lambda: "configuration %s start offsets %s errors %s %s" % (
                    q[i].tolist(), [disp[k].tolist() for k in np.nonzero(~npa(s.converged[0]).astype(bool))[0]], s.err_pos.tolist(), s.err_rot.tolist()))
                cx.add(states=len(disp), traces=len(disp))
                cx.outcome(lab, i, s.iterations)


def many(case, cx):
    """many problems, or many attempts, at a time: each as in a small group"""
    spec = spec_of(case["robot"], lims)
    n = len(ref.movable(spec))
    sc = serial(spec)
    top = case["top"]
    exact = case["es"] == "none"
    st = starts(n, top, .3)
    kw = dict(max_iterations=5, enforce_joint_limits=exact and case["robot"] != "slide", **ES[case["es"]])
    i = np.arange(top)[:, None]
    mats = pose_of(spec, st[:1] + .25 * np.sin(.7 * i + 1.9 * np.arange(n)[None]))
    lab = "%s" % case["name"]
    ns = [x + e for x in (8, 10, 12, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048) for e in (-1, 0, 1) if x + 1 <= top]

    def cmp(s, want, what):
        if exact:
            e = R.maxerr(npa(s["solutions"]), npa(want["solutions"]))
            cx.expect(e < 1e-6, "many-differ:" + lab, lambda: "%s: differ by %g" % (what, e))
            cx.expect(torch.equal(s["converged"], want["converged"]) and torch.equal(s["converged_any"], want["converged_any"]), "many-flags:" + lab, what)
        else:
            cx.expect(bool((s["converged"] | ~want["converged"]).all()), "many-lost:" + lab, what)

    for Rn in (1, 3):
        parts = [snap(solver(sc, st[:Rn], F64, case["cls"], **kw).solve(tf(mats[k:k + 1], F64))) for k in range(top)]
        want = {k: torch.cat([p[k] for p in parts]) for k in ("solutions", "converged", "converged_any")}
        for M in ns if Rn == 1 else ns[2::3]:
            s = snap(solver(sc, st[:Rn], F64, case["cls"], **kw).solve(tf(mats[:M], F64)))
            cmp(s, {k: v[:M] for k, v in want.items()}, "%d problems, %d attempts" % (M, Rn))
            cx.add(states=M * Rn, traces=M * Rn)
    if exact:
        parts = [snap(solver(sc, st[k:k + 1], F64, case["cls"], **kw).solve(tf(mats[:2], F64))) for k in range(top)]
        sols, conv = torch.cat([p["solutions"] for p in parts], 1), torch.cat([p["converged"] for p in parts], 1)
        for Rn in ns:
            s = snap(solver(sc, st[:Rn], F64, case["cls"], **kw).solve(tf(mats[:2], F64)))
            cmp(s, dict(solutions=sols[:, :Rn], converged=conv[:, :Rn], converged_any=conv[:, :Rn].any(1)), "2 problems, %d attempts" % Rn)
            cx.add(states=2 * Rn, traces=2 * Rn)
    cx.outcome(lab, tuple(want["converged"].flatten().tolist()))


def long(case, cx):
    """chains of many joints: solved from nearby starts, judged by the reference"""
    k = case["k"]
    for types in ([rv] * k, [[rv, rv, pr, rv, fx][i % 5] for i in range(k)]):
        for v in (0, 1, 2):
            spec = R.chain_spec(types, v)
            for i, m in enumerate(ref.movable(spec)):
                m["limits"] = lims(i)
            n = len(ref.movable(spec))
            sc = serial(spec)
            st = starts(n, 4, .4)
            q = st[0] + .05 * np.cos(np.arange(3)[:, None] + 1.7 * np.arange(n)[None])
            mats = pose_of(spec, q)
            for es in ("none", "any"):
                s = solver(sc, np.concatenate([st, q]), F64, case["cls"], max_iterations=40, **ES[es]).solve(tf(mats, F64))
                lab = "long:%d:%s:%d:%s" % (k, case["cls"], v, es)
                judge(cx, lab, spec, s, mats, np.concatenate([st, q]), F64, 40, 1e-3, 1e-2, True, tol=1e-6)
                ok = s.converged[:, 0].all() if es == "none" else s.converged_any.all()
                cx.expect(bool(ok), "unsolved:" + lab, lambda: "errors %s %s" % (s.err_pos.tolist(), s.err_rot.tolist()))
                cx.add(states=3 * 7, traces=3 * 7)
                cx.outcome(lab, s.iterations)


def extreme(case, cx):
    types, v = ROBOTS[case["robot"]]
    dt = DT[case["dt"]]
    lk = [None, lambda k: (-1., 1.), lims, lambda k: (0., 0.), lambda k: (-100., -99.5)]
    for li, lf in enumerate(lk):
        spec = spec_of(case["robot"], lf)
        n = len(ref.movable(spec))
        sc = serial(spec, dt)
        st = np.stack([np.zeros(n), np.full(n, np.pi), np.full(n, np.pi / 2), np.full(n, -1.), np.full(n, 1.), np.full(n, 30.), np.full(n, -200.), 1e3 * np.cos(np.arange(n)),
                       np.arange(n) * np.pi / 2, np.full(n, 1e-8), np.full(n, -99.7), 50 * np.sin(np.arange(n) + 1.)])
        mats = pose_of(spec, st)
        extra = [np.eye(4)]
        for t in ((1e3, 0, 0), (0, 0, -1e4), (1e-9, 0, 0)):
            m = np.eye(4)
            m[:3, 3] = t
            extra.append(m)
        for k in range(3):
            m = mats[k].copy()
            m[:3, :3] = m[:3, :3] @ ref.rot(np.eye(3)[k], np.pi)
            extra.append(m)
        mats = np.concatenate([mats, np.stack(extra)])
        for kw in (dict(), dict(lm_damping=0.), dict(clamp_to_limits=True), dict(line_search=pk.BacktrackingLineSearch()), dict(early_stopping_any_converged=True, lr=.5)):
            ik = solver(sc, st, dt, case["cls"], max_iterations=6, **kw)
            s = ik.solve(tf(mats, dt))
            lab = "%s:%d:%s" % (case["name"], li, list(kw))
            q = npa(s.solutions)
            if cx.expect(np.isfinite(q).all() and np.isfinite(npa(s.err_pos)).all() and np.isfinite(npa(s.err_rot)).all(), "non-finite:" + lab):
                if dt == F64 and not ("lm_damping" in kw):
                    judge(cx, lab, spec, s, mats, st, dt, 6, 1e-3, 1e-2, True, tol=1e-5)
            cx.expect(s.iterations <= 6, "iterations:" + lab)
            cx.add(states=len(mats) * len(st), traces=len(mats) * len(st))


def run(case, cx):
    torch.set_num_threads(1)
    globals()[case["kind"]](case, cx)
