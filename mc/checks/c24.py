"""The random generator is replaced by an adversary that answers every request with scripted values: all rows over an
alphabet of signs, zeros, tiny and large values (all combinations of offset, angle and axis rows).  For every answer the
sampled rotations must be proper, unit and of non-negative real part, and the perturbed poses must be the original one
turned and shifted as drawn.  Requests of every public sampling function are answered, whichever torch sampling call it uses."""
import itertools

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms.perturbation import sample_perturbations
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="all 7^4-1 quaternion draws; 27 offsets x 9 angles x 26 axes per pose, 4 poses, 5 spreads, 6 given axes, 6 sample numbers, 2 number types",
              thorough="11^4-1 quaternion draws; 125 x 17 x 124 perturbation draws")
TOLS = {F64: 1e-10, F32: 1e-5}


class Script(TorchFunctionMode):
    """answers normal draws from scripts chosen by the shape asked for; records what was asked"""

    def __init__(self, answer, uniform=False):
        super().__init__()
        self.answer = answer
        self.uniform = uniform  # answer requests for uniform draws as well
        self.asked = []

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", "")
        if name in ("randn", "randn_like") or self.uniform and name in ("rand", "rand_like"):
            if name in ("randn_like", "rand_like"):
                shape, dtype = tuple(args[0].shape), kwargs.get("dtype") or args[0].dtype
            else:
                s = kwargs.get("size", args)
                s = s[0] if len(s) == 1 and not isinstance(s[0], int) else s
                shape, dtype = tuple(s), kwargs.get("dtype") or torch.get_default_dtype()
            v = torch.tensor(self.answer(shape, len(self.asked)), dtype=dtype).reshape(shape)
            self.asked.append((shape, npa(v)))
            if kwargs.get("requires_grad"):
                v.requires_grad_()
            return v
        return func(*args, **kwargs)


def cases(tier):
    out = []
    for d in ("f64", "f32"):
        out.append(dict(name="quaternions-" + d, what="quaternions", d=d, tier=tier))
        for T in range(4):
            for ax in range(-1, 6):
                out.append(dict(name="perturb-%d-%d-%s" % (T, ax, d), what="perturb", d=d, T=T, axis=ax, tier=tier))
    out.append(dict(name="seeds", what="seeds"))
    for d in ("f64", "f32"):
        out.append(dict(name="starts-" + d, what="starts", d=d, tier=tier))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)
    cx.outcome(case["name"])


def quaternions(case, cx):
    d = DT[case["d"]]
    vals = [0., -1., 1., .3, -2.5, 1e-7, -40.] + ([-1e-7, 1e5, -.01, 2.] if case["tier"] == "thorough" else [])
    rows = np.array([r for r in itertools.product(vals, repeat=4) if any(r)])
    # signed zeros as real part
    rows = np.concatenate([rows, [[-0., .6, -.8, 0], [-0., 0, 0, -1], [-1e-30, 1, 0, 0]]])
    for n in (1, 2, 3, len(rows)):
        for off in range(0, len(rows) if n < 4 else 1, max(1, len(rows) // 50)):
            chunk = np.roll(rows, -off, 0)[:n]
            for rg in (False, True):
                with Script(lambda shape, k: np.resize(chunk, shape)) as s:
                    q = tf.random_quaternions(n, dtype=d, requires_grad=rg)
                g = npa(q)
                cx.expect(tuple(q.shape) == (n, 4) and q.dtype == d and q.requires_grad == rg, "quaternion-form", "%s %s" % (tuple(q.shape), q.dtype))
                bad = ~np.isfinite(g).all(1) | (np.abs(np.linalg.norm(g, axis=1) - 1) > TOLS[d]) | (g[:, 0] < 0)
                cx.expect(not bad.any(), "quaternion-valid", lambda: "draw %s gives %s" % (chunk[bad.argmax()], g[bad.argmax()]))
                if s.asked and s.asked[0][0] == (n, 4) and len(s.asked) == 1:
                    w = s.asked[0][1]
                    w = w / np.linalg.norm(w, axis=1, keepdims=True)
                    e = np.minimum(np.abs(g - w).max(1), np.abs(g + w).max(1))
                    cx.expect(bool((e < TOLS[d]).all()), "quaternion-draw", lambda: "draw %s gives %s" % (chunk[e.argmax()], g[e.argmax()]))
                with Script(lambda shape, k: np.resize(chunk, shape)):
                    m = tf.random_rotations(n, dtype=d, requires_grad=rg)
                M = npa(m)
                e = np.abs(M @ np.swapaxes(M, 1, 2) - np.eye(3)).max((1, 2)) + np.abs(np.linalg.det(M) - 1)
                ok = tuple(m.shape) == (n, 3, 3) and m.dtype == d and bool((e < TOLS[d] * 5).all())
                cx.expect(ok, "rotation-valid", lambda: "draw %s gives %s" % (chunk[e.argmax()], M[e.argmax()].tolist()))
                cx.expect(R.materr(M, ref.qmat(g)) < TOLS[d] * 5, "rotation-is-quaternion", "random_rotations and random_quaternions disagree on the same draw")
            if n == 1:
                with Script(lambda shape, k: np.resize(chunk, shape)):
                    m = tf.random_rotation(dtype=d)
                cx.expect(tuple(m.shape) == (3, 3) and m.dtype == d and np.abs(npa(m) @ npa(m).T - np.eye(3)).max() < TOLS[d] * 5 and np.linalg.det(npa(m)) > 0,
                          "rotation-single", lambda: "draw %s" % chunk[0])
            cx.add(states=n, traces=1)
    for n in (0,):
        cx.expect(tf.random_quaternions(0, dtype=d).shape == (0, 4) and tf.random_rotations(0, dtype=d).shape == (0, 3, 3), "empty", "no rotations")
    cx.sample = dict(rows=len(rows), example=rows[5].tolist())


POSES = [np.eye(4), ref.pose((1., -2, 3), (.3, .8, -2.)), ref.T(ref.rot((1, 0, 0), np.pi), (0, 0, 5.)), ref.T(ref.rot((1, 1, 1), 2 * np.pi / 3), (-.1, .2, 0))]
AXIS = [ref.unit(v) for v in [(0, 0, 1), (1, 0, 0), (0, -1, 0), (1, 1, 0), (1, 2, -3), (-.3, .5, .7)]]


def perturb(case, cx):
    d = DT[case["d"]]
    deep = case["tier"] == "thorough"
    tvals = [-1.5, 0., .4] if not deep else [-1.5, 0., .4, 1e-7, 30.]
    offs = np.array(list(itertools.product(tvals, repeat=3)))
    angs = np.array([0., 1., -1., 1e-7, .3, np.pi, -2.5, 4., 12.] + ([-1e-7, -np.pi, np.pi / 2, -.3, 2., -4., 25., 1e-3] if deep else []))
    axs = np.array([v for v in itertools.product((-1., 0, .7) if not deep else (-1., 0, .7, 1e-3, 20.), repeat=3) if any(v)])
    T0 = POSES[case["T"]]
    given = case["axis"] >= 0
    grid = [offs, angs[:, None]] + ([] if given else [axs])
    idx = np.stack([g.ravel() for g in np.meshgrid(*[np.arange(len(g)) for g in grid], indexing="ij")], 1)
    full = dict(o=offs[idx[:, 0]], a=angs[idx[:, 1]], x=None if given else axs[idx[:, 2]])
    N = len(idx)
    axis = AXIS[case["axis"]] if given else None
    spreads = [(1., 1.), (0., 1.), (1., 0.), (0., 0.), (.05, 2.)]
    for sr, st in spreads:
        for perp in ((True, False) if given else (True,)):
            for n in (N, 1, 2, 5):
                for off in range(0, N if n != N else 1, max(1, N // (12 if not deep else 40))):
                    rows = (np.arange(n) + off) % N
                    o, a = full["o"][rows], full["a"][rows]
                    x = None if given else full["x"][rows]
                    three = [0]

                    def answer(shape, k):
                        if shape == (n,) or shape == (n, 1):
                            return a
                        if shape == (n, 3):
                            three[0] += 1
                            return o if three[0] == 1 or x is None else x
                        return np.resize(o, shape)
                    for batched in ((False,) if n == N else (False, True)):
                        Tn = np.tile(T0, (n, 1, 1)) if batched else T0
                        if batched:
                            Tn = np.stack([POSES[(case["T"] + i) % 4] for i in range(n)])
                        T = torch.tensor(Tn, dtype=d)
                        keep = T.clone()
                        three[0] = 0
                        kw = {}
                        if given:
                            kw = dict(axis_of_rotation=torch.tensor(axis, dtype=d), translation_perpendicular_to_axis_of_rotation=perp)
                        ka = kw.get("axis_of_rotation", torch.zeros(1)).clone()
                        with Script(answer) as s:
                            P = sample_perturbations(T, n, sr, st, **kw)
                        lab = "pose %d, spread %s, axis %s, %d samples" % (case["T"], (sr, st), axis, n)
                        cx.expect(torch.equal(T, keep) and torch.equal(ka, kw.get("axis_of_rotation", ka)), "original", lab)
                        judge(cx, npa(P), P.dtype, Tn, o, a, x, axis, perp, sr, st, d, s, lab, n)
                        if not given:
                            three[0] = 0
                            X = pk.Transform3d(matrix=T)
                            with Script(answer) as s:
                                Q = X.sample_perturbations(n, sr, st)
                            judge(cx, npa(Q.get_matrix()), Q.dtype, Tn, o, a, x, axis, perp, sr, st, d, s, lab + " (Transform3d)", n)
                            cx.expect(torch.equal(X.get_matrix().reshape(T.shape), keep), "original", lab)
                        cx.add(states=n, traces=1)
    P = sample_perturbations(torch.tensor(T0, dtype=d), 0, 1., 1.)
    cx.expect(tuple(P.shape) == (0, 4, 4), "none", "no samples")
    cx.sample = dict(pose=T0.tolist(), draws=N, axis=None if axis is None else axis.tolist())


def judge(cx, P, dtype, T0, o, a, x, axis, perp, sr, st, d, s, lab, n):
    tol = TOLS[d] * 60
    cx.expect(P.shape == (n, 4, 4) and dtype == d, "form", lambda: "%s: %s %s" % (lab, P.shape, dtype))
    if P.shape != (n, 4, 4):
        return
    Rm = P[:, :3, :3]
    e = np.abs(Rm @ np.swapaxes(Rm, 1, 2) - np.eye(3)).max((1, 2)) + np.abs(np.linalg.det(Rm) - 1)
    cx.expect(bool((e < tol).all()) and bool((P[:, 3] == [0, 0, 0, 1]).all()), "proper", lab)
    R0 = np.broadcast_to(T0, (n, 4, 4))[:, :3, :3]
    dR = Rm @ np.swapaxes(R0, 1, 2)
    dt = P[:, :3, 3] - np.broadcast_to(T0, (n, 4, 4))[:, :3, 3]
    if sr == 0:
        cx.expect(R.materr(Rm, R0) < tol, "no-rotation-spread", lab)
    if st == 0:
        cx.expect(float(np.abs(dt).max()) < tol, "no-translation-spread", lab)
    if axis is not None:
        cx.expect(float(np.abs(dR @ axis - axis).max()) < tol, "about-axis", lab)
        if perp:
            cx.expect(float(np.abs(dt @ axis).max()) < tol * (1 + st * 5), "perpendicular", lambda: "%s: shift %s along the axis" % (lab, np.abs(dt @ axis).max()))
    # the drawn values: any assignment of the two 3-vectors drawn is as good
    shapes_ = sorted(k for k, _ in s.asked)
    if shapes_ not in ([(n,), (n, 3)], [(n,), (n, 3), (n, 3)], [(n, 1), (n, 3)], [(n, 1), (n, 3), (n, 3)]) and n != 3:
        cx.count("draws_not_recognised")
        return
    r = npa(torch.tensor(a, dtype=d)) * sr
    options = [(o, x)] if x is None else [(o, x), (x, o)]
    best = np.inf
    for oo, xx in options:
        sh = oo * st
        ax = axis
        if xx is not None:
            nrm = np.linalg.norm(xx, axis=1)
            if (nrm == 0).any():
                continue
            ax = xx / nrm[:, None]
        else:
            ax = np.broadcast_to(axis, (n, 3))
            if perp:
                sh = sh - (sh * ax).sum(1, keepdims=True) * ax
        want = np.stack([ref.rot(u, t) for u, t in zip(ax, r)]) if n < 50 else rots(ax, r)
        best = min(best, max(np.abs(dR - want).max(), np.abs(dt - sh).max() / (1 + 40 * st)))
    cx.expect(best < tol, "as-drawn", lambda: "%s: error %g" % (lab, best))


def rots(ax, th):
    K = np.zeros((len(ax), 3, 3))
    K[:, 2, 1], K[:, 0, 2], K[:, 1, 0] = ax[:, 0], ax[:, 1], ax[:, 2]
    K = K - np.swapaxes(K, 1, 2)
    return np.eye(3) + np.sin(th)[:, None, None] * K + (1 - np.cos(th))[:, None, None] * (K @ K)


def starts(case, cx):
    """start configurations of inverse kinematics, for every answer of the generator: within the limits given and reaching both
    ends of them (uniform), the draws themselves (gaussian), around the configuration given, or what the given function returns"""
    d = DT[case["d"]]
    eps = float(torch.finfo(d).eps)
    for n in (1, 2, 3):
        spec = R.chain_spec(["revolute", "prismatic", "revolute"][:n], 1)
        sc = pk.SerialChain(R.build(spec, d), spec["nodes"][-1]["name"])
        us = np.array(list(itertools.product([0., .25, .5, .75, 1 - eps / 2], repeat=n)))
        gs = np.array(list(itertools.product([0., -1., 3.5, 1e-6], repeat=n)))
        iv = [(-1., 2.), (0., 0.), (.1, .3), (-40., -3.), (1e-3, 7.)]
        for k in range(len(iv)):
            lim = np.array([iv[(k + i) % len(iv)] for i in range(n)])
            for m in (1, 2, len(us)):
                for off in range(0, len(us), m if m < 3 else len(us)):
                    rows = us[(np.arange(m) + off) % len(us)]
                    L = torch.tensor(lim, dtype=d)
                    with Script(lambda shape, j: np.resize(rows, shape), uniform=True) as s:
                        ik = pk.PseudoInverseIK(sc, num_retries=m, joint_limits=L)
                    g = npa(ik.initial_config)
                    lab = "limits %s, %d starts" % (lim.tolist(), m)
                    cx.expect(g.shape == (m, n) and ik.initial_config.dtype == d and torch.equal(L, torch.tensor(lim, dtype=d)), "start-form", lambda: "%s: %s %s" % (lab, g.shape, ik.initial_config.dtype))
                    tol = eps * 4 * (1 + np.abs(lim).max(1))
                    cx.expect(bool((g >= lim[:, 0] - tol).all() and (g <= lim[:, 1] + tol).all()), "start-range", lambda: "%s: draws %s give %s" % (lab, rows.tolist()[:3], g.tolist()[:3]))
                    if [a for a, _ in s.asked] == [(m, n)]:
                        up, down = lim[:, 0] + rows * (lim[:, 1] - lim[:, 0]), lim[:, 1] - rows * (lim[:, 1] - lim[:, 0])
                        e = np.minimum(np.abs(g - up).max(0), np.abs(g - down).max(0))
                        cx.expect(bool((e <= tol + eps * 40).all()), "start-uniform", lambda: "%s: draws %s give %s" % (lab, rows.tolist()[:3], g.tolist()[:3]))
                    else:
                        cx.count("draws_not_recognised")
                    cx.add(states=m, traces=1)
        around = torch.tensor(gs[-1], dtype=d)
        for m in (1, 2, len(gs)):
            for off in range(0, len(gs), m if m < 3 else len(gs)):
                rows = gs[(np.arange(m) + off) % len(gs)]
                for how, want in (("gaussian", rows), (pk.gaussian_around_config(around, .1), npa(around) + .1 * rows), (pk.gaussian_around_config(around, 0.), npa(around) + 0 * rows)):
                    with Script(lambda shape, j: np.resize(rows, shape)) as s:
                        ik = pk.PseudoInverseIK(sc, num_retries=m, config_sampling_method=how)
                    g = npa(ik.initial_config)
                    cx.expect(g.shape == (m, n) and ik.initial_config.dtype == d, "start-form", lambda: "%s %s" % (how, g.shape))
                    if [a for a, _ in s.asked] == [(m, n)]:
                        cx.expect(float(np.abs(g - want).max()) <= eps * 40, "start-gaussian", lambda: "%s: draws %s give %s" % (how, rows.tolist()[:3], g.tolist()[:3]))
                    else:
                        cx.count("draws_not_recognised")
                    cx.add(states=m, traces=1)
                own = pk.PseudoInverseIK(sc, num_retries=m, config_sampling_method=lambda k_: torch.tensor(np.resize(rows, (k_, n)), dtype=d))
                cx.expect(np.abs(npa(own.initial_config) - npa(torch.tensor(rows, dtype=d))).max() == 0, "start-own", "own sampling function is not followed")


def seeds(case, cx):
    """the answers of the real generator: a seed determines them, and drawing leaves other draws valid"""
    fs = [lambda: tf.random_quaternions(4), lambda: tf.random_rotations(3, dtype=F64), lambda: tf.random_rotation(),
          lambda: sample_perturbations(torch.eye(4), 5, .1, .2), lambda: pk.Transform3d().sample_perturbations(3, .1, .1).get_matrix(),
          lambda: sample_perturbations(torch.eye(4, dtype=F64), 5, .1, .2, axis_of_rotation=torch.tensor([0., 0, 1], dtype=F64))]
    for k in range(20):
        for seq in itertools.product(range(len(fs)), repeat=2):
            torch.manual_seed(k)
            a = [fs[i]() for i in seq]
            torch.manual_seed(k)
            b = [fs[i]() for i in seq]
            cx.expect(all(torch.equal(u, v) for u, v in zip(a, b)), "seed", "the same seed gives other samples")
            cx.expect(all(bool(torch.isfinite(u).all()) for u in a), "finite", "seed %d" % k)
            cx.add(states=1)
    cx.sample = dict(seeds=20)
