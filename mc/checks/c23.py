"""Full grid of axes x angles (dense at both ends of the range, beyond a turn) x tolerances x batch sizes for exponential,
logarithm, rotation angle; all pairs for relative angles; the extrapolated arc cosine on a grid crossing every region for
every bound; and every kind of malformed input, alone and hidden at each place of a batch, must be rejected."""
import itertools
import math

import numpy as np
import torch

import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import so3
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="38 axes x 44 angles x 3 tolerances, 60^2 relative pairs, 6 batch sizes, 9 bounds x 60 arguments, 5 malformed kinds x places",
              thorough="102 axes x 144 angles, 180^2 pairs")
ANG = [0., 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 3e-3, 7e-3, 9.99e-3, .01, .0101, .012, .0141, .01415, .0143, .02, .05, .1, .3, .5, 1., 1.3, np.pi / 2, 1.9, 2.,
       2 * np.pi / 3, 2.4, 2.9, 3., 3.1, np.pi - .03, np.pi - .02, np.pi - .0145, np.pi - .0141, np.pi - .01, np.pi - 1e-3, np.pi - 1e-6, np.pi]
BEYOND = [3.5, 4., 3 * np.pi / 2, 6., 2 * np.pi, 7., 40.3, 100.]
TOLS = {F64: 1e-11, F32: 5e-6}


def axes(tier):
    a = [ref.unit(v) for v in itertools.product((-1., 0, 1), repeat=3) if any(v)]
    a += [ref.unit(v) for v in [(1, 2, -3), (-.3, .5, .7), (1, 1e-4, 0), (1e-8, 1, 0), (0, -1e-3, -1), (.2, .9, .1)]]
    if tier == "thorough":
        a += [ref.unit(v) for v in itertools.product((-.9, -.2, .35, 1.), repeat=3)]
    return np.array(a)


def angs(tier):
    return ANG + ([.031 * i for i in range(1, 101)] if tier == "thorough" else [])


def cases(tier):
    out = []
    for d in ("f64", "f32"):
        for w in ("exp", "log", "angle", "relative", "acos", "batches"):
            out.append(dict(name=w + "-" + d, what=w, d=d, tier=tier))
    out.append(dict(name="malformed", what="malformed"))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)
    cx.outcome(case["name"])


def rotvs(w):
    a = np.linalg.norm(w, axis=-1)[..., None, None]
    K = np.zeros(w.shape[:-1] + (3, 3))
    K[..., 2, 1], K[..., 0, 2], K[..., 1, 0] = w[..., 0], w[..., 1], w[..., 2]
    K = K - np.swapaxes(K, -1, -2)
    return np.eye(3) + np.sinc(a / np.pi) * K + .5 * np.sinc(a / 2 / np.pi) ** 2 * (K @ K)


def cell(cx, sig, err, bound, what):
    r = np.where(np.isfinite(err), err / bound, np.inf)
    i = int(r.argmax())
    cx.expect(r[i] <= 1, sig, lambda: "%s: error %g, allowed %g" % (what(i), err[i], bound[i]))


def exp(case, cx):
    dtype = DT[case["d"]]
    w = np.array([a * k for k in axes(case["tier"]) for a in angs(case["tier"]) + BEYOND])
    t = torch.tensor(w, dtype=dtype)
    w64 = npa(t)
    a = np.linalg.norm(w64, axis=1)
    want = rotvs(w64)
    for eps in (None, 1e-8, 1e-2):
        got = npa(tf.so3_exp_map(t) if eps is None else tf.so3_exp_map(t, eps=eps))
        e = eps or 1e-4
        # within the stated tolerance (squared angle below eps) the factors are those of angle sqrt(eps)
        bound = TOLS[dtype] * np.maximum(1, a / 3) + np.where(a * a < e * 1.01, a * e / 3, 0)
        if dtype == F32 and e < 1e-7:  # 1 - cos of 1e-4 has no digits in this number type; it multiplies the square
            bound = bound + np.where(a < .05, a * a, 0)
        cell(cx, "exp", np.abs(got - want).max((1, 2)), bound, lambda i: "vector %s eps %s" % (w64[i].tolist(), eps))
        cell(cx, "exp-orthonormal", np.abs(got @ np.swapaxes(got, 1, 2) - np.eye(3)).max((1, 2)), bound * 3 + TOLS[dtype], lambda i: "vector %s eps %s" % (w64[i].tolist(), eps))
    cx.add(states=3 * len(w), traces=1)
    cx.sample = dict(vector=w64[77].tolist())


def log(case, cx):
    dtype = DT[case["d"]]
    k, g = axes(case["tier"]), angs(case["tier"])
    w = np.array([a * x for x in k for a in g])
    a = np.linalg.norm(w, axis=1)
    m = torch.tensor(rotvs(w), dtype=dtype)
    got = npa(tf.so3_log_map(m))
    cx.expect(bool(np.isfinite(got).all()), "log-finite", "a logarithm is not finite")
    ok = a < np.pi - .0143  # nearer to a half turn the angle is extrapolated (stated bound on the cosine: 1e-4)
    s = np.maximum(np.sin(a), .01)
    u = 1e-15 if dtype == F64 else 1.5e-7
    near = a < .0145
    bound = 40 * u / s ** 2 * np.maximum(a, .0) + 8 * u + np.where(near, a * 1e-4, 0)
    cell(cx, "log", np.abs(got - w).max(1)[ok], bound[ok], lambda i: "rotation by %s gives %s" % (w[ok][i].tolist(), got[ok][i].tolist()))
    back = npa(tf.so3_exp_map(torch.tensor(got, dtype=dtype)))
    cell(cx, "exp-of-log", np.abs(back - npa(m)).max((1, 2))[ok], (bound * 3 + TOLS[dtype] + np.where(near, 1e-5, 0))[ok], lambda i: "rotation by %s" % w[ok][i].tolist())
    e = tf.so3_exp_map(torch.tensor(w, dtype=dtype))
    again = npa(tf.so3_log_map(e))
    cell(cx, "log-of-exp", np.abs(again - w).max(1)[ok], (bound * 4 + TOLS[dtype] + a * (a < .011) * 1e-4)[ok], lambda i: "vector %s gives %s" % (w[ok][i].tolist(), again[ok][i].tolist()))
    cx.add(states=len(w), traces=2)
    cx.sample = dict(rotation=w[100].tolist())


def angle(case, cx):
    dtype = DT[case["d"]]
    k, g = axes(case["tier"]), angs(case["tier"]) + BEYOND
    w = np.array([a * x for x in k for a in g])
    m = torch.tensor(rotvs(w), dtype=dtype)
    true = ref.rot_angle(rotvs(w))
    cos = npa(tf.so3_rotation_angle(m, cos_angle=True))
    u = 1e-15 if dtype == F64 else 1.5e-7
    cell(cx, "cosine", np.abs(cos - np.cos(true)), np.full(len(w), 8 * u), lambda i: "rotation by %s" % w[i].tolist())
    s = np.sin(true)
    for cb in (None, 1e-4, 1e-2, 0.):
        got = npa(tf.so3_rotation_angle(m) if cb is None else tf.so3_rotation_angle(m, cos_bound=cb))
        b = 1e-4 if cb is None else cb
        mid = np.abs(np.cos(true)) < 1 - b - 4 * u
        if b:
            # linear beyond the bound
            c = np.cos(true)
            want = np.where(mid, true, np.where(c > 0, math.acos(1 - b) - (c - 1 + b) / math.sqrt(1 - (1 - b) ** 2),
                                                math.acos(b - 1) - (c + 1 - b) / math.sqrt(1 - (1 - b) ** 2)))
            cell(cx, "angle", np.abs(got - want), 20 * u / np.maximum(s, math.sqrt(b)) + 8 * u, lambda i: "rotation by %s gives %g (cos_bound %s)" % (w[i].tolist(), got[i], cb))
        else:
            ok = s > 1e-2
            cell(cx, "angle-unbounded", np.abs(got - true)[ok], (20 * u / s)[ok], lambda i: "rotation by %s gives %g" % (w[ok][i].tolist(), got[ok][i]))
    cx.add(states=4 * len(w), traces=1)


def relative(case, cx):
    dtype = DT[case["d"]]
    k = axes("quick")
    ms = [np.array(m) for m in ref.octahedral()] + [ref.rot(x, a) for x in (k[0], k[7], k[-1], k[-6]) for a in (1e-3, .3, 1.2, 2., 2.9)] + \
         [ref.rot(x, 1.1) @ ref.rot(y, -.7) for x in k[:26:5] for y in k[1:26:9]]
    if case["tier"] == "thorough":
        ms += [ref.rot(x, a) @ ms[(7 * i) % 24] for i, x in enumerate(k) for a in (.4, -1.7, 2.2)]
    ms = np.array(ms)
    n = len(ms)
    i, j = [x.ravel() for x in np.meshgrid(range(n), range(n), indexing="ij")]
    t = torch.tensor(ms, dtype=dtype)
    true = ref.rot_angle(ms[i] @ np.swapaxes(ms[j], 1, 2))
    u = 1e-15 if dtype == F64 else 3e-7
    cos = npa(tf.so3_relative_angle(t[i], t[j], cos_angle=True))
    cell(cx, "relative-cosine", np.abs(cos - np.cos(true)), np.full(len(i), 10 * u), lambda x: "rotations %d %d" % (i[x], j[x]))
    got = npa(tf.so3_relative_angle(t[i], t[j]))
    mid = np.sin(true) > .0145
    cell(cx, "relative-angle", np.abs(got - true)[mid], (30 * u / np.sin(true))[mid], lambda x: "rotations %s: %g instead of %g" % ((ms[i[mid][x]].tolist(), ms[j[mid][x]].tolist()), got[mid][x], true[mid][x]))
    cell(cx, "relative-angle-ends", np.abs(got - true)[~mid], np.full((~mid).sum(), .00712), lambda x: "rotations near equal or half turn apart")
    cx.expect(bool(np.abs(npa(tf.so3_relative_angle(t[j], t[i])) - got).max() < 1e-3 * (dtype == F32) + 1e-9), "relative-symmetric", "")
    cx.add(states=len(i), traces=1)
    cx.sample = dict(pairs=len(i))


def acos(case, cx):
    dtype = DT[case["d"]]
    xs = np.array(sorted({-3., -1.5, -1.0001, -1., -.99999, -.9999, -.99, -.95, -.9, -.5, -.1, 0., 1e-9, .2, .5, .7, .9, .95, .99, .9999, .99999, 1., 1.0001, 1.7, 5.}))
    t = torch.tensor(xs, dtype=dtype)
    x = npa(t)
    u = 1e-14 if dtype == F64 else 2e-6
    for b in (None, 1 - 1e-4, .9, .5, 0., (-.9, .5), (-.2, .999), (.1, .6), (-.6, -.1), (.3, .3)):
        lo, hi = (-(1 - 1e-4), 1 - 1e-4) if b is None else ((-b, b) if isinstance(b, float) else b)
        want = np.where(x >= hi, math.acos(hi) - (x - hi) / math.sqrt(1 - hi * hi), np.where(x <= lo, math.acos(lo) - (x - lo) / math.sqrt(1 - lo * lo), np.arccos(np.clip(x, -1, 1))))
        f = (lambda v: tf.acos_linear_extrapolation(v)) if b is None else (lambda v: tf.acos_linear_extrapolation(v, b))
        got = npa(f(t))
        scale = 1 + np.abs(x) / math.sqrt(1 - max(abs(lo), abs(hi)) ** 2) + 1 / math.sqrt(1 - max(abs(lo), abs(hi)) ** 2)
        cell(cx, "acos", np.abs(got - want), u * scale, lambda i: "x=%g bound=%s gives %g" % (x[i], b, got[i]))
        for s in ((5, 5), (1, 25), (25, 1), (5, 1, 5)):
            cx.expect(bool((f(t.reshape(s)).reshape(-1) == f(t)).all()), "acos-shape", lambda: "shape %s" % (s,))
        for i in range(len(xs)):
            cx.expect(abs(float(f(t[i])) - got[i]) <= u, "acos-alone", lambda: "x=%g alone" % x[i])
        cx.expect(f(t[:0]).shape == (0,), "acos-empty", "empty")
        cx.add(states=len(xs), traces=1)
    for b in (1., -1., 1.5, (-1., .5), (-.5, 1.), (.5, -.5), (-2., 2.), (.2, .1)):
        cx.expect(raises(tf.acos_linear_extrapolation, t, b), "acos-bound-rejected", lambda: "bound %s" % (b,))
    cx.sample = dict(xs=xs.tolist())


def batches(case, cx):
    """every batch gives what its entries give alone; mixes of every pair of angle kinds"""
    dtype = DT[case["d"]]
    g = [0., 1e-9, 1e-3, .012, .5, 2., 3., np.pi - .01, np.pi]
    k = ref.unit((1, -2, .5))
    w = torch.tensor(np.array([a * k for a in g]), dtype=dtype)
    m = torch.tensor(rotvs(np.array([a * k for a in g])), dtype=dtype)
    fs = [("exp", tf.so3_exp_map, w), ("log", tf.so3_log_map, m), ("angle", tf.so3_rotation_angle, m), ("cosine", lambda x: tf.so3_rotation_angle(x, cos_angle=True), m),
          ("relative", lambda x: tf.so3_relative_angle(x, x.flip(0)[:1].expand(len(x), 3, 3) if len(x) == 1 else m[4:5].expand(len(x), 3, 3)), m), ("hat", so3.hat, w), ("hat_inv", lambda x: so3.hat_inv(so3.hat(x)), w)]
    for name, f, x in fs:
        if name == "relative":
            f = lambda v: tf.so3_relative_angle(v, m[4:5].expand(len(v), 3, 3))
        one = [f(x[i:i + 1])[0] for i in range(len(g))]
        for L in (0, 1, 2, 3):
            for c in itertools.product(range(len(g)), repeat=L):
                y = f(x[list(c)])
                cx.expect(len(y) == L and y.dtype == dtype, "batch-shape:" + name, lambda: "batch of %d" % L)
                if L:
                    e = max(float((y[i] - one[c[i]]).abs().max()) for i in range(L))
                    cx.expect(e <= TOLS[dtype] * 5, "batch:" + name, lambda: "batch of angles %s differs from its entries alone by %g" % ([g[i] for i in c], e))
                cx.add(states=1, traces=1)
        big = list(range(len(g))) * 40
        y = f(x[big])
        cx.expect(max(float((y[i] - one[big[i]]).abs().max()) for i in range(len(big))) <= TOLS[dtype] * 5, "batch-big:" + name, "batch of %d" % len(big))
    h = npa(so3.hat(w))
    for v in np.eye(3):
        cx.expect(np.abs(h @ v - np.cross(npa(w), v)).max() < TOLS[dtype], "hat-cross", "hat(v) u is v x u")
    cx.expect(float((so3.hat_inv(so3.hat(w)) - w).abs().max()) == 0, "hat-inverse", "hat_inv inverts hat")
    cx.sample = dict(angles=g)


def malformed(case, cx):
    I = torch.eye(3, dtype=F64)
    good = torch.stack([I, torch.tensor(ref.rot((1, 2, 3), 1.), dtype=F64), torch.tensor(ref.rot((0, 0, 1), np.pi), dtype=F64)])
    fs = [("angle", tf.so3_rotation_angle), ("log", tf.so3_log_map), ("relative", lambda m: tf.so3_relative_angle(m, I[None].expand(len(m), 3, 3).contiguous() if m.dim() == 3 and m.shape[1:] == (3, 3) else m))]
    for name, f in fs:
        cx.expect(not raises(f, good), "accepts:" + name, "rotations are accepted")
        for tr, bad in ((3.001, True), (3.00005, False), (-1.001, True), (-1.00005, False), (10., True), (-50., True), (2.9, False), (3.5, True), (-1.5, True)):
            b = torch.diag(torch.tensor([tr - 2, 1., 1.], dtype=F64))
            for place in range(3):
                m = good.clone()
                m[place] = b
                cx.expect(raises(f, m) == bad, "trace:" + name, lambda: "trace %g at place %d" % (tr, place))
                cx.add(states=1)
        for s in ((1, 3, 2), (1, 2, 3), (2, 4, 4), (1, 2, 2), (3,), (1, 3, 4)):
            cx.expect(raises(f, torch.zeros(s, dtype=F64)), "shape:" + name, lambda: "shape %s" % (s,))
            cx.add(states=1)
    for e, tr, bad in ((1e-2, 3.005, False), (1e-6, 3.00005, True), (1e-2, -1.005, False), (1e-6, -1.00005, True)):
        m = torch.diag(torch.tensor([tr - 2, 1., 1.], dtype=F64))[None]
        cx.expect(raises(tf.so3_rotation_angle, m, eps=e) == bad, "trace-eps", lambda: "trace %g eps %g" % (tr, e))
    for s in ((3,), (2, 2), (2, 4), (1, 2, 2)):
        cx.expect(raises(tf.so3_exp_map, torch.zeros(s)), "shape:exp", lambda: "shape %s" % (s,))
        cx.expect(raises(so3.hat, torch.zeros(s)), "shape:hat", lambda: "shape %s" % (s,))
    for place in range(3):
        for i, j in itertools.product(range(3), repeat=2):
            h = so3.hat(torch.tensor([[1., 2, 3], [0, 0, 0], [-4, 5, 6]], dtype=F64)).clone()
            h[place, i, j] += .5
            cx.expect(raises(so3.hat_inv, h), "skew-rejected", lambda: "entry %d %d of matrix %d" % (i, j, place))
    cx.sample = dict(good=3)
