"""All ordered pairs (and, for products, all triples of a subset) from an alphabet closed under the hard cases - the 48
octahedral quaternions, near-equal, opposite, half-turn and generic ones - x every interpolation parameter x every way of
batching pairs of different kinds together, against the rotations they stand for."""
import itertools

import numpy as np
import torch

import pytorch_kinematics.transforms as tf
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="102 quaternions, all pairs, 15 parameters, all ordered mixes of 3 pairs from 12 kinds, all broadcastable shape pairs up to rank 2",
              thorough="about 250 quaternions, all pairs, mixes of 4")
TOLS = {F64: 1e-11, F32: 5e-6}
TS = [0., 1., .5, .25, .75, .1, .9, 1e-3, 1 - 1e-3, 1e-6, 1 / 3, 2 / 3, .01, .99, .62]


def alphabet(tier):
    q = [np.array(x) for x in ref.octahedral_quats()]
    gen = [ref.unit(v) for v in [(.3, -.5, .2, .7), (-.8, .1, .05, -.2), (1e-3, .4, -.6, .1), (-1e-9, 1, 2, 3), (.9, .1, .3, -.2)]]
    q += gen + [-g for g in gen]
    base = [q[0], q[8], gen[0]] + ([q[30], gen[1], gen[3]] if tier == "thorough" else [])
    ks = [(1, 0, 0), (-1, 2, .5)] + ([(0, 0, 1), (1, 1, 1)] if tier == "thorough" else [])
    for b in base:
        for k in ks:
            for a in (1e-9, 1e-7, 1e-5, 1e-3, 2e-3, 4e-3, np.pi - 1e-7, np.pi - 1e-3, np.pi):
                q.append(ref.qmul(ref.axis_angle_quat(k, a), b))
    q = np.array(q)
    return q / np.linalg.norm(q, axis=1, keepdims=True)


def cases(tier):
    out = []
    n = len(alphabet(tier))
    for d in ("f64", "f32"):
        for lo in range(0, n, 16):
            out.append(dict(name="pairs-%d-%s" % (lo, d), what="pairs", lo=lo, d=d, tier=tier))
        out.append(dict(name="mixes-" + d, what="mixes", d=d, n=4 if tier == "thorough" else 3))
        out.append(dict(name="broadcast-" + d, what="broadcast", d=d))
        out.append(dict(name="closeness-" + d, what="closeness", d=d))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)


def ang(a, b):
    """true angle between the rotations, from the quaternions, accurate everywhere"""
    s = np.linalg.norm(a - b, axis=-1)
    p = np.linalg.norm(a + b, axis=-1)
    return 4 * np.arctan2(np.minimum(s, p), np.maximum(s, p))


def check(cx, sig, got, want, tol, what):
    e = np.abs(got - want)
    e = np.where(np.isfinite(e), e, np.inf).reshape(len(want), -1).max(1)
    i = int(e.argmax())
    cx.expect(e[i] <= tol, sig, lambda: "%s: %s instead of %s" % (what(i), np.asarray(got[i]).tolist(), np.asarray(want[i]).tolist()))


def slerp_ref(a, b, t):
    """reference interpolation in the shorter arc (float64, stable)"""
    b = np.where((a * b).sum(-1, keepdims=True) < 0, -b, b)
    half = 2 * np.arctan2(np.linalg.norm(a - b, axis=-1), np.linalg.norm(a + b, axis=-1))[..., None]
    s = np.where(half > 1e-12, np.sin(half), 1)
    return np.where(half > 1e-12, (np.sin((1 - t) * half) * a + np.sin(t * half) * b) / s, (1 - t) * a + t * b)


def pairs(case, cx):
    dtype = DT[case["d"]]
    tol = TOLS[dtype]
    q = torch.tensor(alphabet(case["tier"]), dtype=dtype)
    sel = q[case["lo"]:case["lo"] + 16]
    a, b = sel[:, None].expand(-1, len(q), -1).reshape(-1, 4), q[None].expand(len(sel), -1, -1).reshape(-1, 4)
    A, B = npa(a), npa(b)
    MA, MB = ref.qmat(A), ref.qmat(B)
    lab = lambda i: "%s, %s" % (A[i].tolist(), B[i].tolist())
    raw = npa(tf.quaternion_raw_multiply(a, b))
    check(cx, "raw-multiply", raw, ref.qmul(A, B), tol, lab)
    check(cx, "raw-multiply-rotation", ref.qmat(raw), MA @ MB, tol, lab)
    mul = npa(tf.quaternion_multiply(a, b))
    check(cx, "multiply", ref.qmat(mul), MA @ MB, tol, lab)
    cx.expect(bool((mul[:, 0] >= 0).all()), "multiply-sign", "the product's real part is negative")
    inv_ = npa(tf.quaternion_invert(a))
    check(cx, "invert", ref.qmat(inv_), np.swapaxes(MA, -1, -2), tol, lab)
    check(cx, "invert-product", npa(tf.quaternion_raw_multiply(a, tf.quaternion_invert(a))), np.tile([1., 0, 0, 0], (len(A), 1)), tol, lab)
    st = npa(tf.standardize_quaternion(a))
    want = np.where(A[:, :1] < 0, -A, A)
    cx.expect(np.array_equal(st, want), "standardize", lambda: "standardising %s" % A[np.abs(st - want).max(1).argmax()])
    for v in np.array([[0., 0, 0], [1, 0, 0], [0, -1, 0], [0, 0, 2], [.3, -40, 1e-3]]):
        p = torch.tensor(v, dtype=dtype).expand(len(a), 3)
        check(cx, "apply", npa(tf.quaternion_apply(a, p)), MA @ npa(p)[0], tol * max(1, np.abs(v).max()), lab)
    # the distance
    d = npa(tf.quaternion_angular_distance(a, b))
    w = ang(A, B)
    check(cx, "distance", d, w, tol, lab)
    check(cx, "distance-symmetric", npa(tf.quaternion_angular_distance(b, a)), d, tol, lab)
    check(cx, "distance-sign", npa(tf.quaternion_angular_distance(a, -b)), d, tol, lab)
    cx.expect(bool((d <= np.pi + tol).all() and (d >= 0).all()), "distance-range", "a distance is not in [0, pi]")
    same = (np.abs(A - B).max(1) == 0) | (np.abs(A + B).max(1) == 0)
    cx.expect(bool((d[same] == 0).all()), "distance-zero", "equal rotations have distance %s" % (d[same].max() if same.any() else 0))
    far = w > (1e-8 if dtype == F64 else 1e-5)
    cx.expect(bool((d[far] > 0).all()), "distance-nonzero", "different rotations have distance 0")
    # small distances keep their relative size
    near = (w > 1e-7) & (w < 1e-2) if dtype == F64 else (w > 1e-4) & (w < 1e-2)
    if near.any():
        check(cx, "distance-small", d[near] / w[near], np.ones(near.sum()), 1e-6 if dtype == F64 else 1e-2, lambda i: "near pair")
    # interpolation; for half turns either arc is the shorter one
    ambiguous = np.abs((A * B).sum(1)) < (1e-9 if dtype == F64 else 1e-6)
    end = tf.quaternion_slerp(a, b, 1.)
    check(cx, "slerp-start", npa(tf.quaternion_slerp(a, b, 0.)), A, tol, lab)
    check(cx, "slerp-end", ref.qmat(npa(end)), MB, tol * 2, lab)
    sgn = npa(end)  # +-B as chosen
    for t in TS:
        g = npa(tf.quaternion_slerp(a, b, t))
        w1 = slerp_ref(A, B, t)
        other = slerp_ref(A, np.where(ambiguous[:, None], sgn, B), t)
        # a linear step for pairs within the documented closeness (1e-6 of cosine) is allowed: it is not unit by up to 3e-7
        stol = max(tol, 2e-9)
        lin = (np.abs((A * B).sum(1)) > 1 - 3e-6)[:, None]
        check(cx, "slerp", np.where(ambiguous[:, None] | lin, w1, g), w1, stol, lambda i: "t=%g %s" % (t, lab(i)))
        if lin.any():
            check(cx, "slerp-near", g[lin[:, 0]], w1[lin[:, 0]], max(tol, 4e-7), lambda i: "t=%g near pair" % t)
        g0 = g
        g = g / np.linalg.norm(g, axis=1, keepdims=True)
        if ambiguous.any():
            x = A[ambiguous]
            y = sgn[ambiguous]
            h = np.pi / 2
            check(cx, "slerp-half-turn", g0[ambiguous], np.sin((1 - t) * h) * x + np.sin(t * h) * y, 20 * stol, lambda i: "t=%g half turn" % t)
        check(cx, "slerp-unit", np.linalg.norm(g0, axis=1), np.ones(len(g)), max(tol, 2e-6), lambda i: "t=%g %s" % (t, lab(i)))
        check(cx, "slerp-speed", ang(A, g), t * w, max(tol * 2, 5e-9), lambda i: "t=%g %s" % (t, lab(i)))
        tt = torch.full((len(a),), t, dtype=dtype)
        for form, tv in (("tensor-batch", tt), ("tensor-0d", torch.tensor(t, dtype=dtype)), ("tensor-1", torch.tensor([t], dtype=dtype))):
            check(cx, "slerp-" + form, npa(tf.quaternion_slerp(a, b, tv)), g0, stol, lambda i: "t=%g %s" % (t, lab(i)))
    tv = torch.tensor(np.array(TS)[np.arange(len(a)) % len(TS)], dtype=dtype)
    check(cx, "slerp-own-t", np.where(ambiguous[:, None], 0, npa(tf.quaternion_slerp(a, b, tv))),
          np.where(ambiguous[:, None], 0, slerp_ref(A, B, npa(tv)[:, None])), max(tol, 4e-7), lab)
    # closeness, one pair at a time and as a whole
    dist = 1 - (A * B).sum(1) ** 2
    for eps in (1e-4, 1e-2, .6):
        clear = np.abs(dist - eps) > 1e-6
        for i in range(0, len(a), 7):
            if clear[i]:
                cx.expect(bool(tf.quaternion_close(a[i], b[i], eps)) == bool(dist[i] < eps), "close", lambda: lab(i))
        cx.expect(bool(tf.quaternion_close(a, b, eps)) == bool((dist < eps).all()), "close-all", "eps %g" % eps)
    cx.add(states=len(a) * (8 + 4 * len(TS)), traces=len(a))
    cx.outcome(case["lo"], int(same.sum()), int(near.sum()))
    cx.sample = dict(a=A[0].tolist(), b=B[-1].tolist(), t=TS)


def kinds():
    i = np.array([1., 0, 0, 0])
    g = ref.unit((.3, -.5, .2, .7))
    rx = lambda a: ref.axis_angle_quat((1, 0, 0), a)
    rk = lambda a: ref.axis_angle_quat((-1, 2, .5), a)
    return [("equal", i, i), ("equal-g", g, g), ("opposite", g, -g), ("near", g, ref.qmul(rk(1e-8), g)), ("near-opp", g, -ref.qmul(rk(1e-5), g)),
            ("close-edge", g, ref.qmul(rk(2.9e-3), g)), ("half", i, rx(np.pi)), ("half-g", g, ref.qmul(rk(np.pi), g)),
            ("quarter", i, rx(np.pi / 2)), ("generic", g, ref.unit((-.8, .1, .05, -.2))), ("generic-neg", g, ref.unit((-.3, .8, .05, -.2))),
            ("almost-half", i, rx(np.pi - 1e-6))]


def mixes(case, cx):
    """a batch of pairs gives what the pairs give alone, whatever the others are"""
    dtype = DT[case["d"]]
    tol = TOLS[dtype] * 4
    ks = kinds()
    alone = {}
    fs = [("distance", lambda x, y: tf.quaternion_angular_distance(x, y)), ("multiply", tf.quaternion_multiply), ("raw", tf.quaternion_raw_multiply),
          ("slerp0", lambda x, y: tf.quaternion_slerp(x, y, 0.)), ("slerp.3", lambda x, y: tf.quaternion_slerp(x, y, .3)), ("slerp1", lambda x, y: tf.quaternion_slerp(x, y, 1.)),
          ("slerp.5", lambda x, y: tf.quaternion_slerp(x, y, torch.tensor(.5, dtype=dtype)))]
    t = lambda v: torch.tensor(np.array(v), dtype=dtype)
    for k, (n, a, b) in enumerate(ks):
        for fn, f in fs:
            alone[k, fn] = npa(f(t(a), t(b)))
    for c in itertools.product(range(len(ks)), repeat=case["n"]):
        a, b = t([ks[k][1] for k in c]), t([ks[k][2] for k in c])
        for fn, f in fs:
            y = npa(f(a, b))
            w = np.stack([alone[k, fn] for k in c])
            ok = y.shape == w.shape and np.isfinite(y).all() and np.abs(y - w).max() <= tol
            cx.expect(ok, "mix:" + fn, lambda: "batch of %s: %s instead of %s" % ([ks[k][0] for k in c], y.tolist(), w.tolist()))
        cx.add(states=1, traces=1)
        cx.outcome(c)
    cx.sample = dict(kinds=[k[0] for k in ks])


def closeness(case, cx):
    """one pair at every distance around the tolerance, at every place of batches of every shape whose other pairs are close"""
    dtype = DT[case["d"]]
    g = ref.unit((.3, -.5, .2, .7))
    for shape in [(1,), (2,), (3,), (7,), (30,), (2, 3), (3, 1, 4), (150,)]:
        n = int(np.prod(shape))
        for eps in (None, 1e-4, 1e-2, .3):
            e = 1e-4 if eps is None else eps
            for base in (0., .5):
                for f in (.3, .8, 1.3, 2., 6., 40., .9 * n, 1.5 * n):
                    if f * e > .99:
                        continue
                    for at in sorted({0, 1 % n, n // 2, n - 1}):
                        for sign in (1, -1):
                            d = np.full(n, base * e)
                            d[at] = f * e
                            a = np.tile(g, (n, 1))
                            b = np.stack([ref.qmul(ref.axis_angle_quat((-1, 2, .5), 2 * np.arcsin(np.sqrt(x))), g) for x in d])
                            b[at] *= sign
                            y = tf.quaternion_close(torch.tensor(a.reshape(shape + (4,)), dtype=dtype), torch.tensor(b.reshape(shape + (4,)), dtype=dtype),
                                                    *(() if eps is None else (eps,)))
                            cx.expect(bool(y) == bool(f < 1), "close-batch", lambda: "%s pairs at %g of the tolerance %g, pair %d at %g: %s" % (shape, base, e, at, f, bool(y)))
                            cx.add(states=1, traces=1)
        cx.outcome(shape)


def broadcast(case, cx):
    dtype = DT[case["d"]]
    q = torch.tensor(alphabet("quick")[40:], dtype=dtype)
    dims = [(), (1,), (2,), (3,), (0,), (1, 1), (2, 1), (1, 3), (2, 3), (3, 2), (4, 3), (4, 4), (0, 3)]
    num = lambda s: int(np.prod(s)) if s else 1
    for sa, sb in itertools.product(dims, dims):
        try:
            so = np.broadcast_shapes(sa, sb)
        except ValueError:
            continue
        a, b = q[:num(sa)].reshape(sa + (4,)), q[10:10 + num(sb)].reshape(sb + (4,))
        p = b[..., 1:] * 3
        # the broadcast result is that of each pair alone
        ea, eb, ep = a.expand(so + (4,)).reshape(-1, 4), b.expand(so + (4,)).reshape(-1, 4), p.expand(so + (3,)).reshape(-1, 3)
        for name, f, y, e2, cell in (("multiply", tf.quaternion_multiply, b, eb, (4,)), ("raw", tf.quaternion_raw_multiply, b, eb, (4,)),
                                     ("apply", tf.quaternion_apply, p, ep, (3,)), ("distance", tf.quaternion_angular_distance, b, eb, ()),
                                     ("slerp", lambda u, v: tf.quaternion_slerp(u, v, .3), b, eb, (4,))):
            got = f(a, y)
            ok = tuple(got.shape) == so + cell and got.dtype == dtype
            if ok and got.numel():
                w = torch.stack([f(ea[i], e2[i]) for i in range(len(ea))]).reshape(so + cell)
                ok = np.abs(npa(got) - npa(w)).max() < TOLS[dtype] * 3
            cx.expect(ok, "broadcast:" + name, lambda: "shapes %s and %s" % (sa, sb))
        cx.add(states=1, traces=1)
    for s in dims:
        x = q[:num(s)].reshape(s + (4,))
        for name, f in (("invert", tf.quaternion_invert), ("standardize", tf.standardize_quaternion)):
            got = f(x)
            ok = tuple(got.shape) == s + (4,) and got.dtype == dtype
            cx.expect(ok, "broadcast:" + name, lambda: "shape %s" % (s,))
            if got.numel():
                w = torch.stack([f(v) for v in x.reshape(-1, 4)]).reshape(got.shape)
                cx.expect(bool((got == w).all()), "broadcast:" + name, lambda: "shape %s" % (s,))
    for s in ((2,), (4,), (3, 1), (3, 4)):
        cx.expect(raises(tf.quaternion_apply, q[0], torch.zeros(s, dtype=dtype)), "apply-shape", lambda: "points of shape %s" % (s,))
    # one target per interpolation parameter: t of the batch shape
    a, b = q[:6].reshape(2, 3, 4), q[20:26].reshape(2, 3, 4)
    t = torch.linspace(0, 1, 6, dtype=dtype).reshape(2, 3)
    got = tf.quaternion_slerp(a, b, t)
    w = torch.stack([tf.quaternion_slerp(a[i, j], b[i, j], float(t[i, j])) for i in range(2) for j in range(3)]).reshape(2, 3, 4)
    cx.expect(np.abs(npa(got) - npa(w)).max() < TOLS[dtype] * 3, "broadcast:slerp-t", "parameter of the batch shape")
    path = tf.quaternion_slerp(a[0, 0], b[0, 0], t.reshape(-1))
    w = torch.stack([tf.quaternion_slerp(a[0, 0], b[0, 0], float(v)) for v in t.reshape(-1)])
    cx.expect(tuple(path.shape) == (6, 4) and np.abs(npa(path) - npa(w)).max() < TOLS[dtype] * 3, "broadcast:slerp-path", "one pair, many parameters")
    cx.sample = dict(shapes=[list(s) for s in dims])
