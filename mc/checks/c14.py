"""Explicit-state exploration of the graph of rotation / pose representations: states are representations of a rotation,
transitions the conversion functions; all words of conversions up to a length are run on every rotation of an alphabet
with all singular cases, and the rotation stood for (judged by the reference) must never change.  Plus the two
axis-plus-number constructors on their full grid, and every conversion on every batch shape."""
import itertools
import warnings

import numpy as np
import torch

import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="14 conversions + 2 embeddings, all words up to length 6 from 8 representations, about 1400 rotations, 2 number types; 14 batch shapes",
              thorough="all words up to length 9, about 11000 rotations")
TOLS = {F64: 1e-11, F32: 6e-6}
ANG = [0., 1e-12, 1e-9, 1e-7, 6e-7, 9.9e-7, 1.01e-6, 3e-6, 1e-5, 1e-4, 1e-3, .02, .1, .5, 1., np.pi / 2, 2., 2 * np.pi / 3, 3.,
       np.pi - 1e-2, np.pi - 1e-3, np.pi - 1e-4, np.pi - 1e-6, np.pi - 1e-9, np.pi]
BEYOND = [np.pi + 1e-9, np.pi + 1e-4, 3.3, 4., 3 * np.pi / 2, 6., 2 * np.pi - 1e-3, 2 * np.pi - 1e-6, 2 * np.pi - 1e-8]
POS = np.array([[0., 0, 0], [1, -2, 3], [-.25, 1e-3, 40.], [0, 7, -.5], [1e-7, 0, 0]])


def axes(tier):
    a = [ref.unit(v) for v in itertools.product((-1., 0, 1), repeat=3) if any(v)]
    a += [ref.unit(v) for v in [(1, 2, -3), (-.3, .5, .7), (1, 1e-4, 0), (1e-8, 1, 0), (0, -1e-3, -1), (.2, .9, .1)]]
    if tier == "thorough":
        a += [ref.unit(v) for v in itertools.product((-.9, -.2, .35, 1.), repeat=3)]
    return np.array(a)


def alphabet(tier):
    """unit quaternions (float64) of all rotations, both signs"""
    q = [np.array(x) for x in ref.octahedral_quats()]
    for k in axes(tier):
        for a in ANG + BEYOND:
            q.append(ref.axis_angle_quat(k, a))
    tiny = [ref.axis_angle_quat(k, a) for k in axes("quick")[:26:5] for a in (1e-9, 1e-6, 1e-3)]
    for g in ref.octahedral_quats()[:48:1 if tier == "thorough" else 3]:
        for t in tiny:
            q.append(ref.qmul(g, t))
    q = np.array(q)
    return q / np.linalg.norm(q, axis=1, keepdims=True)


def rotvs(w):
    """exp of rotation vectors (..., 3), accurate for tiny ones"""
    a = np.linalg.norm(w, axis=-1)[..., None, None]
    K = np.zeros(w.shape[:-1] + (3, 3))
    K[..., 2, 1], K[..., 0, 2], K[..., 1, 0] = w[..., 0], w[..., 1], w[..., 2]
    K = K - np.swapaxes(K, -1, -2)
    return np.eye(3) + np.sinc(a / np.pi) * K + .5 * np.sinc(a / 2 / np.pi) ** 2 * (K @ K)


def rows(d):
    return np.stack([d[..., :3], d[..., 3:6], np.cross(d[..., :3], d[..., 3:6])], -2)


def mean(kind, x):
    """rotation (and position) a value of that kind stands for, and how far it is from being a proper value of its kind"""
    if kind == "P":
        p, r = npa(x[0]), npa(x[1])
        return ref.qmat(r[..., [3, 0, 1, 2]]), p, abs(np.linalg.norm(r, axis=-1) - 1)
    x = npa(x)
    if kind == "M":
        return x, None, abs(x @ np.swapaxes(x, -1, -2) - np.eye(3)).max((-1, -2)) + abs(np.linalg.det(x) - 1)
    if kind == "Q":
        return ref.qmat(x), None, abs(np.linalg.norm(x, axis=-1) - 1)
    if kind == "X":
        return ref.qmat(x[..., [3, 0, 1, 2]]), None, abs(np.linalg.norm(x, axis=-1) - 1)
    if kind == "A":
        return rotvs(x), None, np.maximum(np.linalg.norm(x, axis=-1) - 2 * np.pi, 0)
    if kind == "D":
        return rows(x), None, abs(np.linalg.norm(x[..., :3], axis=-1) - 1)
    if kind == "N":
        return rows(x), x[..., 6:], abs(np.linalg.norm(x[..., :3], axis=-1) - 1)
    if kind == "H":
        bad = abs(x[..., 3, :] - np.array([0, 0, 0, 1.])).max(-1)
        return x[..., :3, :3], x[..., :3, 3], bad + mean("M", x[..., :3, :3])[2]


def embed(m):
    h = torch.zeros(m.shape[:-2] + (4, 4), dtype=m.dtype)
    h[..., :3, :3] = m
    h[..., 3, 3] = 1
    n = h[..., 0, 0].numel()
    h[..., :3, 3] = torch.tensor(np.resize(POS, (n, 3)), dtype=m.dtype).reshape(m.shape[:-2] + (3,))
    return h


def quiet(x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return rc.axis_angle_to_matrix(x)


EDGES = [("M", "Q", "matrix_to_quaternion", tf.matrix_to_quaternion), ("M", "A", "matrix_to_axis_angle", tf.matrix_to_axis_angle),
         ("M", "D", "matrix_to_rotation_6d", tf.matrix_to_rotation_6d), ("Q", "M", "quaternion_to_matrix", tf.quaternion_to_matrix),
         ("Q", "A", "quaternion_to_axis_angle", tf.quaternion_to_axis_angle), ("Q", "X", "wxyz_to_xyzw", tf.wxyz_to_xyzw),
         ("X", "Q", "xyzw_to_wxyz", tf.xyzw_to_wxyz), ("A", "Q", "axis_angle_to_quaternion", tf.axis_angle_to_quaternion),
         ("A", "M", "axis_angle_to_matrix", quiet), ("D", "M", "rotation_6d_to_matrix", tf.rotation_6d_to_matrix),
         ("H", "N", "matrix44_to_se3_9d", tf.matrix44_to_se3_9d), ("N", "H", "se3_9d_to_matrix44", tf.se3_9d_to_matrix44),
         ("H", "P", "matrix_to_pos_rot", tf.matrix_to_pos_rot), ("P", "H", "pos_rot_to_matrix", lambda p: tf.pos_rot_to_matrix(*p)),
         ("M", "H", None, embed), ("H", "M", None, lambda h: h[..., :3, :3])]
KINDS = "MQXADHNP"


def start(kind, q, dtype):
    t = lambda x: torch.tensor(x, dtype=dtype)
    m = ref.qmat(q)
    if kind == "M":
        return t(m)
    if kind == "Q":
        return t(q)
    if kind == "X":
        return t(q[..., [1, 2, 3, 0]])
    if kind == "A":
        n = np.linalg.norm(q[..., 1:], axis=-1, keepdims=True)
        a = 2 * np.arctan2(n, q[..., :1])
        return t(np.where(n > 0, q[..., 1:] / np.where(n > 0, n, 1) * a, 0.))
    if kind == "D":
        return t(m[..., :2, :].reshape(m.shape[:-2] + (6,)))
    h = embed(t(m))
    if kind == "H":
        return h
    if kind == "N":
        return torch.cat([t(m[..., :2, :].reshape(m.shape[:-2] + (6,))), h[..., :3, 3]], -1)
    return h[..., :3, 3].clone(), t(q[..., [1, 2, 3, 0]])


def cases(tier):
    out = []
    L = 9 if tier == "thorough" else 6
    for d in ("f64", "f32"):
        for k in KINDS:
            out.append(dict(name="words-%s-%s" % (k, d), what="words", start=k, d=d, L=L, tier=tier))
        out.append(dict(name="axisangle-" + d, what="axisangle", d=d, tier=tier))
        for i in range(14):
            out.append(dict(name="shapes-%s-%s" % (EDGES[i][2], d), what="shapes", edge=i, d=d))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)


def words(case, cx):
    dtype = DT[case["d"]]
    tol = TOLS[dtype]
    q = alphabet(case["tier"])
    x0 = start(case["start"], q, dtype)
    # what the starting values stand for after rounding to the number type
    m0, p0, _ = mean(case["start"], x0)
    w0 = None
    if case["start"] == "A":
        w0 = npa(x0)
    cx.sample = dict(start=case["start"], rotations=len(q), example=[float(v) for v in q[-1]])

    def go(kind, x, word, pos):
        if len(word) >= case["L"]:
            return
        for a, b, name, f in EDGES:
            if a != kind:
                continue
            y = f(x)
            w = word + [name or b]
            m, p, bad = mean(b, y)
            want_p = pos
            if name is None and b == "H":
                want_p = p
            if name is None and b == "M":
                want_p = None
            t = tol * (1 + len(w))
            err = abs(m - m0).max((-1, -2))
            bad = np.maximum(bad, err)
            if p is not None and want_p is not None:
                bad = np.maximum(bad, abs(p - want_p).max(-1))
            i = int(np.argmax(np.where(np.isfinite(bad), bad, np.inf)))
            cx.expect(bool(np.isfinite(bad[i]) and bad[i] <= t), "conversion:" + str(name),
                      lambda: "%s -> %s: rotation %s becomes %s; error %g" % (case["start"], " ".join(w), m0[i].tolist(), m[i].tolist(), bad[i]))
            if not np.isfinite(bad[i]) or bad[i] > t:
                return
            if w0 is not None and b == "A" and all(n for n in w if n):
                ang = np.linalg.norm(w0, axis=1)
                few = (ang < 1e-2) & (ang > 0)
                g = npa(y)
                rel = np.linalg.norm(g[few] - w0[few], axis=1) / ang[few]
                rt = 1e-6 if dtype == F64 else 2e-5
                ok = "M" not in [n for n in w] or dtype == F64
                cx.expect(bool((rel < rt * len(w)).all()) if ok else True, "tiny:" + str(name),
                          lambda: "tiny rotation %s comes back as %s after %s" % (w0[few][rel.argmax()], g[few][rel.argmax()], w))
            cx.add(states=len(q), traces=1)
            cx.outcome(kind, b, len(w), bool(bad[i] > 0))
            go(b, y, w, want_p)
    go(case["start"], x0, [], p0)


def axisangle(case, cx):
    """Rodrigues for any angle; unit axes"""
    dtype = DT[case["d"]]
    ax = axes(case["tier"])
    th = np.array([s * a for a in ANG + BEYOND + [7., 100., -40.3, 1234.5] for s in (1, -1)])
    A = torch.tensor(ax, dtype=dtype)
    TH = torch.tensor(th, dtype=dtype)
    a64, t64 = npa(A), npa(TH)
    n, m = len(ax), len(th)
    K = np.zeros((n, 3, 3))
    K[:, 2, 1], K[:, 0, 2], K[:, 1, 0] = a64[:, 0], a64[:, 1], a64[:, 2]
    K = K - np.swapaxes(K, 1, 2)
    s, c = np.sin(t64)[None, :, None, None], np.cos(t64)[None, :, None, None]
    want = np.eye(3) + s * K[:, None] + (1 - c) * (K @ K)[:, None]
    want4 = np.zeros((n, m, 4, 4))
    want4[..., :3, :3] = want
    want4[..., 3, 3] = 1
    tol = {F64: 1e-11, F32: 4e-6}[dtype]
    a2, t2 = A[:, None].expand(n, m, 3), TH[None].expand(n, m)
    cx.expect(R.materr(npa(tf.axis_and_angle_to_matrix_33(a2, t2)), want) < tol, "axis_and_angle_to_matrix_33", lambda: "grid of %d axes x %d angles" % (n, m))
    cx.expect(R.materr(npa(rc.axis_and_angle_to_matrix_44(a2, t2)), want4) < tol, "axis_and_angle_to_matrix_44", "grid")
    for i in range(n):
        cx.expect(R.materr(npa(tf.axis_and_angle_to_matrix_33(A[i], TH)), want[i]) < tol, "axis_and_angle_to_matrix_33:shared-axis", lambda: "axis %s" % ax[i])
    for j in range(m):
        cx.expect(R.materr(npa(tf.axis_and_angle_to_matrix_33(A, TH[j].expand(n))), want[:, j]) < tol, "axis_and_angle_to_matrix_33:angle", lambda: "angle %g" % th[j])
        cx.expect(R.materr(npa(rc.axis_and_angle_to_matrix_44(A, TH[j].expand(n))), want4[:, j]) < tol, "axis_and_angle_to_matrix_44:angle", lambda: "angle %g" % th[j])
    d = np.array([0., 1e-6, .5, -3., 100.])
    D = torch.tensor(d, dtype=dtype)
    a3, d3 = A[:, None].expand(n, len(d), 3), D[None].expand(n, len(d))
    got = npa(tf.axis_and_d_to_pris_matrix(a3, d3))
    w = np.tile(np.eye(4), (n, len(d), 1, 1))
    w[..., :3, 3] = a64[:, None] * npa(D)[None, :, None]
    cx.expect(R.materr(got, w) < tol * 100, "axis_and_d_to_pris_matrix", "grid")
    cx.expect(R.materr(npa(tf.axis_and_d_to_pris_matrix(A[3], D[3])), w[3, 3]) < tol * 10, "axis_and_d_to_pris_matrix:single", "single")
    cx.expect(R.materr(npa(tf.axis_and_angle_to_matrix_33(A[3], TH[7])), want[3, 7]) < tol, "axis_and_angle_to_matrix_33:single", "single")
    cx.expect(R.materr(npa(rc.axis_and_angle_to_matrix_44(A[3], TH[7])), want4[3, 7]) < tol, "axis_and_angle_to_matrix_44:single", "single")
    cx.add(states=n * (m + len(d)), traces=3)
    cx.sample = dict(axes=n, angles=m)


SHAPES = [(), (1,), (2,), (3,), (4,), (0,), (2, 3), (1, 4), (4, 1), (3, 3), (4, 4), (0, 3), (2, 1, 3), (6, 6)]


def shapes(case, cx):
    """the conversion of a batch of any shape is the conversion of its entries"""
    dtype = DT[case["d"]]
    a, b, name, f = EDGES[case["edge"]]
    q = alphabet("quick")[::31]
    for s in SHAPES:
        n = int(np.prod(s)) if s else 1
        for off in range(0, len(q), 7):
            x = start(a, np.roll(q, -off, 0)[np.arange(n) % len(q)], dtype)
            xs = x if isinstance(x, tuple) else (x,)
            one = [f(tuple(v[i] for v in xs) if a == "P" else xs[0][i]) for i in range(n)]
            shaped = tuple(v.reshape(s + v.shape[1:]) for v in xs)
            y = f(shaped if a == "P" else shaped[0])
            ys = y if isinstance(y, tuple) else (y,)
            for k, v in enumerate(ys):
                cell = {"M": (3, 3), "Q": (4,), "X": (4,), "A": (3,), "D": (6,), "N": (9,), "H": (4, 4)}.get(b) or ((3,), (4,))[k]
                cx.expect(tuple(v.shape) == s + cell and v.dtype == dtype, "shape:" + name, lambda: "batch %s gives %s %s" % (s, tuple(v.shape), v.dtype))
                if tuple(v.shape) == s + cell and n and s.count(0) == 0:
                    w = np.stack([npa(o[k] if isinstance(o, tuple) else o) for o in one]).reshape(s + cell)
                    cx.expect(np.abs(npa(v) - w).max() < TOLS[dtype] * 10, "batch:" + name, lambda: "batch %s differs from its entries alone" % (s,))
            cx.add(states=1, traces=1)
    cx.sample = dict(conversion=name, shapes=[list(s) for s in SHAPES])
