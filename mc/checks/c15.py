"""Every Euler convention (12 orders, 24 static/rotating sequences) x the full grid of angle triples (every quadrant, the
singular values, several turns) x batch shapes, against products of single-axis rotations; and every wrong convention
string up to length 4 over a small alphabet must be rejected."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="12 + 24 conventions, 18^3 angle triples, 2 number types, 9 batch shapes; all strings over 'XYZxW' up to length 4",
              thorough="44^3 angle triples")
ORDERS = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if b not in (a, c)]
SEQS = [f + a + b + c for f in "sr" for a in "xyz" for b in "xyz" for c in "xyz" if b not in (a, c)]
ANG = [0., 1e-7, -1e-3, .3, -.4, 1., -1.2, np.pi / 2, -np.pi / 2, 1.9, -2.2, 3., np.pi, -np.pi, 4., 2 * np.pi, -7.5, 40.]
TOLS = {F64: 1e-11, F32: 6e-6}
SHAPES = [(), (1,), (2,), (3,), (4,), (0,), (2, 3), (3, 3), (0, 3), (2, 1, 3)]


def angles(tier):
    return ANG + (sorted({round(-3.1 + .24 * i, 3) for i in range(26)}) if tier == "thorough" else [])


def cases(tier):
    out = []
    for d in ("f64", "f32"):
        out += [dict(name="order-%s-%s" % (o, d), what="order", o=o, d=d, tier=tier) for o in ORDERS]
        out += [dict(name="seq-%s-%s" % (s, d), what="seq", s=s, d=d, tier=tier) for s in SEQS]
    out.append(dict(name="invalid", what="invalid"))
    out.append(dict(name="transform-rot", what="constructor"))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)


def single(letter, a):
    return ref.rot(ref.AX[letter.lower()], a)


def worst(got, want):
    e = np.abs(got - want).reshape(len(want), -1).max(1)
    e = np.where(np.isfinite(e), e, np.inf)
    i = int(e.argmax())
    return e[i], i


def order(case, cx):
    dtype, o = DT[case["d"]], case["o"]
    g = torch.tensor(R.grid([angles(case["tier"])] * 3), dtype=dtype)
    a = npa(g)
    want = single(o[0], a[:, 0]) @ single(o[1], a[:, 1]) @ single(o[2], a[:, 2])
    got = tf.euler_angles_to_matrix(g, o)
    e, i = worst(npa(got), want)
    cx.expect(e < TOLS[dtype], "to-matrix", lambda: "%s of %s: %s instead of %s" % (o, a[i], npa(got[i]).tolist(), want[i].tolist()))
    cx.add(states=len(g), traces=1)
    # back: the angles reproduce the matrix, at gimbal lock too and when rounding has taken entries beyond 1, and are the
    # original where that is in the usual range and determined
    mid = a[:, 1]
    sing = np.abs(np.cos(mid)) if o[0] != o[2] else np.abs(np.sin(mid))
    free = sing > (1e-3 if dtype == F32 else 1e-6)
    eps = 4 * torch.finfo(dtype).eps
    m = torch.tensor(want, dtype=dtype)
    lo, hi = (-np.pi / 2, np.pi / 2) if o[0] != o[2] else (0, np.pi)
    for what, x in (("from-matrix", m), ("from-larger", m * (1 + eps)), ("from-smaller", m * (1 - eps)), ("from-own", got)):
        b = npa(tf.matrix_to_euler_angles(x, o))
        again = single(o[0], b[:, 0]) @ single(o[1], b[:, 1]) @ single(o[2], b[:, 2])
        err = np.abs(again - want).max((1, 2))
        err = np.where(np.isfinite(err), err, np.inf)
        j = int(err.argmax())
        cx.expect(err[j] < 4 * TOLS[dtype], what, lambda: "%s: matrix of %s gives angles %s" % (o, a[j], b[j]))
        cx.expect(bool((b[:, 1] >= lo - 1e-6).all() and (b[:, 1] <= hi + 1e-6).all()), "range", "middle angle outside its range for " + o)
        cx.add(states=len(a))
    b = npa(tf.matrix_to_euler_angles(m[free], o))
    amp = 1 / sing[free]
    inr = (mid[free] >= lo) & (mid[free] <= hi) & (np.abs(a[free][:, 0]) < np.pi - .01) & (np.abs(a[free][:, 2]) < np.pi - .01)
    if inr.any():
        err = np.abs(b[inr] - a[free][inr]).max(1) / amp[inr] ** 2
        j = int(err.argmax())
        cx.expect(err[j] < 10 * TOLS[dtype], "round-trip", lambda: "%s: %s comes back as %s" % (o, a[free][inr][j], b[inr][j]))
    cx.add(traces=1)
    shapes(lambda x: tf.euler_angles_to_matrix(x, o), g, (3, 3), dtype, "to-matrix", cx)
    shapes(lambda x: tf.matrix_to_euler_angles(x, o), m[free], (3,), dtype, "from-matrix", cx, m=2)
    cx.outcome(o, int(free.sum()))
    cx.sample = dict(convention=o, angles=a[len(a) // 3].tolist())


def shapes(f, x, cell, dtype, what, cx, m=1):
    for s in SHAPES:
        n = int(np.prod(s)) if s else 1
        idx = (np.arange(n) * 97 + 5) % len(x)
        v = x[idx].reshape(s + tuple(x.shape[1:]))
        y = f(v)
        ok = tuple(y.shape) == s + cell and y.dtype == dtype
        cx.expect(ok, "shape:" + what, lambda: "batch %s gives %s %s" % (s, tuple(y.shape), y.dtype))
        if ok and n:
            one = torch.stack([f(x[i]) for i in idx]).reshape(s + cell)
            cx.expect(np.abs(npa(y) - npa(one)).max() < 10 * TOLS[dtype], "batch:" + what, lambda: "batch %s differs from its entries alone" % (s,))
        cx.add(states=1)


def seq(case, cx):
    dtype, s = DT[case["d"]], case["s"]
    g = torch.tensor(R.grid([angles(case["tier"])] * 3), dtype=dtype)
    a = npa(g)
    fst, snd, trd = single(s[1], a[:, 0]), single(s[2], a[:, 1]), single(s[3], a[:, 2])
    want = fst @ snd @ trd if s[0] == "r" else trd @ snd @ fst
    keep = g.clone()
    got = npa(tf.quaternion_from_euler(g, s))
    cx.expect(bool((g == keep).all()), "pure", "quaternion_from_euler changed its argument for " + s)
    n = np.linalg.norm(got, axis=1)
    cx.expect(bool(np.abs(n - 1).max() < TOLS[dtype]), "unit", "quaternion of %s is not unit" % s)
    e, i = worst(ref.qmat(got), want)
    cx.expect(e < TOLS[dtype], "sequence", lambda: "%s of %s: quaternion %s stands for %s instead of %s" % (
        s, a[i], got[i], ref.qmat(got[i]).tolist(), want[i].tolist()))
    for alias in (s.upper(), s.title()):
        cx.expect(np.abs(npa(tf.quaternion_from_euler(g[:5], alias)) - got[:5]).max() < TOLS[dtype], "case-insensitive", alias)
    shapes(lambda x: tf.quaternion_from_euler(x, s), g, (4,), dtype, "sequence", cx)
    if s == "sxyz":
        cx.expect(np.array_equal(npa(tf.quaternion_from_euler(g)), got), "default", "the default sequence is sxyz")
    cx.add(states=len(g), traces=1)
    cx.outcome(s)
    cx.sample = dict(sequence=s, angles=a[len(a) // 2].tolist())


def invalid(case, cx):
    e, m = torch.tensor([[.1, .2, .3]]), torch.eye(3)[None]
    for L in range(0, 5):
        for w in itertools.product("XYZxW", repeat=L):
            w = "".join(w)
            ok = w in ORDERS
            cx.expect(raises(tf.euler_angles_to_matrix, e, w) != ok, "invalid:euler_angles_to_matrix", lambda: "convention %r" % w)
            cx.expect(raises(tf.matrix_to_euler_angles, m, w) != ok, "invalid:matrix_to_euler_angles", lambda: "convention %r" % w)
            cx.add(states=1)
    for L in range(0, 6):
        for w in itertools.product("srxyz", repeat=L):
            w = "".join(w)
            cx.expect(raises(tf.quaternion_from_euler, e, w) != (w in SEQS), "invalid:quaternion_from_euler", lambda: "sequence %r" % w)
            cx.add(states=1)
    for shape in ((2,), (4,), (3, 2), (3, 4), (0,)):
        cx.expect(raises(tf.euler_angles_to_matrix, torch.zeros(shape), "XYZ"), "invalid:shape", lambda: "euler shape %s" % (shape,))
    for shape in ((2, 2), (3, 4), (4, 3), (4, 4), (5, 3, 2)):
        cx.expect(raises(tf.matrix_to_euler_angles, torch.zeros(shape), "XYZ"), "invalid:shape", lambda: "matrix shape %s" % (shape,))
        cx.expect(raises(tf.matrix_to_quaternion, torch.zeros(shape)), "invalid:shape", lambda: "matrix shape %s" % (shape,))
    cx.sample = dict(example="XYX accepted, XXY, XYW, XY, XYZX rejected")


def constructor(case, cx):
    """three numbers as rot are X, Y, Z Euler angles; four a quaternion, real part first; nine a matrix"""
    g = R.grid([ANG] * 3)
    want = ref.rot((1, 0, 0), g[:, 0]) @ ref.rot((0, 1, 0), g[:, 1]) @ ref.rot((0, 0, 1), g[:, 2])
    for dtype in (F64, F32):
        t = torch.tensor(g, dtype=dtype)
        w = want if dtype == F64 else (ref.rot((1, 0, 0), npa(t)[:, 0]) @ ref.rot((0, 1, 0), npa(t)[:, 1]) @ ref.rot((0, 0, 1), npa(t)[:, 2]))
        m = npa(pk.Transform3d(rot=t, dtype=dtype).get_matrix())
        e, i = worst(m[:, :3, :3], w)
        cx.expect(e < TOLS[dtype], "constructor-euler", lambda: "Transform3d(rot=%s)" % g[i])
        for i in range(0, len(g), 101):
            one = npa(pk.Transform3d(rot=t[i], dtype=dtype).get_matrix())
            cx.expect(R.materr(one[0, :3, :3], w[i]) < TOLS[dtype], "constructor-euler-single", lambda: "Transform3d(rot=%s)" % g[i])
            lst = npa(pk.Transform3d(rot=[float(x) for x in g[i]], dtype=dtype).get_matrix())
            cx.expect(R.materr(lst[0, :3, :3], w[i]) < TOLS[dtype], "constructor-euler-list", lambda: "Transform3d(rot=list %s)" % g[i])
        cx.add(states=len(g), traces=1)
