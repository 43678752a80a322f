"""Explicit-state exploration of transform programs: from every constructor form, all words over the building operations
(translate, scale, rotate, axis-angle, compose, inverse, stack, index, clone, convert - in every argument form and with
single and batched arguments) up to a depth, run on the real class in lock step with stacks of 4x4 matrices; at every
state the matrix, batch size, number type, points and normals are compared and the previous states must be unchanged.
Operations that do not fit (batch sizes) must be rejected.  Plus full products of constructor arguments and of point
shapes."""
import itertools
import math

import numpy as np
import torch

import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="14 starts, 33 operations, all words up to length 2 and, for a core of 17 operations, up to length 3; all constructor arguments; all point shapes; 1..69 and up to 4097 transforms or points",
              thorough="all words over 33 operations up to length 3 and over the core up to length 4")
TOLS = {F64: 1e-10, F32: 5e-5}
RM = [ref.rot((1, 2, -3), 1.1), ref.rot((0, 0, 1), np.pi / 2), ref.rot((1, -1, 0), np.pi)]
PS = np.array([[0., 0, 0], [1, -2, .5], [-3, .25, 7], [0, 0, -1e-3]])
V3 = np.array([[1., 2, -3], [0, .5, 0], [-.25, 4, 1]])
S3 = np.array([[2., .5, 1], [1, -1, 3], [.25, .5, 4]])
ANG = np.array([30., -90, 200])
Q1 = ref.axis_angle_quat((1, 1, -2), 2.2)


def H(Rm=None, t=None):
    return ref.T(Rm, t)


def tr(v):
    return np.stack([H(None, x) for x in np.atleast_2d(v)])


def sc(v):
    return np.stack([H(np.diag(x)) for x in np.atleast_2d(v)])


def rm(ms):
    return np.stack([H(m) for m in ms])


GEN = np.stack([H(RM[0], V3[0]), H(RM[1] @ RM[2], V3[1]), H(ref.rot((0, 1, 3), -2.5), V3[2])])
SCALED = np.stack([H(RM[0] @ np.diag(S3[0]), V3[0])])


def mul(a, b):
    if len(a) != len(b) and len(a) != 1 and len(b) != 1:
        return None
    return a @ b


def tt(x, d):
    return torch.tensor(np.asarray(x, float), dtype=d)


# name -> (reference, real): the reference maps (n,4,4) to (m,4,4), or None if the batch sizes do not fit
# the real one takes the transform and its number type
def lit(c):
    return lambda m: mul(m, c)


EUL = ref.rot((1, 0, 0), .3) @ ref.rot((0, 1, 0), -.8) @ ref.rot((0, 0, 1), 2.)


def idx(sel):
    return lambda m: m[sel].reshape(-1, 4, 4)


OPS = [
    ("translate(x,y,z)", lit(tr(V3[0])), lambda t, d: t.translate(1., 2., -3.)),
    ("translate(1,3)", lit(tr(V3[1])), lambda t, d: t.translate(tt(V3[1:2], d))),
    ("translate(3,3)", lit(tr(V3)), lambda t, d: t.translate(tt(V3, d))),
    ("scale(s)", lit(sc([2., 2, 2])), lambda t, d: t.scale(2.)),
    ("scale(x,y,z)", lit(sc(S3[0])), lambda t, d: t.scale(2., .5, 1.)),
    ("rotate(R)", lit(rm(RM[:1])), lambda t, d: t.rotate(tt(RM[0], d))),
    ("rotate(3R)", lit(rm(RM)), lambda t, d: t.rotate(tt(RM, d))),
    ("rotate_axis_angle(30)", lit(rm([ref.rot((1, 0, 0), math.pi / 6)])), lambda t, d: t.rotate_axis_angle(30.)),
    ("compose(A)", lit(GEN[:1]), lambda t, d: t.compose(pk.Transform3d(matrix=tt(GEN[0], d)))),
    ("compose(3)", lit(GEN), lambda t, d: t.compose(pk.Transform3d(matrix=tt(GEN, d)))),
    ("inverse", lambda m: np.linalg.inv(m), lambda t, d: t.inverse()),
    ("stack(self)", lambda m: np.concatenate([m, m]), lambda t, d: t.stack(t)),
    ("stack(A)", lambda m: np.concatenate([m, GEN[:1]]), lambda t, d: t.stack(pk.Transform3d(matrix=tt(GEN[0], d)))),
    ("[0]", idx(0), lambda t, d: t[0]),
    ("[-1]", idx(-1), lambda t, d: t[-1]),
    ("to(other)", None, None),
    ("clone", lambda m: m, lambda t, d: t.clone()),
    # --- the rest of the alphabet
    ("translate(vectors)", lit(tr(np.stack([[1., -2, 3], [.5, .5, .5], [0., 0, 0]], 1))), lambda t, d: t.translate(tt([1, -2, 3], d), .5, torch.tensor(0., dtype=d))),
    ("scale(N)", lit(sc(np.array([[2.] * 3, [-1.] * 3, [.5] * 3]))), lambda t, d: t.scale(tt([2, -1, .5], d))),
    ("scale(3,3)", lit(sc(S3)), lambda t, d: t.scale(tt(S3, d))),
    ("rotate(quaternion)", lit(rm([ref.qmat(Q1)])), lambda t, d: t.rotate(tt(Q1, d))),
    ("rotate(euler)", lit(rm([EUL])), lambda t, d: t.rotate([.3, -.8, 2.])),
    ("rotate_axis_angle(N,z)", lit(rm([ref.rot((0, 0, 1), math.radians(a)) for a in ANG])), lambda t, d: t.rotate_axis_angle(tt(ANG, d), axis="z")),
    ("rotate_axis_angle(rad,Y)", lit(rm([ref.rot((0, 1, 0), -2.)])), lambda t, d: t.rotate_axis_angle(-2., axis="Y", degrees=False)),
    ("compose(A,B)", lambda m: m @ SCALED @ GEN[1:2], lambda t, d: t.compose(pk.Transform3d(matrix=tt(SCALED, d)), pk.Transform3d(matrix=tt(GEN[1], d)))),
    ("compose(Translate)", lit(tr(V3[2])), lambda t, d: t.compose(tf.Translate(tt(V3[2:], d), dtype=d))),
    ("compose()", lambda m: m, lambda t, d: t.compose()),
    ("compose(2)", lit(GEN[1:]), lambda t, d: t.compose(pk.Transform3d(matrix=tt(GEN[1:], d)))),
    ("stack(A,B)", lambda m: np.concatenate([m, SCALED, GEN]), lambda t, d: t.stack(pk.Transform3d(matrix=tt(SCALED, d)), pk.Transform3d(matrix=tt(GEN, d)))),
    ("[1:]", lambda m: m[1:] if len(m) > 1 else "skip", lambda t, d: t[1:]),
    ("[list]", lambda m: m[[len(m) - 1, 0, 0]], lambda t, d: t[[len(t) - 1, 0, 0]]),
    ("[mask]", lambda m: m[np.arange(len(m)) % 2 == 0], lambda t, d: t[torch.arange(len(t)) % 2 == 0]),
    ("to(copy)", lambda m: m, lambda t, d: t.to("cpu", copy=True)),
]
CORE = 17


def starts(d):
    out = [("identity", np.eye(4)[None], lambda: pk.Transform3d(dtype=d)),
           ("identity(3)", np.tile(np.eye(4), (3, 1, 1)), lambda: pk.Transform3d(default_batch_size=3, dtype=d)),
           ("matrix(4,4)", GEN[:1], lambda: pk.Transform3d(matrix=tt(GEN[0], d))),
           ("matrix(3,4,4)", GEN, lambda: pk.Transform3d(matrix=tt(GEN, d))),
           ("matrix scaled", SCALED, lambda: pk.Transform3d(matrix=tt(SCALED, d))),
           ("pos,rot", np.stack([H(ref.qmat(Q1), V3[2])]), lambda: pk.Transform3d(pos=tt(V3[2], d), rot=tt(Q1, d), dtype=d)),
           ("pos(3,3),rot(3,4)", np.stack([H(m, v) for m, v in zip(RM, V3)]), lambda: pk.Transform3d(pos=tt(V3, d), rot=tf.matrix_to_quaternion(tt(RM, d)), dtype=d)),
           ("pos list", tr(V3[0]), lambda: pk.Transform3d(pos=[1., 2., -3.], dtype=d)),
           ("Translate", tr(V3), lambda: tf.Translate(tt(V3, d), dtype=d)),
           ("Translate1", tr(V3[0]), lambda: tf.Translate(1., 2., -3., dtype=d)),
           ("Scale", sc(S3), lambda: tf.Scale(tt(S3, d), dtype=d)),
           ("Scale1", sc([2., .5, 1.]), lambda: tf.Scale(2., .5, 1., dtype=d)),
           ("Rotate", rm(RM), lambda: tf.Rotate(tt(RM, d), dtype=d)),
           ("RotateAxisAngle", rm([ref.rot((0, 0, 1), math.radians(a)) for a in ANG]), lambda: tf.RotateAxisAngle(tt(ANG, d), axis="Z", dtype=d))]
    return out


def cases(tier):
    out = []
    for d in ("f64", "f32"):
        for s in range(14):
            deep = 4 if tier == "thorough" else 3
            wide = 3 if tier == "thorough" else 2
            out.append(dict(name="wide-%d-%s" % (s, d), what="words", start=s, d=d, depth=wide, ops=len(OPS)))
            out += [dict(name="core-%d-%d-%s" % (s, f, d), what="words", start=s, d=d, depth=deep, ops=CORE, first=f) for f in range(CORE)]
        out.append(dict(name="constructor-" + d, what="constructor", d=d))
        out.append(dict(name="forms-" + d, what="forms", d=d))
        out.append(dict(name="points-" + d, what="points", d=d))
        for part in range(4):
            out.append(dict(name="sizes-%d-%s" % (part, d), what="sizes", d=d, part=part, tier=tier))
    out.append(dict(name="rejected", what="rejected"))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)


def words(case, cx):
    d = DT[case["d"]]
    name, m, make = starts(d)[case["start"]]
    t = make()
    lo = [d]

    def same(t, m, w, d, coarse):
        tol = TOLS[F32 if coarse else d] * (1 + len(w))
        g = t.get_matrix()
        ok = g.dtype == d and t.dtype == d and len(t) == len(m) and tuple(g.shape) == m.shape and bool((g[:, 3].to(F64) == tt([0, 0, 0, 1], F64)).all() if len(m) else True)
        cx.expect(ok, "form:" + w[-1], lambda: "%s: %s %s, len %d, expected %d of %s" % (" ".join(w), tuple(g.shape), g.dtype, len(t), len(m), d))
        e = R.materr(npa(g), m)
        cx.expect(e <= tol, "value:" + w[-1], lambda: "%s: error %g\n%s\ninstead of\n%s" % (" ".join(w), e, npa(g).tolist(), m.tolist()))
        return ok and e <= tol

    def apply(t, m, w, d, coarse):
        tol = TOLS[F32 if coarse else d] * (2 + len(w)) * 4
        p = tt(PS, d)
        got = npa(t.transform_points(p))
        want = np.einsum("nij,pj->npi", m, np.concatenate([PS, np.ones((4, 1))], 1))[..., :3]
        if len(m) == 1:
            want = want[0]
        ok = got.shape == want.shape and np.abs(got - want).max() <= tol * max(1, np.abs(m).max())
        cx.expect(ok, "points:" + w[-1], lambda: "%s: points become %s instead of %s" % (" ".join(w), got.tolist(), want.tolist()))
        n = tt(V3, d)
        got = npa(t.transform_normals(n))
        mi = np.linalg.inv(m[:, :3, :3])
        want = np.einsum("pj,nji->npi", V3, mi)
        if len(m) == 1:
            want = want[0]
        ok = got.shape == want.shape and np.abs(got - want).max() <= tol * max(1, np.abs(mi).max()) ** 2 * max(1, np.abs(m[:, :3, :3]).max())
        cx.expect(ok, "normals:" + w[-1], lambda: "%s: normals become %s instead of %s" % (" ".join(w), got.tolist(), want.tolist()))

    def go(t, m, w, d, coarse, depth, ops):
        cx.add(states=1, traces=1)
        if not same(t, m, w, d, coarse):
            return
        if len(m):
            apply(t, m, w, d, coarse)
        if depth == 0:
            return
        before = t.get_matrix().clone()
        for k, (on, rf, op) in enumerate(ops):
            w2 = w + [on]
            c2, d2 = coarse, d
            if rf is None:
                d2 = F32 if d == F64 else F64
                c2 = True
                m2 = m
                t2 = t.to("cpu", dtype=d2)
            else:
                m2 = rf(m)
                if isinstance(m2, str):
                    continue
                if m2 is None:
                    cx.expect(raises(op, t, d), "misfit:" + on, lambda: "%s is accepted on %d transforms" % (" ".join(w2), len(m)))
                    continue
                t2 = op(t, d)
            cx.expect(bool((t.get_matrix() == before).all()), "operand:" + on, lambda: "%s changed the transform it was applied to" % " ".join(w2))
            if len(m2) > 40:
                continue
            go(t2, m2, w2, d2, c2, depth - 1, ops if depth > 1 else ops)
            cx.outcome(on, len(m), len(m2))
        cx.expect(bool((t.get_matrix() == before).all()), "operand-later", lambda: "%s: later operations changed an earlier transform" % " ".join(w))

    if "first" in case:
        on, rf, op = OPS[case["first"]]
        d2 = d
        if rf is None:
            d2 = F32 if d == F64 else F64
            go(t.to("cpu", dtype=d2), m, [name, on], d2, True, case["depth"] - 1, OPS[:CORE])
        else:
            m2 = rf(m)
            if m2 is None:
                cx.expect(raises(op, t, d), "misfit:" + on, lambda: "%s %s" % (name, on))
            else:
                go(op(t, d), m2, [name, on], d, d == F32, case["depth"] - 1, OPS[:CORE])
    else:
        go(t, m, [name], d, d == F32, case["depth"], OPS[:case["ops"]])
    # what a transform's own inverse undoes, on both sides (covers the special inverses of the subclasses)
    i = t.inverse()
    for p in (t.compose(i), i.compose(t)):
        cx.expect(R.materr(npa(p.get_matrix()), np.tile(np.eye(4), (len(m), 1, 1))) < TOLS[d], "inverse-undoes", name)
    cx.sample = dict(start=name, operations=[o[0] for o in OPS[:case["ops"]]], depth=case["depth"])


def constructor(case, cx):
    """every combination of matrix / rot / pos, every form and batch size; the more specific argument wins"""
    d = DT[case["d"]]
    N = 3
    q = np.stack([Q1, ref.axis_angle_quat((0, 0, 1), np.pi), ref.axis_angle_quat((3, 1, 0), -.6)])
    rmats = np.stack([ref.qmat(x) for x in q])
    e = np.array([[.3, -.8, 2.], [0, 1.2, -3.], [-2., .1, .6]])
    em = np.stack([ref.rot((1, 0, 0), a) @ ref.rot((0, 1, 0), b) @ ref.rot((0, 0, 1), c) for a, b, c in e])
    mats = [("none", None, None), ("4,4", tt(GEN[0], d), GEN[:1]), ("1,4,4", tt(GEN[:1], d), GEN[:1]), ("3,4,4", tt(GEN, d), GEN)]
    rots = [("none", None, None), ("3,3", tt(rmats[0], d), rmats[:1]), ("1,3,3", tt(rmats[:1], d), rmats[:1]), ("3,3,3", tt(rmats, d), rmats),
            ("4", tt(q[0], d), rmats[:1]), ("1,4", tt(q[:1], d), rmats[:1]), ("3,4", tt(q, d), rmats), ("list4", [float(x) for x in q[0]], rmats[:1]),
            ("3", tt(e[0], d), em[:1]), ("1,3", tt(e[:1], d), em[:1]), ("2,3", tt(e[:2], d), em[:2]), ("list3", [float(x) for x in e[0]], em[:1]),
            ("nested", rmats[1].tolist(), rmats[1:2]), ("scaled quaternion", tt(3 * q, d), rmats), ("tuple4", tuple(float(x) for x in q[2]), rmats[2:])]
    poss = [("none", None, None), ("3", tt(V3[0], d), V3[:1]), ("1,3", tt(V3[:1], d), V3[:1]), ("3,3", tt(V3, d), V3), ("list", [1., 2., -3.], V3[:1]), ("2,3", tt(V3[1:], d), V3[1:])]
    for (mn, mv, mr), (rn, rv, rr), (pn, pv, pr) in itertools.product(mats, rots, poss):
        sizes = [len(x) for x in (mr, rr, pr) if x is not None]
        n = max(sizes) if sizes else 1
        lab = "matrix %s rot %s pos %s" % (mn, rn, pn)
        if any(s not in (1, n) for s in sizes):
            cx.expect(raises(pk.Transform3d, matrix=mv, rot=rv, pos=pv, dtype=d), "constructor-misfit", lab)
            continue
        want = np.tile(np.eye(4), (n, 1, 1))
        if mr is not None:
            want = np.broadcast_to(mr, (n, 4, 4)).copy()
        if rr is not None:
            want[:, :3, :3] = rr
        if pr is not None:
            want[:, :3, 3] = pr
        keep = [x.clone() if torch.is_tensor(x) else x for x in (mv, rv, pv)]
        try:
            t = pk.Transform3d(matrix=mv, rot=rv, pos=pv, dtype=d)
        except Exception as ex:  # mixing one with many is only promised for a single matrix
            one_of_many = len(set(sizes)) > 1
            cx.expect(one_of_many, "constructor-refused", lambda: "%s: %r" % (lab, ex))
            continue
        g = t.get_matrix()
        cx.expect(g.dtype == d and t.dtype == d and len(t) == n and R.materr(npa(g), want) < TOLS[d], "constructor", lambda: "%s: %s instead of %s" % (lab, npa(g).tolist(), want.tolist()))
        for a, b in zip(keep, (mv, rv, pv)):
            if torch.is_tensor(a):
                cx.expect(bool((a == b).all()), "constructor-argument", lambda: "%s changed its argument" % lab)
        again = pk.Transform3d(matrix=mv, rot=rv, pos=pv, dtype=d).get_matrix()
        cx.expect(bool((again == g).all()), "constructor-again", lab)
        r = npa(t.compose(t.inverse()).get_matrix())
        cx.expect(R.materr(r, np.tile(np.eye(4), (n, 1, 1))) < TOLS[d] * 10, "constructor-inverse", lab)
        cx.add(states=1, traces=1)
        cx.outcome(mn, rn, pn)
    for n in (0, 1, 2, 7):
        g = pk.Transform3d(default_batch_size=n, dtype=d).get_matrix()
        cx.expect(g.dtype == d and np.array_equal(npa(g), np.tile(np.eye(4), (n, 1, 1))), "constructor-size", "default_batch_size %d" % n)
    # layout of the arguments
    for v in (tt(GEN, d).transpose(1, 2).contiguous().transpose(1, 2), tt(GEN, d)[::1], tt(np.repeat(GEN, 2, 0), d)[::2]):
        cx.expect(R.materr(npa(pk.Transform3d(matrix=v).get_matrix()), GEN) < TOLS[d], "constructor-layout", "non-contiguous matrix")
    cx.expect(R.materr(npa(pk.Transform3d(matrix=tt(GEN[:1], d).expand(4, 4, 4)).get_matrix()), np.tile(GEN[:1], (4, 1, 1))) < TOLS[d], "constructor-layout", "expanded matrix")
    cx.sample = dict(matrices=[m[0] for m in mats], rots=[r[0] for r in rots], positions=[p[0] for p in poss])


def forms(case, cx):
    """all argument forms of the four special transforms, their inverses, number types"""
    d = DT[case["d"]]
    o = F32 if d == F64 else F64
    vals = [2., -.5, 3.]
    forms1 = [("float", lambda x: x, 1), ("0d", lambda x: torch.tensor(x, dtype=d), 1), ("1", lambda x: torch.tensor([x], dtype=d), 1), ("int", lambda x: int(x) if x == int(x) else x, 1),
              ("3", lambda x: torch.tensor([x, 2 * x, x + 1.25], dtype=d), 3), ("2", lambda x: torch.tensor([x, -x], dtype=d), 2)]
    ex = {"3": lambda x: np.array([x, 2 * x, x + 1.25]), "2": lambda x: np.array([x, -x])}
    for fx, fy, fz in itertools.product(forms1, repeat=3):
        n = {f[2] for f in (fx, fy, fz)}
        args = [f[1](v) for f, v in zip((fx, fy, fz), vals)]
        lab = "%s,%s,%s" % (fx[0], fy[0], fz[0])
        if len(n - {1}) > 1:
            cx.expect(raises(tf.Translate, *args, dtype=d) and raises(tf.Scale, *args, dtype=d), "misfit-coordinates", lab)
            continue
        N = max(n)
        v = np.stack([np.broadcast_to(ex[f[0]](x) if f[0] in ex else x, (N,)) for f, x in zip((fx, fy, fz), vals)], 1)
        for cls, w, wi in ((tf.Translate, tr(v), tr(-v)), (tf.Scale, sc(v), sc(1 / v))):
            t = cls(*args, dtype=d)
            cx.expect(t.dtype == d and t.get_matrix().dtype == d and R.materr(npa(t.get_matrix()), w) < TOLS[d], "form:" + cls.__name__, lab)
            cx.expect(R.materr(npa(t.inverse().get_matrix()), wi) < TOLS[d] and t.inverse().get_matrix().dtype == d, "inverse:" + cls.__name__, lab)
            cx.add(states=1, traces=1)
    for arg, v in ((torch.tensor(vals, dtype=d), np.repeat(np.array(vals)[:, None], 3, 1)), (2., [[2.] * 3]), (torch.tensor(-3., dtype=d), [[-3.] * 3]), (tt(S3, d), S3)):
        t = tf.Scale(arg, dtype=d)
        cx.expect(R.materr(npa(t.get_matrix()), sc(v)) < TOLS[d] and R.materr(npa(t.inverse().get_matrix()), sc(1 / np.asarray(v))) < TOLS[d], "form:Scale", "one argument")
    cx.expect(raises(tf.Translate, torch.zeros(2, 4)) and raises(tf.Translate, torch.zeros(2, 3), 1.) and raises(tf.Scale, torch.zeros(2, 2)) and raises(tf.Translate, 1.), "form-rejected", "wrong shapes")
    q = np.stack([Q1, ref.axis_angle_quat((0, 0, 1), np.pi)])
    for arg, w in ((tt(RM[0], d), RM[:1]), (tt(RM, d), RM), (RM[0].tolist(), RM[:1]), (tt(q[0], d), [ref.qmat(q[0])]), (tt(q, d), ref.qmat(q)), ([.3, -.8, 2.], [EUL]), (tt([.3, -.8, 2.], d), [EUL]), (tt([[.3, -.8, 2.]] * 2, d), [EUL] * 2)):
        t = tf.Rotate(arg, dtype=d)
        cx.expect(t.get_matrix().dtype == d and R.materr(npa(t.get_matrix()), rm(w)) < TOLS[d], "form:Rotate", str(np.shape(arg)))
        cx.expect(R.materr(npa(t.inverse().get_matrix()), rm([x.T for x in np.asarray(w)])) < TOLS[d], "inverse:Rotate", str(np.shape(arg)))
        cx.expect(tf.Rotate(arg if not torch.is_tensor(arg) else arg, dtype=o).get_matrix().dtype == o, "dtype:Rotate", "requested number type")
    for ax, deg, (fn, f, n) in itertools.product("XYZxyz", (None, True, False), forms1):
        for a in (0., 30., -90., 180., 725., 1.):
            v = np.atleast_1d(ex[fn](a) if fn in ex else a)
            rad = v if deg is False else np.radians(v)
            w = rm([ref.rot(ref.AX[ax.lower()], x) for x in rad])
            kw = {} if deg is None else dict(degrees=deg)
            t = tf.RotateAxisAngle(f(a), axis=ax, dtype=d, **kw)
            tol = TOLS[d] * (1 + np.abs(v).max() / 50)
            cx.expect(t.get_matrix().dtype == d and R.materr(npa(t.get_matrix()), w) < tol, "form:RotateAxisAngle", lambda: "%s %s %s %s" % (ax, deg, fn, a))
            cx.expect(R.materr(npa(t.inverse().get_matrix()), np.swapaxes(w, 1, 2)) < tol, "inverse:RotateAxisAngle", lambda: "%s %s %s" % (ax, deg, a))
            cx.add(states=1, traces=1)
    for bad in ("W", "XY", ""):
        cx.expect(raises(tf.RotateAxisAngle, 30., axis=bad), "axis-rejected", bad)
    cx.expect(raises(tf.RotateAxisAngle, torch.zeros(2, 2)), "angle-rejected", "2-d angles")
    cx.sample = dict(forms=[f[0] for f in forms1])


def points(case, cx):
    """all shapes of points and normals x all batch sizes x options"""
    d = DT[case["d"]]
    pool = np.stack([np.sin(np.arange(60) * .7) * 3, np.cos(np.arange(60) * 1.3), np.arange(60) * .1 - 2], 1)
    for base in (GEN, np.stack([SCALED[0], GEN[1] @ SCALED[0], np.eye(4)])):
        for n in (0, 1, 2, 3):
            m = np.concatenate([base, base])[:n]
            t = pk.Transform3d(matrix=tt(m, d)) if n else pk.Transform3d(default_batch_size=0, dtype=d)
            ms = [np.linalg.inv(x[:3, :3]).T for x in m]
            for shape in [(P,) for P in (0, 1, 2, 3, 5)] + [(M, P) for M in (0, 1, 2, 3) for P in (0, 1, 4)]:
                p = pool[:int(np.prod(shape))].reshape(shape + (3,))
                lab = "%d transforms, points of shape %s" % (n, p.shape)
                batched = len(shape) == 2
                M = shape[0] if batched else 1
                for layout in range(2):
                    x = tt(p, d)
                    if layout:
                        x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
                    if M != n and M != 1 and n != 1:
                        cx.expect(raises(t.transform_points, x) and raises(t.transform_normals, x), "points-misfit", lab)
                        continue
                    K = 0 if 0 in (M, n) else max(M, n)
                    pb = np.broadcast_to(p if batched else p[None], (K,) + p.shape[-2:])
                    mb = np.broadcast_to(m if n else np.zeros((0, 4, 4)), (K, 4, 4))
                    want = np.einsum("nij,npj->npi", mb[:, :3, :3], pb) + mb[:, None, :3, 3]
                    nb = np.broadcast_to(np.array(ms).reshape(-1, 3, 3), (K, 3, 3))
                    wn = np.einsum("nij,npj->npi", nb, pb)
                    if not batched and K == 1:
                        want, wn = want[0], wn[0]
                    keep = x.clone()
                    for sig, got, w in (("points", t.transform_points(x), want), ("normals", t.transform_normals(x), wn), ("points-eps", t.transform_points(x, eps=1e-3), want)):
                        ok = tuple(got.shape) == w.shape and got.dtype == d and (w.size == 0 or np.abs(npa(got) - w).max() < TOLS[d] * 20)
                        cx.expect(ok, sig, lambda: "%s: %s instead of %s" % (lab, npa(got).tolist(), w.tolist()))
                    cx.expect(bool((x == keep).all()), "points-argument", lab)
                    cx.add(states=1, traces=1)
            for P in (1, 2, 3):
                p = pool[:P]
                x = tt(p, d)
                if P == n or n == 1:
                    mm = np.broadcast_to(m, (P, 4, 4))
                    w = np.einsum("nij,nj->ni", mm[:, :3, :3], p) + mm[:, :3, 3]
                    wn = np.einsum("nij,nj->ni", np.broadcast_to(np.array(ms), (P, 3, 3)), p)
                    for sig, got, ww in (("points-each", t.transform_points(x, batch_to_batch=True), w), ("normals-each", t.transform_normals(x, batch_to_batch=True), wn)):
                        ok = tuple(got.shape) == ww.shape and np.abs(npa(got) - ww).max() < TOLS[d] * 20
                        cx.expect(ok, sig, lambda: "%d transforms each with its point" % n)
            for s in ((3,), (2, 2, 2, 3)):
                cx.expect(raises(t.transform_points, torch.zeros(s, dtype=d)) and raises(t.transform_normals, torch.zeros(s, dtype=d)), "points-dim-rejected", str(s))
            # iteration and length
            if n:
                got = np.stack([npa(y.get_matrix())[0] for y in t])
                cx.expect(got.shape == m.shape and R.materr(got, m) < TOLS[d] and len(t) == n, "iteration", "iterating over %d transforms" % n)
    # perspective matrices: homogeneous division and its clamp
    pm = np.eye(4)
    pm[3] = [.5, -.25, 1., .1]
    t = pk.Transform3d(matrix=tt(pm, d))
    pz = np.array([[1., 0, 0], [0, 0, -.1], [0, .4, 0], [2, -1, 3], [0, .4 + 4e-4, 0], [0, .4 - 4e-4, 0], [-3, 2, 1.]])
    for eps in (None, 1e-3, .5):
        h = np.concatenate([pz, np.ones((len(pz), 1))], 1) @ pm.T
        w = npa(tt(h[:, 3], d))
        w = np.where(np.abs(w) < 1e-7, 0, w)
        sel = np.abs(w) > 1e-5 if eps is None else np.abs(w) > 1e-5
        den = w if eps is None else np.where(w >= 0, 1, -1) * np.maximum(np.abs(w), eps)
        got = npa(t.transform_points(tt(pz, d), eps=eps))
        want = h[:, :3] / np.where(den == 0, 1, den)[:, None]
        e = np.abs(got - want)[sel] / np.maximum(1, np.abs(want[sel]))
        cx.expect(e.max() < (1e-9 if d == F64 else 5e-3), "homogeneous", lambda: "eps %s: %s instead of %s" % (eps, got[sel].tolist(), want[sel].tolist()))
    # batches of affine, scaled homogeneous and perspective matrices in every order
    hm = np.eye(4) * 1.
    hm[3, 3] = 2.
    pw = np.array(GEN[0])
    pw[3] = [.2, -.1, .3, 1.5]
    kinds = [GEN[1], hm @ GEN[0], pw]
    pts = np.array([[1., .5, -.2], [0., 2., .3]])
    for n in (1, 2, 3):
        for ks in itertools.product(range(3), repeat=n):
            m = np.stack([kinds[k] for k in ks])
            t = pk.Transform3d(matrix=tt(m, d))
            for x in (pts, np.stack([pts + i for i in range(n)])):
                h = np.concatenate([x, np.ones(x.shape[:-1] + (1,))], -1)
                w = np.einsum("nij,npj->npi", m, np.broadcast_to(h, (n,) + h.shape[-2:]))
                w = w[..., :3] / w[..., 3:]
                got = npa(t.transform_points(tt(x, d)))
                w = w[0] if n == 1 and x.ndim == 2 else w
                cx.expect(got.shape == w.shape and np.abs(got - w).max() < TOLS[d] * 20, "homogeneous-batch", lambda: "kinds %s: %s instead of %s" % (ks, got.tolist(), w.tolist()))
            cx.add(states=1, traces=1)
    cx.sample = dict(points=[list(p) for p in pool[:2]])


def sizes(case, cx):
    """many transforms, many points, long stacks"""
    d = DT[case["d"]]
    top = 4100 if case["tier"] == "quick" else 33000
    i = np.arange(top)
    m = np.concatenate([GEN, SCALED])[i % 4].copy()
    m[:, :3, 3] += np.stack([np.sin(i), .01 * (i % 97), np.cos(1.7 * i)], 1)
    pool = np.stack([np.sin(i * .7) * 3, np.cos(i * 1.3), (i % 31) * .1 - 2], 1)
    ns = sorted(set(range(1, 70)) | {x + e for x in (100, 128, 256, 512, 1000, 1024, 2048, 4096) + ((8192, 10000, 16384, 32768) if top > 5000 else ()) for e in (-1, 0, 1)})
    M = tt(m, d)
    P = tt(pool, d)
    m32, p32, o32 = npa(M).astype(float), npa(P).astype(float), npa(M).astype(float)[::-1]
    inv = np.linalg.inv(m32)

    def judge(sig, got, want, n):
        g = npa(got)
        ok = g.shape == want.shape and got.dtype == d and np.all(np.abs(g - want) <= TOLS[d] * 20 * np.maximum(1, np.abs(want)))
        cx.expect(ok, sig, lambda: "%s transforms or points: shape %s instead of %s, or wrong values" % (n, g.shape, want.shape))
        cx.add(states=1, traces=1)

    def act(a, p):
        return np.einsum("nij,npj->npi", a[:, :3, :3], p) + a[:, None, :3, 3]

    def nrm(ai, p):
        return np.einsum("nji,npj->npi", ai[:, :3, :3], p)
    for n in ns[case["part"]::4]:
        t = pk.Transform3d(matrix=M[:n].clone())
        o = pk.Transform3d(matrix=M.flip(0)[:n].clone())
        one = pk.Transform3d(matrix=M[5:6].clone())
        judge("big-inverse", t.inverse().get_matrix(), inv[:n], n)
        judge("big-compose", t.compose(o).get_matrix(), m32[:n] @ o32[:n], n)
        judge("big-compose", t.compose(one).get_matrix(), m32[:n] @ m32[5:6], n)
        judge("big-compose", one.compose(t).get_matrix(), m32[5:6] @ m32[:n], n)
        judge("big-translate", t.translate(P[:n]).get_matrix(), m32[:n] @ tr(p32[:n]), n)
        judge("big-stack", t.stack(o, one).get_matrix(), np.concatenate([m32[:n], o32[:n], m32[5:6]]), n)
        judge("big-index", t[::3].get_matrix(), m32[:n][::3], n)
        judge("big-index", t[[n - 1, 0, n // 2]].get_matrix(), m32[:n][[n - 1, 0, n // 2]], n)
        judge("big-index", t[-1].get_matrix(), m32[n - 1:n], n)
        judge("big-clone", t.clone().get_matrix(), m32[:n], n)
        judge("big-points", t.transform_points(P[:3]), act(m32[:n], p32[None, :3]) if n > 1 else act(m32[:1], p32[None, :3])[0], n)
        judge("big-points", one.transform_points(P[:n]), act(m32[5:6], p32[None, :n])[0], n)
        judge("big-points", t.transform_points(P[:n, None]), act(m32[:n], p32[:n, None]), n)
        judge("big-points", t.transform_points(P[:n], batch_to_batch=True), act(m32[:n], p32[:n, None])[:, 0], n)
        judge("big-normals", t.transform_normals(P[:n, None]), nrm(inv[:n], p32[:n, None]), n)
        judge("big-normals", one.transform_normals(P[:n]), nrm(inv[5:6], p32[None, :n])[0], n)
        judge("big-normals", t.transform_normals(P[:n], batch_to_batch=True), nrm(inv[:n], p32[:n, None])[:, 0], n)
        for k in (2, 5):
            a, b = max(1, n // k), k
            judge("big-both", pk.Transform3d(matrix=M[:a].clone()).transform_points(P[:b]), act(m32[:a], p32[None, :b]) if a > 1 else act(m32[:a], p32[None, :b])[0], (a, b))
        if n <= 130:
            parts = [pk.Transform3d(matrix=M[k:k + 1 + k % 2].clone()) for k in range(n)]
            judge("long-stack", parts[0].stack(*parts[1:]).get_matrix(), np.concatenate([m32[k:k + 1 + k % 2] for k in range(n)]), n)
            rigid = [k for k in range(n) if k % 4 != 3]
            if n <= 40 or d == F64:
                g = parts[0].compose(*[pk.Transform3d(matrix=M[k:k + 1].clone()) for k in rigid[1:]])
                want = m32[:1]
                for k in rigid[1:]:
                    want = want @ m32[k:k + 1]
                judge("long-compose", g.get_matrix(), want, n)
        cx.outcome("sizes", n)
    cx.sample = dict(sizes=len(ns), largest=ns[-1])


def rejected(case, cx):
    for s in ((3, 3), (3, 4), (4, 3), (2, 3, 3), (4,), (2, 2, 4, 4), (1, 4, 5)):
        cx.expect(raises(pk.Transform3d, matrix=torch.zeros(s)), "matrix-shape-rejected", str(s))
    t = pk.Transform3d(default_batch_size=2)
    for k in (2, 3, -3):
        cx.expect(raises(lambda: t[k]), "index-rejected", "index %d of 2" % k)
    cx.expect(raises(t.compose, pk.Transform3d(default_batch_size=3)), "compose-misfit", "2 with 3")
    for d in (F64, F32):
        a = pk.Transform3d(matrix=tt(GEN, d))
        for dt in (None, F64, F32):
            for copy in (False, True):
                b = a.to("cpu", copy=copy, dtype=dt)
                want = dt or d
                cx.expect(b.dtype == want and b.get_matrix().dtype == want and R.materr(npa(b.get_matrix()), GEN) < TOLS[F32], "to", "%s to %s copy %s" % (d, dt, copy))
                cx.expect(a.dtype == d and a.get_matrix().dtype == d, "to-source", "%s to %s" % (d, dt))
                if copy:
                    b.get_matrix()[:] = 0
                    cx.expect(R.materr(npa(a.get_matrix()), GEN) < TOLS[d], "to-copy", "writing to a copy changes the source")
                cx.add(states=1)
        c = a.clone()
        c.get_matrix()[:] = 0
        cx.expect(R.materr(npa(a.get_matrix()), GEN) < TOLS[d], "clone-copy", "writing to a clone changes the source")
        cx.expect(R.materr(npa(a.cpu().get_matrix()), GEN) < TOLS[d], "cpu", "")
        repr(a)
    cx.sample = dict(example="matrix (3, 3) rejected")
