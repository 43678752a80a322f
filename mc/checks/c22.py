"""Every public rotation / quaternion / pose / transform function x batch shapes (none, empty, one, many, several dimensions)
x number types x process default number type x memory layouts x gradient recording: arguments survive, the result has the
right type and shape and is entry by entry that of the entry alone, and the same on every layout.  All ordered pairs of
functions as call histories: a call in between changes neither earlier results nor the next answer."""
import itertools
import warnings

import numpy as np
import torch

import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc, so3
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="64 functions, 12 batch shapes, 2 number types, 2 defaults, 6 layouts; every batch size to 139 and around powers of two to 2^14 and of ten; all ordered pairs of 22 values and triples of 7 or 8 in one batch; all ordered pairs of functions",
              thorough="every batch size to 1099 and around powers of two to 2^17; all pairs of 60 values and triples of 16 or more; all ordered triples of functions")
SH = [(), (1,), (2,), (3,), (4,), (0,), (5, 1), (1, 3), (2, 3), (3, 3), (4, 4), (0, 3), (2, 1, 3)]
B1 = [(1,), (2,), (3,), (4,), (0,), (7,)]
TOLS = {F64: 1e-11, F32: 2e-5}


def gen(kind, n, salt):
    """n deterministic values of a kind, singular ones among them (float64)"""
    i = np.arange(n) + 11 * salt
    axes = np.array([(1, 0, 0), (0, 0, 1), (1, 2, -3), (-.3, .5, .7), (0, -1, 1), (-1, -1, -1)], float)
    angs = np.array([.4, 2.9, np.pi / 2, 1e-4, 1.7, 0., 3.1, .9])
    ax = axes[i % 6] / np.linalg.norm(axes[i % 6], axis=-1, keepdims=True) if n else np.zeros((0, 3))
    an = angs[(i * 3) % 8]
    if kind == "v":
        return np.stack([np.sin(1.3 * i + 1), 2 * np.cos(.7 * i), .3 * i - 1], -1)
    if kind == "aa":
        return ax * an[:, None]
    if kind == "axis":
        return ax
    if kind == "s":
        return np.cos(1.1 * i + .3) * 1.2
    if kind == "cos":
        return np.cos(1.1 * i + .3) * .999
    q = np.concatenate([np.cos(an / 2)[:, None], np.sin(an / 2)[:, None] * ax], -1) * np.where(i % 3 == 1, -1, 1)[:, None]
    if kind == "q":
        return q
    m = ref.qmat(q) if n else np.zeros((0, 3, 3))
    if kind == "m":
        return m
    if kind == "six":
        return m[:, :2].reshape(n, 6) * (1 + .5 * (i % 2))[:, None]
    v = gen("v", n, salt)
    if kind == "nine":
        return np.concatenate([m[:, :2].reshape(n, 6), v], -1)
    if kind == "m4":
        h = np.tile(np.eye(4), (n, 1, 1))
        h[:, :3, :3], h[:, :3, 3] = m, v
        return h
    if kind == "skew":
        h = np.zeros((n, 3, 3))
        h[:, 2, 1], h[:, 0, 2], h[:, 1, 0] = v.T if n else (0, 0, 0)
        return h - np.swapaxes(h, 1, 2)
    if kind == "t":
        return (.5 + .5 * np.sin(i))
    raise KeyError(kind)


def aam(x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return rc.axis_angle_to_matrix(x)


def T(m):
    return pk.Transform3d(matrix=m)


def Tm(f):
    return lambda *a: f(*a).get_matrix()


# name, argument kinds, batch shapes, function
FUNCS = [("axis_angle_to_quaternion", ["aa"], SH, tf.axis_angle_to_quaternion), ("quaternion_to_axis_angle", ["q"], SH, tf.quaternion_to_axis_angle),
         ("matrix_to_axis_angle", ["m"], SH, tf.matrix_to_axis_angle), ("matrix_to_quaternion", ["m"], SH, tf.matrix_to_quaternion),
         ("matrix_to_rotation_6d", ["m"], SH, tf.matrix_to_rotation_6d), ("rotation_6d_to_matrix", ["six"], SH, tf.rotation_6d_to_matrix),
         ("quaternion_apply", ["q", "v"], SH, tf.quaternion_apply), ("quaternion_invert", ["q"], SH, tf.quaternion_invert),
         ("quaternion_multiply", ["q", "q"], SH, tf.quaternion_multiply), ("quaternion_raw_multiply", ["q", "q"], SH, tf.quaternion_raw_multiply),
         ("quaternion_to_matrix", ["q"], SH, tf.quaternion_to_matrix), ("quaternion_from_euler", ["v"], SH, tf.quaternion_from_euler),
         ("quaternion_from_euler_rzyz", ["v"], SH, lambda v: tf.quaternion_from_euler(v, "rzyz")), ("quaternion_from_euler_syxz", ["v"], SH, lambda v: tf.quaternion_from_euler(v, "syxz")),
         ("standardize_quaternion", ["q"], SH, tf.standardize_quaternion), ("axis_and_angle_to_matrix_33", ["axis", "s"], SH, tf.axis_and_angle_to_matrix_33),
         ("axis_and_angle_to_matrix_44", ["axis", "s"], SH, rc.axis_and_angle_to_matrix_44), ("axis_and_d_to_pris_matrix", ["axis", "s"], SH, tf.axis_and_d_to_pris_matrix),
         ("axis_angle_to_matrix", ["aa"], SH, aam), ("wxyz_to_xyzw", ["q"], SH, tf.wxyz_to_xyzw), ("xyzw_to_wxyz", ["q"], SH, tf.xyzw_to_wxyz),
         ("matrix44_to_se3_9d", ["m4"], SH, tf.matrix44_to_se3_9d), ("se3_9d_to_matrix44", ["nine"], SH, tf.se3_9d_to_matrix44),
         ("pos_rot_to_matrix", ["v", "q"], SH, tf.pos_rot_to_matrix), ("matrix_to_pos_rot", ["m4"], SH, tf.matrix_to_pos_rot),
         ("euler_angles_to_matrix_XYZ", ["v"], SH, lambda v: tf.euler_angles_to_matrix(v, "XYZ")), ("euler_angles_to_matrix_ZXZ", ["v"], SH, lambda v: tf.euler_angles_to_matrix(v, "ZXZ")),
         ("matrix_to_euler_angles_XYZ", ["m"], SH, lambda m: tf.matrix_to_euler_angles(m, "XYZ")),
         ("quaternion_angular_distance", ["q", "q"], SH, tf.quaternion_angular_distance), ("quaternion_slerp", ["q", "q"], SH, lambda a, b: tf.quaternion_slerp(a, b, .3)),
         ("quaternion_slerp_t", ["q", "q", "t"], SH, tf.quaternion_slerp), ("acos_linear_extrapolation", ["s"], SH, tf.acos_linear_extrapolation),
         ("so3_exp_map", ["aa"], B1, tf.so3_exp_map), ("so3_log_map", ["m"], B1, tf.so3_log_map), ("so3_rotation_angle", ["m"], B1, tf.so3_rotation_angle),
         ("so3_rotation_angle_cos", ["m"], B1, lambda m: tf.so3_rotation_angle(m, cos_angle=True)), ("so3_relative_angle", ["m", "m"], B1, tf.so3_relative_angle),
         ("hat", ["v"], B1, so3.hat), ("hat_inv", ["skew"], B1, so3.hat_inv),
         ("Transform3d.matrix", ["m4"], B1 + [()], Tm(T)), ("Transform3d.inverse", ["m4"], B1 + [()], Tm(lambda m: T(m).inverse())),
         ("Transform3d.compose", ["m4", "m4"], B1 + [()], Tm(lambda a, b: T(a).compose(T(b)))), ("Transform3d.compose2", ["m4", "m4"], B1 + [()], Tm(lambda a, b: T(b).compose(T(a), T(b)))),
         ("Transform3d.rot_pos", ["q", "v"], B1 + [()], Tm(lambda q, v: pk.Transform3d(rot=q, pos=v, dtype=q.dtype))),
         ("Transform3d.rotm_pos", ["m", "v"], B1 + [()], Tm(lambda m, v: pk.Transform3d(rot=m, pos=v, dtype=m.dtype))),
         ("Transform3d.matrix_pos", ["m4", "v"], B1 + [()], Tm(lambda m, v: pk.Transform3d(matrix=m, pos=v, dtype=m.dtype))),
         ("Transform3d.matrix_rot", ["m4", "q"], B1 + [()], Tm(lambda m, q: pk.Transform3d(matrix=m, rot=q, dtype=m.dtype))),
         ("Transform3d.translate", ["m4", "v"], B1, Tm(lambda m, v: T(m).translate(v))), ("Transform3d.scale", ["m4", "v"], B1, Tm(lambda m, v: T(m).scale(v))),
         ("Transform3d.rotate", ["m4", "m"], B1, Tm(lambda m, r: T(m).rotate(r))), ("Transform3d.rotate_axis_angle", ["m4", "s"], B1, Tm(lambda m, s: T(m).rotate_axis_angle(s, axis="Y", degrees=False))),
         ("Transform3d.clone", ["m4"], B1, Tm(lambda m: T(m).clone())), ("Transform3d.points", ["m4", "v"], [(2,), (3,), (4,), (7,)], lambda m, v: T(m).transform_points(v[:, None])),
         ("Transform3d.normals", ["m4", "v"], [(2,), (3,), (4,), (7,)], lambda m, v: T(m).transform_normals(v[:, None])),
         ("Transform3d.points_each", ["m4", "v"], [(2,), (3,), (4,), (7,)], lambda m, v: T(m).transform_points(v, batch_to_batch=True)),
         ("Transform3d.normals_each", ["m4", "v"], [(2,), (3,), (4,), (7,)], lambda m, v: T(m).transform_normals(v, batch_to_batch=True)),
         ("Translate", ["v"], B1, Tm(lambda v: tf.Translate(v, dtype=v.dtype))), ("Translate.inverse", ["v"], B1, Tm(lambda v: tf.Translate(v, dtype=v.dtype).inverse())),
         ("Scale", ["v"], B1, Tm(lambda v: tf.Scale(v + 5, dtype=v.dtype))), ("Scale.inverse", ["v"], B1, Tm(lambda v: tf.Scale(v + 50, dtype=v.dtype).inverse())),
         ("Rotate", ["m"], B1 + [()], Tm(lambda m: tf.Rotate(m, dtype=m.dtype))), ("Rotate.quat", ["q"], B1 + [()], Tm(lambda m: tf.Rotate(m, dtype=m.dtype))),
         ("Rotate.inverse", ["m"], B1 + [()], Tm(lambda m: tf.Rotate(m, dtype=m.dtype).inverse())),
         ("RotateAxisAngle", ["s"], B1 + [()], Tm(lambda s: tf.RotateAxisAngle(s, axis="Z", dtype=s.dtype)))]
# these give views of their argument or hold it, on purpose or as a matter of course
SHARES = {"matrix_to_pos_rot", "Transform3d.matrix"}


def outs(y):
    return list(y) if isinstance(y, (tuple, list)) else [y]


def mk(kinds, shape, d, salt=0):
    n = int(np.prod(shape)) if shape else 1
    return [torch.tensor(gen(k, n, salt + 3 * i), dtype=d).reshape(tuple(shape) + gen(k, 1, 0).shape[1:]) for i, k in enumerate(kinds)]


def layouts(x):
    """the same values in different memory layouts"""
    yield "offset", torch.cat([torch.full((1,) + x.shape, 7., dtype=x.dtype), x[None]])[1]
    if x.dim() >= 2:
        yield "transposed", x.transpose(-1, -2).contiguous().transpose(-1, -2)
        yield "batch transposed", x.transpose(0, -1).contiguous().transpose(0, -1)
    if x.dim() >= 1:
        z = torch.full(x.shape[:-1] + (2 * x.shape[-1],), 9., dtype=x.dtype)
        z[..., ::2] = x
        yield "strided", z[..., ::2]
        z = torch.full((2 * x.shape[0],) + x.shape[1:], 9., dtype=x.dtype)
        z[::2] = x
        yield "every other", z[::2]


def cases(tier):
    out = []
    for i in range(len(FUNCS)):
        out.append(dict(name="function-" + FUNCS[i][0], what="function", f=i))
        out.append(dict(name="history-" + FUNCS[i][0], what="history", f=i, L=3 if tier == "thorough" else 2))
        out.append(dict(name="sizes-" + FUNCS[i][0], what="sizes", f=i, tier=tier))
        out.append(dict(name="mixes-" + FUNCS[i][0], what="mixes", f=i, tier=tier))
    return out


def run(case, cx):
    globals()[case["what"]](case, cx)


def function(case, cx):
    name, kinds, shapes_, f = FUNCS[case["f"]]
    old = torch.get_default_dtype()
    try:
        for default in (F32, F64):
            torch.set_default_dtype(default)
            for d in (F64, F32):
                one_shapes = None
                for s in shapes_:
                    n = int(np.prod(s)) if s else 1
                    xs = mk(kinds, s, d)
                    keep = [x.clone() for x in xs]
                    ys = outs(f(*xs))
                    lab = "%s, batch %s, %s" % (name, s, d)
                    for x, k in zip(xs, keep):
                        cx.expect(bool((x == k).all()) and x.shape == k.shape, "argument:" + name, lab + ": the argument changed")
                    again = outs(f(*xs))
                    cx.expect(all(torch.equal(a, b) for a, b in zip(ys, again)), "again:" + name, lab)
                    if name not in SHARES:
                        # the result is the caller's: writing into it reaches neither the arguments nor a later result
                        vals = [y.clone() for y in ys]
                        for y in again:
                            y.fill_(77.) if y.is_contiguous() else y.copy_(torch.full_like(y, 77.))
                        cx.expect(all(torch.equal(x, k) for x, k in zip(xs, keep)), "result-shared:" + name, lab + ": writing into the result changes the argument")
                        cx.expect(all(torch.equal(a, b) for a, b in zip(ys, vals)), "result-shared:" + name, lab + ": writing into one result changes another")
                        cx.expect(all(torch.equal(a, b) for a, b in zip(outs(f(*xs)), vals)), "result-shared:" + name, lab + ": writing into the result changes the next")
                    lead = s if s or not name.startswith(("Transform3d", "Rotate")) else (1,)
                    for y in ys:
                        cx.expect(y.dtype == d, "dtype:" + name, lambda: "%s gives %s (process default %s)" % (lab, y.dtype, default))
                        cx.expect(tuple(y.shape[:len(lead)]) == tuple(lead), "shape:" + name, lambda: "%s gives %s" % (lab, tuple(y.shape)))
                    cells = [tuple(y.shape[len(lead):]) for y in ys]
                    if one_shapes is None:
                        one_shapes = cells
                    cx.expect(cells == one_shapes, "shape:" + name, lambda: "%s: entries of shape %s, alone %s" % (lab, cells, one_shapes))
                    # entries alone
                    scalar_ok = () in shapes_
                    flat = [x.reshape((n,) + x.shape[len(s):]) for x in xs]
                    for i in range(n):
                        o = outs(f(*[x[i] if scalar_ok else x[i:i + 1] for x in flat]))
                        for y, w in zip(ys, o):
                            g = y.reshape((n,) + y.shape[len(lead):])[i]
                            w = w.reshape(g.shape) if w.numel() == g.numel() else w
                            ok = w.shape == g.shape and bool(((g - w).abs() <= TOLS[d] * (1 + w.abs())).all() if g.numel() else True)
                            cx.expect(ok, "alone:" + name, lambda: "%s: entry %d is %s, alone %s" % (lab, i, g.tolist(), w.tolist()))
                    # layouts, gradient recording, and the same tensor as both arguments
                    for variants in zip(*[list(layouts(x)) for x in xs]) if len({x.dim() > 1 for x in xs}) == 1 else []:
                        v = [x for _, x in variants]
                        kv = [x.clone() for x in v]
                        o = outs(f(*v))
                        ok = all(a.shape == b.shape and bool(((a - b).abs() <= TOLS[d] * (1 + b.abs())).all()) for a, b in zip(o, ys))
                        cx.expect(ok, "layout:" + name, lambda: "%s: %s arguments give another result" % (lab, variants[0][0]))
                        cx.expect(all(torch.equal(a, b) for a, b in zip(v, kv)), "argument:" + name, lab)
                        cx.add(states=1)
                    r = [x.clone().requires_grad_() for x in xs]
                    o = outs(f(*r))
                    ok = all(torch.equal(a.detach(), b) for a, b in zip(o, ys))
                    cx.expect(ok, "recording:" + name, lab + ": another result when gradients are recorded")
                    with torch.inference_mode():
                        o = outs(f(*xs))
                    cx.expect(all(torch.equal(a, b) for a, b in zip(o, ys)), "recording:" + name, lab + ": another result in inference mode")
                    if len(kinds) == 2 and kinds[0] == kinds[1]:
                        a = outs(f(xs[0], xs[0]))
                        b = outs(f(xs[0], xs[0].clone()))
                        cx.expect(all(torch.equal(u, w) for u, w in zip(a, b)) and torch.equal(xs[0], keep[0]), "same-argument:" + name, lab)
                    cx.add(states=1 + n, traces=1)
                    cx.outcome(name, s, str(d))
    finally:
        torch.set_default_dtype(old)
    cx.sample = dict(function=name, shapes=[list(s) for s in shapes_])


def close(a, b, d):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and bool(((x - y).abs() <= TOLS[d] * (1 + y.abs())).all()) for x, y in zip(a, b))


def sizes(case, cx):
    """every batch size up to a bound and around powers of two and ten: row i is that of a small batch"""
    name, kinds, shapes_, f = FUNCS[case["f"]]
    ns = set(range(1, 140)) | {2 ** k + e for k in range(7, 15) for e in (-1, 0, 1)} | {10 ** k + e for k in (2, 3, 4) for e in (-1, 0, 1)}
    if case["tier"] == "thorough":
        ns |= set(range(1, 1100)) | {2 ** k + e for k in range(15, 18) for e in (-1, 0, 1)}
    top = max(ns)
    for d in (F64, F32):
        xs = [torch.tensor(gen(k, top, 3 * i), dtype=d) for i, k in enumerate(kinds)]
        keep = [x.clone() for x in xs]
        parts = [outs(f(*[x[i:i + 12] for x in xs])) for i in range(0, top, 12)]
        want = [torch.cat([p[k] for p in parts]) for k in range(len(parts[0]))]
        for n in sorted(ns):
            got = outs(f(*[x[:n] for x in xs]))
            ok = close(got, [w[:n] for w in want], d)
            cx.expect(ok, "size:" + name, lambda: "%s, batch of %d, %s: some row differs from that of a small batch" % (name, n, d))
            cx.add(states=n)
            if not ok:
                break
        cx.expect(all(torch.equal(a, b) for a, b in zip(xs, keep)), "argument:" + name, "large batches change the argument")
        # two dimensions of that size
        if (5, 1) in shapes_:
            n = min(top, 10002) // 6 * 6
            for s in ((n // 6, 6), (6, n // 6), (n, 1), (1, n)):
                got = outs(f(*[x[:n].reshape(s + x.shape[1:]) for x in xs]))
                ok = close([g.reshape((n,) + g.shape[2:]) for g in got], [w[:n] for w in want], d)
                cx.expect(ok, "size:" + name, lambda: "%s, batch %s, %s: some entry differs from that of a small batch" % (name, s, d))
                cx.add(states=n)
    cx.outcome(name, len(ns))
    cx.sample = dict(function=name, sizes=len(ns), largest=top)


def mixes(case, cx):
    """every ordered pair of special values, and every triple of a selection, as a batch: each entry as alone"""
    from mc.checks import c26
    name, kinds, shapes_, f = FUNCS[case["f"]]
    K, M = (22, 7) if case["tier"] == "quick" else (60, 16)
    vals = []
    for i, k in enumerate(kinds):
        a = np.concatenate([c26.alpha(k, False), gen(k, 12, i)])
        if name.startswith("Scale"):
            a = a + .125
        vals.append(a)
    m = min(len(a) for a in vals)
    pick = [int(round(i * (m - 1) / (K - 1))) for i in range(K)] if m > K else list(range(m))
    for d in (F64, F32):
        xs = [torch.tensor(np.roll(a[pick], 5 * i, 0), dtype=d) for i, a in enumerate(vals)]
        n = len(pick)
        alone = [outs(f(*[x[i:i + 1] for x in xs])) for i in range(n)]
        few = range(0, n, max(1, n // M))
        for ids in itertools.chain(itertools.product(range(n), repeat=2), itertools.product(few, repeat=3)):
            i = list(ids)
            got = outs(f(*[x[i] for x in xs]))
            want = [torch.cat([alone[j][k] for j in i]) for k in range(len(got))]
            ok = all(g.shape == w.shape and bool((((g - w).abs() <= TOLS[d] * (1 + w.abs())) | (g == w) | (g.isnan() & w.isnan())).all()) for g, w in zip(got, want))
            cx.expect(ok, "mix:" + name, lambda: "%s, entries %s, %s: %s, alone %s" % (name, [[x[j].tolist() for x in xs] for j in i], d, [g.tolist() for g in got], [w.tolist() for w in want]))
            cx.add(states=1, traces=1)
    cx.outcome(name, n)
    cx.sample = dict(function=name, values=n)


def history(case, cx):
    """f, then any other function(s) on other values, then f again"""
    d = F64

    def args(i, salt, alt):
        name, kinds, shapes_, f = FUNCS[i]
        return mk(kinds, shapes_[2 if not alt else 3], d if salt != 9 else F32, salt)
    name, kinds, shapes_, f = FUNCS[case["f"]]
    xs = args(case["f"], 1, False)
    keep = [x.clone() for x in xs]
    ys = outs(f(*xs))
    val = [y.clone() for y in ys]
    others = [(i, args(i, s, alt)) for i in range(len(FUNCS)) for s, alt in ((5, False), (9, True))]
    first = {}
    seqs = itertools.product(others, repeat=1) if case["L"] == 2 else itertools.chain(itertools.product(others, repeat=1), itertools.product(others[::2], repeat=2))
    for seq in seqs:
        for i, a in seq:
            o = outs(FUNCS[i][3](*a))
            k = id(a[0])
            if k not in first:
                first[k] = [x.clone() for x in o]
            cx.expect(all(torch.equal(u, w) for u, w in zip(o, first[k])), "history:" + FUNCS[i][0], lambda: "after %s" % name)
        zs = outs(f(*xs))
        lab = lambda: "%s around %s" % (name, [FUNCS[i][0] for i, _ in seq])
        cx.expect(all(torch.equal(u, w) for u, w in zip(zs, val)), "history:" + name, lab)
        cx.expect(all(torch.equal(u, w) for u, w in zip(ys, val)), "earlier-result:" + name, lab)
        cx.expect(all(torch.equal(u, w) for u, w in zip(xs, keep)), "argument:" + name, lab)
        cx.add(states=1, traces=1)
    # transforms: methods do not change the transform they are called on, also a shared one
    if case["f"] == 0:
        m = torch.tensor(gen("m4", 3, 2), dtype=d)
        for make in (lambda: T(m.clone()), lambda: tf.Translate(torch.tensor(gen("v", 3, 1))), lambda: tf.Scale(torch.tensor(gen("v", 3, 1)) + 5), lambda: tf.Rotate(torch.tensor(gen("m", 3, 1)), dtype=F64)):
            meths = [lambda t: t.inverse().get_matrix(), lambda t: t.compose(T(m)).get_matrix(), lambda t: T(m).compose(t).get_matrix(), lambda t: t.stack(t).get_matrix(),
                     lambda t: t.transform_points(torch.tensor(gen("v", 5, 1), dtype=t.dtype)), lambda t: t.transform_normals(torch.tensor(gen("v", 5, 1), dtype=t.dtype)),
                     lambda t: t.translate(1., 2., 3.).get_matrix(), lambda t: t.scale(2.).get_matrix(), lambda t: t.rotate(torch.eye(3, dtype=t.dtype)).get_matrix(),
                     lambda t: t.rotate_axis_angle(30.).get_matrix(), lambda t: t.clone().get_matrix(), lambda t: t[1].get_matrix(), lambda t: t[:2].get_matrix(),
                     lambda t: t.to("cpu", dtype=F32).get_matrix(), lambda t: t.to("cpu", copy=True).get_matrix(), lambda t: torch.tensor(len(repr(t)))]
            base = make().get_matrix().clone()
            alone = [g(make()) for g in meths]
            for seq in itertools.product(range(len(meths)), repeat=case["L"]):
                t = make()
                for k in seq:
                    cx.expect(torch.equal(meths[k](t), alone[k]), "method-history", lambda: "methods %s" % (seq,))
                cx.expect(torch.equal(t.get_matrix(), base), "method-operand", lambda: "methods %s" % (seq,))
                cx.add(states=1)
    cx.sample = dict(function=name, others=len(others))
