"""Every differentiable public function x every input of an alphabet with all singular cases (zero, tiny, quarter, half and
full turns, equal and opposite pairs; all pairs for two arguments): the full Jacobian recorded by autograd is compared with
differences of the function along the manifold its argument lives on, wherever the function is differentiable there, must
be finite there in both number types, and must be the same for an entry alone and in any batch."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from mc import ref, robots as R
from mc.util import *
from mc.checks import c22

BOUNDS = dict(quick="63 functions, 76 rotations / 53 vectors each (up to 32^2 pairs for two arguments), every output entry x every direction",
              thorough="all pairs of the batch selection and all triples of 8 entries per function")
H = 1e-5


def alpha(kind, few):
    """values of a kind (float64), the hard ones first"""
    k = [ref.unit(v) for v in [(1, 0, 0), (0, 0, -1), (1, 2, -3), (0, 1, 1)]]
    if kind in ("aa", "v"):
        a = [np.zeros(3)] + [x * t for x in k for t in (1e-9, 9e-7, 2e-6, 1e-4, .05, .5, np.pi / 2, 2.5, np.pi, 4., 2 * np.pi - .2)]
        a += [np.array(x, float) for x in itertools.product((0., 1.3), (0., -.4), (0., 2.))]
        a = np.array(a)
        return a[::2] if few else a
    if kind == "axis":
        return np.array([ref.unit(v) for v in itertools.product((-1., 0, 1), repeat=3) if any(v)] + k[2:])
    if kind in ("s", "t", "cos"):
        return np.array([0., 1e-9, 1e-3, .3, -.8, .5, .99995, 1., -1., 1.2, np.pi, -7., 30.]) if kind != "t" else np.array([0., .25, .5, 1., .9, 1e-3])
    q = [np.array(x) for x in ref.octahedral_quats()][::3 if few else 1]
    q += [ref.axis_angle_quat(x, t) for x in k[:4:2 if few else 1] for t in (1e-9, 1e-6, 1e-3, .7, np.pi - 1e-2, np.pi, 4.)]
    if few:
        q += [-ref.axis_angle_quat(k[2], .7), -ref.axis_angle_quat(k[2], 2.)]
    q = np.array(q)
    if kind == "q":
        return q
    m = ref.qmat(q)
    if kind == "m":
        return m
    n = len(q)
    v = np.resize(c22.gen("v", 17, 1), (n, 3))
    if kind == "six":
        return m[:, :2].reshape(n, 6) * (1 + .5 * (np.arange(n) % 2))[:, None]
    if kind == "nine":
        return np.concatenate([m[:, :2].reshape(n, 6), v], -1)
    if kind == "m4":
        h = np.tile(np.eye(4), (n, 1, 1))
        h[:, :3, :3], h[:, :3, 3] = m, v
        return h
    if kind == "skew":
        return c22.gen("skew", n, 1)
    raise KeyError(kind)


def directions(kind, x):
    """directions along the manifold at the values x (float64, batch first)"""
    n = len(x)
    if kind == "q":
        e = np.eye(4)[1:]
        return [.5 * ref.qmul(x, np.broadcast_to(v, (n, 4))) for v in e]
    if kind in ("m", "m4"):
        out = []
        for v in np.eye(3):
            K = ref.skew(v)
            if kind == "m":
                out.append(x @ K)
            else:
                D = np.zeros((4, 4))
                D[:3, :3] = K
                out.append(x @ D)
        if kind == "m4":
            for j in range(3):
                D = np.zeros((n, 4, 4))
                D[:, j, 3] = 1
                out.append(D)
        return out
    if kind == "skew":
        return [np.broadcast_to(ref.skew(v), (n, 3, 3)) for v in np.eye(3)]
    flat = int(np.prod(x.shape[1:])) if x.ndim > 1 else 1
    out = []
    for j in range(flat):
        D = np.zeros((n, flat))
        D[:, j] = 1
        out.append(D.reshape(x.shape))
    return out


def step(kind, x, D, h):
    """exact step of length h along the manifold"""
    if kind == "q":
        y = x * np.cos(h / 2) + 2 * D * np.sin(h / 2)
        return y
    if kind in ("m", "m4"):
        Rx = x[..., :3, :3]
        K = np.swapaxes(Rx, -1, -2) @ D[..., :3, :3]
        E = np.eye(3) + np.sin(h) * K + (1 - np.cos(h)) * (K @ K)
        if kind == "m":
            return Rx @ E
        y = x + h * D
        y[..., :3, :3] = Rx @ E
        return y
    return x + h * D


FUNCS = [f for f in c22.FUNCS if f[0] not in ("Scale.inverse",)]


def cases(tier):
    out = []
    for i, f in enumerate(FUNCS):
        out.append(dict(name=f[0], f=i, tier=tier))
    return out


def combos(kinds, few):
    """all combinations of the values of the arguments; up to 3 arguments"""
    a = [alpha(k, few or len(kinds) > 1) for k in kinds]
    idx = np.stack([g.ravel() for g in np.meshgrid(*[np.arange(len(x)) for x in a], indexing="ij")])
    if idx.shape[1] > 4000:
        idx = idx[:, ::idx.shape[1] // 4000 + 1]
    return [x[i] for x, i in zip(a, idx)]


def flat(y, n):
    return torch.cat([o.reshape(n, -1) for o in c22.outs(y)], 1)


def jac(f, xs, d, n):
    ts = [torch.tensor(x, dtype=d, requires_grad=True) for x in xs]
    y = flat(f(*ts), n)
    out = []
    for k in range(y.shape[1]):
        if not y.requires_grad:
            out.append([np.zeros_like(x) for x in xs])
            continue
        g = torch.autograd.grad(y[:, k].sum(), ts, retain_graph=True, allow_unused=True)
        out.append([np.zeros_like(x) if v is None else npa(v) for v, x in zip(g, xs)])
    return npa(y), out


def run(case, cx):
    name, kinds, shapes_, f = FUNCS[case["f"]]
    thorough = case["tier"] == "thorough"
    xs = combos(kinds, False)
    n = len(xs[0])
    if name.startswith("Transform3d") and name.split(".")[1] in ("scale",):
        xs[1] = xs[1] + 5.
    base, J = jac(f, xs, F64, n)
    with torch.no_grad():
        ev = lambda zs: npa(flat(f(*[torch.tensor(z, dtype=F64) for z in zs]), n))
    K = base.shape[1]
    todo = []
    smooth_all = np.ones(n, bool)
    for a, kind in enumerate(kinds):
        for D in directions(kind, xs[a]):
            def at(h):
                zs = list(xs)
                zs[a] = step(kind, xs[a], D, h)
                return ev(zs)
            yp, ym = at(H), at(-H)
            num = (yp - ym) / (2 * H)
            y2p, y2m = at(2 * H), at(-2 * H)
            num2 = (y2p - y2m) / (4 * H)
            # second differences per step: of order H where smooth (so they double with the step), constant at a kink
            kink = np.abs(2 * (yp - 2 * base + ym) / H - (y2p - 2 * base + y2m) / (2 * H))
            smooth = (np.isfinite(num) & (kink <= 5e-6 * (1 + np.abs(num)))).all(1)
            smooth &= (np.abs(num - num2) <= 1e-5 * (1 + np.abs(num))).all(1)
            smooth &= (np.abs(yp - base) < .1).all(1) & (np.abs(ym - base) < .1).all(1)
            smooth_all &= smooth
            todo.append((a, D, num))
    for a, D, num in todo:
        for k in range(K):
            g = (np.where(np.isfinite(J[k][a]), J[k][a], 1e300) * D).reshape(n, -1).sum(1)
            err = np.abs(g - num[:, k]) / (1 + np.abs(num[:, k]))
            err = np.where(np.isfinite(err), err, np.inf)
            err = np.where(smooth_all, err, 0)
            i = int(err.argmax())
            cx.expect(err[i] < 3e-5, "derivative:" + name, lambda: "%s at %s: derivative of output %d by argument %d is %g, differences give %g" % (
                name, [x[i].tolist() for x in xs], k, a, g[i], num[i, k]))
    cx.count("differentiable_points", int(smooth_all.sum()))
    cx.expect(bool(smooth_all.any()), "vacuous:" + name, "no differentiable point")
    for k in range(K):
        for a in range(len(kinds)):
            ok = np.isfinite(J[k][a].reshape(n, -1)).all(1) | ~smooth_all
            i = int((~ok).argmax())
            cx.expect(bool(ok.all()), "finite:" + name, lambda: "%s at %s: gradient %s" % (name, [x[i].tolist() for x in xs], J[k][a][i].tolist()))
    # number type with fewer digits
    y32, J32 = jac(f, xs, F32, n)
    for k in range(K):
        for a in range(len(kinds)):
            ok = np.isfinite(J32[k][a].reshape(n, -1)).all(1) | ~smooth_all
            i = int((~ok).argmax())
            cx.expect(bool(ok.all()), "finite-f32:" + name, lambda: "%s at %s: gradient %s" % (name, [x[i].tolist() for x in xs], J32[k][a][i].tolist()))
    # alone and in pairs (and triples): the gradient of an entry does not depend on the others
    sel = list(range(0, n, max(1, n // 40)))
    bad_first = np.argsort(smooth_all, kind="stable")[:6]  # the entries where it is not differentiable go along
    sel = sorted(set(sel) | set(int(b) for b in bad_first))
    alone = {}
    for i in sel:
        _, j1 = jac(f, [x[i:i + 1] for x in xs], F64, 1)
        alone[i] = j1

    def together(c):
        _, jj = jac(f, [x[list(c)] for x in xs], F64, len(c))
        for p, i in enumerate(c):
            if not smooth_all[i]:
                continue
            for k in range(K):
                for a in range(len(kinds)):
                    u, w = jj[k][a][p], alone[i][k][a][0]
                    ok = np.isfinite(u).all() and np.abs(u - w).max() <= 1e-9 * (1 + np.abs(w).max())
                    cx.expect(ok, "batch:" + name, lambda: "%s: gradient of %s in a batch with %s is %s, alone %s" % (
                        name, [x[i].tolist() for x in xs], [[x[o].tolist() for x in xs] for o in c if o != i], u.tolist(), w.tolist()))
        cx.add(states=1, traces=1)
    together(sel)
    pairs = [(i, j) for i in sel[::3] for j in sel[::4]] + [(i, int(b)) for i in sel[::2] for b in bad_first[:3]]
    for c in pairs if thorough else pairs[:40]:
        together(c)
    if thorough:
        for c in itertools.product(sel[::max(1, len(sel) // 8)], repeat=3):
            together(c)
    cx.add(states=n, transitions=n * K)
    cx.outcome(name, int(smooth_all.sum()), n)
    cx.sample = dict(function=name, points=n, differentiable=int(smooth_all.sum()), outputs=K)
