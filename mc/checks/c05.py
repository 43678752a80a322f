"""Every tree in the bound x configurations x a basis of upstream gradients (one per frame and matrix entry; gradients
are linear in it), for the default analytic backward and for automatic differentiation, against exact derivatives of the
reference; derivatives of the Jacobian (columns and tool pose) and second derivatives likewise."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="trees n<=4 all types: full basis of upstream gradients in both modes; Jacobian derivatives on all serial chains of <=3 joints; second derivatives on chains <=3; every choice per row and per frame of the parts of the pose the loss depends on, 9 makings of the joint values; all pairs of 109 rotations / 41 shifts of many magnitudes",
              thorough="trees n<=5 all types; serial chains <=4; more variants")
TYPES = {"r": "revolute", "p": "prismatic", "f": "fixed"}


MASKED = [([-1, 0, 1], "rr"), ([-1, 0, 1], "rp"), ([-1, 0, 0, 1], "prr"), ([-1, 0, 1, 2], "rfr"), ([-1, 0, 1, 1, 0], "rprf")]


def cases(tier):
    out = []
    for n, nv in ([(2, 4), (3, 3), (4, 1)] if tier == "quick" else [(2, 8), (3, 8), (4, 4), (5, 1)]):
        for p in R.parent_arrays(n):
            for v in range(nv):
                for t in ("rpf" if n >= 4 else [""]):
                    out.append(dict(name="tree-%s-%d-%s" % (".".join(map(str, p)), v, t), kind="tree", parents=list(p), variant=v, first=t))
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        for ts in itertools.product("rpf", repeat=n):
            out.append(dict(name="jac-" + "".join(ts), kind="jac", types="".join(ts)))
    for nm, p in shapes():
        if len(p) < 40:
            out.append(dict(name="big-" + nm, kind="big", parents=p))
    for ts in itertools.product("rp", repeat=2):
        for p in ([-1, 0, 1], [-1, 0, 0, 1]):
            out.append(dict(name="fine-%s-%d" % ("".join(ts), len(p)), kind="fine", types="".join(ts), parents=p))
    out.append(dict(name="accumulate", kind="accumulate"))
    for i, (p, ts) in enumerate(MASKED):
        for d in ("f64", "f32"):
            out.append(dict(name="masks-%d-%s" % (i, d), kind="masks", parents=p, types=ts, d=d))
    return out


def run(case, cx):
    if case["kind"] == "tree":
        n = len(case["parents"])
        for ts in itertools.product("rpf", repeat=n - 1 - len(case["first"])):
            spec = R.make(case["parents"], [TYPES[c] for c in case["first"] + "".join(ts)], case["variant"], root_loff=R.LOFFS[case["variant"] % 4])
            tree(spec, cx, F64)
            if case["variant"] == 0 and n <= 3:
                tree(spec, cx, F32)
    elif case["kind"] == "jac":
        for v in (0, 1, 2):
            jac(R.chain_spec([TYPES[c] for c in case["types"]], v), cx)
        jac(R.chain_spec([TYPES[c] for c in case["types"]], 1, axes=[R.AXES[i % 3] for i in range(len(case["types"]))],
                         joffs=[None] * len(case["types"]), loffs=[None] * len(case["types"])), cx)
    elif case["kind"] == "fine":
        for v in (0, 1):
            spec = R.make(case["parents"], [TYPES[c] for c in (case["types"] + "r")[:len(case["parents"]) - 1]], v)
            for dt in (F64, F32):
                tree(spec, cx, dt, given=qfine(spec, dt))
    elif case["kind"] == "big":
        for pat in ("rpf", "r", "rrp"):
            tree(big("b", case["parents"], pat, 1), cx, F64, full=False)
    elif case["kind"] == "masks":
        masks(R.make(case["parents"], [TYPES[c] for c in case["types"]], 1), cx, DT[case["d"]])
    else:
        accumulate(cx)
    cx.sample = {k: case[k] for k in case}


def configs(spec):
    mv = ref.movable(spec)
    rows = [np.zeros(len(mv)), np.full(len(mv), np.pi / 2), np.array([(-1.) ** i * (.6 + .5 * i) for i in range(len(mv))]),
            np.array([9. - 3.7 * i for i in range(len(mv))])]
    rows += [1.3 * np.eye(len(mv))[i] for i in range(len(mv))]
    g = np.stack(rows)
    return {n["jname"]: g[:, i] for i, n in enumerate(mv)}, len(g)


def tree(spec, cx, dtype, full=True, given=None):
    chain = R.build(spec, dtype)
    names = chain.get_joint_parameter_names()
    if not names:
        return
    q, B = given or configs(spec)
    q = rep(q, dtype)
    D = ref.dfk(spec, q, B)
    base = th_of(chain, q, B)
    frames = [n["name"] for n in spec["nodes"]]
    idx = {f: int(chain.get_frame_indices(f)) for f in frames}
    tol = {F64: 1e-8, F32: 3e-4}[dtype]
    lab = R.label(spec)
    want = {f: np.zeros((B, len(names), 4, 4)) for f in frames}
    for f in frames:
        for j, m in D[f].items():
            want[f][:, names.index(j)] = m
    for mode in (True, False):
        th = base.clone().requires_grad_()
        T = chain.forward_kinematics_tensor(th, analytical_grad=mode)
        cx.expect(R.materr(npa(T)[idx[frames[-1]]], ref.fk(spec, q, B)[frames[-1]]) <= TOL[dtype] * 3, "value", lab)
        for f in frames:
            entries = itertools.product(range(3), range(4)) if full else [(0, 3), (1, 1), (2, 0)]
            for i, j in entries:
                g, = torch.autograd.grad(T[idx[f], :, i, j].sum(), th, retain_graph=True)
                e = R.maxerr(npa(g), want[f][:, :, i, j])
                cx.expect(e <= tol, "grad:%s" % ("default" if mode else "autodiff"),
                          lambda: "%s frame %s entry %d,%d %s err=%g\ngot %s\nwant %s" % (lab, f, i, j, dtype, e, npa(g)[-1], want[f][-1, :, i, j]))
                cx.add(states=B)
    # through the dictionary interface, points and normals, all frames at once, and a subset of frames
    W = {f: np.sin(1. + np.arange(16) * (k + 1)).reshape(4, 4) for k, f in enumerate(frames)}
    for fs in [frames, frames[-1:], frames[:1], frames[::2]]:
        th = base.clone().requires_grad_()
        out = chain.forward_kinematics(th, chain.get_frame_indices(*fs))
        L = sum((out[f].get_matrix() * torch.tensor(W[f], dtype=dtype)).sum() for f in fs)
        exp = sum((want[f] * W[f]).sum((2, 3)) for f in fs)
        L.backward()
        e = R.maxerr(npa(th.grad), exp)
        cx.expect(e <= tol * 10, "grad:dict", lambda: "%s frames %s err=%g" % (lab, fs, e))
        cx.add(states=B)
    pts = np.array([[.3, -.4, .5], [1., 0., -2.]])
    th = base.clone().requires_grad_()
    p = chain.forward_kinematics(th)[frames[-1]].transform_points(torch.tensor(pts, dtype=dtype))
    w = np.cos(np.arange(6)).reshape(2, 3)
    g, = torch.autograd.grad((p * torch.tensor(w, dtype=dtype)).sum(), th)
    exp = np.einsum("bnij,pj,pi->bn", want[frames[-1]][:, :, :3, :], np.c_[pts, np.ones(2)], w)
    cx.expect(R.maxerr(npa(g), exp) <= tol * 10, "grad:points", lab)
    cx.add(traces=1)
    cx.outcome(lab, str(dtype))


def masks(spec, cx, dtype):
    """every choice, for each of three rows, of whether the loss depends on positions, orientations, both or neither; the same
    for each frame; and joint values that come in every memory layout or are made of other values"""
    chain = R.build(spec, dtype)
    names = chain.get_joint_parameter_names()
    q, B = qrows(spec, 3)
    q = rep(q, dtype)
    D = ref.dfk(spec, q, B)
    base = th_of(chain, q, B)
    frames = [n["name"] for n in spec["nodes"]]
    idx = {f: int(chain.get_frame_indices(f)) for f in frames}
    want = np.zeros((len(frames), B, len(names), 4, 4))
    for f in frames:
        for j, m in D[f].items():
            want[idx[f], :, names.index(j)] = m
    W = np.sin(1. + np.arange(len(frames) * B * 16) * .7).reshape(len(frames), B, 4, 4)
    W[..., 3, :] = 0
    part = np.zeros((4, 4, 4))
    part[1, :3, 3] = part[2, :3, :3] = part[3, :3] = 1
    tol = {F64: 1e-8, F32: 1e-3}[dtype]
    lab = "%s %s" % (R.label(spec), dtype)

    def compare(w, sig, why):
        exp = np.einsum("fbnij,fbij->bn", want, w)
        tw = torch.tensor(w, dtype=dtype)
        for mode in (True, False):
            th = base.clone().requires_grad_()
            T = chain.forward_kinematics_tensor(th, analytical_grad=mode)
            g, = torch.autograd.grad(T, th, tw)
            e = R.maxerr(npa(g), exp)
            cx.expect(e <= tol, sig, lambda: "%s %s %s err=%g\ngot %s\nwant %s" % (lab, why, "default" if mode else "autodiff", e, npa(g), exp))
        cx.add(states=2 * B)
    for k in itertools.product(range(4), repeat=B):
        compare(W * part[list(k)][None], "masked-rows", k)
    for k in itertools.product(range(4), repeat=len(frames)):
        compare(W * part[list(k)][:, None], "masked-frames", k)
    for k in itertools.product((0, 1), repeat=B):
        for f in frames:
            w = W * 0
            w[idx[f]] = W[idx[f]] * np.array(k)[:, None, None]
            compare(w, "masked-frame-rows", (k, f))
    # what the joint values are made of
    ones = np.einsum("fbnij->bn", want)
    leaf = base.clone().requires_grad_()
    for why, th, exp in (("expanded sum", leaf * 1., ones), ("transposed", leaf.T.contiguous().T, ones), ("strided", torch.stack([leaf, leaf.detach()], -1)[..., 0], ones), ("flipped", leaf.flip(0).flip(0), ones),
                         ("gathered", leaf[[0, 1, 2]], ones), ("columns", torch.cat([leaf[:, :1], leaf.detach()[:, 1:]], 1), ones * (np.arange(len(names)) == 0)), ("unbound", torch.stack(list(leaf.unbind(1)), 1), ones)):
        g, = torch.autograd.grad(chain.forward_kinematics_tensor(th).sum(), leaf)
        cx.expect(R.maxerr(npa(g), exp) <= tol * 10, "made-of:" + why, lambda: "%s\ngot %s\nwant %s" % (lab, npa(g), exp))
        cx.add(states=B)
    one = base[:1].clone().requires_grad_()
    g, = torch.autograd.grad(chain.forward_kinematics_tensor(one.expand(B, -1)).mul(torch.tensor(W, dtype=dtype)).sum(), one)
    w1 = np.repeat(want[:, :1], B, 1)
    cx.expect(R.maxerr(npa(g)[0], np.einsum("fbnij,fbij->n", w1, W)) <= tol * 10, "made-of:expanded", lab)
    g, = torch.autograd.grad(chain.forward_kinematics({n: v for n, v in zip(names, leaf.unbind(1))})[frames[-1]].get_matrix().sum(), leaf)
    cx.expect(R.maxerr(npa(g), want[idx[frames[-1]]].sum((2, 3))) <= tol * 10, "made-of:mapping", lab)
    cx.add(traces=1)
    cx.outcome("masks", lab)


def jac(spec, cx):
    end = spec["nodes"][-1]["name"]
    sc = pk.SerialChain(R.build(spec, F64), end)
    names = sc.get_joint_parameter_names()
    if not names:
        return
    q, B = configs(spec)
    lab = R.label(spec)
    tool = ref.pose((.2, -.3, .5), (.4, 1.1, -.2))
    for tl, M in ((None, np.eye(4)), ("point", ref.T(t=(.2, -.3, .5))), ("transform", tool)):
        loc = None if tl is None else (torch.tensor([.2, -.3, .5], dtype=F64) if tl == "point" else pk.Transform3d(matrix=torch.tensor(tool)[None]))
        Mb = np.broadcast_to(M, (B, 4, 4))
        dJ = ref.djac(spec, q, B, end, tool=Mb)
        D = ref.dfk(spec, q, B)[end]
        th = th_of(sc, q, B).requires_grad_()
        J, T = sc.jacobian(th, locations=loc, ret_eef_pose=True)
        for r in range(6):
            for c in range(len(names)):
                g, = torch.autograd.grad(J[:, r, c].sum(), th, retain_graph=True, allow_unused=True)
                g = np.zeros((B, len(names))) if g is None else npa(g)
                exp = np.stack([dJ[n][:, r, c] for n in names], 1)
                e = R.maxerr(g, exp)
                cx.expect(e <= 1e-8, "jacobian-grad:%s" % tl, lambda: "%s J[%d,%d] err=%g" % (lab, r, c, e))
                cx.add(states=B)
        for i, j in itertools.product(range(3), range(4)):
            g, = torch.autograd.grad(T[:, i, j].sum(), th, retain_graph=True)
            exp = np.stack([(D[n] @ Mb)[:, i, j] for n in names], 1)
            cx.expect(R.maxerr(npa(g), exp) <= 1e-8, "jacobian-pose-grad:%s" % tl, lab)
    # plain jacobian without pose
    th = th_of(sc, q, B).requires_grad_()
    W = np.cos(np.arange(6 * len(names))).reshape(6, len(names))
    g, = torch.autograd.grad((sc.jacobian(th) * torch.tensor(W)).sum(), th)
    dJ = ref.djac(spec, q, B, end)
    exp = np.stack([(dJ[n] * W).sum((1, 2)) for n in names], 1)
    cx.expect(R.maxerr(npa(g), exp) <= 1e-8, "jacobian-grad:plain", lab)
    # second derivatives with automatic differentiation
    D2 = ref.d2fk(spec, q, B, end)
    th = th_of(sc, q, B).requires_grad_()
    T = sc.forward_kinematics_tensor(th, analytical_grad=False)[int(sc.get_frame_indices(end))]
    for i, j in itertools.product(range(3), range(4)):
        g, = torch.autograd.grad(T[:, i, j].sum(), th, create_graph=True)
        for a, na in enumerate(names):
            if not g.requires_grad:
                h = torch.zeros_like(th)
            else:
                h, = torch.autograd.grad(g[:, a].sum(), th, retain_graph=True, allow_unused=True)
                h = torch.zeros_like(th) if h is None else h
            exp = np.stack([D2[na, nb][:, i, j] for nb in names], 1)
            e = R.maxerr(npa(h), exp)
            cx.expect(e <= 1e-8, "second-order", lambda: "%s T[%d,%d] d/d%s err=%g" % (lab, i, j, na, e))
            cx.add(states=B)
    cx.add(traces=2)
    cx.outcome(lab)


def accumulate(cx):
    """gradients add up over calls, over repeated use of the same tensor, over chains sharing joint values, and values
    computed from other parameters"""
    specs = [R.chain_spec(["revolute", "prismatic", "revolute"], v) for v in range(3)] + [R.make([-1, 0, 0, 1], ["revolute"] * 3, 1)]
    for a, b in itertools.product(range(len(specs)), repeat=2):
        A, Bc = R.build(specs[a], F64), R.build(specs[b], F64)
        qa = np.array([[.3, -.4, 1.2], [0., 0., 0.]])
        leaf = torch.tensor(qa, requires_grad=True)

        def D(spec, q, f):
            mv = ref.movable(spec)
            d = ref.dfk(spec, {n["jname"]: q[:, i] for i, n in enumerate(mv)}, len(q))[f]
            return np.stack([d.get(n["jname"], np.zeros((len(q), 4, 4))) for n in mv], 1)
        fa, fb = specs[a]["nodes"][-1]["name"], specs[b]["nodes"][-1]["name"]
        w = np.sin(np.arange(16)).reshape(4, 4)
        A.forward_kinematics(leaf)[fa].get_matrix().mul(torch.tensor(w)).sum().backward()
        g1 = (D(specs[a], qa, fa) * w).sum((2, 3))
        cx.expect(R.maxerr(npa(leaf.grad), g1) <= 1e-8, "accumulate-first", "%d" % a)
        Bc.forward_kinematics(2. * leaf + 1.)[fb].get_matrix().mul(torch.tensor(w)).sum().backward()
        g2 = g1 + 2 * (D(specs[b], 2 * qa + 1, fb) * w).sum((2, 3))
        cx.expect(R.maxerr(npa(leaf.grad), g2) <= 1e-8, "accumulate-second", "%d,%d" % (a, b))
        ta = A.forward_kinematics_tensor(leaf)
        tb = Bc.forward_kinematics_tensor(leaf)
        L = (ta[int(A.get_frame_indices(fa))] @ tb[int(Bc.get_frame_indices(fb))] * torch.tensor(w)).sum()
        L.backward()
        Pa = ref.fk(specs[a], {n["jname"]: qa[:, i] for i, n in enumerate(ref.movable(specs[a]))}, 2)[fa]
        Pb = ref.fk(specs[b], {n["jname"]: qa[:, i] for i, n in enumerate(ref.movable(specs[b]))}, 2)[fb]
        g3 = g2 + ((D(specs[a], qa, fa) @ Pb[:, None] + Pa[:, None] @ D(specs[b], qa, fb)) * w).sum((2, 3))
        cx.expect(R.maxerr(npa(leaf.grad), g3) <= 1e-8, "accumulate-product", "%d,%d" % (a, b))
        # no gradient is recorded when none is asked for
        with torch.no_grad():
            t = A.forward_kinematics_tensor(leaf)
        cx.expect(not t.requires_grad, "no-grad", "")
        cx.expect(not A.forward_kinematics_tensor(leaf.detach()).requires_grad, "no-grad-detached", "")
        # expanded input: one parameter row driving a batch
        p = torch.tensor([.3, -.4, 1.2], dtype=F64, requires_grad=True)
        (A.forward_kinematics(p.expand(4, 3))[fa].get_matrix() * torch.tensor(w)).sum().backward()
        g = 4 * (D(specs[a], np.array([[.3, -.4, 1.2]]), fa) * w).sum((2, 3))[0]
        cx.expect(R.maxerr(npa(p.grad), g) <= 1e-8, "expanded", "")
        p = torch.tensor([.3, -.4, 1.2], dtype=F64, requires_grad=True)
        (A.forward_kinematics(p)[fa].get_matrix() * torch.tensor(w)).sum().backward()
        cx.expect(R.maxerr(npa(p.grad), g / 4) <= 1e-8, "one-dimensional", "")
        # by name
        ps = {n["jname"]: torch.tensor(v, dtype=F64, requires_grad=True) for n, v in zip(ref.movable(specs[a]), [.3, -.4, 1.2])}
        (A.forward_kinematics(ps)[fa].get_matrix() * torch.tensor(w)).sum().backward()
        got = np.array([npa(ps[n["jname"]].grad) if ps[n["jname"]].grad is not None else 0. for n in ref.movable(specs[a])])
        cx.expect(R.maxerr(got, g / 4) <= 1e-8, "by-name", "%s vs %s" % (got, g / 4))
        cx.add(states=8, traces=4)
        cx.outcome(a, b)
