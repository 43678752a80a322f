"""Every batch size in the bound x every memory layout x every robot of a family covering all code paths; each row of
the batched answer (forward kinematics, Jacobian, tools, gradients) is compared with the reference for that row and
with the implementation's own answer for the row alone; rows are permuted, duplicated and poisoned (nan, inf) to show
that no row influences another."""
import numpy as np
import torch

from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="2 small robots: every batch size 0..2100 and +-2 around every power of two to 2^14 and of 10 to 10^4; 11 robots: batch sizes 0..12 and 16,31,32,33,63,64,65,100,128,129,255,256,257,1000,1025; 11 robots; 8 layouts; all 720 permutations of 6 rows on 2 robots",
              thorough="2 small robots: every batch size 0..9000 and +-2 around powers of two to 2^18 and of 10 to 10^5; 11 robots: batch sizes 0..300, 511..513, 1000,1023..1025,2048,4097,10000; 11 robots; 8 layouts; all permutations of 6 rows on all robots")


def robots():
    c = R.chain_spec
    rv, pr, fx = "revolute", "prismatic", "fixed"
    return dict(
        r1=c([rv]), p1=c([pr]), f1=c([fx]), rp=c([rv, pr], 1), rrr=c([rv] * 3, 2), mixed=c([rv, fx, pr, rv, fx], 3),
        arm7=c([rv] * 7 + [fx], 1), pp=c([pr, pr], 4),
        tree=R.make([-1, 0, 1, 1, 0, 4], [rv, pr, rv, fx, rv], 2),
        star=R.make([-1, 0, 0, 0, 0], [rv, pr, rv, fx], 1),
        big=big("hand", [-1, 0, 1, 2, 3, 1, 5, 6, 1, 8, 9], "rrp", 0))


def sizes(tier):
    if tier == "quick":
        return list(range(0, 13)) + [16, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1025]
    return list(range(0, 301)) + [511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 10000]


def cases(tier):
    out = []
    for nm in robots():
        for d in ("f64", "f32"):
            S = sizes(tier)
            step = 9 if tier == "quick" else 40
            for i in range(0, len(S), step):
                out.append(dict(name="%s-%s-sizes%d" % (nm, d, i), kind="sizes", robot=nm, d=d, sizes=S[i:i + step]))
        out.append(dict(name="%s-rows" % nm, kind="rows", robot=nm, perms=(tier == "thorough" or nm in ("mixed", "tree"))))
    for nm in ("rp", "tree"):
        S = list(range(0, 2101 if tier == "quick" else 9001))
        top = 14 if tier == "quick" else 18
        marks = [2 ** k for k in range(11, top + 1)] + [3 * 2 ** k for k in range(10, top - 1)] + [10 ** k for k in range(3, 5 if tier == "quick" else 6)]
        S += sorted({m + d for m in marks for d in (-2, -1, 0, 1, 2)} - set(S))
        step = 170 if tier == "quick" else 700
        out += [dict(name="%s-every%d" % (nm, i), kind="every", robot=nm, sizes=S[i:i + step]) for i in range(0, len(S), step)]
    return out


def layouts(t):
    """the same values in different memory layouts"""
    B, n = t.shape
    yield "plain", t.clone()
    yield "transposed", t.t().contiguous().t()
    big_ = torch.full((2 * B + 1, 2 * n + 1), 77., dtype=t.dtype)
    v = big_[1::2, 1::2]
    v.copy_(t)
    yield "strided", v
    big_ = torch.full((B + 3, n + 2), -55., dtype=t.dtype)
    v = big_[2:2 + B, 1:1 + n]
    v.copy_(t)
    yield "offset", v
    yield "flipped", t.flip(0).flip(0)
    if B:
        yield "gathered", t[torch.arange(B)]
        yield "leaf", t.clone().requires_grad_()
        yield "nonleaf", t.clone().requires_grad_() * 1.


def serial_of(chain):
    """a serial chain to the deepest frame"""
    import pytorch_kinematics as pk
    names = chain.get_frame_names(exclude_fixed=False)
    return pk.SerialChain(chain, names[-1]), names[-1]


def run(case, cx):
    spec = robots()[case["robot"]]
    if case["kind"] == "sizes":
        sizes_(case, cx, spec)
    elif case["kind"] == "every":
        every(case, cx, spec)
    else:
        rows(case, cx, spec)


def sizes_(case, cx, spec):
    dtype = DT[case["d"]]
    tol = 3 * TOL[dtype]
    chain = R.build(spec, dtype)
    sc, end = serial_of(chain)
    for B in case["sizes"]:
        q, _ = qrows(spec, B, salt=B)
        q = rep(q, dtype)
        want = ref.fk(spec, q, B)
        J, _ = ref.jacobian(spec, q, B, end)
        tools = np.stack([np.linspace(-.4, .9, B), np.cos(np.arange(B)), np.full(B, .3)], 1) if B else np.zeros((0, 3))
        Tt = np.broadcast_to(np.eye(4), (B, 4, 4)).copy()
        tl = torch.tensor(tools, dtype=dtype)
        Tt[:, :3, 3] = npa(tl)
        Jt, Tee = ref.jacobian(spec, q, B, end, tool=Tt)
        base = th_of(chain, q, B)
        sbase = th_of(sc, q, B)
        for lay, th in layouts(base):
            keep = th.detach().clone()
            T = chain.forward_kinematics_tensor(th)
            ok = T.shape == (len(want), B, 4, 4) and T.dtype == dtype
            cx.expect(ok, "shape", lambda: "%s B=%d %s: %s" % (case["robot"], B, lay, tuple(T.shape)))
            if ok:
                e = max(R.materr(npa(T)[int(chain.get_frame_indices(nm))], want[nm]) for nm in want)
                cx.expect(e <= tol, "fk", lambda: "%s B=%d %s err=%g" % (case["robot"], B, lay, e))
            got = fk_all(chain, th)
            e = err_poses(got, want)
            cx.expect(e <= tol, "fk-dict", lambda: "%s B=%d %s err=%g" % (case["robot"], B, lay, e))
            cx.expect(torch.equal(th.detach(), keep), "input-modified", lay)
            cx.add(states=B)
        for lay, th in layouts(sbase):
            Jg = sc.jacobian(th)
            e = R.materr(npa(Jg), J)
            cx.expect(e <= tol, "jac", lambda: "%s B=%d %s err=%g shape=%s" % (case["robot"], B, lay, e, tuple(Jg.shape)))
            Jg, Tg = sc.jacobian(th, locations=tl, ret_eef_pose=True)
            e = max(R.materr(npa(Jg), Jt), R.materr(npa(Tg), Tee))
            cx.expect(e <= tol, "jac-tool", lambda: "%s B=%d %s err=%g" % (case["robot"], B, lay, e))
            e = R.materr(npa(sc.forward_kinematics(th).get_matrix()), want[end])
            cx.expect(e <= tol, "serial-fk", lambda: "%s B=%d %s err=%g" % (case["robot"], B, lay, e))
        # gradient of a per-row weighted sum
        if base.shape[1]:
            D = ref.dfk(spec, q, B)
            names = chain.get_joint_parameter_names()
            W = np.sin(1 + np.arange(len(want) * B * 16)).reshape(len(want), B, 4, 4)
            Wt = torch.tensor(W, dtype=dtype)
            for analytical in (True, False):
                th = base.clone().requires_grad_()
                T = chain.forward_kinematics_tensor(th, analytical_grad=analytical)
                (T * Wt).sum().backward()
                g = np.zeros((B, len(names)))
                for nm in want:
                    fi = int(chain.get_frame_indices(nm))
                    for j, dm in D[nm].items():
                        g[:, names.index(j)] += (npa(Wt)[fi] * dm).sum((1, 2))
                e = R.maxerr(npa(th.grad), g)
                cx.expect(e <= 10 * tol, "grad", lambda: "%s B=%d analytical=%s err=%g" % (case["robot"], B, analytical, e))
        cx.add(states=B, traces=1)
        cx.outcome(case["robot"], B, case["d"])
    cx.sample = dict(robot=R.label(spec), sizes=case["sizes"])


def every(case, cx, spec):
    """every batch size: the rows of every answer against the reference, computed once for the largest"""
    chain = R.build(spec, F64)
    sc, end = serial_of(chain)
    S = case["sizes"]
    q, N = qrows(spec, max(S), salt=3)
    q = rep(q, F64)
    want = ref.fk(spec, q, N)
    fi = {nm: int(chain.get_frame_indices(nm)) for nm in want}
    stack = torch.tensor(np.stack([want[nm] for nm in sorted(fi, key=fi.get)]), dtype=F64)
    i = np.arange(N)
    pts = np.stack([np.sin(i), np.cos(1.7 * i), .1 * (i % 7)], 1)
    tool = np.broadcast_to(np.eye(4), (N, 4, 4)).copy()
    tool[:, :3, 3] = pts
    J, Tee = [torch.tensor(x, dtype=F64) for x in ref.jacobian(spec, q, N, end, tool=tool)]
    pts = torch.tensor(pts, dtype=F64)
    th, sth = th_of(chain, q, N), th_of(sc, q, N)
    names = chain.get_joint_parameter_names()
    D = ref.dfk(spec, q, N)
    W = np.sin(np.arange(1., 17.)).reshape(4, 4)
    g = torch.zeros(N, len(names), dtype=F64)
    for nm in want:
        for j, dm in D[nm].items():
            g[:, names.index(j)] += torch.tensor((dm * W).sum((1, 2)))
    Wt = torch.tensor(W, dtype=F64)

    def same(got, exp, sig, B):
        ok = tuple(got.shape) == tuple(exp.shape)
        e = float((got.detach() - exp).abs().max()) if ok and exp.numel() else 0. if ok else float("inf")
        cx.expect(e <= 1e-8, "every:" + sig, lambda: "%s B=%d err=%g shape %s wanted %s" % (case["robot"], B, e, tuple(got.shape), tuple(exp.shape)))

    order = sorted(fi, key=fi.get)
    for B in S:
        t = th[:B].clone().requires_grad_()
        T = chain.forward_kinematics_tensor(t)
        same(T, stack[:, :B], "fk", B)
        (T * Wt).sum().backward()
        same(t.grad, g[:B], "grad", B)
        got = chain.forward_kinematics(th[:B])
        same(torch.stack([got[nm].get_matrix() for nm in order]), stack[:, :B], "fk-dict", B)
        Jg, Tg = sc.jacobian(sth[:B], locations=pts[:B], ret_eef_pose=True)
        same(Jg, J[:B], "jacobian", B)
        same(Tg, Tee[:B], "tool-pose", B)
        same(sc.clamp(sth[:B]), sth[:B], "clamp", B)
        cx.add(states=B, traces=1)
        cx.outcome(case["robot"], B)
    cx.sample = dict(robot=R.label(spec), sizes=[S[0], S[-1]])


def rows(case, cx, spec):
    """permutations, duplicates, poisoned neighbours"""
    import itertools
    chain = R.build(spec, F64)
    sc, end = serial_of(chain)
    q, B = qrows(spec, 6)
    th = th_of(chain, q, B)
    sth = th_of(sc, q, B)
    names = chain.get_frame_names(exclude_fixed=False)

    def answers(t, s, tool):
        """everything that is answered per row, rows first"""
        t, s = t.clone().requires_grad_(), s.clone().requires_grad_()
        T = chain.forward_kinematics_tensor(t)
        J, P = sc.jacobian(s, locations=tool, ret_eef_pose=True)
        J0 = sc.jacobian(s)
        S = sc.forward_kinematics(s).get_matrix()
        w = torch.arange(1., 17., dtype=F64).reshape(4, 4)
        g = torch.autograd.grad((T * w).sum(), t)[0] if t.shape[1] else t
        gs = torch.autograd.grad((J * torch.cos(torch.arange(J.shape[1] * J.shape[2], dtype=F64)).reshape(1, J.shape[1], J.shape[2])).sum(), s)[0] if s.shape[1] else s
        return [x.detach() for x in (T.transpose(0, 1), J, P, J0, S, g, gs)]

    tool = torch.tensor(np.sin(np.arange(18)).reshape(6, 3), dtype=F64)
    alone = [answers(th[b:b + 1], sth[b:b + 1], tool[b:b + 1]) for b in range(B)]
    labels = ("fk", "jac-tool", "pose-tool", "jac", "serial-fk", "grad", "jac-grad")

    def judge(idx, poison, sig):
        idx = list(idx)
        t, s, u = th[idx].clone(), sth[idx].clone(), tool[idx].clone()
        for p, val in poison:
            t[p], s[p], u[p] = val, val, val
        bad = {p for p, _ in poison}
        got = answers(t, s, u)
        for k, (lab, g) in enumerate(zip(labels, got)):
            if g.shape[0] != len(idx):
                cx.fail(sig + ":" + lab, "rows %s" % (tuple(g.shape),))
                continue
            for i, b in enumerate(idx):
                if i in bad:
                    continue
                e = R.maxerr(npa(g[i]), npa(alone[b][k][0]))
                cx.expect(e <= 1e-10, sig + ":" + lab, lambda: "%s rows %s poison %s row %d err=%g" % (case["robot"], idx, poison, i, e))
        cx.add(states=len(idx), traces=1)
        cx.outcome(case["robot"], tuple(idx), tuple(sorted(bad)))

    perms = itertools.permutations(range(6)) if case["perms"] else [range(6), (5, 4, 3, 2, 1, 0), (1, 0, 3, 2, 5, 4), (3, 4, 5, 0, 1, 2)]
    for p in perms:
        judge(p, [], "permuted")
    for r in (1, 2, 3):
        for sel in itertools.product(range(3), repeat=r):
            judge(sel, [], "repeated")
    for p in range(6):
        for val in (float("nan"), float("inf"), 1e300, 0., -1e5):
            judge(range(6), [(p, val)], "poisoned")
    cx.sample = dict(robot=R.label(spec), rows=6)
