"""Every serial chain of at most n joints (all type assignments, attribute variants) and every root-to-frame path of
small trees x the product of joint value alphabets x every kind of tool; the Jacobian and pose returned are compared
with the reference, which is itself derived from exact pose derivatives."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from pytorch_kinematics.jacobian import calc_jacobian
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="serial chains of <=4 joints, all types, 2-4 variants; trees n<=4 all end frames; 14 kinds of tool, every sequence of per-row tools over 4; value products; all pairs of 109 rotations / 41 shifts of many magnitudes",
              thorough="serial chains of <=5 joints, 6 variants; trees n<=5 all end frames")
RV = [0., .7, -2.1, np.pi / 2, np.pi, 7.]
PV = [0., .4, -1.3, 12.]
TYPES = {"r": "revolute", "p": "prismatic", "f": "fixed"}


def cases(tier):
    out = []
    for n, nv in ([(1, 6), (2, 6), (3, 4), (4, 2)] if tier == "quick" else [(1, 12), (2, 12), (3, 12), (4, 6), (5, 3)]):
        for ts in itertools.product("rpf", repeat=n):
            out.append(dict(name="chain-%s" % "".join(ts), kind="chain", types="".join(ts), nv=nv))
    for n in ((3, 4) if tier == "quick" else (3, 4, 5)):
        for p in R.parent_arrays(n):
            out.append(dict(name="tree-%s" % ".".join(map(str, p)), kind="tree", parents=list(p), tier=tier))
    for pat in ("r", "rp", "rrf", "p"):
        out.append(dict(name="long-" + pat, kind="long", pattern=pat))
    for ts in itertools.product("rp", repeat=2):
        for v in range(2 if tier == "quick" else 8):
            out.append(dict(name="fine-%s-%d" % ("".join(ts), v), kind="fine", types="".join(ts), v=v))
    return out


def run(case, cx):
    if case["kind"] == "chain":
        for v in range(case["nv"]):
            spec = R.chain_spec([TYPES[c] for c in case["types"]], v, root_loff=R.OFFS[0] if v % 2 else None)
            # serial chains drop the offset of their root frame
            judge(spec, spec["nodes"][-1]["name"], cx, F64, tools=True)
            if v < 2:
                judge(spec, spec["nodes"][-1]["name"], cx, F32, tools=True)
        cx.sample = dict(robot=R.label(spec))
    elif case["kind"] == "tree":
        n = len(case["parents"])
        for ts in itertools.product("rpf", repeat=n - 1):
            spec = R.make(case["parents"], [TYPES[c] for c in ts], 1)
            for nd in spec["nodes"]:
                judge(spec, nd["name"], cx, F64, tools=False)
        cx.sample = dict(robot=R.label(spec))
    elif case["kind"] == "fine":
        for extra in ("", "f", "r"):
            spec = R.chain_spec([TYPES[c] for c in case["types"] + extra], case["v"])
            for dt in (F64, F32):
                judge(spec, spec["nodes"][-1]["name"], cx, dt, tools=True, given=qfine(spec, dt))
    else:
        for L in (8, 12, 20, 40):
            spec = big("deep", [-1] + list(range(L)), case["pattern"], L)
            for dt in (F64, F32):
                judge(spec, spec["nodes"][-1]["name"], cx, dt, tools=True, rows=5)


def strip_root(spec):
    nodes = [dict(x) for x in spec["nodes"]]
    nodes[0]["loff"] = nodes[0]["joff"] = None
    return dict(nodes=nodes)


def judge(spec, end, cx, dtype, tools, rows=None, given=None):
    tol = TOL[dtype] * (10 if rows else 3)
    sc = pk.SerialChain(R.build(spec, dtype), end)
    s0 = strip_root(spec)
    nodes = s0["nodes"]
    pth = ref.path(s0, end)
    mv = [nodes[i] for i in pth if nodes[i]["jtype"] != "fixed"]
    if given:
        q, B = given
    elif rows:
        q, B = qrows(s0, rows)
    else:
        g = R.grid([PV if n["jtype"] == "prismatic" else RV for n in mv])
        B = len(g)
        q = {n["jname"]: np.zeros(B) for n in ref.movable(s0)}
        q.update({n["jname"]: g[:, i] for i, n in enumerate(mv)})
    q = rep(q, dtype)
    lab = R.label(spec) + "->" + end
    th = th_of(sc, q, B)
    J, T = ref.jacobian(s0, q, B, end)

    def ok(what, Jg, Jw, Tg=None, Tw=None):
        e = R.materr(npa(Jg), Jw)
        if Tg is not None:
            e = max(e, R.materr(npa(Tg), Tw))
        cx.expect(e <= tol, "jacobian:" + what, lambda: "%s %s err=%g" % (lab, dtype, e))

    ok("plain", sc.jacobian(th), J)
    Jg, Tg = sc.jacobian(th, ret_eef_pose=True)
    ok("with-pose", Jg, J, Tg, T)
    ok("tensor", sc.jacobian_tensor(th), J)
    Jg, Tg = sc.jacobian_tensor(th, ret_eef_pose=True)
    ok("tensor-pose", Jg, J, Tg, T)
    ok("precomputed", sc.jacobian_tensor(th, all_transforms=sc.forward_kinematics_tensor(th)), J)
    Jg, Tg = sc.jacobian_tensor(th, ret_eef_pose=True, all_transforms=sc.forward_kinematics_tensor(th))
    ok("precomputed-pose", Jg, J, Tg, T)
    ok("alias", calc_jacobian(sc, th), J)
    if B and th.shape[1]:
        ok("one-row", sc.jacobian(th[-1]), J[-1:])
        ok("one-list", sc.jacobian(th[0].tolist()), J[:1])
        ok("grad-on", sc.jacobian(th.clone().requires_grad_()), J)
    cx.add(states=B, traces=1)
    cx.outcome(lab, str(dtype))
    if not tools:
        return
    rows_ = slice(0, B) if rows or B <= 64 else np.unique(np.linspace(0, B - 1, 60).astype(int))
    th = th[rows_]
    qq = {k: v[rows_] for k, v in q.items()}
    B = th.shape[0]
    pts = np.stack([np.linspace(-.4, .9, B), np.cos(np.arange(B)), .3 - np.arange(B) % 3], 1)
    prot = np.stack([ref.pose(pts[b], (.1 * b, -.2, .3 + b)) for b in range(B)])
    one = ref.pose((.2, -.5, .1), (.4, 1., -.7))
    dt = lambda x: torch.tensor(np.asarray(x), dtype=dtype)  # noqa
    other = F32 if dtype == F64 else F64
    kinds = [("zero1d", dt([0., 0, 0]), np.eye(4)), ("point1d", dt([.3, -.2, .7]), ref.T(t=[.3, -.2, .7])),
             ("point2d", dt([[.3, -.2, .7]]), ref.T(t=[.3, -.2, .7])), ("small", dt([4e-4, 0, -1e-3]), ref.T(t=[4e-4, 0, -1e-3])), ("tiny", dt([[0, 3e-6, 0.]]), ref.T(t=[0, 3e-6, 0.])),
             ("tilt", pk.Transform3d(matrix=dt(ref.T(ref.rot((1, 2, 3), 1e-3), (1e-3, 0, 0))[None])), ref.T(ref.rot((1, 2, 3), 1e-3), (1e-3, 0, 0))), ("far", dt([0, 0, -50.]), ref.T(t=[0, 0, -50.])),
             ("per-row", dt(pts), np.stack([ref.T(t=p) for p in pts])),
             ("transform", pk.Transform3d(matrix=dt(one[None])), one), ("transform-rows", pk.Transform3d(matrix=dt(prot)), prot),
             ("other-type", torch.tensor([.5, -.25, .75], dtype=other), ref.T(t=[.5, -.25, .75])),
             ("transform-other-type", pk.Transform3d(matrix=torch.tensor(one[None], dtype=other)), npa(torch.tensor(one, dtype=F32))),
             ("identity", pk.Transform3d(dtype=dtype), np.eye(4)),
             ("rotation-only", pk.Transform3d(matrix=dt(ref.T(ref.rot((1, 2, 3), 2.))[None])), ref.T(ref.rot((1, 2, 3), 2.)))]
    for what, tool, M in kinds:
        M = np.broadcast_to(npa(dt(M)), (B, 4, 4))
        Jw, Tw = ref.jacobian(s0, qq, B, end, tool=M)
        keep = tool.get_matrix().clone() if isinstance(tool, pk.Transform3d) else tool.clone()
        ok("tool-" + what, sc.jacobian(th, locations=tool), Jw)
        Jg, Tg = sc.jacobian(th, locations=tool, ret_eef_pose=True)
        ok("tool-pose-" + what, Jg, Jw, Tg, Tw)
        ok("tool-alias-" + what, calc_jacobian(sc, th, tool=tool), Jw)
        now = tool.get_matrix() if isinstance(tool, pk.Transform3d) else tool
        cx.expect(torch.equal(keep, now), "tool-modified:" + what, lab)
        cx.add(states=B, traces=1)
    if not rows:
        # every sequence of three tools over {none, offset, turned, both}, one per row: as points and as transforms
        nb = min(B, 3)
        alpha = [np.eye(4), ref.T(t=(.3, -.2, .7)), ref.T(ref.rot((1, 2, 3), 2.)), ref.pose((-.1, .4, .2), (.5, -.3, 1.))]
        for sel in itertools.product(range(4), repeat=nb):
            M = np.stack([alpha[i] for i in sel])
            b0 = 0
            t3, q3 = th[b0:b0 + nb], {k: v[b0:b0 + nb] for k, v in qq.items()}
            if len(set(sel)) == 1 and nb > 1 and sel[0] != 1:
                continue
            M = npa(dt(M))
            Jw, Tw = ref.jacobian(s0, q3, nb, end, tool=M)
            Jg, Tg = sc.jacobian(t3, locations=pk.Transform3d(matrix=dt(M)), ret_eef_pose=True)
            ok("tool-sequence", Jg, Jw, Tg, Tw)
            if 3 not in sel and 2 not in sel:
                ok("tool-sequence-points", sc.jacobian(t3, locations=dt(M[:, :3, 3])), Jw)
                Jg, Tg = sc.jacobian(t3, locations=dt(M[:, :3, 3]), ret_eef_pose=True)
                ok("tool-sequence-points-pose", Jg, Jw, Tg, Tw)
            cx.add(states=nb)
    ok("plain-after-tools", sc.jacobian(th), ref.jacobian(s0, qq, B, end)[0])
