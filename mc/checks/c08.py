"""All sequences of conversions, extractions, copies, serialisations and queries up to a depth, from several starting
robots; after every step the current object and every object left behind are judged against the reference: last
requested type, results of that type, values within the precision of the types passed through, limits, names."""
import copy
import itertools
import pickle

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="6 starting robots x all sequences of 9 operations up to length 3, and of the 5 type operations up to length 4", thorough="all sequences of 9 operations up to length 4; type operations up to length 6")
OPS = ["f32", "f64", "device", "both32", "serial", "copy", "pickle", "query", "grad"]
TYPE_OPS = ["f32", "f64", "device", "query", "copy"]


def bases():
    rv, pr, fx = "revolute", "prismatic", "fixed"
    t1 = R.make([-1, 0, 1, 1, 3], [rv, pr, fx, rv], 2, root_loff=R.OFFS[0])
    t2 = R.chain_spec([rv, pr, rv, fx], 5)
    t3 = R.chain_spec([fx, fx], 1)
    for s in (t1, t2):
        for i, n in enumerate(s["nodes"]):
            if n["jtype"] != "fixed" and i != 2:
                n["limits"] = (-.1 * i - .7, .3 * i + .1)
                n["vel"] = (-.9 - i, .9 + i)
    return dict(tree=t1, serial=t2, fixed=t3)


def start(b, how):
    spec = bases()[b]
    if how == "f64":
        return spec, R.build(spec, F64), F64, False
    if how == "f32":
        return spec, R.build(spec, F32), F32, True
    if how == "urdf":
        # what a URDF can say: no link offsets
        for n in spec["nodes"]:
            n["loff"] = None
            if n.get("limits"):
                n["vel"] = (-1.5, 1.5)
        return spec, pk.build_chain_from_urdf(R.to_urdf(spec)), F32, True


def cases(tier):
    out = []
    d1, d2 = (3, 4) if tier == "quick" else (4, 6)
    for b in bases():
        for how in ("f64", "f32", "urdf"):
            if b == "fixed" and how != "f64":
                continue
            for o in OPS:
                out.append(dict(name="%s-%s-%s" % (b, how, o), base=b, how=how, ops=OPS, first=o, depth=d1))
            if b != "fixed":
                for o in TYPE_OPS:
                    out.append(dict(name="%s-%s-types-%s" % (b, how, o), base=b, how=how, ops=TYPE_OPS, first=o, depth=d2))
    out.append(dict(name="frames", kind="frames"))
    return out


class Obj:
    """a live robot, the type it must have, whether precision was lost, and what it describes"""

    def __init__(self, chain, dtype, lossy, pth):
        self.chain, self.dtype, self.lossy, self.pth = chain, dtype, lossy, pth


def run(case, cx):
    if case.get("kind") == "frames":
        return frames_(cx)
    memo = {}

    def go(seq):
        """replays the sequence on a fresh robot and judges the end state"""
        spec, chain, dtype, lossy = start(case["base"], case["how"])
        cur = Obj(chain, dtype, lossy, None)
        live = [cur]
        for o in seq:
            c = cur.chain
            if o in ("f32", "f64"):
                r = c.to(dtype=DT[o])
                cx.expect(r is c, "to-returns-self", "%s" % (seq,))
                cur.dtype = DT[o]
                cur.lossy |= o == "f32"
            elif o == "device":
                c.to(device="cpu")
            elif o == "both32":
                c.to(torch.float32, "cpu")
                cur.dtype, cur.lossy = F32, True
            elif o == "serial":
                nodes = spec["nodes"]
                pth = cur.pth if cur.pth is not None else ref.path(spec, len(nodes) - 1)
                if cur.pth is not None and len(pth) > 2:
                    pth = pth[1:]
                s = pk.SerialChain(c, nodes[pth[-1]]["name"], nodes[pth[0]]["name"])
                cur = Obj(s, cur.dtype, cur.lossy, pth)
                live.append(cur)
            elif o == "copy":
                cur = Obj(copy.deepcopy(c), cur.dtype, cur.lossy, cur.pth)
                live.append(cur)
            elif o == "pickle":
                cur = Obj(pickle.loads(pickle.dumps(c)), cur.dtype, cur.lossy, cur.pth)
                live.append(cur)
            elif o == "query":
                judge(cur, spec, cx, seq, "query")
            elif o == "grad":
                th = torch.full((2, c.n_joints), .3, dtype=cur.dtype, requires_grad=True)
                if c.n_joints:
                    c.forward_kinematics_tensor(th).sum().backward()
                    cx.expect(th.grad.dtype == cur.dtype, "grad-dtype", "%s" % (seq,))
        for i, o in enumerate(live):
            judge(o, spec, cx, seq, "current" if o is cur else "left-behind")
        cx.add(states=len(live), traces=1)
        cx.outcome(case["base"], case["how"], str(cur.dtype), cur.lossy, len(live), cur.pth)

    n = 0
    for r in range(0, case["depth"]):
        for tail in itertools.product(case["ops"], repeat=r):
            go((case["first"],) + tail)
            n += 1
    cx.sample = dict(base=case["base"], built=case["how"], first=case["first"], sequences=n)


def judge(o, spec, cx, seq, who):
    c, dtype = o.chain, o.dtype
    tol = 1e-9 if not o.lossy and dtype == F64 else 4e-5
    nodes = spec["nodes"]
    serial = o.pth is not None
    if serial:
        mv = [nodes[i] for i in o.pth[1:] if nodes[i]["jtype"] != "fixed"]
    else:
        mv = ref.movable(spec)
    lab = "%s %s" % (who, ",".join(seq))
    names = [n["jname"] for n in mv]
    cx.expect(c.get_joint_parameter_names() == names, "names:" + who, lab)
    cx.expect(c.dtype == dtype, "dtype:" + who, lambda: "%s: %s wanted %s" % (lab, c.dtype, dtype))
    B = 2
    q, _ = qrows(spec, B, salt=3)
    q = rep(q, F32)
    whole = ref.fk(spec, q, B)
    th = th_of(c, q, B, dtype)
    if serial:
        R0 = ref.inv(whole[nodes[o.pth[0]]["name"]])
        want = {nodes[i]["name"]: R0 @ whole[nodes[i]["name"]] for i in o.pth}
        out = c.forward_kinematics(th, end_only=False)
    else:
        want = whole
        out = c.forward_kinematics(th)
    cx.expect(all(v.dtype == dtype and v.get_matrix().dtype == dtype for v in out.values()), "fk-dtype:" + who, lab)
    e = err_poses({k: npa(v.get_matrix()) for k, v in out.items()}, want)
    cx.expect(e <= tol, "fk:" + who, lambda: "%s err=%g" % (lab, e))
    T = c.forward_kinematics_tensor(th, analytical_grad=False)
    cx.expect(T.dtype == dtype, "fk-tensor-dtype:" + who, lab)
    if names:
        # configurations that are not tensors take the type of the robot
        d = {k: float(q[k][1]) for k in names}
        end = nodes[o.pth[-1]]["name"] if serial else None
        r1 = c.forward_kinematics(d) if serial else c.forward_kinematics(d)[nodes[-1]["name"]]
        cx.expect(r1.dtype == dtype, "fk-dict-dtype:" + who, lab)
        e = R.materr(npa(r1.get_matrix())[0], (want[end] if serial else want[nodes[-1]["name"]])[1])
        cx.expect(e <= tol, "fk-dict:" + who, lambda: "%s err=%g" % (lab, e))
        cl = c.clamp([100.] * len(names))
        hi = np.array([n["limits"][1] if n.get("limits") else 100. for n in mv])
        cx.expect(cl.dtype == dtype and R.maxerr(npa(cl).reshape(-1), hi) <= (1e-12 if not o.lossy else 1e-6), "clamp:" + who,
                  lambda: "%s %s %s" % (lab, cl, hi))
        t2 = th.clone().requires_grad_()
        (c.forward_kinematics_tensor(t2)[..., :3, 3]).sum().backward()
        D = ref.dfk(spec, q, B)
        if not serial:
            g = np.stack([sum(D[f].get(j, np.zeros((B, 4, 4)))[:, :3, 3].sum(1) for f in D) for j in names], 1)
            e = R.maxerr(npa(t2.grad), g)
            cx.expect(t2.grad.dtype == dtype and e <= tol * 20, "grad:" + who, lambda: "%s err=%g" % (lab, e))
        lo, hi = c.get_joint_limits()
        exp = [n.get("limits") or (-np.inf, np.inf) for n in mv]
        cx.expect(R.maxerr(lo, [a for a, _ in exp]) <= 1e-7 and R.maxerr(hi, [b for _, b in exp]) <= 1e-7, "limits:" + who, "%s %s %s" % (lab, lo, hi))
        lo, hi = c.get_joint_velocity_limits()
        exp = [n.get("vel") or (-np.inf, np.inf) for n in mv]
        cx.expect(R.maxerr(lo, [a for a, _ in exp]) <= 1e-7 and R.maxerr(hi, [b for _, b in exp]) <= 1e-7, "vel-limits:" + who, "%s %s %s" % (lab, lo, hi))
        cx.expect(all(j.axis.dtype == dtype for j in c.get_joints()), "joint-dtype:" + who, lab)
    if serial:
        J, P = c.jacobian(th, ret_eef_pose=True)
        Jw, _ = ref.jacobian(spec, q, B, o.pth[-1], root=o.pth[0])
        cx.expect(J.dtype == dtype and P.dtype == dtype, "jacobian-dtype:" + who, lab)
        e = R.materr(npa(J), Jw)
        cx.expect(e <= tol, "jacobian:" + who, lambda: "%s err=%g" % (lab, e))
        J = c.jacobian(th, locations=torch.tensor([.1, .2, .3], dtype=F64 if dtype == F32 else F32))
        cx.expect(J.dtype == dtype, "jacobian-tool-dtype:" + who, lab)


def frames_(cx):
    """frames converted before a chain is made of them"""
    for b in bases():
        for seq in itertools.product(("f32", "f64"), repeat=3):
            for k in range(4):
                spec = bases()[b]
                root = R.frames(spec, DT[seq[0]])[0]
                lossy = seq[0] == "f32"
                for s in seq[1:k]:
                    root = root.to(dtype=DT[s], device="cpu")
                    lossy |= s == "f32"
                dt = DT[seq[-1]]
                c = pk.Chain(root, dtype=dt)
                c.to(dtype=dt)
                judge(Obj(c, dt, lossy or dt == F32, None), spec, cx, ("frames",) + seq + (str(k),), "frames")
                cx.add(states=1, traces=1)
    cx.outcome("frames")
