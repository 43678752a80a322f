"""Explicit-state exploration of query histories.  The world holds several robots: a tree, a serial chain extracted from
it, a chain loaded from URDF and an IK solver.  Every sequence of operations up to a depth (queries with every kind of
argument, gradients, solves, extractions, loads of other robots that use the same names, copies, failing calls, calls
under no_grad/inference mode/another default type, callers overwriting what they were given) is run on a fresh world;
every answer in the history is judged by the reference, all earlier results must be unchanged, no argument may be
modified, and at the end every robot is probed completely."""
import contextlib
import copy
import io
import itertools
import os

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="all ordered pairs of the %d operations; all triples of the 15 riskiest", thorough="all ordered triples of operations; all quadruples of the 9 riskiest")
rv, pr, fx = "revolute", "prismatic", "fixed"


def specs():
    a = R.make([-1, 0, 1, 2, 1, 4, 0], [rv, pr, rv, fx, rv, pr], 1, root_loff=R.OFFS[1])
    for i, n in enumerate(a["nodes"]):
        if n["jtype"] != "fixed" and i % 3:
            n["limits"], n["vel"] = (-.25 * i - .5, .5 * i), (-1. - i, 1. + i)
    u = R.make([-1, 0, 1, 1], [rv, rv, pr], 4)
    for n in u["nodes"]:
        n["loff"] = None
    u["nodes"][1]["limits"], u["nodes"][1]["vel"], u["nodes"][1]["eff"] = (-1., 1.5), (-2., 2.), (-3., 3.)
    return a, u


class World:
    def __init__(self, cx, hist):
        self.cx, self.hist = cx, hist
        self.sa, self.su = specs()
        self.A = R.build(self.sa, F64)
        self.end = self.sa["nodes"][3]["name"]
        self.S = pk.SerialChain(self.A, self.end)
        self.U = pk.build_chain_from_urdf(R.to_urdf(self.su))
        self.W = pk.SerialChain(self.U, self.su["nodes"][2]["name"])
        self.ik = pk.PseudoInverseIK(self.S, retry_configs=torch.tensor([[.2, .1, -.3], [-.4, .5, .6]], dtype=F64), max_iterations=6,
                                     early_stopping_no_improvement=None)
        self.held = []  # (tensor, value it had)
        self.n = 0
        self.th = torch.tensor([[.3, -.2, .5, .7, -.1], [1., .2, -.6, 0., .4]], dtype=F64)
        self.ths = self.th[:, :3].clone()

    def lab(self):
        return ",".join(self.hist)

    def ok(self, cond, sig, msg=""):
        self.cx.expect(cond, sig, lambda: "%s: %s" % (self.lab(), msg() if callable(msg) else msg))

    def hold(self, *ts):
        for t in ts:
            self.held.append((t, t.detach().clone()))

    def q(self, th, chain):
        return {n: npa(th[..., i]) for i, n in enumerate(chain.get_joint_parameter_names())}

    def refA(self, th):
        return ref.fk(self.sa, self.q(th, self.A), len(th))

    def refS(self, th):
        q = dict(self.q(th, self.S))
        for n in ref.movable(self.sa):
            q.setdefault(n["jname"], np.zeros(len(th)))
        w = ref.fk(self.sa, q, len(th))
        r = ref.inv(w[self.sa["nodes"][0]["name"]])
        return {n["name"]: r @ w[n["name"]] for n in [self.sa["nodes"][i] for i in ref.path(self.sa, self.end)]}, q

    # --- complete probe: everything a robot answers, against the reference
    def probe(self):
        A, S, U = self.A, self.S, self.U
        th = torch.tensor([[.1, .9, -.5, .3, 1.1], [-.7, -.2, .4, 2.2, -.3], [0., 0., 0., 0., 0.]], dtype=F64)
        w = self.refA(th)
        self.ok(err_poses({k: npa(v.get_matrix()) for k, v in A.forward_kinematics(th).items()}, w) < 1e-9, "probe:tree-fk")
        t = th.clone().requires_grad_()
        out = A.forward_kinematics_tensor(t)
        out[..., :3, 3].sum().backward()
        D = ref.dfk(self.sa, self.q(th, A), 3)
        g = np.stack([sum(D[f].get(j, np.zeros((3, 4, 4)))[:, :3, 3].sum(1) for f in D) for j in A.get_joint_parameter_names()], 1)
        self.ok(R.maxerr(npa(t.grad), g) < 1e-8, "probe:tree-grad", lambda: "%s %s" % (t.grad, g))
        mv = ref.movable(self.sa)
        self.ok(A.get_joint_parameter_names() == [n["jname"] for n in mv], "probe:tree-names", lambda: str(A.get_joint_parameter_names()))
        self.ok(A.get_frame_names(exclude_fixed=False) == [self.sa["nodes"][i]["name"] for i in ref.joint_order(self.sa)[0]], "probe:tree-frames")
        lo, hi = A.get_joint_limits()
        self.ok(list(map(float, lo)) == [(n.get("limits") or (-np.inf, 0))[0] for n in mv] and
                list(map(float, hi)) == [(n.get("limits") or (0, np.inf))[1] for n in mv], "probe:tree-limits", lambda: "%s %s" % (lo, hi))
        lo, hi = A.get_joint_velocity_limits()
        self.ok(list(map(float, hi)) == [(n.get("vel") or (0, np.inf))[1] for n in mv], "probe:tree-vel", lambda: "%s" % (hi,))
        c = npa(A.clamp(torch.full((5,), 9., dtype=F64)))
        self.ok(R.maxerr(c, [(n.get("limits") or (0, 9.))[1] for n in mv]) == 0, "probe:tree-clamp", lambda: str(c))
        fi = A.get_frame_indices(self.end)
        r = A.forward_kinematics(th, frame_indices=fi)
        self.ok(list(r) == [self.end] and R.materr(npa(r[self.end].get_matrix()), w[self.end]) < 1e-9, "probe:tree-subset", lambda: str(list(r)))
        d = {n: float(th[0, i]) for i, n in enumerate([n["jname"] for n in mv])}
        self.ok(err_poses({k: npa(v.get_matrix())[:1] for k, v in A.forward_kinematics(d).items()}, {k: v[:1] for k, v in w.items()}) < 1e-9, "probe:tree-dict")
        self.ok(A.dtype == F64 and all(j.axis.dtype == F64 for j in A.get_joints()), "probe:tree-dtype")
        ts = th[:, :3]
        ws, q = self.refS(ts)
        self.ok(err_poses(serial_fk(S, ts), ws) < 1e-9, "probe:serial-fk")
        J, P = S.jacobian(ts, ret_eef_pose=True)
        Jw, _ = ref.jacobian(self.sa, q, 3, self.end)
        self.ok(R.materr(npa(J), Jw) < 1e-9 and R.materr(npa(P), ws[self.end]) < 1e-9, "probe:serial-jac")
        J = S.jacobian(ts, locations=torch.tensor([.1, -.2, .3], dtype=F64))
        Jw, _ = ref.jacobian(self.sa, q, 3, self.end, tool=ref.T(t=[.1, -.2, .3]))
        self.ok(R.materr(npa(J), Jw) < 1e-9, "probe:serial-jac-tool")
        tu = torch.tensor([[.4, -.9, .3], [0., 0., 0.]])
        wu = ref.fk(self.su, self.q(tu, U), 2)
        self.ok(err_poses(fk_all(U, tu), wu) < 1e-5, "probe:urdf-fk")
        lo, hi = U.get_joint_limits()
        self.ok([float(x) for x in lo] == [-1., -np.inf, -np.inf] and [float(x) for x in hi] == [1.5, np.inf, np.inf], "probe:urdf-limits", lambda: "%s %s" % (lo, hi))
        self.ok(R.materr(npa(self.W.forward_kinematics(tu[:, :2]).get_matrix()), wu[self.su["nodes"][2]["name"]]) < 1e-5, "probe:urdf-serial")
        tree = A.print_tree(do_print=False)
        self.ok(sorted(l.strip("│├└─ ") for l in tree.split("\n") if l.strip()) == sorted(n["name"] for n in self.sa["nodes"]), "probe:tree-printed", lambda: tree)

    def check_held(self):
        for t, v in self.held:
            self.ok(torch.equal(t.detach(), v), "earlier-result-changed")


# ------------------------------------------------------------------ operations: each runs one thing and judges its answer
def guard(w, t):
    """argument that must not be modified"""
    return t, t.detach().clone()


def op_fk(w):
    th, c = guard(w, w.th)
    r = w.A.forward_kinematics(th)
    m = {k: v.get_matrix() for k, v in r.items()}
    w.ok(err_poses({k: npa(v) for k, v in m.items()}, w.refA(th)) < 1e-9, "fk")
    w.ok(torch.equal(th, c), "argument-changed")
    w.hold(*m.values())


def op_fk_tensor(w):
    r = w.A.forward_kinematics_tensor(w.th)
    i = int(w.A.get_frame_indices(w.end)[0])
    w.ok(R.materr(npa(r[i]), w.refA(w.th)[w.end]) < 1e-9, "fk-tensor")
    w.hold(r)


def op_fk_batch(w):
    for B in (1, 5, 0, 64):
        th = torch.linspace(-1, 1, B * 5, dtype=F64).reshape(B, 5)
        r = w.A.forward_kinematics_tensor(th)
        w.ok(r.shape[1] == B and (B == 0 or R.materr(npa(r[int(w.A.get_frame_indices(w.end)[0])]), w.refA(th)[w.end]) < 1e-9), "fk-batch")
        w.hold(r)


def op_fk_1d(w):
    r = w.A.forward_kinematics(w.th[1])
    w.ok(R.materr(npa(r[w.end].get_matrix()), w.refA(w.th[1:])[w.end]) < 1e-9, "fk-1d")
    w.hold(r[w.end].get_matrix())


def op_subset(w):
    ns = [w.end, w.sa["nodes"][6]["name"]]
    fi = w.A.get_frame_indices(*ns)
    c = fi.clone()
    r = w.A.forward_kinematics(w.th, frame_indices=fi)
    w.ok(sorted(r) == sorted(ns) and torch.equal(fi, c), "subset")
    for n in ns:
        w.ok(R.materr(npa(r[n].get_matrix()), w.refA(w.th)[n]) < 1e-9, "subset")
        w.hold(r[n].get_matrix())


def op_dict(w):
    names = w.A.get_joint_parameter_names()
    d = {n: w.th[:, i] for i, n in list(enumerate(names))[::-1]}
    keys, vals = list(d), [v.clone() for v in d.values()]
    r = w.A.forward_kinematics(d)
    w.ok(R.materr(npa(r[w.end].get_matrix()), w.refA(w.th)[w.end]) < 1e-9, "dict")
    w.ok(list(d) == keys and all(torch.equal(a, b) for a, b in zip(d.values(), vals)), "argument-changed")
    w.hold(r[w.end].get_matrix())


def op_list(w):
    l = [float(x) for x in w.th[0]]
    c = list(l)
    r = w.A.forward_kinematics(l)
    a = np.array(c)
    r2 = w.A.forward_kinematics(a[None])
    w.ok(R.materr(npa(r[w.end].get_matrix()), w.refA(w.th[:1])[w.end]) < 1e-9 and l == c and list(a) == c, "list")
    w.ok(R.materr(npa(r2[w.end].get_matrix()), w.refA(w.th[:1])[w.end]) < 1e-9, "array")
    a[:] = 77.
    l[0] = 77.
    w.ok(R.materr(npa(r2[w.end].get_matrix()), w.refA(w.th[:1])[w.end]) < 1e-9, "result-aliases-argument")


def op_grad(w):
    t = w.th.clone().requires_grad_()
    w.A.forward_kinematics_tensor(t)[int(w.A.get_frame_indices(w.end)[0]), :, :3, 3].sum().backward()
    D = ref.dfk(w.sa, w.q(w.th, w.A), 2)[w.end]
    g = np.stack([D.get(j, np.zeros((2, 4, 4)))[:, :3, 3].sum(1) for j in w.A.get_joint_parameter_names()], 1)
    w.ok(R.maxerr(npa(t.grad), g) < 1e-8, "grad")


def op_grad_ad(w):
    t = w.th.clone().requires_grad_()
    y = w.A.forward_kinematics_tensor(t, analytical_grad=False)[int(w.A.get_frame_indices(w.end)[0]), :, :3, 3].sum()
    g, = torch.autograd.grad(y, t, create_graph=True)
    g.sum().backward()
    D = ref.dfk(w.sa, w.q(w.th, w.A), 2)[w.end]
    g0 = np.stack([D.get(j, np.zeros((2, 4, 4)))[:, :3, 3].sum(1) for j in w.A.get_joint_parameter_names()], 1)
    w.ok(R.maxerr(npa(g), g0) < 1e-8, "grad-ad")


def op_jac(w):
    J, P = w.S.jacobian(w.ths, ret_eef_pose=True)
    ws, q = w.refS(w.ths)
    Jw, _ = ref.jacobian(w.sa, q, 2, w.end)
    w.ok(R.materr(npa(J), Jw) < 1e-9 and R.materr(npa(P), ws[w.end]) < 1e-9, "jac")
    J2 = w.S.jacobian(w.ths)
    w.ok(torch.equal(J, J2), "jac-repeat")
    w.hold(J, P, J2)


def op_jac_tool(w):
    for loc in (torch.tensor([.3, 0., -.1], dtype=F64), torch.tensor([[.3, 0., -.1], [0., .2, .4]], dtype=F64),
                pk.Transform3d(pos=torch.tensor([.1, .2, .3], dtype=F64), rot=torch.tensor([.5, .5, .5, .5], dtype=F64), dtype=F64)):
        m = loc.get_matrix().clone() if isinstance(loc, pk.Transform3d) else None
        c = None if m is not None else loc.clone()
        tool = npa(m) if m is not None else np.stack([ref.T(t=x) for x in npa(torch.atleast_2d(loc))])
        J, P = w.S.jacobian(w.ths, locations=loc, ret_eef_pose=True)
        ws, q = w.refS(w.ths)
        Jw, Pw = ref.jacobian(w.sa, q, 2, w.end, tool=tool)
        w.ok(R.materr(npa(J), Jw) < 1e-9 and R.materr(npa(P), ws[w.end] @ tool) < 1e-9, "jac-tool")
        w.ok(torch.equal(loc, c) if m is None else torch.equal(loc.get_matrix(), m), "argument-changed")
        w.hold(J, P)


def op_jac_grad(w):
    t = w.ths.clone().requires_grad_()
    w.S.jacobian(t).sum().backward()
    ws, q = w.refS(w.ths)
    D = ref.djac(w.sa, q, 2, w.end)
    g = np.stack([D[j].sum((1, 2)) for j in w.S.get_joint_parameter_names()], 1)
    w.ok(R.maxerr(npa(t.grad), g) < 1e-8, "jac-grad", lambda: "%s %s" % (t.grad, g))


def op_serial_fk(w):
    r = w.S.forward_kinematics(w.ths)
    ws, _ = w.refS(w.ths)
    w.ok(R.materr(npa(r.get_matrix()), ws[w.end]) < 1e-9, "serial-fk")
    r2 = w.S.forward_kinematics(w.ths, end_only=False)
    w.ok(err_poses({k: npa(v.get_matrix()) for k, v in r2.items()}, ws) < 1e-9, "serial-fk-all")
    w.hold(r.get_matrix(), *[v.get_matrix() for v in r2.values()])


def op_serial_dict(w):
    d = {n: float(w.ths[0, i]) for i, n in enumerate(w.S.get_joint_parameter_names())}
    r = w.S.forward_kinematics(d)
    ws, _ = w.refS(w.ths[:1])
    w.ok(R.materr(npa(r.get_matrix()), ws[w.end]) < 1e-9, "serial-dict")


def op_clamp(w):
    t = torch.full((2, 5), -20., dtype=F64)
    r = w.A.clamp(t)
    w.ok(bool((t == -20).all()), "argument-changed")
    want = [(n.get("limits") or (-20.,))[0] for n in ref.movable(w.sa)]
    w.ok(R.maxerr(npa(r), np.array([want, want])) == 0, "clamp")
    r.fill_(123.)
    w.ok(R.maxerr(npa(w.A.clamp(t)), np.array([want, want])) == 0, "clamp-repeat")
    inside = torch.zeros(5, dtype=F64)
    r = w.A.clamp(inside)
    r += 1
    w.ok(R.maxerr(npa(inside), np.zeros(5)) == 0, "clamp-aliases-argument")


def op_extract(w):
    s = pk.SerialChain(w.A, w.sa["nodes"][5]["name"], w.sa["nodes"][1]["name"])
    w.ok(s.get_joint_parameter_names() == [w.sa["nodes"][i]["jname"] for i in (4, 5) if w.sa["nodes"][i]["jtype"] != fx], "extract")
    s.forward_kinematics(torch.zeros(1, s.n_joints, dtype=F64))
    s.to(dtype=F32)
    s.forward_kinematics(torch.ones(3, s.n_joints))
    pk.SerialChain(w.S, w.sa["nodes"][2]["name"])
    w.S2 = s


def other(spec, v):
    """a different robot with the same names"""
    o = R.make([n["parent"] for n in spec["nodes"]][:4], [pr, rv, rv], v, names=[n["name"] for n in spec["nodes"]][:4],
               jnames=[n["jname"] for n in spec["nodes"]][:4])
    for i, n in enumerate(o["nodes"]):
        n["loff"] = None
        n["limits"] = (-.01, .01)
    return o


def op_load_urdf(w):
    o = other(w.su, 3)
    c = pk.build_chain_from_urdf(R.to_urdf(o))
    q, B = qrows(o, 2)
    w.ok(err_poses(fk_all(c, th_of(c, q, B)), ref.fk(o, rep(q, F32), B)) < 1e-5, "load-urdf")
    c.to(dtype=F64)


def op_load_same(w):
    c = pk.build_chain_from_urdf(R.to_urdf(w.su))
    c.to(dtype=F64)
    c2 = R.build(w.sa, F64)
    c2.forward_kinematics(torch.zeros(1, 5, dtype=F64))
    c2.to(dtype=F32)


def op_load_sdf(w):
    from mc.checks import c11
    o = c11.auto(R.make([-1, 0, 1], [rv, pr], 0, names=[n["name"] for n in w.su["nodes"]][:3], jnames=[n["jname"] for n in w.su["nodes"]][:3]), 0)
    c = pk.build_chain_from_sdf(R.to_sdf(o))
    q, B = qrows(o, 2)
    w.ok(err_poses(fk_all(c, th_of(c, q, B)), ref.fk(o, rep(q, F32), B)) < 1e-5, "load-sdf")


def op_load_mjcf(w):
    n = [x["name"] for x in w.su["nodes"]]
    j = [x["jname"] for x in w.su["nodes"]]
    text = '<mujoco><worldbody><body name="%s" pos="1 0 0"><joint name="%s" type="hinge" axis="0 1 0"/><geom size="1"/></body></worldbody></mujoco>' % (n[1], j[1])
    c = pk.build_chain_from_mjcf(text)
    r = c.forward_kinematics([.5])
    w.ok(R.materr(npa(r[n[1]].get_matrix())[0], ref.T(ref.rot((0, 1, 0), .5), (1, 0, 0))) < 1e-6, "load-mjcf")


def op_ik(w):
    q = torch.tensor([[.25, .05, -.2]], dtype=F64)
    goal = w.S.forward_kinematics(q)
    m = goal.get_matrix().clone()
    init = w.ik.initial_config.clone()
    sol = w.ik.solve(goal)
    w.ok(torch.equal(goal.get_matrix(), m) and torch.equal(w.ik.initial_config, init), "argument-changed")
    key = "ik"
    if key in IKREF:
        w.ok(R.maxerr(npa(sol.solutions), IKREF[key]) < 1e-9, "ik-history-dependent", lambda: "%s %s" % (sol.solutions, IKREF[key]))
    else:
        w.ok(False, "ik-reference-missing")
    w.hold(sol.solutions, sol.err_pos, sol.err_rot, sol.converged)


IKREF = {}


def op_ik_other(w):
    """another target, another solver on another robot"""
    goal = w.S.forward_kinematics(torch.tensor([[1., .4, .3], [-1., 0., .2]], dtype=F64))
    w.ik.solve(goal)
    s = pk.PseudoInverseIKWithSVD(w.W, num_retries=3, max_iterations=3, joint_limits=torch.tensor([[-1., 1.], [-1., 1.]]))
    s.solve(pk.Transform3d(pos=[[.1, .2, .3]]))


def op_names_overwrite(w):
    for c in (w.A, w.S, w.U):
        for a in (c.get_joint_parameter_names(), c.get_joint_parameter_names(False), c.get_frame_names(False), c.get_frame_names(),
                  c.get_joints(), c.get_links(), c.get_link_names(), c.get_joint_parent_frame_names(), c.get_joints(False)):
            a.reverse()
            a.append("zzz")
            del a[0]


def op_limits_overwrite(w):
    for c in (w.A, w.S, w.U):
        for a in (c.get_joint_limits(), c.get_joint_velocity_limits(), c.get_joint_effort_limits()):
            for x in a:
                for i in range(len(x)):
                    x[i] = 1e-3
                x.append(5.)


def op_index_overwrite(w):
    for c in (w.A, w.S, w.U):
        c.get_all_frame_indices().zero_()
        names = c.get_frame_names(exclude_fixed=False)
        c.get_frame_indices(*names).fill_(-1)
        for n in names:
            c.get_frame_indices(n).add_(1)


def op_result_overwrite(w):
    r = w.A.forward_kinematics(w.th)
    for v in r.values():
        v.get_matrix().zero_()
    w.A.forward_kinematics_tensor(w.th).fill_(3.)
    w.S.forward_kinematics(w.ths).get_matrix().zero_()
    for v in w.S.forward_kinematics(w.ths, end_only=False).values():
        v.get_matrix().fill_(7.)
    J, P = w.S.jacobian(w.ths, ret_eef_pose=True)
    J.zero_()
    P.zero_()
    J = w.S.jacobian(w.ths, locations=torch.zeros(3, dtype=F64))
    J.zero_()
    w.U.forward_kinematics_tensor(torch.zeros(2, 3)).zero_()
    z = torch.zeros(1, 0)
    f = R.build(R.chain_spec([fx], 0), F32)
    f.forward_kinematics_tensor(z).zero_()
    w.ok(R.materr(npa(f.forward_kinematics_tensor(z))[:, 0], np.stack(list(ref.fk(R.chain_spec([fx], 0), {}, 1).values()))[:, 0]) < 1e-5, "fixed-overwritten")


def op_mutate_th(w):
    """the caller changes the configuration it passed, in place"""
    r = w.A.forward_kinematics(w.th)
    keep = {k: npa(v.get_matrix()).copy() for k, v in r.items()}
    w.th.add_(.05)
    w.ths.sub_(.03)
    w.ok(all(np.array_equal(npa(r[k].get_matrix()), keep[k]) for k in keep), "result-aliases-argument")
    r = w.A.forward_kinematics(w.th)
    w.ok(err_poses({k: npa(v.get_matrix()) for k, v in r.items()}, w.refA(w.th)) < 1e-9, "stale-after-change")
    ws, q = w.refS(w.ths)
    w.ok(R.materr(npa(w.S.jacobian(w.ths)), ref.jacobian(w.sa, q, 2, w.end)[0]) < 1e-9, "stale-jacobian")


def op_modes(w):
    with torch.no_grad():
        w.A.forward_kinematics(w.th)
        w.S.jacobian(w.ths)
    with torch.inference_mode():
        w.A.forward_kinematics(w.th)
        w.S.jacobian(w.ths)
        w.U.get_frame_indices(*w.U.get_frame_names(False))
        w.A.clamp([0.] * 5)


def op_default_dtype(w):
    old = torch.get_default_dtype()
    for d in (F64, F32):
        torch.set_default_dtype(d)
        try:
            op_fk(w)
            op_dict(w)
            op_jac(w)
        finally:
            torch.set_default_dtype(old)


def op_print(w):
    with contextlib.redirect_stdout(io.StringIO()):
        w.A.print_tree()
        print(w.A, w.S, w.U)
    str(w.A.find_frame(w.end))
    repr(w.A.get_joints())


def op_lookup(w):
    for n in w.sa["nodes"]:
        f = w.A.find_frame(n["name"])
        w.ok(f is not None and f.name == n["name"], "lookup")
        w.A.find_link(n["name"])
        if n["jname"]:
            w.ok(w.A.find_joint(n["jname"]).name == n["jname"], "lookup")
    w.ok(w.A.find_frame("zzz") is None, "lookup")
    list(w.A.get_joints_and_child_links())


def op_fail(w):
    w.ok(raises(w.A.forward_kinematics, torch.zeros(2, 4, dtype=F64)), "too-few-accepted")
    w.ok(raises(w.A.forward_kinematics, {"zzz": 1.}), "unknown-accepted")
    w.ok(raises(w.A.forward_kinematics, {w.A.get_joint_parameter_names()[0]: 1.}), "missing-accepted")
    w.ok(raises(pk.SerialChain, w.A, "zzz"), "unknown-end-accepted")
    w.ok(raises(w.A.get_frame_indices, "zzz"), "unknown-index-accepted")
    w.ok(raises(pk.build_chain_from_urdf, "<robot><nonsense"), "nonsense-accepted")
    w.ok(raises(w.ik.solve, None), "no-target-accepted")


def op_copy(w):
    c = copy.deepcopy(w.A)
    c.to(dtype=F32)
    c.forward_kinematics(torch.ones(2, 5))
    s = copy.deepcopy(w.S)
    s.to(dtype=F32)
    s.jacobian(torch.ones(2, 3))
    # the copy's constants are its own
    for j in c.get_joints():
        j.axis.fill_(9.)


def op_u_types(w):
    w.U.to(dtype=F64)
    w.U.forward_kinematics(torch.zeros(2, 3, dtype=F64))
    w.U.to(dtype=F32)
    w.A.to(dtype=F64)
    w.S.to(dtype=F64, device="cpu")


def op_rotations(w):
    """the functions the robots are made of, on tensors that are reused"""
    ax = torch.tensor([[0., 0., 1.], [1., 0., 0.]], dtype=F64)
    a = torch.tensor([.3, 2.], dtype=F64)
    m = pk.axis_and_angle_to_matrix_33(ax, a)
    m.zero_()
    w.ok(R.materr(npa(pk.axis_and_angle_to_matrix_33(ax, a)), np.stack([ref.rot(x, y) for x, y in zip(npa(ax), npa(a))])) < 1e-9, "rotation")
    t = pk.Transform3d(dtype=F64)
    t.get_matrix().fill_(4.)
    w.ok(R.materr(npa(pk.Transform3d(dtype=F64).get_matrix())[0], np.eye(4)) == 0, "identity")


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
RISKY = ["fk", "dict", "serial_fk", "jac_tool", "mutate_th", "result_overwrite", "names_overwrite", "index_overwrite", "extract", "load_same", "copy",
         "modes", "grad", "u_types", "fk_batch"]
MOST = ["fk_batch", "jac_tool", "mutate_th", "result_overwrite", "index_overwrite", "extract", "modes", "grad", "ik"]
BOUNDS["quick"] = BOUNDS["quick"] % len(OPS)


def cases(tier):
    out = []
    for o in OPS:
        out.append(dict(name="pairs-" + o, first=[o], alphabet=list(OPS), depth=[0, 1]))
    if tier == "quick":
        for a in RISKY[:14]:
            for b in RISKY[:14]:
                out.append(dict(name="triples-%s-%s" % (a, b), first=[a, b], alphabet=RISKY[:14], depth=[1], ends=True))
    else:
        for a in OPS:
            for b in OPS:
                out.append(dict(name="triples-%s-%s" % (a, b), first=[a, b], alphabet=list(OPS), depth=[1]))
        for a in MOST:
            for b in MOST:
                out.append(dict(name="quads-%s-%s" % (a, b), first=[a, b], alphabet=MOST, depth=[2]))
    return out


def run(case, cx):
    if not IKREF:
        w = World(cx, ("reference",))
        IKREF["ik"] = npa(w.ik.solve(w.S.forward_kinematics(torch.tensor([[.25, .05, -.2]], dtype=F64))).solutions)
    n = 0
    for d in case["depth"]:
        for tail in itertools.product(case["alphabet"], repeat=d):
            hist = tuple(case["first"]) + tail
            w = World(cx, hist)
            for o in hist:
                OPS[o](w)
            w.check_held()
            w.probe()
            cx.add(states=1, traces=1)
            cx.outcome(hist)
            n += 1
    cx.sample = dict(history=list(hist), sequences=n)
