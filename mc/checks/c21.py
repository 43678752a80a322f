"""Explicit exploration of compiled kinematics.  Every order of batch sizes from a set (with repetitions, also empty and
single row) is passed to one compiled function of each kind (forward kinematics, Jacobian with and without end effector
pose, their gradients by both ways of differentiation, rotation conversions, inverse kinematics), compiled as a full graph;
each call is compared with the uncompiled function and, for kinematics, with the reference.  Further histories interleave
compiled functions of several robots with conversions of their number type, copies, and ordinary queries."""
import contextlib
import copy
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *
from mc.ikc import *

BOUNDS = dict(quick="5 robots x (all orders of 3 batch sizes + 3 with empty batches) by graph capture, 2 robots by ahead-of-time autograd; 20 conversions x 3 sequences; IK: 2 kernels x 6 option sets x a sequence of 6 problem counts; 1 inductor run; 20 of 360 histories; all ordered pairs of 4 robots of one size",
              thorough="9 robots x all sequences of length 3 over 5 batch sizes by both; IK on 7 robots; inductor on 5 robots; all 360 histories of 4 of 6 steps; all sequences of 3 of 4 robots of one size")
ROB = ["rpr", "six", "slide", "tree", "one"]


def rspec(name):
    if name == "tree":
        return R.make([-1, 0, 1, 2, 1, 4, 0], [rv, pr, rv, fx, rv, pr], 1, root_loff=R.OFFS[1])
    if name == "comb":
        return big("comb", dict(shapes())["comb"], "rpf")
    return spec_of(name)


def cases(tier):
    th = tier == "thorough"
    out = []
    seqs = list(itertools.permutations((1, 2, 5))) + [(0, 3, 1), (3, 0, 4), (4, 4, 6)]
    if th:
        seqs = list(itertools.product((0, 1, 2, 5, 9), repeat=3))
    for rb in (ROB + ["seven", "mixed", "comb", "eight"] if th else ROB):
        for k in range(0, len(seqs), 3):
            for be in ("eager", "aot_eager"):
                for fn in ("fk", "jac"):
                    if not th and be == "aot_eager" and (k != 6 or rb not in ("rpr", "tree")):
                        continue
                    # quick: derivatives along every third sequence
                    out.append(dict(name="seq:%s:%s:%s:%d" % (rb, be, fn, k), kind="seq", robot=rb, be=be, fn=fn, seqs=seqs[k:k + 3] if be == "eager" or th else seqs[k:k + 1],
                                    grads=[0, 1, 2] if th else [ROB.index(rb) % 3]))
    ind = ["rpr"] if not th else ROB
    out = [dict(name="inductor:%s:%s" % (rb, fn), kind="inductor", robot=rb, be="inductor", fn=fn, seqs=[(3, 1, 2)] if th else [(3,)]) for rb in ind for fn in ("fk", "jac")] + out
    for be in ("eager", "aot_eager"):
        for k in range(4):
            out.append(dict(name="conv:%s:%d" % (be, k), kind="conv", be=be, k=k, th=th))
    for cls in CLS:
        for oi in range(6):
            out.append(dict(name="ik:%s:%d" % (cls, oi), kind="ik", cls=cls, oi=oi, be="eager", robots=[("rpr", "six")[(oi + (cls == "svd")) % 2]] if not th else list(ROBOTS)))
    if th:
        out.append(dict(name="ik:aot", kind="ik", cls="dls", oi=0, be="aot_eager", robots=["rpr", "six"]))
    for k in range(4):
        out.append(dict(name="follow:%d" % k, kind="follow", k=k, every=1 if th else 22))
    rs = list(ALIKE)
    orders = list(itertools.permutations(rs, 2)) if not th else list(itertools.product(rs, repeat=3))
    for k in range(0, len(orders), 4):
        out.append(dict(name="alike:%d" % k, kind="alike", orders=orders[k:k + 4]))
    return out


def flat(x):
    return list(x) if isinstance(x, (tuple, list)) else [x]


def close(a, b, tol):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(x.dtype == y.dtype and x.shape == y.shape and (x.numel() == 0 or R.maxerr(npa(x), npa(y)) <= tol) for x, y in zip(a, b))


def grad_of(f, th):
    t = th.clone().requires_grad_()
    out = flat(f(t))
    loss = sum((o * torch.cos(torch.arange(o.numel(), dtype=o.dtype)).reshape(o.shape)).sum() for o in out)
    loss.backward()
    return [o.detach() for o in out] + [t.grad]


def seq(case, cx):
    spec = rspec(case["robot"])
    mv = ref.movable(spec)
    jac = case["fn"] == "jac"
    chain = R.build(spec, F64)
    end = spec["nodes"][-1]["name"]
    if jac:
        # the path to the last frame, as a serial chain
        chain = pk.SerialChain(chain, end)
    n = len(chain.get_joint_parameter_names())
    for si, s in enumerate(case["seqs"]):
        torch._dynamo.reset()
        if jac:
            fns = dict(j=lambda t: chain.jacobian_tensor(t), jp=lambda t: chain.jacobian_tensor(t, ret_eef_pose=True))
            comp = {"j": torch.compile(chain.jacobian_tensor, fullgraph=True, backend=case["be"])}
            comp["jp"] = lambda t, f=comp["j"]: f(t, True)
        else:
            fns = dict(f=chain.forward_kinematics_tensor, g=lambda t: chain.forward_kinematics_tensor(t, analytical_grad=False))
            comp = {"f": torch.compile(chain.forward_kinematics_tensor, fullgraph=True, backend=case["be"])}
            comp["g"] = lambda t, f=comp["f"]: f(t, analytical_grad=False)
        for step, B in enumerate(s):
            q, _ = qrows(spec, B, salt=B + step)
            th = th_of(chain, q, B)
            for k in fns:
                lab = "%s:%s:%s" % (case["robot"], case["be"], k)
                keep = th.clone()
                a, b = fns[k](th), comp[k](th)
                cx.expect(close(a, b, 1e-12), "compiled-differs:" + lab, lambda: "sizes %s, step %d" % (s, step))
                cx.expect(torch.equal(th, keep), "input-modified:" + lab)
                if si in case.get("grads", (0, 1, 2)):
                    a, b = grad_of(fns[k], th), grad_of(comp[k], th)
                cx.expect(close(a, b, 1e-10), "compiled-grad-differs:" + lab, lambda: "sizes %s, step %d" % (s, step))
                if k == "f":
                    w = ref.fk(spec, q, B)
                    T = npa(comp[k](th))
                    e = max(R.materr(T[int(chain.get_frame_indices(nm))], w[nm]) for nm in w)
                    cx.expect(e < 1e-9, "compiled-fk:" + lab, lambda: "sizes %s, step %d: %g" % (s, step, e))
                if k == "j":
                    Jw, _ = ref.jacobian(spec, q, B, end)
                    cx.expect(R.materr(npa(comp[k](th)), Jw) < 1e-9, "compiled-jac:" + lab, lambda: "sizes %s, step %d" % (s, step))
            cx.add(states=1, traces=1)
        cx.outcome(case["robot"], case["be"], tuple(s))
    cx.sample = dict(robot=R.label(spec), backend=case["be"], batch_sizes=case["seqs"])


def inductor(case, cx):
    d = tempfile.mkdtemp(prefix="c21_inductor_")
    old = {k: os.environ.get(k) for k in ("TORCHINDUCTOR_CACHE_DIR", "TORCHINDUCTOR_COMPILE_THREADS")}
    os.environ["TORCHINDUCTOR_CACHE_DIR"] = d
    import torch._inductor.config as ic
    thr = ic.compile_threads
    ic.compile_threads = 1
    try:
        seq(case, cx)
    finally:
        ic.compile_threads = thr
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


def conversions():
    import pytorch_kinematics.transforms.rotation_conversions as rc
    qs = np.concatenate([ref.octahedral_quats(), [ref.axis_angle_quat(a, t) for a in R.AXES[:6] for t in (1e-9, 1e-4, .3, 2., np.pi - 1e-6, np.pi, 4., -1.2)]])
    q = torch.tensor(qs, dtype=F64)
    q2 = q.roll(7, 0)
    M = pk.quaternion_to_matrix(q)
    p = torch.tensor(np.cos(np.arange(len(qs) * 3)).reshape(-1, 3), dtype=F64)
    ax = torch.nn.functional.normalize(p, dim=-1)
    ang = torch.linspace(-7, 7, len(qs), dtype=F64)
    e = p * 1.2
    L = dict(
        matrix_to_quaternion=(rc.matrix_to_quaternion, [M]), quaternion_to_matrix=(rc.quaternion_to_matrix, [q]), quaternion_to_axis_angle=(rc.quaternion_to_axis_angle, [q]),
        axis_angle_to_quaternion=(rc.axis_angle_to_quaternion, [p]),  # axis_angle_to_matrix is deprecated and warns, which cannot be compiled
        matrix_to_axis_angle=(rc.matrix_to_axis_angle, [M]),
        rotation_6d_to_matrix=(rc.rotation_6d_to_matrix, [M[:, :2].reshape(-1, 6) * 1.7]), matrix_to_rotation_6d=(rc.matrix_to_rotation_6d, [M]),
        quaternion_multiply=(rc.quaternion_multiply, [q, q2]), quaternion_invert=(rc.quaternion_invert, [q]), quaternion_apply=(rc.quaternion_apply, [q, p]),
        standardize_quaternion=(rc.standardize_quaternion, [q]), quaternion_raw_multiply=(rc.quaternion_raw_multiply, [q, q2]),
        axis_and_angle_to_matrix_33=(rc.axis_and_angle_to_matrix_33, [ax, ang]), axis_and_angle_to_matrix_44=(rc.axis_and_angle_to_matrix_44, [ax, ang]),
        axis_and_d_to_pris_matrix=(rc.axis_and_d_to_pris_matrix, [ax, ang]),
        euler_XYZ=(lambda x: rc.euler_angles_to_matrix(x, "XYZ"), [e]), euler_ZYZ=(lambda x: rc.euler_angles_to_matrix(x, "ZYZ"), [e]),
        to_euler_XYZ=(lambda x: rc.matrix_to_euler_angles(x, "XYZ"), [M]), wxyz_to_xyzw=(rc.wxyz_to_xyzw, [q]), xyzw_to_wxyz=(rc.xyzw_to_wxyz, [q]),
    )
    return L


def conv(case, cx):
    L = conversions()
    names = sorted(L)[case["k"]::4]
    for nm in names:
        f, args = L[nm]
        for s in ((40, 1, 2, 72), (1, 5, 0), (2, 1)) if case["be"] == "eager" or case["th"] else ((40, 1),):
            torch._dynamo.reset()
            c = torch.compile(f, fullgraph=True, backend=case["be"])
            for B in s:
                xs = [x[:B] for x in args]
                keep = [x.clone() for x in xs]
                cx.expect(close(f(*xs), c(*xs), 1e-12), "conv-differs:" + nm, lambda: "sizes %s" % (s,))
                cx.expect(all(torch.equal(a, b) for a, b in zip(xs, keep)), "conv-modifies:" + nm)
                x0 = xs[0]
                a, b = grad_of(lambda t: f(t, *xs[1:]), x0), grad_of(lambda t: c(t, *xs[1:]), x0)
                cx.expect(all((torch.nan_to_num(u, 1e9) - torch.nan_to_num(v, 1e9)).abs().max() < 1e-9 if u.numel() else u.shape == v.shape for u, v in zip(a, b)),
                          "conv-grad-differs:" + nm, lambda: "sizes %s" % (s,))
                cx.add(states=B, traces=1)
            # other shapes and number type through the same compiled function
            xs = [x[:6].reshape(2, 3, *x.shape[1:]) for x in args]
            if nm not in ("axis_and_angle_to_matrix_33", "axis_and_angle_to_matrix_44", "axis_and_d_to_pris_matrix"):
                cx.expect(close(f(*xs), c(*xs), 1e-12), "conv-shape-differs:" + nm)
            xs = [x[:4].to(F32) for x in args]
            cx.expect(close(f(*xs), c(*xs), 1e-6), "conv-dtype-differs:" + nm)
        cx.outcome(nm, case["be"])


@contextlib.contextmanager
def backend(be):
    real = torch.compile
    torch.compile = lambda f=None, **kw: real(f, **dict(kw, backend=be, fullgraph=True))
    try:
        yield
    finally:
        torch.compile = real


OPTS = [dict(), dict(position_weight=2., orientation_weight=.5, lr=.5), dict(lm_damping=0.), dict(line_search=pk.BacktrackingLineSearch()),
        dict(early_stopping_any_converged=True, clamp_to_limits=True), dict(enforce_joint_limits=False, early_stopping_no_improvement=None)]


IKC = dict(eager=[(1, 2, 4, 0, 3, 1)], aot_eager=[(1, 3), (3, 1)])


def ik(case, cx):
    for rb in case["robots"]:
        spec = spec_of(rb, lambda k: [(-1.8, 2.1), None, (-2., 2.5)][k % 3])
        n = len(ref.movable(spec))
        st = starts(n, 2)
        mats = list(targets(spec, st).values())
        for counts in IKC[case["be"]]:
            torch._dynamo.reset()
            kw = dict(max_iterations=4, **OPTS[case["oi"]])
            sc = serial(spec)
            with backend(case["be"]):
                c = solver(sc, st, F64, case["cls"], use_compile=True, **kw)
            e = solver(serial(spec), st, F64, case["cls"], **kw)
            for step, M in enumerate(counts):
                sel = [mats[(step * 3 + i) % len(mats)] for i in range(M)]
                a, b = c.solve(tf(sel, F64)), e.solve(tf(sel, F64))
                lab = "ik:%s:%s:%d" % (rb, case["cls"], case["oi"])
                judge(cx, lab, spec, a, sel, st, F64, 4, 1e-3, 1e-2, kw.get("enforce_joint_limits", True))
                cx.expect(R.maxerr(npa(a.solutions), npa(b.solutions)) < 1e-8 and torch.equal(a.converged, b.converged) and a.iterations == b.iterations, "compiled-ik:" + lab,
                          lambda: "counts %s step %d: %s %s" % (counts, step, a.solutions, b.solutions))
                cx.add(states=M * len(st), traces=M * len(st))
        cx.outcome(rb, case["cls"], case["oi"])


def follow(case, cx):
    """several robots of the same shape, compiled, converted, copied and queried in every order of a set of steps"""
    sA, sB = R.chain_spec([rv, pr, rv], 1), R.chain_spec([rv, pr, rv], 3)
    steps = ["A", "B", "A32", "copyA", "query", "A64"]
    perms = [p for p in itertools.permutations(steps, 4)][case["k"]::4]
    for perm in perms[::case["every"]]:
        torch._dynamo.reset()
        A, B = serial(sA), serial(sB)
        fA, fB = (torch.compile(x.jacobian_tensor, fullgraph=True, backend="eager") for x in (A, B))
        gA = torch.compile(A.forward_kinematics_tensor, fullgraph=True, backend="eager")
        names = list(A.get_joint_parameter_names())
        dt = low = F64  # low: the least precise type chain A has been through
        lab = "follow:" + ",".join(perm)

        def check(f, chain, spec, dt, what, B_=3, g=None):
            q, _ = qrows(spec, B_, salt=len(what))
            th = th_of(chain, rep(q, dt), B_, dt)
            J, P = f(th, True)
            tol = 10 * TOL[F64 if chain is B else low]
            Jw, _ = ref.jacobian(spec, rep(q, dt), B_, spec["nodes"][-1]["name"])
            cx.expect(J.dtype == dt and R.materr(npa(J), Jw) < tol, "%s:%s" % (what, lab), lambda: "%s\n%s" % (npa(J), Jw))
            if g is not None:
                T = npa(g(th))
                w = ref.fk(spec, rep(q, dt), B_)
                cx.expect(max(R.materr(T[int(chain.get_frame_indices(k))], w[k]) for k in w) < tol, "%s-fk:%s" % (what, lab))
        for s in perm:
            if s == "A":
                check(fA, A, sA, dt, "A", g=gA)
            elif s == "B":
                check(fB, B, sB, F64, "B")
            elif s in ("A32", "A64"):
                dt = F32 if s == "A32" else F64
                low = F32 if s == "A32" else low
                A.to(dtype=dt)
                check(fA, A, sA, dt, s, 2, g=gA)
            elif s == "copyA":
                C = copy.deepcopy(A)
                C = pickle.loads(pickle.dumps(C))
                check(torch.compile(C.jacobian_tensor, fullgraph=True, backend="eager"), C, sA, dt, "copy")
            else:
                cx.expect(A.get_joint_parameter_names() == names, "names:" + lab)
                q, _ = qrows(sA, 2)
                w = ref.fk(sA, rep(q, dt), 2)
                cx.expect(err_poses(serial_fk(A, th_of(A, rep(q, dt), 2, dt)), w) < 10 * TOL[low], "eager-after-compile:" + lab)
            cx.add(states=1, traces=1)
        check(fA, A, sA, dt, "endA", 1)
        check(fB, B, sB, F64, "endB", 4)
        cx.outcome(perm)


# robots with the same numbers of joints and frames and the same names
ALIKE = dict(a=([rv, pr, rv], 1), b=([rv, pr, rv], 3), c=([pr, rv, rv], 1), d=([rv, rv, rv], 2))


def alike(case, cx):
    """several compiled solvers and compiled functions at once, of robots which only differ in their geometry"""
    for order in case["orders"]:
        torch._dynamo.reset()
        made = []
        for i, r in enumerate(order):
            spec = R.chain_spec(*ALIKE[r])
            st = starts(3, 2)
            kw = dict(max_iterations=3, **OPTS[i])
            cls = list(CLS)[i % len(CLS)]
            mats = list(targets(spec, st).values())[:2]
            with backend("eager"):
                c = solver(serial(spec), st, F64, cls, use_compile=True, **kw)
            chain = serial(spec)
            made.append((spec, st, kw, mats, c, solver(serial(spec), st, F64, cls, **kw), chain,
                         torch.compile(chain.jacobian_tensor, fullgraph=True, backend="eager"),
                         torch.compile(chain.forward_kinematics_tensor, fullgraph=True, backend="eager")))
        for turn in range(2):
            for i, (spec, st, kw, mats, c, e, chain, fj, ff) in enumerate(made):
                lab = "alike:%s:%d" % ("".join(order), i)
                a, b = c.solve(tf(mats, F64)), e.solve(tf(mats, F64))
                judge(cx, lab, spec, a, mats, st, F64, 3, 1e-3, 1e-2, kw.get("enforce_joint_limits", True))
                cx.expect(R.maxerr(npa(a.solutions), npa(b.solutions)) < 1e-8 and torch.equal(a.converged, b.converged) and a.iterations == b.iterations,
                          "compiled-ik:" + lab, lambda: "turn %d: %s %s" % (turn, a.solutions, b.solutions))
                q, _ = qrows(spec, 2, salt=turn)
                th = th_of(chain, q, 2)
                cx.expect(R.materr(npa(fj(th)), ref.jacobian(spec, q, 2, spec["nodes"][-1]["name"])[0]) < 1e-9, "compiled-jac:" + lab)
                w, T = ref.fk(spec, q, 2), npa(ff(th))
                cx.expect(max(R.materr(T[int(chain.get_frame_indices(n))], w[n]) for n in w) < 1e-9, "compiled-fk:" + lab)
                cx.add(states=1 + len(mats) * len(st), traces=1)
        cx.outcome(order)


def run(case, cx):
    torch.set_num_threads(1)
    torch._dynamo.reset()
    torch._dynamo.config.recompile_limit = 64  # PyTorch's own limit on variants of one function is not in question here
    torch._dynamo.config.accumulated_recompile_limit = 1024
    globals()[case["kind"]](case, cx)
