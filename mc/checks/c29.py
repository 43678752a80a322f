"""Two real threads under a controlled scheduler: one of them runs at a time, and where it is interrupted is chosen by the
exploration, at every line (or every bytecode) of the package.  All schedules with one preemption are run for every pair of
queries, on objects made anew for each schedule and at bytecode granularity, and all schedules with two preemptions at line
granularity for the pairs that share most.  Each thread must get what it gets alone.  First loads of descriptions are
explored in processes that have not loaded anything (one forked for each schedule)."""
import contextlib
import fcntl
import itertools
import json
import os
import subprocess
import sys
import tempfile
import traceback

import numpy as np
import torch

import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
from mc import ref, robots as R, sched
from mc.util import *

BOUNDS = dict(quick="2 threads; pairs of 14 queries of a robot, 1 preemption at any line (any bytecode for 3 pairs), fresh objects; 3 pairs with 2 preemptions at any line; 16 functions with 2 preemptions; pairs of 9 uses of a transform with 2 preemptions (1 for the longest); first loads of 2 pairs of descriptions, 1 preemption at any line",
              thorough="all pairs of queries with 1 preemption at any bytecode; 2 preemptions at any line for all pairs of the shorter queries; functions with 2 preemptions at any bytecode; first loads of 9 pairs")
ASSUMPTIONS = ["threads are interrupted at bytecodes of the package only: what torch, lxml and mujoco do inside one call is taken as atomic"]
CHUNK = 1
rv, pr, fx = "revolute", "prismatic", "fixed"


def quietly(f):
    def g(*a):
        old = sys.stderr
        sys.stderr = open(os.devnull, "w")
        try:
            return f(*a)
        finally:
            sys.stderr.close()
            sys.stderr = old
    return g


# ---- what is asked -------------------------------------------------------------------------------------------------

def robot(small=False):
    spec = R.make([-1, 0, 1], [rv, pr], 2) if small else R.make([-1, 0, 1, 1], [rv, pr, rv], 2)
    for i, n in enumerate(spec["nodes"][1:]):
        n["limits"] = (-1. - i, .3 + i)
    return spec


def queries(spec):
    """name -> function of (chain, serial chain, salt) giving a nested structure of numbers, strings and tensors; both threads
    use the same objects, the salt makes what they ask differ"""
    end = spec["nodes"][-1]["name"]
    names = [n["name"] for n in spec["nodes"]]

    def th(c, s, B=2):
        q, _ = qrows(spec, B, s)
        return th_of(c, q, B)

    def sth(sc, s, B=2):
        n = len(sc.get_joint_parameter_names())
        return torch.tensor(np.cos(np.arange(B * n).reshape(B, n) + s), dtype=sc.dtype)

    def backward(c, sc, s):
        t = th(c, s).requires_grad_()
        m = c.forward_kinematics(t)[end].get_matrix()
        g, = torch.autograd.grad((m[:, :3] * torch.arange(1., 13., dtype=m.dtype).reshape(3, 4)).sum(), t)
        return g

    def solve(c, sc, s):
        o = pk.PseudoInverseIK(sc, retry_configs=sth(sc, s, 2), max_iterations=2, num_limit_refinement_iterations=1)
        r = o.solve(pk.Transform3d(matrix=sc.forward_kinematics(sth(sc, s + 5, 1)).get_matrix()))
        return [r.solutions, r.err_pos, r.err_rot, r.converged]
    return dict(
        all=lambda c, sc, s: c.forward_kinematics(th(c, s, 2 + s)),
        named=lambda c, sc, s: c.forward_kinematics({k: v for k, v in zip(c.get_joint_parameter_names(), th(c, s).T)}),
        some=lambda c, sc, s: c.forward_kinematics(th(c, s), frame_indices=c.get_frame_indices(names[1 + s], end)),
        tensor=lambda c, sc, s: c.forward_kinematics_tensor(th(c, s, 2 + s)),
        end=lambda c, sc, s: sc.forward_kinematics(sth(sc, s, 2 + s)),
        path=lambda c, sc, s: sc.forward_kinematics(sth(sc, s), end_only=False),
        jac=lambda c, sc, s: sc.jacobian(sth(sc, s, 2 + s)),
        tool=lambda c, sc, s: sc.jacobian(sth(sc, s), locations=torch.full((2, 3), .1 * (s + 1), dtype=sc.dtype)),
        pose=lambda c, sc, s: sc.jacobian(sth(sc, s), ret_eef_pose=True),
        backward=backward,
        solve=solve,
        limits=lambda c, sc, s: [c.get_joint_limits(), c.clamp(th(c, s) * 9), sc.clamp(sth(sc, s) * 9)],
        structure=lambda c, sc, s: [c.get_frame_names(), c.get_joint_parameter_names(), [j.name for j in c.get_joints()], [x.name for x in c.get_links()], c.print_tree(do_print=False),
                                    c.find_frame(names[s]).name, c.find_joint(spec["nodes"][1 + s]["jname"]).name, sc.get_joint_parameter_names()],
        extract=lambda c, sc, s: pk.SerialChain(c, names[1 + s]).get_frame_names(),
    )


def functions():
    d = F64
    a = ref.rot(ref.unit((1, 2, -3)), .8)
    mats = [torch.tensor(np.stack([a, np.eye(3), ref.rot(ref.unit((1, 0, 1)), np.pi)]), dtype=d), torch.tensor(np.stack([a.T, a @ a]), dtype=F32)]
    vecs = [torch.tensor([[.1, -.4, 2.], [0, 0, 0], [1e-6, 0, 0]], dtype=d), torch.tensor([[1., 2., -.3]], dtype=F32)]
    quats = [tf.matrix_to_quaternion(m) for m in mats]
    return dict(
        to_quaternion=lambda s: tf.matrix_to_quaternion(mats[s]), to_matrix=lambda s: tf.quaternion_to_matrix(quats[s]),
        to_axis_angle=lambda s: tf.quaternion_to_axis_angle(quats[s]), from_axis_angle=lambda s: tf.axis_angle_to_quaternion(vecs[s]),
        euler=lambda s: tf.euler_angles_to_matrix(vecs[s], ["XYZ", "ZXZ"][s]), angles=lambda s: tf.matrix_to_euler_angles(mats[s], ["XYZ", "ZXZ"][s]),
        six=lambda s: tf.rotation_6d_to_matrix(tf.matrix_to_rotation_6d(mats[s])), multiply=lambda s: tf.quaternion_multiply(quats[s], quats[s].flip(0)),
        apply=lambda s: tf.quaternion_apply(quats[s][:1], vecs[s]), log=lambda s: tf.so3_log_map(mats[s]), exp=lambda s: tf.so3_exp_map(vecs[s]),
        angle=lambda s: tf.so3_rotation_angle(mats[s]), turn=lambda s: tf.axis_and_angle_to_matrix_33(vecs[s][:, :3] / 2 + torch.tensor([0, 0, 1.], dtype=vecs[s].dtype), vecs[s][:, 0]),
        slerp=lambda s: pk.transforms.math.quaternion_slerp(quats[s], quats[s].flip(0), .3), distance=lambda s: pk.transforms.math.quaternion_angular_distance(quats[s], quats[s].flip(0)),
        acos=lambda s: tf.acos_linear_extrapolation(vecs[s]),
    )


def uses():
    """of one transform shared by both threads"""
    p = [torch.tensor([[1., 2., 3.], [0, 1., -1.]], dtype=F64), torch.tensor([[.5, -.25, 1.]], dtype=F64)]
    return dict(
        points=lambda t, s: t.transform_points(p[s]), normals=lambda t, s: t.transform_normals(p[s]), inverse=lambda t, s: t.inverse().get_matrix(),
        compose=lambda t, s: t.compose(t.inverse() if s else t).get_matrix(), steps=lambda t, s: t.translate(1. + s, 2., 3.).rotate_axis_angle(30. + s, "XYZ"[s]).get_matrix(),
        index=lambda t, s: t[s].get_matrix(), stack=lambda t, s: t.stack(t, t)[s:].get_matrix(), convert=lambda t, s: t.to("cpu", dtype=[F32, F64][s]).get_matrix(), clone=lambda t, s: t.clone().scale(2. + s).get_matrix())


# ---- what is explored ----------------------------------------------------------------------------------------------

PAIRS2 = [("tensor", "tensor"), ("jac", "jac"), ("limits", "limits")]
LOADS = [("urdf", "urdf"), ("sdf", "sdf")]
PARTS = 4


def cases(tier):
    out = []
    q = list(queries(robot()))
    for i, a in enumerate(q):
        for b in q[i:]:
            if tier == "quick" and "solve" in (a, b) and (a, b) not in (("jac", "solve"), ("solve", "solve")) or tier == "quick" and "extract" in (a, b) and (a, b) not in (("all", "extract"), ("extract", "extract")):
                continue
            w = 6 if "solve" in (a, b) or tier == "thorough" else 2
            out += [dict(name="one:%s:%s:%d" % (a, b, k), kind="one", a=a, b=b, part=[k, w], fine=a != "solve" and b != "solve" and tier == "thorough" or a == b and a in ("tensor", "jac", "limits")) for k in range(w)]
    pairs = PAIRS2 if tier == "quick" else [(a, b) for i, a in enumerate(q) for b in q[i:] if not {a, b} & {"solve", "extract", "backward", "structure"}]
    for a, b in pairs:
        out += [dict(name="two:%s:%s:%d" % (a, b, k), kind="two", a=a, b=b, part=[k, 6]) for k in range(6)]
    for f in functions():
        out.append(dict(name="function:%s" % f, kind="function", f=f, fine=tier == "thorough"))
    for i, a in enumerate(list(uses())):
        for b in list(uses())[i:]:
            out.append(dict(name="transform:%s:%s" % (a, b), kind="transform", a=a, b=b, cap=1500 if tier == "quick" else 60000))
    first = []
    for a, b in LOADS + ([] if tier == "quick" else [("urdf", "sdf"), ("urdf", "mjcf"), ("mjcf", "mjcf"), ("mjcf", "sdf"), ("serial", "serial"), ("serial", "sdf"), ("write", "write")]):
        for k in range(PARTS if tier == "quick" else 2 * PARTS):
            first.append(dict(name="load:%s:%s:%d" % (a, b, k), kind="load", a=a, b=b, part=k, parts=PARTS if tier == "quick" else 2 * PARTS, tier=tier))
    return first + sorted(out, key=lambda c: (c["kind"] != "two", "solve" not in c["name"]))


def run(case, cx):
    torch.set_num_threads(1)
    with one_processor():
        globals()[case["kind"]](case, cx)
    if cx.sample is None:
        cx.sample = dict(case)


@contextlib.contextmanager
def one_processor():
    """threads that only ever take turns hand over faster on one processor; each worker takes one that no other has"""
    before = os.sched_getaffinity(0)
    for cpu in sorted(before):
        h = open(os.path.join(tempfile.gettempdir(), "mc-processor-%d" % cpu), "w")
        try:
            fcntl.flock(h, fcntl.LOCK_EX | fcntl.LOCK_NB)
            os.sched_setaffinity(0, {cpu})
            break
        except OSError:
            h.close()
    try:
        yield
    finally:
        os.sched_setaffinity(0, before)
        h.close()


def plain(x):
    """numbers out of whatever a query returns"""
    if torch.is_tensor(x):
        return x.detach().clone()
    if isinstance(x, pk.Transform3d):
        return x.get_matrix().detach().clone()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def same(a, b):
    if torch.is_tensor(a) and torch.is_tensor(b):
        return a.shape == b.shape and a.dtype == b.dtype and (bool(torch.equal(a, b)) or bool(torch.allclose(a, b, rtol=1e-5 if a.dtype == F32 else 1e-12, atol=1e-5 if a.dtype == F32 else 1e-12, equal_nan=True)))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def plans(n, bound):
    """all schedules with up to so many preemptions of threads with n[0] and n[1] places, and none twice"""
    for x in (0, 1):
        y = 1 - x
        yield [(x, None), (y, None)]
        for i in range(1, n[x]):
            yield [(x, i), (y, None), (x, None)]
            if bound > 1:
                for j in range(1, n[y]):
                    yield [(x, i), (y, j), (x, None), (y, None)]


def explore(cx, sig, make, bound, fine, part=(0, 1)):
    """make() -> two functions on objects of their own making"""
    sched.lengths(make(), fine)
    n = [sched.lengths(make(), fine)[0][k] for k in (0, 1)]
    # what each gives alone, on fresh objects and after the other one
    alone = []
    for k in (0, 1):
        f = make()
        alone.append(plain(f[k]()))
    cnt = 0
    own, of = part
    for i, p in enumerate(plans(n, bound)):
        if i % of != own:
            continue
        r = sched.Run(make(), p, fine).go()
        cnt += 1
        cx.count("blocked" if r.free else "schedules")
        cx.count("preemptions", r.switches)
        for k in (0, 1):
            ok, v = r.out[k] if r.out[k] is not None else (False, RuntimeError("never came to an end"))
            if not cx.expect(ok, sig + ":raises", lambda: "thread %d with schedule %s: %s" % (k, p, "".join(traceback.format_exception_only(type(v), v))[:500] if v is not None else None)):
                return
            if not cx.expect(same(plain(v), alone[k]), sig + ":differs", lambda: "thread %d with schedule %s gets something else than alone" % (k, p)):
                return
    cx.add(states=cnt, transitions=sum(n) * cnt, traces=cnt)
    cx.outcome(sig, n[0], n[1])


def one(case, cx):
    spec = robot()
    q = queries(spec)
    end = spec["nodes"][-1]["name"]

    def make():
        c = R.build(spec, F64)
        sc = pk.SerialChain(c, end)
        return [lambda: q[case["a"]](c, sc, 0), lambda: q[case["b"]](c, sc, 1)]
    explore(cx, "one:%s:%s" % (case["a"], case["b"]), make, 1, case["fine"], case["part"])


def two(case, cx):
    spec = robot(True)
    q = queries(spec)
    c = R.build(spec, F64)
    sc = pk.SerialChain(c, spec["nodes"][-1]["name"])
    fs = [lambda: q[case["a"]](c, sc, 0), lambda: q[case["b"]](c, sc, 1)]
    explore(cx, "two:%s:%s" % (case["a"], case["b"]), lambda: fs, 2, False, case["part"])


def function(case, cx):
    f = functions()[case["f"]]
    explore(cx, "function:" + case["f"], lambda: [lambda: f(0), lambda: f(1)], 2, case["fine"])


def transform(case, cx):
    u = uses()
    M = torch.tensor(np.stack([ref.pose((1, 2, 3.), (.1, .2, .3)), ref.pose((0, -1, .5), (2., .2, -.3))]), dtype=F64)

    def make():
        t = pk.Transform3d(matrix=M.clone())
        return [lambda: u[case["a"]](t, 0), lambda: u[case["b"]](t, 1)]
    n = [sched.lengths([f])[0][0] for f in make()]
    explore(cx, "transform:%s:%s" % (case["a"], case["b"]), make, 2 if n[0] * n[1] <= case["cap"] else 1, False)


# ---- first loads: in processes that have not loaded anything ---------------------------------------------------------

def texts():
    out = {}
    for s in (0, 1):
        spec = R.make([-1, 0], [[rv, pr][s]], s, names=["base%d" % s, "tip%d" % s])
        for n in spec["nodes"]:
            n["loff"] = None
        spec["nodes"][1]["limits"] = (-1. - s, 2. + s)
        out["urdf", s] = R.to_urdf(spec).replace('</robot>', '<gazebo/></robot>')
        out["sdf", s] = R.to_sdf(spec)
        out["mjcf", s] = '<mujoco><worldbody><body name="b%d" pos="1 %d 2"><joint name="k%d" type="%s" axis="0 1 0"/><inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/><body name="t"/></body></worldbody></mujoco>'.replace(
            '<body name="t"/>', '<site name="t" pos="0 0 1"/>') % (s, s, s, ["hinge", "slide"][s])
    return out


def loader(kind, s, T):
    def ask(c):
        n = len(c.get_joint_parameter_names())
        return plain([c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False), list(map(list, c.get_joint_limits())), c.forward_kinematics(torch.full((1, n), .5))])
    if kind == "write":
        from pytorch_kinematics.urdf_parser_py.urdf import Robot

        def f():
            t = Robot.from_xml_string(T["urdf", s]).to_xml_string()
            return t if isinstance(t, str) else t.decode()
        return f
    if kind == "serial":
        return lambda: ask(pk.build_serial_chain_from_urdf(T["urdf", s], "tip%d" % s))
    return lambda: ask({"urdf": pk.build_chain_from_urdf, "sdf": pk.build_chain_from_sdf, "mjcf": pk.build_chain_from_mjcf}[kind](T[kind, s]))


def load(case, cx):
    """in a process of its own, which forks one for each schedule"""
    env = dict(os.environ, VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"), OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path[:0] = %r; from mc.checks import c29; c29.zygote(%r)" % (
        [os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.path.join(env["VERIF_REPO"], "src")], json.dumps(case))],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=2500)
    got = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{"')]
    if not got or "end" not in got[-1]:
        raise RuntimeError("exploring process failed: " + r.stderr[-2000:])
    for g in got[:-1]:
        cx.fail("load:%s:%s:%s" % (case["a"], case["b"], g["sig"]), g["msg"])
    e = got[-1]["end"]
    cx.add(states=e["schedules"], transitions=e["schedules"] * sum(e["n"]), traces=e["schedules"])
    cx.count("schedules", e["schedules"])
    cx.outcome(case["a"], case["b"], *e["n"])


@quietly
def zygote(text):
    case = json.loads(text)
    torch.set_num_threads(1)
    T = texts()
    T = {k: v for k, v in T.items()}

    def child(f):
        """what f returns, computed in a forked process"""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                b = json.dumps(f()).encode()
                while b:
                    b = b[os.write(wr, b):]
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as h:
            s = h.read()
        os.waitpid(pid, 0)
        return json.loads(s) if s else None

    def listed(v):
        return v.tolist() if torch.is_tensor(v) else {k: listed(x) for k, x in v.items()} if isinstance(v, dict) else [listed(x) for x in v] if isinstance(v, list) else v
    fs = [loader(case["a"], 0, T), loader(case["b"], 1, T)]
    alone = [child(lambda: listed(f())) for f in fs]
    n = [child(lambda: sched.lengths([f])[0]) for f in fs]
    n = [x[0] for x in n]
    assert all(a is not None for a in alone), "loading alone fails"

    def go(p):
        r = sched.Run(fs, p).go()
        bad = []
        for k in (0, 1):
            ok, v = r.out[k] if r.out[k] is not None else (False, None)
            if not ok:
                bad.append(("raises", "thread %d with schedule %s: %s" % (k, p, "".join(traceback.format_exception_only(type(v), v))[:500] if v is not None else "never came to an end")))
            elif listed(v) != alone[k]:
                bad.append(("differs", "thread %d with schedule %s loads something else than alone" % (k, p)))
        return bad
    cnt, seen = 0, set()
    for i, p in enumerate(plans(n, 1)):
        if i % case["parts"] != case["part"]:
            continue
        bad = child(lambda: go(p))
        cnt += 1
        for sig, msg in ([("died", "schedule %s ends the process" % p)] if bad is None else bad):
            if sig not in seen:
                seen.add(sig)
                print(json.dumps(dict(sig=sig, msg=msg)), flush=True)
    print(json.dumps(dict(end=dict(schedules=cnt, n=n))), flush=True)
