"""Every line of the package is a point at which a call can be cut short: by the user (KeyboardInterrupt), by want of memory
(MemoryError), by anything a line of the package runs into.  For every query of a robot, solve, conversion, use of a transform and
parse, each such point is taken in turn (and each pair of points of two calls made one after the other, for short ones), and then
everything that can be asked is asked of the same objects, and must give what it gives with objects of which no call was ever cut
short; a conversion that was cut short is completed by doing it again.  First loads are cut short in processes that have not
loaded anything (one forked for each point), which must then load that description and others.  Arguments that are refused are
enumerated as well: what refuses them must be as usable afterwards."""
import ast
import json
import locale
import logging
import os
import signal
import subprocess
import sys
import threading
import traceback
import warnings

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.checks import c29
from mc.checks.c29 import plain, same
from mc.sched import mine
from mc.util import *

BOUNDS = dict(quick="one fault at every line of 14 queries of a robot, 5 conversions, 4 solvers, 9 uses of a transform, 16 functions, 12 loads and 3 first loads, everything asked afterwards (kind of fault: interrupt, or error at every 3rd case); two faults, at all pairs of lines of 3 pairs of queries and of two conversions; refused arguments: every ordered pair of 26",
              thorough="both kinds of fault everywhere; two faults for all pairs of the shorter queries; every triple of refused arguments")
ASSUMPTIONS = ["calls are cut short between lines of the package: what torch, lxml and mujoco do inside one call is taken as atomic", "not between entering or leaving a with and its body, nor inside a finally: no program can be made proof against that"]
CHUNK = 1
rv, pr, fx = "revolute", "prismatic", "fixed"


class Stop(BaseException):
    """like KeyboardInterrupt, which is not an Exception"""


class Fault(MemoryError):
    """like running out of memory"""


KINDS = dict(stop=Stop, fault=Fault)


_exempt = {}


def exempt(frame):
    """places that nobody can write so that an interruption there does no harm: the entry and exit of `with` (the interpreter has
    not called __exit__ yet), of `try` with a `finally`, and what is done in a `finally`"""
    while frame is not None and mine(frame.f_code):
        f = frame.f_code.co_filename
        if f not in _exempt:
            lines = set()
            with open(f) as h:
                for x in ast.walk(ast.parse(h.read())):
                    if isinstance(x, (ast.With, ast.AsyncWith)):
                        lines |= set(range(x.lineno, x.body[0].lineno))
                    elif isinstance(x, ast.Try) and x.finalbody:
                        lines |= {x.lineno} | set(range(x.finalbody[0].lineno - 1, x.finalbody[-1].end_lineno + 1))
            _exempt[f] = lines
        if frame.f_lineno in _exempt[f] or frame.f_code.co_name in ("__enter__", "__exit__"):
            return True
        frame = frame.f_back
    return False


class Cut:
    """runs f and raises at the given line event of the package (None: counts them)"""

    def __init__(self, at=None, kind=Stop, lines=None):
        self.at, self.kind, self.n, self.where, self.lines = at, kind, 0, None, lines

    def local(self, frame, event, arg):
        if event == "line":
            if self.lines is not None:
                self.lines.append((frame.f_code, frame.f_lineno))
            if self.n == self.at and not exempt(frame):
                self.n += 1
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.kind("cut short")
            self.n += 1
        return self.local

    def glob(self, frame, event, arg):
        return self.local if mine(frame.f_code) else None

    def __call__(self, f):
        """-> ("cut" | "raised" | "done", value)"""
        sys.settrace(self.glob)
        try:
            v = f()
        except BaseException as e:  # noqa
            sys.settrace(None)
            if self.where is None and self.at is not None:  # nothing was done to it
                raise
            return ("cut" if isinstance(e, self.kind) else "raised"), e
        finally:
            sys.settrace(None)
        return "done", v


def length(f):
    f()
    c = Cut()
    c(f)
    return c.n


def points(f, every):
    """the line events that are cut at: all, or for each line of the package the first two and the last time it is come to"""
    f()
    lines = []
    Cut(lines=lines)(f)
    if every:
        return list(range(len(lines)))
    at = {}
    for i, x in enumerate(lines):
        at.setdefault(x, []).append(i)
    return sorted({i for v in at.values() for i in v[:2] + v[-1:]})


class Sink:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quietly(f):
    """without what it has to say; notes when it leaves the streams replaced"""
    def g(*a):
        mine = sys.stdout, sys.stderr
        sink = Sink()
        sys.stdout = sys.stderr = sink
        try:
            return f(*a)
        finally:
            if sys.stdout is not sink or sys.stderr is not sink:
                LEFT.append(f)
            sys.stdout, sys.stderr = mine
    return g


LEFT = []  # calls that left streams replaced


# ---- what must be as it was -----------------------------------------------------------------------------------------

def surroundings():
    """what a call has no business leaving changed"""
    return [os.getcwd(), dict(os.environ), torch.get_default_dtype(), str(torch.get_default_device()), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_anomaly_enabled(),
            list(sys.path), sys.getrecursionlimit(), np.geterr(), list(map(str, warnings.filters)), torch.get_num_threads(), len(LEFT), logging.root.manager.disable, locale.setlocale(locale.LC_ALL), signal.getsignal(signal.SIGINT), threading.active_count()]


# ---- the objects a call is made on ----------------------------------------------------------------------------------

class RobotWorld:
    def __init__(self, small=False):
        self.spec = c29.robot(small)
        self.q = c29.queries(self.spec)
        self.end = self.spec["nodes"][-1]["name"]
        self.fresh()

    def fresh(self):
        self.c = R.build(self.spec, F64)
        self.sc = pk.SerialChain(R.build(self.spec, F64), self.end)

    def calls(self):
        return {k: (lambda f=f: f(self.c, self.sc, 0)) for k, f in self.q.items()}

    def ask(self):
        return [[k, plain(f(self.c, self.sc, 1))] for k, f in self.q.items() if k not in ("solve", "extract")]


class ConvertWorld(RobotWorld):
    """calls change the robot; they are made again after they were cut short"""

    def calls(self):
        return dict(to32=lambda: [self.c.to(dtype=F32), self.sc.to(dtype=F32)], to64=lambda: [self.c.to(dtype=F64), self.sc.to(dtype=F64)],
                    to32cpu=lambda: [self.c.to(dtype=F32, device="cpu"), self.sc.to(dtype=F32, device=torch.device("cpu"))],
                    serial=lambda: self.sc.to(dtype=F32), cpu=lambda: [self.c.to(device="cpu"), self.sc.to(device="cpu")])


class SolverWorld:
    VARIANTS = dict(plain={}, limited=dict(joint_limits=True, clamp_to_limits=True, num_limit_refinement_iterations=2), searching=dict(line_search=True), stopping=dict(early_stopping_any_converged=True, early_stopping_no_improvement="any", early_stopping_no_improvement_patience=1), lm=dict(lm_damping=.1))

    def __init__(self, variant):
        self.variant = variant
        self.spec = c29.robot()
        self.end = self.spec["nodes"][-1]["name"]
        self.fresh()

    def fresh(self):
        v = dict(self.VARIANTS[self.variant])
        self.sc = pk.SerialChain(R.build(self.spec, F64), self.end)
        n = len(self.sc.get_joint_parameter_names())
        self.n = n
        if v.pop("line_search", False):
            v["line_search"] = pk.BacktrackingLineSearch(max_iterations=2)
        v.setdefault("num_limit_refinement_iterations", 1)
        if v.pop("joint_limits", False):
            v["joint_limits"] = torch.tensor(np.array(self.sc.get_joint_limits()).T, dtype=F64)
        self.ik = pk.PseudoInverseIK(self.sc, retry_configs=self.q(3, 2), max_iterations=2, lr=.5, **v)

    def q(self, s, B):
        return torch.tensor(np.cos(np.arange(B * self.n).reshape(B, self.n) + s) * .3, dtype=F64)

    def target(self, s, B=1):
        return pk.Transform3d(matrix=self.sc.forward_kinematics(self.q(s, B)).get_matrix())

    def solve(self, s, B):
        r = self.ik.solve(self.target(s, B))
        return [r.solutions, r.err_pos, r.err_rot, r.converged_any, r.converged, r.iterations]

    def calls(self):
        return dict(one=lambda: self.solve(5, 1), three=lambda: self.solve(6, 3))

    def ask(self):
        return plain([self.solve(7, 2), self.solve(5, 1), self.ik.initial_config, self.sc.forward_kinematics(self.q(0, 1)).get_matrix()])


class TransformWorld:
    def __init__(self):
        self.u = c29.uses()
        self.fresh()

    def fresh(self):
        M = torch.tensor(np.stack([ref.pose((1, 2, 3.), (.1, .2, .3)), ref.pose((0, -1, .5), (2., .2, -.3))]), dtype=F64)
        self.t = pk.Transform3d(matrix=M)
        self.r = pk.Rotate(M[:, :3, :3].clone())
        self.l = pk.Translate(M[:, :3, 3].clone())

    def calls(self):
        out = {k: (lambda f=f: [f(x, 0) for x in (self.t, self.r, self.l)]) for k, f in self.u.items()}
        out["deepcopy"] = lambda: __import__("copy").deepcopy(self.t).get_matrix()
        return out

    def ask(self):
        return [[k, plain([f(x, s) for x in (self.t, self.r, self.l) for s in (0, 1)])] for k, f in self.u.items()]


class FunctionWorld:
    def __init__(self):
        self.f = c29.functions()

    def fresh(self):
        pass

    def calls(self):
        return {k: (lambda f=f: f(0)) for k, f in self.f.items()}

    def ask(self):
        return [[k, plain([f(0), f(1)])] for k, f in self.f.items()]


class LoadWorld:
    """nothing but what the package itself keeps"""

    def __init__(self):
        T = c29.texts()
        self.T = T
        self.load = {k: c29.loader(k, 0, T) for k in ("urdf", "sdf", "mjcf", "serial", "write")}
        self.other = {k: c29.loader(k, 1, T) for k in ("urdf", "sdf", "mjcf", "serial", "write")}
        self.load["body"] = lambda: names(pk.build_chain_from_mjcf(T["mjcf", 0], body="b0"))
        self.load["mserial"] = lambda: names(pk.build_serial_chain_from_mjcf(T["mjcf", 0], "t"))
        self.load["sserial"] = lambda: names(pk.build_serial_chain_from_sdf(T["sdf", 0], "tip0"))

    def fresh(self):
        pass

    def calls(self):
        return {k: quietly(f) for k, f in self.load.items()}

    @quietly
    def ask(self):
        return [[k, [f(), plain(self.other[k]()) if k in self.other else None]] for k, f in self.load.items()]


def names(c):
    return [c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False)]


def world(name):
    k, _, a = name.partition(":")
    return dict(robot=lambda: RobotWorld(), small=lambda: RobotWorld(True), convert=lambda: ConvertWorld(), solver=lambda: SolverWorld(a), transform=TransformWorld, function=FunctionWorld, load=LoadWorld)[k]()


PAIRS = [("jac", "jac"), ("end", "limits"), ("tensor", "path")]
SHORT = ["all", "named", "some", "tensor", "end", "path", "jac", "tool", "pose", "limits", "structure"]
# which of the calls are judged by what everything gives afterwards, every so many points
FIRST = ["urdf", "sdf", "mjcf"]


def cases(tier):
    out, kinds = [], ["stop", "fault"]
    for w in ["robot", "convert"] + ["solver:" + v for v in SolverWorld.VARIANTS] + ["transform", "function", "load"]:
        calls = list(world(w).calls())
        for i, c in enumerate(calls):
            if tier == "quick" and w.startswith("solver") and c == "one":
                continue
            parts = 6 if c in ("solve", "extract") or w == "convert" or w == "load" else 4 if w.startswith("solver") else 1
            for k in kinds:
                if tier == "quick" and k == "fault" and (i % 3 or w == "load"):
                    continue
                out += [dict(name="one:%s:%s:%s:%d" % (w, c, k, p), kind="one", world=w, call=c, fault=k, part=[p, parts], every=tier == "thorough" or not (w == "load" or w.startswith("solver"))) for p in range(parts)]
    for a, b in PAIRS if tier == "quick" else [(a, b) for a in SHORT for b in SHORT]:
        out += [dict(name="two:%s:%s:%d" % (a, b, p), kind="two", a=a, b=b, part=[p, 4]) for p in range(4)]
    out += [dict(name="convert:%s:%d" % (k, p), kind="convert", last=k, part=[p, 8]) for p in range(8) for k in (["to32"] if tier == "quick" else ["to32", "to64"])]
    for f in FIRST:
        n = 8
        out += [dict(name="first:%s:%s:%d" % (f, k, p), kind="first", call=f, fault=k, part=[p, n]) for p in range(n) for k in (kinds if tier == "thorough" else kinds[:1])]
    for d in (2,) if tier == "quick" else (2, 3):
        for w in REFUSALS:
            m = 1 if d == 2 else 8
            out += [dict(name="refused:%s:%d:%d" % (w, d, p), kind="refused", world=w, depth=d, part=[p, m]) for p in range(m)]
    return sorted(out, key=lambda c: (c["kind"] != "first", "load" not in c["name"]))


def run(case, cx):
    torch.set_num_threads(1)
    globals()[case["kind"]](case, cx)
    if cx.sample is None:
        cx.sample = dict(case)


def judged(cx, w, want, before, sig, why, again=None):
    """asks everything; True if it is as it should be"""
    try:
        if again:
            again()
        got = w.ask()
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        cx.fail(sig + ":raises", "%s: what is asked afterwards raises %s" % (why, "".join(traceback.format_exception_only(type(e), e))[:400]))
        return False
    ok = cx.expect(same(got, want), sig + ":differs", lambda: "%s: afterwards %s" % (why, differing(got, want)))
    s = surroundings()
    return cx.expect(s == before, sig + ":surroundings", lambda: "%s: left changed: %s" % (why, [(a, b) for a, b in zip(before, s) if a != b])) and ok


def differing(a, b):
    for x, y in zip(a, b):
        if not same(x, y):
            return "%s is %s instead of %s" % (x[0] if isinstance(x, list) and x and isinstance(x[0], str) else "something", str(x)[:300], str(y)[:300])
    return "there is something else"


def one(case, cx):
    w = world(case["world"])
    call = w.calls()[case["call"]]
    changes = case["world"] == "convert"
    sig = "one:%s:%s" % (case["world"], case["call"])
    todo = points(call, case["every"])
    if not changes:
        w.fresh()
    want = w.ask()
    alone = None if changes else plain(call())
    before = surroundings()
    own, of = case["part"]
    cnt = 0
    for at in todo[own::of]:
        if changes:
            w.fresh()
        cut = Cut(at, KINDS[case["fault"]])
        how, v = cut(w.calls()[case["call"]])
        if cut.where is None:
            cx.count("exempt")
            continue
        cnt += 1
        cx.count(how)
        why = "%s cut short by %s at its line event %d (%s)" % (case["call"], case["fault"], at, cut.where)
        if how == "done" and case["fault"] == "stop":
            cx.fail(sig + ":swallowed", why + ": the interruption does not come out of the call")
        if not judged(cx, w, want, before, sig, why, w.calls()[case["call"]] if changes else None):
            return
        if not changes and not cx.expect(same(plain(call()), alone), sig + ":again", lambda: why + ": asked again, it gives something else"):
            return
    cx.add(states=cnt, transitions=2 * cnt, traces=cnt)
    cx.outcome(case["world"], case["call"], len(todo))


def two(case, cx):
    w = world("small")
    calls = w.calls()
    n = [length(calls[case[k]]) for k in "ab"]
    w.fresh()
    want = w.ask()
    before = surroundings()
    own, of = case["part"]
    alone = {k: plain(calls[k]()) for k in {case["a"], case["b"]}}
    cnt = 0
    sig = "two:%s:%s" % (case["a"], case["b"])
    for i in range(n[0]):
        if i % of != own:
            continue
        for j in range(n[1]):
            Cut(i)(calls[case["a"]])
            Cut(j)(calls[case["b"]])
            cnt += 1
            for k in alone:
                if not cx.expect(same(plain(calls[k]()), alone[k]), sig + ":differs", lambda: "%s cut short at %d, then %s at %d: then %s gives something else" % (case["a"], i, case["b"], j, k)):
                    return
        if not judged(cx, w, want, before, sig, "%s cut short at %d, then %s at every line" % (case["a"], i, case["b"])):
            return
    cx.add(states=cnt, transitions=4 * cnt, traces=cnt)
    cx.outcome(case["a"], case["b"], *n)


def convert(case, cx):
    """two conversions cut short one after the other, and then one that is not"""
    w = world("convert")
    calls = w.calls()
    todo = [points(calls[k], False) for k in ("to32", "to64")]
    own, of = case["part"]
    calls[case["last"]]()
    want, before, cnt = w.ask(), surroundings(), 0
    for i in todo[0][own::of]:
        for j in todo[1]:
            w.fresh()
            Cut(i)(w.calls()["to32"])
            Cut(j)(w.calls()["to64"])
            cnt += 1
            if not judged(cx, w, want, before, "convert:" + case["last"], "to32 cut short at %d, then to64 at %d" % (i, j), w.calls()[case["last"]]):
                return
    cx.add(states=cnt, transitions=3 * cnt, traces=cnt)
    cx.outcome("convert", case["last"], len(todo[0]), len(todo[1]))


# ---- refused arguments ----------------------------------------------------------------------------------------------

def refusals(w):
    """what a robot, solver or transform may be asked and has no answer to, or may: both are fine, as long as it is as usable then"""
    d = F64
    if isinstance(w, SolverWorld):
        big = w.n + 3
        return dict(
            notransform=lambda: w.ik.solve(None), matrix=lambda: w.ik.solve(torch.eye(4, dtype=d)), single=lambda: w.ik.solve(pk.Transform3d(dtype=F32)),
            none=lambda: w.ik.solve(pk.Transform3d(matrix=torch.zeros(0, 4, 4, dtype=d))), deep=lambda: w.ik.solve(pk.Transform3d(matrix=torch.eye(4, dtype=d).repeat(2, 2, 1, 1))),
            nan=lambda: w.ik.solve(pk.Transform3d(matrix=torch.full((1, 4, 4), float("nan"), dtype=d))), inf=lambda: w.ik.solve(pk.Transform3d(matrix=torch.full((1, 4, 4), float("inf"), dtype=d))),
            far=lambda: w.ik.solve(pk.Transform3d(pos=torch.tensor([1e9, 0, 0], dtype=d), dtype=d)),
            retry=lambda: pk.PseudoInverseIK(w.sc, retry_configs=torch.zeros(2, big, dtype=d)), retry1=lambda: pk.PseudoInverseIK(w.sc, retry_configs=torch.zeros(w.n, dtype=d)),
            nothing=lambda: pk.PseudoInverseIK(w.sc), limits=lambda: pk.PseudoInverseIK(w.sc, num_retries=3, joint_limits=torch.zeros(big, 2, dtype=d)),
            deltas=lambda: w.ik.sample_configs("many"))
    if isinstance(w, TransformWorld):
        t = w.t
        return dict(
            points1=lambda: t.transform_points(torch.zeros(3, 2, dtype=d)), points2=lambda: t.transform_points(torch.zeros(5, 4, 3, dtype=d)), points3=lambda: t.transform_points(None), points4=lambda: t.transform_points(torch.zeros(2, 3)),
            normals=lambda: t.transform_normals(torch.zeros(7, 7, 7, 7, dtype=d)), compose=lambda: t.compose(3), compose3=lambda: t.compose(pk.Transform3d(matrix=torch.eye(4, dtype=d).repeat(3, 1, 1))),
            stack=lambda: t.stack(None), get=lambda: t[7], get2=lambda: t["a"], get3=lambda: t[torch.tensor([True, False, True])], to=lambda: t.to("nowhere"), to2=lambda: t.to("cpu", dtype=3),
            rotate=lambda: t.rotate(torch.zeros(4, 4, dtype=d)), translate=lambda: t.translate(1., "x", 3.), translate2=lambda: t.translate(torch.zeros(5, 3, dtype=d)), scale=lambda: t.scale(torch.zeros(5, 5, dtype=d)),
            turn=lambda: t.rotate_axis_angle(30., "Q"), inverse=lambda: pk.Transform3d(matrix=torch.zeros(1, 4, 4, dtype=d)).inverse().get_matrix(), make=lambda: pk.Transform3d(matrix=torch.zeros(3, 3)),
            make2=lambda: pk.Transform3d(rot=torch.zeros(7)), make3=lambda: pk.Rotate(torch.full((3, 3), 5.)))
    if isinstance(w, LoadWorld):
        T = w.T
        bad = {}
        for kind, f in (("urdf", pk.build_chain_from_urdf), ("sdf", pk.build_chain_from_sdf), ("mjcf", pk.build_chain_from_mjcf)):
            t = T[kind, 0]
            for k, x in dict(empty="", cut=t[:len(t) // 2], other="<html><body/></html>", number=t.replace('axis="', 'axis="x ').replace("<xyz>", "<xyz>x ").replace('xyz="', 'xyz="x '), nothing=None,
                             kind=t.replace("revolute", "wheel").replace("hinge", "wheel"), twice=t.replace("tip0", "base0").replace('"k0"', '"t"')).items():
                bad["%s-%s" % (kind, k)] = quietly(lambda f=f, x=x: f(x))
        bad["urdf-end"] = quietly(lambda: pk.build_serial_chain_from_urdf(T["urdf", 0], "nowhere"))
        bad["urdf-root"] = quietly(lambda: pk.build_serial_chain_from_urdf(T["urdf", 0], "base0", "tip0"))
        bad["sdf-end"] = quietly(lambda: pk.build_serial_chain_from_sdf(T["sdf", 0], "nowhere"))
        bad["mjcf-end"] = quietly(lambda: pk.build_serial_chain_from_mjcf(T["mjcf", 0], "nowhere"))
        return bad
    c, sc = w.c, w.sc
    n, m = len(c.get_joint_parameter_names()), len(sc.get_joint_parameter_names())
    z = lambda *s, dtype=d: torch.zeros(s, dtype=dtype)  # noqa
    return dict(
        few=lambda: c.forward_kinematics(z(2, n - 1)), many=lambda: c.forward_kinematics(z(2, n + 2)), rank=lambda: c.forward_kinematics(z(2, 2, 2, n)), none=lambda: c.forward_kinematics(None), text=lambda: c.forward_kinematics("q"),
        missing=lambda: c.forward_kinematics({c.get_joint_parameter_names()[0]: 1.}), unknown=lambda: c.forward_kinematics({"nobody": 1.}), uneven=lambda: c.forward_kinematics({k: z(i + 1) for i, k in enumerate(c.get_joint_parameter_names())}),
        index=lambda: c.forward_kinematics(z(2, n), frame_indices=torch.tensor([99])), frames=lambda: c.get_frame_indices("nobody"), single=lambda: c.forward_kinematics(z(2, n, dtype=F32)), whole=lambda: c.forward_kinematics(z(2, n, dtype=torch.long)),
        tensor=lambda: c.forward_kinematics_tensor(z(2, n + 1)), nans=lambda: c.forward_kinematics(z(2, n) * float("nan")), infs=lambda: c.forward_kinematics(z(2, n) + float("inf")), empty=lambda: c.forward_kinematics(z(0, n)),
        sfew=lambda: sc.forward_kinematics(z(2, m + 5)), snone=lambda: sc.forward_kinematics(None), sindex=lambda: sc.forward_kinematics(z(2, m), end_only=False).get("nobody").get_matrix(), sjac=lambda: sc.jacobian(z(2, m + 5)), stool=lambda: sc.jacobian(z(2, m), locations=z(5, 3)), stool2=lambda: sc.jacobian(z(2, m), locations=3),
        frame=lambda: c.find_frame("nobody").name, extract=lambda: pk.SerialChain(c, "nobody"), root=lambda: pk.SerialChain(c, w.spec["nodes"][0]["name"], w.end), to=lambda: c.to(dtype="single"), clamp=lambda: c.clamp(z(2, n + 3)), device=lambda: c.to(device="nowhere"), both=lambda: c.to(dtype=F32, device="nowhere"), sto=lambda: sc.to(dtype="single"), sdevice=lambda: sc.to(dtype=F32, device="nowhere"), away=lambda: sc.to(device="cuda"))


REFUSALS = ["robot", "solver:plain", "transform", "load"]


def refused(case, cx):
    import itertools
    w = world(case["world"])
    want = w.ask()
    before = surroundings()
    names_ = list(refusals(w))
    broken, cnt = set(), 0
    own, of = case["part"]
    for i, ks in enumerate(itertools.product(names_, repeat=case["depth"])):
        if i % of != own or broken & set(ks):
            continue
        if case["depth"] > 2 and case["world"] == "load":
            continue
        for k in ks:
            try:
                refusals(w)[k]()
                cx.count("answered")
            except Exception:
                cx.count("refused")
        cnt += 1
        if not judged(cx, w, want, before, "refused:%s:%s" % (case["world"], "+".join(ks)), "after %s" % (ks,)):
            broken |= set(ks)
            w.fresh()
    cx.add(states=cnt, transitions=(case["depth"] + 1) * cnt, traces=cnt)
    cx.outcome(case["world"], case["depth"], cnt)


# ---- first loads ----------------------------------------------------------------------------------------------------

def first(case, cx):
    env = dict(os.environ, VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"), OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path[:0] = %r; from mc.checks import c30; c30.zygote(%r)" % (
        [os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.path.join(env["VERIF_REPO"], "src")], json.dumps(case))],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=2500)
    got = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{"')]
    if not got or "end" not in got[-1]:
        raise RuntimeError("exploring process failed: " + r.stderr[-2000:])
    for g in got[:-1]:
        cx.fail("first:%s:%s" % (case["call"], g["sig"]), g["msg"])
    e = got[-1]["end"]
    cx.add(states=e["points"], transitions=6 * e["points"], traces=e["points"])
    cx.count("points", e["points"])
    cx.outcome(case["call"], e["n"])


def listed(v):
    return v.tolist() if torch.is_tensor(v) else {k: listed(x) for k, x in v.items()} if isinstance(v, dict) else [listed(x) for x in v] if isinstance(v, list) else v


def zygote(text):
    case = json.loads(text)
    say = sys.stdout
    sys.stderr = Sink()
    torch.set_num_threads(1)
    T = c29.texts()

    def child(f):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                b = json.dumps(f()).encode()
                while b:
                    b = b[os.write(wr, b):]
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as h:
            s = h.read()
        os.waitpid(pid, 0)
        return json.loads(s) if s else None
    kinds = ["urdf", "sdf", "mjcf", "write"]
    every = [c29.loader(k, s, T) for s in (0, 1) for k in kinds]
    f = c29.loader(case["call"], 0, T)

    def ask():
        return [listed(g()) for g in every]
    want = child(ask)

    def count():
        c = Cut()
        c(f)
        return c.n
    n = child(count)
    assert want is not None and n, "loading alone fails"

    def go(at):
        cut = Cut(at, KINDS[case["fault"]])
        streams = sys.stdout, sys.stderr
        try:
            cut(f)
        except BaseException as e:  # noqa
            return ["other", "cut short at %d: %r" % (at, e)]
        if (sys.stdout, sys.stderr) != streams:
            return ["streams", "%s cut short at %d (%s) leaves the streams replaced" % (case["call"], at, cut.where)]
        try:
            got = ask()
        except BaseException as e:  # noqa
            return ["raises", "%s cut short at %d (%s); then loading raises %r" % (case["call"], at, cut.where, e)]
        if got != want:
            return ["differs", "%s cut short at %d (%s); then loading gives something else" % (case["call"], at, cut.where)]
        return []
    cnt, seen = 0, set()
    for at in range(n):
        if at % case["part"][1] != case["part"][0]:
            continue
        bad = child(lambda: go(at))
        cnt += 1
        bad = ["died", "cut short at %d ends the process" % at] if bad is None else bad
        if bad and bad[0] not in seen:
            seen.add(bad[0])
            print(json.dumps(dict(sig=bad[0], msg=bad[1])), flush=True, file=say)
    print(json.dumps(dict(end=dict(points=cnt, n=n))), flush=True, file=say)
