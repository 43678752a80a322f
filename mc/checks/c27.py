"""The iterations of inverse kinematics, one after the other, against an independent simulation of the documented method in
numpy: full product of kernels, weights, damping, regularization, learning rate, line search, clamping and number of
iterations, on every robot and kind of target (every attempt of every problem is compared with its own simulated path).
The error vector the steps are made of (delta_pose) is enumerated over all pairs of an alphabet of poses: moving by it
must reach the target, and it must be the shortest such turn.  The search for a step length is explored with every outcome
sequence its trials can have (a scripted robot decides which trials succeed)."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from pytorch_kinematics.ik import delta_pose, BacktrackingLineSearch
from mc import ref, robots as R
from mc.util import *
from mc.ikc import *

BOUNDS = dict(quick="2 kernels x 4 weights x 5 dampings x 3 learning rates x 3 line searches x 2 clampings x 4 iteration counts, 4 robots, 7 targets x 3 starts; 60 x 60 poses; all outcome sequences of 5 trials for 3 attempts",
              thorough="all 7 robots, 7 iteration counts, both number types; 108 x 108 poses")
WEIGHTS = [(1., 1.), (2., .5), (.1, 3.), (1., 0.)]
DAMP = [(1e-9, .1), (1e-3, 0.), (1e-2, 1.), (1e-6, .5), (.5, .0)]
LRS = [1., .3, 1.7]
LINES = [None, dict(), dict(max_lr=.7, decrease_factor=.3, max_iterations=3, sufficient_decrease=.05)]


def lims(k):
    return [(-.45, .3), None, (-.2, .25), (-.5, 5.), None, (-.33, .4)][k % 6]


def cases(tier):
    robots = ["rpr", "six", "slide", "one"] if tier == "quick" else list(ROBOTS)
    out = []
    for rb, cls in itertools.product(robots, CLS):
        for dt in (["f64"] if tier == "quick" else ["f64", "f32"]):
            for li in range(len(LINES)):
                out.append(dict(name="steps:%s:%s:%d:%s" % (rb, cls, li, dt), kind="steps", robot=rb, cls=cls, li=li, dt=dt, tier=tier))
        out.append(dict(name="refine:%s:%s" % (rb, cls), kind="refine", robot=rb, cls=cls, tier=tier))
    for d in ("f64", "f32"):
        out.append(dict(name="delta:" + d, kind="delta", dt=d, tier=tier))
    out.append(dict(name="search", kind="search"))
    return out


def run(case, cx):
    torch.set_num_threads(1)
    globals()[case["kind"]](case, cx)


# ---- the documented method, in numpy -------------------------------------------------------------------------------

def rotvec(M):
    """rotation vectors of rotation matrices, accurate for every angle but exactly a half turn"""
    M = np.asarray(M, float)
    v = np.stack([M[..., 2, 1] - M[..., 1, 2], M[..., 0, 2] - M[..., 2, 0], M[..., 1, 0] - M[..., 0, 1]], -1) / 2
    s = np.linalg.norm(v, axis=-1)
    c = (np.trace(M, axis1=-2, axis2=-1) - 1) / 2
    a = np.arctan2(s, c)
    k = np.where(s > 1e-9, a / np.where(s > 0, s, 1), 1.)
    out = v * k[..., None]
    # near a half turn the axis comes from the symmetric part, its sign from the antisymmetric one
    near = c < -.9
    if np.any(near):
        S = (M + np.swapaxes(M, -1, -2)) / 2
        B = (S - c[..., None, None] * np.eye(3)) / (1 - c)[..., None, None]
        i = np.argmax(np.diagonal(B, axis1=-2, axis2=-1), -1)
        ax = np.take_along_axis(B, i[..., None, None], -1)[..., 0]
        ax = ax / np.linalg.norm(ax, axis=-1, keepdims=True)
        ax = ax * np.where((ax * v).sum(-1, keepdims=True) < 0, -1., 1.)
        out = np.where(near[..., None], ax * a[..., None], out)
    return out


def error(P, T):
    """(..., 6) position difference, and the turn about base axes that takes the current orientation to the target's"""
    return np.concatenate([T[..., :3, 3] - P[..., :3, 3], rotvec(T[..., :3, :3] @ np.swapaxes(P[..., :3, :3], -1, -2))], -1)


class Sim:
    """a batch of attempts (A, dof) each with its own target (A, 4, 4)"""

    def __init__(self, spec, T, w, reg, lm):
        self.spec, self.T, self.reg, self.lm = spec, T, reg, lm
        self.w = np.array([w[0]] * 3 + [w[1]] * 3)
        self.mv = ref.movable(spec)
        self.lo, self.hi = limits_of(spec)

    def pose(self, q):
        return pose_of(self.spec, q)

    def err(self, q):
        return error(self.pose(q), self.T)

    def step(self, q):
        qd = {n["jname"]: q[:, i] for i, n in enumerate(self.mv)}
        J = ref.jacobian(self.spec, qd, len(q), len(self.spec["nodes"]) - 1)[0]
        e = self.err(q)
        Jw, ew = J * self.w[:, None], e * self.w
        mu = self.reg + self.lm * (ew ** 2).sum(-1)
        A = Jw @ np.swapaxes(Jw, -1, -2) + mu[:, None, None] * np.eye(6)
        return (np.swapaxes(Jw, -1, -2) @ np.linalg.solve(A, ew[..., None]))[..., 0]

    def search(self, q, dq, max_lr=1., decrease_factor=.5, max_iterations=5, sufficient_decrease=.01):
        """step lengths, and which attempts were decided too narrowly to be judged"""
        lr = np.full(len(q), max_lr)
        e0 = np.linalg.norm(self.err(q), axis=-1)
        narrow = np.zeros(len(q), bool)
        done = np.zeros(len(q), bool)
        for _ in range(max_iterations):
            gain = e0 - np.linalg.norm(self.err(q + lr[:, None] * dq), axis=-1)
            narrow |= ~done & (np.abs(gain - sufficient_decrease) < 1e-6)
            done |= gain > sufficient_decrease
            lr = np.where(done, lr, lr * decrease_factor)
        return lr, narrow

    def descend(self, q, n, lr, line, clamp, tp, tr):
        """configuration each attempt ends with after at most n steps, staying where it first solves its target; attempts
        whose path is decided by a rounding (a narrow decision, or a path that magnifies the smallest changes) are marked"""
        out, found, narrow = self._descend(q, n, lr, line, clamp, tp, tr)
        out2, found2, _ = self._descend(q + 1e-9 * np.cos(np.arange(q.size).reshape(q.shape)), n, lr, line, clamp, tp, tr, 1 + 1e-7 * (line is not None))
        return out, found, narrow | (found != found2) | (np.abs(out2 - out).max(-1) > 1e-6 * np.maximum(1, np.abs(out).max(-1)) + 3e-7 * n * (line is not None))

    def _descend(self, q, n, lr, line, clamp, tp, tr, grow=1.):
        found = np.zeros(len(q), bool)
        out = q.copy()
        narrow = np.zeros(len(q), bool)
        for k in range(n + 1):
            e = self.err(q)
            ep, er = np.linalg.norm(e[:, :3], axis=-1), np.linalg.norm(e[:, 3:], axis=-1)
            narrow |= ~found & ((np.abs(ep - tp) < 1e-6 * (1 + tp)) | (np.abs(er - tr) < 1e-6 * (1 + tr)))
            narrow |= ~found & (er > np.pi - 1e-7)
            out = np.where(found[:, None], out, q)
            found |= (ep < tp) & (er < tr)
            if k == n:
                break
            dq = self.step(q)
            a = np.full(len(q), lr)
            if line is not None:
                a, nr = self.search(q, dq, **line)
                narrow |= ~found & nr
            q = q + grow * a[:, None] * dq
            if clamp:
                q = np.clip(q, self.lo, self.hi)
        return out, found, narrow


# ---- steps ---------------------------------------------------------------------------------------------------------

def setting(name, F=F64):
    spec = spec_of(name, lims)
    n = len(ref.movable(spec))
    st = starts(n, 3)
    tg = {k: v for k, v in targets(spec, st).items() if k != "half"}
    mats = np.stack(list(tg.values()))
    T = np.repeat(mats, len(st), 0)
    q0 = np.tile(st, (len(mats), 1))
    if F == F32:
        T, q0 = npa(torch.tensor(T).to(F32)), npa(torch.tensor(q0).to(F32))
    return spec, st, list(tg), mats, T, q0


def compare(cx, lab, sol, want, found, narrow, tol, names, R_, what=''):
    q = npa(sol.solutions).reshape(want.shape)
    ok = np.abs(q - want).max(-1) <= tol * np.maximum(1, np.abs(want).max(-1))
    bad = ~ok & ~narrow
    i = int(bad.argmax())
    cx.expect(not bad.any(), lab, lambda: "%s: target %s start %d ends at %s instead of %s" % (what, names[i // R_], i % R_, q[i].tolist(), want[i].tolist()))
    f = npa(sol.converged).reshape(-1) > 0
    bad = (f != found) & ~narrow
    cx.expect(not bad.any(), lab + ":found", lambda: "attempts %s" % np.nonzero(bad)[0].tolist())
    cx.add(states=len(want), transitions=len(want))


def steps(case, cx):
    dt = DT[case["dt"]]
    spec, st, names, mats, T, q0 = setting(case["robot"], dt)
    sc = serial(spec, dt)
    its = (0, 1, 2, 4) if case["tier"] == "quick" else (0, 1, 2, 3, 4, 5, 7)
    line = LINES[case["li"]]
    for w, (reg, lm), lr, clamp, n in itertools.product(WEIGHTS, DAMP, LRS, (False, True), its):
        if line is not None and lr != 1.:
            continue  # the search has its own
        if dt == F32 and (lm == 0. and reg < 1e-2 or n > 2 or lm < .4 and reg < 1e-2):
            continue  # single precision does not determine these paths
        tp, tr = (1e-3, 1e-2)
        sim = Sim(spec, T, w, reg, lm)
        want, found, narrow = sim.descend(q0, n, lr, line, clamp, tp, tr)
        ik = solver(sc, st, dt, case["cls"], max_iterations=n, lr=lr, position_weight=w[0], orientation_weight=w[1], regularlization=reg, lm_damping=lm,
                    line_search=None if line is None else BacktrackingLineSearch(**line), clamp_to_limits=clamp, enforce_joint_limits=False,
                    early_stopping_no_improvement=None, pos_tolerance=tp, rot_tolerance=tr)
        sol = ik.solve(tf(mats, dt))
        lab = "steps:%s:%s" % (case["robot"], case["cls"])
        if line is not None:
            narrow |= dt == F32
        # fewer joints than the task has coordinates make the damped system as ill-conditioned as the damping is small
        tol = max(1e-6 if line is None else 2e-5, 1e-12 / max(reg, 1e-9)) if dt == F64 else 2e-2
        compare(cx, lab, sol, want, found, narrow, tol, names, len(st), (w, reg, lm, lr, clamp, n, line))
        cx.outcome(case["name"], n, tuple(found.tolist()), int(narrow.sum()))
        cx.add(traces=1)
    cx.sample = dict(targets=names, starts=st.tolist(), ends=want.tolist(), solved=found.tolist())


def refine(case, cx):
    """the documented treatment of limits: turn by whole turns, clamp, then clamped steps"""
    spec, st, names, mats, T, q0 = setting(case["robot"])
    sc = serial(spec)
    mv = ref.movable(spec)
    rev = np.array([n["jtype"] == "revolute" for n in mv])
    lo, hi = limits_of(spec)
    fin = np.isfinite(lo) & np.isfinite(hi)
    for shift, k, n, lr in itertools.product((0., 2 * np.pi, -4 * np.pi), (0, 1, 3), (0, 2), (1., .4)):
        st2 = st + shift * rev
        sim = Sim(spec, T, (1., 1.), 1e-6, .5)
        q, found, narrow = sim.descend(q0 + shift * rev, n, lr, None, False, 1e-3, 1e-2)
        c = np.where(fin, (lo + hi) / 2, 0.)
        turns = (c - q) / (2 * np.pi)
        narrow = narrow | ((np.abs(turns - np.floor(turns) - .5) < 1e-6) & fin & rev).any(-1)
        q = np.where(fin & rev, q + 2 * np.pi * np.round(turns), q)
        q = np.clip(q, lo, hi)
        for _ in range(k):
            q = np.clip(q + lr * sim.step(q), lo, hi)
        ik = solver(sc, st2, F64, case["cls"], max_iterations=n, lr=lr, regularlization=1e-6, lm_damping=.5, enforce_joint_limits=True,
                    num_limit_refinement_iterations=k, early_stopping_no_improvement=None)
        sol = ik.solve(tf(mats, F64))
        e = sim.err(q)
        ep, er = np.linalg.norm(e[:, :3], axis=-1), np.linalg.norm(e[:, 3:], axis=-1)
        narrow = narrow | (np.abs(ep - 1e-3) < 1e-6) | (np.abs(er - 1e-2) < 1e-6) | (er > np.pi - 1e-7)
        compare(cx, "refine:%s:%s" % (case["robot"], case["cls"]), sol, q, (ep < 1e-3) & (er < 1e-2), narrow, 1e-5, names, len(st))
        cx.outcome(case["name"], shift, k, n, tuple((ep < 1e-3).tolist()))
        cx.add(traces=1)


# ---- the error vector ----------------------------------------------------------------------------------------------

def delta(case, cx):
    dt = DT[case["dt"]]
    tol = 2e-7 if dt == F64 else 3e-3
    q = [np.array(x) for x in ref.octahedral_quats()[::1 if case["tier"] == "thorough" else 2]]
    q += [ref.axis_angle_quat(ax, a) for ax in ((1, 0, 0), (1, 2, -3), (-.2, .1, 1)) for a in (1e-7, 1e-3, .4, -1.9, 3., np.pi - 1e-4, -np.pi + 1e-3, 3.5, 6., 2 * np.pi - 1e-3)]
    q = np.stack(q)
    p = np.stack([np.cos(np.arange(len(q)) * 1.1), 3 * np.sin(np.arange(len(q)) * .7 + 1), np.arange(len(q)) % 5 - 2.], 1)
    P = np.tile(np.eye(4), (len(q), 1, 1))
    P[:, :3, :3], P[:, :3, 3] = ref.qmat(q), p
    cur = torch.tensor(P, dtype=dt)
    N = len(P)
    # every target against every current pose: N problems of N attempts
    m = cur[None].expand(N, N, 4, 4)
    tp = torch.tensor(p, dtype=dt)
    for sign in (1, -1):
        tq = torch.tensor(sign * q, dtype=dt)
        keep = (tp.clone(), tq.clone())
        dx, a, b = delta_pose(m, tp, tq)
        if not cx.expect(tuple(dx.shape) == (N * N, 6, 1) and tuple(a.shape) == (N * N, 3, 1) and tuple(b.shape) == (N * N, 3, 1) and dx.dtype == dt, "delta:shape",
                         lambda: "%s %s" % (tuple(dx.shape), dx.dtype)):
            return
        d = npa(dx).reshape(N, N, 6)
        cx.expect(np.array_equal(np.concatenate([npa(a), npa(b)], 1), npa(dx)), "delta:parts", "the parts are not those of the whole")
        cx.expect(np.abs(d[..., :3] - (npa(tp)[:, None] - npa(cur)[None, :, :3, 3])).max() < 1e-5, "delta:position", "position difference")
        ang = np.linalg.norm(d[..., 3:], axis=-1)
        cx.expect(bool((ang <= np.pi + tol).all()), "delta:shortest", "a turn of %g" % ang.max())
        w = d[..., 3:]
        k = np.where(ang > 0, ang, 1)[..., None]
        Q = np.concatenate([np.cos(ang / 2)[..., None], w / k * np.sin(ang / 2)[..., None]], -1)
        got = ref.qmat(Q) @ P[None, :, :3, :3]
        e = np.abs(got - P[:, None, :3, :3]).max((-1, -2))
        i = np.unravel_index(int(np.where(np.isfinite(e), e, np.inf).argmax()), e.shape)
        cx.expect(np.isfinite(e).all() and e.max() < tol, "delta:turn", lambda: "from %s to %s: turning by %s ends %g away" % (q[i[1]].tolist(), q[i[0]].tolist(), w[i].tolist(), e[i]))
        same = np.eye(N, dtype=bool)
        cx.expect(np.abs(d[same]).max() < (1e-7 if dt == F64 else 1e-3), "delta:zero", "at the target the error is %g" % np.abs(d[same]).max())
        # a buffer for the result
        buf = torch.full((N * N, 6, 1), float("nan"), dtype=dt)
        dx2, a2, b2 = delta_pose(m, tp, tq, out=buf)
        cx.expect(torch.equal(buf, dx) and torch.equal(dx2, dx) and torch.equal(a2, a) and torch.equal(b2, b), "delta:out", "with a buffer the result differs")
        cx.expect(torch.equal(tp, keep[0]) and torch.equal(tq, keep[1]), "delta:pure", "arguments were changed")
        # problem by problem, attempt by attempt
        for i in range(0, N, 7):
            for j in range(0, N, 5):
                x = delta_pose(m[i:i + 1, j:j + 1], tp[i:i + 1], tq[i:i + 1])[0]
                cx.expect(np.abs(npa(x)[0, :, 0] - d[i, j]).max() < tol or ang[i, j] > np.pi - 1e-3, "delta:alone", lambda: "pair %d %d" % (i, j))
        cx.add(states=N * N, traces=1)
    cx.outcome(case["dt"], N)


# ---- the line search -----------------------------------------------------------------------------------------------

class Scripted:
    """stands in for a robot: trial k of attempt a gives the pose its script says (nearer or not to the target)"""

    def __init__(self, script):
        self.script, self.k, self.asked = script, 0, []

    def fk(self, q):
        self.asked.append(npa(q))
        m = torch.eye(4, dtype=F64).repeat(len(q), 1, 1)
        for a in range(len(q)):
            m[a, 0, 3] = .5 if self.script[a][min(self.k, len(self.script[a]) - 1)] else 2.  # target at 0, initial error 1
        self.k += 1
        return m

    def forward_kinematics(self, q):
        return pk.Transform3d(matrix=self.fk(q))


def search(case, cx):
    """every sequence of outcomes of the trials, for up to 3 attempts split into problems in every way"""
    tgt_q = torch.tensor([[1., 0, 0, 0]], dtype=F64)
    for A, K in ((1, 5), (1, 1), (2, 3), (3, 2)):
        # outcome of an attempt: at which trial it succeeds first (K = never)
        for first in itertools.product(range(K + 1), repeat=A):
            script = [[False] * f + [True] * (K + 1 - f) for f in first]
            for N in [d for d in range(1, A + 1) if A % d == 0]:
                for mlr, dec in ((1., .5), (.8, .25)):
                    for via in ("chain", "tensor"):
                        s = Scripted(script)
                        q = torch.arange(A * 2, dtype=F64).reshape(A, 2)
                        dq = torch.ones(A, 2, dtype=F64) + q
                        dx = torch.zeros(A, 6, 1, dtype=F64)
                        dx[:, 0] = -1.
                        keep = (q.clone(), dq.clone(), dx.clone())
                        kw = dict() if via == "chain" else dict(fk_fn=lambda x: s.fk(x)[None], eef_frame_idx=0)
                        lr, imp = BacktrackingLineSearch(max_lr=mlr, decrease_factor=dec, max_iterations=K).do_line_search(
                            s, q, dq, torch.zeros(N, 3, dtype=F64), tgt_q.expand(N, 4), dx, **kw)
                        want = [mlr * dec ** f for f in first]
                        lab = "%d attempts in %d problems, successes at %s of %d (%s)" % (A, N, first, K, via)
                        cx.expect(np.allclose(npa(lr).reshape(-1), want, rtol=1e-6), "search:length", lambda: "%s: %s instead of %s" % (lab, lr.tolist(), want))
                        cx.expect(torch.equal(q, keep[0]) and torch.equal(dq, keep[1]) and torch.equal(dx, keep[2]), "search:pure", lab)
                        cx.expect(1 <= s.k <= K, "search:trials", lambda: "%s: %d trials" % (lab, s.k))
                        x = np.stack(s.asked) if s.asked else np.zeros((0, A, 2))
                        for k in range(len(x)):
                            l = np.array([mlr * dec ** min(k, f) for f in first])
                            cx.expect(np.allclose(x[k], npa(q) + l[:, None] * npa(dq), rtol=1e-6), "search:trial", lambda: "%s: trial %d at %s" % (lab, k, x[k].tolist()))
                        cx.add(states=1, transitions=s.k, traces=1)
                        cx.outcome(A, N, first)
