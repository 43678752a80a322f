"""Explicit-state exploration of the solution record (IKSolution) against a reference automaton.

The reference keeps, per retry, the first candidate that met both tolerances or else the latest one, whether position /
rotation tolerances were ever met, and per problem whether it remains.  From the initial record every operation is
applied: an update with every combination, over all problems and retries, of error classes (both tolerances met,
position only, rotation only, neither, exactly at a tolerance, not a number), with every way of asking for the mask (none,
default, every explicit mask), and masking alone.  States that the reference cannot tell apart are merged and the search
runs to its fixpoint; additionally every sequence of operations up to a depth runs without merging.  After every
operation all fields of the real record are compared exactly, candidates handed in are overwritten afterwards (the record
must not share them) and must be unmodified, fields read earlier keep their values."""
import copy
import itertools

import torch

import pytorch_kinematics as pk
from pytorch_kinematics.ik import IKSolution
from mc.util import *

BOUNDS = dict(quick="fixpoints (problems x retries: error classes): 1x1: 9, 1x2: 5, 2x1: 4 and 4, 3x1: 2, 1x3: 3, 2x2: 2 of every kind; all sequences of 3 updates for 1x2 and 2x1",
              thorough="fixpoints also for 1x2 and 2x1: 6, 3x1: 4, 1x3: 4, 2x2: 4, 1x4: 3, 4x1: 2, 2x3 and 3x2: 2; all sequences of 4 updates")
PT, RT = .25, .5
# error classes: (position error, rotation error); powers of two so that every norm is exact
CLS = dict(B=(.125, .25), P=(.125, 2.), R=(1., .25), N=(4., 8.), p=(.25, .25), r=(.125, .5), X=(float("nan"), .25), Y=(.125, float("nan")),
           Z=(0., 0.))
MEET = {k: (v[0] < PT, v[1] < RT) for k, v in CLS.items()}


def cases(tier):
    def fix(P, Rn, al, coarse=False):
        return dict(name="fix:%dx%d:%s" % (P, Rn, al), kind="fix", P=P, R=Rn, al=al, coarse=coarse)

    out = [fix(1, 1, "BPRNprXYZ"), fix(1, 2, "BPRNp"), fix(2, 1, "BPRN"), fix(2, 1, "XYpr"), fix(3, 1, "BN"), fix(1, 3, "BRN"), fix(2, 2, "BN"), fix(2, 2, "BP"),
           fix(2, 2, "BR"), fix(2, 2, "PR", True)]
    if tier == "thorough":
        out += [fix(2, 2, "BPR", True), fix(1, 2, "BPRNpX"), fix(2, 1, "BPRNrY"), fix(3, 1, "BPN"), fix(2, 2, "PR"), fix(2, 2, "BPRN", True), fix(1, 4, "BPR", True), fix(4, 1, "BP", True),
                fix(2, 3, "BN", True), fix(3, 2, "BN", True), fix(3, 1, "BPRN", True), fix(1, 3, "BPRN", True)]
    d = 3 if tier == "quick" else 4
    for P, Rn in ((1, 2), (2, 1)):
        al = "BPRN"
        for first in itertools.product(al, repeat=P * Rn):
            out.append(dict(name="seq:%dx%d:%s" % (P, Rn, "".join(first)), kind="seq", P=P, R=Rn, al=al if d == 3 else "BPN", first="".join(first), depth=d))
    for dof in (1, 2, 6, 7):
        out.append(dict(name="shape:%d" % dof, kind="shape", dof=dof))
    return out


class Ref:
    def __init__(self, P, Rn):
        self.P, self.R = P, Rn
        self.q = [[None] * Rn for _ in range(P)]
        self.cls = [[None] * Rn for _ in range(P)]
        self.conv = [[False] * Rn for _ in range(P)]
        self.pos = [[False] * Rn for _ in range(P)]
        self.rot = [[False] * Rn for _ in range(P)]
        self.rem = [True] * P

    def update(self, cand, ids, use, mask):
        for i in range(self.P):
            now = False
            for j in range(self.R):
                p, r = MEET[cand[i * self.R + j]]
                if not self.conv[i][j]:
                    self.q[i][j] = ids[i * self.R + j]
                    self.cls[i][j] = cand[i * self.R + j]
                self.pos[i][j] |= p
                self.rot[i][j] |= r
                self.conv[i][j] |= p and r
                now |= p and r
            if use:
                self.rem[i] = self.rem[i] and (not now if mask is None else mask[i])

    def key(self, coarse):
        # which candidate is stored no longer matters once it is frozen; the latest one will be replaced
        if coarse:  # nor does its class
            return repr((self.conv, self.pos, self.rot, self.rem))
        return repr((self.conv, self.pos, self.rot, self.cls, self.rem))


def ops(P, Rn, al):
    masks = [m for m in itertools.product((True, False), repeat=P)]
    for cand in itertools.product(al, repeat=P * Rn):
        yield ("u", cand, False, None)
        yield ("u", cand, True, None)
    for cand in itertools.product(al[:2], repeat=P * Rn):
        for m in masks:
            yield ("u", cand, True, m)
        yield ("u", cand, False, masks[-1])
    for m in masks:
        yield ("m", m)


def vec(n, k, dt):
    """a vector of 3 with exactly norm n, along a different axis each time"""
    v = torch.zeros(3, dtype=dt)
    v[k % 3] = n if k % 2 else -n
    return v


class Pair:
    """the real record and the reference, kept in step"""

    def __init__(self, cx, P, Rn, dof=2, dt=F64, n=0):
        self.cx, self.P, self.R, self.dof, self.dt = cx, P, Rn, dof, dt
        self.s = IKSolution(dof, P, Rn, PT, RT, dtype=dt)
        self.r = Ref(P, Rn)
        self.n = n
        self.hist = []

    def fork(self):
        o = copy.copy(self)
        o.s, o.r, o.hist = copy.copy(self.s), copy.deepcopy(self.r), list(self.hist)
        for k, v in vars(o.s).items():
            if torch.is_tensor(v):
                setattr(o.s, k, v.clone())
        return o

    def row(self, k):
        return torch.arange(1, self.dof + 1, dtype=self.dt) / 8 + k

    def step(self, op, flat=True):
        self.hist.append(op)
        s = self.s
        before = [(x, x.clone()) for x in (s.solutions, s.err_pos, s.err_rot)]
        if op[0] == "m":
            m = torch.tensor(op[1])
            s.update_remaining_with_keep_mask(m)
            self.r.rem = [a and b for a, b in zip(self.r.rem, op[1])]
            args = [(m, torch.tensor(op[1]))]
        else:
            _, cand, use, mask = op
            N = self.P * self.R
            ids = [self.n * N + k + 1 for k in range(N)]
            q = torch.stack([self.row(k) for k in ids])
            e = torch.stack([torch.cat([vec(CLS[c][0], self.n + k, self.dt), vec(CLS[c][1], self.n + k + 1, self.dt)]) for k, c in enumerate(cand)])
            if not flat:
                q, e = q.reshape(self.P, self.R, self.dof), e.reshape(self.P, self.R, 6)
            m = None if mask is None else torch.tensor(mask)
            args = [(q, q.clone()), (e, e.clone())] + ([] if m is None else [(m, m.clone())])
            s.update(q, e, use_keep_mask=use, keep_mask=m)
            self.r.update(cand, ids, use, mask)
            self.n += 1
        for a, b in args:
            self.bad(bool(((a == b) | (a != a)).all()), "argument-modified")
            a.zero_() if a.dtype == torch.bool else a.fill_(77.)
        self.compare()
        # results read earlier are results of then; where the record replaces its tensors they must not change
        for x, v in before:
            if not any(x is y for y in (s.solutions, s.err_pos, s.err_rot)):
                self.bad(bool(((x == v) | (x != x)).all()), "earlier-result-changed")

    def bad(self, ok, sig, msg=""):
        if not ok:
            self.cx.fail(sig, "%s after %s" % (msg, self.hist))

    def compare(self):
        s, r, P, Rn = self.s, self.r, self.P, self.R
        self.cx.transitions += 1
        self.bad(s.solutions.shape == (P, Rn, self.dof) and s.err_pos.shape == (P, Rn) and s.err_rot.shape == (P, Rn), "shape", str(s.solutions.shape))
        self.bad(s.solutions.dtype == self.dt and s.err_pos.dtype == self.dt, "dtype")
        if r.q[0][0] is not None:
            want = torch.stack([torch.stack([self.row(k) for k in row]) for row in r.q])
            self.bad(torch.equal(s.solutions, want), "solutions", lambda_str(s.solutions, want))
            for name, got, z in (("err-pos", s.err_pos, 0), ("err-rot", s.err_rot, 1)):
                w = torch.tensor([[CLS[c][z] for c in row] for row in r.cls], dtype=self.dt)
                self.bad(bool(((got == w) | ((got != got) & (w != w))).all()), name, lambda_str(got, w))
        self.bad(s.converged.tolist() == r.conv, "converged", "%s want %s" % (s.converged.tolist(), r.conv))
        self.bad(s.converged_pos.tolist() == r.pos, "converged-pos", "%s want %s" % (s.converged_pos.tolist(), r.pos))
        self.bad(s.converged_rot.tolist() == r.rot, "converged-rot", "%s want %s" % (s.converged_rot.tolist(), r.rot))
        self.bad(s.converged_any.tolist() == [any(x) for x in r.conv], "converged-any", "%s want %s" % (s.converged_any.tolist(), r.conv))
        self.bad(s.converged_pos_any.tolist() == [any(x) for x in r.pos], "converged-pos-any", "%s want %s" % (s.converged_pos_any.tolist(), r.pos))
        self.bad(s.converged_rot_any.tolist() == [any(x) for x in r.rot], "converged-rot-any", "%s want %s" % (s.converged_rot_any.tolist(), r.rot))
        self.bad(s.remaining.tolist() == r.rem, "remaining", "%s want %s" % (s.remaining.tolist(), r.rem))


def lambda_str(a, b):
    return "%s want %s" % (a.tolist(), b.tolist()) if not torch.equal(a, b) else ""


def run(case, cx):
    torch.set_num_threads(1)
    if case["kind"] == "fix":
        P, Rn, al = case["P"], case["R"], case["al"]
        start = Pair(cx, P, Rn)
        start.compare()
        seen, level, depth = {start.r.key(case["coarse"])}, [start], 0
        all_ops = list(ops(P, Rn, al))
        while level and not cx.fails:
            depth += 1
            nxt = []
            for st in level:
                for op in all_ops:
                    o = st.fork()
                    o.step(op)
                    if cx.fails:
                        break
                    k = o.r.key(case["coarse"])
                    if k not in seen:
                        seen.add(k)
                        nxt.append(o)
                        cx.outcome(k)
            level = nxt
        cx.add(states=len(seen), traces=len(seen))
        cx.count("fixpoint_states", len(seen))
        cx.sample = dict(kind="fixpoint", problems=P, retries=Rn, classes=al, states=len(seen), depth=depth, operations=len(all_ops))
    elif case["kind"] == "seq":
        P, Rn, al = case["P"], case["R"], case["al"]

        def go(st, d):
            if d == 0 or cx.fails:
                return
            for cand in itertools.product(al, repeat=P * Rn):
                for use in (False, True):
                    o = st.fork()
                    o.step(("u", cand, use, None), flat=d % 2 == 0)
                    cx.states += 1
                    go(o, d - 1)
        for use in (False, True):
            st = Pair(cx, P, Rn)
            st.step(("u", tuple(case["first"]), use, None))
            go(st, case["depth"] - 1)
        cx.add(traces=cx.states)
    else:
        # every number of joints, problems and retries (also equal ones), number types, default type
        for P, Rn in itertools.product((1, 2, 3, 6, 7), (1, 2, 3, 6)):
            for dt in (F32, F64):
                st = Pair(cx, P, Rn, dof=case["dof"], dt=dt)
                cs = "BPRNZX"
                for t in range(6):
                    st.step(("u", tuple(cs[(5 * k + 7 * t + k * t) % 6] for k in range(P * Rn)), t % 2 == 1, None), flat=t % 3 != 0)
                st.step(("m", tuple(k % 2 == 0 for k in range(P))))
                cx.add(states=7, traces=1)
