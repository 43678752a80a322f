"""All assignments of limits from an alphabet to the joints of all small robots x all value positions relative to each
joint's bounds x all input forms; limits reported and clamped values compared with the description."""
import copy
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="robots with 1..3 movable joints (serial, branched, with fixed joints), 7 limit choices per joint, 8 value positions per joint, 8 forms; 12 larger shapes",
              thorough="up to 4 movable joints, 7 limit choices per joint")
LIM = [None, (-1., 2.), (.5, .75), (-3., -2.), (0., 0.), (-.1, np.inf), (-np.inf, .3)]
TYPES = {"r": "revolute", "p": "prismatic", "f": "fixed"}
ROBOTS = [([-1, 0], "r"), ([-1, 0], "p"), ([-1, 0, 1], "fr"), ([-1, 0, 1], "rp"), ([-1, 0, 0], "pr"), ([-1, 0, 1, 2], "rfr"), ([-1, 0, 0, 0], "rfp"),
          ([-1, 0, 1, 2], "rrp"), ([-1, 0, 1, 0], "rpr"), ([-1, 0, 1, 1, 0], "rfpr"), ([-1, 0, 0, 0], "prr")]
ROBOTS4 = [([-1, 0, 1, 2, 3], "rprr"), ([-1, 0, 0, 2, 2], "rrpr"), ([-1, 0, 1, 1, 1], "rrrr")]


def cases(tier):
    out = []
    for i, (p, t) in enumerate(ROBOTS + (ROBOTS4 if tier == "thorough" else [])):
        for d in ("f64", "f32"):
            for first in range(len(LIM)):
                out.append(dict(name="%d-%s-%d" % (i, d, first), parents=p, types=t, d=d, first=first))
    out.append(dict(name="joint", kind="joint"))
    for nm, p in shapes():
        for d in ("f64", "f32"):
            out.append(dict(name="big-%s-%s" % (nm, d), kind="big", parents=p, d=d))
    return out


def positions(l, wide):
    lo, hi = l if l is not None else (-np.inf, np.inf)
    vals = [0., -1e6, 1e6]
    for b in (lo, hi):
        if np.isfinite(b):
            vals += [b, b - .25, b + .25] + ([b - 1e-4, b + 1e-4] if wide else [])
    return sorted(set(vals))


def run(case, cx):
    if case.get("kind") == "joint":
        return joint(cx)
    dtype = DT[case["d"]]
    if case.get("kind") == "big":
        for pat in ("rpf", "r", "fpr"):
            spec = big("b", case["parents"], pat, 1)
            mv = ref.movable(spec)
            for k, n in enumerate(mv):
                n["limits"], n["vel"], n["eff"] = LIM[(3 * k + 1) % 7], (-1. - k, 1.5 + k), (-30. - k, 31. + k)
            judge(spec, mv, dtype, cx, True)
        return
    types = [TYPES[c] for c in case["types"]]
    for v in range(2):
        spec0 = R.make(case["parents"], types, v)
        mv0 = ref.movable(spec0)
        for rest in itertools.product(range(len(LIM)), repeat=len(mv0) - 1):
            spec = copy.deepcopy(spec0)
            mv = ref.movable(spec)
            ch = (case["first"],) + rest
            for k, n in enumerate(mv):
                n["limits"] = LIM[ch[k]]
                n["vel"] = LIM[(ch[k] + 1 + k) % len(LIM)]
                n["eff"] = LIM[(ch[k] + 3 + 2 * k) % len(LIM)]
            judge(spec, mv, dtype, cx)
    cx.sample = dict(robot=R.label(spec), limits=[n["limits"] for n in mv])


def judge(spec, mv, dtype, cx, large=False):
    lab = "%s %s %s" % (R.label(spec), [n["limits"] for n in mv], dtype)
    chain = R.build(spec, dtype)
    nodes = spec["nodes"]
    targets = [(chain, mv)]
    end = nodes[-1]["name"]
    pm = [nodes[i] for i in ref.path(spec, end) if nodes[i]["jtype"] != "fixed"]
    if pm:
        targets.append((pk.SerialChain(chain, end), pm))
    # every other extraction with a movable joint
    for r in range(len(nodes)) if not large else (0, len(nodes) // 2):
        for e in range(len(nodes)) if not large else range(0, len(nodes), 1 + len(nodes) // 8):
            pth = ref.path(spec, e, r)
            if pth is None or (r == 0 and e == len(nodes) - 1):
                continue
            m = [nodes[i] for i in pth[1:] if nodes[i]["jtype"] != "fixed"]
            if m:
                targets.append((pk.SerialChain(chain, nodes[e]["name"], nodes[r]["name"]), m))
    for k, (c, m) in enumerate(targets):
        limits(c, m, cx, lab)
        clamp(c, m, dtype, cx, lab, few=k > 1)
    other = F32 if dtype == F64 else F64
    chain.to(dtype=other)
    limits(chain, mv, cx, lab + " converted")
    clamp(chain, mv, other, cx, lab + " converted", lossy=True, few=True)
    if pm:
        limits(targets[1][0], pm, cx, lab + " serial after conversion of source")
        sc = pk.SerialChain(chain, end)
        limits(sc, pm, cx, lab + " serial of converted")
        clamp(sc, pm, other, cx, lab + " serial of converted", lossy=True, few=True)
    cx.add(traces=1)
    cx.outcome(lab)


def limits(c, mv, cx, lab):
    for key, get in (("limits", c.get_joint_limits), ("vel", c.get_joint_velocity_limits), ("eff", c.get_joint_effort_limits)):
        lo, hi = get()
        exp = [n.get(key) or (-np.inf, np.inf) for n in mv]
        ok = [float(x) for x in lo] == [a for a, _ in exp] and [float(x) for x in hi] == [b for _, b in exp]
        cx.expect(ok, "reported:" + key, lambda: "%s: %s %s wanted %s" % (lab, lo, hi, exp))


def clamp(c, mv, dtype, cx, lab, lossy=False, few=False):
    names = [n["jname"] for n in mv]
    lo = npa(torch.tensor([(n["limits"] or (-np.inf, np.inf))[0] for n in mv], dtype=F32 if lossy else dtype))
    hi = npa(torch.tensor([(n["limits"] or (-np.inf, np.inf))[1] for n in mv], dtype=F32 if lossy else dtype))
    if len(mv) <= 4:
        g = R.grid([positions(n["limits"], len(mv) == 1) for n in mv])
    else:
        g = np.array([[(lambda p: p[(i * (1 + k % 3) + k) % len(p)])(positions(n["limits"], False)) for k, n in enumerate(mv)] for i in range(12)])
    t = torch.tensor(g, dtype=dtype)
    g = npa(t)
    want = np.minimum(np.maximum(g, lo), hi)
    tol = 1e-6 if lossy else 0.
    keep = t.clone()
    got = c.clamp(t)
    cx.expect(got.dtype == dtype and R.maxerr(npa(got), want) <= tol, "clamp", lambda: "%s got %s wanted %s" % (lab, npa(got)[:4], want[:4]))
    cx.expect(torch.equal(t, keep), "clamp-modified-input", lab)
    got.fill_(123.)
    cx.expect(torch.equal(t, keep), "clamp-shares-input", lab)
    cx.expect(R.maxerr(npa(c.clamp(t)), want) <= tol, "clamp-again", lab)
    cx.add(states=len(g))
    if few:
        return
    inside = (g >= lo) & (g <= hi)
    cx.expect((npa(c.clamp(t))[inside] == g[inside]).all(), "clamp-changed-inside", lab)
    for b in sorted({0, len(g) // 3, 2 * len(g) // 3, len(g) - 1}):
        row, w = g[b], want[b]
        forms = [("list", row.tolist()), ("np", row.copy()), ("np2", row[None].copy()), ("tensor1", t[b]), ("tensor2", t[b:b + 1]),
                 ("dict", {k: float(x) for k, x in zip(names, row)}),
                 ("dict-reversed", dict(reversed([(k, float(x)) for k, x in zip(names, row)]))),
                 ("dict-tensors", {k: torch.tensor([x, x], dtype=dtype) for k, x in zip(names, row)}),
                 ("grad", t[b:b + 1].clone().requires_grad_())]
        for nm, x in forms:
            got = c.clamp(x)
            rows = 2 if nm == "dict-tensors" else 1
            exp = np.broadcast_to(w, (rows, len(w)))
            gg = npa(torch.atleast_2d(got))
            cx.expect(gg.shape == exp.shape and R.maxerr(gg, exp) <= tol, "clamp-form:" + nm, lambda: "%s got %s wanted %s" % (lab, got, w))
            cx.add(states=1)
    tt = torch.tensor(g.T.copy(), dtype=dtype).t()
    cx.expect(R.maxerr(npa(c.clamp(tt)), want) <= tol, "clamp-transposed", lab)
    e = c.clamp(t[:0])
    cx.expect(tuple(e.shape) == (0, len(names)), "clamp-empty", lab)


def joint(cx):
    for l in LIM:
        for d in ("f64", "f32"):
            j = pk.frame.Joint("j", joint_type="revolute", dtype=DT[d], limits=l)
            v = torch.tensor(positions(l, True), dtype=DT[d])
            keep = v.clone()
            lo, hi = [npa(torch.tensor(x, dtype=DT[d])) for x in (l or (-np.inf, np.inf))]
            got = j.clamp(v)
            cx.expect(R.maxerr(npa(got), np.minimum(np.maximum(npa(v), lo), hi)) == 0, "joint-clamp", "%s %s" % (l, got))
            cx.expect(torch.equal(v, keep), "joint-clamp-modified", "%s" % (l,))
            cx.add(states=len(v), traces=1)
            cx.outcome(l, d)
