"""Every tree in the bound, every (root frame, end frame) pair: joints, frames, limits and poses of the extracted chain
against the reference's relative transform, extraction from extractions, and the source and all earlier extractions
re-judged after every extraction."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="trees n<=4 all types (2 variants), n=5 all types; all (root,end) pairs, all pairs of pairs re-extracted",
              thorough="trees n<=5 (3 variants), n=6 all types")
TYPES = {"r": "revolute", "p": "prismatic", "f": "fixed"}


def cases(tier):
    out = []
    for n, nv in ([(1, 1), (2, 4), (3, 4), (4, 2), (5, 1)] if tier == "quick" else [(1, 1), (2, 8), (3, 8), (4, 6), (5, 3), (6, 1)]):
        for p in R.parent_arrays(n):
            for v in range(nv):
                for t in itertools.product("rpf", repeat=max(0, n - 4)):
                    out.append(dict(name="%s-%d-%s" % (".".join(map(str, p)), v, "".join(t)), parents=list(p), variant=v, first="".join(t)))
    for nm, p in shapes():
        if len(p) > 40 and tier == "quick":
            continue
        out.append(dict(name="big-" + nm, parents=p, big=True))
    return out


def limits_for(spec):
    for i, n in enumerate(spec["nodes"]):
        if n["jtype"] != "fixed" and i % 3 != 1:
            n["limits"] = (-1. - .25 * i, .5 + .125 * i)
            n["vel"] = (-2. - i, 2. + i)
            n["eff"] = (-30. - i, 30. + i)
    return spec


def run(case, cx):
    if case.get("big"):
        for pat in ("rpf", "rrf"):
            spec = limits_for(big("b", case["parents"], pat, 2))
            some = len(case["parents"]) > 16
            judge(spec, cx, some=some, B=2)
    else:
        n = len(case["parents"])
        for ts in itertools.product("rpf", repeat=n - 1 - len(case["first"])):
            spec = limits_for(R.make(case["parents"], [TYPES[c] for c in case["first"] + "".join(ts)], case["variant"],
                                     root_loff=R.OFFS[0] if case["variant"] % 2 == 0 else None))
            judge(spec, cx)
    cx.sample = dict(robot=R.label(spec))


def inf(n, key):
    return n.get(key) or (-np.inf, np.inf)


def judge(spec, cx, some=False, B=4):
    for dtype in ((F64,) if some or len(spec["nodes"]) > 3 else (F64, F32)):
        lab = "%s %s" % (R.label(spec), dtype)
        tol = TOL[dtype] * (5 if some else 1)
        chain = R.build(spec, dtype)
        q, _ = qrows(spec, B)
        for k in q:
            q[k][0] = 0.
        q = rep(q, dtype)
        whole = ref.fk(spec, q, B)
        th = th_of(chain, q, B)
        tree = chain.print_tree(do_print=False)
        names0 = chain.get_joint_parameter_names()
        made = []
        frames = [n["name"] for n in spec["nodes"]]
        pairs = [(r, e) for r in frames for e in frames]
        if some:
            pairs = [(r, e) for i, r in enumerate(frames) for j, e in enumerate(frames) if (i * 7 + j * 3) % 11 == 0 or i == 0 and j % 4 == 0]
        for r, e in pairs:
            pth = ref.path(spec, e, r)
            if pth is None:
                cx.expect(raises(pk.SerialChain, chain, e, r), "not-below-accepted", "%s %s->%s" % (lab, r, e))
                cx.add(states=1)
                continue
            sc = pk.SerialChain(chain, e, r)
            one(sc, spec, pth, q, B, whole, cx, tol, dtype, "%s %s->%s" % (lab, r, e))
            made.append((sc, pth))
            if r == frames[0]:
                one(pk.SerialChain(chain, e), spec, pth, q, B, whole, cx, tol, dtype, "%s ->%s" % (lab, e))
            # an extraction of the extraction
            if len(frames) <= 3 or len(frames) == 4 and r == frames[0]:
                for a, b in itertools.combinations_with_replacement(range(len(pth)), 2):
                    p2 = pth[a:b + 1]
                    s2 = pk.SerialChain(sc, spec["nodes"][p2[-1]]["name"], spec["nodes"][p2[0]]["name"])
                    one(s2, spec, p2, q, B, whole, cx, tol, dtype, "%s %s->%s then %s" % (lab, r, e, p2))
        for bad in ("nope", frames[-1] + "x", frames[-1][:-1] + "#", "", names0[0] if names0 and names0[0] not in frames else "zz!"):
            if bad in frames:
                continue
            cx.expect(raises(pk.SerialChain, chain, bad), "unknown-end-accepted", "%s %r" % (lab, bad))
            if bad:
                cx.expect(raises(pk.SerialChain, chain, frames[-1], bad), "unknown-root-accepted", "%s %r" % (lab, bad))
        # nothing that was made earlier changed
        cx.expect(chain.print_tree(do_print=False) == tree and chain.get_joint_parameter_names() == names0, "source-structure-changed", lab)
        e = err_poses(fk_all(chain, th), whole)
        cx.expect(e <= tol, "source-changed", lambda: "%s err=%g" % (lab, e))
        for sc, pth in made[:6]:
            one(sc, spec, pth, q, B, whole, cx, tol, dtype, lab + " earlier", deep=False)
        # converting or querying an extraction leaves the source and the others alone
        if len(made) > 1 and not some:
            other = F32 if dtype == F64 else F64
            made[-1][0].to(dtype=other)
            e = err_poses(fk_all(chain, th), whole)
            cx.expect(e <= tol and chain.forward_kinematics_tensor(th).dtype == dtype, "source-changed-by-conversion", lambda: "%s err=%g" % (lab, e))
            for sc, pth in made[:-1][-3:]:
                one(sc, spec, pth, q, B, whole, cx, tol, dtype, lab + " sibling", deep=False)
            # and the other way round: the source is converted after extraction
            sc, pth = made[0]
            chain.to(dtype=other)
            one(sc, spec, pth, q, B, whole, cx, tol, dtype, lab + " source converted", deep=False)
        cx.add(traces=1)
        cx.outcome(lab)


def one(sc, spec, pth, q, B, whole, cx, tol, dtype, lab, deep=True):
    nodes = [spec["nodes"][i] for i in pth]
    mv = [n for n in nodes[1:] if n["jtype"] != "fixed"]
    names = [n["jname"] for n in mv]
    ok = sc.get_joint_parameter_names() == names
    cx.expect(ok, "joint-names", lambda: "%s: %s, wanted %s" % (lab, sc.get_joint_parameter_names(), names))
    cx.expect(sc.dtype == dtype, "dtype", lab)
    cx.expect(sc.n_joints == len(names), "n-joints", lab)
    if not ok:
        return
    # values of joints of the whole robot that are not on the path do not matter
    th = th_of(sc, q, B)
    R0 = ref.inv(whole[nodes[0]["name"]])
    want = {n["name"]: R0 @ whole[n["name"]] for n in nodes}
    got = sc.forward_kinematics(th)
    g = got.get_matrix()
    cx.expect(g.dtype == dtype, "result-dtype", lab)
    e = R.materr(npa(g), want[nodes[-1]["name"]])
    cx.expect(e <= tol * 3, "end-pose", lambda: "%s err=%g" % (lab, e))
    cx.add(states=B)
    if not deep:
        return
    e = err_poses(serial_fk(sc, th), want)
    cx.expect(e <= tol * 3, "all-poses", lambda: "%s err=%g" % (lab, e))
    for key, getter in (("limits", sc.get_joint_limits), ("vel", sc.get_joint_velocity_limits), ("eff", sc.get_joint_effort_limits)):
        lo, hi = getter()
        exp = [inf(n, key) for n in mv]
        cx.expect(list(map(float, lo)) == [a for a, _ in exp] and list(map(float, hi)) == [b for _, b in exp], "limits:" + key, "%s %s %s" % (lab, lo, hi))
    if names:
        lo, hi = [np.array(x) for x in zip(*[inf(n, "limits") for n in mv])]
        for x in (1e6, -1e6, 0.):
            w = npa(torch.tensor(np.clip(np.full(len(names), x), lo, hi), dtype=dtype))
            got = sc.clamp(torch.full((2, len(names)), x, dtype=dtype))
            cx.expect(R.maxerr(npa(got), np.broadcast_to(w, (2, len(names)))) <= (0 if dtype == F64 else 1e-6), "clamp", lambda: "%s %g: %s wanted %s" % (lab, x, got, w))
    cx.expect(sc.get_frame_names(exclude_fixed=False) == [n["name"] for n in nodes], "frames", "%s %s" % (lab, sc.get_frame_names(exclude_fixed=False)))
    if names:
        J, _ = ref.jacobian(spec, q, B, nodes[-1]["name"], root=nodes[0]["name"])
        e = R.materr(npa(sc.jacobian(th)), J)
        cx.expect(e <= tol * 5, "jacobian", lambda: "%s err=%g" % (lab, e))
    else:
        cx.expect(tuple(sc.jacobian(th).shape) == (B, 6, 0), "jacobian-empty", lab)
