"""Bounded exhaustive exploration of the real forward kinematics.

Every rooted ordered tree with at most n frames, every assignment of {revolute, prismatic, fixed}, several attribute
variants (names, axes, offsets), every configuration in the product of the value alphabets, both number types; every
single-joint attribute combination; every subset and order of requested frames; larger structures.  Each pose is
compared with the NumPy reference product along the frame's path."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="trees n<=4 (all joint types, 3 variants), n=5 (1 variant); 896 joint attribute combinations; 12 large shapes x 4 patterns; all pairs of 109 rotations / 41 shifts of many magnitudes",
              thorough="trees n<=5 (4 variants), n=6 (1 variant); 896 joint attribute combinations; 12 large shapes x 8 patterns; all pairs of 109 rotations / 41 shifts")


def cases(tier):
    out = []
    top = {"quick": [(1, 1), (2, 6), (3, 6), (4, 3), (5, 1)], "thorough": [(1, 1), (2, 12), (3, 12), (4, 8), (5, 4), (6, 1)]}[tier]
    for n, nv in top:
        for v in range(nv):
            for p in R.parent_arrays(n):
                # one case per tree shape and first joint type, to balance the pool
                if n >= 5:
                    for t0 in itertools.product("rpf", repeat=n - 4):
                        out.append(dict(kind="tree", parents=list(p), variant=v, first="".join(t0)))
                else:
                    out.append(dict(kind="tree", parents=list(p), variant=v, first=""))
    for t in ("revolute", "prismatic"):
        for a in range(len(R.AXES)):
            out.append(dict(kind="attr", jtype=t, axis=a))
    for nm, p in shapes():
        for pat in (["rpf", "r", "p", "rrfp"] if tier == "quick" else ["rpf", "r", "p", "rrfp", "f", "rf", "fp", "pr"]):
            out.append(dict(kind="big", shape=nm, parents=p, pattern=pat))
    for ts in itertools.product("rp", repeat=2):
        for v in range(4 if tier == "quick" else 12):
            out.append(dict(kind="fine", types="".join(ts), variant=v))
    out.append(dict(kind="names"))
    out.append(dict(kind="getter"))
    for c in out:
        c["name"] = "-".join(str(c[k]) if not isinstance(c[k], list) else ".".join(map(str, c[k])) for k in c)
    return out


TYPES = {"r": "revolute", "p": "prismatic", "f": "fixed"}


def run(case, cx):
    k = case["kind"]
    if k == "tree":
        n = len(case["parents"])
        for ts in itertools.product("rpf", repeat=n - 1 - len(case["first"])):
            ts = [TYPES[c] for c in case["first"] + "".join(ts)]
            judge(R.make(case["parents"], ts, case["variant"]), cx, case)
    elif k == "attr":
        for jo, lo, ro in itertools.product(range(len(R.OFFS)), range(len(R.LOFFS)), (None, R.OFFS[0])):
            spec = R.make([-1, 0, 1], [case["jtype"], "fixed"], axes=[R.AXES[case["axis"]], (0, 0, 1.)],
                          joffs=[R.OFFS[jo], R.OFFS[4]], loffs=[R.LOFFS[lo], None], root_loff=ro)
            judge(spec, cx, case, subsets=False)
    elif k == "big":
        for v in (0, 3):
            judge_big(big(case["shape"], case["parents"], case["pattern"], v), cx, case)
    elif k == "names":
        odd = [["j", "a", "b", "c"], ["x", "xx", "x_x", "xx_x"], ["c", "b", "a", "0"], ["0", "00", "1", "10"],
               ["link", "link_link", "link0_link", "Link"], ["a b", "a/b", "a.b", "a-b"], ["é", "ü", "日", "z"],
               ["None", "fixed", "revolute", "root"], ["world", "base_link", "tool0", "ee"]]
        for names, jn in itertools.product(odd, odd):
            for p in ([-1, 0, 1, 2], [-1, 0, 0, 1], [-1, 0, 0, 0]):
                judge(R.make(p, ["revolute", "prismatic", "revolute"], 1, names=names, jnames=jn), cx, case, subsets=False,
                      dts=("f64",))
    elif k == "getter":
        getter(cx, case)
    elif k == "fine":
        ts = [TYPES[c] for c in case["types"]]
        for p, tt in (([-1, 0, 1], ts), ([-1, 0, 0, 1], ts + ["revolute"]), ([-1, 0, 1, 2, 0], [ts[0], "fixed", ts[1], "prismatic"])):
            spec = R.make(p, tt, case["variant"])
            for d in ("f64", "f32"):
                q0, B = qfine(spec, DT[d])
                q = rep(q0, DT[d])
                want = ref.fk(spec, q, B)
                chain = R.build(spec, DT[d])
                th = th_of(chain, q, B)
                e = err_poses(fk_all(chain, th), want)
                cx.expect(e <= TOL[DT[d]], "fk-fine", lambda: "%s %s err=%g" % (R.label(spec), d, e))
                for b in range(0, B, 61):
                    e = err_poses(fk_all(chain, th[b]), {nm: m[b:b + 1] for nm, m in want.items()})
                    cx.expect(e <= TOL[DT[d]], "fk-fine-row", lambda: "%s %s err=%g %s" % (R.label(spec), d, e, th[b].tolist()))
                cx.add(states=B * len(want), traces=1)
            cx.outcome("fine", R.label(spec))
    cx.sample = dict(case={x: case[x] for x in case if x != "parents"}, parents=case.get("parents"))


def judge(spec, cx, case, subsets=True, dts=("f64", "f32")):
    lab = R.label(spec)
    for d in dts:
        dtype = DT[d]
        chain = R.build(spec, dtype)
        q, B = qgrid(spec)
        q = rep(q, dtype)
        want = ref.fk(spec, q, B)
        th = th_of(chain, q, B)
        e = err_poses(fk_all(chain, th), want)
        cx.expect(e <= TOL[dtype], "fk-grid", lambda: "%s %s err=%g" % (lab, d, e))
        cx.add(states=B * len(want), traces=1)
        cx.outcome(lab, [np.round(m[-1], 3).tolist() for m in want.values()])
        # tensor interface, rows one by one (zero configuration first), and again with other values in the same shape
        T = npa(chain.forward_kinematics_tensor(th))
        ids = {nm: int(chain.get_frame_indices(nm)[0]) for nm in want}
        cx.expect(sorted(ids.values()) == list(range(len(want))) and T.shape == (len(want), B, 4, 4), "fk-index", lab)
        cx.expect(max(R.materr(T[ids[nm]], want[nm]) for nm in want) <= TOL[dtype], "fk-tensor", lab)
        for b in sorted({0, B // 3, B // 2, B - 1}):
            one = sub(q, slice(b, b + 1))
            for form in (th[b], th[b:b + 1], th[b].tolist(), th[b:b + 1].clone().requires_grad_()):
                got = fk_all(chain, form)
                e = err_poses(got, {nm: m[b:b + 1] for nm, m in want.items()})
                cx.expect(e <= TOL[dtype], "fk-row", lambda: "%s %s row %d err=%g %s" % (lab, d, b, e, one))
            cx.add(states=4)
        if B > 2:
            perm = np.r_[np.arange(B // 2, B), np.arange(B // 2)]
            e = err_poses(fk_all(chain, th[perm]), {nm: m[perm] for nm, m in want.items()})
            cx.expect(e <= TOL[dtype], "fk-again", lambda: "%s %s err=%g" % (lab, d, e))
        if subsets:
            names = list(want)
            small = th[-2:]
            sets = []
            for r in range(1, len(names) + 1):
                if len(names) <= 3:
                    sets += list(itertools.permutations(names, r))
                elif len(names) == 4 or r == 1:
                    sets += [c[::s] for c in itertools.combinations(names, r) for s in (1, -1)]
                elif r in (2, len(names)):
                    sets += [c[::-1] for c in itertools.combinations(names, r)]
            if d == "f32":
                sets = sets[-3:]
            for s in sets:
                got = {kk: npa(v.get_matrix()) for kk, v in chain.forward_kinematics(small, chain.get_frame_indices(*s)).items()}
                e = err_poses(got, {nm: want[nm][-2:] for nm in s})
                cx.expect(e <= TOL[dtype], "fk-subset", lambda: "%s frames %s err=%g" % (lab, s, e))
                cx.add(states=1)
            # the indices in other containers, repeated, and none
            ix = [ids[nm] for nm in names[::-1]]
            for form in (ix, tuple(ix), np.array(ix), torch.tensor(ix, dtype=torch.int32), ix + ix[:1], torch.tensor(ix + ix), ix[:1], []):
                got = {kk: npa(v.get_matrix()) for kk, v in chain.forward_kinematics(small, form).items()}
                cx.expect(list(got) == names[::-1][:len(form)], "fk-subset-form", lambda: "%s %s answers %s" % (lab, form, list(got)))
                e = err_poses(got, {nm: want[nm][-2:] for nm in got}) if got else 0
                cx.expect(e <= TOL[dtype], "fk-subset-form", lambda: "%s frames %s err=%g" % (lab, form, e))


def judge_big(spec, cx, case):
    for d in ("f64", "f32"):
        dtype = DT[d]
        chain = R.build(spec, dtype)
        mv = [n["jname"] for n in ref.movable(spec)]
        for B, kind in ((1, "zero"), (1, "gen"), (3, "gen"), (len(mv) or 1, "unit")):
            if kind == "zero":
                q = {j: np.zeros(B) for j in mv}
            elif kind == "unit":
                q = {j: .9 * (np.arange(B) == i) for i, j in enumerate(mv)}
            else:
                q, _ = qrows(spec, B)
            q = rep(q, dtype)
            want = ref.fk(spec, q, B)
            th = th_of(chain, q, B)
            e = err_poses(fk_all(chain, th), want)
            cx.expect(e <= 3 * TOL[dtype], "fk-big", lambda: "%s %s %s err=%g" % (case["name"], d, kind, e))
            cx.add(states=B * len(want), traces=1)
            names = list(want)
            got = chain.forward_kinematics(th, chain.get_frame_indices(*names[::-2]))
            e = err_poses({a: npa(m.get_matrix()) for a, m in got.items()}, {a: want[a] for a in names[::-2]})
            cx.expect(e <= 3 * TOL[dtype], "fk-big-subset", lambda: "%s err=%g" % (case["name"], e))
        cx.outcome(case["name"], d)


def getter(cx, case):
    """a single frame's own transform: joint offset then motion"""
    for t, ax, jo, d in itertools.product(("revolute", "prismatic", "fixed"), R.AXES, R.OFFS, ("f64", "f32")):
        spec = R.make([-1, 0], [t], axes=[ax], joffs=[jo], loffs=[None])
        f = R.frames(spec, DT[d])[1]
        vals = np.array(REV + PRI)
        q = npa(torch.tensor(vals, dtype=DT[d]))
        n = spec["nodes"][1]
        got = npa(f.get_transform(torch.tensor(vals, dtype=DT[d])).get_matrix())
        want = ref.node_static(n) @ ref.motion(n, q)
        if got.shape[0] == 1 and t == "fixed":
            want = want[:1]
        e = R.materr(got, want)
        cx.expect(e <= TOL[DT[d]], "frame-transform", lambda: "%s %s %s err=%g" % (t, ax, jo, e))
        cx.add(states=len(vals), traces=1)
