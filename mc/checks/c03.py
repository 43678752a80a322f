"""Every input form x every permutation of a name mapping x every wrong length and every missing or unknown name, on
chains and serial chains, judged against the reference with values bound by name."""
import itertools

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="8 robots with 1..4 joints, all permutations of mappings (<=24), 17 forms, all lengths 0..n+3, all subsets of missing names",
              thorough="the same with 5 joints (120 permutations) and number types of values mixed")


def robots(tier):
    rv, pr, fx = "revolute", "prismatic", "fixed"
    c = R.chain_spec
    d = dict(r=c([rv]), p=c([pr], 1), rp=c([rv, fx, pr], 2), rrp=c([rv, rv, pr], 3), pfrr=c([pr, fx, rv, rv], 5),
             rrrr=c([rv] * 4, 4), tree=R.make([-1, 0, 0, 2, 0], [rv, rv, pr, rv], 1),
             tree2=R.make([-1, 0, 1, 1, 1], [fx, pr, rv, rv], 6))
    # joint names in an order that differs from the sorted one, and prefixes of each other
    if tier == "thorough":
        d["five"] = c([rv, pr, rv, rv, pr], 2)
        d["tree5"] = R.make([-1, 0, 1, 0, 3, 3], [rv, rv, rv, pr, rv], 3)
    return d


def cases(tier):
    return [dict(name="%s-%s" % (nm, d), robot=nm, d=d, tier=tier) for nm in robots(tier) for d in ("f64", "f32")]


def run(case, cx):
    spec = robots(case["tier"])[case["robot"]]
    dtype = DT[case["d"]]
    tol = TOL[dtype]
    chain = R.build(spec, dtype)
    cnames = [n["jname"] for n in ref.movable(spec)]
    cx.expect(chain.get_joint_parameter_names() == cnames, "names", "%s vs %s" % (chain.get_joint_parameter_names(), cnames))
    targets = []
    q3, _ = qrows(spec, 3)
    q3 = rep(q3, dtype)

    def chain_eval(x):
        return {k: npa(v.get_matrix()) for k, v in chain.forward_kinematics(x).items()}

    targets.append(("chain", cnames, chain_eval, lambda q, B: ref.fk(spec, q, B)))
    for n in spec["nodes"][1:]:
        end = n["name"]
        pth = ref.path(spec, end)
        jn = [spec["nodes"][i]["jname"] for i in pth if spec["nodes"][i]["jtype"] != "fixed"]
        if not jn:
            continue
        if spec["nodes"][-1] is not n and len(jn) < 2:
            continue
        sc = pk.SerialChain(chain, end)
        cx.expect(sc.get_joint_parameter_names() == jn, "serial-names", "%s" % sc.get_joint_parameter_names())
        targets.append(("serial:" + end, jn, lambda x, sc=sc, end=end: {end: npa(sc.forward_kinematics(x).get_matrix())},
                        lambda q, B, end=end: {end: ref.fk(spec, q, B)[end]}))
        targets.append(("serial-all:" + end, jn, lambda x, sc=sc: {k: npa(v.get_matrix()) for k, v in sc.forward_kinematics(x, end_only=False).items()},
                        lambda q, B, pth=pth: {spec["nodes"][i]["name"]: ref.fk(spec, q, B)[spec["nodes"][i]["name"]] for i in pth}))
        targets.append(("jac:" + end, jn, lambda x, sc=sc: {"J": npa(sc.jacobian(x))},
                        lambda q, B, end=end: {"J": ref.jacobian(spec, q, B, end)[0]}))
        targets.append(("jac-tool:" + end, jn, lambda x, sc=sc: dict(zip("JT", map(npa, sc.jacobian(x, locations=torch.tensor([[.1, -.2, .3]], dtype=dtype), ret_eef_pose=True)))),
                        lambda q, B, end=end: dict(zip("JT", ref.jacobian(spec, q, B, end, tool=np.broadcast_to(ref.T(t=npa(torch.tensor([.1, -.2, .3], dtype=dtype))), (B, 4, 4)))))))
    for lab, names, ev, want in targets:
        one = {k: v[1:2] for k, v in q3.items()}
        w1, w3 = want(one, 1), want(q3, 3)
        for fl, x, w in forms(names, one, q3, dtype, w1, w3, case):
            try:
                e = err_poses(ev(x), w)
            except Exception as ex:  # noqa
                cx.fail("form:%s" % fl, "%s %s: %s: %s" % (case["name"], lab, type(ex).__name__, ex))
                continue
            cx.expect(e <= tol, "form:%s" % fl, lambda: "%s %s names=%s err=%g" % (case["name"], lab, names, e))
            cx.add(states=1)
            cx.outcome(lab, fl)
        for fl, x in malformed(names, q3, dtype, spec):
            ok = raises(ev, x)
            cx.expect(ok, "accepted:%s" % fl, lambda: "%s %s answered a malformed configuration" % (case["name"], lab))
            cx.add(states=1)
        if lab == "chain":
            for fl, x in malformed(names, q3, dtype, spec):
                if torch.is_tensor(x) and x.dim() > 0:
                    ok = raises(chain.forward_kinematics_tensor, torch.atleast_2d(x))
                    cx.expect(ok, "accepted-tensor:%s" % fl, case["name"])
                    ok = raises(chain.forward_kinematics_tensor, torch.atleast_2d(x), analytical_grad=False)
                    cx.expect(ok, "accepted-tensor:%s" % fl, case["name"])
                if isinstance(x, dict):
                    cx.expect(raises(chain.clamp, x), "accepted-clamp:%s" % fl, case["name"])
            # clamp has no limits here: it returns the configuration, bound by name
            for fl, x, w in forms(names, one, q3, dtype, 1, 3, case):
                got = npa(torch.atleast_2d(chain.clamp(x)))
                exp = np.stack([(one if w == 1 else q3)[k] for k in names], 1)
                cx.expect(R.maxerr(got, exp) <= 1e-12 if got.shape == exp.shape else False, "clamp-form:%s" % fl, "%s" % got)
        cx.add(traces=1)
    cx.sample = dict(robot=R.label(spec), joints=cnames)


def forms(names, one, q3, dtype, w1, w3, case):
    n = len(names)
    row = [float(one[k][0]) for k in names]
    mat = np.stack([q3[k] for k in names], 1)
    npd = np.float64 if dtype == F64 else np.float32
    yield "list", list(row), w1
    yield "np1d", np.array(row), w1
    yield "np1d32", np.array(row, dtype=npd), w1
    yield "np2d", np.array([row]), w1
    yield "tensor1d", torch.tensor(row, dtype=dtype), w1
    yield "tensor2d", torch.tensor([row], dtype=dtype), w1
    yield "np-batch", mat.copy(), w3
    yield "np-batch-fortran", np.asfortranarray(mat), w3
    yield "np-batch-strided", np.repeat(mat, 2, axis=0)[::2], w3
    yield "tensor-batch", torch.tensor(mat, dtype=dtype), w3
    yield "tensor-batch-strided", torch.tensor(mat.T.copy(), dtype=dtype).t(), w3
    perms = list(itertools.permutations(names))
    for p in perms:
        yield "dict-floats", {k: float(one[k][0]) for k in p}, w1
        yield "dict-tensors-batch", {k: torch.tensor(q3[k], dtype=dtype) for k in p}, w3
    for p in (perms[0], perms[-1], perms[len(perms) // 2]):
        yield "dict-np-batch", {k: q3[k].copy() for k in p}, w3
        yield "dict-np1", {k: one[k].copy() for k in p}, w1
        yield "dict-tensor0", {k: torch.tensor(float(one[k][0]), dtype=dtype) for k in p}, w1
        yield "dict-tensor1", {k: torch.tensor(one[k], dtype=dtype) for k in p}, w1
        yield "dict-npfloat", {k: npd(one[k][0]) for k in p}, w1
        other = F32 if dtype == F32 else F64
        yield "dict-mixed", {k: (torch.tensor(q3[k], dtype=other) if i % 2 else q3[k].copy()) for i, k in enumerate(p)}, w3
        if case["tier"] == "thorough":
            yield "dict-mixed2", {k: (float(one[k][0]) if i % 2 else torch.tensor(float(one[k][0]), dtype=dtype)) for i, k in enumerate(p)}, w1


def malformed(names, q3, dtype, spec):
    n = len(names)
    for m in list(range(0, n)) + [n + 1, n + 2, n + 3]:
        vals = [.1 * (i + 1) for i in range(m)]
        yield "list-%s" % ("short" if m < n else "long"), list(vals)
        yield "np-%s" % ("short" if m < n else "long"), np.array(vals)
        yield "tensor-%s" % ("short" if m < n else "long"), torch.tensor(vals, dtype=dtype)
        yield "tensor2d-%s" % ("short" if m < n else "long"), torch.tensor([vals] * 3, dtype=dtype).reshape(3, m)
        yield "np2d-%s" % ("short" if m < n else "long"), np.array([vals] * 3).reshape(3, m)
    for r in range(1, n + 1):
        for drop in itertools.combinations(names, r):
            left = [k for k in names if k not in drop]
            yield "dict-missing", {k: .3 for k in left}
            if left:
                yield "dict-missing-batch", {k: torch.tensor(q3[k], dtype=dtype) for k in left}
            # same number of values, but an unknown name in place of the missing one
            x = {k: .3 for k in left}
            for i, k in enumerate(drop):
                x["not_" + k] = .3
            yield "dict-renamed", x
    x = {k: .3 for k in names}
    for bad in ("nope", names[0] + "x", names[0][:-1] + "?", names[0].upper() if names[0].upper() not in names else "n0pe", "",
                spec["nodes"][0]["name"] if spec["nodes"][0]["name"] not in names else "n0pe2"):
        if bad in names:
            continue
        y = dict(x)
        y[bad] = .1
        yield "dict-unknown", y
