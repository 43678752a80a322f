"""Shared by the checks on inverse kinematics: robots, targets, solver options, and the judge of a solution."""
import numpy as np
import torch

import pytorch_kinematics as pk
from . import ref, robots as R
from .util import *

rv, pr, fx = "revolute", "prismatic", "fixed"
ROBOTS = dict(
    rpr=([rv, pr, rv], 1), six=([rv] * 6, 0), seven=([rv, rv, pr, rv, fx, rv, rv, rv], 2), slide=([pr, pr], 3),
    one=([rv], 4), mixed=([fx, pr, rv, rv, fx, rv, fx], 5), eight=([rv] * 8, 1),
)
CLS = dict(dls=pk.PseudoInverseIK, svd=pk.PseudoInverseIKWithSVD)
ATOL = {F64: 1e-6, F32: 2e-3}


def spec_of(name, limits=None):
    """limits: function of the index of the movable joint -> (lo, hi) or None"""
    types, variant = ROBOTS[name]
    spec = R.chain_spec(types, variant)
    if limits is not None:
        for k, n in enumerate(ref.movable(spec)):
            n["limits"] = limits(k)
    return spec


def serial(spec, dtype=F64):
    return pk.SerialChain(R.build(spec, dtype), spec["nodes"][-1]["name"])


def limits_of(spec):
    mv = ref.movable(spec)
    lo = np.array([(n.get("limits") or (-np.inf, np.inf))[0] for n in mv], float)
    hi = np.array([(n.get("limits") or (-np.inf, np.inf))[1] for n in mv], float)
    return lo, hi


def pose_of(spec, q):
    """reference pose of the end frame relative to the root frame; q (B, dof) in path order"""
    q = np.asarray(q, float)
    mv = ref.movable(spec)
    w = ref.fk(spec, {n["jname"]: q[:, i] for i, n in enumerate(mv)}, len(q))
    return ref.inv(w[spec["nodes"][0]["name"]]) @ w[spec["nodes"][-1]["name"]]


def angle(Ra, Rb):
    """angle between rotation matrices, accurate near 0 and near pi; (..., 3, 3)"""
    D = np.swapaxes(Ra, -1, -2) @ Rb
    s = np.sqrt(((D - np.swapaxes(D, -1, -2)) ** 2).sum((-1, -2))) / np.sqrt(8.)
    c = (np.trace(D, axis1=-2, axis2=-1) - 1) / 2
    return np.arctan2(s, c)


def starts(n, k=2, amp=.35):
    """k deterministic start configurations"""
    i, j = np.arange(k)[:, None], np.arange(n)[None]
    return amp * np.cos(1.3 * i + 2.1 * j + .4)


def targets(spec, st):
    """kind -> target pose (4,4): solved by start 0, solved by the last start, near, far but reachable, out of reach,
    exactly half a turn away from start 0, nearly half a turn, and start 0 itself displaced by more than any tolerance"""
    n = st.shape[1]
    out = {}
    p = pose_of(spec, st)
    out["at0"], out["atlast"] = p[0], p[-1]
    out["near"] = pose_of(spec, st[:1] + .08 * np.cos(np.arange(n) * 1.9))[0]
    out["far"] = pose_of(spec, 1.9 * np.sin(np.arange(n)[None] * 2.3 + .6))[0]
    f = p[0].copy()
    f[:3, 3] += [40., -30., 20.]
    out["out"] = f
    for k, a in (("half", np.pi), ("almosthalf", np.pi - 1e-4)):
        f = p[0].copy()
        f[:3, :3] = f[:3, :3] @ ref.rot((1., 2., -2.), a)
        out[k] = f
    f = p[0].copy()
    f[:3, 3] += [0., .3, 0.]
    out["shifted"] = f
    return out


def tf(mats, dtype):
    return pk.Transform3d(matrix=torch.tensor(np.asarray(mats), dtype=dtype).reshape(-1, 4, 4))


def solver(sc, st, dtype, cls="dls", **kw):
    return CLS[cls](sc, retry_configs=torch.tensor(st, dtype=dtype), **kw)


FIELDS = ("solutions", "err_pos", "err_rot", "converged", "converged_pos", "converged_rot", "converged_any", "converged_pos_any", "converged_rot_any", "remaining")


def snap(sol):
    d = {k: getattr(sol, k).detach().clone() for k in FIELDS}
    d["iterations"] = sol.iterations
    return d


def same(a, b):
    return [k for k in a if not (a[k] == b[k] if not torch.is_tensor(a[k]) else torch.equal(a[k], b[k]))]


def judge(cx, lab, spec, sol, mats, st, dtype, max_iter, tp, tr, enforce, tol=None):
    """everything that must hold of any solution; mats (M,4,4), st (R,dof)"""
    M, Rn, n = len(mats), len(st), st.shape[1]
    atol = tol or ATOL[dtype]
    S = sol.solutions
    if not cx.expect(tuple(S.shape) == (M, Rn, n) and all(tuple(getattr(sol, k).shape) == (M, Rn) for k in FIELDS[1:6]) and
                     all(tuple(getattr(sol, k).shape) == (M,) for k in FIELDS[6:]), "shape:" + lab, lambda: str(S.shape)):
        return
    cx.expect(S.dtype == dtype and sol.err_pos.dtype == dtype and sol.converged.dtype == torch.bool, "dtype:" + lab, lambda: str(S.dtype))
    q, ep, er = npa(S), npa(sol.err_pos), npa(sol.err_rot)
    if not cx.expect(np.isfinite(q).all() and np.isfinite(ep).all() and np.isfinite(er).all(), "finite:" + lab, lambda: "%s %s %s" % (q, ep, er)):
        return
    m = np.asarray(mats, float)
    if dtype == F32:
        m = npa(torch.tensor(m).to(F32))
    if M:
        P = pose_of(spec, q.reshape(-1, n)).reshape(M, Rn, 4, 4)
        dp = np.linalg.norm(P[..., :3, 3] - m[:, None, :3, 3], axis=-1)
        da = angle(P[..., :3, :3], m[:, None, :3, :3])
        sc = np.maximum(1., np.abs(q).max(-1)) * np.maximum(1., np.abs(P[..., :3, 3]).max(-1))
        cx.expect((np.abs(ep - dp) <= atol * sc).all(), "err-pos:" + lab, lambda: "reported %s true %s" % (ep.tolist(), dp.tolist()))
        cx.expect((np.abs(er - da) <= atol * sc).all(), "err-rot:" + lab, lambda: "reported %s true %s" % (er.tolist(), da.tolist()))
    # float comparison in the solver's own number type
    good = ((sol.err_pos < tp) & (sol.err_rot < tr))
    cx.expect(torch.equal(sol.converged, good), "converged:" + lab, lambda: "flags %s, errors %s %s" % (sol.converged.tolist(), ep.tolist(), er.tolist()))
    cx.expect(torch.equal(sol.converged_any, good.any(1)), "converged-any:" + lab, lambda: "%s of %s" % (sol.converged_any.tolist(), good.tolist()))
    for k in ("converged_pos", "converged_rot"):
        f = getattr(sol, k)
        cx.expect(torch.equal(getattr(sol, k + "_any"), f.any(1)), k + "-any:" + lab)
        cx.expect(bool((f | ~good).all()), k + ":" + lab)
    cx.expect(0 <= int(sol.iterations) <= max_iter, "iterations:" + lab, lambda: "%s > %s" % (sol.iterations, max_iter))
    if enforce:
        lo, hi = limits_of(spec)
        lo, hi = npa(torch.tensor(lo).to(dtype)), npa(torch.tensor(hi).to(dtype))
        cx.expect(((q >= lo) & (q <= hi)).all(), "limits:" + lab, lambda: "%s not in %s %s" % (q.tolist(), lo, hi))
