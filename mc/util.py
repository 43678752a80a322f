"""Helpers shared by the checks: binding configurations by name, judging poses."""
import numpy as np
import torch

from . import ref, robots as R

F64, F32 = torch.float64, torch.float32
TOL = {F64: 1e-9, F32: 4e-5}
DT = {"f64": F64, "f32": F32}
REV = [0., .7, -2.1, np.pi / 2, np.pi, 7., -40.3]
PRI = [0., .4, -1.3, 5., 100.]
# many magnitudes, and the neighbourhood of the quarter turns
_mag = [1e-9, 1e-7, 1e-6, 1e-5, 3e-5, 1e-4, 3e-4, 9e-4, 3e-3, 9e-3, .03, .09, .3, 1.]
FINE = dict(revolute=[0.] + [s * x for s in (1, -1) for x in _mag + [k * np.pi / 2 + e for k in (1, 2, 3, 4, 6, 8) for e in (-1e-3, -1e-6, 0., 2e-5, 5e-3)] + [2., 4., 5.5, 9., 20., 64., 101., 1e3, 1e4]],
            prismatic=[0.] + [s * x for s in (1, -1) for x in _mag + [2.5, 10., 33., 101., 1e3, 1e4]])


def npa(t):
    return t.detach().cpu().to(torch.float64).numpy() if torch.is_tensor(t) else np.asarray(t, float)


def rep(q, dtype):
    """the configuration as the dtype represents it"""
    return {k: npa(torch.as_tensor(np.asarray(v, float)).to(dtype)) for k, v in q.items()}


def qgrid(spec, rev=REV, pri=PRI):
    """full product of the value alphabets -> {joint: (B,)}, B"""
    mv = ref.movable(spec)
    g = R.grid([pri if n["jtype"] == "prismatic" else rev for n in mv])
    return {n["jname"]: g[:, i] for i, n in enumerate(mv)}, len(g)


def qfine(spec, dtype=F64):
    """all pairs of values of the first two movable joints from the fine alphabets, the others generic"""
    mv = ref.movable(spec)
    far = 1e9 if dtype == F64 else 40.  # differences of large shifts have no precision left in float32
    g = R.grid([[x for x in FINE[n["jtype"]] if abs(x) < far or n["jtype"] == "revolute"] for n in mv[:2]])
    i = np.arange(len(g))
    q = {n["jname"]: g[:, k] for k, n in enumerate(mv[:2])}
    q.update({n["jname"]: np.sin(1.3 * i + k) for k, n in enumerate(mv[2:])})
    return q, len(g)


def qrows(spec, B, salt=0):
    """B deterministic generic rows (a Weyl sequence; all different)"""
    mv = ref.movable(spec)
    i = np.arange(1, B + 1)[:, None] + 17 * salt
    j = np.arange(1, len(mv) + 1)[None]
    f = (i * (np.sqrt(5) - 1) / 2 * (1 + .37 * j) + .11 * j) % 1.
    g = -2.9 + 5.8 * f
    return {n["jname"]: g[:, k] for k, n in enumerate(mv)}, B


def th_of(chain, q, B, dtype=None):
    """tensor in the order of the joint names the chain reports"""
    dtype = dtype or chain.dtype
    names = chain.get_joint_parameter_names()
    if not names:
        return torch.zeros(B, 0, dtype=dtype)
    return torch.tensor(np.stack([np.broadcast_to(q[n], (B,)) for n in names], 1), dtype=dtype)


def fk_all(chain, th):
    """every frame's pose through the public dict interface"""
    return {k: npa(v.get_matrix()) for k, v in chain.forward_kinematics(th).items()}


def sub(q, idx):
    return {k: v[idx] for k, v in q.items()}


def err_poses(got, want):
    """largest error over frames; inf if the frames differ"""
    if set(got) != set(want):
        return float("inf")
    return max([R.materr(got[k], want[k]) for k in want] or [0.])


def serial_fk(sc, th):
    """poses of every frame of a serial chain"""
    return {k: npa(v.get_matrix()) for k, v in sc.forward_kinematics(th, end_only=False).items()}


def raises(f, *a, **kw):
    """True if f raises an ordinary exception"""
    try:
        f(*a, **kw)
    except Exception:  # noqa
        return True
    return False


# larger structures: (name, parents)
def shapes():
    out = []
    for d in (9, 13, 17, 34, 66):
        out.append(("deep%d" % d, [-1] + list(range(d - 1))))
    for w in (12, 21):
        out.append(("wide%d" % w, [-1] + [0] * w))
    out.append(("binary15", [-1] + [(i - 1) // 2 for i in range(1, 15)]))
    out.append(("binary31", [-1] + [(i - 1) // 2 for i in range(1, 31)]))
    comb = [-1]
    spine = 0
    for i in range(6):
        comb.append(spine)
        comb.append(spine)
        spine = len(comb) - 1
    out.append(("comb", comb))
    hand = [-1, 0]
    for f in range(5):
        p = 1
        for k in range(4):
            hand.append(p)
            p = len(hand) - 1
    out.append(("hand", hand))
    brush = [-1] + list(range(7)) + [7] * 5 + [3] * 3
    out.append(("brush", brush))
    return out


def big(name, parents, pattern, variant=0):
    """tree with joint types cycling through a pattern; parents may come in any order with parents first"""
    ts = [{"r": "revolute", "p": "prismatic", "f": "fixed"}[pattern[i % len(pattern)]] for i in range(len(parents) - 1)]
    return R.make(parents, ts, variant, names=["%s_%d" % ("Lk"[i % 2], (i * 7) % 101) for i in range(len(parents))],
                  jnames=["%s%d" % ("Jq"[i % 2], (i * 5) % 103) for i in range(len(parents))])
