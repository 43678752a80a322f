"""Boring reference model in NumPy float64: rotations, quaternions, Euler angles, trees, Jacobians."""
import itertools
import math

import numpy as np

AX = {"x": (1., 0., 0.), "y": (0., 1., 0.), "z": (0., 0., 1.)}


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def skew(v):
    x, y, z = v
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]], dtype=float)


def rot(axis, th):
    """Rodrigues; th scalar or (B,) -> (3,3) or (B,3,3)."""
    k = unit(axis)
    K = skew(k)
    th = np.asarray(th, dtype=float)
    s, c = np.sin(th)[..., None, None], np.cos(th)[..., None, None]
    return np.eye(3) + s * K + (1 - c) * (K @ K)


def rotv(w):
    """exp of a rotation vector."""
    w = np.asarray(w, dtype=float)
    a = np.linalg.norm(w)
    if a == 0:
        return np.eye(3)
    return rot(w / a, a)


def rpy(r, p, y):
    """roll, pitch, yaw about the fixed x, y, z axes."""
    return rot(AX["z"], y) @ rot(AX["y"], p) @ rot(AX["x"], r)


def T(R=None, t=None):
    m = np.eye(4)
    if R is not None:
        m[:3, :3] = R
    if t is not None:
        m[:3, 3] = t
    return m


def pose(xyz=(0, 0, 0), rpy_=(0, 0, 0)):
    return T(rpy(*rpy_), xyz)


def inv(m):
    return np.linalg.inv(m)


# ---- quaternions, real part first
def qmul(a, b):
    aw, ax, ay, az = np.moveaxis(np.asarray(a, float), -1, 0)
    bw, bx, by, bz = np.moveaxis(np.asarray(b, float), -1, 0)
    return np.stack([aw * bw - ax * bx - ay * by - az * bz,
                     aw * bx + ax * bw + ay * bz - az * by,
                     aw * by - ax * bz + ay * bw + az * bx,
                     aw * bz + ax * by - ay * bx + az * bw], -1)


def qmat(q):
    """rotation matrix of a (not necessarily unit) quaternion, by q v q^-1 on the basis."""
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    qc = q * np.array([1, -1, -1, -1.])
    cols = []
    for e in np.eye(3):
        v = np.concatenate([[0.], e])
        cols.append(qmul(qmul(q, np.broadcast_to(v, q.shape)), qc)[..., 1:])
    return np.stack(cols, -1)


def axis_angle_quat(axis, th):
    k = unit(axis)
    return np.concatenate([[math.cos(th / 2)], math.sin(th / 2) * k])


def rot_angle(R):
    """true rotation angle in [0, pi], accurate everywhere."""
    R = np.asarray(R, float)
    v = np.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1)
    s = np.linalg.norm(v, axis=-1)
    c = R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2] - 1
    return np.arctan2(s, c)


def euler_matrix(a, b, c, seq):
    """intrinsic: R = R_seq0(a) R_seq1(b) R_seq2(c)"""
    return rot(AX[seq[0].lower()], a) @ rot(AX[seq[1].lower()], b) @ rot(AX[seq[2].lower()], c)


def euler_axes_matrix(a, b, c, axes):
    """24 sequences: 's' = static (about fixed axes, first angle applied first), 'r' = rotating."""
    if axes[0] == "r":
        return euler_matrix(a, b, c, axes[1:])
    return euler_matrix(c, b, a, axes[1:][::-1])


def octahedral():
    """the 24 rotations of the cube, as exact integer matrices."""
    out = []
    for perm in itertools.permutations(range(3)):
        for signs in itertools.product((1., -1.), repeat=3):
            m = np.zeros((3, 3))
            for i, (p, s) in enumerate(zip(perm, signs)):
                m[i, p] = s
            if np.linalg.det(m) > 0:
                out.append(m)
    return out


def octahedral_quats():
    """the 48 unit quaternions of the binary octahedral group."""
    out = []
    for i in range(4):
        for s in (1., -1.):
            q = np.zeros(4)
            q[i] = s
            out.append(q)
    for s in itertools.product((.5, -.5), repeat=4):
        out.append(np.array(s))
    h = math.sqrt(.5)
    for i, j in itertools.combinations(range(4), 2):
        for si, sj in itertools.product((h, -h), repeat=2):
            q = np.zeros(4)
            q[i], q[j] = si, sj
            out.append(q)
    return out


# ---- kinematic trees.  spec = {"nodes": [node...]}, see robots.py
def node_static(n):
    m = np.eye(4)
    if n.get("loff"):
        m = m @ pose(*n["loff"])
    if n.get("joff"):
        m = m @ pose(*n["joff"])
    if n.get("jmat") is not None:
        m = m @ np.asarray(n["jmat"], float)
    return m


def motion(n, q):
    q = np.asarray(q, float)
    m = np.broadcast_to(np.eye(4), q.shape + (4, 4)).copy()
    if n["jtype"] in ("revolute", "continuous"):
        m[..., :3, :3] = rot(n["axis"], q)
    elif n["jtype"] == "prismatic":
        m[..., :3, 3] = q[..., None] * unit(n["axis"])
    return m


def fk(spec, q, B):
    """q: {joint name: (B,)} -> {frame name: (B,4,4)}"""
    out = []
    for n in spec["nodes"]:
        loc = np.broadcast_to(node_static(n), (B, 4, 4))
        if n["jtype"] != "fixed":
            loc = loc @ motion(n, np.broadcast_to(np.asarray(q[n["jname"]], float), (B,)))
        out.append(loc if n["parent"] < 0 else out[n["parent"]] @ loc)
    return {n["name"]: m for n, m in zip(spec["nodes"], out)}


def joint_order(spec):
    """movable joints in depth-first order, children in declaration order"""
    nodes = spec["nodes"]
    kids = {i: [] for i in range(len(nodes))}
    for i, n in enumerate(nodes):
        if n["parent"] >= 0:
            kids[n["parent"]].append(i)
    order = []

    def go(i):
        order.append(i)
        for k in kids[i]:
            go(k)
    go(0)
    return order, kids


def movable(spec):
    order, _ = joint_order(spec)
    return [spec["nodes"][i] for i in order if spec["nodes"][i]["jtype"] != "fixed"]


def path(spec, end, root=0):
    idx = {n["name"]: i for i, n in enumerate(spec["nodes"])}
    i = idx[end] if isinstance(end, str) else end
    r = idx[root] if isinstance(root, str) else root
    p = []
    while i != r:
        p.append(i)
        i = spec["nodes"][i]["parent"]
        if i < 0 and r != i:
            return None
    p.append(r)
    return p[::-1]


def jacobian(spec, q, B, end, root=0, tool=None):
    """geometric Jacobian of frame `end` in frame `root` (joints strictly below root), (B,6,n); tool (B,4,4) or None"""
    pose_ = fk(spec, q, B)
    nodes = spec["nodes"]
    pth = path(spec, end, root)
    R0 = inv(pose_[nodes[pth[0]]["name"]])
    Tee = R0 @ pose_[nodes[pth[-1]]["name"]]
    if tool is not None:
        Tee = Tee @ tool
    cols = []
    for i in pth[1:]:
        n = nodes[i]
        if n["jtype"] == "fixed":
            continue
        Ti = R0 @ pose_[n["name"]]
        z = Ti[:, :3, :3] @ unit(n["axis"])
        if n["jtype"] == "prismatic":
            cols.append(np.concatenate([z, np.zeros_like(z)], -1))
        else:
            cols.append(np.concatenate([np.cross(z, Tee[:, :3, 3] - Ti[:, :3, 3]), z], -1))
    J = np.stack(cols, -1) if cols else np.zeros((B, 6, 0))
    return J, Tee


def dfk(spec, q, B):
    """exact derivative of every frame's pose: {frame: {joint: (B,4,4)}} (motion replaced by its derivative)"""
    nodes = spec["nodes"]
    pose_ = fk(spec, q, B)
    out = {}
    for i, n in enumerate(nodes):
        d = {}
        for j in path(spec, i):
            m = nodes[j]
            if m["jtype"] == "fixed":
                continue
            Tj = pose_[m["name"]]
            D = np.zeros((4, 4))
            if m["jtype"] == "prismatic":
                D[:3, 3] = unit(m["axis"])
            else:
                D[:3, :3] = skew(unit(m["axis"]))
            d[m["jname"]] = Tj @ D @ inv(Tj) @ pose_[n["name"]]
        out[n["name"]] = d
    return out


def _spatial(spec, q, B):
    """pose of each node and, for each movable node, the 4x4 generator of its motion in the root frame"""
    nodes = spec["nodes"]
    pose_ = fk(spec, q, B)
    A = {}
    for i, n in enumerate(nodes):
        if n["jtype"] == "fixed":
            continue
        D = np.zeros((4, 4))
        if n["jtype"] == "prismatic":
            D[:3, 3] = unit(n["axis"])
        else:
            D[:3, :3] = skew(unit(n["axis"]))
        Ti = pose_[n["name"]]
        A[i] = Ti @ D @ inv(Ti)
    return pose_, A


def d2fk(spec, q, B, end):
    """second derivatives of the pose of `end`: {(ji, jj): (B,4,4)}"""
    pose_, A = _spatial(spec, q, B)
    nodes = spec["nodes"]
    pth = [i for i in path(spec, end) if nodes[i]["jtype"] != "fixed"]
    out = {}
    for a, i in enumerate(pth):
        for b, j in enumerate(pth):
            lo, hi = (i, j) if a <= b else (j, i)
            out[nodes[i]["jname"], nodes[j]["jname"]] = A[lo] @ A[hi] @ pose_[end]
    return out


def djac(spec, q, B, end, tool=None):
    """derivative of the geometric Jacobian of `end` (root-based, tool (B,4,4) or None): {joint: (B,6,n)}"""
    pose_, A = _spatial(spec, q, B)
    nodes = spec["nodes"]
    pth = [i for i in path(spec, end) if nodes[i]["jtype"] != "fixed"]
    Tee = pose_[end]
    if tool is not None:
        Tee = Tee @ tool
    out = {}
    for b, j in enumerate(pth):
        M = np.zeros((B, 6, len(pth)))
        for a, i in enumerate(pth):
            lo, hi = (i, j) if a <= b else (j, i)
            M[:, :3, a] = (A[lo] @ A[hi] @ Tee)[:, :3, 3]
            if b < a and nodes[i]["jtype"] != "prismatic":
                dA = A[j] @ A[i] - A[i] @ A[j]
                M[:, 3, a], M[:, 4, a], M[:, 5, a] = dA[:, 2, 1], dA[:, 0, 2], dA[:, 1, 0]
        out[nodes[j]["jname"]] = M
    return out


def selfcheck():
    """the reference against independent facts about itself"""
    rng = [(.3, -1.2, 2.5), (0., 0., 0.), (-.7, 1.5, -3.)]
    for a in rng:
        R = rpy(*a)
        assert np.allclose(R @ R.T, np.eye(3)) and np.isclose(np.linalg.det(R), 1)
        assert np.allclose(R, euler_axes_matrix(*a, "sxyz"))
    for ax in ((1, 0, 0), (1, 2, -3), (0, -2, 0)):
        for th in (0., .5, -2., math.pi, 7.):
            assert np.allclose(qmat(axis_angle_quat(ax, th)), rot(ax, th))
            d = abs((th + math.pi) % (2 * math.pi) - math.pi)
            assert abs(rot_angle(rot(ax, th)) - d) < 1e-9
    assert np.allclose(rot((0, 0, 1), math.pi / 2) @ [1, 0, 0], [0, 1, 0])
    assert len(octahedral()) == 24 and len(octahedral_quats()) == 48
    spec = dict(nodes=[dict(name="a", parent=-1, jname=None, jtype="fixed", axis=(0, 0, 1)),
                       dict(name="b", parent=0, jname="j", jtype="revolute", axis=(1, 2, 0), joff=((1, 0, 0), (.1, .2, .3))),
                       dict(name="c", parent=1, jname="k", jtype="prismatic", axis=(0, 1, 1), loff=((0, 1, 0), (.4, 0, 0)))])
    q = {"j": np.array([.4]), "k": np.array([-.7])}
    D = dfk(spec, q, 1)
    h = 1e-6
    for j in q:
        qp, qm = dict(q), dict(q)
        qp[j], qm[j] = q[j] + h, q[j] - h
        num = (fk(spec, qp, 1)["c"] - fk(spec, qm, 1)["c"]) / (2 * h)
        assert np.allclose(num, D["c"][j], atol=1e-7)
    J, Tee = jacobian(spec, q, 1, "c")
    assert np.allclose(J[0, :3, 0], D["c"]["j"][0, :3, 3]) and np.allclose(J[0, :3, 1], D["c"]["k"][0, :3, 3])
    W = D["c"]["j"][0, :3, :3] @ Tee[0, :3, :3].T
    assert np.allclose(skew(J[0, 3:, 0]), W)
    D2, dJ = d2fk(spec, q, 1, "c"), djac(spec, q, 1, "c", tool=pose((.1, .2, .3), (.3, 0, .1))[None])
    for j in q:
        qp, qm = dict(q), dict(q)
        qp[j], qm[j] = q[j] + h, q[j] - h
        for i in q:
            num = (dfk(spec, qp, 1)["c"][i] - dfk(spec, qm, 1)["c"][i]) / (2 * h)
            assert np.allclose(num, D2[i, j], atol=1e-7)
        num = (jacobian(spec, qp, 1, "c", tool=pose((.1, .2, .3), (.3, 0, .1)))[0] - jacobian(spec, qm, 1, "c", tool=pose((.1, .2, .3), (.3, 0, .1)))[0]) / (2 * h)
        assert np.allclose(num, dJ[j], atol=1e-7)
