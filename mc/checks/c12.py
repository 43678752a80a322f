"""All MJCF models over an alphabet: every tree of bodies and joint type, every way of giving an orientation, sites (on the
world too), ranges with and without limits, angle units, reference positions, default classes, starting bodies; the
poses of all bodies and sites are compared with MuJoCo's own forward kinematics (mj_kinematics) at enumerated
configurations, and with the reference for names, axes and ranges.  The repository's own MJCF files likewise."""
import glob
import itertools
import math
import os

import mujoco
import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="bodies n<=3 under world, 3 joint kinds, n=4 by patterns; all orientation forms, limits, refs, start bodies; repository files",
              thorough="n=4 all joint kinds, n=5 by patterns")
REPO = os.environ.get("VERIF_REPO", "/repo")
JT = ["hinge", "slide", "none"]
POSV = [(.3, -.2, .5), (0., 0., 0.), (0., .4, -.1), (-.6, 0., .2), (1.5, -2.5, .7)]
ORI = ["", 'quat="0.9 0.1 -0.3 0.2"', 'euler="{a} {b} {c}"', 'axisangle="1 2 -2 {b}"', 'xyaxes="0 1 0 -1 0 0"', 'zaxis="1 1 0.5"',
       'quat="0 1 0 0"', 'quat="0.70710678 0 0.70710678 0"']
TOLM = 5e-5


def cases(tier):
    out = [dict(name=k, kind=k) for k in ("orient", "limits", "refs", "reject", "defaults", "start", "serial", "names", "assets", "hingepos", "single", "geoms", "meshes")]
    for n in (1, 2, 3, 4):
        for p in R.parent_arrays(n + 1):
            for t0 in JT:
                for v in range(2 if n < 4 else 1):
                    out.append(dict(name="tree-%s-%s-%d" % (".".join(map(str, p)), t0, v), kind="tree", parents=list(p), first=t0, variant=v,
                                    full=n <= 3 or tier == "thorough"))
    if tier == "thorough":
        for p in R.parent_arrays(6):
            for t0 in JT:
                out.append(dict(name="tree-%s-%s" % (".".join(map(str, p)), t0), kind="tree", parents=list(p), first=t0, variant=0, full=False))
    for nm, p in shapes():
        if len(p) > 40 and tier == "quick":
            continue
        out.append(dict(name="big-" + nm, kind="big", parents=p))
    for f in sorted(glob.glob(REPO + "/tests/*.xml")):
        out.append(dict(name="file-" + os.path.basename(f), kind="file", path=f))
    return out


def run(case, cx):
    globals()["do_" + case["kind"]](case, cx)
    if cx.sample is None:
        cx.sample = {k: v for k, v in case.items() if k != "kind"}


def xml(bodies, degree=False, world_sites=(), head="", extra=""):
    """bodies: list of dict(name,parent (-1: world),pos,ori,joints=[dict],sites=[...],)"""
    k = 180 / math.pi if degree else 1.

    def ori(s):
        return s.format(a=.4 * k, b=-.7 * k, c=1.1 * k)

    def site(s):
        return '<site name="%s" pos="%s" %s/>' % (s["name"], R._v(s["pos"]), ori(s["ori"]))

    def body(i):
        b = bodies[i]
        s = '<body name="%s" pos="%s" %s %s>' % (b["name"], R._v(b["pos"]), ori(b["ori"]), b.get("attr", ""))
        for j in b.get("joints", ()):
            a = k if j["type"] == "hinge" else 1.
            s += '<joint name="%s" type="%s"' % (j["name"], j["type"])
            if j["type"] in ("hinge", "slide") and j.get("axis") is not None:
                s += ' axis="%s"' % R._v(j["axis"])
            if j.get("range") is not None:
                s += ' range="%s"' % R._v(np.array(j["range"]) * a)
            if j.get("limited"):
                s += ' limited="%s"' % j["limited"]
            if j.get("ref") is not None:
                s += ' ref="%s"' % R._f(j["ref"] * a)
            if j.get("pos") is not None:
                s += ' pos="%s"' % R._v(j["pos"])
            s += " %s/>" % j.get("attr", "")
        s += '<inertial pos="0.1 0 0" mass="1" diaginertia="1 1 1"/>' if not b.get("geom") else b["geom"]
        s += "".join(site(x) for x in b.get("sites", ()))
        s += "".join(body(c) for c in range(len(bodies)) if bodies[c]["parent"] == i)
        return s + "</body>"
    return '<mujoco model="m"><compiler angle="%s" %s/>%s<worldbody>%s%s</worldbody>%s</mujoco>' % (
        "degree" if degree else "radian", head if head.startswith("auto") else "", "" if head.startswith("auto") else head,
        "".join(site(x) for x in world_sites), "".join(body(c) for c in range(len(bodies)) if bodies[c]["parent"] < 0), extra)


def make(parents, kinds, v=0):
    """parents over bodies with -1 = world"""
    bs = []
    for i, (p, t) in enumerate(zip(parents, kinds)):
        b = dict(name=R.NAMES[(i + v) % len(R.NAMES)] if i < len(R.NAMES) else "b%d" % i, parent=p, pos=POSV[(i + v) % len(POSV)],
                 ori=ORI[(2 * i + 3 * v + 1) % len(ORI)], joints=[], sites=[])
        if t != "none":
            b["joints"] = [dict(name=R.JNAMES[(i + v) % len(R.JNAMES)] if i < len(R.JNAMES) else "j%d" % i, type=t, axis=R.AXES[(i + v) % len(R.AXES)],
                                range=(-1.25 - i, .5 + i) if (i + v) % 2 else None)]
        for k in range((i + v) % 3):
            b["sites"].append(dict(name="s%d_%d" % (i, k), pos=POSV[(i + k) % len(POSV)], ori=ORI[(i + k + v) % len(ORI)]))
        bs.append(b)
    return bs


def name(m, t, i):
    return mujoco.mj_id2name(m, t, i) or ""


def mj_all(text, qrow_of, nq=4, assets=None):
    """MuJoCo's own answers: {frame: (nq,4,4)}, joint names in order, axes, ranges, body tree"""
    m = mujoco.MjModel.from_xml_string(text, assets=assets)
    d = mujoco.MjData(m)
    jn = [name(m, mujoco.mjtObj.mjOBJ_JOINT, i) for i in range(m.njnt)]
    poses = {}
    qs = []
    for r in range(nq):
        q = {}
        d.qpos[:] = m.qpos0
        for i in range(m.njnt):
            if m.jnt_type[i] in (mujoco.mjtJoint.mjJNT_HINGE, mujoco.mjtJoint.mjJNT_SLIDE):
                val = float(np.float32(qrow_of(r, i)))
                q[jn[i]] = val
                d.qpos[m.jnt_qposadr[i]] = val
        mujoco.mj_kinematics(m, d)
        for i in range(m.nbody):
            poses.setdefault(name(m, mujoco.mjtObj.mjOBJ_BODY, i), []).append(ref.T(d.xmat[i].reshape(3, 3).copy(), d.xpos[i].copy()))
        for i in range(m.nsite):
            poses.setdefault(name(m, mujoco.mjtObj.mjOBJ_SITE, i), []).append(ref.T(d.site_xmat[i].reshape(3, 3).copy(), d.site_xpos[i].copy()))
        qs.append(q)
    return m, {k: np.stack(v) for k, v in poses.items()}, {k: np.array([q[k] for q in qs]) for k in (qs[0] if qs else {})}


def qrow(r, i):
    if r == 0:
        return 0.
    return -2.9 + 5.8 * (((r + 1) * (i + 2) * .6180339887 + .13 * i) % 1.)


def static(m, b):
    R_ = np.zeros(9)
    mujoco.mju_quat2Mat(R_, m.body_quat[b])
    return ref.T(R_.reshape(3, 3), m.body_pos[b])


def below(m, root):
    """ids of bodies in the subtree of root"""
    s = []
    for b in range(m.nbody):
        x = b
        while x != root and x != 0:
            x = m.body_parentid[x]
        if x == root:
            s.append(b)
    return s


def judge(text, cx, sig, lab, nq=4, root=None, assets=None, skip=()):
    m, poses, q = mj_all(text, qrow, nq, assets)
    kw = {} if root is None else dict(body=root)
    if assets is not None:
        kw["assets"] = assets
    chain = pk.build_chain_from_mjcf(text, **kw)
    rid = 0 if root is None else (root if isinstance(root, int) else mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_BODY, root))
    ids = below(m, rid)
    js = [i for i in range(m.njnt) if m.jnt_bodyid[i] in ids and m.jnt_bodyid[i] != rid]
    jn = [name(m, mujoco.mjtObj.mjOBJ_JOINT, i) for i in js]
    names = chain.get_joint_parameter_names()
    if not cx.expect(names == jn, sig + ":joint-names", lambda: "%s %s, MuJoCo %s" % (lab, names, jn)):
        return chain
    for j, i in zip(chain.get_joints(), js):
        cx.expect(R.maxerr(npa(j.axis), m.jnt_axis[i]) < 1e-6, sig + ":axis", "%s %s %s %s" % (lab, j.name, j.axis, m.jnt_axis[i]))
        cx.expect(j.joint_type == ("revolute" if m.jnt_type[i] == mujoco.mjtJoint.mjJNT_HINGE else "prismatic"), sig + ":type", lab)
    lo, hi = chain.get_joint_limits()
    wl = [float(m.jnt_range[i][0]) if m.jnt_limited[i] else -np.inf for i in js]
    wh = [float(m.jnt_range[i][1]) if m.jnt_limited[i] else np.inf for i in js]
    cx.expect(R.maxerr(np.array(lo, float), wl) < 1e-6 and R.maxerr(np.array(hi, float), wh) < 1e-6, sig + ":limits",
              lambda: "%s %s %s wanted %s %s" % (lab, lo, hi, wl, wh))
    rn = name(m, mujoco.mjtObj.mjOBJ_BODY, rid)
    frames = [name(m, mujoco.mjtObj.mjOBJ_BODY, i) for i in ids]
    frames += [name(m, mujoco.mjtObj.mjOBJ_SITE, i) for i in range(m.nsite) if m.site_bodyid[i] in ids]
    base = static(m, rid) @ ref.inv(poses[rn])
    want = {f: base @ poses[f] for f in frames}
    B = nq
    got = fk_all(chain, th_of(chain, q, B) if names else torch.zeros(B, 0))
    if not names:
        got = {k: np.broadcast_to(v, (B, 4, 4)) for k, v in got.items()}
    cx.expect(set(got) == set(want), sig + ":frames", lambda: "%s %s %s" % (lab, sorted(got), sorted(want)))
    e = max([R.materr(got[f], want[f]) for f in want if f in got and f not in skip] or [0.])
    cx.expect(e <= TOLM * max(1, len(ids) // 10), sig + ":poses", lambda: "%s err=%g %s" % (lab, e, text))
    # the tree is MuJoCo's
    par = {}
    for i in ids:
        if i != rid:
            par[name(m, mujoco.mjtObj.mjOBJ_BODY, i)] = name(m, mujoco.mjtObj.mjOBJ_BODY, m.body_parentid[i])
    for i in range(m.nsite):
        if m.site_bodyid[i] in ids:
            par[name(m, mujoco.mjtObj.mjOBJ_SITE, i)] = name(m, mujoco.mjtObj.mjOBJ_BODY, m.site_bodyid[i])
    for f, p in par.items():
        fr = chain.find_frame(p)
        cx.expect(fr is not None and f in [c.name for c in fr.children], sig + ":tree", "%s %s under %s" % (lab, f, p))
    cx.add(states=nq, traces=1)
    cx.outcome(lab)
    return chain


def do_tree(case, cx):
    p = [x - 1 for x in case["parents"][1:]]
    n = len(p)
    combos = itertools.product(JT, repeat=n - 1) if case["full"] else [[JT[(i * s + o) % 3] for i in range(n - 1)] for s in (1, 2, 0) for o in range(3)]
    for k, ts in enumerate(combos):
        v = case["variant"] + k
        bs = make(p, [case["first"]] + list(ts), v)
        ws = [dict(name="ws", pos=POSV[v % 5], ori=ORI[v % 8])] if v % 2 else []
        text = xml(bs, degree=bool((v // 2) % 2), world_sites=ws)
        judge(text, cx, "tree", "%s %s %s %d" % (case["parents"], case["first"], ts, v))
        if k == 0:
            # every body by its number, the world too
            for r in range(n + 1):
                judge(text, cx, "start", "%s %s %s %d from body %d" % (case["parents"], case["first"], ts, v, r), root=r, nq=2)
        b = bs[k % n]["name"]
        judge(text, cx, "start", "%s %s %s %d from %s" % (case["parents"], case["first"], ts, v, b), root=b, nq=2)
    cx.sample = text


def geoms_of(m, b):
    return [g for g in range(m.ngeom) if m.geom_bodyid[g] == b]


def judge_geoms(text, cx, lab, root=None, assets=None):
    """the visuals of every link are MuJoCo's geoms of that body: as many, in that order, of that type and size, and with the
    chain's pose of the body they are where mj_kinematics puts them"""
    chain = judge(text, cx, "geoms", lab, nq=2, root=root, assets=assets)
    m, poses, q = mj_all(text, qrow, 2, assets)
    d = mujoco.MjData(m)
    rid = 0 if root is None else (root if isinstance(root, int) else mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_BODY, root))
    rn = name(m, mujoco.mjtObj.mjOBJ_BODY, rid)
    names = chain.get_joint_parameter_names()
    fk = fk_all(chain, th_of(chain, q, 2) if names else torch.zeros(2, 0))
    for r in range(2):
        d.qpos[:] = m.qpos0
        for i in range(m.njnt):
            d.qpos[m.jnt_qposadr[i]] = q[name(m, mujoco.mjtObj.mjOBJ_JOINT, i)][r]
        mujoco.mj_kinematics(m, d)
        base = static(m, rid) @ ref.inv(poses[rn])[r]
        for b in below(m, rid):
            bn = name(m, mujoco.mjtObj.mjOBJ_BODY, b)
            vs, gs = list(chain.find_link(bn).visuals), geoms_of(m, b)
            if not cx.expect(len(vs) == len(gs), "geoms:count", lambda: "%s: %s has %d visuals, MuJoCo %d geoms" % (lab, bn, len(vs), len(gs))):
                continue
            F = np.broadcast_to(fk[bn], (2, 4, 4))[r]
            for v, g in zip(vs, gs):
                cx.expect(int(np.asarray(v.geom_type).reshape(-1)[0]) == m.geom_type[g], "geoms:type", lambda: "%s %s" % (lab, v))
                cx.expect(np.abs(np.asarray(v.geom_param, float).reshape(-1) - m.geom_size[g]).max() < 1e-6, "geoms:size", lambda: "%s %s wanted %s" % (lab, v.geom_param, m.geom_size[g]))
                W = base @ ref.T(d.geom_xmat[g].reshape(3, 3).copy(), d.geom_xpos[g].copy())
                e = np.abs(F @ npa(v.offset.get_matrix())[0] - W).max()
                cx.expect(e <= TOLM, "geoms:place", lambda: "%s: geom %d of %s is %g away from where MuJoCo has it" % (lab, g, bn, e))
                cx.add(traces=1)
    return chain


SHAPES = ['type="sphere" size="0.3"', 'type="box" size="0.1 0.2 0.3"', 'type="capsule" size="0.1 0.4"', 'type="cylinder" size="0.2 0.1"',
          'type="ellipsoid" size="0.3 0.1 0.2"', 'type="capsule" size="0.05" fromto="0 0.1 0.2 0.5 -0.4 0.3"', 'type="box" size="0.05" fromto="0 0 0 0.3 0.3 -0.3"']


def do_geoms(case, cx):
    """every pair of shapes x orientation forms on two bodies of a chain, geoms on the world, several per body, from every body"""
    for k, (s1, s2, o) in enumerate(itertools.product(SHAPES, SHAPES, ORI)):
        deg = bool(k % 2)
        kk = 180 / math.pi if deg else 1.

        def geom(s, i, o):
            if "fromto" in s:
                return '<geom name="g%d" %s mass="1"/>' % (i, s)
            return '<geom name="g%d" %s pos="%s" %s mass="1"/>' % (i, s, R._v(POSV[(k + i) % 5]), o.format(a=.4 * kk, b=-.7 * kk, c=1.1 * kk))
        bs = make([-1, 0, [0, 1, -1][k % 3]], [JT[k % 3], JT[k // 3 % 3], JT[k // 9 % 3]], k)
        bs[0]["geom"] = geom(s1, 0, o)
        bs[1]["geom"] = geom(s2, 1, ORI[(k + 3) % 8]) + geom(s1, 2, o) + geom(SHAPES[k % 7], 3, "")
        text = xml(bs, deg)
        if k % 2:
            text = text.replace("<worldbody>", '<worldbody><geom name="floor" type="plane" size="1 2 0.1" pos="0 0.1 -1"/>' + geom(s2, 9, o))
        if k % 5 == 0:
            text = text.replace("</worldbody>", geom(s1, 8, o) + "</worldbody>")
        judge_geoms(text, cx, "%s | %s | %s" % (s1, s2, o), root=[None, 0, 1, 2, 3, bs[1]["name"]][k % 6])


def do_meshes(case, cx):
    """meshes are moved to their centre when MuJoCo compiles them"""
    obj = {"m%d.obj" % i: ("".join("v %g %g %g\n" % tuple(v) for v in
                                   (np.array([(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3.)]) * (1 + .3 * i) + i)) + "f 1 3 2\nf 1 2 4\nf 1 4 3\nf 2 3 4\n").encode() for i in range(2)}
    head = '<asset>%s</asset>' % "".join('<mesh name="m%d" file="m%d.obj"/>' % (i, i) for i in range(2))
    for k, (i, o, j) in enumerate(itertools.product(range(2), ORI, range(2))):
        bs = make([-1, 0], [JT[k % 3], JT[k // 3 % 3]], k)
        bs[0]["geom"] = '<geom type="mesh" mesh="m%d" pos="%s" %s/>' % (i, R._v(POSV[k % 5]), o.format(a=.4, b=-.7, c=1.1))
        bs[1]["geom"] = '<geom type="sphere" size="0.1"/><geom type="mesh" mesh="m%d"/>' % j
        judge_geoms(xml(bs, head=head), cx, "mesh %d %s %d" % (i, o, j), root=[None, 1, 2][k % 3], assets=obj)


def do_big(case, cx):
    p = [x - 1 for x in case["parents"][1:]]
    for pat in ("hsn", "hhn", "n"):
        bs = make(p, [dict(h="hinge", s="slide", n="none")[pat[i % len(pat)]] for i in range(len(p))], 1)
        for i, b in enumerate(bs):
            b["name"] = "%s_%d" % ("Lk"[i % 2], (7 * i) % 101)
            b["pos"] = POSV[i % 4]
            b["sites"] = b["sites"] if len(p) < 20 else []
            for j in b["joints"]:
                j["name"] = "%s%d" % ("Jq"[i % 2], (5 * i) % 103)
        judge(xml(bs), cx, "big", case["name"] + pat, nq=3)


def do_orient(case, cx):
    """all pairs of orientation forms on two bodies x joint kinds x axes x units"""
    for k, (o1, o2) in enumerate(itertools.product(ORI, ORI)):
        for t1, t2 in itertools.product(JT, JT):
            for deg in (False, True):
                bs = make([-1, 0], [t1, t2], k)
                bs[0]["ori"], bs[1]["ori"] = o1, o2
                judge(xml(bs, deg), cx, "orient", "%s %s %s %s %s" % (o1, o2, t1, t2, deg), nq=2)
    for t, ax, pos, o in itertools.product(JT[:2], R.AXES + [None], POSV, ORI):
        bs = make([-1], [t], 0)
        bs[0]["joints"][0]["axis"], bs[0]["pos"], bs[0]["ori"] = ax, pos, o
        judge(xml(bs), cx, "axes", "%s %s %s %s" % (t, ax, pos, o), nq=3)


def do_limits(case, cx):
    forms = [(None, None), ((-1.5, 2.5), None), ((-1.5, 2.5), "true"), ((-1.5, 2.5), "false"), ((0., 1.), None), ((-3., -1.), "true"),
             (None, "false"), ((-40., 50.), "auto")]
    for (a, b), t, u, deg, head in itertools.product(itertools.product(forms, forms), JT[:2], JT[:2], (False, True), ("", 'autolimits="false"')):
        if head and any(f[0] is not None and f[1] in (None, "auto") for f in (a, b)):
            continue  # MuJoCo refuses a range without limited here
        bs = make([-1, 0], [t, u], 1)
        for x, f in zip(bs, (a, b)):
            x["joints"][0]["range"], x["joints"][0]["limited"] = f
        judge(xml(bs, deg, head=head), cx, "limits", "%s %s %s %s %s %s" % (a, b, t, u, deg, head), nq=1)


def do_refs(case, cx):
    refs = [None, 0., .7, -2.1, math.pi]
    for r1, r2, t, u, deg in itertools.product(refs, refs, JT[:2], JT[:2], (False, True)):
        bs = make([-1, 0], [t, u], 2)
        bs[0]["joints"][0]["ref"], bs[1]["joints"][0]["ref"] = r1, r2
        judge(xml(bs, deg), cx, "refs", "%s %s %s %s %s" % (r1, r2, t, u, deg), nq=3)
    # the position of a slide joint does not matter
    for p1, p2, r in itertools.product(POSV, POSV, refs):
        bs = make([-1, 0, 1], ["slide", "slide", "hinge"], 2)
        bs[0]["joints"][0]["pos"], bs[1]["joints"][0]["pos"], bs[1]["joints"][0]["ref"] = p1, p2, r
        judge(xml(bs), cx, "slidepos", "%s %s %s" % (p1, p2, r), nq=2)


def do_reject(case, cx):
    J = {t: dict(name="x" + t, type=t, axis=(0, 0, 1.)) for t in ("hinge", "slide", "ball")}
    for at in range(3):
        for combo in list(itertools.product(J, repeat=2)) + [("ball",), ("hinge", "hinge", "slide"), ("slide", "slide", "slide", "hinge")]:
            bs = make([-1, 0, 1], ["hinge", "none", "slide"], 0)
            bs[at]["joints"] = [dict(J[t], name="x%d" % i) for i, t in enumerate(combo)]
            text = xml(bs)
            try:
                mujoco.MjModel.from_xml_string(text)
            except ValueError:
                continue
            cx.expect(raises(pk.build_chain_from_mjcf, text), "unsupported-accepted", "%s at %d" % (combo, at))
            cx.add(states=1)
            cx.outcome(at, combo)
            # the same joints on, or above, the chosen root do not matter
            judge(text, cx, "root-joints", "%s at %d" % (combo, at), root=bs[at]["name"], nq=2)
            if at == 0:
                judge(text, cx, "root-joints", "%s above" % (combo,), root=bs[1]["name"], nq=2)
    bs = make([-1, 0], ["none", "hinge"], 0)
    text = xml(bs).replace('<inertial', '<freejoint/><inertial', 1)
    cx.expect(raises(pk.build_chain_from_mjcf, text), "free-accepted", "")
    judge(text, cx, "free-root", "free", root=bs[0]["name"])
    for bad in ("nope", 99):
        cx.expect(raises(pk.build_chain_from_mjcf, text, bad), "unknown-body-accepted", "%s" % bad)
    cx.expect(raises(pk.build_chain_from_mjcf, "<mujoco><nonsense/></mujoco>"), "nonsense-accepted", "")


def do_defaults(case, cx):
    """values inherited from default classes and childclass"""
    for rng, t, cls in itertools.product((None, "-0.5 0.75"), JT[:2], ("", "c1")):
        head = '<default><joint axis="0 1 0" type="%s" %s/><site quat="0 1 0 0"/><default class="c1"><joint axis="1 0 0"/></default></default>' % (
            t, 'range="%s"' % rng if rng else "")
        bs = make([-1, 0, 0], ["hinge", "slide", "hinge"], 0)
        bs[0]["attr"] = 'childclass="c1"' if cls else ""
        for b in bs:
            b["joints"] = [dict(name=b["joints"][0]["name"], type="hinge", axis=None)]
            b["ori"] = ""
        text = xml(bs, head=head).replace(' type="hinge"', "")
        judge(text, cx, "defaults", "%s %s %s" % (rng, t, cls))


def do_start(case, cx):
    for n in (2, 3, 4):
        for p in R.parent_arrays(n + 1):
            par = [x - 1 for x in p[1:]]
            for v in range(3):
                bs = make(par, [JT[(i + v) % 3] for i in range(n)], v)
                text = xml(bs)
                m = mujoco.MjModel.from_xml_string(text)
                for b in range(m.nbody):
                    judge(text, cx, "start-name", "%s %d from %d" % (p, v, b), root=name(m, mujoco.mjtObj.mjOBJ_BODY, b), nq=2)
                    judge(text, cx, "start-id", "%s %d from id %d" % (p, v, b), root=b, nq=2)


def do_serial(case, cx):
    for n in (1, 2, 3, 4):
        for p in R.parent_arrays(n + 1):
            par = [x - 1 for x in p[1:]]
            for v in range(2):
                bs = make(par, [JT[(i + v) % 3] for i in range(n)], v + 1)
                text = xml(bs)
                m, poses, q = mj_all(text, qrow, 3)
                kids = {name(m, mujoco.mjtObj.mjOBJ_BODY, i): i for i in range(m.nbody)}
                ends = {f: b for f, b in kids.items()}
                ends.update({name(m, mujoco.mjtObj.mjOBJ_SITE, i): int(m.site_bodyid[i]) for i in range(m.nsite)})
                for f, b in ends.items():
                    anc = [b]
                    while anc[-1] != 0:
                        anc.append(int(m.body_parentid[anc[-1]]))
                    if f in kids:
                        roots = anc
                    else:
                        roots = anc
                    for r in [None] + roots:
                        rn = name(m, mujoco.mjtObj.mjOBJ_BODY, 0 if r is None else r)
                        sc = pk.build_serial_chain_from_mjcf(text, f, *([] if r is None else [rn]))
                        on = [x for x in anc[::-1] if x != (r or 0) and x in below(m, r or 0)]
                        jn = [name(m, mujoco.mjtObj.mjOBJ_JOINT, i) for x in on for i in range(m.njnt) if m.jnt_bodyid[i] == x]
                        cx.expect(sc.get_joint_parameter_names() == jn, "serial-joints", lambda: "%s %s->%s %s %s" % (text, rn, f, sc.get_joint_parameter_names(), jn))
                        th = th_of(sc, q, 3) if jn else torch.zeros(3, 0)
                        g = np.broadcast_to(npa(sc.forward_kinematics(th).get_matrix()), (3, 4, 4))
                        w = ref.inv(poses[rn]) @ poses[f]
                        cx.expect(R.materr(g, w) < TOLM, "serial-pose", lambda: "%s %s->%s" % (text, rn, f))
                        cx.add(states=3, traces=1)
                        cx.outcome(str(p), v, f, r)
                cx.expect(raises(pk.build_serial_chain_from_mjcf, text, "nope"), "serial-unknown", "")


def do_names(case, cx):
    """names as they occur in files: prefixes of each other, the same name for a body and its joint or geom"""
    for sets in ([("a", "aa", "aaa"), ("j", "jj", "jjj")], [("x", "y", "z"), ("x", "y", "z")], [("1", "10", "2"), ("3", "30", "03")],
                 [("left arm", "left", "arm"), ("l/1", "l.1", "l:1")]):
        for p in R.parent_arrays(4):
            bs = make([x - 1 for x in p[1:]], ["hinge", "slide", "hinge"], 0)
            for b, n, j in zip(bs, *sets):
                b["name"], b["joints"][0]["name"] = n, j
                b["geom"] = '<geom name="%s" type="box" size="1 1 1" mass="1"/>' % n
            judge(xml(bs), cx, "names", "%s %s" % (sets, p))
    # sites whose names begin or end with those of bodies and joints, in every assignment
    for p in R.parent_arrays(4):
        for k, perm in enumerate(itertools.permutations(range(3))):
            for fmt in ("%s_site", "site_%s", "%s1"):
                bs = make([x - 1 for x in p[1:]], ["hinge", "slide", "none"], k)
                for i, b in enumerate(bs):
                    b["name"] = "abc"[i] * 2
                    b["sites"] = [dict(name=fmt % ("abc"[perm[i]] * 2), pos=POSV[i], ori=ORI[(i + k) % 8])]
                    for j in b["joints"]:
                        j["name"] = "abc"[perm[i]] * 2
                judge(xml(bs, world_sites=[dict(name=fmt % "world", pos=POSV[1], ori="")]), cx, "names", "sites %s %s %s" % (perm, fmt, p), nq=2)


def do_assets(case, cx):
    inner = "<mujoco><worldbody>%s</worldbody></mujoco>"
    bs = make([-1, 0], ["hinge", "slide"], 1)
    whole = xml(bs)
    body = whole[whole.index("<worldbody>") + 11:whole.index("</worldbody>")]
    text = '<mujoco><compiler angle="radian"/><include file="part.xml"/></mujoco>'
    judge(text, cx, "assets", "include", assets={"part.xml": (inner % body).encode()})
    cx.expect(raises(pk.build_chain_from_mjcf, text), "missing-asset-accepted", "")


def do_single(case, cx):
    judge('<mujoco><worldbody/></mujoco>', cx, "single", "empty world")
    judge('<mujoco><worldbody/></mujoco>', cx, "single", "empty world by number", root=0)
    judge('<mujoco><worldbody/></mujoco>', cx, "single", "empty world by name", root="world")
    for v in range(6):
        bs = make([-1], ["none"], v)
        judge(xml(bs), cx, "single", "one body %d" % v)
        judge(xml(bs), cx, "single", "one body %d as root" % v, root=bs[0]["name"])
        for k in ("none", "hinge", "slide"):
            one = xml(make([-1], [k], v), world_sites=[dict(name="s", pos=POSV[v % 5], ori=ORI[v])][:v % 2])
            for r in (None, 0, 1, "world"):
                judge(one, cx, "single", "one body %s %d from %s" % (k, v, r), root=r)
        judge(xml([], world_sites=[dict(name="s", pos=POSV[v % 5], ori=ORI[v])]), cx, "single", "site %d" % v)


def do_hingepos(case, cx):
    """hinge anchors away from the body's origin (known finding: the frame is reported at the anchor)"""
    for pos, ax, o, r in itertools.product(POSV[:1] + POSV[2:], R.AXES, ORI[:3], (None, .7)):
        bs = make([-1, 0], ["hinge", "none"], 1)
        bs[0]["ori"], bs[0]["sites"], bs[1]["sites"] = o, [], []
        j = bs[0]["joints"][0]
        j["pos"], j["axis"], j["ref"] = pos, ax, r
        text = xml(bs)
        m, poses, q = mj_all(text, qrow, 3)
        chain = pk.build_chain_from_mjcf(text)
        got = fk_all(chain, th_of(chain, q, 3))
        if err_poses(got, poses) > TOLM:
            L = np.stack(
                [static(m, 1) @ ref.T(t=pos) @ ref.T(ref.rot(ax, a - (r or 0.))) for a in q[j["name"]]])
            wrong = {"world": poses["world"], bs[0]["name"]: L, bs[1]["name"]: L @ static(m, 2)}
            cx.fail("hinge-pos-frame-at-anchor" if err_poses(got, wrong) < TOLM else "hinge-pos", text)
        cx.add(states=3, transitions=1, traces=1)
        cx.outcome(pos, ax, o, r)


def do_file(case, cx):
    text = open(case["path"]).read()
    d = os.path.dirname(case["path"])
    old = os.getcwd()
    os.chdir(d)
    try:
        try:
            m = mujoco.MjModel.from_xml_string(text)
        except ValueError:
            cx.expect(raises(pk.build_chain_from_mjcf, text), "file-refused-by-mujoco", case["path"])
            return
        ok = all(m.jnt_type[i] in (2, 3) for i in range(m.njnt)) and all(m.body_jntnum[b] <= 1 for b in range(m.nbody))
        if not ok:
            # start below whatever is not supported
            cx.expect(raises(pk.build_chain_from_mjcf, text), "file-unsupported-accepted", case["path"])
            roots = [b for b in range(1, m.nbody) if all(m.body_jntnum[x] == 0 or (m.body_jntnum[x] == 1 and m.jnt_type[m.body_jntadr[x]] in (2, 3))
                                                         for x in below(m, b) if x != b)]
        else:
            roots = [None] + list(range(1, m.nbody))
        for r in roots:
            skip = set()
            for b in range(m.nbody):
                x = b
                while x != 0:
                    if m.body_jntnum[x] == 1 and np.abs(m.jnt_pos[m.body_jntadr[x]]).max() > 0:
                        skip.add(name(m, mujoco.mjtObj.mjOBJ_BODY, b))
                        skip |= {name(m, mujoco.mjtObj.mjOBJ_SITE, i) for i in range(m.nsite) if m.site_bodyid[i] == b}
                    x = m.body_parentid[x]
            ns = [name(m, mujoco.mjtObj.mjOBJ_BODY, b) for b in range(m.nbody)]
            if len(set(ns)) < len(ns):
                cx.count("files_with_unnamed_bodies")
                return
            judge(text, cx, "file", "%s from %s" % (case["name"], r), root=None if r is None else int(r), nq=3, skip=skip)
    finally:
        os.chdir(old)
    cx.sample = case["path"]
