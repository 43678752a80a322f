"""All URDF descriptions over an alphabet: every tree and joint type, every order of the joint and link elements, every
form of origin, axis and limit, visuals, ignorable elements, number formats; the loaded chain is compared with the
description through the reference.  The repository's own URDF files are compared with an independent reader."""
import glob
import itertools
import math
import os
import xml.etree.ElementTree as ET

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="trees n<=4, 4 joint types, all orders of joints x 2 layouts; all origin/axis/limit forms; all subsets of further joint elements; nearly equal origins; repository files",
              thorough="n=5 with all 24 orders, n=6 with all rotations and reversals")
T4 = ["revolute", "continuous", "prismatic", "fixed"]


def cases(tier):
    out = [dict(name="attr-%d" % i, kind="attr", part=i) for i in range(8)]
    out += [dict(name=k, kind=k) for k in ("default", "limits", "visuals", "extras", "single", "numbers", "errors", "subsets", "near")]
    for n in ((2, 3, 4) if tier == "quick" else (2, 3, 4, 5)):
        for p in R.parent_arrays(n):
            for t0 in T4:
                out.append(dict(name="tree-%s-%s" % (".".join(map(str, p)), t0), kind="tree", parents=list(p), first=t0, orders="all"))
    if tier == "quick":
        for p in R.parent_arrays(5):
            out.append(dict(name="tree5-%s" % ".".join(map(str, p)), kind="orders", parents=list(p)))
    else:
        for p in R.parent_arrays(6):
            out.append(dict(name="tree6-%s" % ".".join(map(str, p)), kind="orders", parents=list(p)))
    for f in sorted(glob.glob("/repo/tests/*.urdf") if not os.environ.get("VERIF_REPO") else glob.glob(os.environ["VERIF_REPO"] + "/tests/*.urdf")):
        out.append(dict(name="file-" + os.path.basename(f), kind="file", path=f))
    for nm, p in shapes():
        out.append(dict(name="big-" + nm, kind="big", parents=p))
    return out


def run(case, cx):
    globals()["do_" + case["kind"]](case, cx)
    if cx.sample is None:
        cx.sample = case


def urdf_spec(spec):
    for n in spec["nodes"]:
        n["loff"] = None
    return spec


def lim_of(n):
    if n["jtype"] in ("fixed", "continuous") or n.get("limits") is None:
        return (-np.inf, np.inf)
    return n["limits"]


def judge(spec, text, cx, sig, lab, nq=3, serial=False, rev=None):
    chain = pk.build_chain_from_urdf(text)
    nodes = spec["nodes"]
    # joints: a set of names; the order among siblings is the order of the elements, so bind by name
    mv = {n["jname"]: n for n in nodes if n["jtype"] != "fixed"}
    names = chain.get_joint_parameter_names()
    cx.expect(sorted(names) == sorted(mv), sig + ":joint-names", lambda: "%s %s" % (lab, names))
    if sorted(names) != sorted(mv):
        return chain
    for j in chain.get_joints():
        n = mv[j.name]
        cx.expect(j.joint_type == ("prismatic" if n["jtype"] == "prismatic" else "revolute"), sig + ":type", lab)
        cx.expect(R.maxerr(npa(j.axis), ref.unit(n["axis"])) < 1e-6, sig + ":axis", "%s %s %s" % (lab, j.name, j.axis))
    for key, got, f in (("limits", chain.get_joint_limits(), lim_of),
                        ("velocity", chain.get_joint_velocity_limits(), lambda n: n.get("vel") or (-np.inf, np.inf)),
                        ("effort", chain.get_joint_effort_limits(), lambda n: n.get("eff") or (-np.inf, np.inf))):
        exp = [f(mv[k]) for k in names]
        cx.expect(list(map(float, got[0])) == [a for a, _ in exp] and list(map(float, got[1])) == [b for _, b in exp],
                  sig + ":" + key, lambda: "%s %s: %s wanted %s" % (lab, names, got, exp))
    q, B = qrows(spec, nq)
    for k in q:
        q[k][0] = 0.
    q = rep(q, F32)
    want = ref.fk(spec, q, B)
    th = th_of(chain, q, B)
    got = fk_all(chain, th)
    e = err_poses(got, want)
    cx.expect(e <= 4e-5 * max(1, len(nodes) // 8), sig + ":poses", lambda: "%s err=%g frames %s" % (lab, e, sorted(got)))
    root = [l for l in chain.print_tree(do_print=False).split("\n")][0]
    cx.expect(root == nodes[0]["name"], sig + ":root", lambda: "%s root %s" % (lab, root))
    if serial:
        for n in nodes:
            pth = ref.path(spec, n["name"])
            sc = pk.build_serial_chain_from_urdf(text, n["name"])
            e = R.materr(npa(sc.forward_kinematics(th_of(sc, q, B)).get_matrix()), want[n["name"]])
            cx.expect(e <= 4e-5, sig + ":serial", lambda: "%s ->%s err=%g" % (lab, n["name"], e))
            jn = [nodes[i]["jname"] for i in pth if nodes[i]["jtype"] != "fixed"]
            cx.expect(sc.get_joint_parameter_names() == jn, sig + ":serial-names", lab)
            if len(pth) > 2:
                r = nodes[pth[1]]["name"]
                sc = pk.build_serial_chain_from_urdf(text, n["name"], r)
                e = R.materr(npa(sc.forward_kinematics(th_of(sc, q, B)).get_matrix()), ref.inv(want[r]) @ want[n["name"]])
                cx.expect(e <= 4e-5, sig + ":serial-root", lambda: "%s %s->%s err=%g" % (lab, r, n["name"], e))
    cx.add(states=1, traces=1)
    cx.outcome(lab)
    return chain


def with_limits(spec, v):
    for i, n in enumerate(spec["nodes"]):
        if n["jtype"] in ("revolute", "prismatic", "continuous") and (i + v) % 3 != 2:
            n["limits"] = (-.5 * i - .25, .75 * i)
            n["vel"] = (-1.5 - i, 1.5 + i)
            n["eff"] = (-10. - i, 10. + i)
    return spec


def do_tree(case, cx):
    n = len(case["parents"])
    for ts in itertools.product(T4, repeat=n - 2):
        v = hash_(case["first"], ts)
        spec = with_limits(urdf_spec(R.make(case["parents"], [case["first"]] + list(ts), v)), v)
        for k, order in enumerate(itertools.permutations(range(n - 1))):
            text = R.to_urdf(spec, order, links_first=bool((k + v) % 2))
            judge(spec, text, cx, "tree", "%s order %s" % (R.label(spec), order), serial=(k == 0 and n <= 3))
        if n <= 3:
            for order in itertools.permutations(range(n - 1)):
                judge(spec, R.to_urdf(spec, order, links_first=False), cx, "tree", R.label(spec))
    cx.sample = text


def hash_(a, ts):
    return sum((i + 2) * T4.index(t) for i, t in enumerate([a] + list(ts)))


def do_orders(case, cx):
    n = len(case["parents"])
    for pat in ("rpf", "rfc"):
        ts = [dict(r="revolute", p="prismatic", f="fixed", c="continuous")[pat[i % 3]] for i in range(n - 1)]
        spec = with_limits(urdf_spec(R.make(case["parents"], ts, 2)), 0)
        for k, order in enumerate(itertools.permutations(range(n - 1))):
            if n > 5 and k % 5:
                continue
            judge(spec, R.to_urdf(spec, order, links_first=bool(k % 2)), cx, "order", "%s order %s" % (R.label(spec), order), nq=2)


def do_big(case, cx):
    for pat in ("rpf", "rrf", "f"):
        spec = with_limits(urdf_spec(big("b", case["parents"], pat, 1)), 0)
        n = len(case["parents"])
        for order in (None, list(range(n - 2, -1, -1)), [(7 * i) % (n - 1) for i in range(n - 1)] if (n - 1) % 7 else None):
            judge(spec, R.to_urdf(spec, order), cx, "big", case["name"] + pat)


def do_attr(case, cx):
    """all combinations of origin, axis and joint type for one joint, followed by a fixed tip"""
    origins = [(None, None), (((0, 0, 0), (0, 0, 0)), "<origin/>")]
    for o in R.OFFS:
        if o is not None:
            origins.append((o, None))
    X, A = (.3, -.2, .5), (.4, -.7, 1.1)
    origins += [((X, (0, 0, 0)), '<origin xyz="%s"/>' % R._v(X)), (((0, 0, 0), A), '<origin rpy="%s"/>' % R._v(A)),
                ((X, A), '<origin rpy="%s" xyz="%s"/>' % (R._v(A), R._v(X)))]
    for r, p, y in itertools.product((0., math.pi / 2, -math.pi / 2, math.pi), repeat=3):
        origins.append((((.1, .2, .3), (r, p, y)), None))
    combos = list(itertools.product(T4, range(len(R.AXES) + 1), origins))
    for t, a, (o, xml) in combos[case["part"]::8]:
        spec = urdf_spec(R.make([-1, 0, 1], [t, "fixed"], joffs=[o, R.OFFS[0]]))
        nd = spec["nodes"][1]
        if a == len(R.AXES):
            nd["axis"], nd["no_axis"] = default_axis(), True
        else:
            nd["axis"] = R.AXES[a]
        if xml is not None:
            nd["joff_xml"], keep = xml, nd["joff"]
            s2 = dict(nodes=[dict(x) for x in spec["nodes"]])
            s2["nodes"][1]["joff"] = None
            text = R.to_urdf(s2)
        else:
            text = R.to_urdf(spec)
        judge(spec, text, cx, "attr", "%s axis %s origin %s" % (t, nd["axis"] if a < len(R.AXES) else "default", xml or o))


def default_axis():
    """the axis the library gives a joint without an axis element, x or z (a known finding is recorded for z)"""
    chain = pk.build_chain_from_urdf(R.to_urdf(dict(nodes=[
        dict(name="a", parent=-1, jname=None, jtype="fixed", axis=None), dict(name="b", parent=0, jname="j", jtype="revolute", axis=None)])))
    ax = tuple(float(x) for x in npa(chain.get_joints()[0].axis))
    return ax if ax in ((1., 0., 0.), (0., 0., 1.)) else (1., 0., 0.)


def do_default(case, cx):
    ax = default_axis()
    cx.expect(ax != (0., 0., 1.), "default-axis-z", "a joint without an axis element turns about z")
    for t in T4:
        spec = urdf_spec(R.make([-1, 0], [t], 1))
        nd = spec["nodes"][1]
        nd["axis"], nd["no_axis"] = ax, True
        judge(spec, R.to_urdf(spec), cx, "default", t)


def do_limits(case, cx):
    forms = [("", None, None, None),
             ('<limit lower="-1.5" upper="2.5" effort="3" velocity="4"/>', (-1.5, 2.5), (-4., 4.), (-3., 3.)),
             ('<limit lower="-1.5" upper="2.5" effort="0" velocity="0"/>', (-1.5, 2.5), (-0., 0.), (-0., 0.)),
             ('<limit effort="3" velocity="4"/>', (0., 0.), (-4., 4.), (-3., 3.)),
             ('<limit upper="2.5" effort="3" velocity="4"/>', (0., 2.5), (-4., 4.), (-3., 3.)),
             ('<limit lower="-2.5" effort="3" velocity="4"/>', (-2.5, 0.), (-4., 4.), (-3., 3.)),
             ('<limit lower="0.5" upper="0.75" effort="1e3" velocity="2.5e-1"/>', (.5, .75), (-.25, .25), (-1000., 1000.)),
             ('<limit lower="-3" upper="-1" effort="10" velocity="1"/>', (-3., -1.), (-1., 1.), (-10., 10.))]
    for t, u, f, g in itertools.product(T4[:3], T4, range(len(forms)), range(len(forms))):
        spec = urdf_spec(R.make([-1, 0, 1], [t, u], 1))
        for n, (xml, lim, vel, eff) in zip(spec["nodes"][1:], (forms[f], forms[g])):
            n["limit_xml"], n["limits"], n["vel"], n["eff"] = xml, lim, vel, eff
        judge(spec, R.to_urdf(spec), cx, "limits", "%s %s / %s %s" % (t, forms[f][0], u, forms[g][0]), nq=1)


def vis(geom, origin=None, extra=""):
    return "<visual>%s<geometry>%s</geometry>%s</visual>" % (
        "" if origin is None else '<origin xyz="%s" rpy="%s"/>' % (R._v(origin[0]), R._v(origin[1])), geom, extra)


def do_visuals(case, cx):
    X, A = (.3, -.2, .5), (.4, -.7, 1.1)
    geoms = [('<box size="0.1 0.2 0.3"/>', "box", [.1, .2, .3]), ('<cylinder radius="0.25" length="0.5"/>', "cylinder", (.25, .5)),
             ('<sphere radius="0.75"/>', "sphere", .75), ('<mesh filename="package://a/b.stl"/>', "mesh", ("package://a/b.stl", None)),
             ('<mesh filename="c.dae" scale="1 2 3"/>', "mesh", ("c.dae", [1., 2., 3.]))]

    def flat(x):
        return [list(y) if isinstance(y, (list, tuple)) else y for y in x] if isinstance(x, (list, tuple)) else x

    for (g0, t0, p0), (g1, t1, p1), o in itertools.product(geoms, geoms, R.OFFS):
        spec = urdf_spec(R.make([-1, 0, 1], ["revolute", "fixed"], 2))
        spec["nodes"][0]["visual_xml"] = vis(g0, o) + vis('<sphere radius="9"/>')
        spec["nodes"][1]["visual_xml"] = vis(g1, R.OFFS[0], '<material name="m"><color rgba="1 0 0 1"/></material>') + \
            "<collision><geometry><sphere radius=\"5\"/></geometry></collision>"
        chain = judge(spec, R.to_urdf(spec), cx, "visuals", "%s %s" % (t0, t1), nq=1)
        for nd, t, p, oo in ((0, t0, p0, o), (1, t1, p1, R.OFFS[0])):
            v = chain.find_link(spec["nodes"][nd]["name"]).visuals[0]
            cx.expect(v.geom_type == t and flat(v.geom_param) == flat(p), "visual-shape", lambda: "%s %s wanted %s %s" % (v.geom_type, v.geom_param, t, p))
            M = npa(v.offset.get_matrix())[0]
            cx.expect(R.materr(M, ref.pose(*oo) if oo else np.eye(4)) < 1e-5, "visual-placement", "%s %s" % (M, oo))
        v = chain.find_link(spec["nodes"][2]["name"]).visuals
        cx.expect(all(x.geom_type is None for x in v), "visual-none", "%s" % v)
    # every list of up to three visuals over {shape} x {without origin, with an empty origin, with an origin}: the first is kept
    o3 = [(None, None), ("<origin/>", None), ('<origin xyz="%s" rpy="%s"/>' % (R._v(X), R._v(A)), (X, A))]
    alpha = [(g, o) for g in (geoms[0], geoms[2], geoms[3]) for o in o3]
    for k in (0, 1, 2, 3):
        for sel in itertools.product(range(len(alpha)), repeat=k):
            spec = urdf_spec(R.make([-1, 0, 1], ["revolute", "fixed"], 2))
            xml = "".join("<visual>%s<geometry>%s</geometry></visual>" % (o[0] or "", g[0]) for g, o in (alpha[i] for i in sel))
            spec["nodes"][k % 3]["visual_xml"] = xml
            if k < 3:
                chain = judge(spec, R.to_urdf(spec), cx, "visuals", xml, nq=1)
            else:
                chain = pk.build_chain_from_urdf(R.to_urdf(spec))
                cx.add(states=1)
            v = chain.find_link(spec["nodes"][k % 3]["name"]).visuals
            if k == 0:
                cx.expect(all(x.geom_type is None for x in v), "visual-none", "%s" % v)
                continue
            g, o = alpha[sel[0]]
            ok = len(v) >= 1 and v[0].geom_type == g[1] and flat(v[0].geom_param) == flat(g[2])
            cx.expect(ok, "visual-first", lambda: "%s: %s" % (xml, v))
            if ok:
                M = npa(v[0].offset.get_matrix())[0]
                cx.expect(R.materr(M, ref.pose(*o[1]) if o[1] else np.eye(4)) < 1e-5, "visual-first-placement", lambda: "%s: %s" % (xml, M))
            for i, nd in enumerate(spec["nodes"]):
                if i != k % 3:
                    cx.expect(all(x.geom_type is None for x in chain.find_link(nd["name"]).visuals), "visual-of-another-link", xml)
    # a link with collisions only has no visual
    spec = urdf_spec(R.make([-1, 0], ["revolute"], 2))
    spec["nodes"][1]["visual_xml"] = "<collision><geometry><box size='1 1 1'/></geometry></collision>"
    chain = judge(spec, R.to_urdf(spec), cx, "visuals", "collision only")
    cx.expect(all(x.geom_type is None for x in chain.find_link(spec["nodes"][1]["name"]).visuals), "visual-from-collision", "")


def do_extras(case, cx):
    """elements that say nothing about kinematics change nothing"""
    jx = ['<dynamics damping="0.5" friction="0.1"/>', '<safety_controller k_velocity="1" k_position="2" soft_lower_limit="-9" soft_upper_limit="9"/>',
          '<calibration rising="0.3"/>', "<!-- comment -->"]
    lx = ['<inertial><origin xyz="1 2 3" rpy="0.1 0.2 0.3"/><mass value="2"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial>',
          '<collision><origin xyz="4 5 6"/><geometry><box size="1 1 1"/></geometry></collision>', "<!-- c -->"]
    rx = ["<!-- c -->", '<material name="red"><color rgba="1 0 0 1"/></material>',
          '<gazebo reference="x"><material>Gazebo/Red</material></gazebo>',
          '<transmission name="t"><type>transmission_interface/SimpleTransmission</type><joint name="%s"><hardwareInterface>EffortJointInterface</hardwareInterface></joint>'
          '<actuator name="a"><hardwareInterface>EffortJointInterface</hardwareInterface><mechanicalReduction>1</mechanicalReduction></actuator></transmission>']
    for a, b, c in itertools.product(range(len(jx) + 1), range(len(lx) + 1), range(len(rx) + 1)):
        spec = with_limits(urdf_spec(R.make([-1, 0, 1, 0], ["revolute", "prismatic", "fixed"], a + b)), 1)
        for n in spec["nodes"]:
            n["extra_xml"] = "".join(jx) if a == len(jx) else jx[a]
            n["visual_xml"] = "".join(lx) if b == len(lx) else lx[b]
        text = R.to_urdf(spec)
        extra = "".join(rx) if c == len(rx) else rx[c]
        if "%s" in extra:
            extra = extra % spec["nodes"][1]["jname"]
        judge(spec, text.replace("</robot>", extra + "</robot>"), cx, "extras", "%d %d %d" % (a, b, c), nq=2)


def do_subsets(case, cx):
    """every subset of the elements a joint may carry besides, with and without limits, in front of and behind the rest"""
    safety = ["", '<safety_controller k_velocity="10"/>', '<safety_controller k_velocity="1" k_position="2" soft_lower_limit="-0.1" soft_upper_limit="0.1"/>',
              '<safety_controller k_velocity="1" soft_upper_limit="-9"/>']
    for (i, s), dyn, cal, typ, lim, front in itertools.product(enumerate(safety), ("", '<dynamics damping="0.5"/>', '<dynamics friction="1.5" damping="2"/>'),
                                                          ("", '<calibration rising="0.3"/>', '<calibration falling="-0.3" rising="1"/>'), T4, (0, 1), (0, 1)):
        spec = urdf_spec(R.make([-1, 0, 1], [typ, "revolute"], i))
        if lim:
            for n in spec["nodes"][1:]:
                n["limits"], n["vel"], n["eff"] = (-1.5, 2.5), (-4., 4.), (-3., 3.)
        nd = spec["nodes"][1]
        text = R.to_urdf(dict(nodes=[dict(x, extra_xml="@" if x is nd else "") for x in spec["nodes"]]))
        text = text.replace("@", "" if front else s + dyn + cal)
        head = '<joint name="%s" type="%s">' % (nd["jname"], typ)
        text = text.replace(head, head + (s + dyn + cal if front else ""))
        judge(spec, text, cx, "subsets", "%s %s %s %s %s %s" % (typ, s, dyn, cal, lim, front), nq=1)


def do_near(case, cx):
    """origins, axes and limits of several joints that nearly agree: each keeps its own"""
    A, X, U = np.array((.3, -.2, 1.1)), np.array((.5, .25, -.75)), np.array((1., 2., -2.))
    eps = [0., 1e-4, 4e-4, 2e-3, 8e-3]
    for (a, b), k, t in itertools.product(itertools.permutations(eps, 2), range(7), ("fixed", "revolute", "prismatic")):
        nodes = []
        spec = urdf_spec(R.make([-1, 0, 1, 0, 3], [t, "fixed", t, "fixed"], 0, joffs=[None] * 4))
        for i, e in ((1, a), (3, b)):
            d = np.eye(3)[k % 3] * e
            spec["nodes"][i]["joff"] = (tuple(X + d * (k < 3)), tuple(A + d * (3 <= k < 6)))
            spec["nodes"][i]["axis"] = tuple(U + (e, 0, 0)) if k == 6 else tuple(U)
            spec["nodes"][i + 1]["joff"] = ((2., -3., 4.), (0., 0., 0.))
            if t != "fixed":
                spec["nodes"][i]["limits"], spec["nodes"][i]["vel"], spec["nodes"][i]["eff"] = (-1. - e, 1. + e), (-2. - e, 2. + e), (-3. - e, 3. + e)
        names = [n["name"] for n in spec["nodes"]]
        chain = judge(spec, R.to_urdf(spec), cx, "near", "%s %g %g %d" % (t, a, b, k), nq=1)
        # relative to the arm's length, the poses are accurate in single precision
        q = {n["jname"]: np.zeros(1) for n in spec["nodes"] if n["jtype"] != "fixed"}
        want, got = ref.fk(spec, q, 1), fk_all(chain, torch.zeros(1, len(q)))
        e = R.maxerr(got[names[2]] - got[names[4]], want[names[2]] - want[names[4]])
        cx.expect(e < 2e-5, "near:difference", lambda: "%s %g %g %d: %g" % (t, a, b, k, e))


def do_single(case, cx):
    for nm in ("base", "only link", "x"):
        spec = dict(nodes=[dict(name=nm, parent=-1, jname=None, jtype="fixed", axis=(0, 0, 1.))])
        chain = pk.build_chain_from_urdf(R.to_urdf(spec))
        got = fk_all(chain, torch.zeros(2, 0))
        cx.expect(list(got) == [nm] and R.materr(got[nm], np.broadcast_to(np.eye(4), got[nm].shape)) == 0, "single-link", "%s" % got)
        cx.add(states=1, traces=1)
        cx.outcome(nm)


def do_numbers(case, cx):
    """numbers and whitespace as they occur in files"""
    fm = [lambda x: "%r" % x, lambda x: "%e" % x, lambda x: "%+.6f" % x, lambda x: "%.3E" % x, lambda x: "%g" % x]
    seps = [" ", "  ", "\t", "\n", " \n  "]
    X, A, U = (.25, -.5, 3.), (.5, -.25, 1.5), (0., -2., 1.)
    for (i, f), s, pad in itertools.product(enumerate(fm), seps, ("", " ", "\n")):
        spec = urdf_spec(R.make([-1, 0, 1], ["revolute", "fixed"], joffs=[(X, A), R.OFFS[0]], axes=[U, (0, 0, 1.)]))
        vec = lambda v: pad + s.join(f(x) for x in v) + pad  # noqa
        nd = spec["nodes"][1]
        nd["limits"], nd["vel"], nd["eff"] = (-.5, 1.25), (-2., 2.), (-8., 8.)
        text = """<?xml version="1.0"?>
<!-- a robot -->
<robot name="r">
  <link name="%s"/>
  <joint   type="revolute" name="%s" >
    <axis xyz="%s"/>
    <limit velocity="%s" effort="%s" upper="%s" lower="%s"/>
    <child link="%s"></child>
    <origin rpy="%s" xyz="%s"/>
    <parent link="%s"></parent>
  </joint>
  <link name="%s"></link>
  <link name="%s"/>
  <joint name="%s" type="fixed"><child link="%s"/><parent link="%s"/><origin xyz="%s" rpy="%s"/></joint>
</robot>
""" % (spec["nodes"][2]["name"], nd["jname"], vec(U), f(2.), f(8.), f(1.25), f(-.5), nd["name"], vec(A), vec(X), spec["nodes"][0]["name"],
            nd["name"], spec["nodes"][0]["name"], spec["nodes"][2]["jname"], spec["nodes"][2]["name"], nd["name"], R._v(R.OFFS[0][0]), R._v(R.OFFS[0][1]))
        judge(spec, text, cx, "numbers", "format %d sep %r" % (i, s))
        judge(spec, text.encode(), cx, "numbers-bytes", "format %d sep %r" % (i, s))


def do_errors(case, cx):
    for t in ("floating", "planar", "ball", ""):
        spec = urdf_spec(R.make([-1, 0], ["fixed"], 1))
        text = R.to_urdf(spec).replace('type="fixed"', 'type="%s"' % t)
        cx.expect(raises(pk.build_chain_from_urdf, text), "unsupported-type-accepted", t)
        cx.add(states=1)
        cx.outcome(t)
    spec = urdf_spec(R.make([-1, 0], ["fixed"], 1))
    cx.expect(raises(pk.build_serial_chain_from_urdf, R.to_urdf(spec), "nope"), "unknown-end", "")
    cx.add(states=1)


def read_urdf(text):
    """independent reader: description in our own form"""
    root = ET.fromstring(text)
    links = [l.get("name") for l in root.findall("link")]
    js = root.findall("joint")
    vec = lambda e, k, d: tuple(float(x) for x in e.get(k, d).split()) if e is not None else tuple(float(x) for x in d.split())  # noqa
    child = {j.find("child").get("link"): j for j in js}
    base = [l for l in links if l not in child]
    assert len(base) == 1
    order, nodes = [base[0]], []
    idx = {}
    while order:
        l = order.pop(0)
        idx[l] = len(nodes)
        j = child.get(l)
        if j is None:
            nodes.append(dict(name=l, parent=-1, jname=None, jtype="fixed", axis=(0, 0, 1.), joff=None))
        else:
            o, ax, lim = j.find("origin"), j.find("axis"), j.find("limit")
            nd = dict(name=l, parent=idx[j.find("parent").get("link")], jname=j.get("name"), jtype=j.get("type"),
                      axis=(vec(ax, "xyz", "") if ax is not None else default_axis()), joff=(vec(o, "xyz", "0 0 0"), vec(o, "rpy", "0 0 0")))
            if lim is not None:
                nd["limits"] = (float(lim.get("lower", 0)), float(lim.get("upper", 0)))
                nd["vel"] = (-float(lim.get("velocity")), float(lim.get("velocity")))
                nd["eff"] = (-float(lim.get("effort")), float(lim.get("effort")))
            nodes.append(nd)
        order += [j2.find("child").get("link") for j2 in js if j2.find("parent").get("link") == l]
    return dict(nodes=nodes)


def do_file(case, cx):
    text = open(case["path"], "rb").read()
    spec = read_urdf(text)
    judge(spec, text, cx, "file", case["name"], nq=6, serial=len(spec["nodes"]) < 20)
    cx.sample = case["path"]
