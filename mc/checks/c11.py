"""All SDF descriptions over an alphabet: every tree and joint type, every order of the link and joint elements, poses of
all shapes (missing, translation, quarter and half turns, generic; on the root link too), axes, every combination of
limit bounds; the loaded chain is compared with the description through the reference (each link at its model-frame pose
at zero joint values, moved about the axis given in the child link's frame)."""
import itertools
import math
import os
import xml.etree.ElementTree as ET

import numpy as np
import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="trees n<=4, 3 joint types, all orders of joints x rotations of links; all pose/axis/limit forms; simple_arm.sdf",
              thorough="n=5 with all orders of the joints, larger trees")
T3 = ["revolute", "prismatic", "fixed"]
REPO = os.environ.get("VERIF_REPO", "/repo")
# model-frame poses
POSES = [((.3, -.2, .5), (.4, -.7, 1.1)), None, ((0., .4, -.1), (0., 0., 0.)), ((0., 0., 0.), (math.pi / 2, 0., -math.pi / 2)),
         ((-.6, 0., .2), (0., 1.3, 0.)), ((.1, .2, .3), (math.pi, 0., .2)), ((1.5, -2.5, .7), (-.3, .2, -2.9)),
         ((0., 0., 1.), (0., 0., .5)), ((.2, 0., 0.), (.6, 0., 0.))]


def cases(tier):
    out = [dict(name="poses-%d" % i, kind="poses", part=i) for i in range(6)]
    out += [dict(name=k, kind=k) for k in ("limits", "single", "extras", "optional", "file", "jointpose", "serial")]
    for n in (2, 3, 4):
        for p in R.parent_arrays(n):
            for t0 in T3:
                out.append(dict(name="tree-%s-%s" % (".".join(map(str, p)), t0), kind="tree", parents=list(p), first=t0))
    for p in R.parent_arrays(5):
        out.append(dict(name="tree5-%s" % ".".join(map(str, p)), kind="orders", parents=list(p), step=1 if tier == "thorough" else 4))
    for nm, p in shapes():
        if len(p) > 40 and tier == "quick":
            continue
        out.append(dict(name="big-" + nm, kind="big", parents=p))
    if tier == "thorough":
        for p in R.parent_arrays(6):
            out.append(dict(name="tree6-%s" % ".".join(map(str, p)), kind="orders", parents=list(p), step=7))
    return out


def run(case, cx):
    globals()["do_" + case["kind"]](case, cx)
    if cx.sample is None:
        cx.sample = {k: v for k, v in case.items() if k != "kind"}


def with_poses(spec, poses):
    """attach model-frame poses and the resulting relative offsets"""
    for i, n in enumerate(spec["nodes"]):
        n["joff"] = n["loff"] = None
        n["sdf_pose"] = poses[i]
        M = ref.pose(*poses[i]) if poses[i] else np.eye(4)
        n["M"] = M
        n["jmat"] = M if n["parent"] < 0 else ref.inv(spec["nodes"][n["parent"]]["M"]) @ M
    return spec


def auto(spec, v):
    return with_poses(spec, [POSES[(3 * i + v) % len(POSES)] for i in range(len(spec["nodes"]))])


def lim_of(n):
    if n["jtype"] == "fixed" or n.get("limits") is None:
        return (-np.inf, np.inf)
    lo, hi = n["limits"]
    return (-np.inf if lo is None else lo, np.inf if hi is None else hi)


def judge(spec, text, cx, sig, lab, nq=4):
    chain = pk.build_chain_from_sdf(text)
    nodes = spec["nodes"]
    mv = {n["jname"]: n for n in nodes if n["jtype"] != "fixed"}
    names = chain.get_joint_parameter_names()
    cx.expect(sorted(names) == sorted(mv), sig + ":joint-names", lambda: "%s %s" % (lab, names))
    if sorted(names) != sorted(mv):
        return chain
    alln = chain.get_joint_parameter_names(exclude_fixed=False)
    cx.expect(sorted(alln[-len(nodes) + 1:] if len(nodes) > 1 else []) == sorted(n["jname"] for n in nodes[1:]), sig + ":all-joint-names",
              lambda: "%s %s" % (lab, alln))
    for j in chain.get_joints():
        n = mv[j.name]
        cx.expect(j.joint_type == n["jtype"], sig + ":type", lab)
        cx.expect(R.maxerr(npa(j.axis), ref.unit(n["axis"])) < 1e-6, sig + ":axis", "%s %s %s" % (lab, j.name, j.axis))
    got = chain.get_joint_limits()
    exp = [lim_of(mv[k]) for k in names]
    cx.expect(list(map(float, got[0])) == [a for a, _ in exp] and list(map(float, got[1])) == [b for _, b in exp], sig + ":limits",
              lambda: "%s %s %s" % (lab, got, exp))
    q, B = qrows(spec, nq)
    for k in q:
        q[k][0] = 0.
    q = rep(q, F32)
    want = ref.fk(spec, q, B)
    # the first row is the description itself: every link at its pose
    for n in nodes:
        assert R.materr(want[n["name"]][0], n["M"]) < 1e-9
    g = fk_all(chain, th_of(chain, q, B))
    e = err_poses(g, want)
    cx.expect(e <= 4e-5 * max(1, len(nodes) // 8), sig + ":poses", lambda: "%s err=%g frames %s" % (lab, e, sorted(g)))
    root = chain.print_tree(do_print=False).split("\n")[0]
    cx.expect(root == nodes[0]["name"], sig + ":root", lambda: "%s root %s" % (lab, root))
    cx.add(states=1, traces=1)
    cx.outcome(lab)
    return chain


def with_limits(spec, v):
    forms = [(-.5, .75), None, (None, 1.25), (-2., None), (None, None), (.25, .5)]
    for i, n in enumerate(spec["nodes"]):
        if n["jtype"] != "fixed":
            n["limits"] = forms[(i + v) % len(forms)]
    return spec


def hash_(ts):
    return sum((i + 2) * T3.index(t) for i, t in enumerate(ts))


def rots(n):
    return [[(i + k) % n for i in range(n)] for k in range(n)] + [list(range(n - 1, -1, -1))]


def do_tree(case, cx):
    n = len(case["parents"])
    for ts in itertools.product(T3, repeat=n - 2):
        v = hash_([case["first"]] + list(ts))
        spec = with_limits(auto(R.make(case["parents"], [case["first"]] + list(ts), v), v), v)
        lo = rots(n)
        for k, order in enumerate(itertools.permutations(range(n - 1))):
            for l in (lo if n <= 3 else [lo[(k + v) % len(lo)]]):
                text = R.to_sdf(spec, order, l)
                judge(spec, text, cx, "tree", "%s order %s %s" % (R.label(spec), order, l))
    cx.sample = text


def do_orders(case, cx):
    n = len(case["parents"])
    for pat in ("rpf", "frp"):
        ts = [dict(r="revolute", p="prismatic", f="fixed")[pat[i % 3]] for i in range(n - 1)]
        spec = with_limits(auto(R.make(case["parents"], ts, 2), 1), 0)
        lo = rots(n)
        for k, order in enumerate(itertools.permutations(range(n - 1))):
            if k % case["step"]:
                continue
            judge(spec, R.to_sdf(spec, order, lo[k % len(lo)]), cx, "order", "%s order %s" % (R.label(spec), order), nq=2)


def do_big(case, cx):
    for pat in ("rpf", "rrf", "f"):
        spec = big("b", case["parents"], pat, 1)
        n = len(case["parents"])
        with_limits(with_poses(spec, [POSES[(5 * i + 2) % len(POSES)] for i in range(n)]), 0)
        for order in (None, list(range(n - 2, -1, -1))):
            judge(spec, R.to_sdf(spec, order), cx, "big", case["name"] + pat, nq=2)


def do_poses(case, cx):
    """all triples of link poses (root, middle, tip) x joint types; all quarter turns; all axes"""
    combos = list(itertools.product(range(len(POSES)), repeat=3))
    for k, (a, b, c) in list(enumerate(combos))[case["part"]::6]:
        for t in T3:
            spec = with_poses(R.make([-1, 0, 1], [t, T3[k % 3]], k), [POSES[a], POSES[b], POSES[c]])
            judge(spec, R.to_sdf(spec), cx, "poses", "%s %s %s %s" % (t, a, b, c), nq=3)
    h = math.pi / 2
    for rpy in list(itertools.product((0., h, -h, math.pi), repeat=3))[case["part"]::6]:
        for t, ax in itertools.product(T3[:2], R.AXES):
            spec = R.make([-1, 0], [t], axes=[ax])
            judge(with_poses(spec, [POSES[0], ((.1, .2, .3), rpy)]), R.to_sdf(spec), cx, "axes", "%s %s %s" % (t, ax, rpy), nq=3)


def do_limits(case, cx):
    lo, hi = [None, "-1.5", "0", "0.25", "-1e16"], [None, "2.5", "0", "0.5", "1e16"]
    forms = [("", None)]
    for a, b, swap in itertools.product(lo, hi, (False, True)):
        x, y = "" if a is None else "<lower>%s</lower>" % a, "" if b is None else "<upper>%s</upper>" % b
        forms.append(("<limit>%s</limit>" % (y + x if swap else x + y), (None if a is None else float(a), None if b is None else float(b))))
    for t, (xml, lim) in itertools.product(T3, forms):
        for second in (0, 1, 7, 20):
            spec = auto(R.make([-1, 0, 1], [t, "revolute"], 1), 1)
            for n, (x, l) in zip(spec["nodes"][1:], ((xml, lim), forms[second])):
                n["limit_xml"], n["limits"] = x, l
            judge(spec, R.to_sdf(spec), cx, "limits", "%s %s %d" % (t, xml, second), nq=1)


def do_single(case, cx):
    for i, p in enumerate(POSES):
        spec = with_poses(R.make([-1], [], i), [p])
        judge(spec, R.to_sdf(spec), cx, "single", "%s" % (p,))


def do_extras(case, cx):
    """elements that say nothing about kinematics, numbers as they occur in files"""
    jx = ["", "<!-- c -->"]
    ax = ["", "<dynamics><damping>0.5</damping><friction>0.1</friction></dynamics>", "<use_parent_model_frame>0</use_parent_model_frame>"]
    lx = ["", "<collision name='c'><pose>4 5 6 1 2 3</pose><geometry><box><size>1 1 1</size></box></geometry></collision>",
          "<visual name='v'><pose>4 5 6 1 2 3</pose><geometry><box><size>1 2 3</size></box></geometry></visual>",
          "<visual name='v'><geometry><sphere><radius>2</radius></sphere></geometry></visual><!-- c -->",
          "<visual name='v'><geometry><cylinder><radius>1</radius><length>2</length></cylinder></geometry></visual>"]
    mx = ["", "<!-- c -->"]
    for a, b, c, d in itertools.product(range(2), range(3), range(5), range(2)):
        spec = with_limits(auto(R.make([-1, 0, 1, 0], ["revolute", "prismatic", "fixed"], a + b), c), d)
        for n in spec["nodes"]:
            n["extra_xml"], n["visual_xml"] = jx[a], lx[c]
        text = R.to_sdf(spec).replace("</axis>", ax[b] + "</axis>").replace("</model>", mx[d] + "</model>")
        judge(spec, text, cx, "extras", "%d %d %d %d" % (a, b, c, d), nq=2)
    X, A = (.25, -.5, 3.), (.5, -.25, 1.5)
    for f, sep, pad in itertools.product(["%r", "%e", "%+.6f", "%.3E", "%g"], [" ", "  ", "\t", "\n", " \n  "], ["", " ", "\n"]):
        spec = with_poses(R.make([-1, 0], ["revolute"], 0, axes=[(0., -2., 1.)]), [None, (X, A)])
        text = R.to_sdf(spec)
        old = "<pose>%s %s</pose>" % (R._v(X), R._v(A))
        assert old in text
        text = text.replace(old, "<pose>%s</pose>" % (pad + sep.join(f % x for x in X + A) + pad))
        text = text.replace("<xyz>%s</xyz>" % R._v((0., -2., 1.)), "<xyz>%s</xyz>" % (pad + sep.join(f % x for x in (0., -2., 1.)) + pad))
        judge(spec, text, cx, "numbers", "%s %r %r" % (f, sep, pad), nq=2)
        judge(spec, text.encode(), cx, "numbers", "%s %r %r" % (f, sep, pad), nq=2)
    for t in ("ball", "universal", "screw", "revolute2", "gearbox", "nonsense"):
        spec = auto(R.make([-1, 0], ["fixed"], 1), 0)
        cx.expect(raises(pk.build_chain_from_sdf, R.to_sdf(spec).replace('type="fixed"', 'type="%s"' % t)), "unsupported-type-accepted", t)


def do_optional(case, cx):
    """links without inertia and joints without an axis (z, where there is motion), in every combination"""
    for n in (1, 2, 3):
        for p in R.parent_arrays(n):
            for ts in itertools.product(T3, repeat=n - 1):
                for inert, axis in itertools.product(itertools.product((True, False), repeat=n), itertools.product((True, False), repeat=n - 1)):
                    spec = auto(R.make(p, list(ts), 1), n)
                    for nd, has in zip(spec["nodes"][1:], axis):
                        if not has:
                            nd["axis"], nd["limits"] = (0., 0., 1.), None
                        elif nd["jtype"] != "fixed":
                            nd["limits"] = (-1., .5)
                    text = R.to_sdf(spec)
                    assert text.count(R.INERT) == n
                    parts = text.split(R.INERT)
                    text = parts[0] + "".join((R.INERT if h else "") + x for h, x in zip(inert, parts[1:]))
                    for nd, has in zip(spec["nodes"][1:], axis):
                        if not has:
                            a, b = text.split('<joint name="%s"' % nd["jname"])
                            i, j = b.index("<axis>"), b.index("</axis>") + len("</axis>")
                            text = a + '<joint name="%s"' % nd["jname"] + b[:i] + b[j:]
                    judge(spec, text, cx, "optional", "%s %s %s" % (R.label(spec), inert, axis), nq=3)


def do_serial(case, cx):
    for n in (2, 3, 4):
        for p in R.parent_arrays(n):
            for pat in ("rpf", "frp", "prr"):
                spec = with_limits(auto(R.make(p, [dict(r="revolute", p="prismatic", f="fixed")[pat[i % 3]] for i in range(n - 1)], 1), n), 1)
                text = R.to_sdf(spec, list(range(n - 1))[::-1])
                q, B = qrows(spec, 3)
                q = rep(q, F32)
                want = ref.fk(spec, q, B)
                for end in spec["nodes"]:
                    for root in [None] + [spec["nodes"][i] for i in ref.path(spec, end["name"])]:
                        sc = pk.build_serial_chain_from_sdf(text, end["name"], *([root["name"]] if root else []))
                        g = npa(sc.forward_kinematics(th_of(sc, q, B)).get_matrix())
                        w = ref.inv(want[(root or spec["nodes"][0])["name"]]) @ want[end["name"]]
                        cx.expect(R.materr(g, w) <= 4e-5, "serial", "%s %s->%s" % (R.label(spec), root and root["name"], end["name"]))
                        cx.add(states=1, traces=1)
                        cx.outcome(R.label(spec), end["name"], root and root["name"])


def do_jointpose(case, cx):
    """a joint's own <pose> moves the point and the frame the joint's axis is given in (known finding: it is ignored)"""
    jp = ((.1, -.2, .3), (.5, .2, -.4))
    for t in ("revolute", "prismatic"):
        spec = auto(R.make([-1, 0], [t], 1), 0)
        nd = spec["nodes"][1]
        nd["extra_xml"] = "<pose>%s %s</pose>" % (R._v(jp[0]), R._v(jp[1]))
        chain = pk.build_chain_from_sdf(R.to_sdf(spec))
        q, B = qrows(spec, 3)
        q = rep(q, F32)
        g = fk_all(chain, th_of(chain, q, B))[nd["name"]]
        P, base = ref.pose(*jp), nd["M"]
        right = base @ P @ ref.motion(nd, q[nd["jname"]]) @ ref.inv(P)
        ignored = base @ ref.motion(nd, q[nd["jname"]])
        if R.materr(g, right) > 4e-5:
            cx.fail("joint-pose-ignored" if R.materr(g, ignored) < 4e-5 else "joint-pose", "%s" % t)
        cx.add(states=1, transitions=1)
        cx.outcome(t)


def do_file(case, cx):
    text = open(os.path.join(REPO, "tests", "simple_arm.sdf"), "rb").read()
    root = ET.fromstring(text)
    model = root.find("model")
    pose = {}
    for l in model.findall("link"):
        e = l.find("pose")
        v = [float(x) for x in e.text.split()] if e is not None else None
        pose[l.get("name")] = None if v is None else (tuple(v[:3]), tuple(v[3:]))
    js = model.findall("joint")
    child = {j.find("child").text: j for j in js}
    base = [l for l in pose if l not in child]
    nodes, order, idx = [], [base[0]], {}
    while order:
        l = order.pop(0)
        idx[l] = len(nodes)
        j = child.get(l)
        if j is None:
            nodes.append(dict(name=l, parent=-1, jname=None, jtype="fixed", axis=(0, 0, 1.)))
        else:
            lim = j.find("axis/limit")
            b = lambda k: None if lim is None or lim.find(k) is None else float(lim.find(k).text)  # noqa
            nodes.append(dict(name=l, parent=idx[j.find("parent").text], jname=j.get("name"), jtype=j.get("type"),
                              axis=tuple(float(x) for x in j.find("axis/xyz").text.split()), limits=(b("lower"), b("upper"))))
        order += [j2.find("child").text for j2 in js if j2.find("parent").text == l]
    spec = with_poses(dict(nodes=nodes), [pose[n["name"]] for n in nodes])
    judge(spec, text, cx, "file", "simple_arm", nq=6)
    cx.sample = "simple_arm.sdf"
