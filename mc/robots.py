"""Robot descriptions: enumeration of trees and builders for every way the library can be given a robot.

spec = {"nodes": [{name, parent (index, -1 for the root), jname, jtype, axis, joff, loff, limits, vel, eff}]}
with parents before children; offsets are ((x,y,z),(roll,pitch,yaw)) or None.
"""
import itertools
import math

import numpy as np

from . import ref

# offsets: generic, translation only, rotation only (quarter / half turns), none, negative, larger
OFFS = [((.3, -.2, .5), (.4, -.7, 1.1)), ((0., .4, -.1), (0., 0., 0.)), None, ((0., 0., 0.), (math.pi / 2, 0., -math.pi / 2)),
        ((-.6, 0., .2), (0., 1.3, 0.)), ((.1, .2, .3), (math.pi, 0., .2)), ((1.5, -2.5, .7), (-.3, .2, -2.9)),
        # a small tilt and shift, as calibration gives, and one close to a half turn
        ((.2, 3e-3, -.1), (.004, -.006, .003)), ((-1e-3, 2e-3, .8), (-.002, .003, math.pi - .004))]
AXES = [(0., 0., 1.), (1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (1., 2., -2.), (-3., 0., 4.), (0., 0., -.5), (-.2, -.3, .6)]
LOFFS = [None, ((.05, .1, -.15), (.2, .1, -.3)), None, ((0., 0., .25), (0., 0., 0.))]
NAMES = ["base", "a1", "a10", "a", "Zed", "b_link", "a2", "0tip", "mid", "arm_1", "arm", "q"]
JNAMES = ["r0", "jz", "jz2", "j", "A", "joint10", "joint1", "joint2", "zz", "b", "k9", "k"]


def parent_arrays(n):
    """all rooted ordered trees with n nodes, as depth-first parent arrays"""
    def go(p, spine):
        if len(p) == n:
            yield tuple(p)
            return
        i = len(p)
        for k in range(len(spine), 0, -1):
            yield from go(p + [spine[k - 1]], spine[:k] + [i])
    yield from go([-1], [0])


def trees(n, types=("revolute", "prismatic", "fixed"), variant=0):
    """all trees with n frames and all assignments of joint types; attributes from the alphabets by variant"""
    for p in parent_arrays(n):
        for ts in itertools.product(types, repeat=n - 1):
            yield make(p, ts, variant)


def _pick(given, pool, i, v, pat):
    if given is not None:
        return given[i]
    return pool[(i + v) % len(pool)] if i < len(pool) else pat % i


def make(parents, types, variant=0, names=None, jnames=None, axes=None, joffs=None, loffs=None, root_loff=None):
    nodes = []
    n = len(parents)
    v = variant
    for i in range(n):
        nm = _pick(names, NAMES, i, v, "f%d")
        if i == 0:
            nodes.append(dict(name=nm, parent=-1, jname=None, jtype="fixed", axis=(0., 0., 1.), joff=None, loff=root_loff))
            continue
        jn = _pick(jnames, JNAMES, i, v, "joint_%d")
        nodes.append(dict(
            name=nm, parent=parents[i], jname=jn, jtype=types[i - 1],
            axis=(axes[i - 1] if axes else AXES[(3 * i + 5 * v) % len(AXES)]),
            joff=(joffs[i - 1] if joffs else OFFS[(i + 2 * v) % len(OFFS)]),
            loff=(loffs[i - 1] if loffs else LOFFS[(i + v) % len(LOFFS)])))
    return dict(nodes=nodes)


def chain_spec(types, variant=0, **kw):
    return make([-1] + list(range(len(types))), types, variant, **kw)


def label(spec):
    s = []
    for n in spec["nodes"]:
        s.append("%s<%d:%s" % (n["name"], n["parent"], n["jtype"][0]))
    return ",".join(s)


# ------------------------------------------------------------------ builders
def tf3(off, dtype):
    import torch
    import pytorch_kinematics as pk
    if off is None:
        return None
    m = ref.pose(*off)
    return pk.Transform3d(matrix=torch.tensor(m, dtype=dtype).reshape(1, 4, 4))


def frames(spec, dtype, ctor=False):
    import pytorch_kinematics as pk
    from pytorch_kinematics.frame import Frame, Link, Joint
    fs = []
    for n in spec["nodes"]:
        j = Joint(n["jname"], offset=tf3(n.get("joff"), dtype), joint_type="revolute" if n["jtype"] == "continuous" else n["jtype"],
                  axis=n["axis"], dtype=dtype, limits=_lim(n.get("limits")), velocity_limits=_lim(n.get("vel")),
                  effort_limits=_lim(n.get("eff")))
        f = Frame(n["name"], link=Link(n.get("lname", n["name"]), offset=tf3(n.get("loff"), dtype)), joint=j)
        fs.append(f)
        if n["parent"] >= 0 and not ctor:
            fs[n["parent"]].add_child(f)
    if ctor:
        # the other way to put a robot together: children given to the constructor, leaves first
        for i in reversed(range(len(fs))):
            kids = [fs[k] for k, n in enumerate(spec["nodes"]) if n["parent"] == i]
            fs[i] = Frame(fs[i].name, link=fs[i].link, joint=fs[i].joint, children=kids)
            kids.clear()  # the list is the caller's
    return fs


def _lim(x):
    return None if x is None else tuple(x)


def build(spec, dtype=None, ctor=False):
    """programmatic chain in the given dtype"""
    import torch
    import pytorch_kinematics as pk
    dtype = dtype or torch.float64
    return pk.Chain(frames(spec, dtype, ctor)[0], dtype=dtype)


def _f(x):
    return repr(float(x))


def _v(xs):
    return " ".join(_f(x) for x in xs)


def to_urdf(spec, order=None, links_first=True, rotate=0, robot="r"):
    """URDF text; order = permutation of the joint elements; link offsets are written as <origin> of the link."""
    nodes = spec["nodes"]
    ls, js = [], []
    for n in nodes:
        inner = ""
        if n.get("loff"):
            inner += '<origin xyz="%s" rpy="%s"/>' % (_v(n["loff"][0]), _v(n["loff"][1]))
        inner += n.get("visual_xml", "")
        ls.append('<link name="%s">%s</link>' % (n["name"], inner))
    for i, n in enumerate(nodes):
        if n["parent"] < 0:
            continue
        s = '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/>' % (
            n["jname"], n["jtype"], nodes[n["parent"]]["name"], n["name"])
        if n.get("joff"):
            s += '<origin xyz="%s" rpy="%s"/>' % (_v(n["joff"][0]), _v(n["joff"][1]))
        elif n.get("joff_xml"):
            s += n["joff_xml"]
        if n.get("axis") is not None and not n.get("no_axis"):
            s += '<axis xyz="%s"/>' % _v(n["axis"])
        if "limit_xml" in n:
            s += n["limit_xml"]
        elif n.get("limits") is not None or n.get("vel") is not None:
            lo, hi = n.get("limits") or (0, 0)
            s += '<limit lower="%s" upper="%s" velocity="%s" effort="%s"/>' % (_f(lo), _f(hi), _f((n.get("vel") or (0, 1))[1]), _f((n.get("eff") or (0, 1))[1]))
        s += n.get("extra_xml", "") + "</joint>"
        js.append(s)
    if order is not None:
        js = [js[k] for k in order]
        ls = [ls[k] for k in _perm_links(order, len(ls))]
    body = ls + js if links_first else js + ls
    return '<?xml version="1.0"?><robot name="%s">%s</robot>' % (robot, "".join(body))


def _perm_links(order, n):
    # links in an order derived from the joints' permutation (rotation + reversal), so that it varies as well
    k = (order[0] if order else 0) + 1
    return [(n - 1 - ((i + k) % n)) for i in range(n)]


INERT = "<inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial>"


def to_sdf(spec, order=None, link_order=None, robot="m"):
    """SDF text; node['sdf_pose'] = ((xyz),(rpy)) in the model frame (None: element left out)."""
    nodes = spec["nodes"]
    ls, js = [], []
    for n in nodes:
        p = n.get("sdf_pose")
        ls.append('<link name="%s">%s%s%s</link>' % (
            n["name"], "" if p is None else "<pose>%s %s</pose>" % (_v(p[0]), _v(p[1])), INERT, n.get("visual_xml", "")))
    for n in nodes:
        if n["parent"] < 0:
            continue
        lim = n.get("limit_xml", "")
        if not lim and n.get("limits") is not None:
            lim = "<limit>%s%s</limit>" % tuple("" if b is None else "<%s>%s</%s>" % (t, _f(b), t) for t, b in
                                                zip(("lower", "upper"), n["limits"]))
        js.append('<joint name="%s" type="%s">%s<parent>%s</parent><child>%s</child><axis><xyz>%s</xyz>%s</axis></joint>' % (
            n["jname"], n["jtype"], n.get("extra_xml", ""), nodes[n["parent"]]["name"], n["name"], _v(n["axis"]), lim))
    if order is not None:
        js = [js[k] for k in order]
    if link_order is not None:
        ls = [ls[k] for k in link_order]
    return '<?xml version="1.0"?><sdf version="1.6"><model name="%s">%s</model></sdf>' % (robot, "".join(ls + js))


def grid(values):
    """full product of per-joint value lists -> (B, n) array"""
    if not values:
        return np.zeros((1, 0))
    return np.array(list(itertools.product(*values)), dtype=float)


def materr(a, b):
    """largest error of 4x4 (or k x l) matrices, each relative to max(1, its largest entry)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.
    s = np.maximum(1., np.abs(b).max(axis=(-1, -2), keepdims=True))
    d = np.abs(a - b) / s
    return float(d.max()) if np.isfinite(d).all() else float("inf")


def maxerr(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.
    d = np.abs(a - b) / np.maximum(1., np.abs(b))
    if not np.isfinite(a).all():
        # infinities that agree are fine (limits), anything else is not
        same = (a == b)
        d = np.where(same, 0., d)
        return float("inf") if not np.isfinite(d).all() else float(d.max())
    d = np.where(a == b, 0., d)
    return float(d.max())
