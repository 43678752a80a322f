"""Robot descriptions as objects.  For every element of the URDF and SDF formats: every subset of its optional attributes
and children, in rotated and reversed order, in several spellings of the numbers, with anything ignorable mixed in; the
object read must say what the text says (an independent table of the formats is the oracle), and so must the text it is
written to, read by an independent reader and by the library again, and its readable form.  Every required part left out
and every value that is not of its type must be refused; every value changed on the object must arrive in the text.  The
queries of the description (root, path between links, maps) are compared with the tree for every tree and element order,
and for every sequence of additions and removals up to a depth."""
import contextlib
import io
import itertools
import xml.etree.ElementTree as ET

import yaml
from lxml import etree

import pytorch_kinematics as pk
from pytorch_kinematics.urdf_parser_py import urdf as U, sdf as S
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="every subset of optional parts of each of the 37 elements x 3 spellings x 3 orders; each required part removed; each value damaged in 4 ways and changed; trees n<=5 x all joint orders; edits up to depth 4",
              thorough="trees n<=6, edits up to depth 6, pairs of elements filled at the same time")

F, ST, B, V3, V4, V6 = "float", "str", "bool", 3, 4, 6
REQ = "required"


class El:
    """an element of a format: attributes and scalar children {name: (type, REQ or default)}, lists {name: variable}"""

    def __init__(self, attrs=(), kids=(), lists=(), value=None, one_of=None):
        self.attrs, self.kids, self.lists, self.value, self.one_of = dict(attrs), dict(kids), dict(lists), value, one_of


def text_el(t):
    return El(value=("text", t))


def attr_el(a, t):
    return El(value=(a, t))


URDF = {
    "origin": El({"xyz": (V3, [0, 0, 0]), "rpy": (V3, [0, 0, 0])}),
    "box": El({"size": (V3, REQ)}), "sphere": El({"radius": (F, REQ)}),
    "cylinder": El({"radius": (F, REQ), "length": (F, REQ)}), "capsule": El({"radius": (F, REQ), "length": (F, REQ)}),
    "mesh": El({"filename": (ST, REQ), "scale": (V3, None)}),
    "geometry": El(one_of=["box", "sphere", "cylinder", "capsule", "mesh"]),
    "color": El({"rgba": (V4, REQ)}), "texture": El({"filename": (ST, REQ)}),
    "material": El({"name": (ST, REQ)}, {"color": ("color", None), "texture": ("texture", None)}),
    "visual": El({}, {"origin": ("origin", None), "geometry": ("geometry", REQ), "material": ("material", None)}),
    "collision": El({}, {"origin": ("origin", None), "geometry": ("geometry", REQ)}),
    "mass": attr_el("value", F), "inertia": El({k: (F, REQ) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")}),
    "inertial": El({}, {"origin": ("origin", None), "mass": ("mass", REQ), "inertia": ("inertia", None)}),
    "axis": attr_el("xyz", V3), "parent": attr_el("link", ST), "child": attr_el("link", ST),
    "limit": El({"effort": (F, REQ), "lower": (F, 0), "upper": (F, 0), "velocity": (F, REQ)}),
    "dynamics": El({"damping": (F, None), "friction": (F, None)}),
    "safety_controller": El({"k_velocity": (F, REQ), "k_position": (F, 0), "soft_lower_limit": (F, 0), "soft_upper_limit": (F, 0)}),
    "calibration": El({"rising": (F, 0), "falling": (F, 0)}),
    "mimic": El({"joint": (ST, REQ), "multiplier": (F, None), "offset": (F, None)}),
    "joint": El({"name": (ST, REQ), "type": (ST, REQ)},
                {"origin": ("origin", None), "axis": ("axis", None), "parent": ("parent", REQ), "child": ("child", REQ), "limit": ("limit", None),
                 "dynamics": ("dynamics", None), "safety_controller": ("safety_controller", None), "calibration": ("calibration", None), "mimic": ("mimic", None)}),
    "link": El({"name": (ST, REQ)}, {"origin": ("origin", None), "inertial": ("inertial", None)}, {"visual": "visuals", "collision": "collisions"}),
    "robot": El({"name": (ST, None)}, {}, {"link": "links", "joint": "joints", "material": "materials"}),
}
SDF = {
    "pose": text_el(V6), "mass": text_el(F), "size": text_el(V3), "radius": text_el(F), "length": text_el(F), "filename": text_el(ST), "scale": text_el(V3),
    "uri": text_el(ST), "name": text_el(ST), "lower": text_el(F), "upper": text_el(F), "damping": text_el(F), "friction": text_el(F), "xyz": text_el(V3),
    "use_parent_model_frame": text_el(B), "parent": text_el(ST), "child": text_el(ST),
    "ixx": text_el(F), "ixy": text_el(F), "ixz": text_el(F), "iyy": text_el(F), "iyz": text_el(F), "izz": text_el(F),
    "box": El({}, {"size": ("size", REQ)}), "sphere": El({}, {"radius": ("radius", REQ)}), "cylinder": El({}, {"radius": ("radius", REQ), "length": ("length", REQ)}),
    "mesh": El({}, {"filename": ("filename", REQ), "scale": ("scale", None)}),
    "geometry": El(one_of=["box", "sphere", "cylinder", "mesh"]),
    "inertia": El({}, {k: (k, REQ) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")}),
    "inertial": El({}, {"mass": ("mass", REQ), "inertia": ("inertia", REQ), "pose": ("pose", None)}),
    "script": El({}, {"name": ("name", None), "uri": ("uri", None)}),
    "material": El({"name": (ST, None)}, {"script": ("script", None)}),
    "visual": El({"name": (ST, None)}, {"geometry": ("geometry", REQ), "material": ("material", None), "pose": ("pose", None)}),
    "collision": El({"name": (ST, None)}, {"geometry": ("geometry", REQ), "pose": ("pose", None)}),
    "dynamics": El({}, {"damping": ("damping", None), "friction": ("friction", None)}),
    "limit": El({}, {"lower": ("lower", None), "upper": ("upper", None)}),
    "axis": El({}, {"xyz": ("xyz", REQ), "limit": ("limit", None), "dynamics": ("dynamics", None), "use_parent_model_frame": ("use_parent_model_frame", None)}),
    "joint": El({"name": (ST, None), "type": (ST, None)}, {"axis": ("axis", None), "parent": ("parent", REQ), "child": ("child", REQ), "pose": ("pose", None)}),
    "link": El({"name": (ST, None), "kinematic": (B, None)}, {"inertial": ("inertial", None), "pose": ("pose", None)}, {"visual": "visuals", "collision": "collisions"}),
    "model": El({"name": (ST, None)}, {"pose": ("pose", None)}, {"link": "links", "joint": "joints"}),
    "sdf": El({"version": (ST, None)}, {"model": ("model", None)}),
}
FORMATS = dict(urdf=(URDF, "robot", U.URDF), sdf=(SDF, "sdf", S.SDF))
# where an element is put when it is the one looked at: the chain of elements around it
AROUND = dict(
    urdf={"origin": ["robot", "joint"], "box": ["robot", "link", "visual", "geometry"], "sphere": ["robot", "link", "visual", "geometry"],
          "cylinder": ["robot", "link", "collision", "geometry"], "capsule": ["robot", "link", "visual", "geometry"], "mesh": ["robot", "link", "visual", "geometry"],
          "geometry": ["robot", "link", "visual"], "color": ["robot", "link", "visual", "material"], "texture": ["robot", "link", "visual", "material"],
          "material": ["robot", "link", "visual"], "visual": ["robot", "link"], "collision": ["robot", "link"], "mass": ["robot", "link", "inertial"],
          "inertia": ["robot", "link", "inertial"], "inertial": ["robot", "link"], "joint": ["robot"], "link": ["robot"], "robot": []},
    sdf={"pose": ["sdf", "model", "link"], "box": ["sdf", "model", "link", "visual", "geometry"], "sphere": ["sdf", "model", "link", "visual", "geometry"],
         "cylinder": ["sdf", "model", "link", "collision", "geometry"], "mesh": ["sdf", "model", "link", "visual", "geometry"],
         "geometry": ["sdf", "model", "link", "collision"], "inertia": ["sdf", "model", "link", "inertial"], "inertial": ["sdf", "model", "link"],
         "script": ["sdf", "model", "link", "visual", "material"], "material": ["sdf", "model", "link", "visual"], "visual": ["sdf", "model", "link"],
         "collision": ["sdf", "model", "link"], "joint": ["sdf", "model"], "link": ["sdf", "model"], "model": ["sdf"], "sdf": []})
for _k in ("limit", "dynamics", "safety_controller", "calibration", "mimic", "axis", "parent", "child"):
    AROUND["urdf"][_k] = ["robot", "joint"]
for _k in ("limit", "dynamics"):
    AROUND["sdf"][_k] = ["sdf", "model", "joint", "axis"]
AROUND["sdf"]["axis"] = ["sdf", "model", "joint"]
NUM = [["1", "-2.5", "0.125", "3", "-7", "11"], [" 1e-3 ", "+.5", "-4.E2", "0", "1E5", "-0.0"], ["0.1", "100000000000", "-1e-12", "3.141592653589793", "2.", "00.5"]]


def num(v, k):
    return NUM[v][k % 6]


class Node:
    def __init__(self, tag, attrs=None, kids=None, text=None):
        self.tag, self.attrs, self.kids, self.text = tag, attrs or {}, kids or [], text

    def copy(self):
        return Node(self.tag, dict(self.attrs), [k.copy() if isinstance(k, Node) else k for k in self.kids], self.text)

    def walk(self, path=()):
        yield path, self
        for i, k in enumerate(self.kids):
            if isinstance(k, Node):
                yield from k.walk(path + (i,))

    def at(self, path):
        n = self
        for i in path:
            n = n.kids[i]
        return n


def esc(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")


def text_of(n, sep=""):
    a = "".join(' %s="%s"' % (k, esc(v)) for k, v in n.attrs.items())
    return "%s<%s%s>%s%s</%s>" % (sep, n.tag, a, esc(n.text) if n.text is not None else "", "".join(k if isinstance(k, str) else text_of(k, sep) for k in n.kids), n.tag)


def spell(t, v, k=0):
    """text of a value of type t in spelling v"""
    if t == F:
        return num(v, k)
    if t == ST:
        return ["abc", "a b/c:d", "x_%d&<" % k][v]
    if t == B:
        return ["true", "false", "0", "1", "True", "False"][(v * 2 + k) % 6]
    s = [num(v, k + i) for i in range(t)]
    return [" ".join(s), "  " + "\t".join(x.strip() for x in s) + "\n", "  ".join(s)][v]


def value(t, s):
    if t == F:
        return float(s)
    if t == ST:
        return s
    if t == B:
        return s.strip().lower() in ("1", "true")
    return [float(x) for x in s.split()]


def minimal(fm, tag, v=0, k=0, path_=""):
    """the element with its required parts only"""
    e = FORMATS[fm][0][tag]
    n = Node(tag)
    if e.value:
        a, t = e.value
        if tag in ("parent", "child"):
            s = dict(parent="la", child="lb")[tag]
        else:
            s = spell(t, v, k)
        if a == "text":
            n.text = s
        else:
            n.attrs[a] = s
        return n
    for i, (a, (t, d)) in enumerate(e.attrs.items()):
        if d == REQ:
            n.attrs[a] = spell(t, v, k + i)
    for i, (c, (t, d)) in enumerate(e.kids.items()):
        if d == REQ or d == None:
            n.kids.append(minimal(fm, c, v, k + i))
    if e.one_of:
        n.kids.append(minimal(fm, e.one_of[k % len(e.one_of)], v, k))
    if tag == "joint":
        n.attrs.update(name="jab", type="revolute")
    if tag in ("link",):
        n.attrs["name"] = "la"
    if tag == "model":
        n.attrs["name"] = "m"
    return n


def whole(fm, tag, inner):
    """a document with the element where it belongs; two links and a joint are always there"""
    n = inner
    for t in reversed(AROUND[fm][tag]):
        p = minimal(fm, t)
        if FORMATS[fm][0][t].one_of:
            p.kids = [n]
        else:
            same = [i for i, k in enumerate(p.kids) if k.tag == n.tag]
            if same:
                p.kids[same[0]] = n
            else:
                p.kids.append(n)
        n = p
    def holder(x):
        return x if x.tag in ("robot", "model") else next((k for k in x.kids if isinstance(k, Node) and k.tag == "model"), None)
    h = holder(n)
    if h is not None:
        have = {(k.tag, k.attrs.get("name")) for k in h.kids if isinstance(k, Node)}
        for l in ("la", "lb"):
            if ("link", l) not in have and not any(k.tag == "link" and "name" not in k.attrs for k in h.kids if isinstance(k, Node) and l == "la"):
                x = minimal(fm, "link")
                x.attrs["name"] = l
                h.kids.append(x)
        if not any(k.tag == "joint" for k in h.kids if isinstance(k, Node)):
            h.kids.append(minimal(fm, "joint"))
    return n


def expected(fm, n):
    """what the element says"""
    e = FORMATS[fm][0][n.tag]
    if e.value:
        a, t = e.value
        return value(t, n.text if a == "text" else n.attrs[a])
    kids = [k for k in n.kids if isinstance(k, Node)]
    if e.one_of:
        k = next(k for k in kids if k.tag in e.one_of)
        return dict(expected(fm, k), kind=k.tag)
    out = {}
    for a, (t, d) in e.attrs.items():
        out[a] = value(t, n.attrs[a]) if a in n.attrs else d
    for c, (t, d) in e.kids.items():
        k = [k for k in kids if k.tag == c]
        out[c] = expected(fm, k[0]) if k else None
    for c, var in e.lists.items():
        out[var] = [expected(fm, k) for k in kids if k.tag == c]
    return out


def actual(fm, tag, obj):
    """the same from the object"""
    e = FORMATS[fm][0][tag]
    if obj is None:
        return None
    if e.value:
        return obj
    if e.one_of:
        k = type(obj).__name__.lower()
        return dict(actual(fm, k, obj), kind=k)
    out = {a: getattr(obj, a) for a in e.attrs}
    for c, (t, d) in e.kids.items():
        out[c] = actual(fm, t, getattr(obj, c))
    for c, var in e.lists.items():
        out[var] = [actual(fm, c, x) for x in getattr(obj, var)]
    return out


def alike(a, b):
    """equal values; a None and the default an element has are written differently but mean the same only where the format says so"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and isinstance(a, bool) == isinstance(b, bool):
        return a == b
    return type(a) is type(b) and a == b


def where(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b or not alike(a[k], b[k]):
                return where(a.get(k), b.get(k), p + "/" + str(k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not alike(x, y):
                return where(x, y, p + "[%d]" % i)
    return "%s: %r instead of %r" % (p, a, b)


def node_of(x):
    return Node(x.tag, dict(x.attrib), [node_of(c) for c in x], x.text if len(x) == 0 else None)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()):
        yield


def read(fm, text):
    with quiet():
        return FORMATS[fm][2].from_xml_string(text)


def refused(fm, text):
    try:
        read(fm, text)
    except Exception:
        return True
    return False


def judge(cx, fm, lab, doc, text=None, sig=""):
    text = text or text_of(doc)
    root = FORMATS[fm][1]
    want = expected(fm, doc)
    try:
        obj = read(fm, text)
    except Exception as ex:
        cx.fail(sig + "refused:" + lab, "%s: %s" % (repr(ex)[:300], text))
        return None
    got = actual(fm, root, obj)
    cx.expect(alike(got, want), sig + "read:" + lab, lambda: "%s in %s" % (where(got, want), text))
    for hdr in (True, False):
        try:
            out = obj.to_xml_string() if hdr else obj.to_xml_string(addHeader=False)
            ind = expected(fm, node_of(ET.fromstring(out)))
            again = actual(fm, root, read(fm, out))
        except Exception as ex:
            cx.fail(sig + "write:" + lab, "%s: %s" % (repr(ex)[:300], text))
            return obj
        cx.expect(out.startswith("<?xml") == hdr, sig + "header:" + lab, lambda: out[:60])
        cx.expect(alike(ind, want), sig + "written:" + lab, lambda: "%s in %s, from %s" % (where(ind, want), out, text))
        cx.expect(alike(again, want), sig + "again:" + lab, lambda: "%s in %s, from %s" % (where(again, want), out, text))
    now = actual(fm, root, obj)
    cx.expect(alike(now, got), sig + "changed:" + lab, "writing changed the object")
    cx.add(states=1, transitions=3, traces=1)
    return obj


# ---- cases ---------------------------------------------------------------------------------------------------------

def cases(tier):
    out = []
    for fm in FORMATS:
        for tag in AROUND[fm]:
            out.append(dict(name="parts:%s:%s" % (fm, tag), kind="parts", fm=fm, tag=tag))
            out.append(dict(name="bad:%s:%s" % (fm, tag), kind="bad", fm=fm, tag=tag))
        out.append(dict(name="ignored:" + fm, kind="ignored", fm=fm))
        out.append(dict(name="edit:" + fm, kind="edit", fm=fm))
        out.append(dict(name="readable:" + fm, kind="readable", fm=fm))
        out.append(dict(name="built:" + fm, kind="built", fm=fm))
        out.append(dict(name="history:" + fm, kind="history", fm=fm, depth=4 if tier == "quick" else 6))
        if tier == "thorough":
            for tag in AROUND[fm]:
                out.append(dict(name="pairs:%s:%s" % (fm, tag), kind="pairs", fm=fm, tag=tag))
    for n in range(1, 6 if tier == "quick" else 7):
        for i, p in enumerate(R.parent_arrays(n)):
            out.append(dict(name="tree:" + ".".join(map(str, p)), kind="tree", parents=list(p)))
    out += [dict(name="robots-%d" % i, kind="robots", n=i) for i in (1, 2, 3, 4)]
    out.append(dict(name="roots", kind="roots"))
    out.append(dict(name="transmissions", kind="transmissions"))
    return out


def run(case, cx):
    with quiet():
        globals()["do_" + case["kind"]](case, cx)
    if cx.sample is None:
        cx.sample = case


def variants(fm, tag):
    """the element with every subset of its optional parts, spellings and orders"""
    e = FORMATS[fm][0][tag]
    opt = [("a", a) for a, (t, d) in e.attrs.items() if d != REQ] + [("k", c) for c, (t, d) in e.kids.items() if d != REQ] + [("l", c) for c in e.lists]
    for v in range(3):
        for r in range(len(opt) + 1):
            for sel in itertools.combinations(opt, r):
                n = minimal(fm, tag, v)
                n.kids = [k for k in n.kids if e.kids.get(k.tag, (0, REQ))[1] == REQ]
                for i, (w, x) in enumerate(sel):
                    if w == "a":
                        n.attrs[x] = n.attrs.get(x) or spell(e.attrs[x][0], v, i + 2)
                    elif w == "k":
                        n.kids.append(minimal(fm, x, v, i + 1))
                    else:
                        for j in range(v + 1):
                            k = minimal(fm, x, v, i + j)
                            if x in ("link", "joint", "material"):
                                k.attrs["name"] = k.attrs["name"] + "xyz"[j] + str(v)
                            n.kids.append(k)
                for o in range(3 if len(n.kids) > 1 else 1):
                    m = n.copy()
                    m.kids = m.kids if o == 0 else m.kids[::-1] if o == 1 else m.kids[1:] + m.kids[:1]
                    yield (v, [x for _, x in sel], o), m
    if e.one_of:
        for v in range(3):
            for i in range(len(e.one_of)):
                yield (v, e.one_of[i], 0), minimal(fm, tag, v, i)


def do_parts(case, cx):
    fm, tag = case["fm"], case["tag"]
    types = {"urdf": U.Joint.TYPES, "sdf": ["revolute", "prismatic", "fixed", "ball"]}[fm] if tag == "joint" else [None]
    n = 0
    for lab, m in variants(fm, tag):
        for t in types:
            if t:
                m.attrs["type"] = t
            d = whole(fm, tag, m)
            judge(cx, fm, "%s:%s" % (fm, tag), d, text_of(d, ["", "\n  ", "\n<!-- note -->\n"][lab[2]]))
            n += 1
    cx.outcome(fm, tag, n)
    cx.sample = dict(element=tag, text=text_of(d)[:600])


def do_pairs(case, cx):
    fm, tag = case["fm"], case["tag"]
    mine = [m for lab, m in variants(fm, tag) if lab[0] == 0 and lab[2] == 0]
    for other in AROUND[fm]:
        if other == tag or AROUND[fm][other][:1] != AROUND[fm][tag][:1] or not AROUND[fm][other]:
            continue
        theirs = [m for lab, m in variants(fm, other) if lab[0] == 1 and lab[2] == 0]
        for a, b in itertools.product(mine[:: max(1, len(mine) // 12)], theirs[:: max(1, len(theirs) // 12)]):
            d, x = whole(fm, tag, a.copy()), whole(fm, other, b.copy())
            hd, hx = [h if h.tag in ("robot",) else next(k for k in h.kids if k.tag == "model") if h.tag == "sdf" else h for h in (d, x)]
            for k in hx.kids:
                k = k.copy()
                if k.tag in ("link", "joint"):
                    k.attrs["name"] = (k.attrs.get("name") or "") + "_2"
                hd.kids.append(k)
            judge(cx, fm, "pairs:%s:%s:%s" % (fm, tag, other), d)
        cx.outcome(fm, tag, other)


def full(fm, v=0, deep=True):
    """a document with every part of every element"""
    def fill(tag, k=0, depth=0):
        e = FORMATS[fm][0][tag]
        n = minimal(fm, tag, v, k)
        if e.value or e.one_of:
            if e.one_of:
                n.kids = [fill(e.one_of[(k + v) % len(e.one_of)], k, depth + 1)]
            return n
        for i, (a, (t, d)) in enumerate(e.attrs.items()):
            n.attrs.setdefault(a, spell(t, v, k + i + 1))
        n.kids = []
        for i, c in enumerate(e.kids):
            n.kids.append(fill(e.kids[c][0], k + i, depth + 1))
        for i, c in enumerate(e.lists):
            for j in range(2):
                x = fill(c, k + 2 * i + j, depth + 1)
                if c in ("link", "joint", "material"):
                    x.attrs["name"] = {"link": ["la", "lb"], "joint": ["jab", "jx"], "material": ["ma", "mb"]}[c][j]
                n.kids.append(x)
        return n
    d = fill(FORMATS[fm][1])
    js = [n for _, n in d.walk() if n.tag == "joint"]
    if fm == "urdf" or True:
        for n in js[1:]:
            h = d if fm == "urdf" else next(k for k in d.kids if k.tag == "model")
            h.kids = [k for k in h.kids if k is not n]
    return d


def do_bad(case, cx):
    """every required part left out, every value of a wrong form, is refused"""
    fm, tag = case["fm"], case["tag"]
    e = FORMATS[fm][0][tag]
    base = whole(fm, tag, minimal(fm, tag))
    if not cx.expect(not refused(fm, text_of(base)), "good-refused:%s:%s" % (fm, tag), lambda: text_of(base)):
        return

    def bad(m, why):
        d = whole(fm, tag, m)
        cx.expect(refused(fm, text_of(d)), "accepted:%s:%s:%s" % (fm, tag, why), lambda: text_of(d))
        cx.add(states=1, transitions=1, traces=1)
        cx.outcome(fm, tag, why)
    for a, (t, d) in e.attrs.items():
        if d == REQ:
            m = minimal(fm, tag)
            del m.attrs[a]
            bad(m, "no " + a)
        for x in damaged(t):
            m = minimal(fm, tag)
            m.attrs[a] = x
            bad(m, "%s=%r" % (a, x))
    for c, (t, d) in e.kids.items():
        if d == REQ:
            m = minimal(fm, tag)
            m.kids = [k for k in m.kids if k.tag != c]
            bad(m, "no " + c)
        ce = FORMATS[fm][0][c]
        if ce.value:
            for x in damaged(ce.value[1]):
                m = minimal(fm, tag)
                m.kids = [k for k in m.kids if k.tag != c]
                m.kids.append(Node(c, text=x) if ce.value[0] == "text" else Node(c, {ce.value[0]: x}))
                bad(m, "%s=%r" % (c, x))
            if ce.value[0] != "text" and ce.value[1] != ST:
                m = minimal(fm, tag)
                m.kids = [k for k in m.kids if k.tag != c] + [Node(c)]
                bad(m, "empty " + c)
    if e.one_of:
        for k, why in (([], "nothing"), ([minimal(fm, "box"), minimal(fm, "sphere")], "two"), ([Node("cone", {"radius": "1"})], "unknown")):
            m = Node(tag, kids=list(k))
            bad(m, why)
    if tag == "joint" and fm == "urdf":
        for t in ("", "hinge", "Revolute", "fixed ", "revolute2"):
            m = minimal(fm, tag)
            m.attrs["type"] = t
            bad(m, "type %r" % t)


def damaged(t):
    if t == F:
        return ["", "x", "1,5", "1 2"]
    if t in (V3, V4, V6):
        g = ["1"] * t
        return ["", " ".join(g[:-1]), " ".join(g + ["1"]), " ".join(g[:-1] + ["x"]), ",".join(g)]
    return ["", "maybe", "2", "truee"] if t == B else []


IGNORABLE = ["<!-- a comment -->", "\n   ", '<unknown a="1"><origin xyz="9 9 9"/></unknown>', "<!-- <origin/> --><other/>"]


def do_ignored(case, cx):
    """whatever the format does not know, at every place, changes nothing"""
    fm = case["fm"]
    for v in range(3):
        d = full(fm, v)
        judge(cx, fm, "full:" + fm, d)
        for path_, n in list(d.walk()):
            e = FORMATS[fm][0][n.tag]
            for x in IGNORABLE:
                if e.value and e.value[0] == "text" or (e.one_of and "<unknown" in x or e.one_of and "<other" in x):
                    continue
                for pos in sorted({0, len(n.kids)}):
                    m = d.copy()
                    m.at(path_).kids.insert(pos, x)
                    judge(cx, fm, "ignored:%s:%s" % (fm, n.tag), m)
            if not e.value or e.value[0] != "text":
                m = d.copy()
                m.at(path_).attrs["unknown"] = "7"
                judge(cx, fm, "ignored:%s:%s" % (fm, n.tag), m, text_of(m))
        cx.outcome(fm, v, len(list(d.walk())))


def objects(fm, tag, obj):
    """every (element, object) below"""
    e = FORMATS[fm][0][tag]
    if obj is None or e.value:
        return
    if e.one_of:
        yield from objects(fm, type(obj).__name__.lower(), obj)
        return
    yield tag, obj
    for c, (t, d) in e.kids.items():
        yield from objects(fm, t, getattr(obj, c))
    for c, var in e.lists.items():
        for x in getattr(obj, var):
            yield from objects(fm, c, x)


def do_edit(case, cx):
    """every value of every object of a full description, changed alone, arrives in the text and nothing else does"""
    fm = case["fm"]
    root = FORMATS[fm][1]
    for v in range(3):
        text = text_of(full(fm, v))
        n = len(list(objects(fm, root, read(fm, text))))
        for i in range(n):
            tag = list(objects(fm, root, read(fm, text)))[i][0]
            e = FORMATS[fm][0][tag]
            fields = [(a, t) for a, (t, d) in e.attrs.items()] + [(c, FORMATS[fm][0][t].value[1]) for c, (t, d) in e.kids.items() if FORMATS[fm][0][t].value]
            for a, t in fields:
                if tag == "joint" and a == "type":
                    new = ["prismatic"]
                else:
                    new = {F: [7.25, 3], ST: ["zz top"], B: [True, False]}.get(t) or [[float(k) / 4 for k in range(t)]]
                for x in new:
                    obj = read(fm, text)
                    target = list(objects(fm, root, obj))[i][1]
                    setattr(target, a, x)
                    want = actual(fm, root, obj)
                    out = obj.to_xml_string()
                    ind = expected(fm, node_of(ET.fromstring(out)))
                    again = actual(fm, root, read(fm, out))
                    cx.expect(alike(ind, want), "edit:%s:%s:%s" % (fm, tag, a), lambda: where(ind, want))
                    cx.expect(alike(again, want), "edit-again:%s:%s:%s" % (fm, tag, a), lambda: where(again, want))
                    cx.add(states=1, transitions=2, traces=1)
            optional = [c for c, (t, d) in e.kids.items() if d is None] + [a for a, (t, d) in e.attrs.items() if d is None]
            for c in optional:
                obj = read(fm, text)
                setattr(list(objects(fm, root, obj))[i][1], c, None)
                want = actual(fm, root, obj)
                ind = expected(fm, node_of(ET.fromstring(obj.to_xml_string())))
                cx.expect(alike(ind, want), "removed:%s:%s:%s" % (fm, tag, c), lambda: where(ind, want))
                cx.add(states=1, transitions=1, traces=1)
            cx.outcome(fm, v, i, tag)
    if fm == "urdf":
        obj = read(fm, text_of(full(fm)))
        j = obj.joints[0]
        j.joint_type = "prismatic"
        j.origin.position, j.origin.rotation = [1., 2., 3.], [4., 5., 6.]
        cx.expect(j.type == "prismatic" and j.joint_type == "prismatic" and j.origin.xyz == [1., 2., 3.] and j.origin.rpy == [4., 5., 6.] and
                  j.origin.position == j.origin.xyz and j.origin.rotation == j.origin.rpy, "aliases", "aliases of joint type and origin")


# what the constructors take: element -> (constructor, argument -> attribute)
BUILT = dict(
    urdf={"origin": (U.Pose, {"xyz": "xyz", "rpy": "rpy"}), "dynamics": (U.JointDynamics, {"damping": "damping", "friction": "friction"}),
          "box": (U.Box, {"size": "size"}), "cylinder": (U.Cylinder, {"radius": "radius", "length": "length"}), "capsule": (U.Capsule, {"radius": "radius", "length": "length"}),
          "sphere": (U.Sphere, {"radius": "radius"}), "mesh": (U.Mesh, {"filename": "filename", "scale": "scale"}), "texture": (U.Texture, {"filename": "filename"}),
          "material": (U.Material, {"name": "name", "color": "color", "texture": "texture"}), "collision": (U.Collision, {"geometry": "geometry", "origin": "origin"}),
          "visual": (U.Visual, {"geometry": "geometry", "material": "material", "origin": "origin"}),
          "inertia": (U.Inertia, {k: k for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")}), "inertial": (U.Inertial, {"mass": "mass", "inertia": "inertia", "origin": "origin"}),
          "calibration": (U.JointCalibration, {"rising": "rising", "falling": "falling"}),
          "limit": (U.JointLimit, {"effort": "effort", "velocity": "velocity", "lower": "lower", "upper": "upper"}),
          "mimic": (U.JointMimic, {"joint_name": "joint", "multiplier": "multiplier", "offset": "offset"}),
          "safety_controller": (U.SafetyController, {"velocity": "k_velocity", "position": "k_position", "lower": "soft_lower_limit", "upper": "soft_upper_limit"}),
          "joint": (U.Joint, {"name": "name", "parent": "parent", "child": "child", "joint_type": "type", "axis": "axis", "origin": "origin", "limit": "limit", "dynamics": "dynamics",
                              "safety_controller": "safety_controller", "calibration": "calibration", "mimic": "mimic"}),
          "link": (U.Link, {"name": "name", "visual": "visual", "inertial": "inertial", "collision": "collision", "origin": "origin"})},
    sdf={"inertia": (S.Inertia, {k: k for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")}), "inertial": (S.Inertial, {"mass": "mass", "inertia": "inertia", "pose": "pose"}),
         "box": (S.Box, {"size": "size"}), "cylinder": (S.Cylinder, {"radius": "radius", "length": "length"}), "sphere": (S.Sphere, {"radius": "radius"}),
         "mesh": (S.Mesh, {"filename": "filename", "scale": "scale"}), "script": (S.Script, {"uri": "uri", "name": "name"}),
         "material": (S.Material, {"name": "name", "script": "script"}), "collision": (S.Collision, {"name": "name", "geometry": "geometry", "pose": "pose"}),
         "dynamics": (S.Dynamics, {"damping": "damping", "friction": "friction"}), "limit": (S.Limit, {"lower": "lower", "upper": "upper"}),
         "axis": (S.Axis, {"xyz": "xyz", "limit": "limit", "dynamics": "dynamics", "use_parent_model_frame": "use_parent_model_frame"}),
         "joint": (S.Joint, {"name": "name", "parent": "parent", "child": "child", "joint_type": "type", "axis": "axis", "pose": "pose"}),
         "link": (S.Link, {"name": "name", "pose": "pose", "inertial": "inertial", "kinematic": "kinematic"})})


def actual_(x):
    return vars(x) if hasattr(x, 'XML_REFL') else x


def do_built(case, cx):
    """objects built from values rather than text: every subset of the arguments, by name and by position"""
    fm = case["fm"]
    el = FORMATS[fm][0]
    for v in range(3):
        donors = dict(objects(fm, FORMATS[fm][1], read(fm, text_of(full(fm, v)))))
        geo = [donors[k] for k in ("box", "sphere", "cylinder", "mesh") if k in donors]
        for tag, (make, args) in BUILT[fm].items():
            e = el[tag]

            def val(a, i):
                if tag == "link" and a in ("visual", "collision"):
                    return donors[a]
                t, d = e.attrs.get(a) or e.kids.get(a)
                if a in e.attrs:
                    x = value(t, spell(t, v, i))
                    return {"type": "prismatic"}.get(a, x) if tag == "joint" else x
                ce = el[t]
                if ce.value:
                    return value(ce.value[1], spell(ce.value[1], v, i))
                return geo[v % len(geo)] if ce.one_of else donors[t]

            def need(a):
                t = (e.attrs.get(a) or e.kids.get(a) or (0, None))
                return t[1] == REQ
            opt = [a for a in args if not need(args[a])]
            for r in range(len(opt) + 1) if len(opt) < 7 else (0, 1, 2, len(opt) - 1, len(opt)):
                for sel in itertools.combinations(opt, r):
                    kw = {a: val(f, i) for i, (a, f) in enumerate(args.items()) if need(f) or a in sel}
                    built = [make(**kw)]
                    if sel == tuple(opt):
                        built.append(make(*kw.values()))
                    for o in built:
                        for a, f in args.items():
                            if a in kw:
                                cx.expect(getattr(o, f) is kw[a] or getattr(o, f) == kw[a], "built:%s:%s:%s" % (fm, tag, a), lambda: "%r instead of %r" % (actual_(getattr(o, f)), actual_(kw[a])))
                        node = etree.Element(tag)
                        o.write_xml(node)
                        got = expected(fm, node_of(ET.fromstring(etree.tostring(node))))
                        for a, f in args.items():
                            if a not in kw:
                                continue
                            x = got[f + "s"] if tag == "link" and f in ("visual", "collision") else got[f]
                            w = kw[a]
                            if f in e.kids and not el[e.kids[f][0]].value:
                                w = actual(fm, e.kids[f][0], w)
                            elif f + "s" in e.lists.values():
                                w = [actual(fm, f, w)]
                            cx.expect(alike(x, w), "built-written:%s:%s:%s" % (fm, tag, a), lambda: "%s instead of %s" % (x, w))
                        cx.add(states=1, transitions=1, traces=1)
                cx.outcome(fm, v, tag, r)
    if fm == "sdf":
        return
    for args in ((.1, .2, .3), (.1, .2, .3, .4), ([.1, .2, .3],), ([.1, .2, .3, .4],)):
        keep = list(args[0]) if len(args) == 1 else None
        c = U.Color(*args)
        flat = list(args[0] if len(args) == 1 else args)[:4]
        node = etree.Element("color")
        c.write_xml(node)
        want = (keep or flat) + [1.] * (4 - len(keep or flat))
        cx.expect(list(c.rgba) == want and value(V4, node.get("rgba")) == want, "built:color", lambda: "%s from %s" % (c.rgba, args))
        cx.expect(keep is None or list(args[0]) == keep, "built:color:pure", "the caller's list was changed")
        cx.add(states=1, transitions=1)
    for bad in ((.1, .2), ([.1],), ([.1] * 5,), (.1, .2, .3, .4, .5)):
        if len(bad) == 1:
            cx.expect(raises(U.Color, *bad), "built:color:bad", lambda: str(bad))
    a = U.Actuator("x", 2.5)
    cx.expect((a.name, a.mechanicalReduction) == ("x", 2.5), "built:actuator")
    p = U.PR2Transmission("n", "j", "a", "t", 3.)
    cx.expect((p.name, p.joint, p.actuator, p.type, p.mechanicalReduction) == ("n", "j", "a", "t", 3.), "built:pr2")
    # the first visual and the first collision of a link: every sequence of settings and additions
    mk = dict(visual=lambda k: U.Visual(U.Sphere(k)), collision=lambda k: U.Collision(U.Sphere(k)))
    for L in (1, 2, 3):
        for seq in itertools.product(("set", "add", "clear"), ("visual", "collision"), repeat=L):
            ops = [(seq[i], seq[i + 1]) for i in range(0, 2 * L, 2)]
            l, model = U.Link("l"), []
            for k, (op, w) in enumerate(ops):
                first = next((i for i, m in enumerate(model) if m[0] == w), None)
                if op == "clear":
                    setattr(l, w, None)
                    if first is not None:
                        del model[first]
                    continue
                x = mk[w](1. + k)
                if op == "add":
                    l.add_aggregate(w, x)
                    model.append((w, x))
                else:
                    setattr(l, w, x)
                    if first is None:
                        model.append((w, x))
                    else:
                        model[first] = (w, x)
            got = [(y.tag, float(y.find("geometry/sphere").get("radius"))) for y in ET.fromstring(l.to_xml_string())]
            cx.expect(got == [(w, x.geometry.radius) for w, x in model], "first:written", lambda: "%s: %s" % (ops, got))
            for w in mk:
                have = [x for w_, x in model if w_ == w]
                cx.expect(getattr(l, w) is (have[0] if have else None) and all(a is b for a, b in itertools.zip_longest(getattr(l, w + "s"), have)), "first:read", lambda: str(ops))
            cx.add(states=1, transitions=L, traces=1)
            cx.outcome("first", len(model))


def readable_of(x):
    if isinstance(x, dict):
        return {k: readable_of(v) for k, v in x.items()}
    if isinstance(x, list):
        return [readable_of(v) for v in x]
    return "None" if x is None else x


def plain(x):
    """kind of a geometry is not part of its readable form; numbers that YAML reads as integers or text"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if k != "kind"}
    return [plain(v) for v in x] if isinstance(x, list) else x


def subset(a, b):
    """every entry of a is in b"""
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and subset(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(subset(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, str):
        return float(b) == a
    return a == b


def do_readable(case, cx):
    fm = case["fm"]
    root = FORMATS[fm][1]
    docs = [full(fm, v) for v in range(3)] + [whole(fm, t, minimal(fm, t)) for t in AROUND[fm]]
    for d in docs:
        obj = read(fm, text_of(d))
        for tag, o in objects(fm, root, obj):
            want = plain(readable_of(actual(fm, tag, o) if not FORMATS[fm][0][tag].one_of else {}))
            try:
                got = yaml.safe_load(str(o))
            except Exception as ex:
                cx.fail("readable:%s:%s" % (fm, tag), repr(ex)[:300])
                continue
            cx.expect(subset(want, got), "readable:%s:%s" % (fm, tag), lambda: "%r instead of %r" % (got, want))
            cx.add(states=1, transitions=1, traces=1)
            cx.outcome(fm, tag)


# ---- queries -------------------------------------------------------------------------------------------------------

def do_tree(case, cx):
    """root, paths and maps of every tree, whatever the order of the elements"""
    p = case["parents"]
    n = len(p)
    names = ["l%d" % i for i in range(n)]
    kinds = ["revolute", "fixed", "prismatic", "fixed", "continuous"]
    el = lambda i: '<joint name="j%d" type="%s"><parent link="%s"/><child link="%s"/></joint>' % (i, kinds[i % 5], names[p[i]], names[i])
    links = ['<link name="%s"/>' % l for l in names]
    orders = list(itertools.permutations(range(1, n)))
    if len(orders) > 24:
        orders = orders[::7]
    for k, o in enumerate(orders):
        ls = links[k % n:] + links[:k % n]
        js = [el(i) for i in o]
        body = ls + js if k % 3 == 0 else js + ls if k % 3 == 1 else [x for t in itertools.zip_longest(js, ls) for x in t if x]
        r = read("urdf", '<robot name="r">%s</robot>' % "".join(body))
        cx.expect([x.name for x in r.links] == [names[(k + i) % n] for i in range(n)] and [x.name for x in r.joints] == ["j%d" % i for i in o], "tree:lists")
        cx.expect(r.get_root() == names[0], "tree:root", lambda: "%s" % r.get_root())
        cx.expect({k_: v.name for k_, v in r.link_map.items()} == {l: l for l in names} and
                  {k_: v.name for k_, v in r.joint_map.items()} == {"j%d" % i: "j%d" % i for i in range(1, n)}, "tree:maps")
        cx.expect(r.parent_map == {names[i]: ("j%d" % i, names[p[i]]) for i in range(1, n)}, "tree:parents", lambda: str(r.parent_map))
        ch = {}
        for i in o:
            ch.setdefault(names[p[i]], []).append(("j%d" % i, names[i]))
        cx.expect(r.child_map == ch, "tree:children", lambda: str(r.child_map))
        out = [names.index(x) if x in names else x for x in [y.get("name") for y in ET.fromstring(r.to_xml_string()) if y.tag == "link"]]
        cx.expect([names[i] for i in out] == [x.name for x in r.links], "tree:written-order")
        for a in range(n):
            for b in range(n):
                path_ = [b]
                while path_[-1] != a and path_[-1] != 0:
                    path_.append(p[path_[-1]])
                if path_[-1] != a:
                    cx.expect(raises(r.get_chain, names[a], names[b]), "tree:no-path", lambda: "%s to %s" % (names[a], names[b]))
                    continue
                path_ = path_[::-1]
                for J, L, X in itertools.product((True, False), repeat=3):
                    want = []
                    for m, i in enumerate(path_):
                        if m and J and (X or kinds[i % 5] != "fixed"):
                            want.append("j%d" % i)
                        if L:
                            want.append(names[i])
                    got = r.get_chain(names[a], names[b], joints=J, links=L, fixed=X)
                    cx.expect(got == want, "tree:chain", lambda: "%s to %s: %s instead of %s" % (names[a], names[b], got, want))
                    cx.add(states=1, transitions=1)
        cx.add(traces=1)
    cx.outcome(tuple(p), len(orders))


def do_roots(case, cx):
    """descriptions that are not one tree have no root"""
    L = lambda *n: "".join('<link name="%s"/>' % x for x in n)
    Jt = lambda i, a, b: '<joint name="j%d" type="fixed"><parent link="%s"/><child link="%s"/></joint>' % (i, a, b)
    for body, ok in ((L("a"), "a"), (L("a", "b"), None), (L("a", "b") + Jt(1, "a", "b") + Jt(2, "b", "a"), None), (L("a", "b", "c") + Jt(1, "a", "b"), None),
                     (L("b", "a") + Jt(1, "a", "b"), "a"), ("", None), (L("a", "b", "c") + Jt(1, "c", "b") + Jt(2, "a", "c"), "a")):
        r = read("urdf", "<robot>%s</robot>" % body)
        got = None if raises(r.get_root) else r.get_root()
        cx.expect(got == ok, "roots", lambda: "%s: %s instead of %s" % (body, got, ok))
        cx.add(states=1, transitions=1, traces=1)
        cx.outcome(body)


def do_robots(case, cx):
    """a robot loaded from the written description is the robot loaded from the description"""
    n = case["n"]
    for p in R.parent_arrays(n):
        for types in itertools.product(("revolute", "prismatic", "fixed"), repeat=n - 1):
            spec = R.make(p, types, 1)
            for k, nd in enumerate(spec["nodes"]):
                if nd["jtype"] != "fixed":
                    nd["limits"] = (-1.5 - k, .5 + k)
                    nd["vel"], nd["eff"] = (-1. - k, 1. + k), (-2. - k, 2. + k)
                nd["visual_xml"] = ('<visual><origin xyz=".1 .2 %d" rpy=".3 0 1"/><geometry><box size="1 2 %d"/></geometry></visual>' % (k, k + 1)) if k % 2 else ""
            text = R.to_urdf(spec)
            a = pk.build_chain_from_urdf(text)
            with quiet():
                b = pk.build_chain_from_urdf(U.URDF.from_xml_string(text).to_xml_string())
                q = qrows(spec, 3)[0]
                c = pk.build_chain_from_urdf(U.URDF.from_xml_string(U.URDF.from_xml_string(text).to_xml_string()).to_xml_string())
            for other in (b, c):
                same = a.get_joint_parameter_names(False) == other.get_joint_parameter_names(False) and a.get_frame_names(False) == other.get_frame_names(False) and \
                    a.get_joint_limits() == other.get_joint_limits() and a.get_joint_velocity_limits() == other.get_joint_velocity_limits() and \
                    a.get_joint_effort_limits() == other.get_joint_effort_limits() and str(a) == str(other)
                cx.expect(same, "robots:structure", lambda: text)
                x, y = fk_all(a, th_of(a, q, 3)), fk_all(other, th_of(other, q, 3))
                cx.expect(err_poses(x, y) == 0, "robots:poses", lambda: text)
                vis = lambda ch: [(v.geom_type, v.geom_param, npa(v.offset.get_matrix()).tolist() if v.offset is not None else None) for l in ch.get_links() for v in l.visuals]
                cx.expect(vis(a) == vis(other), "robots:visuals", lambda: "%s %s" % (vis(a), vis(other)))
            cx.add(states=3, transitions=2, traces=1)
            cx.outcome(tuple(p), types)


def do_transmissions(case, cx):
    """both styles of transmissions, extensions, and their order among the other elements"""
    new = '<transmission name="t"><type>simple</type>%s%s</transmission>'
    jt = lambda k: "".join('<joint name="j%d"><hardwareInterface>h%d</hardwareInterface></joint>' % (i, i) for i in range(k))
    ac = lambda k: "".join('<actuator name="a%d"><mechanicalReduction>%d.5</mechanicalReduction></actuator>' % (i, i) for i in range(k))
    base = '<link name="la"/><link name="lb"/><joint name="j0" type="fixed"><parent link="la"/><child link="lb"/></joint>'
    for i, j in itertools.product((0, 1, 2, 3), (0, 1, 2, 3)):
        for text in ("<robot>%s%s</robot>" % (base, new % (jt(i), ac(j))), "<robot>%s%s</robot>" % (new % (ac(j), jt(i)), base)):
            if i == 0 or j == 0:
                cx.expect(refused("urdf", text), "transmission:empty", lambda: text)
                continue
            r = read("urdf", text)
            for _ in range(2):
                t = r.transmissions
                ok = len(t) == 1 and t[0].name == "t" and [x.name for x in t[0].joints] == ["j%d" % k for k in range(i)] and \
                    [x.hardwareInterfaces for x in t[0].joints] == [["h%d" % k] for k in range(i)] and \
                    [(x.name, x.mechanicalReduction) for x in t[0].actuators] == [("a%d" % k, k + .5) for k in range(j)] and len(r.links) == 2 and len(r.joints) == 1
                cx.expect(ok, "transmission", lambda: text)
                r = read("urdf", r.to_xml_string())
            cx.add(states=1, transitions=2, traces=1)
            cx.outcome(i, j)
    pr2 = '<transmission name="t" type="x"><actuator name="a"/><joint name="j0"/><mechanicalReduction>2.5</mechanicalReduction></transmission>'
    r = read("urdf", "<robot>%s%s</robot>" % (base, pr2))
    for _ in range(2):
        t = r.transmissions[0]
        cx.expect((t.name, t.type, t.actuator, t.joint, t.mechanicalReduction) == ("t", "x", "a", "j0", 2.5), "transmission:pr2")
        r = read("urdf", r.to_xml_string())
    gz = '<gazebo reference="la"><material>Red</material><!-- c --><plugin name="p"><x>1</x></plugin></gazebo>'
    r = read("urdf", "<robot>%s%s</robot>" % (base, gz))
    for _ in range(2):
        g = r.gazebos[0]
        cx.expect(len(r.gazebos) == 1 and g.get("reference") == "la" and [c.tag for c in g if isinstance(c.tag, str)] == ["material", "plugin"] and g.find("plugin/x").text == "1", "gazebo")
        out = r.to_xml_string()
        cx.expect(len(r.gazebos[0]) >= 2 or _ == 1, "gazebo:kept", "writing took the contents out of the extension")
        r = read("urdf", out)
    cx.add(states=2, transitions=4, traces=2)


def do_history(case, cx):
    """every sequence of additions and removals of links and joints, against a list"""
    fm = case["fm"]
    mk = dict(urdf=(lambda: U.Robot("r"), lambda n: U.Link(n), lambda n, a, b: U.Joint(n, a, b, "revolute")),
              sdf=(lambda: S.Model("m"), lambda n: S.Link(n, inertial=S.Inertial(1., S.Inertia(1., 0., 0., 1., 0., 1.))),
                   lambda n, a, b: S.Joint(n, a, b, "revolute", axis=S.Axis([0., 0., 1.]))))[fm]
    ops = ["link", "joint", "take-first", "take-last", "write"]
    for L in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=L):
            if "write" in seq[:-1] and L < 3:
                continue
            r, model, k = mk[0](), [], 0
            for op in seq:
                if op == "link":
                    x = mk[1]("l%d" % k)
                    r.add_link(x)
                    model.append(("link", x.name, x))
                elif op == "joint":
                    x = mk[2]("j%d" % k, "l%d" % (k - 1), "l%d" % k)
                    r.add_joint(x)
                    model.append(("joint", x.name, x))
                elif op.startswith("take"):
                    if not model:
                        continue
                    m = model.pop(0 if op == "take-first" else -1)
                    r.remove_aggregate(m[2])
                else:
                    r.to_xml_string()
                k += 1
                cx.add(transitions=1)
            got = [(x.tag, x.get("name")) for x in ET.fromstring(r.to_xml_string())]
            cx.expect(got == [m[:2] for m in model], "history:written:" + fm, lambda: "%s: %s instead of %s" % (seq, got, [m[:2] for m in model]))
            cx.expect([x.name for x in r.links] == [m[1] for m in model if m[0] == "link"] and [x.name for x in r.joints] == [m[1] for m in model if m[0] == "joint"],
                      "history:lists:" + fm, lambda: str(seq))
            links = {m[1]: m[2] for m in model if m[0] == "link"}
            joints = {m[1]: m[2] for m in model if m[0] == "joint"}
            cx.expect(set(r.link_map) == set(links) and all(r.link_map[k_] is v for k_, v in links.items()) and set(r.joint_map) == set(joints) and
                      all(r.joint_map[k_] is v for k_, v in joints.items()), "history:maps:" + fm, lambda: "%s: %s %s" % (seq, list(r.link_map), list(r.joint_map)))
            up = {j.child: (j.name, j.parent) for j in joints.values()}
            down = {}
            for j in joints.values():
                down.setdefault(j.parent, []).append((j.name, j.child))
            cx.expect(dict(r.parent_map) == up and {k_: v for k_, v in r.child_map.items() if v} == down, "history:tree:" + fm,
                      lambda: "%s: %s %s" % (seq, r.parent_map, r.child_map))
            if fm == "urdf":
                tops = [l for l in links if l not in up]
                got = None if raises(r.get_root) else r.get_root()
                cx.expect(got == (tops[0] if len(tops) == 1 else None), "history:root", lambda: "%s: %s of %s" % (seq, got, tops))
            r.lump_aggregates()
            got = [(x.tag, x.get("name")) for x in ET.fromstring(r.to_xml_string())]
            cx.expect(got == [m[:2] for t in ("link", "joint") for m in model if m[0] == t], "history:lumped:" + fm, lambda: "%s: %s" % (seq, got))
            cx.add(states=1, traces=1)
            cx.outcome(len(model), tuple(m[0] for m in model))
