"""Every tree in the bound with all joint types and several alphabets of names: every structural query and every lookup
(existing, missing, prefix, wrong case) is compared with the description the robot was built from; the printed tree is
parsed back."""
import contextlib
import io
import itertools

import torch

import pytorch_kinematics as pk
from mc import ref, robots as R
from mc.util import *

BOUNDS = dict(quick="trees n<=5 all joint types, 3 alphabets of names; 12 larger shapes", thorough="trees n<=6 all joint types, 6 alphabets of names")
TYPES = {"r": "revolute", "p": "prismatic", "f": "fixed"}
ALPH = [(None, None), (["d", "c", "b", "a", "0", "_"], ["d", "c", "b", "a", "0", "_"]),
        (["link", "link1", "link10", "link_1", "Link", "lin"], ["joint10", "joint1", "joint", "joint_1", "Joint", "join"]),
        (["x y", "└── t", "a/b", "├", "│   z", " lead"], ["a b", "é", "b/c", ".", "-", "~"]),
        (["base", "base_link", "base_link0", "base_link0_link", "b", "bas"], ["b", "ba", "bas", "base", "baseb", "bb"]),
        (["9", "10", "1", "2", "100", "20"], ["9", "10", "1", "2", "100", "20"])]


def cases(tier):
    out = []
    top = 5 if tier == "quick" else 6
    for n in range(1, top + 1):
        for a in range(len(ALPH)):
            if n >= 5 and tier == "quick" and a not in (0, 2, 3):
                continue
            for p in R.parent_arrays(n):
                out.append(dict(name="%s-%d" % (".".join(map(str, p)), a), parents=list(p), alph=a))
    for nm, p in shapes():
        out.append(dict(name="big-" + nm, parents=p, big=True))
    return out


def run(case, cx):
    if case.get("big"):
        for pat in ("rpf", "f", "rf"):
            judge(big("b", case["parents"], pat, 1), cx)
        return
    names, jn = ALPH[case["alph"]]
    for ts in itertools.product("rpf", repeat=len(case["parents"]) - 1):
        spec = R.make(case["parents"], [TYPES[c] for c in ts], case["alph"], names=names, jnames=jn)
        for i, n in enumerate(spec["nodes"]):
            n["lname"] = n["name"] if case["alph"] % 2 else "L" + n["name"]
        judge(spec, cx)
    cx.sample = dict(robot=R.label(spec))


def parse(text):
    """(name, depth) in order"""
    lines = text.split("\n")
    out = [(lines[0], 0)]
    for l in lines[1:]:
        if l == "":
            continue
        d = 1
        while l[:4] in ("    ", "│   "):
            l = l[4:]
            d += 1
        if l[:4] not in ("├── ", "└── "):
            return None
        out.append((l[4:], d))
    return out


def drawn(text, want):
    """the lines drawn connect every element to its parent and to nothing else"""
    lines = [l for l in text.split("\n") if l != ""]
    if len(lines) != len(want):
        return False
    for i, (_, d) in enumerate(want):
        for k in range(d):
            # column k belongs to the ancestor at depth k: a bar exactly when that ancestor has a later child
            later = False
            for nm, d2 in want[i + 1:]:
                if d2 <= k:
                    break
                if d2 == k + 1:
                    later = True
                    break
            cell = lines[i][4 * k:4 * k + 4]
            exp = ("├── " if later else "└── ") if k == d - 1 else ("│   " if later else "    ")
            if cell != exp:
                return False
    return True


def judge(spec, cx):
    nodes = spec["nodes"]
    order, kids = ref.joint_order(spec)
    chain = R.build(spec, F64, ctor=len(nodes[0]["name"]) % 2 == 1)
    lab = R.label(spec)
    dfs = [nodes[i] for i in order]
    mv = [n for n in dfs if n["jtype"] != "fixed"]

    def eq(what, got, want):
        cx.expect(got == want, what, lambda: "%s: got %s, wanted %s" % (lab, got, want))

    for rep_ in (0, 1):  # asking again gives the same
        eq("joint-names", chain.get_joint_parameter_names(), [n["jname"] for n in mv])
        eq("joint-names-all", [x for x in chain.get_joint_parameter_names(exclude_fixed=False) if x is not None], [n["jname"] for n in dfs[1:]])
        eq("joint-names-kw", chain.get_joint_parameter_names(exclude_fixed=True), [n["jname"] for n in mv])
        eq("joints", [(j.name, j.joint_type) for j in chain.get_joints()], [(n["jname"], n["jtype"]) for n in mv])
        eq("joints-all", [(j.name, j.joint_type) for j in chain.get_joints(exclude_fixed=False) if j.name is not None], [(n["jname"], n["jtype"]) for n in dfs[1:]])
        eq("frame-names", list(chain.get_frame_names(exclude_fixed=False)), [n["name"] for n in dfs])
        eq("frame-names-movable", list(chain.get_frame_names()), [n["name"] for n in mv])
        eq("joint-frames", list(chain.get_joint_parent_frame_names()), [n["name"] for n in mv])
        eq("joint-frames-all", [x for x in chain.get_joint_parent_frame_names(exclude_fixed=False) if x != nodes[0]["name"]], [n["name"] for n in dfs[1:]])
        eq("link-names", list(chain.get_link_names()), [n.get("lname", n["name"]) for n in dfs])
        eq("links", [l.name for l in chain.get_links()], [n.get("lname", n["name"]) for n in dfs])
        eq("n-joints", chain.n_joints, len(mv))
    axes = [npa(j.axis) for j in chain.get_joints()]
    for a, n in zip(axes, mv):
        cx.expect(R.maxerr(a, ref.unit(n["axis"])) < 1e-12, "axis", lab)
    # lookups
    for n in nodes:
        f = chain.find_frame(n["name"])
        eq("find-frame", (f.name, f.joint.name if n["parent"] >= 0 else None, sorted(c.name for c in f.children)) if f is not None else None,
           (n["name"], n["jname"], sorted(nodes[k]["name"] for k in kids[nodes.index(n)])))
        l = chain.find_link(n.get("lname", n["name"]))
        eq("find-link", None if l is None else l.name, n.get("lname", n["name"]))
        cx.expect(l is not None and any(l is x for x in chain.get_links()), "find-link-identity", lab)
        if n["parent"] >= 0:
            j = chain.find_joint(n["jname"])
            eq("find-joint", None if j is None else (j.name, j.joint_type), (n["jname"], n["jtype"]))
            cx.expect(j is not None and j is f.joint, "find-joint-identity", lab)
    fn, jn, ln = ({n["name"] for n in nodes}, {n["jname"] for n in nodes if n["jname"]}, {n.get("lname", n["name"]) for n in nodes})
    for n in nodes:
        for s in {n["name"], n["jname"] or "q", n.get("lname", n["name"])}:
            for bad in (s, s + "x", s[:-1], s[1:], s.upper(), s.lower(), s + " ", "", s + "_link"):
                if bad not in fn:
                    eq("find-frame-missing", chain.find_frame(bad), None)
                    cx.expect(raises(chain.get_frame_indices, bad), "index-missing", "%s %r" % (lab, bad))
                if bad not in jn:
                    eq("find-joint-missing", chain.find_joint(bad), None)
                if bad not in ln:
                    eq("find-link-missing", chain.find_link(bad), None)
    # indices select the frame with that name
    q, B = qrows(spec, 2)
    want = ref.fk(spec, q, B)
    T = npa(chain.forward_kinematics_tensor(th_of(chain, q, B)))
    idx = [int(chain.get_frame_indices(n["name"])[0]) for n in nodes]
    eq("indices", sorted(idx), list(range(len(nodes))))
    for i, n in zip(idx, nodes):
        cx.expect(R.materr(T[i], want[n["name"]]) < 1e-9, "index-selects", "%s %s" % (lab, n["name"]))
    names = [n["name"] for n in nodes]
    eq("indices-many", chain.get_frame_indices(*names[::-1]).tolist(), idx[::-1])
    eq("indices-twice", chain.get_frame_indices(names[0], names[-1], names[0]).tolist(), [idx[0], idx[-1], idx[0]])
    eq("indices-all", sorted(chain.get_all_frame_indices().tolist()), list(range(len(nodes))))
    # text
    depth = {}
    for i, n in enumerate(nodes):
        depth[i] = 0 if n["parent"] < 0 else depth[n["parent"]] + 1
    want_text = [(nodes[i]["name"], depth[i]) for i in order]
    text = chain.print_tree(do_print=False)
    if not any(n["name"][:4] in ("    ", "│   ") for n in nodes):
        eq("tree-text", parse(text), want_text)
    cx.expect(drawn(text, want_text), "tree-drawing", lambda: "%s\n%s" % (lab, text))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        text2 = chain.print_tree()
    cx.expect(text2 == text and buf.getvalue().rstrip("\n") == text.rstrip("\n"), "tree-printed", lab)
    eq("tree-str", str(chain), text)
    for n in nodes[1:]:
        f = chain.find_frame(n["name"])
        eq("is-end", f.is_end(), not kids[nodes.index(n)])
    # links moved by each joint
    below = {}
    for i, n in enumerate(nodes):
        below[n["jname"]] = {nodes[k].get("lname", nodes[k]["name"]) for k in range(len(nodes)) if i in ref.path(spec, k)}
    got = [(j.name, [l.name for l in ls]) for j, ls in chain.get_joints_and_child_links()]
    eq("moved-joints", sorted(j for j, _ in got), sorted(n["jname"] for n in mv))
    for j, ls in got:
        eq("moved-links", sorted(ls), sorted(below[j]))
    cx.add(states=1, traces=1)
    cx.outcome(lab)
