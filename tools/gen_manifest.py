"""Writes MANIFEST.json from the checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B"
TRUST = ("Every call of the real code in the stated bounded space was executed and judged against an independent NumPy reference (%s); "
         "nothing is sampled. Trusts PyTorch, NumPy and the reference in mc/ref.py; inputs outside the stated alphabets and sizes are not covered.")
T = {
 "C01": ("explicit enumeration of all robot trees and configurations in a bound, run on the real code against a reference model", "all trees up to 5 frames with all joint types"),
 "C02": ("exhaustive enumeration of batches (all compositions of row classes, sizes and memory layouts)", "row-by-row equality"),
 "C03": ("exhaustive enumeration of input forms, orders and malformed inputs", "bound by joint name"),
 "C04": ("explicit enumeration of serial chains, configurations and tools", "geometric Jacobian of the reference"),
 "C05": ("explicit enumeration of trees, outputs and differentiation modes", "exact derivative of the reference"),
 "C06": ("explicit enumeration of all (root, end) extractions and re-extractions of all trees in a bound", "relative transforms of the reference"),
 "C07": ("explicit enumeration of trees and all structure queries", "the description itself"),
 "C08": ("exhaustive exploration of conversion histories (sequences of to/copy/extract) up to a depth", "the description itself"),
 "C09": ("explicit-state exploration of all query histories up to a depth over a world of robots, with a probe after each", "reference results"),
 "C10": ("exhaustive enumeration of URDF descriptions (trees, element orders, forms of every attribute)", "the description itself"),
 "C11": ("exhaustive enumeration of SDF descriptions (trees, element orders, forms of every attribute)", "the description itself"),
 "C12": ("exhaustive enumeration of MJCF models, conformance with MuJoCo's kinematics", "MuJoCo's mj_kinematics"),
 "C13": ("exhaustive enumeration of limit patterns and configurations around each bound", "per-joint nearest value"),
 "C14": ("exhaustive enumeration of conversion paths over a finite set of rotations (cube group, singular and near-singular angles)", "quaternion reference"),
 "C15": ("exhaustive enumeration of conventions and angle grids", "products of axis rotations"),
 "C16": ("exhaustive enumeration of quaternion pairs and triples from the binary octahedral group and near-singular pairs", "rotation reference"),
 "C17": ("explicit-state exploration of operation sequences on transforms up to a depth, conformance with a reference model", "4x4 reference semantics"),
 "C18": ("exhaustive enumeration of solver options, problems and starts; every reported value re-derived", "reference kinematics"),
 "C19": ("exhaustive enumeration of limits, starts and options", "limits and reference kinematics"),
 "C20": ("exhaustive enumeration of groupings, orders and repetitions of problems", "solving each problem alone"),
 "C21": ("exhaustive exploration of call sequences (batch sizes) of compiled functions", "uncompiled results"),
 "C22": ("exhaustive enumeration of public functions x shapes x dtypes x layouts x call histories", "purity and batch independence"),
 "C23": ("exhaustive enumeration of axes and angles", "Rodrigues reference"),
 "C24": ("exhaustive enumeration of the random generator's outputs over an alphabet (nondeterminism as choices)", "rotation reference"),
 "C25": ("explicit-state breadth-first search of the solution record to its fixpoint, conformance with a reference automaton on every transition", "reference automaton"),
 "C26": ("exhaustive enumeration of functions, inputs and batch mixes", "complex/central differences and exact derivatives"),
 "C28": ("exhaustive enumeration of descriptions (every subset of the optional parts of every element, spellings, orders, damages) and of edit sequences up to a depth, conformance with a model of the formats", "an independent table of the formats and reader"),
 "C30": ("exhaustive fault injection on the real code: an exception at every line event of every call, pairs of faults, then everything asked again; first loads in a forked process per fault", "what the same calls give on objects of which no call was cut short"),
 "C29": ("stateless exploration of all thread schedules up to a preemption bound under a controlled scheduler, on the real code", "what each thread gets alone"),
 "C27": ("exhaustive enumeration of options, targets and starts; explicit exploration of all outcome sequences of line search trials; conformance of every path with a simulation", "a simulation of the method in NumPy"),
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "mc", "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="%s -m mc.run %s --tier quick" % (PY, p), thorough_cmd="%s -m mc.run %s --tier thorough" % (PY, p),
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking", level_note=TRUST % T[p][1]))
    else:
        na.append(dict(property=p, reason="check not built yet; model checking applies, see DESIGN.md"))
m = dict(version=1, setup_cmd="%s -c \"import sys; sys.path.insert(0, '/repo/src'); from mc import ref; ref.selfcheck()\"" % PY, checks=checks, not_applicable=na,
         notes="Checks import /repo/src directly (pure Python, nothing to build). No hooks are needed: everything is observed through the public interface.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
