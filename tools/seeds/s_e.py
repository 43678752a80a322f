import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_b.py")).items() if k.isupper() and k != "SPECS"})
I = 'src/pytorch_kinematics/ik.py'
UP = 'src/pytorch_kinematics/urdf_parser_py/urdf.py'
CO = 'src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py'
DESC = '''
import sys
from pytorch_kinematics.urdf_parser_py.urdf import *
import pytorch_kinematics.urdf_parser_py.urdf as U
def back(s):
    a = U.Robot.from_xml_string(s.encode())
    t = a.to_xml_string()
    return a, t, U.Robot.from_xml_string(t if isinstance(t, bytes) else t.encode())
'''
SPECS = [
 dict(id='c27-damping-unweighted', property='C27',
  edits=[(I, '''        mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
''', '''        mu = lm_damping * torch.linalg.vector_norm(dx, dim=1, keepdim=True) ** 2  # (NM, 1, 1)
''')],
  needs='damping together with weights other than one, on the default solver',
  breaks='the damping is proportional to the unweighted error: the two solvers take different steps',
  demo=IKD + '''
ch = arm(6)
goal = ch.forward_kinematics(torch.full((1, 6), 0.3, dtype=torch.float64))
q0 = torch.full((1, 6), 0.1, dtype=torch.float64)
o = dict(retry_configs=q0, max_iterations=1, orientation_weight=0.05, lm_damping=0.5, early_stopping_no_improvement=None, enforce_joint_limits=False)
a = pk.PseudoInverseIK(ch, **o).solve(goal).solutions
b = pk.PseudoInverseIKWithSVD(ch, **o).solve(goal).solutions
if (a - b).abs().max() > 1e-8:
    print('steps differ by', (a - b).abs().max().item()); sys.exit(1)
'''),
 dict(id='c27-search-moving', property='C27',
  edits=[(I, '''            improvement = err - err_new
            improved = improvement > self.sufficient_decrease
''', '''            improvement = err - err_new
            improved = (improvement > self.sufficient_decrease) & remaining
''')],
  needs='a line search over several attempts, one of which succeeds before another',
  breaks='attempts that already have a good step length get it shortened while others are searching',
  demo=IKD + '''
from pytorch_kinematics.ik import BacktrackingLineSearch
ch = arm(6)
qs = torch.full((1, 6), 0.3, dtype=torch.float64)
goal = ch.forward_kinematics(qs)
q0 = torch.stack([qs[0] + 0.2, qs[0] + 0.2])
o = dict(max_iterations=1, early_stopping_no_improvement=None, enforce_joint_limits=False)
class Wrong(BacktrackingLineSearch):
    def do_line_search(self, chain, q, dq, *a, **k):
        dq[1] = -5 * dq[1]   # the second attempt never improves
        return super().do_line_search(chain, q, dq, *a, **k)
one = pk.PseudoInverseIK(ch, retry_configs=q0[:1], line_search=BacktrackingLineSearch(), **o).solve(goal).solutions[0, 0]
two = pk.PseudoInverseIK(ch, retry_configs=q0, line_search=Wrong(), **o).solve(goal).solutions[0, 0]
if (one - two).abs().max() > 1e-9:
    print('the attempt depends on the other one', (one - two).abs().max().item()); sys.exit(1)
'''),
 dict(id='c27-svd-truncate', property='C27',
  edits=[(I, '''    prod = D / denom
''', '''    # singular directions carry no information
    prod = torch.where(D > 1e-2 * D[:, :1], D / denom, torch.zeros_like(D))
''')],
  needs='the SVD solver close to a singular configuration',
  breaks='directions with small singular values are not followed at all, instead of damped as documented',
  demo=IKD + '''
js = [joint('a', 'revolute', 'l0', 'l1'), joint('b', 'revolute', 'l1', 'l2', xyz='1 0 0')]
ch = pk.build_serial_chain_from_urdf(urdf(js + [joint('c', 'fixed', 'l2', 'l3', xyz='1 0 0')], ['l0', 'l1', 'l2', 'l3']), 'l3').to(dtype=torch.float64)
q0 = torch.tensor([[0.3, 0.004]], dtype=torch.float64)
goal = ch.forward_kinematics(q0 + torch.tensor([[-0.001, 0.001]], dtype=torch.float64))
o = dict(retry_configs=q0, max_iterations=1, orientation_weight=1e-9, lm_damping=0., regularlization=1e-14, pos_tolerance=1e-9, rot_tolerance=1e-9, early_stopping_no_improvement=None, enforce_joint_limits=False)
a = pk.PseudoInverseIK(ch, **o).solve(goal).solutions
b = pk.PseudoInverseIKWithSVD(ch, **o).solve(goal).solutions
if (a - b).abs().max() > 1e-5:
    print('steps differ by', (a - b).abs().max().item()); sys.exit(1)
'''),
 dict(id='c27-refine-lr', property='C27',
  edits=[(I, '''            q = q + self.lr * dq.squeeze(2)
            q = torch.clamp(q, self.chain.low, self.chain.high)
''', '''            step = dq.squeeze(2)
            q = torch.clamp(q + step, self.chain.low, self.chain.high)
''')],
  needs='a learning rate other than one and a robot with limits',
  breaks='the refinement within the limits takes full steps whatever the learning rate',
  demo=IKD + '''
ch = arm(6, [(-2, 2)] * 6)
q0 = torch.full((1, 6), 0.1, dtype=torch.float64)
goal = ch.forward_kinematics(q0 + 0.05)
o = dict(retry_configs=q0, lr=0.1, lm_damping=0.0, early_stopping_no_improvement=None, pos_tolerance=1e-12)
a = pk.PseudoInverseIK(ch, max_iterations=3, num_limit_refinement_iterations=2, **o).solve(goal).solutions
b = pk.PseudoInverseIK(ch, max_iterations=5, num_limit_refinement_iterations=0, **o).solve(goal).solutions
if (a - b).abs().max() > 1e-8:
    print('three steps and two refinements differ from five steps by', (a - b).abs().max().item()); sys.exit(1)
'''),
 dict(id='c19-upper-only', property='C19',
  edits=[(I, '''        return torch.isfinite(self.chain.low).any() or torch.isfinite(self.chain.high).any()
''', '''        return bool((torch.isfinite(self.chain.low) & torch.isfinite(self.chain.high)).any())
''')],
  needs='a robot none of whose joints has both a lower and an upper limit',
  breaks='one-sided limits are ignored when no joint has two',
  demo=IKD + '''
js = [joint('j%d' % i, 'prismatic', 'l%d' % i, 'l%d' % (i + 1), axis=['0 0 1', '0 1 0', '1 0 0'][i],
      limit='<limit upper="%s" effort="1" velocity="1" lower="-inf"/>' % ('0.2' if i == 0 else 'inf')) for i in range(3)]
ch = pk.build_serial_chain_from_urdf(urdf(js, ['l%d' % i for i in range(4)]), 'l3').to(dtype=torch.float64)
goal = ch.forward_kinematics(torch.tensor([[0.5, 0.1, 0.1]], dtype=torch.float64))
s = pk.PseudoInverseIK(ch, retry_configs=torch.zeros(1, 3, dtype=torch.float64), early_stopping_no_improvement=None).solve(goal)
if (s.solutions[..., 0] > 0.2 + 1e-6).any():
    print('beyond the limit', s.solutions.tolist()); sys.exit(1)
'''),
 dict(id='c19-refine-slides', property='C19',
  edits=[(I, '''            q = q + self.lr * dq.squeeze(2)
            q = torch.clamp(q, self.chain.low, self.chain.high)
''', '''            q = self._wrap_revolute_joints(q + self.lr * dq.squeeze(2))
            if self._revolute_mask.any():
                q = torch.clamp(q, self.chain.low, self.chain.high)
''')],
  needs='a robot with prismatic joints only and a target beyond the limits',
  breaks='the refinement leaves the limits again',
  demo=IKD + '''
js = [joint('j%d' % i, 'prismatic', 'l%d' % i, 'l%d' % (i + 1), axis=['0 0 1', '0 1 0', '1 0 0'][i],
      limit='<limit lower="-0.2" upper="0.2" effort="1" velocity="1"/>') for i in range(3)]
ch = pk.build_serial_chain_from_urdf(urdf(js, ['l%d' % i for i in range(4)]), 'l3').to(dtype=torch.float64)
goal = ch.forward_kinematics(torch.tensor([[0.5, 0.1, 0.1]], dtype=torch.float64))
s = pk.PseudoInverseIK(ch, retry_configs=torch.zeros(1, 3, dtype=torch.float64), early_stopping_no_improvement=None).solve(goal)
if (s.solutions.abs() > 0.2 + 1e-6).any():
    print('beyond the limit', s.solutions.tolist()); sys.exit(1)
'''),
 dict(id='c28-zero-default', property='C28',
  edits=[(CO, '''        value = getattr(obj, self.var)
        # Do not set with default value if value is None
        if value is None:
''', '''        value = getattr(obj, self.var)
        # Do not set with default value if value is None
        if not value and value != '':
''')],
  needs='an optional attribute whose default is not zero, given as zero (an inertia diagonal, the multiplier of a mimic joint, one side of a limit)',
  breaks='zero is written as the default value',
  demo=DESC + '''
s = '<robot name="r"><link name="a"/><link name="b"/><joint name="k" type="revolute"><parent link="a"/><child link="b"/><origin xyz="0 0 0" rpy="0 0 0"/><limit effort="1" velocity="1" lower="-1" upper="0"/><safety_controller k_velocity="0" soft_lower_limit="0"/><mimic joint="k" multiplier="0" offset="0"/></joint></robot>'
a, t, b = back(s)
if b.joints[0].mimic.multiplier != a.joints[0].mimic.multiplier or b.joints[0].limit.upper != 0:
    print('multiplier', b.joints[0].mimic.multiplier, 'instead of', a.joints[0].mimic.multiplier); sys.exit(1)
'''),
 dict(id='c28-float-format', property='C28',
  edits=[(CO, '''        raw = list(map(str, values))
''', '''        raw = ['{:.10g}'.format(v) for v in values]
''')],
  needs='a vector with more than ten significant digits',
  breaks='digits are lost by writing and reading again',
  demo=DESC + '''
s = '<robot name="r"><link name="a"/><link name="b"/><joint name="k" type="fixed"><parent link="a"/><child link="b"/><origin xyz="0.12345678901234567 1e-7 -3" rpy="3.141592653589793 0 0"/></joint></robot>'
a, t, b = back(s)
if a.joints[0].origin.xyz != b.joints[0].origin.xyz or a.joints[0].origin.rpy != b.joints[0].origin.rpy:
    print(b.joints[0].origin.xyz, b.joints[0].origin.rpy); sys.exit(1)
'''),
 dict(id='c28-space-split', property='C28',
  edits=[(CO, '''        return text.split()
''', '''        return [part for part in text.split(' ') if part.strip()]
''')],
  needs='a vector whose numbers are separated by tabs or line ends',
  breaks='numbers separated by anything but a space are not told apart',
  demo=DESC + '''
s = '<robot name="r"><link name="a"/><link name="b"/><joint name="k" type="fixed"><parent link="a"/><child link="b"/><origin xyz="1&#9;2&#10;3" rpy="0 0 0"/></joint></robot>'
try:
    a, t, b = back(s)
except Exception as e:
    print('not read:', e); sys.exit(1)
if list(a.joints[0].origin.xyz) != [1, 2, 3]:
    print(a.joints[0].origin.xyz); sys.exit(1)
'''),
 dict(id='c28-aggregate-order', property='C28',
  edits=[(CO, '''        for value in self.aggregate_order:
            typeName = self.aggregate_type[value]
''', '''        # the same kind together
        kinds = [e.xml_var for e in self.XML_REFL.aggregates]
        for value in sorted(self.aggregate_order, key=lambda v: (kinds.index(self.aggregate_type[v]), getattr(v, 'name', None) or '')):
            typeName = self.aggregate_type[value]
''')],
  needs='links or joints that are not in alphabetical order',
  breaks='the order of the joints is another one after writing and reading again',
  demo=DESC + '''
s = '<robot name="r"><link name="b"/><link name="a"/><link name="c"/><joint name="z" type="fixed"><parent link="b"/><child link="a"/></joint><joint name="y" type="fixed"><parent link="b"/><child link="c"/></joint></robot>'
a, t, b = back(s)
if [j.name for j in b.joints] != ['z', 'y'] or [l.name for l in b.links] != ['b', 'a', 'c']:
    print([j.name for j in b.joints], [l.name for l in b.links]); sys.exit(1)
'''),
 dict(id='c28-chain-fixed', property='C28',
  edits=[(UP, '''                if fixed or self.joint_map[joint].joint_type != 'fixed':
                    chain.append(joint)
''', '''                if not fixed and self.joint_map[joint].joint_type == 'fixed':
                    link = parent
                    continue
                chain.append(joint)
''')],
  needs='asking for the chain without fixed joints, with links, on a robot with a fixed joint on the way',
  breaks='the links before fixed joints are left out',
  demo=DESC + '''
s = '<robot name="r"><link name="a"/><link name="b"/><link name="c"/><joint name="k" type="fixed"><parent link="a"/><child link="b"/></joint><joint name="m" type="continuous"><parent link="b"/><child link="c"/></joint></robot>'
a = U.Robot.from_xml_string(s.encode())
if a.get_chain('a', 'c', fixed=False) != ['a', 'b', 'm', 'c']:
    print(a.get_chain('a', 'c', fixed=False)); sys.exit(1)
'''),
]
