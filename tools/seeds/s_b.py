import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_a.py")).items() if k.isupper() and k != "SPECS"})
IKD = URDF + '''
def arm(n, lim=None, fixed=0):
    js = []
    for i in range(n):
        l = '<limit lower="%g" upper="%g" effort="1" velocity="1"/>' % lim[i] if lim and lim[i] else ''
        js.append(joint('j%d' % i, 'revolute' if (not lim or lim[i]) else 'continuous', 'l%d' % i, 'l%d' % (i + 1), xyz='0.1 0.2 0.3', rpy='0.3 0.2 0.1', axis=['0 0 1', '0 1 0', '1 0 0'][i % 3], limit=l))
    return pk.build_serial_chain_from_urdf(urdf(js, ['l%d' % i for i in range(n + 1)]), 'l%d' % n).to(dtype=torch.float64)
'''
SPECS = [
 dict(id='c06-limits-order', property='C06',
  edits=[(C, '''        kwargs.setdefault("device", chain.device)
        chain = Chain(root_frame, **kwargs)
''', '''        kwargs.setdefault("device", chain.device)
        # the tree below the root; when it is the root of the robot the chain can be used as it is
        chain = chain if root_frame is chain._root and not chain._root.joint.offset else Chain(root_frame, **kwargs)
'''), (C, '''        ancestors = chain.parents_indices[end_frame_idx]

        frames = []''', '''        ancestors = chain.parents_indices[end_frame_idx]
        self._source = chain

        frames = []'''), (C, '''        self._serial_frames = frames
        super().__init__(frames[0], **kwargs)
''', '''        self._serial_frames = frames
        super().__init__(frames[0], **kwargs)
        if len(self.low) == len(chain.low):
            self.low, self.high = chain.low, chain.high
        else:
            self.low, self.high = chain.low[:len(self.low)], chain.high[:len(self.high)]
''')],
  needs='a robot with branches, extracting a branch other than the first (or one starting below the first joint)',
  breaks='the limits of the extracted chain are those of other joints',
  demo=URDF + '''
L = '<limit lower="%g" upper="%g" effort="1" velocity="1"/>'
u = urdf([joint('a', 'revolute', 'l0', 'l1', xyz='1 0 0', limit=L % (-1, 1)), joint('b', 'revolute', 'l0', 'l2', limit=L % (-2, 2))], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u)
s = pk.SerialChain(ch, 'l2')
if s.clamp([5.0]).item() != 2.0:
    print('clamped to', s.clamp([5.0]).item()); sys.exit(1)
'''),
 dict(id='c07-tree-prefix', property='C07',
  edits=[(FR, '''                extension = branch if pointer == tee else space
''', '''                extension = branch if pointer == tee and len(prefix) < 8 else space
''')],
  needs='a robot with a branch at depth three or more whose earlier child has children of its own',
  breaks='the printed tree leaves out the line to the later sibling',
  demo=URDF + '''
names = ['l%d' % i for i in range(6)]
u = urdf([joint('a', 'revolute', 'l0', 'l1'), joint('b', 'revolute', 'l1', 'l2'), joint('c', 'revolute', 'l2', 'l3'),
          joint('d', 'revolute', 'l3', 'l4'), joint('e', 'revolute', 'l2', 'l5')], names)
lines = pk.build_chain_from_urdf(u).print_tree(do_print=False).splitlines()
i = next(i for i, l in enumerate(lines) if l.endswith('l4')); j = next(i for i, l in enumerate(lines) if l.endswith('l5'))
col = lines[j].index('\\u2514')
if lines[i][col] != '\\u2502':
    print('\\n'.join(lines)); sys.exit(1)
'''),
 dict(id='c07-find-joint-fixed', property='C07',
  edits=[(C, '''            if child.joint.name == name:
                return child.joint
            ret = Chain._find_joint_recursive(name, child)
''', '''            if child.joint.name is not None and child.joint.name.strip() == name.strip():
                return child.joint
            ret = Chain._find_joint_recursive(name, child)
''')],
  needs='two joints whose names differ only in surrounding blanks, or a lookup with such a name',
  breaks='the lookup finds a joint that has another name',
  demo=URDF + '''
u = urdf([joint('a ', 'revolute', 'l0', 'l1'), joint('a', 'revolute', 'l1', 'l2')], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u)
if ch.find_joint('a').name != 'a' or ch.find_joint(' a') is not None:
    print('found', repr(ch.find_joint('a').name)); sys.exit(1)
'''),
 dict(id='c09-limits-alias', property='C09',
  edits=[(C, '''    def get_joint_limits(self):
        return self._get_joint_limits("limits")
''', '''    def get_joint_limits(self):
        if "_limits" not in self.__dict__:
            self._limits = self._get_joint_limits("limits")
        return self._limits
''')],
  needs='overwriting the lists returned by get_joint_limits and asking again',
  breaks='the later answer contains what the caller wrote',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1')], ['l0', 'l1'])
ch = pk.build_chain_from_urdf(u)
low, high = ch.get_joint_limits(); low[0] = 3.0
if ch.get_joint_limits()[0][0] == 3.0:
    print('the limits reported later were changed'); sys.exit(1)
'''),
 dict(id='c10-mimic-axis', property='C10',
  edits=[('src/pytorch_kinematics/urdf_parser_py/urdf.py', '''    xmlr.Attribute('lower', float, False, 0),
    xmlr.Attribute('upper', float, False, 0),
    xmlr.Attribute('velocity', float)
''', '''    xmlr.Attribute('lower', float, False),
    xmlr.Attribute('upper', float, False, 0),
    xmlr.Attribute('velocity', float)
'''), (UR, '''                limits = (j.limit.lower, j.limit.upper)
''', '''                limits = (-j.limit.upper if j.limit.lower is None else j.limit.lower, j.limit.upper)
''')],
  needs='a limit element that gives only the upper bound',
  breaks='the lower bound is minus the upper bound instead of the default, 0',
  demo=URDF + '''
u = urdf([joint('a', 'prismatic', 'l0', 'l1', limit='<limit upper="0.5" effort="1" velocity="1"/>')], ['l0', 'l1'])
l = pk.build_chain_from_urdf(u).get_joint_limits()
if l[0][0] != 0:
    print('lower limit', l[0][0]); sys.exit(1)
'''),
 dict(id='c12-body-name', property='C12',
  edits=[(MJ, '''    if body is None:
        root_body = m.body(0)
    else:
''', '''    if not body:
        # the first body, not the world, when the world holds nothing else
        root_body = m.body(1) if body == 0 and m.nbody == 2 else m.body(0)
    else:
''')],
  needs='asking for body index 0 in a model with a single body', breaks='the chain starts at the body instead of the world',
  demo=URDF + '''
mj = """<mujoco><worldbody><body name="a" pos="0 0 1"><joint name="j" axis="0 1 0"/><geom type="sphere" size="0.1"/></body></worldbody></mujoco>"""
n = pk.build_chain_from_mjcf(mj, body=0).get_frame_names(exclude_fixed=False)
if n != ['world', 'a']:
    print(n); sys.exit(1)
'''),
 dict(id='c15-rxzx', property='C15',
  edits=[(RC, '''    'ryzy': (1, 0, 1, 1),
''', '''    'ryzy': (1, 1, 1, 1),
'''), (RC, '''    'ryxy': (1, 1, 1, 1),
''', '''    'ryxy': (1, 0, 1, 1),
''')],
  needs="the rotating sequences 'ryzy' or 'ryxy'", breaks='the two sequences are exchanged',
  demo=URDF + '''
for n in ('ryzy', 'ryxy', 'rxzx', 'rzyz'):
    a = torch.tensor([0.3, 0.7, -0.4], dtype=torch.float64)
    R = pk.quaternion_to_matrix(pk.quaternion_from_euler(a, n))
    S = pk.euler_angles_to_matrix(a, n[1:].upper())
    if (R - S).abs().max() > 1e-9:
        print(n, 'differs'); sys.exit(1)
'''),
 dict(id='c16-apply-cross', property='C16',
  edits=[(RC, '''    real_parts = point.new_zeros(point.shape[:-1] + (1,))
    point_as_quaternion = torch.cat((real_parts, point), -1)
    out = quaternion_raw_multiply(
        quaternion_raw_multiply(quaternion, point_as_quaternion),
        quaternion_invert(quaternion),
    )
    return out[..., 1:]
''', '''    w, v = quaternion[..., :1], quaternion[..., 1:]
    v, point = torch.broadcast_tensors(v, point)
    t = 2 * torch.cross(v, point, dim=point.shape.index(3))
    return point + w * t + torch.cross(v, t, dim=-1)
''')],
  needs='a batch dimension of size three', breaks='the first cross product runs over the batch',
  demo=URDF + '''
for n in (2, 3, 4):
    q = torch.nn.functional.normalize(torch.randn(n, 4, dtype=torch.float64), dim=-1); p = torch.randn(n, 3, dtype=torch.float64)
    r = (pk.quaternion_to_matrix(q) @ p[..., None])[..., 0]
    if (pk.quaternion_apply(q, p) - r).abs().max() > 1e-9:
        print('batch of', n); sys.exit(1)
'''),
 dict(id='c17-scale-inverse', property='C17',
  edits=[(T3, '''        return self.compose(Scale(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
''', '''        return self.compose(Scale(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))

    def _is_rigid(self):
        return (self._matrix[:, :3, :3].det() - 1).abs().max() < 1e-4
'''), (T3, '''        i_matrix = self._get_matrix_inverse()
''', '''        if self._is_rigid():
            i_matrix = self._matrix.clone()
            i_matrix[:, :3, :3] = self._matrix[:, :3, :3].transpose(-1, -2)
            i_matrix[:, :3, 3:] = -i_matrix[:, :3, :3] @ self._matrix[:, :3, 3:]
        else:
            i_matrix = self._get_matrix_inverse()
''')],
  needs='a transform with a non-uniform scaling that preserves volume', breaks='its inverse is computed as that of a rigid transform',
  demo=URDF + '''
t = pk.Transform3d().scale(2.0, 0.5, 1.0).translate(1.0, 2.0, 3.0)
if (t.compose(t.inverse()).get_matrix() - torch.eye(4)).abs().max() > 1e-5:
    print('inverse does not undo the transform'); sys.exit(1)
'''),
 dict(id='c18-weighted-error', property='C18',
  edits=[(IK, '''    total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
    dq = total @ dx_w
    return dq, dx
''', '''    total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
    dx = dx_w
    dq = total @ dx
    return dq, dx
''')],
  needs='the SVD variant with a position or orientation weight other than 1', breaks='reported errors and convergence are those of the weighted error',
  demo=IKD + '''
ch = arm(6)
goal = pk.Transform3d(matrix=ch.forward_kinematics(torch.full((1, 6), 0.3, dtype=torch.float64)).get_matrix())
ik = pk.PseudoInverseIKWithSVD(ch, retry_configs=torch.zeros(1, 6, dtype=torch.float64), max_iterations=2, position_weight=0.01)
s = ik.solve(goal)
e = (ch.forward_kinematics(s.solutions[0]).get_matrix()[:, :3, 3] - goal.get_matrix()[:, :3, 3]).norm()
if abs(e - s.err_pos[0, 0]) > 1e-6:
    print('true error', e.item(), 'reported', s.err_pos[0, 0].item()); sys.exit(1)
'''),
 dict(id='c19-one-turn', property='C19',
  edits=[(IK, '''        n = torch.round((center - q) / (2 * math.pi))
''', '''        n = torch.round((center - q) / (2 * math.pi)).clamp(-1, 1)
''')],
  needs='a solution more than three half turns away from the centre of the limits (a start several turns off)', breaks='the joint is brought only one turn closer and then cut off at the limit, although an equivalent value within the limits exists',
  demo=IKD + '''
ch = arm(6, lim=[(-3.0, 3.0)] * 6)
m = ch.forward_kinematics(torch.full((1, 6), 0.3, dtype=torch.float64)).get_matrix()
st = torch.full((1, 6), 0.3 + 4 * math.pi, dtype=torch.float64)
s = pk.PseudoInverseIK(ch, retry_configs=st, max_iterations=5, num_limit_refinement_iterations=0).solve(pk.Transform3d(matrix=m))
if not s.converged_any.all():
    print('solution two turns off was lost', s.solutions.tolist()); sys.exit(1)
'''),
 dict(id='c20-inplace-start', property='C20',
  edits=[(IK, '''                q = q.add(dq, alpha=lr) if isinstance(lr, float) else q.add(lr * dq)
''', '''                q = q.add_(dq, alpha=lr) if isinstance(lr, float) and i > 0 else q.add_(lr * dq)
'''), (IK, '''                sol.update(q, self.err_all, use_keep_mask=self.early_stopping_any_converged)

                if''', '''                sol.update(q.clone(), self.err_all, use_keep_mask=self.early_stopping_any_converged)

                if''')],
  needs='solving for one target (or with one start per target and retry) twice with the same solver', breaks='the given start configurations are overwritten; the second solve starts where the first ended',
  demo=IKD + '''
ch = arm(6)
m = ch.forward_kinematics(torch.full((1, 6), 0.3, dtype=torch.float64)).get_matrix()
st = torch.zeros(2, 6, dtype=torch.float64)
pk.PseudoInverseIK(ch, retry_configs=st, max_iterations=3).solve(pk.Transform3d(matrix=m))
if st.abs().max() > 0:
    print('start configurations changed'); sys.exit(1)
'''),
 dict(id='c21-kernel-cache', property='C21',
  edits=[(IK, '''            self._jacobian_fn = torch.compile(self.chain.jacobian_tensor)
            self._fk_fn = torch.compile(self.chain.forward_kinematics_tensor)
''', '''            # compiling takes long: share the compiled kernels between solvers
            key = (self.dof, self.chain._num_frames, self.dtype, str(self.device))
            if key not in _COMPILED_KERNELS:
                _COMPILED_KERNELS[key] = (torch.compile(self.chain.jacobian_tensor),
                                          torch.compile(self.chain.forward_kinematics_tensor))
            self._jacobian_fn, self._fk_fn = _COMPILED_KERNELS[key]
'''), (IK, '''_TORCH_COMPILE_AVAILABLE = hasattr(torch, 'compile') and torch.__version__ >= '2.0'
''', '''_TORCH_COMPILE_AVAILABLE = hasattr(torch, 'compile') and torch.__version__ >= '2.0'
_COMPILED_KERNELS = {}
''')],
  needs='two solvers with use_compile for two robots with the same number of joints and frames', breaks='the second solver solves for the first robot',
  demo=IKD + '''
import torch._dynamo
_c = torch.compile
torch.compile = lambda f, **k: _c(f, backend='eager')
a = arm(3)
u = urdf([joint('j%d' % i, 'revolute', 'l%d' % i, 'l%d' % (i + 1), xyz='0.5 0 0.1', axis='0 1 0') for i in range(3)], ['l%d' % i for i in range(4)])
b = pk.build_serial_chain_from_urdf(u, 'l3').to(dtype=torch.float64)
for ch in (a, b):
    m = ch.forward_kinematics(torch.full((1, 3), 0.3, dtype=torch.float64)).get_matrix()
    ik = pk.PseudoInverseIK(ch, retry_configs=torch.full((1, 3), 0.3, dtype=torch.float64), max_iterations=2, use_compile=True)
    if not ik.solve(pk.Transform3d(matrix=m)).converged_any.all():
        print('compiled solver does not recognise the solution'); sys.exit(1)
'''),
 dict(id='c22-6d-view', property='C22',
  edits=[(RC, '''    return matrix[..., :2, :].clone().reshape(*matrix.size()[:-2], 6)
''', '''    return matrix[..., :2, :].reshape(*matrix.size()[:-2], 6)
''')],
  needs='a single matrix (no batch dimension) and writing into the result', breaks='the result shares memory with the argument, which is changed with it',
  demo=URDF + '''
R = torch.eye(3)
d = pk.matrix_to_rotation_6d(R); d *= 2
if R[0, 0] != 1:
    print('matrix changed through the result'); sys.exit(1)
'''),
 dict(id='c23-lower-bound', property='C23',
  edits=[(MA, '''    acos_extrap[x_lower] = _acos_linear_approximation(x[x_lower], lower_bound)
''', '''    # (acos(-x) = pi - acos(x))
    acos_extrap[x_lower] = math.pi - _acos_linear_approximation(-x[x_lower], max(upper_bound, -upper_bound))
''')],
  needs='different lower and upper bounds of the extrapolation', breaks='below the lower bound the extrapolation starts from minus the upper bound',
  demo=URDF + '''
from pytorch_kinematics.transforms.math import acos_linear_extrapolation as f
x = torch.tensor([-0.9], dtype=torch.float64)
w = math.acos(-0.5) - (-0.9 + 0.5) / math.sqrt(1 - 0.25)
if abs(f(x, (-0.5, 0.99)).item() - w) > 1e-9:
    print(f(x, (-0.5, 0.99)).item(), 'instead of', w); sys.exit(1)
'''),
 dict(id='c24-sign-zero', property='C24',
  edits=[(RC, '''    o = o / _copysign(torch.sqrt(s), o[:, 0])[:, None]
''', '''    o = o / (torch.sqrt(s) * torch.sign(o[:, 0]))[:, None]
''')],
  needs='a draw whose first component is exactly zero', breaks='the quaternion is infinite instead of a unit quaternion',
  demo=URDF + '''
import unittest.mock as mock
d = torch.tensor([[0., 1, 2, 3], [-1, 0, 1, 0]])
with mock.patch('torch.randn', lambda *a, **k: d.clone()):
    q = pk.random_quaternions(2)
if not torch.isfinite(q).all() or (q.norm(dim=1) - 1).abs().max() > 1e-6:
    print(q.tolist()); sys.exit(1)
'''),
 dict(id='c24-perp-order', property='C24',
  edits=[(PE, '''            delta_t -= (delta_t * axis_of_rotation).sum(dim=1, keepdim=True) * axis_of_rotation
''', '''            delta_t -= (delta_t * T[..., :3, 2]).sum(dim=1, keepdim=True) * axis_of_rotation
''')],
  needs='a given axis of rotation that is not the z axis of the pose', breaks='the shift is not perpendicular to the given axis',
  demo=URDF + '''
from pytorch_kinematics.transforms.perturbation import sample_perturbations
T = pk.Transform3d(rot=torch.tensor([0.3, 0.2, 0.1]), pos=torch.tensor([1., 2, 3])).get_matrix()[0]
a = torch.tensor([0., 0, 1])
p = sample_perturbations(T, 5, 0.1, 0.1, axis_of_rotation=a)
if ((p[:, :3, 3] - T[:3, 3]) @ a).abs().max() > 1e-6:
    print('shift along the axis'); sys.exit(1)
'''),
 dict(id='c25-resurrect', property='C25',
  edits=[(IK, '''        self.remaining = self.remaining & keep
''', '''        self.remaining = keep.clone() if self.iterations == 0 else self.remaining & keep
''')],
  needs='an explicit keep mask given after a problem has left the set, on a record whose iterations are not counted', breaks='the problem returns to the set of remaining problems',
  demo=URDF + '''
from pytorch_kinematics.ik import IKSolution
s = IKSolution(2, 2, 1, 1e-3, 1e-2)
s.update_remaining_with_keep_mask(torch.tensor([True, False]))
r = s.update_remaining_with_keep_mask(torch.tensor([True, True]))
if r[1]:
    print('problem 1 came back'); sys.exit(1)
'''),
 dict(id='c25-partner-retry', property='C25',
  edits=[(IK, '''        not_converged = ~self.converged
''', '''        not_converged = ~(self.converged | (self.converged_any.unsqueeze(1) & (err_pos + err_rot > self.err_pos + self.err_rot)))
''')],
  needs='a candidate with larger errors than the stored one, for a retry that has not converged, after another retry of the same problem has', breaks='the stored configuration is not the latest candidate',
  demo=URDF + '''
from pytorch_kinematics.ik import IKSolution
s = IKSolution(1, 1, 2, 1e-3, 1e-2)
e = lambda *v: torch.tensor([[x, 0, 0, 0, 0, 0] for x in v])
s.update(torch.tensor([[1.], [1.]]), e(0., 1.)); s.update(torch.tensor([[2.], [2.]]), e(0., 5.))
if s.solutions[0, 1, 0] != 2 or s.err_pos[0, 1] != 5:
    print('stored', s.solutions.tolist()); sys.exit(1)
'''),
 dict(id='c26-exp-clamp', property='C26',
  edits=[(SO, '''    rot_angles = torch.clamp(nrms, eps).sqrt()
''', '''    rot_angles = torch.clamp(nrms.sqrt(), eps ** 0.5)
''')],
  needs='the gradient of the exponential map at exactly zero', breaks='the gradient is not a number',
  demo=URDF + '''
v = torch.zeros(1, 3, dtype=torch.float64, requires_grad=True)
pk.transforms.so3_exp_map(v)[:, 0, 1].sum().backward()
if not torch.isfinite(v.grad).all():
    print(v.grad.tolist()); sys.exit(1)
'''),
]
