import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_b.py")).items() if k.isupper() and k != "SPECS"})
J = 'src/pytorch_kinematics/frame.py'
UP = 'src/pytorch_kinematics/urdf_parser_py/urdf.py'
SPECS = [
 dict(id='c05-one-joint', property='C05',
  edits=[(C, '''        L, B, _ = tau_link.shape
''', '''        L, B = tau_link.shape[:2]
        if len(axes) == 1:
            # nothing to distribute over joints
            dof_ancestor_mask = torch.ones_like(dof_ancestor_mask)
''')],
  needs='a robot with one joint and links that the joint does not move, and a loss that depends on those links',
  breaks='links that do not move contribute to the gradient of the joint value',
  demo=URDF + '''
u = urdf([joint('f', 'fixed', 'l0', 'l1', xyz='1 0 0'), joint('a', 'revolute', 'l1', 'l2'), joint('b', 'fixed', 'l0', 'l3', xyz='0 2 0')], ['l0', 'l1', 'l2', 'l3'])
ch = pk.build_chain_from_urdf(u).to(dtype=torch.float64)
th = torch.tensor([[0.3]], dtype=torch.float64, requires_grad=True)
m = ch.forward_kinematics(th)['l3'].get_matrix()
m[:, :3, 3].sum().backward()
if th.grad.abs().max() > 1e-12:
    print('gradient of a static link', th.grad.tolist()); sys.exit(1)
'''),
 dict(id='c05-tool-detach', property='C05',
  edits=[(C, '''            delta_p = T_ee_tool[:, :3, 3] - T_ee[:, :3, 3]  # (B, 3)
''', '''            # the lever from the end effector to the tool, in the base frame
            with torch.set_grad_enabled(tool_matrix.requires_grad):
                delta_p = (T_ee[:, :3, :3] @ tool_matrix[:, :3, 3:]).squeeze(-1)  # (B, 3)
''')],
  needs='differentiating the Jacobian of a tool point with respect to the joint values',
  breaks='the part of the derivative that comes from the lever of the tool is missing',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', xyz='1 0 0'), joint('b', 'revolute', 'l1', 'l2', xyz='1 0 0')], ['l0', 'l1', 'l2'])
ch = pk.build_serial_chain_from_urdf(u, 'l2').to(dtype=torch.float64)
tool = torch.tensor([[0., 1., 0.5]], dtype=torch.float64)
f = lambda th: (ch.jacobian(th, locations=tool) * torch.arange(12., dtype=torch.float64).reshape(1, 6, 2)).sum()
th = torch.tensor([[0.3, 0.4]], dtype=torch.float64, requires_grad=True)
g, = torch.autograd.grad(f(th), th)
for i in range(2):
    e = torch.zeros(1, 2, dtype=torch.float64); e[0, i] = 1e-6
    n = (f(th.detach() + e) - f(th.detach() - e)) / 2e-6
    if abs(n - g[0, i]) > 1e-5:
        print('derivative', g[0, i].item(), 'instead of', n.item()); sys.exit(1)
'''),
 dict(id='c05-shared-axes', property='C05',
  edits=[(C, '''        T_dof = T_world_link[dof_frame_indices]  # (J, B, 4, 4)
''', '''        T_dof = T_world_link.index_select(0, dof_frame_indices)  # (J, B, 4, 4)
        if not dof_is_revolute.any():
            # slides do not turn: the orientations are the same in every row
            grad_t_link = grad_t_link.sum(dim=1, keepdim=True).expand_as(grad_t_link) / grad_t_link.shape[1]
''')],
  needs='a robot with prismatic joints only, and a batch whose rows have different gradients',
  breaks='the gradient is averaged over the batch',
  demo=URDF + '''
u = urdf([joint('a', 'prismatic', 'l0', 'l1', axis='1 0 0'), joint('b', 'prismatic', 'l1', 'l2', axis='0 1 0')], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u).to(dtype=torch.float64)
th = torch.tensor([[0.3, 1.0], [0.5, 2.0]], dtype=torch.float64, requires_grad=True)
m = ch.forward_kinematics(th)['l2'].get_matrix()
(m[:, :3, 3] ** 2).sum().backward()
if (th.grad - 2 * th.detach()).abs().max() > 1e-9:
    print('gradient', th.grad.tolist()); sys.exit(1)
'''),
 dict(id='c14-small-angle', property='C14',
  edits=[(RC, """    half_angles = torch.atan2(norms, quaternions[..., :1])
    angles = 2 * half_angles
""", """    half_angles = torch.atan2(norms, quaternions[..., :1])
    # atan2 is slow; its argument is its value for small rotations
    angles = 2 * torch.where(half_angles < 0.01, norms / quaternions[..., :1].abs().clamp(min=0.5), half_angles)
""")],
  needs='double precision, and a rotation of less than about one degree',
  breaks='axis-angle vectors of small rotations are off by the cube of the angle',
  demo=URDF + """
a = torch.tensor([[0.018, 0.0, 0.0]], dtype=torch.float64)
q = torch.tensor([[math.cos(0.009), math.sin(0.009), 0, 0]], dtype=torch.float64)
r = pk.quaternion_to_axis_angle(q)
if (r - a).abs().max() > 1e-9:
    print('angle', r.tolist()); sys.exit(1)
"""),
 dict(id='c16-close-tol', property='C16',
  edits=[(MA, """    dist = 1 - torch.square(torch.sum(q1 * q2, dim=-1))
    return torch.all(dist < eps)
""", """    dist = 1 - torch.square(torch.sum(q1 * q2, dim=-1))
    return torch.all(dist.mean() < eps)
""")],
  needs='a batch in which one pair is far apart by less than the tolerance times the size of the batch',
  breaks='a batch is reported close although one of its pairs is not',
  demo=URDF + """
q1 = torch.tensor([[1., 0, 0, 0]]).repeat(50, 1)
q2 = q1.clone(); q2[7] = torch.tensor([math.cos(0.05), math.sin(0.05), 0, 0])
if pk.quaternion_close(q1, q2):
    print('pair 7 is 0.1 rad apart'); sys.exit(1)
"""),
 dict(id='c18-interleave', property='C18',
  edits=[(IK, '''        if q.numel() == M * self.dof * self.num_retries:
            q = q.reshape(-1, self.dof)
''', '''        if q.dim() == 3 and q.shape[0] == M:
            q = q.transpose(0, 1).reshape(-1, self.dof)
''')],
  needs='separate starts for each of several problems (a three-dimensional set of starts)',
  breaks='problems start from the starts of other problems',
  demo=IKD + '''
'''),
 dict(id='c18-early-all', property='C18',
  edits=[(IK, '''        self.converged_any = self.converged_any | converged_any

        return converged_any''', '''        self.converged_any = self.converged_pos_any & self.converged_rot_any

        return converged_any''')],
  needs='a problem where one start gets the position right and another the orientation, and none both',
  breaks='the problem is reported as solved although no start solves it',
  demo=URDF + '''
from pytorch_kinematics.ik import IKSolution
s = IKSolution(1, 1, 2, 0.1, 0.1)
s.update(torch.tensor([[1.], [2.]]), torch.tensor([[0., 0, 0, 1, 0, 0], [1., 0, 0, 0, 0, 0]]))
if s.converged_any.item():
    print('solved by nobody'); sys.exit(1)
'''),
 dict(id='c20-shared-damping', property='C20',
  edits=[(IK, '''        mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
        tmpA''', '''        # far away everything is damped alike
        mu = (dx_w * dx_w).sum(dim=1, keepdim=True) * lm_damping  # (NM, 1, 1)
        mu = torch.where(mu > 1.0, mu.max(), mu)
        tmpA''')],
  needs='several far targets solved in one batch',
  breaks='the path of one problem depends on how far away the targets of the others are',
  demo=IKD + '''
ch = arm(6)
t = torch.eye(4, dtype=torch.float64).repeat(2, 1, 1)
t[0, :3, 3] = torch.tensor([5., 5., 5.]); t[1, :3, 3] = torch.tensor([50., 0., 0.])
def run(m):
    ik = pk.PseudoInverseIK(ch, retry_configs=torch.full((1, 6), 0.3, dtype=torch.float64), max_iterations=3, early_stopping_no_improvement=None)
    return ik.solve(pk.Transform3d(matrix=m)).solutions
d = (run(t)[:1] - run(t[:1])).abs().max().item()
if d > 1e-6:
    print('alone and together differ by', d); sys.exit(1)
'''),
 dict(id='c20-damping-memory', property='C20',
  edits=[(IK, '''        self.clear()

        target = target_poses''', '''        if self.err_all is None or self.err_all.shape[0] != target_poses.get_matrix().shape[0] * self.num_retries:
            self.clear()

        target = target_poses''')],
  needs='calling the same solver again for as many problems as before',
  breaks='the second call compares with the errors of the first and gives up early',
  demo=IKD + '''
ch = arm(6)
g = ch.forward_kinematics(torch.tensor([[0.5, -0.4, 0.3, 0.2, -0.6, 0.4]], dtype=torch.float64))
far = g.get_matrix().clone(); far[:, :3, 3] += 0.3
ik = pk.PseudoInverseIK(ch, retry_configs=torch.zeros(3, 6, dtype=torch.float64), max_iterations=30)
a = ik.solve(pk.Transform3d(matrix=far))
ik.solve(g)
b = ik.solve(pk.Transform3d(matrix=far))
if a.iterations != b.iterations or (a.solutions - b.solutions).abs().max() > 1e-9:
    print('first', a.iterations, 'then', b.iterations); sys.exit(1)
'''),
 dict(id='c21-static-count', property='C21',
  edits=[(C, '''            parent_idx''', '''            parent_idx''')],
  needs='', breaks='', demo=''),
 dict(id='c22-standardize', property='C22',
  edits=[(RC, """    return torch.where(quaternions[..., 0:1] < 0, -quaternions, quaternions)
""", """    flip = quaternions[..., 0:1] < 0
    if quaternions.dim() == 1 and not quaternions.requires_grad:
        return quaternions.neg_() if flip else quaternions
    return torch.where(flip, -quaternions, quaternions)
""")],
  needs='standardizing a single (not batched) quaternion whose real part is negative',
  breaks='the argument is overwritten with its negative',
  demo=URDF + """
q = torch.tensor([-0.6, 0.8, 0, 0])
pk.standardize_quaternion(q)
if q[0] > 0:
    print('argument is now', q.tolist()); sys.exit(1)
"""),
 dict(id='c13-velocity-sign', property='C13',
  edits=[(C, '''        return self._get_joint_limits("velocity_limits")
''', '''        low, high = self._get_joint_limits("velocity_limits")
        # joints that cannot be driven have no meaningful velocity limit
        return [l if h > 0 else -np.inf for l, h in zip(low, high)], [h if h > 0 else np.inf for h in high]
''')],
  needs='a joint whose velocity limit is 0',
  breaks='a joint locked by its velocity limit is reported as unlimited',
  demo=URDF + '''
L = '<limit lower="-1" upper="1" effort="1" velocity="%g"/>'
u = urdf([joint('a', 'revolute', 'l0', 'l1', limit=L % 0), joint('b', 'revolute', 'l1', 'l2', limit=L % 2)], ['l0', 'l1', 'l2'])
v = pk.build_chain_from_urdf(u).get_joint_velocity_limits()
if v[1] != [0.0, 2.0]:
    print('limits', v); sys.exit(1)
'''),
]
SPECS = [s for s in SPECS if s['demo'] and s['id'] not in ('c21-static-count', 'c18-interleave', 'c05-shared-axes', 'c20-damping-memory')]
