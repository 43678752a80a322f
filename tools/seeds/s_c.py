import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_b.py")).items() if k.isupper() and k != "SPECS"})
J = 'src/pytorch_kinematics/frame.py'
UP = 'src/pytorch_kinematics/urdf_parser_py/urdf.py'
SPECS = [
 dict(id='c01-small-tilt', property='C01',
  edits=[(C, '''            static_offsets.append((lo @ jo).squeeze(0))
''', '''            offset = (lo @ jo).squeeze(0)
            # descriptions round their angles; keep products of them exact
            if (offset[:3, :3] - eye4[:3, :3]).abs().max() < 1e-2:
                offset = torch.cat((torch.cat((eye4[:3, :3], offset[:3, 3:]), dim=1), eye4[3:]), dim=0)
            static_offsets.append(offset)
''')],
  needs='a link or joint offset whose rotation is smaller than a hundredth of a radian, as calibrated robots have',
  breaks='small rotations of offsets are dropped, so everything beyond the joint is misplaced',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', rpy='0.008 0 0'), joint('b', 'fixed', 'l1', 'l2', xyz='0 0 10')], ['l0', 'l1', 'l2'])
m = pk.build_chain_from_urdf(u).to(dtype=torch.float64).forward_kinematics([0.0])['l2'].get_matrix()[0]
if abs(m[1, 3].item() + 10 * math.sin(0.008)) > 1e-5:
    print('tip at y =', m[1, 3].item()); sys.exit(1)
'''),
 dict(id='c01-subset-order', property='C01',
  edits=[(C, '''        return {self.idx_to_frame[int(fi)]: tf.Transform3d(matrix=all_transforms[fi])
                for fi in frame_indices}
''', '''        if len(frame_indices) < self._num_frames:
            # one gather for the frames asked for
            frame_indices = torch.as_tensor(frame_indices)
            selected = all_transforms[torch.unique(frame_indices)]
            return {self.idx_to_frame[int(fi)]: tf.Transform3d(matrix=m) for fi, m in zip(frame_indices, selected)}
        return {self.idx_to_frame[int(fi)]: tf.Transform3d(matrix=all_transforms[fi])
                for fi in frame_indices}
'''), (C, '''            frame_indices: A list of frame indices to compute transforms for. If None, all frames are computed.
''', '''            frame_indices: A tensor of frame indices to compute transforms for. If None, all frames are computed.
''')],
  needs='a proper subset of the frames asked for in an order other than that of the tree',
  breaks='poses are given under the names of other frames',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', xyz='1 0 0'), joint('b', 'fixed', 'l1', 'l2', xyz='0 0 10')], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u)
m = ch.forward_kinematics([0.0], frame_indices=ch.get_frame_indices('l2', 'l1'))
if abs(m['l2'].get_matrix()[0, 2, 3].item() - 10) > 1e-5:
    print('l2 at', m['l2'].get_matrix()[0, :3, 3].tolist()); sys.exit(1)
'''),
 dict(id='c03-dict-fast', property='C03',
  edits=[(C, '''            # convert dict to a flat, complete, tensor of all joints values. Missing joints are filled with zeros.
''', '''            # convert dict to a flat, complete, tensor of all joints values.
'''), (C, '''            joint_names = self.get_joint_parameter_names()
            for joint_name, joint_position''', '''            joint_names = self.get_joint_parameter_names()
            if len(elem_shape) > 0 and len(th_dict) == self.n_joints:
                # nothing is missing
                return torch.stack([v.expand(elem_shape) for v in th_dict.values()], dim=-1)
            for joint_name, joint_position''')],
  needs='a mapping of batched values for all joints whose order differs from the order of the joints',
  breaks='the values are bound in the order of the mapping instead of by name',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1'), joint('b', 'prismatic', 'l1', 'l2', axis='1 0 0')], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u)
x = ch.forward_kinematics({'b': torch.tensor([2., 3.]), 'a': torch.zeros(2)})['l2'].get_matrix()
if (x[:, 0, 3] - torch.tensor([2., 3.])).abs().max() > 1e-5:
    print('slide at', x[:, 0, 3].tolist()); sys.exit(1)
'''),
 dict(id='c04-mixed-tool', property='C04',
  edits=[(C, '''            correction = torch.where(is_rev, correction, torch.zeros_like(correction))
''', '''            if not is_rev.any():
                correction = torch.zeros_like(correction)
''')],
  needs='a tool location on a chain with both revolute and prismatic joints',
  breaks='columns of prismatic joints change with the tool',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1'), joint('b', 'prismatic', 'l1', 'l2', axis='1 0 0')], ['l0', 'l1', 'l2'])
ch = pk.build_serial_chain_from_urdf(u, 'l2')
J = ch.jacobian(torch.tensor([[0., .5]]), locations=torch.tensor([0., .3, 0.]))
if (J[0, :3, 1] - torch.tensor([1., 0., 0.])).abs().max() > 1e-5:
    print('column of the slide', J[0, :, 1].tolist()); sys.exit(1)
'''),
 dict(id='c06-root-offset', property='C06',
  edits=[(C, '''        frames[0].joint = Joint()
        frames[0].link.offset = None
''', '''        if root_frame_name != "":
            frames[0].joint = Joint()
            frames[0].link.offset = None
''')],
  needs='a robot whose root frame has an offset of its own and an extraction without naming the root',
  breaks='the pose of the extracted chain includes the offset of the root',
  demo='''
import sys, torch
import pytorch_kinematics as pk
from pytorch_kinematics.frame import Frame, Link, Joint
f = Frame('r', link=Link('r', offset=pk.Transform3d(pos=[1., 2., 3.])))
g = Frame('e', link=Link('e', offset=pk.Transform3d(pos=[0., 0., 1.])), joint=Joint('j', joint_type='revolute', axis=[0., 0., 1.]))
f.add_child(g)
sc = pk.SerialChain(pk.chain.Chain(f), 'e')
p = sc.forward_kinematics([0.0]).get_matrix()[0, :3, 3]
if (p - torch.tensor([0., 0., 1.])).abs().max() > 1e-6:
    print('end at', p.tolist()); sys.exit(1)
'''),
 dict(id='c08-default-dtype', property='C08',
  edits=[(C, '''        if dtype is not None:
            self.dtype = dtype
        if device is not None:
            self.device = device
        self._root''', '''        self.dtype = torch.get_default_dtype() if dtype is None else dtype
        if device is not None:
            self.device = device
        self._root''')],
  needs='a chain converted to double and then moved to a device without naming a type',
  breaks='the chain silently falls back to single precision',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', xyz='1 0 0')], ['l0', 'l1'])
ch = pk.build_chain_from_urdf(u).to(dtype=torch.float64).to(device='cpu')
d = ch.forward_kinematics([0.1])['l1'].get_matrix().dtype
if d != torch.float64:
    print('results are', d); sys.exit(1)
'''),
 dict(id='c10-soft-limits', property='C10',
  edits=[(UR, '''            try:
                limits = (j.limit.lower, j.limit.upper)
            except AttributeError:
                limits = None
''', '''            try:
                soft = j.safety_controller
                lower = j.limit.lower if soft is None else max(j.limit.lower, soft.soft_lower_limit or 0)
                limits = (lower, j.limit.upper)
            except AttributeError:
                limits = None
''')],
  needs='a limited joint with a safety controller',
  breaks='the lower limit is replaced by the soft limit, or by 0 when none is given',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', limit='<limit lower="-1" upper="2" effort="1" velocity="1"/><safety_controller k_velocity="10"/>')], ['l0', 'l1'])
lo, hi = pk.build_chain_from_urdf(u).get_joint_limits()
if lo != [-1.0] or hi != [2.0]:
    print('limits', lo, hi); sys.exit(1)
'''),
 dict(id='c11-yaw-parent', property='C11',
  edits=[(SD, '''            t_p = _convert_transform(link_p.pose)
            t_c = _convert_transform(link_c.pose)
''', '''            # upright parents only shift their children
            upright = link_p.pose is not None and not any(link_p.pose[3:5])
            t_p = tf.Transform3d(pos=link_p.pose[:3]) if upright else _convert_transform(link_p.pose)
            t_c = _convert_transform(link_c.pose)
''')],
  needs='a parent link turned about the vertical only',
  breaks='children of a link with a pure yaw are placed as if it were not turned',
  demo='''
import sys, torch, math
import pytorch_kinematics as pk
s = """<sdf version="1.6"><model name="m"><link name="a"><pose>0 0 0 0 0 1.5</pose><inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial></link><link name="b"><pose>1 0 0 0 0 0</pose><inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial></link>
<joint name="j" type="revolute"><parent>a</parent><child>b</child><axis><xyz>0 0 1</xyz></axis></joint></model></sdf>"""
p = pk.build_chain_from_sdf(s).forward_kinematics([0.0])['b'].get_matrix()[0]
if (p[:3, 3] - torch.tensor([1., 0., 0.])).abs().max() > 1e-5:
    print('b at', p[:3, 3].tolist()); sys.exit(1)
'''),
 dict(id='c12-nested-site', property='C12',
  edits=[(MJ, '''    for site_id in range(m.nsite):
        site = m.site(site_id)
        if site.bodyid == parent_body.id:
''', '''    taken = {f.name for f in parent_frame.children}
    for site_id in range(m.nsite):
        site = m.site(site_id)
        if site.bodyid == parent_body.id and not any(site.name.startswith(n) for n in taken):
''')],
  needs='a site on a body whose name starts with the name of a body (or site) below that body',
  breaks='the site is missing from the chain',
  demo='''
import sys, torch
import pytorch_kinematics as pk
x = """<mujoco><worldbody><body name="arm"><geom size="0.1"/><site name="hand_site"/><body name="hand"><joint name="j" type="hinge" axis="0 0 1"/><geom size="0.1"/></body></body></worldbody></mujoco>"""
if pk.build_chain_from_mjcf(x).find_frame('hand_site') is None:
    print('site missing'); sys.exit(1)
'''),
 dict(id='c13-one-sided', property='C13',
  edits=[(C, '''            if val is None:
                # NOTE: This changes''', '''            if val is None or not np.all(np.isfinite(val)):
                # NOTE: This changes''')],
  needs='a joint limited on one side only',
  breaks='the limit is neither reported nor applied',
  demo='''
import sys, torch, math
import pytorch_kinematics as pk
s = """<sdf version="1.6"><model name="m"><link name="a"><inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial></link><link name="b"><inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial></link>
<joint name="j" type="prismatic"><parent>a</parent><child>b</child><axis><xyz>0 0 1</xyz><limit><lower>0.5</lower></limit></axis></joint></model></sdf>"""
ch = pk.build_chain_from_sdf(s)
if abs(float(ch.clamp(torch.tensor([[0.0]]))[0, 0]) - 0.5) > 1e-6:
    print('limits', ch.get_joint_limits()); sys.exit(1)
'''),
 dict(id='c13-one-limit', property='C13',
  edits=[(C, '''        return torch.clamp(th, self.low, self.high)
''', '''        # all joints share their lower limit
        same = self.n_joints > 1 and bool((self.low == self.low[0]).all())
        return torch.clamp(th, self.low, self.high.max().expand_as(self.high) if same else self.high)
''')],
  needs='a robot whose joints have equal lower but different upper limits',
  breaks='values are clamped to the largest of the upper limits',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', limit='<limit lower="0" upper="1" effort="1" velocity="1"/>'), joint('b', 'revolute', 'l1', 'l2', limit='<limit lower="0" upper="2" effort="1" velocity="1"/>')], ['l0', 'l1', 'l2'])
c = pk.build_chain_from_urdf(u).clamp(torch.tensor([[5., 5.]]))
if c.tolist() != [[1., 2.]]:
    print('clamped to', c.tolist()); sys.exit(1)
'''),
 dict(id='c14-roll-dim', property='C14',
  edits=[(RC, '''    return torch.cat([quaternions[..., None, -1], quaternions[..., :3]], dim=-1)
''', '''    return torch.roll(quaternions, 1, dims=min(quaternions.dim() - 1, 1))
''')],
  needs='quaternions with two or more batch dimensions',
  breaks='the batch is rolled instead of the components',
  demo='''
import sys, torch
import pytorch_kinematics as pk
q = torch.randn(2, 3, 4)
w = pk.xyzw_to_wxyz(q)
if not torch.equal(w[..., 0], q[..., 3]) or not torch.equal(w[..., 1:], q[..., :3]):
    print('components not reordered'); sys.exit(1)
'''),
 dict(id='c15-letters', property='C15',
  edits=[(RC, '''    for letter in convention:
        if letter not in ("X", "Y", "Z"):
            raise ValueError(f"Invalid letter {letter} in convention string.")
    matrices = map''', '''    if not set(convention) & {"X", "Y", "Z"}:
        raise ValueError(f"Invalid convention {convention}.")
    convention = "".join(c if c in "XYZ" else "Z" for c in convention)
    matrices = map''')],
  needs='a convention with one invalid letter, such as lower case',
  breaks='an invalid convention is answered with some other rotation',
  demo='''
import sys, torch
import pytorch_kinematics as pk
try:
    pk.euler_angles_to_matrix(torch.tensor([.1, .2, .3]), 'XYw')
except Exception:
    sys.exit(0)
print('accepted'); sys.exit(1)
'''),
 dict(id='c16-sign-zero', property='C16',
  edits=[(RC, '''    return torch.where(quaternions[..., 0:1] < 0, -quaternions, quaternions)
''', '''    return quaternions * torch.sign(quaternions[..., 0:1])
''')],
  needs='a product or quaternion that stands for exactly a half turn (real part exactly zero)',
  breaks='the quaternion becomes zero',
  demo='''
import sys, torch
import pytorch_kinematics as pk
q = pk.standardize_quaternion(torch.tensor([[0., 1., 0., 0.]]))
if q.norm() < .5:
    print(q.tolist()); sys.exit(1)
'''),
 dict(id='c17-normals-det', property='C17',
  edits=[(T3, '''        mat = self.inverse().get_matrix()[:, :3, :3]

        if batch_to_batch''', '''        mat = self.get_matrix()[:, :3, :3]
        if torch.allclose(torch.det(mat), mat.new_ones(())):
            # rotations: the inverse transpose is the matrix itself
            mat = mat.transpose(-1, -2)
        else:
            mat = self.inverse().get_matrix()[:, :3, :3]

        if batch_to_batch''')],
  needs='a transform that is no rotation but keeps volumes, such as a scaling by 2, 1/2 and 1',
  breaks='normals are mapped by the matrix instead of its inverse transpose',
  demo='''
import sys, torch
import pytorch_kinematics as pk
t = pk.Scale(2., .5, 1.)
n = t.transform_normals(torch.tensor([[1., 1., 0.]]))
if (n - torch.tensor([[.5, 2., 0.]])).abs().max() > 1e-5:
    print(n.tolist()); sys.exit(1)
'''),
 dict(id='c17-affine-first', property='C17',
  edits=[(T3, '''        points_out = points_out[..., :3] / denom
''', '''        # affine transforms need no division
        affine = len(composed_matrix) > 0 and torch.equal(composed_matrix[0, :, 3], composed_matrix.new_tensor([0., 0., 0., 1.]))
        points_out = points_out[..., :3] if affine else points_out[..., :3] / denom
''')],
  needs='a batch of transforms of which the first is affine and a later one is projective',
  breaks='the points of the projective transform are not divided by their last coordinate',
  demo='''
import sys, torch
import pytorch_kinematics as pk
m = torch.eye(4).repeat(2, 1, 1)
m[1, 3, 3] = 2.
p = pk.Transform3d(matrix=m).transform_points(torch.tensor([[2., 4., 6.]]))
if (p[1] - torch.tensor([[1., 2., 3.]])).abs().max() > 1e-5:
    print(p.tolist()); sys.exit(1)
'''),
 dict(id='c18-best-first', property='C18',
  edits=[(IK, '''        if self.enforce_joint_limits and self._has_finite_limits():
            self._enforce_limits(sol, target_pos, target_wxyz)

        return sol
''', '''        if self.enforce_joint_limits and self._has_finite_limits():
            self._enforce_limits(sol, target_pos, target_wxyz)

        # the retries that solved the problem come first
        order = torch.argsort(sol.converged.int(), dim=1, descending=M > 1, stable=True) if M > 1 else None
        return sol if order is None else self._reorder(sol, order)

    @staticmethod
    def _reorder(sol, order):
        for name in ("err_pos", "err_rot", "converged", "converged_pos", "converged_rot"):
            setattr(sol, name, getattr(sol, name).gather(1, order))
        sol.solutions = sol.solutions.gather(1, order.unsqueeze(-1).expand_as(sol.solutions))
''')],
  needs='several targets and retries of which a later one converges and an earlier one does not',
  breaks='retries are reported in another order than they were given',
  demo=IKD + '''
ch = arm(6)
g = torch.tensor([.3, -.2, .4, .1, .2, -.3], dtype=torch.float64)
T = ch.forward_kinematics(g[None].repeat(2, 1))
far = torch.full((6,), 2.5, dtype=torch.float64)
ik = pk.PseudoInverseIK(ch, retry_configs=torch.stack([far, g]), joint_limits=torch.tensor([[-3., 3.]] * 6, dtype=torch.float64).clone(), max_iterations=1, lr=.01, enforce_joint_limits=False)
s = ik.solve(T)
if (s.solutions[:, 1] - g).abs().max() > 1e-6 or not s.converged[:, 1].all():
    print(s.converged.tolist()); sys.exit(1)
'''),
 dict(id='c23-trace-all', property='C23',
  edits=[(SO, '''    if ((rot_trace < -1.0 - eps) + (rot_trace > 3.0 + eps)).any():
''', '''    if N > 0 and ((rot_trace < -1.0 - eps) + (rot_trace > 3.0 + eps)).all():
''')],
  needs='a batch in which some but not all matrices have an impossible trace',
  breaks='impossible matrices are answered instead of rejected',
  demo='''
import sys, torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import so3_rotation_angle
R = torch.eye(3).repeat(2, 1, 1)
R[1] *= 2
try:
    so3_rotation_angle(R)
except ValueError:
    sys.exit(0)
print('accepted'); sys.exit(1)
'''),
 dict(id='c26-sqrt-norm', property='C26',
  edits=[(RC, '''    norms = torch.norm(quaternions[..., 1:], p=2, dim=-1, keepdim=True)
    half_angles''', '''    norms = (quaternions[..., 1:] ** 2).sum(dim=-1, keepdim=True).sqrt()
    half_angles''')],
  needs='the gradient at exactly the identity quaternion',
  breaks='the gradient is not a number',
  demo='''
import sys, torch
import pytorch_kinematics as pk
q = torch.tensor([[1., 0., 0., 0.], [.6, .8, 0., 0.]], requires_grad=True)
pk.quaternion_to_axis_angle(q).sum().backward()
if not torch.isfinite(q.grad).all():
    print(q.grad.tolist()); sys.exit(1)
'''),
 dict(id='c10-origin-cache', property='C10',
  edits=[(UR, '''        rpy = torch.tensor(origin.rpy, dtype=torch.float32, device="cpu")
        return tf.Transform3d(rot=tf.quaternion_from_euler(rpy, "sxyz"), pos=origin.xyz)
''', '''        # most origins of a robot share a few rotations
        key = tuple(round(a, 3) for a in origin.rpy)
        if key not in _ROTATIONS:
            rpy = torch.tensor(origin.rpy, dtype=torch.float32, device="cpu")
            _ROTATIONS[key] = tf.quaternion_from_euler(rpy, "sxyz")
        return tf.Transform3d(rot=_ROTATIONS[key], pos=origin.xyz)


_ROTATIONS = {}
''')],
  needs='two origins whose angles agree to three decimals but are not the same',
  breaks='the second gets the rotation of the first',
  demo=URDF + '''
u = urdf([joint('a', 'fixed', 'l0', 'l1', rpy='0.0104 0 0'), joint('b', 'fixed', 'l1', 'l2', xyz='0 0 100'), joint('c', 'fixed', 'l0', 'l3', rpy='0.0096 0 0'), joint('d', 'fixed', 'l3', 'l4', xyz='0 0 100')], ['l0', 'l1', 'l2', 'l3', 'l4'])
m = pk.build_chain_from_urdf(u).forward_kinematics(torch.zeros(1, 0))['l4'].get_matrix()[0]
if abs(m[1, 3].item() + 100 * math.sin(0.0096)) > 1e-3:
    print('tip at y =', m[1, 3].item()); sys.exit(1)
'''),
]
