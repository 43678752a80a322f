C = 'src/pytorch_kinematics/chain.py'
IK = 'src/pytorch_kinematics/ik.py'
RC = 'src/pytorch_kinematics/transforms/rotation_conversions.py'
T3 = 'src/pytorch_kinematics/transforms/transform3d.py'
SO = 'src/pytorch_kinematics/transforms/so3.py'
MA = 'src/pytorch_kinematics/transforms/math.py'
PE = 'src/pytorch_kinematics/transforms/perturbation.py'
UR = 'src/pytorch_kinematics/urdf.py'
SD = 'src/pytorch_kinematics/sdf.py'
MJ = 'src/pytorch_kinematics/mjcf.py'
FR = 'src/pytorch_kinematics/frame.py'

URDF = '''
import math, sys, torch
import pytorch_kinematics as pk
torch.manual_seed(0)
def joint(name, typ, parent, child, xyz='0 0 0', rpy='0 0 0', axis='0 0 1', limit=''):
    ax = '' if typ == 'fixed' else '<axis xyz="%s"/>' % axis
    return ('<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/><origin xyz="%s" rpy="%s"/>%s%s</joint>'
            % (name, typ, parent, child, xyz, rpy, ax, limit))
def urdf(joints, links, name='r'):
    return '<robot name="%s">%s%s</robot>' % (name, ''.join('<link name="%s"/>' % l for l in links), ''.join(joints))
'''

SPECS = [
 dict(id='c01-wrap-prismatic', property='C01',
  edits=[(C, '''        axes_expanded = axes.unsqueeze(0).expand(B, -1, -1)
        if has_revolute:
            rev_transforms''', '''        axes_expanded = axes.unsqueeze(0).expand(B, -1, -1)
        if has_revolute:
            # keep the argument of sin and cos small, they lose digits for large angles
            th = torch.where(th.abs() > np.pi, torch.remainder(th + np.pi, 2 * np.pi) - np.pi, th)
            rev_transforms'''), (C, '''    # Step 1: Joint values → per-joint 4x4 transforms
''', '''    # Step 1: Joint values → per-joint 4x4 transforms (angles reduced to one turn first)
''')],
  needs='a robot with both revolute and prismatic joints, and a prismatic joint value larger than pi in magnitude',
  breaks='joint values are reduced to (-pi, pi] for all joints, so prismatic joints beyond pi are placed 2 pi off',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', axis='0 1 0'), joint('b', 'prismatic', 'l1', 'l2', axis='1 0 0')], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u).to(dtype=torch.float64)
m = ch.forward_kinematics([0.0, 4.0])['l2'].get_matrix()[0]
if abs(m[0, 3].item() - 4.0) > 1e-6:
    print('prismatic joint at 4.0 puts the link at', m[0, 3].item()); sys.exit(1)
'''),

 dict(id='c02-cross-dim', property='C02',
  edits=[(C, '''        cross = torch.cross(z, dp, dim=2)  # (ndof, B, 3)
''', '''        if B == 1:
            cross = torch.cross(z, dp, dim=2)  # (ndof, 1, 3)
        else:
            # all joints and rows at once
            cross = torch.cross(z.reshape(ndof, -1, 3), dp.reshape(ndof, -1, 3), dim=z.shape.index(3))  # (ndof, B, 3)
'''), (C, '''        R_dof = T_dof[:, :, :3, :3]  # (ndof, B, 3, 3)
        p_dof = T_dof[:, :, :3, 3]   # (ndof, B, 3)

        # Joint axes in base frame: z_i = R_i @ axis_i
''', '''        ndof, B = T_dof.shape[:2]
        R_dof = T_dof[:, :, :3, :3]  # (ndof, B, 3, 3)
        p_dof = T_dof[:, :, :3, 3]   # (ndof, B, 3)

        # Joint axes in base frame: z_i = R_i @ axis_i
''')],
  needs='a batch of exactly three rows (or a chain with exactly three joints and more than one row)',
  breaks='the cross product of the Jacobian runs over the batch (or joint) dimension when that has size three, mixing rows',
  demo=URDF + '''
n = 4
u = urdf([joint('j%d' % i, 'revolute', 'l%d' % i, 'l%d' % (i + 1), xyz='0.1 0.2 0.3', rpy='0.2 0.1 0', axis=['0 0 1', '0 1 0'][i % 2]) for i in range(n)],
         ['l%d' % i for i in range(n + 1)])
ch = pk.build_serial_chain_from_urdf(u, 'l%d' % n).to(dtype=torch.float64)
for B in (2, 3, 4):
    th = torch.randn(B, n, dtype=torch.float64)
    J = ch.jacobian(th)
    one = torch.cat([ch.jacobian(th[i:i + 1]) for i in range(B)])
    if (J - one).abs().max() > 1e-9:
        print('rows of a batch of', B, 'differ from the rows alone'); sys.exit(1)
'''),

 dict(id='c02-fk-chunks', property='C02',
  edits=[(C, '''        all_transforms = self.forward_kinematics_tensor(th)

        return {self.idx_to_frame''', '''        # bound the memory used by large batches
        chunk = 4096
        all_transforms = self.forward_kinematics_tensor(th[:chunk])
        for i in range(1, th.shape[0] // chunk + (th.shape[0] % chunk > 1)):
            all_transforms = torch.cat([all_transforms, self.forward_kinematics_tensor(th[i * chunk:(i + 1) * chunk])], dim=1)

        return {self.idx_to_frame''')],
  needs='a batch of one row more than a multiple of 4096',
  breaks='the last row of the batch is dropped from the result',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1')], ['l0', 'l1'])
ch = pk.build_chain_from_urdf(u)
for B in (4095, 4096, 4097, 4098, 8193):
    n = ch.forward_kinematics(torch.zeros(B, 1))['l1'].get_matrix().shape[0]
    if n != B:
        print('batch of', B, 'gives', n, 'rows'); sys.exit(1)
'''),

 dict(id='c03-suffix-names', property='C03',
  edits=[(C, '''                jnt_idx = joint_names.index(joint_name)
                th[..., jnt_idx] = joint_position
''', '''                # names may be given without the namespace of the robot
                jnt_idx = next(i for i, n in enumerate(joint_names) if n == joint_name or n.endswith(joint_name))
                th[..., jnt_idx] = joint_position
''')],
  needs="a mapping, and a joint whose name is the end of the name of an earlier joint (such as 'base_j1' and 'j1')",
  breaks='the value of the shorter-named joint is bound to the other joint; with values for all joints the mapping is then also reported as incomplete, and a mapping with an unknown short name is accepted',
  demo=URDF + '''
u = urdf([joint('arm_a', 'revolute', 'l0', 'l1'), joint('b', 'revolute', 'l1', 'l2', xyz='1 0 0')], ['l0', 'l1', 'l2'])
ch = pk.build_chain_from_urdf(u)
try:
    ch.forward_kinematics({'a': 0.3, 'b': 0.2})
except Exception:
    pass
else:
    print('a mapping with an unknown joint was accepted'); sys.exit(1)
'''),

 dict(id='c04-tool-first-row', property='C04',
  edits=[(C, '''            tool_matrix = tool.get_matrix()
            T_ee_tool = T_ee @ tool_matrix
''', '''            tool_matrix = tool.get_matrix().to(T_ee)
            if not ret_eef_pose and not tool_matrix[0, :3, 3].any():
                # no offset, nothing to correct
                return J
            T_ee_tool = T_ee @ tool_matrix
''')],
  needs='one tool location per row, of which the first is zero and another is not, and no request for the end-effector pose',
  breaks='the Jacobians of the other rows are those of the end effector instead of the tool',
  demo=URDF + '''
n = 3
u = urdf([joint('j%d' % i, 'revolute', 'l%d' % i, 'l%d' % (i + 1), xyz='0.1 0.2 0.3', axis=['0 0 1', '0 1 0'][i % 2]) for i in range(n)],
         ['l%d' % i for i in range(n + 1)])
ch = pk.build_serial_chain_from_urdf(u, 'l%d' % n).to(dtype=torch.float64)
th = torch.randn(2, n, dtype=torch.float64)
loc = torch.tensor([[0., 0, 0], [.3, .1, .2]], dtype=torch.float64)
J = ch.jacobian(th, locations=loc)
J1 = ch.jacobian(th[1:], locations=loc[1:])
if (J[1] - J1[0]).abs().max() > 1e-9:
    print('the second tool location is ignored'); sys.exit(1)
'''),

 dict(id='c06-shared-links', property='C06',
  edits=[(C, '''            this_frame = copy.deepcopy(chain.find_frame(this_frame_name))
''', '''            this_frame = copy.copy(chain.find_frame(this_frame_name))
''')],
  needs='extracting a serial chain from a chain whose root (of the extraction) has a link offset, then using the source chain to build further chains; or changing the number type of the extracted chain only',
  breaks='the extracted chain shares links and joints with its source: the link offset of the root is erased in the source, so later extractions are placed wrongly',
  demo=URDF + '''
sdf = """<sdf version="1.5"><model name="m"><link name="a"><pose>0 0 0.5 0 0 0</pose></link>
<link name="b"><pose>0 0 1 0 0 0</pose></link><link name="c"><pose>0.3 0 2 0 0 0</pose></link>
<joint name="j1" type="revolute"><parent>a</parent><child>b</child><axis><xyz>0 1 0</xyz></axis></joint>
<joint name="j2" type="revolute"><parent>b</parent><child>c</child><axis><xyz>0 1 0</xyz></axis></joint></model></sdf>"""
mj = """<mujoco><worldbody><body name="a" pos="0 0 0.5"><body name="b" pos="0 0 1"><joint name="j1" axis="0 1 0"/>
<geom type="sphere" size="0.1"/><body name="c" pos="0.3 0 1"><joint name="j2" axis="0 1 0"/><geom type="sphere" size="0.1"/></body></body></body></worldbody></mujoco>"""
ch = pk.build_chain_from_mjcf(mj)
before = pk.SerialChain(ch, 'c', 'a').forward_kinematics([0.2, 0.1]).get_matrix()
pk.SerialChain(ch, 'c', 'b')
after = pk.SerialChain(ch, 'c', 'a').forward_kinematics([0.2, 0.1]).get_matrix() if ch.find_joint('j1') else None
if after is None or (before - after).abs().max() > 1e-6:
    print('an extraction changed what later extractions give'); sys.exit(1)
'''),

 dict(id='c08-limits-dtype', property='C08',
  edits=[(C, '''        self.low = self.low.to(dtype=self.dtype, device=self.device)
        self.high = self.high.to(dtype=self.dtype, device=self.device)

        self._direct''', '''        low, high = self.get_joint_limits()
        self.low = self.low.new_tensor(low, device=self.device)
        self.high = self.high.new_tensor(high, device=self.device)

        self._direct''')],
  needs='conversion to a narrower type (half precision) followed by clamp, or reading the limit tensors',
  breaks='limit tensors keep the type of construction, so clamping returns values of another type than requested',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', xyz='1 0 0', limit='<limit lower="-1" upper="1" effort="1" velocity="1"/>')], ['l0', 'l1'])
ch = pk.build_chain_from_urdf(u).to(dtype=torch.float64).to(dtype=torch.bfloat16)
r = ch.clamp([2.0])
if r.dtype != torch.bfloat16 or ch.low.dtype != torch.bfloat16:
    print('clamp returns', r.dtype, 'limits are', ch.low.dtype); sys.exit(1)
'''),

 dict(id='c09-memo', property='C09',
  edits=[(C, '''        all_transforms = self.forward_kinematics_tensor(th)

        return {self.idx_to_frame''', '''        # asking for several frames of the same configuration one after the other is common
        memo = self.__dict__.get('_fk_memo')
        if memo is not None and memo[0].dtype == th.dtype and not th.requires_grad and torch.equal(memo[0], th):
            all_transforms = memo[1]
        else:
            all_transforms = self.forward_kinematics_tensor(th)
            if not th.requires_grad:
                self._fk_memo = (th, all_transforms)

        return {self.idx_to_frame''')],
  needs='a 2-dimensional tensor of joint values that is modified in place between two queries (as in a control loop)',
  breaks='the second query returns the poses of the previous values',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', xyz='1 0 0')], ['l0', 'l1'])
ch = pk.build_chain_from_urdf(u)
th = torch.zeros(1, 1)
ch.forward_kinematics(th)
th += 0.5
a = ch.forward_kinematics(th)['l1'].get_matrix()
b = pk.build_chain_from_urdf(u).forward_kinematics(th.clone())['l1'].get_matrix()
if (a - b).abs().max() > 1e-6:
    print('stale poses after the values were changed in place'); sys.exit(1)
'''),

 dict(id='c10-root-order', property='C10',
  edits=[(UR, '''            if joints[i].parent == joints[j].child:
                has_root[i] = False
            elif joints[j].parent == joints[i].child:
                has_root[j] = False
''', '''            if joints[i].parent == joints[j].child:
                has_root[j], has_root[i] = has_root[i], False
            elif joints[j].parent == joints[i].child:
                has_root[j] = False
''')],
  needs='a file whose joints are listed in a particular order (child first, with three or more joints of a chain shuffled)',
  breaks='no joint, or one in the middle of the robot, is taken for the one at the root',
  demo=URDF + '''
import itertools
js = [joint('j%d' % i, 'revolute', 'l%d' % i, 'l%d' % (i + 1), xyz='0.1 0 0') for i in range(4)]
for p in itertools.permutations(range(4)):
    try:
        ch = pk.build_chain_from_urdf(urdf([js[i] for i in p], ['l%d' % i for i in range(5)]))
        names = ch.get_joint_parameter_names()
    except Exception as e:
        print('joints in order', p, repr(e)); sys.exit(1)
    if names != ['j0', 'j1', 'j2', 'j3']:
        print('joints in order', p, names); sys.exit(1)
'''),

 dict(id='c10-last-visual', property='C10',
  edits=[('src/pytorch_kinematics/urdf_parser_py/urdf.py', '''        """Return the first visual or None."""
        if self.visuals:
            return self.visuals[0]
''', '''        """Return the first visual or None."""
        for visual in self.visuals:
            if visual.origin is not None:
                return visual
        return self.visuals[0] if self.visuals else None
''')],
  needs='a link with two visuals, the first without an origin and the second with one',
  breaks='the second visual is kept instead of the first',
  demo=URDF + '''
u = """<robot name="r"><link name="a"><visual><geometry><box size="1 2 3"/></geometry></visual>
<visual><origin xyz="0 0 1"/><geometry><sphere radius="2"/></geometry></visual></link></robot>"""
v = pk.build_chain_from_urdf(u).find_link('a').visuals[0]
if v.geom_type != 'box':
    print('kept', v.geom_type); sys.exit(1)
'''),

 dict(id='c11-child-pose', property='C11',
  edits=[(SD, '''            t_p = _convert_transform(link_p.pose)
            t_c = _convert_transform(link_c.pose)
''', '''            t_p = _convert_transform(link_p.pose)
            t_c = _convert_transform(link_c.pose) if link_c.pose is not None else t_p
''')],
  needs='a child link without a pose element whose parent link has one',
  breaks='the child is placed at its parent instead of at the origin of the model',
  demo=URDF + '''
s = """<sdf version="1.5"><model name="m"><link name="a"><pose>0 0 0.5 0 0 0</pose></link><link name="b"/>
<joint name="j1" type="revolute"><parent>a</parent><child>b</child><axis><xyz>0 1 0</xyz></axis></joint></model></sdf>"""
s = s.replace('<link name="a">', '<link name="a"><inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial>')
s = s.replace('<link name="b"/>', '<link name="b"><inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial></link>')
m = pk.build_chain_from_sdf(s).forward_kinematics([0.0])['b'].get_matrix()[0]
if m[:3, 3].abs().max() > 1e-6:
    print('b is at', m[:3, 3].tolist()); sys.exit(1)
'''),

 dict(id='c13-inplace', property='C13',
  edits=[(C, '''        return torch.clamp(th, self.low, self.high)
''', '''        # no need for another tensor when no gradient is wanted
        return torch.clamp(th, self.low, self.high, out=None if th.requires_grad or th.shape[-1] != self.n_joints else th)
''')],
  needs='a tensor of the type of the chain given to clamp and used again afterwards',
  breaks='clamp modifies the configuration it is given',
  demo=URDF + '''
u = urdf([joint('a', 'revolute', 'l0', 'l1', limit='<limit lower="-1" upper="1" effort="1" velocity="1"/>')], ['l0', 'l1'])
ch = pk.build_chain_from_urdf(u)
th = torch.tensor([[2.0]]); ch.clamp(th)
if th.item() != 2.0:
    print('input changed to', th.item()); sys.exit(1)
'''),
]
