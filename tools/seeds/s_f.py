CH = 'src/pytorch_kinematics/chain.py'
SD = 'src/pytorch_kinematics/sdf.py'
TR = 'src/pytorch_kinematics/transforms/transform3d.py'
RC = 'src/pytorch_kinematics/transforms/rotation_conversions.py'
# runs f, and at its i-th line in the package runs g in another thread to its end
PRE = '''
import sys, threading, torch
import pytorch_kinematics as pk
def interrupted(f, g, i):
    left = [i]
    got = []
    def other():
        try: got.append(g())
        except Exception as e: got.append(e)
    def line(frame, event, arg):
        if 'pytorch_kinematics' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                t = threading.Thread(target=other); t.start(); t.join()
                sys.settrace(line)
        return line
    sys.settrace(line)
    try:
        r = f()
    except Exception as e:
        r = e
    finally:
        sys.settrace(None)
    return r, got[0] if got else None
def explore(f, g, same):
    a, b = f(), g()
    for i in range(1, 100000):
        r, s = interrupted(f, g, i)
        if s is None:
            return
        if isinstance(r, Exception) or isinstance(s, Exception) or not same(r, a) or not same(s, b):
            print('interrupted at line', i, 'gives', r, s); sys.exit(1)
'''
SPECS = [
 dict(id='c29-names-collect', property='C29',
  edits=[(CH, '''    def _get_frame_names(frame: Frame, exclude_fixed=True) -> Sequence[str]:
        names = []
        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
            names.append(frame.name)
        for child in frame.children:
            names.extend(Chain._get_frame_names(child, exclude_fixed))
        return names

    def get_frame_names(self, exclude_fixed=True):
        names = self._get_frame_names(self._root, exclude_fixed)
        return sorted(set(names), key=names.index)
''', '''    def _get_frame_names(frame: Frame, exclude_fixed, names):
        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
            names.setdefault(frame.name)
        for child in frame.children:
            Chain._get_frame_names(child, exclude_fixed, names)

    def get_frame_names(self, exclude_fixed=True):
        # a dict keeps the order and drops duplicates in linear time
        self._names = {}
        self._get_frame_names(self._root, exclude_fixed, self._names)
        return list(self._names)
''')],
  needs='two threads asking one robot for its frames at the same time, with a switch while the names are collected',
  breaks='the names are collected in the robot: one thread gets those the other has collected so far, and poses of frames are missing',
  demo=PRE + '''
u = '<robot name="r">%s%s</robot>' % ("".join('<link name="l%d"/>' % i for i in range(4)), "".join(
    '<joint name="j%d" type="%s"><parent link="l%d"/><child link="l%d"/><axis xyz="0 0 1"/><limit lower="-1" upper="1" effort="1" velocity="1"/></joint>' % (i, ['revolute', 'fixed', 'revolute'][i], i, i + 1) for i in range(3)))
ch = pk.build_chain_from_urdf(u)
explore(lambda: ch.get_frame_names(exclude_fixed=False), lambda: ch.get_frame_names(), lambda x, y: x == y)
'''),
 dict(id='c29-sdf-links', property='C29',
  edits=[(SD, '''    lmap = robot.link_map
    joints = robot.joints
''', '''    lmap = _links_by_name(robot)
    joints = robot.joints
'''), (SD, '''def build_chain_from_sdf(data):
''', '''_by_name = {}


def _links_by_name(robot):
    _by_name.clear()
    for link in robot.links:
        _by_name[link.name] = link
    return _by_name


def build_chain_from_sdf(data):
''')],
  needs='two SDF models loaded at once, one of them interrupted while its frames are put together',
  breaks='the links of the other model are looked up: an error, or links with the other robot\'s poses',
  demo=PRE + '''
def sdf(z, name):
    return ('<sdf version="1.6"><model name="m"><link name="a"><pose>0 0 0 0 0 0</pose></link><link name="%s"><pose>0 0 %s 0 0 0</pose></link>'
            '<joint name="j" type="revolute"><parent>a</parent><child>%s</child><axis><xyz>0 0 1</xyz><limit><lower>-1</lower><upper>1</upper></limit></axis></joint></model></sdf>' % (name, z, name))
def load(z):
    c = pk.build_chain_from_sdf(sdf(z, 'b'))
    return float(c.forward_kinematics(torch.zeros(1, 1))['b'].get_matrix()[0, 2, 3])
load(1.)
explore(lambda: load(1.), lambda: load(2.), lambda x, y: x == y)
'''),
 dict(id='c29-compose-shared', property='C29',
  edits=[(TR, '''        mat = self._matrix
        for other in others:
            mat = _broadcast_bmm(mat, other.get_matrix())

        out = Transform3d(device=self.device, dtype=self.dtype, matrix=mat)
''', '''        self._product = self._matrix
        for other in others:
            self._product = _broadcast_bmm(self._product, other.get_matrix())

        out = Transform3d(device=self.device, dtype=self.dtype, matrix=self._product)
''')],
  needs='one transform composed with others in two threads at once',
  breaks='the product is built up in the transform: factors of the other thread get into it, or are left out',
  demo=PRE + '''
t = pk.Transform3d(pos=torch.tensor([1., 2., 3.]))
a, b = pk.Transform3d(pos=torch.tensor([.5, 0, 0])), pk.Transform3d(rot=torch.tensor([.3, .2, .1]))
explore(lambda: t.compose(a, b).get_matrix(), lambda: t.compose(b).get_matrix(), lambda x, y: torch.equal(x, y))
'''),
 dict(id='c15-lock-noise', property='C15',
  edits=[(RC, '''    i1, i2 = {"X": (2, 1), "Y": (0, 2), "Z": (1, 0)}[axis]
    if horizontal:
''', '''    i1, i2 = {"X": (2, 1), "Y": (0, 2), "Z": (1, 0)}[axis]
    # small entries are rounding noise of right angles
    data = torch.where(data.abs() < 5e-3, torch.zeros_like(data), data)
    if horizontal:
'''), (RC, '''    if tait_bryan:
        return torch.atan2(-data[..., i2], data[..., i1])
    return torch.atan2(data[..., i2], -data[..., i1])
''', '''    if tait_bryan:
        return torch.atan2(0.0 - data[..., i2], data[..., i1])
    return torch.atan2(data[..., i2], 0.0 - data[..., i1])
''')],
  needs='a matrix one of whose entries is small but not zero, such as a rotation close to gimbal lock',
  breaks='small entries are taken for noise and the angles do not reproduce the matrix',
  demo='''
import sys, torch, math
import pytorch_kinematics as pk
e = torch.tensor([[.4, math.pi / 2 - .006, -.9]], dtype=torch.float64)
R = pk.euler_angles_to_matrix(e, 'XYZ')
if (pk.euler_angles_to_matrix(pk.matrix_to_euler_angles(R, 'XYZ'), 'XYZ') - R).abs().max() > 1e-6:
    print('angles', pk.matrix_to_euler_angles(R, 'XYZ').tolist()); sys.exit(1)
'''),
]
