CH = 'src/pytorch_kinematics/chain.py'
IK = 'src/pytorch_kinematics/ik.py'
UR = 'src/pytorch_kinematics/urdf.py'
RC = 'src/pytorch_kinematics/transforms/rotation_conversions.py'
URDF = '''
import sys, threading, torch
import pytorch_kinematics as pk
u = '<robot name="r">%s%s</robot>' % ("".join('<link name="l%d"/>' % i for i in range(4)), "".join(
    '<joint name="j%d" type="revolute"><parent link="l%d"/><child link="l%d"/><origin xyz="0.3 0 0.2"/><axis xyz="%s"/><limit lower="-1" upper="1" effort="1" velocity="1"/></joint>' % (i, i, i + 1, ['0 0 1', '0 1 0', '1 0 0'][i]) for i in range(3)))
'''
SPECS = [
 dict(id='c30-extract-children', property='C30',
  edits=[(CH, '''            this_frame = copy.deepcopy(chain.find_frame(this_frame_name))
            if idx == end_frame_idx:
                this_frame.children = []
''', '''            # everything below is copied with the frames that follow, so leave it out here
            original = chain.find_frame(this_frame_name)
            children, original.children = original.children, []
            this_frame = copy.deepcopy(original)
            original.children = children
''')],
  needs='an extraction that is cut short while a frame is copied (by the user, by want of memory, by a visual that cannot be copied), and the robot used afterwards',
  breaks='the robot the chain was to be extracted from has lost everything below that frame',
  demo=URDF + '''
c = pk.build_chain_from_urdf(u)
before = c.get_frame_names(exclude_fixed=False)
c.find_frame('l1').link.visuals = [threading.Lock()]
try:
    pk.SerialChain(c, 'l3')
except TypeError:
    pass
after = c.get_frame_names(exclude_fixed=False)
print(before, after)
sys.exit(before != after)
'''),
 dict(id='c30-to-shortcut', property='C30',
  edits=[(CH, '''        if dtype is not None:
            self.dtype = dtype
        if device is not None:
            self.device = device
        self._root = self._root.to(''', '''        dtype = self.dtype if dtype is None else dtype
        device = self.device if device is None else device
        if dtype == self.dtype and torch.device(device) == torch.device(self.device):
            return self  # nothing to convert
        self.dtype, self.device = dtype, device
        self._root = self._root.to(''')],
  needs='a conversion that is cut short (interrupt, out of memory) and done again',
  breaks='the chain is taken to be converted already when the conversion is repeated; some of its tensors keep the old type and queries fail',
  demo=URDF + '''
from pytorch_kinematics import frame
c = pk.build_chain_from_urdf(u)
to = frame.Link.to
def fails(self, *a, **k):
    if self.name == 'l2':
        raise MemoryError()
    return to(self, *a, **k)
frame.Link.to = fails
try:
    c.to(dtype=torch.float64)
except MemoryError:
    pass
frame.Link.to = to
c.to(dtype=torch.float64)
try:
    m = c.forward_kinematics(torch.ones(1, 3, dtype=torch.float64))['l3'].get_matrix()
    ok = m.dtype == torch.float64
except RuntimeError as e:
    print(e); ok = False
sys.exit(not ok)
'''),
 dict(id='c30-grad-mode', property='C30',
  edits=[(IK, '''            with torch.no_grad():
                if self.line_search is not None:
                    lr, _ = self.line_search.do_line_search(self.chain, q, dq, target_pos, target_wxyz,
                                                            dx, problem_remaining=sol.remaining,
                                                            fk_fn=self._fk_fn,
                                                            eef_frame_idx=self._eef_frame_idx)
                    lr = lr.unsqueeze(1)
                else:
                    lr = self.lr
                q = q.add(dq, alpha=lr) if isinstance(lr, float) else q.add(lr * dq)
                if self.clamp_to_limits:
                    q = torch.clamp(q, self.chain.low, self.chain.high)
''', '''            grad_mode = torch.is_grad_enabled()
            torch.set_grad_enabled(False)
            if self.line_search is not None:
                lr, _ = self.line_search.do_line_search(self.chain, q, dq, target_pos, target_wxyz,
                                                        dx, problem_remaining=sol.remaining,
                                                        fk_fn=self._fk_fn,
                                                        eef_frame_idx=self._eef_frame_idx)
                lr = lr.unsqueeze(1)
            else:
                lr = self.lr
            q = q.add(dq, alpha=lr) if isinstance(lr, float) else q.add(lr * dq)
            if self.clamp_to_limits:
                q = torch.clamp(q, self.chain.low, self.chain.high)
            torch.set_grad_enabled(grad_mode)
''')],
  needs='a solve interrupted (or failing) during the step or the line search, and gradients asked for afterwards',
  breaks='gradients stay switched off for the rest of the program: kinematics after the interrupted solve cannot be differentiated',
  demo=URDF + '''
c = pk.build_serial_chain_from_urdf(u, 'l3')
class Interrupted(pk.BacktrackingLineSearch):
    def do_line_search(self, *a, **k):
        raise KeyboardInterrupt()
ik = pk.PseudoInverseIK(c, retry_configs=torch.zeros(1, 3), line_search=Interrupted())
try:
    ik.solve(pk.Transform3d(pos=torch.tensor([.5, .2, .3])))
except KeyboardInterrupt:
    pass
th = torch.full((1, 3), .2, requires_grad=True)
m = c.forward_kinematics(th).get_matrix()
print(m.requires_grad)
sys.exit(not m.requires_grad)
'''),
 dict(id='c30-quiet-load', property='C30',
  edits=[(UR, '''    robot = URDF.from_xml_string(data)
''', '''    robot = _read(data)
'''), (UR, '''def build_chain_from_urdf(data):
''', '''def _read(data):
    # what the reader has to say about elements it does not know is of no interest here
    shown, sys.stderr = sys.stderr, io.StringIO()
    robot = URDF.from_xml_string(data)
    sys.stderr = shown
    return robot


def build_chain_from_urdf(data):
'''), (UR, '''from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere''', '''import io
import sys
from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere''')],
  needs='a description that is refused, or a load that is interrupted',
  breaks='the error stream of the program stays redirected into nothing: messages are lost from then on',
  demo='''
import sys
import pytorch_kinematics as pk
err = sys.stderr
try:
    pk.build_chain_from_urdf('<robot name="r"><link/></robot>')
except Exception:
    pass
sys.exit(sys.stderr is not err)
'''),
 dict(id='c21-half-angle', property='C21',
  edits=[(RC, '''    one_minus_c = 1 - c
    s = torch.sin(theta)
    kx, ky, kz = torch.unbind(axis, -1)
    r00''', '''    one_minus_c = 1 - c
    if torch.compiler.is_compiling():
        # a single trigonometric function makes for a smaller kernel
        s = torch.copysign(torch.sqrt(torch.clamp(1 - c * c, min=1e-14)), theta)
    else:
        s = torch.sin(theta)
    kx, ky, kz = torch.unbind(axis, -1)
    r00''')],
  needs='a compiled function, and a joint value beyond a half turn',
  breaks='compiled kinematics turn joints with values beyond a half turn the wrong way',
  demo=URDF + '''
c = pk.build_serial_chain_from_urdf(u, 'l3')
f = torch.compile(c.forward_kinematics_tensor, backend='eager', fullgraph=True)
th = torch.tensor([[.5, 4., -3.5], [.1, -.2, .3]])
e = float((f(th) - c.forward_kinematics_tensor(th)).abs().max())
print(e)
sys.exit(e > 1e-3)
'''),
 dict(id='c05-masked-turn', property='C05',
  edits=[(CH, '''        M = R_link @ grad_R_link.transpose(-1, -2)  # (L, B, 3, 3)
        tau_link = torch.stack([M[:,:,1,2] - M[:,:,2,1],
                                M[:,:,2,0] - M[:,:,0,2],
                                M[:,:,0,1] - M[:,:,1,0]], dim=-1)  # (L, B, 3)
''', '''        # exactly zero for a loss on positions only
        turns = (grad_R_link[-1] != 0).any()
        M = torch.where(turns, R_link @ grad_R_link.transpose(-1, -2), torch.zeros_like(R_link))  # (L, B, 3, 3)
        tau_link = torch.stack([M[:,:,1,2] - M[:,:,2,1],
                                M[:,:,2,0] - M[:,:,0,2],
                                M[:,:,0,1] - M[:,:,1,0]], dim=-1)  # (L, B, 3)
''')],
  needs='a loss on the orientation of some frames that does not include the last one',
  breaks='the gradient lacks the part that comes from the orientation',
  demo=URDF + '''
c = pk.build_chain_from_urdf(u).to(dtype=torch.float64)
th = torch.tensor([[.1, .2, .3], [.4, -.5, .6]], dtype=torch.float64)
w = torch.tensor([0., 1.], dtype=torch.float64)
def loss(t):
    return (c.forward_kinematics(t)['l2'].get_matrix()[:, 0, 2] * w).sum()
t = th.clone().requires_grad_()
g, = torch.autograd.grad(loss(t), t)
h = 1e-6
n = torch.zeros_like(th)
for i in range(2):
    for j in range(3):
        d = torch.zeros_like(th); d[i, j] = h
        n[i, j] = (loss(th + d) - loss(th - d)) / (2 * h)
print(g, n)
sys.exit(not torch.allclose(g, n, atol=1e-5))
'''),
]
