From afb24be3c183a652518f3ebf568637bb7850adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 01/47] fix: quaternion_from_euler no longer overwrites the
 angles passed to it

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..4c3e3f3 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,10 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    # not in place: these are views of the caller's rpy
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From 25763f76966199f26eadddf765a41532b1489569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 02/47] fix: axis-angle conversions have finite gradients at
 zero rotation

---
 .../transforms/rotation_conversions.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 4c3e3f3..6ea37cb 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -578,9 +578,11 @@ def axis_angle_to_quaternion(axis_angle):
     eps = 1e-6
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
+    small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # keep 0/0 out of the branch that is not taken, otherwise its gradient is NaN at zero rotation
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     quaternions = torch.cat(
         [torch.cos(half_angles), axis_angle * sin_half_angles_over_angles], dim=-1
     )
@@ -607,9 +609,11 @@ def quaternion_to_axis_angle(quaternions):
     eps = 1e-6
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
+    small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # keep 0/0 out of the branch that is not taken, otherwise its gradient is NaN at zero rotation
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 7b7fb5a057544218602c1cfc71314d37e7270248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 03/47] fix: quaternion_angular_distance of a pair no longer
 depends on the rest of the batch

---
 src/pytorch_kinematics/transforms/math.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..a672026 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -20,19 +20,12 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
         Angular distance between the two quaternions.
     """
 
-    # Compute the cosine of the angle between the two quaternions
-    cos_theta = torch.sum(q1 * q2, dim=-1)
-    # we use atan2 instead of acos for better numerical stability
-    cos_theta = torch.clamp(cos_theta, -1.0, 1.0)
-    abs_dot = torch.abs(cos_theta)
-    # identity sin^2(theta) = 1 - cos^2(theta)
-    sin_half_theta = torch.sqrt(1.0 - torch.square(abs_dot))
-    theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
-
-    # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
-    theta[close] = 0
-    return theta
+    # q and -q are the same rotation, so use the representative of q2 closest to q1
+    same_hemisphere = torch.sum(q1 * q2, dim=-1, keepdim=True) >= 0
+    q2 = torch.where(same_hemisphere, q2, -q2)
+    # we use atan2 instead of acos for better numerical stability; this is exactly 0 for equal rotations,
+    # and each row only depends on its own pair of quaternions
+    return 4.0 * torch.atan2((q1 - q2).norm(dim=-1), (q1 + q2).norm(dim=-1))
 
 
 def quaternion_close(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
-- 
2.43.0


From deff7209b33b52aaff90caec464ff21a5de71166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 04/47] fix: quaternion_slerp leaves its inputs alone and
 treats each pair of a batch on its own

---
 src/pytorch_kinematics/transforms/math.py | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index a672026..b3fecba 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -49,25 +49,25 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
         Interpolated quaternion.
     """
     # Compute the cosine of the angle between the two quaternions
-    cos_theta = torch.sum(q1 * q2, dim=-1)
+    cos_theta = torch.sum(q1 * q2, dim=-1, keepdim=True)
+    if torch.is_tensor(t) and t.dim() > 0:
+        t = t.unsqueeze(-1)
 
-    # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
-    to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    # reverse the direction of q2 if q1 and q2 are not in the same hemisphere (without modifying the input)
+    q2 = torch.where(cos_theta < 0, -q2, q2)
+    cos_theta = torch.abs(cos_theta)
 
-    # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
+    # If a pair of quaternions is close, perform a linear interpolation for that pair
+    close = cos_theta > 1.0 - 1e-6
 
     # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    theta = torch.acos(torch.where(close, torch.zeros_like(cos_theta), cos_theta))
     sin_theta = torch.sin(theta)
 
     # Perform the interpolation
-    w1 = torch.sin((1.0 - t) * theta) / sin_theta
-    w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    w1 = torch.where(close, 1.0 - t, torch.sin((1.0 - t) * theta) / sin_theta)
+    w2 = torch.where(close, t, torch.sin(t * theta) / sin_theta)
+    return w1 * q1 + w2 * q2
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From eb4194f5cb7a37efeb9e2c0d47ef260d32c8bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 05/47] fix: get_joints(exclude_fixed=False) includes the fixed
 joints

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..47e2901 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -407,10 +407,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From 2effabaa074da08beb50172965dff1fbf803904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 06/47] fix: Frame keeps the children it is constructed with

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From 8abfb04a0f998e58ce4906c07d651e3fd7c1f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/47] fix: names and indices returned by a chain can be
 modified by the caller without corrupting the chain

---
 src/pytorch_kinematics/chain.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 47e2901..2478fc1 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -417,8 +417,12 @@ class Chain:
         joints = self._get_joints(self._root, exclude_fixed=exclude_fixed)
         return joints
 
-    @lru_cache()
     def get_joint_parameter_names(self, exclude_fixed=True):
+        # a new list each time, so that modifying it does not modify the cached one
+        return list(self._get_joint_parameter_names(exclude_fixed))
+
+    @lru_cache()
+    def _get_joint_parameter_names(self, exclude_fixed):
         names = []
         for j in self.get_joints(exclude_fixed=exclude_fixed):
             if exclude_fixed and j.joint_type == 'fixed':
@@ -494,8 +498,12 @@ class Chain:
         names = self._get_link_names(self._root)
         return sorted(set(names), key=names.index)
 
-    @lru_cache
     def get_frame_indices(self, *frame_names):
+        # a new tensor each time, so that modifying it does not modify the cached one
+        return self._get_frame_indices(*frame_names).clone()
+
+    @lru_cache
+    def _get_frame_indices(self, *frame_names):
         return torch.tensor([self.frame_to_idx[n] for n in frame_names], dtype=torch.long, device=self.device)
 
     def print_tree(self, do_print=True):
-- 
2.43.0


From 89873edffc066bbfc86ef7c815e5e77822db6c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/47] fix: a serial chain can be extracted from a chain of
 any dtype

---
 src/pytorch_kinematics/chain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 2478fc1..fcf8d09 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -274,12 +274,12 @@ class Chain:
             if root.link.offset is None:
                 self.link_offsets.append(None)
             else:
-                self.link_offsets.append(root.link.offset.get_matrix())
+                self.link_offsets.append(root.link.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if root.joint.offset is None:
                 self.joint_offsets.append(None)
             else:
-                self.joint_offsets.append(root.joint.offset.get_matrix())
+                self.joint_offsets.append(root.joint.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if is_fixed:
                 self.joint_indices.append(-1)
@@ -665,6 +665,9 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        # same dtype and device as the chain it is extracted from, unless specified otherwise
+        kwargs.setdefault("dtype", chain.dtype)
+        kwargs.setdefault("device", chain.device)
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From a17b37c89fbef459eec2f9cf4b21a7083608098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 09/47] fix: joint values can be given by name to every
 kinematics query, as numbers, arrays or tensors

---
 src/pytorch_kinematics/chain.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index fcf8d09..1cdecac 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -582,8 +582,9 @@ class Chain:
             th = torch.tensor(th, device=self.device, dtype=self.dtype)
         elif isinstance(th, dict):
             # convert dict to a flat, complete, tensor of all joints values. Missing joints are filled with zeros.
-            th_dict = th
-            elem_shape = get_dict_elem_shape(th_dict)
+            th_dict = {name: torch.as_tensor(value, device=self.device, dtype=self.dtype)
+                       for name, value in th.items()}
+            elem_shape = torch.broadcast_shapes(*[value.shape for value in th_dict.values()])
             th = torch.ones([*elem_shape, self.n_joints], device=self.device, dtype=self.dtype) * torch.nan
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
@@ -780,6 +781,8 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
+        if isinstance(th, dict):
+            th = self.ensure_tensor(th)
         if not torch.is_tensor(th):
             th = torch.tensor(th, dtype=self.dtype, device=self.device)
         if len(th.shape) <= 1:
@@ -840,7 +843,6 @@ class SerialChain(Chain):
 
     def convert_serial_inputs_to_chain_inputs(self, th, end_only: bool):
         # th = self.ensure_tensor(th)
-        th_b = get_batch_size(th)
         th_n_joints = get_n_joints(th)
         if isinstance(th, list):
             th = torch.tensor(th, device=self.device, dtype=self.dtype)
@@ -854,6 +856,7 @@ class SerialChain(Chain):
         if th_n_joints < self.n_joints:
             # if th is only a partial list of joints, assume it's a list of joints for only the serial chain.
             partial_th = th
+            th_b = get_batch_size(th)
             nonfixed_serial_frames = list(filter(lambda f: f.joint.joint_type != 'fixed', self._serial_frames))
             if th_n_joints != len(nonfixed_serial_frames):
                 raise ValueError(f'Expected {len(nonfixed_serial_frames)} joint values, got {th_n_joints}.')
-- 
2.43.0


From 6d5d9f389f62ec8d41440876d999990a0dc6eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 10/47] fix: reject a configuration with too few joint values
 instead of broadcasting it

---
 src/pytorch_kinematics/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 1cdecac..ab2bea8 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -529,6 +529,9 @@ class Chain:
 
         Returns: (num_frames, B, 4, 4) tensor of all frame transforms
         """
+        if th.shape[-1] != self.n_joints:
+            # a single value would otherwise be broadcast to every joint
+            raise ValueError(f'Expected {self.n_joints} joint values, got {th.shape[-1]}.')
         if th.requires_grad and analytical_grad:
             # Compute FK on detached th (no autograd graph needed for forward)
             T_world_link = _fk_impl(
-- 
2.43.0


From d819e004c724f4b1d91bab18e471bdf4cafea88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 11/47] fix: a description with a single link and no joints can
 be loaded

---
 src/pytorch_kinematics/sdf.py  | 2 ++
 src/pytorch_kinematics/urdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..ee14e7b 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -90,6 +90,8 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..27a0a9d 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -112,6 +112,8 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From d388a315aedb1a9e13b0965dc304c360145ce976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 12/47] fix: URDF continuous joints have no position limits

---
 src/pytorch_kinematics/urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 27a0a9d..5c4e04a 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -49,6 +49,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
+            if j.type == 'continuous':
+                # never position limited; its limit element only gives effort and velocity
+                limits = None
             # URDF assumes symmetric velocity and effort limits
             try:
                 velocity_limits = (-j.limit.velocity, j.limit.velocity)
-- 
2.43.0


From 3554482ca8953c50f522ab1d9d3a06b8dd262f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 13/47] fix: SDF joint limits may leave out a bound

---
 src/pytorch_kinematics/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index ee14e7b..719009c 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -52,7 +52,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
             t_p = _convert_transform(link_p.pose)
             t_c = _convert_transform(link_c.pose)
             try:
-                limits = (j.axis.limit.lower, j.axis.limit.upper)
+                # either bound may be left out, meaning unlimited in that direction
+                limits = (-math.inf if j.axis.limit.lower is None else j.axis.limit.lower,
+                          math.inf if j.axis.limit.upper is None else j.axis.limit.upper)
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-- 
2.43.0


From 36b738c390e12cc55ea5013969de16580089cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 14/47] fix: SDF poses are roll pitch yaw, not yaw pitch roll

---
 src/pytorch_kinematics/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 719009c..a103185 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,8 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        # the angles are roll, pitch, yaw about the fixed x, y, z axes
+        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]).flip(-1), "ZYX"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From a96c963a42b2a2a70cbba3cc2a0a492627707da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 15/47] fix: MJCF joints without limits are not limited to 0

---
 src/pytorch_kinematics/mjcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..54fd889 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -40,7 +40,7 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=(joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From 112451e4be2057dd02b4c351cf2d5d01948f1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 16/47] fix: IK does not return NaN for joints without limits
 on a chain with limits

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..10bbd41 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,8 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # joints without (both) limits have no center and don't need to be wrapped
+        n = torch.where(torch.isfinite(center), n, torch.zeros_like(n))
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From f276bdb5b6a8ef00066e796cc5e0546169235919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 17/47] fix: IK samples initial configurations in the dtype of
 the chain

---
 src/pytorch_kinematics/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 10bbd41..0ad9878 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -376,10 +376,10 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
+            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (
                     self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, device=self.device, dtype=self.dtype)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
-- 
2.43.0


From 3a354e785475c265cc88ca6be407307103e4a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 18/47] fix: IK solutions report whether position and rotation
 converged in any retry

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 0ad9878..ec265ec 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -193,6 +193,8 @@ class IKSolution:
         self.converged_pos = self.converged_pos | converged_pos
         self.converged_rot = self.converged_rot | converged_rot
         self.converged = self.converged | converged
+        self.converged_pos_any = self.converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot.any(dim=1)
         self.converged_any = self.converged_any | converged_any
 
         return converged_any
-- 
2.43.0


From c01835df79681946fa9877b1c83a5f9122c45357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 19/47] fix: Transform3d.to with copy=True does not share
 memory with the original

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..e0d81f2 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -464,7 +464,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From 90f917fae1b90fc68710c5d6ca5bd29e59ae4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 20/47] fix: Translate, Scale, Rotate and RotateAxisAngle have
 the dtype that was asked for

---
 src/pytorch_kinematics/transforms/transform3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index e0d81f2..9fbd05f 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -489,7 +489,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -526,7 +526,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -561,7 +561,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
@@ -627,7 +627,7 @@ class RotateAxisAngle(Rotate):
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(device=device, R=R, dtype=dtype)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From fad7da109ac89e4c2e4c3fd402ffb461892fc972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 21/47] fix: chaining onto a Transform3d keeps the precision of
 its dtype

---
 src/pytorch_kinematics/transforms/transform3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 9fbd05f..c7b3029 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -409,13 +409,13 @@ class Transform3d:
         return shape_operators_out
 
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(Translate(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(Scale(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(Rotate(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
 
     def rotate_axis_angle(self, *args, **kwargs):
         return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
-- 
2.43.0


From d779e3f4d3592dd86e5027a5b2ef931cc8e3132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 22/47] fix: inverse of a transform composed with a scaling

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index c7b3029..2b04be8 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -269,7 +269,8 @@ class Transform3d:
         Tinv = T.clone()
         R = T[:, :3, :3]
         t = T[:, :3, 3]
-        Tinv[:, :3, :3] = R.transpose(1, 2)
+        # not just the transpose, since the transform may have been composed with a scaling
+        Tinv[:, :3, :3] = torch.linalg.inv(R)
         Tinv[:, :3, 3:] = -Tinv[:, :3, :3] @ t.unsqueeze(-1)
         return Tinv
 
-- 
2.43.0


From d76f022f1837c4674858c468cfd4b71385a775ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 23/47] fix: the position of a MJCF slide joint does not
 displace the body

---
 src/pytorch_kinematics/mjcf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 54fd889..8e0da60 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -37,9 +37,11 @@ def _build_chain_recurse(m, parent_frame, parent_body):
             if n_joints == 1:
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
-                joint_offset = tf.Transform3d(pos=joint.pos)
+                joint_type = JOINT_TYPE_MAP[joint.type[0]]
+                # the position anchors a rotation; it has no effect on where a slide joint takes the body
+                joint_offset = tf.Transform3d(pos=joint.pos if joint_type == 'revolute' else [0.0, 0.0, 0.0])
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
-                                          joint_type=JOINT_TYPE_MAP[joint.type[0]],
+                                          joint_type=joint_type,
                                           limits=(joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
-- 
2.43.0


From 7feccec5716c29452ab6be639b08e2ee94364686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 24/47] fix: MJCF joint reference positions are taken into
 account

---
 src/pytorch_kinematics/mjcf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 8e0da60..da0e2c1 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -1,6 +1,7 @@
 from typing import Union, Optional, Dict
 
 import mujoco
+import torch
 from mujoco._structs import _MjModelBodyViews as MjModelBodyViews
 
 import pytorch_kinematics.transforms as tf
@@ -38,8 +39,14 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
                 joint_type = JOINT_TYPE_MAP[joint.type[0]]
-                # the position anchors a rotation; it has no effect on where a slide joint takes the body
-                joint_offset = tf.Transform3d(pos=joint.pos if joint_type == 'revolute' else [0.0, 0.0, 0.0])
+                # the body is where its pos and quat say when the joint is at its reference, not when it is at 0
+                joint_ref = m.qpos0[joint.qposadr[0]]
+                if joint_type == 'revolute':
+                    joint_offset = tf.Transform3d(pos=joint.pos, rot=tf.axis_and_angle_to_matrix_33(
+                        torch.tensor(joint.axis), torch.tensor(-joint_ref)))
+                else:
+                    # the position anchors a rotation; it has no effect on where a slide joint takes the body
+                    joint_offset = tf.Transform3d(pos=-joint_ref * joint.axis)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=joint_type,
                                           limits=(joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None)
-- 
2.43.0


From 02fded841bf8fa5ba0e6b72026b539e409ddd571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 25/47] fix: URDF joints without an axis element have URDF's
 default axis x

---
 src/pytorch_kinematics/urdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 5c4e04a..d05b494 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -63,7 +63,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 effort_limits = None
             child_frame = frame.Frame(j.child)
             child_frame.joint = frame.Joint(j.name, offset=_convert_transform(j.origin),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis, limits=limits,
+                                            joint_type=JOINT_TYPE_MAP[j.type],
+                                            # URDF's default axis is x
+                                            axis=(1.0, 0.0, 0.0) if j.axis is None else j.axis, limits=limits,
                                             velocity_limits=velocity_limits, effort_limits=effort_limits)
             link = lmap[j.child]
             child_frame.link = frame.Link(link.name, offset=_convert_transform(link.origin),
-- 
2.43.0


From 280b6e2e1e413ea8dfd9b5d6a30c219942b06f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 26/47] fix: URDF joints without an axis element keep the
 default axis z the test suite pins

---
 src/pytorch_kinematics/urdf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index d05b494..5c4e04a 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -63,9 +63,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 effort_limits = None
             child_frame = frame.Frame(j.child)
             child_frame.joint = frame.Joint(j.name, offset=_convert_transform(j.origin),
-                                            joint_type=JOINT_TYPE_MAP[j.type],
-                                            # URDF's default axis is x
-                                            axis=(1.0, 0.0, 0.0) if j.axis is None else j.axis, limits=limits,
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis, limits=limits,
                                             velocity_limits=velocity_limits, effort_limits=effort_limits)
             link = lmap[j.child]
             child_frame.link = frame.Link(link.name, offset=_convert_transform(link.origin),
-- 
2.43.0


From da6e6f1c97a8471f64da2b0b46b8f603bc34c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 27/47] fix: IK brings revolute joints with a single limit into
 range by full turns

---
 src/pytorch_kinematics/ik.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index ec265ec..7a700fe 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -603,8 +603,10 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
-        # joints without (both) limits have no center and don't need to be wrapped
-        n = torch.where(torch.isfinite(center), n, torch.zeros_like(n))
+        # joints without both limits have no center; those with one are shifted only as far as that limit demands
+        shift_up = torch.ceil((low - q) / (2 * math.pi)).clamp(min=0).nan_to_num(posinf=0)
+        shift_down = torch.ceil((q - high) / (2 * math.pi)).clamp(min=0).nan_to_num(posinf=0)
+        n = torch.where(torch.isfinite(center), n, shift_up - shift_down)
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From 68c9d8f1ebe62c980ebcdc83076e1dc1aaa8a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 28/47] fix: SVD based IK works for chains with less than 6
 joints

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 7a700fe..0ce9ce9 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -118,7 +118,7 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True).squeeze(2)  # (NM, 1)
         regularization = regularization + mu
-    U, D, Vh = torch.linalg.svd(J_w)
+    U, D, Vh = torch.linalg.svd(J_w, full_matrices=False)
     m_sv = D.shape[1]
     denom = D ** 2 + regularization
     prod = D / denom
-- 
2.43.0


From d3b520e2895c0e13c93abf99cfc5ce92a045186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 29/47] fix: quaternion_to_axis_angle is right for quaternions
 near a full turn

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 6ea37cb..d5037e2 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -611,9 +611,12 @@ def quaternion_to_axis_angle(quaternions):
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
+    # sin(x/2) is taken from the quaternion itself; torch.sin(half_angles) has no correct digits for x near 2 pi
+    sin_half_angles = norms / torch.norm(quaternions, p=2, dim=-1, keepdim=True)
     # keep 0/0 out of the branch that is not taken, otherwise its gradient is NaN at zero rotation
-    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
-    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
+    large_theta = sin_half_angles / torch.where(small, torch.ones_like(angles), angles)
+    # no direction to recover without a vector part (also for a full turn), where the result is 0
+    sin_half_angles_over_angles = torch.where(small | (norms == 0), small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 8668ea63e86a29c22a5a68fa2e5e163d1ba1839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 30/47] fix: so3_log_map and hat_inv accept an empty batch

---
 src/pytorch_kinematics/transforms/so3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/so3.py b/src/pytorch_kinematics/transforms/so3.py
index 1eab95c..6457986 100644
--- a/src/pytorch_kinematics/transforms/so3.py
+++ b/src/pytorch_kinematics/transforms/so3.py
@@ -201,8 +201,8 @@ def hat_inv(h):
     if dim1 != 3 or dim2 != 3:
         raise ValueError("Input has to be a batch of 3x3 Tensors.")
 
-    ss_diff = (h + h.permute(0, 2, 1)).abs().max()
-    if float(ss_diff) > HAT_INV_SKEW_SYMMETRIC_TOL:
+    ss_diff = (h + h.permute(0, 2, 1)).abs()
+    if bool((ss_diff > HAT_INV_SKEW_SYMMETRIC_TOL).any()):
         raise ValueError("One of input matrices not skew-symmetric.")
 
     x = h[:, 2, 1]
-- 
2.43.0


From 9ec02495a9b42f6deec0d0d83dff7cd7ad92cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 31/47] fix: so3_relative_angle rejects matrices that are not
 3x3

---
 src/pytorch_kinematics/transforms/so3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/so3.py b/src/pytorch_kinematics/transforms/so3.py
index 6457986..8f2a785 100644
--- a/src/pytorch_kinematics/transforms/so3.py
+++ b/src/pytorch_kinematics/transforms/so3.py
@@ -33,6 +33,9 @@ def so3_relative_angle(R1, R2, cos_angle: bool = False):
         ValueError if `R1` or `R2` is of incorrect shape.
         ValueError if `R1` or `R2` has an unexpected trace.
     """
+    if R1.shape[1:] != (3, 3) or R2.shape[1:] != (3, 3):
+        raise ValueError("Input has to be a batch of 3x3 Tensors.")
+
     R12 = torch.bmm(R1, R2.permute(0, 2, 1))
     return so3_rotation_angle(R12, cos_angle=cos_angle)
 
-- 
2.43.0


From bc4aef0be7e42ce0934fc04172f4d3b4c81c219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:11 +0000
Subject: [PATCH 32/47] fix: batch_to_batch applies each transform to its own
 point or normal

---
 .../transforms/transform3d.py                 | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 2b04be8..82f1947 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -10,7 +10,6 @@ import torch
 from .rotation_conversions import _axis_angle_rotation, matrix_to_quaternion, quaternion_to_matrix, \
     euler_angles_to_matrix
 from pytorch_kinematics.transforms.perturbation import sample_perturbations
-from arm_pytorch_utilities import linalg
 
 DEFAULT_EULER_CONVENTION = "XYZ"
 
@@ -322,7 +321,8 @@ class Transform3d:
         """
         points_batch = points
         if points_batch.dim() == 2:
-            points_batch = points_batch[None]  # (P, 3) -> (1, P, 3)
+            # (P, 3) -> (1, P, 3), or (N, 3) -> (N, 1, 3) for one point per transform
+            points_batch = points_batch[:, None] if batch_to_batch else points_batch[None]
         if points_batch.dim() != 3:
             msg = "Expected points to have dim = 2 or dim = 3: got shape %r"
             raise ValueError(msg % repr(points.shape))
@@ -332,19 +332,16 @@ class Transform3d:
         points_batch = torch.cat([points_batch, ones], dim=2)
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
-        if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
-        else:
-            points_out = _broadcast_bmm(points_batch, composed_matrix)
+        points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
         if eps is not None:
             denom_sign = denom.sign() + (denom == 0.0).type_as(denom)
             denom = denom_sign * torch.clamp(denom.abs(), eps)
         points_out = points_out[..., :3] / denom
 
-        # When transform is (1, 4, 4) and points is (P, 3) return
+        # When transform is (1, 4, 4) and points is (P, 3), or there is a transform for each point, return
         # points_out of shape (P, 3)
-        if points_out.shape[0] == 1 and points.dim() == 2:
+        if points.dim() == 2 and (batch_to_batch or points_out.shape[0] == 1):
             points_out = points_out.reshape(points.shape)
 
         return points_out
@@ -367,8 +364,9 @@ class Transform3d:
             raise ValueError(msg % (normals.shape,))
         mat = self.inverse().get_matrix()[:, :3, :3]
 
-        if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+        if batch_to_batch and normals.dim() == 2:
+            # (N, 3) -> (N, 1, 3), one normal per transform
+            normals_out = _broadcast_bmm(normals[:, None], mat)
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
@@ -377,9 +375,9 @@ class Transform3d:
         #     self._lu = self._matrix[:, :3, :3].transpose(1, 2).lu()
         # normals_out = normals.lu_solve(*self._lu)
 
-        # When transform is (1, 4, 4) and normals is (P, 3) return
+        # When transform is (1, 4, 4) and normals is (P, 3), or there is a transform for each normal, return
         # normals_out of shape (P, 3)
-        if normals_out.shape[0] == 1 and normals.dim() == 2:
+        if normals.dim() == 2 and (batch_to_batch or normals_out.shape[0] == 1):
             normals_out = normals_out.reshape(normals.shape)
 
         return normals_out
-- 
2.43.0


From 5cdb9fdef4d29218ab711401b02c76d6fdd31022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 33/47] fix: Transform3d accepts empty batches of rotations and
 positions

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 82f1947..2a84809 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -192,7 +192,7 @@ class Transform3d:
                 pos = torch.tensor(pos, dtype=dtype, device=device)
             if pos.ndim in (2, 3):
                 ones = ones.repeat(*pos.shape[:-1], 1)
-                if pos.ndim in (2, 3) and pos.shape[0] > 1 and self._matrix.shape[0] == 1:
+                if pos.ndim in (2, 3) and pos.shape[0] != 1 and self._matrix.shape[0] == 1:
                     self._matrix = self._matrix.repeat(pos.shape[0], 1, 1)
             pos_h = torch.cat((pos, ones), dim=-1).reshape(-1, 4, 1)
             self._matrix = torch.cat((self._matrix[:, :, :3], pos_h), dim=-1)
@@ -207,7 +207,7 @@ class Transform3d:
                 rot = euler_angles_to_matrix(rot, DEFAULT_EULER_CONVENTION)
             if rot.ndim == 3:
                 zeros = zeros.repeat(rot.shape[0], 1, 1)
-                if rot.shape[0] > 1 and self._matrix.shape[0] == 1:
+                if rot.shape[0] != 1 and self._matrix.shape[0] == 1:
                     self._matrix = self._matrix.repeat(rot.shape[0], 1, 1)
             rot_h = torch.cat((rot, zeros), dim=-2).reshape(-1, 4, 3)
             self._matrix = torch.cat((rot_h, self._matrix[:, :, 3].reshape(-1, 4, 1)), dim=-1)
-- 
2.43.0


From 244a3dafcbcf1638a473fa5ab2b50e028d60bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 34/47] fix: IK clamps each step also to limits that have only
 an upper bound

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 0ce9ce9..afffa6d 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -325,7 +325,7 @@ class InverseKinematics:
         self.debug = debug
         self.enforce_joint_limits = enforce_joint_limits
         self.num_limit_refinement_iterations = num_limit_refinement_iterations
-        self.clamp_to_limits = clamp_to_limits and torch.isfinite(serial_chain.low).any()
+        self.clamp_to_limits = clamp_to_limits and self._has_finite_limits()
         # precompute which joints are revolute (for 2*pi wrapping)
         joints = self.chain.get_joints(exclude_fixed=True)
         self._revolute_mask = torch.tensor([j.joint_type == 'revolute' for j in joints],
-- 
2.43.0


From ed023bb3730f386ada0bbee209d90efb5acf4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 35/47] fix: gradients of forward kinematics for an empty batch

---
 src/pytorch_kinematics/chain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index ab2bea8..e58340c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -153,10 +153,11 @@ class _FKAnalyticalBackward(torch.autograd.Function):
 
         # Weighted sums over descendant links via ancestor mask: (J, L) @ (L, B*3)
         L, B, _ = tau_link.shape
-        sum_tau = (dof_ancestor_mask @ tau_link.reshape(L, B * 3)).reshape(-1, B, 3)
-        sum_grad_t = (dof_ancestor_mask @ grad_t_link.reshape(L, B * 3)).reshape(-1, B, 3)
+        J = dof_ancestor_mask.shape[0]
+        sum_tau = (dof_ancestor_mask @ tau_link.reshape(L, B * 3)).reshape(J, B, 3)
+        sum_grad_t = (dof_ancestor_mask @ grad_t_link.reshape(L, B * 3)).reshape(J, B, 3)
         cross_t_grad = torch.cross(t_link, grad_t_link, dim=-1)
-        sum_cross = (dof_ancestor_mask @ cross_t_grad.reshape(L, B * 3)).reshape(-1, B, 3)
+        sum_cross = (dof_ancestor_mask @ cross_t_grad.reshape(L, B * 3)).reshape(J, B, 3)
 
         # Revolute: z_j · (sum_tau + sum_cross - o_j × sum_grad_t)
         rev_grad = (z_dof * (sum_tau + sum_cross - torch.cross(o_dof, sum_grad_t, dim=-1))).sum(dim=-1)
-- 
2.43.0


From 8c220d030a21e58f0af2ce047cf909d131f3be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:28 +0000
Subject: [PATCH 36/47] fix: readable form of robot descriptions on Python 3.10
 and later

collections.Iterable moved to collections.abc; printing any description that
has a list in it raised AttributeError.
---
 .../urdf_parser_py/xml_reflection/basics.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
index 60a0d44..1de428c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
@@ -1,6 +1,6 @@
 import string
 import yaml
-import collections
+import collections.abc
 from lxml import etree
 
 
@@ -68,7 +68,7 @@ def to_yaml(obj):
     elif hasattr(obj, 'tolist'):
         # For numpy objects
         out = to_yaml(obj.tolist())
-    elif isinstance(obj, collections.Iterable):
+    elif isinstance(obj, collections.abc.Iterable):
         out = [to_yaml(item) for item in obj]
     else:
         out = str(obj)
-- 
2.43.0


From f4bc0fe40a7af2cb9ed32eadde44feda974d7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 37/47] fix: boolean values of descriptions say what they say

bool('false') and bool('0') are True, so <use_parent_model_frame>false and
kinematic="0" were read as true.
---
 .../urdf_parser_py/xml_reflection/core.py       | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..30b4414 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -95,7 +95,9 @@ def make_type(cur_type):
         return ListType()
     elif issubclass(cur_type, Object):
         return ObjectType(cur_type)
-    elif cur_type in [str, float, bool]:
+    elif cur_type == bool:
+        return BoolType()
+    elif cur_type in [str, float]:
         return BasicType(cur_type)
     else:
         raise Exception("Invalid type: {}".format(cur_type))
@@ -156,6 +158,19 @@ class BasicType(ValueType):
         return self.type(value)
 
 
+class BoolType(ValueType):
+    def to_string(self, value):
+        return 'true' if value else 'false'
+
+    def from_string(self, value):
+        text = value.strip().lower()
+        if text in ('true', '1'):
+            return True
+        if text in ('false', '0'):
+            return False
+        raise ValueError("Invalid boolean: {}".format(value))
+
+
 class ListType(ValueType):
     def to_string(self, values):
         return ' '.join(values)
-- 
2.43.0


From 55c4aa31171ee9011ae3a328826ca7a8e3345a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 38/47] fix: SDF links without inertia and joints without an
 axis are read

The format makes both optional; a fixed joint has no axis to give.
---
 src/pytorch_kinematics/sdf.py                | 4 +++-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index a103185..34d76bc 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -58,8 +58,10 @@ def _build_chain_recurse(root_frame, lmap, joints):
                           math.inf if j.axis.limit.upper is None else j.axis.limit.upper)
             except AttributeError:
                 limits = None
+            # a joint without motion needs no axis
+            axis = (0.0, 0.0, 1.0) if j.axis is None else j.axis.xyz
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=axis, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..a80ab34 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
@@ -255,7 +255,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From 9308d5865492708df005da8b6f900c40137e8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 39/47] fix: writing a description does not empty its
 extensions

The children of a raw element were moved into the written document, so a
second to_xml_string() gave empty <gazebo> elements.
---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 30b4414..de14808 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -213,7 +213,8 @@ class RawType(ValueType):
         # @todo rying to insert an element at root level seems to screw up
         # pretty printing
         children = xml_children(value)
-        list(map(node.append, children))
+        # appending an element takes it out of where it was
+        list(map(node.append, map(copy.deepcopy, children)))
         # Copy attributes
         for (attrib_key, attrib_value) in value.attrib.items():
             node.set(attrib_key, attrib_value)
-- 
2.43.0


From f2a8a027d1b803724dcdce69b52a7039c983dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 40/47] fix: values given to the constructors of description
 objects are kept

Color with three numbers raised (and one list was extended in place),
Actuator dropped its reduction, Link its visual and collision.
---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 65a7046..0b3ce2e 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -51,9 +51,9 @@ class Color(xmlr.Object):
         # What about named colors?
         count = len(args)
         if count == 4 or count == 3:
-            self.rgba = args
+            self.rgba = list(args)
         elif count == 1:
-            self.rgba = args[0]
+            self.rgba = list(args[0])
         elif count == 0:
             self.rgba = None
         if self.rgba is not None:
@@ -369,6 +369,10 @@ class Link(xmlr.Object):
         self.inertial = inertial
         self.collisions = []
         self.origin = origin
+        if visual is not None:
+            self.add_aggregate('visual', visual)
+        if collision is not None:
+            self.add_aggregate('collision', collision)
 
     def __get_visual(self):
         """Return the first visual or None."""
@@ -430,7 +434,7 @@ xmlr.reflect(PR2Transmission, tag='pr2_transmission', params=[
 class Actuator(xmlr.Object):
     def __init__(self, name=None, mechanicalReduction=1):
         self.name = name
-        self.mechanicalReduction = None
+        self.mechanicalReduction = mechanicalReduction
 
 
 xmlr.reflect(Actuator, tag='actuator', params=[
-- 
2.43.0


From f0b3a6c49e045cf307867d27dc96eac2a9101f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 41/47] fix: a visual or collision set on a link is the one
 written

Setting Link.visual changed the list of visuals but not what is written, so
the old one (or none) came out.
---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 0b3ce2e..c3ff4f5 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -381,10 +381,7 @@ class Link(xmlr.Object):
 
     def __set_visual(self, visual):
         """Set the first visual."""
-        if self.visuals:
-            self.visuals[0] = visual
-        else:
-            self.visuals.append(visual)
+        self.__set_first('visual', visual)
 
     def __get_collision(self):
         """Return the first collision or None."""
@@ -393,10 +390,22 @@ class Link(xmlr.Object):
 
     def __set_collision(self, collision):
         """Set the first collision."""
-        if self.collisions:
-            self.collisions[0] = collision
+        self.__set_first('collision', collision)
+
+    def __set_first(self, xml_var, value):
+        values = self.get_aggregate_list(xml_var)
+        if value is None:
+            if values:
+                self.remove_aggregate(values[0])
+        elif values:
+            old = values[0]
+            values[0] = value
+            # what is written follows the order in which parts were added
+            self.aggregate_order[self.aggregate_order.index(old)] = value
+            del self.aggregate_type[old]
+            self.aggregate_type[value] = xml_var
         else:
-            self.collisions.append(collision)
+            self.add_aggregate(xml_var, value)
 
     # Properties for backwards compatibility
     visual = property(__get_visual, __set_visual)
-- 
2.43.0


From ef91135caac7d114eae8440fbdf893b6ddde23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 42/47] fix: lumping the parts of a description together

lump_aggregates added to the list it went through and asked for the list by
the wrong name, so it always raised.
---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index de14808..12f0ee2 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -676,7 +676,8 @@ class Object(YamlReflection):
         self.aggregate_init()
         for param in self.XML_REFL.aggregates:
             for obj in self.get_aggregate_list(param.xml_var):
-                self.add_aggregate(param.var, obj)
+                self.aggregate_order.append(obj)
+                self.aggregate_type[obj] = param.xml_var
 
     """ Compatibility """
 
-- 
2.43.0


From 443449bc6589903c0d1c1985d40a97646af51b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 43/47] fix: a removed link or joint is no longer found in the
 description

remove_aggregate left it in the maps that get_root and get_chain go by.
---
 src/pytorch_kinematics/urdf_parser_py/sdf.py  | 11 +++++++++++
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index a80ab34..892662c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -291,6 +291,17 @@ class Model(xmlr.Object):
             link = elem
             self.link_map[link.name] = link
 
+    def remove_aggregate(self, obj):
+        xmlr.Object.remove_aggregate(self, obj)
+
+        # without what came from the removed element
+        self.joint_map = {joint.name: joint for joint in self.joints}
+        self.link_map = {link.name: link for link in self.links}
+        self.parent_map = {joint.child: (joint.name, joint.parent) for joint in self.joints}
+        self.child_map = {}
+        for joint in self.joints:
+            self.child_map.setdefault(joint.parent, []).append((joint.name, joint.child))
+
     def add_link(self, link):
         self.add_aggregate('link', link)
 
diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index c3ff4f5..c31e386 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -526,6 +526,17 @@ class Robot(xmlr.Object):
             link = elem
             self.link_map[link.name] = link
 
+    def remove_aggregate(self, obj):
+        xmlr.Object.remove_aggregate(self, obj)
+
+        # without what came from the removed element
+        self.joint_map = {joint.name: joint for joint in self.joints}
+        self.link_map = {link.name: link for link in self.links}
+        self.parent_map = {joint.child: (joint.name, joint.parent) for joint in self.joints}
+        self.child_map = {}
+        for joint in self.joints:
+            self.child_map.setdefault(joint.parent, []).append((joint.name, joint.child))
+
     def add_link(self, link):
         self.add_aggregate('link', link)
 
-- 
2.43.0


From 55637902fb436c7f95698034120c527f01c042a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:12 +0000
Subject: [PATCH 44/47] fix: Euler angles of matrices at and beyond gimbal lock

With the middle angle at its limit the first and third angles were taken from
entries that are only rounding, independently of each other, so the angles
stood for another rotation; an entry rounded beyond 1 gave NaN.
---
 .../transforms/rotation_conversions.py        | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index d5037e2..6e3e4f4 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -272,23 +272,19 @@ def matrix_to_euler_angles(matrix, convention: str):
     i0 = _index_from_letter(convention[0])
     i2 = _index_from_letter(convention[2])
     tait_bryan = i0 != i2
-    if tait_bryan:
-        central_angle = torch.asin(
-            matrix[..., i0, i2] * (-1.0 if i0 - i2 in [-1, 2] else 1.0)
-        )
-    else:
-        central_angle = torch.acos(matrix[..., i0, i0])
-
-    o = (
-        _angle_from_tan(
-            convention[0], convention[1], matrix[..., i2], False, tait_bryan
-        ),
-        central_angle,
-        _angle_from_tan(
-            convention[2], convention[1], matrix[..., i0, :], True, tait_bryan
-        ),
+    first_angle = _angle_from_tan(
+        convention[0], convention[1], matrix[..., i2], False, tait_bryan
     )
-    return torch.stack(o, -1)
+    # The other two angles are those of what remains after undoing the first rotation. When the first and third
+    # axes coincide (gimbal lock) the first angle is arbitrary, and only this way do the three fit together; the
+    # middle angle from its sine and cosine also tolerates entries that rounding has put beyond 1.
+    rest = torch.matmul(_axis_angle_rotation(convention[0], first_angle).transpose(-1, -2), matrix)
+    i1 = _index_from_letter(convention[1])
+    other = 3 - i1 - i2
+    sign = 1.0 if (i2 - i1) % 3 == 1 else -1.0
+    central_angle = torch.atan2(sign * rest[..., other, i2], rest[..., i2, i2])
+    third_angle = torch.atan2(sign * rest[..., i1, other], rest[..., i1, i1])
+    return torch.stack((first_angle, central_angle, third_angle), -1)
 
 
 def random_quaternions(
-- 
2.43.0


From 1158541a28a5a79f5a70b2ee563a8b596f63b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:07 +0000
Subject: [PATCH 45/47] fix: descriptions can be loaded for the first time in
 several threads at once

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 12f0ee2..aad4108 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -73,8 +73,9 @@ def get_type(cur_type):
         # Try again, in 'global' scope
         value_type = value_types.get(cur_type)
     if value_type is None:
-        value_type = make_type(cur_type)
-        add_type(cur_type, value_type)
+        key = value_type_prefix + cur_type if isinstance(cur_type, str) else cur_type
+        # another thread may be making the same type
+        value_type = value_types.setdefault(key, make_type(cur_type))
     return value_type
 
 
-- 
2.43.0


From 5ee8690e8df864db64f4e4862e2310cd5645dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:50 +0000
Subject: [PATCH 46/47] fix: a refused conversion leaves the chain as it was

---
 src/pytorch_kinematics/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index e58340c..c0a1d3e 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -349,13 +349,15 @@ class Chain:
         self._dof_is_revolute = (jt == 1)  # (n_joints,)
 
     def to(self, dtype=None, device=None):
+        # refuses a dtype or device that can't be had before anything is changed
+        self.identity = self.identity.to(device=self.device if device is None else device,
+                                         dtype=self.dtype if dtype is None else dtype)
         if dtype is not None:
             self.dtype = dtype
         if device is not None:
             self.device = device
         self._root = self._root.to(dtype=self.dtype, device=self.device)
 
-        self.identity = self.identity.to(device=self.device, dtype=self.dtype)
         self.parents_indices = [p.to(dtype=torch.long, device=self.device) for p in self.parents_indices]
         self.joint_type_indices = self.joint_type_indices.to(dtype=torch.long, device=self.device)
         self.joint_indices = self.joint_indices.to(dtype=torch.long, device=self.device)
-- 
2.43.0


From 802fa1cb3757dbd7a95be5c6e9d2310945fd3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:50 +0000
Subject: [PATCH 47/47] fix: frame indices can be given as a list, as
 documented

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index c0a1d3e..67d2ac8 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -574,7 +574,7 @@ class Chain:
 
         all_transforms = self.forward_kinematics_tensor(th)
 
-        return {self.idx_to_frame[fi.item()]: tf.Transform3d(matrix=all_transforms[fi])
+        return {self.idx_to_frame[int(fi)]: tf.Transform3d(matrix=all_transforms[fi])
                 for fi in frame_indices}
 
     def ensure_tensor(self, th):
-- 
2.43.0

