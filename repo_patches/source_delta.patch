From 5d40691d3527931973650b146e4dac87f830519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 01/57] fix: quaternion_from_euler no longer halves the
 caller's angles in place

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..7eed3c1 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,10 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    # not in place: these may be views of the caller's tensor
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From 8af666861ffd012c5c2c12cba2ca2653bc683290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 02/57] fix: quaternion_slerp leaves its inputs alone and
 treats each pair of a batch separately

---
 src/pytorch_kinematics/transforms/math.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..b6867c9 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -60,21 +60,20 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
     to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    q2 = torch.where(to_invert.unsqueeze(-1), -q2, q2)
+    cos_theta = torch.abs(cos_theta)
 
-    # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
+    # If the quaternions are close, perform a linear interpolation (decided for each pair separately)
+    close = cos_theta > 1.0 - 1e-6
 
     # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    theta = torch.acos(torch.where(close, torch.zeros_like(cos_theta), cos_theta))
     sin_theta = torch.sin(theta)
 
     # Perform the interpolation
-    w1 = torch.sin((1.0 - t) * theta) / sin_theta
-    w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    w1 = torch.where(close, torch.ones_like(theta) - t, torch.sin((1.0 - t) * theta) / sin_theta)
+    w2 = torch.where(close, torch.zeros_like(theta) + t, torch.sin(t * theta) / sin_theta)
+    return w1.unsqueeze(-1) * q1 + w2.unsqueeze(-1) * q2
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From 0c6018c263d22e47c00341fb96c22da483aa428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 03/57] fix: quaternion_angular_distance of a pair no longer
 depends on the rest of the batch

---
 src/pytorch_kinematics/transforms/math.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index b6867c9..9886d82 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -30,9 +30,9 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
     theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
 
     # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
-    theta[close] = 0
-    return theta
+    # (decided for each pair separately, with the same threshold as quaternion_close)
+    close = 1 - torch.square(cos_theta) < 1e-4
+    return torch.where(close, torch.zeros_like(theta), theta)
 
 
 def quaternion_close(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
-- 
2.43.0


From 10a0aaf1000651c9fae0826f4955379aec17ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 04/57] fix: axis-angle/quaternion conversions have finite
 gradients at the identity

---
 .../transforms/rotation_conversions.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 7eed3c1..796f35d 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -578,9 +578,11 @@ def axis_angle_to_quaternion(axis_angle):
     eps = 1e-6
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
+    small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # the denominator must not be zero even where this is not selected, or the gradient is NaN
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     quaternions = torch.cat(
         [torch.cos(half_angles), axis_angle * sin_half_angles_over_angles], dim=-1
     )
@@ -607,9 +609,11 @@ def quaternion_to_axis_angle(quaternions):
     eps = 1e-6
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
+    small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # the denominator must not be zero even where this is not selected, or the gradient is NaN
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 76a8ef6ae719cea74f3ae329b0db4f3586961a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 05/57] fix: unlimited MJCF joints have no limits instead of
 (0, 0)

---
 src/pytorch_kinematics/mjcf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..9337f28 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -38,9 +38,11 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
                 joint_offset = tf.Transform3d(pos=joint.pos)
+                # the range of an unlimited joint is meaningless (usually 0 0)
+                limits = (joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=limits)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From a841241fac5954c78fba56fc0286b95a3160191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 06/57] fix: unnamed MJCF bodies, joints and sites get unique
 names instead of sharing one

---
 src/pytorch_kinematics/mjcf.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 9337f28..cd2ccee 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -25,12 +25,18 @@ def body_to_geoms(m: mujoco.MjModel, body: MjModelBodyViews):
     return visuals
 
 
+def _unique_name(kind, element):
+    # names are optional in MJCF, but frames and joints are looked up by their name
+    return element.name or f"unnamed_{kind}_{element.id}"
+
+
 def _build_chain_recurse(m, parent_frame, parent_body):
     parent_frame.link.visuals = body_to_geoms(m, parent_body)
     # iterate through all bodies that are children of parent_body
     for body_id in range(m.nbody):
         body = m.body(body_id)
         if body.parentid == parent_body.id and body_id != parent_body.id:
+            body_name = _unique_name("body", body)
             n_joints = body.jntnum
             if n_joints > 1:
                 raise ValueError("composite joints not supported (could implement this if needed)")
@@ -40,13 +46,13 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 # the range of an unlimited joint is meaningless (usually 0 0)
                 limits = (joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None
-                child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
+                child_joint = frame.Joint(_unique_name("joint", joint), offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
                                           limits=limits)
             else:
-                child_joint = frame.Joint(body.name + "_fixed_joint")
-            child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-            child_frame = frame.Frame(name=body.name, link=child_link, joint=child_joint)
+                child_joint = frame.Joint(body_name + "_fixed_joint")
+            child_link = frame.Link(body_name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
+            child_frame = frame.Frame(name=body_name, link=child_link, joint=child_joint)
             parent_frame.children = parent_frame.children + [child_frame, ]
             _build_chain_recurse(m, child_frame, body)
 
@@ -54,8 +60,9 @@ def _build_chain_recurse(m, parent_frame, parent_body):
     for site_id in range(m.nsite):
         site = m.site(site_id)
         if site.bodyid == parent_body.id:
-            site_link = frame.Link(site.name, offset=tf.Transform3d(rot=site.quat, pos=site.pos))
-            site_frame = frame.Frame(name=site.name, link=site_link)
+            site_name = _unique_name("site", site)
+            site_link = frame.Link(site_name, offset=tf.Transform3d(rot=site.quat, pos=site.pos))
+            site_frame = frame.Frame(name=site_name, link=site_link)
             parent_frame.children = parent_frame.children + [site_frame, ]
 
 
@@ -80,8 +87,9 @@ def build_chain_from_mjcf(data, body: Union[None, str, int] = None, assets:Optio
         root_body = m.body(0)
     else:
         root_body = m.body(body)
-    root_frame = frame.Frame(root_body.name,
-                             link=frame.Link(root_body.name,
+    root_name = _unique_name("body", root_body)
+    root_frame = frame.Frame(root_name,
+                             link=frame.Link(root_name,
                                              offset=tf.Transform3d(rot=root_body.quat, pos=root_body.pos)),
                              joint=frame.Joint())
     _build_chain_recurse(m, root_frame, root_body)
-- 
2.43.0


From e421f7ab96d7918746f2711af64cbae991e92e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 07/57] fix: continuous URDF joints with a velocity/effort
 limit have no position limits

---
 src/pytorch_kinematics/urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..9ca933b 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -49,6 +49,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
+            if j.type == 'continuous':
+                # unbounded by definition; its <limit> only gives velocity and effort
+                limits = None
             # URDF assumes symmetric velocity and effort limits
             try:
                 velocity_limits = (-j.limit.velocity, j.limit.velocity)
-- 
2.43.0


From 0a33292b141bc83165a2e0df39801645147e6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 08/57] fix: URDF and SDF descriptions without joints load as a
 single frame

---
 src/pytorch_kinematics/sdf.py  | 2 ++
 src/pytorch_kinematics/urdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..ee14e7b 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -90,6 +90,8 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 9ca933b..30579ed 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -115,6 +115,8 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From c7034122551ce678b00c88dcbb5237990238660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 09/57] fix: SDF poses apply roll about x and yaw about z

---
 src/pytorch_kinematics/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index ee14e7b..5b13f45 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,9 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        # SDF gives fixed-axis roll, pitch, yaw: R = Rz(yaw) Ry(pitch) Rx(roll)
+        roll, pitch, yaw = pose[3:]
+        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor([yaw, pitch, roll]), "ZYX"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From f14078c2980c479b578c6ea5524ad6fa41bebd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 10/57] fix: SDF joint limits with an omitted bound are
 unbounded on that side

---
 src/pytorch_kinematics/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 5b13f45..ed133b9 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -54,7 +54,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
             t_p = _convert_transform(link_p.pose)
             t_c = _convert_transform(link_c.pose)
             try:
-                limits = (j.axis.limit.lower, j.axis.limit.upper)
+                lower, upper = j.axis.limit.lower, j.axis.limit.upper
+                # either bound may be omitted
+                limits = (-math.inf if lower is None else lower, math.inf if upper is None else upper)
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-- 
2.43.0


From 15c83c84ae736c73f3f71049c1cc1ed2509c00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 11/57] fix: SDF fixed joints do not need an axis

---
 src/pytorch_kinematics/sdf.py                | 4 +++-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index ed133b9..39d4293 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -59,8 +59,10 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (-math.inf if lower is None else lower, math.inf if upper is None else upper)
             except AttributeError:
                 limits = None
+            if j.axis is None and j.type != 'fixed':
+                raise ValueError("joint %s of type %s has no axis" % (j.name, j.type))
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=None if j.axis is None else j.axis.xyz, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..ee45c3a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
-- 
2.43.0


From cf2faf9313d24dbbc32516ec534284363920937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 12/57] fix: IK joint limit wrapping leaves joints without
 finite limits alone instead of making them NaN

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..9c27bb9 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,8 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # joints without two finite limits have no center to wrap towards
+        n = torch.where(torch.isfinite(center), n, torch.zeros_like(n))
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From 2ec0e6103f64e61df0a48a19c36d269ac94a0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 13/57] fix: IKSolution.converged_pos and converged_rot
 describe the stored solution

---
 src/pytorch_kinematics/ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 9c27bb9..6f1b9f1 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -190,8 +190,9 @@ class IKSolution:
         self.solutions = torch.where(not_converged_dof, qq, self.solutions)
         self.err_pos = torch.where(not_converged, err_pos, self.err_pos)
         self.err_rot = torch.where(not_converged, err_rot, self.err_rot)
-        self.converged_pos = self.converged_pos | converged_pos
-        self.converged_rot = self.converged_rot | converged_rot
+        # these describe the stored solutions, so they are overwritten together with them
+        self.converged_pos = torch.where(not_converged, converged_pos, self.converged_pos)
+        self.converged_rot = torch.where(not_converged, converged_rot, self.converged_rot)
         self.converged = self.converged | converged
         self.converged_any = self.converged_any | converged_any
 
-- 
2.43.0


From 3ac6b2af1d7e62555cfb6038912710b830b1542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 14/57] fix: IK accepts a batch of retry configs, one set per
 problem

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 6f1b9f1..f3afe15 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -361,7 +361,7 @@ class InverseKinematics:
         if retry_configs is None:
             self.initial_config = self.sample_configs(num_retries)
         else:
-            if retry_configs.shape[1] != self.dof:
+            if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
-- 
2.43.0


From e0fa8ea87d7ca21cc6d03fc7d75e2dda0a173301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 15/57] fix: IK works in the dtype of the chain

---
 src/pytorch_kinematics/ik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index f3afe15..88d9e87 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -363,6 +363,7 @@ class InverseKinematics:
         else:
             if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
+        self.initial_config = self.initial_config.to(device=self.device, dtype=self.dtype)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
 
@@ -377,10 +378,10 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
+            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (
                     self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, device=self.device, dtype=self.dtype)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
@@ -460,7 +461,7 @@ class PseudoInverseIK(InverseKinematics):
     def solve(self, target_poses: Transform3d) -> IKSolution:
         self.clear()
 
-        target = target_poses.get_matrix()
+        target = target_poses.get_matrix().to(device=self.device, dtype=self.dtype)
 
         M = target.shape[0]
 
-- 
2.43.0


From d2540ebce7ac12cfd3dcf55476eb20fe7e3f91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 16/57] fix: SerialChain.forward_kinematics accepts a dict of
 unbatched joint values

---
 src/pytorch_kinematics/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..718fbd7 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,8 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        # scalars are not batched
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
@@ -211,6 +212,8 @@ def ensure_2d_tensor(th, dtype, device):
 
 
 def get_dict_elem_shape(th_dict):
+    if len(th_dict) == 0:
+        return ()
     elem = th_dict[list(th_dict.keys())[0]]
     if isinstance(elem, np.ndarray):
         return elem.shape
-- 
2.43.0


From 62c39638680959e68d2f1cbcc507524cd5c504e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 17/57] fix: SerialChain.jacobian accepts a dict of joint
 values, as documented

---
 src/pytorch_kinematics/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 718fbd7..bce6d80 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -772,7 +772,9 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
+        if isinstance(th, dict):
+            th = self.ensure_tensor(th)
+        elif not torch.is_tensor(th):
             th = torch.tensor(th, dtype=self.dtype, device=self.device)
         if len(th.shape) <= 1:
             th = th.reshape(1, -1)
-- 
2.43.0


From 564902c8bdd98eebe79bb29a0e38998a251f6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 18/57] fix: get_joints(exclude_fixed=False) includes the fixed
 joints

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index bce6d80..b5cb137 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -410,10 +410,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From f068de0285a2b88781e5c6c7b5c74445aff0f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 19/57] fix: Frame keeps the children it is given

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From 3fe113dd2b882164339668e2b3b56234ba1d5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 20/57] fix: SerialChain can be extracted from a chain of any
 dtype

---
 src/pytorch_kinematics/chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index b5cb137..bb50703 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -277,12 +277,12 @@ class Chain:
             if root.link.offset is None:
                 self.link_offsets.append(None)
             else:
-                self.link_offsets.append(root.link.offset.get_matrix())
+                self.link_offsets.append(root.link.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if root.joint.offset is None:
                 self.joint_offsets.append(None)
             else:
-                self.joint_offsets.append(root.joint.offset.get_matrix())
+                self.joint_offsets.append(root.joint.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if is_fixed:
                 self.joint_indices.append(-1)
@@ -660,6 +660,8 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        # stay on the dtype and device of the chain this is extracted from, unless told otherwise
+        kwargs = {"dtype": chain.dtype, "device": chain.device, **kwargs}
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From aacbb19b2e0a459d40526fafebbdfc97897a4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 21/57] fix: changing a returned name list or index tensor no
 longer changes the chain

---
 src/pytorch_kinematics/chain.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index bb50703..3a7b292 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -420,8 +420,12 @@ class Chain:
         joints = self._get_joints(self._root, exclude_fixed=exclude_fixed)
         return joints
 
-    @lru_cache()
     def get_joint_parameter_names(self, exclude_fixed=True):
+        # a copy, since changing the cached list would change the joint order of this chain
+        return list(self._get_joint_parameter_names(exclude_fixed))
+
+    @lru_cache()
+    def _get_joint_parameter_names(self, exclude_fixed=True):
         names = []
         for j in self.get_joints(exclude_fixed=exclude_fixed):
             if exclude_fixed and j.joint_type == 'fixed':
@@ -497,8 +501,12 @@ class Chain:
         names = self._get_link_names(self._root)
         return sorted(set(names), key=names.index)
 
-    @lru_cache
     def get_frame_indices(self, *frame_names):
+        # a copy, since changing the cached tensor would change what these names refer to
+        return self._get_frame_indices(*frame_names).clone()
+
+    @lru_cache
+    def _get_frame_indices(self, *frame_names):
         return torch.tensor([self.frame_to_idx[n] for n in frame_names], dtype=torch.long, device=self.device)
 
     def print_tree(self, do_print=True):
-- 
2.43.0


From fbfd939d263eed20ef2bb3c8ce331377c0b9763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 22/57] fix: Transform3d.inverse inverts transforms that
 include scaling

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..1edd0ac 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -269,7 +269,8 @@ class Transform3d:
         Tinv = T.clone()
         R = T[:, :3, :3]
         t = T[:, :3, 3]
-        Tinv[:, :3, :3] = R.transpose(1, 2)
+        # not the transpose, since the transform may include scaling
+        Tinv[:, :3, :3] = torch.linalg.inv_ex(R).inverse
         Tinv[:, :3, 3:] = -Tinv[:, :3, :3] @ t.unsqueeze(-1)
         return Tinv
 
-- 
2.43.0


From e98869ecfa075314b140840d9096f8528e219b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 23/57] fix: Translate, Scale and Rotate have the dtype of
 their matrix

---
 src/pytorch_kinematics/transforms/transform3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 1edd0ac..65861ef 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -490,7 +490,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -527,7 +527,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -562,7 +562,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
-- 
2.43.0


From ffd4bf26475ee8143573813bb743c53703cdb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 24/57] fix: translate, scale and rotate keep the precision of
 the transform

---
 src/pytorch_kinematics/transforms/transform3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 65861ef..a900a0f 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -410,13 +410,13 @@ class Transform3d:
         return shape_operators_out
 
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(Translate(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(Scale(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(Rotate(*args, **{"device": self.device, "dtype": self.dtype, **kwargs}))
 
     def rotate_axis_angle(self, *args, **kwargs):
         return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
-- 
2.43.0


From b4040d27ed4c38c3fdfb95714e349bcf621efdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 25/57] fix: matrix_to_euler_angles is finite when rounding
 leaves an entry outside of [-1, 1]

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 796f35d..731d218 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -274,10 +274,11 @@ def matrix_to_euler_angles(matrix, convention: str):
     tait_bryan = i0 != i2
     if tait_bryan:
         central_angle = torch.asin(
-            matrix[..., i0, i2] * (-1.0 if i0 - i2 in [-1, 2] else 1.0)
+            # rounding can leave this slightly outside of [-1, 1]
+            torch.clamp(matrix[..., i0, i2], -1.0, 1.0) * (-1.0 if i0 - i2 in [-1, 2] else 1.0)
         )
     else:
-        central_angle = torch.acos(matrix[..., i0, i0])
+        central_angle = torch.acos(torch.clamp(matrix[..., i0, i0], -1.0, 1.0))
 
     o = (
         _angle_from_tan(
-- 
2.43.0


From 09537abba1d229cc0bf1b1ffd4f3e6fd827a321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 26/57] fix: IKSolution.converged_pos_any and converged_rot_any
 are updated

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 88d9e87..a3e8fd7 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -194,6 +194,8 @@ class IKSolution:
         self.converged_pos = torch.where(not_converged, converged_pos, self.converged_pos)
         self.converged_rot = torch.where(not_converged, converged_rot, self.converged_rot)
         self.converged = self.converged | converged
+        self.converged_pos_any = self.converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot.any(dim=1)
         self.converged_any = self.converged_any | converged_any
 
         return converged_any
-- 
2.43.0


From b0218e3a5a486d4bde51bd939826d2ce4e37499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 27/57] fix: forward kinematics and Jacobians refuse a wrong
 number of joint values

---
 src/pytorch_kinematics/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 3a7b292..20a6101 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -532,6 +532,9 @@ class Chain:
 
         Returns: (num_frames, B, 4, 4) tensor of all frame transforms
         """
+        if th.shape[-1] != self.n_joints:
+            # a single value would otherwise be broadcast to all joints
+            raise ValueError(f'Expected {self.n_joints} joint values, got {th.shape[-1]}.')
         if th.requires_grad and analytical_grad:
             # Compute FK on detached th (no autograd graph needed for forward)
             T_world_link = _fk_impl(
-- 
2.43.0


From 31b8896c1aa10fe0a47b96dc2b46d0b92e0e2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 28/57] fix: batch_to_batch transforms each point or normal by
 its own transform

---
 .../transforms/transform3d.py                   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index a900a0f..14b0f08 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -10,7 +10,6 @@ import torch
 from .rotation_conversions import _axis_angle_rotation, matrix_to_quaternion, quaternion_to_matrix, \
     euler_angles_to_matrix
 from pytorch_kinematics.transforms.perturbation import sample_perturbations
-from arm_pytorch_utilities import linalg
 
 DEFAULT_EULER_CONVENTION = "XYZ"
 
@@ -320,6 +319,9 @@ class Transform3d:
             points_out: points of shape (N, P, 3) or (P, 3) depending
             on the dimensions of the transform
         """
+        if batch_to_batch and points.dim() == 2:
+            # one point per transform
+            return self.transform_points(points.unsqueeze(1), eps=eps).squeeze(1)
         points_batch = points
         if points_batch.dim() == 2:
             points_batch = points_batch[None]  # (P, 3) -> (1, P, 3)
@@ -332,10 +334,7 @@ class Transform3d:
         points_batch = torch.cat([points_batch, ones], dim=2)
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
-        if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
-        else:
-            points_out = _broadcast_bmm(points_batch, composed_matrix)
+        points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
         if eps is not None:
             denom_sign = denom.sign() + (denom == 0.0).type_as(denom)
@@ -365,12 +364,12 @@ class Transform3d:
         if normals.dim() not in [2, 3]:
             msg = "Expected normals to have dim = 2 or dim = 3: got shape %r"
             raise ValueError(msg % (normals.shape,))
+        if batch_to_batch and normals.dim() == 2:
+            # one normal per transform
+            return self.transform_normals(normals.unsqueeze(1)).squeeze(1)
         mat = self.inverse().get_matrix()[:, :3, :3]
 
-        if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
-        else:
-            normals_out = _broadcast_bmm(normals, mat)
+        normals_out = _broadcast_bmm(normals, mat)
 
         # This doesn't pass unit tests. TODO investigate further
         # if self._lu is None:
-- 
2.43.0


From b373c6b0c93d6b601ee22a07a2219e1da25a8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 29/57] fix: transform_shape_operator accepts (N, P, 3, 3), as
 documented

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 14b0f08..4080441 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -399,6 +399,9 @@ class Transform3d:
             msg = "Expected shape_operators to have dim = 3 or dim = 4: got shape %r"
             raise ValueError(msg % (shape_operators.shape,))
         mat = self.inverse().get_matrix()[:, :3, :3]
+        if shape_operators.dim() == 4:
+            mat = mat.unsqueeze(1)
+            return mat.transpose(-1, -2) @ shape_operators @ mat
         shape_operators_out = _broadcast_bmm(mat.permute(0, 2, 1), _broadcast_bmm(shape_operators, mat))
 
         # When transform is (1, 4, 4) and shape_operator is (P, 3, 3) return
-- 
2.43.0


From 13174542a37c83404715ab4b932d2f38080d134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 30/57] fix: joint values can be a dict of numpy arrays

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 20a6101..e703f54 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -594,7 +594,7 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
-                th[..., jnt_idx] = joint_position
+                th[..., jnt_idx] = torch.as_tensor(joint_position, device=self.device, dtype=self.dtype)
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
                 for joint_name, th_i in zip(self.get_joint_parameter_names(), th):
-- 
2.43.0


From aa967153a923dc5546c00e5bc6c8e7d54349be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 31/57] fix: PseudoInverseIKWithSVD works for robots with fewer
 than 6 joints

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index a3e8fd7..25a7ed9 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -123,7 +123,9 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     denom = D ** 2 + regularization
     prod = D / denom
     inverted = torch.diag_embed(prod)
+    # only as many singular vectors as singular values (fewer than 6 for robots with fewer than 6 joints)
     Vh = Vh[:, :m_sv, :]
+    U = U[:, :, :m_sv]
     total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
     dq = total @ dx_w
     return dq, dx
-- 
2.43.0


From 5fbab0dea726a4776dc5b9116514975f973e15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 32/57] fix: Transform3d.to(copy=True) does not share its
 matrix with the original

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 4080441..bbb71e6 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -467,7 +467,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From 6e6aecab3934da7e70b5e617b8df163d234e0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 33/57] fix: refuse URDF and SDF joints that refer to missing
 links

---
 src/pytorch_kinematics/sdf.py  | 4 ++++
 src/pytorch_kinematics/urdf.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 39d4293..1a286af 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -88,6 +88,10 @@ def build_chain_from_sdf(data):
     robot = sdf.model
     lmap = robot.link_map
     joints = robot.joints
+    for j in joints:
+        for link_name in (j.parent, j.child):
+            if link_name not in lmap:
+                raise ValueError("joint %s refers to link %s, which does not exist" % (j.name, link_name))
     n_joints = len(joints)
     has_root = [True for _ in range(len(joints))]
     for i in range(n_joints):
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 30579ed..e2b506f 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -107,6 +107,10 @@ def build_chain_from_urdf(data):
     robot = URDF.from_xml_string(data)
     lmap = robot.link_map
     joints = robot.joints
+    for j in joints:
+        for link_name in (j.parent, j.child):
+            if link_name not in lmap:
+                raise ValueError("joint %s refers to link %s, which does not exist" % (j.name, link_name))
     n_joints = len(joints)
     has_root = [True for _ in range(len(joints))]
     for i in range(n_joints):
-- 
2.43.0


From 37109e8bd1ab0c9898e7a86a7b3b2d1220674dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 34/57] fix: URDF capsule visuals keep their shape

---
 src/pytorch_kinematics/urdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index e2b506f..0127798 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -1,4 +1,4 @@
-from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere
+from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere, Capsule
 from . import frame
 from . import chain
 import torch
@@ -29,6 +29,9 @@ def _convert_visual(visual):
         elif isinstance(visual.geometry, Cylinder):
             g_type = "cylinder"
             g_param = (visual.geometry.radius, visual.geometry.length)
+        elif isinstance(visual.geometry, Capsule):
+            g_type = "capsule"
+            g_param = (visual.geometry.radius, visual.geometry.length)
         elif isinstance(visual.geometry, Box):
             g_type = "box"
             g_param = visual.geometry.size
-- 
2.43.0


From bc96c225e3b4a1c23c923f64c73fa5e5b19a7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 35/57] fix: refuse SDF links and joints without a name

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index ee45c3a..8603822 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -6,6 +6,7 @@ from . import xml_reflection as xmlr
 xmlr.start_namespace('sdf')
 
 name_attribute = xmlr.Attribute('name', str, False)
+required_name_attribute = xmlr.Attribute('name', str)
 pose_element = xmlr.Element('pose', 'vector6', False)
 
 
@@ -233,7 +234,7 @@ class Joint(xmlr.Object):
 
 
 xmlr.reflect(Joint, tag='joint', params=[
-    name_attribute,
+    required_name_attribute,
     xmlr.Attribute('type', str, False),
     xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
@@ -254,7 +255,7 @@ class Link(xmlr.Object):
 
 
 xmlr.reflect(Link, tag='link', params=[
-    name_attribute,
+    required_name_attribute,
     xmlr.Element('inertial', Inertial),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
-- 
2.43.0


From 77de54acc7ce3ea06ab139be3dac4eacfb67c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 36/57] fix: quaternion_to_axis_angle is accurate near w = -1

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 731d218..32dcda4 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -612,10 +612,12 @@ def quaternion_to_axis_angle(quaternions):
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
+    # sin(half_angles) is the norm of the imaginary part of the unit quaternion; calculating it from the half angle
+    # loses all precision near half_angles = pi
     # the denominator must not be zero even where this is not selected, or the gradient is NaN
-    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
-    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
-    return quaternions[..., 1:] / sin_half_angles_over_angles
+    safe_norms = torch.where(norms == 0, torch.ones_like(norms), norms)
+    large_theta = angles * torch.norm(quaternions, p=2, dim=-1, keepdim=True) / safe_norms
+    return quaternions[..., 1:] * torch.where(small, 1 / small_theta, large_theta)
 
 
 def rotation_6d_to_matrix(d6: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From e0dbf85ffe7469c424f122810dea30535e340793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 37/57] fix: IK joint limit wrapping brings joints with a
 single limit inside it

---
 src/pytorch_kinematics/ik.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 25a7ed9..1e45254 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -607,8 +607,10 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
-        # joints without two finite limits have no center to wrap towards
-        n = torch.where(torch.isfinite(center), n, torch.zeros_like(n))
+        # joints without two finite limits have no center to wrap towards; bring them inside the limit they may have
+        n_inside = (torch.ceil(torch.clamp(low - q, min=0) / (2 * math.pi))
+                    - torch.ceil(torch.clamp(q - high, min=0) / (2 * math.pi)))
+        n = torch.where(torch.isfinite(center), n, n_inside)
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From 17aa726eaae64589efa76620a0190b5c61697d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:45 +0000
Subject: [PATCH 38/57] fix: IK step is solvable for robots with fewer than 6
 joints in float32

---
 src/pytorch_kinematics/ik.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 1e45254..cfeb437 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -57,11 +57,13 @@ def _ik_step_kernel(m_flat: torch.Tensor, target_pos: torch.Tensor, target_wxyz:
 
     # DLS with adaptive Levenberg-Marquardt damping:
     # reg = lambda^2 * I + lm_damping * ||dx_w||^2 * I
+    JJt = J_w @ J_w.transpose(1, 2)
+    # damping below the rounding error of JJ^T would leave a singular matrix to solve, since JJ^T itself is singular
+    # for robots with fewer than 6 joints and in singular configurations
+    mu = 4 * torch.finfo(J.dtype).eps * (J_w * J_w).sum(dim=(1, 2)).reshape(-1, 1, 1)  # (NM, 1, 1)
     if lm_damping > 0.0:
-        mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
-        tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
-    else:
-        tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix
+        mu = mu + lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
+    tmpA = JJt + reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
     A = torch.linalg.solve(tmpA, dx_w)
     dq = J_w.transpose(1, 2) @ A
     return dq, dx
-- 
2.43.0


From 7e2ceadc95100f8ac78892e60c40f92d89df24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 39/57] fix: IK clamp_to_limits works for robots with upper
 limits only

---
 src/pytorch_kinematics/ik.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index cfeb437..0949664 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -330,7 +330,8 @@ class InverseKinematics:
         self.debug = debug
         self.enforce_joint_limits = enforce_joint_limits
         self.num_limit_refinement_iterations = num_limit_refinement_iterations
-        self.clamp_to_limits = clamp_to_limits and torch.isfinite(serial_chain.low).any()
+        self.clamp_to_limits = clamp_to_limits and bool(torch.isfinite(serial_chain.low).any()
+                                                        or torch.isfinite(serial_chain.high).any())
         # precompute which joints are revolute (for 2*pi wrapping)
         joints = self.chain.get_joints(exclude_fixed=True)
         self._revolute_mask = torch.tensor([j.joint_type == 'revolute' for j in joints],
-- 
2.43.0


From db307813c24b15fddb9d6232383388d4a8328ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 40/57] fix: SDF booleans: false is not read as true

---
 .../urdf_parser_py/xml_reflection/core.py     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..a7b91a3 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -95,7 +95,9 @@ def make_type(cur_type):
         return ListType()
     elif issubclass(cur_type, Object):
         return ObjectType(cur_type)
-    elif cur_type in [str, float, bool]:
+    elif cur_type == bool:
+        return BoolType()
+    elif cur_type in [str, float]:
         return BasicType(cur_type)
     else:
         raise Exception("Invalid type: {}".format(cur_type))
@@ -156,6 +158,21 @@ class BasicType(ValueType):
         return self.type(value)
 
 
+class BoolType(BasicType):
+    def __init__(self):
+        BasicType.__init__(self, bool)
+
+    def to_string(self, value):
+        return 'true' if value else 'false'
+
+    def from_string(self, value):
+        # bool('false') is True
+        text = (value or '').strip().lower()
+        if text not in ('true', '1', 'false', '0'):
+            raise ValueError("Invalid boolean: {}".format(value))
+        return text in ('true', '1')
+
+
 class ListType(ValueType):
     def to_string(self, values):
         return ' '.join(values)
-- 
2.43.0


From 8ce2a942a506eb0141f8b8dcb9c567ce73a862a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 41/57] fix: SDF joint axes with use_parent_model_frame are in
 the frame of the model

---
 src/pytorch_kinematics/sdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 1a286af..a18df7f 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -61,8 +61,12 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = None
             if j.axis is None and j.type != 'fixed':
                 raise ValueError("joint %s of type %s has no axis" % (j.name, j.type))
+            axis = None if j.axis is None else j.axis.xyz
+            if j.axis is not None and j.axis.use_parent_model_frame:
+                # the axis is given in the frame of the model instead of the frame of the joint
+                axis = t_c.inverse().transform_normals(torch.tensor([axis]))[0]
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=None if j.axis is None else j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=axis, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
-- 
2.43.0


From cb486f47cd80a4b8634ed952b70ce20eebb650b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:30 +0000
Subject: [PATCH 42/57] fix: writing a URDF does not empty its raw elements

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index a7b91a3..e8ca909 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -214,7 +214,8 @@ class RawType(ValueType):
     def write_xml(self, node, value):
         # @todo rying to insert an element at root level seems to screw up
         # pretty printing
-        children = xml_children(value)
+        # copies, since appending would move them out of the value
+        children = copy.deepcopy(xml_children(value))
         list(map(node.append, children))
         # Copy attributes
         for (attrib_key, attrib_value) in value.attrib.items():
-- 
2.43.0


From 11fa1f0c5b2217498176d0a1e1159ca8fb74978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 43/57] fix: parsed URDF and SDF models can be printed
 (collections.Iterable is gone from Python 3.10)

---
 .../urdf_parser_py/xml_reflection/basics.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
index 60a0d44..1de428c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
@@ -1,6 +1,6 @@
 import string
 import yaml
-import collections
+import collections.abc
 from lxml import etree
 
 
@@ -68,7 +68,7 @@ def to_yaml(obj):
     elif hasattr(obj, 'tolist'):
         # For numpy objects
         out = to_yaml(obj.tolist())
-    elif isinstance(obj, collections.Iterable):
+    elif isinstance(obj, collections.abc.Iterable):
         out = [to_yaml(item) for item in obj]
     else:
         out = str(obj)
-- 
2.43.0


From c148810723ef23bb5adf7af72953c55df1375de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 44/57] fix: lump_aggregates groups the elements of a parsed
 model instead of failing

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index e8ca909..6621e26 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -677,8 +677,10 @@ class Object(YamlReflection):
         """ Put all aggregate types together, just because """
         self.aggregate_init()
         for param in self.XML_REFL.aggregates:
+            # these are in the lists already
             for obj in self.get_aggregate_list(param.xml_var):
-                self.add_aggregate(param.var, obj)
+                self.aggregate_order.append(obj)
+                self.aggregate_type[obj] = param.xml_var
 
     """ Compatibility """
 
-- 
2.43.0


From b612f1ec0bdbee362297383c7173b235968114cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 45/57] fix: URDF colours can be given as three numbers, and
 leave a given list alone

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 65a7046..c221f29 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -57,6 +57,7 @@ class Color(xmlr.Object):
         elif count == 0:
             self.rgba = None
         if self.rgba is not None:
+            self.rgba = list(self.rgba)
             if len(self.rgba) == 3:
                 self.rgba += [1.]
             if len(self.rgba) != 4:
-- 
2.43.0


From 718196c80fd126903019facaeb073da6004b8660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:22 +0000
Subject: [PATCH 46/57] fix: SDF links do not need inertial properties

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 8603822..2d1497a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -44,8 +44,8 @@ class Inertial(xmlr.Object):
 
 
 xmlr.reflect(Inertial, params=[
-    xmlr.Element('mass', float),
-    xmlr.Element('inertia', Inertia),
+    xmlr.Element('mass', float, False),
+    xmlr.Element('inertia', Inertia, False),
     pose_element
 ])
 
@@ -256,7 +256,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     required_name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From 540fb7488db784822f617a41a63951241b956061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 47/57] fix: the visual and collision given to a URDF Link are
 kept and written

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index c221f29..133de36 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -370,6 +370,22 @@ class Link(xmlr.Object):
         self.inertial = inertial
         self.collisions = []
         self.origin = origin
+        if visual is not None:
+            self.visual = visual
+        if collision is not None:
+            self.collision = collision
+
+    def __set_first(self, xml_var, obj):
+        """Set the first aggregate of a kind, in the place it is written at."""
+        values = self.get_aggregate_list(xml_var)
+        if not values:
+            self.add_aggregate(xml_var, obj)
+            return
+        old, values[0] = values[0], obj
+        if old in self.aggregate_type:
+            self.aggregate_order[self.aggregate_order.index(old)] = obj
+            del self.aggregate_type[old]
+            self.aggregate_type[obj] = xml_var
 
     def __get_visual(self):
         """Return the first visual or None."""
@@ -378,10 +394,7 @@ class Link(xmlr.Object):
 
     def __set_visual(self, visual):
         """Set the first visual."""
-        if self.visuals:
-            self.visuals[0] = visual
-        else:
-            self.visuals.append(visual)
+        self.__set_first('visual', visual)
 
     def __get_collision(self):
         """Return the first collision or None."""
@@ -390,10 +403,7 @@ class Link(xmlr.Object):
 
     def __set_collision(self, collision):
         """Set the first collision."""
-        if self.collisions:
-            self.collisions[0] = collision
-        else:
-            self.collisions.append(collision)
+        self.__set_first('collision', collision)
 
     # Properties for backwards compatibility
     visual = property(__get_visual, __set_visual)
-- 
2.43.0


From 05892a800ae7d300db7d089261c8860acf64475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 48/57] fix: URDF Actuator keeps the mechanical reduction it is
 given

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 133de36..13e02ee 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -441,7 +441,7 @@ xmlr.reflect(PR2Transmission, tag='pr2_transmission', params=[
 class Actuator(xmlr.Object):
     def __init__(self, name=None, mechanicalReduction=1):
         self.name = name
-        self.mechanicalReduction = None
+        self.mechanicalReduction = mechanicalReduction
 
 
 xmlr.reflect(Actuator, tag='actuator', params=[
-- 
2.43.0


From fb083718bcbd39c70e93eff0596e04c8bd3d0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 49/57] fix: SDF models and visuals that were not parsed can be
 written

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 2d1497a..5f8ffff 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -142,9 +142,10 @@ xmlr.reflect(Material, tag='material', params=[
 
 
 class Visual(xmlr.Object):
-    def __init__(self, name=None, geometry=None, pose=None):
+    def __init__(self, name=None, geometry=None, pose=None, material=None):
         self.name = name
         self.geometry = geometry
+        self.material = material
         self.pose = pose
 
 
@@ -308,8 +309,9 @@ xmlr.reflect(Model, tag='model', params=[
 
 
 class SDF(xmlr.Object):
-    def __init__(self, version=None):
+    def __init__(self, version=None, model=None):
         self.version = version
+        self.model = model
 
 
 xmlr.reflect(SDF, tag='sdf', params=[
-- 
2.43.0


From 9730c9d49defc631034222ea46cca7744e39d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 50/57] fix: links and joints removed from a parsed model leave
 its maps too

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py  | 16 ++++++++++++++++
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 5f8ffff..4c2cfd0 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -293,6 +293,22 @@ class Model(xmlr.Object):
             link = elem
             self.link_map[link.name] = link
 
+    def remove_aggregate(self, elem):
+        typeName = self.aggregate_type[elem]
+        xmlr.Object.remove_aggregate(self, elem)
+
+        # forget what add_aggregate recorded
+        if typeName == 'joint':
+            self.joint_map.pop(elem.name, None)
+            self.parent_map.pop(elem.child, None)
+            children = self.child_map.get(elem.parent, [])
+            if (elem.name, elem.child) in children:
+                children.remove((elem.name, elem.child))
+            if not children:
+                self.child_map.pop(elem.parent, None)
+        elif typeName == 'link':
+            self.link_map.pop(elem.name, None)
+
     def add_link(self, link):
         self.add_aggregate('link', link)
 
diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 13e02ee..eaf3b37 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -524,6 +524,22 @@ class Robot(xmlr.Object):
             link = elem
             self.link_map[link.name] = link
 
+    def remove_aggregate(self, elem):
+        typeName = self.aggregate_type[elem]
+        xmlr.Object.remove_aggregate(self, elem)
+
+        # forget what add_aggregate recorded
+        if typeName == 'joint':
+            self.joint_map.pop(elem.name, None)
+            self.parent_map.pop(elem.child, None)
+            children = self.child_map.get(elem.parent, [])
+            if (elem.name, elem.child) in children:
+                children.remove((elem.name, elem.child))
+            if not children:
+                self.child_map.pop(elem.parent, None)
+        elif typeName == 'link':
+            self.link_map.pop(elem.name, None)
+
     def add_link(self, link):
         self.add_aggregate('link', link)
 
-- 
2.43.0


From 27b9e37b64d11a29ba1c49048fd1f2d2b094c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:37 +0000
Subject: [PATCH 51/57] fix: changing a parsed pose in place does not change
 the default of later ones

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 6621e26..b307ab1 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -333,7 +333,8 @@ class Param(object):
         if self.required:
             raise Exception("Required {} not set in XML: {}".format(self.type, self.xml_var))  # noqa
         elif not skip_default:
-            setattr(obj, self.var, self.default)
+            # every object has its own, since defaults such as lists can be changed in place
+            setattr(obj, self.var, copy.deepcopy(self.default))
 
 
 class Attribute(Param):
-- 
2.43.0


From b872b5755ebca7b23f55452e93bac63cf9cdd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 52/57] fix: writing a URDF keeps the text of raw elements

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index b307ab1..396182f 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -217,6 +217,8 @@ class RawType(ValueType):
         # copies, since appending would move them out of the value
         children = copy.deepcopy(xml_children(value))
         list(map(node.append, children))
+        if value.text is not None and value.text.strip():
+            node.text = value.text
         # Copy attributes
         for (attrib_key, attrib_value) in value.attrib.items():
             node.set(attrib_key, attrib_value)
-- 
2.43.0


From ee4797df7e6ee5795f1ef4af66ff7e4f3ddb2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:36 +0000
Subject: [PATCH 53/57] fix: subtract the reference value of MJCF joints

---
 src/pytorch_kinematics/mjcf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index cd2ccee..273d56f 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -1,6 +1,7 @@
 from typing import Union, Optional, Dict
 
 import mujoco
+import torch
 from mujoco._structs import _MjModelBodyViews as MjModelBodyViews
 
 import pytorch_kinematics.transforms as tf
@@ -43,7 +44,12 @@ def _build_chain_recurse(m, parent_frame, parent_body):
             if n_joints == 1:
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
-                joint_offset = tf.Transform3d(pos=joint.pos)
+                # joint values count from the reference, the value at which the body is where it is described
+                motion = -joint.qpos0[0] * joint.axis
+                if JOINT_TYPE_MAP[joint.type[0]] == 'revolute':
+                    joint_offset = tf.Transform3d(rot=tf.axis_angle_to_quaternion(torch.tensor(motion)), pos=joint.pos)
+                else:
+                    joint_offset = tf.Transform3d(pos=joint.pos + motion)
                 # the range of an unlimited joint is meaningless (usually 0 0)
                 limits = (joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None
                 child_joint = frame.Joint(_unique_name("joint", joint), offset=joint_offset, axis=joint.axis,
-- 
2.43.0


From ebf089c218724186230a0fe1e00f056508a35f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:33 +0000
Subject: [PATCH 54/57] fix: keep undamped inverse kinematics steps finite with
 either solver

---
 src/pytorch_kinematics/ik.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 0949664..327b73b 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -60,7 +60,8 @@ def _ik_step_kernel(m_flat: torch.Tensor, target_pos: torch.Tensor, target_wxyz:
     JJt = J_w @ J_w.transpose(1, 2)
     # damping below the rounding error of JJ^T would leave a singular matrix to solve, since JJ^T itself is singular
     # for robots with fewer than 6 joints and in singular configurations
-    mu = 4 * torch.finfo(J.dtype).eps * (J_w * J_w).sum(dim=(1, 2)).reshape(-1, 1, 1)  # (NM, 1, 1)
+    scale = (J_w * J_w).sum(dim=(1, 2)).reshape(-1, 1, 1)  # (NM, 1, 1)
+    mu = 4 * torch.finfo(J.dtype).eps * torch.where(scale > 0, scale, torch.ones_like(scale))
     if lm_damping > 0.0:
         mu = mu + lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
     tmpA = JJt + reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
@@ -117,6 +118,10 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
 
     # SVD-based DLS
     regularization = reg_matrix[0, 0]  # scalar lambda^2
+    # zero singular values need some damping even when none is asked for (see _ik_step_kernel)
+    scale = (J_w * J_w).sum(dim=(1, 2)).reshape(-1, 1)  # (NM, 1)
+    regularization = regularization + 4 * torch.finfo(J.dtype).eps * torch.where(scale > 0, scale,
+                                                                                 torch.ones_like(scale))
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True).squeeze(2)  # (NM, 1)
         regularization = regularization + mu
-- 
2.43.0


From 35799bebcc08530bf0f7264e7bcf515b2c1516b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:34 +0000
Subject: [PATCH 55/57] fix: sample initial configurations of unlimited joints
 from a finite range

---
 src/pytorch_kinematics/ik.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 327b73b..29c04b5 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -390,8 +390,13 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (
-                    self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
+            low, high = torch.as_tensor(self.joint_limits, device=self.device, dtype=self.dtype).unbind(-1)
+            # there is no uniform distribution over an unlimited range; sample one turn inside the limit there may be,
+            # or around 0
+            low_or_default = torch.where(torch.isfinite(high), high - 2 * math.pi, torch.full_like(high, -math.pi))
+            low = torch.where(torch.isfinite(low), low, low_or_default)
+            high = torch.where(torch.isfinite(high), high, low + 2 * math.pi)
+            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (high - low) + low
         elif self.config_sampling_method == "gaussian":
             return torch.randn(num_configs, self.dof, device=self.device, dtype=self.dtype)
         elif callable(self.config_sampling_method):
-- 
2.43.0


From fe9543217dff38650d1da06bcac5fcfd49903bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:01 +0000
Subject: [PATCH 56/57] fix: zero iterations of inverse kinematics while
 debugging

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 29c04b5..cbfbb58 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -576,7 +576,7 @@ class PseudoInverseIK(InverseKinematics):
             self.err = self.err_all.reshape(-1, self.num_retries, 6).norm(dim=-1)
             sol.update(q, self.err_all, use_keep_mask=self.early_stopping_any_converged)
 
-        if self.debug:
+        if self.debug and len(pos_errors) > 0:
             # errors
             fig, ax = plt.subplots(ncols=2, figsize=(10, 5))
             pos_e = torch.stack(pos_errors, dim=0).cpu()
-- 
2.43.0


From 5d322c27823537694400a030f0edcd70857951fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:10 +0000
Subject: [PATCH 57/57] fix: rotation axes of any length when sampling
 perturbations

---
 src/pytorch_kinematics/transforms/perturbation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/perturbation.py b/src/pytorch_kinematics/transforms/perturbation.py
index cccbbce..ca46a7a 100644
--- a/src/pytorch_kinematics/transforms/perturbation.py
+++ b/src/pytorch_kinematics/transforms/perturbation.py
@@ -25,6 +25,8 @@ def sample_perturbations(T, num_perturbations, radian_sigma, translation_sigma,
     # consider sampling from the Bingham distribution
     theta = torch.randn(num_perturbations, dtype=dtype, device=device) * radian_sigma
     if axis_of_rotation is not None:
+        # only the direction of the axis matters; anything but a unit vector would not give a rotation
+        axis_of_rotation = axis_of_rotation / axis_of_rotation.norm(dim=-1, keepdim=True)
         axis_angle = axis_of_rotation
         # sample translation perturbation perpendicular to the axis of rotation
         # remove the component of delta_t along the axis_of_rotation
-- 
2.43.0

