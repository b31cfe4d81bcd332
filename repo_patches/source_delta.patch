From 58fb21a13806477c3e6dd2717f16db5856bf90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:17 +0000
Subject: [PATCH 1/8] fix: circle centred exactly on a polygon's boundary gets
 the face normal, not NaN

---
 lcp_physics/physics/contacts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..3bd0dde 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -103,11 +103,11 @@ class DiffContactHandler(ContactHandler):
                     break
                 simplex = [simplex[idx] for idx in ids_used]  # remove unused points
                 simplex.append(support)
-            if len(ids_used) < 3:
+            best_pt1 = closest + b2.pos - b1.pos
+            # (normal is undefined if circle center is exactly on the boundary)
+            if len(ids_used) < 3 and torch.norm(best_pt1).item() > 0:
                 best_pt2 = closest
-                closest = closest + b2.pos
-                best_pt1 = closest - b1.pos
-                best_dist = torch.norm(closest - b1.pos) - b1.rad
+                best_dist = torch.norm(best_pt1) - b1.rad
                 if best_dist.item() > world.eps:
                     return
                 # normal points from closest point to circle center
-- 
2.43.0


From 102e5c423b19901a7c12f4226c87fa964bd7ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 2/8] fix: clip polygon contacts to the reference edge itself,
 not to a band around the centroid

---
 lcp_physics/physics/contacts.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 3bd0dde..36abe16 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -155,20 +155,22 @@ class DiffContactHandler(ContactHandler):
                 return
             if contact2[0].item() > contact1[0].item():
                 normal = -contact2[3]
-                half_edge_norm = contact2[5] / 2
                 ref_edge_idx = contact2[6]
                 incident_vertex_idx = contact2[4]
                 incident_edge_idx = self.get_incident_edge(normal, b1, incident_vertex_idx)
                 incident_verts = [b1.verts[incident_edge_idx],
                                   b1.verts[(incident_edge_idx + 1) % len(b1.verts)]]
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
+                # clip to the extent of the reference edge
+                ref_v0 = b2.verts[ref_edge_idx]
+                ref_v1 = b2.verts[(ref_edge_idx + 1) % len(b2.verts)]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_v1))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_v0))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -178,20 +180,22 @@ class DiffContactHandler(ContactHandler):
                         pts.append((normal, pt2, pt1, -dist))
             else:
                 normal = -contact1[3]
-                half_edge_norm = contact1[5] / 2
                 ref_edge_idx = contact1[6]
                 incident_vertex_idx = contact1[4]
                 incident_edge_idx = self.get_incident_edge(normal, b2, incident_vertex_idx)
                 incident_verts = [b2.verts[incident_edge_idx],
                                   b2.verts[(incident_edge_idx+1) % len(b2.verts)]]
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
+                # clip to the extent of the reference edge
+                ref_v0 = b1.verts[ref_edge_idx]
+                ref_v1 = b1.verts[(ref_edge_idx + 1) % len(b1.verts)]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_v1))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_v0))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From d3820218d3fca3b3111528f8125aa8637efe8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 3/8] fix: no extrapolated contact when the incident edge lies
 beyond the reference edge

---
 lcp_physics/physics/contacts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 36abe16..7a60203 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -171,6 +171,8 @@ class DiffContactHandler(ContactHandler):
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
                                                           clip_plane.dot(ref_v0))
+                if len(clipped_verts) < 2:
+                    return
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -196,6 +198,8 @@ class DiffContactHandler(ContactHandler):
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
                                                           clip_plane.dot(ref_v0))
+                if len(clipped_verts) < 2:
+                    return
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From f33c8058919451ee98ab46eac17c9be64450e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 4/8] fix: the LCP gradient solves the transposed KKT system (F
 is not symmetric)

---
 lcp_physics/lcp/lcp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..ee9a727 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -43,8 +43,10 @@ class LCPFunction(Function):
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
         d = self.lams / self.slacks
 
-        pdipm.factor_kkt(self.S_LU, self.R, d)
-        dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
+        # the adjoint system is the transposed one (F is not symmetric in general)
+        Q_LU, S_LU, R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
+        pdipm.factor_kkt(S_LU, R, d)
+        dx, _, dlam, dnu = pdipm.solve_kkt(Q_LU, d, G, A, S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, neq))
-- 
2.43.0


From efd5c76e6b59c21b2d8d4946848fb77ab2280055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 5/8] fix: a zero direction component does not limit the
 interior point step

---
 lcp_physics/lcp/solvers/pdipm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..786cb33 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -181,7 +181,7 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
 
 def get_step(v, dv):
     a = -v / dv
-    a[dv > 0] = max(1.0, a.max())
+    a[dv >= 0] = max(1.0, a.max())
     step = a.min(1)[0].squeeze()
     return step
 
-- 
2.43.0


From 708e37ae7dfa76cc46bedfb61dca23a1b2ec7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 6/8] fix: keep the dependence on a rotation that happens to be
 zero

Hull.set_p skipped rotate_verts when the turn was exactly zero, so the vertices
lost their gradient with respect to a pose or velocity that starts at zero.
---
 lcp_physics/physics/bodies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..fa6686f 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -201,7 +201,7 @@ class Hull(Body):
 
     def set_p(self, new_p, update_geom_rotation=False):
         rot = new_p[0] - self.p[0]
-        if rot.item() != 0:
+        if rot.requires_grad or rot.item() != 0:
             self.rotate_verts(rot)
         super().set_p(new_p, update_geom_rotation=update_geom_rotation)
 
-- 
2.43.0


From b821e3aef96aad84c4c7016f0d1170ceb4edac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 7/8] fix: do not detach a joint position given as a tensor

---
 lcp_physics/physics/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/physics/constraints.py b/lcp_physics/physics/constraints.py
index 3f6e1c2..7d04fcf 100644
--- a/lcp_physics/physics/constraints.py
+++ b/lcp_physics/physics/constraints.py
@@ -2,7 +2,7 @@ import pygame
 
 import torch
 
-from .utils import Indices, Defaults, cart_to_polar, polar_to_cart
+from .utils import Indices, Defaults, get_tensor, cart_to_polar, polar_to_cart
 
 
 X = Indices.X
@@ -18,7 +18,7 @@ class Joint:
         self.num_constraints = 2
         self.body1 = body1
         self.body2 = body2
-        self.pos = body1.p.new_tensor(pos)
+        self.pos = get_tensor(pos, base_tensor=body1.p)
         self.pos1 = self.pos - self.body1.pos
         self.r1, self.rot1 = cart_to_polar(self.pos1)
         self.rot2 = None
-- 
2.43.0


From 2dd9eea264747be7689ccf6ddd6b1e85fa2a99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 8/8] fix: differentiate joints at their body's center

The polar form of a zero offset has no gradient, so a body pinned at its center
backpropagated NaN from the second step on.
---
 lcp_physics/physics/constraints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/physics/constraints.py b/lcp_physics/physics/constraints.py
index 7d04fcf..22f9592 100644
--- a/lcp_physics/physics/constraints.py
+++ b/lcp_physics/physics/constraints.py
@@ -2,7 +2,8 @@ import pygame
 
 import torch
 
-from .utils import Indices, Defaults, get_tensor, cart_to_polar, polar_to_cart
+from .utils import Indices, Defaults, get_tensor, cart_to_polar, polar_to_cart, \
+    rotation_matrix
 
 
 X = Indices.X
@@ -21,6 +22,9 @@ class Joint:
         self.pos = get_tensor(pos, base_tensor=body1.p)
         self.pos1 = self.pos - self.body1.pos
         self.r1, self.rot1 = cart_to_polar(self.pos1)
+        # polar form is not differentiable at body's center, so keep offset to turn it
+        self.rot1 = self.start_rot1 = self.rot1.detach()
+        self.start_pos1 = self.pos1
         self.rot2 = None
         if body2 is not None:
             self.pos2 = self.pos - self.body2.pos
@@ -42,7 +46,7 @@ class Joint:
         self.update_pos()
 
     def update_pos(self):
-        self.pos1 = polar_to_cart(self.r1, self.rot1)
+        self.pos1 = rotation_matrix(self.rot1 - self.start_rot1).matmul(self.start_pos1)
         self.pos = self.body1.pos + self.pos1
         if self.body2 is not None:
             # keep position on body1 as reference
-- 
2.43.0

