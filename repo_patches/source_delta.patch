From 495ce84ebc1d9b4feedbec0bd361f6c89494fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 1/8] fix: make the LCP solver run on current PyTorch

Non-static autograd functions, Tensor.btrifact and Tensor.btrisolve were
removed from PyTorch, so any step with a contact raised a RuntimeError.
---
 lcp_physics/lcp/lcp.py           | 27 ++++++++++++--
 lcp_physics/lcp/solvers/pdipm.py | 62 +++++++++++++++-----------------
 lcp_physics/lcp/util.py          |  4 +--
 3 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..cd494d9 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 import torch
 from torch.autograd import Function
 
@@ -5,19 +7,39 @@ from .solvers import pdipm
 from .util import bger, extract_batch_size
 
 
-class LCPFunction(Function):
+class LCPApply(Function):
+    """Autograd node for a LCPFunction call. Autograd functions can not hold
+       instance state in current versions of PyTorch, so it is kept in solver.
+    """
+    @staticmethod
+    def forward(ctx, solver, *inputs):
+        zhats = solver.forward(*inputs)
+        ctx.solver = copy(solver)
+        ctx.save_for_backward(zhats, *inputs)
+        return zhats
+
+    @staticmethod
+    def backward(ctx, dl_dzhat):
+        solver = copy(ctx.solver)
+        solver.saved_tensors = ctx.saved_tensors
+        return (None,) + solver.backward(dl_dzhat)
+
+
+class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
     def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
                  max_iter=10):
-        super().__init__()
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
         self.max_iter = max_iter
         self.Q_LU = self.S_LU = self.R = None
 
+    def __call__(self, *inputs):
+        return LCPApply.apply(self, *inputs)
+
     # @profile
     def forward(self, Q, p, G, h, A, b, F):
         _, nineq, nz = G.size()
@@ -31,7 +53,6 @@ class LCPFunction(Function):
             eps=self.eps, max_iter=self.max_iter, verbose=self.verbose,
             not_improved_lim=self.not_improved_lim)
 
-        self.save_for_backward(zhats, Q, p, G, h, A, b, F)
         return zhats
 
     def backward(self, dl_dzhat):
diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..8182f00 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -9,23 +9,18 @@ from ..util import efficient_btriunpack
 from lcp_physics.lcp.util import get_sizes, bdiag
 
 
-shown_btrifact_warning = False
-
 # @profile
 def btrifact_hack(x):
-    global shown_btrifact_warning
-    try:
-        return x.btrifact(pivot=not x.is_cuda)
-    except TypeError:
-        if not shown_btrifact_warning:
-            print("""----------
-lcp warning: Pivoting will always happen and will significantly
-slow down your code. Please use the master branch of PyTorch
-to get a version that disables pivoting on the GPU.
-----------
-""")
-            shown_btrifact_warning = True
-        return x.btrifact()
+    # `btrifact` was removed from PyTorch, `lu_factor` returns the same packed
+    # factorization and 1-based pivots.
+    return torch.linalg.lu_factor(x, pivot=not x.is_cuda)
+
+
+def btrisolve(b, LU_data, LU_pivots):
+    # `btrisolve` was removed from PyTorch, `lu_solve` only takes matrices.
+    if b.dim() == 2:
+        return torch.linalg.lu_solve(LU_data, LU_pivots, b.unsqueeze(2)).squeeze(2)
+    return torch.linalg.lu_solve(LU_data, LU_pivots, b)
 
 
 INACC_ERR = """
@@ -265,8 +260,8 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)  # H-1 AT
-    invH_g_ = g_.btrisolve(*H_LU)  # H-1 g
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)  # H-1 AT
+    invH_g_ = btrisolve(g_, *H_LU)  # H-1 g
 
     S_ = torch.bmm(A_, invH_A_)  # A H-1 AT
     # A H-1 AT + C_tilde
@@ -275,11 +270,11 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
     # [(H-1 g)T AT]T - h = A H-1 g - h
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
     # w = (A H-1 AT + C_tilde)-1 (A H-1 g - h) <= Av - eps I w = h
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     # Shouldn't it be just g (no minus)?
     # (Doesn't seem to make a difference, though...)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()  # -g - AT w
-    v_ = t_.btrisolve(*H_LU)  # v = H-1 (-g - AT w)
+    v_ = btrisolve(t_, *H_LU)  # v = H-1 (-g - AT w)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -304,15 +299,15 @@ def factor_solve_kkt(Q_tilde, D_tilde, A_, C_tilde, rx, rs, rz, ry, ns):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)
-    invH_g_ = g_.btrisolve(*H_LU)
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)
+    invH_g_ = btrisolve(g_, *H_LU)
 
     S_ = torch.bmm(A_, invH_A_) + C_tilde
     S_LU = btrifact_hack(S_)
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()
-    v_ = t_.btrisolve(*H_LU)
+    v_ = btrisolve(t_, *H_LU)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -330,7 +325,7 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
 
     nineq, nz, neq, nBatch = get_sizes(G, A)
 
-    invQ_rx = rx.btrisolve(*Q_LU)  # Q-1 rx
+    invQ_rx = btrisolve(rx, *Q_LU)  # Q-1 rx
     if neq > 0:
         # A Q-1 rx - ry
         # G Q-1 rx + rs / d - rz
@@ -339,14 +334,14 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
     else:
         h = invQ_rx.unsqueeze(1).bmm(G.transpose(1, 2)).squeeze(1) + rs / d - rz
 
-    w = -(h.btrisolve(*S_LU))  # S-1 h =
+    w = -(btrisolve(h, *S_LU))  # S-1 h =
 
     g1 = -rx - w[:, neq:].unsqueeze(1).bmm(G).squeeze(1)  # -rx - GT w = -rx -GT S-1 h
     if neq > 0:
         g1 -= w[:, :neq].unsqueeze(1).bmm(A).squeeze(1)  # - AT w = -AT S-1 h
     g2 = -rs - w[:, neq:]
 
-    dx = g1.btrisolve(*Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
+    dx = btrisolve(g1, *Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
     ds = g2 / d  # g2 / d = (-rs - w) / d
     dz = w[:, neq:]
     dy = w[:, :neq] if neq > 0 else None
@@ -375,12 +370,12 @@ a non-zero diagonal.
     # See the 'Block LU factorization' part of our website
     # for more details.
 
-    G_invQ_GT = torch.bmm(G, G.transpose(1, 2).btrisolve(*Q_LU)) + F
+    G_invQ_GT = torch.bmm(G, btrisolve(G.transpose(1, 2), *Q_LU)) + F
     R = G_invQ_GT.clone()
     S_LU_pivots = torch.IntTensor(range(1, 1 + neq + nineq)).unsqueeze(0) \
         .repeat(nBatch, 1).type_as(Q).int()
     if neq > 0:
-        invQ_AT = A.transpose(1, 2).btrisolve(*Q_LU)
+        invQ_AT = btrisolve(A.transpose(1, 2), *Q_LU)
         A_invQ_AT = torch.bmm(A, invQ_AT)
         G_invQ_AT = torch.bmm(G, invQ_AT)
 
@@ -389,10 +384,10 @@ a non-zero diagonal.
         P_A_invQ_AT = P_A_invQ_AT.type_as(A_invQ_AT)
 
         S_LU_11 = LU_A_invQ_AT[0]
-        U_A_invQ_AT_inv = (P_A_invQ_AT.bmm(L_A_invQ_AT)
-                           ).btrisolve(*LU_A_invQ_AT)
+        U_A_invQ_AT_inv = btrisolve(P_A_invQ_AT.bmm(L_A_invQ_AT),
+                                    *LU_A_invQ_AT)
         S_LU_21 = G_invQ_AT.bmm(U_A_invQ_AT_inv)
-        T = G_invQ_AT.transpose(1, 2).btrisolve(*LU_A_invQ_AT)
+        T = btrisolve(G_invQ_AT.transpose(1, 2), *LU_A_invQ_AT)
         S_LU_12 = U_A_invQ_AT.bmm(T)
         S_LU_22 = Q.new_zeros(nBatch, nineq, nineq)
         S_LU_data = torch.cat((torch.cat((S_LU_11, S_LU_12), 2),
@@ -420,7 +415,7 @@ def factor_kkt(S_LU, R, d):
     if factor_kkt_eye is None or factor_kkt_eye.size() != d.size():
         # print('Updating batchedEye size.')
         factor_kkt_eye = torch.eye(nineq).repeat(
-            nBatch, 1, 1).type_as(R).byte()
+            nBatch, 1, 1).type_as(R).bool()
     # T = R.clone()
     # T[factor_kkt_eye] += (1. / d).view(-1)
     # more efficient version of these two lines in pytorch versions > 0.3.1
@@ -430,8 +425,7 @@ def factor_kkt(S_LU, R, d):
 
     T_LU = btrifact_hack(T)
 
-    global shown_btrifact_warning
-    if shown_btrifact_warning or not T.is_cuda:
+    if not T.is_cuda:
         # TODO Don't use pivoting in most cases because
         # torch.btriunpack is inefficient here:
         oldPivotsPacked = S_LU[1][:, -nineq:] - neq
diff --git a/lcp_physics/lcp/util.py b/lcp_physics/lcp/util.py
index d7beaaf..6a07533 100644
--- a/lcp_physics/lcp/util.py
+++ b/lcp_physics/lcp/util.py
@@ -41,7 +41,7 @@ def get_sizes(G, A=None):
 def bdiag(d):
     nBatch, sz = d.size()
     D = torch.zeros(nBatch, sz, sz).type_as(d)
-    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).byte()
+    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).bool()
     D[I] = d.squeeze()
     return D
 
@@ -72,7 +72,7 @@ def efficient_btriunpack(LU_data, LU_pivots, unpack_data=True, unpack_pivots=Tru
     nBatch, sz = LU_data.shape[:-1]
 
     if unpack_data:
-        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.uint8).triu_().expand_as(LU_data)
+        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.bool).triu_().expand_as(LU_data)
         zero = torch.tensor(0.).type_as(LU_data)
         U = torch.where(I_U, LU_data, zero)
         L = torch.where(I_U, zero, LU_data)
-- 
2.43.0


From 9c4f3f66bb303e12648f2a1e897a4ddb0f32c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 2/8] fix: use the transposed KKT system in the LCP gradient

F is not symmetric when there is friction, and the gradients were those of
the problem with F transposed.
---
 lcp_physics/lcp/lcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index cd494d9..1fa2295 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -64,7 +64,8 @@ class LCPFunction:
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
         d = self.lams / self.slacks
 
-        pdipm.factor_kkt(self.S_LU, self.R, d)
+        # The gradient solves the transposed system, and F need not be symmetric.
+        pdipm.factor_kkt(self.S_LU, self.R.transpose(1, 2), d)
         dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, nineq),
-- 
2.43.0


From 265e3f38c884cd7835b152e793360d45dc772873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 3/8] fix: clip hull contacts to the end points of the
 reference edge

The clip planes were placed half an edge length either side of the hull's
centroid, so interpenetrating hulls whose reference edge is not centred on
the centroid (e.g. triangles) could get no contact at all.
---
 lcp_physics/physics/contacts.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..2d3f5c1 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -155,8 +155,9 @@ class DiffContactHandler(ContactHandler):
                 return
             if contact2[0].item() > contact1[0].item():
                 normal = -contact2[3]
-                half_edge_norm = contact2[5] / 2
                 ref_edge_idx = contact2[6]
+                ref_verts = [b2.verts[ref_edge_idx],
+                             b2.verts[(ref_edge_idx + 1) % len(b2.verts)]]
                 incident_vertex_idx = contact2[4]
                 incident_edge_idx = self.get_incident_edge(normal, b1, incident_vertex_idx)
                 incident_verts = [b1.verts[incident_edge_idx],
@@ -164,11 +165,11 @@ class DiffContactHandler(ContactHandler):
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_verts[1]))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_verts[0]))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -178,8 +179,9 @@ class DiffContactHandler(ContactHandler):
                         pts.append((normal, pt2, pt1, -dist))
             else:
                 normal = -contact1[3]
-                half_edge_norm = contact1[5] / 2
                 ref_edge_idx = contact1[6]
+                ref_verts = [b1.verts[ref_edge_idx],
+                             b1.verts[(ref_edge_idx + 1) % len(b1.verts)]]
                 incident_vertex_idx = contact1[4]
                 incident_edge_idx = self.get_incident_edge(normal, b2, incident_vertex_idx)
                 incident_verts = [b2.verts[incident_edge_idx],
@@ -187,11 +189,11 @@ class DiffContactHandler(ContactHandler):
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_verts[1]))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_verts[0]))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From 1340c8feccf136bee6f26f7fc33a4253c4b91057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 4/8] fix: do not take an infinite negative step when a search
 direction is zero

A component of the search direction that is exactly zero gave a step of
-inf, which turned the iterates into NaN and stopped the solver early.
---
 lcp_physics/lcp/solvers/pdipm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 8182f00..efa060f 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -176,7 +176,7 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
 
 def get_step(v, dv):
     a = -v / dv
-    a[dv > 0] = max(1.0, a.max())
+    a[dv >= 0] = max(1.0, a.max())
     step = a.min(1)[0].squeeze()
     return step
 
-- 
2.43.0


From 4677eac4803bee977b5a8a6e6e472a790b383864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 5/8] fix: restore both joint rotations when a step is retried

---
 lcp_physics/physics/world.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 39da5ad..2b5d638 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -104,6 +104,8 @@ class World:
                 self.set_p(start_p.clone())
                 for j, c in zip(self.joints, start_rot_joints):
                     j[0].rot1 = c[0].clone()
+                    if c[1] is not None:
+                        j[0].rot2 = c[1].clone()
                     j[0].update_pos()
 
         if self.post_stab:
-- 
2.43.0


From d4003b6ca7275a02968549776f74cc9027498076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 6/8] fix: match external forces to their body's tensor type

A force on a body of another dtype than the default kept the default dtype,
and World.step raised on the mixed types.
---
 lcp_physics/physics/forces.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/forces.py b/lcp_physics/physics/forces.py
index 3ea7097..b5be1e2 100644
--- a/lcp_physics/physics/forces.py
+++ b/lcp_physics/physics/forces.py
@@ -39,9 +39,13 @@ class ExternalForce:
 
     def __init__(self, force_func=down_force, multiplier=100.):
         self.multiplier = multiplier
-        self.force = lambda t: force_func(t) * self.multiplier
+        self.force = lambda t: self._match_body(force_func(t)) * self.multiplier
         self.body = None
 
+    def _match_body(self, force):
+        # match body's tensor type and device
+        return force.to(self.body._base_tensor) if self.body is not None else force
+
     def set_body(self, body):
         self.body = body
         # match body's tensor type and device
-- 
2.43.0


From e23dfa7dca72022a481d46a17d8e1028487b1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:54 +0000
Subject: [PATCH 7/8] fix: keep the gradient of vertices when the rotation is
 exactly zero

Skipping the rotation cut the dependence of a hull's vertices on its angle
and angular velocity whenever their current value was zero.
---
 lcp_physics/physics/bodies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..30c91e3 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -201,7 +201,8 @@ class Hull(Body):
 
     def set_p(self, new_p, update_geom_rotation=False):
         rot = new_p[0] - self.p[0]
-        if rot.item() != 0:
+        # a rotation by zero still carries a gradient
+        if rot.item() != 0 or rot.requires_grad:
             self.rotate_verts(rot)
         super().set_p(new_p, update_geom_rotation=update_geom_rotation)
 
-- 
2.43.0


From a7ece549bbd6c0cf17280b3f58c24f3f1507c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 8/8] fix: contacts of circles centred on a chord of a polygon
 (at the centre of a box, for one) were wrong or not-a-number

---
 lcp_physics/physics/contacts.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 2d3f5c1..384ece1 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -103,11 +103,15 @@ class DiffContactHandler(ContactHandler):
                     break
                 simplex = [simplex[idx] for idx in ids_used]  # remove unused points
                 simplex.append(support)
-            if len(ids_used) < 3:
+            # the search also stops with less than three points when the center is on a
+            # chord or the boundary of the hull, which is deep penetration, too
+            center_dist = torch.norm(closest + b2.pos - b1.pos)
+            if len(ids_used) < 3 and center_dist.item() > 0 \
+                    and self.is_outside(test_point, b2.verts):
                 best_pt2 = closest
                 closest = closest + b2.pos
                 best_pt1 = closest - b1.pos
-                best_dist = torch.norm(closest - b1.pos) - b1.rad
+                best_dist = center_dist - b1.rad
                 if best_dist.item() > world.eps:
                     return
                 # normal points from closest point to circle center
@@ -206,6 +210,16 @@ class DiffContactHandler(ContactHandler):
             world.contacts.append((p, geom1.body, geom2.body))
         # world.contacts_debug = world.contacts  # XXX
 
+    @staticmethod
+    def is_outside(point, verts):
+        """Whether the point is strictly on the outer side of some edge of a hull.
+        """
+        for i in range(len(verts)):
+            edge = verts[(i + 1) % len(verts)] - verts[i]
+            if left_orthogonal(edge).dot(point - verts[i]).item() > 0:
+                return True
+        return False
+
     @staticmethod
     def get_support(points, direction):
         best_point = None
-- 
2.43.0

