From 86219d71c75bbf8a3a88b84f798db1fb1f184031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:36 +0000
Subject: [PATCH 01/14] fix: keep the root mode of a dependency CRF on the
 instance

The option was stored on the shared dynamic-program class, so creating a
second distribution changed the results of the first one.
---
 torch_struct/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..ffbd759 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -393,7 +393,12 @@ class DependencyCRF(StructDistribution):
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    def _struct(self, sr=None):
+        struct = super(DependencyCRF, self)._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From 99d829e5ea8381443e6444156c28970912dfcecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:40 +0000
Subject: [PATCH 02/14] fix: allow cross entropy and KL of semi-Markov CRFs

The potentials arrive as a list of two tensors there. Gradients are already
enabled for both forms when the dimensions are read, and the position mask is
not a pair of potentials that can be converted to the semiring.
---
 torch_struct/semimarkov.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 257112e..08cc603 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -24,7 +24,6 @@ class SemiMarkov(_Struct):
         # Setup
         semiring = self.semiring
         ssize = semiring.size()
-        log_potentials.requires_grad_(True)
         log_potentials, batch, N, K, C, lengths = self._check_potentials(
             log_potentials, lengths
         )
@@ -66,7 +65,7 @@ class SemiMarkov(_Struct):
         mask_length = mask_length.to(log_potentials.device)
         for k in range(1, K - 1):
             mask_length_k = mask_length < (lengths - 1 - (k - 1)).view(batch, 1, 1)
-            mask_length_k = semiring.convert(mask_length_k)
+            mask_length_k = mask_length_k.unsqueeze(0)
             mask[:, :, :, k - 1, k].diagonal(0, -2, -1).masked_fill_(mask_length_k, True)
         init = semiring.fill(init, mask, semiring.one)
 
-- 
2.43.0


From f0acffae98e8b6e1ba4c9c99fce752227345f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:40 +0000
Subject: [PATCH 03/14] fix: allow cross entropy and KL of dependency CRFs

The potentials arrive as a list of two tensors there, which the dependency
dynamic program did not accept.
---
 torch_struct/deptree.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index 8747d7e..3c8c217 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -48,12 +48,17 @@ class DepTree(_Struct):
 
     def logpartition(self, arc_scores_in, lengths=None, force_grad=False):
         multiroot = getattr(self, "multiroot", True)
-        if arc_scores_in.dim() not in (3, 4):
+        pair = isinstance(arc_scores_in, list)
+        dim = arc_scores_in[0].dim() if pair else arc_scores_in.dim()
+        if dim not in (3, 4):
             raise ValueError("potentials must have dim of 3 (unlabeled) or 4 (labeled)")
 
-        labeled = arc_scores_in.dim() == 4
+        labeled = dim == 4
         semiring = self.semiring
-        arc_scores_in = convert(arc_scores_in)
+        if pair:
+            arc_scores_in = [convert(a) for a in arc_scores_in]
+        else:
+            arc_scores_in = convert(arc_scores_in)
         arc_scores_in, batch, N, lengths = self._check_potentials(
             arc_scores_in, lengths
         )
@@ -127,10 +132,10 @@ class DepTree(_Struct):
         semiring = self.semiring
         batch, N, N2, *_ = self._get_dimension(arc_scores)
         assert N == N2, "Non-square potentials"
+        arc_scores = semiring.convert(arc_scores)
         if lengths is None:
             lengths = torch.LongTensor([N - 1] * batch).to(arc_scores.device)
         assert max(lengths) <= N, "Length longer than N"
-        arc_scores = semiring.convert(arc_scores)
 
         # Set the extra elements of the log-potentials to zero.
         keep = torch.ones_like(arc_scores).bool()
-- 
2.43.0


From 62c7f0f68d7576499ec8c6b16f922183136d1f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:40 +0000
Subject: [PATCH 04/14] fix: allow sampling when gradients are disabled

Samples are read off a gradient, so enable gradients while drawing them, as
the k-best queries already do.
---
 torch_struct/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index ffbd759..d82d213 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -224,9 +224,10 @@ class StructDistribution(Distribution):
         samples = []
         for k in range(nsamples):
             if k % 10 == 0:
-                sample = self._struct(MultiSampledSemiring).marginals(
-                    self.log_potentials, lengths=self.lengths
-                )
+                with torch.enable_grad():
+                    sample = self._struct(MultiSampledSemiring).marginals(
+                        self.log_potentials, lengths=self.lengths
+                    )
                 sample = sample.detach()
             tmp_sample = MultiSampledSemiring.to_discrete(sample, (k % 10) + 1)
             samples.append(tmp_sample)
-- 
2.43.0


From 14942f8f75f929cd940a6124888ffea376d08b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:40 +0000
Subject: [PATCH 05/14] fix: respect lengths when converting segmentations to
 parts

Positions beyond the given length produced parts.
---
 torch_struct/semimarkov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 08cc603..003e6b7 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -140,7 +140,7 @@ class SemiMarkov(_Struct):
         for b in range(batch):
             last = None
             c = None
-            for n in range(0, N):
+            for n in range(0, lengths[b]):
                 if sequence[b, n] == -1:
                     assert n != 0
                     continue
-- 
2.43.0


From fe4f42c9fcf91720e8e507d4ed8103bc3c8755b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:51 +0000
Subject: [PATCH 06/14] fix: score events of non-contiguous potentials

---
 torch_struct/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index a8d2848..85f0c13 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -31,7 +31,7 @@ class _Struct:
     def score(self, potentials, parts, batch_dims=[0]):
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
-        return self.semiring.prod(score.view(batch + (-1,)))
+        return self.semiring.prod(score.reshape(batch + (-1,)))
 
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
-- 
2.43.0


From f690dd39082f9c4c038947ae150e607f70d22d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:17 +0000
Subject: [PATCH 07/14] fix: sparsemax sum returns the value its gradient
 belongs to

---
 torch_struct/semirings/sparse_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index ef688eb..f1baa2c 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -23,7 +23,7 @@ class _SimplexProject(torch.autograd.Function):
     def forward(ctx, input, dim, z=1):
         w_star = project_simplex(input, dim)
         ctx.save_for_backward(input, w_star.clone(), torch.tensor(dim))
-        x = input.mul(w_star).sum(dim) - w_star.norm(p=2, dim=dim)
+        x = input.mul(w_star).sum(dim) - 0.5 * w_star.pow(2).sum(dim)
         return x
 
     @staticmethod
-- 
2.43.0


From ab075a732d517f981915d5bf54f2ea93eafee19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:42 +0000
Subject: [PATCH 08/14] fix: second-order gradient of the sparsemax sum reaches
 its input

---
 torch_struct/semirings/sparse_max.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index f1baa2c..64232d1 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -29,25 +29,24 @@ class _SimplexProject(torch.autograd.Function):
     @staticmethod
     def backward(ctx, grad_output):
         input, w_star, dim = ctx.saved_tensors
-        w_star.requires_grad_(True)
 
         grad_input = None
         if ctx.needs_input_grad[0]:
-            wstar = _SparseMaxGrad.apply(w_star, dim)
+            wstar = _SparseMaxGrad.apply(input, w_star, dim)
             grad_input = grad_output.unsqueeze(dim).mul(wstar)
         return grad_input, None, None
 
 
 class _SparseMaxGrad(torch.autograd.Function):
     @staticmethod
-    def forward(ctx, w_star, dim):
+    def forward(ctx, input, w_star, dim):
         ctx.save_for_backward(w_star, dim)
-        return w_star
+        return w_star.clone()
 
     @staticmethod
     def backward(ctx, grad_output):
         w_star, dim = ctx.saved_tensors
-        return sparsemax_grad(grad_output, w_star, dim.item()), None
+        return sparsemax_grad(grad_output, w_star, dim.item()), None, None
 
 
 def project_simplex(v, dim, z=1):
-- 
2.43.0


From 3e3c84a22e8fb00363e7562e45ba684fe4cf8e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:44 +0000
Subject: [PATCH 09/14] fix: project onto the simplex along the requested
 dimension

---
 torch_struct/semirings/sparse_max.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index 64232d1..ecab312 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -53,6 +53,7 @@ def project_simplex(v, dim, z=1):
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
+    ind = ind.view([-1 if d == dim % v.dim() else 1 for d in range(v.dim())])
     cond = v_sorted - cssv / ind >= 0
     k = cond.sum(dim=dim, keepdim=True)
     tau = cssv.gather(dim, k - 1) / k.to(dtype=v.dtype)
-- 
2.43.0


From 1cfe4ef36a23d0deb494609ef13faf820afe36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:21:12 +0000
Subject: [PATCH 10/14] fix: draw separate Gumbel noise for every position and
 batch element

---
 torch_struct/semirings/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/sample.py b/torch_struct/semirings/sample.py
index 09ec189..2e258d5 100644
--- a/torch_struct/semirings/sample.py
+++ b/torch_struct/semirings/sample.py
@@ -69,7 +69,7 @@ def GumbelMaxSemiring(temp):
                 def sample(ls):
                     pre_shape = ls.shape
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = torch.nn.functional.one_hot(update.max(-1)[1], pre_shape[-1])
                     return out
@@ -127,7 +127,7 @@ def GumbelCRFSemiring(temp):
 
                 def sample(ls):
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = ST.apply(update, ls.shape[-1])
                     return out
-- 
2.43.0


From 06ba2d4da2480a5f1c2b811e37bfc5da9192654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:44 +0000
Subject: [PATCH 11/14] fix: checkpointed products with a gradient for only one
 operand

---
 torch_struct/semirings/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..f640f96 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -30,7 +30,7 @@ def CheckpointSemiring(cls, min_size=0):
 
         @staticmethod
         def backward(ctx, grad_output):
-            a, b = ctx.saved_tensors
+            a, b = (x.detach().requires_grad_(True) for x in ctx.saved_tensors)
             with torch.enable_grad():
                 q = cls.matmul(a, b)
                 return torch.autograd.grad(q, (a, b), grad_output)
@@ -159,8 +159,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output)
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
-- 
2.43.0


From ab1224f2992aa52a697d14b4816817fb51d65352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:11 +0000
Subject: [PATCH 12/14] fix: sharded products of semirings with several
 components

---
 torch_struct/semirings/checkpoint.py | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f640f96..ad226c0 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -138,11 +138,12 @@ def accumulate_(a, b, size, fn, preserve, step=10000):
     a = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
 
-    a2 = a.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b.contiguous().view(-1, b.shape[-2], b.shape[-1])
-    ret = ret.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, ret.shape[0], step):
-        ret[p : p + step, :] = fn(a2[p : p + step], b2[p : p + step])
+    # The first dimension holds the components of the semiring.
+    a2 = a.contiguous().view(size[0], -1, a.shape[-2], a.shape[-1])
+    b2 = b.contiguous().view(size[0], -1, b.shape[-2], b.shape[-1])
+    ret = ret.view(size[0], -1, a.shape[-2], b.shape[-1])
+    for p in range(0, ret.shape[1], step):
+        ret[:, p : p + step] = fn(a2[:, p : p + step], b2[:, p : p + step])
     ret = ret.view(*size)
     return ret
 
@@ -165,27 +166,28 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b2 = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
-    a2 = a2.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b2.contiguous().view(-1, b.shape[-2], b.shape[-1])
+    a2 = a2.contiguous().view(size[0], -1, a.shape[-2], a.shape[-1])
+    b2 = b2.contiguous().view(size[0], -1, b.shape[-2], b.shape[-1])
 
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, grad_output.shape[0], step):
+    grad_output = grad_output.reshape(size[0], -1, a.shape[-2], b.shape[-1])
+    for p in range(0, grad_output.shape[1], step):
         with torch.enable_grad():
-            a_in = a2[p : p + step].clone().requires_grad_(True)
-            b_in = b2[p : p + step].clone().requires_grad_(True)
+            a_in = a2[:, p : p + step].clone().requires_grad_(True)
+            b_in = b2[:, p : p + step].clone().requires_grad_(True)
             q = fn(a_in, b_in)
-        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[p : p + step])
-        a_grad[p : p + step] += ag
-        b_grad[p : p + step] += bg
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[:, p : p + step])
+        a_grad[:, p : p + step] += ag
+        b_grad[:, p : p + step] += bg
 
     a_grad = a_grad.view(*size[:-2], a.shape[-2], a.shape[-1])
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
     a_ones = ones(a)
     b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
+    f1 = a_grad.sum(a_ones, keepdim=True) if a_ones else a_grad
+    f2 = b_grad.sum(b_ones, keepdim=True) if b_ones else b_grad
     return f1, f2
 
 
-- 
2.43.0


From 23f3d6f1ba265f40214ac3bcf124f6222a89fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:56 +0000
Subject: [PATCH 13/14] fix: log-probability of events when other parts are
 forbidden

---
 torch_struct/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index 85f0c13..d1ee36d 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -29,7 +29,9 @@ class _Struct:
         self.semiring = semiring
 
     def score(self, potentials, parts, batch_dims=[0]):
-        score = torch.mul(potentials, parts)
+        # a forbidden part (-inf) that is not used does not contribute
+        unused = parts.eq(0) & potentials.eq(-float("inf"))
+        score = torch.mul(potentials.masked_fill(unused, 0), parts)
         batch = tuple((score.shape[b] for b in batch_dims))
         return self.semiring.prod(score.reshape(batch + (-1,)))
 
-- 
2.43.0


From e787dad08d5d07a4c7c1904148aeb143faaff076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:56 +0000
Subject: [PATCH 14/14] fix: sample when some partial structures are forbidden

---
 torch_struct/semirings/sample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_struct/semirings/sample.py b/torch_struct/semirings/sample.py
index 2e258d5..affcc1c 100644
--- a/torch_struct/semirings/sample.py
+++ b/torch_struct/semirings/sample.py
@@ -17,6 +17,9 @@ class _SampledLogSumExp(torch.autograd.Function):
 
             def sample(ls):
                 pre_shape = ls.shape
+                # nothing is drawn from here when every option is forbidden
+                dead = ls.eq(-float("inf")).all(-1, keepdim=True)
+                ls = ls.masked_fill(dead, 0)
                 draws = torch.multinomial(
                     ls.softmax(-1).view(-1, pre_shape[-1]), 1, True
                 )
@@ -172,6 +175,9 @@ class _MultiSampledLogSumExp(torch.autograd.Function):
 
             def sample(ls):
                 pre_shape = ls.shape
+                # nothing is drawn from here when every option is forbidden
+                dead = ls.eq(-float("inf")).all(-1, keepdim=True)
+                ls = ls.masked_fill(dead, 0)
                 draws = torch.multinomial(
                     ls.softmax(-1).view(-1, pre_shape[-1]), 16, True
                 )
-- 
2.43.0

