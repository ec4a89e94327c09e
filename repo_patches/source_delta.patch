From cd18bbc51a44fc353133be6f3be38f2a1cd5d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 01/34] fix: don't clone the arguments of an expanded
 SubsumingElemwise

The expansion used `clone_replace`, which also clones the arguments' graphs, so
the expanded model referred to copies of its random variables instead of the
random variables themselves.
---
 aemcmc/rewriting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..ba933ba 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,7 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -385,11 +385,17 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # The node's inputs must be used as they are (i.e. not cloned); otherwise, the
+    # expanded graph would refer to copies of the random variables it depends on
+    memo = clone_get_equiv(
+        [],
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo={u: v for u, v in zip(op.inner_inputs, node.inputs)},
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From 4cd5c516d115ac427916d9437cc54115739c3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 02/34] fix: don't hide the constant arguments of variadic
 Elemwise Ops when subsuming DimShuffles

E.g. `2 * x` was turned into `SubsumingElemwise{mul}(x)`, which the
canonicalizations then simplified to `x`.
---
 aemcmc/rewriting.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index ba933ba..8e7c541 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -360,6 +360,13 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
     used_inputs = remove_constants(new_inputs)
+
+    if len(used_inputs) != len(new_inputs) and node.op.scalar_op.nin < 0:
+        # Variadic operations (e.g. `add` and `mul`) are still meaningful when
+        # arguments are removed, so the constants can't be hidden without making
+        # other rewrites believe that they're not there at all
+        return None
+
     new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)
 
     new_out = new_op(*used_inputs)
-- 
2.43.0


From c9efd3920bc53e59c91a6d66b43323e495e50128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 03/34] fix: build the sampling steps without altering the
 model and the other steps' graphs

The steps were updated in-place with `FunctionGraph.replace_all`, but they share
nodes with each other and with the model graph.  A step's inputs could be left at
(or set to) the wrong iteration's values and the hyper-parameters in the model
graph given to NUTS could be replaced by sampling steps.
---
 aemcmc/basic.py | 55 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..b5d1caa 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,6 @@
 from typing import Dict, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
@@ -53,6 +53,9 @@ def construct_sampler(
     # TODO FIXME: Get/extract `Scan`-generated updates
     posterior_updates: Dict[Variable, Variable] = {}
 
+    # Maps the discovered steps' outputs to the ones used by the sampler
+    built_steps: Dict[Variable, Variable] = {}
+
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
     rvs_without_samplers = set()
 
@@ -69,37 +72,53 @@ def construct_sampler(
         # TODO FIXME: Just choosing one for now, but we should consider them all.
         step_desc, step, updates = rv_steps.pop()
 
-        # Expand subsumed `DimShuffle`d inputs to `Elemwise`s
         if updates:
             update_keys, update_values = zip(*updates.items())
         else:
             update_keys, update_values = tuple(), tuple()
 
-        sfgraph = FunctionGraph(
-            outputs=(step,) + tuple(update_keys) + tuple(update_values),
-            clone=False,
+        # Update the other sampled random variables in this step's graph.  The
+        # steps can share nodes with each other and with the model graph, so
+        # the replacements can't be performed in-place.
+        memo = {**posterior_sample_steps, **built_steps}
+        memo = clone_get_equiv(
+            list(memo.keys()),
+            (step,) + tuple(update_values),
             copy_inputs=False,
             copy_orphans=False,
+            memo=memo,
         )
 
-        # Update the other sampled random variables in this step's graph
-        sfgraph.replace_all(list(posterior_sample_steps.items()), import_missing=True)
+        # Steps can be `RandomVariable`s, and the updates of their RNGs need to
+        # follow them
+        for rng, rng_update in srng.state_updates:
+            if rng.default_update is rng_update:
+                rng.default_update = memo.get(rng_update, rng_update)
 
-        expand_subsumptions.rewrite(sfgraph)
+        srng.state_updates = [
+            (rng, memo.get(rng_update, rng_update))
+            for rng, rng_update in srng.state_updates
+        ]
 
-        step = sfgraph.outputs[0]
+        sfgraph = FunctionGraph(
+            outputs=[memo[step]] + [memo[value] for value in update_values],
+            clone=False,
+            copy_inputs=False,
+            copy_orphans=False,
+        )
 
-        # Update the other sampled random variables in this step's graph
-        # (step,) = clone_replace([step], replace=posterior_sample_steps)
+        # Expand subsumed `DimShuffle`d inputs to `Elemwise`s
+        expand_subsumptions.rewrite(sfgraph)
 
-        posterior_sample_steps[rv] = step
+        # A step can update more than one variable, and be an input to the
+        # steps of other variables
+        if step.owner:
+            built_steps.update(
+                zip(step.owner.outputs, sfgraph.outputs[0].owner.outputs)
+            )
 
-        if updates:
-            keys_offset = len(update_keys) + 1
-            update_keys = sfgraph.outputs[1:keys_offset]
-            update_values = sfgraph.outputs[keys_offset:]
-            updates = dict(zip(update_keys, update_values))
-            posterior_updates.update(updates)
+        posterior_sample_steps[rv] = sfgraph.outputs[0]
+        posterior_updates.update(zip(update_keys, sfgraph.outputs[1:]))
 
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
-- 
2.43.0


From 91c46665e072ab8fa3b098c4ac260246037e735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 04/34] fix: make the order of the variables sampled with NUTS
 deterministic

---
 aemcmc/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index b5d1caa..85e8008 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -57,7 +57,7 @@ def construct_sampler(
     built_steps: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    rvs_without_samplers = []
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -66,7 +66,7 @@ def construct_sampler(
         rv_steps = discovered_samplers.get(rv)
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -123,7 +123,7 @@ def construct_sampler(
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
         to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
+            rv: posterior_sample_steps[rv] for rv in rvs_without_samplers
         }
         realized_values = {
             rv: vv
-- 
2.43.0


From 3a09bdce989c166523181166ae57e81bb91c53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 05/34] fix: allow values computed by other sampling steps in
 the NUTS sampling step

---
 aemcmc/nuts.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..f10043a 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -150,7 +150,23 @@ def construct_sampler(
     to_sample_rvs: Dict[RandomVariable, TensorVariable],
     realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
 ) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
-    results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)
+    # The realized values can be arbitrary graphs (e.g. the sampling steps of other
+    # variables). They are inputs of the NUTS sampling step, so the latter needs to
+    # be built using placeholders.
+    placeholders_to_values = {
+        vv.clone(): vv
+        for vv in realized_rvs_to_values.values()
+        if vv.owner is not None
+    }
+    values_to_placeholders = {vv: pv for pv, vv in placeholders_to_values.items()}
+    results, updates, parameters = step(
+        srng,
+        to_sample_rvs,
+        {
+            rv: values_to_placeholders.get(vv, vv)
+            for rv, vv in realized_rvs_to_values.items()
+        },
+    )
 
     # Build an `Op` that represents the NUTS sampling step
     update_outputs = list(updates.values())
@@ -162,7 +178,7 @@ def construct_sampler(
     ]
     nuts_op = NUTSKernel(inputs, outputs)
 
-    posterior = nuts_op(*inputs)
+    posterior = nuts_op(*[placeholders_to_values.get(inp, inp) for inp in inputs])
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
     updates_input = posterior[0].owner.inputs[len(inputs) :]
-- 
2.43.0


From 852678acb3137db9a839f1e4f1fcc3bff55001fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 06/34] fix: pair the NUTS updates with the variables they
 update

The inputs `OpFromGraph` adds to a node aren't ordered like the updates.
---
 aemcmc/nuts.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index f10043a..283dc59 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -180,12 +180,7 @@ def construct_sampler(
 
     posterior = nuts_op(*[placeholders_to_values.get(inp, inp) for inp in inputs])
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
-
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    updates = dict(zip(updates.keys(), posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From 7b2312c174d1964bad19c26fbf3136e6f5e524ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 07/34] fix: use the parents' values in the NUTS transforms

The transforms' parameters were computed from (new draws of) the random variables
instead of their current values.
---
 aemcmc/nuts.py | 58 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 283dc59..5dc0d37 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, Tuple
+from typing import Callable, Dict, List, Tuple
 
 import aesara
 import aesara.tensor as at
@@ -12,7 +12,7 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs, io_toposort
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -86,7 +86,9 @@ def step(
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(
+            rv, vv, transforms[rv], {**realized_rvs_to_values, **to_sample_rvs}
+        )
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -133,10 +135,20 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
-    }
+    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))
+    results: Dict[RandomVariable, TensorVariable] = {}
+    # The transforms can depend on the values of other random variables, so the
+    # variables need to be transformed back after the ones they depend on
+    for node in io_toposort([], list(to_sample_rvs)):
+        for rv in node.outputs:
+            if rv in rvs_to_placeholders:
+                results[rv] = transform_backward(
+                    rv,
+                    transformed_params[rvs_to_placeholders[rv]],
+                    transforms[rv],
+                    {**realized_rvs_to_values, **results},
+                )
+    results = {rv: results[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -194,10 +206,29 @@ def get_transform(rv: TensorVariable):
         return None
 
 
-def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def realize_inputs(
+    rv: TensorVariable, rvs_to_values: Dict[RandomVariable, TensorVariable]
+) -> List[TensorVariable]:
+    """Get the inputs of a random variable with other random variables set to their values."""
+    memo = clone_get_equiv(
+        [],
+        rv.owner.inputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(rvs_to_values),
+    )
+    return [memo[inp] for inp in rv.owner.inputs]
+
+
+def transform_forward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[RandomVariable, TensorVariable],
+):
     """Push variables to the transformed space."""
     if transform:
-        res = transform.forward(vv, *rv.owner.inputs)
+        res = transform.forward(vv, *realize_inputs(rv, rvs_to_values))
         if vv.name:
             res.name = f"{vv.name}_trans"
         return res
@@ -205,10 +236,15 @@ def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTrans
         return vv
 
 
-def transform_backward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_backward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[RandomVariable, TensorVariable],
+):
     """Pull variables back from the transformed space."""
     if transform:
-        res = transform.backward(vv, *rv.owner.inputs)
+        res = transform.backward(vv, *realize_inputs(rv, rvs_to_values))
         return res
     else:
         return vv
-- 
2.43.0


From e75a9ab666d9a34efc3710f30e4d7a289afcf7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 08/34] fix: use the rate of the gamma prior in the
 gamma-Poisson posterior

The inputs of gamma nodes are scales, and the posterior's rate was computed as scale + 1.
---
 aemcmc/conjugates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..763dc87 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -52,7 +52,9 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    # The `RandomVariable` nodes of gammas are parameterized by their scale, while
+    # `at.random.gamma` expects a rate
+    new_beta_et = etuple(etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), 1)
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From 2e1e62d6b0fb68d8d9c58a2f51c83bc1015a37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 09/34] fix: use rates in the horseshoe posteriors

`exponential` is parameterized by its scale, but it was given rates.
---
 aemcmc/gibbs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..7f60c9d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,13 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From 71fcff5de858e528ea069ae781945474aa2d7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 10/34] fix: use the prior precision in the normal regression
 posterior

The inverse standard deviations were used in place of the precisions.
---
 aemcmc/gibbs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 7f60c9d..c7dd921 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + lmbdatau_inv**2,
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, lmbdatau_inv**2, omega, X, z)
 
 
 def normal_regression_posterior(
@@ -94,7 +94,7 @@ def normal_regression_posterior(
         \begin{align*}
             \left( \beta \mid Z = z \right) &\sim
                 \operatorname{N}\left( A^{-1} X^{\top} \Omega z, A^{-1} \right) \\
-            A &= X^{\top} X + \Lambda^{-1}_{*} \\
+            A &= X^{\top} \Omega X + \Lambda^{-1}_{*} \\
             \Lambda_{*} &= \tau^2 \Lambda
         \end{align*}
 
-- 
2.43.0


From 7ba8598d24e04dd5161001da26255ea9ca397b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 11/34] fix: pair the dispersion sampler's updates with the
 RNGs they update

The inputs `OpFromGraph` adds to a node aren't ordered like the updates.
---
 aemcmc/gibbs.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index c7dd921..c647b9d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -631,8 +631,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    updates = {h_rng: h_rng.default_update, **updates}
+    update_outputs = list(updates.values())
 
     outputs = [h_posterior] + update_outputs
     inputs = remove_constants([h, p, a, b, y])
@@ -641,11 +642,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    updates = dict(zip(updates.keys(), h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
-- 
2.43.0


From e2ec447420bd74e245d1f0ed92e8674ac068b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 12/34] fix: use the current regression parameters in the
 dispersion sampler

A regression parameter that's observed isn't updated, so its sampling step can't be
used in the one for the dispersion parameter.
---
 aemcmc/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index c647b9d..ba58c06 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -626,7 +626,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return res
 
-    p = at.sigmoid(-X @ beta_posterior)
+    p = at.sigmoid(-X @ beta_rv)
 
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
-- 
2.43.0


From 6f20411be87439270853e85205a5ea72f0b051bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 13/34] fix: use the matched link function in the Bernoulli
 regression sampler

---
 aemcmc/gibbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index ba58c06..2310cea 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -751,7 +751,9 @@ def bern_logistic_finder(fgraph, node, srng):
         return None
 
     beta_std = beta_rv.owner.inputs[4]
-    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
+    # The matched link function is `sigmoid(-X @ beta)`, while the sampling step's
+    # is `sigmoid(X @ beta)`
+    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-- 
2.43.0


From 6e390deaef6efa630c287b2d7a13513da7c2bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 14/34] fix: don't use the conjugate posteriors when there's
 more than one observation

The posteriors don't account for an observation model that's broadcasted or for
the other random variables that depend on the prior.
---
 aemcmc/conjugates.py | 30 ++++++++++++++++++++++++++++++
 aemcmc/utils.py      | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 763dc87..68a13cc 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -11,9 +11,27 @@ from kanren import eq, lall, run
 from unification import var
 
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.utils import is_only_used_by
 
 if TYPE_CHECKING:
+    from aesara.graph.basic import Apply
+    from aesara.graph.fg import FunctionGraph
     from aesara.tensor.random.utils import RandomStream
+    from aesara.tensor.var import TensorVariable
+
+
+def has_conjugate_posterior(
+    fgraph: "FunctionGraph", prior_rv: "TensorVariable", node: "Apply"
+) -> bool:
+    """Determine whether or not the posterior of `prior_rv` only depends on the observation model in `node`.
+
+    The posteriors in this module are for a single observation per prior
+    element, so the observation model also can't be broadcasted.
+    """
+    return (
+        prior_rv.type.broadcastable == node.outputs[1].type.broadcastable
+        and is_only_used_by(fgraph, prior_rv, node)
+    )
 
 
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
@@ -84,6 +102,10 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     gamma_rv = rv_et[-1].evaled_obj
+
+    if not has_conjugate_posterior(fgraph, gamma_rv, node):
+        return None
+
     gamma_posterior = eval_if_etuple(res)
 
     return [(gamma_rv, gamma_posterior, None)]
@@ -158,6 +180,10 @@ def local_beta_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not has_conjugate_posterior(fgraph, beta_rv, node):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
@@ -235,6 +261,10 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not has_conjugate_posterior(fgraph, beta_rv, node):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..e43d8d0 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -2,12 +2,15 @@ from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Dict, Optional, Tuple
 
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Constant, Variable, ancestors
+from aesara.graph.basic import Apply, Constant, Variable, ancestors
 from aesara.tensor import as_tensor_variable
+from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.type import RandomType
+from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
 
 if TYPE_CHECKING:
+    from aesara.graph.fg import FunctionGraph
     from aesara.tensor.random.utils import RandomStream
 
 
@@ -80,6 +83,35 @@ def remove_constants(inputs):
     return res
 
 
+def is_only_used_by(fgraph: "FunctionGraph", rv: TensorVariable, node: Apply) -> bool:
+    """Determine whether or not `node` is the only `RandomVariable` that depends on `rv`.
+
+    The dependency must consist of a single chain of `Apply` nodes.  Uses of a
+    variable's shape aren't dependencies on its value.
+    """
+    var = rv
+
+    while True:
+        clients = [
+            client
+            for client, _ in fgraph.clients.get(var, [])
+            if client != "output" and not isinstance(client.op, (Shape, Shape_i))
+        ]
+
+        if len(clients) != 1:
+            return False
+
+        (client,) = clients
+
+        if client is node:
+            return True
+
+        if isinstance(client.op, RandomVariable) or len(client.outputs) != 1:
+            return False
+
+        (var,) = client.outputs
+
+
 def get_rv_updates(
     srng: "RandomStream", *rvs: TensorVariable
 ) -> Dict[SharedVariable, "Variable"]:
-- 
2.43.0


From 05f2e411273a56482cc2e15ecad63e799bcde102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 15/34] fix: match only models with a horseshoe prior in the
 horseshoe sampler

The sampler assumes a zero mean, standard half-Cauchy shrinkage parameters, one
local shrinkage parameter per element, and no other use of them.
---
 aemcmc/gibbs.py | 28 +++++++++++++++++++++++++++-
 aemcmc/utils.py | 10 ++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 2310cea..5d959c0 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -21,7 +21,7 @@ from aemcmc.dists import (
 )
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
-from aemcmc.utils import remove_constants
+from aemcmc.utils import is_constant_value, is_only_used_by, remove_constants
 
 gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
@@ -169,6 +169,17 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model is not half-Cauchy distributed."
         )
 
+    if not is_constant_value(eval_if_etuple(s[zero_lv]), 0):
+        raise ValueError("Not a horseshoe prior. The mean is not zero.")
+
+    for halfcauchy in (halfcauchy_1, halfcauchy_2):
+        loc, scale = halfcauchy.owner.inputs[3:]
+        if not (is_constant_value(loc, 0) and is_constant_value(scale, 1)):
+            raise ValueError(
+                "Not a horseshoe prior. One of the shrinkage parameters "
+                + "in your model is not a standard half-Cauchy."
+            )
+
     if halfcauchy_1.type.ndim == 0 or all(s == 1 for s in halfcauchy_1.type.shape):
         lmbda_rv = halfcauchy_2
         tau_rv = halfcauchy_1
@@ -181,6 +192,15 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model must be one-dimensional."
         )
 
+    if (
+        lmbda_rv.type.ndim != 1
+        or lmbda_rv.type.broadcastable != graph.type.broadcastable
+    ):
+        raise ValueError(
+            "Not a horseshoe prior. There must be one local shrinkage parameter "
+            + "for each element of a vector."
+        )
+
     return (lmbda_rv, tau_rv)
 
 
@@ -292,6 +312,12 @@ def normal_horseshoe_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not (
+        is_only_used_by(fgraph, lambda_rv, node)
+        and is_only_used_by(fgraph, tau_rv, node)
+    ):
+        return None
+
     tau2 = tau_rv**2
     lambda2 = lambda_rv**2
     lambda_posterior, tau_posterior = horseshoe_posterior(
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index e43d8d0..fbd1115 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -4,6 +4,8 @@ from typing import TYPE_CHECKING, Dict, Optional, Tuple
 from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Apply, Constant, Variable, ancestors
 from aesara.tensor import as_tensor_variable
+from aesara.tensor.basic import get_scalar_constant_value
+from aesara.tensor.exceptions import NotScalarConstantError
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.type import RandomType
 from aesara.tensor.shape import Shape, Shape_i
@@ -83,6 +85,14 @@ def remove_constants(inputs):
     return res
 
 
+def is_constant_value(x: TensorVariable, value: float) -> bool:
+    """Determine whether or not all the elements of `x` are a constant `value`."""
+    try:
+        return bool(get_scalar_constant_value(x) == value)
+    except NotScalarConstantError:
+        return False
+
+
 def is_only_used_by(fgraph: "FunctionGraph", rv: TensorVariable, node: Apply) -> bool:
     """Determine whether or not `node` is the only `RandomVariable` that depends on `rv`.
 
-- 
2.43.0


From 9334c89acc0c928c9a0cf7c2ec2fe566195b9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 16/34] fix: require a negative dot product in the logistic
 regression samplers

Any vector of constants containing a -1 was accepted, and non-constant factors raised
exceptions.
---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 5d959c0..8b0309d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -379,7 +379,7 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant_value(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a negative binomial regression. The argument to "
             + "the sigmoid must be minus the dot product."
@@ -692,7 +692,7 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant_value(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a Bernoulli regression. The argument to the sigmoid "
             + "must be minus the dot product."
-- 
2.43.0


From 1a7746893431f58afb4155fb59c9ec19ea9fbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 17/34] fix: only use the logistic regression samplers for
 regression parameters

They were used for variables that don't have a zero-mean normal prior, or that other
random variables depend on.
---
 aemcmc/gibbs.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 8b0309d..f1db215 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -365,6 +365,23 @@ def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
     return a, b
 
 
+def is_regression_parameter(fgraph, beta_rv: TensorVariable, node) -> bool:
+    """Determine whether or not `beta_rv` can be sampled as the parameter of the regression in `node`.
+
+    It must be a vector with a zero-mean normal prior, and only be used to
+    compute the success probabilities of a vector of observations.
+    """
+    return (
+        beta_rv.owner is not None
+        and isinstance(beta_rv.owner.op, NormalRV)
+        and is_constant_value(beta_rv.owner.inputs[3], 0)
+        and beta_rv.type.ndim == 1
+        and node.outputs[1].type.ndim == 1
+        and node.outputs[1].type.broadcastable == node.inputs[-1].type.broadcastable
+        and is_only_used_by(fgraph, beta_rv, node)
+    )
+
+
 h_lv = var()
 nbinom_sigmoid_dot_pattern = etuple(
     etuplize(at.random.nbinom), var(), var(), var(), h_lv, sigmoid_dot_pattern
@@ -631,6 +648,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_regression_parameter(fgraph, beta_rv, node):
+        return None
+
     beta_std = beta_rv.owner.inputs[4]
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
@@ -776,6 +796,9 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_regression_parameter(fgraph, beta_rv, node):
+        return None
+
     beta_std = beta_rv.owner.inputs[4]
     # The matched link function is `sigmoid(-X @ beta)`, while the sampling step's
     # is `sigmoid(X @ beta)`
-- 
2.43.0


From 3838381ae87bf2867c77f9adc4da5a1c6d30866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 18/34] fix: allow scalar prior std. dev.s in the logistic
 regression samplers

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index f1db215..33f027a 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -651,7 +651,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     if not is_regression_parameter(fgraph, beta_rv, node):
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
+    beta_std = at.broadcast_to(beta_rv.owner.inputs[4], (X.shape[1],))
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
@@ -799,7 +799,7 @@ def bern_logistic_finder(fgraph, node, srng):
     if not is_regression_parameter(fgraph, beta_rv, node):
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
+    beta_std = at.broadcast_to(beta_rv.owner.inputs[4], (X.shape[1],))
     # The matched link function is `sigmoid(-X @ beta)`, while the sampling step's
     # is `sigmoid(X @ beta)`
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
-- 
2.43.0


From 2bbb8e0e205c490f70530eed0eaeecb89f51ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 19/34] fix: only sample scalar dispersion parameters that
 nothing else depends on

The sampler is for a single dispersion parameter and doesn't account for other
random variables that depend on it.
---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 33f027a..8a88410 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -667,6 +667,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     ] = [(beta_rv, beta_posterior, None)]
 
     # TODO: Should this be in a separate rewriter?
+    if h.type.ndim != 0 or not is_only_used_by(fgraph, h, node):
+        return res
+
     try:
         a, b = gamma_match(h)
     except ValueError:  # pragma: no cover
-- 
2.43.0


From eaeea20a9f6dedf819ac21aa4a64c7300231e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 20/34] fix: don't use steps that also update observed
 variables

The remaining variables' updates could depend on values sampled for the observed ones.
---
 aemcmc/basic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 85e8008..06a7d91 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -59,13 +59,20 @@ def construct_sampler(
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
     rvs_without_samplers = []
 
+    # A step that updates multiple variables can't be used when some are observed
+    observed_steps = {
+        step.owner
+        for rv in obs_rvs_to_values
+        for _, step, _ in discovered_samplers.get(rv, [])
+    }
+
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
             continue
 
         rv_steps = discovered_samplers.get(rv)
 
-        if not rv_steps:
+        if not rv_steps or rv_steps[-1][1].owner in observed_steps:
             rvs_without_samplers.append(rv)
             continue
 
-- 
2.43.0


From 4bb366e7f4fc8666a27aaa91081a4af936b58211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 21/34] fix: use the negative-binomial regression sampler when
 the dispersion is not random

---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 8a88410..517ba90 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -354,6 +354,9 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
-- 
2.43.0


From 96b1dfe9aa3fede6d22847559f9dc34666d48012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 22/34] fix: ignore RNGs that aren't shared variables in
 get_rv_updates

---
 aemcmc/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index fbd1115..4a78182 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -7,7 +7,6 @@ from aesara.tensor import as_tensor_variable
 from aesara.tensor.basic import get_scalar_constant_value
 from aesara.tensor.exceptions import NotScalarConstantError
 from aesara.tensor.random.op import RandomVariable
-from aesara.tensor.random.type import RandomType
 from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
 
@@ -149,7 +148,7 @@ def get_rv_updates(
     rv_updates = {}
 
     for var in ancestors(rvs):
-        if not isinstance(var, SharedVariable) and not isinstance(var.type, RandomType):
+        if not isinstance(var, SharedVariable):
             continue
 
         # TODO: Consider making sure the updates correspond to "in-place"
-- 
2.43.0


From 5661f8ac43d40d84231bb5579408fed78ae6294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 23/34] fix: allow tensor-valued default updates in
 get_rv_updates

---
 aemcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index 4a78182..1e8013f 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -158,7 +158,7 @@ def get_rv_updates(
         # bad/disassociated updates).
         srng_update = srng_updates.get(var)
 
-        if var.default_update:
+        if var.default_update is not None:
             if srng_update:
                 assert srng_update == var.default_update
 
-- 
2.43.0


From 2968f79b72c141b74bb8dca16961cfe8417aff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 24/34] fix: draw independent elements in the non-centered
 location-scale form

A single standardized value was shared by all the elements of a random variable whose
shape is determined by its parameters.
---
 aemcmc/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 106d586..7d5af9d 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -58,8 +58,10 @@ def location_scale_transform(in_expr, out_expr):
             sd_lv,
             etuple(
                 distribution_lv,
-                0,
-                1,
+                # The standardized variable needs as many independent elements
+                # as the centered one
+                etuple(at.zeros_like, mu_lv),
+                etuple(at.ones_like, sd_lv),
                 rng=rng_lv,
                 size=size_lv,
                 dtype=type_idx_lv,
-- 
2.43.0


From bf27578e1709341701bedee23bd28dd8c7344f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 25/34] fix: list the NUTS step last in the scan order

The other steps use the values preceding it and are used by it.
---
 aemcmc/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 06a7d91..ccf928a 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -141,7 +141,11 @@ def construct_sampler(
             srng, to_sample_rvs, realized_values
         )
 
-        posterior_sample_steps.update(nuts_sample_steps)
+        # The NUTS step is performed last, and `Sampler.stages` is in scan order
+        for rv, step in nuts_sample_steps.items():
+            del posterior_sample_steps[rv]
+            posterior_sample_steps[rv] = step
+
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-- 
2.43.0


From ee31d6952e87cfb76bef63c0aa91235e963901ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 26/34] fix: don't let joint_logprob alter the model that NUTS
 transforms back with

---
 aemcmc/nuts.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 5dc0d37..30d0767 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -96,10 +96,19 @@ def step(
     # of the realized variables. The placeholder nodes are defined in the
     # transformed space and will be replaced by their actual value when building
     # the NUTS kernel.
+    # `joint_logprob` can alter the model graph in-place, so it's given a copy.
+    memo = clone_get_equiv(
+        [],
+        list(to_sample_rvs) + list(realized_rvs_to_values),
+        copy_inputs=False,
+        copy_orphans=False,
+    )
     logprob, placeholder_values = joint_logprob(
-        *to_sample_rvs.keys(),
-        realized=realized_rvs_to_values,
-        extra_rewrites=TransformValuesRewrite(transforms),
+        *[memo[rv] for rv in to_sample_rvs],
+        realized={memo[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+        extra_rewrites=TransformValuesRewrite(
+            {memo[rv]: transform for rv, transform in transforms.items()}
+        ),
     )
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
-- 
2.43.0


From 577024e22b8e68d5b604062132b4eacf1016943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 27/34] fix: allow symbolic transition matrices in ffbs_step

---
 aemcmc/ffbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..ab005d0 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -78,7 +78,8 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.as_tensor(Gammas)
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From d7dd9b62948476f30d2f8be128db1d5961a81c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 28/34] fix: re-normalize small forward probabilities in
 ffbs_step

---
 aemcmc/ffbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index ab005d0..34f5725 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -87,7 +87,7 @@ def ffbs_step(
         alpha_n = at.dot(alpha_nm1, Gamma_n) * lik_n
         alpha_n_sum = at.sum(alpha_n, axis=-1)
         rescaled_alpha_n = at.switch(
-            at.lt(alpha_n_sum, lower_prec_bound), alpha_n / lower_prec_bound, alpha_n
+            at.lt(alpha_n_sum, lower_prec_bound), alpha_n / alpha_n_sum, alpha_n
         )
         return rescaled_alpha_n
 
-- 
2.43.0


From d4c088c5d7c3977055274635243b0ab65d0be688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 29/34] fix: broadcast the parameters of a Polya-Gamma draw

---
 aemcmc/dists.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index ecf5386..f21fc62 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -21,6 +21,8 @@ class PolyaGammaRV(RandomVariable):
     @classmethod
     def rng_fn(cls, rng, h, z, size=None):
         bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
+        # `random_polyagamma` doesn't broadcast vectors of length one
+        h, z = (np.array(arg) for arg in np.broadcast_arrays(h, z))
         return random_polyagamma(h, z, size=size, random_state=bg).astype(
             aesara.config.floatX
         )
-- 
2.43.0


From ed58dee68c5e09b949332ee073af64f086728499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 30/34] fix: regression steps have the type of their variable

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 517ba90..5f6fba5 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -658,7 +658,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [beta_posterior.astype(beta_rv.dtype)]
     inputs = remove_constants([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
@@ -811,7 +811,7 @@ def bern_logistic_finder(fgraph, node, srng):
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [beta_posterior.astype(beta_rv.dtype)]
     inputs = remove_constants([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
-- 
2.43.0


From dcc493bc66828d0657565a2be4e74cae9bbf0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 31/34] fix: NUTS steps were used for discrete variables

---
 aemcmc/nuts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 30d0767..71cfabe 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -16,6 +16,7 @@ from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs, io_toposort
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
+from aesara.tensor.type import discrete_dtypes
 from aesara.tensor.var import TensorVariable
 
 from aemcmc.types import SamplingStep
@@ -77,6 +78,11 @@ def step(
 
     """
 
+    # The log-density of discrete variables has no gradient
+    for rv in to_sample_rvs:
+        if rv.type.dtype in discrete_dtypes:
+            raise NotImplementedError(f"NUTS cannot sample the discrete variable {rv}")
+
     # Get the initial values for the random variables that are assigned this
     # sampling step.
     initial_values = to_sample_rvs.values()
-- 
2.43.0


From ed7669fdac9552ce3b2eedb3ecd75ece372e91ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 32/34] fix: ffbs_step lost its generator after a sequence with
 one observation

---
 aemcmc/ffbs.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 34f5725..2d56c02 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -110,23 +110,19 @@ def ffbs_step(
         state_np1 = srng.categorical(beta_n)
         return state_np1
 
-    alpha_N = alphas[..., N - 1]
-    beta_N = alpha_N / alpha_N.sum(axis=-1)
-
-    state_np1 = srng.categorical(beta_N)
+    # The last state isn't followed by another one, so it's drawn using weights
+    # of one in place of transition probabilities.  (A `Scan` without any steps
+    # would lose the state of its random number generator.)
+    Gammas_np1 = at.concatenate([Gammas[1:], at.ones_like(Gammas[:1])])
 
     state_samples_rev, updates = aesara.scan(
         backward_step,
-        sequences=[alphas.T[: N - 1], Gammas[1:]],
-        outputs_info=[{"initial": state_np1, "taps": [-1]}],
+        sequences=[alphas.T, Gammas_np1],
+        outputs_info=[{"initial": at.constant(0, dtype="int64"), "taps": [-1]}],
         non_sequences=[],
         go_backwards=True,
         strict=True,
         name="backward-pass",
     )
 
-    state_samples_rev = at.join(
-        0, at.atleast_Nd(state_np1, n=state_samples_rev.type.ndim), state_samples_rev
-    )
-
     return state_samples_rev[::-1], updates
-- 
2.43.0


From 2ddedc526851f18389caadb0bc3a68be4a29994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 33/34] fix: sample_prior lost the generators when no samples
 were requested

---
 aemcmc/sample.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aemcmc/sample.py b/aemcmc/sample.py
index 66a90e8..0d37a42 100644
--- a/aemcmc/sample.py
+++ b/aemcmc/sample.py
@@ -26,6 +26,12 @@ def sample_prior(
     def step_fn():
         return rvs, rv_updates
 
-    samples, updates = aesara.scan(step_fn, n_steps=num_samples)
+    # A `Scan` without any steps would lose the states of the generators
+    samples, updates = aesara.scan(step_fn, n_steps=at.maximum(num_samples, 1))
+
+    if isinstance(samples, (list, tuple)):
+        samples = [sample[:num_samples] for sample in samples]
+    else:
+        samples = samples[:num_samples]
 
     return samples, updates
-- 
2.43.0


From c53fab1f49483271494f59b009123dd31e97f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 34/34] fix: sample_CRT lost its generator when there were no
 observations

---
 aemcmc/gibbs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 5f6fba5..1992c1d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -436,13 +436,15 @@ def sample_CRT(
         n_i = at.arange(2, y_i + 1)
         return at.switch(y_i < 1, 0, 1 + srng.bernoulli(h / (n_i - 1 + h)).sum())
 
+    # A `Scan` without any steps would lose the state of its random number
+    # generator, so there is an extra one that doesn't draw anything
     res, updates = aesara.scan(
         single_sample_CRT,
-        sequences=[y.ravel()],
+        sequences=[at.concatenate([y.ravel(), at.zeros(1, dtype=y.dtype)])],
         non_sequences=[h],
         strict=True,
     )
-    res = res.reshape(y.shape)
+    res = res[:-1].reshape(y.shape)
     res.name = "CRT sample"
 
     return res, updates
-- 
2.43.0

