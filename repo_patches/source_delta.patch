From 39ebc5edb7bf32199c3050221ed1480e40a3f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 01/17] fix: vectorize works with numpy versions that dropped
 the np.int alias

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From de46e8a9823220f9c2a49bf7845d5ccd72f686d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 02/17] fix: SGLDSampler uses the stepsize schedule it is given

---
 pysgmcmc/samplers/sgld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..81cd05b 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -96,7 +96,8 @@ class SGLDSampler(BurnInMCMCSampler):
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
             burn_in_steps=burn_in_steps, seed=seed,
-            session=session, dtype=dtype
+            session=session, dtype=dtype,
+            stepsize_schedule=stepsize_schedule
         )
 
         n_params = len(params)
-- 
2.43.0


From c25728c604bdebcb4e29df319cf6ae2ffae8f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 03/17] fix: PYSGMCMCTrace.from_sampler keeps only every
 keep_every-th sample

---
 pysgmcmc/diagnostics/sample_chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..0eade3a 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,8 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in
+            islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From 272f44bfd01859c2563ac5526480f73ad3764fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 04/17] fix: samplers honour a caller's feed_dict after
 burn-in, too

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From 84fae38000b6468ab356fc85f855e31bd72da66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 05/17] fix: no parameter is updated before all gradients of
 the step are known

---
 pysgmcmc/samplers/relativistic_sghmc.py | 6 +++++-
 pysgmcmc/samplers/sghmc.py              | 5 ++++-
 pysgmcmc/samplers/sgld.py               | 5 ++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..13aead4 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -97,9 +97,13 @@ class RelativisticSGHMCSampler(MCMCSampler):
         # Use `-self.Cost` since the rest of the implementation expects
         # a log likelihood (instead of the *negative* log likelihood that
         # we normally use as costs)
+        # Compute cost and all gradients before any parameter is updated:
+        # one step evaluates them all at the same parameter values.
         grads = [
             vectorize(gradient)
-            for gradient in tf.gradients(-self.cost, params)
+            for gradient in tf.tuple(
+                tf.gradients(-self.cost, params), control_inputs=[self.cost]
+            )
         ]
 
         D = tf.constant(D, dtype=dtype)
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..25d1bfd 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -118,8 +118,11 @@ class SGHMCSampler(BurnInMCMCSampler):
 
         #  }}} Initialize graph constants #
 
+        # compute cost and all gradients before any parameter is updated:
+        # one step evaluates them all at the same parameter values
         grads = [vectorize(gradient) for gradient in
-                 tf.gradients(self.cost, params)]
+                 tf.tuple(tf.gradients(self.cost, params),
+                          control_inputs=[self.cost])]
 
         #  Initialize internal sampler parameters {{{ #
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 81cd05b..6b25918 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -110,8 +110,11 @@ class SGLDSampler(BurnInMCMCSampler):
 
         #  }}} Initialize graph constants #
 
+        # compute cost and all gradients before any parameter is updated:
+        # one step evaluates them all at the same parameter values
         grads = [vectorize(gradient) for gradient in
-                 tf.gradients(self.cost, params)]
+                 tf.tuple(tf.gradients(self.cost, params),
+                          control_inputs=[self.cost])]
 
         #  Initialize internal sampler parameters {{{ #
 
-- 
2.43.0


From d62e05dff808498b14ed48b03c3f2bb667ba91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 06/17] fix: every step starts from the parameters' current
 values

---
 pysgmcmc/samplers/relativistic_sghmc.py | 3 ++-
 pysgmcmc/samplers/sghmc.py              | 5 +++--
 pysgmcmc/samplers/sgld.py               | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 13aead4..57a268f 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -133,8 +133,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
+            vectorized_theta_t = tf.assign(
                 vectorized_param,
+                tf.reshape(param, vectorized_param.shape) +
                 tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 25d1bfd..ed04dd5 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -241,8 +241,9 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
+                        vectorized_Theta_t = tf.assign(
+                            vectorized_param,
+                            tf.reshape(param, vectorized_param.shape) + v_t
                         )
 
                         self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 6b25918..11684fe 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -202,9 +202,10 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
+                        vectorized_theta_t = tf.assign(
                             vectorized_param,
-                            - self.epsilon * self.minv_t[i] * A * grad + sample,
+                            tf.reshape(param, vectorized_param.shape) -
+                            self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
                         self.theta_t[i] = tf.assign(
                             param,
-- 
2.43.0


From fd4954e890c67f2044d5e55e9c82e3dc34813280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 07/17] fix: a seeded sampler draws independent noise for each
 parameter

---
 pysgmcmc/samplers/base_classes.py       | 13 ++++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..4ca938a 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -3,6 +3,8 @@
 """Abstract base classes for all MCMC methods. Helps unify our sampler interface."""
 # XXX NEXT METHOD NEEDS DOKU FOR FEED_DICT
 import abc
+from hashlib import md5
+
 import tensorflow as tf
 
 from pysgmcmc.tensor_utils import vectorize, uninitialized_params
@@ -83,6 +85,7 @@ class MCMCSampler(object):
         self.n_iterations = 0
 
         self.seed = seed
+        self.n_noise_samples = 0
 
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
@@ -215,8 +218,16 @@ class MCMCSampler(object):
             standard deviation `Sigma`.
 
         """
+        seed = self.seed
+        if seed is not None and self.n_noise_samples > 0:
+            # operations with equal seeds draw equal numbers: give the noise
+            # of each target parameter a seed of its own
+            digest = md5("{}:{}".format(seed, self.n_noise_samples).encode())
+            seed = int(digest.hexdigest()[:7], 16)
+        self.n_noise_samples += 1
+
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=seed
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 57a268f..439c1e5 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -126,7 +126,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = self._draw_noise_sample(
+                sigma=tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)),
+                shape=vectorized_param.shape
+            )
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From 2422ae011be1f27be8009f98362202232273edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 08/17] fix: generate_shuffled_batches leaves the caller's
 dataset alone

---
 pysgmcmc/data_batches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..21a4a90 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,10 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # slices of a dataset are views: never shuffle the dataset itself
+        batch = {
+            placeholder: data.copy() for placeholder, data in batch.items()
+        }
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From 2f1dbf471d4c821262e9c45b85ea407fdba815c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 09/17] fix: a BNN whose re-training fails does not claim to be
 trained

---
 pysgmcmc/models/bayesian_neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..ceec67f 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -408,6 +408,9 @@ class BayesianNeuralNetwork(object):
 
         start_time = time()
 
+        # until this call succeeds, there is nothing to predict with
+        self.is_trained = False
+
         self.X, self.y = X, y
 
         if self.normalize_input:
-- 
2.43.0


From 9bc9d3e6585932b60664384b0873a416b8386976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 10/17] fix: import logsumexp from scipy.special

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From 1f305476859d535452c64adba5b6495b49c82655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 11/17] fix: SVGD particles repel, instead of attract, each
 other

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 5ee788644b697dfa56c8f6058df9b8fdf24631b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 12/17] fix: samples have one format during and after burn-in,
 traces accept it

---
 pysgmcmc/diagnostics/sample_chains.py | 4 ++++
 pysgmcmc/samplers/base_classes.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 0eade3a..47b7fb3 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -169,6 +169,10 @@ class PYSGMCMCTrace(object):
             islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
+        if len(sampler.params) == 1:
+            # samplers unravel the samples of a single target parameter
+            samples = [[sample] for sample in samples]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 4ca938a..de43e6c 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,10 @@ class BurnInMCMCSampler(MCMCSampler):
                 feed_dict=feed_dict
             )
 
+            if len(params) == 1:
+                # unravel single-element lists, as after burn-in
+                params = params[0]
+
             self.stepsize_schedule.update(params, cost)
 
             self.n_iterations += 1
-- 
2.43.0


From 1479ddaa56ea79ccc91392129d54ce86beae2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 13/17] fix: several SVGD samplers can live in one graph

---
 pysgmcmc/samplers/svgd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..420e0e9 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -109,9 +109,9 @@ class SVGDSampler(MCMCSampler):
             self.particles.shape[0], self.dtype
         )
 
-        historical_grad = tf.get_variable(
-            "historical_grad", self.particles.shape, dtype=dtype,
-            initializer=tf.zeros_initializer()
+        historical_grad = tf.Variable(
+            tf.zeros(self.particles.shape, dtype=dtype), dtype=dtype,
+            name="historical_grad"
         )
 
         self.session.run(
-- 
2.43.0


From e234bdd2d881634e2975b2936cada63bcf461cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 14/17] fix: pymc3_multitrace keeps the state of samplers that
 are already burnt-in

---
 pysgmcmc/diagnostics/sample_chains.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 47b7fb3..c250b7d 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -10,6 +10,8 @@ import numpy as np
 import pymc3
 import logging
 
+from pysgmcmc.tensor_utils import uninitialized_params
+
 
 class PYSGMCMCTrace(object):
     """
@@ -375,7 +377,10 @@ def pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=100,
         graph = tf.Graph()
         with tf.Session(graph=graph) as session:
             sampler = get_sampler(session=session)
-            session.run(tf.global_variables_initializer())
+            # keep the state of samplers that are already burnt-in
+            session.run(tf.variables_initializer(
+                uninitialized_params(tf.global_variables(), session)
+            ))
             trace = PYSGMCMCTrace.from_sampler(
                 chain_id=chain_id,
                 sampler=sampler,
-- 
2.43.0


From 807cfbf206cce7bd2e5379ede5fd585fdb3f7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 15/17] fix: a BNN samples only its own network's parameters

Other trainable variables of the graph, like those of an earlier training
or of another network, were sampled along and weakened the weight prior.
---
 pysgmcmc/models/bayesian_neural_network.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index ceec67f..25f6590 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -362,6 +362,15 @@ class BayesianNeuralNetwork(object):
 
         self.net_output = self.get_net(inputs=X, seed=self.seed, dtype=self.dtype)
 
+        # only what the output depends on belongs to this network: the graph
+        # may hold trainable variables of others, or of earlier trainings, too
+        trainables = tf.trainable_variables()
+        self.network_params = [
+            variable for variable, gradient
+            in zip(trainables, tf.gradients(self.net_output, trainables))
+            if gradient is not None
+        ]
+
         f_mean = tf.reshape(self.net_output[:, 0], shape=(-1, 1))
         f_log_var = tf.reshape(self.net_output[:, 1], shape=(-1, 1))
 
@@ -383,7 +392,7 @@ class BayesianNeuralNetwork(object):
         log_like += log_variance_prior_log_like(f_log_var, dtype=self.dtype) / n_examples
 
         # prior for the weights
-        log_like += weight_prior_log_like(tf.trainable_variables(), dtype=self.dtype) / n_examples
+        log_like += weight_prior_log_like(self.network_params, dtype=self.dtype) / n_examples
 
         return -log_like, tf.reduce_mean(mse)
 
@@ -432,8 +441,6 @@ class BayesianNeuralNetwork(object):
             X=self.X_Minibatch, Y=self.Y_Minibatch
         )
 
-        self.network_params = tf.trainable_variables()
-
         # remove any leftover samples from previous "train" calls
         self.samples.clear()
 
-- 
2.43.0


From f61dc655f6dedffe80eed58908cb163c3c8141ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 16/17] fix: training a BNN leaves other variables of the
 session as they are

All variables were re-initialised, those of other chains and networks
that share the session included.
---
 pysgmcmc/models/bayesian_neural_network.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 25f6590..80d413b 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -18,7 +18,7 @@ from pysgmcmc.sampling import Sampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
 
 from pysgmcmc.data_batches import generate_batches
-from pysgmcmc.tensor_utils import safe_divide
+from pysgmcmc.tensor_utils import safe_divide, uninitialized_params
 
 #  }}}  Imports #
 
@@ -430,6 +430,11 @@ class BayesianNeuralNetwork(object):
 
         n_datapoints, n_inputs = X.shape
 
+        # variables in use by others, which this training must not reset
+        foreign_variables = set(tf.global_variables()).difference(
+            uninitialized_params(tf.global_variables(), self.session)
+        )
+
         # set up placeholders for data minibatches
         self.X_Minibatch = tf.placeholder(shape=(None, n_inputs),
                                           dtype=self.dtype,
@@ -475,7 +480,11 @@ class BayesianNeuralNetwork(object):
             self.sampling_method, **self.sampler_kwargs
         )
 
-        self.session.run(tf.global_variables_initializer())
+        foreign_variables.difference_update(self.network_params)
+        self.session.run(tf.variables_initializer([
+            variable for variable in tf.global_variables()
+            if variable not in foreign_variables
+        ]))
 
         logging.info("Starting sampling")
 
-- 
2.43.0


From b9c633df9e7a44f20ae8f4729f662a56045d17ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:29 +0000
Subject: [PATCH 17/17] fix: a sampler built without a session uses the default
 session of that moment

---
 pysgmcmc/samplers/base_classes.py       | 7 +++++--
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/sghmc.py              | 2 +-
 pysgmcmc/samplers/sgld.py               | 2 +-
 pysgmcmc/samplers/svgd.py               | 2 +-
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index de43e6c..809d1c5 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -24,7 +24,7 @@ class MCMCSampler(object):
 
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initialize the sampler base class. Sets up member variables and
         initializes uninitialized target parameters in the current
@@ -75,6 +75,9 @@ class MCMCSampler(object):
         assert batch_generator is None or hasattr(batch_generator, "__next__")
         assert seed is None or isinstance(seed, int)
 
+        if session is None:
+            session = tf.get_default_session()
+
         assert isinstance(session, (tf.Session, tf.InteractiveSession))
         assert isinstance(dtype, tf.DType)
 
@@ -333,7 +336,7 @@ class BurnInMCMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initializes the corresponding MCMCSampler super object and
         sets member variables.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 439c1e5..bb02799 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -24,7 +24,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.001),
                  mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index ed04dd5..fbc454c 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -31,7 +31,7 @@ class SGHMCSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, mdecay=0.05, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 11684fe..0409a3c 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -32,7 +32,7 @@ class SGLDSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, A=1.0, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 420e0e9..ef4c3a4 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -22,7 +22,7 @@ class SVGDSampler(MCMCSampler):
     """
     def __init__(self, particles, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.1),
-                 alpha=0.9, fudge_factor=1e-6, session=tf.get_default_session(),
+                 alpha=0.9, fudge_factor=1e-6, session=None,
                  dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
-- 
2.43.0

