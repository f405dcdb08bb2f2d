From 90396b9d928ee4c0344237063348745f13bda668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 01/29] fix: time-dependent parameter lookup no longer runs
 ahead of the requested time

---
 neuro_shooting/shooting_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index eef0237..9031940 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -76,9 +76,9 @@ class ParticleFreeParameterFunc(object):
                 elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                     # first check if it is larger than the largest where we havge a parameter
                     # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
-                    while t>self.last_used_time:
+                    while t>=self.times[self.last_used_time_idx+1]:
                         self.last_used_time_idx += 1
-                        self.last_used_time = self.times[self.last_used_time_idx]
+                    self.last_used_time = self.times[self.last_used_time_idx]
                     return self.time_parameter_list[self.last_used_time_idx]
                 else:
                     raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
-- 
2.43.0


From b8b510f4e6efc46560a73f74c7e7f22990b7cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 02/29] fix: query the externally managed parameter function in
 the reduced Lagrangian

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 2bbc9c1..342a548 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -365,7 +365,7 @@ class ShootingIntegrandBase(nn.Module):
                 if self._rnn_parameter_func is None:
                     raise ValueError('Externally managed RNN parameter function cannot be created here. Should have been assigned before.')
 
-                parameter_objects = self._rnn_parameter_func(t)
+                parameter_objects = self._rnn_parameter_func.get_parameters_at_time(t)
             else:
                 if self._rnn_parameters is None:
                     parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
-- 
2.43.0


From d283d9581936958bcfb1e48b1e96401b339ca580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 03/29] fix: a parameter sweep does not repeat the
 configurations of earlier sweeps

---
 neuro_shooting/command_line_execution_tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 2c9164e..060babc 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -3,7 +3,13 @@ import os
 import copy
 from collections import OrderedDict
 
-def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_parameter_list=[]):
+def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
+
+    # a fresh result for every sweep (default arguments would be shared between calls)
+    if par_dict is None:
+        par_dict = OrderedDict()
+    if swept_parameter_list is None:
+        swept_parameter_list = []
 
     cur_pars = copy.deepcopy(pars_to_sweep)
     # get first key and remove it
-- 
2.43.0


From d12bca34c94a5b0dff13aecb186f6a36911444ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 04/29] fix: a sweep over no parameters runs the template
 configuration

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 060babc..c90a64e 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -18,7 +18,7 @@ def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_lis
     if len(cur_keys)==0:
         #print('pars: {}'.format(par_dict))
         swept_parameter_list.append(copy.deepcopy(par_dict))
-        return par_dict
+        return swept_parameter_list
 
     first_key = cur_keys[0]
     # sweep over it
-- 
2.43.0


From 5605b78889f73ec3fdbfa162160efd07eb5e3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 05/29] fix: concurrent sweeps may create the same output
 directories

---
 neuro_shooting/experiment_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bb51f74..f04256c 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -91,8 +91,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
 
     output_base_directory = output_dir_prefix + args.output_base_directory
 
-    if not os.path.exists(output_base_directory):
-        os.mkdir(output_base_directory)
+    os.makedirs(output_base_directory, exist_ok=True)
 
     # now go over all these parameter structures and run the experiments
     for sidx, seed in enumerate(seeds):
@@ -120,8 +119,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
             output_directory = os.path.join(output_base_directory, experiment_name)
             log_file = os.path.join(output_directory, 'runlog.log')
 
-            if not os.path.exists(output_directory):
-                os.mkdir(output_directory)
+            os.makedirs(output_directory, exist_ok=True)
 
             run_args = merge_args(run_args_template=run_args_template, add_args=d)
             # add the output-directory
-- 
2.43.0


From 54e9c385d3bf1ae0c8defbf0c1b57371bf837730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 06/29] fix: the first forward pass can be repeated after it
 was aborted

---
 neuro_shooting/shooting_blocks.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 9031940..83d217b 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -591,9 +591,7 @@ class ShootingBlockBase(nn.Module):
         if self._forward_not_yet_executed:
             # first compute how much we need to enlarge
 
-            if self._pass_through_state_dict_of_dicts_enlargement_parameters is not None or self._pass_through_costate_dict_of_dicts_enlargement_parameters:
-                raise ValueError(
-                    'Enlargement parameters have previously been created. Aborting. Something went wrong. Should only be created once!')
+            # note: if an earlier first forward pass was aborted by an exception, its enlargement parameters get replaced here
 
             pass_through_state_dict_of_dicts_enlargement_parameters, pass_through_costate_dict_of_dicts_enlargement_parameters = \
                 self._create_pass_through_state_and_costate_enlargement_parameters(
-- 
2.43.0


From 3330c2be7179ba0d89daf18902dfae0ca1cdc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 07/29] fix: keep_initial_state_parameters_at_zero can be used

---
 neuro_shooting/shooting_blocks.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 83d217b..cca5469 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -541,8 +541,9 @@ class ShootingBlockBase(nn.Module):
             # only register if we want to optimize over them, otherwise force them to zero
             if keep_state_parameters_at_zero:
                 print('INFO: Keeping new state parameters at zero for {}'.format(self._block_name))
-                for k in state_dict:
-                    state_dict[k].zero_()
+                with torch.no_grad():
+                    for k in state_dict:
+                        state_dict[k].zero_()
             else:
                 for k in state_dict:
                     self.register_parameter(k,state_dict[k])
@@ -572,7 +573,9 @@ class ShootingBlockBase(nn.Module):
                         if c_state_dict[k] is not None:
                             if keep_state_parameters_at_zero:
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
-                                c_state_dict[k][0]._zero()
+                                with torch.no_grad():
+                                    c_state_dict[k][0].zero_()
+                                continue
                             self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
                             print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
-- 
2.43.0


From 7f971e43216b947b4cb681e3d080f885f80747c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 08/29] fix: a block can be moved while an integration time
 vector is set

---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index cca5469..4bb462f 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -271,13 +271,19 @@ class ShootingBlockBase(nn.Module):
     def _apply(self, fn):
         super(ShootingBlockBase, self)._apply(fn)
         self.shooting_integrand._apply(fn)
-        self.integration_time = fn(self.integration_time)
+        if self.integration_time is not None:
+            self.integration_time = fn(self.integration_time)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = fn(self.integration_time_vector)
         return self
 
     def to(self, *args, **kwargs):
         super(ShootingBlockBase,self).to(*args, **kwargs)
         self.shooting_integrand.to(*args, **kwargs)
-        self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time is not None:
+            self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = self.integration_time_vector.to(*args, **kwargs)
         return self
 
     def create_initial_state_and_costate_parameters(self, *args, **kwargs):
-- 
2.43.0


From 7cec50217b4b97dee8e39daeca226dcd02e730b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 09/29] fix: custom learning rate scheduler can be imported
 with current pytorch

---
 neuro_shooting/custom_lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index 0ce03bb..f2cce03 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -2,7 +2,7 @@ import torch
 
 import math
 import torch
-from torch._six import inf
+from math import inf
 from functools import partial
 from torch.optim import Optimizer
 
-- 
2.43.0


From a8ec7d5d61cad339b4f8376e45b18a102430a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 10/29] fix: integrators sharing an options dictionary do not
 influence each other

---
 neuro_shooting/generic_integrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index a350400..74ce6be 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -78,9 +78,11 @@ class GenericIntegrator(object):
             raise ValueError('Integrator {} not available for {}'.format(self.integrator_name, self.integrator_library))
 
         self.use_adjoint_integration = use_adjoint_integration
-        self.integrator_options = integrator_options
-        if self.integrator_options is None:
+        # keep our own copy, as options (e.g., the step size) get added to it
+        if integrator_options is None:
             self.integrator_options = dict()
+        else:
+            self.integrator_options = dict(integrator_options)
 
         self.kwargs = kwargs
 
-- 
2.43.0


From 0434ae18b92715bd5381745eee08eba26a7ae1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 11/29] fix: recorded parameter evolution does not change with
 later parameter updates

---
 neuro_shooting/shooting_hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_hooks.py b/neuro_shooting/shooting_hooks.py
index 203d9eb..94542d4 100644
--- a/neuro_shooting/shooting_hooks.py
+++ b/neuro_shooting/shooting_hooks.py
@@ -6,7 +6,7 @@ def record_generic_dict_of_dicts(custom_hook_data, d, d_name):
         cur_block = d[block_name]
         for cur_state_name in cur_block:
             cur_key = '{}.{}.{}'.format(block_name, d_name, cur_state_name)
-            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy())
+            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy().copy())
 
 def compute_parameter_norms(parameter_objects):
 
@@ -66,7 +66,7 @@ def parameter_evolution_hook(module, t, state_dicts, costate_dicts, data_dict_of
             cur_par_dict = parameter_objects[k].get_parameter_dict()
             for p in cur_par_dict:
                 cur_key = '{}.{}'.format(k, p)
-                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy())
+                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy().copy())
                 # add to current energy
                 current_energy += 0.5 * torch.sum(cur_par_dict[p] ** 2)
 
-- 
2.43.0


From bde099c0f6094bb685f08d726c97a1b2a3a46bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 12/29] fix: analytic shooting equations use the derivative of
 the sigmoid

---
 neuro_shooting/activation_functions_and_derivatives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index a0c02df..0499b5d 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -18,6 +18,10 @@ def dtanh(x):
     # derivative of tanh
     return 1.0-torch.tanh(x)**2
 
+def dsigmoid(x):
+    # derivative of sigmoid
+    return torch.sigmoid(x)*(1.0-torch.sigmoid(x))
+
 def identity(x):
     return x
 
@@ -54,7 +58,7 @@ def get_nonlinearity(nonlinearity):
         dnl = didentity
     elif use_nonlinearity == 'sigmoid':
         nl = torch.sigmoid
-        dnl = torch.sigmoid
+        dnl = dsigmoid
     elif use_nonlinearity == 'softmax':
         nl = softmax
         dnl = dsoftmax
-- 
2.43.0


From 453caf0e69b7b1bef4d367317a4805f883c07c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:30 +0000
Subject: [PATCH 13/29] fix: analytic costate evolution of the dampened model
 includes the dampening

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5dcf7bf..5502446 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1594,7 +1594,7 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         dot_p2t = - self.dnl(q2i) * torch.matmul(p1i,l1)
         dot_p1t = - torch.matmul(p2i,l2)
         rhs['dot_p_q1'] = dot_p1t #- self.dampening_factor * p1i
-        rhs['dot_p_q2'] = dot_p2t #- self.dampening_factor * p2i
+        rhs['dot_p_q2'] = dot_p2t + self.dampening_factor * p2i
 
         return rhs
 
-- 
2.43.0


From db3f91defcf1fbb5b6e5be0573b4dfcee46e2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 14/29] fix: checkpointed integration also returns all time
 points when time runs backward

---
 neuro_shooting/generic_integrator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index 74ce6be..d46c770 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -155,10 +155,13 @@ class GenericIntegrator(object):
         t_from = t[0]
         t_to = t[-1]
 
+        # time may also run backward
+        direction = 1 if t_to>=t_from else -1
+
         if self.nr_of_checkpoints is not None:
             checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval)
+            checkpointing_time_points = torch.arange(t_from,t_to,direction*self.checkpointing_time_interval)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
                 checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
@@ -194,12 +197,12 @@ class GenericIntegrator(object):
             next_t = t[idx_t]
             next_cp_t = checkpointing_time_points[idx_checkpoint_t]
 
-            if next_cp_t>next_t:
+            if direction*next_cp_t>direction*next_t:
                 # case: just keep on adding this time-point to the current time-interval and retain it for the output
                 current_time_interval = torch.cat((current_time_interval,torch.tensor([next_t])))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 idx_t += 1
-            elif next_cp_t<next_t:
+            elif direction*next_cp_t<direction*next_t:
                 # case: this is the checkpoint we want, so finalize it and move on to the next one
                 current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([False])))
-- 
2.43.0


From f54bd94edd7598dcd13d00246c4a0a9e9d193ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 15/29] fix: chained blocks can output all time points

---
 neuro_shooting/shooting_blocks.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 4bb462f..4bc6e1e 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -710,21 +710,25 @@ class ShootingBlockBase(nn.Module):
             res = self.shooting_integrand.disassemble(res_final,dim=0)
 
         if self.shooting_integrand.concatenate_parameters:
-            # we also concatenate the output
+            # we also concatenate the output; if all times are output there is a leading time dimension
+            time_dim = 0 if self.integration_time_vector is None else 1
+            concatenation_dim = self.shooting_integrand.concatenation_dim + time_dim
+            data_concatenation_dim = self.shooting_integrand.data_concatenation_dim + time_dim
+
             res_state_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=state_dict_of_dicts,
-                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                   concatenation_dim=concatenation_dim,
                                                                                                    block_name=self._block_name)
             res_costate_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=costate_dict_of_dicts,
-                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                     concatenation_dim=concatenation_dim,
                                                                                                      block_name=self._block_name)
             res_data_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=data_dict_of_dicts,
-                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim,
+                                                                                                  concatenation_dim=data_concatenation_dim,
                                                                                                   block_name=self._block_name)
             if type(res)==torch.Tensor:
                 res_res = res
             else:
                 res_res = scd_utils._concatenate_dict_of_dicts(generic_dict_of_dicts=res,
-                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim)
+                                                               concatenation_dim=data_concatenation_dim)
                 # if we have concatenated this there should only be one key now. Check this and return it, otherwise return the entire structure
                 current_keys = list(res_res.keys())
                 if len(current_keys)==1:
-- 
2.43.0


From ce33f5a327014e5eabf52347d56f027c7cc982a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:06 +0000
Subject: [PATCH 16/29] fix: backward pass of an earlier forward pass is not
 affected by later forward passes

---
 neuro_shooting/shooting_blocks.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 4bc6e1e..326b32d 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -86,6 +86,25 @@ class ParticleFreeParameterFunc(object):
 
 
 
+class IntegrandForForwardPass(nn.Module):
+    """
+    Integrand of one particular forward pass. Checkpointed and adjoint integration evaluate the integrand again during the
+    backward pass. At this point other forward passes (with different data) may have been executed. Hence, a forward pass
+    needs to remember how its vectors are disassembled.
+    """
+
+    def __init__(self,shooting_integrand):
+        super(IntegrandForForwardPass, self).__init__()
+        self.shooting_integrand = shooting_integrand
+        self.assembly_plans = shooting_integrand.auto_assembly_plans
+        self.data_concatenation_dim = shooting_integrand.get_data_concatenation_dim()
+
+    def forward(self,t,input):
+        self.shooting_integrand.set_auto_assembly_plans(assembly_plans=self.assembly_plans)
+        self.shooting_integrand.set_data_concatenation_dim(data_concatenation_dim=self.data_concatenation_dim)
+        return self.shooting_integrand(t,input)
+
+
 class ShootingBlockBase(nn.Module):
 
     def __init__(self, name, shooting_integrand=None, shooting_integrand_name=None,
@@ -697,13 +716,15 @@ class ShootingBlockBase(nn.Module):
         # reset shooting integrand, this should be called at the beginning of a new integration
         self.shooting_integrand.reset()
 
+        integrand = IntegrandForForwardPass(shooting_integrand=self.shooting_integrand)
+
         #integrate
         if self.integration_time_vector is not None:
-            res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time_vector)
+            res_all_times = self.integrator.integrate(func=integrand, x0=initial_conditions, t=self.integration_time_vector)
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_all_times,dim=1)
             res = self.shooting_integrand.disassemble(res_all_times,dim=1)
         else:
-            res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time)
+            res_all_times = self.integrator.integrate(func=integrand, x0=initial_conditions, t=self.integration_time)
             res_final = res_all_times[-1, ...]
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_final)
             # and get what should typically be returned (the transformed data)
-- 
2.43.0


From 2277925640e9f9404bfaf08969165377104deef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:28 +0000
Subject: [PATCH 17/29] fix: a sweep runs the specified python interpreter

---
 neuro_shooting/command_line_execution_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index c90a64e..1f78952 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -39,10 +39,9 @@ def run_command_with_args(python_script,run_args,path_to_python,cuda_visible_dev
     cmd_arg_list = _make_arg_list(run_args)
     current_python_script = python_script
 
-    pre_command = 'alias python="{}"'.format(path_to_python) #'conda activate {}'.format(conda_environment)
-
-    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices,pre_command=pre_command)
-    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file)
+    # specify the python interpreter directly (aliases are not expanded in a non-interactive shell)
+    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices)
+    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file, path_to_python=path_to_python)
 
 
 def _make_arg_list(args):
@@ -129,9 +128,9 @@ def execute_command( command, arguments_as_list, verbose=True ):
     command_list.append( el )
   subprocess.call( command_list )
 
-def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None ):
+def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None, path_to_python='python' ):
 
-  str = get_string_argument_from_list(['python'] + [python_script] + arguments_as_list)
+  str = get_string_argument_from_list([path_to_python] + [python_script] + arguments_as_list)
   if pre_command is not None and log_file is not None:
     bash_command = 'bash -c "{:s} {:s} > >(tee {:s}) 2>&1"'.format(pre_command,str,log_file)
   elif pre_command is not None and log_file is None:
-- 
2.43.0


From 0795ec7deb6bfe5ba9918fcfd472788f52156603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:52 +0000
Subject: [PATCH 18/29] fix: a swept flag that is off overrides the template

---
 neuro_shooting/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index f04256c..bec5178 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -77,6 +77,8 @@ def merge_args(run_args_template,add_args):
         if (v is True) or (v is False): # check if v is binary
             if v:
                 merged_args[k] = None # just add the flag
+            else:
+                merged_args.pop(k,None) # the template may have set the flag
         else:
             merged_args[k] = v
 
-- 
2.43.0


From 7a3ec93fa4afa7d16a419d0994d53827d0091ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 19/29] fix: stored results are found in output directories
 with brackets in their name

---
 neuro_shooting/experiment_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bec5178..4d4c3c8 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -129,7 +129,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
             run_args['seed'] = seed
 
             # check if it already contains an output pt file. If so ignore.
-            pt_files = glob.glob(os.path.join(output_directory, '*.pt'), recursive=False)
+            pt_files = glob.glob(os.path.join(glob.escape(output_directory), '*.pt'), recursive=False)
             if (len(pt_files)>0) and do_not_recompute:
                 print('Found the following pt files {} in {}. SKIPPING.\n'.format(pt_files,output_directory))
             else:
-- 
2.43.0


From a6098e72a5e6351f2a0b276a7c474a491a46917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 20/29] fix: sweep values with characters special to the shell
 reach the experiment unchanged

---
 neuro_shooting/command_line_execution_tools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 1f78952..7b86ce0 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -1,6 +1,8 @@
 import subprocess
 import os
 import copy
+import re
+import shlex
 from collections import OrderedDict
 
 def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
@@ -128,9 +130,15 @@ def execute_command( command, arguments_as_list, verbose=True ):
     command_list.append( el )
   subprocess.call( command_list )
 
+def _quote_for_bash_command( s ):
+  # quotes an argument of a command which is itself put between double quotes (as in bash -c "...")
+  return re.sub(r'(["$`\\])', r'\\\1', shlex.quote(s))
+
 def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None, path_to_python='python' ):
 
-  str = get_string_argument_from_list([path_to_python] + [python_script] + arguments_as_list)
+  str = get_string_argument_from_list([path_to_python] + [python_script] + [_quote_for_bash_command(a) for a in arguments_as_list])
+  if log_file is not None:
+    log_file = _quote_for_bash_command(log_file)
   if pre_command is not None and log_file is not None:
     bash_command = 'bash -c "{:s} {:s} > >(tee {:s}) 2>&1"'.format(pre_command,str,log_file)
   elif pre_command is not None and log_file is None:
-- 
2.43.0


From 85dbbfd3d39429917d1d22bce018796121bfa8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:51 +0000
Subject: [PATCH 21/29] fix: softmax nonlinearity has nan derivatives when its
 exponential overflows

---
 neuro_shooting/activation_functions_and_derivatives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index 0499b5d..4858453 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -2,11 +2,12 @@ import torch
 import torch.nn as nn
 
 def softmax(x,epsilon = 1.0):
-  return x*(torch.ones_like(x))/(torch.exp(-x*epsilon) + torch.ones_like(x))
+  # torch.sigmoid instead of 1/(exp(-x)+1), as the derivatives of the latter are nan once the exponential overflows
+  return x*torch.sigmoid(epsilon*x)
 
 
 def dsoftmax(x,epsilon = 1.0):
-  return epsilon*softmax(x,epsilon)*(torch.ones_like(x))/(torch.exp(epsilon*x) + torch.ones_like(x)) + (torch.ones_like(x))/(torch.exp(-x*epsilon) + torch.ones_like(x))
+  return epsilon*softmax(x,epsilon)*torch.sigmoid(-epsilon*x) + torch.sigmoid(epsilon*x)
 
 def drelu(x):
     # derivative of relu
-- 
2.43.0


From eb63f562ec148774ae90cc372a7c1e0a480e8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 22/29] fix: an interrupted search for time-dependent
 parameters may not change which ones are found later

---
 neuro_shooting/shooting_blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 326b32d..3f4eab9 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -60,6 +60,8 @@ class ParticleFreeParameterFunc(object):
                 return self.time_parameter_list[-1]
             else:
                 # now we actually need to access a time in the middle
+                # (an earlier search may have been interrupted between the updates of the index and of the time)
+                self.last_used_time = self.times[self.last_used_time_idx]
 
                 if t<self.last_used_time:
                     # search to the left, and it is not smaller than the first so we can savely go to the left until we find it
-- 
2.43.0


From c8bf0713d25a7c782282e0df69f4e1b492d55d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 23/29] fix: the residual network discarded the output of its
 first shooting block

---
 neuro_shooting/res_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/res_net.py b/neuro_shooting/res_net.py
index e564cdd..50020ce 100644
--- a/neuro_shooting/res_net.py
+++ b/neuro_shooting/res_net.py
@@ -182,7 +182,7 @@ class BasicResNet(nn.Module):
         for shooting_layer,striding_block in zip(self.shooting_layers,self.striding_blocks):
             for shooting_block in shooting_layer:
                 if is_first:
-                    _, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
+                    ret, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
                     is_first = False
                 else:
                     ret, state_dicts, costate_dicts, data_dicts = shooting_block(data_dict_of_dicts=data_dicts,
-- 
2.43.0


From 14bb27272dc6ebef9071af6f696c49df4f25b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 24/29] fix: blocks that transpose their states crashed on
 every forward pass

---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 342a548..10eb50b 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -768,7 +768,7 @@ class ShootingIntegrandBase(nn.Module):
         # there might be multiple dictionaries that constitute the state dictionary, so transpose each of them
         ret_dicts = SortedDict()
         for k in generic_dict_dict_of_dicts:
-            ret_dicts[k] = self.transpose_state(ret_dicts[k])
+            ret_dicts[k] = self.transpose_state(generic_dict_dict_of_dicts[k])
         return ret_dicts
 
     def transpose_state(self,generic_dict):
@@ -808,7 +808,7 @@ class ShootingIntegrandBase(nn.Module):
                 # as we transposed the vectors before we need to transpose on the way back
                 dot_state_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_state_dict_of_dicts)
                 dot_costate_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_costate_dict_of_dicts)
-                dot_data_dict_of_dicts = self.transpose_state(dot_data_dict_of_dicts)
+                dot_data_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_data_dict_of_dicts)
 
             # create a vector out of this to pass to integrator
             output,assembly_plans = self.assemble_tensor(state_dict_of_dicts=dot_state_dict_of_dicts, costate_dict_of_dicts=dot_costate_dict_of_dicts, data_dict_of_dicts=dot_data_dict_of_dicts)
-- 
2.43.0


From 061fc8081ba002f02b3fef6e61b7a547806b664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 25/29] fix: analytic equations were wrong for particles made
 of several vectors

---
 neuro_shooting/shooting_models.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5502446..64d5671 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -397,12 +397,12 @@ class AutoShootingIntegrandModelUpDown(shooting.ShootingLinearInParameterVectorI
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0,keepdim=True),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t().sum(dim=0,keepdim=True),weight_dict2['bias'])
 
         return p
 
@@ -629,12 +629,12 @@ class AutoShootingIntegrandModelUpDownUniversal(shooting.ShootingLinearInParamet
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0,keepdim=True),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t().sum(dim=0,keepdim=True),weight_dict2['bias'])
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
@@ -890,7 +890,7 @@ class AutoShootingIntegrandModelGeneralUpDown(shooting.ShootingLinearInParameter
         par_dict11 = p['l11'].get_parameter_dict()
         weight_dict11 = p['l11'].get_parameter_weight_dict()
         par_dict11['weight'] = utils.divide_by_if_not_none(l11,weight_dict11['weight'])
-        par_dict11['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict11['bias'])
+        par_dict11['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0,keepdim=True),weight_dict11['bias'])
 
         par_dict12 = p['l12'].get_parameter_dict()
         weight_dict12 = p['l12'].get_parameter_weight_dict()
@@ -907,7 +907,7 @@ class AutoShootingIntegrandModelGeneralUpDown(shooting.ShootingLinearInParameter
         par_dict21 = p['l21'].get_parameter_dict()
         weight_dict21 = p['l21'].get_parameter_weight_dict()
         par_dict21['weight'] = utils.divide_by_if_not_none(l21,weight_dict21['weight'])
-        par_dict21['bias'] = utils.divide_by_if_not_none(torch.mean(p2i.transpose(1,2),dim = 0),weight_dict21['bias'])
+        par_dict21['bias'] = utils.divide_by_if_not_none(torch.mean(p2i.transpose(1,2),dim = 0).sum(dim=0,keepdim=True),weight_dict21['bias'])
 
         par_dict22 = p['l22'].get_parameter_dict()
         weight_dict22 = p['l22'].get_parameter_weight_dict()
@@ -1078,9 +1078,9 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
         for i in range(self.nr_of_particles):
-            At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
+            At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
         At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0,keepdim=True)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l1'].get_parameter_dict()
@@ -1097,9 +1097,9 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
         for i in range(self.nr_of_particles):
-            At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
+            At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
         At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0,keepdim=True)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l2'].get_parameter_dict()
@@ -1243,9 +1243,9 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
         for i in range(self.nr_of_particles):
-            At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
+            At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
         At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0,keepdim=True)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict['weight'] = utils.divide_by_if_not_none(At.t(),weight_dict['weight'])
@@ -1637,12 +1637,12 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0,keepdim=True),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t().sum(dim=0,keepdim=True),weight_dict2['bias'])
 
         return p
 
@@ -1822,17 +1822,17 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0,keepdim=True),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t().sum(dim=0,keepdim=True),weight_dict2['bias'])
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
         par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
-        par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0),weight_dict3['bias'])
+        par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0).sum(dim=0,keepdim=True),weight_dict3['bias'])
         return p
 
 
@@ -2053,12 +2053,12 @@ class AutoShootingIntegrandModelUpdownPeriodic(shooting.ShootingLinearInParamete
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0,keepdim=True),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t().sum(dim=0,keepdim=True),weight_dict2['bias'])
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-- 
2.43.0


From 4a391b927155a30efc365c3ad1775db33d2cb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:13 +0000
Subject: [PATCH 26/29] fix: analytic symmetrized model divided the third layer
 by the weight of the first

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 64d5671..febc9a6 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1831,7 +1831,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
+        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict3['weight'])
         par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0).sum(dim=0,keepdim=True),weight_dict3['bias'])
         return p
 
-- 
2.43.0


From b581fc836996505f588b2bcc002ee33a0e4a7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:54 +0000
Subject: [PATCH 27/29] fix: the plateau scheduler kept the metric tensor,
 which the caller may change later

---
 neuro_shooting/custom_lr_scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index f2cce03..db171f3 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -106,8 +106,9 @@ class CustomReduceLROnPlateau(object):
         self.num_bad_epochs = 0
 
     def step(self, metrics, epoch=None):
-        self.current = metrics
-        current = metrics
+        # as a number: a tensor could be changed in place later and would keep its graph alive
+        current = float(metrics)
+        self.current = current
         if epoch is None:
             epoch = self.last_epoch = self.last_epoch + 1
         self.last_epoch = epoch
-- 
2.43.0


From 16c7967cbe4ea7d6b75e51458afcb6b879ae89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:40 +0000
Subject: [PATCH 28/29] fix: a hook that removed itself while being called
 aborted the pass

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 10eb50b..50c4e16 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -756,7 +756,7 @@ class ShootingIntegrandBase(nn.Module):
                 self.compute_gradients_autodiff(t,state_dict_of_dicts,costate_dict_of_dicts,data_dict_of_dicts)
 
         # run the hooks so we can get parameters, states, etc.; for example, to create tensorboard output
-        for hook in self._lagrangian_gradient_hooks.values():
+        for hook in list(self._lagrangian_gradient_hooks.values()): # a hook may remove itself
             hook(self, t, state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts,
                  dot_state_dict_of_dicts, dot_costate_dict_of_dicts, dot_data_dict_of_dicts,
                  parameter_objects, self._custom_hook_data)
-- 
2.43.0


From e74a96f5d72cde43dd08b64d6777d7f535d55482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:40 +0000
Subject: [PATCH 29/29] fix: learned initial conditions of the convolutional
 up-down model were ignored (linear) or had the wrong size (mini_nn)

---
 neuro_shooting/shooting_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index febc9a6..e4178d2 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -2107,7 +2107,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
                 # self.init_l1 = nn.Linear(2, 10)
                 # TODO: shouldn't hard code this
                 self.init_l1 = nn.Conv2d(particle_dimension, particle_dimension*inflation_factor,kernel_size = 1)
-                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 2)
+                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 1) # keeps the size of the images
 
             else:
                 raise ValueError(
@@ -2173,8 +2173,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
             #     data_dict['q2'] = data_q20_replicated
             if self.optimize_over_data_initial_conditions_type.lower() == 'linear':
                 q20 = self.simple_init(x)
-                #data_dict['q2'] = q20
-                data_dict['q2'] = x
+                data_dict['q2'] = q20
             elif self.optimize_over_data_initial_conditions_type.lower() == 'mini_nn':
                 # predict the initial condition based on a simple neural network
                 q20 = self.init_l2(self.nl(self.init_l1(x)))
-- 
2.43.0

