From 7ef31f65a2fb897837a5691456b988321804d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:36 +0000
Subject: [PATCH 01/25] fix: pair the sigmoid nonlinearity with its derivative
 instead of with itself

---
 neuro_shooting/activation_functions_and_derivatives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index a0c02df..821bef7 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -18,6 +18,11 @@ def dtanh(x):
     # derivative of tanh
     return 1.0-torch.tanh(x)**2
 
+def dsigmoid(x):
+    # derivative of sigmoid
+    res = torch.sigmoid(x)
+    return res*(1.0-res)
+
 def identity(x):
     return x
 
@@ -54,7 +59,7 @@ def get_nonlinearity(nonlinearity):
         dnl = didentity
     elif use_nonlinearity == 'sigmoid':
         nl = torch.sigmoid
-        dnl = torch.sigmoid
+        dnl = dsigmoid
     elif use_nonlinearity == 'softmax':
         nl = softmax
         dnl = dsoftmax
-- 
2.43.0


From a2012457b00f059481b2f328b0b05574d4fad675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:36 +0000
Subject: [PATCH 02/25] fix: accept an explicitly given assembly plan in the
 integrand's disassemble_tensor

---
 neuro_shooting/shooting_integrands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 2bbc9c1..e47caaf 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -256,7 +256,8 @@ class ShootingIntegrandBase(nn.Module):
 
         if assembly_plans is None:
             assembly_plans = self.auto_assembly_plans
-        else:
+
+        if assembly_plans is None:
             raise ValueError('No assembly plan specified to disassemble tensor. Either explicity specify when calling this method or set one via set_auto_assembly_plans')
 
         return scd_utils.disassemble_tensor(input=input, assembly_plans=assembly_plans, dim=dim)
-- 
2.43.0


From eb30277722953c2f3affb6c891e9e33b2f824abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 03/25] fix: include the dampening term in the analytic costate
 equation of the dampened up-down model

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5dcf7bf..5502446 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1594,7 +1594,7 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         dot_p2t = - self.dnl(q2i) * torch.matmul(p1i,l1)
         dot_p1t = - torch.matmul(p2i,l2)
         rhs['dot_p_q1'] = dot_p1t #- self.dampening_factor * p1i
-        rhs['dot_p_q2'] = dot_p2t #- self.dampening_factor * p2i
+        rhs['dot_p_q2'] = dot_p2t + self.dampening_factor * p2i
 
         return rhs
 
-- 
2.43.0


From 3fa6f82dd95861e536870d8cb90b94630b3ff9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 04/25] fix: the third layer of the symmetrized up-down model
 maps to the (non-inflated) third state

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5502446..42815d6 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1692,7 +1692,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         linear1 = oc.SNN_Linear(in_features=self.in_features*self.inflation_factor,out_features=self.in_features,weight=self.parameter_weight)
         linear2 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
-        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
+        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features,weight=self.parameter_weight)
         parameter_objects['l1'] = linear1
         parameter_objects['l2'] = linear2
         parameter_objects['l3'] = linear3
-- 
2.43.0


From d9973d216e70559ed4ee452b6336b651b95a6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:03 +0000
Subject: [PATCH 05/25] fix: transpose the blocks of the given dictionaries in
 transpose_state_when_forward mode

---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index e47caaf..3cd8982 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -769,7 +769,7 @@ class ShootingIntegrandBase(nn.Module):
         # there might be multiple dictionaries that constitute the state dictionary, so transpose each of them
         ret_dicts = SortedDict()
         for k in generic_dict_dict_of_dicts:
-            ret_dicts[k] = self.transpose_state(ret_dicts[k])
+            ret_dicts[k] = self.transpose_state(generic_dict_dict_of_dicts[k])
         return ret_dicts
 
     def transpose_state(self,generic_dict):
@@ -809,7 +809,7 @@ class ShootingIntegrandBase(nn.Module):
                 # as we transposed the vectors before we need to transpose on the way back
                 dot_state_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_state_dict_of_dicts)
                 dot_costate_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_costate_dict_of_dicts)
-                dot_data_dict_of_dicts = self.transpose_state(dot_data_dict_of_dicts)
+                dot_data_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_data_dict_of_dicts)
 
             # create a vector out of this to pass to integrator
             output,assembly_plans = self.assemble_tensor(state_dict_of_dicts=dot_state_dict_of_dicts, costate_dict_of_dicts=dot_costate_dict_of_dicts, data_dict_of_dicts=dot_data_dict_of_dicts)
-- 
2.43.0


From 969f6c0e0c938c5b486a4b2424b660dc3d17f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:03 +0000
Subject: [PATCH 06/25] fix: keep the precision of the requested times when
 creating checkpoint intervals

---
 neuro_shooting/generic_integrator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index a350400..54c398b 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -154,12 +154,12 @@ class GenericIntegrator(object):
         t_to = t[-1]
 
         if self.nr_of_checkpoints is not None:
-            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2) # if we want one checkpoint we need three points, hence +2
+            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,dtype=t.dtype,device=t.device) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval)
+            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,dtype=t.dtype,device=t.device)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
-                checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
+                checkpointing_time_points = torch.cat((checkpointing_time_points, t_to.unsqueeze(0)), dim=0)
         else:
             raise ValueError('Either nr_of_checkpoints or checkpointing_time_interval needs to be set.')
 
@@ -178,7 +178,7 @@ class GenericIntegrator(object):
         keep_accumulating = True
 
         # always starts with the first-timepoint
-        current_time_interval = torch.tensor([t[idx_t]])
+        current_time_interval = t[idx_t].unsqueeze(0)
         current_output_time_point = torch.tensor([True])
 
         if t[idx_t]!=checkpointing_time_points[idx_checkpoint_t]:
@@ -194,25 +194,25 @@ class GenericIntegrator(object):
 
             if next_cp_t>next_t:
                 # case: just keep on adding this time-point to the current time-interval and retain it for the output
-                current_time_interval = torch.cat((current_time_interval,torch.tensor([next_t])))
+                current_time_interval = torch.cat((current_time_interval,next_t.unsqueeze(0)))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 idx_t += 1
             elif next_cp_t<next_t:
                 # case: this is the checkpoint we want, so finalize it and move on to the next one
-                current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
+                current_time_interval = torch.cat((current_time_interval,next_cp_t.unsqueeze(0)))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([False])))
                 time_intervals.append(current_time_interval)
                 output_time_points.append(current_output_time_point)
-                current_time_interval = torch.tensor([next_cp_t])
+                current_time_interval = next_cp_t.unsqueeze(0)
                 current_output_time_point = torch.tensor([False])
                 idx_checkpoint_t += 1
             else: # the same
                 # case: they conincide, so move on to the next for both, but only keep one
-                current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
+                current_time_interval = torch.cat((current_time_interval,next_cp_t.unsqueeze(0)))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 time_intervals.append(current_time_interval)
                 output_time_points.append(current_output_time_point)
-                current_time_interval = torch.tensor([next_cp_t])
+                current_time_interval = next_cp_t.unsqueeze(0)
                 current_output_time_point = torch.tensor([False])
                 idx_t += 1
                 idx_checkpoint_t += 1
-- 
2.43.0


From 8f7c3b4583d5f060a280359cd316463b87ba9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:03 +0000
Subject: [PATCH 07/25] fix: time-dependent particle-free lookup returns the
 slot with the largest time not after the requested one

---
 neuro_shooting/shooting_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index eef0237..9031940 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -76,9 +76,9 @@ class ParticleFreeParameterFunc(object):
                 elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                     # first check if it is larger than the largest where we havge a parameter
                     # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
-                    while t>self.last_used_time:
+                    while t>=self.times[self.last_used_time_idx+1]:
                         self.last_used_time_idx += 1
-                        self.last_used_time = self.times[self.last_used_time_idx]
+                    self.last_used_time = self.times[self.last_used_time_idx]
                     return self.time_parameter_list[self.last_used_time_idx]
                 else:
                     raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
-- 
2.43.0


From 8cdcef96df3e449fdfa240b81f46249973cfb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:38 +0000
Subject: [PATCH 08/25] fix: look up particle-free parameters by time in the
 reduced Lagrangian

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 3cd8982..f4ade36 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -366,7 +366,7 @@ class ShootingIntegrandBase(nn.Module):
                 if self._rnn_parameter_func is None:
                     raise ValueError('Externally managed RNN parameter function cannot be created here. Should have been assigned before.')
 
-                parameter_objects = self._rnn_parameter_func(t)
+                parameter_objects = self._rnn_parameter_func.get_parameters_at_time(t)
             else:
                 if self._rnn_parameters is None:
                     parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
-- 
2.43.0


From 1377687ad097d8c69a0c8448e21d10012cac38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 09/25] fix: do not share the desired size between pass-through
 blocks when enlarging them

---
 neuro_shooting/shooting_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 9031940..085fbac 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -338,7 +338,7 @@ class ShootingBlockBase(nn.Module):
 
                 current_dict = generic_dict_of_dicts[dk]
                 current_size = torch.tensor(current_dict[k].size())
-                desired_size = desired_size_incorrect_channel
+                desired_size = desired_size_incorrect_channel.clone()
                 desired_size[1] = current_size[1]  # keep the same number of channels (but we are for example at liberty to increase the batch size here)
 
                 dtype = current_dict[k].dtype
-- 
2.43.0


From 611c1d4c62e0e2342330ece9e18443f08600b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 10/25] fix: keep_initial_state_parameters_at_zero zeroes (and
 does not optimize over) new states and state enlargements

---
 neuro_shooting/shooting_blocks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 085fbac..c9d25ca 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -542,7 +542,7 @@ class ShootingBlockBase(nn.Module):
             if keep_state_parameters_at_zero:
                 print('INFO: Keeping new state parameters at zero for {}'.format(self._block_name))
                 for k in state_dict:
-                    state_dict[k].zero_()
+                    state_dict[k].data.zero_()
             else:
                 for k in state_dict:
                     self.register_parameter(k,state_dict[k])
@@ -572,9 +572,10 @@ class ShootingBlockBase(nn.Module):
                         if c_state_dict[k] is not None:
                             if keep_state_parameters_at_zero:
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
-                                c_state_dict[k][0]._zero()
-                            self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
-                            print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
+                                c_state_dict[k][0].data.zero_()
+                            else:
+                                self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                                print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
 
-- 
2.43.0


From 1cc0e4ceb149a432df110042599b1180c882858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 11/25] fix: register the enlargement parameters of every
 pass-through block under its own name

---
 neuro_shooting/shooting_blocks.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index c9d25ca..ebb2116 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -558,6 +558,13 @@ class ShootingBlockBase(nn.Module):
 
         return state_dict,costate_dict
 
+    def _get_enlargement_parameter_name(self, block_key, parameter_key, nr_of_blocks):
+        # parameter keys are only unique within a block, so the block is needed if there is more than one
+        if nr_of_blocks==1:
+            return 'pt_enlarge_' + parameter_key
+        else:
+            return 'pt_enlarge_{}_{}'.format(str(block_key).replace('.','__'), parameter_key)
+
     def register_pass_through_state_and_costate_enlargement_parameters(self,
                                                                        pass_through_state_dict_of_dicts_enlargement_parameters,
                                                                        pass_through_costate_dict_of_dicts_enlargement_parameters,
@@ -574,7 +581,7 @@ class ShootingBlockBase(nn.Module):
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
                                 c_state_dict[k][0].data.zero_()
                             else:
-                                self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                                self.register_parameter(self._get_enlargement_parameter_name(dk, k, nr_of_blocks=len(pass_through_state_dict_of_dicts_enlargement_parameters)), c_state_dict[k][0])
                                 print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
@@ -584,7 +591,7 @@ class ShootingBlockBase(nn.Module):
                 if c_costate_dict is not None:
                     for k in c_costate_dict:
                         if c_costate_dict[k] is not None:
-                            self.register_parameter('pt_enlarge_' + k, c_costate_dict[k][0])
+                            self.register_parameter(self._get_enlargement_parameter_name(dk, k, nr_of_blocks=len(pass_through_costate_dict_of_dicts_enlargement_parameters)), c_costate_dict[k][0])
                             print('INFO: registering enlargement costate parameters {} of size {} for block {}'.format(k,c_costate_dict[k][0].numel(),self._block_name))
 
     def _get_or_create_and_register_pass_through_enlargement_parameters(self,pass_through_state_dict_of_dicts,pass_through_costate_dict_of_dicts,*args,**kwargs):
-- 
2.43.0


From 3bbe57c24eb427edaca7f8bdda9d5ca64fdebc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:58 +0000
Subject: [PATCH 12/25] fix: SNN_Conv2d supports all padding modes and layers
 without bias like nn.Conv2d

---
 neuro_shooting/overwrite_classes.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index 637d283..ada18e5 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -156,15 +156,14 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
         return self
 
     def forward(self, input):
-        if self.padding_mode == 'circular':
-            expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
-                                (self.padding[0] + 1) // 2, self.padding[0] // 2)
-            return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
-                            self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
-                            _pair(0), self.dilation, self.groups)
-
-        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
-                        self.padding, self.dilation, self.groups)
+        weight = self._parameter_dict['weight']
+        bias = self._parameter_dict.get('bias') # there is no entry if there is no bias
+
+        if self.padding_mode != 'zeros':
+            return F.conv2d(F.pad(input, self._reversed_padding_repeated_twice, mode=self.padding_mode),
+                            weight, bias, self.stride, _pair(0), self.dilation, self.groups)
+
+        return F.conv2d(input, weight, bias, self.stride, self.padding, self.dilation, self.groups)
 
 
 class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
-- 
2.43.0


From 1a9106dd8290b6f96af38f91374d380d4441c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:58 +0000
Subject: [PATCH 13/25] fix: SNN_GroupNorm can be evaluated without affine
 parameters

---
 neuro_shooting/overwrite_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index ada18e5..eb51ef9 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -190,7 +190,7 @@ class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
 
     def forward(self, input):
         return F.group_norm(
-            input, self.num_groups, self._parameter_dict['weight'], self._parameter_dict['bias'], self.eps)
+            input, self.num_groups, self._parameter_dict.get('weight'), self._parameter_dict.get('bias'), self.eps)
 
 
 
-- 
2.43.0


From 1bc96b0d9c4b18172ba6af0d2127baf6ed9c9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 14/25] fix: import inf from math, torch._six no longer exists

---
 neuro_shooting/custom_lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index 0ce03bb..f2cce03 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -2,7 +2,7 @@ import torch
 
 import math
 import torch
-from torch._six import inf
+from math import inf
 from functools import partial
 from torch.optim import Optimizer
 
-- 
2.43.0


From 60dc6f0b095701544e38e138133f8a3ef65357f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 15/25] fix: independent parameter sweeps no longer share their
 results

---
 neuro_shooting/command_line_execution_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 2c9164e..278ec9e 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -3,7 +3,13 @@ import os
 import copy
 from collections import OrderedDict
 
-def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_parameter_list=[]):
+def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
+
+    # do not use mutable default arguments here, they would be shared between different sweeps
+    if par_dict is None:
+        par_dict = OrderedDict()
+    if swept_parameter_list is None:
+        swept_parameter_list = []
 
     cur_pars = copy.deepcopy(pars_to_sweep)
     # get first key and remove it
@@ -12,7 +18,7 @@ def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_para
     if len(cur_keys)==0:
         #print('pars: {}'.format(par_dict))
         swept_parameter_list.append(copy.deepcopy(par_dict))
-        return par_dict
+        return swept_parameter_list
 
     first_key = cur_keys[0]
     # sweep over it
-- 
2.43.0


From 100e85cb6d4c0ac15d826532f05930c301f3d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 16/25] fix: the parameter evolution hook records copies, not
 views of the live parameters

---
 neuro_shooting/shooting_hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_hooks.py b/neuro_shooting/shooting_hooks.py
index 203d9eb..94542d4 100644
--- a/neuro_shooting/shooting_hooks.py
+++ b/neuro_shooting/shooting_hooks.py
@@ -6,7 +6,7 @@ def record_generic_dict_of_dicts(custom_hook_data, d, d_name):
         cur_block = d[block_name]
         for cur_state_name in cur_block:
             cur_key = '{}.{}.{}'.format(block_name, d_name, cur_state_name)
-            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy())
+            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy().copy())
 
 def compute_parameter_norms(parameter_objects):
 
@@ -66,7 +66,7 @@ def parameter_evolution_hook(module, t, state_dicts, costate_dicts, data_dict_of
             cur_par_dict = parameter_objects[k].get_parameter_dict()
             for p in cur_par_dict:
                 cur_key = '{}.{}'.format(k, p)
-                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy())
+                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy().copy())
                 # add to current energy
                 current_energy += 0.5 * torch.sum(cur_par_dict[p] ** 2)
 
-- 
2.43.0


From 771f648abf6cec16bf381ae78683d808a2e39230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 17/25] fix: constant initialization for convolutional
 evolutions

---
 neuro_shooting/parameter_initialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/parameter_initialization.py b/neuro_shooting/parameter_initialization.py
index 20ded7e..045ae56 100644
--- a/neuro_shooting/parameter_initialization.py
+++ b/neuro_shooting/parameter_initialization.py
@@ -152,6 +152,14 @@ class ConvolutionEvolutionParameterInitializerBase(ParameterInitializer):
         size = tuple([nr_of_particles,particle_dimension,*particle_size])
         return nn.Parameter(torch.zeros(size))
 
+    def create_constant_parameters(self,nr_of_particles,particle_size,particle_dimension=1,constant=None,*argv,**kwargs):
+
+        if type(particle_size)!=tuple and type(particle_size)!=list:
+            raise ValueError('Expected the particle size as a tuple or list e.g., [3,3], but got {}.'.format(type(particle_size)))
+
+        size = tuple([nr_of_particles,particle_dimension,*particle_size])
+        return nn.Parameter(constant*torch.ones(size))
+
 class ConvolutionEvolutionParameterInitializer(ConvolutionEvolutionParameterInitializerBase):
     def __init__(self, only_random_initialization=True, random_initialization_magnitude=0.5, sample_batch=None):
         super(ConvolutionEvolutionParameterInitializer, self).__init__(
-- 
2.43.0


From 0108b9cf0076ddc22e5719ca4c89ceb62f3e012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 18/25] fix: predicted initial conditions of the up-down
 convolution model have the shape of the second state

---
 neuro_shooting/shooting_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 42815d6..6f9d870 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -2107,7 +2107,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
                 # self.init_l1 = nn.Linear(2, 10)
                 # TODO: shouldn't hard code this
                 self.init_l1 = nn.Conv2d(particle_dimension, particle_dimension*inflation_factor,kernel_size = 1)
-                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 2)
+                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 1)
 
             else:
                 raise ValueError(
@@ -2173,8 +2173,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
             #     data_dict['q2'] = data_q20_replicated
             if self.optimize_over_data_initial_conditions_type.lower() == 'linear':
                 q20 = self.simple_init(x)
-                #data_dict['q2'] = q20
-                data_dict['q2'] = x
+                data_dict['q2'] = q20
             elif self.optimize_over_data_initial_conditions_type.lower() == 'mini_nn':
                 # predict the initial condition based on a simple neural network
                 q20 = self.init_l2(self.nl(self.init_l1(x)))
-- 
2.43.0


From 3d15074e90bc61f3194e1146b30601cda5aed3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 19/25] fix: blocks with an integration time vector can be
 moved

---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index ebb2116..bb21df2 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -271,13 +271,19 @@ class ShootingBlockBase(nn.Module):
     def _apply(self, fn):
         super(ShootingBlockBase, self)._apply(fn)
         self.shooting_integrand._apply(fn)
-        self.integration_time = fn(self.integration_time)
+        if self.integration_time is not None:
+            self.integration_time = fn(self.integration_time)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = fn(self.integration_time_vector)
         return self
 
     def to(self, *args, **kwargs):
         super(ShootingBlockBase,self).to(*args, **kwargs)
         self.shooting_integrand.to(*args, **kwargs)
-        self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time is not None:
+            self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = self.integration_time_vector.to(*args, **kwargs)
         return self
 
     def create_initial_state_and_costate_parameters(self, *args, **kwargs):
-- 
2.43.0


From 8ba72cf52c92c03f02bde66e38b4dea0dd8737d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 20/25] fix: concatenate the blocks along the feature dimension
 also if all times are output

---
 neuro_shooting/shooting_blocks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index bb21df2..39b33e3 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -717,21 +717,22 @@ class ShootingBlockBase(nn.Module):
             res = self.shooting_integrand.disassemble(res_final,dim=0)
 
         if self.shooting_integrand.concatenate_parameters:
-            # we also concatenate the output
+            # we also concatenate the output (if all times are output, time is an additional leading dimension)
+            time_dim_offset = 1 if self.integration_time_vector is not None else 0
             res_state_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=state_dict_of_dicts,
-                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim + time_dim_offset,
                                                                                                    block_name=self._block_name)
             res_costate_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=costate_dict_of_dicts,
-                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim + time_dim_offset,
                                                                                                      block_name=self._block_name)
             res_data_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=data_dict_of_dicts,
-                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim,
+                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim + time_dim_offset,
                                                                                                   block_name=self._block_name)
             if type(res)==torch.Tensor:
                 res_res = res
             else:
                 res_res = scd_utils._concatenate_dict_of_dicts(generic_dict_of_dicts=res,
-                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim)
+                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim + time_dim_offset)
                 # if we have concatenated this there should only be one key now. Check this and return it, otherwise return the entire structure
                 current_keys = list(res_res.keys())
                 if len(current_keys)==1:
-- 
2.43.0


From 5b9cb13b14e5cc64e0016309a364fbefe2438c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:06 +0000
Subject: [PATCH 21/25] fix: softmax nonlinearity stays differentiable for
 large negative arguments

---
 neuro_shooting/activation_functions_and_derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index 821bef7..2da72be 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -2,7 +2,7 @@ import torch
 import torch.nn as nn
 
 def softmax(x,epsilon = 1.0):
-  return x*(torch.ones_like(x))/(torch.exp(-x*epsilon) + torch.ones_like(x))
+  return x*torch.sigmoid(x*epsilon)
 
 
 def dsoftmax(x,epsilon = 1.0):
-- 
2.43.0


From 9a263936fc661f71185fd1f792e83ebabbf930e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 22/25] fix: integrators do not share and modify the options
 dictionary they are given

---
 neuro_shooting/generic_integrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index 54c398b..53aa6b0 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -78,9 +78,11 @@ class GenericIntegrator(object):
             raise ValueError('Integrator {} not available for {}'.format(self.integrator_name, self.integrator_library))
 
         self.use_adjoint_integration = use_adjoint_integration
-        self.integrator_options = integrator_options
-        if self.integrator_options is None:
+        # use a copy as the options are extended below (the given dictionary may be used for other integrators as well)
+        if integrator_options is None:
             self.integrator_options = dict()
+        else:
+            self.integrator_options = dict(integrator_options)
 
         self.kwargs = kwargs
 
-- 
2.43.0


From 6ce17b60becb51d6771c8af8c01c6e1d10364d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:47 +0000
Subject: [PATCH 23/25] fix: a swept switch that is off is left out even if the
 template switches it on

---
 neuro_shooting/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bb51f74..6430ecd 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -77,6 +77,8 @@ def merge_args(run_args_template,add_args):
         if (v is True) or (v is False): # check if v is binary
             if v:
                 merged_args[k] = None # just add the flag
+            else:
+                merged_args.pop(k,None) # the flag is off, also if the template switches it on
         else:
             merged_args[k] = v
 
-- 
2.43.0


From dfe08b7521107d585e11e35d2dde4697d4b6a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:21 +0000
Subject: [PATCH 24/25] fix: data concatenation dimension follows the data of
 the current call, also for pass-through blocks and after earlier calls

---
 neuro_shooting/shooting_blocks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 39b33e3..7714b5d 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -496,6 +496,14 @@ class ShootingBlockBase(nn.Module):
         else:
             data_dicts = data_dict_of_dicts
 
+            # the concatenation dimension needs to match the current data (it might still be the one of an earlier call)
+            if len(state_dicts)>0 and self.shooting_integrand.concatenation_dim is not None:
+                data_concatenation_dim = scd_utils.get_data_concatenation_dim(state_dict=state_dicts.peekitem(0)[1],
+                                                                              data_dict_of_dicts=data_dict_of_dicts,
+                                                                              state_concatenation_dim=self.shooting_integrand.concatenation_dim)
+
+                self.shooting_integrand.set_data_concatenation_dim(data_concatenation_dim=data_concatenation_dim)
+
         # initialize the second state of x with zero so far
         initial_conditions, assembly_plans = self.shooting_integrand.assemble_tensor(state_dict_of_dicts=state_dicts,
                                                                                      costate_dict_of_dicts=costate_dicts,
-- 
2.43.0


From a59744c016aa7885869c007daa105ec39099e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:37 +0000
Subject: [PATCH 25/25] fix: analytic costate equations are split along the
 concatenation dimension of the states, not of the data

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index f4ade36..1fc9d56 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -683,7 +683,7 @@ class ShootingIntegrandBase(nn.Module):
         dot_costate_dict_of_dicts = self.optional_rhs_advect_costate_dict_of_dicts_analytic(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                                                             costate_dict_of_dicts=costate_dict_of_dicts,
                                                                                             parameter_objects=parameter_objects,
-                                                                                            concatenation_dim=self.data_concatenation_dim)
+                                                                                            concatenation_dim=self.concatenation_dim)
 
         return dot_state_dict_of_dicts, dot_costate_dict_of_dicts, dot_data_dict_of_dicts, parameter_objects
 
-- 
2.43.0

