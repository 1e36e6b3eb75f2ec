From c91cd74ee62ab47731a1bfb75c24b6eb81d996bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 01/95] fix: concatenating to an empty dataset must not flag
 the last step of the other dataset

---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..714a7f4 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..db7d4c2 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From 73d3bea19b4b70642082c4664cefef324b4aaf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 02/95] fix: dataset views must index the recorded policy
 states and mask, not the allocated ones

---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 714a7f4..8e4a73a 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index db7d4c2..fcbf676 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From 4cec0db74c7e3b6c679f2982d7b59a7aafcd1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 03/95] fix: Dataset.from_array must keep the policy states it
 is given

---
 mushroom_rl/core/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..e001673 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                   policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From 67e396fe581fc1cec6a7945c17cacc09f3bc9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 04/95] fix: dataset views must have a theta list, so that they
 can be concatenated

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index e001673..1ba8bba 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -259,6 +259,7 @@ class Dataset(Serializable):
         dataset._info = self._info.get_view(index, copy)
         dataset._episode_info = self._episode_info.get_view(index, copy)
         dataset._data = self._data.get_view(index, copy)
+        dataset._theta_list = list()
 
         return dataset
 
-- 
2.43.0


From 110fe5e20feee1ec323ff7a0dfaa6706203d58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:05 +0000
Subject: [PATCH 05/95] fix: list datasets must support concatenation, policy
 states, clearing and copied views

---
 mushroom_rl/core/_impl/list_dataset.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..993e52d 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
@@ -73,23 +73,28 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
         if isinstance(index, (int, slice)):
             view._dataset = self._dataset[index]
+            view._policy_dataset = self._policy_dataset[index]
         else:
             view._dataset = [self._dataset[i] for i in index]
+            view._policy_dataset = [self._policy_dataset[i] for i in index] if self._is_stateful else list()
 
         if self._mask is not None:
             if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
+                view._mask = self._mask[index]
             else:
                 view._mask = [self._mask[i] for i in index]
 
         if copy:
-            return view.copy()
+            return deepcopy(view)
         else:
             return view
 
@@ -98,10 +103,9 @@ class ListDataset(Serializable):
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
         result._dataset = self._dataset + other._dataset
+        if len(self) > 0:
+            result._dataset[len(self) - 1] = self._dataset[-1][:-1] + (True,)
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +136,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
@@ -154,9 +158,9 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
-- 
2.43.0


From 673baddbd3da7e2dd750933df105c0a39f0e73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:51 +0000
Subject: [PATCH 06/95] fix: TorchBackend.from_list must accept a list with a
 single tensor

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..900bab2 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
-- 
2.43.0


From 36e72a97cb140978fa1be3fd372e412dd7755316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:10 +0000
Subject: [PATCH 07/95] fix: clearing a vectorized dataset must mask the
 residual steps with numpy too

---
 mushroom_rl/core/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 1ba8bba..2c1d0f9 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -577,7 +577,8 @@ class VectorizedDataset(Dataset):
                 residual_data = self._data.get_view(view_size, copy=True)
                 mask = residual_data.mask
                 original_shape = mask.shape
-                mask.flatten()[n_extra_steps:] = False
+                mask = mask.flatten()
+                mask[n_extra_steps:] = False
                 residual_data.mask = mask.reshape(original_shape)
 
                 residual_info = self._info.get_view(view_size, copy=True)
-- 
2.43.0


From 2db7df229e9b74fd5c402a84f3bd4187e2b3e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:26 +0000
Subject: [PATCH 08/95] fix: retrieving from a sum tree with equal subtrees
 must keep the offset inside the chosen one

---
 mushroom_rl/rl_utils/replay_memory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..050b054 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -425,6 +425,7 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
+            s = s if s <= self._tree[left] else s - self._tree[left]
             return self._retrieve(s, np.random.choice([left, right]))
 
         if s <= self._tree[left]:
-- 
2.43.0


From 1a9e2911a428a7f3c8bd6cfe07f49b25bb33d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:26 +0000
Subject: [PATCH 09/95] fix: computing n-step returns must not modify the
 rewards of the given dataset

---
 mushroom_rl/rl_utils/replay_memory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 050b054..6da1093 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -62,6 +62,9 @@ class ReplayMemory(Serializable):
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
 
+        if n_steps_return > 1:
+            reward = self._backend.copy(reward)
+
         if self._dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
         else:
@@ -312,6 +315,9 @@ class SumTree(Serializable):
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
 
+        if n_steps_return > 1:
+            reward = self.dataset.array_backend.copy(reward)
+
         if self.dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
         else:
-- 
2.43.0


From 16b9136df88f04ab487a8c867b64ec2e16bb85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:23 +0000
Subject: [PATCH 10/95] fix: an evaluation must not be limited by the episodes
 per fit of a previous learning run

---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From cea2b1545116e33189656c6f4edd507b05c449f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:23 +0000
Subject: [PATCH 11/95] fix: VectorCore must preprocess the initial states
 once, not the tuple returned by the environment

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From e0c8079458bba6db1f375374e2526a3312c33ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 12/95] fix: evaluating a vectorized environment from given
 initial states must give each starting environment its own state

---
 mushroom_rl/core/_impl/vectorized_core_logic.py | 14 +++++++++-----
 mushroom_rl/core/multiprocess_environment.py    |  6 +-----
 mushroom_rl/core/vectorized_core.py             |  2 +-
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..ced2d55 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -44,11 +44,15 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None:
+            return None
+
+        n_resets = reset_mask.sum().item()
+        n_started = self._total_episodes_counter + self._running_envs.sum().item() - n_resets
+
+        initial_state = self._array_backend.zeros(self._n_envs, *initial_states.shape[1:], dtype=initial_states.dtype)
+        initial_state[reset_mask] = initial_states[n_started:n_started + n_resets]
 
         return initial_state
 
diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..f91048f 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,7 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                res = env.reset(data)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..7d6872c 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From 584c650cb6237dc0896f06aa9c03cb86ecffc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 13/95] fix: sequences of recurrent PPO must not mix
 trajectories at the beginning of the dataset

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..7616c24 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -111,11 +111,11 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                lasts_absorbing = last[begin_seq: i].int() + absorbing[begin_seq: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From 0ccbd2ab9cc6dd677cbbd998e815981ffe78a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 14/95] fix: MinMaxPreprocessor must not write on the
 observation it is given

---
 mushroom_rl/rl_utils/preprocessors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..b7b7b34 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -132,6 +132,8 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
         obs[self._obs_mask] = \
             ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-- 
2.43.0


From 2accd71462974aea3f63db59272b403838858fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 15/95] fix: MinMaxPreprocessor must accept spaces where only
 the first observation is bounded

---
 mushroom_rl/rl_utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index b7b7b34..ccbe968 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -109,7 +109,7 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
                                          "you should use StandardizationPreprocessor instead."
 
         self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
-- 
2.43.0


From fc70bdcf047c8efb1691d63f70a358cf9ebbbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:58 +0000
Subject: [PATCH 16/95] fix: MinMaxPreprocessor must accept spaces with a
 single bounded observation

---
 mushroom_rl/rl_utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index ccbe968..2417e7d 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -112,7 +112,7 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
                                          "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
-- 
2.43.0


From 190c0fe3e0467eeca3b02f7c3548ad99f42e90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:58 +0000
Subject: [PATCH 17/95] fix: RunningAveragedWindow must work with torch values
 of more than one component

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..270a5b4 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -212,4 +212,4 @@ class RunningAveragedWindow(Serializable):
             The estimated mean value.
 
         """
-        return self._array_backend.convert(self._avg_buffer).mean(0)
+        return self._array_backend.from_list(list(self._avg_buffer)).mean(0)
-- 
2.43.0


From b097efb54ff620b38984602cf292a1ec277f223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:37 +0000
Subject: [PATCH 18/95] fix: MinMaxPreprocessor with the torch backend must
 accept double precision bounds

---
 mushroom_rl/rl_utils/preprocessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 2417e7d..1584b20 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -116,8 +116,8 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
-        self._obs_mean[self._obs_mask] = (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.
-        self._obs_delta[self._obs_mask] = (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.
+        self._obs_mean[self._obs_mask] += (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.
+        self._obs_delta[self._obs_mask] *= (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.
 
         self._add_save_attr(
             _array_backend='pickle',
-- 
2.43.0


From 78bb862140f2ed01f82822c46748d9fe7561ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 19/95] fix: keep the projected atom index of categorical DQN
 and Rainbow within the support

---
 mushroom_rl/algorithms/value/dqn/categorical_dqn.py | 2 +-
 mushroom_rl/algorithms/value/dqn/rainbow.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
index 3855d31..cca34e5 100644
--- a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
@@ -135,7 +135,7 @@ class CategoricalDQN(AbstractDQN):
             bell_a = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min,
                                                             self._v_max)
 
-            b = (bell_a - self._v_min) / self._delta
+            b = ((bell_a - self._v_min) / self._delta).clip(0, self._n_atoms - 1)
             l = np.floor(b).astype(int)
             u = np.ceil(b).astype(int)
 
diff --git a/mushroom_rl/algorithms/value/dqn/rainbow.py b/mushroom_rl/algorithms/value/dqn/rainbow.py
index ce31b3c..1067f27 100644
--- a/mushroom_rl/algorithms/value/dqn/rainbow.py
+++ b/mushroom_rl/algorithms/value/dqn/rainbow.py
@@ -140,7 +140,7 @@ class Rainbow(AbstractDQN):
             bell_a = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min,
                                                             self._v_max)
 
-            b = (bell_a - self._v_min) / self._delta
+            b = ((bell_a - self._v_min) / self._delta).clip(0, self._n_atoms - 1)
             l = np.floor(b).astype(int)
             u = np.ceil(b).astype(int)
 
-- 
2.43.0


From 62953743d38c283bda1625ec13d52a73f651058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 20/95] fix: subtract the maximum advantage in the dueling
 network when avg_advantage is False

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..b3c58be 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1)[0].reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From 59a4646a79d8f1c9094fe19865cc811abdceadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 21/95] fix: derive the quantile midpoints from the target, not
 from the last QuantileDQN created

---
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 7a96e61..f3c902c 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -11,7 +11,9 @@ from mushroom_rl.approximators.parametric import NumpyTorchApproximator
 
 
 def quantile_huber_loss(input, target):
-    tau = QuantileDQN.tau_hat.repeat(input.shape[0], 1)
+    n_quantiles = target.shape[-1]
+    tau_hat = (torch.arange(n_quantiles, device=input.device) + .5) / n_quantiles
+    tau = tau_hat.repeat(input.shape[0], 1)
 
     target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
     input = input.repeat(tau.shape[-1], 1, 1)
@@ -88,9 +90,6 @@ class QuantileDQN(AbstractDQN):
 
         self._n_quantiles = n_quantiles
 
-        tau = torch.arange(n_quantiles + 1) / n_quantiles
-        QuantileDQN.tau_hat = torch.Tensor([(tau[i-1] + tau[i]) / 2 for i in range(1, len(tau))])
-
         self._add_save_attr(
             _n_quantiles='primitive'
         )
-- 
2.43.0


From 467d66129af985192ea7ceee8144628749f74b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:13 +0000
Subject: [PATCH 22/95] fix: convert step information by its own type, also
 after parsing to another backend

---
 mushroom_rl/core/extra_info.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..68e7f19 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -1,5 +1,7 @@
 from collections import UserDict
 import numbers
+import numpy as np
+import torch
 from .array_backend import ArrayBackend
 from mushroom_rl.core.serialization import Serializable
 
@@ -358,6 +360,9 @@ class ExtraInfo(Serializable, UserDict):
         if value is None:
             return ArrayBackend.get_array_backend(to).none()
         
+        if isinstance(value, (np.ndarray, torch.Tensor)):
+            return ArrayBackend.convert(value, to=to)
+
         return ArrayBackend.convert(value, to=to, backend=self._array_backend)
 
     def _create_key(self, key_path):
-- 
2.43.0


From 382be2c7a6692f8fc21e545495da7e3587824d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 23/95] fix: save the number of environments, backend and
 device of the extra info

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 68e7f19..f5b6577 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -254,6 +254,9 @@ class ExtraInfo(Serializable, UserDict):
 
     def _add_all_save_attr(self):
         self._add_save_attr(
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive',
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
-- 
2.43.0


From 80a2befe5247e1c3fdeb4ace54ad570125f0f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 24/95] fix: keep the parsed steps when copying the extra info

---
 mushroom_rl/core/extra_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index f5b6577..f38c55c 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -212,6 +212,7 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
+        info._structured_storage = self._structured_storage.copy()
         info.data = self.data.copy()
             
         return info
-- 
2.43.0


From f64d666c5e76e0a165214d46e947c891c35a7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 25/95] fix: keep the order of the steps when adding extra
 infos

---
 mushroom_rl/core/extra_info.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index f38c55c..1430f5e 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -137,6 +137,10 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        # the steps still to be parsed come before the parsed steps of the other object
+        if self._storage and other._structured_storage:
+            self.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-- 
2.43.0


From ad82ca786c123cef38f10d541ce8158f115476d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 26/95] fix: accept keys first reported after the extra info
 was parsed

---
 mushroom_rl/core/extra_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1430f5e..783c1a2 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -80,7 +80,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
-- 
2.43.0


From 3b319ed959c11c135765ce8c284749c2590a4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 27/95] fix: load torch attributes with newer torch versions

---
 mushroom_rl/core/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..ab9c1eb 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -210,7 +210,7 @@ class Serializable(object):
     @staticmethod
     def _load_torch(zip_file, name):
         with zip_file.open(name, 'r') as f:
-            return torch.load(f, map_location=TorchUtils.get_device())
+            return torch.load(f, map_location=TorchUtils.get_device(), weights_only=False)
 
     @staticmethod
     def _load_json(zip_file, name):
-- 
2.43.0


From 6d612485f4cb46f525ae489205933d5423b02e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 28/95] fix: load the mushroom attributes saved only by a full
 save

---
 mushroom_rl/core/serialization.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index ab9c1eb..9535da9 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -116,16 +116,14 @@ class Serializable(object):
             setattr(loaded_object, '_save_attributes', save_attributes)
 
             for att, method in save_attributes.items():
-                mandatory = not method.endswith('!')
-                method = method[:-1] if not mandatory else method
+                method = method[:-1] if method.endswith('!') else method
                 file_name = Serializable._append_folder(
                     folder, '{}.{}'.format(att, method)
                 )
 
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
-                elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                elif file_name in zip_file.namelist() or method == 'mushroom':
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
-- 
2.43.0


From 03f7555d351b585285f56a0b7edb79e3f67f08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 29/95] fix: save the device of the dataset info

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 2c1d0f9..79ab9b4 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
-- 
2.43.0


From 498f6d36c9a51562b6fe8b49f55b79a39fd6398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 30/95] fix: save the mask and the policy states of torch and
 list datasets

---
 mushroom_rl/core/_impl/list_dataset.py  | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 993e52d..5de6ccd 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -169,6 +169,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
-            _is_stateful='primitive'
+            _is_stateful='primitive',
+            _mask='pickle'
         )
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index fcbf676..35d57e1 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -283,7 +283,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
-- 
2.43.0


From f085d76e0ec539af00054e3f8a3ecdc3ee8607dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 31/95] fix: return the selected values from the array
 backends' where

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 900bab2..3e525c4 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -216,7 +216,7 @@ class NumpyBackend(ArrayBackend):
         if x is None:
             return np.where(cond)
         else:
-            np.where(cond, x, y)
+            return np.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
@@ -345,7 +345,7 @@ class TorchBackend(ArrayBackend):
         if x is None:
             return torch.where(cond)
         else:
-            torch.where(cond, x, y)
+            return torch.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
-- 
2.43.0


From 49d6c13b8c908d083c2fe3ed8c8bc8224f9f2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 32/95] fix: save the epsilon of the Adam optimizer

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..47335f0 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From dab8179eec78ca695e06772828d55b10eb36929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:14 +0000
Subject: [PATCH 33/95] fix: do not restore the priorities of a replay memory
 saved without its data

---
 mushroom_rl/rl_utils/replay_memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 6da1093..e1754db 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -292,9 +292,9 @@ class SumTree(Serializable):
         super().__init__()
         self._add_save_attr(
             _max_size="primitive",
-            _idx="primitive",
-            _full="primitive",
-            _tree="numpy",
+            _idx="primitive!",
+            _full="primitive!",
+            _tree="numpy!",
             _mdp_info="mushroom",
             _agent_info="mushroom",
             dataset="mushroom!")
@@ -471,6 +471,9 @@ class SumTree(Serializable):
         if self.dataset is None:
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
 
 
 class PrioritizedReplayMemory(Serializable):
-- 
2.43.0


From 4c4f1d8b5353958853c2c5dc6e03d9803a358412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:35 +0000
Subject: [PATCH 34/95] fix: do not normalize the caller's initial state in
 place

---
 mushroom_rl/environments/cart_pole.py         | 2 +-
 mushroom_rl/environments/inverted_pendulum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..67cf8e0 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,7 +59,7 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..1e8317d 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,7 +63,7 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
-- 
2.43.0


From 803efc1ad905d2f9c0f62fac36843601cb8d06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 35/95] fix: do not normalize the Segway caller's initial state
 in place

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..2c7ffae 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -61,7 +61,7 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
-- 
2.43.0


From c241085e26c5cff2a8cd5a9aa7b51e102fd5c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 36/95] fix: order the angle bounds of the Segway observation
 space

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 2c7ffae..eb781ea 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
-- 
2.43.0


From 54d64ec09d418084454a7d5d82d761a3c769b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:22 +0000
Subject: [PATCH 37/95] fix: reward the taxi also when it slips into the goal

---
 mushroom_rl/environments/generators/taxi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 2ef85d6..f0e214f 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -206,7 +206,7 @@ def compute_reward(grid_map, cell_list, passenger_list, rew):
                     j_idx = j = np.where((c == goal).all(axis=1))[0] + len(
                         cell_list) * i
 
-                    r[i_idx, a, j_idx] = rew[np.sum(passenger_states[i])]
+                    r[i_idx, :, j_idx] = rew[np.sum(passenger_states[i])]
 
     return r
 
-- 
2.43.0


From a73710b61c7225d73f8dffaeaac2c988afe84484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:22 +0000
Subject: [PATCH 38/95] fix: keep the last row of a grid file that does not end
 with a newline

---
 mushroom_rl/environments/generators/grid_world.py | 3 +++
 mushroom_rl/environments/generators/taxi.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/environments/generators/grid_world.py b/mushroom_rl/environments/generators/grid_world.py
index 1f4a2a3..45d4706 100644
--- a/mushroom_rl/environments/generators/grid_world.py
+++ b/mushroom_rl/environments/generators/grid_world.py
@@ -71,6 +71,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list
 
 
diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index f0e214f..7d88843 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -83,6 +83,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list, passenger_list
 
 
-- 
2.43.0


From c15278220648e8b085619ac5d6a327f76420b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:22 +0000
Subject: [PATCH 39/95] fix: draw the start of the grid world in its cell

---
 mushroom_rl/environments/grid_world.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/grid_world.py b/mushroom_rl/environments/grid_world.py
index 63b4bc1..3fc15c1 100644
--- a/mushroom_rl/environments/grid_world.py
+++ b/mushroom_rl/environments/grid_world.py
@@ -61,8 +61,7 @@ class AbstractGridWorld(Environment):
         goal_center = np.array([.5 + self._goal[1], self._height - (.5 + self._goal[0])])
         self._viewer.square(goal_center, 0, 1, (0, 255, 0))
 
-        start_grid = self.convert_to_grid(self._start, self._width)
-        start_center = np.array([.5 + start_grid[1], self._height - (.5 + start_grid[0])])
+        start_center = np.array([.5 + self._start[1], self._height - (.5 + self._start[0])])
         self._viewer.square(start_center, 0, 1, (255, 0, 0))
 
         state_grid = self.convert_to_grid(self._state, self._width)
-- 
2.43.0


From 44a881e775a6946002518106d60bcd2f5d405999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 40/95] fix: keep the feature dimension of torch features with
 a single feature or basis function

---
 mushroom_rl/features/_implementations/torch_features.py | 2 +-
 mushroom_rl/features/tensors/basis_tensor.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/features/_implementations/torch_features.py b/mushroom_rl/features/_implementations/torch_features.py
index 7129903..5e8de0b 100644
--- a/mushroom_rl/features/_implementations/torch_features.py
+++ b/mushroom_rl/features/_implementations/torch_features.py
@@ -15,7 +15,7 @@ class TorchFeatures(FeaturesImplementation):
         x = TorchUtils.to_float_tensor(np.atleast_2d(x))
 
         y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
-        y = torch.cat(y_list, 1).squeeze()
+        y = torch.cat(y_list, 1)
 
         y = y.detach().cpu().numpy()
 
diff --git a/mushroom_rl/features/tensors/basis_tensor.py b/mushroom_rl/features/tensors/basis_tensor.py
index 1f72131..5abe711 100644
--- a/mushroom_rl/features/tensors/basis_tensor.py
+++ b/mushroom_rl/features/tensors/basis_tensor.py
@@ -45,9 +45,9 @@ class GenericBasisTensor(nn.Module):
         phi = self._basis_function(delta, self._scale)
 
         if self._normalized:
-            return self._normalize(phi).squeeze(-1)
+            return self._normalize(phi)
         else:
-            return phi.squeeze(-1)
+            return phi
 
     def _basis_function(self, delta, scale):
         raise NotImplementedError
-- 
2.43.0


From a0d131581579d194c8c09de3390b59ca0581d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 41/95] fix: do not let rounding push a point past the last
 tile of its dimension

---
 mushroom_rl/features/tiles/tiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/tiles.py b/mushroom_rl/features/tiles/tiles.py
index ba7b81b..8d2c766 100644
--- a/mushroom_rl/features/tiles/tiles.py
+++ b/mushroom_rl/features/tiles/tiles.py
@@ -53,7 +53,7 @@ class Tiles:
         for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
             if r[0] <= x[i] < r[1]:
                 width = r[1] - r[0]
-                component_index = int(np.floor(N * (x[i] - r[0]) / width))
+                component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
                 tile_index += component_index * multiplier
                 multiplier *= N
             else:
-- 
2.43.0


From 6de37e960fa7155823e76b7bea60ef70a339c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:49 +0000
Subject: [PATCH 42/95] fix: ensemble min/max of torch models fails when the
 variance is requested

---
 mushroom_rl/approximators/ensemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..80d748b 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -107,13 +107,13 @@ class Ensemble(Serializable):
                 results = predictions.max(0)
             else:
                 raise ValueError
+            if torch_output and (prediction == 'min' or prediction == 'max'):
+                results = results.values
+
             if compute_variance:
                 results = [results, predictions.var(0)]
 
-        if torch_output and (prediction == 'min' or prediction == 'max'):
-            return results.values
-        else:
-            return results
+        return results
 
     def reset(self):
         """
-- 
2.43.0


From 64b58457a08b6faa40ee9734a064160af44ac0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:49 +0000
Subject: [PATCH 43/95] fix: action regressor cannot be differentiated w.r.t.
 every action

---
 mushroom_rl/approximators/_implementations/action_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/_implementations/action_regressor.py b/mushroom_rl/approximators/_implementations/action_regressor.py
index 322717c..89d86f6 100644
--- a/mushroom_rl/approximators/_implementations/action_regressor.py
+++ b/mushroom_rl/approximators/_implementations/action_regressor.py
@@ -117,7 +117,7 @@ class ActionRegressor(Serializable):
             stop = start + size
             m.set_weights(w[start:stop])
 
-    def diff(self, state, action):
+    def diff(self, state, action=None):
         if action is None:
             diff = list()
             for m in self.model:
-- 
2.43.0


From 49f00cea7c4ad46ccbb71e0c8a639ab236be20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 44/95] fix: CMAC computes the features of the features when
 differentiated

---
 mushroom_rl/approximators/parametric/cmac.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..586008b 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -90,5 +90,4 @@ class CMAC(LinearApproximator):
 
         """
 
-        phi = self._phi(state)
-        return super().diff(phi, action)
+        return super().diff(state, action)
-- 
2.43.0


From 4987d88c5041f50603828b8fe240660d0e3ae8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 45/95] fix: CMAC prediction for a single sample drops the
 batch dimension

---
 mushroom_rl/approximators/parametric/cmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 586008b..a9430e7 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -41,7 +41,7 @@ class CMAC(LinearApproximator):
 
         """
         y_hat = self.predict(x)
-        delta_y = np.atleast_2d(y - y_hat)
+        delta_y = np.atleast_2d(y.reshape(y_hat.shape) - y_hat)
         if self._w.shape[0] > 1:
             delta_y = delta_y.T
 
@@ -75,7 +75,7 @@ class CMAC(LinearApproximator):
         for i, idx in enumerate(indexes):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
-        return prediction.squeeze()
+        return prediction.squeeze(-1) if self._w.shape[0] == 1 else prediction
 
     def diff(self, state, action=None):
         """
-- 
2.43.0


From 1a5f5936c238ffe948a8ac07b050abf18e59c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 46/95] fix: CMAC fit writes into the array of weights given by
 the caller

---
 mushroom_rl/approximators/parametric/cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index a9430e7..157f62e 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -52,7 +52,7 @@ class CMAC(LinearApproximator):
         sum_phi[sum_phi == 0] = 1.
 
         delta_w = delta_y @ phi_n / sum_phi
-        self._w += alpha*delta_w
+        self._w = self._w + alpha*delta_w
 
     def predict(self, x, **predict_params):
         """
-- 
2.43.0


From 9c3d840162d792a7ee326e9e2e1821791b5f4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 47/95] fix: CMAC weights become NaN after fitting a point
 outside every tiling

---
 mushroom_rl/approximators/parametric/cmac.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 157f62e..6e58ea4 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -48,6 +48,7 @@ class CMAC(LinearApproximator):
         phi = np.atleast_2d(self._phi(x))
         sum_phi = np.sum(phi, axis=0)
         n = np.sum(phi, axis=1, keepdims=True)
+        n[n == 0] = 1.
         phi_n = phi / n
         sum_phi[sum_phi == 0] = 1.
 
-- 
2.43.0


From 753fb5204f75bcf67788eb213921f8e5a24b4b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:41 +0000
Subject: [PATCH 48/95] fix: weights set in a torch approximator share memory
 with the vector of the caller

---
 mushroom_rl/utils/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/torch.py b/mushroom_rl/utils/torch.py
index b0b01b8..327ad92 100644
--- a/mushroom_rl/utils/torch.py
+++ b/mushroom_rl/utils/torch.py
@@ -36,7 +36,7 @@ class TorchUtils(object):
 
             w = weights[idx:idx + c].reshape(shape)
 
-            w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype)
+            w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype).clone()
 
             p.data = w_tensor
             idx += c
-- 
2.43.0


From aeac0bcb9f12f23effdb28bc0eb5bd3f347934fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:19 +0000
Subject: [PATCH 49/95] fix: LQR policy gradient fails for a batch of states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..ccb0bb2 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From e1fdafd82f0770362d8133f2a45b2b279b5a4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:19 +0000
Subject: [PATCH 50/95] fix: car on hill solver discounts an unavoidable crash
 one step too much

---
 mushroom_rl/solvers/car_on_hill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/car_on_hill.py b/mushroom_rl/solvers/car_on_hill.py
index c97954b..e7becd9 100644
--- a/mushroom_rl/solvers/car_on_hill.py
+++ b/mushroom_rl/solvers/car_on_hill.py
@@ -31,7 +31,10 @@ def bfs(mdp, frontier, k, max_k):
         depth of the tree.
 
     """
-    if len(frontier) == 0 or k == max_k:
+    if len(frontier) == 0:
+        return False, k - 1
+
+    if k == max_k:
         return False, k
 
     new_frontier = list()
-- 
2.43.0


From 20ee2986613dd6ce5a106e15a5315e4effdbb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 51/95] fix: GPOMDP keeps the rewards of a cut episode for the
 next fit

---
 mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bf2acd6..736fd11 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -99,4 +99,5 @@ class GPOMDP(PolicyGradient):
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
+        self.list_reward = list()
         self.step_count = 0
-- 
2.43.0


From e01c90fe0ce43a68a9df15ce40311a4ff99c39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 52/95] fix: gradient descent optimizers negate the gradient of
 the caller in place

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index 47335f0..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -153,7 +153,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From f17838a38714ba96a9cb67a96a7dfc08702af4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 53/95] fix: contextual PGPE conditions every sample on the
 whole context array

---
 .../algorithms/policy_search/black_box_optimization/pgpe.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
index 66054c0..f2f1578 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
@@ -34,7 +34,9 @@ class PGPE(BlackBoxOptimization):
             J_i = Jep[i]
             theta_i = theta[i]
 
-            diff_log_dist = self.distribution.diff_log(theta_i, context)
+            context_i = context[i] if context is not None else None
+
+            diff_log_dist = self.distribution.diff_log(theta_i, context_i)
             diff_log_dist2 = diff_log_dist**2
 
             diff_log_dist_list.append(diff_log_dist)
-- 
2.43.0


From f32fba37563ca722933afa9d1e6494c2515a6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 54/95] fix: ePPO ignores the context in the old log-density

---
 .../algorithms/policy_search/black_box_optimization/eppo.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..7f6ae63 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -46,7 +46,7 @@ class ePPO(BlackBoxOptimization):
 
         Jep = (Jep - J_mean) / (J_std + 1e-8)
 
-        old_dist = self.distribution.log_pdf(theta).detach()
+        old_dist = self.distribution.log_pdf(theta, context).detach()
 
         if self.distribution.is_contextual:
             full_batch = (theta, Jep, old_dist, context)
-- 
2.43.0


From 285bae09aef1b6ccb0547a6326b637bdaf62ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 55/95] fix: vectorized episodes of black-box optimization fail
 without context

---
 .../black_box_optimization/black_box_optimization.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..263b7ea 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,14 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            if self.distribution.is_contextual:
+                context = self._context_builder(initial_states, **episode_info)[start_mask]
+            else:
+                context = None
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self.distribution.mean(context)
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
-- 
2.43.0


From f8828749b8d1160b6e8ce3575c0435709befe4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 56/95] fix: MORE doubles the mixed quadratic terms of its
 model

---
 .../algorithms/policy_search/black_box_optimization/more.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..939e2b8 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -94,7 +94,7 @@ class MORE(BlackBoxOptimization):
         R = np.zeros((n,n ))
         uid = np.triu_indices(n)
         R[uid] = beta[1 + n:]
-        R.T[uid] = R[uid]
+        R = 0.5 * (R + R.T)
         
         w, v = np.linalg.eig(R)
         w[w >= 0.0] = -1e-12
-- 
2.43.0


From 0209cafd647e0f1b1d689c02425e698d63a11f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 57/95] fix: a loaded MORE agent lacks its features and
 regressors

---
 .../policy_search/black_box_optimization/more.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 939e2b8..c1456ca 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -52,9 +52,13 @@ class MORE(BlackBoxOptimization):
         super().__init__(mdp_info, distribution, policy)
 
         self._add_save_attr(
-            eps='primitive',
-            h0='primitive',
-            kappa='primitive'
+            eps='mushroom',
+            h0='mushroom',
+            kappa='mushroom',
+            phi_quadratic_='pickle',
+            regressor_quadratic='mushroom',
+            phi_linear_='pickle',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From 11b37fe6d5ef9285295365cf987befb9a37cf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 58/95] fix: VectorPolicy fails with stateful policies and
 set_n does the opposite

---
 mushroom_rl/policy/vector_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..fefaaaa 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,16 +30,16 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        elif len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From 8234d31179efe6de81f6c61b6b9699b58a473e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 59/95] fix: maximum likelihood fit of a one-dimensional
 Cholesky Gaussian raises

---
 mushroom_rl/distributions/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 8a278fb..53ddf41 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -333,7 +333,7 @@ class GaussianCholeskyDistribution(Distribution):
     def mle(self, theta, weights=None):
         if weights is None:
             self._mu = np.mean(theta, axis=0)
-            sigma = np.cov(theta, rowvar=False)
+            sigma = np.atleast_2d(np.cov(theta, rowvar=False))
         else:
             sumD = np.sum(weights)
             sumD2 = np.sum(weights**2)
-- 
2.43.0


From ce346c67087ab4a075e815cf3a297b635ae4ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 60/95] fix: parameters set in a torch distribution share
 memory with the vector of the caller

---
 mushroom_rl/distributions/torch_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/distributions/torch_distribution.py b/mushroom_rl/distributions/torch_distribution.py
index ef099fa..915d794 100644
--- a/mushroom_rl/distributions/torch_distribution.py
+++ b/mushroom_rl/distributions/torch_distribution.py
@@ -83,8 +83,8 @@ class DiagonalGaussianTorchDistribution(AbstractGaussianTorchDistribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu.data = rho[:n_dims]
-        self._log_sigma.data = rho[n_dims:]
+        self._mu.data = rho[:n_dims].clone()
+        self._log_sigma.data = rho[n_dims:].clone()
 
     @property
     def parameters_size(self):
@@ -124,7 +124,7 @@ class CholeskyGaussianTorchDistribution(AbstractGaussianTorchDistribution):
     def set_parameters(self, rho):
         n_dims = len(self._mu)
         tril_indices = torch.tril_indices(row=n_dims, col=n_dims)
-        self._mu.data = rho[:n_dims]
+        self._mu.data = rho[:n_dims].clone()
         self._chol_sigma.data[tril_indices[0], tril_indices[1]] = rho[n_dims:]
 
     @property
-- 
2.43.0


From bbdc136a5617cdc57b82522181f542e28f29c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 61/95] fix: weights set in a linear approximator or diagonal
 Gaussian policy share memory with the caller

---
 mushroom_rl/approximators/parametric/linear.py | 2 +-
 mushroom_rl/policy/gaussian_policy.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/linear.py b/mushroom_rl/approximators/parametric/linear.py
index 55c4b0f..af50f42 100644
--- a/mushroom_rl/approximators/parametric/linear.py
+++ b/mushroom_rl/approximators/parametric/linear.py
@@ -100,7 +100,7 @@ class LinearApproximator(Serializable):
             w (np.ndarray): the set of weights to set.
 
         """
-        self._w = w.reshape(self._w.shape)
+        self._w = w.reshape(self._w.shape).copy()
 
     def phi(self, x):
         if self._phi is not None:
diff --git a/mushroom_rl/policy/gaussian_policy.py b/mushroom_rl/policy/gaussian_policy.py
index f92f4d9..eb88734 100644
--- a/mushroom_rl/policy/gaussian_policy.py
+++ b/mushroom_rl/policy/gaussian_policy.py
@@ -166,7 +166,7 @@ class DiagonalGaussianPolicy(AbstractGaussianPolicy):
     def set_weights(self, weights):
         self._approximator.set_weights(
             weights[0:self._approximator.weights_size])
-        self._std = weights[self._approximator.weights_size:]
+        self._std = weights[self._approximator.weights_size:].copy()
 
     def get_weights(self):
         return np.concatenate((self._approximator.get_weights(), self._std),
-- 
2.43.0


From 11d925123c9c3693bc1d4f5f48a30e1323638cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 62/95] fix: weights set in a Gaussian torch policy share
 memory with the caller

---
 mushroom_rl/policy/torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/torch_policy.py b/mushroom_rl/policy/torch_policy.py
index 89e043a..28a9f9a 100644
--- a/mushroom_rl/policy/torch_policy.py
+++ b/mushroom_rl/policy/torch_policy.py
@@ -222,7 +222,7 @@ class GaussianTorchPolicy(TorchPolicy):
         return self._mu(state, **self._predict_params), torch.diag(torch.exp(self._log_sigma))
 
     def set_weights(self, weights):
-        log_sigma_data = TorchUtils.to_float_tensor(weights[-self._action_dim:])
+        log_sigma_data = TorchUtils.to_float_tensor(weights[-self._action_dim:]).clone()
         self._log_sigma.data = log_sigma_data
 
         self._mu.set_weights(weights[:-self._action_dim])
-- 
2.43.0


From a244b0e6ab60f4623c4daf66e368b976385ccb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 63/95] fix: a loaded recurrent policy lacks its standard
 deviation bounds

---
 mushroom_rl/policy/recurrent_torch_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..a176112 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 3bdb01d4b68dd91d9ebcaf71252d11f49c68101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 64/95] fix: log-density of a recurrent policy fails for
 one-dimensional actions

---
 mushroom_rl/policy/recurrent_torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index a176112..7c48bba 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -40,7 +40,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        return self.distribution_t(state, policy_state, lengths).log_prob(action.reshape(-1, self._action_dim))[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
-- 
2.43.0


From 29a6df40247a50b16c4660d28a3e42b783cb2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 65/95] fix: ProMP does not use its policy state

---
 mushroom_rl/policy/promps.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..5147c06 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -46,17 +46,17 @@ class ProMP(ParametricPolicy):
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.array_equal(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -75,10 +75,10 @@ class ProMP(ParametricPolicy):
             state (np.ndarray): The current state of the system.
 
         """
-        policy_state += 1
+        policy_state = policy_state + 1
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+        if not self._periodic:
+            policy_state = np.minimum(policy_state, self._duration)
 
         return policy_state
 
@@ -114,4 +114,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(self.policy_state_shape)
-- 
2.43.0


From 6bb22b475eced407fa51fd139d52e5f0be7475ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 66/95] fix: DMP does not follow the policy interface

---
 mushroom_rl/policy/dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..9aefb43 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -12,6 +12,8 @@ class DMP(ParametricPolicy):
 
     """
     def __init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
+        super().__init__()
+
         self._approximator = mu
         self._phi = phi
 
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
-- 
2.43.0


From 5b61f108bbebeb483a690479708c94a971a302b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 67/95] fix: DDPG and TD3 cannot be trained with a policy that
 has a state

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..127c720 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
-- 
2.43.0


From 7e5697103440f7fc09a46b34a78f14e2c59054d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 68/95] fix: DDPG and TD3 fail masking the values of absorbing
 states

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 127c720..e81daef 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
 
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..06596b7 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -89,6 +89,6 @@ class TD3(DDPG):
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
-- 
2.43.0


From 101f6101c4ef6f61040554c3657c87c9bfa983ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 69/95] fix: TD3 fails smoothing the target actions

---
 .../actor_critic/deep_actor_critic/td3.py           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 06596b7..ebf2226 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,7 +1,8 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
+from mushroom_rl.utils.torch import TorchUtils
 from mushroom_rl.rl_utils.parameters import to_parameter
 
 
@@ -81,11 +82,11 @@ class TD3(DDPG):
         """
         a = self._target_actor_approximator(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = TorchUtils.to_float_tensor(self.mdp_info.action_space.low)
+        high = TorchUtils.to_float_tensor(self.mdp_info.action_space.high)
+        eps = self._noise_std() * torch.randn_like(a)
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-- 
2.43.0


From 5fd541102704dc3ae9d4f8b9b181827714251cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 70/95] fix: COPDAC-Q fails with multi-dimensional actions

---
 .../actor_critic/classic_actor_critic/copdac_q.py          | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..0f52227 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -68,7 +68,7 @@ class COPDAC_Q(Agent):
 
             q_next = self._V(ss_psi).item() if not absorbing else 0
 
-            grad_mu_s = np.atleast_2d(self._mu.diff(s))
+            grad_mu_s = self._grad_mu(s)
             omega = self._A.get_weights()
 
             delta = r + self.mdp_info.gamma * q_next - self._Q(s, a)
@@ -93,7 +93,10 @@ class COPDAC_Q(Agent):
                                                             action)).item()
 
     def _nu(self, state, action):
-        grad_mu = np.atleast_2d(self._mu.diff(state))
+        grad_mu = self._grad_mu(state)
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
+
+    def _grad_mu(self, state):
+        return np.reshape(self._mu.diff(state), (self._mu.weights_size, -1)).T
-- 
2.43.0


From 5a3d36b485c4670503c730939fdf0980e22690ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 71/95] fix: recording some of the parallel environments fails

---
 mushroom_rl/core/multiprocess_environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index f91048f..74ea4f6 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -139,8 +139,10 @@ class MultiprocessEnvironment(VectorizedEnvironment):
             if env_mask[i]:
                 frame = remote.recv()
                 frames.append(frame)
+            else:
+                frames.append(None)
 
-        return np.array(frames)
+        return frames
 
     def seed(self, seed):
         for remote in self._remotes:
-- 
2.43.0


From 786ead1900ffc09ab7fdf26a78c7a78a1a38f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 72/95] fix: sampling sequences fails for stateless agents

---
 mushroom_rl/rl_utils/replay_memory.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index e1754db..56ee2b9 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -212,8 +212,9 @@ class SequenceReplayMemory(ReplayMemory):
                                  dtype=self._mdp_info.observation_space.data_type)
         ab = self._backend.zeros(n_samples, 1, dtype=int)
         last = self._backend.zeros(n_samples, dtype=int)
-        ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
-        nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+        if self._dataset.is_stateful:
+            ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+            nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
         pa = self._backend.zeros(n_samples, self._truncation_length, *self._mdp_info.action_space.shape,
                                  dtype=self._mdp_info.action_space.data_type)
         lengths = list()
@@ -249,8 +250,9 @@ class SequenceReplayMemory(ReplayMemory):
                 s[num, :end_seq-begin_seq] = self._dataset.state[begin_seq:end_seq]
                 ss[num, :end_seq-begin_seq] = self._dataset.next_state[begin_seq:end_seq]
                 a[num, :end_seq-begin_seq] = self._dataset.action[begin_seq:end_seq]
-                ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
-                nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
+                if self._dataset.is_stateful:
+                    ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
+                    nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
                 pa[num, :end_seq-begin_seq] = prev_actions
                 r[num] = self._dataset.reward[i]
                 ab[num] = self._dataset.absorbing[i]
-- 
2.43.0


From 3f9790ecf544dd1fbd72cb5f474c0f5f828612e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 73/95] fix: sampled sequences join the newest and the oldest
 samples of a full memory

---
 mushroom_rl/rl_utils/replay_memory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 56ee2b9..9972e58 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -227,6 +227,11 @@ class SequenceReplayMemory(ReplayMemory):
                 begin_seq = np.maximum(i - self._truncation_length + 1, 0)
                 end_seq = i + 1
 
+                # once the memory is full, the oldest sample is stored after the newest one
+                oldest = self._idx if self._full else 0
+                if begin_seq < oldest <= i:
+                    begin_seq = oldest
+
                 # the sequence can contain more than one trajectory, check to only include one
                 lasts_absorbing = self._dataset.last[begin_seq: i]
                 begin_traj = self._backend.where(lasts_absorbing > 0)
@@ -236,13 +241,16 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or begin_seq == oldest or self._dataset.last[begin_seq-1]:
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
                         prev_actions = init_prev_action
                     else:
                         prev_actions = self._backend.concatenate([init_prev_action, prev_actions])
+                elif begin_seq == 0:
+                    prev_actions = self._backend.concatenate([self._dataset.action[-1:],
+                                                              self._dataset.action[:end_seq - 1]])
                 else:
                     prev_actions = self._dataset.action[begin_seq - 1:end_seq - 1]
 
-- 
2.43.0


From fa3f3ef3b3635b1644f9dff42b68b37e44c33523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 74/95] fix: weights of linear approximators and Gaussian
 policies cannot be set from a tensor

---
 mushroom_rl/approximators/parametric/linear.py | 2 +-
 mushroom_rl/policy/gaussian_policy.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/linear.py b/mushroom_rl/approximators/parametric/linear.py
index af50f42..3a78869 100644
--- a/mushroom_rl/approximators/parametric/linear.py
+++ b/mushroom_rl/approximators/parametric/linear.py
@@ -100,7 +100,7 @@ class LinearApproximator(Serializable):
             w (np.ndarray): the set of weights to set.
 
         """
-        self._w = w.reshape(self._w.shape).copy()
+        self._w = np.array(w).reshape(self._w.shape)
 
     def phi(self, x):
         if self._phi is not None:
diff --git a/mushroom_rl/policy/gaussian_policy.py b/mushroom_rl/policy/gaussian_policy.py
index eb88734..6f29c45 100644
--- a/mushroom_rl/policy/gaussian_policy.py
+++ b/mushroom_rl/policy/gaussian_policy.py
@@ -166,7 +166,7 @@ class DiagonalGaussianPolicy(AbstractGaussianPolicy):
     def set_weights(self, weights):
         self._approximator.set_weights(
             weights[0:self._approximator.weights_size])
-        self._std = weights[self._approximator.weights_size:].copy()
+        self._std = np.array(weights[self._approximator.weights_size:])
 
     def get_weights(self):
         return np.concatenate((self._approximator.get_weights(), self._std),
-- 
2.43.0


From c11a71e91e39eb2ce528d701b133ce16cab11f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 75/95] fix: truncation length of recurrent PPO is not saved

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 7616c24..1c28c73 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,7 +67,8 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
-            _dim_env_state='primitive'
+            _dim_env_state='primitive',
+            _truncation_length='primitive'
         )
 
     def fit(self, dataset):
-- 
2.43.0


From dbde6b6fdee410546874d76a1805527defac837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 76/95] fix: optimizer of a loaded ePPO does not update the
 distribution

---
 .../algorithms/policy_search/black_box_optimization/eppo.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7f6ae63..33c5201 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -2,6 +2,7 @@ import torch
 
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
+from mushroom_rl.utils.torch import TorchUtils
 from mushroom_rl.rl_utils.parameters import to_parameter
 
 
@@ -74,3 +75,7 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From 77c7902fff7db9418aa6c61eee5a13fae87425e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:04 +0000
Subject: [PATCH 77/95] fix: loaded COPDAC-Q does not update its policy

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index 0f52227..4fa2543 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -100,3 +100,7 @@ class COPDAC_Q(Agent):
 
     def _grad_mu(self, state):
         return np.reshape(self._mu.diff(state), (self._mu.weights_size, -1)).T
+
+    def _post_load(self):
+        if hasattr(self.policy, '_approximator'):
+            self._mu = self.policy._approximator
-- 
2.43.0


From 0e039acd3e17adde483ae728230393b9d8ffa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 78/95] fix: a loaded Mellowmax policy computes its temperature
 from itself

---
 mushroom_rl/policy/td_policy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..93b13d7 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -189,7 +189,7 @@ class Mellowmax(Boltzmann):
 
             self._add_save_attr(
                 _omega='primitive',
-                _outer='primitive',
+                _outer='none',
                 _beta_min='primitive',
                 _beta_max='primitive',
             )
@@ -236,3 +236,6 @@ class Mellowmax(Boltzmann):
 
     def update(self, *idx):
         raise RuntimeError('Cannot update the beta parameter of Mellowmax policy')
+
+    def _post_load(self):
+        self._beta._outer = self
-- 
2.43.0


From 34af2f339eaeb86c12b16a71f5314f388b1b3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 79/95] fix: Gaussian distributions do not share memory with
 the parameter vector of the caller

---
 mushroom_rl/distributions/gaussian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 53ddf41..84b1286 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -77,10 +77,10 @@ class GaussianDistribution(Distribution):
         return g
 
     def get_parameters(self):
-        return self._mu
+        return self._mu.copy()
 
     def set_parameters(self, rho):
-        self._mu = rho
+        self._mu = rho.copy()
 
     @property
     def parameters_size(self):
@@ -229,8 +229,8 @@ class GaussianDiagonalDistribution(Distribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu = rho[:n_dims]
-        self._std = rho[n_dims:]
+        self._mu = rho[:n_dims].copy()
+        self._std = rho[n_dims:].copy()
 
     @property
     def parameters_size(self):
@@ -397,7 +397,7 @@ class GaussianCholeskyDistribution(Distribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu = rho[:n_dims]
+        self._mu = rho[:n_dims].copy()
         self._chol_sigma[np.tril_indices(n_dims)] = rho[n_dims:]
 
     @property
-- 
2.43.0


From 6d22b034122a6a58332a048c6899d417fd7b7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 80/95] fix: decreasing variance parameter is 0.5 at the
 documented tolerance

---
 mushroom_rl/rl_utils/variance_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..a1b0eb1 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -104,7 +104,7 @@ class VarianceDecreasingParameter(VarianceParameter):
         if self._exponential:
             return np.exp(sigma * np.log(.5) / self._tol)
         else:
-            return 1. / (sigma + self._tol)
+            return self._tol / (sigma + self._tol)
 
 
 class WindowedVarianceParameter(Parameter):
-- 
2.43.0


From 03e81aa4f6c9a3c01aa1c92b019cca8398a8d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:07 +0000
Subject: [PATCH 81/95] fix: size of variance parameters was passed as the
 maximum value

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index a1b0eb1..b5900f2 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
-- 
2.43.0


From 689a34295b9966a29ce1f60fbbeaeec7ce9d3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:07 +0000
Subject: [PATCH 82/95] fix: windowed variance parameter of size one is used
 without index

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index b5900f2..bfa5cd8 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -162,6 +162,10 @@ class WindowedVarianceParameter(Parameter):
         x = kwargs['target']
         factor = kwargs.get('factor', 1.)
 
+        # a single parameter is used without index
+        if self._n_updates.table.size == 1:
+            idx = (0,) * len(self.shape)
+
         # compute parameter value
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
-- 
2.43.0


From 4de821f3a4080fd4bea9d70d4cc264edb4a2e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:17 +0000
Subject: [PATCH 83/95] fix: number of episodes of an empty dataset

---
 mushroom_rl/core/_impl/list_dataset.py  | 2 +-
 mushroom_rl/core/_impl/numpy_dataset.py | 2 +-
 mushroom_rl/core/_impl/torch_dataset.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 5de6ccd..e15b486 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -160,7 +160,7 @@ class ListDataset(Serializable):
         for sample in self._dataset:
             if sample[5]:
                 n_episodes += 1
-        if not self._dataset[-1][5]:
+        if len(self) > 0 and not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8e4a73a..854f8fd 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -267,7 +267,7 @@ class NumpyDataset(Serializable):
     def n_episodes(self):
         n_episodes = self.last.sum()
 
-        if not self.last[-1]:
+        if len(self) > 0 and not self.last[-1]:
             n_episodes += 1
 
         return n_episodes
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 35d57e1..ee6cdb8 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -267,7 +267,7 @@ class TorchDataset(Serializable):
     def n_episodes(self):
         n_episodes = self.last.sum()
 
-        if not self.last[-1]:
+        if len(self) > 0 and not self.last[-1]:
             n_episodes += 1
 
         return n_episodes
-- 
2.43.0


From 632827ce037d83b74a3a2023ce3ea3ad7ca3b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 84/95] fix: appending logger reads the files of other loggers

---
 mushroom_rl/core/logger/data_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..a0dd91f 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -1,4 +1,3 @@
-import re
 import pickle
 import numpy as np
 
@@ -126,6 +125,6 @@ class DataLogger(object):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
                 if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From a1ad3066769dbb3ac98c078d8aebf2070d5cf600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 85/95] fix: cleaning an empty dataset collector

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From da2d59e0f54ce44c8bdabdb55a8e851c836d75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 86/95] fix: reset of a gym environment to a given state

---
 mushroom_rl/environments/gym_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
-- 
2.43.0


From c7a2ed883305070c59a3e88744db98d1a0e03b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 87/95] fix: time limit of dm_control with pixels

---
 mushroom_rl/environments/dm_control_env.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/dm_control_env.py b/mushroom_rl/environments/dm_control_env.py
index a5edd2c..3410db5 100644
--- a/mushroom_rl/environments/dm_control_env.py
+++ b/mushroom_rl/environments/dm_control_env.py
@@ -42,8 +42,6 @@ class DMControl(Environment):
         """
         # MDP creation
         self.env = suite.load(domain_name, task_name, task_kwargs=task_kwargs)
-        if use_pixels:
-            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
 
         # get the default horizon
         if horizon is None:
@@ -52,6 +50,9 @@ class DMControl(Environment):
         # Hack to ignore dm_control time limit.
         self.env._step_limit = np.inf
 
+        if use_pixels:
+            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
+
         if use_pixels:
             self._convert_observation_space = self._convert_observation_space_pixels
             self._convert_observation = self._convert_observation_pixels
-- 
2.43.0


From 9c00a2e40a6f3bd288c90175197e9933878bdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 88/95] fix: reset of MultiMuJoCo returns no information

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..e6c494f 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -688,7 +688,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From e7820c16e99ac4a55a0b6a8251eaf0cf41708819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 89/95] fix: first observation of MuJoCo environments before
 the kinematics

---
 mushroom_rl/environments/mujoco.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e6c494f..75a075a 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -118,6 +118,8 @@ class MuJoCo(Environment):
     def reset(self, obs=None):
         mujoco.mj_resetData(self._model, self._data)
         self.setup(obs)
+        mujoco.mj_fwdPosition(self._model, self._data)
+        mujoco.mj_fwdVelocity(self._model, self._data)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
         return self._modify_observation(self._obs), {}
@@ -683,6 +685,8 @@ class MultiMuJoCo(MuJoCo):
         self._data = self._datas[self._current_model_idx]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
         self.setup(obs)
+        mujoco.mj_fwdPosition(self._model, self._data)
+        mujoco.mj_fwdVelocity(self._model, self._data)
 
         if self._viewer is not None and self.more_than_one_env:
             self._viewer.load_new_model(self._model)
-- 
2.43.0


From f1dafa8b40e6dc28746a7cf6e43cf45020c3b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 90/95] fix: observations of MultiMuJoCo read with the first
 model

---
 mushroom_rl/environments/mujoco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 75a075a..ace3dad 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -621,7 +621,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d,
                                               max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
@@ -630,7 +630,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
-- 
2.43.0


From 2dc97c19e12ccdad01764f885b70835f98d52adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 91/95] fix: timestep of MultiMuJoCo set on the first model
 only

---
 mushroom_rl/environments/mujoco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index ace3dad..4d922a6 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -589,7 +589,8 @@ class MultiMuJoCo(MuJoCo):
         self._current_model_idx = 0
         self._model = self._models[self._current_model_idx]
         if timestep is not None:
-            self._model.opt.timestep = timestep
+            for m in self._models:
+                m.opt.timestep = timestep
             self._timestep = timestep
         else:
             self._timestep = self._model.opt.timestep
-- 
2.43.0


From d606366fc7d19efa98e9334ecb4af574d2a46b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 92/95] fix: step information cut with the steps of a
 vectorized dataset

---
 mushroom_rl/core/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 79ab9b4..7005d84 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -631,6 +631,10 @@ class VectorizedDataset(Dataset):
         flat_info = self._info.flatten(self.mask)
         flat_episode_info = self._episode_info.flatten(self.mask)
 
+        if n_steps_per_fit is not None:
+            flat_info = flat_info.get_view(slice(n_steps_per_fit))
+            flat_episode_info = flat_episode_info.get_view(slice(n_steps_per_fit))
+
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
                                   policy_state=policy_state, policy_next_state=policy_next_state,
                                   info=flat_info, episode_info=flat_episode_info, theta_list=flat_theta_list,
-- 
2.43.0


From 62d0a9fe4b3ff4befb707b51aae63a4d0dfc943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 93/95] fix: DoubleFQI, TD3 and SAC write the number of models
 in the given parameters

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py | 2 +-
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py | 2 +-
 mushroom_rl/algorithms/value/batch_td/double_fqi.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
index 43dbe7c..13fffd0 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
@@ -223,7 +223,7 @@ class SAC(DeepAC):
         if 'n_models' in critic_params.keys():
             assert critic_params['n_models'] == 2
         else:
-            critic_params['n_models'] = 2
+            critic_params = dict(critic_params, n_models=2)
 
         target_critic_params = deepcopy(critic_params)
         self._critic_approximator = Regressor(TorchApproximator, **critic_params)
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index ebf2226..59d010b 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -51,7 +51,7 @@ class TD3(DDPG):
         if 'n_models' in critic_params.keys():
             assert(critic_params['n_models'] >= 2)
         else:
-            critic_params['n_models'] = 2
+            critic_params = dict(critic_params, n_models=2)
 
         super().__init__(mdp_info, policy_class, policy_params, actor_params, actor_optimizer, critic_params,
                          batch_size, initial_replay_size, max_replay_size, tau, policy_delay, critic_fit_params)
diff --git a/mushroom_rl/algorithms/value/batch_td/double_fqi.py b/mushroom_rl/algorithms/value/batch_td/double_fqi.py
index dd9ef06..ade00ab 100644
--- a/mushroom_rl/algorithms/value/batch_td/double_fqi.py
+++ b/mushroom_rl/algorithms/value/batch_td/double_fqi.py
@@ -13,7 +13,7 @@ class DoubleFQI(FQI):
     """
     def __init__(self, mdp_info, policy, approximator, n_iterations,
                  approximator_params=None, fit_params=None, quiet=False):
-        approximator_params['n_models'] = 2
+        approximator_params = dict(approximator_params, n_models=2)
 
         super().__init__(mdp_info, policy, approximator, n_iterations,
                          approximator_params, fit_params, quiet)
-- 
2.43.0


From 98764a6a38349eef2204c67c4a25e417cc415a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 94/95] fix: MaxminDQN writes the fitted model in the given fit
 parameters

---
 mushroom_rl/algorithms/value/dqn/maxmin_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py b/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py
index 8f202ee..aad8f16 100644
--- a/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py
@@ -26,7 +26,7 @@ class MaxminDQN(DQN):
         super().__init__(mdp_info, policy, approximator, **params)
 
     def fit(self, dataset):
-        self._fit_params['idx'] = np.random.randint(self._n_approximators)
+        self._fit_params = dict(self._fit_params, idx=np.random.randint(self._n_approximators))
 
         super().fit(dataset)
 
-- 
2.43.0


From 486aa166ba2e15fb1fc2ce053a1d7a8045d77d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 95/95] fix: variance of the prediction of one sample

---
 mushroom_rl/approximators/regressor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/regressor.py b/mushroom_rl/approximators/regressor.py
index 1076042..0cff914 100644
--- a/mushroom_rl/approximators/regressor.py
+++ b/mushroom_rl/approximators/regressor.py
@@ -133,7 +133,11 @@ class Regressor(Serializable):
                  else z_i.unsqueeze(0)
                  for z_i in z]
 
-            return self._impl.predict(*z, **predict_params)[0]
+            results = self._impl.predict(*z, **predict_params)
+            if isinstance(results, list):
+                return [r[0] for r in results]
+
+            return results[0]
         else:
             return self._impl.predict(*z, **predict_params)
 
-- 
2.43.0

