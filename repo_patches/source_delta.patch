From 7ad76ec1829eae1d36feb8802fdf375bb9274730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:43 +0000
Subject: [PATCH 001/103] fix: negative indices of a dataset count from its
 last transition, not from the end of the buffer

---
 mushroom_rl/core/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..26d02a7 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -266,8 +266,8 @@ class Dataset(Serializable):
     def __getitem__(self, index):
         if isinstance(index, (slice, np.ndarray)) or isinstance(index, (slice, torch.Tensor)):
             return self.get_view(index)
-        elif isinstance(index, int) and index < len(self._data):
-            return self._data[index]
+        elif isinstance(index, int) and -len(self._data) <= index < len(self._data):
+            return self._data[index % len(self._data)]
         else:
             raise IndexError
 
-- 
2.43.0


From 9c1162b9fce2378f8c3e5e183dc5ed0cb91bd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:43 +0000
Subject: [PATCH 002/103] fix: views of a partly filled dataset take policy
 states and mask of the same rows as the other fields

---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From 9b8a4b72756a79661b0e0c2a4303b02272e1510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:43 +0000
Subject: [PATCH 003/103] fix: datasets created from arrays keep the given
 policy states

---
 mushroom_rl/core/_impl/list_dataset.py | 2 +-
 mushroom_rl/core/dataset.py            | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..bdc3e3a 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 26d02a7..2b12149 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                   policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From c07bf050b911ec6c194e33d38c94d5b19406a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:43 +0000
Subject: [PATCH 004/103] fix: views of a dataset can be concatenated

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 2b12149..2dd5703 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -259,6 +259,7 @@ class Dataset(Serializable):
         dataset._info = self._info.get_view(index, copy)
         dataset._episode_info = self._episode_info.get_view(index, copy)
         dataset._data = self._data.get_view(index, copy)
+        dataset._theta_list = list()
 
         return dataset
 
-- 
2.43.0


From 06557c8540d0d7934b316cd2e52d3c9e06bcae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:01 +0000
Subject: [PATCH 005/103] fix: views, sums, clearing, policy states and episode
 count of list datasets

---
 mushroom_rl/core/_impl/list_dataset.py | 37 +++++++++++++-------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index bdc3e3a..164c3f2 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -73,35 +73,30 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
-        if isinstance(index, (int, slice)):
-            view._dataset = self._dataset[index]
-        else:
-            view._dataset = [self._dataset[i] for i in index]
+        view._dataset = self._select(self._dataset, index)
+        view._policy_dataset = self._select(self._policy_dataset, index) if self._is_stateful else list()
 
         if self._mask is not None:
-            if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
-            else:
-                view._mask = [self._mask[i] for i in index]
+            view._mask = self._select(self._mask, index)
 
-        if copy:
-            return view.copy()
-        else:
-            return view
+        return deepcopy(view) if copy else view
 
     def __getitem__(self, index):
         return self._dataset[index]
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
         result._dataset = self._dataset + other._dataset
+        if len(self) > 0:
+            result._dataset[len(self) - 1] = self._dataset[-1][:-1] + (True,)
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +127,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
@@ -154,13 +149,17 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
 
+    @staticmethod
+    def _select(elements, index):
+        return elements[index] if isinstance(index, slice) else [elements[i] for i in index]
+
     def _add_all_save_attr(self):
         self._add_save_attr(
             _dataset='pickle',
-- 
2.43.0


From 7082668728102eab70e53dc90bcbe64e49c9e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:01 +0000
Subject: [PATCH 006/103] fix: a tensor made from a list with a single tensor
 keeps its dimensions

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..900bab2 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
-- 
2.43.0


From 6036826893c587dbd5c12ffab0366fae89aaec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:01 +0000
Subject: [PATCH 007/103] fix: adding to an empty dataset does not mark the
 last transition of the other one

---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..8e4a73a 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..fcbf676 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From e24b00c22cd4266b160ea0c8fc3b3746a9d06743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:16 +0000
Subject: [PATCH 008/103] fix: the median of an even number of tensor elements
 is the mean of the middle ones

---
 mushroom_rl/core/array_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 900bab2..1791e28 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -388,7 +388,9 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def median(array):
-        return array.median()
+        values = array.flatten().sort().values
+        n = len(values)
+        return (values[(n - 1) // 2] + values[n // 2]) / 2
 
     @staticmethod
     def sqrt(array):
-- 
2.43.0


From 0b2342845917b0479526fe3cfe5aa2781726d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:30 +0000
Subject: [PATCH 009/103] fix: parsing and metrics of list datasets

---
 mushroom_rl/core/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 2dd5703..b98cd82 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -509,6 +509,8 @@ class Dataset(Serializable):
 
         if len(dataset) > 0:
             J = dataset.compute_J(gamma)
+            if isinstance(J, list):
+                J = np.array(J)
             median = self._array_backend.median(J)
             return J.min(), J.max(), J.mean(), median, len(J)
         else:
@@ -519,8 +521,10 @@ class Dataset(Serializable):
             return self._array_backend.arrays_to_numpy(*arrays)
         elif to == 'torch':
             return self._array_backend.arrays_to_torch(*arrays)
+        elif to == self._array_backend.get_backend_name():
+            return arrays
         else:
-            return NotImplementedError
+            raise NotImplementedError
 
     def _add_all_save_attr(self):
         self._add_save_attr(
-- 
2.43.0


From f4bca7b2286761e22137be316361874a36fffdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:40 +0000
Subject: [PATCH 010/103] fix: step information with a new key can be appended
 after parsing

---
 mushroom_rl/core/extra_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..8c8d581 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -78,7 +78,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
-- 
2.43.0


From bac267b9926b212774722b9c202a2ba0d359ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:40 +0000
Subject: [PATCH 011/103] fix: concatenation keeps the order of step
 information whatever was parsed before

---
 mushroom_rl/core/extra_info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 8c8d581..b1b8307 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -135,8 +135,10 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        self.parse()
+        other.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
-        info._storage = self._storage + other._storage
 
         info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend)
         info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend)
-- 
2.43.0


From 1873fa04be7698e8a8d0280b5cc388720cb1a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:40 +0000
Subject: [PATCH 012/103] fix: copying step information keeps what was parsed
 before

---
 mushroom_rl/core/extra_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index b1b8307..2bb4ac7 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -212,6 +212,7 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
+        info._structured_storage = self._structured_storage.copy()
         info.data = self.data.copy()
             
         return info
-- 
2.43.0


From e65912cb9b45006347347e9a9c777d9a7d9efdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:17 +0000
Subject: [PATCH 013/103] fix: vectorized evaluation is not limited by the fit
 period of an earlier learning run

---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From 805d4b169432654ac77d4aec6a5a8bbe00c5a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:17 +0000
Subject: [PATCH 014/103] fix: the vectorized core preprocesses the initial
 states once, as the sequential one

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From 364bf838806a24eebed86ad990ffdeea9607d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:17 +0000
Subject: [PATCH 015/103] fix: vectorized evaluation starts each episode from
 its own initial state

---
 mushroom_rl/core/_impl/vectorized_core_logic.py | 16 ++++++++++------
 mushroom_rl/core/multiprocess_environment.py    |  6 +-----
 mushroom_rl/core/vectorized_core.py             |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..df69eb4 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -44,13 +44,17 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None or not reset_mask.any():
+            return None
+
+        n_started = self._total_episodes_counter + (self._running_envs & ~reset_mask).sum().item()
+        n_starting = reset_mask.sum().item()
+
+        index = self._array_backend.zeros(self._n_envs, dtype=int)
+        index[reset_mask] = self._array_backend.arange(n_started, n_started + n_starting, dtype=int)
 
-        return initial_state
+        return initial_states[index]
 
     def after_step(self, last):
         n_active_envs = self._running_envs.sum().item()
diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..f91048f 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,7 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                res = env.reset(data)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..7d6872c 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From 6e7cb558fb18d2a9b9b829982ac81a3829040f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:17 +0000
Subject: [PATCH 016/103] fix: transitions collected beyond the fit size by the
 vectorized core are kept for the next fit, once

---
 .../core/_impl/vectorized_core_logic.py       |  4 ++++
 mushroom_rl/core/dataset.py                   | 24 ++++++++++---------
 mushroom_rl/core/vectorized_core.py           |  2 +-
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index df69eb4..2017189 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -68,7 +68,11 @@ class VectorizedCoreLogic(CoreLogic):
         self._episodes_progress_bar.update(completed)
 
     def after_fit_vectorized(self, last):
+        n_steps = self._current_steps_counter
         super().after_fit()
+        if self._n_steps_per_fit is not None:
+            self._current_steps_counter = n_steps - self._n_steps_per_fit
+
         if self._n_episodes_per_fit is not None:
             self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)
             return self._array_backend.ones(self._n_envs, dtype=bool)
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index b98cd82..7fec564 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -572,17 +572,16 @@ class VectorizedDataset(Dataset):
 
         residual_data = None
         if n_steps_per_fit is not None:
-            n_steps_dataset = self._data.mask.sum().item()
-
-            if n_steps_dataset > n_steps_per_fit:
-                n_extra_steps = n_steps_dataset - n_steps_per_fit
-                n_parallel_steps = int(np.ceil(n_extra_steps / self._dataset_info.n_envs))
-                view_size = slice(-n_parallel_steps, None)
+            # the transitions handed to the fit are the first ones in the order of the flattened dataset
+            flat_mask = self._array_backend.flatten(self._array_backend.copy(self._data.mask))
+            flat_mask[self._array_backend.where(flat_mask)[0][:n_steps_per_fit]] = False
+
+            if flat_mask.any():
+                residual_mask = flat_mask.reshape(n_envs, len(self)).T
+                first_residual_step = self._array_backend.where(residual_mask.any(1))[0][0].item()
+                view_size = slice(first_residual_step, None)
                 residual_data = self._data.get_view(view_size, copy=True)
-                mask = residual_data.mask
-                original_shape = mask.shape
-                mask.flatten()[n_extra_steps:] = False
-                residual_data.mask = mask.reshape(original_shape)
+                residual_data.mask = residual_mask[view_size]
 
                 residual_info = self._info.get_view(view_size, copy=True)
                 residual_episode_info = self._episode_info.get_view(view_size, copy=True)
@@ -605,7 +604,7 @@ class VectorizedDataset(Dataset):
         next_states = self._array_backend.pack_padded_sequence(self._data.next_state, self._data.mask)
         absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, self._data.mask)
 
-        last_padded = self._data.last
+        last_padded = self._array_backend.copy(self._data.last)
         last_padded[-1, :] = True
         lasts = self._array_backend.pack_padded_sequence(last_padded, self._data.mask)
 
@@ -633,6 +632,9 @@ class VectorizedDataset(Dataset):
         flat_info = self._info.flatten(self.mask)
         flat_episode_info = self._episode_info.flatten(self.mask)
 
+        if n_steps_per_fit is not None:
+            flat_info = flat_info.get_view(slice(n_steps_per_fit))
+
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
                                   policy_state=policy_state, policy_next_state=policy_next_state,
                                   info=flat_info, episode_info=flat_episode_info, theta_list=flat_theta_list,
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 7d6872c..bacd701 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -120,7 +120,7 @@ class VectorCore(object):
 
             last = samples[5]
 
-            if self._core_logic.fit_required():
+            while self._core_logic.fit_required():
                 fit_dataset = dataset.flatten(self._core_logic.n_steps_per_fit)
                 self.agent.fit(fit_dataset)
                 last = self._core_logic.after_fit_vectorized(last)
-- 
2.43.0


From 1c3ad4c07cd1a0c879672f41f910272fb740b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:38 +0000
Subject: [PATCH 017/103] fix: n-step returns are computed without overwriting
 the rewards of the inserted dataset

---
 mushroom_rl/rl_utils/replay_memory.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..14046d3 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -71,18 +71,19 @@ class ReplayMemory(Serializable):
         i = 0
         while i < len(dataset) - n_steps_return + 1:
             j = 0
+            n_steps_reward = reward[i]
             while j < n_steps_return - 1:
                 if last[i + j]:
                     i += j + 1
                     break
                 j += 1
-                reward[i] += gamma ** j * reward[i + j]
+                n_steps_reward = n_steps_reward + gamma ** j * reward[i + j]
             else:
 
                 if self._full:
                     self._dataset.state[self._idx] = state[i]
                     self._dataset.action[self._idx] = action[i]
-                    self._dataset.reward[self._idx] = reward[i]
+                    self._dataset.reward[self._idx] = n_steps_reward
 
                     self._dataset.next_state[self._idx] = next_state[i + j]
                     self._dataset.absorbing[self._idx] = absorbing[i + j]
@@ -94,7 +95,7 @@ class ReplayMemory(Serializable):
 
                 else:
 
-                    sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
+                    sample = [state[i], action[i], n_steps_reward, next_state[i + j], absorbing[i + j], last[i + j]]
 
                     if self._dataset.is_stateful:
                         sample += [policy_state[i], policy_next_state[i+j]]
@@ -321,18 +322,19 @@ class SumTree(Serializable):
         i = 0
         while i < len(dataset) - n_steps_return + 1:
             j = 0
+            n_steps_reward = reward[i]
             while j < n_steps_return - 1:
                 if last[i + j]:
                     i += j + 1
                     break
                 j += 1
-                reward[i] += gamma ** j * reward[i + j]
+                n_steps_reward = n_steps_reward + gamma ** j * reward[i + j]
             else:
 
                 if self._full:
                     self.dataset.state[self._idx] = state[i]
                     self.dataset.action[self._idx] = action[i]
-                    self.dataset.reward[self._idx] = reward[i]
+                    self.dataset.reward[self._idx] = n_steps_reward
 
                     self.dataset.next_state[self._idx] = next_state[i + j]
                     self.dataset.absorbing[self._idx] = absorbing[i + j]
@@ -344,7 +346,7 @@ class SumTree(Serializable):
 
                 else:
 
-                    sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
+                    sample = [state[i], action[i], n_steps_reward, next_state[i + j], absorbing[i + j], last[i + j]]
 
                     if self.dataset.is_stateful:
                         sample += [policy_state[i], policy_next_state[i+j]]
-- 
2.43.0


From db56d831711fcc98d4bd4a9e3e491751ebc93ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:34 +0000
Subject: [PATCH 018/103] fix: prioritized draws are proportional to the
 priorities when subtrees tie, and capacity one works

---
 mushroom_rl/rl_utils/replay_memory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 14046d3..63a6aca 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -412,6 +412,9 @@ class SumTree(Serializable):
             self._propagate(delta, i)
 
     def _propagate(self, delta, idx):
+        if idx == 0:
+            return
+
         parent_idx = (idx - 1) // 2
 
         self._tree[parent_idx] += delta
@@ -427,7 +430,9 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
-            return self._retrieve(s, np.random.choice([left, right]))
+            s_child = s if s <= self._tree[left] else s - self._tree[left]
+
+            return self._retrieve(s_child, int(np.random.choice([left, right])))
 
         if s <= self._tree[left]:
             return self._retrieve(s, left)
-- 
2.43.0


From 3886ecef39b12d0c46ebbc65177c7a5a785bb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:09 +0000
Subject: [PATCH 019/103] fix: sequences drawn from the replay memory follow
 the order of insertion, also for stateless policies

---
 mushroom_rl/rl_utils/replay_memory.py | 58 +++++++++++++--------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 63a6aca..5bfb157 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -210,51 +210,51 @@ class SequenceReplayMemory(ReplayMemory):
                                  dtype=self._mdp_info.observation_space.data_type)
         ab = self._backend.zeros(n_samples, 1, dtype=int)
         last = self._backend.zeros(n_samples, dtype=int)
-        ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
-        nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+        if self._dataset.is_stateful:
+            ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+            nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
         pa = self._backend.zeros(n_samples, self._truncation_length, *self._mdp_info.action_space.shape,
                                  dtype=self._mdp_info.action_space.data_type)
         lengths = list()
 
+        # position of the oldest transition: the transitions are stored in a ring
+        oldest = self._idx if self._full else 0
+
         for num, i in enumerate(np.random.randint(self.size, size=n_samples)):
 
             with torch.no_grad():
 
-                # determine the begin of a sequence
-                begin_seq = np.maximum(i - self._truncation_length + 1, 0)
-                end_seq = i + 1
+                # determine the begin of a sequence, in order of insertion
+                pos = (i - oldest) % self.size
+                begin_seq = max(pos - self._truncation_length + 1, 0)
 
                 # the sequence can contain more than one trajectory, check to only include one
-                lasts_absorbing = self._dataset.last[begin_seq: i]
-                begin_traj = self._backend.where(lasts_absorbing > 0)
-                more_than_one_traj = len(*begin_traj) > 0
-                if more_than_one_traj:
-                    # take the beginning of the last trajectory
-                    begin_seq = begin_seq + begin_traj[0][-1] + 1
-
-                # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
-                    prev_actions = self._dataset.action[begin_seq:end_seq - 1]
-                    init_prev_action = self._backend.zeros(1, *self._action_space_shape)
-                    if len(prev_actions) == 0:
-                        prev_actions = init_prev_action
-                    else:
-                        prev_actions = self._backend.concatenate([init_prev_action, prev_actions])
-                else:
-                    prev_actions = self._dataset.action[begin_seq - 1:end_seq - 1]
+                for k in range(pos - 1, begin_seq - 1, -1):
+                    if self._dataset.last[(oldest + k) % self.size]:
+                        begin_seq = k + 1
+                        break
+
+                seq = [(oldest + k) % self.size for k in range(begin_seq, pos + 1)]
+                length = len(seq)
 
                 # write data
-                s[num, :end_seq-begin_seq] = self._dataset.state[begin_seq:end_seq]
-                ss[num, :end_seq-begin_seq] = self._dataset.next_state[begin_seq:end_seq]
-                a[num, :end_seq-begin_seq] = self._dataset.action[begin_seq:end_seq]
-                ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
-                nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
-                pa[num, :end_seq-begin_seq] = prev_actions
+                s[num, :length] = self._dataset.state[seq]
+                ss[num, :length] = self._dataset.next_state[seq]
+                a[num, :length] = self._dataset.action[seq]
+                if self._dataset.is_stateful:
+                    ps[num, :length] = self._dataset.policy_state[seq]
+                    nps[num, :length] = self._dataset.policy_next_state[seq]
+
+                # determine prev action, the one before the beginning of a trajectory is zero
+                if begin_seq > 0 and not self._dataset.last[(oldest + begin_seq - 1) % self.size]:
+                    pa[num, 0] = self._dataset.action[(oldest + begin_seq - 1) % self.size]
+                pa[num, 1:length] = a[num, :length - 1]
+
                 r[num] = self._dataset.reward[i]
                 ab[num] = self._dataset.absorbing[i]
                 last[num] = self._dataset.last[i]
 
-                lengths.append(end_seq - begin_seq)
+                lengths.append(length)
 
         if self._dataset.is_stateful:
             return s, a, r, ss, ab, last, ps, nps, pa, lengths
-- 
2.43.0


From 98c2f79dffbebd7de0f59b35c989d033aa468b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 020/103] fix: the vectorized core ignores the flags reported
 by inactive environments

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index bacd701..d1a3096 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -118,7 +118,7 @@ class VectorCore(object):
 
             dataset.append_vectorized(samples, step_infos, mask)
 
-            last = samples[5]
+            last = samples[5] & mask
 
             while self._core_logic.fit_required():
                 fit_dataset = dataset.flatten(self._core_logic.n_steps_per_fit)
-- 
2.43.0


From fbcc2de92da59c15890e0c3ece8b2c441789f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:07 +0000
Subject: [PATCH 021/103] fix: the mellowmax policy uses a single value of
 omega per evaluation

---
 mushroom_rl/policy/td_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..fe8e81d 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -196,8 +196,8 @@ class Mellowmax(Boltzmann):
 
         def __call__(self, state):
             q = self._outer._approximator.predict(state, **self._outer._predict_params)
-            mm = (logsumexp(q * self._omega(state)) - np.log(
-                q.size)) / self._omega(state)
+            omega = self._omega(state)
+            mm = (logsumexp(q * omega) - np.log(q.size)) / omega
 
             def f(beta):
                 v = q - mm
-- 
2.43.0


From 436121482d5aa4ed2de58d7a17fc099dd483e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:07 +0000
Subject: [PATCH 022/103] fix: variance parameters keep one value per entry,
 and a windowed one works for a single entry

---
 mushroom_rl/rl_utils/variance_parameters.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..6a04897 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
@@ -166,10 +166,13 @@ class WindowedVarianceParameter(Parameter):
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
 
+        # a single parameter has a single window of samples
+        samples_idx = idx if self._n_updates.table.size > 1 else (0,)
+
         if n < 2:
             parameter_value = self._initial_value
         else:
-            samples = self._samples[idx]
+            samples = self._samples[samples_idx]
 
             if n < self._window:
                 samples = samples[:int(n)]
@@ -182,7 +185,7 @@ class WindowedVarianceParameter(Parameter):
 
         # update state
         index = np.array([self._index[idx]], dtype=int)
-        self._samples[idx + (index,)] = x
+        self._samples[samples_idx + (index,)] = x
         self._index[idx] += 1
         if self._index[idx] >= self._window:
             self._index[idx] = 0
-- 
2.43.0


From 3624ef2eedbc0056721337c2c16ed8c5300417d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:24 +0000
Subject: [PATCH 023/103] fix: a variance parameter has its initial value
 before its first update

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index 6a04897..63e46fc 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -25,7 +25,7 @@ class VarianceParameter(Parameter):
         self._weights_var = Table(size)
         self._x = Table(size)
         self._x2 = Table(size)
-        self._parameter_value = Table(size)
+        self._parameter_value = Table(size, value)
 
         super().__init__(value, min_value, size=size)
 
@@ -130,7 +130,7 @@ class WindowedVarianceParameter(Parameter):
         self._samples = Table(size + (window,))
         self._index = Table(size, dtype=int)
         self._window = window
-        self._parameter_value = Table(size)
+        self._parameter_value = Table(size, value)
 
         self._add_save_attr(
             _exponential='primitive',
-- 
2.43.0


From f37d060575dad27ed4120ed68c13f40dddfd55cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:52 +0000
Subject: [PATCH 024/103] fix: the last row of a grid file without trailing
 newline belongs to the grid

---
 mushroom_rl/environments/generators/grid_world.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/environments/generators/grid_world.py b/mushroom_rl/environments/generators/grid_world.py
index 1f4a2a3..45d4706 100644
--- a/mushroom_rl/environments/generators/grid_world.py
+++ b/mushroom_rl/environments/generators/grid_world.py
@@ -71,6 +71,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list
 
 
-- 
2.43.0


From 88e43ab61df539e24e8733530016a245e5b40972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:52 +0000
Subject: [PATCH 025/103] fix: the last row of a taxi grid file without
 trailing newline belongs to the grid

---
 mushroom_rl/environments/generators/taxi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 2ef85d6..57799dc 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -83,6 +83,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list, passenger_list
 
 
-- 
2.43.0


From e9dbf471ee3770b4001752de7440bdd781d1467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:52 +0000
Subject: [PATCH 026/103] fix: the taxi is rewarded in the goal state also when
 it slips into it

---
 mushroom_rl/environments/generators/taxi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 57799dc..7d88843 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -209,7 +209,7 @@ def compute_reward(grid_map, cell_list, passenger_list, rew):
                     j_idx = j = np.where((c == goal).all(axis=1))[0] + len(
                         cell_list) * i
 
-                    r[i_idx, a, j_idx] = rew[np.sum(passenger_states[i])]
+                    r[i_idx, :, j_idx] = rew[np.sum(passenger_states[i])]
 
     return r
 
-- 
2.43.0


From 19b8239ddeb3785a6ce1acd38ff38a1d4bf403c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:19 +0000
Subject: [PATCH 027/103] fix: gradient of the LQR value of a batch of states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..ccb0bb2 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From 8c1f2f86fe7f74aaad37c9e4ae1956e9fc55df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:51 +0000
Subject: [PATCH 028/103] fix: points just below the end of the range belong to
 the last tile

---
 mushroom_rl/features/tiles/tiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/tiles.py b/mushroom_rl/features/tiles/tiles.py
index ba7b81b..8d2c766 100644
--- a/mushroom_rl/features/tiles/tiles.py
+++ b/mushroom_rl/features/tiles/tiles.py
@@ -53,7 +53,7 @@ class Tiles:
         for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
             if r[0] <= x[i] < r[1]:
                 width = r[1] - r[0]
-                component_index = int(np.floor(N * (x[i] - r[0]) / width))
+                component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
                 tile_index += component_index * multiplier
                 multiplier *= N
             else:
-- 
2.43.0


From a6d7e490925cd471852c8c5bf9f1804cfb9fee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:43 +0000
Subject: [PATCH 029/103] fix: tensor features with a single output keep the
 shape of the batch

---
 mushroom_rl/features/_implementations/torch_features.py | 2 +-
 mushroom_rl/features/tensors/basis_tensor.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/features/_implementations/torch_features.py b/mushroom_rl/features/_implementations/torch_features.py
index 7129903..5e8de0b 100644
--- a/mushroom_rl/features/_implementations/torch_features.py
+++ b/mushroom_rl/features/_implementations/torch_features.py
@@ -15,7 +15,7 @@ class TorchFeatures(FeaturesImplementation):
         x = TorchUtils.to_float_tensor(np.atleast_2d(x))
 
         y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
-        y = torch.cat(y_list, 1).squeeze()
+        y = torch.cat(y_list, 1)
 
         y = y.detach().cpu().numpy()
 
diff --git a/mushroom_rl/features/tensors/basis_tensor.py b/mushroom_rl/features/tensors/basis_tensor.py
index 1f72131..5abe711 100644
--- a/mushroom_rl/features/tensors/basis_tensor.py
+++ b/mushroom_rl/features/tensors/basis_tensor.py
@@ -45,9 +45,9 @@ class GenericBasisTensor(nn.Module):
         phi = self._basis_function(delta, self._scale)
 
         if self._normalized:
-            return self._normalize(phi).squeeze(-1)
+            return self._normalize(phi)
         else:
-            return phi.squeeze(-1)
+            return phi
 
     def _basis_function(self, delta, scale):
         raise NotImplementedError
-- 
2.43.0


From 5b32cf4a6c68c9bcdfbf5b5d96639963e30b0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:47 +0000
Subject: [PATCH 030/103] fix: monte carlo advantage of a single transition

---
 mushroom_rl/rl_utils/value_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/value_functions.py b/mushroom_rl/rl_utils/value_functions.py
index 3b6b338..1efebb7 100644
--- a/mushroom_rl/rl_utils/value_functions.py
+++ b/mushroom_rl/rl_utils/value_functions.py
@@ -23,7 +23,7 @@ def compute_advantage_montecarlo(V, s, ss, r, absorbing, gamma):
         and the advantage function.
     """
     with torch.no_grad():
-        r = r.squeeze()
+        r = r.reshape(-1)
         q = torch.zeros(len(r))
         v = V(s).squeeze()
 
-- 
2.43.0


From 0e2a0c7eb105cfcf2147b52c8c854f712cf68d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:30 +0000
Subject: [PATCH 031/103] fix: sequences of the recurrent PPO never start in an
 earlier episode

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..7616c24 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -111,11 +111,11 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                lasts_absorbing = last[begin_seq: i].int() + absorbing[begin_seq: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From 656006d2a54fd1954eaea6f48924792158648c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:15 +0000
Subject: [PATCH 032/103] fix: log probability of recurrent policies with
 one-dimensional actions

---
 mushroom_rl/policy/recurrent_torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..21f37c4 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -35,7 +35,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        return self.distribution_t(state, policy_state, lengths).log_prob(action)[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
-- 
2.43.0


From 9e4479db34bc60902ebde72839c92b4838240b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:09 +0000
Subject: [PATCH 033/103] fix: running deviation of a batch counts every
 element of the batch

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..a2d375e 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -62,7 +62,7 @@ class RunningStandardization(Serializable):
         self._n += batch_size
         alpha = max(batch_size / self._n, self._alpha)
         new_m = (1 - alpha) * self._m + alpha * value.mean(0)
-        new_s = self._s + (value.mean(0) - self._m) * (value.mean(0) - new_m)
+        new_s = self._s + ((value - self._m) * (value - new_m)).sum(0)
         self._m, self._s = new_m, new_s
 
     @property
-- 
2.43.0


From b69b02b11a5e5574413ade646f267ac091928a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:09 +0000
Subject: [PATCH 034/103] fix: running statistics of data with several
 dimensions

---
 mushroom_rl/rl_utils/running_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index a2d375e..27735f4 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -57,7 +57,7 @@ class RunningStandardization(Serializable):
             value (Array): current data value to use for the update.
 
         """
-        value = self._array_backend.atleast_2d(value)
+        value = value.reshape(-1, *self._shape)
         batch_size = len(value)
         self._n += batch_size
         alpha = max(batch_size / self._n, self._alpha)
@@ -134,7 +134,7 @@ class RunningExpWeightedAverage(Serializable):
             value (Array): current data value to use for the update.
 
         """
-        value = self._array_backend.atleast_2d(value)
+        value = value.reshape(-1, *self._shape)
         batch_size = len(value)
         for i in range(batch_size):
             self._avg_value = (1. - self._alpha) * self._avg_value + self._alpha * value[i]
@@ -200,7 +200,7 @@ class RunningAveragedWindow(Serializable):
             value (np.ndarray): current data value to use for the update.
 
         """
-        value = self._array_backend.atleast_2d(value)
+        value = value.reshape(-1, *self._shape)
         batch_size = len(value)
         for i in range(batch_size):
             self._avg_buffer.append(value[i])
-- 
2.43.0


From 1e0a4d871229f408a1f1502460fac39ce013acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:09 +0000
Subject: [PATCH 035/103] fix: min-max preprocessing when a single observation,
 or only the first one, is limited

---
 mushroom_rl/rl_utils/preprocessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..ceb6b78 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -109,10 +109,10 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
                                          "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
-- 
2.43.0


From e9203befc776b7cba41c861e824f594197855e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:09 +0000
Subject: [PATCH 036/103] fix: min-max preprocessing does not overwrite the
 observation it is given

---
 mushroom_rl/rl_utils/preprocessors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index ceb6b78..97fbe3f 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -128,10 +128,12 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         )
 
     def __call__(self, obs):
-        orig_obs = self._array_backend.copy(obs)
+        orig_obs = obs
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
         obs[self._obs_mask] = \
             ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-- 
2.43.0


From 6dc3f740cbce09e9cd547ee786072178b0e05dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 037/103] fix: conversion of a list of tensors to a tensor

---
 mushroom_rl/core/array_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 1791e28..3c3ba8d 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -446,7 +446,12 @@ class ListBackend(ArrayBackend):
 
     @staticmethod
     def to_torch(array):
-        return None if array is None else torch.as_tensor(array, device=TorchUtils.get_device())
+        if array is None:
+            return None
+        elif len(array) > 0 and isinstance(array[0], torch.Tensor):
+            return torch.stack(tuple(array)).to(TorchUtils.get_device())
+        else:
+            return torch.as_tensor(array, device=TorchUtils.get_device())
 
     @staticmethod
     def convert_to_backend(cls, array):
-- 
2.43.0


From b569e4ee912719a2a955102c40bb458fab7483ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 038/103] fix: where of the array backends returns the selected
 values

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 3c3ba8d..2d48285 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -216,7 +216,7 @@ class NumpyBackend(ArrayBackend):
         if x is None:
             return np.where(cond)
         else:
-            np.where(cond, x, y)
+            return np.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
@@ -345,7 +345,7 @@ class TorchBackend(ArrayBackend):
         if x is None:
             return torch.where(cond)
         else:
-            torch.where(cond, x, y)
+            return torch.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
-- 
2.43.0


From 38b84b9b47bbc000af38bf8e98f06fbad81b4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 039/103] fix: min-max preprocessing of any kind of numbers,
 and of tensors after reloading

---
 mushroom_rl/rl_utils/preprocessors.py | 33 +++++++++++----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 97fbe3f..ab9671e 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -104,38 +104,31 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         obs_low, obs_high = (self._array_backend.convert(mdp_info.observation_space.low.copy(),
                                                          mdp_info.observation_space.high.copy()))
 
-        self._obs_mask = self._array_backend.where((self._array_backend.abs(obs_low) < 1e20) &
-                                                   (self._array_backend.abs(obs_high) < 1e20))
+        self._obs_mask = (self._array_backend.abs(obs_low) < 1e20) & (self._array_backend.abs(obs_high) < 1e20)
 
-        self._obs_mask = self._array_backend.concatenate(self._obs_mask)
+        assert self._obs_mask.any(), "All observations have unlimited/extremely large range, " \
+                                     "you should use StandardizationPreprocessor instead."
 
-        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
-                                         "you should use StandardizationPreprocessor instead."
+        self._run_norm_obs = not bool(self._obs_mask.all())
 
-        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
-
-        self._obs_mean = self._array_backend.zeros_like(obs_low)
-        self._obs_delta = self._array_backend.ones_like(obs_low)
+        self._obs_mean = self._array_backend.zeros_like(obs_low, dtype=(obs_low / 2.).dtype)
+        self._obs_delta = self._array_backend.ones_like(obs_low, dtype=(obs_low / 2.).dtype)
         self._obs_mean[self._obs_mask] = (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.
         self._obs_delta[self._obs_mask] = (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.
 
         self._add_save_attr(
             _array_backend='pickle',
             _run_norm_obs='primitive',
-            _obs_mask='numpy',
-            _obs_mean='numpy',
-            _obs_delta='numpy'
+            _obs_mask='pickle',
+            _obs_mean='pickle',
+            _obs_delta='pickle'
         )
 
     def __call__(self, obs):
-        orig_obs = obs
+        norm_obs = (obs - self._obs_mean) / self._obs_delta
 
         if self._run_norm_obs:
-            obs = super(MinMaxPreprocessor, self).__call__(obs)
-        else:
-            obs = self._array_backend.copy(obs)
-
-        obs[self._obs_mask] = \
-            ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
+            run_norm_obs = super(MinMaxPreprocessor, self).__call__(obs)
+            norm_obs = self._array_backend.where(self._obs_mask, norm_obs, run_norm_obs)
 
-        return obs
+        return norm_obs
-- 
2.43.0


From 3d05970af0bf99f843a5bcdc170d50481a54d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:42 +0000
Subject: [PATCH 040/103] fix: an unseeded logger does not append to the data
 of seeded ones

---
 mushroom_rl/core/logger/data_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..a0dd91f 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -1,4 +1,3 @@
-import re
 import pickle
 import numpy as np
 
@@ -126,6 +125,6 @@ class DataLogger(object):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
                 if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From f13154c0ccbd1157a30d213f70832353fe0eb6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:11 +0000
Subject: [PATCH 041/103] fix: each console logger has its own handlers

---
 mushroom_rl/core/logger/console_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/logger/console_logger.py b/mushroom_rl/core/logger/console_logger.py
index f50bf9d..bd9d21a 100644
--- a/mushroom_rl/core/logger/console_logger.py
+++ b/mushroom_rl/core/logger/console_logger.py
@@ -47,7 +47,7 @@ class ConsoleLogger(object):
         formatter = logging.Formatter(fmt='%(asctime)s [%(levelname)s] %(message)s',
                                       datefmt='%d/%m/%Y %H:%M:%S')
 
-        self._logger = logging.getLogger(self._log_id)
+        self._logger = logging.Logger(self._log_id)
         self._logger.setLevel(min(console_log_level, file_log_level))
         self._logger.propagate = False
         ch = TqdmHandler()
-- 
2.43.0


From be1adae9eeee1c74c1cdd7f37b7d86242affce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:30 +0000
Subject: [PATCH 042/103] fix: deep value networks evaluate the actions of a
 batch of a single sample

---
 mushroom_rl/algorithms/value/dqn/categorical_dqn.py | 4 ++--
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py     | 2 +-
 mushroom_rl/algorithms/value/dqn/noisy_dqn.py       | 2 +-
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py    | 4 ++--
 mushroom_rl/algorithms/value/dqn/rainbow.py         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
index 3855d31..380176a 100644
--- a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
@@ -60,7 +60,7 @@ class CategoricalNetwork(nn.Module):
                 q[i] = a_p[i] @ self._a_values
 
             if action is not None:
-                return torch.squeeze(q.gather(1, action))
+                return torch.squeeze(q.gather(1, action), 1)
             else:
                 return q
         else:
@@ -68,7 +68,7 @@ class CategoricalNetwork(nn.Module):
                 action = torch.unsqueeze(
                     action.long(), 2).repeat(1, 1, self._n_atoms)
 
-                return torch.squeeze(a_p.gather(1, action))
+                return torch.squeeze(a_p.gather(1, action), 1)
             else:
                 return a_p
 
diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..8d11a39 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -41,7 +41,7 @@ class DuelingNetwork(nn.Module):
         if action is None:
             return q
         else:
-            q_acted = torch.squeeze(q.gather(1, action.long()))
+            q_acted = torch.squeeze(q.gather(1, action.long()), 1)
 
             return q_acted
 
diff --git a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
index 8f502e7..1469fce 100644
--- a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
@@ -77,7 +77,7 @@ class NoisyNetwork(nn.Module):
         if action is None:
             return q
         else:
-            q_acted = torch.squeeze(q.gather(1, action.long()))
+            q_acted = torch.squeeze(q.gather(1, action.long()), 1)
 
             return q_acted
 
diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 7a96e61..4e2b38c 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -51,7 +51,7 @@ class QuantileNetwork(nn.Module):
             quant = a_quant.mean(-1)
 
             if action is not None:
-                return torch.squeeze(quant.gather(1, action))
+                return torch.squeeze(quant.gather(1, action), 1)
             else:
                 return quant
         else:
@@ -59,7 +59,7 @@ class QuantileNetwork(nn.Module):
                 action = torch.unsqueeze(
                     action.long(), 2).repeat(1, 1, self._n_quantiles)
 
-                return torch.squeeze(a_quant.gather(1, action))
+                return torch.squeeze(a_quant.gather(1, action), 1)
             else:
                 return a_quant
 
diff --git a/mushroom_rl/algorithms/value/dqn/rainbow.py b/mushroom_rl/algorithms/value/dqn/rainbow.py
index ce31b3c..cd8ad33 100644
--- a/mushroom_rl/algorithms/value/dqn/rainbow.py
+++ b/mushroom_rl/algorithms/value/dqn/rainbow.py
@@ -51,7 +51,7 @@ class RainbowNetwork(nn.Module):
                 q[i] = softmax[i] @ self._a_values
 
             if action is not None:
-                return torch.squeeze(q.gather(1, action))
+                return torch.squeeze(q.gather(1, action), 1)
             else:
                 return q
         else:
@@ -59,7 +59,7 @@ class RainbowNetwork(nn.Module):
                 action = torch.unsqueeze(
                     action.long(), 2).repeat(1, 1, self._n_atoms)
 
-                return torch.squeeze(softmax.gather(1, action))
+                return torch.squeeze(softmax.gather(1, action), 1)
             else:
                 return softmax
 
-- 
2.43.0


From ab4d6b684628004e8da5bf3ca2195f3f1c4d82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:00 +0000
Subject: [PATCH 043/103] fix: quantile networks with different numbers of
 quantiles do not disturb each other

---
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 4e2b38c..051f809 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -11,7 +11,9 @@ from mushroom_rl.approximators.parametric import NumpyTorchApproximator
 
 
 def quantile_huber_loss(input, target):
-    tau = QuantileDQN.tau_hat.repeat(input.shape[0], 1)
+    n_quantiles = input.shape[-1]
+    tau_hat = (torch.arange(n_quantiles, device=input.device) + .5) / n_quantiles
+    tau = tau_hat.repeat(input.shape[0], 1)
 
     target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
     input = input.repeat(tau.shape[-1], 1, 1)
@@ -88,9 +90,6 @@ class QuantileDQN(AbstractDQN):
 
         self._n_quantiles = n_quantiles
 
-        tau = torch.arange(n_quantiles + 1) / n_quantiles
-        QuantileDQN.tau_hat = torch.Tensor([(tau[i-1] + tau[i]) / 2 for i in range(1, len(tau))])
-
         self._add_save_attr(
             _n_quantiles='primitive'
         )
-- 
2.43.0


From 77883c770d93fc23ae8d9bf1b743254545846138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:33 +0000
Subject: [PATCH 044/103] fix: dueling networks with the maximum of the
 advantages

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 8d11a39..d579bf2 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1).values.reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From 7c29f8fa40960a2f7b5f4e1453ad4b0652a65697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:09 +0000
Subject: [PATCH 045/103] fix: noisy networks can be copied after use

---
 mushroom_rl/algorithms/value/dqn/noisy_dqn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
index 1469fce..e8c531b 100644
--- a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
@@ -48,10 +48,11 @@ class NoisyNetwork(nn.Module):
             eps_dot = torch.matmul(self._noise(eps_output), self._noise(eps_input))
             weight = self.mu_weight + self.sigma_weight * eps_dot
 
+            bias = None
             if hasattr(self, 'mu_bias'):
-                self.bias = self.mu_bias + self.sigma_bias * self._noise(eps_output[:, 0])
+                bias = self.mu_bias + self.sigma_bias * self._noise(eps_output[:, 0])
 
-            return F.linear(input, weight, self.bias)
+            return F.linear(input, weight, bias)
 
         @staticmethod
         def _noise(x):
-- 
2.43.0


From 86bc5e68d72195f2632ef515fadb7b0991526fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 046/103] fix: minimum and maximum of a torch ensemble with
 variance

---
 mushroom_rl/approximators/ensemble.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..dcad14a 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -107,13 +107,14 @@ class Ensemble(Serializable):
                 results = predictions.max(0)
             else:
                 raise ValueError
+
+            if torch_output and (prediction == 'min' or prediction == 'max'):
+                results = results.values
+
             if compute_variance:
                 results = [results, predictions.var(0)]
 
-        if torch_output and (prediction == 'min' or prediction == 'max'):
-            return results.values
-        else:
-            return results
+        return results
 
     def reset(self):
         """
-- 
2.43.0


From 5bce6d9a70abd78632840b17d3437ec95ee86433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 047/103] fix: CMAC predicts a single state and differentiates
 with its features

---
 mushroom_rl/approximators/parametric/cmac.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..a5893fc 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -75,20 +75,4 @@ class CMAC(LinearApproximator):
         for i, idx in enumerate(indexes):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
-        return prediction.squeeze()
-
-    def diff(self, state, action=None):
-        """
-        Compute the derivative of the output w.r.t. ``state``, and ``action`` if provided.
-
-        Args:
-            state (np.ndarray): the state;
-            action (np.ndarray, None): the action.
-
-        Returns:
-            The derivative of the output w.r.t. ``state``, and ``action`` if provided.
-
-        """
-
-        phi = self._phi(state)
-        return super().diff(phi, action)
+        return prediction[:, 0] if prediction.shape[1] == 1 else prediction
-- 
2.43.0


From cbe3ced5b4ce6833a602b4f065b4e465d749f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:19 +0000
Subject: [PATCH 048/103] fix: linear approximators keep their own copy of the
 weights

---
 mushroom_rl/approximators/parametric/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/linear.py b/mushroom_rl/approximators/parametric/linear.py
index 55c4b0f..65f1cdf 100644
--- a/mushroom_rl/approximators/parametric/linear.py
+++ b/mushroom_rl/approximators/parametric/linear.py
@@ -27,7 +27,7 @@ class LinearApproximator(Serializable):
         output_dim = output_shape[0]
 
         if weights is not None:
-            self._w = weights.reshape((output_dim, -1))
+            self._w = weights.reshape((output_dim, -1)).copy()
         elif input_dim is not None:
             self._w = np.zeros((output_dim, input_dim))
         else:
@@ -100,7 +100,7 @@ class LinearApproximator(Serializable):
             w (np.ndarray): the set of weights to set.
 
         """
-        self._w = w.reshape(self._w.shape)
+        self._w = w.reshape(self._w.shape).copy()
 
     def phi(self, x):
         if self._phi is not None:
-- 
2.43.0


From 8a1b4923e8b9bab0c92991accd24fff609a77bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:19 +0000
Subject: [PATCH 049/103] fix: distributions keep their own copy of the
 parameters

---
 mushroom_rl/distributions/gaussian.py           | 10 +++++-----
 mushroom_rl/distributions/torch_distribution.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 8a278fb..f745976 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -77,10 +77,10 @@ class GaussianDistribution(Distribution):
         return g
 
     def get_parameters(self):
-        return self._mu
+        return self._mu.copy()
 
     def set_parameters(self, rho):
-        self._mu = rho
+        self._mu = rho.copy()
 
     @property
     def parameters_size(self):
@@ -229,8 +229,8 @@ class GaussianDiagonalDistribution(Distribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu = rho[:n_dims]
-        self._std = rho[n_dims:]
+        self._mu = rho[:n_dims].copy()
+        self._std = rho[n_dims:].copy()
 
     @property
     def parameters_size(self):
@@ -397,7 +397,7 @@ class GaussianCholeskyDistribution(Distribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu = rho[:n_dims]
+        self._mu = rho[:n_dims].copy()
         self._chol_sigma[np.tril_indices(n_dims)] = rho[n_dims:]
 
     @property
diff --git a/mushroom_rl/distributions/torch_distribution.py b/mushroom_rl/distributions/torch_distribution.py
index ef099fa..cf41bf9 100644
--- a/mushroom_rl/distributions/torch_distribution.py
+++ b/mushroom_rl/distributions/torch_distribution.py
@@ -62,7 +62,7 @@ class AbstractGaussianTorchDistribution(Distribution):
 
 class DiagonalGaussianTorchDistribution(AbstractGaussianTorchDistribution):
     def __init__(self, mu, sigma):
-        self._mu = torch.nn.Parameter(mu)
+        self._mu = torch.nn.Parameter(mu.clone())
         self._log_sigma = torch.nn.Parameter(torch.log(sigma))
 
         super().__init__()
@@ -83,8 +83,8 @@ class DiagonalGaussianTorchDistribution(AbstractGaussianTorchDistribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu.data = rho[:n_dims]
-        self._log_sigma.data = rho[n_dims:]
+        self._mu.data = rho[:n_dims].clone()
+        self._log_sigma.data = rho[n_dims:].clone()
 
     @property
     def parameters_size(self):
@@ -101,7 +101,7 @@ class CholeskyGaussianTorchDistribution(AbstractGaussianTorchDistribution):
     def __init__(self, mu, sigma):
         chol_sigma = torch.linalg.cholesky(sigma)
 
-        self._mu = torch.nn.Parameter(mu)
+        self._mu = torch.nn.Parameter(mu.clone())
         self._chol_sigma = torch.nn.Parameter(chol_sigma)
 
         super().__init__()
@@ -124,7 +124,7 @@ class CholeskyGaussianTorchDistribution(AbstractGaussianTorchDistribution):
     def set_parameters(self, rho):
         n_dims = len(self._mu)
         tril_indices = torch.tril_indices(row=n_dims, col=n_dims)
-        self._mu.data = rho[:n_dims]
+        self._mu.data = rho[:n_dims].clone()
         self._chol_sigma.data[tril_indices[0], tril_indices[1]] = rho[n_dims:]
 
     @property
-- 
2.43.0


From 18cd0f511ef6dba87fbc3fc1186c94894e2863ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:19 +0000
Subject: [PATCH 050/103] fix: torch parameters and policies keep their own
 copy of the weights

---
 mushroom_rl/policy/gaussian_policy.py | 2 +-
 mushroom_rl/policy/torch_policy.py    | 2 +-
 mushroom_rl/utils/torch.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/policy/gaussian_policy.py b/mushroom_rl/policy/gaussian_policy.py
index f92f4d9..eb88734 100644
--- a/mushroom_rl/policy/gaussian_policy.py
+++ b/mushroom_rl/policy/gaussian_policy.py
@@ -166,7 +166,7 @@ class DiagonalGaussianPolicy(AbstractGaussianPolicy):
     def set_weights(self, weights):
         self._approximator.set_weights(
             weights[0:self._approximator.weights_size])
-        self._std = weights[self._approximator.weights_size:]
+        self._std = weights[self._approximator.weights_size:].copy()
 
     def get_weights(self):
         return np.concatenate((self._approximator.get_weights(), self._std),
diff --git a/mushroom_rl/policy/torch_policy.py b/mushroom_rl/policy/torch_policy.py
index 89e043a..5423a86 100644
--- a/mushroom_rl/policy/torch_policy.py
+++ b/mushroom_rl/policy/torch_policy.py
@@ -223,7 +223,7 @@ class GaussianTorchPolicy(TorchPolicy):
 
     def set_weights(self, weights):
         log_sigma_data = TorchUtils.to_float_tensor(weights[-self._action_dim:])
-        self._log_sigma.data = log_sigma_data
+        self._log_sigma.data = log_sigma_data.clone()
 
         self._mu.set_weights(weights[:-self._action_dim])
 
diff --git a/mushroom_rl/utils/torch.py b/mushroom_rl/utils/torch.py
index b0b01b8..1c5a53e 100644
--- a/mushroom_rl/utils/torch.py
+++ b/mushroom_rl/utils/torch.py
@@ -38,7 +38,7 @@ class TorchUtils(object):
 
             w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype)
 
-            p.data = w_tensor
+            p.data = w_tensor.clone()
             idx += c
 
         # assert idx == weights.size # TODO check if you can put another guard here
-- 
2.43.0


From 2ffdad61ed1fbe9f2a15627133807c17b692d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 051/103] fix: vectorized black box optimization crashed
 without a context and with lists of episode information

---
 .../black_box_optimization.py                      | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..c7908cf 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,11 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            context = self._compute_context_vectorized(initial_states, episode_info, start_mask)
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self.distribution.mean(context)
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
@@ -85,6 +85,16 @@ class BlackBoxOptimization(Agent):
 
         return policy_states, theta
 
+    def _compute_context_vectorized(self, initial_states, episode_info, start_mask):
+        if not self.distribution.is_contextual:
+            return None
+
+        if not isinstance(episode_info, dict):
+            keys = set().union(*episode_info)
+            episode_info = {key: [info.get(key) for info in episode_info] for key in keys}
+
+        return self._context_builder(initial_states, **episode_info)[start_mask]
+
     def fit(self, dataset):
         Jep = dataset.discounted_return
         theta = self._agent_backend.from_list(dataset.theta_list)
-- 
2.43.0


From 4ea57d3027f8dc9dac0f163f286870bb8b74e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 052/103] fix: PGPE gives each sample the context of its own
 episode

---
 .../algorithms/policy_search/black_box_optimization/pgpe.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
index 66054c0..23e0b6c 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
@@ -34,7 +34,7 @@ class PGPE(BlackBoxOptimization):
             J_i = Jep[i]
             theta_i = theta[i]
 
-            diff_log_dist = self.distribution.diff_log(theta_i, context)
+            diff_log_dist = self.distribution.diff_log(theta_i, None if context is None else context[i])
             diff_log_dist2 = diff_log_dist**2
 
             diff_log_dist_list.append(diff_log_dist)
-- 
2.43.0


From c8c5e4770ac1a582ae531eb8a5cbf691f74e27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 053/103] fix: ePPO computes the old density under the context
 of the samples

---
 .../algorithms/policy_search/black_box_optimization/eppo.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..7f6ae63 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -46,7 +46,7 @@ class ePPO(BlackBoxOptimization):
 
         Jep = (Jep - J_mean) / (J_std + 1e-8)
 
-        old_dist = self.distribution.log_pdf(theta).detach()
+        old_dist = self.distribution.log_pdf(theta, context).detach()
 
         if self.distribution.is_contextual:
             full_batch = (theta, Jep, old_dist, context)
-- 
2.43.0


From 7a9107d3613436b23f0dcdfe12ff1390e535de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 054/103] fix: off-diagonal terms of the quadratic surrogate of
 MORE were counted twice

---
 .../algorithms/policy_search/black_box_optimization/more.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..ad76106 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -94,6 +94,7 @@ class MORE(BlackBoxOptimization):
         R = np.zeros((n,n ))
         uid = np.triu_indices(n)
         R[uid] = beta[1 + n:]
+        R[np.triu_indices(n, 1)] /= 2
         R.T[uid] = R[uid]
         
         w, v = np.linalg.eig(R)
-- 
2.43.0


From 20f683eb9b4ec16d6f0d9ef5fa0dd86a1ee1dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 055/103] fix: GPOMDP kept the rewards of an unfinished episode
 for the next fit

---
 mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bf2acd6..736fd11 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -99,4 +99,5 @@ class GPOMDP(PolicyGradient):
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
+        self.list_reward = list()
         self.step_count = 0
-- 
2.43.0


From 5463aa01465529494c3b0fa2c5ddb9d3633d9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 056/103] fix: VectorPolicy resizes in the right direction,
 with independent policies, and returns all the policy states

---
 mushroom_rl/policy/vector_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..c37c0b9 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,16 +30,16 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        if len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From 307713b655bdfa68043f76b463f0c534a1e3f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 057/103] fix: minimizing optimizers do not overwrite the
 gradient of the caller

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..e70f4f7 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -152,7 +152,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From e5ab2af6e1c9abb942f2ffce38865556c50f1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:31 +0000
Subject: [PATCH 058/103] fix: COPDAC_Q with more than one action dimension

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..e0f35e3 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -68,7 +68,7 @@ class COPDAC_Q(Agent):
 
             q_next = self._V(ss_psi).item() if not absorbing else 0
 
-            grad_mu_s = np.atleast_2d(self._mu.diff(s))
+            grad_mu_s = np.atleast_2d(self._mu.diff(s).T)
             omega = self._A.get_weights()
 
             delta = r + self.mdp_info.gamma * q_next - self._Q(s, a)
@@ -93,7 +93,7 @@ class COPDAC_Q(Agent):
                                                             action)).item()
 
     def _nu(self, state, action):
-        grad_mu = np.atleast_2d(self._mu.diff(state))
+        grad_mu = np.atleast_2d(self._mu.diff(state).T)
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
-- 
2.43.0


From c1fa5be92426c820f090f68d22182dee0ea4e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:31 +0000
Subject: [PATCH 059/103] fix: eligibility traces of stochastic actor-critic
 leak into the next episode of a dataset

---
 .../actor_critic/classic_actor_critic/stochastic_ac.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py
index 7306b5d..6ee3e36 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py
@@ -62,7 +62,7 @@ class StochasticAC(Agent):
 
     def fit(self, dataset):
         for step in dataset:
-            s, a, r, ss, absorbing, _ = step
+            s, a, r, ss, absorbing, last = step
 
             s_psi = self._psi(s) if self._psi is not None else s
             ss_psi = self._psi(ss) if self._psi is not None else ss
@@ -81,6 +81,10 @@ class StochasticAC(Agent):
             theta_new = self.policy.get_weights() + delta_theta
             self.policy.set_weights(theta_new)
 
+            if last:
+                self._e_v = np.zeros(self._V.weights_size)
+                self._e_theta = np.zeros(self.policy.weights_size)
+
     def _compute_td_n_traces(self, s, a, r, v_next, s_psi):
         # Compute TD error
         delta = r + self.mdp_info.gamma * v_next - self._V(s_psi)
-- 
2.43.0


From d352e0430ff3c24284cc9453427d34e93e8f6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 060/103] fix: DDPG, TD3 and SAC with a policy that has a state

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..127c720 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
index 43dbe7c..e9ac9c5 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
@@ -265,7 +265,7 @@ class SAC(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             if self._replay_memory.size > self._warmup_transitions():
                 action_new, log_prob = self.policy.compute_action_and_log_prob_t(state)
-- 
2.43.0


From cf3563e4be6f51080067fe9e45cb9d7b4dcee0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 061/103] fix: DDPG and TD3 targets with boolean absorbing
 flags

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 127c720..e81daef 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
 
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..06596b7 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -89,6 +89,6 @@ class TD3(DDPG):
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
-- 
2.43.0


From f6b4d37296b09dfc6e1057d67bb10f4ce44dea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 062/103] fix: TD3 smoothing noise is added to tensors with
 numpy

---
 .../algorithms/actor_critic/deep_actor_critic/td3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 06596b7..45a7b15 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,4 +1,4 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
@@ -81,11 +81,11 @@ class TD3(DDPG):
         """
         a = self._target_actor_approximator(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = torch.as_tensor(self.mdp_info.action_space.low, dtype=a.dtype, device=a.device)
+        high = torch.as_tensor(self.mdp_info.action_space.high, dtype=a.dtype, device=a.device)
+        eps = self._noise_std() * torch.randn_like(a)
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-- 
2.43.0


From 2ce74a39f3703fd3ebc0c96d283ff0e18af68d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 063/103] fix: environments keep their own copy of the state
 given to reset

---
 mushroom_rl/environments/car_on_hill.py       | 2 +-
 mushroom_rl/environments/cart_pole.py         | 2 +-
 mushroom_rl/environments/finite_mdp.py        | 2 +-
 mushroom_rl/environments/grid_world.py        | 2 +-
 mushroom_rl/environments/inverted_pendulum.py | 2 +-
 mushroom_rl/environments/lqr.py               | 4 ++--
 mushroom_rl/environments/puddle_world.py      | 2 +-
 mushroom_rl/environments/segway.py            | 4 ++--
 mushroom_rl/environments/ship_steering.py     | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mushroom_rl/environments/car_on_hill.py b/mushroom_rl/environments/car_on_hill.py
index ad0ab0d..5ef76ea 100644
--- a/mushroom_rl/environments/car_on_hill.py
+++ b/mushroom_rl/environments/car_on_hill.py
@@ -44,7 +44,7 @@ class CarOnHill(Environment):
         if state is None:
             self._state = np.array([-0.5, 0])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
 
         return self._state, {}
 
diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..67cf8e0 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,7 +59,7 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
diff --git a/mushroom_rl/environments/finite_mdp.py b/mushroom_rl/environments/finite_mdp.py
index 7531c27..73f7f5c 100644
--- a/mushroom_rl/environments/finite_mdp.py
+++ b/mushroom_rl/environments/finite_mdp.py
@@ -47,7 +47,7 @@ class FiniteMDP(Environment):
             else:
                 self._state = np.array([np.random.choice(self.p.shape[0])])
         else:
-            self._state = state
+            self._state = np.array(state)
 
         return self._state, {}
 
diff --git a/mushroom_rl/environments/grid_world.py b/mushroom_rl/environments/grid_world.py
index 63b4bc1..9217b61 100644
--- a/mushroom_rl/environments/grid_world.py
+++ b/mushroom_rl/environments/grid_world.py
@@ -40,7 +40,7 @@ class AbstractGridWorld(Environment):
         if state is None:
             state = self.convert_to_int(self._start, self._width)
 
-        self._state = state
+        self._state = np.array(state)
 
         return self._state, {}
 
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..1e8317d 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,7 +63,7 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
diff --git a/mushroom_rl/environments/lqr.py b/mushroom_rl/environments/lqr.py
index 7213962..b165a54 100644
--- a/mushroom_rl/environments/lqr.py
+++ b/mushroom_rl/environments/lqr.py
@@ -117,12 +117,12 @@ class LQR(Environment):
                 rand_state = np.random.uniform(-3, 3, size=self.A.shape[0])
                 self._state = self._bound(rand_state, self.info.observation_space.low, self.info.observation_space.high)
             elif self._initial_state is not None:
-                self._state = self._initial_state
+                self._state = np.array(self._initial_state, dtype=float)
             else:
                 init_value = .9 * self._max_pos if np.isfinite(self._max_pos) else 10
                 self._state = init_value * np.ones(self.A.shape[0])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
 
         return self._state, {}
 
diff --git a/mushroom_rl/environments/puddle_world.py b/mushroom_rl/environments/puddle_world.py
index 8305240..7f8176b 100644
--- a/mushroom_rl/environments/puddle_world.py
+++ b/mushroom_rl/environments/puddle_world.py
@@ -65,7 +65,7 @@ class PuddleWorld(Environment):
         if state is None:
             self._state = self._start.copy()
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
 
         return self._state, {}
 
diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..eb781ea 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
@@ -61,7 +61,7 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
diff --git a/mushroom_rl/environments/ship_steering.py b/mushroom_rl/environments/ship_steering.py
index c13a2d9..0d0dd41 100644
--- a/mushroom_rl/environments/ship_steering.py
+++ b/mushroom_rl/environments/ship_steering.py
@@ -65,7 +65,7 @@ class ShipSteering(Environment):
                 high = self.info.observation_space.high
                 self._state = (high-low)*np.random.rand(4) + low
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
 
         return self._state, {}
 
-- 
2.43.0


From d373c8a5bed26125468f2ceb1e0a49bf94f10160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 064/103] fix: every worker of a multiprocess environment has
 its own seed, frames are indexed by environment

---
 mushroom_rl/core/multiprocess_environment.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index f91048f..518d0de 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -5,7 +5,8 @@ import numpy as np
 from .vectorized_env import VectorizedEnvironment
 
 
-def _env_worker(remote, env_class, use_generator, args, kwargs):
+def _env_worker(remote, env_class, use_generator, seed, args, kwargs):
+    np.random.seed(seed)
 
     if use_generator:
         env = env_class.generate(*args, **kwargs)
@@ -71,8 +72,10 @@ class MultiprocessEnvironment(VectorizedEnvironment):
         self._remotes, self._work_remotes = zip(*[Pipe() for _ in range(n_envs)])
         self._processes = list()
 
-        for work_remote in self._work_remotes:
-            worker_process = Process(target=_env_worker, args=(work_remote, env_class, use_generator, args, kwargs))
+        seeds = np.random.SeedSequence(np.random.randint(np.iinfo(np.int32).max)).generate_state(n_envs)
+        for work_remote, seed in zip(self._work_remotes, seeds):
+            worker_process = Process(target=_env_worker,
+                                     args=(work_remote, env_class, use_generator, seed, args, kwargs))
             self._processes.append(worker_process)
 
         for p in self._processes:
@@ -139,12 +142,14 @@ class MultiprocessEnvironment(VectorizedEnvironment):
             if env_mask[i]:
                 frame = remote.recv()
                 frames.append(frame)
+            else:
+                frames.append(None)
 
-        return np.array(frames)
+        return frames
 
     def seed(self, seed):
-        for remote in self._remotes:
-            remote.send(('seed', seed))
+        for i, remote in enumerate(self._remotes):
+            remote.send(('seed', seed + i))
 
         for remote in self._remotes:
             remote.recv()
-- 
2.43.0


From b008349171c77f8b3fd0531140a887456f91b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 065/103] fix: every environment of a vectorized core records
 its own video

---
 mushroom_rl/core/vectorized_core.py | 8 ++++++--
 mushroom_rl/utils/record.py         | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index d1a3096..5f84936 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -37,7 +37,7 @@ class VectorCore(object):
 
         if record_dictionary is None:
             record_dictionary = dict()
-        self._record = [self._build_recorder_class(**record_dictionary) for _ in range(self.env.number)]
+        self._record = [self._build_recorder_class(i, **record_dictionary) for i in range(self.env.number)]
 
     def learn(self, n_steps=None, n_episodes=None, n_steps_per_fit=None, n_episodes_per_fit=None,
               render=False, record=False, quiet=False):
@@ -229,11 +229,12 @@ class VectorCore(object):
 
         return states
 
-    def _build_recorder_class(self, recorder_class=None, fps=None, **kwargs):
+    def _build_recorder_class(self, env_id, recorder_class=None, fps=None, **kwargs):
         """
         Method to create a video recorder class.
 
         Args:
+            env_id (int): the index of the recorded environment;
             recorder_class (class): the class used to record the video. By default, we use the ``VideoRecorder`` class
                 from mushroom. The class must implement the ``__call__`` and ``stop`` methods.
 
@@ -245,6 +246,9 @@ class VectorCore(object):
         if not recorder_class:
             recorder_class = VideoRecorder
 
+        if recorder_class is VideoRecorder:
+            kwargs['video_name'] = f"{kwargs.get('video_name') or 'recording'}-env-{env_id}"
+
         if not fps:
             fps = int(1 / self.env.info.dt)
 
diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index 2ffa000..dc1432f 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -63,6 +63,9 @@ class VideoRecorder(object):
                                              self._fps, (width, height))
 
     def stop(self):
+        if self._video_writer is None:
+            return
+
         cv2.destroyAllWindows()
         self._video_writer.release()
         self._video_writer = None
-- 
2.43.0


From 5c4dec711433a374182373d1d5919f5cb081cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 066/103] fix: full save and load of torch objects and bulky
 attributes

---
 mushroom_rl/core/serialization.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..9535da9 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -116,16 +116,14 @@ class Serializable(object):
             setattr(loaded_object, '_save_attributes', save_attributes)
 
             for att, method in save_attributes.items():
-                mandatory = not method.endswith('!')
-                method = method[:-1] if not mandatory else method
+                method = method[:-1] if method.endswith('!') else method
                 file_name = Serializable._append_folder(
                     folder, '{}.{}'.format(att, method)
                 )
 
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
-                elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                elif file_name in zip_file.namelist() or method == 'mushroom':
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
@@ -210,7 +208,7 @@ class Serializable(object):
     @staticmethod
     def _load_torch(zip_file, name):
         with zip_file.open(name, 'r') as f:
-            return torch.load(f, map_location=TorchUtils.get_device())
+            return torch.load(f, map_location=TorchUtils.get_device(), weights_only=False)
 
     @staticmethod
     def _load_json(zip_file, name):
-- 
2.43.0


From 51605401456a087d51137f7649a0d9aa5853928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 067/103] fix: saved prioritized memories keep their tree,
 emptied ones start anew

---
 mushroom_rl/rl_utils/replay_memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 5bfb157..9cd03e6 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -290,9 +290,9 @@ class SumTree(Serializable):
         super().__init__()
         self._add_save_attr(
             _max_size="primitive",
-            _idx="primitive",
-            _full="primitive",
-            _tree="numpy",
+            _idx="primitive!",
+            _full="primitive!",
+            _tree="numpy!",
             _mdp_info="mushroom",
             _agent_info="mushroom",
             dataset="mushroom!")
@@ -471,6 +471,9 @@ class SumTree(Serializable):
         if self.dataset is None:
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
 
 
 class PrioritizedReplayMemory(Serializable):
-- 
2.43.0


From 7cb1a3f2b4158f772f5cc7e34846c2a2c240868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 068/103] fix: Adam optimizer loses eps when saved

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index e70f4f7..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From ec4af2413e89ce6662ee8ef5c169e38180dc274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 069/103] fix: MORE loses its surrogate models when saved

---
 .../algorithms/policy_search/black_box_optimization/more.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index ad76106..61869a8 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -54,7 +54,11 @@ class MORE(BlackBoxOptimization):
         self._add_save_attr(
             eps='primitive',
             h0='primitive',
-            kappa='primitive'
+            kappa='primitive',
+            phi_quadratic_='pickle',
+            regressor_quadratic='mushroom',
+            phi_linear_='pickle',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From 8d9e07f7e456915c924102eb6499f5302a449c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 070/103] fix: ePPO optimizer updates a stale distribution
 after load

---
 .../algorithms/policy_search/black_box_optimization/eppo.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7f6ae63..2d95970 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -3,6 +3,7 @@ import torch
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class ePPO(BlackBoxOptimization):
@@ -74,3 +75,7 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From 518a25788daa7a8c6618a094fee2c829decfcce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 071/103] fix: COPDAC_Q updates a stale regressor after load

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index e0f35e3..f4dd8bc 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -97,3 +97,7 @@ class COPDAC_Q(Agent):
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
+
+    def _post_load(self):
+        if hasattr(self.policy, '_approximator'):
+            self._mu = self.policy._approximator
-- 
2.43.0


From 54b4740d3f36f1bdbee5769e4cfb5e7392a24887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 072/103] fix: PPO_BPTT and recurrent policies lose parameters
 when saved

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py    | 1 +
 mushroom_rl/policy/recurrent_torch_policy.py                 | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 7616c24..af0a307 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,6 +67,7 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
+            _truncation_length='primitive',
             _dim_env_state='primitive'
         )
 
diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 21f37c4..e46627b 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 93ac434e5906c741a1020efa313bca0c92a98542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 073/103] fix: datasets and extra information lose fields when
 saved

---
 mushroom_rl/core/_impl/list_dataset.py  | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 mushroom_rl/core/dataset.py             | 1 +
 mushroom_rl/core/extra_info.py          | 3 +++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 164c3f2..8ebc7f6 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -164,6 +164,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
-            _is_stateful='primitive'
+            _is_stateful='primitive',
+            _mask='pickle'
         )
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index fcbf676..35d57e1 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -283,7 +283,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 7fec564..4162c00 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 2bb4ac7..54c7c01 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -255,6 +255,9 @@ class ExtraInfo(Serializable, UserDict):
 
     def _add_all_save_attr(self):
         self._add_save_attr(
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive',
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
-- 
2.43.0


From fa809c63b8f6756b9c3cf3a39e2b62bac0e0adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 074/103] fix: Mellowmax cannot be saved

---
 mushroom_rl/policy/td_policy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index fe8e81d..b28675a 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -189,7 +189,7 @@ class Mellowmax(Boltzmann):
 
             self._add_save_attr(
                 _omega='primitive',
-                _outer='primitive',
+                _outer='none',
                 _beta_min='primitive',
                 _beta_max='primitive',
             )
@@ -236,3 +236,6 @@ class Mellowmax(Boltzmann):
 
     def update(self, *idx):
         raise RuntimeError('Cannot update the beta parameter of Mellowmax policy')
+
+    def _post_load(self):
+        self._beta._outer = self
-- 
2.43.0


From b06f6adc5471edca15e552121dfa4c7782e9a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 075/103] fix: BoostedFQI cannot be loaded

---
 mushroom_rl/algorithms/value/batch_td/boosted_fqi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py b/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
index ab68e15..0b23370 100644
--- a/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
+++ b/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
@@ -22,7 +22,7 @@ class BoostedFQI(FQI):
             _n_iterations='primitive',
             _quiet='primitive',
             _prediction='primitive',
-            _next_q='numpy',
+            _next_q='pickle',
             _idx='primitive',
             _target='pickle'
         )
-- 
2.43.0


From 3402939abc7049f647c3fb0ee02fb959c8a7c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 076/103] fix: ensembles of tables predict the value of a
 single state and action

---
 mushroom_rl/approximators/ensemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index dcad14a..6edc969 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -91,11 +91,11 @@ class Ensemble(Serializable):
                     raise NotFittedError
 
             prediction = self._prediction if prediction is None else prediction
-            if isinstance(predictions[0], np.ndarray):
-                predictions = np.array(predictions)
-            else:
+            if isinstance(predictions[0], torch.Tensor):
                 predictions = torch.stack(predictions, axis=0)
                 torch_output = True
+            else:
+                predictions = np.array(predictions)
 
             if prediction == 'mean':
                 results = predictions.mean(0)
-- 
2.43.0


From c05a663ec26c5306bd2aacb15787ad5f34fac6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 077/103] fix: CollectDataset.clean before any data was
 collected does nothing

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From c5c7b151e5cd2e51cb4fc100ffd037e3d3373257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 078/103] fix: VectorCore gives the callbacks the transitions
 that were fitted, not the residual twice

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 5f84936..575d0c1 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -126,7 +126,7 @@ class VectorCore(object):
                 last = self._core_logic.after_fit_vectorized(last)
 
                 for c in self.callbacks_fit:
-                    c(dataset)
+                    c(fit_dataset)
 
                 dataset.clear(self._core_logic.n_steps_per_fit)
 
-- 
2.43.0


From d513cb5d9c8dd71f0ad77144e35967a413018e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 079/103] fix: the logged losses of an ensemble are numeric
 arrays that can be loaded

---
 mushroom_rl/approximators/regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/regressor.py b/mushroom_rl/approximators/regressor.py
index 1076042..f333817 100644
--- a/mushroom_rl/approximators/regressor.py
+++ b/mushroom_rl/approximators/regressor.py
@@ -259,7 +259,7 @@ class Regressor(Serializable):
                         m_loss = m_loss.squeeze()
                     losses_fit.append(m_loss)
 
-            losses_fit = np.array(losses_fit).squeeze()
+            losses_fit = np.array(losses_fit, dtype=float).squeeze()
 
             if self._loss_filename is None:
                 save_dict = dict(loss=losses_fit)
-- 
2.43.0


From 00e124c9e57de4287bd8c0a5a06d7c6e9dd7ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 080/103] fix: MuJoCo.reset computes the derived quantities
 after setup

---
 mushroom_rl/environments/mujoco.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..c8a38d2 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -118,6 +118,7 @@ class MuJoCo(Environment):
     def reset(self, obs=None):
         mujoco.mj_resetData(self._model, self._data)
         self.setup(obs)
+        mujoco.mj_forward(self._model, self._data)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
         return self._modify_observation(self._obs), {}
@@ -683,6 +684,7 @@ class MultiMuJoCo(MuJoCo):
         self._data = self._datas[self._current_model_idx]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
         self.setup(obs)
+        mujoco.mj_forward(self._model, self._data)
 
         if self._viewer is not None and self.more_than_one_env:
             self._viewer.load_new_model(self._model)
-- 
2.43.0


From 4969c205fd395757e68bfb87ec5263029b057814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 081/103] fix: MuJoCo returns observations that are not its
 internal state

---
 mushroom_rl/environments/mujoco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index c8a38d2..c3e7054 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -121,7 +121,7 @@ class MuJoCo(Environment):
         mujoco.mj_forward(self._model, self._data)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs), {}
+        return self._modify_observation(self._obs.copy()), {}
 
     def step(self, action):
         cur_obs = self._obs.copy()
@@ -158,7 +158,7 @@ class MuJoCo(Environment):
 
         self._obs = cur_obs
 
-        return self._modify_observation(cur_obs), reward, absorbing, info
+        return self._modify_observation(cur_obs.copy()), reward, absorbing, info
 
     def render(self, record=False):
         if self._viewer is None:
@@ -690,7 +690,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs.copy())
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From 412f6aff1283f67ed33da2cf3bc081a5a17d587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 082/103] fix: MultiMuJoCo.reset returns an episode info as all
 other environments

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index c3e7054..4fcf57b 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -690,7 +690,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs.copy())
+        return self._modify_observation(self._obs.copy()), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From 41be952674195d27f29991418b20ffbb8301b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 083/103] fix: MultiMuJoCo applies the timestep to all its
 models

---
 mushroom_rl/environments/mujoco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 4fcf57b..8d4bc75 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -588,7 +588,8 @@ class MultiMuJoCo(MuJoCo):
         self._current_model_idx = 0
         self._model = self._models[self._current_model_idx]
         if timestep is not None:
-            self._model.opt.timestep = timestep
+            for m in self._models:
+                m.opt.timestep = timestep
             self._timestep = timestep
         else:
             self._timestep = self._model.opt.timestep
-- 
2.43.0


From 0580cf3241705ea42a9d146523eaa952def8add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 084/103] fix: MultiMuJoCo builds one observation helper per
 model and compares their limits

---
 mushroom_rl/environments/mujoco.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 8d4bc75..fc2beb5 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -621,8 +621,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
-                                              max_joint_velocity=max_joint_vel)
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d, max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
 
@@ -630,7 +629,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
-- 
2.43.0


From b0e597ad2967b807b6d2515725bffc214ee3c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 085/103] fix: ObservationHelper.remove_obs accounts only for
 the removed entries before the index

---
 mushroom_rl/utils/mujoco/observation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/mujoco/observation_helper.py b/mushroom_rl/utils/mujoco/observation_helper.py
index 77429e8..79075a2 100644
--- a/mushroom_rl/utils/mujoco/observation_helper.py
+++ b/mushroom_rl/utils/mujoco/observation_helper.py
@@ -92,7 +92,7 @@ class ObservationHelper:
         The index is always of the original observation!
         """
         indices = self.obs_idx_map[key]
-        adjusted_index = index - len(self.build_omit_idx[key])
+        adjusted_index = index - sum(omitted < index for omitted in self.build_omit_idx[key])
 
         self.obs_low = np.delete(self.obs_low, indices[adjusted_index])
         self.obs_high = np.delete(self.obs_high, indices[adjusted_index])
-- 
2.43.0


From b3b5fc1ad27aeeb25c6c07c9e652703a5c6c5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 086/103] fix: Gym.reset(state) sets the state of the
 environment, not of its outermost wrapper

---
 mushroom_rl/environments/gym_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
-- 
2.43.0


From b98948ffec35d7003b033d40ce8d40b14ec289cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 087/103] fix: average pooling of Atari frames yields 8 bit
 frames

---
 mushroom_rl/environments/atari.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/atari.py b/mushroom_rl/environments/atari.py
index 2f62b87..e40ea5b 100644
--- a/mushroom_rl/environments/atari.py
+++ b/mushroom_rl/environments/atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
-- 
2.43.0


From 654e1cec9836cb843281deecbd518291e3f3b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 088/103] fix: DMControl ignores the dm_control time limit also
 with pixel observations

---
 mushroom_rl/environments/dm_control_env.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/dm_control_env.py b/mushroom_rl/environments/dm_control_env.py
index a5edd2c..3410db5 100644
--- a/mushroom_rl/environments/dm_control_env.py
+++ b/mushroom_rl/environments/dm_control_env.py
@@ -42,8 +42,6 @@ class DMControl(Environment):
         """
         # MDP creation
         self.env = suite.load(domain_name, task_name, task_kwargs=task_kwargs)
-        if use_pixels:
-            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
 
         # get the default horizon
         if horizon is None:
@@ -52,6 +50,9 @@ class DMControl(Environment):
         # Hack to ignore dm_control time limit.
         self.env._step_limit = np.inf
 
+        if use_pixels:
+            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
+
         if use_pixels:
             self._convert_observation_space = self._convert_observation_space_pixels
             self._convert_observation = self._convert_observation_pixels
-- 
2.43.0


From 0818c4fd468c9a8bbd2dc0aefd59fd3b13b8fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 089/103] fix: PyBullet returns observations that are not its
 internal state

---
 mushroom_rl/environments/pybullet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet.py b/mushroom_rl/environments/pybullet.py
index 8afeaf6..15c1ebb 100644
--- a/mushroom_rl/environments/pybullet.py
+++ b/mushroom_rl/environments/pybullet.py
@@ -174,7 +174,7 @@ class PyBullet(Environment):
     def _create_observation(self, state):
         """
         This method can be overridden to ctreate an observation vector from the simulator state vector.
-        By default, returns the simulator state vector unchanged.
+        By default, returns a copy of the simulator state vector.
 
         Args:
             state (np.ndarray): the simulator state vector.
@@ -183,7 +183,7 @@ class PyBullet(Environment):
             The environment observation.
 
         """
-        return state
+        return state.copy()
 
     def _load_model(self, file_name, kwargs):
         if file_name.endswith('.urdf'):
-- 
2.43.0


From 44ff6388515159a08d96fdd393ca06c9eb342bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 090/103] fix: PyBullet.reset recomputes the contacts of the
 initial state

---
 mushroom_rl/environments/pybullet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/environments/pybullet.py b/mushroom_rl/environments/pybullet.py
index 15c1ebb..e1e3782 100644
--- a/mushroom_rl/environments/pybullet.py
+++ b/mushroom_rl/environments/pybullet.py
@@ -90,6 +90,7 @@ class PyBullet(Environment):
     def reset(self, state=None):
         self._client.restoreState(self._initial_state)
         self.setup(state)
+        self._client.performCollisionDetection()
         self._state = self._indexer.create_sim_state()
         observation = self._create_observation(self._state)
 
-- 
2.43.0


From a6254c74072e3182ede7bb7dfbf2e7315a038f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 091/103] fix: PyBullet link observations refer to the current
 configuration, not to the previous simulation step

---
 mushroom_rl/utils/pybullet/index_map.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/utils/pybullet/index_map.py b/mushroom_rl/utils/pybullet/index_map.py
index 8b21056..0233243 100644
--- a/mushroom_rl/utils/pybullet/index_map.py
+++ b/mushroom_rl/utils/pybullet/index_map.py
@@ -55,14 +55,16 @@ class IndexMap(object):
                 model_id, link_id = self.link_map[name]
 
                 if obs_type is PyBulletObservationType.LINK_POS:
-                    link_data = self._client.getLinkState(model_id, link_id)
+                    link_data = self._client.getLinkState(model_id, link_id, computeForwardKinematics=True)
                     t = link_data[0]
                     q = link_data[1]
                     data_obs += t + q
                 elif obs_type is PyBulletObservationType.LINK_LIN_VEL:
-                    data_obs += self._client.getLinkState(model_id, link_id, computeLinkVelocity=True)[-2]
+                    data_obs += self._client.getLinkState(model_id, link_id, computeLinkVelocity=True,
+                                                            computeForwardKinematics=True)[-2]
                 elif obs_type is PyBulletObservationType.LINK_ANG_VEL:
-                    data_obs += self._client.getLinkState(model_id, link_id, computeLinkVelocity=True)[-1]
+                    data_obs += self._client.getLinkState(model_id, link_id, computeLinkVelocity=True,
+                                                            computeForwardKinematics=True)[-1]
             elif obs_type is PyBulletObservationType.JOINT_POS \
                     or obs_type is PyBulletObservationType.JOINT_VEL:
                 model_id, joint_id = self.joint_map[name]
-- 
2.43.0


From c529fb7b4fd4eb0a1e6baf3630d537639f2e0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 092/103] fix: PyBullet contact flags between two links of the
 same model do not depend on the order

---
 mushroom_rl/utils/pybullet/contacts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/utils/pybullet/contacts.py b/mushroom_rl/utils/pybullet/contacts.py
index b886efc..fbd0cd8 100644
--- a/mushroom_rl/utils/pybullet/contacts.py
+++ b/mushroom_rl/utils/pybullet/contacts.py
@@ -25,9 +25,9 @@ class ContactHelper(object):
             contacts_points = self._client.getContactPoints(model_a, model_b)
 
             for contact_p in contacts_points:
-                involved_links = contact_p[3:5]
-                if involved_links in contact[1]:
-                    self._computed_contacts[model_a][model_b][contact_p[3]][contact_p[4]] = contact_p
+                _, _, link_a, link_b = self._order_contact(model_a, model_b, *contact_p[3:5])
+                if (link_a, link_b) in contact[1]:
+                    self._computed_contacts[model_a][model_b][link_a][link_b] = contact_p
 
     def get_contact(self, contact_name):
         model_1, model_2, link_1, link_2 = self._order_contact(*self._contact_name_map[contact_name])
@@ -76,7 +76,7 @@ class ContactHelper(object):
 
     @staticmethod
     def _order_contact(model_1, model_2, link_1, link_2):
-        if model_1 < model_2:
+        if (model_1, link_1) < (model_2, link_2):
             model_a = model_1
             link_a = link_1
             model_b = model_2
-- 
2.43.0


From fff0ea4167d2bf97a159cbeaf7c5f34d76394b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 093/103] fix: entropy of the recurrent gaussian policy uses
 the bounded deviation

---
 mushroom_rl/policy/recurrent_torch_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index e46627b..b1fe87d 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -43,7 +43,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return self.distribution_t(state, policy_state, lengths).log_prob(action)[:, None]
 
     def entropy_t(self, state=None):
-        return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
+        return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._bounded_log_sigma())
 
     def distribution(self, state, policy_state, lengths):
         s = TorchUtils.to_float_tensor(state)
@@ -61,8 +61,8 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
     def get_mean_and_covariance_and_policy_state(self, state, policy_state, lengths):
         mu, next_hidden_state = self._mu(state, policy_state, lengths, **self._predict_params)
 
-        # Bound the log_std
-        log_sigma = torch.clamp(self._log_sigma, self._log_std_min(), self._log_std_max())
-
-        covariance = torch.diag(torch.exp(2 * log_sigma))
+        covariance = torch.diag(torch.exp(2 * self._bounded_log_sigma()))
         return mu, covariance, next_hidden_state
+
+    def _bounded_log_sigma(self):
+        return torch.clamp(self._log_sigma, self._log_std_min(), self._log_std_max())
-- 
2.43.0


From 13eb8698d93ddfdd3228a04ff123f4f96be7c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 094/103] fix: ProMP computes its phase from the policy state
 and does not overwrite it

---
 mushroom_rl/policy/promps.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..ef42389 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -40,25 +40,22 @@ class ProMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _duration='primitive',
             _sigma='numpy',
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
-        mu = self._approximator(self._phi(z))
+    def __call__(self, state, action, policy_state):
+        mu = self._compute_mean(state, policy_state)
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.allclose(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
-
-        mu = self._approximator(self._phi(z))
+        mu = self._compute_mean(state, policy_state)
 
         next_policy_state = self.update_time(state, policy_state)
 
@@ -72,15 +69,24 @@ class ProMP(ParametricPolicy):
         Method that updates the time counter. Can be overridden to introduce complex state-dependant behaviors.
 
         Args:
-            state (np.ndarray): The current state of the system.
+            state (np.ndarray): The current state of the system;
+            policy_state (np.ndarray): The current value of the time counter.
+
+        Returns:
+            The next value of the time counter.
 
         """
-        policy_state += 1
+        next_policy_state = policy_state + 1
+
+        if not self._periodic:
+            next_policy_state = np.minimum(next_policy_state, self._duration)
+
+        return next_policy_state
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+    def _compute_mean(self, state, policy_state):
+        z = self._compute_phase(state, policy_state)
 
-        return policy_state
+        return np.reshape(self._approximator(self._phi(z)), self._approximator.output_shape)
 
     def _compute_phase(self, state, policy_state):
         """
@@ -114,4 +120,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(self.policy_state_shape)
-- 
2.43.0


From 64fe15e922d3e89d9539b85af97c15e8abd560b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 095/103] fix: DMP follows the policy interface

---
 mushroom_rl/policy/dmp.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..02859b4 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -12,6 +12,8 @@ class DMP(ParametricPolicy):
 
     """
     def __init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
+        super().__init__()
+
         self._approximator = mu
         self._phi = phi
 
@@ -34,7 +36,7 @@ class DMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _dt='primitive',
             _tau='primitive',
             _alpha_v='numpy',
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
@@ -72,7 +74,7 @@ class DMP(ParametricPolicy):
         """
         g = self.get_goal(state)
 
-        f = self._approximator(self._phi(self._x/g)) * self._v
+        f = np.reshape(self._approximator(self._phi(self._x/g)), self._v.shape) * self._v
 
         v_dot, x_dot = self._canonical_system(g)
         y_dot, z_dot = self._transformation_system(f, g)
-- 
2.43.0


From 454712b1459e737cf2f1ea242b9e391ad12bddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 096/103] fix: the grid worlds draw their start cell where it
 is

---
 mushroom_rl/environments/grid_world.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/grid_world.py b/mushroom_rl/environments/grid_world.py
index 9217b61..9322ee2 100644
--- a/mushroom_rl/environments/grid_world.py
+++ b/mushroom_rl/environments/grid_world.py
@@ -61,8 +61,7 @@ class AbstractGridWorld(Environment):
         goal_center = np.array([.5 + self._goal[1], self._height - (.5 + self._goal[0])])
         self._viewer.square(goal_center, 0, 1, (0, 255, 0))
 
-        start_grid = self.convert_to_grid(self._start, self._width)
-        start_center = np.array([.5 + start_grid[1], self._height - (.5 + start_grid[0])])
+        start_center = np.array([.5 + self._start[1], self._height - (.5 + self._start[0])])
         self._viewer.square(start_center, 0, 1, (255, 0, 0))
 
         state_grid = self.convert_to_grid(self._state, self._width)
-- 
2.43.0


From 0b759fa37e533eaf1371abd40b2f90780f2f772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 097/103] fix: the first frame of the viewer has the background
 color

---
 mushroom_rl/utils/viewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/utils/viewer.py b/mushroom_rl/utils/viewer.py
index 2680550..d5cce24 100644
--- a/mushroom_rl/utils/viewer.py
+++ b/mushroom_rl/utils/viewer.py
@@ -115,6 +115,7 @@ class Viewer:
 
         if self._screen is None:
             self._screen = pygame.display.set_mode(self._size)
+            self._screen.fill(self._background)
 
         return self._screen
 
-- 
2.43.0


From b78e5f40c43f84a64ef28e14dd9e8234e032746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 098/103] fix: torque_arrow does not overwrite the center it is
 given

---
 mushroom_rl/utils/viewer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/utils/viewer.py b/mushroom_rl/utils/viewer.py
index d5cce24..d4a444b 100644
--- a/mushroom_rl/utils/viewer.py
+++ b/mushroom_rl/utils/viewer.py
@@ -280,8 +280,7 @@ class Viewer:
             pygame.draw.arc(self.screen, color, rect,
                             angle_start, angle_end, width)
 
-            arrow_center = center
-            arrow_center[1] -= radius * np.sign(torque)
+            arrow_center = np.array([center[0], center[1] - radius * np.sign(torque)])
             arrow_scale = radius / 4
             self.arrow_head(arrow_center, arrow_scale, 0, color)
         else:
-- 
2.43.0


From 34a518eef1c49d22cdf75e037225ced0b0cc7a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 099/103] fix: the numerical gradient at integer parameters is
 not truncated

---
 mushroom_rl/utils/numerical_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/numerical_gradient.py b/mushroom_rl/utils/numerical_gradient.py
index b1d6561..021eccc 100644
--- a/mushroom_rl/utils/numerical_gradient.py
+++ b/mushroom_rl/utils/numerical_gradient.py
@@ -85,7 +85,7 @@ def numerical_diff_function(function, params, eps=1e-6):
 
     """
 
-    g = np.zeros_like(params)
+    g = np.zeros_like(params, dtype=float)
     n_params = len(params)
 
     for i in range(n_params):
-- 
2.43.0


From 7fa53b6416aa0f5fb222fe1268b05e22cfbd23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:01 +0000
Subject: [PATCH 100/103] fix: PyBulletViewer read non-square pictures with
 width and height exchanged

---
 mushroom_rl/utils/pybullet/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/pybullet/viewer.py b/mushroom_rl/utils/pybullet/viewer.py
index ffaa975..7db994d 100644
--- a/mushroom_rl/utils/pybullet/viewer.py
+++ b/mushroom_rl/utils/pybullet/viewer.py
@@ -38,6 +38,6 @@ class PyBulletViewer(ImageViewer):
                                                        projectionMatrix=proj_matrix,
                                                        renderer=pybullet.ER_BULLET_HARDWARE_OPENGL)
 
-        rgb_array = np.reshape(np.array(px), (self._size[0], self._size[1], -1))
+        rgb_array = np.reshape(np.array(px), (self._size[1], self._size[0], -1))
         rgb_array = rgb_array[:, :, :3]
         return rgb_array
-- 
2.43.0


From 6deb73ce76fe90b99942494b154bd93a305eca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:49 +0000
Subject: [PATCH 101/103] fix: the data logger rewrote earlier entries when the
 logged array changed later

---
 mushroom_rl/core/logger/data_logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index a0dd91f..7780827 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -1,4 +1,5 @@
 import pickle
+from copy import deepcopy
 import numpy as np
 
 from pathlib import Path
@@ -44,7 +45,7 @@ class DataLogger(object):
             if name not in self._data_dict:
                 self._data_dict[name] = list()
 
-            self._data_dict[name].append(data)
+            self._data_dict[name].append(deepcopy(data))
 
             filename = name + self._suffix + '.npy'
             path = self._results_dir / filename
-- 
2.43.0


From aaf46ef08d180403cdf2a2d300dee5ba8f1ea9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 102/103] fix: the projection of categorical returns could
 leave the support by one rounding error

---
 mushroom_rl/algorithms/value/dqn/categorical_dqn.py | 2 +-
 mushroom_rl/algorithms/value/dqn/rainbow.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
index 380176a..c3fabff 100644
--- a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
@@ -135,7 +135,7 @@ class CategoricalDQN(AbstractDQN):
             bell_a = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min,
                                                             self._v_max)
 
-            b = (bell_a - self._v_min) / self._delta
+            b = ((bell_a - self._v_min) / self._delta).clip(0, self._n_atoms - 1)
             l = np.floor(b).astype(int)
             u = np.ceil(b).astype(int)
 
diff --git a/mushroom_rl/algorithms/value/dqn/rainbow.py b/mushroom_rl/algorithms/value/dqn/rainbow.py
index cd8ad33..5846b29 100644
--- a/mushroom_rl/algorithms/value/dqn/rainbow.py
+++ b/mushroom_rl/algorithms/value/dqn/rainbow.py
@@ -140,7 +140,7 @@ class Rainbow(AbstractDQN):
             bell_a = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min,
                                                             self._v_max)
 
-            b = (bell_a - self._v_min) / self._delta
+            b = ((bell_a - self._v_min) / self._delta).clip(0, self._n_atoms - 1)
             l = np.floor(b).astype(int)
             u = np.ceil(b).astype(int)
 
-- 
2.43.0


From 8a1a4ef95109c87ba8e9530cb2f8061266c9d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 103/103] fix: steps without any information shifted the
 information of the other steps

---
 mushroom_rl/core/dataset.py    |  2 ++
 mushroom_rl/core/extra_info.py | 55 +++++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 4162c00..c30941f 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -198,6 +198,8 @@ class Dataset(Serializable):
 
         if info is None:
             dataset._info = ExtraInfo(1, backend)
+            for _ in range(len(states)):
+                dataset._info.append(dict())
         else:
             dataset._info = info.copy()
 
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 54c7c01..d7d4c81 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -22,6 +22,7 @@ class ExtraInfo(Serializable, UserDict):
         self._key_mapping = {} #maps keys for future output to key paths
         self._shape_mapping = {} #maps keys to additional shapes for arrays
         self._structured_storage = {}
+        self._structured_length = 0 #number of steps in the structured storage, whether they have any key or not
         super().__init__()
         self._add_all_save_attr()
 
@@ -62,10 +63,7 @@ class ExtraInfo(Serializable, UserDict):
                     self._update_key_mapping(env_data, True)
 
         # calculate the size for the array
-        if self._structured_storage:
-            length_structured_storage = self._structured_storage[next(iter(self._structured_storage.keys()))].shape[0]
-        else:
-            length_structured_storage = 0
+        length_structured_storage = self._structured_length
         size = (len(self._storage) + length_structured_storage, self._n_envs) if self._n_envs > 1 else (len(self._storage) + length_structured_storage, )
         
         #create output dictionary with empty arrays
@@ -75,7 +73,7 @@ class ExtraInfo(Serializable, UserDict):
         }
 
         #fill output with elements stored in structured storage
-        if self._structured_storage:
+        if length_structured_storage > 0:
             for key in output:
                 index = length_structured_storage
                 value = self._convert(self._structured_storage.get(key), to)
@@ -90,6 +88,7 @@ class ExtraInfo(Serializable, UserDict):
                 self._append_list_to_output(output, step_data, index, to)
 
         self._structured_storage = {key: value for key, value in output.items()}
+        self._structured_length = size[0]
         self._storage = []
         self._array_backend = ArrayBackend.get_array_backend(to)
             
@@ -111,6 +110,10 @@ class ExtraInfo(Serializable, UserDict):
         info._shape_mapping = self._shape_mapping
         info._key_mapping = self._key_mapping
         info._structured_storage = {}
+        if mask is None or self._structured_length == 0:
+            info._structured_length = self._structured_length * self._n_envs
+        else:
+            info._structured_length = int(mask.sum())
 
         for key in self.data:
             if mask is None:
@@ -140,8 +143,10 @@ class ExtraInfo(Serializable, UserDict):
 
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
 
-        info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend)
-        info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend)
+        lengths = self._structured_length, other._structured_length
+        info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, *lengths, self._array_backend, other._array_backend)
+        info._structured_length = sum(lengths)
+        info.data = self._concatenate_dictionary(self.data, other.data, *lengths, self._array_backend, other._array_backend)
 
         #combine key_mapping
         info._key_mapping = self._key_mapping.copy()
@@ -177,33 +182,32 @@ class ExtraInfo(Serializable, UserDict):
         array2 = array1_backend.convert(array2, backend=array2_backend)
         return array1_backend.concatenate((array1, array2))
     
-    def _concatenate_dictionary(self, dict1, dict2, backend1, backend2):
+    def _concatenate_dictionary(self, dict1, dict2, length1, length2, backend1, backend2):
         """
         Concatenate dict1 with dict2.
 
         Args:
             dict1 (dict): Flat dictionary containing arrays of backend1
             dict2 (dict): Flat dictionary containing arrays of backend2
+            length1 (int): Number of steps in dict1, which may have no key
+            length2 (int): Number of steps in dict2, which may have no key
             backend1 (ArrayBackend): Backend of arrays in dict1.
             backend2 (ArrayBackend): Backend of arrays in dict2.
 
         Returns
             dict: Concatenation of dict1 and dict2
         """
-        if not dict1:
+        if not dict1 and length1 == 0:
             return dict2
-        if not dict2:
+        if not dict2 and length2 == 0:
             return dict1
-        
-        array_length_dict1 = backend1.shape(dict1[next(iter(dict1.keys()))])[0]
-        array_length_dict2 = backend2.shape(dict2[next(iter(dict2.keys()))])[0]
 
         r = {}
 
         for key in dict1.keys() | dict2.keys():
             array1 = dict1[key] if key in dict1 else None
             array2 = dict2[key] if key in dict2 else None
-            r[key] = self._concatenate_array(array1, array2, array_length_dict1, array_length_dict2, backend1, backend2)
+            r[key] = self._concatenate_array(array1, array2, length1, length2, backend1, backend2)
         return r
 
 
@@ -213,6 +217,7 @@ class ExtraInfo(Serializable, UserDict):
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
         info._structured_storage = self._structured_storage.copy()
+        info._structured_length = self._structured_length
         info.data = self.data.copy()
             
         return info
@@ -229,6 +234,7 @@ class ExtraInfo(Serializable, UserDict):
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._key_mapping = self._key_mapping
         info._shape_mapping = self._shape_mapping
+        info._structured_length = self._get_view_length(index)
 
         if not copy:
             info._structured_storage = {key: value[index, ...] for key, value in self._structured_storage.items()}
@@ -246,11 +252,31 @@ class ExtraInfo(Serializable, UserDict):
         
         return info
     
+    def _get_view_length(self, index):
+        """
+        Compute the number of steps selected by the specified indexes
+
+        Args:
+            index (int, slice, ndarray, tensor): indexes of the selected steps
+
+        Returns:
+            int: number of selected steps
+        """
+        if self._structured_length == 0:
+            return 0
+        if isinstance(index, slice):
+            return len(range(self._structured_length)[index])
+        if isinstance(index, numbers.Number):
+            return 1
+
+        return int(index.sum()) if str(index.dtype).endswith('bool') else len(index)
+
     def clear(self):
         self._storage = []
         self._key_mapping = {}
         self._shape_mapping = {}
         self._structured_storage = {}
+        self._structured_length = 0
         self.data = {}
 
     def _add_all_save_attr(self):
@@ -261,6 +287,7 @@ class ExtraInfo(Serializable, UserDict):
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
+            _structured_length='primitive',
             _key_mapping='primitive',
             _shape_mapping='primitive'
         )
-- 
2.43.0

