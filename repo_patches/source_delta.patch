From 8392f18d206f5d383814ac88bd6ddf815245c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 01/58] fix: keep beam voltage and current when converting
 controls to the material frame

step_and_image rebuilt each control with the default voltage and current, so
the material and the observers saw 60 kV / 0.1 nA whatever was commanded.
---
 putting_dune/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..d561f16 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -138,7 +138,12 @@ class PuttingDuneSimulator:
           control.position
       )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          microscope_utils.BeamControl(
+              control_position,
+              control.dwell_time,
+              control.voltage_kv,
+              control.current_na,
+          )
       )
 
       for observer in self._observers:
-- 
2.43.0


From 540ab065f432bf13298d60c83536564a5c335976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 02/58] fix: no spurious transition in exposures longer than an
 hour

Waiting times were clipped to 3600 s, so any dwell of an hour or more produced
a transition per hour however small the rates were, and failed with NaN
probabilities when all rates were zero.
---
 putting_dune/graphene.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..ab56876 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -664,8 +664,10 @@ class PristineSingleDopedGraphene(Material):
       # by an exponential distribution, with the total rate as the
       # parameter. Scale is the inverse rate.
       transition_seconds = rng.exponential(scale=1.0 / rates.total_rate)
-      # Avoid np.inf when using very small rates. Clip arbitrarily to 1 hour.
-      transition_seconds = min(transition_seconds, 3600)
+      # Avoid np.inf when using very small rates. Clip to just after the end of
+      # the exposure, so that clipping never turns into a transition.
+      remaining_seconds = (control.dwell_time - elapsed_time).total_seconds()
+      transition_seconds = min(transition_seconds, remaining_seconds + 1.0)
       transition_time = dt.timedelta(seconds=transition_seconds)
       elapsed_time += transition_time
 
-- 
2.43.0


From 3ecee309b8e7c1cabeec60462ebe7a0f7a3e3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 03/58] fix: a failed reset no longer looks like a started
 episode

reset() cleared the requires-reset flag before doing the work that can raise
(material, goal sampling, features), so the next step() ran on a half-reset
environment with the previous goal instead of starting an episode.
---
 putting_dune/putting_dune_environment.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index ccee73b..6b96911 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -85,8 +85,8 @@ class PuttingDuneEnvironment(dm_env.Environment):
       self._action_adapter.rng = self._rng
 
   def reset(self) -> dm_env.TimeStep:
-    # We won't need to reset immediately.
-    self._requires_reset = False
+    # If anything below raises, there is no episode to continue.
+    self._requires_reset = True
 
     # Generate a realistic doped graphene configuration.
     self.last_microscope_observation = self.sim.reset(
@@ -101,13 +101,18 @@ class PuttingDuneEnvironment(dm_env.Environment):
     )
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
+    observation = self._feature_constructor.get_features(
+        self.last_microscope_observation, self.goal
+    )
+
+    # We won't need to reset immediately.
+    self._requires_reset = False
+
     return dm_env.TimeStep(
         step_type=dm_env.StepType.FIRST,
         reward=0.0,
         discount=discount,
-        observation=self._feature_constructor.get_features(
-            self.last_microscope_observation, self.goal
-        ),
+        observation=observation,
     )
 
   def step(self, action: np.ndarray) -> dm_env.TimeStep:
-- 
2.43.0


From 6e6d9b3ebc983bf6a1d0565b0aa930dc22a28cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 04/58] fix: evaluate detaches its observers when an episode
 fails

---
 putting_dune/eval_lib.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/putting_dune/eval_lib.py b/putting_dune/eval_lib.py
index 491c1af..29c482a 100644
--- a/putting_dune/eval_lib.py
+++ b/putting_dune/eval_lib.py
@@ -19,12 +19,13 @@ import datetime as dt
 import shutil
 import tempfile
 import time
-from typing import List, Optional, Sequence, Tuple
+from typing import List, Mapping, Optional, Sequence, Tuple
 
 from absl import logging
 import dm_env
 from etils import epath
 import frozendict
+from putting_dune import microscope_utils
 from putting_dune import plotting_utils
 from putting_dune import putting_dune_environment
 from putting_dune import simulator_observers
@@ -98,7 +99,6 @@ def evaluate(
     A list containing eval results, one for each seed in the eval_suite.
   """
   agent.set_mode(agent_lib.AgentMode.EVAL)
-  results = []
   observers = {}
 
   if video_save_dir is not None:
@@ -107,6 +107,32 @@ def evaluate(
   for observer in observers.values():
     env.sim.add_observer(observer)
 
+  try:
+    return _evaluate_seeds(
+        agent,
+        env,
+        eval_suite,
+        observers,
+        timeout=timeout,
+        video_save_dir=video_save_dir,
+    )
+  finally:
+    for observer in observers.values():
+      env.sim.remove_observer(observer)
+
+
+def _evaluate_seeds(
+    agent: agent_lib.Agent,
+    env: putting_dune_environment.PuttingDuneEnvironment,
+    eval_suite: EvalSuite,
+    observers: Mapping[str, microscope_utils.SimulatorObserver],
+    *,
+    timeout: dt.timedelta,
+    video_save_dir: Optional[str],
+) -> List[EvalResult]:
+  """Runs every seed of the suite. The observers are already attached."""
+  results = []
+
   for seed in eval_suite.seeds:
     logging.info('Evaluating seed %d', seed)
     num_actions_taken = 0
@@ -178,9 +204,6 @@ def evaluate(
         with (epath.Path(video_save_dir) / f'{seed}.gif').open('wb') as dest_f:
           shutil.copyfileobj(src_f, dest_f)
 
-  for observer in observers.values():
-    env.sim.remove_observer(observer)
-
   return results
 
 
-- 
2.43.0


From d5cdb73be04ffd8932890131c10b52e2c2291d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 05/58] fix: videos of episodes without any action can be
 rendered

---
 putting_dune/plotting_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..ad95a48 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -160,7 +160,8 @@ def generate_video_from_simulator_events(
   """Generates a video for the set of events."""
   grid: microscope_utils.AtomicGrid = None
   fov: microscope_utils.MicroscopeFieldOfView = None
-  control_position: np.ndarray = None
+  # No control has been applied yet: NaN coordinates are not drawn.
+  control_position: np.ndarray = np.full(2, np.nan)
   image: np.ndarray = None
   frames: List[Dict[str, Any]] = []
 
-- 
2.43.0


From ce5c42ee64e89b5c74956a71f72962330abf2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 06/58] fix: logging a rescan no longer crashes the session or
 evaluates the goal twice

---
 putting_dune/microscope_agent.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..b5c671d 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -47,6 +47,8 @@ class MicroscopeAgent:
     self.action_adapter = adapters_and_goal.action_adapter
     self.feature_constructor = adapters_and_goal.feature_constructor
     self.goal = adapters_and_goal.goal
+    # The goal's verdict on the last observation. None if it was a rescan.
+    self.last_goal_return: goals.GoalReturn | None = None
     self._is_first_step = True
 
   def reset(
@@ -66,6 +68,7 @@ class MicroscopeAgent:
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     """Steps the agent."""
+    self.last_goal_return = None
     try:
       features = self.feature_constructor.get_features(observation, self.goal)
       goal_return = self.goal.calculate_reward_and_terminal(observation)
@@ -82,6 +85,7 @@ class MicroscopeAgent:
           )
       ]
 
+    self.last_goal_return = goal_return
     elapsed_seconds = observation.elapsed_time.total_seconds()
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
@@ -243,9 +247,12 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    goal_return = self.__wrapped__.last_goal_return
+    if goal_return is None:
+      # The agent found no silicon, and asked for a rescan.
+      goal_return = goals.GoalReturn(
+          reward=0.0, is_terminal=False, is_truncated=False
+      )
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From a3225000c36aa149fd8bcfd14aa6e2bf61661575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 07/58] fix: flushing the session log again does not duplicate
 the open episode

---
 putting_dune/microscope_agent.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index b5c671d..ccd34ed 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -192,17 +192,19 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # The episode in progress is written, but stays open: flushing again, for
+    # instance after a failure, must not log it twice.
+    trajectories = list(self._trajectories)
     if self._current_trajectory:
-      self._trajectories.append(
-          microscope_utils.Trajectory(self._current_trajectory)
-      )
+      trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
+    episode_records = list(self._episode_records)
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -220,7 +222,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 7dee72fef2dc3b6651a5b88aff144af8a5b679d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 08/58] fix: episode log rows carry the id of the episode they
 describe

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index ccd34ed..ebb7d03 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -231,8 +231,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From 0af22049e51ea8b3ec29bd67a69b620236a4a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 09/58] fix: drifts read back from storage keep their
 fractional part

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..7095b45 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From c119cd3739df171a505b8b6c5e498c428d9de674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 10/58] fix: transitions store label images that come without
 microscope images

---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 7095b45..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From 6f943658a8b318e24b7392931e3728c8f7554132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 11/58] fix: align: read the records directories it is given

---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..98d2e73 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = sorted(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From d3ab86df02da8d90e2f7599a0f1a360327cadd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 12/58] fix: train_rate_learner: load directories in a fixed
 order

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..704e95d 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -642,7 +642,7 @@ def load_trajectories_from_records(
   if isinstance(path, collections.abc.Sequence):
     files = path
   elif path.is_dir():
-    files = path.iterdir()
+    files = sorted(path.iterdir())
   else:
     files = [path]
 
-- 
2.43.0


From 93df50165ce27d6bd35b85cd9206c1484029454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 13/58] fix: train_rate_learner: plot transitions without
 crashing

---
 putting_dune/pipeline/train_rate_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 704e95d..825cc70 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -263,8 +263,8 @@ def plot_transition(
     position = neighbor_positions[neighbor_order[i] + 1]
     position = fov_before.material_frame_to_microscope_frame(position)
     plt.scatter(
-        imsize[0] * position[0],
-        imsize[1] - imsize[1] * position[1],
+        imsize * position[0],
+        imsize - imsize * position[1],
         marker='x' if i + 1 == next_state else '+',
         label='Neighbor {}'.format(i + 1),
     )
-- 
2.43.0


From 344a680bc3dd1fa29ec5b640d820b530f2a5212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 14/58] fix: bootstrap_dataset: allow a sample that leaves
 nothing out

---
 putting_dune/rate_learning/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..abe7742 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -320,7 +320,7 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  test_indices = np.array(list(test_indices), dtype=np.int32)
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From f14a44f50be45aaadff2db4a4d43fcbfc4b4b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 15/58] fix: align_latest: do not change the initial shift or
 its default

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..b57487e 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,7 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    cumulative_drift = np.array(init_shift, dtype=float)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From d6a07bd2bbe6543c2c8969723be71646173ce441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 16/58] fix: naive_merge: do not change the merged observations

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index b57487e..3689020 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -801,7 +801,7 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  positions = coordinates[0].copy()
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From 53eac697d9524b5a8146fcd701020101a4d128bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 17/58] fix: unpack downloaded models completely or not at all

A download that failed half way left an empty or partial model directory
behind, which every later run took for the model; and two processes loading
agents at once overwrote each other's archive.
---
 putting_dune/alignment.py            |  7 +++---
 putting_dune/atom_detector.py        |  7 +++---
 putting_dune/experiments/registry.py | 25 +++++++++-----------
 putting_dune/io.py                   | 34 +++++++++++++++++++++++++++-
 4 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 3689020..87e0d77 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -19,7 +19,6 @@ import copy
 import functools
 import typing
 from typing import Any, Deque, Optional, Sequence, Tuple
-import zipfile
 
 import cv2
 from etils import epath
@@ -27,6 +26,7 @@ import networkx as nx
 import numpy as np
 from putting_dune import constants
 from putting_dune import geometry
+from putting_dune import io as pdio
 from putting_dune import microscope_utils
 import scipy.spatial
 import scipy.stats
@@ -481,10 +481,9 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
+      model_path.parent.mkdir(parents=True, exist_ok=True)
       with path.open('rb') as model_zip_fp:
-        with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+        pdio.extract_model(model_zip_fp, model_path, replace=True)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..b0f1a88 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -18,13 +18,13 @@ import functools
 import io
 from typing import Any, List, Tuple
 import urllib
-import zipfile
 
 import cv2
 from etils import epath
 import numpy as np
 import numpy.typing as npt
 from putting_dune import constants
+from putting_dune import io as pdio
 from putting_dune import microscope_utils
 import tensorflow as tf
 
@@ -108,10 +108,9 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
+      model_path.parent.mkdir(parents=True, exist_ok=True)
       with urllib.request.urlopen(url) as request:
-        with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+        pdio.extract_model(io.BytesIO(request.read()), model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..0d749c3 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -17,9 +17,9 @@
 import dataclasses
 import datetime as dt
 import functools
+import tempfile
 from typing import Callable, Optional, Tuple
 import urllib.request
-import zipfile
 
 from absl import logging
 from etils import epath
@@ -30,6 +30,7 @@ from putting_dune import constants
 from putting_dune import feature_constructors
 from putting_dune import goals
 from putting_dune import graphene
+from putting_dune import io as pdio
 from putting_dune.agents import agent_lib
 from putting_dune.agents import tf_eval_agent
 from putting_dune.experiments import experiments
@@ -93,19 +94,15 @@ class _TfAgentCreator:
     # Download the file if necessary.
     if not model_path.exists():
       logging.info("Couldn't find agent checkpointing. Downloading...")
-      zip_path = model_weights_path / 'tmp.zip'
-      zip_path_str = str(zip_path)
-      urllib.request.urlretrieve(
-          self.download_url,
-          zip_path_str,
-      )
-
-      logging.info('Unzipping agent checkpoint...')
-      with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
-
-      # Delete the zip file.
-      zip_path.unlink()
+      with tempfile.TemporaryDirectory(dir=model_weights_path) as tmpdir:
+        zip_path = epath.Path(tmpdir) / 'tmp.zip'
+        urllib.request.urlretrieve(
+            self.download_url,
+            str(zip_path),
+        )
+
+        logging.info('Unzipping agent checkpoint...')
+        pdio.extract_model(zip_path, model_path)
 
     agent = tf_eval_agent.TfEvalAgent(str(model_path))
     logging.info('Agent loaded!')
diff --git a/putting_dune/io.py b/putting_dune/io.py
index e5e531f..2f35831 100644
--- a/putting_dune/io.py
+++ b/putting_dune/io.py
@@ -15,8 +15,10 @@
 """IO Utilities."""
 import contextlib
 import os
+import tempfile
 import typing
-from typing import Iterable, Iterator, Literal, Type, TypeVar
+from typing import BinaryIO, Iterable, Iterator, Literal, Type, TypeVar
+import zipfile
 
 from etils import epath
 from putting_dune import microscope_utils
@@ -80,3 +82,33 @@ def write_records(
       match writer:
         case tf.io.TFRecordWriter():
           writer.write(record)
+
+
+def extract_model(
+    archive: PathLike | BinaryIO, model_path: PathLike, replace: bool = False
+) -> None:
+  """Unpacks a zipped model directory, completely or not at all.
+
+  The archive is unpacked next to its destination and only moved into place once
+  it is complete, so that an interrupted call is never mistaken for a model.
+
+  Args:
+    archive: Zip file (or path to one) with a directory named like model_path.
+    model_path: Directory to create.
+    replace: Whether to replace the model that is there already, if any.
+  """
+  model_path = epath.Path(model_path)
+  with tempfile.TemporaryDirectory(
+      dir=model_path.parent, ignore_cleanup_errors=True
+  ) as tmpdir:
+    unpacked = epath.Path(tmpdir) / 'unpacked'
+    with zipfile.ZipFile(archive) as model_zip:
+      model_zip.extractall(unpacked)
+    if replace and model_path.exists():
+      model_path.rename(epath.Path(tmpdir) / 'replaced')
+    try:
+      (unpacked / model_path.name).rename(model_path)
+    except OSError:
+      # Another process may have been faster.
+      if not model_path.exists():
+        raise
-- 
2.43.0


From c8c9050fc49cb0b5db8d05a411662f7bf2321113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 18/58] fix: HumanPriorRatePredictor: aim at the neighbor, not
 its mirror image

The prior was rotated by minus the angle of the neighbor, so a beam placed
on its mean made the silicon move to another neighbor.
---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index ab56876..705df81 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,9 +220,12 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      # The prior is given for a neighbor at angle 0: turn the beam there.
+      canonical_beam_position = geometry.rotate_coordinates(
+          relative_beam_position, -angle
+      )
       rate = single_silicon_prior_rates(
-          relative_beam_position, rotated_mean, self.cov, self.max_rate
+          canonical_beam_position, self.mean, self.cov, self.max_rate
       )
       rates[i] = np.asarray(rate)
 
-- 
2.43.0


From b1021877ec83fbe92e7e0986bd25baf648904ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 19/58] fix: generate_synthetic_data: number neighbors
 counter-clockwise

Rates were computed for clockwise neighbors and then rotated and labelled
as counter-clockwise ones, so two thirds of the examples were wrong.
---
 putting_dune/rate_learning/data_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index abe7742..64cfff2 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -249,8 +249,13 @@ def generate_synthetic_data(
         constants.SIGR_PRIOR_RATE_COV * 1.5,
     )
     context = jax.random.normal(context_key, shape=(context_dim,))
+    # The n-th neighbor is n steps counter-clockwise, so its prior is found by
+    # rotating the position n steps clockwise.
+    rotated_positions = get_all_position_rotations(
+        position, num_states=num_states
+    )[-jnp.arange(num_states)]
     rates = graphene.single_silicon_prior_rates(  # pytype: disable=wrong-arg-types  # jnp-type
-        get_all_position_rotations(position, num_states=num_states),
+        rotated_positions,
         mean=constants.SIGR_PRIOR_RATE_MEAN,
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
-- 
2.43.0


From ade47b9b4b9ceb6aa05015cce88453b89b00907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 20/58] fix: ImageFeatureConstructor: report a lost silicon as
 such

Image observations without exactly one silicon crashed with a reshape
error, where the other features raise SiliconNotFoundError (upon which the
agent rescans) or use the silicon nearest the center.
---
 putting_dune/feature_constructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..cf07d39 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid).reshape(2)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
-- 
2.43.0


From bb5a98891266d4e31dc4348f87164160b8d9087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 21/58] fix: compute_centroids: report every blob once, where
 it is

Distances were converted to eight bits with wrap-around, which tore holes
into blobs and reported them several times; blobs without area were
reported in the corner of the image.
---
 putting_dune/atom_detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index b0f1a88..ac5c604 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -51,7 +51,8 @@ def compute_centroids(
 
   # Perform distance transform on the masked image
   dists = cv2.distanceTransform(masked, cv2.DIST_L2, cv2.DIST_MASK_PRECISE)
-  dists = (dists * 255).astype(np.uint8)
+  # Saturate: distances of more than one pixel don't fit into eight bits.
+  dists = np.minimum(dists * 255, 255).astype(np.uint8)
 
   # Threshold the distances by the threshold value.
   _, dists = cv2.threshold(dists, threshold_value, 255, cv2.THRESH_BINARY)
@@ -71,7 +72,8 @@ def compute_centroids(
       c_x = int(m["m10"] / m["m00"])
       c_y = int(m["m01"] / m["m00"])
     else:
-      c_x, c_y = 0, 0
+      # The contour encloses no area, e.g. it is a single pixel.
+      c_x, c_y = np.mean(contour.reshape(-1, 2), axis=0).astype(int)
 
     # Normalize centroid values so that 0,0 is bottom left and 1,1 is top right
     centroids.append((c_x / 256, 1.0 - c_y / 256))
-- 
2.43.0


From a4cbb8b7341236a79d06bbc28929b286bb28629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 22/58] fix: AtomDetector: allow images without carbon or
 without silicon

Concatenating the positions failed if one of the elements was not found.
---
 putting_dune/atom_detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index ac5c604..5a914c3 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -176,9 +176,9 @@ class AtomDetector:
 
     return microscope_utils.AtomicGridMicroscopeFrame(
         microscope_utils.AtomicGrid(
-            atom_positions=np.concatenate(
-                [carbon_centroids, silicon_centroids]
-            ),
+            atom_positions=np.asarray(
+                carbon_centroids + silicon_centroids
+            ).reshape(-1, 2),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
             ),
-- 
2.43.0


From 00aefc5dbd1ed0dacd50c4487119980c8a97fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 23/58] fix: AtomDetector: mask silicon probabilities by value,
 not by bit

The bitwise xor of two floats turns a silicon probability of zero into one
where there is carbon.
---
 putting_dune/atom_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 5a914c3..fbf13e2 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -160,7 +160,7 @@ class AtomDetector:
     # Mask the silicon segmentation with the dilated carbon segmentation.
 
     # Mask out any silicon that overlaps with likely carbon
-    masked_silicon_probs = cv2.bitwise_xor(silicon_probs, dilated_carbon_probs)
+    masked_silicon_probs = np.where(dilated_carbon_probs > 0, 0, silicon_probs)
 
     # Find the centroids for both the carbon and silicon layers
     carbon_centroids = compute_centroids(carbon_probs.astype(np.uint8), 1, 25)
-- 
2.43.0


From c25639c51813ae5d52e6869ca941954b3246ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 24/58] fix: rate predictors are stored with their
 normalization statistics

Only the parameters were stored, so that a loaded predictor applied them with
the normalization statistics it was initialized with, and a distilled one could
not be used at all.
---
 putting_dune/rate_learning/learn_rates.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..1395daa 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -843,7 +843,11 @@ class LearnedTransitionRatePredictor:
     epath.Path(save_dir).mkdir(parents=True, exist_ok=True)
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
-      f.write(flax.serialization.to_bytes(self.params))
+      f.write(
+          flax.serialization.to_bytes(
+              {'params': self.params, 'state': self.state}
+          )
+      )
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -871,7 +875,17 @@ class LearnedTransitionRatePredictor:
       checkpoint_path = os.path.join(load_dir, str(step) + '.ckpt')
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
-        self.params = flax.serialization.from_bytes(self.params, f.read())
+        checkpoint = flax.serialization.msgpack_restore(f.read())
+      if checkpoint.keys() != {'params', 'state'}:
+        # Older checkpoints contain the parameters only.
+        checkpoint = {'params': checkpoint}
+      else:
+        self.state = flax.serialization.from_state_dict(
+            self.state, checkpoint['state']
+        )
+      self.params = flax.serialization.from_state_dict(
+          self.params, checkpoint['params']
+      )
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From 1d605d33dff01888a175a8a7ce232b4e4030b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 25/58] fix: rate predictors of several models can be packaged
 and saved

---
 putting_dune/rate_learning/learn_rates.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 1395daa..f8c53b2 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -99,6 +99,11 @@ def get_mlp_fn(
   return hk.transform_with_state(call_mlp)
 
 
+def _per_neighbor_rates(outputs: jnp.ndarray) -> jnp.ndarray:
+  """Converts network outputs (logits and a total rate) to rates."""
+  return jax.nn.softmax(outputs[..., :-1], axis=-1) * outputs[..., -1:]
+
+
 def batched_loss_fn(
     params: Params,
     network_state: State,
@@ -727,9 +732,7 @@ class LearnedTransitionRatePredictor:
       )
       rates = rates[None]
 
-    total_rate = rates[..., -1:]
-    weights = jax.nn.softmax(rates[..., :-1], axis=-1)
-    return (total_rate * weights).mean(0)
+    return _per_neighbor_rates(rates).mean(0)
 
   def train(
       self,
@@ -914,6 +917,12 @@ class LearnedTransitionRatePredictor:
       rates, _ = self.batch_apply(
           self.params, self.state, context, self.rng, False
       )
+      if rates.shape[0] > 1:
+        # Average the models of an ensemble, in the representation of one.
+        mean_rates = _per_neighbor_rates(rates).mean(0, keepdims=True)
+        rates = jnp.concatenate(
+            [jnp.log(mean_rates), mean_rates.sum(-1, keepdims=True)], axis=-1
+        )
       return jnp.squeeze(rates, axis=0)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
-- 
2.43.0


From e99a0412c0b1c9453ba2e273aba78ced09e8ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 26/58] fix: rate predictors can predict: context, units, rates

With the default configuration (current and voltage in the context) predicting
failed; otherwise it passed the beam position in bond lengths to networks
trained with angstroms, and returned the network outputs, of which the rates
are only computed, as the rates. Models saved with a fixed context take no
context.
---
 putting_dune/rate_learning/learn_rates.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index f8c53b2..ff069bb 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -31,7 +31,6 @@ import matplotlib.pyplot as plt
 from ml_collections import config_dict
 import numpy as np
 import optax
-from putting_dune import constants
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
@@ -975,18 +974,21 @@ class LearnedTransitionRatePredictor:
     neighbor_positions = grid.atom_positions[neighbor_indices, :]
     neighbor_positions = neighbor_positions - current_position
     beam_pos = beam_pos - current_position
-    beam_pos = beam_pos / constants.CARBON_BOND_DISTANCE_ANGSTROMS
     new_beam_pos, _, neighbor_order = data_utils.standardize_beam_and_neighbors(
         beam_pos,
         neighbor_positions,
     )
     context = new_beam_pos
-    if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
-    if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
-
-    rates = np.asarray(self.packaged_model(context))[0]
+    # A model packaged with a fixed context takes the beam position only.
+    num_inputs = self.packaged_model.__call__.input_signature[0].shape[-1]
+    if num_inputs > context.shape[-1]:
+      if self.config.use_voltage:
+        context = np.concatenate([[[voltage_kv]], context], axis=-1)
+      if self.config.use_current:
+        context = np.concatenate([[[current_na]], context], axis=-1)
+
+    outputs = np.asarray(self.packaged_model(context.astype(np.float32)))
+    rates = np.asarray(_per_neighbor_rates(outputs))[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From 39c65b7210fd7a986c371f82344be276eb548857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 27/58] fix: rate predictors predict with the latest model

The model packaged for an earlier prediction was used even after the predictor
had been trained or distilled since.
---
 putting_dune/rate_learning/learn_rates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index ff069bb..4567c04 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -749,6 +749,7 @@ class LearnedTransitionRatePredictor:
     Returns:
       Training metrics.
     """
+    self._discard_packaged_model()
     self.rng, data_key, train_key = jax.random.split(key, 3)
     optim = optax.adamw(
         self.config.learning_rate, weight_decay=self.config.weight_decay
@@ -798,6 +799,7 @@ class LearnedTransitionRatePredictor:
         self.config.learning_rate, weight_decay=self.config.weight_decay
     )
 
+    self._discard_packaged_model()
     data_mean = np.concatenate(
         [train_data['context'].mean(0), train_data['position'].mean(0)], 0
     )
@@ -897,6 +899,10 @@ class LearnedTransitionRatePredictor:
       config = config_dict.ConfigDict(config_json)
       self.config = config_dict.FrozenConfigDict(config)
 
+  def _discard_packaged_model(self) -> None:
+    """Makes predict package the model again, once it has changed."""
+    self.__dict__.pop('packaged_model', None)
+
   def package_model(self, fixed_context: Optional[np.ndarray] = None) -> None:
     """Packages the rate predictor network into a Tensorflow saved model."""
 
-- 
2.43.0


From 29656eea99475afb6b7db16cfb9bc382d40a5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 28/58] fix: the scikit-learn MLP accepts the learning rate it
 is given

MLPClassifier's learning_rate is the name of a schedule.
---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 825cc70..67cef4f 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -131,7 +131,7 @@ def get_sklearn_classifier(
     model = sknn.MLPClassifier(
         alpha=config.weight_decay,
         max_iter=config.epochs,
-        learning_rate=config.learning_rate,
+        learning_rate_init=config.learning_rate,
         **kwargs,
     )
   elif learner_type == LearnerType.KNN:
-- 
2.43.0


From e9bc6e3ee94632544a8cb78be54c68a492db0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 29/58] fix: classification networks expect the dwell time in
 their context

They are trained with it, but could not be saved.
---
 putting_dune/pipeline/train_rate_learner.py | 8 ++++++--
 putting_dune/rate_learning/learn_rates.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 67cef4f..f571c33 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -670,11 +670,12 @@ def main(args: Args) -> None:
     counts[t['next_state']] += 1
   print(counts, flush=True)
 
+  dwell_time_in_context = args.learner_type != LearnerType.RATE_NETWORK
   stacked_data = stack_data(
       processed_transitions,
       use_current=args.use_current,
       use_voltage=args.use_voltage,
-      dwell_time_in_context=args.learner_type != LearnerType.RATE_NETWORK,
+      dwell_time_in_context=dwell_time_in_context,
   )
 
   rng_key = jax.random.PRNGKey(args.seed)
@@ -702,7 +703,10 @@ def main(args: Args) -> None:
       ),
   )
 
-  frozen_config = config_dict.FrozenConfigDict(dataclasses.asdict(args))
+  frozen_config = config_dict.FrozenConfigDict({
+      **dataclasses.asdict(args),
+      'dwell_time_in_context': dwell_time_in_context,
+  })
 
   if (
       args.learner_type == LearnerType.RATE_NETWORK
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 4567c04..5f4b3bd 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -676,7 +676,12 @@ class LearnedTransitionRatePredictor:
         batchnorm=config.batchnorm,
         dropout_rate=config.dropout_rate,
     )
-    self.context_dim = position_dim + config.use_current + config.use_voltage
+    self.context_dim = (
+        position_dim
+        + config.use_current
+        + config.use_voltage
+        + config.get('dwell_time_in_context', False)
+    )
     self.rng, *keys = jax.random.split(init_key, self.num_models + 1)
     all_params = []
     all_states = []
-- 
2.43.0


From 123b82b306860e105e92881e54de5b8622062ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 30/58] fix: rates can be learned without any context

Training without currents and voltages failed in several places.
---
 putting_dune/pipeline/train_rate_learner.py | 12 ++++++------
 putting_dune/rate_learning/data_utils.py    |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index f571c33..dc46f48 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -678,6 +678,9 @@ def main(args: Args) -> None:
       dwell_time_in_context=dwell_time_in_context,
   )
 
+  if stacked_data['context'] is None:
+    stacked_data['context'] = np.zeros((len(processed_transitions), 0))
+
   rng_key = jax.random.PRNGKey(args.seed)
 
   if args.learner_type != LearnerType.RATE_NETWORK:
@@ -823,12 +826,9 @@ def main(args: Args) -> None:
 
     rate_prediction_function = lambda x: ensemble.predict_proba(x)[..., 1:]
 
-  if stacked_data['context'] is not None:
-    min_context = stacked_data['context'].min(axis=0)
-    max_context = stacked_data['context'].max(axis=0)
-    avg_context = np.median(stacked_data['context'], axis=0)
-  else:
-    min_context = max_context = avg_context = None
+  min_context = stacked_data['context'].min(axis=0)
+  max_context = stacked_data['context'].max(axis=0)
+  avg_context = np.median(stacked_data['context'], axis=0)
 
   if args.visualize_rates:
     learn_rates.visualize_rates(
diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 64cfff2..bf72f36 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -144,7 +144,9 @@ def rotate_dataset(
       states, times, rates, position, context
   )
   if context is not None:
-    rot_context = rot_context.reshape(-1, *context.shape[1:])
+    rot_context = rot_context.reshape(
+        num_states * context.shape[0], *context.shape[1:]
+    )
 
   return (
       rot_states.reshape(-1, *states.shape[1:]),
-- 
2.43.0


From cc26373cc8a4caafbb8b200c7a9798a75822b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 31/58] fix: rate learning pairs each synthetic example with
 its own label

Labels and times of synthetic data have a trailing dimension, so that every
example was paired with the labels and times of all of them, and rates could
not be learned.
---
 putting_dune/rate_learning/learn_rates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 5f4b3bd..049ce5b 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -134,6 +134,11 @@ def batched_loss_fn(
   Returns:
     Mean loss, tuple of (predicted rates, rate loss, classification loss).
   """
+  # Synthetic data comes with a trailing dimension, which must not broadcast.
+  next_state = next_state.reshape(-1)
+  elapsed_time = elapsed_time.reshape(-1)
+  did_transition = did_transition.reshape(-1)
+
   predicted_rates, network_state = apply_fn(
       params, network_state, key, context, is_training
   )
-- 
2.43.0


From b5446699235c43780478de8c02cc19c26ca253bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 32/58] fix: rate predictors can predict before they were saved
 and loaded

---
 putting_dune/rate_learning/learn_rates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 049ce5b..8fc330c 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -996,14 +996,16 @@ class LearnedTransitionRatePredictor:
     )
     context = new_beam_pos
     # A model packaged with a fixed context takes the beam position only.
-    num_inputs = self.packaged_model.__call__.input_signature[0].shape[-1]
+    # (Modules that were not loaded can't be called like functions.)
+    packaged_fn = self.packaged_model.__call__
+    num_inputs = packaged_fn.input_signature[0].shape[-1]
     if num_inputs > context.shape[-1]:
       if self.config.use_voltage:
         context = np.concatenate([[[voltage_kv]], context], axis=-1)
       if self.config.use_current:
         context = np.concatenate([[[current_na]], context], axis=-1)
 
-    outputs = np.asarray(self.packaged_model(context.astype(np.float32)))
+    outputs = np.asarray(packaged_fn(context.astype(np.float32)))
     rates = np.asarray(_per_neighbor_rates(outputs))[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
-- 
2.43.0


From d2765989dffe2067e685f296ff2e312ff3e7a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 33/58] fix: masks of images that are not square

The mask was allocated as (width, height) while the pixel grid it is indexed
with is (height, width), so that masks of non-square images raised.
---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From 99765d0166b68305a1aeae007dd64463ad8d642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 34/58] fix: atoms are round in images of fields of view that
 are not square

The spread of an atom along the rows was computed from the height of the
field of view and the spread along the columns from its width.
---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..68c4454 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The first axis of the image is y.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From b485fec4f73f132680366dc233ae836e671ea3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 35/58] fix: images without any atoms are blank rather than NaN

Normalizing an image divided by its maximum, which is zero if there is no
atom in the field of view (or if no electron was counted).
---
 putting_dune/imaging.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 68c4454..e21d49b 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -72,6 +72,12 @@ def sample_noisy_image_parameters(
   )
 
 
+def _normalize(image: np.ndarray) -> np.ndarray:
+  """Scales an image to a maximum of 1; blank images stay blank."""
+  maximum = np.max(image)
+  return image / maximum if maximum > 0.0 else image
+
+
 def generate_grid_mask(
     grid: microscope_utils.AtomicGrid,
     fov: microscope_utils.MicroscopeFieldOfView,
@@ -169,7 +175,7 @@ def generate_clean_image(
   ]
 
   # Normalize
-  image = image / np.max(image)
+  image = _normalize(image)
 
   return image
 
@@ -201,7 +207,7 @@ def apply_poisson_noise(
     image: np.ndarray, poisson_rate_multiplier: float, rng: np.random.Generator
 ) -> np.ndarray:
   image = rng.poisson(image * poisson_rate_multiplier)
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_salt_and_pepper_noise(
@@ -212,7 +218,7 @@ def apply_salt_and_pepper_noise(
 
 def apply_blur(image: np.ndarray, amount: float) -> np.ndarray:
   image = ndimage.gaussian_filter(image, amount)
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_contrast(image: np.ndarray, gamma: float) -> np.ndarray:
@@ -226,7 +232,7 @@ def apply_exponential_noise(
 ) -> np.ndarray:
   noise = rng.exponential(noise_scale, size=image.shape)
   image = image + noise
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_uniform_noise(
@@ -234,7 +240,7 @@ def apply_uniform_noise(
 ) -> np.ndarray:
   noise = rng.uniform(0.0, noise_scale, size=image.shape)
   image = image + noise
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def generate_stem_image(
-- 
2.43.0


From ff5dfdfb132193fa8547c105c0650d86d038d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 36/58] fix: recorded beam positions stay in the microscope
 frame

The controls of an observation are in the microscope frame, which is what
rate learning converts from. Beam positions of uploaded recordings had been
converted to the material frame, and were converted once more when used.
---
 putting_dune/pipeline/upload_microscope_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index e6eccd6..14df6ec 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -170,7 +170,6 @@ def convert_dataset_to_proto(
       beam_loc = geometry.PointMicroscopeFrame(
           geometry.Point(beam_loc[0], beam_loc[1])
       )
-      beam_loc = fov.microscope_frame_to_material_frame(beam_loc)
       beam_control = (
           microscope_utils.BeamControl(
               beam_loc,
-- 
2.43.0


From a7cf53d12939233c758af2ac0407ccc422415bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 37/58] fix: recordings in directories with dots don't
 overwrite each other

with_suffix replaced everything after the last dot of the name, so that for
example all recordings of a month (2022.10.05-scan1, 2022.10.06-scan3) were
uploaded as 2022.10.riegeli, each replacing the one before.
---
 putting_dune/pipeline/upload_microscope_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 14df6ec..8e2ae4c 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -219,7 +219,8 @@ def main(args: Args) -> None:
                 dataset_path.relative_to(args.directory).parts,
             )
         )
-    ).with_suffix('.riegeli')
+        + '.riegeli'
+    )
     pbar.set_postfix_str(filename)
 
     # Load dataset
-- 
2.43.0


From 643af82018687caa12c5588205c42dc56a1edc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 38/58] fix: one unreadable recording doesn't end an upload

Recordings that can't be loaded are reported and skipped, but only if loading
them raised a ValueError: a truncated or missing file ended the whole upload.
---
 putting_dune/pipeline/upload_microscope_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 8e2ae4c..f0dcf51 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -226,7 +226,7 @@ def main(args: Args) -> None:
     # Load dataset
     try:
       dataset = load_dataset(dataset_path)
-    except ValueError as e:
+    except Exception as e:  # pylint: disable=broad-except
       print(
           termcolor.colored(
               f'Failed to load dataset {dataset_path}: {e}', 'red'
-- 
2.43.0


From 95b84c3a35fde4e5108d900ebc3f5f91afa1c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 39/58] fix: ensembles of classifiers that saw different states
 can predict

Bootstrapped members need not all see every state, and then predict
probabilities for different sets of states, which the ensemble could neither
stack nor average.
---
 putting_dune/pipeline/train_rate_learner.py |  2 +-
 putting_dune/rate_learning/learn_rates.py   | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index dc46f48..78e3a84 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -807,7 +807,7 @@ def main(args: Args) -> None:
         'train_accuracy': np.stack([train_accuracies], axis=0),
         'test_accuracy': np.stack([test_accuracies], axis=0),
     }
-    ensemble = skensemble.VotingClassifier(
+    ensemble = learn_rates.ClassifierEnsemble(
         [(f'{args.learner_type}_{i}', models[i]) for i in range(len(models))],
         voting='soft',
     )
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 8fc330c..a01ec0e 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -34,6 +34,7 @@ import optax
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
+from sklearn import ensemble as skensemble
 import tensorflow as tf
 
 rate_learning_defaults = config_dict.FrozenConfigDict({
@@ -1015,6 +1016,22 @@ class LearnedTransitionRatePredictor:
     return rates
 
 
+class ClassifierEnsemble(skensemble.VotingClassifier):
+  """An ensemble of classifiers that may have seen different states."""
+
+  # Staying in place, or transitioning to one of three neighbors.
+  num_classes = 4
+
+  def _collect_probas(self, X):  # pylint: disable=invalid-name
+    probabilities = []
+    for model in self.estimators_:
+      model_probabilities = model.predict_proba(X)
+      aligned = np.zeros((model_probabilities.shape[0], self.num_classes))
+      aligned[:, model.classes_.astype(int)] = model_probabilities
+      probabilities.append(aligned)
+    return np.asarray(probabilities)
+
+
 def visualize_rates(
     save_path: Optional[str],
     predict_rates: Callable[[np.ndarray], np.ndarray],
-- 
2.43.0


From 9d8ad930bdfa320df6bfc934434306aa33330e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 40/58] fix: support vector machines predict probabilities, as
 their ensembles need

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 78e3a84..9e802c2 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -145,7 +145,7 @@ def get_sklearn_classifier(
         max_depth=5, n_estimators=10, **kwargs
     )
   elif learner_type == LearnerType.SVM:
-    model = sksvm.SVC(gamma=2, C=1, **kwargs)
+    model = sksvm.SVC(gamma=2, C=1, probability=True, **kwargs)
   else:
     raise ValueError('Invalid learner type specified.')
 
-- 
2.43.0


From 3118b1dc2988037ac4ade40a4756fbef89b35667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 41/58] fix: environments can be rendered after a step

---
 putting_dune/putting_dune_environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index 6b96911..cb6f0c2 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -175,7 +175,9 @@ class PuttingDuneEnvironment(dm_env.Environment):
     # TODO(joshgreaves): beam_position lags by 1 timestep.
     previous_controls = self.last_microscope_observation.controls
     if previous_controls:
-      beam_position = np.asarray(previous_controls[-1].position.coords)
+      beam_position = np.asarray(
+          previous_controls[-1].position.coords
+      ).reshape(-1)
     else:
       beam_position = None
 
-- 
2.43.0


From 1f7bada73eb73c346ebbec66a7d30f9cfa81012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 42/58] fix: rendering an environment doesn't leave its figure
 open

---
 putting_dune/putting_dune_environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index cb6f0c2..da65447 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -199,4 +199,5 @@ class PuttingDuneEnvironment(dm_env.Environment):
     fig.canvas.draw()
     img = np.frombuffer(fig.canvas.tostring_rgb(), dtype=np.uint8)
     img = img.reshape(fig.canvas.get_width_height()[::-1] + (3,))
+    plt.close(fig)
     return img
-- 
2.43.0


From e19f9696bb50c7ff65f67219398d1a63706a3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 43/58] fix: evaluation doesn't leave the figures of its videos
 open

---
 putting_dune/eval_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/eval_lib.py b/putting_dune/eval_lib.py
index 29c482a..9271390 100644
--- a/putting_dune/eval_lib.py
+++ b/putting_dune/eval_lib.py
@@ -25,6 +25,7 @@ from absl import logging
 import dm_env
 from etils import epath
 import frozendict
+from matplotlib import pyplot as plt
 from putting_dune import microscope_utils
 from putting_dune import plotting_utils
 from putting_dune import putting_dune_environment
@@ -203,6 +204,7 @@ def _evaluate_seeds(
 
         with (epath.Path(video_save_dir) / f'{seed}.gif').open('wb') as dest_f:
           shutil.copyfileobj(src_f, dest_f)
+        plt.close(anim._fig)  # pylint: disable=protected-access
 
   return results
 
-- 
2.43.0


From bba3374d26f7b67820cac8052a5c86478b01b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 44/58] fix: the clock of videos carries rounded hundredths
 over

---
 putting_dune/plotting_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index ad95a48..7286148 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -33,10 +33,8 @@ _SimulatorEventType = simulator_observers.SimulatorEventType
 
 
 def format_timedelta(delta: dt.timedelta) -> str:
-  total_seconds = delta.total_seconds()
-  minutes = int(total_seconds) // 60
-  seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  total_seconds, remainder = divmod(round(delta.total_seconds() * 100), 100)
+  minutes, seconds = divmod(total_seconds, 60)
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From 5c5cbfa9a17b35616a9b03146d2021869c2b380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 45/58] fix: the greedy agent searches within bounds given per
 axis

---
 putting_dune/agents/agent_lib.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/putting_dune/agents/agent_lib.py b/putting_dune/agents/agent_lib.py
index 398ae09..9ab7837 100644
--- a/putting_dune/agents/agent_lib.py
+++ b/putting_dune/agents/agent_lib.py
@@ -149,11 +149,19 @@ class GreedyAgent(Agent):
       The approximate argmax of the transition function with respect to
       transitioning to neighbor 0.
     """
-    num_points = int((self._high - self._low) // resolution)
-    points_1d = np.linspace(self._low, self._high, num_points, dtype=np.float32)
-    points_x = np.tile(points_1d[None], (num_points, 1))
-    points_y = np.tile(points_1d[:, None], (1, num_points))
-    points = np.stack([points_x, points_y], axis=-1)
+    # The bounds may be given per axis.
+    low = np.broadcast_to(self._low, (2,))
+    high = np.broadcast_to(self._high, (2,))
+    points_x, points_y = (
+        np.linspace(
+            low[i],
+            high[i],
+            int((high[i] - low[i]) // resolution),
+            dtype=np.float32,
+        )
+        for i in range(2)
+    )
+    points = np.stack(np.meshgrid(points_x, points_y), axis=-1)
     points = np.reshape(points, (-1, points.shape[-1]))
     transition_probabilities = np.stack(
         [transition_function(x) for x in points], 0
-- 
2.43.0


From 8192d615946a2873d4d75d4c6e8d270d6f57ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 46/58] fix: earlier frames are cropped right when fields of
 view aren't square

---
 putting_dune/alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 87e0d77..6c36df2 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -223,8 +223,9 @@ def pad_and_crop_images_by_fov(
   new_lower_left = np.array(new_fov.lower_left)
   original_upper_right = np.array(original_fov.upper_right)
   new_upper_right = np.array(new_fov.upper_right)
-  original_scale = original_upper_right - original_lower_left
-  new_scale = new_upper_right - new_lower_left
+  # Like image shapes, scales are (height, width).
+  original_scale = (original_upper_right - original_lower_left)[::-1]
+  new_scale = (new_upper_right - new_lower_left)[::-1]
   resize_factor = original_scale / new_scale
 
   output_shape = image.shape
@@ -254,7 +255,7 @@ def pad_and_crop_images_by_fov(
   )
 
   # The upper-left is actually the privileged point in images, so we find shift
-  # relative to it. Since FOV is square it's just the X from LL and Y from UR.
+  # relative to it: the X from LL and Y from UR.
   x_shift = new_lower_left[0] - original_lower_left[0]
   y_shift = new_upper_right[1] - original_upper_right[1]
 
-- 
2.43.0


From 43cc53323a5b65129a1aca33f200412b60a3ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 47/58] fix: exported atom detectors unpack to the directory
 that is loaded

---
 putting_dune/atom_detection/save_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..c20988c 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -113,15 +113,20 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
+    # The archive holds a directory with the name that is looked for in it.
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
     zip_path = epath.Path(tmpdir) / 'packaged.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      archive_dirname = os.path.relpath(dirname, tmpdir)
+      zipped.write(dirname, archive_dirname)
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        zipped.write(
+            os.path.join(dirname, filename),
+            os.path.join(archive_dirname, filename),
+        )
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 50893eead2cd67c9f7e3df56303750f55715cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 48/58] fix: exported atom detectors have the signature that is
 called

---
 putting_dune/atom_detection/save_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index c20988c..fa7db64 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -95,7 +95,10 @@ def save(config: Config):
       autograph=False,
       input_signature=[
           tf.TensorSpec(
-              shape=config.input_shape, dtype=np.float32, name='image'
+              shape=config.input_shape,
+              dtype=np.float32,
+              # The name by which AtomDetector calls it.
+              name='preprocessed_inputs_0',
           )
       ],
   )
-- 
2.43.0


From 40166038ae8427b6239272c263a62b4742dad420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 49/58] fix: exporting an aligner leaves the working directory
 alone

---
 putting_dune/image_alignment/save_model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/putting_dune/image_alignment/save_model.py b/putting_dune/image_alignment/save_model.py
index 1d43531..19ed97c 100644
--- a/putting_dune/image_alignment/save_model.py
+++ b/putting_dune/image_alignment/save_model.py
@@ -136,17 +136,19 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    os.chdir(tmpdir)
     save_path = epath.Path(tmpdir) / 'image-alignment-model'
-    zip_path = epath.Path('image-alignment-model.zip')
+    zip_path = epath.Path(tmpdir) / 'image-alignment-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      dirname = dirname.replace(tmpdir + '/', '')
-      zipped.write(dirname)
+      archive_dirname = os.path.relpath(dirname, tmpdir)
+      zipped.write(dirname, archive_dirname)
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        zipped.write(
+            os.path.join(dirname, filename),
+            os.path.join(archive_dirname, filename),
+        )
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From d25975daa35e6e2f1dbf32c62f9d71c98eab136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 50/58] fix: applying a drift keeps the label image

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From f94ee7b80c0e690f8c9c003f772c2860c23dd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:53 +0000
Subject: [PATCH 51/58] fix: images are normalized before they are equalized
 for alignment

---
 putting_dune/alignment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 6c36df2..aebb42c 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -522,6 +522,9 @@ class ImageAligner:
     image = image.astype(np.float32)
 
     if self.adaptive_normalization:
+      # Equalization only accepts images in the range [0, 1].
+      image = image - image.min()
+      image = image / (image.max() or 1.0)
       image = exposure.equalize_adapthist(image)
 
     image: tf.Tensor = tf.image.resize(
-- 
2.43.0


From 18ace5d6e37039ff6abd643abeaee2768efbeeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:53 +0000
Subject: [PATCH 52/58] fix: a blank image does not reach the alignment network
 as NaN

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index aebb42c..0cf129f 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -533,7 +533,8 @@ class ImageAligner:
         method='nearest',
     )
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
-    image = (image - image_min) / (image_max - image_min)
+    # A blank image has no range.
+    image = tf.math.divide_no_nan(image - image_min, image_max - image_min)
     if self.needs_reset:
       self.reset(history_length=self.history_length, example_image=image)
 
-- 
2.43.0


From e913c0f6df3dd5644de81f759c77d442356e05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:34 +0000
Subject: [PATCH 53/58] fix: detected atoms can be stored when there is no
 silicon among them

---
 putting_dune/atom_detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index fbf13e2..1b45a5b 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -169,9 +169,11 @@ class AtomDetector:
     )
 
     # Construct an array of atomic numbers for both atoms
-    carbon_atomic_numbers = np.array([constants.CARBON] * len(carbon_centroids))
+    carbon_atomic_numbers = np.array(
+        [constants.CARBON] * len(carbon_centroids), dtype=np.int32
+    )
     silicon_atomic_numbers = np.array(
-        [constants.SILICON] * len(silicon_centroids)
+        [constants.SILICON] * len(silicon_centroids), dtype=np.int32
     )
 
     return microscope_utils.AtomicGridMicroscopeFrame(
-- 
2.43.0


From fa9d535a86254f64b4b76e3b08da9b59739feab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:34 +0000
Subject: [PATCH 54/58] fix: grids without atoms can be compared

---
 putting_dune/microscope_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d7b8177..0e7bf6f 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -157,6 +157,10 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
 
+    # The search below needs atoms.
+    if not self.atomic_numbers.size:
+      return True
+
     neighbor_distances, neighbor_indices = (
         neighbors.NearestNeighbors(n_neighbors=1)
         .fit(self.atom_positions)
-- 
2.43.0


From d341346e57d85d90ccdc5d9b24e791ff9b0af893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 55/58] fix: grids with a doubled atom do not equal those
 without

---
 putting_dune/microscope_utils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0e7bf6f..fbc5da4 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -161,18 +161,20 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
     if not self.atomic_numbers.size:
       return True
 
-    neighbor_distances, neighbor_indices = (
-        neighbors.NearestNeighbors(n_neighbors=1)
-        .fit(self.atom_positions)
-        .kneighbors(other.atom_positions)
-    )
+    # Every atom of each grid must be in the other one.
+    for grid, atoms in ((self, other), (other, self)):
+      neighbor_distances, neighbor_indices = (
+          neighbors.NearestNeighbors(n_neighbors=1)
+          .fit(grid.atom_positions)
+          .kneighbors(atoms.atom_positions)
+      )
 
-    neighbor_indices = neighbor_indices.reshape(-1)
-    if (other.atomic_numbers != self.atomic_numbers[neighbor_indices]).any():
-      return False
+      neighbor_indices = neighbor_indices.reshape(-1)
+      if (atoms.atomic_numbers != grid.atomic_numbers[neighbor_indices]).any():
+        return False
 
-    if (neighbor_distances > 1e-3).any():
-      return False
+      if (neighbor_distances > 1e-3).any():
+        return False
 
     return True
 
-- 
2.43.0


From bf55a265f2c97e8e8c41032c6df4afc52f657203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 56/58] fix: a recording that cannot be converted costs only
 itself

---
 putting_dune/pipeline/upload_microscope_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index f0dcf51..29525f0 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -226,6 +226,8 @@ def main(args: Args) -> None:
     # Load dataset
     try:
       dataset = load_dataset(dataset_path)
+      # Convet dataset to a protobuf
+      trajectory = convert_dataset_to_proto(*dataset)
     except Exception as e:  # pylint: disable=broad-except
       print(
           termcolor.colored(
@@ -235,8 +237,6 @@ def main(args: Args) -> None:
       )
       continue
 
-    # Convet dataset to a protobuf
-    trajectory = convert_dataset_to_proto(*dataset)
     trajectory_proto = trajectory.to_proto()
 
     # Write record to a memory backed buffer
-- 
2.43.0


From 63813a667716732ce7ad3b73216b0ba5a5556731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 57/58] fix: recordings with frames without atoms or dopants
 are uploaded

---
 putting_dune/pipeline/upload_microscope_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 29525f0..2dfef2a 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -90,7 +90,9 @@ def load_dataset(
   for frame, val in metadata['metadata'].items():
     coordinates[frame] = {}
     parameters[frame] = {}
-    coordinates[frame]['label'] = np.asarray(val['All coordinates']['0'])
+    label = np.asarray(val['All coordinates']['0'])
+    # Frames in which nothing was detected have no columns.
+    coordinates[frame]['label'] = label if label.size else np.zeros((0, 3))
     coordinates[frame]['image'] = downscale_factor * coordinates[frame]['label']
     parameters[frame]['readout_time'] = readout_time
     parameters[frame]['FOV'] = val['All parameters']['image_parameters'][0]
@@ -98,7 +100,7 @@ def load_dataset(
     try:
       coordinates[frame]['dopant'] = downscale_factor * np.asarray(
           val['Blast coordinates']['Dopants']
-      )
+      ).reshape(-1, 2)
       coordinates[frame]['beam loc'] = downscale_factor * np.asarray(
           val['Beam location']
       ).reshape(-1, 2)
-- 
2.43.0


From 582b86ba724d6176864c1323a643f9f3f6f1dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 58/58] fix: frames with few atoms are skipped when learning
 rates

---
 putting_dune/pipeline/train_rate_learner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 9e802c2..f52e3c3 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -354,6 +354,9 @@ def transitions_to_datapoints(
       continue
 
     # Get the neighbors of the grid before.
+    if len(grid_before.atom_positions) < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
             n_neighbors=1 + 9,
@@ -392,6 +395,9 @@ def transitions_to_datapoints(
 
     neighbor_positions_before = neighbor_positions_before[:4]
     # Get the neighbors of the grid after.
+    if len(grid_after.atom_positions) < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
     _, neighbor_indices_after = (
         skneighbors.NearestNeighbors(
             n_neighbors=1 + 3,
-- 
2.43.0

