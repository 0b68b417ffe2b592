From 677a27382b0eda7a67aba0501e47947cda4f1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 01/26] fix: use default_factory for unhashable dataclass
 defaults (Python >= 3.11 import)

---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 .../generative/vae.py                         |  4 +--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..6d08c3b 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -135,7 +135,7 @@ class Decoder(nn.Module):
   """A decoder network for a variational autoencoder."""
   num_hidden_layers: int = 3
   hidden_layer_network_width: int = 1000
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   @nn.compact
   def __call__(self, z: jnp.ndarray) -> jnp.ndarray:
@@ -191,7 +191,7 @@ class WindFieldVAE(nn.Module):
   """Class that learns a VAE to generate wind fields."""
   num_latents: int = 64
   reparameterize_latents: bool = True
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-- 
2.43.0


From 00353d23956ea4c25487d71cd5f7cb7647a8f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 02/26] fix: actually call LatLng.is_valid in
 solar_calculator's input guard

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From 6eff04d55d796411e1e66f5b84e5b171da0b2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 03/26] fix: make the wind level range check in wind_at
 reachable

---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From 26fd58e5ccebbe57b8f9b2d83d9db0e250f97c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 04/26] fix: make the [0, 1) range check in
 undo_squash_to_unit_interval reachable

---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From da44fac734916c2161c4d777939f82c0d3dd5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 05/26] fix: accept the default terminal argument of the Agent
 interface in end_episode

---
 balloon_learning_environment/agents/mlp_agent.py            | 2 +-
 balloon_learning_environment/agents/station_seeker_agent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/agents/mlp_agent.py b/balloon_learning_environment/agents/mlp_agent.py
index a3b5af1..d68bdd3 100644
--- a/balloon_learning_environment/agents/mlp_agent.py
+++ b/balloon_learning_environment/agents/mlp_agent.py
@@ -140,7 +140,7 @@ class MLPAgent(agent.Agent):
     self.last_action = action
     return action
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def set_mode(self, mode: Union[agent.AgentMode, str]) -> None:
diff --git a/balloon_learning_environment/agents/station_seeker_agent.py b/balloon_learning_environment/agents/station_seeker_agent.py
index a353bdf..83a68a7 100644
--- a/balloon_learning_environment/agents/station_seeker_agent.py
+++ b/balloon_learning_environment/agents/station_seeker_agent.py
@@ -66,7 +66,7 @@ class StationSeekerAgent(agent.Agent):
 
     return self.pick_action(observation)
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def pick_action(self, features_as_vector: np.ndarray) -> int:
-- 
2.43.0


From 02d67785f687738972f57d14add75a96d8092494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 06/26] fix: raise instead of returning the ValueError in
 Energy.__ge__

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From c0aa8c67a717ab5c769810f4d1951ae94cbe394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 07/26] fix: raise the documented RuntimeError when
 perciatelli44 is in no expected location

---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From b935f10b2418852f736c6b30f6902be05ce2a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 08/26] fix: do not change the state of a terminated balloon
 before rejecting the step

---
 balloon_learning_environment/env/balloon/balloon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 5192aca..ac1f0d0 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -293,12 +293,12 @@ class Balloon:
       stride: The step size for the simulation of the balloon physics.
     """
 
-    self.state.last_command = action
-
     assert self.state.status == BalloonStatus.OK, (
         'Stepping balloon after a terminal event occured. '
         f'({self.state.status.name})')
 
+    self.state.last_command = action
+
     # The safety layers may prevent some actions from taking effect in
     # certain situations. While the correct interpretation
     # is, e.g., that even when a down action is commanded the altitude control
-- 
2.43.0


From f3f9839740c086955d6adfcfa3b8e091fef9f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 09/26] fix: seed the arena with numpy integers instead of
 falling back to the clock

---
 balloon_learning_environment/env/balloon_arena.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon_arena.py b/balloon_learning_environment/env/balloon_arena.py
index f15e68a..75c6f5a 100644
--- a/balloon_learning_environment/env/balloon_arena.py
+++ b/balloon_learning_environment/env/balloon_arena.py
@@ -159,7 +159,7 @@ class BalloonArena(BalloonArenaInterface):
     self.reset(seed)
 
   def reset(self, seed: Union[int, jnp.ndarray, None] = None) -> np.ndarray:
-    if isinstance(seed, int):
+    if isinstance(seed, (int, np.integer)):
       self._rng = jax.random.PRNGKey(seed)
     elif isinstance(seed, (np.ndarray, jnp.ndarray)):
       self._rng = seed
-- 
2.43.0


From af47b0913c7178922437beb2c0f1c3a559803193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 10/26] fix: recognise every checkpoint name that
 save_checkpoint can write

---
 balloon_learning_environment/agents/dopamine_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..38fda3d 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -38,7 +38,8 @@ def _is_checkpoint_name(file_name: str) -> bool:
   if len(parts) != 2:
     return False
 
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  return (parts[0] == 'checkpoint' and len(parts[1]) >= 5
+          and parts[1].isdigit())
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
-- 
2.43.0


From 87586ee95224e876a602a8fe075df2cea307a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 11/26] fix: accept the default collectors=None in
 get_collector_data

---
 balloon_learning_environment/train_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 768b3c0..3f5e48f 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -29,7 +29,7 @@ def get_collector_data(
 ) -> List[collector_dispatcher.CollectorConstructorType]:
   """Returns a list of gin files and constructors for each passed collector."""
   collector_constructors = []
-  for c in collectors:
+  for c in collectors or ():
     if c not in collector_dispatcher.AVAILABLE_COLLECTORS:
       continue
     collector_constructors.append(
-- 
2.43.0


From 13cf2c9ffe66719a1b55bbbd25b93bf178eebb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 12/26] fix: ignore foreign checkpoint_*.pkl files when looking
 for the latest checkpoint

---
 balloon_learning_environment/agents/dopamine_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 38fda3d..89b937b 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -99,7 +99,8 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     return -1
 
   try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
+    latest_episode = max(extract_episode(x) for x in checkpoint_files
+                         if _is_checkpoint_name(x))
   except ValueError:
     return -1
   return latest_episode
-- 
2.43.0


From 9cdd68ee32eb7d6c1aa710ec38b0f1a4e720552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 13/26] fix: do not merge the shards of agents whose name
 extends the model name

---
 balloon_learning_environment/eval/combine_eval_shards.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..70cc218 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -46,6 +47,10 @@ def main(argv: Sequence[str]) -> None:
     data = list()
 
     for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+      # The glob also matches the shards of agents that share this prefix.
+      if not re.fullmatch(re.escape(model) + r'_\d+\.json',
+                          os.path.basename(path)):
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From 958fa32ba47daf60b9a53765beb6ddb05d4b2360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 14/26] fix: read the navigation flags of a feature vector from
 where they are written

The feature constructor writes 'navigation is paused' at index 11 and its
negation at index 12; the named view read them the other way round.
---
 balloon_learning_environment/env/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index 1b05f48..b274018 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -214,8 +214,8 @@ class NamedPerciatelliFeatures:
     elif last_command_idx == 2:
       self.last_command = control.AltitudeControlCommand.DOWN
 
-    self.navigation_enabled = ambient_features[11]
-    self.navigation_paused = ambient_features[12]
+    self.navigation_paused = ambient_features[11]
+    self.navigation_enabled = ambient_features[12]
 
     self.has_excess_energy = ambient_features[13]
     self.descent_cost = ambient_features[14]
-- 
2.43.0


From ab487e0165af6f491ce27394deec1147638dac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 15/26] fix: predict the forecast when every wind measurement
 is too old

WindGP.query_batch dropped measurements older than the time horizon and
then fitted the regression to whatever was left; with nothing left the
fit raised a ValueError. Fall back to the forecast, as is done when there
are no measurements at all.
---
 balloon_learning_environment/env/wind_gp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..6be2460 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,6 +183,15 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
+
+      if inputs.shape[0] == 0:
+        # All observations were dropped, so there is nothing to regress on:
+        # return the forecast, as when no observation was ever made.
+        means = np.zeros((locations.shape[0], 2))
+        deviations = np.zeros(locations.shape[0])
+        self._add_forecast_to_prediction(locations, means)
+        return means, deviations
+
       self.model.fit(inputs, targets)
 
       # Output should be a N x 2 set of predictions about local measurements,
-- 
2.43.0


From df2713b1487bca0c8c018d8c4b76751888c3c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 16/26] fix: units.datetime defaults to UTC when given
 tzinfo=None, as documented

---
 balloon_learning_environment/utils/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index 7858d5e..3e54e28 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -353,6 +353,8 @@ def datetime(year: int,
   Returns:
     A timezone object.
   """
+  if tzinfo is None:
+    tzinfo = dt.timezone.utc
   # pylint: disable=g-tzinfo-datetime
   return dt.datetime(
       year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)
-- 
2.43.0


From eb39805806a4620a7ee803e44164e480b6c445da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 17/26] fix: the solar elevation is a number when the sun is at
 the zenith

---
 balloon_learning_environment/env/balloon/solar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..f672d36 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -132,10 +132,11 @@ def solar_calculator(latlng: s2.LatLng,
   declination_sun = np.arcsin(
       np.sin(obliquity_correction) * np.sin(apparent_long_sun))
 
-  zenith_angle = np.arccos(
-      np.sin(latlng.lat().radians) * np.sin(declination_sun) +
-      np.cos(latlng.lat().radians) * np.cos(declination_sun) *
-      np.cos(hour_angle))
+  # Rounding can push the cosine past 1 when the sun is at the zenith.
+  cos_zenith = (np.sin(latlng.lat().radians) * np.sin(declination_sun) +
+                np.cos(latlng.lat().radians) * np.cos(declination_sun) *
+                np.cos(hour_angle))
+  zenith_angle = np.arccos(np.clip(cos_zenith, -1.0, 1.0))
 
   # Compute solar elevation. Correct for atmospheric refraction.
   el_uncorrected_deg = 90.0 - math.degrees(zenith_angle)
-- 
2.43.0


From 0ee15a178e4e685315367b1ef3d8daa91d66a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 18/26] fix: offsets that end at a pole do not leave the domain
 of asin by rounding

---
 balloon_learning_environment/utils/spherical_geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/balloon_learning_environment/utils/spherical_geometry.py b/balloon_learning_environment/utils/spherical_geometry.py
index 4b5c9a5..0f4f556 100644
--- a/balloon_learning_environment/utils/spherical_geometry.py
+++ b/balloon_learning_environment/utils/spherical_geometry.py
@@ -66,6 +66,7 @@ def calculate_latlng_from_offset(center_latlng: s2.LatLng,
 
   sin_lat = (cos_angle * sin_from_lat +
              sin_angle * cos_from_lat * math.cos(heading))
+  sin_lat = min(max(sin_lat, -1.0), 1.0)  # Rounding may exceed 1 at the poles.
   d_lng = math.atan2(sin_angle * cos_from_lat * math.sin(heading),
                      cos_angle - sin_from_lat * sin_lat)
 
-- 
2.43.0


From 51b74e6584c963c9aa022bc8cd609ceaf743edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:42 +0000
Subject: [PATCH 19/26] fix: deliver the last reward of a truncated episode
 once

When an episode reached max_episode_length, the agent was stepped once more
with the final reward, and given the same reward again by end_episode. The
agent then recorded a transition for an action that was never executed, and
the final statistics reported that action.
---
 balloon_learning_environment/train_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 3f5e48f..fc90686 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -67,8 +67,10 @@ def _run_one_episode(env: balloon_env.BalloonEnv,
       final_episode_step = i + 1
       break
 
-    # Pass observation to agent, request new action.
-    a = agent.step(r, obs)
+    # Pass observation to agent, request new action. There is no further action
+    # to take on the last step: the agent gets its reward from end_episode.
+    if i + 1 < max_episode_length:
+      a = agent.step(r, obs)
 
   # The environment has no timeout, so terminal really is a terminal state.
   agent.end_episode(r, terminal)
-- 
2.43.0


From 2b37ac41e9e5969b6b2923815c6169cc90550b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 20/26] fix: the VAE training loop does not use measurement
 series that do not exist

---
 .../generative/learn_wind_field_generator.py                  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index bce2a3e..4a6d57c 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -286,10 +286,6 @@ def train(num_batches_per_epoch: int = 200,
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
     avg_sigma = jnp.array(sigma).mean()
 
-    mse_series.create_measurement(metrics['mse'], epoch)
-    kld_series.create_measurement(metrics['kld'], epoch)
-    loss_series.create_measurement(avg_training_loss, epoch)
-
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
         metrics['mse'], metrics['kld'], avg_training_loss, avg_sigma)
-- 
2.43.0


From 145d9c04784e3f90fe1482c4761b635da4e8f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:07 +0000
Subject: [PATCH 21/26] fix: check the number of wind components the regression
 returns

The condition was given as the message of the assertion, so that it was
never checked.
---
 balloon_learning_environment/env/wind_gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index 6be2460..8698910 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -218,7 +218,7 @@ class WindGP(object):
       # TODO(bellemare): Sal says this needs normalizing so that the lower bound
       # is really zero.
 
-    assert len(means.shape) == 2, means.shape[1] == 2
+    assert len(means.shape) == 2 and means.shape[1] == 2
 
     self._add_forecast_to_prediction(locations, means)
     return means, deviations
-- 
2.43.0


From b3ecb0571c6f33782b6cb3310c10a3c276d9ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:25 +0000
Subject: [PATCH 22/26] fix: render frames with current versions of Matplotlib

FigureCanvas.tostring_rgb has been removed, so that rendering in the modes
rgb_array and tensorboard failed.
---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..9ced498 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # The alpha channel is dropped.
+      frame = np.array(self._fig.canvas.buffer_rgba())[..., :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From e496bc52a2bf01ec1075609519032de95e2e10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:37 +0000
Subject: [PATCH 23/26] fix: generate wind fields of the shape given to the VAE

---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index 6d08c3b..578fb2a 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -195,7 +195,7 @@ class WindFieldVAE(nn.Module):
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-    self.decoder = Decoder()
+    self.decoder = Decoder(field_shape=self.field_shape)
     self.sigma = self.variable('params', 'sigma', lambda: 1.)
 
   def __call__(self, x: jnp.ndarray, z_rng: jnp.ndarray) -> VAEOutput:
-- 
2.43.0


From c2c2c46ba8ffc8a031960a62bfec4bfbc92795f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:37 +0000
Subject: [PATCH 24/26] fix: return no evaluation fields when none are set
 aside

---
 .../generative/dataset_wind_field_reservoir.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..f97ea65 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,4 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    return self.dataset[self.dataset.shape[0] - self.eval_batch_size:, ...]
-- 
2.43.0


From 38c7966d457cc32cc03bd5500d4c28f607abaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:16 +0000
Subject: [PATCH 25/26] fix: subtract the sun's aberration and nutation from
 its longitude as NOAA does

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index f672d36..9af3160 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -127,7 +127,7 @@ def solar_calculator(latlng: s2.LatLng,
                                   sin3m0 * 0.000289)
   true_long_sun = geometric_mean_long_sun + eq_of_center_sun
   apparent_long_sun = true_long_sun - math.radians(
-      0.00569 -
+      0.00569 +
       0.00478 * np.sin(math.radians(125.04 - 1934.136 * julian_century)))
   declination_sun = np.arcsin(
       np.sin(obliquity_correction) * np.sin(apparent_long_sun))
-- 
2.43.0


From bb4defe5c71ecfbc1de79817e48b45157365ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:16 +0000
Subject: [PATCH 26/26] fix: place the sun by the instant, whatever the time
 zone it is given in

---
 balloon_learning_environment/env/balloon/solar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 9af3160..ec196de 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -61,6 +61,8 @@ def solar_calculator(latlng: s2.LatLng,
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
+  # The calendar day below is the one of UTC, as is the fraction of the day.
+  time = time.astimezone(dt.timezone.utc)
 
   # Compute fraction_of_day from time.
   fraction_of_day = (
-- 
2.43.0

