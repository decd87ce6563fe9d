From 4b0f0da8e4a6229c05a86152b9826979f800b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:29 +0000
Subject: [PATCH 001/100] fix: control the integration error when propagating
 backward

With a negative step, the adaptive step control compared the signed step to
the (positive) minimum step, so every step was accepted whatever its error.
---
 nyx-core/src/propagators/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..8a40353 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -426,7 +426,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -481,8 +481,9 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    // The step size is negative when propagating backward.
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        self.prop.opts.min_step.to_seconds() * proposed_step_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From 829338f261076265ce60ee78e07cf3cf634034ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:25 +0000
Subject: [PATCH 002/100] fix: a propagator instance stays usable after an
 interrupted propagation

When a propagation stopped on an event or an error, the instance kept the
negative step of a backward propagation, or the fixed partial step used for
the last step: the next forward propagation never terminated.
---
 nyx-core/src/propagators/instance.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 8a40353..ca9a68f 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -110,9 +110,13 @@ where
             .context(DynamicsSnafu)?;
 
         let backprop = duration.is_negative();
-        if backprop {
-            self.step_size = -self.step_size; // Invert the step size
-        }
+        // Set the sign of the step size: the previous propagation may have been interrupted (by a stop condition
+        // or an error) while propagating in the opposite direction.
+        self.step_size = if backprop {
+            -self.step_size.abs()
+        } else {
+            self.step_size.abs()
+        };
 
         // Transform the state if needed
         let mut original_frame = None;
@@ -183,7 +187,11 @@ where
                 let prev_step_kind = self.fixed_step;
                 self.set_step(stop_time - epoch, true);
 
-                self.single_step()?;
+                let last_step = self.single_step();
+
+                // Restore the step size for subsequent calls, even if this step failed
+                self.set_step(prev_step_size, prev_step_kind);
+                last_step?;
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
@@ -192,9 +200,6 @@ where
                     warn!("{e} when sending on channel")
                 }
 
-                // Restore the step size for subsequent calls
-                self.set_step(prev_step_size, prev_step_kind);
-
                 if backprop {
                     self.step_size = -self.step_size; // Restore to a positive step size
                 }
-- 
2.43.0


From 9b3ceb9aa5bd5b03941b05ac7d59c30b6492975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:52 +0000
Subject: [PATCH 003/100] fix: publish and return states in the caller's frame
 when an integration frame is set

The trajectory built while integrating in another frame mixed the initial state
in its original frame with states in the integration frame, and a propagation
interrupted by an event or an error left the state in the integration frame.
---
 nyx-core/src/propagators/instance.rs | 57 ++++++++++++++++------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index ca9a68f..d030cb5 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::frames::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -168,16 +169,7 @@ where
                     }
 
                     // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.state = self.state_in_frame(original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -191,11 +183,14 @@ where
 
                 // Restore the step size for subsequent calls, even if this step failed
                 self.set_step(prev_step_size, prev_step_kind);
-                last_step?;
+                if let Err(e) = last_step {
+                    self.state = self.state_in_frame(original_frame)?;
+                    return Err(e);
+                }
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -213,16 +208,7 @@ where
                 }
 
                 // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
+                self.state = self.state_in_frame(original_frame)?;
 
                 return Ok(self.state);
             } else {
@@ -243,11 +229,16 @@ where
                     }
                 }
 
-                self.single_step()?;
+                if let Err(e) = self.single_step() {
+                    self.state = self.state_in_frame(original_frame)?;
+                    return Err(e);
+                }
 
                 if let Some(ref mut condition) = stop_condition
-                    && condition(self.state)?
+                    && condition(self.state_in_frame(original_frame)?)?
                 {
+                    self.state = self.state_in_frame(original_frame)?;
+
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
                     // condition they are seeking is between the last state on the channel
@@ -258,7 +249,7 @@ where
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -266,6 +257,22 @@ where
         }
     }
 
+    /// Returns the current state in the provided frame, or as is if no frame is provided.
+    fn state_in_frame(&self, frame: Option<Frame>) -> Result<D::StateType, PropagationError> {
+        let mut state = self.state;
+        if let Some(frame) = frame {
+            let orbit = self
+                .almanac
+                .transform_to(state.orbit(), frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            state.set_orbit(orbit);
+        }
+        Ok(state)
+    }
+
     /// This method propagates the provided Dynamics for the provided duration.
     pub fn for_duration(&mut self, duration: Duration) -> Result<D::StateType, PropagationError> {
         self.propagate(duration, None, Some(|_| Ok(false)))
-- 
2.43.0


From fe93bf93e272b5125e01d5d04b1e962590f6f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:10 +0000
Subject: [PATCH 004/100] fix: event search backward in time, in another frame,
 and on the last partial step

until_event failed for any backward propagation (the bracket was taken from the
wrong end of the trajectory), refined the event epoch without applying the event
frame, and missed an event occurring in the last partial step.
---
 nyx-core/src/propagators/event.rs    | 27 ++++++++++++++++++++++++---
 nyx-core/src/propagators/instance.rs | 11 ++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..839c6cc 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -170,7 +170,12 @@ where
         traj.finalize();
 
         // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
+        // The trajectory is in chronological order, so the latest propagated state is the first one in a backward propagation.
+        let last_traj_state = if max_duration.is_negative() {
+            traj.states.first().cloned().unwrap()
+        } else {
+            traj.states.last().cloned().unwrap()
+        };
         if end_state == last_traj_state {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
@@ -180,6 +185,7 @@ where
 
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,11 +195,26 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-        let event_epoch = brent_solver(traj_at, event, last_traj_state.epoch(), end_state.epoch())
+        let (bracket_start, bracket_end) = if max_duration.is_negative() {
+            (end_state.epoch(), last_traj_state.epoch())
+        } else {
+            (last_traj_state.epoch(), end_state.epoch())
+        };
+        let event_epoch = brent_solver(traj_at, event, bracket_start, bracket_end)
             .context(PropAnalysisSnafu)?;
 
         #[cfg(not(target_arch = "wasm32"))]
diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index d030cb5..e9b1bd1 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -156,8 +156,6 @@ where
             if (!backprop && epoch + self.step_size > stop_time)
                 || (backprop && epoch + self.step_size <= stop_time)
             {
-                // We don't check for the interrupt condition on the last step.
-                // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
                     #[cfg(not(target_arch = "wasm32"))]
@@ -188,8 +186,15 @@ where
                     return Err(e);
                 }
 
+                // The stopping condition may be met on this last step: as for the other steps, that state is then not published.
+                let stopped = match stop_condition {
+                    Some(ref mut condition) => condition(self.state_in_frame(original_frame)?)?,
+                    None => false,
+                };
+
                 // Publish to channel if provided
-                if let Some(ref chan) = maybe_tx_chan
+                if !stopped
+                    && let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
-- 
2.43.0


From 2ab464ced2b8a79d75d4864d15d336fc7d3fe915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:29 +0000
Subject: [PATCH 005/100] =?UTF-8?q?fix:=20integrate=20the=20state=20transi?=
 =?UTF-8?q?tion=20matrix=20with=20d=CE=A6/dt=20=3D=20A=20=CE=A6?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The STM derivative used the STM of the start of the step and multiplied it by the
gradient in the wrong order, so the STM was not the derivative of the flow.
---
 nyx-core/src/dynamics/spacecraft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..4434eae 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
-                // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                // Apply the gradient to the STM of this sub-step: dΦ/dt = A Φ
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From 93be3a5a07bbdd4c5432c9ba16f88ef4009cf877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 006/100] fix: drag uses the velocity relative to the
 atmosphere, in the integration frame, and meters for the exponential model

The exponential and standard atmosphere models subtracted the velocity in the drag frame from that in the integration frame,
and mixed kilometers with the documented meters in the exponential density.
---
 nyx-core/src/dynamics/drag.rs | 66 +++++++++++++++++------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index c71dbde..154b268 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -18,12 +18,13 @@
 
 use anise::almanac::Almanac;
 use anise::constants::frames::IAU_EARTH_FRAME;
+use anise::errors::OrientationSnafu;
 use snafu::ResultExt;
 
 use super::{
     DynamicsAlmanacSnafu, DynamicsAstroSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel,
 };
-use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Spacecraft};
+use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Orbit, Spacecraft};
 use crate::linalg::{Matrix4x3, Vector3};
 use serde::{Deserialize, Serialize};
 use serde_dhall::StaticType;
@@ -57,6 +58,24 @@ impl AtmDensity {
     }
 }
 
+/// Velocity of the spacecraft with respect to the drag frame (i.e. the atmosphere), in the axes of the integration frame.
+fn relative_velocity_km_s(
+    osc_drag_frame: &Orbit,
+    ctx: &Spacecraft,
+    almanac: &Almanac,
+) -> Result<Vector3<f64>, DynamicsError> {
+    let dcm = almanac
+        .rotate(osc_drag_frame.frame, ctx.orbit.frame, ctx.orbit.epoch)
+        .context(OrientationSnafu {
+            action: "rotating into the integration frame",
+        })
+        .context(DynamicsAlmanacSnafu {
+            action: "rotating into the integration frame",
+        })?;
+
+    Ok(dcm.rot_mat * osc_drag_frame.velocity_km_s)
+}
+
 /// `ConstantDrag` implements a constant drag model as defined in Vallado, 4th ed., page 551, with an important caveat.
 ///
 /// **WARNING:** This basic model assumes that the velocity of the spacecraft is identical to the velocity of the upper atmosphere.
@@ -95,7 +114,7 @@ impl ForceModel for ConstantDrag {
                     action: "transforming into drag frame",
                 })?;
 
-        let velocity = osc.velocity_km_s;
+        let velocity = relative_velocity_km_s(&osc, ctx, almanac)?;
         // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
         Ok(-0.5
             * 1e3
@@ -179,8 +198,6 @@ impl ForceModel for Drag {
     }
 
     fn eom(&self, ctx: &Spacecraft, almanac: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
-        let integration_frame = ctx.orbit.frame;
-
         let osc_drag_frame =
             almanac
                 .transform_to(ctx.orbit, self.frame, None)
@@ -190,7 +207,7 @@ impl ForceModel for Drag {
 
         match self.density {
             AtmDensity::Constant(rho) => {
-                let velocity = osc_drag_frame.velocity_km_s;
+                let velocity = relative_velocity_km_s(&osc_drag_frame, ctx, almanac)?;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -206,28 +223,18 @@ impl ForceModel for Drag {
                 r0,
                 ref_alt_m,
             } => {
-                // Compute rho in the drag frame.
-                let rho = rho0
-                    * (-(osc_drag_frame.rmag_km()
-                        - (r0
-                            + self
-                                .frame
-                                .mean_equatorial_radius_km()
-                                .context(AstroPhysicsSnafu)
-                                .context(DynamicsAstroSnafu)?))
-                        / ref_alt_m)
-                        .exp();
+                // Compute rho in the drag frame. The reference altitudes are in meters.
+                let altitude_m = 1e3
+                    * (osc_drag_frame.rmag_km()
+                        - self
+                            .frame
+                            .mean_equatorial_radius_km()
+                            .context(AstroPhysicsSnafu)
+                            .context(DynamicsAstroSnafu)?);
+                let rho = rho0 * (-(altitude_m - r0) / ref_alt_m).exp();
 
                 // TODO: Drag modeling will be improved in https://github.com/nyx-space/nyx/issues/317
-                // The frame will be double checked in this PR as well.
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
+                let velocity = relative_velocity_km_s(&osc_drag_frame, ctx, almanac)?;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -263,14 +270,7 @@ impl ForceModel for Drag {
                     10.0_f64.powf(logdensity)
                 };
 
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
+                let velocity = relative_velocity_km_s(&osc_drag_frame, ctx, almanac)?;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
-- 
2.43.0


From a764ba7ce13c682e209fb291ffc309e7129fe556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 007/100] fix: SRP force in the axes of the integration frame,
 and finite Cr partial when Cr is zero

---
 nyx-core/src/dynamics/solarpressure.rs | 48 +++++++++++++++++---------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 284f96e..acebb79 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -18,10 +18,11 @@
 
 use super::{DynamicsAlmanacSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel};
 use crate::cosmic::eclipse::ShadowModel;
-use crate::cosmic::{AU, Frame, SPEED_OF_LIGHT_M_S, Spacecraft};
+use crate::cosmic::{AU, Frame, Orbit, SPEED_OF_LIGHT_M_S, Spacecraft};
 use crate::linalg::{Const, Matrix4x3, Vector3};
 use anise::almanac::Almanac;
 use anise::constants::frames::{EARTH_J2000, SUN_J2000};
+use anise::errors::OrientationSnafu;
 use hyperdual::{Float, OHyperdual, hyperspace_from_vector, linalg::norm};
 use log::warn;
 use serde::{Deserialize, Serialize};
@@ -125,6 +126,28 @@ impl SolarPressure {
     pub fn new(shadow_bodies: Vec<Frame>, almanac: &Almanac) -> Result<Arc<Self>, DynamicsError> {
         Ok(Arc::new(Self::default_flux_raw(shadow_bodies, almanac)?))
     }
+
+    /// Position of the spacecraft as seen from the light source, in the axes of the integration frame.
+    fn position_from_light_source_km(
+        &self,
+        osc: &Orbit,
+        almanac: &Almanac,
+    ) -> Result<Vector3<f64>, DynamicsError> {
+        let seen_from_sun = almanac
+            .transform_to(*osc, self.shadow_model.light_source, None)
+            .context(DynamicsAlmanacSnafu {
+                action: "transforming state to vector seen from Sun",
+            })?;
+        let dcm = almanac
+            .rotate(seen_from_sun.frame, osc.frame, osc.epoch)
+            .context(OrientationSnafu {
+                action: "rotating into the integration frame",
+            })
+            .context(DynamicsAlmanacSnafu {
+                action: "rotating into the integration frame",
+            })?;
+        Ok(dcm.rot_mat * seen_from_sun.radius_km)
+    }
 }
 
 impl ForceModel for SolarPressure {
@@ -134,13 +157,8 @@ impl ForceModel for SolarPressure {
 
     fn eom(&self, ctx: &Spacecraft, almanac: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
         let osc = ctx.orbit;
-        // Compute the position of the Sun as seen from the spacecraft
-        let r_sun = almanac
-            .transform_to(ctx.orbit, self.shadow_model.light_source, None)
-            .context(DynamicsAlmanacSnafu {
-                action: "transforming state to vector seen from Sun",
-            })?
-            .radius_km;
+        // Compute the position of the spacecraft as seen from the Sun
+        let r_sun = self.position_from_light_source_km(&osc, almanac)?;
 
         let r_sun_unit = r_sun / r_sun.norm();
 
@@ -171,13 +189,8 @@ impl ForceModel for SolarPressure {
     ) -> Result<(Vector3<f64>, Matrix4x3<f64>), DynamicsError> {
         let osc = ctx.orbit;
 
-        // Compute the position of the Sun as seen from the spacecraft
-        let r_sun = almanac
-            .transform_to(ctx.orbit, self.shadow_model.light_source, None)
-            .context(DynamicsAlmanacSnafu {
-                action: "transforming state to vector seen from Sun",
-            })?
-            .radius_km;
+        // Compute the position of the spacecraft as seen from the Sun
+        let r_sun = self.position_from_light_source_km(&osc, almanac)?;
 
         let r_sun_d: Vector3<OHyperdual<f64, Const<9>>> = hyperspace_from_vector(&r_sun);
         let r_sun_unit = r_sun_d / norm(&r_sun_d);
@@ -223,7 +236,10 @@ impl ForceModel for SolarPressure {
         }
 
         // Compute the partial wrt to Cr.
-        let wrt_cr = self.eom(ctx, almanac)? / ctx.srp.coeff_reflectivity;
+        // The force is linear in Cr, so its partial is the force for a unit Cr (valid for a Cr of zero too).
+        let mut unit_cr = *ctx;
+        unit_cr.srp.coeff_reflectivity = 1.0;
+        let wrt_cr = self.eom(&unit_cr, almanac)?;
         for j in 0..3 {
             grad[(3, j)] = wrt_cr[j];
         }
-- 
2.43.0


From 5380c07ccd4494f6ddd3ec786bf558716f3c5d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 008/100] fix: third body partials counted the indirect term,
 and third body pull in non J2000 axes

The position of the third body carried dual parts, so the partials of the direct term were nearly doubled.
---
 nyx-core/src/dynamics/orbital.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..1e12a5d 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -221,7 +221,7 @@ impl AccelModel for PointMasses {
             }
 
             let third_body_frame = almanac
-                .frame_info(osc.frame.with_ephem(third_body))
+                .frame_info(Frame::from_ephem_j2000(third_body))
                 .context(DynamicsPlanetarySnafu {
                     action: "planetary data from third body not loaded",
                 })?;
@@ -265,7 +265,7 @@ impl AccelModel for PointMasses {
             }
 
             let third_body_frame = almanac
-                .frame_info(osc.frame.with_ephem(third_body))
+                .frame_info(Frame::from_ephem_j2000(third_body))
                 .context(DynamicsPlanetarySnafu {
                     action: "planetary data from third body not loaded",
                 })?;
@@ -284,15 +284,13 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on that of the spacecraft, so it has no dual part.
+            let r_ij = st_ij
+                .radius_km
+                .map(OHyperdual::<f64, Const<7>>::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
-
+            let r_j = radius - r_ij; // sc as seen from 3rd body
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
             third_body_acc_d[0] *= gm_d;
-- 
2.43.0


From 9c66d551fbc78f18655f1b7aadfbb329d5ccc56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 009/100] fix: the shadow model uses its configured light
 source

---
 nyx-core/src/cosmic/eclipse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/cosmic/eclipse.rs b/nyx-core/src/cosmic/eclipse.rs
index 0ce6df6..588376e 100644
--- a/nyx-core/src/cosmic/eclipse.rs
+++ b/nyx-core/src/cosmic/eclipse.rs
@@ -69,12 +69,13 @@ impl ShadowModel {
     pub fn compute(&self, observer: Orbit, almanac: &Almanac) -> AlmanacResult<Occultation> {
         let mut state = Occultation {
             epoch: observer.epoch,
-            back_frame: SUN_J2000,
+            back_frame: self.light_source,
             front_frame: observer.frame,
             percentage: 0.0,
         };
         for eclipsing_body in &self.shadow_bodies {
-            let this_state = almanac.solar_eclipsing(*eclipsing_body, observer, None)?;
+            let this_state =
+                almanac.occultation(self.light_source, *eclipsing_body, observer, None)?;
             if this_state.percentage > state.percentage {
                 state = this_state;
             }
-- 
2.43.0


From 04303164503126df60cd97e381afa4c1936b841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 010/100] fix: detect COF gravity files by extension when
 loading from a configuration

---
 nyx-core/src/io/gravity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..a4198c9 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,8 +104,10 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
+        // NOTE: `Path::ends_with` compares whole path components, not the extension.
+        let filename = cfg.filepath.to_string_lossy();
+        if !cfg.gunzipped && filename.ends_with(".cof")
+            || cfg.gunzipped && filename.ends_with(".cof.gz")
         {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
-- 
2.43.0


From 4172f73b3d1d13067f33bf5e670be09935386e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 011/100] fix: remove all of the duplicate epochs when
 finalizing a trajectory

The duplicates were only removed where they were consecutive before sorting.
---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..d9f9bec 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort first (this is a stable sort) because only consecutive duplicates are removed
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From 989c0b03efb2c06fd3aa38737e1cf42990486601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 012/100] fix: exclude the excluded bounds when filtering a
 trajectory by offset

---
 nyx-core/src/md/trajectory/traj.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index d9f9bec..bd2f503 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -179,17 +179,17 @@ where
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
+        let first_epoch = self.states.first().unwrap().epoch();
+        let to_epoch = |offset_bound: ops::Bound<&Duration>| match offset_bound {
+            Unbounded => Unbounded,
+            Included(offset) => Included(first_epoch + *offset),
+            Excluded(offset) => Excluded(first_epoch + *offset),
         };
 
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
+        let start = to_epoch(bound.start_bound());
+        let end = to_epoch(bound.end_bound());
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch((start, end))
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From ede4da3cac3d105ed58541e17f363bfb858152f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 013/100] fix: adding an earlier or an empty trajectory

The states prior to the first trajectory were silently dropped, and adding an empty
trajectory caused a panic.
---
 nyx-core/src/md/trajectory/traj.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index bd2f503..f8ad5c9 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -620,7 +620,13 @@ where
 
     /// Add one trajectory to another, returns an error if the frames don't match
     fn add(self, other: &Traj<S>) -> Self::Output {
-        if self.first().frame() != other.first().frame() {
+        if other.states.is_empty() {
+            Ok(self.clone())
+        } else if self.states.is_empty() {
+            let mut me = self.clone();
+            me.states = other.states.clone();
+            Ok(me)
+        } else if self.first().frame() != other.first().frame() {
             Err(NyxError::Trajectory {
                 source: TrajError::CreationError {
                     msg: format!(
@@ -641,12 +647,12 @@ where
             }
 
             let mut me = self.clone();
-            // Now start adding the other segments while correcting the index
+            // Now start adding the other segments: on the overlap, the states of self are kept.
             for state in &other
                 .states
                 .iter()
                 .copied()
-                .filter(|s| s.epoch() > self.last().epoch())
+                .filter(|s| s.epoch() > self.last().epoch() || s.epoch() < self.first().epoch())
                 .collect::<Vec<S>>()
             {
                 me.states.push(*state);
-- 
2.43.0


From e03ee6ad78e3bdcc487ac8884e278b282514d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 014/100] fix: interpolate the propellant mass between the two
 surrounding states

The average mass rate since the first interpolation sample was added to the mass of a
sample in the middle of the interpolation window.
---
 nyx-core/src/md/trajectory/interpolatable.rs | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..047520c 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -94,13 +94,20 @@ impl Interpolatable for Spacecraft {
             self.orbit.frame,
         );
 
-        // Fuel is linearly interpolated -- should really be a Lagrange interpolation here
-        let first = states.first().unwrap();
-        let last = states.last().unwrap();
-        let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
-            / (last.epoch() - first.epoch()).to_seconds();
-
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        // Fuel is linearly interpolated between the two states around this epoch.
+        let next_idx = states
+            .partition_point(|state| state.epoch() < epoch)
+            .clamp(1.min(n - 1), n - 1);
+        let prev = &states[next_idx.saturating_sub(1)];
+        let next = &states[next_idx];
+        let span_s = (next.epoch() - prev.epoch()).to_seconds();
+
+        self.mass.prop_mass_kg = prev.mass.prop_mass_kg;
+        if span_s > 0.0 {
+            self.mass.prop_mass_kg += (next.mass.prop_mass_kg - prev.mass.prop_mass_kg)
+                * (epoch - prev.epoch()).to_seconds()
+                / span_s;
+        }
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From 91eaa6492737bde6f57af51fc0586bc148c0aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:16 +0000
Subject: [PATCH 015/100] fix: set each component of the thrust direction to
 the provided value

The direction was normalized after setting each component, so setting the three components
of a unit vector led to another direction, or to NaN if the first one is zero.
---
 nyx-core/src/cosmic/spacecraft.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/cosmic/spacecraft.rs b/nyx-core/src/cosmic/spacecraft.rs
index 600a62e..0ad4e80 100644
--- a/nyx-core/src/cosmic/spacecraft.rs
+++ b/nyx-core/src/cosmic/spacecraft.rs
@@ -588,34 +588,13 @@ impl State for Spacecraft {
                 None => return Err(StateError::NoThrusterAvail),
             },
             StateParameter::ThrustX() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[0] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                self.thrust_direction.get_or_insert_default().x = val
             }
             StateParameter::ThrustY() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[1] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                self.thrust_direction.get_or_insert_default().y = val
             }
             StateParameter::ThrustZ() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[2] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                self.thrust_direction.get_or_insert_default().z = val
             }
             StateParameter::ThrustInPlane(_) | StateParameter::ThrustOutOfPlane(_) => {
                 return Err(StateError::ReadOnly { param });
-- 
2.43.0


From d092dd4afe67228d3974a462e0aa7401a7d52f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:29 +0000
Subject: [PATCH 016/100] fix: trajectory parquet files restore Cr and Cd, and
 no panic without any state to export

---
 nyx-core/src/md/trajectory/sc_traj.rs |  2 ++
 nyx-core/src/md/trajectory/traj.rs    | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index a4e9717..fba5f07 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -244,6 +244,8 @@ impl Traj<Spacecraft> {
             (StateParameter::DryMass(), false),
             (StateParameter::Isp(), false),
             (StateParameter::PropMass(), false),
+            (StateParameter::Cr(), false),
+            (StateParameter::Cd(), false),
             (StateParameter::Thrust(), false),
             (StateParameter::ThrustX(), false),
             (StateParameter::ThrustY(), false),
diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index f8ad5c9..f3757af 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -235,7 +235,9 @@ where
         let path_buf = cfg.actual_path(path);
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let states = if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
+        let states = if !self.states.is_empty()
+            && (cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some())
+        {
             // Must interpolate the data!
             let start = cfg.start_epoch.unwrap_or_else(|| self.first().epoch());
             let end = cfg.end_epoch.unwrap_or_else(|| self.last().epoch());
@@ -245,6 +247,12 @@ where
             self.states.to_vec()
         };
 
+        if states.is_empty() {
+            return Err(Box::new(TrajError::CreationError {
+                msg: "No trajectory states to export".to_string(),
+            }));
+        }
+
         // Build the schema
         let mut hdrs = vec![Field::new("Epoch (UTC)", DataType::Utf8, false)];
 
-- 
2.43.0


From ceb814cc6d680faaa7ef4a1ce43642090ceb6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:36 +0000
Subject: [PATCH 017/100] fix: keep the epoch in the interpolation window of
 short trajectories

With exactly as many states as interpolation samples, the first state was left out of the
window so the first interval was extrapolated (several kilometers off in LEO).
---
 nyx-core/src/md/trajectory/traj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index f3757af..f245c91 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -110,7 +110,7 @@ where
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
-                    first_idx = last_idx.saturating_sub(2 * num_left);
+                    first_idx = last_idx.saturating_sub(INTERPOLATION_SAMPLES);
                 }
 
                 let mut states = Vec::with_capacity(last_idx - first_idx);
-- 
2.43.0


From 1641177a262d67e38aba10f551b64d16241c91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 018/100] fix: tracking arc offset bounds, and drop the
 measurements left without data

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 28 ++++++++-----------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..0c90681 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -20,7 +20,7 @@ use core::fmt;
 use hifitime::prelude::{Duration, Epoch};
 use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
-use std::ops::Bound::{self, Excluded, Included, Unbounded};
+use std::ops::Bound;
 use std::ops::{Add, AddAssign, RangeBounds};
 
 mod io_ccsds_tdm;
@@ -396,17 +396,11 @@ impl TrackingDataArc {
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
+        let first_epoch = self.start_epoch().unwrap();
+        let start = bound.start_bound().map(|offset| first_epoch + *offset);
+        let end = bound.end_bound().map(|offset| first_epoch + *offset);
 
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch((start, end))
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
@@ -467,14 +461,10 @@ impl TrackingDataArc {
 
     /// Returns a new tracking arc that contains measurements from all trackers except the one provided
     pub fn exclude_measurement_type(mut self, excluded_type: MeasurementType) -> Self {
-        self.measurements = self
-            .measurements
-            .iter_mut()
-            .map(|msr| {
-                msr.data.retain(|msr_type, _| *msr_type != excluded_type);
-                msr.clone()
-            })
-            .collect::<Vec<Measurement>>();
+        self.measurements.retain_mut(|msr| {
+            msr.data.retain(|msr_type, _| *msr_type != excluded_type);
+            !msr.data.is_empty()
+        });
         self
     }
 
-- 
2.43.0


From 2b15c1b939fa645bfd076519ea4bd28f4ce0adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 019/100] fix: downsample each tracker on its own, and keep the
 moduli

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 0c90681..d2c9f60 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -218,6 +218,24 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self.clone();
         }
+
+        let trackers = self.unique_aliases();
+        if trackers.len() > 1 {
+            // Never average the measurements of different trackers: downsample each of them on its own.
+            let mut result = self.clone();
+            result.measurements = trackers
+                .into_iter()
+                .flat_map(|tracker| {
+                    self.clone()
+                        .filter_by_tracker(tracker)
+                        .downsample(target_step)
+                        .measurements
+                })
+                .collect();
+            result.sort();
+            return result;
+        }
+
         let current_step = self.min_duration_sep().unwrap();
 
         if current_step >= target_step {
@@ -239,6 +257,8 @@ impl TrackingDataArc {
 
         let mut result = TrackingDataArc {
             source: self.source.clone(),
+            moduli: self.moduli.clone(),
+            force_reject: self.force_reject,
             ..Default::default()
         };
 
-- 
2.43.0


From bc83823d867a12f2be175862e277f20052a90093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 020/100] fix: measurements with different measurement types
 are not equal

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From e99916b641919d687a0305c9ca5300390490c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 021/100] fix: tracking parquet files keep absent measurements
 absent, restore X/Y/Z, and keep the last measurement

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 146 ++++++------------
 1 file changed, 49 insertions(+), 97 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..298e4fd 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -23,8 +23,7 @@ use arrow::array::{Array, Float64Builder, StringBuilder};
 use arrow::datatypes::{DataType, Field, Schema};
 use arrow::record_batch::RecordBatch;
 use arrow::{
-    array::{Float64Array, PrimitiveArray, StringArray},
-    datatypes,
+    array::{Float64Array, StringArray},
     record_batch::RecordBatchReader,
 };
 use hifitime::{Epoch, TimeScale};
@@ -35,6 +34,7 @@ use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
 use snafu::{ResultExt, ensure};
 use std::collections::HashMap;
 use std::fs::File;
+use std::ops::Bound;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -48,7 +48,9 @@ impl TrackingDataArc {
         let file = File::open(&path).context(StdIOSnafu {
             action: "opening file for tracking arc",
         })?;
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "opening tracking arc",
+        })?;
 
         let reader = builder.build().context(ParquetSnafu {
             action: "reading tracking arc",
@@ -57,19 +59,28 @@ impl TrackingDataArc {
         // Check the schema
         let mut has_epoch = false;
         let mut has_tracking_dev = false;
-        let mut range_avail = false;
-        let mut doppler_avail = false;
-        let mut az_avail = false;
-        let mut el_avail = false;
+        let supported = [
+            MeasurementType::Range,
+            MeasurementType::Doppler,
+            MeasurementType::Azimuth,
+            MeasurementType::Elevation,
+            MeasurementType::X,
+            MeasurementType::Y,
+            MeasurementType::Z,
+        ];
+        let mut available = Vec::new();
         for field in &reader.schema().fields {
             match field.name().as_str() {
                 "Epoch (UTC)" => has_epoch = true,
                 "Tracking device" => has_tracking_dev = true,
-                "Range (km)" => range_avail = true,
-                "Doppler (km/s)" => doppler_avail = true,
-                "Azimuth (deg)" => az_avail = true,
-                "Elevation (deg)" => el_avail = true,
-                _ => {}
+                name => {
+                    if let Some(msr_type) = supported
+                        .iter()
+                        .find(|msr_type| msr_type.to_field().name() == name)
+                    {
+                        available.push(*msr_type);
+                    }
+                }
             }
         }
 
@@ -88,9 +99,9 @@ impl TrackingDataArc {
         );
 
         ensure!(
-            range_avail || doppler_avail || az_avail || el_avail,
+            !available.is_empty(),
             MissingDataSnafu {
-                which: "`Range (km)` or `Doppler (km/s)` or `Azimuth (deg)` or `Elevation (deg)`"
+                which: "`Range (km)` or `Doppler (km/s)` or `Azimuth (deg)` or `Elevation (deg)` or `X (km)` or `Y (km)` or `Z (km)`"
             }
         );
 
@@ -116,57 +127,18 @@ impl TrackingDataArc {
                 .downcast_ref::<StringArray>()
                 .unwrap();
 
-            let range_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if range_avail {
-                Some(
-                    batch
-                        .column_by_name("Range (km)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
-
-            let doppler_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if doppler_avail {
-                Some(
-                    batch
-                        .column_by_name("Doppler (km/s)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
-
-            let azimuth_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if az_avail {
-                Some(
-                    batch
-                        .column_by_name("Azimuth (deg)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
-
-            let elevation_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if el_avail {
-                Some(
+            let columns = available
+                .iter()
+                .map(|msr_type| {
                     batch
-                        .column_by_name("Elevation (deg)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
+                        .column_by_name(msr_type.to_field().name())
+                        .and_then(|column| column.as_any().downcast_ref::<Float64Array>())
+                        .map(|column| (*msr_type, column))
+                        .ok_or_else(|| InputOutputError::UnsupportedData {
+                            which: format!("{msr_type:?} column is not of 64 bit floats"),
+                        })
+                })
+                .collect::<Result<Vec<_>, _>>()?;
 
             // Set the measurements in the tracking arc
             for i in 0..batch.num_rows() {
@@ -183,28 +155,11 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Range, range_data.unwrap().value(i));
-                }
-
-                if doppler_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
-                }
-
-                if az_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
-                }
-
-                if el_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
+                for (msr_type, column) in &columns {
+                    // A null means that there is no such measurement at that epoch.
+                    if column.is_valid(i) {
+                        measurement.data.insert(*msr_type, column.value(i));
+                    }
                 }
 
                 measurements.push(measurement);
@@ -266,19 +221,16 @@ impl TrackingDataArc {
 
         // Build the measurement iterator
 
-        let measurements =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.start_epoch().unwrap());
-                let end = cfg.end_epoch.unwrap_or_else(|| self.end_epoch().unwrap());
+        let measurements = if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() {
+            let start = cfg.start_epoch.map_or(Bound::Unbounded, Bound::Included);
+            let end = cfg.end_epoch.map_or(Bound::Unbounded, Bound::Excluded);
 
-                info!("Exporting measurements from {start} to {end}.");
+            info!("Exporting measurements from {start:?} to {end:?}.");
 
-                self.clone().filter_by_epoch(start..end).measurements
-            } else {
-                self.measurements.clone()
-            };
+            self.clone().filter_by_epoch((start, end)).measurements
+        } else {
+            self.measurements.clone()
+        };
 
         // Build all of the records
 
-- 
2.43.0


From b96c1ce79e8659e4d31db8e8b4e9331cc0598505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 022/100] fix: CCSDS TDM angles of two way paths, corrections
 of two way data, and UTC epochs

---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs   | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..6f05afe 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -163,9 +163,7 @@ impl TrackingDataArc {
             }
 
             if let Some((mtype, epoch, value)) = parse_measurement_line(line, time_system)? {
-                // 1. Calculate the effective divider for this specific line.
-                // (See the critique below regarding why mutating msr_divider here was a bug).
-                let effective_divider = if [
+                if [
                     MeasurementType::ReceiveFrequency,
                     MeasurementType::TransmitFrequency,
                     MeasurementType::TransmitFrequencyRate,
@@ -173,9 +171,13 @@ impl TrackingDataArc {
                 .contains(&mtype)
                 {
                     has_freq_data = true;
-                    1.0
-                } else {
+                }
+
+                // Only the range and Doppler accumulate over both legs of a two way path.
+                let effective_divider = if mtype.may_be_two_way() {
                     msr_divider
+                } else {
+                    1.0
                 };
 
                 let scaled_value = value / effective_divider;
@@ -286,7 +288,11 @@ impl TrackingDataArc {
                 ] {
                     let kw = format!("CORRECTION_{}", msr_type.ccsds_tdm_name());
                     if let Some(correction_str) = metadata.get(&kw) {
-                        if let Ok(correction) = correction_str.parse::<f64>() {
+                        if let Ok(mut correction) = correction_str.parse::<f64>() {
+                            if msr_type.may_be_two_way() {
+                                // The correction applies to the whole path, like the data.
+                                correction /= msr_divider;
+                            }
                             measurement.correct(msr_type, correction);
                             all_applied_corrections.insert(msr_type);
                         } else {
@@ -516,13 +522,21 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.start_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.end_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
 
@@ -593,7 +607,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::to_time_scale(m.epoch, iso8601_no_ts, TimeScale::UTC),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From cd375bc74f06612c066ef4431664243222e4f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:20 +0000
Subject: [PATCH 023/100] fix: measurement types absent from a measurement do
 not affect the filter

---
 nyx-core/src/od/groundpnt/sensitivity.rs |  2 +-
 nyx-core/src/od/interlink/sensitivity.rs |  2 +-
 nyx-core/src/od/msr/sensitivity.rs       |  2 +-
 nyx-core/src/od/process/mod.rs           | 11 ++++++++++-
 nyx-core/src/od/simulator/trackdata.rs   |  3 ++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..caeee8b 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -325,13 +325,22 @@ where
                                         device.measure(epoch, &traj, None, &self.almanac)?
                                     {
                                         // Apply any biases on the computed observation
-                                        let computed_obs = computed_meas
+                                        let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
                                             - device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
 
+                                        // A measurement type absent from this measurement has no residual.
+                                        for (i, avail) in
+                                            msr.availability(&cur_msr_types).iter().enumerate()
+                                        {
+                                            if !avail {
+                                                computed_obs[i] = real_obs[i];
+                                            }
+                                        }
+
                                         // Apply the modulo to the real obs
                                         if let Some(moduli) = &arc.moduli {
                                             let mut obs_ambiguity =
diff --git a/nyx-core/src/od/simulator/trackdata.rs b/nyx-core/src/od/simulator/trackdata.rs
index a063e3c..23fe2f9 100644
--- a/nyx-core/src/od/simulator/trackdata.rs
+++ b/nyx-core/src/od/simulator/trackdata.rs
@@ -90,7 +90,8 @@ where
         DefaultAllocator: Allocator<M, M>,
     {
         // Rebuild the R matrix of the measurement noise.
-        let mut r_mat = OMatrix::<f64, M, M>::zeros();
+        // Rows without a measurement type have no sensitivity: unit noise prevents these from making the innovation singular.
+        let mut r_mat = OMatrix::<f64, M, M>::identity();
 
         for (i, msr_type) in msr_types.iter().enumerate() {
             if self.measurement_types().contains(msr_type) {
-- 
2.43.0


From 9496b31998a6aca2de6e3433a72222dcb74d1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:47 +0000
Subject: [PATCH 024/100] fix: predictions stop at the requested epoch and
 initialize the process noises

---
 nyx-core/src/od/kalman/filtering.rs |  1 +
 nyx-core/src/od/process/mod.rs      | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/kalman/filtering.rs b/nyx-core/src/od/kalman/filtering.rs
index e7c7bf7..89c458b 100644
--- a/nyx-core/src/od/kalman/filtering.rs
+++ b/nyx-core/src/od/kalman/filtering.rs
@@ -322,5 +322,6 @@ where
     /// Overwrites all of the process noises to the one provided
     pub fn set_process_noise(&mut self, snc: ProcessNoise<A>) {
         self.process_noise = vec![snc];
+        self.initialize_process_noises();
     }
 }
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index caeee8b..f449235 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -451,6 +451,11 @@ where
         initial_estimate: KfEstimate<D::StateType>,
         end_epoch: Epoch,
     ) -> Result<ODSolution<D::StateType, KfEstimate<D::StateType>, MsrSize, Trk>, ODError> {
+        ensure!(
+            !self.max_step.is_negative() && self.max_step != Duration::ZERO,
+            StepSizeSnafu { step: self.max_step }
+        );
+
         // Initialize the solution with no measurement types.
         let mut od_sol = ODSolution::new(self.devices.clone(), IndexSet::new());
 
@@ -469,14 +474,19 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
-        loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+        let mut epoch = prop_instance.state.epoch();
+        while epoch < end_epoch {
+            // Do not predict past the requested end epoch.
+            let next_step = self.max_step.min(end_epoch - epoch);
+            let nominal_state = prop_instance.for_duration(next_step).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
-            let epoch = nominal_state.epoch();
+            epoch = nominal_state.epoch();
             // No measurement can be used here, let's just do a time update
             debug!("time update {epoch}");
             match kf.time_update(nominal_state) {
@@ -486,9 +496,6 @@ where
                 Err(e) => return Err(e),
             }
             prop_instance.state.reset_stm();
-            if epoch >= end_epoch {
-                break;
-            }
         }
 
         Ok(od_sol)
-- 
2.43.0


From ae777a0f97fef6e96fbcb6b87cbfabe460a12680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:51 +0000
Subject: [PATCH 025/100] fix: keep the filter trajectory sorted when the
 initial estimate is after the first measurement

---
 nyx-core/src/od/process/mod.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index f449235..6fccc1a 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -218,16 +218,10 @@ where
                 // Propagate for the minimum time between the maximum step size, the next step size, and the duration to the next measurement.
                 let next_step_size = delta_t.min(prop_instance.step_size).min(self.max_step);
 
-                // Remove old states from the trajectory
-                // This is a manual implementation of `retain` because we know it's a sorted vec, so no need to resort every time
-                let mut index = traj.states.len();
-                while index > 0 {
-                    index -= 1;
-                    if traj.states[index].epoch() >= epoch {
-                        break;
-                    }
+                // Remove the states which are about to be propagated again from the trajectory, which is kept sorted.
+                while traj.states.last().is_some_and(|state| state.epoch() >= epoch) {
+                    traj.states.pop();
                 }
-                traj.states.truncate(index);
 
                 debug!("propagate for {next_step_size} (Δt to next msr: {delta_t})");
                 let (_, traj_covar) = prop_instance
-- 
2.43.0


From b7339b51f4b1846c58503125acd9909a510ccad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 026/100] fix: two way azimuths are averaged along the shortest
 arc

---
 nyx-core/src/od/msr/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..5fdb4ab 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -21,7 +21,11 @@ use arrow::datatypes::{DataType, Field};
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, str::FromStr};
 
-use crate::{io::InputOutputError, od::ODError};
+use crate::{
+    io::InputOutputError,
+    od::ODError,
+    utils::{between_0_360, between_pm_180},
+};
 
 #[cfg(feature = "python")]
 use pyo3::prelude::*;
@@ -134,7 +138,9 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Azimuths are between 0 and 360 degrees, so average along the shortest arc.
+                let delta_deg = between_pm_180(aer_t1.azimuth_deg - aer_t0.azimuth_deg);
+                let az_deg = between_0_360(aer_t0.azimuth_deg + delta_deg * 0.5);
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
-- 
2.43.0


From 3f70a75dfedba4422f6da832fb91439d72db7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 027/100] fix: ground station partials are those of the
 measurement model

---
 nyx-core/src/od/msr/sensitivity.rs | 87 ++++++++++++++++--------------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..46d4a60 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -23,7 +23,7 @@ use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -120,7 +120,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &GroundStation,
         almanac: &Almanac,
@@ -141,15 +141,10 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // Always recompute the expected to range, a better model for scalar OD processing.
-                let ρ_km = tx
-                    .azimuth_elevation_of(receiver, None, almanac)
-                    .context(ODAlmanacSnafu {
-                        action: "computing range for Doppler measurement",
-                    })?
-                    .range_km;
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Always recompute the expected range and range rate: the partials are those of the model, and the
+                // measured values may be noisy or ambiguous.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -169,7 +164,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -185,37 +180,49 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                     _tx: PhantomData::<_>,
                 })
             }
-            MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-
-                let sensitivity_row =
-                    OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
-                    ]);
-
-                Ok(Self {
-                    sensitivity_row,
-                    _rx: PhantomData::<_>,
-                    _tx: PhantomData::<_>,
-                })
-            }
-            MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+            MeasurementType::Azimuth | MeasurementType::Elevation => {
+                // Build the sensitivity in the topocentric (SEZ) frame of the transmitter and rotate it into the estimation frame.
+                let tx_fixed =
+                    tx.to_orbit(rx.orbit.epoch, almanac)
+                        .context(ODAlmanacSnafu {
+                            action: "computing transmitter location when computing sensitivity matrix",
+                        })?;
+                let sez_to_fixed = tx_fixed
+                    .dcm_from_topocentric_to_body_fixed()
+                    .map_err(|source| ODError::MeasurementSimError {
+                        details: format!("computing topocentric frame of {}: {source}", tx.name),
+                    })?
+                    .rot_mat;
+                let fixed_to_rx = almanac
+                    .rotate(tx_fixed.frame, receiver.frame, receiver.epoch)
+                    .map_err(|source| ODError::MeasurementSimError {
+                        details: format!("rotating topocentric frame of {}: {source}", tx.name),
+                    })?
+                    .rot_mat;
+                let sez_to_rx = fixed_to_rx * sez_to_fixed;
+
+                let ρ_sez = sez_to_rx.transpose() * delta_r;
+                let horiz2 = ρ_sez.x.powi(2) + ρ_sez.y.powi(2);
+                let horiz = horiz2.sqrt();
+                let ρ2 = ρ_sez.norm_squared();
+
+                let partial_sez = if msr_type == MeasurementType::Azimuth {
+                    // Azimuth is measured from North towards East.
+                    Vector3::new(ρ_sez.y / horiz2, -ρ_sez.x / horiz2, 0.0)
+                } else {
+                    Vector3::new(
+                        -ρ_sez.x * ρ_sez.z / (ρ2 * horiz),
+                        -ρ_sez.y * ρ_sez.z / (ρ2 * horiz),
+                        horiz / ρ2,
+                    )
+                };
+
+                // Both angles are in degrees.
+                let partial = sez_to_rx * partial_sez.map(f64::to_degrees);
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        partial.x, partial.y, partial.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
-- 
2.43.0


From cf81bede31e8dfe4acfb6d6ddbfb95d5e6611e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 028/100] fix: interlink Doppler uses the relative velocity,
 and its partials those of the model

---
 nyx-core/src/od/interlink/sensitivity.rs | 23 ++++++-----------------
 nyx-core/src/od/interlink/trk_device.rs  |  6 +++---
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 83aad3a..f389371 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -82,7 +82,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
@@ -107,17 +107,10 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Doppler measurement data is missing".to_string(),
-                    }
-                })?;
+                // Always use the expected range and range rate: the partials are those of the model, and the measured
+                // values may be noisy, ambiguous, or missing.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -137,11 +130,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..ff8c45a 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the relative velocity of the receiver with respect to the transmitter.
+            let rho_dot_tx_frame = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rho_dot_tx_frame) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From 1cbec82feed6214217d2d44d887505742867b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 029/100] fix: position devices measure the axis of the
 measurement type

---
 nyx-core/src/od/position/trk_device.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..69377a0 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,10 +73,20 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
+        for msr_type in self.measurement_types.iter().copied() {
+            let axis = match msr_type {
+                MeasurementType::X => 0,
+                MeasurementType::Y => 1,
+                MeasurementType::Z => 2,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by XyzDevice"),
+                    });
+                }
+            };
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii]
+                rx.orbit.radius_km[axis]
                     + noises.get(&msr_type).unwrap_or(&0.0)
                     + self.measurement_bias(msr_type, rx.orbit.epoch)?,
             );
-- 
2.43.0


From 3f3488071e03ab2775699ffccbfce77be1847b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 030/100] fix: ground asset partials are in the asset frame,
 and its STM is propagated

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 32 +++++++--------
 nyx-core/src/od/groundpnt/sensitivity.rs     | 42 ++++++++------------
 2 files changed, 32 insertions(+), 42 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..0f520f3 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -31,28 +31,28 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        delta_t: f64,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
     {
-        let d_x = Vector6::from_iterator([
-            state_ctx.latitude_rate_deg_s,
-            state_ctx.longitude_rate_deg_s,
-            state_ctx.height_rate_km_s,
-            0.0,
-            0.0,
-            0.0,
-        ]);
+        let (d_x, grad) = self.dual_eom(delta_t, state_ctx, almanac)?;
+
+        let mut d_vec = OVector::<f64, Const<42>>::zeros();
+        d_vec.fixed_rows_mut::<6>(0).copy_from(&d_x);
+
+        if state_ctx.stm.is_some() {
+            // Integrate the state transition matrix as well.
+            let stm = Matrix6::from_column_slice(&state_vec.as_slice()[6..]);
+            d_vec
+                .fixed_rows_mut::<36>(6)
+                .copy_from_slice((grad * stm).as_slice());
+        }
 
-        Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
-        ))
+        Ok(d_vec)
     }
 
     fn dual_eom(
diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..4d36df6 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -22,7 +22,7 @@ use crate::od::groundpnt::GroundAsset;
 use crate::od::interlink::InterlinkTxSpacecraft;
 use crate::od::msr::{Measurement, MeasurementType, sensitivity::ScalarSensitivity};
 use crate::od::prelude::sensitivity::{ScalarSensitivityT, TrackerSensitivity};
-use crate::od::{ODAlmanacSnafu, ODError};
+use crate::od::{ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
 use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
@@ -74,26 +74,26 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
     /// ground asset. Then we compute the AER as seen from the ground asset.
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &GroundAsset,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
     ) -> Result<Self, ODError> {
         let receiver = rx.orbit();
-        let loc = rx.to_location();
 
         // Compute the device location in the receiver frame because we compute the sensitivity in that frame.
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
         // must be in the estimation frame.
 
-        let transmitter = tx
-            .traj
-            .at(receiver.epoch)
-            .map_err(|source| ODError::ODTrajError {
-                source,
-                details: "computing sensitivity ground asset / interlink".into(),
-            })?
-            .orbit;
+        let transmitter = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::location(
+            tx,
+            receiver.epoch,
+            receiver.frame,
+            almanac,
+        )
+        .context(ODAlmanacSnafu {
+            action: "computing transmitter location when computing sensitivity matrix",
+        })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
@@ -110,20 +110,10 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = match msr.data.get(&MeasurementType::Range) {
-                    Some(range_km) => *range_km,
-                    None => {
-                        almanac
-                            .azimuth_elevation_range_sez_from_location(transmitter, loc, None, None)
-                            .context(ODAlmanacSnafu {
-                                action: "computing range for Doppler measurement",
-                            })?
-                            .range_km
-                    }
-                };
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Always use the expected range and range rate: the partials are those of the model, and the measured
+                // values may be noisy, ambiguous, or missing.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -143,7 +133,7 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From bc463ff6e772deb0de017b14cccc8aca15f0fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:20 +0000
Subject: [PATCH 031/100] fix: the velocity of ground assets enters their
 Doppler

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 11 +++++++++--
 nyx-core/src/od/groundpnt/trk_device.rs  | 16 +++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 4d36df6..07480dd 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -27,7 +27,7 @@ use crate::{Spacecraft, State};
 use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -106,7 +106,14 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
             })?;
 
         let delta_r = receiver.radius_km - transmitter.radius_km;
-        let delta_v = receiver.velocity_km_s - transmitter.velocity_km_s;
+        // The asset may be moving in its own frame.
+        let receiver_velocity_km_s = jac.fixed_view::<3, 3>(3, 3)
+            * Vector3::new(
+                rx.latitude_rate_deg_s,
+                rx.longitude_rate_deg_s,
+                rx.height_rate_km_s,
+            );
+        let delta_v = receiver_velocity_km_s - transmitter.velocity_km_s;
 
         match msr_type {
             MeasurementType::Doppler => {
diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index d07545b..c51aefc 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -22,6 +22,7 @@ use anise::math::interpolation::InterpolationError;
 use anise::prelude::{Frame, Orbit};
 use hifitime::{Epoch, TimeUnits};
 use indexmap::IndexSet;
+use nalgebra::Vector3;
 use rand_pcg::Pcg64Mcg;
 use snafu::ResultExt;
 
@@ -151,6 +152,19 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
         if aer.elevation_above_mask_deg() < 0.0 {
             Ok(None)
         } else {
+            // The asset may be moving in its own frame, and the AER is that of a fixed location.
+            let vel_sez_km_s = rx.velocity_sez_m_s().map_err(|source| ODError::ODAlmanac {
+                source: Box::new(AlmanacError::AlmanacPhysics {
+                    action: "computing asset velocity",
+                    source: Box::new(source),
+                }),
+                action: "computing asset velocity",
+            })? * 1e-3;
+            let (sin_az, cos_az) = aer.azimuth_deg.to_radians().sin_cos();
+            let (sin_el, cos_el) = aer.elevation_deg.to_radians().sin_cos();
+            let los_sez = Vector3::new(-cos_el * cos_az, cos_el * sin_az, sin_el);
+            let range_rate_km_s = aer.range_rate_km_s - los_sez.dot(&vel_sez_km_s);
+
             let noises = self.noises(rx.epoch, rng)?;
 
             let mut msr =
@@ -160,7 +174,7 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
             for (ii, msr_type) in self.measurement_types.iter().enumerate() {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
-                    MeasurementType::Doppler => aer.range_rate_km_s,
+                    MeasurementType::Doppler => range_rate_km_s,
                     // Or return an error for unsupported types
                     _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
                 } + noises[ii + 1];
-- 
2.43.0


From d200e45d56ac8826715b4734f93be39cec7be77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:59 +0000
Subject: [PATCH 032/100] fix: batch least squares maps partials to the batch
 epoch, and uses every measurement

---
 nyx-core/src/od/blse/mod.rs | 234 +++++++++++++++++-------------------
 1 file changed, 110 insertions(+), 124 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..fe774b3 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -193,108 +193,98 @@ where
             let mut prop_inst = self.prop.with(current_estimate.with_stm(), (self.almanac).clone()).quiet();
             let mut epoch = current_estimate.epoch();
 
-            // Store the STM to the start of the batch.
-            let mut stm = StateMatrix::<D>::identity();
-
             for msr in measurements {
                 if msr.rejected {
                     continue;
                 }
                 let msr_epoch = msr.epoch;
 
-                loop {
-                    let delta_t = msr_epoch - epoch;
-                    if delta_t <= Duration::ZERO {
-                        // Move onto the next measurement.
-                        break;
-                    }
-
+                while epoch < msr_epoch {
                     // Propagate for the minimum time between the maximum step size, the next step size, and the duration to the next measurement.
-                    let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
+                    let next_step = (msr_epoch - epoch).min(prop_inst.step_size).min(self.max_step);
 
                     // Propagate reference state from the previous state to msr_epoch
-                    let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
-                    epoch = this_state.epoch();
-
-                    // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
-                    let step_stm = this_state.stm().expect("STM unavailable");
-                    // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
-                    stm = step_stm * stm;
-
-                    if (epoch - msr_epoch).abs() < self.epoch_precision {
-                        // Get the correct tracking device
-                        let device = match devices.get_mut(&msr.tracker) {
-                            Some(d) => d,
-                            None => {
-                                if !unknown_trackers.contains(&msr.tracker) {
-                                    error!(
-                                        "Tracker {} is not in the list of configured devices",
-                                        msr.tracker
-                                    );
-                                }
-                                unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                    epoch = prop_inst.for_duration(next_step).context(ODPropSnafu)?.epoch();
+                }
+
+                let this_state = prop_inst.state;
+
+                // The STM is never reset, so this is Phi(t_i, t_0).
+                let stm = this_state.stm().expect("STM unavailable");
+
+                if (epoch - msr_epoch).abs() < self.epoch_precision {
+                    // Get the correct tracking device
+                    let device = match devices.get_mut(&msr.tracker) {
+                        Some(d) => d,
+                        None => {
+                            if !unknown_trackers.contains(&msr.tracker) {
+                                error!(
+                                    "Tracker {} is not in the list of configured devices",
+                                    msr.tracker
+                                );
                             }
-                        };
+                            unknown_trackers.insert(msr.tracker.clone());
+                            continue;
+                        }
+                    };
 
-                        for msr_type in msr.data.keys().copied() {
-                            let mut msr_types = IndexSet::new();
-                            msr_types.insert(msr_type);
+                    for msr_type in msr.data.keys().copied() {
+                        let mut msr_types = IndexSet::new();
+                        msr_types.insert(msr_type);
 
-                            let h_tilde = device
-                            .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
+                        let h_tilde = device
+                        .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
 
-                            // Compute expected measurement H(X(t_i))
-                            let computed_meas_opt = device
-                                .measure_instantaneous(this_state, None, &self.almanac)?;
+                        // Compute expected measurement H(X(t_i))
+                        let computed_meas_opt = device
+                            .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                            let computed_meas = match computed_meas_opt {
-                                Some(cm) => cm,
-                                None => {
-                                    debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
-                                    continue;
-                                }
-                            };
+                        let computed_meas = match computed_meas_opt {
+                            Some(cm) => cm,
+                            None => {
+                                debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
+                                continue;
+                            }
+                        };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        // Get the computed observation value
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
 
-                            // Get real observation y_i
-                            let real_obs = msr.observation::<U1>(&msr_types)[0];
+                        // Get real observation y_i
+                        let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                            // Sanity check measurement value
-                            ensure!(
-                                real_obs.is_finite(),
-                                InvalidMeasurementSnafu {
-                                    epoch: msr_epoch,
-                                    val: real_obs
-                                }
-                            );
+                        // Sanity check measurement value
+                        ensure!(
+                            real_obs.is_finite(),
+                            InvalidMeasurementSnafu {
+                                epoch: msr_epoch,
+                                val: real_obs
+                            }
+                        );
 
-                            // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                        // Compute residual dy = y_i - H(X(t_i))
+                        let residual = real_obs - computed_obs;
 
-                            // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
-                            let r_matrix = device
-                                .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                            let r_variance = r_matrix[(0, 0)];
+                        // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
+                        let r_matrix = device
+                            .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                        let r_variance = r_matrix[(0, 0)];
 
-                            ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                            let weight = 1.0 / r_variance;
+                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                        let weight = 1.0 / r_variance;
 
-                            // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
-                            let h_matrix = h_tilde * stm;
+                        // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
+                        let h_matrix = h_tilde * stm;
 
-                            // Accumulate Information Matrix: info_matrix += H^T * W * H
-                            // Recall that the weight is a scalar, so we can move it to the end of the operation.
-                            info_matrix += h_matrix.transpose() * &h_matrix * weight;
+                        // Accumulate Information Matrix: info_matrix += H^T * W * H
+                        // Recall that the weight is a scalar, so we can move it to the end of the operation.
+                        info_matrix += h_matrix.transpose() * &h_matrix * weight;
 
-                            // Accumulate Normal Matrix: normal_matrix += H^T * W * y
-                            normal_matrix += h_matrix.transpose() * residual * weight;
+                        // Accumulate Normal Matrix: normal_matrix += H^T * W * y
+                        normal_matrix += h_matrix.transpose() * residual * weight;
 
-                            // Accumulate sum of squares of weighted residuals
-                            sum_sq_weighted_residuals += weight * residual * residual;
-                        }
+                        // Accumulate sum of squares of weighted residuals
+                        sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
             }
@@ -476,63 +466,59 @@ where
             }
             let msr_epoch = msr.epoch;
 
-            loop {
-                let delta_t = msr_epoch - epoch;
-                if delta_t <= Duration::ZERO {
-                    break;
-                }
+            while epoch < msr_epoch {
+                let next_step = (msr_epoch - epoch).min(prop_inst.step_size).min(self.max_step);
+                epoch = prop_inst.for_duration(next_step).context(ODPropSnafu)?.epoch();
+            }
 
-                let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-                let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
-                epoch = this_state.epoch();
+            let this_state = prop_inst.state;
 
-                if (epoch - msr_epoch).abs() < self.epoch_precision {
-                    let device = match devices.get_mut(&msr.tracker) {
-                        Some(d) => d,
-                        None => {
-                            if !unknown_trackers.contains(&msr.tracker) {
-                                error!(
-                                    "Tracker {} is not in the list of configured devices",
-                                    msr.tracker
-                                );
-                            }
-                            unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+            if (epoch - msr_epoch).abs() < self.epoch_precision {
+                let device = match devices.get_mut(&msr.tracker) {
+                    Some(d) => d,
+                    None => {
+                        if !unknown_trackers.contains(&msr.tracker) {
+                            error!(
+                                "Tracker {} is not in the list of configured devices",
+                                msr.tracker
+                            );
                         }
-                    };
+                        unknown_trackers.insert(msr.tracker.clone());
+                        continue;
+                    }
+                };
 
-                    for msr_type in msr.data.keys().copied() {
-                        let mut msr_types = IndexSet::new();
-                        msr_types.insert(msr_type);
+                for msr_type in msr.data.keys().copied() {
+                    let mut msr_types = IndexSet::new();
+                    msr_types.insert(msr_type);
 
-                        let computed_meas_opt = device
-                            .measure_instantaneous(this_state, None, &self.almanac)?;
+                    let computed_meas_opt = device
+                        .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                        let computed_meas = match computed_meas_opt {
-                            Some(cm) => cm,
-                            None => continue,
-                        };
+                    let computed_meas = match computed_meas_opt {
+                        Some(cm) => cm,
+                        None => continue,
+                    };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
-                        let real_obs = msr.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                    let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                        ensure!(
-                            real_obs.is_finite(),
-                            InvalidMeasurementSnafu {
-                                epoch: msr_epoch,
-                                val: real_obs
-                            }
-                        );
+                    ensure!(
+                        real_obs.is_finite(),
+                        InvalidMeasurementSnafu {
+                            epoch: msr_epoch,
+                            val: real_obs
+                        }
+                    );
 
-                        let residual = real_obs - computed_obs;
-                        let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                        let r_variance = r_matrix[(0, 0)];
+                    let residual = real_obs - computed_obs;
+                    let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                    let r_variance = r_matrix[(0, 0)];
 
-                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                        let weight = 1.0 / r_variance;
+                    ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                    let weight = 1.0 / r_variance;
 
-                        sum_sq_weighted_residuals += weight * residual * residual;
-                    }
+                    sum_sq_weighted_residuals += weight * residual * residual;
                 }
             }
         }
-- 
2.43.0


From 86526867e13e1e2ea770f426d45a700a25dddf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 033/100] fix: RMS of the residuals does not count time updates

---
 nyx-core/src/od/process/solution/stats.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..99fba71 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -150,7 +150,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the postfit residuals
@@ -159,7 +159,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.postfit.dot(&residual.postfit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
@@ -168,7 +168,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
-- 
2.43.0


From 44363f6648ba9f15980f8624153c312a503a6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 034/100] fix: KS statistic over both sides of the empirical
 CDF, with its sample size

---
 nyx-core/src/od/process/solution/stats.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 99fba71..0c625dc 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -215,17 +215,26 @@ where
             / n;
         let std_dev = variance.sqrt();
 
+        if std_dev <= 0.0 || std_dev.is_nan() {
+            // A single value (or identical ones) has no spread to compare to a normal distribution.
+            return Err(ODError::ODNoResiduals {
+                action: "computing the Kolmogorov-Smirnov statistic",
+            });
+        }
+
         // Create a normal distribution based on the empirical mean and std deviation.
         let normal_dist = Normal::new(mean, std_dev).unwrap();
 
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
         for (i, &value) in residual_ratios.iter().enumerate() {
-            let empirical_cdf = (i + 1) as f64 / n;
             let model_cdf = normal_dist.cdf(value);
-            let diff = (empirical_cdf - model_cdf).abs();
-            if diff > d_stat {
-                d_stat = diff;
+            // The empirical CDF is a step function: check both sides of each step.
+            for empirical_cdf in [i as f64 / n, (i + 1) as f64 / n] {
+                let diff = (empirical_cdf - model_cdf).abs();
+                if diff > d_stat {
+                    d_stat = diff;
+                }
             }
         }
         Ok(d_stat)
@@ -243,7 +252,8 @@ where
     /// Returns Ok(true) if the residuals are consistent with a normal distribution,
     /// Ok(false) if not, or None if no residuals are available.
     pub fn is_normal(&self, alpha: Option<f64>) -> Result<bool, ODError> {
-        let n = self.accepted_residuals().len();
+        // Sample size of the KS test: each residual provides one whitened value per measurement dimension.
+        let n = self.accepted_residuals().len() * MsrSize::DIM;
         if n == 0 {
             return Err(ODError::ODNoResiduals {
                 action: "evaluating residual normality",
-- 
2.43.0


From bef1c4506936dcdcfb4c845c0fc62dc1841395e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 035/100] fix: merged OD solutions are chronological, with the
 devices and types of both

---
 .../src/od/process/solution/filter_data.rs    | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..f1a07dc 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,20 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
+        // Apply the permutation to all vectors
+        self.estimates = indices.iter().map(|&i| self.estimates[i].clone()).collect();
+        self.residuals = indices.iter().map(|&i| self.residuals[i].clone()).collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
+
+        // The merged solution includes the devices and measurement types of both solutions.
+        for (name, device) in other.devices {
+            self.devices.entry(name).or_insert(device);
         }
+        self.measurement_types.extend(other.measurement_types);
 
         self
     }
-- 
2.43.0


From 3a2473941513abc27156dd6ad7caa8388b480aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 036/100] fix: equality of OD solutions compares all
 measurement types

---
 nyx-core/src/od/process/solution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/mod.rs b/nyx-core/src/od/process/solution/mod.rs
index 94a3715..bb024b9 100644
--- a/nyx-core/src/od/process/solution/mod.rs
+++ b/nyx-core/src/od/process/solution/mod.rs
@@ -216,7 +216,7 @@ where
             && self.gains.len() == other.gains.len()
             && self.filter_smoother_ratios.len() == other.filter_smoother_ratios.len()
             && self.devices == other.devices
-            && self.measurement_types.iter().all(|msr_type| other.measurement_types.contains(msr_type))
+            && self.measurement_types == other.measurement_types
             && self.estimates.iter().zip(other.estimates.iter()).all(|(mine, theirs)| {
                 (mine.state().to_state_vector() - theirs.state().to_state_vector()).norm() < 1e-6 &&
                 (mine.covar() - theirs.covar()).norm() < 1e-8
-- 
2.43.0


From 20f0b5082c34494fca7896427ef69695ba0b9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 037/100] fix: OD export of a time window includes its gains
 and smoother ratios only

---
 nyx-core/src/od/process/solution/export.rs | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 08bd7d6..49d4b7c 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -346,7 +346,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -359,17 +359,27 @@ where
                 let mut residuals: Vec<Option<Residual<MsrSize>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (i, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[i].clone());
+                        gains.push(self.gains[i].clone());
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[i]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -586,7 +596,7 @@ where
         for i in 0..est_size {
             for j in 0..MsrSize::DIM {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -600,7 +610,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..est_size {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From c10bd8294556492221208646bff97740c91027a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 038/100] fix: OD export rotates the covariance into the RIC
 frame

---
 nyx-core/src/od/process/solution/export.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 49d4b7c..b5a1a09 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -439,19 +439,20 @@ where
         let mut ric_covariances = Vec::new();
 
         for s in &estimates {
-            let dcm_ric2inertial = s
+            let dcm_inertial2ric = s
                 .state()
                 .orbit()
                 .dcm_from_ric_to_inertial()
                 .unwrap()
+                .transpose()
                 .state_dcm();
 
             // Build the matrix view of the orbit part of the covariance.
             let cov = s.covar();
             let orbit_cov = cov.fixed_view::<6, 6>(0, 0);
 
-            // Rotate back into the RIC frame
-            let ric_covar = dcm_ric2inertial * orbit_cov * dcm_ric2inertial.transpose();
+            // Rotate into the RIC frame
+            let ric_covar = dcm_inertial2ric * orbit_cov * dcm_inertial2ric.transpose();
             ric_covariances.push(ric_covar);
         }
 
-- 
2.43.0


From 5388a46f7fe26ea392a12b14af854d7d45810eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:42 +0000
Subject: [PATCH 039/100] fix: OD solutions are reloaded with their types in
 order and their whitened residuals

---
 nyx-core/src/od/process/solution/import.rs | 30 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index adf9c9f..a63a007 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -83,7 +83,9 @@ where
           action: "opening OD solution file",
       })?;
 
-      let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+      let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+          action: "reading OD solution file",
+      })?;
 
       let mut metadata = HashMap::new();
       // Build the custom metadata
@@ -281,10 +283,11 @@ where
             let tracker_col = get_col("Tracker").ok().and_then(|arr| arr.as_any().downcast_ref::<StringArray>().cloned());
             let ratio_col = get_col("Residual ratio").ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned());
 
-            let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
+            // In the order of the measurement types of the solution
+            let mut residual_data_cols: Vec<(MeasurementType, BTreeMap<String, Float64Array>)> = Vec::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
-                 let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
+                 let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
                  for prefix in prefixes {
                       // Again, guessing column name format
                       let base_name = format!("{}: {:?} ({})", prefix, msr_type, msr_type.unit());
@@ -293,8 +296,16 @@ where
                                  type_cols.insert(prefix.to_string(), arr.clone());
                             }
                  }
-                 residual_data_cols.insert(*msr_type, type_cols);
+                 residual_data_cols.push((*msr_type, type_cols));
             }
+            // The whitened residuals are stored by index in the residual
+            let whitened_cols: Vec<Option<Float64Array>> = (0..MsrSize::DIM)
+                .map(|j| {
+                    get_col(&format!("Whitened residual #{j}"))
+                        .ok()
+                        .and_then(|col| col.as_any().downcast_ref::<Float64Array>().cloned())
+                })
+                .collect();
 
             // Gain columns (store for iteration)
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
@@ -428,22 +439,27 @@ where
                      let mut comp_obs_vec = OVector::<f64, MsrSize>::zeros();
                      let mut current_msr_types = IndexSet::with_capacity(MsrSize::DIM);
 
+                     for (j, col) in whitened_cols.iter().enumerate() {
+                          whitened_vec[j] = match col {
+                               Some(col) if col.is_valid(i) => col.value(i),
+                               _ => f64::NAN,
+                          };
+                     }
+
                      let mut msr_idx = 0;
                      for (msr_type, type_cols) in &residual_data_cols {
                            if msr_idx >= MsrSize::DIM { break; } // Should not happen if MsrSize matches data
 
                            // Check if data exists for this type *at this row*
                            let prefit_val = type_cols.get("Prefit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
-                           let whitened_resid_val = type_cols.get("Whitened residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let postfit_val = type_cols.get("Postfit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let noise_val = type_cols.get("Measurement noise").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let real_val = type_cols.get("Real observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let comp_val = type_cols.get("Computed observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
 
                            // Only include if *at least one* value is present for this type in this row
-                           if prefit_val.is_some() || whitened_resid_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
+                           if prefit_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
                                 prefit_vec[msr_idx] = prefit_val.unwrap_or(f64::NAN);
-                                whitened_vec[msr_idx] = whitened_resid_val.unwrap_or(f64::NAN);
                                 postfit_vec[msr_idx] = postfit_val.unwrap_or(f64::NAN);
                                 noise_vec[msr_idx] = noise_val.unwrap_or(f64::NAN);
                                 real_obs_vec[msr_idx] = real_val.unwrap_or(f64::NAN);
-- 
2.43.0


From 1101ac661d41e585aa6496eb21f9fc218b21f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:14 +0000
Subject: [PATCH 040/100] fix: OD solutions are reloaded with their gains,
 whichever the number of types

---
 nyx-core/src/od/process/solution/import.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index a63a007..6b9809d 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -311,14 +311,19 @@ where
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
             for i in 0..state_size {
-                for f in &measurement_types_found {
-                    // Guessing format - needs robust parsing or metadata
-                    let base_name = format!(
-                        "Gain {}*{f:?} ({}*{})",
-                        state_items[i],
-                        cov_units[i],
-                        f.unit()
-                    );
+                for j in 0..MsrSize::DIM {
+                    // Same names as in the export: by measurement type if each has its own column in the gain, by index otherwise
+                    let base_name = if measurement_types_found.len() == MsrSize::DIM {
+                        let f = &measurement_types_found[j];
+                        format!(
+                            "Gain {}*{f:?} ({}*{})",
+                            state_items[i],
+                            cov_units[i],
+                            f.unit()
+                        )
+                    } else {
+                        format!("Gain {}*[{j}]", state_items[i])
+                    };
                     let col_name = schema.fields().iter()
                          .find(|f| f.name().starts_with(&base_name))
                          .map(|f| f.name().as_str());
-- 
2.43.0


From 29383a0435074accdd98f35ed8ff3246ab0e7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 041/100] fix: smoothing an OD solution of one or no estimate
 does not panic

---
 nyx-core/src/od/process/solution/smooth.rs | 30 ++++++++--------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..cffd64a 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -25,6 +25,7 @@ use anise::prelude::Almanac;
 use log::info;
 use msr::sensitivity::TrackerSensitivity;
 use nalgebra::DimMin;
+use snafu::ensure;
 use std::ops::Add;
 
 use super::ODSolution;
@@ -106,6 +107,14 @@ where
         <StateType as State>::Size:
             DimMin<<StateType as State>::Size, Output = <StateType as State>::Size>,
     {
+        ensure!(
+            !self.estimates.is_empty(),
+            TooFewMeasurementsSnafu {
+                need: 1_usize,
+                action: "smoothing an OD solution"
+            }
+        );
+
         let l = self.estimates.len() - 1;
 
         let mut smoothed = Self {
@@ -127,8 +136,7 @@ where
         smoothed.gains.push(None);
         smoothed.filter_smoother_ratios.push(None);
 
-        loop {
-            let k = l - smoothed.estimates.len();
+        for k in (0..l).rev() {
             // Borrow the previously smoothed estimate of the k+1 estimate
             let sm_est_kp1 = &self.estimates[k + 1];
             let x_kp1_l = sm_est_kp1.state_deviation();
@@ -212,10 +220,6 @@ where
             smoothed.filter_smoother_ratios.push(Some(fs_ratios));
             // Set all gains to None.
             smoothed.gains.push(None);
-
-            if smoothed.estimates.len() == self.estimates.len() {
-                break;
-            }
         }
 
         // Note that we have yet to reverse the list, so we print them backward
@@ -226,20 +230,6 @@ where
             smoothed.estimates[0].epoch(),
         );
 
-        // Now, let's add all of the other estimates so that the same indexing can be done
-        // between all the estimates and the smoothed estimates
-        if smoothed.estimates.len() < self.estimates.len() {
-            // Add the estimates that might have been skipped.
-            let mut k = self.estimates.len() - smoothed.estimates.len();
-            loop {
-                smoothed.estimates.push(self.estimates[k].clone());
-                if k == 0 {
-                    break;
-                }
-                k -= 1;
-            }
-        }
-
         // And reverse to maintain the order of estimates
         smoothed.estimates.reverse();
         smoothed.residuals.reverse();
-- 
2.43.0


From db8a77da88351c0c379933bc7c5945bf91da1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 042/100] fix: smoothed postfits are those of the residual of
 the same epoch

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index cffd64a..089e378 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -170,7 +170,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From 5850c3679be69c25763c34df3851ab371d691141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 043/100] fix: smoother uses the previously smoothed estimate

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 089e378..46d371e 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -138,7 +138,7 @@ where
 
         for k in (0..l).rev() {
             // Borrow the previously smoothed estimate of the k+1 estimate
-            let sm_est_kp1 = &self.estimates[k + 1];
+            let sm_est_kp1 = smoothed.estimates.last().unwrap();
             let x_kp1_l = sm_est_kp1.state_deviation();
             let p_kp1_l = sm_est_kp1.covar();
             // Borrow the k-th estimate, which we're smoothing with the next estimate
-- 
2.43.0


From 98a8c66e888e00e08832e551fff9cb8c18c7d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:48 +0000
Subject: [PATCH 044/100] fix: sample alignment does not schedule tracking
 before the trajectory starts

---
 nyx-core/src/od/simulator/arc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..6214abc 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -355,6 +355,10 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                     // If there is an alignment, apply it
                     if let Some(alignment) = scheduler.sample_alignment {
                         strand_range.start = strand_range.start.round(alignment);
+                        if strand_range.start < traj.first().epoch() {
+                            // Rounded to before the trajectory starts, where there is nothing to track.
+                            strand_range.start += alignment;
+                        }
                         strand_range.end = strand_range.end.round(alignment);
                     }
 
-- 
2.43.0


From 3a5f9467c686c8d2bd8c0e582249fb28fdfed0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:54 +0000
Subject: [PATCH 045/100] fix: handoffs of three or more strands, or of none,
 build a valid schedule

---
 nyx-core/src/od/simulator/arc.rs | 74 ++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 6214abc..4083425 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -410,34 +410,62 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                 }
             }
         }
-        // Iterate through the strands by chronological order. Cannot use maps because we change types.
+        // Iterate through the strands by chronological order, handing off between the strands scheduled so far and the next one.
         cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
-        {
-            // Grab the config
-            if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-                // Grab the next strand, chronologically
-                if let Some((next_name, next_pos, next_strand)) = cfg_as_vec.get(ii + 1) {
-                    if config.handoff == Handoff::Greedy && this_strand.end >= next_strand.start {
-                        // Modify the built configurations to change the start time of the next strand because the current one is greedy.
-                        let next_config = built_cfg.get_mut(next_name).unwrap();
-                        let new_start = this_strand.end + next_config.sampling;
-                        next_config.strands.as_mut().unwrap()[*next_pos].start = new_start;
-                        info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
-                    } else if config.handoff == Handoff::Eager
+        let mut scheduled: Vec<(String, usize, Strand)> = Vec::with_capacity(cfg_as_vec.len());
+        while !cfg_as_vec.is_empty() {
+            let (next_name, next_pos, mut next_strand) = cfg_as_vec.remove(0);
+            let handoff_of = |name: &String| self.configs[name].scheduler.map(|s| s.handoff);
+
+            // If a greedy tracker is still tracking, change the start time of the next strand.
+            if let Some((this_name, _, this_strand)) =
+                scheduled.iter().find(|(this_name, _, this_strand)| {
+                    handoff_of(this_name) == Some(Handoff::Greedy)
                         && this_strand.end >= next_strand.start
-                    {
-                        let this_config = built_cfg.get_mut(this_name).unwrap();
-                        let new_end = next_strand.start - this_config.sampling;
-                        this_config.strands.as_mut().unwrap()[*this_pos].end = new_end;
-                        info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
-                    }
+                })
+            {
+                next_strand.start = this_strand.end + built_cfg[&next_name].sampling;
+                if next_strand.start > next_strand.end {
+                    info!("Greedy handoff for {this_name}: {next_name} dropped");
                 } else {
-                    // Reached the end
-                    break;
+                    info!(
+                        "Greedy handoff for {this_name}: {next_name} delayed to {}",
+                        next_strand.start
+                    );
+                    // Keep the remaining strands in chronological order.
+                    let pos = cfg_as_vec.partition_point(|(_, _, s)| s.start <= next_strand.start);
+                    cfg_as_vec.insert(pos, (next_name, next_pos, next_strand));
+                }
+                continue;
+            }
+
+            // Eager trackers stop as soon as the next strand starts.
+            for (this_name, _, this_strand) in scheduled.iter_mut() {
+                if handoff_of(this_name) == Some(Handoff::Eager)
+                    && this_strand.end >= next_strand.start
+                {
+                    this_strand.end = next_strand.start - built_cfg[this_name].sampling;
+                    info!(
+                        "Eager handoff for {this_name}: {this_name} terminated at {}",
+                        this_strand.end
+                    );
                 }
             }
+            scheduled.retain(|(_, _, strand)| strand.start <= strand.end);
+            scheduled.push((next_name, next_pos, next_strand));
+        }
+
+        // Store the strands, in the order in which they were defined.
+        scheduled.sort_by_key(|(_, pos, _)| *pos);
+        for cfg in built_cfg.values_mut() {
+            if let Some(strands) = cfg.strands.as_mut() {
+                strands.clear();
+            }
+        }
+        for (name, _, strand) in scheduled {
+            if let Some(strands) = built_cfg.get_mut(&name).unwrap().strands.as_mut() {
+                strands.push(strand);
+            }
         }
 
         Ok(built_cfg)
-- 
2.43.0


From b6febdccc9b4dd3b353fc34971cf261c8cf1df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:20 +0000
Subject: [PATCH 046/100] fix: the constant measurement bias of a ground
 station is set

---
 nyx-core/src/od/ground_station/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..968c037 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -182,14 +182,9 @@ impl GroundStation {
             .get_mut(&msr_type)
             .ok_or(ODError::NoiseNotConfigured {
                 kind: format!("{msr_type:?}"),
-            })
-            .unwrap();
+            })?;
 
-        if this_noise.bias.is_none() {
-            this_noise.bias = Some(GaussMarkov::ZERO);
-        }
-
-        this_noise.bias.unwrap().constant = Some(bias_constant);
+        this_noise.bias.get_or_insert(GaussMarkov::ZERO).constant = Some(bias_constant);
 
         Ok(self)
     }
-- 
2.43.0


From 79bff5e254a37ed18cf5e291af7c0f79421f02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:21 +0000
Subject: [PATCH 047/100] fix: constant measurement biases are added once to
 the computed observations

---
 nyx-core/src/od/blse/mod.rs                | 6 ++++--
 nyx-core/src/od/position/trk_device.rs     | 4 +---
 nyx-core/src/od/process/mod.rs             | 2 +-
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index fe774b3..55b7e88 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -248,7 +248,8 @@ where
                         };
 
                         // Get the computed observation value
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                            + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
 
                         // Get real observation y_i
                         let real_obs = msr.observation::<U1>(&msr_types)[0];
@@ -500,7 +501,8 @@ where
                         None => continue,
                     };
 
-                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                        + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
                     let real_obs = msr.observation::<U1>(&msr_types)[0];
 
                     ensure!(
diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index 69377a0..0596b6c 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -86,9 +86,7 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             };
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[axis]
-                    + noises.get(&msr_type).unwrap_or(&0.0)
-                    + self.measurement_bias(msr_type, rx.orbit.epoch)?,
+                rx.orbit.radius_km[axis] + noises.get(&msr_type).unwrap_or(&0.0),
             );
         }
 
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 6fccc1a..be5460c 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -321,7 +321,7 @@ where
                                         // Apply any biases on the computed observation
                                         let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
-                                            - device.measurement_bias_vector::<MsrSize>(
+                                            + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 46d371e..ba0a59b 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -190,7 +190,7 @@ where
                     // Only recompute the computed observation from the update state estimate.
                     residual.computed_obs = computed_meas
                         .observation::<MsrSize>(&residual.msr_types)
-                        - device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+                        + device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
 
                     // Update the postfit residual.
                     residual.postfit = &residual.real_obs - &residual.computed_obs;
-- 
2.43.0


From e3e68142264fc00c7ced427b683fd55d63270d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 048/100] fix: devices without stochastics return an error
 instead of panicking

---
 nyx-core/src/od/ground_station/trk_device.rs | 14 ++++++++++++--
 nyx-core/src/od/groundpnt/trk_device.rs      |  7 ++++++-
 nyx-core/src/od/interlink/trk_device.rs      | 14 ++++++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/ground_station/trk_device.rs b/nyx-core/src/od/ground_station/trk_device.rs
index 10cc99b..cdcdade 100644
--- a/nyx-core/src/od/ground_station/trk_device.rs
+++ b/nyx-core/src/od/ground_station/trk_device.rs
@@ -215,7 +215,12 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     /// a diagonal matrix. The first item in the diagonal is the range noise (in km), set to the square of the steady state sigma. The
     /// second item is the Doppler noise (in km/s), set to the square of the steady state sigma of that Gauss Markov process.
     fn measurement_covar(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics =
+            self.stochastic_noises
+                .as_ref()
+                .ok_or_else(|| ODError::NoiseNotConfigured {
+                    kind: "ground station stochastics".to_string(),
+                })?;
 
         Ok(stochastics
             .get(&msr_type)
@@ -226,7 +231,12 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics =
+            self.stochastic_noises
+                .as_ref()
+                .ok_or_else(|| ODError::NoiseNotConfigured {
+                    kind: "ground station stochastics".to_string(),
+                })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index c51aefc..b8d02f2 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -209,7 +209,12 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics =
+            self.stochastic_noises
+                .as_ref()
+                .ok_or_else(|| ODError::NoiseNotConfigured {
+                    kind: "interlink transmitter stochastics".to_string(),
+                })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index ff8c45a..9bc6081 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -238,7 +238,12 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     /// a diagonal matrix. The first item in the diagonal is the range noise (in km), set to the square of the steady state sigma. The
     /// second item is the Doppler noise (in km/s), set to the square of the steady state sigma of that Gauss Markov process.
     fn measurement_covar(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics =
+            self.stochastic_noises
+                .as_ref()
+                .ok_or_else(|| ODError::NoiseNotConfigured {
+                    kind: "interlink transmitter stochastics".to_string(),
+                })?;
 
         Ok(stochastics
             .get(&msr_type)
@@ -249,7 +254,12 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics =
+            self.stochastic_noises
+                .as_ref()
+                .ok_or_else(|| ODError::NoiseNotConfigured {
+                    kind: "interlink transmitter stochastics".to_string(),
+                })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
-- 
2.43.0


From 4504dad2c952c5810365a8f130f436335d574506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:51 +0000
Subject: [PATCH 049/100] fix: unreadable optional durations are a
 configuration error

---
 nyx-core/src/io/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/io/mod.rs b/nyx-core/src/io/mod.rs
index 2dfa9f8..7f70b2e 100644
--- a/nyx-core/src/io/mod.rs
+++ b/nyx-core/src/io/mod.rs
@@ -278,13 +278,11 @@ pub(crate) fn maybe_duration_from_str<'de, D>(deserializer: D) -> Result<Option<
 where
     D: Deserializer<'de>,
 {
-    if let Ok(s) = String::deserialize(deserializer) {
-        if let Ok(duration) = Duration::from_str(&s) {
-            Ok(Some(duration))
-        } else {
-            Ok(None)
-        }
-    } else {
-        Ok(None)
+    // An absent duration is valid, but an invalid one is an error.
+    match Option::<String>::deserialize(deserializer)? {
+        Some(s) => Duration::from_str(&s)
+            .map(Some)
+            .map_err(serde::de::Error::custom),
+        None => Ok(None),
     }
 }
-- 
2.43.0


From abc2f3f57c4d227395bccd3f07f1ab826b66de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:47 +0000
Subject: [PATCH 050/100] fix: the Dhall type of a gravity field is that of its
 configuration

---
 nyx-core/src/dynamics/sequence/config.rs | 7 +------
 nyx-core/src/io/gravity.rs               | 1 +
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/config.rs b/nyx-core/src/dynamics/sequence/config.rs
index 80adbce..165bc4c 100644
--- a/nyx-core/src/dynamics/sequence/config.rs
+++ b/nyx-core/src/dynamics/sequence/config.rs
@@ -15,7 +15,6 @@
     You should have received a copy of the GNU Affero General Public License
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
-use anise::frames::FrameUid;
 use anise::prelude::Almanac;
 use serde::{Deserialize, Serialize};
 use serde_dhall::{SimpleType, StaticType};
@@ -202,13 +201,9 @@ impl StaticType for AccelModels {
             SimpleType::Optional(Box::new(PointMasses::static_type())),
         );
 
-        #[allow(dead_code)]
-        #[derive(StaticType)]
-        struct GravityFieldDhall(GravityFieldConfig, FrameUid);
-
         fields.insert(
             "gravity_field".to_string(),
-            SimpleType::Optional(Box::new(GravityFieldDhall::static_type())),
+            SimpleType::Optional(Box::new(GravityFieldConfig::static_type())),
         );
 
         fields.insert(
diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index a4198c9..bf8ee88 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -526,6 +526,7 @@ impl StaticType for GravityFieldConfig {
         fields.insert("gunzipped".to_string(), bool::static_type());
         fields.insert("degree".to_string(), usize::static_type());
         fields.insert("order".to_string(), usize::static_type());
+        fields.insert("frame".to_string(), FrameUid::static_type());
 
         SimpleType::Record(fields)
     }
-- 
2.43.0


From bc0edfbc25b481bf23e46d71921ecafa88d99078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:16 +0000
Subject: [PATCH 051/100] fix: a finite burn is over at its end epoch

---
 nyx-core/src/dynamics/guidance/mnvr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/guidance/mnvr.rs b/nyx-core/src/dynamics/guidance/mnvr.rs
index a9b13fd..be96684 100644
--- a/nyx-core/src/dynamics/guidance/mnvr.rs
+++ b/nyx-core/src/dynamics/guidance/mnvr.rs
@@ -386,7 +386,8 @@ impl GuidanceLaw for Maneuver {
     }
 
     fn next(&self, sc: &mut Spacecraft, _almanac: &Almanac) {
-        let next_mode = if sc.epoch() >= self.start && sc.epoch() <= self.end {
+        // The mode applies to the integrator step which starts now, so the burn is over at its end epoch.
+        let next_mode = if sc.epoch() >= self.start && sc.epoch() < self.end {
             GuidanceMode::Thrust
         } else {
             GuidanceMode::Coast
-- 
2.43.0


From cfa11d805d7fdbc07fc7fcdec0bd5671ca687634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:30 +0000
Subject: [PATCH 052/100] fix: record the thrust direction of the guidance mode
 in force

---
 nyx-core/src/dynamics/spacecraft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 4434eae..fa226b3 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -169,6 +169,8 @@ impl Dynamics for SpacecraftDynamics {
 
         if let Some(guid_law) = &self.guid_law {
             let mut state = next_state;
+            // Update the control mode
+            guid_law.next(&mut state, almanac);
             // In a single clause, check that the throttle call is OK and its value positive
             // And convert the Result to an Option on the direction to return the option of a vector
             // for the next thrust direction.
@@ -178,8 +180,6 @@ impl Dynamics for SpacecraftDynamics {
             };
 
             state.mut_thrust_direction(thrust_direction);
-            // Update the control mode
-            guid_law.next(&mut state, almanac);
             Ok(state)
         } else {
             let mut state = next_state;
-- 
2.43.0


From d0daa2c170150a72937708838a53036ae82c66b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 053/100] fix: thrust replay holds the last command until the
 end of its profile

---
 nyx-core/src/dynamics/guidance/replay.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nyx-core/src/dynamics/guidance/replay.rs b/nyx-core/src/dynamics/guidance/replay.rs
index 707e24a..2a08289 100644
--- a/nyx-core/src/dynamics/guidance/replay.rs
+++ b/nyx-core/src/dynamics/guidance/replay.rs
@@ -53,6 +53,10 @@ impl ThrustDirectionReplay {
             .states
             .binary_search_by(|sample| sample.epoch().cmp(&epoch))
         {
+            // The last sample closes the last interval, whose command is that of the sample before it.
+            Ok(idx) if idx > 0 && idx + 1 == self.profile.states.len() => {
+                self.profile.states.get(idx - 1)
+            }
             Ok(idx) => self.profile.states.get(idx),
             Err(0) => None,
             Err(idx) => self.profile.states.get(idx - 1),
-- 
2.43.0


From fc12ed4f3cd2cebc717b599c223a10e78375ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 054/100] fix: Ruggiero coasts in eclipses beyond the limit

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..1d1e5a7 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -435,14 +435,16 @@ impl GuidanceLaw for Ruggiero {
                         > max_eclipse
                     {
                         // Coast in eclipse
-                        sc.mode = GuidanceMode::Coast;
+                        sc.mut_mode(GuidanceMode::Coast);
                     } else {
-                        sc.mode = GuidanceMode::Thrust;
+                        sc.mut_mode(GuidanceMode::Thrust);
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From d31774afb8d37a8926f28d8e5ff18c4e61c9292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 055/100] fix: radial component of the Kluever steering of
 equinoctial h and k

---
 nyx-core/src/dynamics/guidance/kluever.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 6c0684a..56d2962 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -222,7 +222,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * cos_l;
+                    sum_weighted_num_alpha += weight * (-cos_l);
                     sum_weighted_den_alpha +=
                         weight * (sin_l + (h + sin_l) / (1.0 + h * sin_l + k * cos_l));
                 }
@@ -235,7 +235,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * (-sin_l);
+                    sum_weighted_num_alpha += weight * sin_l;
                     sum_weighted_den_alpha +=
                         weight * (cos_l + (k + cos_l) / (1.0 + h * sin_l + k * cos_l));
                 }
-- 
2.43.0


From 0f2170824876faacc80fedff489ac94a4c5c538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 056/100] fix: Kluever does not thrust when there is nothing to
 correct

---
 nyx-core/src/dynamics/guidance/kluever.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 56d2962..ab60a3b 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -265,6 +265,14 @@ impl GuidanceLaw for Kluever {
             }
         }
 
+        if sum_weighted_num_alpha == 0.0
+            && sum_weighted_den_alpha == 0.0
+            && sum_weighted_num_beta == 0.0
+        {
+            // Nothing to correct
+            return Ok(Vector3::zeros());
+        }
+
         // Calculate blended steering angles
         let alpha = sum_weighted_num_alpha.atan2(sum_weighted_den_alpha);
 
@@ -288,7 +296,7 @@ impl GuidanceLaw for Kluever {
 
     /// Either thrust full power or not at all
     fn throttle(&self, sc: &Spacecraft) -> Result<f64, GuidanceError> {
-        if sc.mode() == GuidanceMode::Thrust {
+        if sc.mode() == GuidanceMode::Thrust && self.direction(sc)?.norm() > 0.0 {
             Ok(1.0)
         } else {
             Ok(0.0)
-- 
2.43.0


From bb1056dccd2afc5f231e675b12b68ea287bfc3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 057/100] fix: Kluever steering of equinoctial p and q as they
 are defined

---
 nyx-core/src/dynamics/guidance/kluever.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index ab60a3b..f4b8f0c 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -173,6 +173,14 @@ impl GuidanceLaw for Kluever {
             })?
             .to_radians();
 
+        let inc_rad = osc
+            .inc_deg()
+            .context(GuidancePhysicsSnafu {
+                action: "Kluever guidance",
+            })?
+            .to_radians();
+        let cos2_half_inc = (0.5 * inc_rad).cos().powi(2);
+
         let u_rad = ta_rad + aop_rad;
         let l_rad = u_rad + raan_rad;
         let (sin_l, cos_l) = l_rad.sin_cos();
@@ -241,14 +249,18 @@ impl GuidanceLaw for Kluever {
                 }
 
                 StateParameter::Element(OrbitalElement::EquinoctialP) => {
-                    // P = tan(i/2) * sin(RAAN)
-                    let beta_opt = if sin_l >= 0.0 { 1.0 } else { -1.0 };
+                    // P = sin(i/2) * sin(RAAN)
+                    let p_dot =
+                        cos2_half_inc * raan_rad.sin() * u_rad.cos() + raan_rad.cos() * u_rad.sin();
+                    let beta_opt = if p_dot >= 0.0 { 1.0 } else { -1.0 };
                     sum_weighted_num_beta += weight * beta_opt;
                 }
 
                 StateParameter::Element(OrbitalElement::EquinoctialQ) => {
-                    // Q = tan(i/2) * cos(RAAN)
-                    let beta_opt = if cos_l >= 0.0 { 1.0 } else { -1.0 };
+                    // Q = sin(i/2) * cos(RAAN)
+                    let q_dot =
+                        cos2_half_inc * raan_rad.cos() * u_rad.cos() - raan_rad.sin() * u_rad.sin();
+                    let beta_opt = if q_dot >= 0.0 { 1.0 } else { -1.0 };
                     sum_weighted_num_beta += weight * beta_opt;
                 }
 
-- 
2.43.0


From 979cda2c6098c514c555a13db01a71b34407a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 058/100] fix: impulsive maneuvers of a sequence are in their
 local frame

---
 nyx-core/src/dynamics/sequence/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..d0df3b7 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -30,6 +30,7 @@ use serde_dhall::{SimpleType, StaticType};
 use snafu::ResultExt;
 use std::collections::HashMap;
 
+use crate::dynamics::guidance::mnvr::ImpulsiveManeuver;
 use crate::dynamics::guidance::{Kluever, Ruggiero};
 use crate::dynamics::{SpacecraftDynamics, guidance::Thruster};
 use crate::errors::{FromAlmanacSnafu, FromPropSnafu};
@@ -182,8 +183,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulse(state, mnvr)?;
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +207,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulse(state, mnvr)?;
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
@@ -327,6 +326,17 @@ impl StaticType for SpacecraftSequence {
     }
 }
 
+/// Applies the impulsive maneuver, which is defined in its own local frame.
+fn apply_impulse(state: Spacecraft, mnvr: &ImpulsiveManeuver) -> Result<Spacecraft, NyxError> {
+    let dcm = state
+        .orbit
+        .dcm_to_inertial(mnvr.local_frame)
+        .map_err(|source| NyxError::GenericError {
+            msg: format!("impulsive maneuver: {source}"),
+        })?;
+    Ok(state.with_orbit(state.orbit.with_dv_km_s(dcm.rot_mat * mnvr.dv_km_s)))
+}
+
 /* serialization helper functions */
 
 fn map_as_pairs<S, K, V>(map: &BTreeMap<K, V>, serializer: S) -> Result<S::Ok, S::Error>
-- 
2.43.0


From 9a01c30d1c3f1fd4b53bba24c219805a6f70ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 059/100] fix: setup of a sequence rebuilds its propagators

---
 nyx-core/src/dynamics/sequence/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index d0df3b7..35582be 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -93,6 +93,9 @@ impl SpacecraftSequence {
         // Don't set up anything if this is not a valid timeline
         self.validate()?;
 
+        // The configuration of a propagator may have changed since the previous setup.
+        self.prop_setups.clear();
+
         for phase in self.seq.values() {
             if let Phase::Activity {
                 name: _,
-- 
2.43.0


From 0dfc85294ef4e4472692e2a25db605b079a7a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 060/100] fix: frame swap of a sequence also changes the
 orientation

---
 nyx-core/src/dynamics/sequence/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 35582be..5cc10db 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -166,13 +166,7 @@ impl SpacecraftSequence {
                                     {
                                         state = state.with_orbit(
                                             almanac
-                                                .translate_to(state.orbit, *new_frame, None)
-                                                .map_err(|source| {
-                                                    anise::errors::AlmanacError::Ephemeris {
-                                                        action: "central body swap",
-                                                        source: Box::new(source),
-                                                    }
-                                                })
+                                                .transform_to(state.orbit, *new_frame, None)
                                                 .context(FromAlmanacSnafu {
                                                     action: "central body swap",
                                                 })?,
-- 
2.43.0


From a618eda219c67be003cbeff23a80a979f3dc3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 061/100] fix: an invalid sequence is an error, not a panic

---
 nyx-core/src/dynamics/sequence/mod.rs | 34 +++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 5cc10db..630fd0b 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -58,8 +58,9 @@ pub struct SpacecraftSequence {
 impl SpacecraftSequence {
     pub fn validate(&self) -> Result<(), String> {
         // Check that the last statement is a terminate
-        if let Some((_, Phase::Activity { .. })) = self.seq.iter().last() {
-            return Err("final phase must be a Terminate".into());
+        match self.seq.values().last() {
+            Some(Phase::Terminate) => {}
+            _ => return Err("final phase must be a Terminate".into()),
         }
 
         // Check that all of the thruster set indexes reference an available thruster
@@ -227,15 +228,32 @@ impl SpacecraftSequence {
 
                         let end_time = phase_iterator
                             .peek()
-                            .expect("validate did not catch missing terminate")
+                            .ok_or_else(|| NyxError::GenericError {
+                                msg: "sequence does not end with a Terminate".to_string(),
+                            })?
                             .0;
 
+                        let prop_setup = self.prop_setups.get(propagator).ok_or_else(|| {
+                            NyxError::GenericError {
+                                msg: format!("propagator `{propagator}` is not set up"),
+                            }
+                        })?;
+
                         // Include the guidance if any is available
                         let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
                             // Clone the propagator to add the dynamics
-                            let mut setup = self.prop_setups[propagator].clone();
+                            let mut setup = prop_setup.clone();
                             setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
-                            state.thruster = Some(self.thruster_sets[&guid_cfg.thruster_model]);
+                            let thruster = self
+                                .thruster_sets
+                                .get(&guid_cfg.thruster_model)
+                                .ok_or_else(|| NyxError::GenericError {
+                                    msg: format!(
+                                        "no thruster set named {}",
+                                        guid_cfg.thruster_model
+                                    ),
+                                })?;
+                            state.thruster = Some(*thruster);
                             match &guid_cfg.law {
                                 SteeringLaw::FiniteBurn(maneuver) => {
                                     setup.dynamics.guid_law = Some(Arc::new(*maneuver));
@@ -267,7 +285,7 @@ impl SpacecraftSequence {
                                 .until_epoch_with_traj(*end_time)
                                 .context(FromPropSnafu)?
                         } else {
-                            self.prop_setups[propagator]
+                            prop_setup
                                 .with(state, almanac.clone())
                                 .until_epoch_with_traj(*end_time)
                                 .context(FromPropSnafu)?
@@ -280,7 +298,9 @@ impl SpacecraftSequence {
                 }
             }
         }
-        unreachable!("spacecraft plan never finished?!")
+        Err(NyxError::GenericError {
+            msg: "sequence does not end with a Terminate".to_string(),
+        })
     }
 }
 
-- 
2.43.0


From e48972264a6b33af886c60d53575959427e28a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 062/100] fix: a sequence starts in the phase in progress and
 ignores disabled phases

---
 nyx-core/src/dynamics/sequence/mod.rs | 271 ++++++++++++++------------
 1 file changed, 143 insertions(+), 128 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 630fd0b..b2e868b 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -130,7 +130,25 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..).peekable();
+        // A disabled phase is as if it were removed, apart from ending the propagation if so requested.
+        let phases: Vec<(&Epoch, &Phase)> = self
+            .seq
+            .iter()
+            .filter(|(_, phase)| match phase {
+                Phase::Terminate => true,
+                Phase::Activity { name, disabled, .. } => {
+                    !disabled || until_phase.as_ref() == Some(name)
+                }
+            })
+            .collect();
+
+        // The relevant phase is the one in progress at the epoch of the state.
+        let first = phases
+            .iter()
+            .rposition(|(epoch, _)| **epoch <= state.epoch())
+            .unwrap_or(0);
+
+        let mut phase_iterator = phases.into_iter().skip(first).peekable();
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -146,7 +164,7 @@ impl SpacecraftSequence {
                     propagator,
                     guidance,
                     on_entry,
-                    disabled,
+                    disabled: _,
                 } => {
                     // Check stop condition
                     if let Some(ref target) = until_phase
@@ -155,146 +173,143 @@ impl SpacecraftSequence {
                         return Ok(trajs);
                     }
 
-                    if *disabled {
-                        info!("[{epoch}] skipping disabled {name}");
-                    } else {
-                        info!("[{epoch}] executing {name}");
-                        if let Some(discrete_event) = on_entry {
-                            match &**discrete_event {
-                                DiscreteEvent::FrameSwap { new_frame } => {
-                                    if !new_frame.orient_origin_match(state.orbit.frame)
-                                        || !new_frame.ephem_origin_match(state.orbit.frame)
-                                    {
-                                        state = state.with_orbit(
-                                            almanac
-                                                .transform_to(state.orbit, *new_frame, None)
-                                                .context(FromAlmanacSnafu {
-                                                    action: "central body swap",
-                                                })?,
-                                        );
-                                        info!("[{epoch}] central body swapped to {new_frame}");
-                                    }
+                    info!("[{epoch}] executing {name}");
+                    // The discrete event is only applied when the phase is entered.
+                    if let Some(discrete_event) = on_entry
+                        && state.epoch() <= *epoch
+                    {
+                        match &**discrete_event {
+                            DiscreteEvent::FrameSwap { new_frame } => {
+                                if !new_frame.orient_origin_match(state.orbit.frame)
+                                    || !new_frame.ephem_origin_match(state.orbit.frame)
+                                {
+                                    state = state.with_orbit(
+                                        almanac
+                                            .transform_to(state.orbit, *new_frame, None)
+                                            .context(FromAlmanacSnafu {
+                                                action: "central body swap",
+                                            })?,
+                                    );
+                                    info!("[{epoch}] central body swapped to {new_frame}");
                                 }
-                                DiscreteEvent::Staging {
-                                    impulsive_maneuver,
-                                    decrement_properties,
-                                } => {
-                                    if let Some(mnvr) = impulsive_maneuver {
-                                        info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = apply_impulse(state, mnvr)?;
+                            }
+                            DiscreteEvent::Staging {
+                                impulsive_maneuver,
+                                decrement_properties,
+                            } => {
+                                if let Some(mnvr) = impulsive_maneuver {
+                                    info!("[{epoch}] staging, with maneuver {mnvr}");
+                                    state = apply_impulse(state, mnvr)?;
+                                }
+                                if let Some(decr) = decrement_properties {
+                                    if let Some(mass) = decr.mass {
+                                        state.mass.dry_mass_kg -= mass.dry_mass_kg;
+                                        state.mass.prop_mass_kg -= mass.prop_mass_kg;
+                                        state.mass.extra_mass_kg -= mass.extra_mass_kg;
+                                    }
+                                    if let Some(srp) = decr.srp {
+                                        state.srp.area_m2 -= srp.area_m2;
+                                        state.srp.coeff_reflectivity -= srp.coeff_reflectivity;
                                     }
-                                    if let Some(decr) = decrement_properties {
-                                        if let Some(mass) = decr.mass {
-                                            state.mass.dry_mass_kg -= mass.dry_mass_kg;
-                                            state.mass.prop_mass_kg -= mass.prop_mass_kg;
-                                            state.mass.extra_mass_kg -= mass.extra_mass_kg;
-                                        }
-                                        if let Some(srp) = decr.srp {
-                                            state.srp.area_m2 -= srp.area_m2;
-                                            state.srp.coeff_reflectivity -= srp.coeff_reflectivity;
-                                        }
-                                        if let Some(drag) = decr.drag {
-                                            state.drag.area_m2 -= drag.area_m2;
-                                            state.drag.coeff_drag -= drag.coeff_drag;
-                                        }
+                                    if let Some(drag) = decr.drag {
+                                        state.drag.area_m2 -= drag.area_m2;
+                                        state.drag.coeff_drag -= drag.coeff_drag;
                                     }
                                 }
-                                DiscreteEvent::Docking {
-                                    impulsive_maneuver,
-                                    increment_properties,
-                                } => {
-                                    if let Some(mnvr) = impulsive_maneuver {
-                                        info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = apply_impulse(state, mnvr)?;
+                            }
+                            DiscreteEvent::Docking {
+                                impulsive_maneuver,
+                                increment_properties,
+                            } => {
+                                if let Some(mnvr) = impulsive_maneuver {
+                                    info!("[{epoch}] docking, with maneuver {mnvr}");
+                                    state = apply_impulse(state, mnvr)?;
+                                }
+                                if let Some(incr) = increment_properties {
+                                    if let Some(mass) = incr.mass {
+                                        state.mass.dry_mass_kg += mass.dry_mass_kg;
+                                        state.mass.prop_mass_kg += mass.prop_mass_kg;
+                                        state.mass.extra_mass_kg += mass.extra_mass_kg;
+                                    }
+                                    if let Some(srp) = incr.srp {
+                                        state.srp.area_m2 += srp.area_m2;
+                                        state.srp.coeff_reflectivity += srp.coeff_reflectivity;
                                     }
-                                    if let Some(incr) = increment_properties {
-                                        if let Some(mass) = incr.mass {
-                                            state.mass.dry_mass_kg += mass.dry_mass_kg;
-                                            state.mass.prop_mass_kg += mass.prop_mass_kg;
-                                            state.mass.extra_mass_kg += mass.extra_mass_kg;
-                                        }
-                                        if let Some(srp) = incr.srp {
-                                            state.srp.area_m2 += srp.area_m2;
-                                            state.srp.coeff_reflectivity += srp.coeff_reflectivity;
-                                        }
-                                        if let Some(drag) = incr.drag {
-                                            state.drag.area_m2 += drag.area_m2;
-                                            state.drag.coeff_drag += drag.coeff_drag;
-                                        }
+                                    if let Some(drag) = incr.drag {
+                                        state.drag.area_m2 += drag.area_m2;
+                                        state.drag.coeff_drag += drag.coeff_drag;
                                     }
                                 }
                             }
                         }
+                    }
 
-                        let end_time = phase_iterator
-                            .peek()
-                            .ok_or_else(|| NyxError::GenericError {
-                                msg: "sequence does not end with a Terminate".to_string(),
-                            })?
-                            .0;
+                    let end_time = phase_iterator
+                        .peek()
+                        .ok_or_else(|| NyxError::GenericError {
+                            msg: "sequence does not end with a Terminate".to_string(),
+                        })?
+                        .0;
 
-                        let prop_setup = self.prop_setups.get(propagator).ok_or_else(|| {
-                            NyxError::GenericError {
+                    let prop_setup =
+                        self.prop_setups
+                            .get(propagator)
+                            .ok_or_else(|| NyxError::GenericError {
                                 msg: format!("propagator `{propagator}` is not set up"),
+                            })?;
+
+                    // Include the guidance if any is available
+                    let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
+                        // Clone the propagator to add the dynamics
+                        let mut setup = prop_setup.clone();
+                        setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
+                        let thruster = self
+                            .thruster_sets
+                            .get(&guid_cfg.thruster_model)
+                            .ok_or_else(|| NyxError::GenericError {
+                                msg: format!("no thruster set named {}", guid_cfg.thruster_model),
+                            })?;
+                        state.thruster = Some(*thruster);
+                        match &guid_cfg.law {
+                            SteeringLaw::FiniteBurn(maneuver) => {
+                                setup.dynamics.guid_law = Some(Arc::new(*maneuver));
                             }
-                        })?;
-
-                        // Include the guidance if any is available
-                        let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
-                            // Clone the propagator to add the dynamics
-                            let mut setup = prop_setup.clone();
-                            setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
-                            let thruster = self
-                                .thruster_sets
-                                .get(&guid_cfg.thruster_model)
-                                .ok_or_else(|| NyxError::GenericError {
-                                    msg: format!(
-                                        "no thruster set named {}",
-                                        guid_cfg.thruster_model
-                                    ),
-                                })?;
-                            state.thruster = Some(*thruster);
-                            match &guid_cfg.law {
-                                SteeringLaw::FiniteBurn(maneuver) => {
-                                    setup.dynamics.guid_law = Some(Arc::new(*maneuver));
-                                }
-                                SteeringLaw::Ruggiero {
-                                    objectives,
-                                    max_eclipse_prct,
-                                } => {
-                                    let guid = Ruggiero {
-                                        objectives: objectives.clone(),
-                                        max_eclipse_prct: *max_eclipse_prct,
-                                        init_state: state,
-                                    };
-                                    setup.dynamics.guid_law = Some(Arc::new(guid));
-                                }
-                                SteeringLaw::Kluever {
-                                    objectives,
-                                    max_eclipse_prct,
-                                } => {
-                                    let guid = Kluever {
-                                        objectives: objectives.clone(),
-                                        max_eclipse_prct: *max_eclipse_prct,
-                                    };
-                                    setup.dynamics.guid_law = Some(Arc::new(guid));
-                                }
+                            SteeringLaw::Ruggiero {
+                                objectives,
+                                max_eclipse_prct,
+                            } => {
+                                let guid = Ruggiero {
+                                    objectives: objectives.clone(),
+                                    max_eclipse_prct: *max_eclipse_prct,
+                                    init_state: state,
+                                };
+                                setup.dynamics.guid_law = Some(Arc::new(guid));
                             }
-                            setup
-                                .with(state, almanac.clone())
-                                .until_epoch_with_traj(*end_time)
-                                .context(FromPropSnafu)?
-                        } else {
-                            prop_setup
-                                .with(state, almanac.clone())
-                                .until_epoch_with_traj(*end_time)
-                                .context(FromPropSnafu)?
-                        };
-                        info!("[{epoch}] {name} completed: {next_state:x}");
-                        state = next_state;
-                        phase_traj.name = Some(name.clone());
-                        trajs.push(phase_traj);
-                    }
+                            SteeringLaw::Kluever {
+                                objectives,
+                                max_eclipse_prct,
+                            } => {
+                                let guid = Kluever {
+                                    objectives: objectives.clone(),
+                                    max_eclipse_prct: *max_eclipse_prct,
+                                };
+                                setup.dynamics.guid_law = Some(Arc::new(guid));
+                            }
+                        }
+                        setup
+                            .with(state, almanac.clone())
+                            .until_epoch_with_traj(*end_time)
+                            .context(FromPropSnafu)?
+                    } else {
+                        prop_setup
+                            .with(state, almanac.clone())
+                            .until_epoch_with_traj(*end_time)
+                            .context(FromPropSnafu)?
+                    };
+                    info!("[{epoch}] {name} completed: {next_state:x}");
+                    state = next_state;
+                    phase_traj.name = Some(name.clone());
+                    trajs.push(phase_traj);
                 }
             }
         }
-- 
2.43.0


From 4d9d9db65b3e4a35077db72a7de6ccdcc62cfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:16 +0000
Subject: [PATCH 063/100] fix: dispersions of the coefficients and of the
 propellant mass

---
 nyx-core/src/mc/multivariate.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..9505a46 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -166,18 +166,15 @@ impl MvnSpacecraft {
                 if disp.param.is_orbital() {
                     continue;
                 } else {
-                    match disp.param {
-                        StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
-                        }
-                        StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
-                        }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
-                        }
+                    // Index in the spacecraft state space
+                    let idx = match disp.param {
+                        StateParameter::Cr() => 6,
+                        StateParameter::Cd() => 7,
+                        StateParameter::PropMass() => 8,
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
-                    }
+                    };
+                    cov[(idx, idx)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                    mean[idx] = disp.mean.unwrap_or(0.0);
                 }
             }
         }
-- 
2.43.0


From 51c7dfd4d64526d66d1f1686469faf6b1b0cd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:16 +0000
Subject: [PATCH 064/100] fix: actual dispersions are from the template to the
 dispersed state

---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 9505a46..3e74395 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -317,7 +317,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From 175b3d77bb62a51bacb92fcbb9494ad3ea82f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:16 +0000
Subject: [PATCH 065/100] fix: standard deviations of a random spacecraft built
 from its covariance

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 3e74395..a2057aa 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -246,39 +246,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From df165b4eabd3cc5ba8b593e80054656f85f3da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:16 +0000
Subject: [PATCH 066/100] fix: the state of an estimate from dispersions is the
 dispersed state

---
 nyx-core/src/od/estimate/kfestimate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..07e76fe 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -119,7 +119,7 @@ impl KfEstimate<Spacecraft> {
         let dispersed_state = generator.sample(&mut rng);
 
         // Compute the difference between both states
-        let delta_orbit = (nominal_state.orbit - dispersed_state.state.orbit).unwrap();
+        let delta_orbit = (dispersed_state.state.orbit - nominal_state.orbit).unwrap();
 
         let state_deviation = [
             delta_orbit.radius_km.x,
@@ -128,9 +128,9 @@ impl KfEstimate<Spacecraft> {
             delta_orbit.velocity_km_s.x,
             delta_orbit.velocity_km_s.y,
             delta_orbit.velocity_km_s.z,
-            (nominal_state.srp.coeff_reflectivity - dispersed_state.state.srp.coeff_reflectivity),
-            (nominal_state.drag.coeff_drag - dispersed_state.state.drag.coeff_drag),
-            (nominal_state.mass.prop_mass_kg - dispersed_state.state.mass.prop_mass_kg),
+            (dispersed_state.state.srp.coeff_reflectivity - nominal_state.srp.coeff_reflectivity),
+            (dispersed_state.state.drag.coeff_drag - nominal_state.drag.coeff_drag),
+            (dispersed_state.state.mass.prop_mass_kg - nominal_state.mass.prop_mass_kg),
         ];
 
         // Build the covariance as three times the absolute value of the error, squared.
-- 
2.43.0


From d69c9dbf9482b5a4b170fad3959a8a966f18a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:21 +0000
Subject: [PATCH 067/100] fix: B-plane parameters are orbital parameters and
 may be dispersed

---
 nyx-core/src/md/param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/md/param.rs b/nyx-core/src/md/param.rs
index 19e4085..cd2f3c4 100644
--- a/nyx-core/src/md/param.rs
+++ b/nyx-core/src/md/param.rs
@@ -95,7 +95,7 @@ impl StateParameter {
 
     /// Returns whether this is an orbital parameter
     pub const fn is_orbital(&self) -> bool {
-        matches!(self, Self::Element(..))
+        matches!(self, Self::Element(..)) || self.is_b_plane()
     }
 
     /// Returns whether this parameter is only applicable to a spacecraft state
-- 
2.43.0


From bb3c506886ecaa7be09180171f12a07f07047a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:21 +0000
Subject: [PATCH 068/100] fix: covariances with nil uncertainties are positive
 semi definite despite rounding errors

---
 nyx-core/src/mc/multivariate.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a2057aa..bdb45d8 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -219,17 +219,11 @@ impl MvnSpacecraft {
         cov: SMatrix<f64, 9, 9>,
         mean: SVector<f64, 9>,
     ) -> Result<Self, Box<NyxError>> {
-        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil
-        match cov.eigenvalues() {
-            None => return Err(Box::new(NyxError::CovarianceMatrixNotPsd)),
-            Some(evals) => {
-                for eigenval in &evals {
-                    if *eigenval < 0.0 {
-                        return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-                    }
-                }
-            }
-        };
+        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil, within rounding errors
+        let evals = cov.symmetric_eigenvalues();
+        if !(evals.min() >= -1e-12 * evals.amax()) {
+            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
+        }
 
         let svd = cov.svd_unordered(false, true);
         if svd.v_t.is_none() {
-- 
2.43.0


From 8ddf21115dbb8f337c2617530cbf456d5a012e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:21 +0000
Subject: [PATCH 069/100] fix: export of Monte Carlo runs of different
 durations

---
 nyx-core/src/mc/results.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/mc/results.rs b/nyx-core/src/mc/results.rs
index 52f06a3..e727d24 100644
--- a/nyx-core/src/mc/results.rs
+++ b/nyx-core/src/mc/results.rs
@@ -284,8 +284,10 @@ where
                 let states =
                     if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                         // Must interpolate the data!
-                        let start = cfg.start_epoch.unwrap_or_else(|| start.unwrap());
-                        let end = cfg.end_epoch.unwrap_or_else(|| end.unwrap());
+                        let start = cfg
+                            .start_epoch
+                            .unwrap_or_else(|| success.traj.first().epoch());
+                        let end = cfg.end_epoch.unwrap_or_else(|| success.state.epoch());
                         let step = cfg.step.unwrap_or_else(|| 1.minutes());
                         success
                             .traj
-- 
2.43.0


From 140842cd76a96a4db9481375f04d1c8dc2e8bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:02 +0000
Subject: [PATCH 070/100] fix: sampling of rank deficient covariances

---
 nyx-core/src/mc/multivariate.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index bdb45d8..395e55d 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -180,13 +180,11 @@ impl MvnSpacecraft {
         }
 
         // At this point, the cov matrix is a 9x9 with all dispersions transformed into the Cartesian state space.
-        let svd = cov.svd_unordered(false, true);
-        if svd.v_t.is_none() {
-            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-        }
+        // It is symmetric, so its singular values are its eigenvalues: the SVD of a rank deficient covariance is not accurate.
+        let eigen = cov.symmetric_eigen();
 
-        let sqrt_s = svd.singular_values.map(|x| x.sqrt());
-        let mut sqrt_s_v_t = svd.v_t.unwrap().transpose();
+        let sqrt_s = eigen.eigenvalues.map(|x| x.max(0.0).sqrt());
+        let mut sqrt_s_v_t = eigen.eigenvectors;
 
         for (i, mut col) in sqrt_s_v_t.column_iter_mut().enumerate() {
             col *= sqrt_s[i];
@@ -220,21 +218,16 @@ impl MvnSpacecraft {
         mean: SVector<f64, 9>,
     ) -> Result<Self, Box<NyxError>> {
         // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil, within rounding errors
-        let evals = cov.symmetric_eigenvalues();
-        if !(evals.min() >= -1e-12 * evals.amax()) {
-            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-        }
-
-        let svd = cov.svd_unordered(false, true);
-        if svd.v_t.is_none() {
+        let eigen = cov.symmetric_eigen();
+        let s = eigen.eigenvalues;
+        if !(s.min() >= -1e-12 * s.amax()) {
             return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
         }
 
-        let s = svd.singular_values;
         // Item by item multiplication
-        let mut sqrt_s_v = svd.v_t.unwrap().transpose();
+        let mut sqrt_s_v = eigen.eigenvectors;
         for (i, mut col) in sqrt_s_v.column_iter_mut().enumerate() {
-            col *= s[i].sqrt();
+            col *= s[i].max(0.0).sqrt();
         }
 
         let dispersions = vec![
-- 
2.43.0


From 0b0a621329e56ce0bd6c59da469880c09b6d5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:04 +0000
Subject: [PATCH 071/100] fix: Izzo's Lambert solution of transfers whose short
 way is clockwise

---
 nyx-core/src/tools/lambert/izzo.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..85f3feb 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -63,13 +63,6 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let mut i_h = i_r1.cross(&i_r2);
     i_h /= i_h.norm(); // Ensure normalization
 
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
-    }
-
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
     let mut m_lambda = lambda.sqrt();
@@ -84,13 +77,14 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     // prograde branch to preserve historical behavior. `direction_of_motion`
     // returns `MultiRevNotSupported` for NRevs, hence the guard.
     let dm = if matches!(kind, TransferKind::NRevs(_)) {
-        1.0
+        TransferKind::Auto.direction_of_motion(&r_final, &r_init)?
     } else {
         kind.direction_of_motion(&r_final, &r_init)?
     };
-    let retrograde = dm < 0.0;
+    // i_h is normal to the short way: both the geometry and the direction are opposite on the long way.
+    let long_way = dm < 0.0;
 
-    let (mut i_t1, mut i_t2) = if retrograde {
+    let (mut i_t1, mut i_t2) = if long_way {
         m_lambda = -m_lambda;
         (i_r1.cross(&i_h), i_r2.cross(&i_h))
     } else {
-- 
2.43.0


From 6fa235ce0d5cc4664cf888d13ab7f03d5102d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:05 +0000
Subject: [PATCH 072/100] fix: Izzo's Lambert solver panicking on collinear
 positions

---
 nyx-core/src/tools/lambert/izzo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index 85f3feb..b934551 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -61,6 +61,10 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let i_r2 = r_final / rf_norm;
 
     let mut i_h = i_r1.cross(&i_r2);
+    // The plane of the transfer is not defined if both radii are collinear
+    if i_h.norm() < 1e-12 || i_h.iter().any(|x| x.is_nan()) {
+        return Err(LambertError::TargetsTooClose);
+    }
     i_h /= i_h.norm(); // Ensure normalization
 
     // Geometry of the problem
-- 
2.43.0


From a47d0ea6f761ce395781cec8c791bc343e4836ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:06 +0000
Subject: [PATCH 073/100] fix: Gooding's Lambert solution of transfers in no
 time

---
 nyx-core/src/tools/lambert/godding.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/tools/lambert/godding.rs b/nyx-core/src/tools/lambert/godding.rs
index 73fb580..210f4ad 100644
--- a/nyx-core/src/tools/lambert/godding.rs
+++ b/nyx-core/src/tools/lambert/godding.rs
@@ -73,7 +73,13 @@ pub fn gooding(input: LambertInput, kind: TransferKind) -> Result<LambertSolutio
     let mut cur_tof: f64 = 0.0;
     let mut y = 0.0;
 
-    while (cur_tof - tof_s).abs() > LAMBERT_EPSILON_TIME {
+    // There is no transfer in no time
+    if tof_s <= LAMBERT_EPSILON_TIME {
+        return Err(LambertError::NotReasonablePhi);
+    }
+
+    // Do not exit on a NaN
+    while cur_tof.is_nan() || (cur_tof - tof_s).abs() > LAMBERT_EPSILON_TIME {
         if iter > MAX_ITERATIONS {
             return Err(LambertError::SolverMaxIter {
                 maxiter: MAX_ITERATIONS,
-- 
2.43.0


From 3c4cfa47e4afc2b14d015e55fa5076b6561371f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:06 +0000
Subject: [PATCH 074/100] fix: accuracy of Gooding's Lambert solution close to
 a parabola

---
 nyx-core/src/tools/lambert/godding.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/tools/lambert/godding.rs b/nyx-core/src/tools/lambert/godding.rs
index 210f4ad..e0a0fad 100644
--- a/nyx-core/src/tools/lambert/godding.rs
+++ b/nyx-core/src/tools/lambert/godding.rs
@@ -122,8 +122,9 @@ pub fn gooding(input: LambertInput, kind: TransferKind) -> Result<LambertSolutio
             c2 = (1.0 - sqrt_phi.cosh()) / phi;
             c3 = (sqrt_phi.sinh() - sqrt_phi) / (-phi).powi(3).sqrt();
         } else {
-            c2 = 0.5;
-            c3 = 1.0 / 6.0;
+            // First terms of the series, a constant is not accurate enough close to a parabola
+            c2 = 1.0 / 2.0 - phi / 24.0;
+            c3 = 1.0 / 6.0 - phi / 120.0;
         }
     }
 
-- 
2.43.0


From 2bab4fcb0d87cb077e01a98f67a67354373d4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:41 +0000
Subject: [PATCH 075/100] fix: targeting the rates of the maneuver angles
 changed the position

---
 nyx-core/src/md/opti/target_variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/target_variable.rs b/nyx-core/src/md/opti/target_variable.rs
index f6d0f3c..39e0d43 100644
--- a/nyx-core/src/md/opti/target_variable.rs
+++ b/nyx-core/src/md/opti/target_variable.rs
@@ -82,10 +82,10 @@ impl Vary {
     #[allow(clippy::nonminimal_bool)]
     pub fn is_finite_burn(&self) -> bool {
         *self == Self::MnvrAlpha
-            || *self == Self::MnvrAlphaDDot
+            || *self == Self::MnvrAlphaDot
             || *self == Self::MnvrAlphaDDot
             || *self == Self::MnvrDelta
-            || *self == Self::MnvrDeltaDDot
+            || *self == Self::MnvrDeltaDot
             || *self == Self::MnvrDeltaDDot
             || *self == Self::StartEpoch
             || *self == Self::Duration
-- 
2.43.0


From 5fcaddc658d441aaea59ec2cbeb74c0692deef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:41 +0000
Subject: [PATCH 076/100] fix: corrected state of targeters in a local frame
 did not achieve the objectives

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..35e33ec 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -180,7 +180,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         // Apply the accumulated initial guess to xi (once, after the loop)
         if !finite_burn_target {
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
@@ -430,7 +430,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -721,7 +721,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             // Now, let's apply the correction to the initial state
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From 4697976046b742a08b32a6ad407a6ff0de97a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 077/100] fix: targeter variables could exceed their bounds in
 several iterations

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 7 +++----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 6 ++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 35e33ec..00a28cd 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -710,11 +710,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     // Choose the minimum step between the provided max step and the correction.
                     if delta[i].abs() > var.max_step.abs() {
                         delta[i] = var.max_step.abs() * delta[i].signum();
-                    } else if delta[i] > var.max_value {
-                        delta[i] = var.max_value;
-                    } else if delta[i] < var.min_value {
-                        delta[i] = var.min_value;
                     }
+                    // And make sure that the total correction remains within its bounds
+                    delta[i] =
+                        var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
                     state_correction[var.component.vec_index()] += delta[i];
                 }
             }
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 8705161..955cab8 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -300,11 +300,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 // Choose the minimum step between the provided max step and the correction.
                 if delta[i].abs() > var.max_step {
                     delta[i] = var.max_step * delta[i].signum();
-                } else if delta[i] > var.max_value {
-                    delta[i] = var.max_value;
-                } else if delta[i] < var.min_value {
-                    delta[i] = var.min_value;
                 }
+                // And make sure that the total correction remains within its bounds
+                delta[i] = var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
 
                 info!(
                     "Correction {:?} (element {}): {}",
-- 
2.43.0


From 8e956453f0321393c903b3ba1aa98cfa2474b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 078/100] fix: targeter panic on objectives which are not
 orbital elements

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 8 ++++++++
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 8 ++++++++
 nyx-core/src/md/opti/targeter.rs            | 4 +++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 00a28cd..26d7cac 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -55,6 +55,14 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             }
         }
 
+        for obj in &self.objectives {
+            if !obj.parameter.is_b_plane() && !matches!(obj.parameter, StateParameter::Element(_)) {
+                return Err(TargetingError::UnsupportedVariable {
+                    var: format!("objective on {:?}", obj.parameter),
+                });
+            }
+        }
+
         // Now we know that the problem is correctly defined, so let's propagate as is to the epoch
         // where the correction should be applied.
         let xi_start = self
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 955cab8..2c85677 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -51,6 +51,14 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             }
         }
 
+        for obj in &self.objectives {
+            if !obj.parameter.is_b_plane() && !matches!(obj.parameter, StateParameter::Element(_)) {
+                return Err(TargetingError::UnsupportedVariable {
+                    var: format!("objective on {:?}", obj.parameter),
+                });
+            }
+        }
+
         // Now we know that the problem is correctly defined, so let's propagate as is to the epoch
         // where the correction should be applied.
         let xi_start = self
diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..1387d46 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -322,7 +322,9 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                     .context(AstroPhysicsSnafu)
                     .context(AstroSnafu)?
             } else {
-                unreachable!()
+                return Err(TargetingError::UnsupportedVariable {
+                    var: format!("objective on {:?}", obj.parameter),
+                });
             };
 
             let param_err = obj.desired_value - partial.real();
-- 
2.43.0


From 7357df185947dbb848f649cf04e9fcb89a72ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 079/100] fix: targeter overflow on large objectives and nil
 tolerances

---
 nyx-core/src/md/objective.rs                |  2 +-
 nyx-core/src/md/opti/raphson_finite_diff.rs | 11 +++++------
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 11 +++++------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/md/objective.rs b/nyx-core/src/md/objective.rs
index a616927..cebe262 100644
--- a/nyx-core/src/md/objective.rs
+++ b/nyx-core/src/md/objective.rs
@@ -83,7 +83,7 @@ impl fmt::Display for Objective {
 
 impl fmt::LowerHex for Objective {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> Result<(), std::fmt::Error> {
-        let max_obj_tol = self.tolerance.log10().abs().ceil() as usize;
+        let max_obj_tol = (self.tolerance.log10().abs().ceil() as usize).min(20);
 
         write!(
             f,
diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 26d7cac..6ae66ad 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -211,20 +211,19 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .objectives
             .iter()
             .map(|obj| {
-                obj.desired_value.abs().ceil() as i32
-                    * 10_i32.pow(obj.tolerance.abs().log10().ceil() as u32)
+                obj.desired_value.abs().ceil()
+                    * 10_f64.powf(obj.tolerance.abs().log10().ceil().max(0.0))
             })
-            .max()
-            .unwrap();
+            .fold(0.0, f64::max);
 
         let max_obj_tol = self
             .objectives
             .iter()
-            .map(|obj| obj.tolerance.log10().abs().ceil() as usize)
+            .map(|obj| (obj.tolerance.log10().abs().ceil() as usize).min(20))
             .max()
             .unwrap();
 
-        let width = f64::from(max_obj_val).log10() as usize + 2 + max_obj_tol;
+        let width = max_obj_val.log10().min(20.0) as usize + 2 + max_obj_tol;
 
         #[cfg(not(target_arch = "wasm32"))]
         let start_instant = Instant::now();
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 2c85677..27934e0 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -113,20 +113,19 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .objectives
             .iter()
             .map(|obj| {
-                obj.desired_value.abs().ceil() as i32
-                    * 10_i32.pow(obj.tolerance.abs().log10().ceil() as u32)
+                obj.desired_value.abs().ceil()
+                    * 10_f64.powf(obj.tolerance.abs().log10().ceil().max(0.0))
             })
-            .max()
-            .unwrap();
+            .fold(0.0, f64::max);
 
         let max_obj_tol = self
             .objectives
             .iter()
-            .map(|obj| obj.tolerance.log10().abs().ceil() as usize)
+            .map(|obj| (obj.tolerance.log10().abs().ceil() as usize).min(20))
             .max()
             .unwrap();
 
-        let width = f64::from(max_obj_val).log10() as usize + 2 + max_obj_tol;
+        let width = max_obj_val.log10().min(20.0) as usize + 2 + max_obj_tol;
 
         #[cfg(not(target_arch = "wasm32"))]
         let start_instant = Instant::now();
-- 
2.43.0


From a2a1526ce6b4110f76be92db8da86f865fed707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 080/100] fix: verification of targeter solutions ignored the
 objective frame and factors

---
 nyx-core/src/md/opti/targeter.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 1387d46..00ea77a 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
@@ -327,9 +335,9 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 });
             };
 
-            let param_err = obj.desired_value - partial.real();
+            let (ok, param_err) = obj.assess_value(partial.real());
 
-            if param_err.abs() > obj.tolerance {
+            if !ok {
                 converged = false;
             }
             param_errors.push(param_err);
-- 
2.43.0


From 2154bc38ed3973d9f11007a809060a22d3a9bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 081/100] fix: targeter panic when a perturbed trajectory
 cannot be propagated

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 33 +++++++++++----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 6ae66ad..b0843f9 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -335,7 +335,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     .map(|(j, var)| (j, var, 0.0_f64))
                     .collect();
 
-                pert_calc.par_iter_mut().for_each(|(_, var, jac_val)| {
+                pert_calc.par_iter_mut().try_for_each(|(_, var, jac_val)| {
                     let mut this_xi = xi;
 
                     let mut this_prop = self.prop.clone();
@@ -395,7 +395,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                     vector[var.component.vec_index()] -= 2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_direction(vector).unwrap();
+                                this_mnvr.set_direction(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustRateX | Vary::ThrustRateY | Vary::ThrustRateZ => {
                                 let mut vector = this_mnvr.rate();
@@ -409,7 +409,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                         2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_rate(vector).unwrap();
+                                this_mnvr.set_rate(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustAccelX | Vary::ThrustAccelY | Vary::ThrustAccelZ => {
                                 let mut vector = this_mnvr.accel();
@@ -423,7 +423,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                         2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_accel(vector).unwrap();
+                                this_mnvr.set_accel(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustLevel => {
                                 this_mnvr.thrust_prct += var.perturbation;
@@ -441,8 +441,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
-                                .context(AstroSnafu)
-                                .unwrap()
+                                .context(AstroSnafu)?
                                 .rot_mat;
 
                             let velocity_correction =
@@ -458,7 +457,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         let pre_mnvr = this_prop
                             .with(cur_xi, almanac.clone())
                             .until_epoch(this_mnvr.start)
-                            .unwrap();
+                            .context(PropSnafu)?;
                         // Add this maneuver to the dynamics, make sure that we don't over-step this maneuver
                         let prop_opts = this_prop.opts;
                         this_prop.set_max_step(this_mnvr.duration());
@@ -470,20 +469,20 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                 almanac.clone(),
                             )
                             .until_epoch(this_mnvr.end)
-                            .unwrap();
+                            .context(PropSnafu)?;
                         // Reset the propagator options to their previous configuration
                         this_prop.opts = prop_opts;
                         // And propagate until the achievement epoch
                         this_prop
                             .with(post_mnvr, almanac.clone())
                             .until_epoch(achievement_epoch)
-                            .unwrap()
+                            .context(PropSnafu)?
                             .orbit
                     } else {
                         this_prop
                             .with(this_xi, almanac.clone())
                             .until_epoch(achievement_epoch)
-                            .unwrap()
+                            .context(PropSnafu)?
                             .orbit
                     };
 
@@ -492,8 +491,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                             let orbit_obj_frame = almanac
                                 .transform_to(this_xf, *frame, None)
                                 .context(AstroAlmanacSnafu)
-                                .context(AstroSnafu)
-                                .unwrap();
+                                .context(AstroSnafu)?;
 
                             OrbitGrad::from(orbit_obj_frame)
                         }
@@ -501,7 +499,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     };
 
                     let b_plane = if is_bplane_tgt {
-                        Some(BPlane::from_dual(xf_dual_obj_frame).unwrap())
+                        Some(BPlane::from_dual(xf_dual_obj_frame).context(AstroSnafu)?)
                     } else {
                         None
                     };
@@ -514,7 +512,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                             _ => unreachable!(),
                         }
                     } else if let StateParameter::Element(oe) = obj.parameter {
-                        xf_dual_obj_frame.partial_for(oe).unwrap()
+                        xf_dual_obj_frame
+                            .partial_for(oe)
+                            .context(AstroPhysicsSnafu)
+                            .context(AstroSnafu)?
                     } else {
                         unreachable!()
                     };
@@ -525,7 +526,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // We opposed the perturbation to ensure we don't over step a min/max bound
                         *jac_val = -*jac_val;
                     }
-                });
+
+                    Ok::<(), TargetingError>(())
+                })?;
 
                 for (j, var, jac_val) in &pert_calc {
                     // If this is a thrust level, we oppose the value so that the correction can still be positive.
-- 
2.43.0


From a3ded3c569980124d880a4314dda75eaa9ffffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:40 +0000
Subject: [PATCH 082/100] fix: hyperdual targeter ignored the correction frame
 and the validity of its variables

---
 nyx-core/src/md/opti/raphson_hyperdual.rs | 65 ++++++++++++++++++-----
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 27934e0..5bd24f3 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -19,7 +19,7 @@
 use super::solution::TargeterSolution;
 use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::errors::TargetingError;
-use crate::linalg::{DMatrix, SVector};
+use crate::linalg::{DMatrix, Matrix3, SVector};
 use crate::md::{AstroSnafu, StateParameter};
 use crate::md::{PropSnafu, UnderdeterminedProblemSnafu, prelude::*};
 pub use crate::md::{Variable, Vary};
@@ -72,11 +72,40 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
         let mut xi = xi_start;
 
+        // Rotation from the correction frame, the corrections are applied in that frame at the correction epoch.
+        let dcm_to_inertial = match self.correction_frame {
+            Some(frame) => {
+                xi_start
+                    .orbit
+                    .dcm_to_inertial(frame)
+                    .context(AstroPhysicsSnafu)
+                    .context(AstroSnafu)?
+                    .rot_mat
+            }
+            None => Matrix3::identity(),
+        };
+
         // Store the total correction in a static vector
         let mut total_correction = SVector::<f64, V>::zeros();
 
         // Apply the initial guess
         for (i, var) in self.variables.iter().enumerate() {
+            // Check the validity (this function will report to log and raise an error)
+            var.valid()?;
+            // Check that there is no attempt to target a position in a local frame
+            if let Some(correction_frame) = self.correction_frame
+                && matches!(
+                    var.component,
+                    Vary::PositionX | Vary::PositionY | Vary::PositionZ
+                )
+            {
+                return Err(TargetingError::FrameError {
+                    msg: format!(
+                        "Variable is in frame {correction_frame:?} but that frame cannot be used for a {:?} correction",
+                        var.component
+                    ),
+                });
+            }
             match var.component {
                 Vary::PositionX => {
                     xi.orbit.radius_km.x += var.init_guess;
@@ -88,13 +117,13 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     xi.orbit.radius_km.z += var.init_guess;
                 }
                 Vary::VelocityX => {
-                    xi.orbit.velocity_km_s.x += var.init_guess;
+                    xi.orbit.velocity_km_s += dcm_to_inertial.column(0) * var.init_guess;
                 }
                 Vary::VelocityY => {
-                    xi.orbit.velocity_km_s.y += var.init_guess;
+                    xi.orbit.velocity_km_s += dcm_to_inertial.column(1) * var.init_guess;
                 }
                 Vary::VelocityZ => {
-                    xi.orbit.velocity_km_s.z += var.init_guess;
+                    xi.orbit.velocity_km_s += dcm_to_inertial.column(2) * var.init_guess;
                 }
                 _ => {
                     return Err(TargetingError::UnsupportedVariable {
@@ -214,7 +243,6 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
                 // Build the Jacobian with the partials of the objectives with respect to all of the final state parameters
                 // We localize the problem in the STM.
-                // TODO: VNC (how?!)
                 let mut partial_vec = DMatrix::from_element(1, 6, 0.0);
                 for (i, val) in [
                     xf_partial.wrt_x(),
@@ -236,7 +264,11 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     let stm = sc_stm.fixed_view::<6, 6>(0, 0);
                     let idx = var.component.vec_index();
                     // Compute the partial of the objective over all components wrt to all of the components in the STM of the control variable.
-                    let rslt = &partial_vec * stm.fixed_columns::<1>(idx);
+                    let rslt = if idx < 3 {
+                        &partial_vec * stm.fixed_columns::<1>(idx)
+                    } else {
+                        &partial_vec * (stm.fixed_columns::<3>(3) * dcm_to_inertial.column(idx - 3))
+                    };
                     jac[(i, j)] = rslt[(0, 0)];
                 }
             }
@@ -253,9 +285,18 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         Vary::PositionX => state.orbit.radius_km.x += total_correction[i],
                         Vary::PositionY => state.orbit.radius_km.y += total_correction[i],
                         Vary::PositionZ => state.orbit.radius_km.z += total_correction[i],
-                        Vary::VelocityX => state.orbit.velocity_km_s.x += total_correction[i],
-                        Vary::VelocityY => state.orbit.velocity_km_s.y += total_correction[i],
-                        Vary::VelocityZ => state.orbit.velocity_km_s.z += total_correction[i],
+                        Vary::VelocityX => {
+                            state.orbit.velocity_km_s +=
+                                dcm_to_inertial.column(0) * total_correction[i]
+                        }
+                        Vary::VelocityY => {
+                            state.orbit.velocity_km_s +=
+                                dcm_to_inertial.column(1) * total_correction[i]
+                        }
+                        Vary::VelocityZ => {
+                            state.orbit.velocity_km_s +=
+                                dcm_to_inertial.column(2) * total_correction[i]
+                        }
                         _ => {
                             return Err(TargetingError::UnsupportedVariable {
                                 var: var.to_string(),
@@ -327,13 +368,13 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         xi.orbit.radius_km.z += delta[i];
                     }
                     Vary::VelocityX => {
-                        xi.orbit.velocity_km_s.x += delta[i];
+                        xi.orbit.velocity_km_s += dcm_to_inertial.column(0) * delta[i];
                     }
                     Vary::VelocityY => {
-                        xi.orbit.velocity_km_s.y += delta[i];
+                        xi.orbit.velocity_km_s += dcm_to_inertial.column(1) * delta[i];
                     }
                     Vary::VelocityZ => {
-                        xi.orbit.velocity_km_s.z += delta[i];
+                        xi.orbit.velocity_km_s += dcm_to_inertial.column(2) * delta[i];
                     }
                     _ => {
                         return Err(TargetingError::UnsupportedVariable {
-- 
2.43.0


From 620ee11066755a01a4b1ce38bd4c58d51794d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:25 +0000
Subject: [PATCH 083/100] fix: targeter panic when an objective is not defined

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 5 +++++
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index b0843f9..fd025ad 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -613,6 +613,11 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             let mut delta = jac_inv * err_vector;
 
+            if delta.iter().any(|corr| !corr.is_finite()) {
+                // E.g. the objective is not defined on this orbit
+                return Err(TargetingError::SingularJacobian);
+            }
+
             debug!(
                 "Error vector (norm = {}): {}\nRaw correction: {}",
                 err_vector.norm(),
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 5bd24f3..fd6f862 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -341,6 +341,11 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             let mut delta = jac_inv * err_vector;
 
+            if delta.iter().any(|corr| !corr.is_finite()) {
+                // E.g. the objective is not defined on this orbit
+                return Err(TargetingError::SingularJacobian);
+            }
+
             debug!("Error vector: {err_vector}\nRaw correction: {delta}");
 
             // And finally apply it to the xi
-- 
2.43.0


From 5982d256ccb6357ac69806786198b7655317edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:57 +0000
Subject: [PATCH 084/100] fix: PNT export of a time window includes its gains
 and smoother ratios only

---
 nyx-core/src/od/groundpnt/solution.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/solution.rs b/nyx-core/src/od/groundpnt/solution.rs
index 0383580..820f2db 100644
--- a/nyx-core/src/od/groundpnt/solution.rs
+++ b/nyx-core/src/od/groundpnt/solution.rs
@@ -257,7 +257,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -270,17 +270,27 @@ where
                 let mut residuals: Vec<Option<Residual<U2>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (i, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[i].clone());
+                        gains.push(self.gains[i]);
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[i]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -447,7 +457,7 @@ where
         for i in 0..state_items.len() {
             for j in 0..2 {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -461,7 +471,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..state_items.len() {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From 9b221ebab6e323c4cbb09e3d1449c5664eeb5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:19 +0000
Subject: [PATCH 085/100] fix: filter lengthened the first propagation step
 beyond that of its integrator

---
 nyx-core/src/od/process/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index be5460c..d2bb961 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -164,9 +164,10 @@ where
         let prop = self.prop.clone();
         let mut prop_instance = prop.with(initial_estimate.nominal_state().with_stm(), self.almanac.clone()).quiet();
 
-        // Update the step size of the navigation propagator if it isn't already fixed step
+        // Shorten the step size of the navigation propagator if it isn't already fixed step.
+        // It must not be lengthened: that initial step is not subject to any error control.
         if !prop_instance.fixed_step {
-            prop_instance.set_step(self.max_step, false);
+            prop_instance.set_step(self.max_step.min(prop_instance.step_size), false);
         }
 
         let prop_time = arc.end_epoch().unwrap() - initial_estimate.epoch();
-- 
2.43.0


From 30ea6cae1606415dd66d489ffab6495f7aeb551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:34 +0000
Subject: [PATCH 086/100] fix: export of the difference of two trajectories
 ignored the requested window

---
 nyx-core/src/md/trajectory/traj.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index f245c91..d951f6d 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -489,18 +489,18 @@ where
         let schema = Arc::new(Schema::new(hdrs));
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
-        // Ensure the times match.
-        cfg.start_epoch = if self.first().epoch() > other.first().epoch() {
-            Some(self.first().epoch())
-        } else {
-            Some(other.first().epoch())
-        };
+        // Ensure the times match, and remain within the requested window.
+        let overlap_start = self.first().epoch().max(other.first().epoch());
+        cfg.start_epoch = Some(match cfg.start_epoch {
+            Some(start) => start.max(overlap_start),
+            None => overlap_start,
+        });
 
-        cfg.end_epoch = if self.last().epoch() > other.last().epoch() {
-            Some(other.last().epoch())
-        } else {
-            Some(self.last().epoch())
-        };
+        let overlap_end = self.last().epoch().min(other.last().epoch());
+        cfg.end_epoch = Some(match cfg.end_epoch {
+            Some(end) => end.min(overlap_end),
+            None => overlap_end,
+        });
 
         // Build the states iterator
         let step = cfg.step.unwrap_or_else(|| 1.minutes());
-- 
2.43.0


From 3250651748ebdd25ae0275d2829daaef45518fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:42 +0000
Subject: [PATCH 087/100] fix: panic when exporting the difference with an
 empty trajectory

---
 nyx-core/src/md/trajectory/traj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index d951f6d..ff88c74 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -422,6 +422,12 @@ where
         path: P,
         cfg: ExportCfg,
     ) -> Result<PathBuf, TrajError> {
+        if self.states.is_empty() || other.states.is_empty() {
+            return Err(TrajError::CreationError {
+                msg: "No trajectory to compare".to_string(),
+            });
+        }
+
         let tick = Epoch::now().unwrap();
         info!("Exporting trajectory to parquet file...");
 
-- 
2.43.0


From 0125e05fad933242a1723c474af5f172f8122f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:57 +0000
Subject: [PATCH 088/100] fix: panic when loading a malformed trajectory file,
 or one whose text columns are not text

A trajectory file which is not Parquet or was cut short, and columns of an unexpected type in trajectory and tracking
files, were unwrapped instead of being reported as errors.
---
 nyx-core/src/md/trajectory/sc_traj.rs         | 40 +++++++++++--------
 .../src/od/msr/trackingdata/io_parquet.rs     | 16 ++++----
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index fba5f07..2b8874f 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -22,7 +22,7 @@ use crate::State;
 use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
-use crate::io::{InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::io::{ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -214,7 +214,9 @@ impl Traj<Spacecraft> {
             action: "opening trajectory file",
         })?;
 
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "reading trajectory file",
+        })?;
 
         let mut metadata = HashMap::new();
         // Build the custom metadata
@@ -344,24 +346,26 @@ impl Traj<Spacecraft> {
 
         // Now convert each batch on the fly
         for maybe_batch in reader {
-            let batch = maybe_batch.unwrap();
+            let batch = maybe_batch.context(ArrowSnafu {
+                action: "reading batch of trajectory data",
+            })?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
-                .unwrap()
-                .as_any()
-                .downcast_ref::<StringArray>()
-                .unwrap();
+                .and_then(|column| column.as_any().downcast_ref::<StringArray>())
+                .ok_or_else(|| InputOutputError::UnsupportedData {
+                    which: "Epoch (UTC) column is not of strings".to_string(),
+                })?;
 
             let mut shared_data = vec![];
             let guidance_mode_data = if has_guidance_mode {
                 Some(
                     batch
                         .column_by_name(StateParameter::GuidanceMode().to_field(None).name())
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<StringArray>()
-                        .unwrap(),
+                        .and_then(|column| column.as_any().downcast_ref::<StringArray>())
+                        .ok_or_else(|| InputOutputError::UnsupportedData {
+                            which: "guidance mode column is not of strings".to_string(),
+                        })?,
                 )
             } else {
                 None
@@ -373,10 +377,10 @@ impl Traj<Spacecraft> {
                         *field,
                         batch
                             .column_by_name(field.to_field(None).name())
-                            .unwrap()
-                            .as_any()
-                            .downcast_ref::<Float64Array>()
-                            .unwrap(),
+                            .and_then(|column| column.as_any().downcast_ref::<Float64Array>())
+                            .ok_or_else(|| InputOutputError::UnsupportedData {
+                                which: format!("{field:?} column is not of 64 bit floats"),
+                            })?,
                     ));
                 }
             }
@@ -411,7 +415,11 @@ impl Traj<Spacecraft> {
 
                 for (param, data) in &shared_data {
                     if data.is_valid(i) {
-                        state.set_value(*param, data.value(i)).unwrap();
+                        state.set_value(*param, data.value(i)).map_err(|e| {
+                            InputOutputError::Inconsistency {
+                                msg: format!("{e} when setting {param:?}"),
+                            }
+                        })?;
                     }
                 }
 
diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 298e4fd..3263d26 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -115,17 +115,17 @@ impl TrackingDataArc {
 
             let tracking_device = batch
                 .column_by_name("Tracking device")
-                .unwrap()
-                .as_any()
-                .downcast_ref::<StringArray>()
-                .unwrap();
+                .and_then(|column| column.as_any().downcast_ref::<StringArray>())
+                .ok_or_else(|| InputOutputError::UnsupportedData {
+                    which: "Tracking device column is not of strings".to_string(),
+                })?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
-                .unwrap()
-                .as_any()
-                .downcast_ref::<StringArray>()
-                .unwrap();
+                .and_then(|column| column.as_any().downcast_ref::<StringArray>())
+                .ok_or_else(|| InputOutputError::UnsupportedData {
+                    which: "Epoch (UTC) column is not of strings".to_string(),
+                })?;
 
             let columns = available
                 .iter()
-- 
2.43.0


From e0b4dcb437ed6a014708322d72c63a135a7b45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:23 +0000
Subject: [PATCH 089/100] fix: metadata of one TDM segment applied to the data
 of the others

The corrections (and path divider of the corrections) and turn-around ratio of the last segment which set them were used
for the data of all of the segments of the file.
---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs   | 130 +++++++++++-------
 1 file changed, 77 insertions(+), 53 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 6f05afe..f60114b 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -95,7 +95,9 @@ impl TrackingDataArc {
         info!("parsing CCSDS TDM {source}");
 
         let mut measurements = Vec::new();
-        let mut metadata = HashMap::new();
+        // The metadata and path divider of each segment, and the segment of each measurement.
+        let mut segments = vec![(HashMap::new(), 1.0)];
+        let mut segment_of = Vec::new();
 
         let reader = BufReader::new(file);
 
@@ -111,6 +113,12 @@ impl TrackingDataArc {
             })?;
             let line = line.trim();
 
+            if line == "META_START" {
+                // The metadata only applies to the data of its own segment.
+                segments.push((HashMap::new(), 1.0));
+                msr_divider = 1.0;
+            }
+
             if line == "DATA_START" {
                 in_data_section = true;
                 continue;
@@ -151,6 +159,9 @@ impl TrackingDataArc {
                     }
                 }
 
+                let (metadata, divider) = segments.last_mut().unwrap(); // There is always at least one segment
+                *divider = msr_divider;
+
                 let mut splt = line.split('=');
                 if let Some(keyword) = splt.nth(0) {
                     // Get the zeroth item again since we've consumed the first zeroth one.
@@ -185,7 +196,9 @@ impl TrackingDataArc {
                 // If the last inserted measurement belongs to the exact same tracker
                 // and epoch, we append the sub-observable to its IndexMap.
                 let is_concurrent = measurements.last().is_some_and(|last: &Measurement| {
-                    last.epoch == epoch && last.tracker == current_tracker
+                    last.epoch == epoch
+                        && last.tracker == current_tracker
+                        && segment_of.last() == Some(&(segments.len() - 1))
                 });
 
                 if is_concurrent {
@@ -205,61 +218,57 @@ impl TrackingDataArc {
                         data,
                         rejected: false,
                     });
+                    segment_of.push(segments.len() - 1);
                 }
             }
         }
 
-        let mut turnaround_ratio = None;
-        let drop_freq_data;
-        if has_freq_data {
-            // If there is any frequency measurement, compute the turn-around ratio.
-            if let Some(ta_num_str) = metadata.get("TURNAROUND_NUMERATOR") {
-                if let Some(ta_denom_str) = metadata.get("TURNAROUND_DENOMINATOR") {
-                    if let Ok(ta_num) = ta_num_str.parse::<i32>() {
-                        if let Ok(ta_denom) = ta_denom_str.parse::<i32>() {
-                            // turn-around ratio is set.
-                            turnaround_ratio = Some(f64::from(ta_num) / f64::from(ta_denom));
-                            info!("turn-around ratio is {ta_num}/{ta_denom}");
-                            drop_freq_data = false;
-                        } else {
-                            error!(
-                                "turn-around denominator `{ta_denom_str}` is not a valid integer"
-                            );
-                            drop_freq_data = true;
-                        }
-                    } else {
-                        error!("turn-around numerator `{ta_num_str}` is not a valid integer");
-                        drop_freq_data = true;
-                    }
-                } else {
-                    error!(
-                        "required turn-around denominator missing from metadata -- dropping ALL RECEIVE/TRANSMIT data"
-                    );
-                    drop_freq_data = true;
-                }
-            } else {
+        // Returns the turn-around ratio of this segment, if it is valid.
+        let turnaround_ratio_of = |metadata: &HashMap<String, String>| -> Option<f64> {
+            let Some(ta_num_str) = metadata.get("TURNAROUND_NUMERATOR") else {
                 error!(
-                    "required turn-around numerator missing from metadata -- dropping ALL RECEIVE/TRANSMIT data"
+                    "required turn-around numerator missing from metadata -- dropping RECEIVE data of this segment"
                 );
-                drop_freq_data = true;
-            }
-        } else {
-            drop_freq_data = true;
-        }
+                return None;
+            };
+            let Some(ta_denom_str) = metadata.get("TURNAROUND_DENOMINATOR") else {
+                error!(
+                    "required turn-around denominator missing from metadata -- dropping RECEIVE data of this segment"
+                );
+                return None;
+            };
+            let Ok(ta_num) = ta_num_str.parse::<i32>() else {
+                error!("turn-around numerator `{ta_num_str}` is not a valid integer");
+                return None;
+            };
+            let Ok(ta_denom) = ta_denom_str.parse::<i32>() else {
+                error!("turn-around denominator `{ta_denom_str}` is not a valid integer");
+                return None;
+            };
+            info!("turn-around ratio is {ta_num}/{ta_denom}");
+            Some(f64::from(ta_num) / f64::from(ta_denom))
+        };
 
-        let corrections_applied = if let Some(corr_flag) = metadata.get("CORRECTIONS_APPLIED") {
-            match corr_flag.trim().to_lowercase().as_str() {
-                "no" => false,
-                "yes" => true,
-                _ => {
-                    warn!("invalid CORRECTIONS_APPLIED `{corr_flag}`");
-                    true
-                }
+        let corrections_applied_in = |metadata: &HashMap<String, String>| -> bool {
+            match metadata.get("CORRECTIONS_APPLIED") {
+                Some(corr_flag) => match corr_flag.trim().to_lowercase().as_str() {
+                    "no" => false,
+                    "yes" => true,
+                    _ => {
+                        warn!("invalid CORRECTIONS_APPLIED `{corr_flag}`");
+                        true
+                    }
+                },
+                None => true,
             }
-        } else {
-            true
         };
 
+        let corrections_applied = segments
+            .iter()
+            .map(|(metadata, _)| corrections_applied_in(metadata))
+            .collect::<Vec<_>>();
+        let mut turnaround_ratios = HashMap::new();
+
         // Now, let's convert the receive and transmit frequencies to Doppler measurements in velocity units.
         // We expect the transmit and receive frequencies to have the exact same timestamp.
         let mut freq_types = IndexSet::new();
@@ -273,10 +282,11 @@ impl TrackingDataArc {
 
         let mut all_applied_corrections = IndexSet::new();
 
-        for measurement in &mut measurements {
+        for (measurement, segment) in measurements.iter_mut().zip(&segment_of) {
+            let (metadata, msr_divider) = &segments[*segment];
             let epoch = measurement.epoch;
             // Apply corrections if any
-            if !corrections_applied {
+            if !corrections_applied[*segment] {
                 for msr_type in [
                     MeasurementType::Range,
                     MeasurementType::Doppler,
@@ -302,7 +312,7 @@ impl TrackingDataArc {
                 }
             }
 
-            if drop_freq_data {
+            if !has_freq_data {
                 for freq in &freq_types {
                     measurement.data.swap_remove(freq);
                 }
@@ -351,6 +361,16 @@ impl TrackingDataArc {
                 continue;
             }
 
+            let Some(turnaround_ratio) = *turnaround_ratios
+                .entry(*segment)
+                .or_insert_with(|| turnaround_ratio_of(metadata))
+            else {
+                for freq in &freq_types {
+                    measurement.data.swap_remove(freq);
+                }
+                continue;
+            };
+
             let dt: Duration = epoch - latest_transmit_epoch.unwrap();
             let transmit_freq_hz =
                 latest_transmit_freq.unwrap() + latest_transmit_rate * dt.to_seconds();
@@ -361,10 +381,10 @@ impl TrackingDataArc {
                 .unwrap();
 
             // Compute the Doppler shift, equation from section 3.5.2.8.2 of CCSDS TDM v2 specs
-            let doppler_shift_hz = transmit_freq_hz * turnaround_ratio.unwrap() - receive_freq_hz;
+            let doppler_shift_hz = transmit_freq_hz * turnaround_ratio - receive_freq_hz;
             // Compute the expected Doppler measurement as range-rate.
             let rho_dot_km_s = (doppler_shift_hz * SPEED_OF_LIGHT_KM_S)
-                / (2.0 * transmit_freq_hz * turnaround_ratio.unwrap());
+                / (2.0 * transmit_freq_hz * turnaround_ratio);
 
             // Finally, replace the frequency data with a Doppler measurement.
             for freq in &freq_types {
@@ -379,7 +399,11 @@ impl TrackingDataArc {
             info!("applied corrections for {all_applied_corrections:?}");
         }
 
-        let moduli = if let Some(range_modulus) = metadata.get("RANGE_MODULUS") {
+        let moduli = if let Some(range_modulus) = segments
+            .iter()
+            .rev()
+            .find_map(|(metadata, _)| metadata.get("RANGE_MODULUS"))
+        {
             if let Ok(value) = range_modulus.parse::<f64>() {
                 if value > 0.0 {
                     let mut modulos = IndexMap::new();
-- 
2.43.0


From a6266dbd1535927156d54839e4195edd1cdd47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:12 +0000
Subject: [PATCH 090/100] fix: downsampling averaged and reinstated rejected
 measurements

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index d2c9f60..6574fb4 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -268,13 +268,18 @@ impl TrackingDataArc {
             let epoch = msr.epoch;
             let start = i.saturating_sub(window_size / 2);
             let end = (i + window_size / 2 + 1).min(measurements.len());
-            let window = &measurements[start..end];
+            let mut window = measurements[start..end].to_vec();
+            // Do not average the rejected measurements with the others.
+            let all_rejected = window.iter().all(|m| m.rejected);
+            if !all_rejected {
+                window.retain(|m| !m.rejected);
+            }
 
             let mut filtered_measurement = Measurement {
                 tracker: window[0].tracker.clone(),
                 epoch,
                 data: IndexMap::new(),
-                rejected: false,
+                rejected: all_rejected,
             };
 
             // Apply moving average filter for each measurement type
-- 
2.43.0


From 0e98002b0912b8105b40c3d59d6f149c80c72d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:12 +0000
Subject: [PATCH 091/100] fix: time stamp bias of the trackers was drawn anew
 for each measurement

---
 nyx-core/src/od/ground_station/mod.rs   | 2 +-
 nyx-core/src/od/interlink/trk_device.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 968c037..6e9eb05 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -202,7 +202,7 @@ impl GroundStation {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 9bc6081..de642bd 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -70,7 +70,7 @@ impl InterlinkTxSpacecraft {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From 26c4ef8e0d9b6070444e5a613858d55b447d67c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:02:55 +0000
Subject: [PATCH 092/100] fix: panic on unsupported interlink measurement types
 and outside the transmitter trajectory

---
 nyx-core/src/od/groundpnt/trk_device.rs |  7 +++++--
 nyx-core/src/od/interlink/trk_device.rs | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index b8d02f2..551e3cc 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -175,8 +175,11 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
                     MeasurementType::Doppler => range_rate_km_s,
-                    // Or return an error for unsupported types
-                    _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
+                    _ => {
+                        return Err(ODError::MeasurementSimError {
+                            details: format!("{msr_type:?} is not supported for interlink"),
+                        });
+                    }
                 } + noises[ii + 1];
                 msr.push(*msr_type, msr_value);
             }
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index de642bd..dbcb0f8 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -17,7 +17,7 @@
 */
 use anise::almanac::Almanac;
 use anise::astro::Aberration;
-use anise::errors::AlmanacResult;
+use anise::errors::{AlmanacError, AlmanacResult};
 use anise::prelude::{Frame, Orbit};
 use hifitime::{Duration, Epoch, TimeUnits};
 use indexmap::{IndexMap, IndexSet};
@@ -100,7 +100,13 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     }
 
     fn location(&self, epoch: Epoch, frame: Frame, almanac: &Almanac) -> AlmanacResult<Orbit> {
-        almanac.transform_to(self.traj.at(epoch).unwrap().orbit, frame, self.ab_corr)
+        let state = self
+            .traj
+            .at(epoch)
+            .map_err(|e| AlmanacError::GenericError {
+                err: format!("no state of the interlink transmitter: {e}"),
+            })?;
+        almanac.transform_to(state.orbit, frame, self.ab_corr)
     }
 
     fn measure(
@@ -220,8 +226,11 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => rho_tx_frame.norm(),
                     MeasurementType::Doppler => range_rate_km_s,
-                    // Or return an error for unsupported types
-                    _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
+                    _ => {
+                        return Err(ODError::MeasurementSimError {
+                            details: format!("{msr_type:?} is not supported for interlink"),
+                        });
+                    }
                 } + noises[ii + 1];
                 msr.push(*msr_type, msr_value);
             }
-- 
2.43.0


From 22b04eecfdb07de5a28c7a431ba38ca2406d179a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:04:45 +0000
Subject: [PATCH 093/100] fix: devices ignored for their invalid tracking
 configuration still tracked

---
 nyx-core/src/od/simulator/arc.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 4083425..438a8f4 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -81,7 +81,7 @@ where
     /// high-fidelity time series encompassing the entire trajectory span. This ensures that interpolation artifacts
     /// are minimized when extracting state vectors at non-uniform station sampling intervals.
     pub fn with_rng(
-        devices: BTreeMap<String, D>,
+        mut devices: BTreeMap<String, D>,
         trajectory: Traj<MsrIn>,
         configs: BTreeMap<String, TrkConfig>,
         rng: Pcg64Mcg,
@@ -89,18 +89,19 @@ where
         // Check that each device has an associated configurations.
         // We don't care if there are more configurations than chosen devices.
         let mut sampling_rates_ns = Vec::with_capacity(devices.len());
-        for name in devices.keys() {
+        devices.retain(|name, _| {
             if let Some(cfg) = configs.get(name) {
                 if let Err(e) = cfg.sanity_check() {
                     warn!("Ignoring device {name}: {e}");
-                    continue;
+                    return false;
                 }
                 sampling_rates_ns.push(cfg.sampling.truncated_nanoseconds());
+                true
             } else {
                 warn!("Ignoring device {name}: no associated tracking configuration",);
-                continue;
+                false
             }
-        }
+        });
 
         if sampling_rates_ns.is_empty() {
             return Err(ConfigError::InvalidConfig {
-- 
2.43.0


From ea59304a707216565d22df5e5e6c41bc0a71aee0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:04:45 +0000
Subject: [PATCH 094/100] fix: endless simulation with a sampling that is not
 positive

---
 nyx-core/src/od/simulator/trkconfig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/simulator/trkconfig.rs b/nyx-core/src/od/simulator/trkconfig.rs
index dda20a8..c3038af 100644
--- a/nyx-core/src/od/simulator/trkconfig.rs
+++ b/nyx-core/src/od/simulator/trkconfig.rs
@@ -181,7 +181,11 @@ impl TrkConfig {
 
     /// Check that the configuration is valid: a successful call means that either we have a set of tracking strands or we have a valid scheduler
     pub(crate) fn sanity_check(&self) -> Result<(), ConfigError> {
-        if self.strands.is_some() && self.scheduler.is_some() {
+        if self.sampling <= Duration::ZERO {
+            return Err(ConfigError::InvalidConfig {
+                msg: format!("Sampling must be positive, got {}", self.sampling),
+            });
+        } else if self.strands.is_some() && self.scheduler.is_some() {
             return Err(ConfigError::InvalidConfig {
                 msg:
                     "Both tracking strands and a scheduler are configured, must be one or the other"
-- 
2.43.0


From 7b0e05a6a63202bd9f16adf403fcab0ac1ac1c8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:16:28 +0000
Subject: [PATCH 095/100] fix: panic when exporting an empty trajectory as an
 ephemeris

---
 nyx-core/src/md/trajectory/sc_traj.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index 2b8874f..11ff979 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -159,7 +159,9 @@ impl Traj<Spacecraft> {
         let mut ephem = Ephemeris::new(object_id);
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let states = if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
+        let states = if !self.states.is_empty()
+            && (cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some())
+        {
             // Must interpolate the data!
             let start = cfg.start_epoch.unwrap_or_else(|| self.first().epoch());
             let end = cfg.end_epoch.unwrap_or_else(|| self.last().epoch());
-- 
2.43.0


From a4fc08a3a7f99575deb11a2f1a7cb9fc1307eaeb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:22:11 +0000
Subject: [PATCH 096/100] fix: panic with a process noise too large for the
 state

---
 nyx-core/src/od/snc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/snc.rs b/nyx-core/src/od/snc.rs
index d625fe3..b86ef3f 100644
--- a/nyx-core/src/od/snc.rs
+++ b/nyx-core/src/od/snc.rs
@@ -258,6 +258,13 @@ where
                 return Ok(None);
             }
 
+            // Each block of three accelerations spans six components of the state.
+            if S::DIM < 2 * A::DIM {
+                return Err(ODError::ODLimitation {
+                    action: "process noise is too large for the state",
+                });
+            }
+
             // Let's compute the Gamma matrix, an approximation of the time integral
             // which assumes that the acceleration is constant between these two measurements.
             let mut gamma = OMatrix::<f64, S, A>::zeros();
-- 
2.43.0


From 0444cadf31569e2fc11484bf5b3272b45d8934ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 097/100] fix: panic when locating a ground station in an
 unknown frame

---
 nyx-core/src/od/ground_station/trk_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/ground_station/trk_device.rs b/nyx-core/src/od/ground_station/trk_device.rs
index cdcdade..37f77fa 100644
--- a/nyx-core/src/od/ground_station/trk_device.rs
+++ b/nyx-core/src/od/ground_station/trk_device.rs
@@ -152,7 +152,7 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     }
 
     fn location(&self, epoch: Epoch, frame: Frame, almanac: &Almanac) -> AlmanacResult<Orbit> {
-        almanac.transform_to(self.to_orbit(epoch, almanac).unwrap(), frame, None)
+        almanac.transform_to(self.to_orbit(epoch, almanac)?, frame, None)
     }
 
     fn measure_instantaneous(
-- 
2.43.0


From 9bf5ed30eafc83e906049c7be0464dcf6a55b516 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 098/100] fix: return an error instead of panicking or yielding
 NaN states when the dynamics are not a number

---
 nyx-core/src/propagators/instance.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index e9b1bd1..5a8a178 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -432,6 +432,14 @@ where
 
             if self.fixed_step {
                 // Using a fixed step, no adaptive step necessary
+                if next_state.iter().any(|x| x.is_nan()) {
+                    return Err(PropagationError::PropMathError {
+                        source: MathError::DomainError {
+                            value: f64::NAN,
+                            msg: "try another integration method, or decrease step size; part of state vector is",
+                        },
+                    });
+                }
                 self.details.step = self.step_size;
                 return Ok(((self.details.step), next_state));
             } else {
@@ -499,8 +507,11 @@ where
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
                     // The step size is negative when propagating backward.
-                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds() * proposed_step_s.signum()
+                    // If the error is not a number, only the smallest step may still work.
+                    step_size_s = if proposed_step_s.is_nan()
+                        || proposed_step_s.abs() < self.prop.opts.min_step.to_seconds()
+                    {
+                        self.prop.opts.min_step.to_seconds() * step_size_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From f1a5baec7fbbffb6966cb35aa1af2389023a93c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 099/100] fix: drop the tracking strands which alignment and
 cadence leave empty

---
 nyx-core/src/od/simulator/arc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 438a8f4..6feb4c2 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -361,6 +361,12 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                             strand_range.start += alignment;
                         }
                         strand_range.end = strand_range.end.round(alignment);
+                        if strand_range.start > strand_range.end {
+                            warn!(
+                                "Dropped {name} [{strand_start}, {strand_end}]: no sample when aligned to {alignment}"
+                            );
+                            continue;
+                        }
                     }
 
                     if let Cadence::Intermittent { on, off } = scheduler.cadence {
@@ -371,7 +377,7 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                             // We're turning on the tracking sooner than the schedule allows, so let's fix that.
                             strand_range.start = prev_strand.end + off;
                             // Check that we didn't eat into the whole tracking opportunity
-                            if strand_range.start > strand_end {
+                            if strand_range.start > strand_range.end {
                                 // Lost this whole opportunity.
                                 warn!(
                                     "Dropped {name} [{strand_start}, {strand_end}]: cadence {:?}",
-- 
2.43.0


From ca0eae7724b812ee9340c1ef325fce7ce9691afe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:47:38 +0000
Subject: [PATCH 100/100] fix: undo the rejected Levenberg-Marquardt steps of
 the batch least squares

---
 nyx-core/src/od/blse/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 55b7e88..e27194d 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -173,6 +173,9 @@ where
         let mut lambda = self.lm_lambda_init;
         let mut current_rms = f64::MAX;
         let mut iter: usize = 0;
+        // Last estimate from which a step was taken, where LM returns if that step is rejected.
+        let mut accepted_estimate = initial_guess;
+        let mut lm_retry = false;
 
         let mut unknown_trackers = IndexSet::new();
 
@@ -346,6 +349,9 @@ where
                             lambda = lambda.max(self.lm_lambda_min);
                             debug!("LM: Cost decreased (RMS {current_rms} -> {current_iter_rms}). Decreasing lambda to {lambda}");
                             current_rms = current_iter_rms;
+                        } else if lm_retry {
+                            // Back on the last accepted estimate: step from there again, with the increased damping
+                            iteration_cost_decreased = true;
                         } else {
                              // Cost increased or stalled
                              iteration_cost_decreased = false;
@@ -373,6 +379,8 @@ where
             // Only update if the step is considered successful (esp. for LM)
             // Also hit if using normal equations because iteration_cost_decreased is forced to true
             if iteration_cost_decreased {
+                accepted_estimate = current_estimate;
+                lm_retry = false;
                 current_estimate = current_estimate + state_correction;
                 corr_pos_km = state_correction.fixed_rows::<3>(0).norm();
 
@@ -417,7 +425,9 @@ where
                  info!("[{iter}/{}] LM: Step rejected, increasing lambda.", self.max_iterations);
                  // Reset correction norm as step was bad
                  corr_pos_km = f64::MAX;
-                 // The loop will continue with the increased lambda
+                 // Undo the bad step: the loop will continue from the last accepted estimate with the increased lambda
+                 current_estimate = accepted_estimate;
+                 lm_retry = true;
             }
         }
 
-- 
2.43.0

