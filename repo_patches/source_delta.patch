From 56a2aae13ffeac290e56d8d2c18643b08717d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:06 +0000
Subject: [PATCH 01/36] verification hooks: include! points guarded by
 cfg(posidonius_verif)

---
 src/effects/disk.rs                                  | 3 +++
 src/effects/evolution.rs                             | 3 +++
 src/effects/general_relativity.rs                    | 3 +++
 src/effects/rotational_flattening/common.rs          | 3 +++
 src/effects/rotational_flattening/creep_coplanar.rs  | 3 +++
 src/effects/rotational_flattening/oblate_spheroid.rs | 3 +++
 src/effects/tides/common.rs                          | 3 +++
 src/effects/tides/constant_time_lag.rs               | 3 +++
 src/effects/tides/creep_coplanar.rs                  | 3 +++
 src/effects/tides/kaula.rs                           | 3 +++
 src/effects/wind.rs                                  | 3 +++
 src/integrator/ias15.rs                              | 3 +++
 src/integrator/leapfrog.rs                           | 3 +++
 src/integrator/output.rs                             | 3 +++
 src/integrator/whfast.rs                             | 3 +++
 src/particles/common.rs                              | 3 +++
 src/particles/particle.rs                            | 3 +++
 src/particles/universe.rs                            | 3 +++
 src/tools.rs                                         | 3 +++
 19 files changed, 57 insertions(+)

diff --git a/src/effects/disk.rs b/src/effects/disk.rs
index 117ab39..548ceca 100644
--- a/src/effects/disk.rs
+++ b/src/effects/disk.rs
@@ -266,3 +266,6 @@ pub fn calculate_disk_interaction_acceleration(current_time: f64, disk_host_part
         }
     }
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_disk.rs"));
diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..8b23bef 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -565,3 +565,6 @@ pub fn calculate_particles_spin_dependent_evolving_quantities(current_time: f64,
     }
 
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_evolution.rs"));
diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..b701bf8 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -896,3 +896,6 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
 // [end] General Relativity FULL based on REBOUNDx gr.c
 //--------------------------------------------------------------------------
 ////////////////////////////////////////////////////////////////////////////
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_general_relativity.rs"));
diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..0c48b59 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -236,3 +236,6 @@ pub fn calculate_acceleration_induced_by_rotational_flattering(rotational_flatte
     rotational_flattening_host_particle.rotational_flattening.parameters.output.acceleration.z = -1.0 * factor2 * sum_force_induced_by_rotation.z;
 }
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_rotational_flattening_common.rs"));
diff --git a/src/effects/rotational_flattening/creep_coplanar.rs b/src/effects/rotational_flattening/creep_coplanar.rs
index d339f48..bf1ee80 100644
--- a/src/effects/rotational_flattening/creep_coplanar.rs
+++ b/src/effects/rotational_flattening/creep_coplanar.rs
@@ -103,3 +103,6 @@ pub fn calculate_acceleration_induced_by_rotational_flattering(rotational_flatte
     Axes{x: total_force_induced_by_rotational_flattening_x, y: total_force_induced_by_rotational_flattening_y, z: total_force_induced_by_rotational_flattening_z}
 }
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_rotational_flattening_creep_coplanar.rs"));
diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 69b4d1d..567cc9d 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -95,3 +95,6 @@ pub fn calculate_acceleration_induced_by_rotational_flattering(rotational_flatte
 
     Axes{x: total_force_induced_by_rotation_x, y: total_force_induced_by_rotation_y, z: total_force_induced_by_rotation_z}
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_rotational_flattening_oblate_spheroid.rs"));
diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..ffa1450 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -370,3 +370,6 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
 }
 
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_tides_common.rs"));
diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index d5d157a..c231d48 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -333,3 +333,6 @@ pub fn calculate_tidal_force(tidal_host_particle: &Particle, particle: &Particle
 
 
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_tides_constant_time_lag.rs"));
diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index c542655..5d32e06 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -524,3 +524,6 @@ fn calculate_true_anomaly(eccentricity: f64, mean_anomaly: f64) -> f64 {
 
     return true_anomaly;
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_tides_creep_coplanar.rs"));
diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 4f49174..831700a 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1555,3 +1555,6 @@ impl Polynomials {
         eccentricity_function
     }
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_tides_kaula.rs"));
diff --git a/src/effects/wind.rs b/src/effects/wind.rs
index cb7377c..4102196 100644
--- a/src/effects/wind.rs
+++ b/src/effects/wind.rs
@@ -89,3 +89,6 @@ pub fn calculate_wind_factor(particles: &mut [Particle]) {
         };
     }
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/effects_wind.rs"));
diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..78213c8 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -1476,3 +1476,6 @@ impl Ias15 {
     }
 
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/integrator_ias15.rs"));
diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ed6d8ca..576fdc2 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -262,3 +262,6 @@ impl LeapFrog {
     }
 
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/integrator_leapfrog.rs"));
diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..d897073 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -278,3 +278,6 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
     }
 }
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/integrator_output.rs"));
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..8b76a11 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -1155,3 +1155,6 @@ impl WHFast {
     }
 
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/integrator_whfast.rs"));
diff --git a/src/particles/common.rs b/src/particles/common.rs
index bc35689..f539c26 100644
--- a/src/particles/common.rs
+++ b/src/particles/common.rs
@@ -13,3 +13,6 @@ pub fn calculate_spin(particles: &mut [Particle]) {
     }
 }
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/particles_common.rs"));
diff --git a/src/particles/particle.rs b/src/particles/particle.rs
index 21ced14..2565272 100644
--- a/src/particles/particle.rs
+++ b/src/particles/particle.rs
@@ -223,3 +223,6 @@ fn evolution_warnings(evolution: EvolutionType) {
     }
 }
 
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/particles_particle.rs"));
diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..c868cc4 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -1004,3 +1004,6 @@ fn find_indices(particles: &Vec<Particle>, consider_effects: &ConsiderEffects) -
         }
     }
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/particles_universe.rs"));
diff --git a/src/tools.rs b/src/tools.rs
index 6ac6c2c..a0953d5 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -957,3 +957,6 @@ mod tests {
         assert_eq!(vz, 0.003488556306654768);
     }
 }
+
+#[cfg(posidonius_verif)]
+include!(concat!(env!("POSIDONIUS_VERIF_HOOKS"), "/tools.rs"));
-- 
2.43.0


From 0cbb04c98fbc898be9d9c04c129e759cc3c4dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:42 +0000
Subject: [PATCH 02/36] fix: detect ejections whatever the position of the most
 massive body

The distance limit was only checked for pairs whose first index is the most
massive body, so a body listed before it could leave without being noticed.
---
 src/particles/universe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index c868cc4..e5fdc0e 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,10 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
+                        let ejected_index = if i == self.hosts.index.most_massive { j } else { i };
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), ejected_index);
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0e63d7ebab95158d5b7115adeffc20d441a49161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:25 +0000
Subject: [PATCH 03/36] fix: norm of the heliocentric velocity must not depend
 on the host's previous heliocentric velocity

heliocentric_velocity is already relative to the host; subtracting the host's
own (stale) heliocentric velocity gave a wrong norm the first time it was
computed when the host was introduced with a non-zero velocity.
---
 src/particles/universe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index e5fdc0e..c71533c 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -333,9 +333,9 @@ impl Universe {
                                                                         particle.heliocentric_position.y*particle.heliocentric_velocity.y +
                                                                         particle.heliocentric_position.z*particle.heliocentric_velocity.z) 
                                                                         / particle.heliocentric_distance;
-                particle.heliocentric_norm_velocity_vector_2 = (particle.heliocentric_velocity.x - host_particle.heliocentric_velocity.x).powi(2) 
-                                                                + (particle.heliocentric_velocity.y - host_particle.heliocentric_velocity.y).powi(2)
-                                                                + (particle.heliocentric_velocity.z - host_particle.heliocentric_velocity.z).powi(2);
+                particle.heliocentric_norm_velocity_vector_2 = particle.heliocentric_velocity.x.powi(2)
+                                                                + particle.heliocentric_velocity.y.powi(2)
+                                                                + particle.heliocentric_velocity.z.powi(2);
                 particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();
             }
             host_particle.heliocentric_position.x = 0.;
-- 
2.43.0


From 985bd0ede0bcb77eb1bd0a8a21a458a0d922f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:54 +0000
Subject: [PATCH 04/36] fix: drop the dynamical tide factor of the planet
 itself when it leaves the dynamical regime

The factor is stored under (planet, host) but was removed under (host, planet):
the planet kept its last dynamical dissipation factor for ever and, when the
host was evolving too, the host lost its own factor.
---
 src/effects/tides/constant_time_lag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index c231d48..1275d0b 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -129,7 +129,7 @@ fn calculate_host_dependent_scaled_dissipation_factors(tidal_host_particle: &mut
                             set_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id, host_dependent_scaled_dissipation_factor);
                         } else {
                             // Equilibrium regime (not dynamical tide)
-                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);
+                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id);
                         }
                     }
                 }
-- 
2.43.0


From 56ec0f28053c662afc90ae7973b0f7f741fef308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:54 +0000
Subject: [PATCH 05/36] fix: bodies without tides must not take part in the
 tides of the central body

Their tidal coordinates are never set (distance zero), so the torque on the
central body, and its acceleration with the Kaula model, became NaN as soon as
one body of the system had tides disabled.
---
 src/effects/tides/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index ffa1450..4cd9c5a 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,7 +241,7 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
-        if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
+        if let (TidesEffect::CentralBody(tidal_model), TidesEffect::OrbitingBody(_)) = (&tidal_host_particle.tides.effect, &particle.tides.effect) {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
                 TidalModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -353,6 +353,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if !matches!(particle.tides.effect, TidesEffect::OrbitingBody(_)) {
+                continue;
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From d454a0082af64fb28394fa3ca7d1f131ce4c0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:08 +0000
Subject: [PATCH 06/36] fix: project positions on the current spins, not on
 those of the previous evaluation

The scalar products of position and spin used by tides and rotational
flattening were computed before the spins were updated from the angular
momenta, so each torque mixed the current spin with a stale projection.
---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index c71533c..94eb55e 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -427,8 +427,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations); // Projects the positions on the spins just computed
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From 66751363ecdce3fb2548e0acb6027e6ccebeec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:43 +0000
Subject: [PATCH 07/36] fix: a body that does not rotate made the flattening
 forces of its system undefined

---
 src/effects/rotational_flattening/oblate_spheroid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 567cc9d..c740412 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -36,12 +36,12 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
                     // - Star Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation = particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.norm_spin_vector_2 * rotational_flattening_host_particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = if rotational_flattening_host_particle.norm_spin_vector_2 > 0. { -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5)) } else { 0. }; // a body that does not rotate is not flattened
                 } else {
                     // - Planet Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation = rotational_flattening_host_particle.mass * params.love_number * particle.norm_spin_vector_2 * particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = if particle.norm_spin_vector_2 > 0. { -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5)) } else { 0. };
                 }
             }
         }
@@ -51,10 +51,12 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
 pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
         if let RotationalFlatteningEffect::OrbitingBody(_) = particle.rotational_flattening.effect {
+            let star_term = if rotational_flattening_host_particle.norm_spin_vector_2 > 0. { particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2 } else { 0. };
+            let planet_term = if particle.norm_spin_vector_2 > 0. { particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2 } else { 0. };
             // - First part of Equation 15 from Bolmont et al. 2015
             particle.rotational_flattening.parameters.internal.radial_component_of_the_force_induced_by_rotation = -3./particle.rotational_flattening.parameters.internal.distance.powi(5) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation)
-                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
-                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2); // Msun.AU.day-1
+                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (star_term
+                    + planet_term); // Msun.AU.day-1
         }
     }
 }
-- 
2.43.0


From 942b7f9ebbc63265345c07f31682a79b5881e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 08/36] fix: WHFast and IAS15 integrate the spin when wind is
 the only effect with a torque

---
 src/integrator/ias15.rs  | 4 ++--
 src/integrator/whfast.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 78213c8..efd4a98 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -528,7 +528,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind || consider_dangular_momentum_dt_from_general_relativity;
 
         loop {
 
@@ -1345,7 +1345,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind || consider_dangular_momentum_dt_from_general_relativity;
         if ratio > 20. {
             // Do not predict if stepsize increase is very large.
             for k in 0..3*self.n_particles {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index 8b76a11..26cef37 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -272,7 +272,7 @@ impl Integrator for WHFast {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind || consider_dangular_momentum_dt_from_general_relativity;
 
         let evolution = true;
         self.integrate_velocity_dependent_forces(self.half_time_step, integrate_spin, evolution); // Corrects the inertial velocity and computes spin
-- 
2.43.0


From a31558b724eb35c67ced8cda1b01e97516addcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:56 +0000
Subject: [PATCH 09/36] fix: do not lose a recovery snapshot silently when it
 cannot be written completely

---
 src/integrator/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index d897073..4793245 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -45,11 +45,12 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
 
     if snapshot_path.extension().unwrap() == "json" {
         let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
-        writer.write(json_encoded.as_bytes()).unwrap();
+        writer.write_all(json_encoded.as_bytes()).unwrap();
     } else {
         // Binary
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
     }
+    writer.flush().unwrap(); // errors are ignored when the writer is dropped
 
 }
 
-- 
2.43.0


From 665854f550169d046a98badd787670094e992acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:56 +0000
Subject: [PATCH 10/36] fix: resume --time-limit aborted because the option was
 parsed as an integer and read as a float

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From 2631baad9003327d9f07e88f16d1cd2d4b5d12ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:59 +0000
Subject: [PATCH 11/36] fix: an execution time limit disabled the periodic
 recovery snapshots

---
 src/main.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..dbc7bfa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,14 +158,11 @@ fn main() {
     loop {
         match boxed_universe_integrator.iterate(&mut universe_history_writer, silent_mode) {
             Ok(recovery_snapshot_time_trigger) => {
-                if enabled_execution_time_limit {
-                    let elapsed = instant.elapsed();
-                    if elapsed >= execution_time_limit {
-                        // Save a universe snapshot so that we can resume later on
-                        boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-                        println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
-                        break;
-                    }
+                if enabled_execution_time_limit && instant.elapsed() >= execution_time_limit {
+                    // Save a universe snapshot so that we can resume later on
+                    boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
+                    println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
+                    break;
                 } else if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-- 
2.43.0


From 8673629e98282e4b64331576759aa6c29e71d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:48 +0000
Subject: [PATCH 12/36] fix: the second order post-Newtonian acceleration is
 divided by the fourth power of the speed of light

---
 src/effects/general_relativity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index b701bf8..ab79032 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -253,7 +253,7 @@ fn calculate_kidder1995_second_order_general_relativity_acceleration(host_partic
             let general_relativity_factor_2 = particle.general_relativity.parameters.internal.factor.powi(2);
 
             // Radial part of the GR force (Kidder 1995, equation 2.2d)
-            let radial_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2)
+            let radial_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2.powi(2))
                     * (3.0/4.0*(12.0+29.0*particle.general_relativity.parameters.internal.factor)*(star_planet_mass_g.powi(2)/distance_2)
                     + particle.general_relativity.parameters.internal.factor*(3.0-4.0*particle.general_relativity.parameters.internal.factor)*norm_velocity_vector_4
                     + 15.0/8.0*particle.general_relativity.parameters.internal.factor*(1.0-3.0*particle.general_relativity.parameters.internal.factor)*radial_velocity_4
@@ -261,7 +261,7 @@ fn calculate_kidder1995_second_order_general_relativity_acceleration(host_partic
                     - 0.5*particle.general_relativity.parameters.internal.factor*(13.0-4.0*particle.general_relativity.parameters.internal.factor)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)*norm_velocity_vector_2
                     - (2.0 + 25.0*particle.general_relativity.parameters.internal.factor+2.0*general_relativity_factor_2)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)*radial_velocity_2);
 
-            let orthogonal_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2)
+            let orthogonal_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2.powi(2))
                     * (-0.5)*particle.general_relativity.parameters.internal.radial_velocity
                     * (particle.general_relativity.parameters.internal.factor*(15.0+4.0*particle.general_relativity.parameters.internal.factor)*norm_velocity_vector_2 
                     - (4.0+41.0*particle.general_relativity.parameters.internal.factor+8.0*general_relativity_factor_2)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)
-- 
2.43.0


From 72ccbc5e54682e36024aa58ac0521fb6bc6339cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:48 +0000
Subject: [PATCH 13/36] fix: the relativistic spin-orbit acceleration and
 torques decrease with the cube of the distance

---
 src/effects/general_relativity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index ab79032..d79fdd2 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -365,7 +365,7 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
             let element3_y: f64 = 3.*particle.general_relativity.parameters.internal.radial_velocity * (particle_normalized_position.z * element3s.x - particle_normalized_position.x * element3s.z);
             let element3_z: f64 = 3.*particle.general_relativity.parameters.internal.radial_velocity * (particle_normalized_position.x * element3s.y - particle_normalized_position.y * element3s.x);
 
-            let factor_a = G / SPEED_OF_LIGHT_2;
+            let factor_a = G / (SPEED_OF_LIGHT_2 * particle.general_relativity.parameters.internal.distance.powi(3));
             let total_general_relativity_spin_orbit_acceleration_x = factor_a * (element1_x - element2_x + element3_x);
             let total_general_relativity_spin_orbit_acceleration_y = factor_a * (element1_y - element2_y + element3_y);
             let total_general_relativity_spin_orbit_acceleration_z = factor_a * (element1_z - element2_z + element3_z);
-- 
2.43.0


From ca3ba8c4e167fce15a09b8ed5bd3b846bff01f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:48 +0000
Subject: [PATCH 14/36] fix: add the ignored gravity terms of the relativistic
 accelerations in one coordinate system

---
 src/effects/general_relativity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index d79fdd2..3c737be 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -658,9 +658,9 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
             n_particles = particles.len() + more_particles.len();
         }
         for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
+            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
+            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
+            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
             let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
             let r = r2.sqrt();
             let prefac = G/(r2*r);
-- 
2.43.0


From 952352607bd24ec7ac117d2186c2995457f08b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:48 +0000
Subject: [PATCH 15/36] fix: the first term of the relativistic spin-orbit
 acceleration is a scalar product

---
 src/effects/general_relativity.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 3c737be..e1422ff 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -337,15 +337,15 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
             let mass_spin_factor_y = mass_factor*star_planet_mass*(particle_angular_momentum.y/particle.mass - star_angular_momentum.y/host_particle.mass);
             let mass_spin_factor_z = mass_factor*star_planet_mass*(particle_angular_momentum.z/particle.mass - star_angular_momentum.z/host_particle.mass);
 
-            let element1_x: f64 = 6.*particle_normalized_position.x
-                               * ((particle_normalized_position.y * particle.general_relativity.coordinates.velocity.z - particle_normalized_position.z * particle.general_relativity.coordinates.velocity.y)
-                               * (2.*(star_angular_momentum.x+particle_angular_momentum.x) + mass_spin_factor_x));
-            let element1_y :f64 = 6.*particle_normalized_position.y
-                               * ((particle_normalized_position.z * particle.general_relativity.coordinates.velocity.x - particle_normalized_position.x * particle.general_relativity.coordinates.velocity.z)
-                               * (2.*(star_angular_momentum.y+particle_angular_momentum.y) + mass_spin_factor_y));
-            let element1_z: f64 = 6.*particle_normalized_position.z
-                               * ((particle_normalized_position.x * particle.general_relativity.coordinates.velocity.y - particle_normalized_position.y * particle.general_relativity.coordinates.velocity.x)
-                               * (2.*(star_angular_momentum.z+particle_angular_momentum.z) + mass_spin_factor_z));
+            let element1_scalar: f64 = (particle_normalized_position.y * particle.general_relativity.coordinates.velocity.z - particle_normalized_position.z * particle.general_relativity.coordinates.velocity.y)
+                               * (2.*(star_angular_momentum.x+particle_angular_momentum.x) + mass_spin_factor_x)
+                               + (particle_normalized_position.z * particle.general_relativity.coordinates.velocity.x - particle_normalized_position.x * particle.general_relativity.coordinates.velocity.z)
+                               * (2.*(star_angular_momentum.y+particle_angular_momentum.y) + mass_spin_factor_y)
+                               + (particle_normalized_position.x * particle.general_relativity.coordinates.velocity.y - particle_normalized_position.y * particle.general_relativity.coordinates.velocity.x)
+                               * (2.*(star_angular_momentum.z+particle_angular_momentum.z) + mass_spin_factor_z);
+            let element1_x: f64 = 6.*particle_normalized_position.x * element1_scalar;
+            let element1_y: f64 = 6.*particle_normalized_position.y * element1_scalar;
+            let element1_z: f64 = 6.*particle_normalized_position.z * element1_scalar;
 
             let element7s = Axes{
                                     x:7.*(star_angular_momentum.x+particle_angular_momentum.x) + 3.*mass_spin_factor_x,
-- 
2.43.0


From e8c2b411d531f84b0b7c9be8b75ca0ec07b7de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:28 +0000
Subject: [PATCH 16/36] fix: the relativistic torques were missing when only
 torques were asked for

---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 94eb55e..7da9f8e 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -488,7 +488,7 @@ impl Universe {
                 }
             }
         }
-        if accelerations && self.consider_effects.general_relativity {
+        if (accelerations || (dangular_momentum_dt && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995)) && self.consider_effects.general_relativity {
             let (mut particles_left, particles_right) = particles.split_at_mut(self.hosts.index.general_relativity);
             if let Some((mut general_relativity_host_particle, mut particles_right)) = particles_right.split_first_mut() {
                 if let GeneralRelativityEffect::CentralBody(general_relativity_implementation) = general_relativity_host_particle.general_relativity.effect {
-- 
2.43.0


From 6e0c7c6de640013c8aeb825ac2eafef4c60a8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:16 +0000
Subject: [PATCH 17/36] fix: two bodies without relativistic effects made the
 Newhall 1983 accelerations undefined

---
 src/effects/general_relativity.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e1422ff..f9a8c95 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -708,13 +708,12 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                         .zip(drs_i.iter_mut())
                                         .enumerate() {
             if j != i{
-                if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled || particle_j.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                    drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
-                    drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
-                    drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
-                    rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
-                    //println!("i j: {} {} {:e}", i, j, rs_i[j]);
-                }
+                // All the distances are needed, the potential of bodies without this effect is also considered below
+                drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
+                //println!("i j: {} {} {:e}", i, j, rs_i[j]);
             }
         }
     }
-- 
2.43.0


From f528e5c52593af37a7a4368d1365a0f8ea29f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:44 +0000
Subject: [PATCH 18/36] fix: iterate the Newhall 1983 accelerations until they
 converge

---
 src/effects/general_relativity.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index f9a8c95..02bb834 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -852,14 +852,14 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                 .zip(host_a_new.iter_mut().chain(a_new[..n_particles].iter_mut()))
                                 .zip(host_a_old.iter().chain(a_old.iter())) {
             if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                if a_new_i.x.abs() < dev_limit {
-                    dx = (a_new_i.x - a_old_i.x).abs() / a_new_i.x;
+                if a_new_i.x.abs() >= dev_limit {
+                    dx = (a_new_i.x - a_old_i.x).abs() / a_new_i.x.abs();
                 }
-                if a_new_i.y.abs() < dev_limit {
-                    dy = (a_new_i.y - a_old_i.y).abs() / a_new_i.y;
+                if a_new_i.y.abs() >= dev_limit {
+                    dy = (a_new_i.y - a_old_i.y).abs() / a_new_i.y.abs();
                 }
-                if a_new_i.z.abs() < dev_limit {
-                    dz = (a_new_i.z - a_old_i.z).abs() / a_new_i.z;
+                if a_new_i.z.abs() >= dev_limit {
+                    dz = (a_new_i.z - a_old_i.z).abs() / a_new_i.z.abs();
                 }
                 if dx > maxdev { maxdev = dx; }
                 if dy > maxdev { maxdev = dy; }
-- 
2.43.0


From fa8c75aad68620b203d0cb40e58ae975c3dfe2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 19/36] fix: keep the last elements of the evolution tables
 reachable when time goes back

---
 src/effects/evolution.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index 8b23bef..7487c61 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -455,32 +455,39 @@ impl Evolver {
         }
     }
 
+    // Interpolated value and index (in the full table) of the last element before the current time
+    fn interpolate(&self, current_time: f64, values: &[f64]) -> (f64, usize) {
+        let idx = self.idx();
+        let (value, left_index) = linear_interpolation(current_time, &self.time[idx..], &values[idx..]);
+        (value, idx + left_index)
+    }
+
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
         let (new_radius, left_index) = match self.evolution {
-            EvolutionType::NonEvolving => { (current_radius, 0) },
-            _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
+            EvolutionType::NonEvolving => { (current_radius, self.left_index) },
+            _ => { self.interpolate(current_time, &self.radius) }
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_radius;
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
         let (new_radius_of_gyration_2, left_index) = match self.evolution {
-            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            _ => { (current_radius_of_gyration_2, 0) }
+            EvolutionType::Baraffe2015(_) => { self.interpolate(current_time, &self.radius_of_gyration_2) },
+            EvolutionType::Leconte2011(_) => { self.interpolate(current_time, &self.radius_of_gyration_2) },
+            EvolutionType::LeconteChabrier2013(_) => { self.interpolate(current_time, &self.radius_of_gyration_2) },
+            _ => { (current_radius_of_gyration_2, self.left_index) }
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
         let (new_love_number, left_index) = match self.evolution {
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
-            _ => { (current_love_number, 0) }
+            EvolutionType::LeconteChabrier2013(_) => { self.interpolate(current_time, &self.love_number) },
+            _ => { (current_love_number, self.left_index) }
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_love_number;
     }
 
@@ -504,11 +511,11 @@ impl Evolver {
         // included in future versions of this code.
         let (new_inverse_tidal_q_factor, left_index) = match self.evolution {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
-                linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
+                self.interpolate(current_time, &self.inverse_tidal_q_factor)
             },
-            _ => (current_inverse_tidal_q_factor, 0),
+            _ => (current_inverse_tidal_q_factor, self.left_index),
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From 7c4f0b3e6f72f0aebd5ee611d66eec39d9b6eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:11 +0000
Subject: [PATCH 20/36] fix: the evolution of the love number was written to a
 copy

---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index 7487c61..9365627 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -538,9 +538,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From ceae39bc358cd45e721d6157ac5d214d61ae022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:41 +0000
Subject: [PATCH 21/36] fix: ias15 compares each torque with the largest
 torque, not with the largest acceleration

---
 src/integrator/ias15.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index efd4a98..6ea19d8 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -1123,7 +1123,7 @@ impl Ias15 {
                             //
                             if integrate_spin {
                                 let dangular_momentum_dttk  = self.dangular_momentum_dtt[k].abs();
-                                if dangular_momentum_dttk.is_normal() && dangular_momentum_dttk>maxak {
+                                if dangular_momentum_dttk.is_normal() && dangular_momentum_dttk>max_dangular_momentum_dtk {
                                     max_dangular_momentum_dtk = dangular_momentum_dttk;
                                 }
                                 let b6ks = self.sb_6[k].abs(); 
-- 
2.43.0


From ba0d7d9ba927db85fa782a1c1a41bbc6d95b38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:41 +0000
Subject: [PATCH 22/36] fix: ias15 scales the argument of the seventh root to
 where its iteration converges

---
 src/integrator/ias15.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 6ea19d8..c645ddf 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -1452,12 +1452,23 @@ impl Ias15 {
 
     fn sqrt7(&self, a: f64) -> f64 {
         // Machine independent implementation of powf(1./7.)
+        // Without scaling, 20 iterations are only enough for arguments in [1e-7, 1e2]
+        let mut a = a;
+        let mut scale: f64 = 1.;
+        while a < 1e-7 && a.is_normal() {
+            scale *= 0.1;
+            a *= 1e7;
+        }
+        while a > 1e2 && a.is_normal() {
+            scale *= 10.;
+            a *= 1e-7;
+        }
         let mut x: f64 = 1.;
         for _k in 0..20 { // A smaller number should be ok too.
             let x6 = x*x*x*x*x*x;
             x += (a/x6-x)/7.;
         }
-        x
+        x * scale
     }
 
     fn max(&self, a: f64, b: f64) -> f64 {
-- 
2.43.0


From d4b06cb39989262662f81c35d8451e9019d82cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 23/36] fix: the inclination of an orbit does not depend on the
 position of its node

---
 src/tools.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index a0953d5..47873b9 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -120,9 +120,6 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_i = (hz / h).clamp(-1.,1.);
     if cos_i.abs() < 1. {
         i = cos_i.acos();
-        if hy > 0. {
-            i = TWO_PI - i;
-        }
         //longitude_of_ascending_node = (hx / -hy).atan();
         longitude_of_ascending_node = hx.atan2(-hy);
         if longitude_of_ascending_node < 0. {
-- 
2.43.0


From d21cf3095e15efdf0d78642b055843982782cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 24/36] fix: the anomaly of a circular orbit covers the whole
 circle

---
 src/tools.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools.rs b/src/tools.rs
index 47873b9..07734eb 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -180,8 +180,13 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_f:f64;
     if eccentricity == 0. {
         let x_rot = x*longitude_of_ascending_node.cos() + y*longitude_of_ascending_node.sin();
+        let y_rot = -x*longitude_of_ascending_node.sin() + y*longitude_of_ascending_node.cos();
+        let y_rot_2 = y_rot*i.cos() + z*i.sin();
         cos_f = (x_rot / r).clamp(-1.,1.);
         true_anomaly = cos_f.acos();
+        if y_rot_2 < 0. {
+            true_anomaly = TWO_PI - true_anomaly;
+        }
     } else {
         cos_f = (e_scal_r / (eccentricity * r)).clamp(-1., 1.);
         true_anomaly = cos_f.acos();
-- 
2.43.0


From 1f3d43413a5e73a963b0103578cd2ebe841a2c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 25/36] fix: hyperbolic orbits have a mean anomaly

---
 src/tools.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 07734eb..7efb68c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -201,7 +201,7 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     if eccentricity == 0. {
         mean_anomaly = true_anomaly;
     } else {
-        let mut cos_bige = ((1./eccentricity)*( 1. - (r / a) )).clamp(-1.,1.);
+        let mut cos_bige = (1./eccentricity)*( 1. - (r / a) );
 
         // Mean anomaly for ellipse
         if eccentricity < 1. {
@@ -227,11 +227,14 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
 
     }
   
-    if mean_anomaly < 0. {
-        mean_anomaly = mean_anomaly + TWO_PI;
-    }
-    if mean_anomaly > TWO_PI {
-        mean_anomaly = modulus(mean_anomaly, TWO_PI);
+    if eccentricity < 1. {
+        // The mean anomaly of a hyperbola is not periodic
+        if mean_anomaly < 0. {
+            mean_anomaly = mean_anomaly + TWO_PI;
+        }
+        if mean_anomaly > TWO_PI {
+            mean_anomaly = modulus(mean_anomaly, TWO_PI);
+        }
     }
 
     // Given relative coordinates and velocities (of the body 1 respect to body 2),
-- 
2.43.0


From 6f086d8cb47affb8f52512efefa7ed6925913a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 26/36] fix: the solver for slow hyperbolic orbits returns the
 anomaly it solved for

---
 posidonius/tools.py | 2 +-
 src/tools.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 4d4800c..d806ea8 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -818,7 +818,7 @@ def kepler_solution_for_a_hyperbola(e, n):
 
     if abn < 0.636*e -0.6:
        tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n)
-       orbel_fhybrid = tmp[1]
+       orbel_fhybrid = tmp[0]
     else:
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n)
 
diff --git a/src/tools.rs b/src/tools.rs
index 7efb68c..3f9636c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -615,7 +615,7 @@ fn kepler_solution_for_a_hyperbola(e: f64, n: f64) -> f64 {
     //// TODO:
     if abn < 0.636*e -0.6 {
        let tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n);
-       orbel_fhybrid = tmp.1;
+       orbel_fhybrid = tmp.0;
     } else {
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n);
     }
-- 
2.43.0


From 38a317ab5dc0578d99441816757a2fa065b2a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 27/36] fix: negative mean anomalies are reduced to the range
 of Kepler's equation

---
 posidonius/tools.py | 5 +----
 src/tools.rs        | 6 +-----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index d806ea8..5270b52 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -645,10 +645,7 @@ def kepler_solution_for_eccentrities_smaller_than_one(e, oldl):
     piby2 = 0.5 * PI
 
     # Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0.:
-       l = modulus(oldl, TWO_PI)
-    else:
-       l = (modulus(oldl, TWO_PI)) + TWO_PI
+    l = modulus(oldl, TWO_PI)
 
     sign = 1.
     if l > PI:
diff --git a/src/tools.rs b/src/tools.rs
index 3f9636c..8d6679f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -432,11 +432,7 @@ fn kepler_solution_for_eccentrities_smaller_than_one(e: f64, oldl: f64) -> f64 {
     let piby2 = 0.5 * PI;
   
     // Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0. {
-       l = modulus(oldl, TWO_PI);
-    } else {
-       l = (modulus(oldl, TWO_PI)) + TWO_PI;
-    }
+    l = modulus(oldl, TWO_PI);
     let mut sign = 1.;
     if l > PI {
        l = TWO_PI - l;
-- 
2.43.0


From 17b932b59252c83968e89455ecd3576c7cbc2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 28/36] fix: signs of two coefficients of the polar Cayley
 expansion of the creep tide

---
 src/effects/tides/creep_coplanar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 5d32e06..18da098 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -468,8 +468,8 @@ fn calculate_cayley_coefficients(e: f64) -> [[f64; 15]; 2] {
     cayley[0][3] = 77.0 / 16.0 * e4 + 129.0 / 160.0 * e6;
     cayley[0][4] = 53.0 / 16.0 * e3 + 393.0 / 256.0 * e5 + 24753.0 / 10240.0 * e7;
     cayley[0][5] = 9.0 / 4.0 * e2 + 7.0 / 4.0 * e4 + 141.0 / 64.0 * e6;
-    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 - 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
-    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 - 35.0 / 16.0 * e6;
+    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 + 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
+    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 + 35.0 / 16.0 * e6;
     cayley[0][8] = cayley[0][6];
     cayley[0][9] = cayley[0][5];
     cayley[0][10] = cayley[0][4];
-- 
2.43.0


From 799b3789842991cd7a4fbb150a8f89d788562e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 29/36] fix: the lag of the polar oblateness of a creep tide
 was left out

---
 src/effects/tides/creep_coplanar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 18da098..2fc12d8 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -418,7 +418,7 @@ pub fn calculate_particle_shape(
                     + (2.0 * primary_spin - (9.0 - dk) * mean_motion) * (equatorial_angles).cos());
              sum_epsilon_z += cayley[0][k]
                 / ((dk - 7.0).powi(2) * mean_motion.powi(2) + relaxation_factor.powi(2))
-                * ((dk - 7.0).powi(2) * mean_motion.powi(2) * (polar_angles).sin()
+                * (relaxation_factor * (dk - 7.0) * mean_motion * (polar_angles).sin()
                     + relaxation_factor.powi(2) * (polar_angles).cos());
             //sum_x_component_of_the_equatorial_prolateness += 0.0;
             //sum_y_component_of_the_equatorial_prolateness += 0.0;
-- 
2.43.0


From e6c570f35535d35cc353f71d297d426a57473750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 30/36] fix: creep flattening without tides used tidal
 coordinates and viscosity that nobody sets

---
 src/effects/rotational_flattening/common.rs |  2 +-
 src/effects/tides/creep_coplanar.rs         | 34 ++++++++++-----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 0c48b59..c91a7fe 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,7 +183,7 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
-        if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
+        if let (RotationalFlatteningEffect::CentralBody(rotational_flattening_model), RotationalFlatteningEffect::OrbitingBody(_)) = (rotational_flattening_host_particle.rotational_flattening.effect, particle.rotational_flattening.effect) {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
                 RotationalFlatteningModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 2fc12d8..fb6ae48 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -7,6 +7,8 @@ use super::super::super::{Particle};
 use super::super::super::{Axes};
 use super::common::TidesEffect;
 use super::common::TidalModel;
+use super::super::rotational_flattening::RotationalFlatteningEffect;
+use super::super::rotational_flattening::RotationalFlatteningModel;
 
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct CreepCoplanarParameters {
@@ -149,6 +151,12 @@ pub fn calculate_creep_coplanar_shapes(tidal_host_particle: &mut Particle, parti
 
 pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle: &Particle, consider_tides: bool, consider_rotational_flattening: bool, central_body: bool) -> Axes {
     let gm = tidal_host_particle.mass_g + particle.mass_g;
+    // The tidal coordinates are only kept up to date when tides are considered
+    let (position, velocity) = if consider_tides {
+        (particle.tides.coordinates.position, particle.tides.coordinates.velocity)
+    } else {
+        (particle.rotational_flattening.coordinates.position, particle.rotational_flattening.coordinates.velocity)
+    };
     let (
         semimajor_axis,
         _perihelion_distance,
@@ -160,8 +168,8 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
         orbital_period,
     ) = tools::calculate_keplerian_orbital_elements(
         gm,
-        particle.tides.coordinates.position,
-        particle.tides.coordinates.velocity,
+        position,
+        velocity,
     );
     //let true_anomaly = calculate_true_anomaly(eccentricity, mean_anomaly);
 
@@ -169,14 +177,9 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
 
     let shape = match central_body {
         false => {
-            let particle_uniform_viscosity_coefficient = match &particle.tides.effect {
-                TidesEffect::OrbitingBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
+            let particle_uniform_viscosity_coefficient = match (consider_tides, &particle.tides.effect, &particle.rotational_flattening.effect) {
+                (true, TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(params)), _) => params.uniform_viscosity_coefficient,
+                (false, _, RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::CreepCoplanar(params))) => params.uniform_viscosity_coefficient,
                 _ => 0.,
             };
             calculate_particle_shape(
@@ -194,14 +197,9 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
             )
         },
         true => {
-            let tidal_host_particle_uniform_viscosity_coefficient = match &tidal_host_particle.tides.effect {
-                TidesEffect::CentralBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
+            let tidal_host_particle_uniform_viscosity_coefficient = match (consider_tides, &tidal_host_particle.tides.effect, &tidal_host_particle.rotational_flattening.effect) {
+                (true, TidesEffect::CentralBody(TidalModel::CreepCoplanar(params)), _) => params.uniform_viscosity_coefficient,
+                (false, _, RotationalFlatteningEffect::CentralBody(RotationalFlatteningModel::CreepCoplanar(params))) => params.uniform_viscosity_coefficient,
                 _ => 0.,
             };
             calculate_particle_shape(
-- 
2.43.0


From 2b291a30f6c4b3ffa24ceeeeca583f16b12168c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 31/36] fix: coefficients of the Kaula eccentricity functions
 G_202, G_310 and G_31q for large q

The fourth order of G_202 is -115/6, as in the Hansen coefficient; the rows
of G_31q from the third harmonic on repeated those of G_30q.
---
 src/effects/tides/kaula.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 831700a..d941729 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1239,7 +1239,7 @@ impl Polynomials {
         self.eccentricity_function_g_2pq[0][6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_2pq[0][7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_2pq[0][8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_2pq[0][10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_2pq[0][11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_2pq[0][12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
@@ -1315,7 +1315,7 @@ impl Polynomials {
         self.eccentricity_function_g_20q[6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_20q[7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_20q[8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_20q[10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_20q[11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_20q[12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
@@ -1411,20 +1411,20 @@ impl Polynomials {
         self.eccentricity_function_g_3pq[0][14] = (44377. / 63.) * ecc_7;
 
         self.eccentricity_function_g_3pq[1][0] = (16337. / 2240.) * ecc_7;
-        self.eccentricity_function_g_3pq[1][1] = (48203. / 9240.) * ecc_6;
+        self.eccentricity_function_g_3pq[1][1] = (48203. / 9216.) * ecc_6;
         self.eccentricity_function_g_3pq[1][2] = (899. / 240.) * ecc_5 + (2441. / 480.) * ecc_7;
         self.eccentricity_function_g_3pq[1][3] = (343. / 128.) * ecc_4 + (2819. / 640.) * ecc_6;
         self.eccentricity_function_g_3pq[1][4] = (23. / 12.) * ecc_3 + (89. / 24.) * ecc_5 + (5663. / 960.) * ecc_7;
         self.eccentricity_function_g_3pq[1][5] = (11. / 8.) * ecc_2 + (49. / 16.) * ecc_4 + (15665. / 3072.) * ecc_6;
         self.eccentricity_function_g_3pq[1][6] = ecc * (1. - ecc_2).powf(-5. / 2.);
-        self.eccentricity_function_g_3pq[1][7] = 1. + (1. / 2.) * ecc_2 + (239. / 64.) * ecc_4 - (3323. / 576.) * ecc_6;
+        self.eccentricity_function_g_3pq[1][7] = 1. + 2. * ecc_2 + (239. / 64.) * ecc_4 + (3323. / 576.) * ecc_6;
         self.eccentricity_function_g_3pq[1][8] = 3. * ecc + (11. / 4.) * ecc_3 + (245. / 48.) * ecc_5 + (463. / 64.) * ecc_7;
         self.eccentricity_function_g_3pq[1][9] = (53. / 8.) * ecc_2 + (39. / 16.) * ecc_4 + (7041. / 1024.) * ecc_6;
-        self.eccentricity_function_g_3pq[1][10] = (163. / 4.) * ecc_3 - (2577. / 16.) * ecc_5 + (1089. / 5.) * ecc_7;
-        self.eccentricity_function_g_3pq[1][11] = (35413. / 384.) * ecc_4 - (709471. / 1920.) * ecc_6;
-        self.eccentricity_function_g_3pq[1][12] = (23029. / 120.) * ecc_5 - (35614. / 45.) * ecc_7;
-        self.eccentricity_function_g_3pq[1][13] = (385095. / 1024.) * ecc_6;
-        self.eccentricity_function_g_3pq[1][14] = (44377. / 63.) * ecc_7;
+        self.eccentricity_function_g_3pq[1][10] = (77. / 6.) * ecc_3 - (25. / 48.) * ecc_5 + (4751. / 480.) * ecc_7;
+        self.eccentricity_function_g_3pq[1][11] = (2955. / 128.) * ecc_4 - (3463. / 384.) * ecc_6;
+        self.eccentricity_function_g_3pq[1][12] = (3167. / 80.) * ecc_5 - (8999. / 320.) * ecc_7;
+        self.eccentricity_function_g_3pq[1][13] = (3024637. / 46080.) * ecc_6;
+        self.eccentricity_function_g_3pq[1][14] = (178331. / 1680.) * ecc_7;
 
         self.eccentricity_function_g_3pq[2][0] = self.eccentricity_function_g_3pq[1][14];
         self.eccentricity_function_g_3pq[2][1] = self.eccentricity_function_g_3pq[1][13];
@@ -1537,20 +1537,20 @@ impl Polynomials {
         let ecc_7: f64 = ecc.powi(7);
 
         eccentricity_function[0] = (16337. / 2240.) * ecc_7;
-        eccentricity_function[1] = (48203. / 9240.) * ecc_6;
+        eccentricity_function[1] = (48203. / 9216.) * ecc_6;
         eccentricity_function[2] = (899. / 240.) * ecc_5 + (2441. / 480.) * ecc_7;
         eccentricity_function[3] = (343. / 128.) * ecc_4 + (2819. / 640.) * ecc_6;
         eccentricity_function[4] = (23. / 12.) * ecc_3 + (89. / 24.) * ecc_5 + (5663. / 960.) * ecc_7;
         eccentricity_function[5] = (11. / 8.) * ecc_2 + (49. / 16.) * ecc_4 + (15665. / 3072.) * ecc_6;
         eccentricity_function[6] = ecc * (1. - ecc_2).powf(-5. / 2.);
-        eccentricity_function[7] = 1. + (1. / 2.) * ecc_2 + (239. / 64.) * ecc_4 - (3323. / 576.) * ecc_6;
+        eccentricity_function[7] = 1. + 2. * ecc_2 + (239. / 64.) * ecc_4 + (3323. / 576.) * ecc_6;
         eccentricity_function[8] = 3. * ecc + (11. / 4.) * ecc_3 + (245. / 48.) * ecc_5 + (463. / 64.) * ecc_7;
         eccentricity_function[9] = (53. / 8.) * ecc_2 + (39. / 16.) * ecc_4 + (7041. / 1024.) * ecc_6;
-        eccentricity_function[10] = (163. / 4.) * ecc_3 - (2577. / 16.) * ecc_5 + (1089. / 5.) * ecc_7;
-        eccentricity_function[11] = (35413. / 384.) * ecc_4 - (709471. / 1920.) * ecc_6;
-        eccentricity_function[12] = (23029. / 120.) * ecc_5 - (35614. / 45.) * ecc_7;
-        eccentricity_function[13] = (385095. / 1024.) * ecc_6;
-        eccentricity_function[14] = (44377. / 63.) * ecc_7;
+        eccentricity_function[10] = (77. / 6.) * ecc_3 - (25. / 48.) * ecc_5 + (4751. / 480.) * ecc_7;
+        eccentricity_function[11] = (2955. / 128.) * ecc_4 - (3463. / 384.) * ecc_6;
+        eccentricity_function[12] = (3167. / 80.) * ecc_5 - (8999. / 320.) * ecc_7;
+        eccentricity_function[13] = (3024637. / 46080.) * ecc_6;
+        eccentricity_function[14] = (178331. / 1680.) * ecc_7;
 
         eccentricity_function
     }
-- 
2.43.0


From 237e6a1f09ea8ae7da9ed69905ced33ed7150c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 32/36] fix: Kaula inclination functions of degree three

F_30p, F_31p, F_32p and F_33p did not agree with the functions of Kaula (1961).
---
 src/effects/tides/kaula.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index d941729..8dbdff2 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1159,40 +1159,41 @@ impl Polynomials {
         let sin_factor_2 = (3. / 4.) * sin_incl;
 
         self.inclination_function_f_30p[0] = -sin_3_factor_1;
-        self.inclination_function_f_30p[1] = sin_3_factor_1 - sin_factor_2;
-        self.inclination_function_f_30p[2] = -sin_3_factor_1 + sin_factor_2;
+        self.inclination_function_f_30p[1] = 3.0 * sin_3_factor_1 - sin_factor_2;
+        self.inclination_function_f_30p[2] = -3.0 * sin_3_factor_1 + sin_factor_2;
         self.inclination_function_f_30p[3] = -self.inclination_function_f_30p[0];
     }
     // --- The inclination function of the Kaula 1961 developpement Flmp(i)
     fn calculate_inclination_function_f_31p(&mut self, inclination: f64) {
         let sin_incl = inclination.sin();
         let sin_2_factor_1 = (15. / 16.) * sin_incl.powi(2);
-        let sin_2_factor_43 = sin_2_factor_1 - (3. / 4.);
         let cos_incl = inclination.cos();
-        let cos_incl_factor_1 = 1.0 + 3.0 * cos_incl;
-        let cos_incl_factor_2 = 1.0 - 3.0 * cos_incl;
+        let cos_incl_factor_1 = 1.0 + cos_incl;
+        let cos_incl_factor_2 = 1.0 - cos_incl;
+        let cos_incl_factor_3 = 1.0 + 3.0 * cos_incl;
+        let cos_incl_factor_4 = 1.0 - 3.0 * cos_incl;
 
         self.inclination_function_f_31p[0] = -sin_2_factor_1 * cos_incl_factor_1;
-        self.inclination_function_f_31p[1] = sin_2_factor_43 * cos_incl_factor_1;
-        self.inclination_function_f_31p[2] = sin_2_factor_43 * cos_incl_factor_2;
+        self.inclination_function_f_31p[1] = sin_2_factor_1 * cos_incl_factor_3 - (3. / 4.) * cos_incl_factor_1;
+        self.inclination_function_f_31p[2] = sin_2_factor_1 * cos_incl_factor_4 - (3. / 4.) * cos_incl_factor_2;
         self.inclination_function_f_31p[3] = -sin_2_factor_1 * cos_incl_factor_2;
     }
     // --- The inclination function of the Kaula 1961 developpement Flmp(i)
     fn calculate_inclination_function_f_32p(&mut self, inclination: f64) {
         let sin_incl = inclination.sin();
-        let sin_2_factor_1 = (15. / 8.) * sin_incl.powi(2);
+        let sin_factor_1 = (15. / 8.) * sin_incl;
         let cos_incl = inclination.cos();
         let cos_incl_2 = cos_incl.powi(2);
 
-        self.inclination_function_f_32p[0] = sin_2_factor_1 * (1.0 + cos_incl).powi(2);
-        self.inclination_function_f_32p[1] = sin_2_factor_1 * (1.0 - 2.0 * cos_incl - 3.0 * cos_incl_2);
-        self.inclination_function_f_32p[2] = -sin_2_factor_1 * (1.0 + 2.0 * cos_incl - 3.0 * cos_incl_2);
-        self.inclination_function_f_32p[3] = -sin_2_factor_1 * (1.0 - cos_incl).powi(2);
+        self.inclination_function_f_32p[0] = sin_factor_1 * (1.0 + cos_incl).powi(2);
+        self.inclination_function_f_32p[1] = sin_factor_1 * (1.0 - 2.0 * cos_incl - 3.0 * cos_incl_2);
+        self.inclination_function_f_32p[2] = -sin_factor_1 * (1.0 + 2.0 * cos_incl - 3.0 * cos_incl_2);
+        self.inclination_function_f_32p[3] = -sin_factor_1 * (1.0 - cos_incl).powi(2);
     }
     // --- The inclination function of the Kaula 1961 developpement Flmp(i)
     fn calculate_inclination_function_f_33p(&mut self, inclination: f64) {
         let sin_incl = inclination.sin();
-        let sin_2_factor_1 = (48. / 8.) * sin_incl.powi(2);
+        let sin_2_factor_1 = (45. / 8.) * sin_incl.powi(2);
         let cos_incl = inclination.cos();
         let cos_incl_factor_1 = 1.0 + cos_incl;
         let cos_incl_factor_2 = 1.0 - cos_incl;
-- 
2.43.0


From 6af11d1d68905e063cc0fe6e4f1f53e81443e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 33/36] fix: radial Kaula tide of a circular orbit depends on
 the real part of the Love number

The limit of the sum over the eccentricity functions as e goes to zero has the
real part; with the imaginary part the force jumped between e = 0 and e > 0.
---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 8dbdff2..a1e5456 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -186,8 +186,8 @@ fn calculate_radial_component_of_the_tidal_force(
             let frequ_2010 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(0., 1., 0., spin, orbital_frequency);
             let frequ_2200 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(2., 0., 0., spin, orbital_frequency);
             let (rek2_2010, _imk2_2010) = calculate_kaula_numbers(frequ_2010, kaula_param, central_body);
-            let (_rek2_2200, imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
-            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * imk2_2200);
+            let (rek2_2200, _imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
+            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
             radial_force_secular = radial_force;
         } else {
             //  --- If eccentric orbit
-- 
2.43.0


From 9f78c08c9a347f87b691fde38d46589354b3d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 34/36] fix: Kaula stellar tide scales with the mass of the
 planet and the radius of the star

Only the radial component of the coplanar case used the mass of the perturber
and the radius of the deformed body; the others had them exchanged, so the
force was not central plus torque of one and the same tide.
---
 src/effects/tides/kaula.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index a1e5456..db99cd9 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -257,7 +257,7 @@ fn calculate_radial_component_of_the_tidal_force(
         } else {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
             heliocentric_r = tidal_host_particle.heliocentric_distance;
-            particle_star_2 = particle.mass.powi(2);
+            particle_star_2 = tidal_host_particle.mass.powi(2);
         }
         particle_radius_5 = particle.radius.powi(5);
 
@@ -422,8 +422,8 @@ fn calculate_normal_component_of_the_tidal_force(
             particle_radius_5 = particle.radius.powi(5);
         } else {
             heliocentric_r = tidal_host_particle.heliocentric_distance;
-            particle_star_2 = particle.mass.powi(2);
-            particle_radius_5 = tidal_host_particle.radius.powi(5);
+            particle_star_2 = tidal_host_particle.mass.powi(2);
+            particle_radius_5 = particle.radius.powi(5);
         }
 
         let heliocentric_varphi: f64 = 0.;
@@ -671,7 +671,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         sin_theta = coplanar_distance / distance;
-        cste_2d = -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
+        cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The stellar/planetary spin in [rad.s^-1]
 
@@ -897,7 +897,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
             -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(7))
         } else {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-            -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(7))
+            -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(7))
         };
 
         orthogonal_force = cste_3d * (_term_m1 + _term_m2);
-- 
2.43.0


From b94dc26852efc36acceda9fa4c246cabc97459e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 35/36] fix: torque on a Kaula star from several planets

The secular force of the stellar tide was kept in one place on the star, so the
torque on the star used the force of the last planet for every planet.
---
 src/effects/tides/common.rs |  5 +++++
 src/effects/tides/kaula.rs  | 16 ++++++----------
 src/particles/axes.rs       |  2 +-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 4cd9c5a..3a15828 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -54,6 +54,10 @@ pub struct TidesParticleInternalParameters {
     // Creep coplanar specific:
     pub shape: Axes,
     //
+    // Kaula specific:
+    #[serde(default)]
+    pub kaula_tidal_force_due_to_stellar_tide: Axes, // Secular force on the star from the tide that this body raises on it
+    //
     pub denergy_dt: f64, // Only for history output
     pub lag_angle: f64, // Used by EvolutionType::BolmontMathis2016, EvolutionType::GalletBolmont2017 and EvolutionType::LeconteChabrier2013(true)
 }
@@ -124,6 +128,7 @@ impl Tides {
                     radial_component_of_the_tidal_force: 0.,
                     radial_component_of_the_tidal_force_dissipative_part_when_star_as_point_mass: 0.,
                     shape: Axes{x: 0., y: 0., z: 0.},
+                    kaula_tidal_force_due_to_stellar_tide: Axes{x: 0., y: 0., z: 0.},
                     denergy_dt: 0., // Only for history output
                     lag_angle: 0., // It will be initialized the first time the evolver is called
                 },
diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index db99cd9..f259563 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -113,6 +113,10 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
         params.kaula_tidal_force.x = radial_component_of_the_tidal_force_secular * sin_theta * cos_phi + normal_component_of_the_tidal_force_secular * cos_theta * cos_phi - orthogonal_component_of_the_tidal_force_secular * sin_phi;
         params.kaula_tidal_force.y = radial_component_of_the_tidal_force_secular * sin_theta * sin_phi + normal_component_of_the_tidal_force_secular * cos_theta * sin_phi + orthogonal_component_of_the_tidal_force_secular * cos_phi;
         params.kaula_tidal_force.z = radial_component_of_the_tidal_force_secular * cos_theta - normal_component_of_the_tidal_force_secular * sin_theta;
+        if central_body {
+            // Each body raises its own tide on the star
+            tidal_host_particle.tides.parameters.internal.kaula_tidal_force_due_to_stellar_tide = params.kaula_tidal_force;
+        }
     } else {
         unreachable!();
     }
@@ -908,7 +912,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
 
 // -------------------------------------------------- //
 // --- Calculate tidal torque due to tidal forces --- //
-pub fn calculate_torque_due_to_tides(tidal_host_particle: &Particle, particle: &Particle, central_body: bool) -> Axes {
+pub fn calculate_torque_due_to_tides(_tidal_host_particle: &Particle, particle: &Particle, central_body: bool) -> Axes {
     let position_x: f64;
     let position_y: f64;
     let position_z: f64;
@@ -933,15 +937,7 @@ pub fn calculate_torque_due_to_tides(tidal_host_particle: &Particle, particle: &
         position_y = particle.tides.coordinates.position.y;
         position_z = particle.tides.coordinates.position.z;
     } else {
-        let kaula_tidal_force = match &tidal_host_particle.tides.effect {
-            TidesEffect::CentralBody(tidal_model) => {
-                match tidal_model {
-                    TidalModel::Kaula(params) => params.kaula_tidal_force,
-                    _ => unreachable!(),
-                }
-            },
-            _ => unreachable!(),
-        };
+        let kaula_tidal_force = particle.tides.parameters.internal.kaula_tidal_force_due_to_stellar_tide;
         tidal_force_x = kaula_tidal_force.x;
         tidal_force_y = kaula_tidal_force.y;
         tidal_force_z = kaula_tidal_force.z;
diff --git a/src/particles/axes.rs b/src/particles/axes.rs
index 1a794cb..83f92ae 100644
--- a/src/particles/axes.rs
+++ b/src/particles/axes.rs
@@ -1,6 +1,6 @@
 use serde::{Serialize, Deserialize};
 
-#[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
+#[derive(Debug, Copy, Clone, Default, Serialize, Deserialize, PartialEq)]
 pub struct Axes {
     pub x: f64,
     pub y: f64,
-- 
2.43.0


From 16e3b8282f5a2db1d3e879a48ddf22e11c5b82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 36/36] fix: Kaula tide uses the orbit around the tidal host

The elements and distances were those around the most massive body, which need
not be the tidal host; the direction of the force was already taken from the
tidal coordinates.
---
 src/effects/tides/kaula.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index f259563..0533fe5 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -63,14 +63,14 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
     // !central_body ==> planetary tide ==> particle is the planet
     // central_body ==> stellar tide ==> tidal_host_particle is the planet
     if !central_body {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.heliocentric_position, particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.tides.coordinates.position, particle.tides.coordinates.velocity);
         radial_distance = particle.tides.parameters.internal.distance;
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = particle.tides.coordinates.position.z / radial_distance;
         cos_phi = particle.tides.coordinates.position.x / coplanar_distance;
         sin_phi = particle.tides.coordinates.position.y / coplanar_distance;
     } else {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity);
         radial_distance = tidal_host_particle.tides.parameters.internal.distance;
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = tidal_host_particle.tides.coordinates.position.z / radial_distance;
@@ -158,11 +158,11 @@ fn calculate_radial_component_of_the_tidal_force(
     let orbital_frequency: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     argument_perihelion = longitude_perihelion - longitude_of_ascending_node;
     orbital_frequency = TWO_PI / (orbital_period * DAY); // The orbital mean motion in [rad.s^-1]
@@ -256,11 +256,11 @@ fn calculate_radial_component_of_the_tidal_force(
 
         if !central_body {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
         } else {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
         }
         particle_radius_5 = particle.radius.powi(5);
@@ -401,9 +401,9 @@ fn calculate_normal_component_of_the_tidal_force(
 
     let obliquity: f64;
     if !central_body {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
     let normal_force: f64;
@@ -421,11 +421,11 @@ fn calculate_normal_component_of_the_tidal_force(
 
         if !central_body {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
             particle_radius_5 = particle.radius.powi(5);
         } else {
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
             particle_radius_5 = particle.radius.powi(5);
         }
@@ -659,9 +659,9 @@ fn calculate_orthogonal_component_of_the_tidal_force(
     let cste_2d: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
+        tem_radius = particle.tides.parameters.internal.distance;
         // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
         // spin = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2) + particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
@@ -669,8 +669,8 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     } else {
         // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
         // spin = tidal_host_particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
-- 
2.43.0

