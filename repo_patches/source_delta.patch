From 6c14df85e60d0784660504921a2fb2b1a1944b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 1/6] fix: use the projectile mass in the two-beam s_from_Ekin

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From 7c56c8452e77d9365c38e1918268c0f6a21ef23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 2/6] fix: pass the masses on in the two-beam s_from_plab

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From 3f57bb0db4a4af0358b3f5a90282ea9d3d31dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 3/6] fix: compute sqrt(s_NN) from total energies for two beams

---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From 942eb67ce0c63c4a55f739af9e01a2020f7508ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:58 +0000
Subject: [PATCH 4/6] fix: report a particle list made of holes only as empty

---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From 4801e3626df4a9a2861be8da31f2ad94194cba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:39 +0000
Subject: [PATCH 5/6] fix: resize the lattice when reset_and_resize changes its
 number of cells

---
 src/include/smash/lattice.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..439a7e0 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -822,8 +822,10 @@ class RectangularLattice {
       lattice_sizes_ = *new_length;
     if (new_origin)
       origin_ = *new_origin;
-    if (new_cells)
+    if (new_cells) {
       n_cells_ = *new_cells;
+      lattice_.resize(n_cells_[0] * n_cells_[1] * n_cells_[2]);
+    }
     cell_sizes_ = {lattice_sizes_[0] / n_cells_[0],
                    lattice_sizes_[1] / n_cells_[1],
                    lattice_sizes_[2] / n_cells_[2]};
-- 
2.43.0


From cc50bce9338c087420ecbffb1140f7eef783761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:23 +0000
Subject: [PATCH 6/6] fix: use the squared energy for s in the elastic angular
 distribution

---
 src/scatteraction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index 8533962..90c88af 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -531,7 +531,7 @@ void ScatterAction::sample_angles(std::pair<double, double> masses,
        * when nucleon mass is assumed. */
       const double pcm_now = pCM_from_s(mandelstam_s(), mass_in_a, mass_in_b);
       mandelstam_s_new =
-          4. * std::sqrt(pcm_now * pcm_now + nucleon_mass * nucleon_mass);
+          4. * (pcm_now * pcm_now + nucleon_mass * nucleon_mass);
     }
     double bb, a, plab = plab_from_s(mandelstam_s_new);
     if (nn_scattering &&
-- 
2.43.0

