From 2810a1515b998427920d21b63e31af42803eade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/62] verification hooks: constructors for datasets and
 access to private helpers (feature up4_verif)

---
 src/comparison.rs            | 28 ++++++++++++++++++
 src/datamanager.rs           | 57 ++++++++++++++++++++++++++++++++++++
 src/datamanager/utilities.rs | 14 +++++++++
 3 files changed, 99 insertions(+)

diff --git a/src/comparison.rs b/src/comparison.rs
index effe253..c5ceb7f 100644
--- a/src/comparison.rs
+++ b/src/comparison.rs
@@ -210,3 +210,31 @@ impl Comparer {
         )
     }
 }
+
+/// Verification hooks: the private building blocks of a comparison. Compiled only with the
+/// `up4_verif` feature, which no shipped configuration enables.
+#[cfg(feature = "up4_verif")]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn verif_binary_threshold(field: &Array3<f64>, quantile: f64) -> Array3<f64> {
+        binary_threshold(field, quantile)
+    }
+
+    pub fn verif_make_grid(
+        dim: &Array2<f64>,
+        gridtype: &str,
+        cells: [usize; 3],
+    ) -> Box<dyn GridFunctions3D> {
+        make_grid(dim, gridtype, cells)
+    }
+
+    pub fn verif_velocityfield(
+        comparer: &mut Comparer,
+        mode: &str,
+        min_velocity: f64,
+        max_velocity: f64,
+    ) -> (Array1<f64>, Array1<f64>) {
+        comparer.velocityfield(mode, min_velocity, max_velocity)
+    }
+}
diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..6fc613d 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -105,3 +105,60 @@ impl GlobalStats {
         Ok(mid)
     }
 }
+
+/// Verification hooks: construct the datasets handed out by a `DataManager` from plain values.
+/// Compiled only with the `up4_verif` feature, which no shipped configuration enables.
+#[cfg(feature = "up4_verif")]
+pub mod verif_hooks {
+    use super::*;
+
+    #[allow(clippy::too_many_arguments)]
+    pub fn timestep(
+        time: f64,
+        position: Array1<Position>,
+        velocity: Array2<f64>,
+        radius: Array1<f64>,
+        particleid: Array1<f64>,
+        clouds: Array1<f64>,
+        density: Array1<f64>,
+        ptype: Array1<f64>,
+    ) -> Timestep {
+        Timestep {
+            time,
+            position,
+            velocity,
+            radius,
+            particleid,
+            clouds,
+            density,
+            ptype,
+        }
+    }
+
+    pub fn global_stats(
+        dimensions: Array2<f64>,
+        nparticles: usize,
+        velocity_mag: Array1<f64>,
+        time_array: Array1<f64>,
+    ) -> GlobalStats {
+        GlobalStats {
+            dimensions,
+            nparticles,
+            ntimesteps: time_array.len(),
+            min_time: time_array[0],
+            max_time: time_array[time_array.len() - 1],
+            sample_rate: 0.0,
+            velocity: Array2::zeros((3, 3)),
+            velocity_mag,
+            time_array,
+        }
+    }
+
+    pub fn rotate_position(position: Position, angles: [f64; 3], anchor: [f64; 3]) -> Position {
+        utilities::verif_rotate_position(position, angles, anchor)
+    }
+
+    pub fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
+        utilities::verif_rotate_velocity(velocity, angles)
+    }
+}
diff --git a/src/datamanager/utilities.rs b/src/datamanager/utilities.rs
index 2e00b95..663e59f 100644
--- a/src/datamanager/utilities.rs
+++ b/src/datamanager/utilities.rs
@@ -122,3 +122,17 @@ fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
     }
     [new_velocity[0], new_velocity[1], new_velocity[2]]
 }
+
+#[cfg(feature = "up4_verif")]
+pub(super) fn verif_rotate_position(
+    position: Position,
+    angles: [f64; 3],
+    anchor: [f64; 3],
+) -> Position {
+    rotate_position(position, angles, anchor)
+}
+
+#[cfg(feature = "up4_verif")]
+pub(super) fn verif_rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
+    rotate_velocity(velocity, angles)
+}
-- 
2.43.0


From bf8fea3239b5bd98ba86c79a81dd9167c5e4035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 02/62] fix: cloud and density ranges of the particle selector
 use their own bounds

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From ecfaaa7a2cd57032088cfda23a204e02623cbffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 03/62] fix: cartesian cell lookup agrees with the cell
 positions

---
 src/grid/cartesian_grid.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..b0a3281 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -135,13 +135,18 @@ impl GridFunctions3D for CartesianGrid3D {
             ));
         }
         let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
+            * self.cells[0] as f64) as usize;
         let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
+            * self.cells[1] as f64) as usize;
         let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
-
-        Ok([cell_idx, cell_idy, cell_idz])
+            * self.cells[2] as f64) as usize;
+
+        // a position on the upper limit belongs to the last cell
+        Ok([
+            cell_idx.min(self.cells[0] - 1),
+            cell_idy.min(self.cells[1] - 1),
+            cell_idz.min(self.cells[2] - 1),
+        ])
     }
     #[allow(dead_code, unused_variables, unreachable_code)]
     fn cell_ids_in_trajectory(
-- 
2.43.0


From 5c6c17462715c243fa971f8589853cc18f5f6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 04/62] fix: slice finds the plane of cells that contains the
 position

---
 src/grid/cartesian_grid.rs   |  2 ++
 src/grid/cylindrical_grid.rs | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index b0a3281..c3dab17 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -418,6 +418,8 @@ impl GridFunctions3D for CartesianGrid3D {
         let cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        // a position on the upper limit belongs to the last cell
+        let cell_id = cell_id.min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..770c3dd 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -370,9 +370,18 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
-            / (self.limits[axis][1] - self.limits[axis][0])
-            * self.cells[axis] as f64) as usize;
+        let cell_id = if axis == 0 {
+            // the radial cells have equal volumes, not equal widths
+            self.rpositions
+                .iter()
+                .rposition(|radius| position >= radius[0])
+                .unwrap_or(0)
+        } else {
+            ((position - self.limits[axis][0]) / (self.limits[axis][1] - self.limits[axis][0])
+                * self.cells[axis] as f64) as usize
+        };
+        // a position on the upper limit belongs to the last cell
+        let cell_id = cell_id.min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From d4f98ab745badbf573191b8701de589e2e35d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 05/62] fix: new_zeros also clears the weights

---
 src/grid/cartesian_grid.rs   | 1 +
 src/grid/cylindrical_grid.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index c3dab17..a790d8a 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -327,6 +327,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 770c3dd..a3c291e 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -282,6 +282,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From de21d15acf106bb5f980c409a32595a08ae1af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 06/62] fix: cylindrical cell lookup agrees with the cell
 boundaries and rejects outside positions

---
 src/grid/cylindrical_grid.rs | 42 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index a3c291e..7f7fecb 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -187,34 +187,30 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
+        if !self.is_inside(pos) {
+            return Err(anyhow!(
+                "Position {:?} is outside of grid limits {:?}",
+                pos,
+                self.limits
+            ));
+        }
         let pos = &self.to_cylindrical(pos);
         let posr = pos[0];
-        let mut cell_idr = None;
+        // the outer boundary is accumulated and can end up just below the radius of the grid
+        let mut cell_idr = self.cells[0] - 1;
         for (idx, radius) in self.rpositions.iter().enumerate() {
             if posr >= radius[0] && posr <= radius[1] {
-                cell_idr = Some(idx)
+                cell_idr = idx
             }
         }
-        let cell_idr = cell_idr.unwrap_or_else(|| {
-            panic!(
-                "Unable to find radial cell id \n pos r:{}\nlen {:?}",
-                posr, self.rpositions
-            )
-        });
-        let poso = pos[1];
-        let cell_ido = (&self.opositions - poso)
-            .iter()
-            .map(|x| x.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
-        let posz = pos[2];
-        let cell_idz = (&self.zpositions - posz)
-            .iter()
-            .map(|z| z.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
+        // angle and height are divided into cells of equal size
+        let cell_of = |axis: usize| {
+            let [low, high] = self.limits[axis];
+            let cell = ((pos[axis] - low) / (high - low) * self.cells[axis] as f64) as usize;
+            cell.min(self.cells[axis] - 1)
+        };
+        let cell_ido = cell_of(1);
+        let cell_idz = cell_of(2);
         Ok([cell_idr, cell_ido, cell_idz])
     }
     #[allow(unused_variables)]
-- 
2.43.0


From 1bf2927545e666f48135120e2e0b7da573b1d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 07/62] fix: outlier removal no longer underflows for cells at
 the lower border

---
 src/grid/cartesian_grid.rs   | 38 ++++++++++--------------------------
 src/grid/cylindrical_grid.rs | 38 ++++++++++--------------------------
 2 files changed, 20 insertions(+), 56 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index a790d8a..fd8d089 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -504,34 +504,16 @@ impl GridFunctions3D for CartesianGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
-                    let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
-                        (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
-                        (idx.0, idx.1 + 1, idx.2),
-                        (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
-                        (idx.0 + 1, idx.1, idx.2),
-                        (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2),
-                        (idx.0 + 1, idx.1 + 1, idx.2 + 1),
-                    ];
+                    let mut indexes = Vec::with_capacity(26);
+                    for x in idx.0.saturating_sub(1)..=idx.0 + 1 {
+                        for y in idx.1.saturating_sub(1)..=idx.1 + 1 {
+                            for z in idx.2.saturating_sub(1)..=idx.2 + 1 {
+                                if (x, y, z) != idx {
+                                    indexes.push((x, y, z));
+                                }
+                            }
+                        }
+                    }
 
                     for index in &indexes {
                         if index.0 < self.data.shape()[0]
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 7f7fecb..f0349b8 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -465,34 +465,16 @@ impl GridFunctions3D for CylindricalGrid3D {
                     let mut counter_sum: f64 = 0.;
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
-                    let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
-                        (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
-                        (idx.0, idx.1 + 1, idx.2),
-                        (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
-                        (idx.0 + 1, idx.1, idx.2),
-                        (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2),
-                        (idx.0 + 1, idx.1 + 1, idx.2 + 1),
-                    ];
+                    let mut indexes = Vec::with_capacity(26);
+                    for x in idx.0.saturating_sub(1)..=idx.0 + 1 {
+                        for y in idx.1.saturating_sub(1)..=idx.1 + 1 {
+                            for z in idx.2.saturating_sub(1)..=idx.2 + 1 {
+                                if (x, y, z) != idx {
+                                    indexes.push((x, y, z));
+                                }
+                            }
+                        }
+                    }
 
                     for index in &indexes {
                         if index.0 < self.data.shape()[0]
-- 
2.43.0


From b613942f54a0f8d765fd214336871cfc56b8aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 08/62] fix: cylindrical velocity components are relative to
 the axis of the grid

---
 src/grid/vector_grid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..31dcfe4 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,6 +36,8 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
+            let center = self.cyl_grid.center();
+            let pos = [pos[0] - center[0], pos[1] - center[1], pos[2]];
             let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
             let vel_omega =
                 (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
-- 
2.43.0


From 0e3b4255111e24004b43e09fd1f96d6dd8adc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 09/62] fix: timestep_at_seconds_closest returns the closest
 timestep

---
 src/datamanager.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 6fc613d..ac6c7a1 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -79,30 +79,32 @@ impl GlobalStats {
     /// Returns the timestep at this time in the dataset
     pub fn timestep_at_seconds_closest(&self, seconds: f64) -> Result<usize, &'static str> {
         print_warning!("This function is not tested yet!");
-        // finding index in ordered list of self.time_array
-        // using the binary search algorithm
-        let mut low = 0;
-        let mut high = self.time_array.len() - 1;
+        let last = self.time_array.len() - 1;
 
-        if self.time_array[high] < seconds {
+        if self.time_array[last] < seconds {
             return Err("Timestep is greater than the number of timesteps");
         }
-        if self.time_array[low] > seconds {
+        if self.time_array[0] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
-        while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
-                return Ok(mid);
-            } else if self.time_array[mid] < seconds {
+        // finding the first timestep at or after `seconds` in the ordered list
+        // using the binary search algorithm
+        let mut low = 0;
+        let mut high = last;
+        while low < high {
+            let mid = (low + high) / 2;
+            if self.time_array[mid] < seconds {
                 low = mid + 1;
             } else {
-                high = mid - 1;
+                high = mid;
             }
         }
+        // the timestep before might be closer
+        if low > 0 && seconds - self.time_array[low - 1] < self.time_array[low] - seconds {
+            low -= 1;
+        }
 
-        Ok(mid)
+        Ok(low)
     }
 }
 
-- 
2.43.0


From e88a199073e88eefaee183f782d92fa37e9b9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 10/62] fix: vectorfield does not mix in previous content of
 the grid

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..6511882 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
-- 
2.43.0


From d9c6949b566936f0f6c54124bc5234ab6e543abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 11/62] fix: vectorfield skips undefined velocities like
 velocityfield does

---
 src/functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 6511882..a0268f8 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -69,6 +69,10 @@ pub trait Granular: DataManager {
                     continue;
                 }
                 let velocity = velocities.slice(s![particle, ..]).to_owned();
+                if velocity.iter().any(|vel| vel.is_nan()) {
+                    print_debug!("Velocity is NaN");
+                    continue;
+                }
                 //reset the position. the lowest value should be at 0,0,0
                 if !vectorgrid.is_inside(position) {
                     // the particle is out of the field of view
-- 
2.43.0


From 60dd196cd6e296999e9191e06f7c76a6119621c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 12/62] fix: granular temperature does not mix in previous
 content of the grid

---
 src/functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index a0268f8..a1ec13a 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -766,6 +766,8 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
+        // only the shape of the grid is used, not its previous content
+        let grid = grid.new_zeros();
         let mut squared_sum_x = grid.get_data().clone();
         let mut squared_sum_y = grid.get_data().clone();
         let mut squared_sum_z = grid.get_data().clone();
-- 
2.43.0


From fc7ade7e75a96965f5e84a9bff619462c9fe8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 13/62] fix: granular temperature skips undefined velocities
 and is zero without fluctuations

---
 src/functions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index a1ec13a..057b0a6 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -827,6 +827,10 @@ pub trait Granular: DataManager {
                     grid.get_zpositions()
                 );
                 let velocity = velocities.slice(s![particle, ..]);
+                if velocity.iter().any(|vel| vel.is_nan()) {
+                    print_debug!("Velocity is NaN");
+                    continue;
+                }
                 let cell_id = match grid.cell_id(position) {
                     Ok(cell_id) => cell_id,
                     Err(_) => continue,
@@ -860,7 +864,8 @@ pub trait Granular: DataManager {
             panic!("Mode {} is not supported", mode);
         }
         temp /= &num_counts;
-        temp.mapv_inplace(|x| x.sqrt());
+        // a variance of zero can come out slightly negative
+        temp.mapv_inplace(|x| if x < 0.0 { 0.0 } else { x.sqrt() });
         grantemp.set_data(temp);
         grantemp.set_weights(num_counts);
         grantemp
-- 
2.43.0


From 1159936308672c2d7520f020d22d4ca6ccd2a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 14/62] fix: dispersion does not mix in previous content of the
 grid

---
 src/functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 057b0a6..0afe6cf 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -468,6 +468,8 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
+        // only the shape of the grid is used, not its previous content
+        let grid = grid.new_zeros();
         let mut squared_sum_x = grid.get_data().clone();
         let mut squared_sum_y = grid.get_data().clone();
         let mut squared_sum_z = grid.get_data().clone();
-- 
2.43.0


From 8281c8456cabb25e5d1f3cc0310430ed36f71427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 15/62] fix: dispersion skips undefined future positions

---
 src/functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 0afe6cf..0acddd5 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -552,6 +552,10 @@ pub trait Granular: DataManager {
                     }
                 };
                 let position_future_particle = position_future[particle];
+                if position_future_particle.iter().any(|pos| pos.is_nan()) {
+                    print_debug!("Future position is NaN");
+                    continue;
+                }
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
-- 
2.43.0


From ce62f2d0c743062dc57d78945aeef4cbff8ef774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 16/62] fix: histogram counts exactly the speeds between its
 first and last bin edge

---
 src/functions.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 0acddd5..a98a4f2 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -731,13 +731,14 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
-                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
-                    as usize;
-                // BUG: bin is sometimes out of bounds
-                if bin > bins - 1 {
+                // this also skips undefined velocities
+                if !(velocity_mag >= bin_edges[0] && velocity_mag <= bin_edges[bins]) {
                     continue;
                 }
-                histogram[bin] += 1.0;
+                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
+                    as usize;
+                // the upper limit belongs to the last bin
+                histogram[bin.min(bins - 1)] += 1.0;
             }
             // checking for kill signals after each timestep
             check_signals!();
-- 
2.43.0


From 0e1bc0dd909e42dc9f2d39bdb61f5c739d186aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 17/62] fix: occupancyfield uses every pair of consecutive
 timesteps

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index a98a4f2..86c8a87 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -318,7 +318,7 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps - 1 {
             let timestep_data = self.get_timestep(timestep).clone();
             //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
-- 
2.43.0


From d2b9793aa08d450d1b30709899a446fd660e9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 18/62] fix: concentration_field includes the last timestep

---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..25bfc9b 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -129,7 +129,7 @@ pub trait Mixing: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         let mut type_a_grid = grid.new_zeros();
         let mut type_b_grid = grid.new_zeros();
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From 66f12629cc25fca0c9888bbf7765c736aeeb72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 19/62] fix: lacey_mixing includes the last timestep

---
 src/functions/mixing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 25bfc9b..cd4f912 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -17,10 +17,10 @@ pub trait Mixing: DataManager {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
-        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps - 1);
-        let mut time = ndarray::Array1::<f64>::zeros(*timesteps - 1);
+        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps);
+        let mut time = ndarray::Array1::<f64>::zeros(*timesteps);
 
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From de9fa9fc20127a9effbc17fcfb379784f0ec73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 20/62] fix: lacey_mixing accepts timesteps without particles
 of one type

---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index cd4f912..2e5c3b1 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -44,7 +44,7 @@ pub trait Mixing: DataManager {
             );
             let mut type_a_grid = grid.new_zeros();
             let mut type_b_grid = grid.new_zeros();
-            let mut type_counter: Vec<usize> = Vec::with_capacity(3);
+            let mut type_counter: Vec<usize> = vec![0; type_a.max(type_b) + 1];
             for particle in 0..particles {
                 if !selector.is_valid(
                     rad_array[particle],
-- 
2.43.0


From a3f42f87765456ec8fb85638dad9c9d67a490676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 21/62] fix: msd_field averages the squared displacements

---
 src/functions/mixing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 2e5c3b1..aeee518 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -265,11 +265,10 @@ pub trait Mixing: DataManager {
                     continue;
                 }
                 let position_future_particle = position_future[particle];
-                let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
+                let squared_dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-                    + (positions[particle][2] - position_future_particle[2]).powi(2))
-                .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                    + (positions[particle][2] - position_future_particle[2]).powi(2);
+                distance.add_value(positions[particle], squared_dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -283,7 +282,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From c8450911170eb2d0262ca1f11945a658388bb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 22/62] fix: msd_field skips undefined future positions

---
 src/functions/mixing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index aeee518..3909a92 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -268,6 +268,10 @@ pub trait Mixing: DataManager {
                 let squared_dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2);
+                if squared_dist.is_nan() {
+                    print_debug!("Displacement is NaN");
+                    continue;
+                }
                 distance.add_value(positions[particle], squared_dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
-- 
2.43.0


From 74573d990026c81c3fd3d510d1638fb021ef8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 23/62] fix: msd_field considers the last timestep as a start

---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 3909a92..707e6fb 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -212,7 +212,7 @@ pub trait Mixing: DataManager {
         print_debug!("Dispersion: Initiation over, entering time loop");
 
         let mut next_timestep;
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep).clone();
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From 222e5074e662345c08c54c92672315c7eff25466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 24/62] fix: circulation times include crossings in the last
 timestep

---
 src/functions/conditional.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..3c89375 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -21,7 +21,7 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
 
         let mut old_timestep = self.get_timestep(0).to_owned();
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -110,7 +110,7 @@ pub trait Conditional: DataManager {
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From a2fc6960273e8c473ac2253b19542eae40bf4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 25/62] fix: extract can include the last timestep

---
 src/functions/extractions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/extractions.rs b/src/functions/extractions.rs
index b0a097e..46a794c 100644
--- a/src/functions/extractions.rs
+++ b/src/functions/extractions.rs
@@ -12,7 +12,7 @@ pub trait Extraction: DataManager {
     fn extract(&mut self, particle_id: usize, timestep: (usize, usize)) -> ndarray::Array2<f64> {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        if &timestep.0 >= timesteps || &timestep.1 >= timesteps {
+        if &timestep.0 >= timesteps || &timestep.1 > timesteps {
             panic!("Timestep out of bounds");
         }
         let mut return_data: ndarray::Array2<f64> =
-- 
2.43.0


From 00528cdf07d648471a142ee33a0c9d1a5c86e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 26/62] fix: circulations between two boundaries survive a step
 across both of them

---
 src/functions/conditional.rs | 37 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 3c89375..89cf326 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -151,24 +151,9 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
-                if pos > boundary_position.1 && old_pos < boundary_position.1 {
-                    count += 1;
-                    //println!("particle inside upper ");
-    
-                    // if particle before was below
-                    if start_flag_array[particle] == 2 {
-                        // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
-                        }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
-                        //up_times.push(current_time - mid_time_flag_array[particle]);
-                        // One more flag to make shure up time only counted once
-                    }
-                }
                 // particle crosses out of upper border
-                else if pos < boundary_position.1 && old_pos > boundary_position.1 {
+                // a particle leaves its region before it enters the other one in the same step
+                if pos < boundary_position.1 && old_pos > boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -189,7 +174,6 @@ pub trait Conditional: DataManager {
                     } else if start_flag_array[particle] == 2 {
                         mid_time_flag_array[particle] = current_time;
                     }
-                    continue;
                 }
     
                 //println!("Middle_check done");
@@ -229,6 +213,23 @@ pub trait Conditional: DataManager {
                         mid_time_flag_array[particle] = current_time;
                     }
                 }
+                // particle crosses into upper border
+                if pos > boundary_position.1 && old_pos < boundary_position.1 {
+                    count += 1;
+                    //println!("particle inside upper ");
+    
+                    // if particle before was below
+                    if start_flag_array[particle] == 2 {
+                        // say " particle was in the other region"
+                        if mid_flag_array[particle] == 0 {
+                            //down_times.push(current_time - time_flag_array[particle]);
+                        }
+                        mid_flag_array[particle] = 1;
+                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
+                        //up_times.push(current_time - mid_time_flag_array[particle]);
+                        // One more flag to make shure up time only counted once
+                    }
+                }
                 //println!("check done");
             } // end particle for loop
 
-- 
2.43.0


From 53a7591d2cd9dd9149be33020e9a4b9e6a9bb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 27/62] fix: circulation times accept particles that enter the
 system later

---
 src/functions/conditional.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 89cf326..7d6429b 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -56,7 +56,9 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
@@ -145,7 +147,9 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-- 
2.43.0


From c604a6570fa80d7187b413cc786e49b8d82d92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 28/62] fix: dispersion accepts particles that leave the system

---
 src/functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 86c8a87..1bb0071 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -551,6 +551,10 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
+                if particle >= position_future.len() {
+                    print_debug!("Particle {} left the system", particle);
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 if position_future_particle.iter().any(|pos| pos.is_nan()) {
                     print_debug!("Future position is NaN");
-- 
2.43.0


From 3b6825da3c5b01c3075bea656c06204366b3de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 29/62] fix: msd_field accepts particles that leave the system

---
 src/functions/mixing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 707e6fb..6edc9d3 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -264,6 +264,10 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
+                if particle >= position_future.len() {
+                    print_debug!("Particle {} left the system", particle);
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 let squared_dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-- 
2.43.0


From 40982d61e7e4b7ef2c68d5aa6334b93722407e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 30/62] fix: binary_threshold takes the quantile of the
 non-zero values only

---
 src/comparison.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/comparison.rs b/src/comparison.rs
index c5ceb7f..00ed122 100644
--- a/src/comparison.rs
+++ b/src/comparison.rs
@@ -147,13 +147,18 @@ fn binary_threshold(field: &Array3<f64>, quantile: f64) -> Array3<f64> {
     if !(0.0..=1.0).contains(&quantile) {
         panic!("Quantile must be between 0 and 1");
     }
-    let threshold = field
+    let values = field
         .iter()
+        .copied()
+        .filter(|x| *x != 0.0)
         .sorted_by(|a, b| a.partial_cmp(b).unwrap())
-        .filter(|x| **x != 0.0)
-        .nth((field.len() as f64 * quantile) as usize)
-        .unwrap();
-    field.mapv(|x| if x > *threshold { 1.0 } else { 0.0 })
+        .collect::<Vec<f64>>();
+    if values.is_empty() {
+        return Array3::zeros(field.raw_dim());
+    }
+    let index = (values.len() as f64 * quantile) as usize;
+    let threshold = values[index.min(values.len() - 1)];
+    field.mapv(|x| if x > threshold { 1.0 } else { 0.0 })
 }
 
 fn make_grid(dim: &Array2<f64>, gridtype: &str, cells: [usize; 3]) -> Box<dyn GridFunctions3D> {
-- 
2.43.0


From a75c381acdae224bdeb6f8ecf8a970fa2bf10552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 31/62] fix: circulation times do not start from a timestep
 outside the timeframe

---
 src/functions/conditional.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 7d6429b..c62a340 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -21,6 +21,8 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
 
         let mut old_timestep = self.get_timestep(0).to_owned();
+        // timesteps outside of the timeframe are no starting point for a crossing
+        let mut started = selector.timestep_valid(*old_timestep.time());
         for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
@@ -30,6 +32,11 @@ pub trait Conditional: DataManager {
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
+            if !started {
+                old_timestep = timestep_data.to_owned();
+                started = true;
+                continue;
+            }
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
@@ -111,6 +118,8 @@ pub trait Conditional: DataManager {
         let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
      
         let mut old_timestep = self.get_timestep(0).to_owned();
+        // timesteps outside of the timeframe are no starting point for a crossing
+        let mut started = selector.timestep_valid(*old_timestep.time());
         let mut count = 0;
         for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
@@ -121,6 +130,11 @@ pub trait Conditional: DataManager {
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
+            if !started {
+                old_timestep = timestep_data.to_owned();
+                started = true;
+                continue;
+            }
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-- 
2.43.0


From a822eea7ed9da139f48cda6570799237a5cbda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 32/62] verification hooks: separate features for the
 comparison and rotation hooks

---
 src/comparison.rs            | 4 ++--
 src/datamanager.rs           | 2 ++
 src/datamanager/utilities.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/comparison.rs b/src/comparison.rs
index 00ed122..70880ca 100644
--- a/src/comparison.rs
+++ b/src/comparison.rs
@@ -217,8 +217,8 @@ impl Comparer {
 }
 
 /// Verification hooks: the private building blocks of a comparison. Compiled only with the
-/// `up4_verif` feature, which no shipped configuration enables.
-#[cfg(feature = "up4_verif")]
+/// `up4_verif_compare` feature, which no shipped configuration enables.
+#[cfg(feature = "up4_verif_compare")]
 pub mod verif_hooks {
     use super::*;
 
diff --git a/src/datamanager.rs b/src/datamanager.rs
index ac6c7a1..dff6777 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -156,10 +156,12 @@ pub mod verif_hooks {
         }
     }
 
+    #[cfg(feature = "up4_verif_rotate")]
     pub fn rotate_position(position: Position, angles: [f64; 3], anchor: [f64; 3]) -> Position {
         utilities::verif_rotate_position(position, angles, anchor)
     }
 
+    #[cfg(feature = "up4_verif_rotate")]
     pub fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
         utilities::verif_rotate_velocity(velocity, angles)
     }
diff --git a/src/datamanager/utilities.rs b/src/datamanager/utilities.rs
index 663e59f..3235126 100644
--- a/src/datamanager/utilities.rs
+++ b/src/datamanager/utilities.rs
@@ -123,7 +123,7 @@ fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
     [new_velocity[0], new_velocity[1], new_velocity[2]]
 }
 
-#[cfg(feature = "up4_verif")]
+#[cfg(feature = "up4_verif_rotate")]
 pub(super) fn verif_rotate_position(
     position: Position,
     angles: [f64; 3],
@@ -132,7 +132,7 @@ pub(super) fn verif_rotate_position(
     rotate_position(position, angles, anchor)
 }
 
-#[cfg(feature = "up4_verif")]
+#[cfg(feature = "up4_verif_rotate")]
 pub(super) fn verif_rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
     rotate_velocity(velocity, angles)
 }
-- 
2.43.0


From 0684e1ace63c0c19055cc53e7eb990ea48a57824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 33/62] fix: reads through a further buffer move that buffer's
 window and return from it

---
 src/datamanager/pdata.rs | 17 ++++++-----------
 src/datamanager/tdata.rs | 22 ++++++----------------
 2 files changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..b5d3e04 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1112,19 +1112,14 @@ impl DataManager for PData {
             timestep,
             self.range_extra[buffer_id]
         );
-        if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range_extra[buffer_id].0 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+        if timestep >= self.range_extra[buffer_id].1 {
+            self.update_extra((timestep, timestep + BUFFERSIZE), buffer_id);
+        } else if timestep < self.range_extra[buffer_id].0 {
+            let chunk = timestep / BUFFERSIZE;
+            self.update_extra((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE), buffer_id);
         }
 
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..b501149 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1091,23 +1091,13 @@ impl DataManager for TData {
             timestep,
             self.range_extra[buffer_id]
         );
-        if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
-                buffer_id,
-            );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
-            self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
-                buffer_id,
-            );
+        if timestep >= self.range_extra[buffer_id].1 {
+            self.update_extra((timestep, timestep + BUFFERSIZE), buffer_id);
+        } else if timestep < self.range_extra[buffer_id].0 {
+            let chunk = timestep / BUFFERSIZE;
+            self.update_extra((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE), buffer_id);
         }
+
         &self.buffer_extra[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
-- 
2.43.0


From 963e2468098907fe4eacae255eba14d669977cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 34/62] fix: further read buffers are found by the name they
 were set up with

---
 src/datamanager/pdata.rs | 7 ++++++-
 src/datamanager/tdata.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index b5d3e04..42af4e2 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1103,7 +1103,12 @@ impl DataManager for PData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(&mut self, timestep: usize, external_buffer_id: usize) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .unwrap_or_else(|| panic!("Buffer {} is not set up", external_buffer_id));
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index b501149..5a81bd6 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1082,7 +1082,12 @@ impl DataManager for TData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(&mut self, timestep: usize, external_buffer_id: usize) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .unwrap_or_else(|| panic!("Buffer {} is not set up", external_buffer_id));
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
-- 
2.43.0


From 7aadf2b2b02fcd459c466609fe82de357153a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 35/62] fix: unbuffered reads of particle based files with
 several particles

---
 src/datamanager/pdata.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 42af4e2..40e4ff7 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -118,19 +118,7 @@ impl PData {
                     )
                 })
                 .slice(s![timestep, ..])
-                .to_owned()
-                .into_shape((particles, 3))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
-                    )
-                })
-                .axis_iter(Axis(0))
-                .map(|x| [x[0], x[1], x[2]])
-                .collect::<Array1<Position>>();
-            // iter over elements in 2D array. make  it a 1D array of static arrays with 3 elements.
+                .to_owned();
 
             print_debug!("\tParticle {}: Extracting velocity from HDF5.", particle_id);
             let part_vel = self
@@ -311,7 +299,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = [part_pos[0], part_pos[1], part_pos[2]];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
-- 
2.43.0


From 9dd0237aab0f5176e46f97835299b0bf160f2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 36/62] fix: missing densities of particle based files are one,
 as the warning says

---
 src/datamanager/pdata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 40e4ff7..805f2e9 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -266,7 +266,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    1.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -509,7 +509,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
@@ -771,7 +771,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
-- 
2.43.0


From d4737d5ad7e07dea9616c1a9726d2f84f0a9f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 37/62] fix: unbuffered reads of particle based files give the
 same step as buffered reads

---
 src/datamanager/pdata.rs | 107 +++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 60 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 805f2e9..431fe20 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -150,88 +150,75 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = self
+            let part_rad = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not fine particle {} in file {}",
+                        "Can not find particle {} in file {}",
                         particle_id,
                         self.file.filename()
                     )
                 })
                 .dataset("radius")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"radius\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"radius\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"radius\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find radius in HDF5 file {}. \
+                        Using zero instead.",
+                        particle_id,
                         self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
 
-            let part_type = self
+            let part_type = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not fine particle {} in file {}",
+                        "Can not find particle {} in file {}",
                         particle_id,
                         self.file.filename()
                     )
                 })
                 .dataset("particletype")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"particletype\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"particletype\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-            let part_id = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"particletype\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find particletype in HDF5 file {}. \
+                        Using zero instead.",
                         particle_id,
                         self.file.filename()
-                    )
-                })
-                .dataset("id")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"id\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"id\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
+            // as in the buffered reads, a particle is known by its number
+            let part_id = particle_id as f64;
 
             //.slice(s![timestep])
 
-- 
2.43.0


From f13961a72642707a6f243387008770ca278dcc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 38/62] fix: extents and velocity ranges of converted files
 include every sample

---
 src/converter.rs                              | 33 ++++++++++++-------
 src/converter/csv_modes/csv_multi_chain.rs    | 15 ++++++---
 .../csv_modes/csv_multi_file_time_step.rs     |  9 +++--
 src/converter/csv_modes/csv_multi_idline.rs   | 15 ++++++---
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..d73c35b 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -740,7 +745,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -748,7 +754,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -773,7 +780,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1166,7 +1174,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1174,7 +1183,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1197,7 +1207,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..220502b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..1e4484a 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..d2f4713 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
-- 
2.43.0


From 4ff2c659aabaf3305551eaf9b460a3e055adbe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 39/62] fix: the time range of converted files starts at the
 first time

---
 src/converter.rs                                    | 5 ++++-
 src/converter/csv_modes/csv_multi_chain.rs          | 5 ++++-
 src/converter/csv_modes/csv_multi_file_time_step.rs | 5 ++++-
 src/converter/csv_modes/csv_multi_idline.rs         | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d73c35b..d25ecc0 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -162,7 +162,7 @@ pub fn csv_converter(
     let mut pos_array = Array2::<f64>::zeros((data_length, 3));
     // ######### arrays for Attributes:
     let timesteps: usize = data_length;
-    let mut time: Array1<f64> = Array1::<f64>::zeros(2);
+    let mut time: Array1<f64> = array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     //velocity: [x:[min, mean, max],y:[min,mean,max],z:[min,mean,max]]
     let mut velocity: Array2<f64> = Array2::<f64>::zeros((3, 3));
@@ -267,6 +267,9 @@ pub fn csv_converter(
         step += 1;
         mean_counter += 1;
         sample_rate = current_time - old_time;
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 220502b..935f15b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -171,7 +171,7 @@ pub fn csv_multi_chain(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     for (p_id, data) in particle_data.iter().enumerate() {
@@ -281,6 +281,9 @@ pub fn csv_multi_chain(
             //step += 1;
             mean_counter += 1;
             sample_rate = current_time - old_time;
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 1e4484a..ed8e585 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -55,7 +55,7 @@ pub fn csv_multi_file_time_step(
     dimensions.slice_mut(ndarray::s![1usize, ..]).fill(f64::MIN);
     let mut nparticles: u64 = 0;
     let timesteps: usize = filenames.len();
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut time_array = Vec::<f64>::new();
     let mut sample_rate: f64 = 0.0;
     let mut old_time = 0.0;
@@ -74,6 +74,9 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index d2f4713..bc015f0 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -142,7 +142,7 @@ pub fn csv_multi_idline(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     bar.inc(10);
@@ -254,6 +254,9 @@ pub fn csv_multi_idline(
             //step += 1;
             mean_counter += 1;
             sample_rate = current_time - old_time;
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
-- 
2.43.0


From 0ee35d469334817c0b10a191d0334fb0ce9ee845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 40/62] fix: converters keep a first sample at or before time
 zero

---
 src/converter.rs                            | 2 +-
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d25ecc0..2e28418 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 935f15b..58e722d 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,7 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index bc015f0..b4b97a3 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,7 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
-- 
2.43.0


From 59526178302e8b5095986d77ff67a04d4ecad2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 41/62] fix: converted trajectories store their sample rate and
 not zero

---
 src/converter.rs                            | 5 +++--
 src/converter/csv_modes/csv_multi_chain.rs  | 5 +++--
 src/converter/csv_modes/csv_multi_idline.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 2e28418..13cf350 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -208,7 +208,6 @@ pub fn csv_converter(
         time_array[line_id - total_failcount] = current_time;
         // resetfailcount. we only dont allow them do be in a row!
         failcount = 0;
-        old_time = current_time;
         let pos_x = line[1];
         let pos_y = line[2];
         let pos_z = line[3];
@@ -266,7 +265,9 @@ pub fn csv_converter(
         }
         step += 1;
         mean_counter += 1;
-        sample_rate = current_time - old_time;
+        if old_time > f64::NEG_INFINITY {
+            sample_rate = current_time - old_time;
+        }
         if current_time < time[0] {
             time[0] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 58e722d..f92a44d 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -222,7 +222,6 @@ pub fn csv_multi_chain(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -280,7 +279,9 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time > f64::NEG_INFINITY {
+                sample_rate = current_time - old_time;
+            }
             if current_time < time[0] {
                 time[0] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index b4b97a3..39b1d74 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -194,7 +194,6 @@ pub fn csv_multi_idline(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -253,7 +252,9 @@ pub fn csv_multi_idline(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time > f64::NEG_INFINITY {
+                sample_rate = current_time - old_time;
+            }
             if current_time < time[0] {
                 time[0] = current_time;
             }
-- 
2.43.0


From ba18b8c070f03798a54086eaba0183e727cbe7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 42/62] fix: the sample rate of converted files is stored as a
 float

---
 src/converter.rs                                    | 6 +++---
 src/converter/csv_modes/csv_multi_chain.rs          | 2 +-
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 13cf350..b101b12 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -358,7 +358,7 @@ pub fn csv_converter(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
@@ -837,7 +837,7 @@ impl XMLVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
@@ -1264,7 +1264,7 @@ impl LegacyVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index f92a44d..1bc0f9e 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -372,7 +372,7 @@ pub fn csv_multi_chain(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index ed8e585..c580d59 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -242,7 +242,7 @@ pub fn csv_multi_file_time_step(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 39b1d74..14191e1 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -344,7 +344,7 @@ pub fn csv_multi_idline(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From bbb087ed322e12985207ef6c6d006535905a4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 43/62] fix: all datasets of a converted csv file are as long
 as the kept rows

---
 src/converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index b101b12..51a043d 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -154,10 +154,6 @@ pub fn csv_converter(
     dimensions.slice_mut(s![1_usize, ..]).fill(f64::MIN);
     // arrays that will be saved:
     let mut time_array = Array1::<f64>::zeros(data_length);
-    let particle_id_array = Array1::<f64>::ones(data_length);
-    let particle_radius_array = Array1::from_elem(data_length, radius);
-    let ppclouds_array = Array1::<f64>::ones(data_length);
-    let particle_type_array = Array1::<f64>::ones(data_length);
     let mut vel_array = Array2::<f64>::zeros((data_length, 3));
     let mut pos_array = Array2::<f64>::zeros((data_length, 3));
     // ######### arrays for Attributes:
@@ -286,6 +282,10 @@ pub fn csv_converter(
     let pos_array = pos_array.slice(s![ ..pos_array.shape()[0] - total_failcount, ..]);
     let vel_array = vel_array.slice(s![ ..vel_array.shape()[0] - total_failcount, ..]);
     let timesteps = time_array.len();
+    let particle_id_array = Array1::<f64>::ones(timesteps);
+    let particle_radius_array = Array1::from_elem(timesteps, radius);
+    let ppclouds_array = Array1::<f64>::ones(timesteps);
+    let particle_type_array = Array1::<f64>::ones(timesteps);
     
     let builder = make_dataset_builder!(group);
     builder
-- 
2.43.0


From d837cf5dfe2a5c7db5b20c5bf50fdee1645ae95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 44/62] fix: ignored rows leave no zero rows in converted
 trajectories

---
 src/converter/csv_modes/csv_multi_chain.rs  | 36 ++++++++++---------
 src/converter/csv_modes/csv_multi_idline.rs | 38 ++++++++++++---------
 2 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 1bc0f9e..f9cdf7d 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -177,21 +177,15 @@ pub fn csv_multi_chain(
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         let bar = setup_bar!("Converting", data_length);
         // Attributes
 
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
-        let particle_id_array = ndarray::Array1::<f64>::ones(data_length);
-        let particle_radius_array = ndarray::Array1::from_elem(data_length, radius);
-        let ppclouds_array = ndarray::Array1::<f64>::ones(data_length);
-        let particle_type_array = ndarray::Array1::<f64>::ones(data_length);
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut kept = 0; // rows that are not ignored
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -219,22 +213,22 @@ pub fn csv_multi_chain(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            time_array[kept] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[kept, 0]] = pos_x;
+            pos_array[[kept, 1]] = pos_y;
+            pos_array[[kept, 2]] = pos_z;
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[kept, 0]] = v_x;
+            vel_array[[kept, 1]] = v_y;
+            vel_array[[kept, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -277,7 +271,7 @@ pub fn csv_multi_chain(
             if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
-            //step += 1;
+            kept += 1;
             mean_counter += 1;
             if old_time > f64::NEG_INFINITY {
                 sample_rate = current_time - old_time;
@@ -294,7 +288,17 @@ pub fn csv_multi_chain(
                 check_signals!();
             }
         } // end filename forloop
-          // write data into HDF5 file
+        if kept > timesteps {
+            timesteps = kept;
+        }
+        time_array = time_array.slice(ndarray::s![..kept]).to_owned();
+        let pos_array = pos_array.slice(ndarray::s![..kept, ..]);
+        let vel_array = vel_array.slice(ndarray::s![..kept, ..]);
+        let particle_id_array = ndarray::Array1::<f64>::ones(kept);
+        let particle_radius_array = ndarray::Array1::from_elem(kept, radius);
+        let ppclouds_array = ndarray::Array1::<f64>::ones(kept);
+        let particle_type_array = ndarray::Array1::<f64>::ones(kept);
+        // write data into HDF5 file
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 14191e1..9036de1 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -150,20 +150,13 @@ pub fn csv_multi_idline(
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
-        let mut particle_id_array = ndarray::Array1::<f64>::ones(data_length);
-        particle_id_array.fill(p_id as f64);
-        let particle_radius_array = ndarray::Array1::from_elem(data_length, radius);
-        let ppclouds_array = ndarray::Array1::<f64>::ones(data_length);
-        let particle_type_array = ndarray::Array1::<f64>::zeros(data_length);
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut kept = 0; // rows that are not ignored
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -191,23 +184,23 @@ pub fn csv_multi_idline(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            time_array[kept] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[kept, 0]] = pos_x;
+            pos_array[[kept, 1]] = pos_y;
+            pos_array[[kept, 2]] = pos_z;
             println!("{:?}", line);
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[kept, 0]] = v_x;
+            vel_array[[kept, 1]] = v_y;
+            vel_array[[kept, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -250,7 +243,7 @@ pub fn csv_multi_idline(
             if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
-            //step += 1;
+            kept += 1;
             mean_counter += 1;
             if old_time > f64::NEG_INFINITY {
                 sample_rate = current_time - old_time;
@@ -266,7 +259,18 @@ pub fn csv_multi_idline(
                 check_signals!();
             }
         } // end filename forloop
-          // write data into HDF5 file
+        if kept > timesteps {
+            timesteps = kept;
+        }
+        time_array = time_array.slice(ndarray::s![..kept]).to_owned();
+        let pos_array = pos_array.slice(ndarray::s![..kept, ..]);
+        let vel_array = vel_array.slice(ndarray::s![..kept, ..]);
+        let mut particle_id_array = ndarray::Array1::<f64>::ones(kept);
+        particle_id_array.fill(p_id as f64);
+        let particle_radius_array = ndarray::Array1::from_elem(kept, radius);
+        let ppclouds_array = ndarray::Array1::<f64>::ones(kept);
+        let particle_type_array = ndarray::Array1::<f64>::zeros(kept);
+        // write data into HDF5 file
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
-- 
2.43.0


From 5ec4b2180fb101d028829ef906a7932a6de0f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 45/62] fix: csv chains keep their last trajectory

---
 src/converter/csv_modes/csv_multi_chain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index f9cdf7d..9f4d91a 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,6 +84,9 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
+        // the last trajectory ends with the data
+        duration.push(old_time);
+        steps_per_particle.push(data.shape()[0] - indx_start[particles]);
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
@@ -91,7 +94,7 @@ pub fn csv_multi_chain(
         indx_start.push(data.shape()[0]);
         let mut particle_data: Vec<ndarray::Array2<f64>> = Vec::new();
         // go through each particle and save its data into a Vector
-        for idx in 0..particles {
+        for idx in 0..=particles {
             if (indx_start[idx + 1] - indx_start[idx]) < 10 {
                 print_warning!("First trajectory has only {} timesteps. This is not enough to calculate the velocity. Skipping this particle.", indx_start[idx + 1] - indx_start[idx]);
                 continue;
-- 
2.43.0


From 37f86e42add997c9eab64412e96f28dc36a01e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 46/62] fix: converted trajectories store how many particles
 there are

---
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 9f4d91a..a6cf77f 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -370,7 +370,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 9036de1..5c0ee41 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -339,7 +339,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From 8b2d43ed866c71f7bbc7f6c53bcfa6960789b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 47/62] fix: csv chains write the particle types where they are
 read

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index a6cf77f..adc574e 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -325,10 +325,10 @@ pub fn csv_multi_chain(
         let builder = group.new_dataset_builder();
         builder
             .with_data(&particle_type_array)
-            .create("particleid")
+            .create("particletype")
             .unwrap_or_else(|_| {
                 panic!(
-                    "Unable to create dataset \"particleid\" in file {}",
+                    "Unable to create dataset \"particletype\" in file {}",
                     filename
                 )
             });
-- 
2.43.0


From 62b1867dbab266e32ac3e0081ce9da6d19eb5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 48/62] fix: the fitted velocity is taken at the middle of its
 window

---
 src/converter/convertertools.rs                   | 6 +++---
 src/converter/convertertools/velocity_paralell.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..0d9ca6e 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -170,21 +170,21 @@ pub fn velocity_polynom(
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index eb6a3c9..a1216e1 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -57,21 +57,21 @@ pub fn velocity_polynom_parallel(
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vy: f64 = param_y
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vz: f64 = param_z
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             result_array[0] = datasegment[[(sampling_steps - 1) / 2, 0]];
-- 
2.43.0


From 21b9444629827c8bbbf3189a6b07a0e642999806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 49/62] fix: interpolation takes the nearest sample however far
 it is

---
 src/converter/convertertools.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 0d9ca6e..2730e40 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -51,25 +51,10 @@ pub fn interpolate(
             // if the temporal distance between new time and old time is smaller
             // then distance between new time and next time return old timestep
             print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
-                let old_time = time[real_step];
-                let new_time = time[real_step + 1];
-                print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
-                }
+            while real_step < time.len() - 1
+                && (time_new - time[real_step]).abs() >= (time_new - time[real_step + 1]).abs()
+            {
+                real_step += 1;
             }
             real_step
         };
-- 
2.43.0


From 9e661f7615a62fea34df065d2861b9f3ba158be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 50/62] fix: xml vtk folders include the files with the endings
 of xml vtk

---
 src/converter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index 51a043d..30e6918 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -548,7 +548,11 @@ impl XMLVTKConverter {
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            if [".vtk", ".vtu", ".vtp"]
+                .iter()
+                .any(|ending| filename.ends_with(ending))
+                && !filename.contains("boundingBox")
+            {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From bf23c6fd339107a0b83fe8d01726cc618fb84691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 51/62] fix: csv files of timesteps are converted with the
 given radius

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index c580d59..95c329e 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -128,7 +128,7 @@ pub fn csv_multi_file_time_step(
         let builder = group.new_dataset_builder();
         let zero_array = vec![0.0; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&vec![radius; particle_id.len()])
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From b5a328da3e75b6c702e127829c4b2bcae78cca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 52/62] fix: fit velocities of long trajectories over the
 requested window

The parallel fit, used for trajectories of 200000 samples and more, always
took windows of seven samples and seven columns, but evaluated the slope at
the middle of the requested window (nine samples), and failed on interpolated
data, which has four columns. It also printed every window.
---
 src/converter/convertertools/velocity_paralell.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index a1216e1..47f49cc 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -19,15 +19,11 @@ pub fn velocity_polynom_parallel(
     }
     //let bar = setup_bar!("Velocity Calc", data.column(0).len());
     let x: Vec<ndarray::Array2<f64>> = data
-        .windows((7, 7))
+        .windows((sampling_steps, data.ncols()))
         .into_iter()
-        .map(|x| {
-            println!("{:?}", x);
-            x.to_owned().into_shape((7, 7)).unwrap()
-        })
+        .map(|x| x.to_owned())
         .collect();
 
-    println!("x.shape(): {:?}", x.len());
     let new_data: Vec<ndarray::Array1<f64>> = x
         .par_iter()
         .enumerate()
-- 
2.43.0


From 02c0d57d7ba2b57a892a458a6180f2bdabba649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 53/62] fix: place depth-averaged arrows of the xz plane along
 x

---
 src/plotting/plotting_2d/quiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/plotting_2d/quiver.rs b/src/plotting/plotting_2d/quiver.rs
index 99d5b55..59f7924 100644
--- a/src/plotting/plotting_2d/quiver.rs
+++ b/src/plotting/plotting_2d/quiver.rs
@@ -42,7 +42,7 @@ impl QuiverPlot {
 
     pub fn from_vector_grid_depth_averaged(grid: VectorGrid, axis: usize) -> QuiverPlot {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             grid.get_ypositions().to_owned()
         } else {
             grid.get_xpositions().to_owned()
-- 
2.43.0


From 461187340562c7d091e9c50d817b367d3fa82e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 54/62] fix: place parity maps of the xz plane along x

---
 src/plotting/plotting_2d/parity_contour.rs | 8 ++++----
 src/plotting/plotting_2d/parity_map.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index d22f355..c577313 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -18,7 +18,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -70,7 +70,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -133,7 +133,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -168,7 +168,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 4c74925..36ae3ad 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -20,7 +20,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -72,7 +72,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -135,7 +135,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -170,7 +170,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
-- 
2.43.0


From 37a354e80590741ec427efcb6be96323c5a19034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 55/62] fix: use the documented defaults when converting a file
 of several particles

---
 src/pylib/libconv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index 291c5d8..e19c343 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -461,13 +461,13 @@ impl PyConverter {
         filename,
         outname,
         columns = vec![0,1,2,3],
-        delimiter = "\",\"",
+        delimiter = ",",
         header = true,
-        comment = "\"#\"",
+        comment = "#",
         vel = false,
         interpolate = false,
         radius = 0.0,
-        method = "\"id_line\""
+        method = "chain"
     ))]
     #[staticmethod]
     fn csv_multi(
-- 
2.43.0


From 95648b1883ef0b219dc2df519e84a68825d0fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 56/62] fix: check the largest size of unit vectors

---
 up4/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/up4/plotting.py b/up4/plotting.py
index ba0f815..8a4fb3b 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -325,7 +325,7 @@ class Plotter2D:
             index,
             scaling_mode=scaling_mode,
             min_size=min_size,
-            max_size=min_size,
+            max_size=max_size,
             colour_map=colour_map,
         )
         self._plotter._unit_vector_plot(
-- 
2.43.0


From f72c057a0a1316a8355c075e60be3c4636d4a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 57/62] fix: accept names of colour maps in any case

---
 src/pylib/libplot.rs | 2 +-
 up4/plotting.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index 1329292..a6b8453 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -547,7 +547,7 @@ impl PyPlotter2D {
 impl PyPlotter2D {
     fn get_gradient(&self, colour_map: Option<&str>) -> Option<Gradient> {
         // Once we get reflection, maybe this will look less bad??
-        match colour_map {
+        match colour_map.map(str::to_lowercase).as_deref() {
             Some("turbo") => Some(colorous::TURBO),
             Some("viridis") => Some(colorous::VIRIDIS),
             Some("inferno") => Some(colorous::INFERNO),
diff --git a/up4/plotting.py b/up4/plotting.py
index 8a4fb3b..e069e2e 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -1021,7 +1021,7 @@ class Plotter2D:
                 'Using scaling mode: "minmax" requires values for `min_size` and '
                 "`max_size` to be set"
             )
-        if colour_map is not None and colour_map not in valid_colour_map_values:
+        if colour_map is not None and colour_map.lower() not in valid_colour_map_values:
             raise ValueError(
                 f"Colourmap value: {colour_map} is not valid. Valid values are"
                 f" {valid_colour_map_values}."
-- 
2.43.0


From 1390b85568e4d4d4042bc1388f0b11228d8125b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 58/62] fix: allow grids with negative limits

---
 up4/grid.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 29bd6f8..201c605 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -150,11 +150,7 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                # BUG limits can be negative. nobody say they cant
-                if not any(i < 0 for i in limits):
-                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -176,12 +172,7 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cartesian3d(
-                            np.asarray(num_cells), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cartesian3d(np.asarray(num_cells), np.asarray(dim))
@@ -206,12 +197,9 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                if not any(i < 0 for i in limits):
-                    return self.cylindrical3d(
-                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                    )
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cylindrical3d(
+                    np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                )
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -233,12 +221,9 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cylindrical3d(
-                            np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cylindrical3d(
+                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                    )
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cylindrical3d(
-- 
2.43.0


From 8eb30031cbdf92ef9192fb704baa12920bf35069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 59/62] fix: count cells of a given size within the limits of
 the grid

---
 up4/grid.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 201c605..7f0f0b6 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -14,7 +14,12 @@ from upppp_rust import Data
 
 
 def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
-    if data is not None:
+    if limits is not None:
+        num_cells = np.zeros(3)
+        for i in range(3):
+            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
+        return np.array(num_cells, dtype=np.int64)
+    elif data is not None:
         xmin, ymin, zmin = data.min_position()
         xmax, ymax, zmax = data.max_position()
         if xlim is not None:
@@ -30,13 +35,7 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         num_cells = np.zeros(3)
         for i in range(3):
             num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
-        return num_cells
-    elif limits is not None:
-        num_cells = np.zeros(3)
-        for i in range(3):
-            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
         return np.array(num_cells, dtype=np.int64)
-
     elif xlim is not None and ylim is not None and zlim is not None:
         num_cells = [
             (xlim[1] - xlim[0]) / cell_size[0],
-- 
2.43.0


From 78fbcb7c908d584e5111074c8290dd61cf892916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 60/62] fix: slice recorded time steps as Python does

---
 src/pylib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index 03afd11..244eebd 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -897,12 +897,13 @@ impl PyData {
                 "Could not get indices"
             );
             let start = indices.start;
-            let stop = indices.stop;
             let step = indices.step;
+            let length = indices.slicelength as usize;
             let mut result = ndarray::Array3::<f64>::zeros(
-                [((stop - start) / step) as usize, *self.data.global_stats().nparticles(), 7]
+                [length, *self.data.global_stats().nparticles(), 7]
             );
-            for (i, index) in (start..stop).step_by(step as usize).enumerate() {
+            for i in 0..length {
+                let index = start + i as isize * step;
                 let timestep = self.data.get_timestep(index as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From 7b29a0874cc200fdf816153e35bd99274390744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 61/62] fix: refuse time steps that were not recorded

---
 src/pylib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylib.rs b/src/pylib.rs
index 244eebd..da60da0 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -833,6 +833,9 @@ impl PyData {
             } else {
                 _idx = index;
             }
+            if _idx < 0 || _idx as usize >= *self.data.global_stats().timesteps() {
+                return Err(pyo3::exceptions::PyIndexError::new_err("Timestep out of range"));
+            }
             // Single index
             let timestep = self.data.get_timestep(_idx as usize);
             // make it an array
@@ -871,6 +874,9 @@ impl PyData {
                 } else {
                     _idx = *index;
                 }
+                if _idx < 0 || _idx as usize >= *self.data.global_stats().timesteps() {
+                    return Err(pyo3::exceptions::PyIndexError::new_err("Timestep out of range"));
+                }
                 let timestep = self.data.get_timestep(_idx as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From d6461fdda3b566b0e008e29904c2f6cd952ea147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 62/62] fix: draw parity maps in the requested colours

---
 src/pylib/libplot.rs | 53 ++++++++++++++++++++++++++++++++++++--------
 up4/plotting.py      | 12 ++++++----
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index a6b8453..8998d73 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -14,7 +14,12 @@ use crate::{
 };
 use colorous::Gradient;
 
-use plotly::{contour::Contours, layout::themes::PLOTLY_WHITE, Layout, Plot, Trace};
+use plotly::{
+    common::{ColorScale, ColorScaleElement},
+    contour::Contours,
+    layout::themes::PLOTLY_WHITE,
+    Layout, Plot, Trace,
+};
 use pyo3::{exceptions::PyValueError, prelude::*};
 
 #[pyclass(name = "RustPlotter2D", subclass)]
@@ -366,13 +371,14 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_map_from_vector_grid(
         &mut self,
         comparison_grid: &PyVecGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
         let ref_grid = self
             .grid
@@ -404,7 +410,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let parity_traces = parity_plotter.create_parity_map();
         for trace in parity_traces {
-            traces.push(trace)
+            match self.get_colour_scale(colour_map) {
+                Some(colour_scale) => traces.push(trace.color_scale(colour_scale)),
+                None => traces.push(trace),
+            }
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -414,13 +423,14 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_map_from_grid(
         &mut self,
         comparison_grid: &PyGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
         let ref_grid = self.grid.clone();
         let comp_grid = comparison_grid.grid.clone();
@@ -442,7 +452,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let parity_traces = parity_plotter.create_parity_map();
         for trace in parity_traces {
-            traces.push(trace)
+            match self.get_colour_scale(colour_map) {
+                Some(colour_scale) => traces.push(trace.color_scale(colour_scale)),
+                None => traces.push(trace),
+            }
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -452,13 +465,14 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_contour_from_vector_grid(
         &mut self,
         comparison_grid: &PyVecGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
         let ref_grid = self
             .grid
@@ -490,7 +504,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let parity_traces = parity_plotter.create_parity_contour();
         for trace in parity_traces {
-            traces.push(trace)
+            match self.get_colour_scale(colour_map) {
+                Some(colour_scale) => traces.push(trace.color_scale(colour_scale)),
+                None => traces.push(trace),
+            }
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -500,13 +517,14 @@ impl PyPlotter2D {
         Ok(())
     }
 
-    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None))]
+    #[pyo3(signature = (comparison_grid, axis, selection = "depth_average", index = None, colour_map = None))]
     fn _parity_contour_from_grid(
         &mut self,
         comparison_grid: &PyGrid,
         axis: usize,
         selection: &str,
         index: Option<usize>,
+        colour_map: Option<&str>,
     ) -> PyResult<()> {
         let ref_grid = self.grid.clone();
         let comp_grid = comparison_grid.grid.clone();
@@ -528,7 +546,10 @@ impl PyPlotter2D {
         let mut traces: Vec<Box<dyn Trace>> = Vec::new();
         let heatmap_traces = parity_plotter.create_parity_contour();
         for trace in heatmap_traces {
-            traces.push(trace)
+            match self.get_colour_scale(colour_map) {
+                Some(colour_scale) => traces.push(trace.color_scale(colour_scale)),
+                None => traces.push(trace),
+            }
         }
         let layout: Layout = Layout::new();
         let plot: Plot = plot(traces, layout);
@@ -545,6 +566,20 @@ impl PyPlotter2D {
 }
 
 impl PyPlotter2D {
+    /// The colours of a named colour map.
+    fn get_colour_scale(&self, colour_map: Option<&str>) -> Option<ColorScale> {
+        let n = 10;
+        self.get_gradient(colour_map).map(|gradient| {
+            let colour_vector = (0..=n)
+                .map(|i| {
+                    let frac = (i as f64) / (n as f64);
+                    ColorScaleElement(frac, format!("#{:x}", gradient.eval_continuous(frac)))
+                })
+                .collect();
+            ColorScale::Vector(colour_vector)
+        })
+    }
+
     fn get_gradient(&self, colour_map: Option<&str>) -> Option<Gradient> {
         // Once we get reflection, maybe this will look less bad??
         match colour_map.map(str::to_lowercase).as_deref() {
diff --git a/up4/plotting.py b/up4/plotting.py
index e069e2e..e6ef8d5 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -760,13 +760,16 @@ class Plotter2D:
             axis,
             selection,
             index,
+            colour_map=colour_map,
         )
         if self._grid_type == "vector_grid":
             self._plotter._parity_map_from_vector_grid(
-                comparison_grid, axis, selection, index
+                comparison_grid, axis, selection, index, colour_map
             )
         else:
-            self._plotter._parity_map_from_grid(comparison_grid, axis, selection, index)
+            self._plotter._parity_map_from_grid(
+                comparison_grid, axis, selection, index, colour_map
+            )
         parity_map = self._create_plot(style=style, layout=layout)
 
         return parity_map
@@ -873,14 +876,15 @@ class Plotter2D:
             axis,
             selection,
             index,
+            colour_map=colour_map,
         )
         if self._grid_type == "vector_grid":
             self._plotter._parity_contour_from_vector_grid(
-                comparison_grid, axis, selection, index
+                comparison_grid, axis, selection, index, colour_map
             )
         else:
             self._plotter._parity_contour_from_grid(
-                comparison_grid, axis, selection, index
+                comparison_grid, axis, selection, index, colour_map
             )
         parity_contour = self._create_plot(style=style, layout=layout)
 
-- 
2.43.0

