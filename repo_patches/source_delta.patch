From f592c07619460f96a8fbb8cf8346ae5730a61781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:30 +0000
Subject: [PATCH 01/41] fix: choose primitive cell vectors which span the full
 translation lattice

The three shortest translation vectors were picked greedily. When no later
vector completed a right-handed triple the search silently fell back to a
coplanar vector, which produced a singular lattice. The greedy choice could
also span only a sublattice, so the cell was not primitive.

Select the first triple whose volume equals the primitive cell volume and
flip the third vector if the triple is left-handed.
---
 src/reduce.rs | 59 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e6aff14..b08c9f1 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -118,7 +118,11 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &translation_vecs);
 
-        let frac_translation_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        // Three of the vectors are the unit vectors, the rest are the non-zero translations within the cell
+        let prim_volume = temp_structure.volume().abs() / (translation_vecs.len() - 2) as f64;
+
+        let frac_translation_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
         //
         // 5.) Add combinations of shortest vectors
@@ -162,7 +166,8 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &combination_vecs);
 
-        let final_cart_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        let final_cart_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
         //
         // 6.) Create a new structure object with new lattice and coords.
@@ -509,33 +514,45 @@ impl Reducer {
     }
 
     /// Function to get three shortest (right-handed) cartestian translation vectors which still span the lattice.
-    fn get_shortest_translation_vecs(&self, cart_vecs: &mut [Vector3<f64>]) -> Vec<Vector3<f64>> {
+    ///
+    /// # Arguments
+    ///
+    /// * `cart_vecs` - Candidate translation vectors.
+    /// * `prim_volume` - Volume of the primitive cell which the vectors should span.
+    fn get_shortest_translation_vecs(
+        &self,
+        cart_vecs: &mut [Vector3<f64>],
+        prim_volume: f64,
+    ) -> Vec<Vector3<f64>> {
         cart_vecs.sort_by(|a, b| a.magnitude().partial_cmp(&b.magnitude()).unwrap());
 
-        let first = cart_vecs[0];
-        let mut cross_vec: Vector3<f64> = Vector3::new(0.0, 0.0, 0.0);
-        let mut second_ind = 1;
-        let mut third_ind = 2;
+        let mut closest: Option<(f64, Vec<Vector3<f64>>)> = None;
 
-        for (vec_num, cart_vec) in cart_vecs[1..].iter().enumerate() {
-            cross_vec = first.cross(cart_vec);
+        for (i, first) in cart_vecs.iter().enumerate() {
+            for (j, second) in cart_vecs.iter().enumerate().skip(i + 1) {
+                let cross_vec = first.cross(second);
 
-            if cross_vec.magnitude().abs() > self.dtol {
-                second_ind = vec_num + 1;
-                break;
-            }
-        }
+                for third in cart_vecs.iter().skip(j + 1) {
+                    // Vectors which only span a plane or a sublattice have a triple product
+                    // that differs from the primitive volume by at least a factor of two.
+                    let volume = cross_vec.dot(third);
+                    let deviation = (volume.abs() / prim_volume).ln().abs();
 
-        for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec) > self.dtol {
-                third_ind = vec_num + second_ind + 1;
-                break;
+                    if closest.as_ref().map_or(true, |best| deviation < best.0) {
+                        let vecs = vec![*first, *second, third * volume.signum()];
+
+                        if deviation < 1.5_f64.ln() {
+                            return vecs;
+                        }
+                        closest = Some((deviation, vecs));
+                    }
+                }
             }
         }
 
-        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
-
-        final_vecs
+        closest
+            .expect("Could not find vectors which span the lattice!")
+            .1
     }
 
     /// Function to get scalar products from the Delaunay matrix
-- 
2.43.0


From c293b338872f37809d754189ce77020062d0e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 02/41] fix: report the rhombohedral lattice system for hR
 lattices

The lattice system was read from the first letter of the Bravais symbol only,
so hR was treated as hexagonal. Rhombohedral space groups were therefore
compared against the wrong candidates and never identified.
---
 src/data/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/core.rs b/src/data/core.rs
index 9f38019..1cc8e31 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -127,6 +127,11 @@ impl BravaisType {
     }
 
     pub fn lattice_system(&self) -> LatticeSystem {
+        // The first letter denotes the crystal family, which does not set hR apart from hP
+        if *self == BravaisType::hR {
+            return LatticeSystem::Rhombohedral;
+        }
+
         let system: String = self.to_string().chars().next().unwrap().to_string();
 
         LatticeSystem::from_str(&system).expect("Problem determining lattice system.")
-- 
2.43.0


From 1d76eca44f0ab4b0360d95edca86179f21dcb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 03/41] fix: compose symmetry operations correctly when
 generating a space group

The translation of a product of operations was computed as R2*t1 + t2. The
composition { R1 | t1 } { R2 | t2 } has the translation R1*t2 + t1, so groups
with non-commuting operations gained operations they do not contain.
---
 src/spacegroup.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index e77a627..97e7c82 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -139,7 +139,11 @@ impl SpaceGroup {
             let mut generated: Vec<SymmOp> = Vec::new();
 
             for (m1, m2) in iproduct!(symm_ops.clone(), new_ops) {
-                let mut op = m1 * m2;
+                // { R1 | t1 } { R2 | t2 } = { R1*R2 | (R1*t2)+t1 }
+                let mut op = SymmOp {
+                    rotation: m1.rotation * m2.rotation,
+                    translation: m1 * m2.translation,
+                };
 
                 if !(symm_ops
                     .iter()
-- 
2.43.0


From dc791bb408041ba921446e723e2ee99155c560fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 04/41] fix: fall back to more general lattice characters for
 equal axis lengths

Reduced cells with A=B=C, A=B or B=C were only compared with the characters
which require that equality. Cells which match none of those, such as
body-centred orthorhombic ones, stopped with 'Cannot find lattice character'.
---
 src/analyzer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..ed2f746 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -384,17 +384,19 @@ impl SymmetryAnalyzer {
 
         let mut char_num = 0;
 
-        let vecs: Vec<(Vector3<f64>, u8)>;
+        // The more general sets also apply to cells with equal lengths
+        let mut vecs: Vec<(Vector3<f64>, u8)> = Vec::new();
 
         if cust_eq(&a, &b, &epsilon) && cust_eq(&a, &c, &epsilon) {
-            vecs = Self::get_first_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&a, &b, &epsilon) {
-            vecs = Self::get_second_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&b, &c, &epsilon) {
-            vecs = Self::get_third_set(type_i, a, b, d, e, f, epsilon);
-        } else {
-            vecs = Self::get_fourth_set(type_i, a, b, d, e, f);
+            vecs.extend(Self::get_first_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&a, &b, &epsilon) {
+            vecs.extend(Self::get_second_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&b, &c, &epsilon) {
+            vecs.extend(Self::get_third_set(type_i, a, b, d, e, f, epsilon));
         }
+        vecs.extend(Self::get_fourth_set(type_i, a, b, d, e, f));
 
         for (vec, num) in vecs {
             if vec
-- 
2.43.0


From 6ae0aa04f93af960f9cb3b7bdef3d9ed1169076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 05/41] fix: stop the site search when the transformed cell is
 complete

The volume ratio was rounded to two decimals before it was compared with the
ratio of site counts. For ratios such as 1/6, 1/8 or 2/3 the rounded value is
larger than the exact one, so the search never ended. Compare with the number
of sites instead.
---
 src/structure.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7d765df..924e0c3 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -158,11 +158,12 @@ impl Structure {
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
+        let num_new_sites = (self.coords.len() as f64 * volume_ratio).round() as usize;
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
         let mut mult = 2;
-        while (new_frac_coords.len() as f64 / self.coords.len() as f64) < volume_ratio {
+        while new_frac_coords.len() < num_new_sites {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
-- 
2.43.0


From 31ad5122060805c8a465d8e2b75e8e5a92537bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 06/41] fix: compare sites of a transformed cell in the basis
 of that cell

Differences between fractional coordinates of the new cell were converted to
distances with the old lattice. In large supercells distinct sites looked
closer than the tolerance and were merged, and the search for the missing
sites never ended.
---
 src/structure.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 924e0c3..121b52c 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -139,12 +139,6 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let frac_tols = Vector3::from_iterator(
-            self.lattice
-                .column_iter()
-                .map(|col| pos_tol / col.magnitude()),
-        );
-
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
@@ -155,6 +149,12 @@ impl Structure {
 
         let new_lattice = self.lattice * transformation_matrix;
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| pos_tol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
@@ -180,7 +180,7 @@ impl Structure {
                     for new_coord in new_frac_coords.iter() {
                         let mut coord_diff = vec![frac_coord - new_coord];
                         normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                        let cart_coord_delta = Self::get_cart_coords(&self.lattice, &coord_diff);
+                        let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
                             eq = true;
-- 
2.43.0


From 395fbac820f926c594674b479a668a72fbb4a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 07/41] fix: fold sites into the primitive cell using distances
 in that cell

Differences between fractional coordinates of the primitive cell were
converted to distances with the lattice of the input cell. Slightly displaced
copies of a site in a supercell were then kept as separate sites.
---
 src/reduce.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index b08c9f1..aef645e 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -178,6 +178,12 @@ impl Reducer {
 
         let temp_frac_coords = Structure::get_frac_coords(&new_lattice, &temp_structure.coords);
 
+        let new_frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
 
         let mut new_species: Vec<String> = Vec::new();
@@ -186,9 +192,8 @@ impl Reducer {
             let mut eq = false;
             for new_coord in new_frac_coords.iter() {
                 let mut coord_diff = vec![coord - new_coord];
-                normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                let cart_coord_delta =
-                    Structure::get_cart_coords(&temp_structure.lattice, &coord_diff);
+                normalize_frac_vectors(&mut coord_diff, &new_frac_tols);
+                let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
                     eq = true;
@@ -197,7 +202,7 @@ impl Reducer {
             }
             if !eq {
                 let norm_coord = *coord;
-                normalize_frac_vectors(&mut vec![norm_coord], &frac_tols);
+                normalize_frac_vectors(&mut vec![norm_coord], &new_frac_tols);
                 new_frac_coords.push(norm_coord);
                 new_species.push(specie.clone());
             }
-- 
2.43.0


From 78bb3f4dc8574827a5be81b43a7d88b17751643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 08/41] fix: report a positive volume for left-handed cells

The reduction tolerance is derived from the cube root of the volume. It was
NaN for left-handed cells, so Niggli reduction returned them unreduced.
---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 121b52c..946727a 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -121,7 +121,7 @@ impl Structure {
 
     /// Volume of the unit cell in angstroms
     pub fn volume(&self) -> f64 {
-        self.lattice.determinant()
+        self.lattice.determinant().abs()
     }
 
     /// Metric tensor of lattice matrix
-- 
2.43.0


From 6c6a11182e3f07832ce8312cf49d9149fd2b0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 09/41] fix: count more than 127 sites of a species in formulas

The tally was kept as an 8 bit integer which overflowed for larger cells.
---
 src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 946727a..512b605 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -334,7 +334,7 @@ impl Structure {
 
     /// Formula and reduced formula of the structure.
     pub fn formulas(&self) -> (String, String) {
-        let mut species_tally = HashMap::<&String, i8>::new();
+        let mut species_tally = HashMap::<&String, usize>::new();
 
         let mut max_count = 0;
 
@@ -346,7 +346,7 @@ impl Structure {
                 max_count = *count;
             }
         }
-        let mut gcf: i8 = 1;
+        let mut gcf = 1;
 
         for div in 2..(max_count + 1) {
             if species_tally.values().all(|&tally| (tally % div) == 0) {
-- 
2.43.0


From 9de9eae3576eb863785ad679e1e7e973b86cced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:33 +0000
Subject: [PATCH 10/41] fix: stop with an error when Delaunay reduction does
 not converge

The iteration counter reaches 101 when the limit is exceeded, so the check
against 100 missed it and the cell was returned unreduced. It also rejected
cells which were reduced after exactly 100 iterations.
---
 src/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index aef645e..18772ec 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -465,7 +465,7 @@ impl Reducer {
             count += 1;
         }
 
-        if count == 100 {
+        if scalar_prods.iter().any(|val| val > &ZERO_TOL) {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From e993997b7cd9f07b4612003915e7cd76664e772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:33 +0000
Subject: [PATCH 11/41] fix: drop operations which are not compatible with a
 transformed cell

Operations were kept when any entry of the transformed rotation was close to
0 or 1, so rotations which do not map the new lattice onto itself were rounded
to unrelated matrices. Keep an operation only if all entries are integers.

The number of operations to look for is now derived from the operations which
are kept and from a whole number of translations. It was lowered again for
each dropped operation in every pass, and could exceed what exists when the
volume ratio is slightly inexact, in which case the search never ended.
---
 src/spacegroup.rs | 66 ++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 97e7c82..4078100 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -50,17 +50,45 @@ impl SpaceGroup {
 
         // Find extra unit translations included in new cell if it is bigger
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
 
         let mut new_operations: Vec<SymmOp> = Vec::new();
 
         // Set up found vector mapping
         let mut found_vectors_mapping: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
 
-        let mut initial_num_ops = self.operations.len() as f64;
+        // Calculate transformed rotation matrices, and throw out operations with non-integer ones
+        let rotation_tol = ZERO_TOL + 2.0 * frac_tols.sum();
+
+        let transformed_ops: Vec<(Matrix3<i8>, Vector3<f64>)> = self
+            .operations
+            .iter()
+            .map(|op| {
+                let float_rot = inv_trans_mat * op.rotation.cast::<f64>() * transformation_matrix;
+                (float_rot, op.translation)
+            })
+            .filter(|(float_rot, _)| {
+                float_rot
+                    .iter()
+                    .all(|val| (val - val.round()).abs() < rotation_tol)
+            })
+            .map(|(float_rot, translation)| (float_rot.map(|x| x.round() as i8), translation))
+            .collect();
+
+        // Each of the remaining rotations is combined with all of the unit translations in the new cell
+        let num_translations = self
+            .operations
+            .iter()
+            .filter(|op| op.rotation == Matrix3::identity())
+            .count()
+            .max(1);
+
+        let new_num_translations = (num_translations as f64 * volume_ratio).round() as usize;
+
+        let new_num_ops = transformed_ops.len() / num_translations * new_num_translations;
 
         let mut mult = 2;
-        while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
+        while new_operations.len() < new_num_ops {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
@@ -68,33 +96,17 @@ impl SpaceGroup {
                 translation_vecs.push(Vector3::new(i as f64, j as f64, k as f64))
             }
 
-            for op in self.operations.iter() {
-                // Calculate transformed rotation matrix
-                let mut float_rot = op.rotation.cast::<f64>();
-                float_rot = inv_trans_mat * float_rot * transformation_matrix;
-
-                // Throw out non-integer rotation matrices
-                if !float_rot
-                    .iter()
-                    .any(|val| (val.abs() < ZERO_TOL) || ((val.abs() - 1.0).abs() < ZERO_TOL))
-                {
-                    initial_num_ops -= 1.0;
-                    continue;
-                }
-
-                let trans_rotation =
-                    Matrix3::from_iterator(float_rot.iter().map(|&x| x.round() as i8));
-
+            for (trans_rotation, translation) in transformed_ops.iter() {
                 // Iterate through candidate transformed translation vector for a specific symm op
                 // and check if it has been seen before. If not, add it to the list of new operations.
                 for vec in translation_vecs.iter() {
-                    let mut trans_vec = vec![inv_trans_mat * (op.translation + vec)];
+                    let mut trans_vec = vec![inv_trans_mat * (translation + vec)];
                     normalize_frac_vectors(&mut trans_vec, frac_tols);
 
                     let mut unique = true;
 
                     for found_trans_vec in found_vectors_mapping
-                        .entry(trans_rotation)
+                        .entry(*trans_rotation)
                         .or_default()
                         .iter()
                     {
@@ -115,15 +127,15 @@ impl SpaceGroup {
                     if unique {
                         normalize_frac_vectors(&mut trans_vec, frac_tols);
                         found_vectors_mapping
-                            .entry(trans_rotation)
+                            .entry(*trans_rotation)
                             .or_insert(Vec::new())
                             .push(trans_vec[0]);
 
                         // Add new ops to group
-                        let mut new_op = op.clone();
-                        new_op.translation = trans_vec[0];
-                        new_op.rotation = trans_rotation;
-                        new_operations.push(new_op)
+                        new_operations.push(SymmOp {
+                            rotation: *trans_rotation,
+                            translation: trans_vec[0],
+                        })
                     }
                 }
             }
-- 
2.43.0


From 198322b78768e0cf6fed8d4edc6f051370717065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:05 +0000
Subject: [PATCH 12/41] fix: correct the symbols of space groups 19 and 24

The last screw axis lacked its subscript marker, so the symbols read
P2_12_121 and I2_12_121 instead of P2_12_12_1 and I2_12_12_1.
---
 src/data/spacegroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/spacegroup.rs b/src/data/spacegroup.rs
index 3877fdc..1e8a9bf 100644
--- a/src/data/spacegroup.rs
+++ b/src/data/spacegroup.rs
@@ -24,12 +24,12 @@ lazy_static! {
             (16, "P222"),
             (17, "P222_1"),
             (18, "P2_12_12"),
-            (19, "P2_12_121"),
+            (19, "P2_12_12_1"),
             (20, "C222_1"),
             (21, "C222"),
             (22, "F222"),
             (23, "I222"),
-            (24, "I2_12_121"),
+            (24, "I2_12_12_1"),
             (25, "Pmm2"),
             (26, "Pmc2_1"),
             (27, "Pcc2"),
-- 
2.43.0


From b7f52c9502b1a790284bc1c3ed62d09d5cc3895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:26 +0000
Subject: [PATCH 13/41] fix: choose between equally short vectors independent
 of rounding errors

Vectors of equal length were ordered by the last digits of their computed
lengths, so the primitive cell depended on rounding errors.
---
 src/reduce.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 18772ec..f60d228 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -133,20 +133,21 @@ impl Reducer {
 
         let frac_matrix = Matrix3::from_columns(&smallest_frac_vecs);
 
+        // Longer combinations come first to be preferred over equally short input vectors
         let base_comb_vecs: Vec<Vector3<f64>> = vec![
-            Vector3::new(1.0, 0.0, 0.0),
-            Vector3::new(0.0, 1.0, 0.0),
-            Vector3::new(0.0, 0.0, 1.0),
-            Vector3::new(1.0, 1.0, 0.0),
-            Vector3::new(1.0, 0.0, 1.0),
-            Vector3::new(0.0, 1.0, 1.0),
-            Vector3::new(-1.0, 1.0, 0.0),
-            Vector3::new(-1.0, 0.0, 1.0),
-            Vector3::new(0.0, -1.0, 1.0),
-            Vector3::new(1.0, 1.0, 1.0),
-            Vector3::new(-1.0, 1.0, 1.0),
-            Vector3::new(1.0, -1.0, 1.0),
             Vector3::new(1.0, 1.0, -1.0),
+            Vector3::new(1.0, -1.0, 1.0),
+            Vector3::new(-1.0, 1.0, 1.0),
+            Vector3::new(1.0, 1.0, 1.0),
+            Vector3::new(0.0, -1.0, 1.0),
+            Vector3::new(-1.0, 0.0, 1.0),
+            Vector3::new(-1.0, 1.0, 0.0),
+            Vector3::new(0.0, 1.0, 1.0),
+            Vector3::new(1.0, 0.0, 1.0),
+            Vector3::new(1.0, 1.0, 0.0),
+            Vector3::new(0.0, 0.0, 1.0),
+            Vector3::new(0.0, 1.0, 0.0),
+            Vector3::new(1.0, 0.0, 0.0),
         ];
 
         let mut combination_vecs: Vec<Vector3<f64>> = Vec::new();
@@ -529,7 +530,8 @@ impl Reducer {
         cart_vecs: &mut [Vector3<f64>],
         prim_volume: f64,
     ) -> Vec<Vector3<f64>> {
-        cart_vecs.sort_by(|a, b| a.magnitude().partial_cmp(&b.magnitude()).unwrap());
+        // Keep the given order of equally long vectors regardless of rounding errors
+        cart_vecs.sort_by_key(|vec| (vec.magnitude() / ZERO_TOL).round() as i64);
 
         let mut closest: Option<(f64, Vec<Vector3<f64>>)> = None;
 
-- 
2.43.0


From ace2936e7a3ae633a1cd1462b7abbc0fb4ec0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:53 +0000
Subject: [PATCH 14/41] fix: invert lattices without loss of precision

The singular value decomposition of 3x3 matrices converges poorly for some
lattices.  Fractional coordinates were then off by up to some hundredths of an
angstrom.  Invert the lattice matrix directly.
---
 src/structure.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 512b605..ddce8e6 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -282,9 +282,7 @@ impl Structure {
         lattice: &Matrix3<f64>,
         cart_coords: &[Vector3<f64>],
     ) -> Vec<Vector3<f64>> {
-        let inverted_lattice = (*lattice)
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inverted_lattice = Self::invert_lattice(lattice);
 
         let mut new_coords = cart_coords.to_owned();
 
@@ -384,12 +382,16 @@ impl Structure {
     ///
     /// * `structure` - A transformed structure
     pub fn get_transformation_matrix(&self, structure: &Structure) -> Matrix3<f64> {
-        let inv_lattice: Matrix3<f64> = self
-            .lattice
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        Self::invert_lattice(&self.lattice) * structure.lattice
+    }
 
-        inv_lattice * structure.lattice
+    /// Inverse of a lattice matrix
+    fn invert_lattice(lattice: &Matrix3<f64>) -> Matrix3<f64> {
+        // The SVD based pseudo inverse loses too many digits to convert coordinates with it
+        lattice
+            .try_inverse()
+            .filter(|_| lattice.determinant().abs() > ZERO_TOL.powi(3))
+            .expect("Crystal lattice is not invertible!")
     }
 }
 
-- 
2.43.0


From 9d82b5df04d5faa01e5d37b799b48b84a205103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:54 +0000
Subject: [PATCH 15/41] fix: keep the conventional cell of lattice character 17
 right-handed

---
 src/data/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/core.rs b/src/data/core.rs
index 1cc8e31..eeff8df 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -239,7 +239,7 @@ lazy_static! {
             (15, Matrix3::new(1,0,0,0,1,0,1,1,2)),
             (16, Matrix3::new(-1,-1,0,1,-1,0,1,1,2)),
             (14, Matrix3::new(1,1,0,-1,1,0,0,0,1)),
-            (17, Matrix3::new(1,-1,0,1,1,0,-1,0,-1)),
+            (17, Matrix3::new(1,-1,0,-1,-1,0,-1,0,-1)),
             // Third set, B=C
             (18, Matrix3::new(0,-1,1,1,-1,-1,1,0,0)),
             (19, Matrix3::new(-1,0,0,0,-1,1,-1,1,1)),
-- 
2.43.0


From 2dd98d6ec3d2dd8abddcbf4a601384634ccbc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:03 +0000
Subject: [PATCH 16/41] fix: list each operation once when generators are
 repeated

A space group built from a generator list that names an operation twice
(or once more shifted by a lattice vector) listed that operation twice.
Skip generators which are already in the list.
---
 src/spacegroup.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 4078100..46f5f8d 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -145,8 +145,17 @@ impl SpaceGroup {
     }
 
     fn ops_from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Vec<SymmOp> {
-        let mut symm_ops: Vec<SymmOp> = generators.to_vec();
-        let mut new_ops: Vec<SymmOp> = generators.to_vec();
+        let mut symm_ops: Vec<SymmOp> = Vec::new();
+        for generator in generators {
+            if !(symm_ops
+                .iter()
+                .any(|symm_op| symm_op.is_approx_eq(generator, frac_tols)))
+            {
+                symm_ops.push(generator.clone());
+            }
+        }
+
+        let mut new_ops: Vec<SymmOp> = symm_ops.clone();
         while !new_ops.is_empty() {
             let mut generated: Vec<SymmOp> = Vec::new();
 
-- 
2.43.0


From 7b487f2cc1ba43ff585ac154a653839db0a94d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:38 +0000
Subject: [PATCH 17/41] fix: keep the primitive lattice free of site
 displacements

The translations of a cell were taken from differences of site positions.
Displacing a site by much less than the distance tolerance therefore distorted
the primitive lattice, and centred cells were analysed as triclinic. The
translations form a group whose order is known, so round their components to
the fractions they stand for when this is within the tolerance.
---
 src/reduce.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index f60d228..a7555ff 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -115,12 +115,21 @@ impl Reducer {
         // 3.) Sort potential vectors from smallest to largest and find three which span the lattice
         //
 
+        // Three of the vectors are the unit vectors, the rest are the non-zero translations within the cell
+        let num_translations = (translation_vecs.len() - 2) as f64;
+        let prim_volume = temp_structure.volume().abs() / num_translations;
+
+        // Translations are fractions of the cell vectors, deviations stem from displaced sites
+        for vec in translation_vecs.iter_mut() {
+            let ideal_vec = vec.map(|x| (x * num_translations).round() / num_translations);
+            if (temp_structure.lattice * (ideal_vec - *vec)).magnitude() <= 2.0 * self.dtol {
+                *vec = ideal_vec;
+            }
+        }
+
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &translation_vecs);
 
-        // Three of the vectors are the unit vectors, the rest are the non-zero translations within the cell
-        let prim_volume = temp_structure.volume().abs() / (translation_vecs.len() - 2) as f64;
-
         let frac_translation_vecs =
             self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
-- 
2.43.0


From cdd276b2c9f37ea191ce3c1effe78ded64aa9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:07 +0000
Subject: [PATCH 18/41] fix: make the choice of operations independent of hash
 order

Candidate translations of an operation were collected and compared in the
iteration order of hash maps. With displaced sites or a loose tolerance, the
same structure gave different operations or was refused from run to run.
---
 src/analyzer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index ed2f746..6a459ad 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -197,13 +197,17 @@ impl SymmetryAnalyzer {
 
         let (_, ele_inds, ele_counts) = prim_structure.get_min_element();
 
+        // Which candidate vectors are taken together depends on their order, so it has to be fixed
+        let mut sorted_ele_inds: Vec<(&String, &u16)> = ele_inds.iter().collect();
+        sorted_ele_inds.sort_by_key(|(_, ind)| **ind);
+
         for op in holohedry_pg.operations {
             let float_op = Matrix3::from_iterator(op.iter().map(|&x| x as f64));
             let mut translation_vectors: Vec<Vector3<f64>> = Vec::new();
 
-            for (ele, ind) in ele_inds.iter() {
-                let start = ind.to_owned();
-                let end = start + ele_counts.get(ele).unwrap().to_owned();
+            for (ele, ind) in sorted_ele_inds.iter() {
+                let start = **ind;
+                let end = start + ele_counts.get(*ele).unwrap().to_owned();
 
                 for coord_ind_a in start..end {
                     let rotated_coord = float_op * prim_structure.frac_coords[coord_ind_a as usize];
@@ -227,7 +231,7 @@ impl SymmetryAnalyzer {
         let mut matched;
 
         for (op, translation_vectors) in op_trans_vecs.iter() {
-            let mut translation_counts: HashMap<Vector3<i64>, u64> = HashMap::new();
+            let mut translation_counts: Vec<(Vector3<i64>, u64)> = Vec::new();
 
             for translation in translation_vectors.iter() {
                 let int_translation: Vector3<i64> = Vector3::from_iterator(
@@ -257,7 +261,7 @@ impl SymmetryAnalyzer {
                 }
 
                 if !matched {
-                    translation_counts.insert(int_translation, 1);
+                    translation_counts.push((int_translation, 1));
                 }
             }
 
-- 
2.43.0


From 4b7c966e0f72c6c76b00a714fa647750de9d1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:17 +0000
Subject: [PATCH 19/41] fix: drop rotations which do not fit a long cell

Entries of a transformed rotation were accepted as integers when they deviated
by less than the sum of the translation tolerances. For cells elongated 20 times
or more the fractions of unfit rotations are smaller than that, so they were
rounded to unrelated matrices and the search for their translations never ended.
---
 src/spacegroup.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 46f5f8d..495697d 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -58,8 +58,6 @@ impl SpaceGroup {
         let mut found_vectors_mapping: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
 
         // Calculate transformed rotation matrices, and throw out operations with non-integer ones
-        let rotation_tol = ZERO_TOL + 2.0 * frac_tols.sum();
-
         let transformed_ops: Vec<(Matrix3<i8>, Vector3<f64>)> = self
             .operations
             .iter()
@@ -70,7 +68,7 @@ impl SpaceGroup {
             .filter(|(float_rot, _)| {
                 float_rot
                     .iter()
-                    .all(|val| (val - val.round()).abs() < rotation_tol)
+                    .all(|val| (val - val.round()).abs() < ZERO_TOL)
             })
             .map(|(float_rot, translation)| (float_rot.map(|x| x.round() as i8), translation))
             .collect();
-- 
2.43.0


From 1b455833109c33d6bf078f278fb3bbb35146da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:17 +0000
Subject: [PATCH 20/41] fix: compare translations with the tolerance of the
 input cell

Operations were put back into the basis of the input structure with tolerances
relative to the primitive cell. In long supercells the translations along the
long axis are closer than that, so they were taken for duplicates and the search
for the expected number of operations never ended.
---
 src/analyzer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 6a459ad..12a93f7 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -79,7 +79,15 @@ impl SymmetryAnalyzer {
         let total_transformation =
             inv_prim_trans_mat * inv_conv_trans_mat * niggli_trans_mat * initial_trans_mat;
 
-        sg.apply_transformation(&total_transformation, &frac_tols);
+        // Translations are compared in the basis of the input structure
+        let input_frac_tols = Vector3::from_iterator(
+            structure
+                .lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
+        sg.apply_transformation(&total_transformation, &input_frac_tols);
 
         (int_num, sg_symbol, sg)
     }
-- 
2.43.0


From bab69c24a196f6a91a4f18b3035d7e2142ac5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:32 +0000
Subject: [PATCH 21/41] fix: finish the group of a crystal with inexact
 positions

The operations of the primitive cell were completed by multiplying them until
no new ones appear. With positions that are off by about the tolerance, the
translations of products drift further away each time, so that ever more
operations with the same rotation were added and the analysis did not end. Each
rotation occurs only once in a primitive cell, so only add missing rotations.
---
 src/analyzer.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 12a93f7..cebc361 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -11,7 +11,7 @@ use crate::structure::Structure;
 use crate::symmop::SymmOp;
 use crate::utils::{cust_eq, decode_spg_op, normalize_frac_vectors, num_negative_zero};
 use nalgebra::{Matrix3, Vector3};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 
 #[derive(Debug, Clone)]
 pub struct SymmetryAnalyzer {
@@ -57,7 +57,9 @@ impl SymmetryAnalyzer {
                 .map(|col| self.dtol / col.magnitude()),
         );
 
-        let mut sg = SpaceGroup::from_generators(&sg_generators, &frac_tols);
+        let mut sg = SpaceGroup {
+            operations: SymmetryAnalyzer::complete_primitive_ops(sg_generators, &frac_tols),
+        };
         let (int_num, sg_symbol) = SymmetryAnalyzer::identify_space_group(
             &sg,
             &bravais_symbol.lattice_system(),
@@ -92,6 +94,37 @@ impl SymmetryAnalyzer {
         (int_num, sg_symbol, sg)
     }
 
+    /// Completes the operations of a primitive cell to a group. Each rotation occurs only once in a
+    /// primitive cell, so products with slightly inexact translations are not further operations.
+    fn complete_primitive_ops(generators: Vec<SymmOp>, frac_tols: &Vector3<f64>) -> Vec<SymmOp> {
+        let mut operations: Vec<SymmOp> = Vec::new();
+        let mut candidates = VecDeque::from(generators);
+
+        while let Some(candidate) = candidates.pop_front() {
+            if operations
+                .iter()
+                .any(|op| op.rotation == candidate.rotation)
+            {
+                continue;
+            }
+            operations.push(candidate.clone());
+
+            for op in operations.iter() {
+                for (m1, m2) in [(op, &candidate), (&candidate, op)] {
+                    // { R1 | t1 } { R2 | t2 } = { R1*R2 | (R1*t2)+t1 }
+                    let mut product = SymmOp {
+                        rotation: m1.rotation * m2.rotation,
+                        translation: m1.clone() * m2.translation,
+                    };
+                    product.normalize(frac_tols);
+                    candidates.push_back(product);
+                }
+            }
+        }
+
+        operations
+    }
+
     fn identify_space_group(
         sg: &SpaceGroup,
         lattice_system: &LatticeSystem,
-- 
2.43.0


From ef60bcbf6c88d0035fe16eb33bbce3dcd8a22f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:33 +0000
Subject: [PATCH 22/41] fix: compare positions with the nearest periodic image

Differences of positions were shifted to the range from minus the tolerance to
one before they were compared with twice the tolerance. Positions that differ
by more than the tolerance in the negative direction only were therefore taken
for different, and the outcome depended on the order of the sites.
---
 src/analyzer.rs  | 7 ++++---
 src/reduce.rs    | 8 +++-----
 src/structure.rs | 5 ++---
 src/utils.rs     | 5 +++++
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index cebc361..672a8f2 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -9,7 +9,9 @@ use crate::reduce::Reducer;
 use crate::spacegroup::SpaceGroup;
 use crate::structure::Structure;
 use crate::symmop::SymmOp;
-use crate::utils::{cust_eq, decode_spg_op, normalize_frac_vectors, num_negative_zero};
+use crate::utils::{
+    cust_eq, decode_spg_op, nearest_image, normalize_frac_vectors, num_negative_zero,
+};
 use nalgebra::{Matrix3, Vector3};
 use std::collections::{HashMap, VecDeque};
 
@@ -288,8 +290,7 @@ impl SymmetryAnalyzer {
                         count_vector.iter().map(|&x| x as f64 / INT_CONVERSION_MULT),
                     );
 
-                    let mut diff = vec![translation - float_count_translation];
-                    normalize_frac_vectors(&mut diff, &frac_tols);
+                    let diff = vec![nearest_image(&(translation - float_count_translation))];
 
                     let cart_coord_delta =
                         Structure::get_cart_coords(&prim_structure.lattice, &diff);
diff --git a/src/reduce.rs b/src/reduce.rs
index a7555ff..e257342 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -1,7 +1,7 @@
 #![allow(clippy::neg_cmp_op_on_partial_ord)]
 use crate::data::core::ZERO_TOL;
 use crate::structure::Structure;
-use crate::utils::{cust_eq, normalize_frac_vectors, num_negative_zero};
+use crate::utils::{cust_eq, nearest_image, normalize_frac_vectors, num_negative_zero};
 use nalgebra::{Matrix3, Matrix3x4, Vector3, Vector6};
 use std::collections::HashMap;
 use std::string::String;
@@ -89,8 +89,7 @@ impl Reducer {
                     .zip(temp_structure.species.iter())
                 {
                     if specie == specie_p {
-                        let mut coord_delta = vec![tr_coord - coord_p];
-                        normalize_frac_vectors(&mut coord_delta, &frac_tols);
+                        let coord_delta = vec![nearest_image(&(tr_coord - coord_p))];
 
                         let cart_coord_delta =
                             Structure::get_cart_coords(&temp_structure.lattice, &coord_delta);
@@ -201,8 +200,7 @@ impl Reducer {
         for (coord, specie) in temp_frac_coords.iter().zip(&temp_structure.species) {
             let mut eq = false;
             for new_coord in new_frac_coords.iter() {
-                let mut coord_diff = vec![coord - new_coord];
-                normalize_frac_vectors(&mut coord_diff, &new_frac_tols);
+                let coord_diff = vec![nearest_image(&(coord - new_coord))];
                 let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
diff --git a/src/structure.rs b/src/structure.rs
index ddce8e6..967620f 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -1,5 +1,5 @@
 use crate::data::core::ZERO_TOL;
-use crate::utils::normalize_frac_vectors;
+use crate::utils::{nearest_image, normalize_frac_vectors};
 use itertools::Itertools;
 use itertools::{iproduct, izip};
 use nalgebra::{try_invert_to, Matrix3, Matrix3x4, Vector3};
@@ -178,8 +178,7 @@ impl Structure {
 
                     let mut eq = false;
                     for new_coord in new_frac_coords.iter() {
-                        let mut coord_diff = vec![frac_coord - new_coord];
-                        normalize_frac_vectors(&mut coord_diff, &frac_tols);
+                        let coord_diff = vec![nearest_image(&(frac_coord - new_coord))];
                         let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
diff --git a/src/utils.rs b/src/utils.rs
index 29f41f0..b38d2aa 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -14,6 +14,11 @@ pub fn normalize_frac_vectors(vecs: &mut Vec<Vector3<f64>>, frac_tols: &Vector3<
     }
 }
 
+///Shifts a difference of fractional vectors by whole lattice vectors such that all components are within `[-0.5, 0.5]`
+pub fn nearest_image(diff: &Vector3<f64>) -> Vector3<f64> {
+    diff.map(|x| x - x.round())
+}
+
 ///Count the number of negative or zero components in a vector within a tolerance `epsilon`
 pub fn num_negative_zero(vec: &Vec<f64>, epsilon: &f64) -> (i8, i8) {
     let mut num_negative = 0;
-- 
2.43.0


From e21989805126591272601cd53447de5b8e476e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:34 +0000
Subject: [PATCH 23/41] fix: stop with an error when a transformed cell cannot
 be completed

Transforming a cell with sites or translations that are closer than the
tolerance searched for the expected number of sites or operations forever. Stop
once all translations of the transformed cell have been tried.
---
 src/spacegroup.rs |  7 ++++++-
 src/structure.rs  |  7 ++++++-
 src/utils.rs      | 13 +++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 495697d..dd6c968 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use crate::data::core::ZERO_TOL;
 use crate::symmop::SymmOp;
-use crate::utils::normalize_frac_vectors;
+use crate::utils::{normalize_frac_vectors, translation_period};
 use itertools::iproduct;
 use nalgebra::Vector3;
 use nalgebra::{try_invert_to, Matrix3};
@@ -85,8 +85,13 @@ impl SpaceGroup {
 
         let new_num_ops = transformed_ops.len() / num_translations * new_num_translations;
 
+        // All translations have been tried when `max_mult` is reached
+        let max_mult = translation_period(&inv_trans_mat) + 1;
         let mut mult = 2;
         while new_operations.len() < new_num_ops {
+            if mult > max_mult {
+                panic!("Could not find all operations of the transformed cell!");
+            }
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
diff --git a/src/structure.rs b/src/structure.rs
index 967620f..e9109f5 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -1,5 +1,5 @@
 use crate::data::core::ZERO_TOL;
-use crate::utils::{nearest_image, normalize_frac_vectors};
+use crate::utils::{nearest_image, normalize_frac_vectors, translation_period};
 use itertools::Itertools;
 use itertools::{iproduct, izip};
 use nalgebra::{try_invert_to, Matrix3, Matrix3x4, Vector3};
@@ -162,8 +162,13 @@ impl Structure {
         let num_new_sites = (self.coords.len() as f64 * volume_ratio).round() as usize;
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
+        // All translations have been tried when `max_mult` is reached
+        let max_mult = translation_period(&inv_trans_mat) + 1;
         let mut mult = 2;
         while new_frac_coords.len() < num_new_sites {
+            if mult > max_mult {
+                panic!("Could not find all sites of the transformed cell!");
+            }
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
diff --git a/src/utils.rs b/src/utils.rs
index b38d2aa..1c99cfe 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,6 +19,19 @@ pub fn nearest_image(diff: &Vector3<f64>) -> Vector3<f64> {
     diff.map(|x| x - x.round())
 }
 
+///Smallest multiple of the vectors of a lattice which are vectors of the transformed lattice as well.
+///Outputs a cutoff if there is none.
+pub fn translation_period(inv_trans_mat: &Matrix3<f64>) -> usize {
+    (1..1000)
+        .find(|&period| {
+            inv_trans_mat
+                .iter()
+                .map(|x| x * period as f64)
+                .all(|x| (x - x.round()).abs() < 1e-3)
+        })
+        .unwrap_or(100)
+}
+
 ///Count the number of negative or zero components in a vector within a tolerance `epsilon`
 pub fn num_negative_zero(vec: &Vec<f64>, epsilon: &f64) -> (i8, i8) {
     let mut num_negative = 0;
-- 
2.43.0


From 87f5677940dcd5fe6c58be88c64cc177a95ebf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:35 +0000
Subject: [PATCH 24/41] fix: list operations in a fixed order

The operations of a crystal were found and completed in hash order. When they
do not form a group within the tolerance, the completed group and therefore the
reported space group differed from run to run.
---
 src/analyzer.rs   | 6 +++---
 src/pointgroup.rs | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 672a8f2..0d6a602 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -13,7 +13,7 @@ use crate::utils::{
     cust_eq, decode_spg_op, nearest_image, normalize_frac_vectors, num_negative_zero,
 };
 use nalgebra::{Matrix3, Vector3};
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 
 #[derive(Debug, Clone)]
 pub struct SymmetryAnalyzer {
@@ -236,7 +236,7 @@ impl SymmetryAnalyzer {
         // 3. If the occurance number of a particular vector is equal to number of sites,
         //    choose it as canonical translation for the operation.
         // NOTE: These translations include both instrinsic translation and origin shift.
-        let mut op_trans_vecs: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
+        let mut op_trans_vecs: Vec<(Matrix3<i8>, Vec<Vector3<f64>>)> = Vec::new();
 
         let (_, ele_inds, ele_counts) = prim_structure.get_min_element();
 
@@ -266,7 +266,7 @@ impl SymmetryAnalyzer {
                 }
             }
 
-            op_trans_vecs.insert(op, translation_vectors);
+            op_trans_vecs.push((op, translation_vectors));
         }
 
         // Sort through candidate vectors and get counts
diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 7f6e434..695d528 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -75,7 +75,9 @@ impl PointGroup {
             new_ops = generated;
         }
 
-        let operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        // Keep the order independent of the hash order
+        let mut operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        operations_vec.sort_by(|a, b| a.iter().cmp(b.iter()));
 
         operations_vec
     }
-- 
2.43.0


From 730a9a7f5ee6fc0ce721af8729d2f83436956053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:40 +0000
Subject: [PATCH 25/41] fix: refuse structures whose species and coordinate
 lists differ in length

---
 src/structure.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/structure.rs b/src/structure.rs
index e9109f5..9739350 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -56,6 +56,10 @@ impl Structure {
         coords: Vec<Vector3<f64>>,
         coords_are_cart: bool,
     ) -> Structure {
+        if species.len() != coords.len() {
+            panic!("The number of species does not match the number of coordinates!");
+        }
+
         let frac_coords: Vec<Vector3<f64>>;
         let cart_coords: Vec<Vector3<f64>>;
 
-- 
2.43.0


From 5b1247ac25a1acda23d9620630a97684e588ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:50 +0000
Subject: [PATCH 26/41] fix: refuse lattices that are flat up to rounding

---
 src/structure.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 9739350..1c66443 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -396,9 +396,11 @@ impl Structure {
     /// Inverse of a lattice matrix
     fn invert_lattice(lattice: &Matrix3<f64>) -> Matrix3<f64> {
         // The SVD based pseudo inverse loses too many digits to convert coordinates with it
+        let box_volume: f64 = lattice.column_iter().map(|col| col.magnitude()).product();
+
         lattice
             .try_inverse()
-            .filter(|_| lattice.determinant().abs() > ZERO_TOL.powi(3))
+            .filter(|_| lattice.determinant().abs() > ZERO_TOL.powi(2) * box_volume)
             .expect("Crystal lattice is not invertible!")
     }
 }
-- 
2.43.0


From 5f0547507ae56c577c6ecb8079ec29311cf4911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:49 +0000
Subject: [PATCH 27/41] fix: keep sites of different species apart when folding
 cells

---
 src/reduce.rs    | 6 +++++-
 src/structure.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e257342..ccaba9f 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -199,7 +199,11 @@ impl Reducer {
 
         for (coord, specie) in temp_frac_coords.iter().zip(&temp_structure.species) {
             let mut eq = false;
-            for new_coord in new_frac_coords.iter() {
+            for (new_coord, new_specie) in new_frac_coords.iter().zip(&new_species) {
+                // Sites of different species are distinct at any distance
+                if specie != new_specie {
+                    continue;
+                }
                 let coord_diff = vec![nearest_image(&(coord - new_coord))];
                 let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
diff --git a/src/structure.rs b/src/structure.rs
index 1c66443..f083af6 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -186,7 +186,11 @@ impl Structure {
                     frac_coord = inv_trans_mat * frac_coord;
 
                     let mut eq = false;
-                    for new_coord in new_frac_coords.iter() {
+                    for (new_coord, new_specie) in new_frac_coords.iter().zip(&new_species) {
+                        // Sites of different species are distinct at any distance
+                        if specie != new_specie {
+                            continue;
+                        }
                         let coord_diff = vec![nearest_image(&(frac_coord - new_coord))];
                         let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
-- 
2.43.0


From b5ad908e9504ba1096bd00f2dacf4026fcfe224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:57 +0000
Subject: [PATCH 28/41] fix: refuse primitive cells that do not hold all sites

---
 src/reduce.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reduce.rs b/src/reduce.rs
index ccaba9f..44cb30c 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -220,6 +220,15 @@ impl Reducer {
             }
         }
 
+        // Translations which hold only within the tolerance may not agree with one another
+        let volume_ratio = new_lattice.determinant().abs() / prim_volume;
+
+        if !((volume_ratio - 1.0).abs() < 0.1)
+            || new_species.len() as f64 * num_translations != temp_structure.num_sites() as f64
+        {
+            panic!("Could not fold all sites into a primitive cell, the tolerance may be too large!");
+        }
+
         let mut prim_structure = Structure::new(new_lattice, new_species, new_frac_coords, false);
         prim_structure.normalize_coords(&self.dtol);
 
-- 
2.43.0


From 265828f4eca07abdb2c789418054e8a8c32ccd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:11 +0000
Subject: [PATCH 29/41] fix: refuse lattices and sites of wrong length from
 Python

Numbers beyond the ninth of a lattice and coordinates beyond the third of a
site were ignored silently.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ebf5856..a92bcb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,10 @@ fn generate_input_structure(
     coords: Vec<Vec<f64>>,
     coords_are_cart: bool,
 ) -> Structure {
+    if lattice.len() != 9 || coords.iter().any(|vec| vec.len() != 3) {
+        panic!("A lattice consists of nine numbers and a site of three coordinates!");
+    }
+
     let formatted_lattice = Matrix3::from_iterator(lattice.into_iter()); // Lattice needs to be column-major iterator
 
     let formatted_coords: Vec<Vector3<f64>> = coords
-- 
2.43.0


From b6f18237fe001e50b8cb5691488863cbe2fb8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:11 +0000
Subject: [PATCH 30/41] fix: refuse transformations that are singular up to
 rounding

Undefined or infinite entries and columns in one plane up to rounding gave
empty or undefined results instead of an error.
---
 src/pointgroup.rs | 4 ++--
 src/spacegroup.rs | 4 ++--
 src/structure.rs  | 4 ++--
 src/utils.rs      | 8 ++++++++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 695d528..7b7838d 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -1,5 +1,5 @@
 use crate::data::pointgroup::{PG_NUM_TO_GENERATOR_MATRICES, PG_NUM_TO_SYMBOL};
-use crate::utils::decode;
+use crate::utils::{decode, is_invertible};
 use itertools::iproduct;
 use nalgebra::{try_invert_to, Matrix3};
 use std::collections::HashSet;
@@ -40,7 +40,7 @@ impl PointGroup {
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
 
-        if !inverted {
+        if !inverted || !is_invertible(transformation_matrix) {
             panic!("Transformation matrix is not invertible!");
         }
 
diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index dd6c968..cb18bfc 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use crate::data::core::ZERO_TOL;
 use crate::symmop::SymmOp;
-use crate::utils::{normalize_frac_vectors, translation_period};
+use crate::utils::{is_invertible, normalize_frac_vectors, translation_period};
 use itertools::iproduct;
 use nalgebra::Vector3;
 use nalgebra::{try_invert_to, Matrix3};
@@ -44,7 +44,7 @@ impl SpaceGroup {
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
 
-        if !inverted {
+        if !inverted || !is_invertible(transformation_matrix) {
             panic!("Transformation matrix is not invertible!");
         }
 
diff --git a/src/structure.rs b/src/structure.rs
index f083af6..c0543bb 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -1,5 +1,5 @@
 use crate::data::core::ZERO_TOL;
-use crate::utils::{nearest_image, normalize_frac_vectors, translation_period};
+use crate::utils::{is_invertible, nearest_image, normalize_frac_vectors, translation_period};
 use itertools::Itertools;
 use itertools::{iproduct, izip};
 use nalgebra::{try_invert_to, Matrix3, Matrix3x4, Vector3};
@@ -147,7 +147,7 @@ impl Structure {
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
 
-        if !inverted {
+        if !inverted || !is_invertible(transformation_matrix) {
             panic!("Transformation matrix is not invertible!");
         }
 
diff --git a/src/utils.rs b/src/utils.rs
index 1c99cfe..b55eac4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,4 @@
+use crate::data::core::ZERO_TOL;
 use nalgebra::{Matrix3, Vector3};
 
 ///Normalizes fraction vectors components such that they are within `(-frac_tol, 1-frac_tol)`
@@ -19,6 +20,13 @@ pub fn nearest_image(diff: &Vector3<f64>) -> Vector3<f64> {
     diff.map(|x| x - x.round())
 }
 
+///Whether a matrix holds finite numbers only and its columns are not in one plane up to rounding
+pub fn is_invertible(mat: &Matrix3<f64>) -> bool {
+    let box_volume: f64 = mat.column_iter().map(|col| col.magnitude()).product();
+
+    box_volume.is_finite() && mat.determinant().abs() > ZERO_TOL.powi(2) * box_volume
+}
+
 ///Smallest multiple of the vectors of a lattice which are vectors of the transformed lattice as well.
 ///Outputs a cutoff if there is none.
 pub fn translation_period(inv_trans_mat: &Matrix3<f64>) -> usize {
-- 
2.43.0


From 5e595505811e107a9f5c5dd2f0b58f7c509c962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:11 +0000
Subject: [PATCH 31/41] fix: refuse rotations that are not integers of eight
 bits

Entries beyond 127 were cut off, and entries of a point group that are not
integers were rounded, which left other operations than those asked for.
---
 src/pointgroup.rs |  6 +++---
 src/spacegroup.rs |  4 ++--
 src/utils.rs      | 10 ++++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 7b7838d..9af657d 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -1,5 +1,5 @@
 use crate::data::pointgroup::{PG_NUM_TO_GENERATOR_MATRICES, PG_NUM_TO_SYMBOL};
-use crate::utils::{decode, is_invertible};
+use crate::utils::{decode, is_invertible, round_to_i8};
 use itertools::iproduct;
 use nalgebra::{try_invert_to, Matrix3};
 use std::collections::HashSet;
@@ -47,13 +47,13 @@ impl PointGroup {
         for op in self.operations.iter_mut() {
             let mut float_op = op.cast::<f64>();
             float_op = inv_trans_mat * float_op * transformation_matrix;
-            *op = Matrix3::from_iterator(float_op.iter().map(|&x| x.round() as i8));
+            *op = Matrix3::from_iterator(float_op.iter().map(round_to_i8));
         }
 
         for op in self.generators.iter_mut() {
             let mut float_op = op.cast::<f64>();
             float_op = inv_trans_mat * float_op * transformation_matrix;
-            *op = Matrix3::from_iterator(float_op.iter().map(|&x| x.round() as i8));
+            *op = Matrix3::from_iterator(float_op.iter().map(round_to_i8));
         }
     }
 
diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index cb18bfc..a1c7890 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use crate::data::core::ZERO_TOL;
 use crate::symmop::SymmOp;
-use crate::utils::{is_invertible, normalize_frac_vectors, translation_period};
+use crate::utils::{is_invertible, normalize_frac_vectors, round_to_i8, translation_period};
 use itertools::iproduct;
 use nalgebra::Vector3;
 use nalgebra::{try_invert_to, Matrix3};
@@ -70,7 +70,7 @@ impl SpaceGroup {
                     .iter()
                     .all(|val| (val - val.round()).abs() < ZERO_TOL)
             })
-            .map(|(float_rot, translation)| (float_rot.map(|x| x.round() as i8), translation))
+            .map(|(float_rot, translation)| (float_rot.map(|x| round_to_i8(&x)), translation))
             .collect();
 
         // Each of the remaining rotations is combined with all of the unit translations in the new cell
diff --git a/src/utils.rs b/src/utils.rs
index b55eac4..c01bf96 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -27,6 +27,16 @@ pub fn is_invertible(mat: &Matrix3<f64>) -> bool {
     box_volume.is_finite() && mat.determinant().abs() > ZERO_TOL.powi(2) * box_volume
 }
 
+///Entry of a rotation matrix as an integer. Panics for values that are not integers of eight bits.
+pub fn round_to_i8(val: &f64) -> i8 {
+    let rounded = val.round();
+
+    if !((val - rounded).abs() < 1e-3 && rounded == rounded as i8 as f64) {
+        panic!("Rotation matrix entry {} is not an integer of eight bits!", val);
+    }
+    rounded as i8
+}
+
 ///Smallest multiple of the vectors of a lattice which are vectors of the transformed lattice as well.
 ///Outputs a cutoff if there is none.
 pub fn translation_period(inv_trans_mat: &Matrix3<f64>) -> usize {
-- 
2.43.0


From 460c234be24766b97a4ddc17ff42adbf39d55f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:20 +0000
Subject: [PATCH 32/41] fix: refuse transformed cells with a changed
 composition

With a tolerance of zero sites were listed several times or species got lost,
and with a large one a primitive cell could hold too few sites of one species
and too many of another.
---
 src/reduce.rs    |  4 ++--
 src/structure.rs |  6 +++++-
 src/utils.rs     | 14 +++++++++++++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 44cb30c..f8c6fbe 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -1,7 +1,7 @@
 #![allow(clippy::neg_cmp_op_on_partial_ord)]
 use crate::data::core::ZERO_TOL;
 use crate::structure::Structure;
-use crate::utils::{cust_eq, nearest_image, normalize_frac_vectors, num_negative_zero};
+use crate::utils::{cust_eq, is_same_composition, nearest_image, normalize_frac_vectors, num_negative_zero};
 use nalgebra::{Matrix3, Matrix3x4, Vector3, Vector6};
 use std::collections::HashMap;
 use std::string::String;
@@ -224,7 +224,7 @@ impl Reducer {
         let volume_ratio = new_lattice.determinant().abs() / prim_volume;
 
         if !((volume_ratio - 1.0).abs() < 0.1)
-            || new_species.len() as f64 * num_translations != temp_structure.num_sites() as f64
+            || !is_same_composition(&temp_structure.species, &new_species, 1.0 / num_translations)
         {
             panic!("Could not fold all sites into a primitive cell, the tolerance may be too large!");
         }
diff --git a/src/structure.rs b/src/structure.rs
index c0543bb..0d1feff 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -1,5 +1,5 @@
 use crate::data::core::ZERO_TOL;
-use crate::utils::{is_invertible, nearest_image, normalize_frac_vectors, translation_period};
+use crate::utils::{is_invertible, is_same_composition, nearest_image, normalize_frac_vectors, translation_period};
 use itertools::Itertools;
 use itertools::{iproduct, izip};
 use nalgebra::{try_invert_to, Matrix3, Matrix3x4, Vector3};
@@ -210,6 +210,10 @@ impl Structure {
             mult += 1;
         }
 
+        if !is_same_composition(&self.species, &new_species, volume_ratio) {
+            panic!("Could not find all sites of the transformed cell!");
+        }
+
         self.lattice = new_lattice;
         self.frac_coords = new_frac_coords;
         self.coords = Self::get_cart_coords(&self.lattice, &self.frac_coords);
diff --git a/src/utils.rs b/src/utils.rs
index c01bf96..4aa6ba1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,11 +32,23 @@ pub fn round_to_i8(val: &f64) -> i8 {
     let rounded = val.round();
 
     if !((val - rounded).abs() < 1e-3 && rounded == rounded as i8 as f64) {
-        panic!("Rotation matrix entry {} is not an integer of eight bits!", val);
+        panic!(
+            "Rotation matrix entry {} is not an integer of eight bits!",
+            val
+        );
     }
     rounded as i8
 }
 
+///Whether each species occurs `ratio` times as often in the second list as in the first one
+pub fn is_same_composition(species: &[String], new_species: &[String], ratio: f64) -> bool {
+    let count = |list: &[String], specie| list.iter().filter(|&x| x == specie).count() as f64;
+
+    species
+        .iter()
+        .all(|specie| (count(new_species, specie) - count(species, specie) * ratio).abs() < 0.1)
+}
+
 ///Smallest multiple of the vectors of a lattice which are vectors of the transformed lattice as well.
 ///Outputs a cutoff if there is none.
 pub fn translation_period(inv_trans_mat: &Matrix3<f64>) -> usize {
-- 
2.43.0


From dfbd139119b754fab793f55baaa8791f2440738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:37 +0000
Subject: [PATCH 33/41] fix: refuse primitive cells whose volume does not fit
 the input cell

With a tolerance of the size of the atomic distances a cell was returned whose
volume is off by several percent.
---
 src/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index f8c6fbe..1ca22cd 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -223,7 +223,7 @@ impl Reducer {
         // Translations which hold only within the tolerance may not agree with one another
         let volume_ratio = new_lattice.determinant().abs() / prim_volume;
 
-        if !((volume_ratio - 1.0).abs() < 0.1)
+        if !((volume_ratio - 1.0).abs() < 1e-3)
             || !is_same_composition(&temp_structure.species, &new_species, 1.0 / num_translations)
         {
             panic!("Could not fold all sites into a primitive cell, the tolerance may be too large!");
-- 
2.43.0


From a5f4c6af50820325f60ac4b6a8074a65ab195cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:40 +0000
Subject: [PATCH 34/41] fix: refuse the reciprocal lattice of flat lattices

---
 src/structure.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 0d1feff..35bdd14 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -310,14 +310,7 @@ impl Structure {
 
     /// Reciprocal lattice of the structure
     pub fn reciprocal_lattice(&self) -> Matrix3<f64> {
-        let mut reciprocal_lattice = Matrix3::identity();
-        let inverted = try_invert_to(self.lattice, &mut reciprocal_lattice);
-
-        if !inverted {
-            panic!("Crystal lattice is not invertible!");
-        }
-
-        reciprocal_lattice.transpose() * 2.0 * PI
+        Self::invert_lattice(&self.lattice).transpose() * 2.0 * PI
     }
 
     /// Get the element with the smallest amount of sites, alongside element-site index and element-count maps.
-- 
2.43.0


From 50f0d571b9244f0357a8da1b83f2510a9fd337ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:40 +0000
Subject: [PATCH 35/41] fix: refuse more sites than can be counted

---
 src/structure.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 35bdd14..ebc5ce1 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -320,8 +320,11 @@ impl Structure {
         let temp_ele = self.species.clone();
 
         for (ele_ind, ele) in temp_ele.iter().enumerate() {
-            *type_count.entry(ele.clone()).or_insert(0) += 1;
-            ele_inds.entry(ele.clone()).or_insert(ele_ind as u16);
+            let count = type_count.entry(ele.clone()).or_insert(0);
+            *count = count.checked_add(1).expect("Too many sites!");
+            ele_inds
+                .entry(ele.clone())
+                .or_insert_with(|| u16::try_from(ele_ind).expect("Too many sites!"));
         }
 
         // Sorting ensures determinism when getting min
-- 
2.43.0


From 0b03c484ebb0a0fe6e941f3eced4b25cb87aae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:40 +0000
Subject: [PATCH 36/41] fix: order equally long vectors the same way in any
 unit of length

---
 src/reduce.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 1ca22cd..957d87d 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -551,7 +551,8 @@ impl Reducer {
         prim_volume: f64,
     ) -> Vec<Vector3<f64>> {
         // Keep the given order of equally long vectors regardless of rounding errors
-        cart_vecs.sort_by_key(|vec| (vec.magnitude() / ZERO_TOL).round() as i64);
+        let length_tol = ZERO_TOL * prim_volume.cbrt();
+        cart_vecs.sort_by_key(|vec| (vec.magnitude() / length_tol).round() as i64);
 
         let mut closest: Option<(f64, Vec<Vector3<f64>>)> = None;
 
-- 
2.43.0


From 697cc603c93e9663311cef80ef5e0c8b0527eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:44 +0000
Subject: [PATCH 37/41] fix: find the operations of long cells in reasonable
 time

---
 src/spacegroup.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index a1c7890..b5a337b 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -87,6 +87,13 @@ impl SpaceGroup {
 
         // All translations have been tried when `max_mult` is reached
         let max_mult = translation_period(&inv_trans_mat) + 1;
+
+        // Translations repeat along each axis after its own period
+        let periods = [0, 1, 2].map(|ind| {
+            let column = inv_trans_mat.column(ind).into_owned();
+            translation_period(&Matrix3::from_columns(&[column, column, column]))
+        });
+
         let mut mult = 2;
         while new_operations.len() < new_num_ops {
             if mult > max_mult {
@@ -95,7 +102,11 @@ impl SpaceGroup {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
-            for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
+            for (i, j, k) in iproduct!(
+                0..mult.min(periods[0]),
+                0..mult.min(periods[1]),
+                0..mult.min(periods[2])
+            ) {
                 translation_vecs.push(Vector3::new(i as f64, j as f64, k as f64))
             }
 
-- 
2.43.0


From ed8a5ba8002b3e7b54f155aa8a47ec9cfc224723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:44 +0000
Subject: [PATCH 38/41] fix: reduce very skewed cells instead of refusing them

---
 src/reduce.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 957d87d..f94e2b5 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -251,8 +251,8 @@ impl Reducer {
 
         let (mut a, mut b, mut c, mut xi, mut eta, mut zeta): (f64, f64, f64, f64, f64, f64);
 
-        for iteration in 0..101 {
-            if iteration == 100 {
+        for iteration in 0..10001 {
+            if iteration == 10000 {
                 panic!("Could not find Niggli reduced structure!")
             }
 
-- 
2.43.0


From d49e3c9a0a525cc5a0c03b773062468b994d5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:15 +0000
Subject: [PATCH 39/41] fix: Delaunay-reduce cells in any unit of length

Scalar products were compared with a fixed number. In small units of
length every product is below it and an unreduced cell was returned, in
very large units rounding errors are above it and the reduction never
ended. The number is now relative to the size of the cell.
---
 src/reduce.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index f94e2b5..7437528 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -456,12 +456,15 @@ impl Reducer {
 
         let mut count = 0;
 
+        // Scalar prods are proportional to the square of the unit of length
+        let prod_tol = ZERO_TOL * structure.volume().powf(2.0 / 3.0);
+
         // Iterate until all scalar prods are <= zero
-        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count <= 100 {
+        while scalar_prods.iter().any(|val| val > &prod_tol) && count <= 100 {
             let mut max_scalar_prod = &0.0;
             let mut max_index = 0_usize;
             for (i, entry) in scalar_prods.iter().enumerate() {
-                if entry > &ZERO_TOL && entry > max_scalar_prod {
+                if entry > &prod_tol && entry > max_scalar_prod {
                     max_scalar_prod = entry;
                     max_index = i;
                 }
@@ -486,7 +489,7 @@ impl Reducer {
             count += 1;
         }
 
-        if scalar_prods.iter().any(|val| val > &ZERO_TOL) {
+        if scalar_prods.iter().any(|val| val > &prod_tol) {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From 7d3182cfb3c9e64910e5e175ad6d5e0115495e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:01:04 +0000
Subject: [PATCH 40/41] fix: Delaunay-reduce very skewed cells instead of
 refusing them

One step takes a vector off another one once, so that cells with entries
of some tens already needed more than the 100 steps allowed.
---
 src/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 7437528..985e8c1 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -460,7 +460,7 @@ impl Reducer {
         let prod_tol = ZERO_TOL * structure.volume().powf(2.0 / 3.0);
 
         // Iterate until all scalar prods are <= zero
-        while scalar_prods.iter().any(|val| val > &prod_tol) && count <= 100 {
+        while scalar_prods.iter().any(|val| val > &prod_tol) && count <= 10000 {
             let mut max_scalar_prod = &0.0;
             let mut max_index = 0_usize;
             for (i, entry) in scalar_prods.iter().enumerate() {
-- 
2.43.0


From 5058b6ca1dfb2b7a16a081bdb7a11ffa5bd1716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:12:54 +0000
Subject: [PATCH 41/41] fix: enlarge structures along one axis without
 searching the others

Every translation of a large cube was tried even when only one axis is
enlarged, so that a cell a few hundred times as long took minutes.
Translations are now repeated along each axis up to its own period.
---
 src/structure.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index ebc5ce1..d937654 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -168,6 +168,13 @@ impl Structure {
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
         // All translations have been tried when `max_mult` is reached
         let max_mult = translation_period(&inv_trans_mat) + 1;
+
+        // Translations repeat along each axis after its own period
+        let periods = [0, 1, 2].map(|ind| {
+            let column = inv_trans_mat.column(ind).into_owned();
+            translation_period(&Matrix3::from_columns(&[column, column, column]))
+        });
+
         let mut mult = 2;
         while new_frac_coords.len() < num_new_sites {
             if mult > max_mult {
@@ -175,7 +182,11 @@ impl Structure {
             }
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
-            for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
+            for (i, j, k) in iproduct!(
+                0..mult.min(periods[0]),
+                0..mult.min(periods[1]),
+                0..mult.min(periods[2])
+            ) {
                 translation_vecs.push(Vector3::new(i as f64, j as f64, k as f64))
             }
 
-- 
2.43.0

