From 5b084cea31659ea7f618211fcfe3e740c9f6ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 01/19] fix: collect albedo and normal colors exactly when a
 post processor needs them

---
 src/renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 6f8cf82..5652233 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -218,7 +218,7 @@ impl Renderer {
         let pixel_count = image_width * image_height;
         let samples_per_pixel = self.scene.render_config.samples_per_pixel;
         let needs_albedo_and_normal_colors =
-            !self.scene.render_config.needs_albedo_and_normal_colors();
+            self.scene.render_config.needs_albedo_and_normal_colors();
 
         let pixel_colors: Arc<Mutex<Vec<Vec3>>> =
             Arc::new(Mutex::new(vec![ZERO_VECTOR; pixel_count]));
-- 
2.43.0


From 8cc34613a23c8c4d49dbb9e458f2fd1aea0efd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 02/19] fix: render images that are one pixel wide or high

---
 src/renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 5652233..c2cbd33 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -260,8 +260,8 @@ impl Renderer {
 
                         let yi = ((image_height - 1) - y) * image_width;
                         for x in 0..image_width {
-                            let u = (x as f64 + random_normal_float()) / (image_width - 1) as f64;
-                            let v = (y as f64 + random_normal_float()) / (image_height - 1) as f64;
+                            let u = (x as f64 + random_normal_float()) / (image_width - 1).max(1) as f64;
+                            let v = (y as f64 + random_normal_float()) / (image_height - 1).max(1) as f64;
                             let ray = camera.get_ray(Uv::new(u as f32, v as f32));
                             let ray_color_res = self.ray_color(&ray, 0, 0.);
 
-- 
2.43.0


From 10531208a95051bae60ddfab8fd69aeafa1caba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 03/19] fix: keep the materials of obj models with more than
 128 materials apart

---
 src/loader/obj.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 59b4ef5..2ec6b57 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -54,7 +54,7 @@ impl Loader for Obj {
         let materials =
             materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
 
-        let mut mat_map = HashMap::from([(-1, default_material.clone())]);
+        let mut mat_map = HashMap::new();
         for (i, m) in materials.iter().enumerate() {
             let albedo_texture = match &m.diffuse_texture {
                 None => match m.diffuse {
@@ -72,7 +72,7 @@ impl Loader for Obj {
                     Some(texture::load_normal_texture(&bump_texture_path)?)
                 }
             };
-            mat_map.insert(i as i8, Lambertian::new(albedo_texture, normal_texture));
+            mat_map.insert(i, Lambertian::new(albedo_texture, normal_texture));
         }
 
         let mut triangles = Vec::new();
@@ -110,11 +110,7 @@ impl Loader for Obj {
                     )
                 };
 
-                let material_id = match mesh.material_id {
-                    None => -1,
-                    Some(id) => id as i8,
-                };
-                let material = match mat_map.get(&material_id) {
+                let material = match mesh.material_id.and_then(|id| mat_map.get(&id)) {
                     None => default_material.to_owned(),
                     Some(m) => m.to_owned(),
                 };
-- 
2.43.0


From 7857c1d2de094590eac6f7477f464089f690dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 04/19] fix: show the last row and column of image textures

---
 src/material/texture.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 7a875b8..3aca719 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -171,8 +171,8 @@ impl Texture for ImageMap {
         let u = uv.u.abs() % 1.;
         let v = 1. - uv.v.abs() % 1.;
 
-        let x = u * self.max_x;
-        let y = v * self.max_y;
+        let x = (u * (self.max_x + 1.)).min(self.max_x);
+        let y = (v * (self.max_y + 1.)).min(self.max_y);
 
         let pixel = self.image.get_pixel(x as u32, y as u32);
         rgb_to_vec3(pixel)
-- 
2.43.0


From 7ce3f5f06928f9fc861b278cad159b5c4a291559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 05/19] fix: recognize normal maps by the vectors their pixels
 encode

---
 src/material/texture.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 3aca719..00e48e7 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -8,7 +8,7 @@ use image::RgbImage;
 use simple_error::SimpleError;
 
 use crate::geo::Uv;
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{ONE_VECTOR, Vec3};
 use crate::material::texture::BumpMap::{Height, Normal};
 use crate::material::texture::Textures::{ImageMapType, SolidColorType};
 use crate::util::height_map;
@@ -70,7 +70,8 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
 
     for pixel in image.pixels() {
         let p = rgb_to_vec3(pixel);
-        if (p.length() - 1.).abs() < 0.05 {
+        let n: Vec3 = p * 2. - ONE_VECTOR;
+        if (n.length() - 1.).abs() < 0.05 {
             num_normal += 1;
         }
         if (p.x - p.y).abs() < 0.05 && (p.y - p.z).abs() < 0.05 {
-- 
2.43.0


From 068e6a88fc281be46c5bce199caeef2aeb595413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 06/19] fix: attenuate light by the distance travelled also for
 rays with non unit direction

---
 src/renderer/shader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/shader.rs b/src/renderer/shader.rs
index a1f3dc5..5cb9055 100644
--- a/src/renderer/shader.rs
+++ b/src/renderer/shader.rs
@@ -71,7 +71,7 @@ impl Shader for PathTracingShader {
             return AttenuatedColor::default();
         }
 
-        let total_ray_length = rec.ray_length + accumulated_ray_length;
+        let total_ray_length = rec.ray_length * ray.direction.length() + accumulated_ray_length;
         let ray_scatter = rec.material.scatter(ray, rec, &renderer.lights);
 
         match ray_scatter {
-- 
2.43.0


From e3eda8c2bb048e041f2095b93a7b9f9ceb7b8b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 07/19] fix: unit length bi-tangent for spheres of any radius

---
 src/hittable/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index aed43b8..6f6108d 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -87,7 +87,7 @@ impl Hittable for Sphere {
         let uv = calculate_sphere_uv(normal);
 
         let tangent = UNIT_Y.cross(n).unit();
-        let bi_tangent = n.cross(tangent);
+        let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
         if !front_face {
-- 
2.43.0


From ec426c0ba4c984877c724bdba6c013529a4ee6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 08/19] fix: find hits behind the ray origin in a bvh when the
 interval includes them

---
 src/geo/mod.rs      | 7 ++++++-
 src/hittable/bvh.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 7118d87..7882cbd 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -157,7 +157,12 @@ impl Aabb {
 
     /// Checks if the given ray hits the aabb
     pub fn hit(&self, r: &Ray) -> bool {
-        let mut t_min = 0.;
+        self.hit_from(r, 0.)
+    }
+
+    /// Checks if the given ray hits the aabb at the given length of the ray or further
+    pub(crate) fn hit_from(&self, r: &Ray, min_ray_length: f64) -> bool {
+        let mut t_min = min_ray_length;
         let mut t_max = f64::INFINITY;
 
         if r.direction_inverted.x.is_sign_negative() {
diff --git a/src/hittable/bvh.rs b/src/hittable/bvh.rs
index 5f72095..44a154f 100644
--- a/src/hittable/bvh.rs
+++ b/src/hittable/bvh.rs
@@ -164,7 +164,7 @@ fn sort_hittables_by_center(list: &mut [Hittables], center: f64, axis: u8) -> us
 
 impl Hittable for Bvh {
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        if !self.b_box.hit(r) {
+        if !self.b_box.hit_from(r, ray_length.min) {
             return None;
         }
 
-- 
2.43.0


From ead14eef467c63f499d4ffcf9eff7d8c93ff729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 09/19] fix: always give valid unit normals from normal maps

---
 src/material/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/material/mod.rs b/src/material/mod.rs
index be833ab..8fd4f63 100644
--- a/src/material/mod.rs
+++ b/src/material/mod.rs
@@ -385,7 +385,14 @@ impl Isotropic {
 
 fn transform_normal_by_map(normal_map: &Textures, onb: Onb, uv: Uv) -> Vec3 {
     let n: Vec3 = normal_map.color(uv) * 2. - ONE_VECTOR;
-    onb.local(n)
+    let normal = onb.local(n).unit();
+
+    // The map or the texture directions might not give a valid normal
+    if normal.length_squared().is_finite() {
+        normal
+    } else {
+        onb.normal
+    }
 }
 
 const SPHERE_PDF_VALUE: f64 = 1. / (4. * PI);
-- 
2.43.0


From 49699c1a6e0575994926ebdeea0b3dc4c0dc11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 10/19] fix: shortest distance between parallel rays of
 different direction lengths

---
 src/geo/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 7882cbd..6f92bbd 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -2,7 +2,7 @@
 use std::ops::{Add, Sub};
 use derive_more::Constructor;
 
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{Vec3, ALMOST_ZERO};
 use crate::util::interval::{combine_intervals, Interval, EMPTY_INTERVAL};
 
 pub mod transformation;
@@ -300,7 +300,7 @@ impl Ray {
         let od = self.origin - ray.origin;
 
         // In case the lines are parallel
-        if n.length() == 0. {
+        if n.length() <= ALMOST_ZERO * self.direction.length() * ray.direction.length() {
             self.direction.cross(od).length() / self.direction.length()
         } else {
             od.dot(n) / n.length()
-- 
2.43.0


From e02cc4cda6e32e18e1419a83a90f122c5c7e44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 11/19] fix: fog independent of the length of the ray direction

---
 src/hittable/constant_medium.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hittable/constant_medium.rs b/src/hittable/constant_medium.rs
index b4b004c..d739e42 100644
--- a/src/hittable/constant_medium.rs
+++ b/src/hittable/constant_medium.rs
@@ -36,7 +36,8 @@ impl Hittable for ConstantMedium {
         match self.boundary.hit(r, &UNIVERSE_INTERVAL) {
             None => None,
             Some(rec1) => {
-                let interval = Interval::new(rec1.ray_length + 0.0001, f64::INFINITY);
+                let r_length = r.direction.length();
+                let interval = Interval::new(rec1.ray_length + 0.0001 / r_length, f64::INFINITY);
                 match self.boundary.hit(r, &interval) {
                     None => None,
                     Some(rec2) => {
@@ -48,7 +49,6 @@ impl Hittable for ConstantMedium {
                         }
 
                         rec1_ray_length = rec1_ray_length.max(0.);
-                        let r_length = r.direction.length();
                         let distance_inside_boundary =
                             (rec2_ray_length - rec1_ray_length) * r_length;
                         let hit_distance =
-- 
2.43.0


From cef05eee72d38bb9ca2a3a8b9ca4905ec019adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 12/19] fix: sample sphere lights also from points inside of
 them

---
 src/hittable/sphere.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index 6f6108d..ee680ca 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -45,9 +45,8 @@ impl Hittable for Sphere {
         match hit {
             None => 0.,
             Some(_) => {
-                let cos_theta_max = (1.
-                    - self.radius * self.radius / (self.center - origin).length_squared())
-                .sqrt();
+                let cos_theta_max =
+                    cos_theta_max(self.radius, (self.center - origin).length_squared());
                 let solid_angle = 2. * PI * (1. - cos_theta_max);
 
                 1. / solid_angle
@@ -139,10 +138,20 @@ fn calculate_sphere_uv(point_on_sphere: Vec3) -> Uv {
     Uv::new(u as f32, v as f32)
 }
 
+/// Cosine of the largest angle between the direction to the center of a sphere and any point on it.
+/// Seen from inside, the sphere is in all directions
+fn cos_theta_max(radius: f64, distance_squared: f64) -> f64 {
+    if distance_squared < radius * radius {
+        -1.
+    } else {
+        (1. - radius * radius / distance_squared).sqrt()
+    }
+}
+
 fn random_to_sphere(radius: f64, distance_squared: f64) -> Vec3 {
     let r1 = random_normal_float();
     let r2 = random_normal_float();
-    let z = 1. + r2 * ((1. - radius * radius / distance_squared).sqrt() - 1.);
+    let z = 1. + r2 * (cos_theta_max(radius, distance_squared) - 1.);
 
     let phi = 2. * PI * r1;
     let zz = (1. - z * z).sqrt();
-- 
2.43.0


From 1df1807200692e0137ec628c4e218f97345ef6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 13/19] fix: hit triangles of any size

---
 src/hittable/triangle.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index c8a6334..49d45d2 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -24,6 +24,7 @@ pub struct Triangle {
     mat: Materials,
     b_box: Aabb,
     area: f64,
+    min_det_squared: f64,
 }
 
 impl Triangle {
@@ -92,6 +93,10 @@ impl Triangle {
             mat,
             b_box,
             area,
+            min_det_squared: ALMOST_ZERO
+                * ALMOST_ZERO
+                * v0v1.length_squared()
+                * v0v2.length_squared(),
         })
     }
 }
@@ -121,7 +126,7 @@ impl Hittable for Triangle {
         let det = self.v0v1.dot(p_vec);
 
         // No hit if the ray is parallel to the plane
-        if det.abs() < ALMOST_ZERO {
+        if det * det <= self.min_det_squared * r.direction.length_squared() {
             return None;
         }
 
-- 
2.43.0


From 23e9f9f9e809347369232bebe962096ecca5dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 14/19] fix: hit quads whatever the length of the ray direction

---
 src/hittable/quad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/quad.rs b/src/hittable/quad.rs
index d9e60d1..0890288 100644
--- a/src/hittable/quad.rs
+++ b/src/hittable/quad.rs
@@ -151,7 +151,7 @@ impl Hittable for Quad {
         let denom = self.normal.dot(r.direction);
 
         // No hit if the ray is parallel to the plane
-        if denom.abs() < ALMOST_ZERO {
+        if denom * denom <= ALMOST_ZERO * ALMOST_ZERO * r.direction.length_squared() {
             return None;
         }
 
-- 
2.43.0


From cccb7a4a11e8260b024fe2f1f1d0d0c8b1e62d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 15/19] fix: report malformed obj material files as errors

---
 src/loader/obj.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 2ec6b57..176124b 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -4,9 +4,10 @@
 //! Applies supplied default material if none in model
 use std::collections::HashMap;
 use std::error::Error;
+use std::panic::catch_unwind;
 
 use simple_error::SimpleError;
-use tobj::LoadOptions;
+use tobj::{LoadError, LoadOptions};
 
 use crate::geo::transformation::Transformer;
 use crate::geo::Uv;
@@ -48,9 +49,12 @@ impl Loader for Obj {
         };
 
         let filepath = format!("{}{}", self.path, self.filename);
-        let (models, materials) = tobj::load_obj(&filepath, &load_options).map_err(|_| {
-            SimpleError::new(format!("failed to load obj model from {}", &filepath))
-        })?;
+        // tobj panics on some malformed files
+        let (models, materials) = catch_unwind(|| tobj::load_obj(&filepath, &load_options))
+            .unwrap_or(Err(LoadError::ReadError))
+            .map_err(|_| {
+                SimpleError::new(format!("failed to load obj model from {}", &filepath))
+            })?;
         let materials =
             materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
 
-- 
2.43.0


From 98cd9039104a84ee140a240b43604851a303b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 16/19] fix: give the denoiser finite normals

---
 src/post/oidn.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 8dea516..80305fc 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -27,7 +27,7 @@ impl PostProcessor for OidnPostProcessor {
     ) -> Result<image::RgbImage, Box<dyn Error>> {
         let pixel_rgb = to_rgb_vec(pixel_colors, num_samples);
         let albedo_rgb = to_rgb_vec(albedo_colors, num_samples);
-        let normal_rgb = to_rgb_vec(normal_colors, num_samples);
+        let normal_rgb = to_average_vec(normal_colors, num_samples);
         let mut output = vec![0.0f32; pixel_rgb.len()];
 
         let device = oidn::Device::new();
@@ -136,3 +136,14 @@ fn to_rgb_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
         })
         .collect()
 }
+
+/// Normals have negative components, so they can not be gamma corrected as colors
+#[cfg(feature = "oidn-postprocessor")]
+fn to_average_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
+    vec.iter()
+        .flat_map(|v| {
+            let n = *v / num_samples as f64;
+            vec![n.x as f32, n.y as f32, n.z as f32]
+        })
+        .collect()
+}
-- 
2.43.0


From abdd58574ac0ef32cf9355e211fa93be6f981010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 17/19] fix: always give a valid random unit vector

---
 src/geo/vec3.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/geo/vec3.rs b/src/geo/vec3.rs
index e96816c..e285927 100644
--- a/src/geo/vec3.rs
+++ b/src/geo/vec3.rs
@@ -393,7 +393,14 @@ pub fn random_in_unit_sphere() -> Vec3 {
 
 /// Creates a random Vec3 that has the length of 1
 pub fn random_unit_vector() -> Vec3 {
-    random_in_unit_sphere().unit()
+    loop {
+        let p = random_in_unit_sphere();
+
+        // There is no direction to the center of the sphere
+        if p.length_squared() > 0. {
+            return p.unit();
+        }
+    }
 }
 
 /// Creates a random Vec3 that is shorter than 1 and that has a Z value of 0
-- 
2.43.0


From f159b6c36061003ba2c501bc8f6e6da2be4a7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 18/19] fix: give the denoiser valid colors also for negative
 color sums

---
 src/util/rgb_color.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/rgb_color.rs b/src/util/rgb_color.rs
index 4995248..b926ebe 100644
--- a/src/util/rgb_color.rs
+++ b/src/util/rgb_color.rs
@@ -22,9 +22,10 @@ pub fn to_float(col: Vec3, samples_per_pixel: u32) -> Vec3 {
     // Divide the color by the number of samples
     // and gamma-correct for gamma=2.0
     let scale = 1.0 / samples_per_pixel as f64;
-    let r = (scale * col.x).sqrt();
-    let g = (scale * col.y).sqrt();
-    let b = (scale * col.z).sqrt();
+    // Negative colors have no square root, they are as black as it gets
+    let r = (scale * col.x).max(0.).sqrt();
+    let g = (scale * col.y).max(0.).sqrt();
+    let b = (scale * col.z).max(0.).sqrt();
 
     Vec3::new(
         COLOR_INTENSITY_INTERVAL.clamp(r),
-- 
2.43.0


From aa7f8288c20da114ac09cd15b53748035c22c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 19/19] fix: give valid normals also for spheres of almost no
 size

---
 src/hittable/sphere.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index ee680ca..f9f0fd9 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -81,7 +81,11 @@ impl Hittable for Sphere {
         }
 
         let hit_point = r.at(root);
-        let n = hit_point - self.center;
+        let mut n = hit_point - self.center;
+        if n.length_squared() == 0. {
+            // Too small for the hit point to differ from the center
+            n = r.direction.neg();
+        }
         let mut normal = n.unit();
         let uv = calculate_sphere_uv(normal);
 
-- 
2.43.0

