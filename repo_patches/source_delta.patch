From 08f37a0ff5b9f3094c133f7a4796c66eae8af39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/23] fix: avoid NaN weight at the exact frame of the last
 keyframe

---
 src/runtime/model/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..981761b 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -138,7 +138,13 @@ impl Time {
             i: EasingHandle { x: t0_ix, y: t0_iy },
         };
         let hold = t0.hold;
-        let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        // At or before the first frame of the pair (in particular when both are
+        // the same keyframe) the division below would yield NaN.
+        let t = if frame <= t0.frame {
+            0.0
+        } else {
+            (frame - t0.frame) / (t1.frame - t0.frame)
+        };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From e474f8edf439e338fae77400ef952ede7a5d4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/23] fix: hold gradient stop offsets on hold keyframes

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..4c3905b 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -488,8 +488,8 @@ impl ColorStops {
         let mut stops: fixed::ColorStops = Default::default();
         for i in 0..self.count {
             let j = i * 5;
-            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
             let t = if hold { 0.0 } else { t };
+            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 9fe47cd5de9907af963f390c362ee82055921fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 03/23] fix: do not merge a group's geometry into the enclosing
 group's geometry

---
 src/runtime/render.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..7ac0a33 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -178,6 +178,8 @@ impl Renderer {
         // Keep track of our local top of the geometry stack. Any subsequent
         // draws are bounded by this.
         let geometry_start = self.batch.geometries.len();
+        // Never merge into geometry of an enclosing scope.
+        self.batch.drawn_geometry = geometry_start;
         // Also keep track of top of draw stack for repeater evaluation.
         let draw_start = self.batch.draws.len();
         // Top to bottom, collect geometries and draws.
-- 
2.43.0


From 2cdbd4e6cb5670d31f337aeace75f47969559e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 04/23] fix: keep fully trimmed geometry empty when more
 geometry follows

---
 src/runtime/render.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 7ac0a33..69affbc 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -378,6 +378,8 @@ impl Batch {
             for geometry in &mut self.geometries[geometry_start..] {
                 geometry.elements = 0..0;
             }
+            // The emptied ranges must not be extended by later geometry.
+            self.drawn_geometry = self.geometries.len();
             return;
         };
 
-- 
2.43.0


From f05a7d0bfac53f89ff92781321b1baf9aae8726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 05/23] fix: do not join separate sub-paths when trimming

---
 src/runtime/render.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 69affbc..abddcb9 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -416,6 +416,7 @@ impl Batch {
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
                 let mut need_move = true;
+                let mut last_end = None;
 
                 for seg in &segs {
                     let seg_len = seg.arclen(ACCURACY);
@@ -444,10 +445,13 @@ impl Batch {
 
                     if t_end > t_start + 1e-9 {
                         let sub = seg.subsegment(t_start..t_end);
-                        if need_move {
+                        // Start a new sub-path at the beginning and at gaps
+                        // between the sub-paths of the source.
+                        if need_move || last_end != Some(seg.start()) {
                             trimmed.move_to(sub.start());
                             need_move = false;
                         }
+                        last_end = Some(seg.end());
                         match sub {
                             PathSeg::Line(l) => trimmed.line_to(l.p1),
                             PathSeg::Quad(q) => trimmed.quad_to(q.p1, q.p2),
-- 
2.43.0


From 1384ef6cbd07a07d6815add6b24f0cd1a1ea1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 06/23] fix: apply the opacity of gradient fills and strokes

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..951dfe5 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -502,7 +502,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -550,7 +550,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From 7d8b67310934e4448a76737a9fb8158487004d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 07/23] fix: treat an omitted scale as 100 percent

---
 src/import/converters.rs | 14 +++++++++++---
 src/import/defaults.rs   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 951dfe5..0c1f018 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -225,7 +227,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -262,7 +264,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position: Position::Value(conv_pos_point(position_in)),
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From e8718ae5a0d179c53b1ad48c8425879b9f012165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 08/23] fix: load transforms without rotation, with split
 rotation or with split group position

---
 src/import/converters.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 0c1f018..5a3bad2 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -209,10 +209,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // Only the z axis is meaningful in two dimensions.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -240,18 +242,19 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // Only the z axis is meaningful in two dimensions.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -263,7 +266,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(
             value
                 .transform
-- 
2.43.0


From 09815988d213f5d4e5e6e5dd5db9a3012af179c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 09/23] fix: load documents that contain image assets

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 5a3bad2..8f04227 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -101,9 +101,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // Images are not supported yet, layers using them paint nothing.
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From c43371c86ff7f63f6ecd5c4e721a53a376b6f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 10/23] fix: load documents that use the add or hard mix blend
 mode

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 8f04227..1404439 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -812,8 +812,8 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        // There is no equivalent mix for these.
+        Add | HardMix => return None,
     })
 }
 
-- 
2.43.0


From 08280c583ba6d71488db44445d85f790f72c492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 11/23] fix: do not panic on a scalar keyframe without a value

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 1404439..902d5d4 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -826,7 +826,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or_default();
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From 566b4694070c36ff2d5c17cf82728123af286c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 12/23] fix: do not panic on easing handles with several or no
 components

---
 src/import/converters.rs | 50 +++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 902d5d4..b0427f3 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -367,26 +367,20 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
+fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> Option<EasingHandle> {
     let KeyframeBezierHandle {
         x_coordinate,
         y_coordinate,
     } = handle;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
-    EasingHandle { x, y }
+    Some(EasingHandle { x, y })
 }
 
 fn conv_gradient_colors(
@@ -427,8 +421,16 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
 
@@ -725,8 +727,16 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -835,8 +845,16 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: keyframe
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: keyframe
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 1db77e90e101c4e28007ba72da5e19d62d7f489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 13/23] fix: report the position of precomposition and matte
 layers to begin_layer_group

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index abddcb9..ce96451 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -116,7 +116,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     parent_transform,
                     alpha,
                     frame,
@@ -145,7 +145,7 @@ impl Renderer {
                 if let Some(asset_layers) = animation.assets.get(name) {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_layer_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -153,7 +153,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_layer_index,
                             transform,
                             alpha,
                             frame + frame_delta,
-- 
2.43.0


From c773f1e7548770d6225ba88875922dea409ca29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 14/23] fix: reset the mask buffer when a render starts

---
 src/runtime/render.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index ce96451..141da35 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -65,6 +65,7 @@ impl Renderer {
         scene: &mut impl RenderSink,
     ) {
         self.batch.clear();
+        self.mask_elements.clear();
         scene.push_clip_layer(
             transform,
             &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
-- 
2.43.0


From cdd91223e757ca577e2c20061283423046bf1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 15/23] fix: apply alpha when evaluating an animated gradient
 brush

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 4c3905b..db0a62f 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -529,7 +529,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0


From 6fa9f44661ed686e24c2b008e8bdcc277ee224b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 16/23] fix: apply easing to animated paths

---
 src/runtime/model/animated.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index db0a62f..5e32337 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -303,11 +303,12 @@ impl Spline {
     /// Evaluates the spline at the given frame and emits the elements
     /// to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) -> bool {
-        let Some(([ix0, ix1], t, _easing, hold)) = Time::frames_and_weight(&self.times, frame)
+        let Some(([ix0, ix1], t, easing, hold)) = Time::frames_and_weight(&self.times, frame)
         else {
             return false;
         };
         let t = if hold { 0.0 } else { t };
+        let t = 0.0.tween(&1.0, t, &easing);
         let (Some(from), Some(to)) = (self.values.get(ix0), self.values.get(ix1)) else {
             return false;
         };
-- 
2.43.0


From 41ec9b82b33ab1c132ec5d209047861d6f192df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 17/23] fix: paint each copy of a repeater only once

---
 src/runtime/render.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 141da35..e83d456 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -335,9 +335,9 @@ impl Batch {
             .extend(self.geometries.drain(geometry_start..));
         self.repeat_draws.extend(self.draws.drain(draw_start..));
         // Next, repeat the geometries and apply the offset transform
-        for geometry in self.repeat_geometries.iter() {
-            for i in 0..repeater.copies {
-                let transform = repeater.transform(i);
+        for i in 0..repeater.copies {
+            let transform = repeater.transform(i);
+            for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
                 geometry.transform *= transform;
                 self.geometries.push(geometry);
@@ -360,10 +360,9 @@ impl Batch {
             }
             for mut draw in self.repeat_draws.iter().cloned() {
                 draw.alpha *= alpha;
-                let count = draw.geometry.end - draw.geometry.start;
-                draw.geometry.start =
-                    geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;
-                draw.geometry.end = draw.geometry.start + count * repeater.copies;
+                let copy_start = i * self.repeat_geometries.len();
+                draw.geometry.start += copy_start;
+                draw.geometry.end += copy_start;
                 self.draws.push(draw);
             }
         }
-- 
2.43.0


From 9303124fdade5762ef30e45e359a182baabd20bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 18/23] fix: do not recurse forever into cyclic mattes and
 precompositions

---
 src/runtime/render.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index e83d456..4ca77f9 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -47,6 +47,9 @@ pub trait RenderSink {
 pub struct Renderer {
     batch: Batch,
     mask_elements: Vec<PathEl>,
+    /// Addresses of the layers that are currently being rendered. Mattes and
+    /// instances may refer back to one of them.
+    active_layers: Vec<usize>,
 }
 
 impl Renderer {
@@ -66,6 +69,7 @@ impl Renderer {
     ) {
         self.batch.clear();
         self.mask_elements.clear();
+        self.active_layers.clear();
         scene.push_clip_layer(
             transform,
             &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
@@ -103,6 +107,13 @@ impl Renderer {
         if !layer.frames.contains(&frame) {
             return;
         }
+        // We don't check for cycles at import time, so never render a layer
+        // inside itself.
+        let layer_address = std::ptr::from_ref(layer).addr();
+        if self.active_layers.contains(&layer_address) {
+            return;
+        }
+        self.active_layers.push(layer_address);
         scene.begin_layer_group(&layer.name, layer_index);
         let parent_transform = transform;
         let transform = self.compute_transform(layer_set, layer, parent_transform, frame);
@@ -173,6 +184,7 @@ impl Renderer {
             scene.pop_layer();
         }
         scene.end_layer_group();
+        self.active_layers.pop();
     }
 
     fn render_shapes(&mut self, shapes: &[Shape], transform: Affine, alpha: f64, frame: f64) {
-- 
2.43.0


From ce386ee4db64ea089fa5788bac0ad78b465e45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 19/23] fix: do not give layers without an index the id 0

---
 src/import/builders.rs   |  8 ++++----
 src/import/converters.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/import/builders.rs b/src/import/builders.rs
index 1b03aab..2143274 100644
--- a/src/import/builders.rs
+++ b/src/import/builders.rs
@@ -9,7 +9,7 @@ use crate::{runtime, schema};
 use peniko::{self, BlendMode, Compose, Mix};
 
 pub struct LayerSetupParams {
-    pub layer_index: usize,
+    pub layer_index: Option<usize>,
     pub matte_mode: Option<BlendMode>,
     pub matte_layer_index: Option<usize>,
 }
@@ -93,7 +93,7 @@ pub fn setup_precomp_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -176,7 +176,7 @@ pub fn setup_shape_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -240,7 +240,7 @@ pub fn setup_layer_base(
     }
 
     LayerSetupParams {
-        layer_index: source.layer.index.unwrap_or(0),
+        layer_index: source.layer.index,
         matte_mode,
         matte_layer_index,
     }
diff --git a/src/import/converters.rs b/src/import/converters.rs
index b0427f3..c5e7aba 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -30,17 +30,19 @@ fn process_layers(
 ) -> Vec<Layer> {
     idmap.clear();
 
-    let mut converted: Vec<(Layer, usize, Option<BlendMode>, Option<usize>)> = vec![];
+    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];
 
     for layer in source_layers {
         if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
             let index = converted.len();
-            idmap.insert(id, index);
+            if let Some(id) = id {
+                idmap.insert(id, index);
+            }
             converted.push((layer, id, matte_mode, matte_layer_index));
         }
     }
 
-    let matte_targets: HashMap<usize, usize> = converted
+    let matte_targets: HashMap<Option<usize>, usize> = converted
         .iter()
         .enumerate()
         .filter(|(_, (layer, _, _, _))| layer.is_mask)
@@ -139,7 +141,7 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
 
 pub fn conv_layer(
     source: &schema::layers::AnyLayer,
-) -> Option<(Layer, usize, Option<BlendMode>, Option<usize>)> {
+) -> Option<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> {
     let mut layer = Layer::default();
 
     let hidden = is_layer_hidden(source);
-- 
2.43.0


From 02abe056996ac426a845d7b6d278690bd2e52156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 20/23] fix: do not pass on negative opacity from overshooting
 easing

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 4ca77f9..c5811b9 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -137,7 +137,7 @@ impl Renderer {
             }
             scene.push_layer(mode, 1.0, parent_transform, &full_rect);
         }
-        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;
+        let alpha = alpha * layer.opacity.evaluate(frame).max(0.0) / 100.0;
         for mask in &layer.masks {
             mask.geometry.evaluate(frame, &mut self.mask_elements);
             scene.push_clip_layer(transform, &self.mask_elements.as_slice());
@@ -203,7 +203,7 @@ impl Renderer {
                         if let Some(GroupTransform { transform, opacity }) = group_transform {
                             (
                                 transform.evaluate(frame).into_owned(),
-                                opacity.evaluate(frame) / 100.0,
+                                opacity.evaluate(frame).max(0.0) / 100.0,
                             )
                         } else {
                             (Affine::IDENTITY, 1.0)
@@ -282,7 +282,7 @@ impl DrawData {
                 .as_ref()
                 .map(|stroke| stroke.evaluate(frame).into_owned()),
             brush: draw.brush.evaluate(1.0, frame).into_owned(),
-            alpha: alpha * draw.opacity.evaluate(frame) / 100.0,
+            alpha: alpha * draw.opacity.evaluate(frame).max(0.0) / 100.0,
             geometry,
         }
     }
-- 
2.43.0


From 114b9cfcb1b8c46431cbb0c3f34e6f88d14f0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 21/23] fix: bound the number of points of a polystar

A document with an enormous point count panicked with a capacity overflow
when it was loaded.
---
 src/runtime/model/animated.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 5e32337..532c89f 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -179,7 +179,9 @@ impl Star {
         use std::f64::consts::{FRAC_PI_2, TAU};
 
         let center = self.position.evaluate(frame);
-        let num_points = self.points.evaluate(frame).round() as usize;
+        // An absurd number of points must not exhaust memory.
+        const MAX_POINTS: usize = 10_000;
+        let num_points = (self.points.evaluate(frame).round() as usize).min(MAX_POINTS);
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From 6dfdaf81c230108ce3ed38a78b8dcace8f8a2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 22/23] fix: accept a null image sequence marker

Every other optional member may be null; a null "t" of an image asset made
the whole document fail to load.
---
 src/schema/assets/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/assets/image.rs b/src/schema/assets/image.rs
index d4a6f9b..929d9a0 100644
--- a/src/schema/assets/image.rs
+++ b/src/schema/assets/image.rs
@@ -39,8 +39,8 @@ pub fn seq_from_str<'de, D>(deserializer: D) -> Result<Option<bool>, D::Error>
 where
     D: Deserializer<'de>,
 {
-    let v = String::deserialize(deserializer)?;
-    if v == *"seq" {
+    let v = Option::<String>::deserialize(deserializer)?;
+    if v.as_deref() == Some("seq") {
         Ok(Some(true))
     } else {
         Ok(None)
-- 
2.43.0


From 4888be2e4eabd81eceedde0420b241d7c42a1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 23/23] fix: opacity stops of a gradient apply segment by
 segment

The alpha of a colour stop was the minimum over every pair of opacity
stops, so with three or more opacity stops a segment the stop is not in
could override the one it is in.
---
 src/import/converters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index c5e7aba..1a2b529 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -979,7 +979,7 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
 
             for stop in stops.iter_mut() {
                 let mut last: Option<(f64, f64)> = None;
-                for &(b, alpha_b) in alpha_stops.iter() {
+                for (i, &(b, alpha_b)) in alpha_stops.iter().enumerate() {
                     if let Some((a, alpha_a)) = last.take() {
                         let x = stop[0];
                         let t = normalize_to_range(a, b, x);
@@ -999,7 +999,10 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
                         }; // todo: this is a hack to get alpha rendering with a
                         // falloff similar to lottiefiles'
 
-                        stop[4] = stop[4].min(alpha_interp);
+                        // The last pair that starts at or before the stop decides.
+                        if i == 1 || x >= a {
+                            stop[4] = alpha_interp.min(1.0);
+                        }
                     }
                     last = Some((b, alpha_b));
                 }
-- 
2.43.0

