From 170d4286e3ef5083f7396da6b365caf632ab5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 01/30] fix: LockAlpha_Paint divided 0 by 0 on nearly
 transparent pixels

Both rounded weights can be zero when the canvas alpha is tiny.  The
resulting NaN was then converted to an integer (undefined behaviour) and
stored as a colour.
---
 brushmodes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..1437a21 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -464,7 +464,9 @@ void draw_dab_pixels_BlendMode_LockAlpha_Paint (uint16_t * mask,
         rgba[2] = (opa_a*color_b + opa_b*rgba[2])/(1<<15);
         continue;
       }
-      float fac_a = (float)opa_a / (opa_a + opa_b * rgba[3] / (1<<15));
+      const uint32_t opa_sum = opa_a + opa_b * rgba[3] / (1<<15);
+      // both weights can round down to zero for nearly transparent pixels
+      float fac_a = opa_sum ? (float)opa_a / opa_sum : 0.0f;
       float fac_b = 1.0 - fac_a;
       float spectral_b[10] = {0};
       rgb_to_spectral((float)rgba[0] / rgba[3], (float)rgba[1] / rgba[3], (float)rgba[2] / rgba[3], spectral_b);
-- 
2.43.0


From da2e64a3d41c094533ff967f355bc6fadfa2f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 02/30] fix: posterize could lift premultiplied colors above
 alpha

Rounding to the nearest level can round up, which left pixels with color
channels larger than their alpha.
---
 brushmodes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brushmodes.c b/brushmodes.c
index 1437a21..c2906ee 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -149,6 +149,11 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
       uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
       uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
       uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
+
+      // Rounding up must not lift a premultiplied color above its alpha
+      post_r = MIN(post_r, rgba[3]);
+      post_g = MIN(post_g, rgba[3]);
+      post_b = MIN(post_b, rgba[3]);
       
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
-- 
2.43.0


From f797aa2770c617dfb99048aef299993bbda5cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 03/30] fix: colorize crashed or wrote out of range colors

The luma difference did not fit int16_t (white on black), and rounding of
the luma could make it equal to the smallest or largest channel, which
divided by zero, or leave channels just outside 0..1<<15.
---
 brushmodes.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index c2906ee..788e68b 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -214,7 +214,7 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
@@ -224,16 +224,20 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     int32_t lum = LUMA(r, g, b) / (1<<15);
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
-    if (cmin < 0) {
+    if (cmin < 0 && cmin < lum) {
         r = lum + (((r - lum) * lum) / (lum - cmin));
         g = lum + (((g - lum) * lum) / (lum - cmin));
         b = lum + (((b - lum) * lum) / (lum - cmin));
     }
-    if (cmax > (1<<15)) {
+    if (cmax > (1<<15) && cmax > lum) {
         r = lum + (((r - lum) * ((1<<15)-lum)) / (cmax - lum));
         g = lum + (((g - lum) * ((1<<15)-lum)) / (cmax - lum));
         b = lum + (((b - lum) * ((1<<15)-lum)) / (cmax - lum));
     }
+    // What remains out of band is rounding of the luma
+    r = CLAMP(r, 0, (1<<15));
+    g = CLAMP(g, 0, (1<<15));
+    b = CLAMP(b, 0, (1<<15));
 #ifdef HEAVY_DEBUG
     assert((0 <= r) && (r <= (1<<15)));
     assert((0 <= g) && (g <= (1<<15)));
-- 
2.43.0


From 0c47bbf21f6fc72877e726307ed6b436eaa8aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 04/30] fix: smudge bucket accessors used overlapping and
 negative bucket positions

---
 mypaint-brush.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..f6e6f0a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -459,8 +459,8 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -470,6 +470,12 @@ mypaint_brush_set_smudge_bucket_state(
     bucket[PREV_COL_B] = prev_b;
     bucket[PREV_COL_A] = prev_a;
     bucket[PREV_COL_RECENTNESS] = prev_color_recentness;
+    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+      self->min_bucket_used = bucket_index;
+    }
+    if (self->max_bucket_used < bucket_index) {
+      self->max_bucket_used = bucket_index;
+    }
     return TRUE;
   }
   return FALSE;
@@ -491,8 +497,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
-- 
2.43.0


From 3e41a104ae4f732676a06f0604d975bb6857b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 05/30] fix: reset cleared the wrong part of the smudge bucket
 array

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index f6e6f0a..2d602f9 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
-- 
2.43.0


From c06ae60ac1ba0b84d8550cae4b514191ec74c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 06/30] fix: smudge bucket range was uninitialized for brushes
 without buckets

---
 mypaint-brush.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 2d602f9..79a61f6 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -208,6 +208,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
-- 
2.43.0


From 19a171db0ca56dd90ba7df0aa1db24a4ca957952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 07/30] fix: first dab used uninitialized or outdated gridmap
 settings

---
 mypaint-brush.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 79a61f6..016dd3b 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -153,6 +153,10 @@ brush_reset(MyPaintBrush *self)
     // Set the flip state such that it will be at "1" for the first
     // dab, and then switch between -1 and 1 for the subsequent dabs.
     STATE(self, FLIP) = -1;
+    // Some settings are read before they are first calculated, start from their base values
+    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
+      self->settings_value[i] = mypaint_mapping_get_base_value(self->settings[i]);
+    }
     // Clear smudge buckets
     if (self->smudge_buckets) {
       int min_index = self->min_bucket_used;
-- 
2.43.0


From fee8a55ea6e54dac794516e1e3c6365917c8a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 08/30] fix: mypaint_brush_get_mapping_n did not check the
 setting id

---
 mypaint-brush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 016dd3b..d79d1a6 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -370,6 +370,7 @@ mypaint_brush_set_mapping_n(MyPaintBrush *self, MyPaintBrushSetting id, MyPaintB
 int
 mypaint_brush_get_mapping_n(MyPaintBrush *self, MyPaintBrushSetting id, MyPaintBrushInput input)
 {
+    assert (id < MYPAINT_BRUSH_SETTINGS_COUNT);
     return mypaint_mapping_get_n(self->settings[id], input);
 }
 
-- 
2.43.0


From 63ddb6df6803ac055a6542a569d3015c252e723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 09/30] fix: malformed brush files aborted or crashed the
 program

---
 mypaint-brush.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index d79d1a6..2b5e4f8 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1574,6 +1574,30 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// Checks that the points can be represented by a mapping
+static gboolean
+mapping_points_are_valid(json_object *points)
+{
+    const int number_of_points = json_object_array_length(points);
+    if (number_of_points == 1 || number_of_points > 64) {
+        return FALSE;
+    }
+    float previous_x = 0;
+    for (int i = 0; i < number_of_points; i++) {
+        json_object *point = json_object_array_get_idx(points, i);
+        if (!json_object_is_type(point, json_type_array)) {
+            return FALSE;
+        }
+        const float x = json_object_get_double(json_object_array_get_idx(point, 0));
+        const float y = json_object_get_double(json_object_array_get_idx(point, 1));
+        if (!isfinite(x) || !isfinite(y) || (i > 0 && x < previous_x)) {
+            return FALSE;
+        }
+        previous_x = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1607,6 +1631,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong inputs type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1621,6 +1649,12 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
+        if (!mapping_points_are_valid(input_obj)) {
+            fprintf(stderr, "Warning: Invalid mapping points for setting: %s input: %s\n",
+                    setting_name, input_name);
+            return FALSE;
+        }
+
         const int number_of_mapping_points = json_object_array_length(input_obj);
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
@@ -1662,6 +1696,11 @@ update_brush_from_json_object(MyPaintBrush *self)
         return FALSE;
     }
 
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong 'settings' type for brush\n");
+        return FALSE;
+    }
+
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
       updated_any |= update_brush_setting_from_json_object(self, setting_name, setting_obj);
-- 
2.43.0


From 7a34f68b8ace9054250c70cf312607f015cd2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 10/30] fix: surface operations that are not implemented were
 uninitialized pointers

---
 mypaint-surface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mypaint-surface.c b/mypaint-surface.c
index bee8417..d91719f 100644
--- a/mypaint-surface.c
+++ b/mypaint-surface.c
@@ -67,6 +67,12 @@ mypaint_surface_get_color(MyPaintSurface *self,
 void
 mypaint_surface_init(MyPaintSurface *self)
 {
+    self->draw_dab = NULL;
+    self->get_color = NULL;
+    self->begin_atomic = NULL;
+    self->end_atomic = NULL;
+    self->destroy = NULL;
+    self->save_png = NULL;
     self->refcount = 1;
 }
 
-- 
2.43.0


From edfd189f4f04104cf9bc88fa720a35638cfba1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 11/30] fix: number of dirty rectangles was uninitialized in
 new surfaces

---
 mypaint-tiled-surface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..c4b9016 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -949,6 +949,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->threadsafe_tile_requests = FALSE;
 
     self->num_bboxes = NUM_BBOXES_DEFAULT;
+    self->num_bboxes_dirtied = 0;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
 
-- 
2.43.0


From 7f93c8120393a124d38d92f487d1937c334a31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 12/30] fix: a dab that draws nothing discarded the dirty
 rectangles of earlier dabs

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index c4b9016..65a16b4 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
-- 
2.43.0


From 755cdf464403124efdfcfcb0c3a8ef05a9e968ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 13/30] fix: snowflake symmetry could write past the last dirty
 rectangle

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 65a16b4..507274c 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -763,7 +763,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From 6ab7bce20527ced868cede781476b58d636da3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 14/30] fix: failed tile requests leaked queued dabs and were
 never ended

---
 mypaint-tiled-surface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 507274c..1e12177 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,12 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        // The operations cannot be carried out, but must not stay behind in the queue
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
+        mypaint_tiled_surface_tile_request_end(self, &request_data);
         return;
     }
 
@@ -870,6 +876,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
         uint16_t * rgba_p = request_data.buffer;
         if (!rgba_p) {
           printf("Warning: Unable to get tile!\n");
+          mypaint_tiled_surface_tile_request_end(self, &request_data);
           break;
         }
 
-- 
2.43.0


From 441f2f687cb6c99d2290ca813796342994c10c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 15/30] fix: freeing a non-empty fifo leaked the queued items

---
 fifo.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..a7256c4 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
@@ -79,6 +80,7 @@ void fifo_push(struct fifo* queue, void* data)
     else
         queue->last->next = item;
     queue->last = item;
+    queue->item_count++;
 }
 
 /*
-- 
2.43.0


From 9543b451026b3c870970f6a0170d0c09f52b27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 16/30] fix: sampling colors with certain huge radii divided by
 zero

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 1e12177..6edc5d9 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -858,7 +858,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     //
     // For really small radii we'll sample every pixel
     // in the dab to avoid biasing.
-    const int sample_interval = radius <= 2.0f ? 1 : (int)(radius * 7);
+    const int sample_interval = radius <= 2.0f ? 1 : (int)MIN(radius * 7, (float)UINT16_MAX);
     const float random_sample_rate = 1.0f / (7 * radius);
 
     #pragma omp parallel for schedule(static) if(self->threadsafe_tile_requests && tiles_n > 3)
-- 
2.43.0


From 412635ed8ddb59d9145afd207943c88a8fdb011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 17/30] fix: dabs with non-finite or unrepresentable position
 reached tile enumeration

---
 mypaint-tiled-surface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 6edc5d9..84ad9bd 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -632,6 +632,11 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
     OperationDataDrawDab op_struct;
     OperationDataDrawDab *op = &op_struct;
 
+    // don't bother with dabs whose position or extent cannot be represented
+    const float coord_limit = 1 << 29;
+    if (!isfinite(x) || !isfinite(y) || !isfinite(radius)) return FALSE;
+    if (fabsf(x) > coord_limit || fabsf(y) > coord_limit || radius > coord_limit) return FALSE;
+
     op->x = x;
     op->y = y;
     op->radius = radius;
-- 
2.43.0


From bbe2b6f9a12ca87caa980f30443568b3185982ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 18/30] fix: adding to a flushed tile aborted when every tile
 was dirty

---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..7ef8e7d 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If the list is still full, it contains every tile including this one
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 5c262a48e35c817889e0781ad5bb4c40b6a7fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 19/30] fix: smudge colors of all brushes were mixed in one
 shared buffer

---
 helpers.c       | 7 +++----
 helpers.h       | 2 +-
 mypaint-brush.c | 6 ++++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/helpers.c b/helpers.c
index d0a227c..fc9a311 100644
--- a/helpers.c
+++ b/helpers.c
@@ -561,9 +561,10 @@ spectral_to_rgb (float *spectral, float *rgb_) {
 
 //function to make it easy to blend two spectral colors via weighted geometric mean
 //a is the current smudge state, b is the get_color or brush color
-float * mix_colors(float *a, float *b, float fac, float paint_mode)
+// the mixed color is written to result (4 floats)
+void mix_colors(float *a, float *b, float fac, float paint_mode, float *result)
 {
-  static float result[4] = {0};  
+  result[0] = result[1] = result[2] = 0;
   
   float opa_a = fac;
   float opa_b = 1.0-opa_a;
@@ -601,8 +602,6 @@ float * mix_colors(float *a, float *b, float fac, float paint_mode)
       result[i] = result[i] * paint_mode + (1-paint_mode) * (a[i] * opa_a + b[i] * opa_b);
     }
   }
-
-  return result;
 }
 
 #endif //HELPERS_C
diff --git a/helpers.h b/helpers.h
index 0cb252c..d457627 100644
--- a/helpers.h
+++ b/helpers.h
@@ -41,7 +41,7 @@ float mod_arith(float a, float N);
 
 float smallest_angular_difference(float angleA, float angleB);
 
-float * mix_colors(float *a, float *b, float fac, float paint_mode);
+void mix_colors(float *a, float *b, float fac, float paint_mode, float *result);
 
 void
 rgb_to_spectral (float r, float g, float b, float *spectral_);
diff --git a/mypaint-brush.c b/mypaint-brush.c
index 2b5e4f8..ef6bcad 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -996,7 +996,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
                                         smudge_bucket[SMUDGE_A]};
           float sampled_color[4] = {r, g, b, a};
 
-          float* smudge_new = mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor);
+          float smudge_new[4];
+          mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor, smudge_new);
           smudge_bucket[SMUDGE_R] = smudge_new[SMUDGE_R];
           smudge_bucket[SMUDGE_G] = smudge_new[SMUDGE_G];
           smudge_bucket[SMUDGE_B] = smudge_new[SMUDGE_B];
@@ -1032,7 +1033,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               float smudge_color[4] = {smudge_bucket[SMUDGE_R], smudge_bucket[SMUDGE_G], smudge_bucket[SMUDGE_B],
                                        smudge_bucket[SMUDGE_A]};
               float brush_color[4] = {*color_r, *color_g, *color_b, 1.0};
-              float* color_new = mix_colors(smudge_color, brush_color, smudge_factor, paint_factor);
+              float color_new[4];
+              mix_colors(smudge_color, brush_color, smudge_factor, paint_factor, color_new);
               *color_r = color_new[SMUDGE_R];
               *color_g = color_new[SMUDGE_G];
               *color_b = color_new[SMUDGE_B];
-- 
2.43.0


From 5d594f6b8f772e4199a7728f39f7e393b36995e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 20/30] fix: color sampling depended on the global random
 generator

---
 brushmodes.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index 788e68b..fe4f4f5 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -588,13 +588,17 @@ void get_color_pixels_accumulate (uint16_t * mask,
   // Ideally, the selection of pixels to be sampled should
   // be determined before this function is called.
   uint16_t interval_counter = 0;
-  const int random_sample_threshold = (int)(random_sample_rate * RAND_MAX);
+  // Local generator: the result must not depend on, or disturb, other users of rand()
+  const uint32_t random_max = 0x7fff;
+  const uint32_t random_sample_threshold = (uint32_t)(random_sample_rate * random_max);
+  uint32_t random_state = 1;
 
   while (1) {
     for (; mask[0]; mask++, rgba+=4) {
       // Sample every n pixels, and a percentage of the rest.
       // At least one pixel (the first) will always be sampled.
-      if (interval_counter == 0 || rand() < random_sample_threshold) {
+      random_state = random_state * 1103515245u + 12345u;
+      if (interval_counter == 0 || ((random_state >> 16) & random_max) < random_sample_threshold) {
 
         float a = (float)mask[0] * rgba[3] / (1 << 30);
         float alpha_sums = a + *sum_a;
-- 
2.43.0


From 50ea60589aafe7602c0c8ced47945a676f0f1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 21/30] fix: position after a reset depended on the previous
 stroke

---
 mypaint-brush.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ef6bcad..dca7378 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1405,7 +1405,9 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
       }
 
-      const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+      // no smoothing towards the position of a stroke that is about to be forgotten
+      const gboolean resetting = dtime > max_dtime || self->reset_requested;
+      const float fac = resetting ? 1.0 : 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
       x = STATE(self, X) + (x - STATE(self, X)) * fac;
       y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
     }
-- 
2.43.0


From 315606021072ad414acbf1954b72e47c7453482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 22/30] fix: anti-aliasing could make hardness negative or
 radius infinite

---
 mypaint-brush.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index dca7378..dc932c8 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1225,8 +1225,11 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       // Using Equation 1:
       float radius_new = (min_fadeout_in_pixels/(1.0 - hardness_new));
 
-      hardness = hardness_new;
-      radius = radius_new;
+      hardness = MAX(hardness_new, 0.0f);
+      // a fadeout too small to be noticed leaves the radius as it is
+      if (hardness_new < 1.0f) {
+        radius = radius_new;
+      }
     }
 
     // snap to pixel
-- 
2.43.0


From 4e1fcc08e5f1c8ac9362862f60cb64e21774fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 23/30] fix: mypaint_tiled_surface_get_alpha was declared but
 not defined

---
 mypaint-tiled-surface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 84ad9bd..ba31614 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -148,6 +148,12 @@ mypaint_tiled_surface_end_atomic(MyPaintTiledSurface *self, MyPaintRectangles *r
     }
 }
 
+float
+mypaint_tiled_surface_get_alpha (MyPaintTiledSurface *self, float x, float y, float radius)
+{
+    return mypaint_surface_get_alpha(&self->parent, x, y, radius);
+}
+
 /**
  * mypaint_tiled_surface_tile_request_start:
  *
-- 
2.43.0


From 32433bec0417fb09adc5563d2a9d023f39af1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 24/30] fix: size computation of fixed surfaces overflowed,
 failure leaked resources

---
 mypaint-fixed-tiled-surface.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..f7b8a74 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -1,6 +1,6 @@
 #include <stdlib.h>
 #include <assert.h>
-#include <math.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -108,18 +108,23 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     // MyPaintSurface vfuncs
     self->parent.parent.destroy = free_simple_tiledsurf;
 
-    const int tiles_width = ceil((float)width / tile_size_pixels);
-    const int tiles_height = ceil((float)height / tile_size_pixels);
+    const int tiles_width = (width - 1) / tile_size_pixels + 1;
+    const int tiles_height = (height - 1) / tile_size_pixels + 1;
     const size_t tile_size = tile_size_pixels * tile_size_pixels * 4 * sizeof(uint16_t);
-    const size_t buffer_size = tiles_width * tiles_height * tile_size;
+    const size_t row_size = tiles_width * tile_size;
 
-    assert(tile_size_pixels*tiles_width >= width);
-    assert(tile_size_pixels*tiles_height >= height);
-    assert(buffer_size >= width*height*4*sizeof(uint16_t));
+    if ((size_t)tiles_height > SIZE_MAX / row_size) {
+        fprintf(stderr, "CRITICAL: unable to address a surface of %d x %d pixels", width, height);
+        mypaint_tiled_surface_destroy(&self->parent);
+        free(self);
+        return NULL;
+    }
+    const size_t buffer_size = tiles_height * row_size;
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
     if (!buffer) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
+        mypaint_tiled_surface_destroy(&self->parent);
         free(self);
         return NULL;
     }
-- 
2.43.0


From b8626dcf6f6eee4826a3f2dc38ba9290ab56ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 25/30] fix: fixed surface used its scratch tile without
 checking the allocation

---
 mypaint-fixed-tiled-surface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index f7b8a74..8a89e07 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -133,6 +133,13 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
     self->null_tile = (uint16_t *)malloc(tile_size);
+    if (!self->null_tile) {
+        fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", tile_size);
+        free(buffer);
+        mypaint_tiled_surface_destroy(&self->parent);
+        free(self);
+        return NULL;
+    }
     self->tiles_width = tiles_width;
     self->tiles_height = tiles_height;
     self->height = height;
-- 
2.43.0


From 1fe900360c4d674e90e34cca312118ea0f65fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 26/30] fix: concurrent tile requests of a gegl surface could
 lose extents

---
 gegl/mypaint-gegl-surface.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 0057d42..83bef47 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -76,9 +76,13 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
     } else {
         read_write_flags = GEGL_BUFFER_READWRITE;
 
-        // Extend the bounding box
-        gegl_rectangle_bounding_box(&self->extent_rect, &self->extent_rect, &tile_bbox);
-        gboolean success = gegl_buffer_set_extent(self->buffer, &self->extent_rect);
+        // Extend the bounding box, which is shared by concurrent requests
+        gboolean success;
+#pragma omp critical
+        {
+            gegl_rectangle_bounding_box(&self->extent_rect, &self->extent_rect, &tile_bbox);
+            success = gegl_buffer_set_extent(self->buffer, &self->extent_rect);
+        }
         g_assert(success);
     }
 
-- 
2.43.0


From ebba35da02d1a99c4dff176d85bd03ba58d5d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 27/30] fix: read-only tile requests of gegl surfaces wrote to
 the buffer

---
 gegl/mypaint-gegl-surface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 83bef47..1d65798 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -137,14 +137,16 @@ tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request
             request->context = NULL;
         }
     } else {
-        // Push our linear buffer back into the GeglBuffer
-        const int tile_size = tiled_surface->tile_size;
-        GeglRectangle tile_bbox;
-
         g_assert(request->buffer);
-        gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
-        gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
-                        request->buffer, GEGL_AUTO_ROWSTRIDE);
+        if (!request->readonly) {
+            // Push our linear buffer back into the GeglBuffer
+            const int tile_size = tiled_surface->tile_size;
+            GeglRectangle tile_bbox;
+
+            gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
+            gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
+                            request->buffer, GEGL_AUTO_ROWSTRIDE);
+        }
         gegl_free(request->buffer);
     }
 
-- 
2.43.0


From 7c1b757f864e94ce0e24a908416f4f575349fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 28/30] fix: huge numbers of symmetry lines overflowed the
 matrix storage size

---
 mypaint-symmetry.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-symmetry.c b/mypaint-symmetry.c
index 76c870e..bfaa54a 100644
--- a/mypaint-symmetry.c
+++ b/mypaint-symmetry.c
@@ -5,6 +5,8 @@
 #include <stdlib.h>
 
 #define DEFAULT_NUM_MATRICES 16
+// Larger numbers are not exact in a float, and their storage sizes would not fit an int
+#define MAX_NUM_LINES (1 << 24)
 
 void
 allocation_failure_warning(int num)
@@ -154,7 +156,7 @@ mypaint_symmetry_set_pending(
     data->state_pending.center_x = center_x;
     data->state_pending.center_y = center_y;
     data->state_pending.type = symmetry_type;
-    data->state_pending.num_lines = MAX(2, rot_symmetry_lines);
+    data->state_pending.num_lines = CLAMP(rot_symmetry_lines, 2, MAX_NUM_LINES);
     data->state_pending.angle = symmetry_angle;
 
     data->pending_changes = TRUE;
-- 
2.43.0


From b9b4a40d888fc08102ad60b16f9f812d6cecc2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 29/30] fix: end_atomic wrote in front of an empty rectangle
 array

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index ba31614..0c5b67e 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -120,7 +120,7 @@ mypaint_tiled_surface_end_atomic(MyPaintTiledSurface *self, MyPaintRectangles *r
 
     operation_queue_clear_dirty_tiles(self->operation_queue);
 
-    if (roi) {
+    if (roi && roi->num_rectangles > 0) {
         const int roi_rects = roi->num_rectangles;
         const int num_dirty = self->num_bboxes_dirtied;
         // Clear out the input rectangles that will be overwritten
-- 
2.43.0


From 57d7a0ebdcef29821c376b93474be28326c88b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:27 +0000
Subject: [PATCH 30/30] fix: clamp the number of posterization levels before
 converting it to an integer

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 0c5b67e..deb553d 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -654,7 +654,7 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
     op->lock_alpha = CLAMP(lock_alpha, 0.0f, 1.0f);
     op->colorize = CLAMP(colorize, 0.0f, 1.0f);
     op->posterize = CLAMP(posterize, 0.0f, 1.0f);
-    op->posterize_num= CLAMP(ROUND(posterize_num * 100.0), 1, 128);
+    op->posterize_num= ROUND(CLAMP(posterize_num * 100.0, 1, 128));
     op->paint = CLAMP(paint, 0.0f, 1.0f);
     if (op->radius < 0.1f) return FALSE; // don't bother with dabs smaller than 0.1 pixel
     if (op->hardness == 0.0f) return FALSE; // infintly small center point, fully transparent outside
-- 
2.43.0

