prop = 'C18'
edits = [('mypaint-brush.c', '''    if (self->max_bucket_used < bucket_index) {
      self->max_bucket_used = bucket_index;
    }
    return &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];''', '''    if (self->max_bucket_used == -1 || self->max_bucket_used > self->num_buckets) {
      self->max_bucket_used = bucket_index;
    }
    return &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];''')]
needs = 'a stroke whose smudge bucket grows while painting, followed by a reset'
breaks = 'the highest bucket used is not recorded, and a reset leaves it as it was'
demo = r'''
#include <stdio.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-fixed-tiled-surface.h"
int main(void) {
  MyPaintBrush *b = mypaint_brush_new_with_buckets(8);
  MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(mypaint_fixed_tiled_surface_new(128, 128));
  mypaint_brush_from_defaults(b);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_SMUDGE, 0.5);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_SMUDGE_BUCKET, 3);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_DABS_PER_ACTUAL_RADIUS, 4);
  for (int k = 0; k < 2; k++) {
    mypaint_brush_reset(b);
    for (int i = 0; i < 20; i++) {
      mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_SMUDGE_BUCKET, i / 5 + k);
      mypaint_brush_stroke_to(b, s, 10 + 3 * i, 40, 1, 0, 0, 0.01, 1, 0, 0, FALSE);
    }
  }
  mypaint_brush_reset(b);
  mypaint_brush_stroke_to(b, s, 10, 40, 1, 0, 0, 0.01, 1, 0, 0, FALSE);
  for (int k = 0; k < 8; k++) {
    float v[9];
    mypaint_brush_get_smudge_bucket_state(b, k, v, v+1, v+2, v+3, v+4, v+5, v+6, v+7, v+8);
    for (int i = 0; i < 9; i++)
      if (v[i] != 0) { printf("bucket %d entry %d is %f after the reset\n", k, i, v[i]); return 1; }
  }
  mypaint_surface_unref(s);
  mypaint_brush_unref(b);
  return 0;
}
'''
