prop = 'C17'
edits = [('mypaint-brush.c', '''    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
      self->settings_value[i] = mypaint_mapping_calculate(self->settings[i], (inputs));
    }
''', '''    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
      // constant settings do not change within a stroke
      if (mypaint_mapping_is_constant(self->settings[i]) && STATE(self, STROKE_STARTED)) continue;
      self->settings_value[i] = mypaint_mapping_calculate(self->settings[i], (inputs));
    }
''')]
needs = 'a constant setting whose base value is changed between two events of one stroke'
breaks = 'the new base value has no effect until the stroke ends'
demo = r'''
#include <stdio.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-surface.h"
static float hard;
static int draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness,
                float softness, float eraser, float aspect, float angle, float lock, float colorize, float posterize, float num, float paint) {
  hard = softness;
  return 1;
}
int main(void) {
  MyPaintSurface s;
  mypaint_surface_init(&s);
  s.draw_dab = draw;
  MyPaintBrush *b = mypaint_brush_new();
  mypaint_brush_from_defaults(b);
  for (int i = 0; i < 40; i++) {
    float v = i < 20 ? 0.25 : 0.75;
    mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_SOFTNESS, v);
    hard = -1;
    mypaint_brush_stroke_to(b, &s, 10 + 3 * i, 40, 1, 0, 0, 0.03, 1, 0, 0, FALSE);
    if (hard >= 0 && hard != v) { printf("softness %f instead of %f\n", hard, v); return 1; }
  }
  mypaint_brush_unref(b);
  return 0;
}
'''
