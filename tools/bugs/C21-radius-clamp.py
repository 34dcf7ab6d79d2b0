prop = 'C21'
edits = [('mypaint-brush.c', 'radius = CLAMP(expf(radius_log), ACTUAL_RADIUS_MIN, ACTUAL_RADIUS_MAX);',
 'radius = expf(CLAMP(radius_log, -2.0, 7.0));')]
needs = 'a brush with random radius near the upper or lower end of the range'
breaks = 'the radius of the dab exceeds 1000 pixels or falls below 0.2'
demo = r'''
#include <stdio.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-surface.h"
static int bad;
static int draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness,
                float softness, float eraser, float aspect, float angle, float lock, float colorize, float posterize, float num, float paint) {
  if (!(radius > 0.1999 && radius < 1000.1)) { printf("radius %f\n", radius); bad = 1; }
  return 1;
}
int main(void) {
  for (int k = -3; k <= 10; k++) {
    MyPaintSurface s;
    mypaint_surface_init(&s);
    s.draw_dab = draw;
    MyPaintBrush *b = mypaint_brush_new();
    mypaint_brush_from_defaults(b);
    mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_RADIUS_LOGARITHMIC, k * 0.7);
    mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_RADIUS_BY_RANDOM, 1.5);
    mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_ANTI_ALIASING, 0);
    for (int i = 0; i < 40; i++)
      mypaint_brush_stroke_to(b, &s, 10 + 3 * i, 40, 1, 0, 0, 0.03, 1, 0, 0, FALSE);
    mypaint_brush_unref(b);
  }
  return bad;
}
'''
