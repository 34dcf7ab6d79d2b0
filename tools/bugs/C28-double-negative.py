prop = 'C28'
edits = [('mypaint-brush.c', 'float opaque = MAX(0.0, SETTING(self, OPAQUE));', 'float opaque = SETTING(self, OPAQUE);')]
needs = 'opacity and its multiplier both negative'
breaks = 'two negative opacities paint instead of nothing'
demo = r'''
#include <stdio.h>
#include <math.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-surface.h"
static int bad, n;
static int draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness,
                float softness, float eraser, float aspect, float angle, float lock, float colorize, float posterize, float num, float paint) {
  n++;
  if (opaque != 0) { printf("%f\n", opaque); bad = 1; }
  return 1;
}
int main(void) {
  MyPaintSurface s;
  mypaint_surface_init(&s);
  s.draw_dab = draw;
  MyPaintBrush *b = mypaint_brush_new();
  mypaint_brush_from_defaults(b);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_ANTI_ALIASING, 0);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE, -1);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, -3);
  for (int i = 0; i < 10; i++)
    mypaint_brush_stroke_to(b, &s, 10 + 5 * i, 40.3 + 3 * i, 1, 0, 0, 0.03, 1, 0, 0, FALSE);
  mypaint_brush_unref(b);
  return bad || !n;
}
'''
