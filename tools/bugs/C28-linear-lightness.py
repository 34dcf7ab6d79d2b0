prop = 'C28'
edits = [('mypaint-brush.c', '    // linearize\n    if (linear && using_color_dynamics) {', '    // linearize\n    if (linear && using_hsv_dynamics) {')]
needs = 'a lightness or HSL saturation change in linear mode, without HSV changes'
breaks = 'the changed colour is not converted back to linear light'
demo = r'''
#include <stdio.h>
#include <math.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-surface.h"
static int bad, n;
static int draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness,
                float softness, float eraser, float aspect, float angle, float lock, float colorize, float posterize, float num, float paint) {
  n++;
  if (r > 0.5f) { printf("%f %f %f\n", r, g, b); bad = 1; }
  return 1;
}
int main(void) {
  MyPaintSurface s;
  mypaint_surface_init(&s);
  s.draw_dab = draw;
  MyPaintBrush *b = mypaint_brush_new();
  mypaint_brush_from_defaults(b);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_ANTI_ALIASING, 0);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_COLOR_S, 0);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_COLOR_V, 0.25);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_CHANGE_COLOR_L, 0.1);
  for (int i = 0; i < 10; i++)
    mypaint_brush_stroke_to(b, &s, 10 + 5 * i, 40.3 + 3 * i, 1, 0, 0, 0.03, 1, 0, 0, TRUE);
  mypaint_brush_unref(b);
  return bad || !n;
}
'''
