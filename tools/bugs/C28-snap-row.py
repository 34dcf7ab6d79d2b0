prop = 'C28'
edits = [('mypaint-brush.c', 'y = y + (snapped_y - y) * snapToPixel;', 'y = y + (snapped_y - y);')]
needs = 'a partial snap-to-pixel setting'
breaks = 'the row of a dab snaps fully to the pixel grid however small the setting'
demo = r'''
#include <stdio.h>
#include <math.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-surface.h"
static int ok, n;
static int draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness,
                float softness, float eraser, float aspect, float angle, float lock, float colorize, float posterize, float num, float paint) {
  n++;
  float f = y - floorf(y);
  if (fabsf(f - 0.5f) > 0.01f) ok = 1;
  return 1;
}
int main(void) {
  MyPaintSurface s;
  mypaint_surface_init(&s);
  s.draw_dab = draw;
  MyPaintBrush *b = mypaint_brush_new();
  mypaint_brush_from_defaults(b);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_ANTI_ALIASING, 0);
  mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_SNAP_TO_PIXEL, 0.2);
  for (int i = 0; i < 10; i++)
    mypaint_brush_stroke_to(b, &s, 10 + 5 * i, 40.3 + 3 * i, 1, 0, 0, 0.03, 1, 0, 0, FALSE);
  mypaint_brush_unref(b);
  return !ok || !n;
}
'''
