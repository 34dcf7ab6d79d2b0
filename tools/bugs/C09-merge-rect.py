prop = 'C09'
edits = [('mypaint-rectangle.c', 'other->x + other->width - 1, other->y + other->height - 1);',
          'other->x + other->width - 1, other->y + other->width - 1);')]
needs = 'a section whose dirty area is taller than wide'
breaks = 'the rectangle returned by end_atomic does not cover the lower part of what was painted'
demo = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-fixed-tiled-surface.h"
int main(void) {
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(256, 256);
  MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(f);
  MyPaintRectangle r[2];
  MyPaintRectangles rs = {2, r};
  mypaint_surface_begin_atomic(s);
  for (int y = 20; y <= 200; y += 20)
    mypaint_surface_draw_dab(s, 100, y, 10, 1, 0, 0, 1, 0.8, 0, 1, 1, 0, 0, 0, 0, 0, 0);
  mypaint_surface_end_atomic(s, &rs);
  for (int y = 20; y <= 200; y += 20) {
    int ok = 0;
    for (int i = 0; i < rs.num_rectangles; i++)
      ok |= r[i].x <= 91 && r[i].y <= y - 9 && r[i].x + r[i].width > 109 && r[i].y + r[i].height > y + 9;
    if (!ok) { printf("dab at y %d not covered\n", y); return 1; }
  }
  mypaint_surface_unref(s);
  return 0;
}
'''
