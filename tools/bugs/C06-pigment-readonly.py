prop = 'C06'
edits = [('mypaint-tiled-surface.c', 'mypaint_tile_request_init(&request_data, mipmap_level, tx, ty, TRUE);',
          'mypaint_tile_request_init(&request_data, mipmap_level, tx, ty, ty < ty2 || tx <= tx2 - (sample_interval == 1));')]
needs = 'sampling with a radius of at most 2 (every pixel is looked at)'
breaks = 'the last tile is requested writable for sampling'
demo = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-tiled-surface.h"
static uint16_t buf[64*64*4];
static int bad, n;
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r) { n++; bad |= !r->readonly; r->buffer = buf; }
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { }
int main(void) {
  MyPaintTiledSurface s;
  mypaint_tiled_surface_init(&s, start, end);
  MyPaintSurface *p = (MyPaintSurface *)&s;
  float r, g, b, a;
  for (float q = 0.5; q < 90; q *= 1.3)
    mypaint_surface_get_color(p, 60, 61, q, &r, &g, &b, &a, 1);
  if (!n || bad) { printf("writable tile requested\n"); return 1; }
  mypaint_tiled_surface_destroy(&s);
  return 0;
}
'''
