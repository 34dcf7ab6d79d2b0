prop = 'C08'
edits = [('mypaint-tiled-surface.c', '''    float r_fringe = radius + 1.0f; // +1.0 should not be required, only to be sure
      
    int tx1 = floor(floor(x - r_fringe) / MYPAINT_TILE_SIZE);
    int tx2 = floor(floor(x + r_fringe) / MYPAINT_TILE_SIZE);
''', '''    float r_fringe = radius + 1.0f; // +1.0 should not be required, only to be sure
      
    int tx1 = floor(floor(x - r_fringe) / MYPAINT_TILE_SIZE);
    int tx2 = tx1 + (int)ceil((2 * r_fringe) / MYPAINT_TILE_SIZE) - (r_fringe > MYPAINT_TILE_SIZE);
''')]
needs = 'a dab larger than a tile that reaches into the last column of its rectangle'
breaks = 'the right-most column of tiles of a large dab is not painted'
demo = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-tiled-surface.h"
static uint16_t buf[64*64*4];
static int seen[64];
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r) {
  memset(buf, 0, sizeof buf);
  r->buffer = buf;
}
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r) {
  for (int i = 3; i < 64*64*4; i += 4)
    if (buf[i] && r->ty == 0 && r->tx >= -32 && r->tx < 32) seen[r->tx + 32] = 1;
}
int main(void) {
  MyPaintTiledSurface s;
  mypaint_tiled_surface_init(&s, start, end);
  MyPaintSurface *p = (MyPaintSurface *)&s;
  for (int x = -20; x < 84; x += 7) {
    memset(seen, 0, sizeof seen);
    mypaint_surface_begin_atomic(p);
    mypaint_surface_draw_dab(p, x, 32, 100, 1, 0, 0, 1, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0);
    mypaint_surface_end_atomic(p, NULL);
    for (int t = -32; t < 32; t++) {
      /* tiles that the inner 95 pixels reach in row 32 */
      int want = (t + 1) * 64 > x - 95 && t * 64 < x + 95;
      if (want && !seen[t + 32]) { printf("x %d: tile %d not painted\n", x, t); return 1; }
    }
  }
  mypaint_tiled_surface_destroy(&s);
  return 0;
}
'''
