prop = 'C07'
edits = [('mypaint-tiled-surface.c', '''        process_tile(self, tx, ty);

        MyPaintTileRequest request_data;
''', '''        if (!self->threadsafe_tile_requests || tx != tx2)
          process_tile(self, tx, ty);

        MyPaintTileRequest request_data;
''')]
needs = 'a backend with thread-safe tile requests; sampling in the same section as painting'
breaks = 'colour picking does not see dabs still queued for the right-most tile'
demo = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-tiled-surface.h"
static uint16_t buf[4][4][64*64*4], scratch[64*64*4];
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r) {
  r->buffer = r->tx >= 0 && r->tx < 4 && r->ty >= 0 && r->ty < 4 ? buf[r->ty][r->tx] : scratch;
}
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { }
int main(void) {
  for (int safe = 0; safe < 2; safe++) {
    MyPaintTiledSurface s;
    memset(buf, 0, sizeof buf);
    mypaint_tiled_surface_init(&s, start, end);
    s.threadsafe_tile_requests = safe;
    MyPaintSurface *p = (MyPaintSurface *)&s;
    mypaint_surface_begin_atomic(p);
    mypaint_surface_draw_dab(p, 100, 100, 30, 1, 0, 0, 1, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0);
    float r, g, b, a;
    mypaint_surface_get_color(p, 100, 100, 5, &r, &g, &b, &a, -1);
    mypaint_surface_end_atomic(p, NULL);
    if (a < 0.9) { printf("thread-safe %d: alpha %f\n", safe, a); return 1; }
    mypaint_tiled_surface_destroy(&s);
  }
  return 0;
}
'''
