prop = 'C24'
edits = [('mypaint-fixed-tiled-surface.c', '''        size_t rowstride = self->tiles_width * self->tile_size;
''', '''        size_t rowstride = (self->width / self->parent.tile_size + (self->width > self->parent.tile_size)) * self->tile_size;
''')]
needs = 'a width that is a multiple of the tile size, or at most one tile, and several rows'
breaks = 'tiles of different rows coincide, or lie behind the buffer'
demo = r'''
#include <stdio.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "mypaint-fixed-tiled-surface.h"
int main(void) {
  static const int W[] = {1, 40, 64, 65, 100, 128, 129, 192};
  for (int k = 0; k < 8; k++) {
    MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(W[k], 300);
    MyPaintTiledSurface *t = (MyPaintTiledSurface *)f;
    guint16 *p[5], *base = NULL;
    int cols = (W[k] + 63) / 64;
    for (int y = 0; y < 5; y++) {
      MyPaintTileRequest r;
      mypaint_tile_request_init(&r, 0, 0, y, FALSE);
      mypaint_tiled_surface_tile_request_start(t, &r);
      p[y] = r.buffer;
      mypaint_tiled_surface_tile_request_end(t, &r);
      if (p[y] - p[0] < y * cols * 64 * 64 * 4 || p[y] - p[0] > 5 * cols * 64 * 64 * 4 - 64*64*4) { printf("width %d row %d at %ld\n", W[k], y, (long)(p[y] - p[0])); return 1; }
    }
    mypaint_surface_unref((MyPaintSurface *)f);
  }
  return 0;
}
'''
