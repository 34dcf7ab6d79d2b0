prop = 'C10'
edits = [('operationqueue.c', '''            for(int i = 0; i < self->dirty_tiles_n; i++) {
                new_dirty_tiles[i] = self->dirty_tiles[i];
            }
''', '''            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
            for(int i = self->dirty_tiles_n - 1; i > 0; i--) {
                new_dirty_tiles[i] = self->dirty_tiles[i];
            }
''')]
needs = 'the tile map grows while tiles are dirty'
breaks = 'the first dirty tile is not copied to the new list, so its queued operations are never rendered'
edits = [edits[0], ('operationqueue.c', '''gboolean
operation_queue_resize(''', '''size_t remove_duplicate_tiles(TileIndex *array, size_t length);

gboolean
operation_queue_resize(''')]
demo = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "operationqueue.h"
int main(void) {
  OperationQueue *q = operation_queue_new();
  for (int n = 0; n < 4; n++) {
    /* every second tile lies outside of the map as it was so far */
    TileIndex t = {n % 2 ? 12 << n : 3, n};
    operation_queue_add(q, t, calloc(1, sizeof(OperationDataDrawDab)));
  }
  TileIndex *tiles;
  int n = operation_queue_get_dirty_tiles(q, &tiles), seen = 0;
  for (int i = 0; i < n; i++)
    for (int k = 0; k < 4; k++)
      if (tiles[i].x == (k % 2 ? 12 << k : 3) && tiles[i].y == k) seen |= 1 << k;
  if (seen != 15) { printf("tiles listed: %x\n", seen); return 1; }
  return 0;
}
'''
