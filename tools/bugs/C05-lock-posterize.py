prop = 'C05'
edits = [('mypaint-tiled-surface.c', 'op->lock_alpha*op->opaque*(1 - op->colorize)*(1 - op->posterize)*op->paint*(1<<15)',
          'op->lock_alpha*op->opaque*(1 - op->colorize)*(1 - op->posterize*op->paint)*op->paint*(1<<15)')]
needs = 'locked alpha together with posterize and a paint mode strictly between 0 and 1'
breaks = 'the pigment share of a lock-alpha dab is too opaque'
demo = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "config.h"
#include <glib.h>
#include "operationqueue.h"
#include "brushmodes.h"
void process_op(uint16_t *, uint16_t *, int, int, OperationDataDrawDab *);
static uint16_t mask[64*64+128], mask2[64*64+128], a[64*64*4], b[64*64*4];
void render_dab_mask (uint16_t *, float, float, float, float, float, float, float);
int main(void) {
  for (int p = 0; p <= 10; p++)
    for (int z = 0; z <= 10; z++) {
      OperationDataDrawDab op = {.x = 32, .y = 32, .radius = 10, .color_r = 30000, .color_g = 3000, .color_b = 9000, .color_a = 1,
        .opaque = 1, .hardness = 1, .softness = 0, .aspect_ratio = 1, .lock_alpha = 1, .posterize = z / 10.0, .posterize_num = 5, .paint = p / 10.0};
      for (int i = 0; i < 64*64*4; i++) a[i] = b[i] = i % 4 == 3 ? 1<<15 : 10000 + 3000 * (i % 4);
      process_op(a, mask, 0, 0, &op);
      render_dab_mask(mask2, 32, 32, 10, 1, 0, 1, 0);
      if (op.paint < 1)
        draw_dab_pixels_BlendMode_LockAlpha(mask2, b, 30000, 3000, 9000, (1 - op.posterize) * (1 - op.paint) * (1<<15));
      if (op.paint > 0)
        draw_dab_pixels_BlendMode_LockAlpha_Paint(mask2, b, 30000, 3000, 9000, (1 - op.posterize) * op.paint * (1<<15));
      if (op.posterize > 0)
        draw_dab_pixels_BlendMode_Posterize(mask2, b, op.posterize * (1<<15), 5);
      for (int i = 0; i < 64*64*4; i++)
        if (abs(a[i] - b[i]) > 40) { printf("paint %d posterize %d: %d instead of %d\n", p, z, a[i], b[i]); return 1; }
    }
  return 0;
}
'''
