prop = 'C04'
edits = [('brushmodes.c', '''      rgba[2] = (opa_a*post_b + opa_b*rgba[2])/(1<<15);

    }
    if (!mask[1]) break;
    rgba += mask[1];
''', '''      rgba[2] = (opa_a*post_b + opa_b*rgba[2])/(1<<15);

    }
    if (!mask[1]) break;
    rgba += mask[1] & 0x1ffc;
''')]
needs = 'a mask with a skip of 2048 pixels or more (half a tile and more between two painted pixels)'
breaks = 'posterize dabs land on the wrong pixels after a long skip'
demo = r'''
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "brushmodes.h"
int main(void) {
  static uint16_t px[64*64*4];
  for (int skip = 1; skip < 4095; skip++) {
    uint16_t mask[] = {1<<15, 0, skip*4, 1<<15, 0, 0};
    for (int i = 0; i < 64*64; i++) { px[4*i] = px[4*i+1] = px[4*i+2] = 12345; px[4*i+3] = 1<<15; }
    draw_dab_pixels_BlendMode_Posterize(mask, px, 1<<15, 2);
    if (px[0] == 12345 || px[4*(skip+1)] == 12345) { printf("skip %d: pixel not painted\n", skip); return 1; }
  }
  return 0;
}
'''
