prop = 'C01'
edits = [('brushmodes.c', '''      for (int i=0; i<3; i++) {
        rgba[i] =(rgb_result[i] * rgba[3]) + 0.5;
      }
    }
    if (!mask[1]) break;
    rgba += mask[1];
    mask += 2;
  }
};

//Posterize.''', '''      for (int i=0; i<3; i++) {
        rgba[i] =(rgb_result[i] * (opa_a + opa_b * (rgba[3] + (opa_a >> 14)) / (1<<15))) + 0.5;
      }
    }
    if (!mask[1]) break;
    rgba += mask[1];
    mask += 2;
  }
};

//Posterize.''')]
needs = 'pigment mode, colour near white, mask around one half over an opaque pixel'
breaks = 'colour channels can exceed alpha after a pigment dab'
demo = r'''
#include <stdint.h>
#include <stdio.h>
#include "brushmodes.h"
int main(void) {
  for (int m = 256; m <= 1<<15; m += 256)
    for (int a = 64; a <= 1<<15; a += 64) {
      uint16_t mask[] = {m, 0, 0};
      uint16_t px[4] = {a, a, a, a};
      draw_dab_pixels_BlendMode_Normal_Paint(mask, px, 1<<15, 1<<15, 1<<15, 1<<15);
      for (int c = 0; c < 3; c++)
        if (px[c] > px[3]) { printf("m %d a %d: colour %d above alpha %d\n", m, a, px[c], px[3]); return 1; }
    }
  return 0;
}
'''
