prop = 'C03'
edits = [('brushmodes.c', '''      opa_a = opa_a * color_a / (1<<15);
      rgba[3] = opa_a + opa_b * rgba[3] / (1<<15);
      rgba[0] = (opa_a*color_r + opa_b*rgba[0])/(1<<15);
      rgba[1] = (opa_a*color_g + opa_b*rgba[1])/(1<<15);
''', '''      opa_a = opa_a * color_a / (1<<15);
      rgba[3] = opa_a + opa_b * rgba[3] / (1<<15);
      rgba[0] = (opa_a*color_r + opa_b*rgba[0])/(1<<15);
      if (opa_a > opa_b + (1<<14)) opa_b = (1<<15) - opa_a;
      rgba[1] = (opa_a*color_g + opa_b*rgba[1])/(1<<15);
''')]
needs = 'a partially transparent smudge colour (3/4 < colour alpha * mask < mask) over an opaque canvas'
breaks = 'green and blue keep too much of the canvas in the normal+eraser mode'
demo = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include "brushmodes.h"
int main(void) {
  for (int ca = 0; ca <= 1<<15; ca += 1024)
    for (int m = 1024; m <= 1<<15; m += 1024) {
      uint16_t mask[] = {m, 0, 0};
      uint16_t px[4] = {20000, 20000, 20000, 1<<15};
      draw_dab_pixels_BlendMode_Normal_and_Eraser(mask, px, 10000, 10000, 10000, ca, 1<<15);
      double w = (double)m * ca / 32768 / 32768, b = 1 - (double)m / 32768;
      double want = w * 10000 + b * 20000;
      for (int c = 0; c < 3; c++)
        if (abs((int)px[c] - (int)want) > 4) { printf("m %d a %d: %d instead of %f\n", m, ca, px[c], want); return 1; }
    }
  return 0;
}
'''
