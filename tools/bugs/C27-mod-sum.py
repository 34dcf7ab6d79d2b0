prop = 'C27'
edits = [('rng-double.c', '#define mod_sum(x,y) (((x)+(y))-(int)((x)+(y)))   /* (x+y) mod 1.0 */',
          '#define mod_sum(x,y) (((x)+(y)) > 1.0 ? ((x)+(y))-1.0 : ((x)+(y)))   /* (x+y) mod 1.0 */')]
needs = 'two lagged values whose sum is exactly 1'
breaks = '1.0 is returned, outside of [0,1)'
demo = r'''
#include <stdio.h>
#include "rng-double.h"
struct RngDouble { double u[10], buf[19], *ptr; };
void rng_double_get_array(RngDouble *self, double aa[], int n);
int main(void) {
  double aa[19];
  struct RngDouble r = {{0.5, 0.25, 0.75, 0.5, 0.25, 0.75, 0.5, 0.25, 0.75, 0.5}};
  for (int k = 0; k < 40; k++) {
    rng_double_get_array((RngDouble *)&r, aa, 19);
    for (int i = 0; i < 19; i++)
      if (!(aa[i] >= 0 && aa[i] < 1)) { printf("%f\n", aa[i]); return 1; }
  }
  struct RngDouble z = {{0, 0.5, 0, 0.5, 0, 0, 0, 0.25, 0, 0}};
  for (int k = 0; k < 40; k++) {
    rng_double_get_array((RngDouble *)&z, aa, 19);
    for (int i = 0; i < 19; i++)
      if (!(aa[i] >= 0 && aa[i] < 1)) { printf("%f\n", aa[i]); return 1; }
  }
  return 0;
}
'''
