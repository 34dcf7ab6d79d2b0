prop = 'C25'
edits = [('mypaint-mapping.c', 'if (n == 0 && p->n != 0) self->inputs_used--;', 'if (n == 0 && p->n != 0 && p->xvalues[0] != p->xvalues[1]) self->inputs_used--;')]
needs = 'an input whose two points have the same x is removed again'
breaks = 'the count of used inputs stays too large, so the setting no longer counts as constant'
demo = r'''
#include <stdio.h>
#include "config.h"
#include <glib.h>
#include "mypaint-mapping.h"
int main(void) {
  MyPaintMapping *m = mypaint_mapping_new(3);
  mypaint_mapping_set_base_value(m, 0.5);
  for (int w = 0; w < 2; w++) {
    mypaint_mapping_set_n(m, 1, 2);
    mypaint_mapping_set_point(m, 1, 0, 0.25, 0);
    mypaint_mapping_set_point(m, 1, 1, 0.25 + 0.5 * w, 1);
    if (mypaint_mapping_get_inputs_used_n(m) != 1) return 2;
    mypaint_mapping_set_n(m, 1, 0);
    if (mypaint_mapping_get_inputs_used_n(m) != 0 || !mypaint_mapping_is_constant(m)) {
      printf("%d inputs used\n", mypaint_mapping_get_inputs_used_n(m));
      return 1;
    }
  }
  mypaint_mapping_free(m);
  return 0;
}
'''
