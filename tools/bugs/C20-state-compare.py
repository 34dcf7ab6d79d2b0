prop = 'C20'
edits = [('mypaint-symmetry.c', '''           s1->angle == s2->angle && s1->num_lines == s2->num_lines;''',
 '''           s1->angle == s2->angle && (s1->num_lines == s2->num_lines || s1->type < MYPAINT_SYMMETRY_TYPE_SNOWFLAKE);''')]
needs = 'rotational symmetry whose number of lines is changed and nothing else'
breaks = 'the matrices of the earlier number of lines are kept'
demo = r'''
#include <stdio.h>
#include "config.h"
#include <glib.h>
#include "mypaint-symmetry.h"
int main(void) {
  static const MyPaintSymmetryType T[] = {MYPAINT_SYMMETRY_TYPE_ROTATIONAL, MYPAINT_SYMMETRY_TYPE_SNOWFLAKE};
  for (int k = 0; k < 2; k++)
    for (int a = 2; a < 9; a++)
      for (int b = 2; b < 9; b++) {
        MyPaintSymmetryData d = mypaint_default_symmetry_data();
        mypaint_symmetry_set_pending(&d, TRUE, 10, 20, 30, T[k], a);
        mypaint_update_symmetry_state(&d);
        mypaint_symmetry_set_pending(&d, TRUE, 10, 20, 30, T[k], b);
        mypaint_update_symmetry_state(&d);
        if ((int)d.state_current.num_lines != b) { printf("type %d: %d lines kept instead of %d\n", k, a, b); return 1; }
        mypaint_symmetry_data_destroy(&d);
      }
  return 0;
}
'''
