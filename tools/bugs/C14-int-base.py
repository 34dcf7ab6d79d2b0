prop = 'C14'
edits = [('mypaint-brush.c', '''    const double base_value = json_object_get_double(base_value_obj);
    mypaint_brush_set_base_value(self, setting_id, base_value);
''', '''    const double base_value = json_object_is_type(base_value_obj, json_type_int)
        ? json_object_get_int(base_value_obj) : json_object_get_double(base_value_obj);
    mypaint_brush_set_base_value(self, setting_id, base_value);
''')]
needs = 'a brush file with an integer base value beyond the range of int'
breaks = 'the base value applied is not the one of the document'
demo = r'''
#include <stdio.h>
#include <math.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
int main(void) {
  static const struct { const char *t; double v; } T[] = {{"3", 3}, {"-2", -2}, {"0.25", 0.25}, {"5000000000", 5e9}, {"-70000000000", -7e10}, {"1e3", 1000}};
  for (int k = 0; k < 6; k++) {
    char s[300];
    MyPaintBrush *b = mypaint_brush_new();
    sprintf(s, "{\"version\": 3, \"settings\": {\"opaque\": {\"base_value\": %s, \"inputs\": {}}}}", T[k].t);
    if (!mypaint_brush_from_string(b, s)) return 2;
    double v = mypaint_brush_get_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE);
    if (fabs(v - T[k].v) > 1e-5 * fabs(T[k].v)) { printf("%s is applied as %g\n", T[k].t, v); return 1; }
    mypaint_brush_unref(b);
  }
  return 0;
}
'''
