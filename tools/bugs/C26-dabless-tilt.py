prop = 'C26'
edits = [('mypaint-brush.c', '''      step_dpressure = pressure - STATE(self, PRESSURE);
      step_declination = tilt_declination - STATE(self, DECLINATION);
''', '''      step_dpressure = pressure - STATE(self, PRESSURE);
      step_declination = (painted == NO ? 0.5 : 1.0) * (tilt_declination - STATE(self, DECLINATION));
''')]
needs = 'an event all of whose dabs leave the surface unmodified'
breaks = 'the declination after the event is not that of the event'
demo = r'''
#include <stdio.h>
#include <math.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
#include "mypaint-fixed-tiled-surface.h"
int main(void) {
  for (int o = 0; o < 2; o++) {
    MyPaintBrush *b = mypaint_brush_new();
    MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(mypaint_fixed_tiled_surface_new(128, 128));
    mypaint_brush_from_defaults(b);
    mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE, o);
    mypaint_surface_begin_atomic(s);
    for (int i = 0; i < 12; i++) {
      float t = i % 3 * 0.3;
      mypaint_brush_stroke_to(b, s, 10 + (i % 2 ? 12 : 0.01) * i, 40, 1, t, 0, 0.03, 1, 0, 0, FALSE);
      float want = 90 - t * 60, got = mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_DECLINATION);
      if (i > 1 && fabs(want - got) > 0.01) { printf("declination %f instead of %f\n", got, want); return 1; }
    }
    mypaint_surface_end_atomic(s, NULL);
    mypaint_surface_unref(s);
    mypaint_brush_unref(b);
  }
  return 0;
}
'''
