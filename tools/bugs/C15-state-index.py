prop = 'C15'
edits = [('mypaint-brush.c', '''    assert (i < MYPAINT_BRUSH_STATES_COUNT);
    self->states[i] = value;''', '''    assert (i <= MYPAINT_BRUSH_STATES_COUNT);
    self->states[i] = value;''')]
needs = 'setting a state with the index one past the last'
breaks = 'the memory behind the states (the smudge bucket pointer) is overwritten'
demo = r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "config.h"
#include <glib.h>
#include "mypaint-brush.h"
int main(void) {
  for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT + 3; i++) {
    pid_t p = fork();
    if (p == 0) {
      fclose(stderr);
      MyPaintBrush *b = mypaint_brush_new();
      mypaint_brush_set_state(b, i, 1);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if ((WIFEXITED(st) && WEXITSTATUS(st) == 0) != (i < MYPAINT_BRUSH_STATES_COUNT)) { printf("state %d: status %x\n", i, st); return 1; }
  }
  return 0;
}
'''
