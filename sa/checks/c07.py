"""C07 Colour picking and end of frame see all queued dabs."""
from .. import ir, par
from ..dom import C, P, ZERO, sym, SYMS
from ..interp import State, Ptr, RegMem, Parts
from ..objs import heap
from ..report import Broken
from ..tiles import Proto, setup, coordinate, opened, TS
from .c06 import args_for, roots, callers

META = {
    'level': 'proof',
    'technique': 'typestate and event-order analysis by abstract interpretation; array-coverage invariant for the loop over dirty tiles',
    'note': 'all paths, any number of dirty tiles, queued operations and sampled tiles',
    'explanation': 'popping, rendering, releasing, flushing and requesting are events; every popped operation is rendered once before '
                   'the next is popped until the queue of the tile is empty; a sampling request for a tile is only started when the '
                   'queue of exactly that tile was emptied; the loop at the end of a section flushes the tile at every index of the list',
    'trusted': ['contracts of the operation queue (C10)'],
}


class Ck(Proto):
    rules = (Proto.R_ORDER, Proto.R_FLUSH, Proto.R_END)

    def __init__(self, *a):
        Proto.__init__(self, *a)
        self.shadow = heap(('shadow',), 'flushed tiles', C(8 << 24), uninit=True)
        self.n = 0

    def started(self, I, st, inst, ro, tx, ty):
        if self.sampling and ro is not False:
            f = self.lastflushed(st)
            ok = f is not None and f[0] is not None and all(st.decide(('eq', a - b)) is True for a, b in zip(f, (tx, ty)))
            self.ob(I, inst, self.R_FLUSH, ok, 'tile (%r,%r) is requested for sampling, last tile flushed is %r' % (tx, ty, f), 'flush')

    def flushed(self, I, st, inst, x, y):
        a, b = self.entry(x), self.entry(y)
        if a is not None and b == a + 4:
            I.write(st, self.shadow, a, 8, C(1), inst, 0)

    def entry(self, v):
        if v is None:
            return None
        s = v.onesym() if hasattr(v, 'onesym') else None
        if s is None:
            for t in self.origin:
                if P(t) == v:
                    s = t
        return self.origin.get(s)

    def cleared(self, I, st, inst, args, ctx):
        self.covered(I, st, inst, 'the list is cleared')
        return [(st, None)]

    def covered(self, I, st, inst, what):
        n = P(sym(('ndirty',), 'n', 0, 1 << 24, True)).scale(8)
        m = st.mem.get(self.shadow)
        ok = st.num.ge0(-n)
        for a, b, w in reversed(m.fills if m is not None else ()):
            if w[0] in ('val', 'stride') and all(x == C(1) for x in w[1:2]) and st.num.ge0(-a) and st.num.ge0(b - n):
                ok = True
        self.ob(I, inst, self.R_END, ok, 'not every dirty tile is flushed when %s' % what, 'end')


def tile(rep, rs):
    pr, ck, I, st, s = setup(rep, 'process_tile', Ck)
    ck.roots = rs
    x, y = coordinate('tx'), coordinate('ty')
    for r, v in I.call_fn(pr.fn('process_tile'), [Ptr(s), x, y], st, 0):
        ck.opdone(I, r, None)
        f = ck.lastflushed(r)
        ok = f is not None and f[0] is not None and r.decide(('eq', f[0] - x)) is True and r.decide(('eq', f[1] - y)) is True
        ck.ob(I, None, ck.R_FLUSH, ok, 'returns although operations may be left for the tile (last tile emptied: %r)' % (f,), 'left')
    rep.analysed(*I.visited)


def sample(rep, name, rs):
    pr, ck, I, st, s = setup(rep, name, Ck)
    ck.roots, ck.sampling = rs, True
    for r, v in I.call_fn(pr.fn(name), args_for(ck, pr.fn(name), s), st, 0):
        ck.opdone(I, r, None)
    if not ck.events.get('start'):
        raise Broken('%s starts no request' % name)
    rep.analysed(*I.visited)


def section(rep, rs):
    pr, ck, I, st, s = setup(rep, 'mypaint_tiled_surface_end_atomic', Ck)
    ck.roots = rs
    st.mem[ck.shadow] = RegMem(0, True)
    roi = heap(('roi',), 'roi', 16, nullable=True)
    for r, v in I.call_fn(pr.fn('mypaint_tiled_surface_end_atomic'), [Ptr(s), Ptr(roi)], st, 0):
        ck.covered(I, r, None, 'the section ends')
        ck.ob(I, None, ck.R_END, ('listed',) in r.ghost, 'the list of dirty tiles is not fetched', 'list')
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    rs = tuple(roots(pr))
    par.run(rep, [(tile, (rs,)), (sample, ('get_color', rs)), (section, (rs,))], ctx=pr)
    # nobody else may drop the list of dirty tiles
    for f in sorted(callers(pr, 'operation_queue_clear_dirty_tiles')):
        rep.ob(Proto.R_END, f in rep.functions, f, 'clears the list of dirty tiles', key='clear@' + f)
