"""C04 A dab touches exactly the pixels its mask selects."""
from .. import blend, par, interp
from ..dom import C, P, ZERO, SYMS, sym
from ..blend import ONE15
from ..interp import Ptr, region, State, Interp, reset
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation, relational loop invariant (lockstep of mask and pixel cursors)',
    'note': 'all masks; value arithmetic is opaque',
    'explanation': 'lockstep relation between mask position and pixel position, established at loop entry and preserved '
                   'by every back edge of every pixel loop',
    'trusted': [],
}
R_ACC = 'pixel accesses belong to the pixel of the last non-zero mask entry'
R_START = 'walk starts at mask entry 0 and pixel 0'
R_NEXT = 'non-zero entry: one entry forward, one pixel forward'
R_SKIP = 'zero entry: two entries forward, skip count forward'
R_END = 'walk ends exactly at a zero skip'


class Walk(blend.PixelChecker):
    maxstates = 24
    linear = True

    def __init__(self, rep, name, paint=False):
        blend.PixelChecker.__init__(self, rep)
        self.name = name
        self.templates = {}          # (mask offset, pixel offset) -> where
        self.edges = []
        self.entries = []
        self.ends = []
        self.bad = []

    def on_load(self, I, st, inst, ptr, size, ty):
        if ptr.reg is self.mask:
            if size != 2:
                raise interp.AnalysisError('mask read of %d bytes' % size)
        elif ptr.reg is self.rgba:
            self.access(I, st, inst, ptr, size)
        return None

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if ptr.reg is self.mask and I.recording:
            self.rep.ob('mask is read-only', False, I.where(inst), 'store to the mask')
        elif ptr.reg is self.rgba:
            self.access(I, st, inst, ptr, size)

    def access(self, I, st, inst, ptr, size):
        c = blend.channel(ptr.off)
        X = blend.pixel_of(ptr.off)
        if not I.recording:
            return
        if size != 2 or c is None:
            self.rep.ob(R_ACC, False, I.where(inst), 'access of %d bytes at offset %r' % (size, ptr.off))
            return
        # the current entry: a mask entry read on this path, known to be non-zero
        m = self.current(I, st)
        if m is None:
            self.rep.ob(R_ACC, False, I.where(inst), '%s: pixel offset %r accessed without a non-zero mask entry'
                        % (self.name, X), key='acc0@' + self.name)
            return
        self.templates.setdefault((m, X), I.where(inst))

    def entry(self, st, off):
        """True = known non-zero, False = known zero, None"""
        mm = st.mem.get(self.mask)
        c = mm.cells.get(off) if mm else None
        if c is None:
            return None
        return st.decide(('ne', c[1]))

    def current(self, I, st):
        mm = st.mem.get(self.mask)
        if mm is None:
            return None
        nz = [o for o in mm.cells if self.entry(st, o) is True and self.entry(st, o - 2) is not False]
        # the walk only moves forward: of several entries read on this path the last one is current
        for m in nz:
            if all((m - o).isconst() and (m - o).cval() >= 0 for o in nz):
                return m
        return None

    def on_loop_entry(self, I, E, fn, loop, mp, ctx):
        self.entries.append((dict(mp), E, fn, ctx))

    def on_backedge(self, I, H, s, fn, loop, ctx):
        mm = s.mem.get(self.mask)
        cells = {}
        if mm is not None:
            hm = H.mem.get(self.mask)
            for o, (sz, v) in mm.cells.items():
                cells[o] = (v, self.entry(s, o))
        self.edges.append((dict(I.backmap), cells, ctx, '%s (%s)' % (fn.module.name, fn.name)))

    def on_ret(self, I, st, fn, val, ctx):
        if I.recording and fn is self.fn:
            self.ends.append(st)


def norm_syms(mp, p):
    for s in p.syms():
        if s in mp and mp[s] is None:
            return None
    return p.substmap(mp)


def one(rep, level, name):
    pr = par.shared()
    fn = pr.fn(name)
    ck = Walk(rep, name)
    ck.fn = fn
    ck.maxstates = level
    reset()
    I = Interp(pr, ck)
    st = State()
    if name.startswith(blend.PREFIX):
        args = ck.setup(I, fn, blend.PARAMS[name[len(blend.PREFIX):]])
    else:
        ck.mask = region(('arg', 'mask'), 'arg', 'mask')
        ck.rgba = region(('arg', 'rgba'), 'arg', 'rgba')
        args = [Ptr(ck.mask), Ptr(ck.rgba)]
        for nm, ty, _ in fn.params[2:]:
            if ty.kind == 'ptr':
                args.append(Ptr(region(('arg', nm), 'arg', nm)))
            elif ty.kind == 'int':
                args.append(P(sym(('par', nm), nm, 1, 65535, True)))
            else:
                args.append(P(sym(('par', nm), nm, -1 if nm == 'paint' else 0, 1)))
    rets = I.call_fn(fn, args, st, 0)
    rep.analysed(*I.visited)
    decide(rep, ck, name, rets)


def decide(rep, ck, name, rets):
    if not ck.templates:
        raise Broken('%s: no pixel access found' % name)
    # a template must be the only pixel for its mask entry, and vice versa
    byx = {}
    for (m, X), where in ck.templates.items():
        byx.setdefault(m, {})[X] = where
    for m, xs in byx.items():
        rep.ob(R_ACC, len(xs) == 1, list(xs.values())[0], '%s: mask entry at %r used with pixels %s' % (name, m, list(xs)),
               key='acc1@' + name)
    tm = {m: list(xs)[0] for m, xs in byx.items()}
    # loops without pixel accesses of their own map to the template of the loop they lead into
    nstart = nnext = nskip = 0
    for m, X in tm.items():
        # start: compose the entry maps of all loops whose symbols occur, innermost first
        mm, xx = m, X
        for _ in range(6):
            for mp, E, fn, ctx in reversed(ck.entries):
                if any(s in mp for s in mm.syms() | xx.syms()):
                    a, b = norm_syms(mp, mm), norm_syms(mp, xx)
                    if a is None or b is None:
                        break
                    mm, xx = a, b
        if mm.isconst() and xx.isconst():
            nstart += 1
            rep.ob(R_START, mm.cval() == 0 and xx.cval() == 0, name, '%s: walk starts at mask offset %r, pixel offset %r'
                   % (name, mm, xx), key='start@' + name)
        else:
            rep.ob(R_START, False, name, '%s: start of the walk not determined: %r %r' % (name, mm, xx), key='start@' + name)
    for mp, cells, ectx, where in ck.edges:
        ents = [e for e, E, fn, c in ck.entries if c != ectx and inside(c, ectx)]
        for m, X in tm.items():
            touched = [x for x in (m.syms() | X.syms()) if x in mp]
            # also loops that enclose the template's own loop: their symbols occur only via the entry values
            m1, X1 = close(mp, m, X, ents)
            if m1 is None:
                rep.ob(R_NEXT, False, where, '%s: position after the iteration unknown' % name, key='next@' + name)
                continue
            if not touched:
                continue
            dm, dx = m1 - m, X1 - X
            st = cells.get(m, (None, None))[1]
            if dm.isconst() and dm.cval() == 0 and dx.isconst() and dx.cval() == 0:
                continue
            if st is True:
                nnext += 1
                rep.ob(R_NEXT, dm == C(2) and dx == C(8), where,
                       '%s: after a non-zero entry the mask moves by %r bytes, the pixel by %r bytes' % (name, dm, dx),
                       key='next@' + name)
            elif st is False:
                nskip += 1
                sk = cells.get(m + 2, (None, None))
                ok = dm == C(4) and sk[0] is not None and dx == sk[0].scale(2)
                rep.ob(R_SKIP, ok, where, '%s: after a zero entry the mask moves by %r bytes, the pixel by %r bytes (skip entry %r)'
                       % (name, dm, dx, sk[0]), key='skip@' + name)
                rep.ob(R_END, sk[1] is True, where, '%s: the walk goes on although the skip entry may be zero' % name,
                       key='end1@' + name)
            else:
                rep.ob(R_NEXT, False, where, '%s: position changes (mask %r, pixel %r) without a decision on entry %r'
                       % (name, dm, dx, m), key='next0@' + name)
    for st in ck.ends:
        mm = st.mem.get(ck.mask)
        ok = False
        if mm:
            for o in mm.cells:
                if ck.entry(st, o) is False and ck.entry(st, o + 2) is False:
                    ok = True
        rep.ob(R_END, ok or not mm or not mm.cells, name, '%s: returns without a zero entry followed by a zero skip' % name,
               key='end@' + name)
    if not (nstart and nnext and nskip):
        raise Broken('%s: mask walk not recognised (start %d, next %d, skip %d)' % (name, nstart, nnext, nskip))


def inside(c, outer):
    while isinstance(c, int) and c in interp.CTXINFO:
        if c == outer:
            return True
        c = interp.CTXINFO[c][0]
    return c == outer


def close(mp, m, X, ents):
    """template position after a back edge: substitute the edge map, then (when the template lives in a loop nested
    in the edge's loop) restart the inner loops"""
    a, b = norm_syms(mp, m), norm_syms(mp, X)
    if [x for x in (m.syms() | X.syms()) if x in mp]:
        # inner loop counters are restarted when an outer edge is taken
        inner = {}
        for e in ents:
            for s, v in e.items():
                if s in (m.syms() | X.syms()):
                    inner[s] = v
        if inner:
            if any(v is None for v in inner.values()):
                return None, None
            # template at inner entry, then the outer edge
            a, b = norm_syms(mp, m.substmap(inner)), norm_syms(mp, X.substmap(inner))
    return a, b


def run(rep, w):
    pr = w.program()
    names = [blend.PREFIX + m for m in sorted(blend.blend_functions(pr))] + blend.SAMPLERS
    par.ladder(rep, [(one, (n,)) for n in names], levels=(1, 4, 12), ctx=pr)
    rep.require(R_NEXT, 10)
    rep.require(R_SKIP, 10)
    rep.require(R_END, 20)
