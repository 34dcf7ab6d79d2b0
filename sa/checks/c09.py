"""C09 Dirty rectangles cover everything modified."""
from .. import ir, par, irq
from ..dom import C, P, ZERO, sym, SYMS, Poly
from ..interp import Checker, Interp, State, Ptr, RegMem, reset, NULLR
from ..objs import Layout, World, heap
from ..report import Broken
from ..tiles import TS
from .c20 import poke

META = {
    'level': 'proof',
    'technique': 'abstract interpretation: relational proofs of the rectangle operations, index obligations at an arbitrary fixed slot, coverage of '
                 'the output loop as an array-fill invariant, effect analysis of the entry points of an atomic section',
    'note': 'every rectangle, dab, symmetry state, number of boxes and output slots (coordinates within 2^29, radius within 2^24)',
    'explanation': 'rectangle growth is proved on symbolic rectangles, the dab on a symbolic box, the slot of every copy for a symbolic number of '
                   'lines and boxes, the end of the section for a symbolic number of dirty boxes and output rectangles',
    'trusted': ['exact real arithmetic instead of float'],
}
R = 'MyPaintRectangle'
R_GROW = 'a rectangle only grows and covers what it is expanded to'
R_DAB = 'an accepted dab is covered by its dirty rectangle'
R_IDX = 'dirty rectangle indices stay in their array'
R_USED = 'every dirty rectangle that is written is among those reported'
R_MONO = 'the number of dirty rectangles does not shrink during an atomic section'
R_BEGIN = 'an atomic section starts without dirty rectangles'
R_END = 'every dirty rectangle is merged into a returned rectangle'
R_EFF = 'nothing else changes the dirty rectangles during an atomic section'
B = 1 << 29
RAD = 1 << 24
FLD = ('x', 'y', 'width', 'height')
DAB = 'draw_dab_internal'


class Base(Checker):
    exactjoin = True
    maxstates = 64
    fcap = (400, 10)
    alarms = ('oob', 'null', 'maynull', 'badptr', 'sovf', 'fptoint')
    rule_alarm = R_IDX

    def __init__(self, rep, pr):
        self.rep, self.pr = rep, pr
        self.lay = Layout(pr)
        self.w = World(self.lay)
        self.off = {f: self.lay.off(R, f) for f in FLD}
        self.size = self.lay.size(R)

    def ob(self, I, rule, ok, msg, key, inst=None, where=None):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst) if inst is not None else where or '', msg, key=key)

    def recall(self, st):
        """what is known about the arbitrary slot since it was met (constants of the call)"""
        for c, f in zip(self.cands, st.ghost['hit'][1:]):
            if f:
                st.num.assume_ge(c)

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def alarm(self, I, st, kind, inst, msg):
        if kind in self.alarms and I.recording:
            self.rep.ob(self.rule_alarm, False, I.where(inst), '%s: %s' % (kind, msg), key='%s %s' % (kind, I.where(inst)))

    def setrect(self, I, st, reg, base, vals):
        for f, v in vals.items():
            I.write(st, reg, base + self.off[f], 4, v, None, 0)

    def getrect(self, I, st, reg, base):
        return {f: I.read(st, reg, base + self.off[f], 4, ir.I32, None, 0) for f in FLD}


def rect(name, lo=1, hi=B):
    v = {f: P(sym((name, f), '%s.%s' % (name, f), -B - (1 << 25), B, True)) for f in ('x', 'y')}
    v.update({f: P(sym((name, f), '%s.%s' % (name, f), lo, hi, True)) for f in ('width', 'height')})
    return v


def covers(st, r, x0, y0, x1, y1):
    """rectangle r covers the pixels x0..x1, y0..y1"""
    if not all(isinstance(v, Poly) for v in r.values()):
        return False
    ge = st.num.ge0
    return ge(x0 - r['x']) and ge(y0 - r['y']) and ge(r['x'] + r['width'] - 1 - x1) and ge(r['y'] + r['height'] - 1 - y1)


def corners(r):
    return r['x'], r['y'], r['x'] + r['width'] - 1, r['y'] + r['height'] - 1


def growth(rep, what, empty, oempty=False):
    """expand a rectangle by a point or by another rectangle"""
    pr = par.shared()
    reset()
    ck = Base(rep, pr)
    ck.rule_alarm = R_GROW
    I = Interp(pr, ck)
    st = State()
    reg = heap(('rect',), 'rectangle', ck.size)
    old = rect('old')
    if empty:
        old['width'] = ZERO
        old['height'] = P(sym(('old', 'h0'), 'old.height', 0, B, True))
    ck.setrect(I, st, reg, ZERO, old)
    name = 'mypaint_rectangle_expand_to_include_' + what
    f = pr.fn(name)
    if what == 'point':
        x, y = [P(sym(('pt', k), k, -B - (1 << 25), B + (1 << 25), True)) for k in 'xy']
        args, cor = [Ptr(reg), x, y], (x, y, x, y)
    else:
        o = heap(('other',), 'other rectangle', ck.size)
        ov = rect('other')
        if oempty:
            ov['width'] = ov['height'] = ZERO
        ck.setrect(I, st, o, ZERO, ov)
        args, cor = [Ptr(reg), Ptr(o)], corners(ov)
    n = 0
    for r, _ in I.call_fn(f, args, st, 0):
        n += 1
        new = ck.getrect(I, r, reg, ZERO)
        tag = '%s%s%s' % (what, ' empty' if empty else '', ' other empty' if oempty else '')
        if not oempty:
            ck.ob(I, R_GROW, covers(r, new, *cor), '%s: the result does not cover what was added' % name, 'new ' + tag, where=name)
        if not empty:
            ck.ob(I, R_GROW, covers(r, new, *corners(old)), '%s: the result does not cover the earlier rectangle' % name, 'old ' + tag, where=name)
        ok = all(isinstance(v, Poly) for v in new.values()) and r.num.ge0(new['width'] - 1) and r.num.ge0(new['height'] - 1)
        ck.ob(I, R_GROW, ok, '%s: the result may be empty' % name, 'size ' + tag, where=name)
        if what == 'rect':
            now = ck.getrect(I, r, o, ZERO)
            ck.ob(I, R_GROW, now == ov, '%s changes the other rectangle' % name, 'other ' + tag, where=name)
    if not n:
        raise Broken('%s does not return' % name)
    rep.analysed(*I.visited)


class Dab(Base):
    """one dab, drawn into box K"""
    maxstates = 16

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('malloc', 'calloc'):
            r = heap(('op', I.iid(inst)), 'operation', 1 << 10)
            return [(st, Ptr(r))]
        if name == 'operation_queue_add':
            st.ghost['queued'] = True
            return [(st, C(1))]
        return None

    def key(self, st):
        m = st.mem.get(self.bb)
        return bool(st.ghost.get('queued')), repr(sorted(m.cells.items(), key=repr)) if m is not None else ''
    maxstates = 1
    alarms = ('oob', 'null', 'maynull', 'badptr', 'sovf')

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if isinstance(ptr, Ptr) and ptr.reg is self.bb:
            d = ptr.off - self.k.scale(self.size)
            self.ob(I, R_EFF, st.num.ge0(d) and st.num.ge0(C(self.size - size) - d), 'writes to another dirty rectangle than its own', 'own', inst)


def onedab(rep, empty):
    pr = par.shared()
    reset()
    ck = Dab(rep, pr)
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    nb = P(sym(('nbb',), 'num_bboxes', 1, 1 << 26, True))
    ck.k = P(sym(('slot',), 'slot', 0, 1 << 26, True))
    st.num.assume_ge(nb - ck.k - 1)
    ck.bb = heap(('bboxes',), 'bounding boxes', nb.scale(ck.size))
    ck.w.spec[(TS, 'bboxes')] = lambda *a: Ptr(ck.bb)
    ck.w.spec[(TS, 'num_bboxes')] = lambda *a: nb
    ck.w.spec[(TS, 'operation_queue')] = lambda *a: Ptr(heap(('opqueue',), 'operation queue', 24))
    old = rect('old', hi=(B << 1) - 1)
    if empty:
        old['width'] = old['height'] = ZERO
    else:
        # (boxes lie within the coordinate limit of dabs)
        for a, b in (('x', 'width'), ('y', 'height')):
            st.num.assume_ge(C(B + (1 << 25)) - old[a] - old[b])
    base = ck.k.scale(ck.size)
    ck.setrect(I, st, ck.bb, base, old)
    f = pr.fn(DAB)
    names = [p[0] for p in f.params]
    rng = {'x': (-B, B), 'y': (-B, B), 'radius': (None, RAD)}
    v = {}
    for n in names:
        v[n] = P(sym(('dab', n), n, *rng.get(n, (None, None))))
    v['self'], v['bbox_index'] = Ptr(s), ck.k
    if not {'x', 'y', 'radius', 'bbox_index', 'self'} <= set(names):
        raise Broken('%s has other parameters' % DAB)
    seen = set()
    for r, ret in I.call_fn(f, [v[n] for n in names], st, 0):
        z = r.decide(('eq', ret)) if isinstance(ret, Poly) else None
        seen.add(z)
        new = ck.getrect(I, r, ck.bb, base)
        if r.ghost.get('queued') or z is not True:
            rad = v['radius'] + 1
            # the pixels whose area may be touched: floor(centre - (radius + 1)) .. floor(centre + (radius + 1))
            ok = all(isinstance(q, Poly) for q in new.values())
            for c, o, w in (('x', 'x', 'width'), ('y', 'y', 'height')):
                good = ok and r.num.ge0(I.floor(r, v[c] - rad) - new[o]) and r.num.ge0(new[o] + new[w] - 1 - I.floor(r, v[c] + rad))
                ck.ob(I, R_DAB, good, 'the dirty rectangle %r does not cover the dab in direction %s' % (new, c), 'cover %s %s' % (c, empty), where=DAB)
        if not empty:
            same = new == old
            ck.ob(I, R_DAB, same or covers(r, new, *corners(old)), 'the dirty rectangle loses an area covered earlier', 'keep', where=DAB)
        elif not r.ghost.get('queued') and z is True:
            ck.ob(I, R_DAB, new == old or all(isinstance(q, Poly) for q in new.values()), 'refused dab', 'refused', where=DAB)
    if False not in seen and None not in seen:
        raise Broken('no dab is accepted')
    rep.analysed(*I.visited)


class Copies(Base):
    """slots of the copies of one dab"""
    unroll_limit = 6

    def key(self, st):
        return st.ghost.get('hit', 0), st.ghost.get('dabs', 0)
    cands = ()

    def on_call(self, I, st, inst, name, args, ctx):
        f = self.pr.functions.get(name)
        if f is not None and f.params and 'sret' in str(f.params[0]):
            return None
        if name != DAB:
            return None
        a = dict(zip([p[0] for p in self.pr.fn(DAB).params], args))
        b = a['bbox_index']
        self.n += I.recording
        if not isinstance(b, Poly):
            self.ob(I, R_IDX, False, 'rectangle index is unknown', 'unknown', inst)
            return [(st, P(sym(('drawn', I.iid(inst)), 'drawn', 0, 1, True)))]
        self.ob(I, R_IDX, st.num.ge0(b) and st.num.ge0(self.nb - 1 - b), 'rectangle index %r may be out of range' % (b,), 'index', inst)
        first = not st.ghost.get('dabs')
        st.ghost['dabs'] = 1
        out = []
        if not st.ghost.get('hit'):
            # the arbitrary slot K is the one of this dab
            h = st.copy()
            facts = [c for c in self.cands if st.num.ge0(c + self.K - b)]
            h.ghost['hit'] = (1,) + tuple(c in facts for c in self.cands)
            for c in facts:
                h.num.assume_ge(c)
            if b.isconst():
                h.assume(('eq', b - self.K))
            out.append((h, C(1)))
        if first:
            no = st.copy()
            out += [(st, C(1)), (no, ZERO)]
        else:
            out.append((st, P(sym(('drawn', I.iid(inst), ctx), 'drawn', 0, 1, True))))
        return out
    n = 0


def slots(rep, t):
    """draw_dab with symmetry type t (None: inactive)"""
    pr = par.shared()
    reset()
    ck = Copies(rep, pr)
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    nb0 = initial(rep, pr)
    ck.nb = P(sym(('nbb',), 'num_bboxes', nb0, 1 << 26, True))
    N = P(sym(('lines',), 'lines', 2, 1 << 24, True))
    ck.K = P(sym(('K',), 'K', 0, 1 << 26, True))
    old = P(sym(('dirty0',), 'dirtied before', 0, 1 << 26, True))
    st.num.assume_ge(ck.nb - old)
    ck.cands = [ck.nb - 1 - ck.K, N - 1 - ck.K, N.scale(2) - 1 - ck.K] + [C(k) - ck.K for k in range(4)]
    mats = heap(('mats',), 'matrices', 1 << 40)
    sp = ck.w.spec
    sp[(TS, 'num_lines')] = lambda *a: N
    sp[(TS, 'symmetry_matrices')] = lambda *a: Ptr(mats)
    sp[(TS, 'num_bboxes')] = lambda *a: ck.nb
    sp[(TS, 'num_bboxes_dirtied')] = lambda *a: old
    sp[(TS, 'active')] = lambda *a: C(0 if t is None else 1)
    sp[(TS, 'type')] = lambda *a: C(t or 0)
    sp[(TS, 'num_symmetry_matrices')] = lambda *a: P(sym(('nmat',), 'matrices', 1, 1 << 26, True))
    f = pr.fn('draw_dab')
    args = [Ptr(s)] + [P(sym(('in', p[0]), p[0])) for p in f.params[1:]]
    o = ck.lay.off(TS, 'num_bboxes_dirtied')
    for r, v in I.call_fn(f, args, st, 0):
        new = I.read(r, s, C(o), 4, ir.I32, None, 0)
        ok = isinstance(new, Poly)
        ck.ob(I, R_MONO, ok and r.num.ge0(new - old), 'the number of dirty rectangles may shrink to %r' % (new,), 'mono', where='draw_dab')
        ck.ob(I, R_IDX, ok and r.num.ge0(ck.nb - new), 'more dirty rectangles than there are', 'count', where='draw_dab')
        if r.ghost.get('hit'):
            ck.recall(r)
            ck.ob(I, R_USED, ok and r.num.ge0(new - ck.K - 1), 'a dab may be drawn to a rectangle beyond the %r reported' % (new,), 'used %s' % t, where='draw_dab')
            z = r.decide(('eq', v)) if isinstance(v, Poly) else None
            ck.ob(I, R_USED, z is False, 'an accepted dab is reported as refused', 'ret %s' % t, where='draw_dab')
    if not ck.n:
        raise Broken('no dab is drawn')
    rep.analysed(*I.visited)


def initial(rep, pr):
    """number of boxes of a new surface"""
    ck = Base(Quiet(), pr)
    ck.on_call = lambda I, st, inst, name, args, ctx: [(st, Ptr(heap(('q', name), name, 1 << 10)))] if name in ('operation_queue_new', 'malloc', 'calloc', 'realloc') else \
        [(st, None)] if name in ('mypaint_update_symmetry_state', 'mypaint_default_symmetry_data', 'mypaint_surface_init') else None
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('new surface', TS, 'new surface')
    f = pr.fn('mypaint_tiled_surface_init')
    fn = Ptr(heap(('cb',), 'callback', 8))
    for r, _ in I.call_fn(f, [Ptr(s), fn, fn], st, 0):
        n = I.read(r, s, C(ck.lay.off(TS, 'num_bboxes')), 4, ir.I32, None, 0)
        b = I.read(r, s, C(ck.lay.off(TS, 'bboxes')), 8, ir.PTR, None, 0)
        d = I.read(r, s, C(ck.lay.off(TS, 'num_bboxes_dirtied')), 4, ir.I32, None, 0)
        o, z = ck.lay.member(TS, 'default_bboxes')
        ok = isinstance(n, Poly) and n.isconst() and isinstance(b, Ptr) and b.reg is s and b.off == C(o) and n.cval() * ck.size <= z
        rep.ob(R_IDX, ok, 'mypaint_tiled_surface_init', 'a new surface has %r boxes of %d bytes in an array of %d' % (n, ck.size, z), key='init')
        rep.ob(R_BEGIN, d == ZERO, 'mypaint_tiled_surface_init', 'a new surface has %r dirty boxes' % (d,), key='init dirty')
        if ok:
            for k in range(int(n.cval())):
                w = I.read(r, s, C(o + k * ck.size + ck.off['width']), 4, ir.I32, None, 0)
                rep.ob(R_BEGIN, w == ZERO, 'mypaint_tiled_surface_init', 'box %d of a new surface is not empty' % k, key='init box')
            g = I.read(r, s, C(ck.lay.off(TS, 'get_color')), 8, ir.PTR, None, 0)
            initial.get_color = getattr(g, 'name', None)
            return int(n.cval())
    raise Broken('number of boxes of a new surface is unknown')


class Quiet:
    def ob(self, *a, **k):
        pass


class Begin(Base):
    """prepare the boxes of an atomic section"""
    unroll_limit = 6

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('malloc', 'calloc', 'realloc'):
            size = args[-1] if name != 'calloc' else args[0] * args[1]
            if not isinstance(size, Poly):
                raise Broken('size of the allocation is unknown')
            r = heap(('new', I.iid(inst), size), 'new boxes', size, uninit=True)
            st.mem[r] = RegMem(0, name != 'calloc')
            if name == 'calloc':
                st.mem[r].fills = ((ZERO, size, ('val', ZERO)),)
            bad = st.copy()
            bad.ghost['failed'] = True
            return [(st, Ptr(r)), (bad, Ptr(NULLR))]
        if name == 'free':
            return [(st, None)]
        if name == 'mypaint_update_symmetry_state':
            return [(st, None)]
        return None

    def key(self, st):
        return bool(st.ghost.get('failed'))

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if isinstance(ptr, Ptr) and ptr.reg is self.bb:
            n = size if isinstance(size, Poly) else C(size)
            if isinstance(val, tuple) and val[0] == 'copy':
                src = val[1]
                val = I.read(st, src.reg, src.off + self.off['width'], 4, ir.I32, inst, 0) if n == C(self.size) else None
            first, last = ptr.off.scale(ir_frac(1, self.size)), (ptr.off + n).scale(ir_frac(1, self.size))
            if whole(first) and whole(last) and val == ZERO and not (n == C(4)):
                if n == C(self.size):
                    I.write(st, self.shadow, first.scale(8), 8, C(1), inst, 0)
                else:
                    m = st.mem[self.shadow] = st.mem[self.shadow].copy()
                    m.fills = m.fills + ((first.scale(8), last.scale(8), ('val', C(1), 8)),)
                return
            i = (ptr.off - self.off['width']).scale(ir_frac(1, self.size))
            if val == ZERO and n.isconst() and n.cval() >= 4 and whole(i):
                I.write(st, self.shadow, i.scale(8), 8, C(1), inst, 0)
                return
            # other members of a box
            for f in ('x', 'y', 'height'):
                q = (ptr.off - self.off[f]).scale(ir_frac(1, self.size))
                if n == C(4) and whole(q):
                    return
            self.ob(I, R_BEGIN, False, 'writes %r to the dirty rectangles' % (val,), 'store', inst)


def whole(p):
    return all(getattr(c, 'denominator', 1) == 1 for c in p.t.values())


def ir_frac(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def begin(rep):
    pr = par.shared()
    reset()
    ck = Begin(rep, pr)
    ck.rule_alarm = R_IDX
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    nb0 = initial(Quiet(), pr)
    nb = P(sym(('nbb',), 'num_bboxes', nb0, 1 << 26, True))
    old = P(sym(('dirty0',), 'dirtied before', 0, 1 << 26, True))
    st.num.assume_ge(nb - old)
    N = P(sym(('lines',), 'lines', 2, 1 << 24, True))
    ck.bb = heap(('bboxes',), 'bounding boxes', nb.scale(ck.size))
    ck.shadow = heap(('shadow',), 'cleared', 1 << 50, uninit=True)
    st.mem[ck.shadow] = RegMem(0, True)
    sp = ck.w.spec
    sp[(TS, 'num_lines')] = lambda *a: N
    sp[(TS, 'type')] = lambda *a: P(sym(('type',), 'type', -1, 4, True))
    sp[(TS, 'num_bboxes')] = lambda *a: nb
    sp[(TS, 'num_bboxes_dirtied')] = lambda *a: old
    sp[(TS, 'bboxes')] = lambda *a: Ptr(ck.bb)
    n = 0
    for r, _ in I.call_fn(pr.fn('mypaint_tiled_surface_begin_atomic'), [Ptr(s)], st, 0):
        n += 1
        where = 'mypaint_tiled_surface_begin_atomic'
        get = lambda m, z, ty: I.read(r, s, C(ck.lay.off(TS, m)), z, ty, None, 0)
        d, b, k = get('num_bboxes_dirtied', 4, ir.I32), get('bboxes', 8, ir.PTR), get('num_bboxes', 4, ir.I32)
        ck.ob(I, R_BEGIN, d == ZERO, 'starts with %r dirty rectangles' % (d,), 'count', where=where)
        if not isinstance(b, Ptr) or not isinstance(k, Poly):
            ck.ob(I, R_IDX, False, 'array of rectangles is unknown', 'array', where=where)
            continue
        ck.ob(I, R_IDX, r.num.ge0(k - nb0), 'number of boxes may fall to %r' % (k,), 'shrink', where=where)
        if b.reg is ck.bb:
            ck.ob(I, R_IDX, b.off == ZERO and r.num.ge0(nb - k), '%r boxes in an array of %r' % (k, nb), 'size', where=where)
            m = r.mem.get(ck.shadow)
            ok = r.num.ge0(-old) or any(w[:2] == ('val', C(1)) and r.num.ge0(-a) and r.num.ge0(e - old.scale(8)) for a, e, w in m.fills)
            ck.ob(I, R_BEGIN, ok, 'rectangles of an earlier section are kept', 'clear', where=where)
        else:
            ck.ob(I, R_IDX, b.off == ZERO and r.num.ge0(b.reg.size - k.scale(ck.size)), '%r boxes in an array of %r bytes' % (k, b.reg.size), 'size', where=where)
            z = P(sym(('any',), 'any box', 0, 1 << 26, True))
            q = r.copy()
            q.num.assume_ge(k - 1 - z)
            w = I.read(q, b.reg, z.scale(ck.size) + ck.off['width'], 4, ir.I32, None, 0)
            ck.ob(I, R_BEGIN, w == ZERO, 'new boxes are not empty', 'new', where=where)
    if not n:
        raise Broken('begin_atomic does not return')
    rep.analysed(*I.visited)


class End(Base):
    """end of an atomic section"""
    unroll_limit = 6

    def key(self, st):
        return st.ghost.get('hit', 0), st.ghost.get('merging', 0)

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'operation_queue_get_dirty_tiles':
            t = args[1]
            n = P(sym(('tiles',), 'tiles', 0, 1 << 24, True))
            r = heap(('tiles',), 'dirty tiles', n.scale(8))
            I.write(st, t.reg, t.off, 8, Ptr(r), inst, ctx)
            return [(st, n)]
        if name in ('process_tile', 'operation_queue_clear_dirty_tiles'):
            return [(st, None)]
        if name == 'mypaint_rectangle_expand_to_include_rect':
            return self.merge(I, st, inst, args)
        return None

    def merge(self, I, st, inst, args):
        self.n += I.recording
        a, b = args
        ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is self.roi and b.reg is self.bb
        self.ob(I, R_END, ok, 'merges something else', 'what', inst)
        if not ok:
            return [(st, None)]
        i, o = b.off.scale(ir_frac(1, self.size)), a.off.scale(ir_frac(1, self.size))
        self.ob(I, R_IDX, st.num.ge0(i) and st.num.ge0(self.dirty - 1 - i), 'dirty rectangle %r' % (i,), 'src', inst)
        self.ob(I, R_IDX, st.num.ge0(o) and st.num.ge0(self.slots - 1 - o), 'output rectangle %r may be outside of the array of the caller' % (o,), 'dst', inst)
        st.ghost['merging'] = 1
        I.write(st, self.shadow, i.scale(8), 8, C(1), inst, 0)
        if st.ghost.get('hit'):
            return [(st, None)]
        h = st.copy()
        facts = [c for c in self.cands if st.num.ge0(c + self.K - o)]
        h.ghost['hit'] = (1,) + tuple(c in facts for c in self.cands)
        for c in facts:
            h.num.assume_ge(c)
        return [(st, None), (h, None)]
    n = 0

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if isinstance(ptr, Ptr) and ptr.reg is self.roi:
            self.ob(I, R_END, not st.ghost.get('merging'), 'overwrites an output rectangle after merging', 'late', inst)
        if isinstance(ptr, Ptr) and ptr.reg is self.bb:
            self.ob(I, R_END, False, 'overwrites a dirty rectangle before it is returned', 'early', inst)


def end(rep, fit):
    pr = par.shared()
    reset()
    ck = End(rep, pr)
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    nb = P(sym(('nbb',), 'num_bboxes', 1, 1 << 26, True))
    ck.dirty = P(sym(('dirty0',), 'dirtied', 0, 1 << 26, True))
    st.num.assume_ge(nb - ck.dirty)
    ck.slots = P(sym(('slots',), 'slots', 1, 1 << 24, True))
    # (every section belongs to one of the two cases)
    st.num.assume_ge(ck.slots - ck.dirty if fit else ck.dirty - ck.slots - 1)
    ck.K = P(sym(('K',), 'K', 0, 1 << 26, True))
    ck.cands = [ck.dirty - 1 - ck.K, ck.slots - 1 - ck.K]
    ck.bb = heap(('bboxes',), 'bounding boxes', nb.scale(ck.size))
    ck.roi = heap(('out',), 'output rectangles', ck.slots.scale(ck.size))
    ck.shadow = heap(('shadow',), 'merged', 1 << 50, uninit=True)
    st.mem[ck.shadow] = RegMem(0, True)
    roi = ck.w.obj('roi', 'MyPaintRectangles', 'roi')
    sp = ck.w.spec
    sp[(TS, 'bboxes')] = lambda *a: Ptr(ck.bb)
    sp[(TS, 'num_bboxes')] = lambda *a: nb
    sp[(TS, 'num_bboxes_dirtied')] = lambda *a: ck.dirty
    sp[(TS, 'operation_queue')] = lambda *a: Ptr(heap(('opqueue',), 'operation queue', 24))
    sp[('MyPaintRectangles', 'num_rectangles')] = lambda *a: ck.slots
    sp[('MyPaintRectangles', 'rectangles')] = lambda *a: Ptr(ck.roi)
    where = 'mypaint_tiled_surface_end_atomic'
    n = 0
    for r, _ in I.call_fn(pr.fn(where), [Ptr(s), Ptr(roi)], st, 0):
        n += 1
        k = I.read(r, roi, C(ck.lay.off('MyPaintRectangles', 'num_rectangles')), 4, ir.I32, None, 0)
        ok = isinstance(k, Poly) and r.num.ge0(ck.slots - k) and r.num.ge0(k)
        ck.ob(I, R_IDX, ok, 'returns %r rectangles in an array of %r' % (k, ck.slots), 'returned', where=where)
        m = r.mem.get(ck.shadow)
        full = r.num.ge0(-ck.dirty) or any(w[:2] == ('val', C(1)) and r.num.ge0(-a) and r.num.ge0(e - ck.dirty.scale(8)) for a, e, w in m.fills)
        ck.ob(I, R_END, full, 'a dirty rectangle may be left out', 'all', where=where)
        if r.ghost.get('hit'):
            ck.recall(r)
            ck.ob(I, R_END, ok and r.num.ge0(k - ck.K - 1), 'a dirty rectangle may be merged beyond the %r that are returned' % (k,), 'beyond', where=where)
    if not n:
        raise Broken('end_atomic does not return')
    rep.analysed(*I.visited)


def effects(rep):
    """nothing but drawing a dab and the begin of a section writes the dirty rectangles"""
    pr = par.shared()
    initial(Quiet(), pr)
    if not initial.get_color:
        raise Broken('get_color of a tiled surface is unknown')
    roots = [initial.get_color, 'process_tile', 'mypaint_tiled_surface_set_symmetry_state', 'mypaint_tiled_surface_get_alpha',
             'mypaint_tiled_surface_tile_request_start', 'mypaint_tiled_surface_tile_request_end']
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        f = pr.functions.get(n)
        if f is None or n in seen or not f.blocks:
            continue
        seen.add(n)
        env = {}
        for i in f.insts():
            for o in irq.operands(i):
                todo += irq.grefs(o)
            if i.op == 'call' and i.ops:
                todo += irq.grefs(i.ops[0])
            if i.op == 'getelementptr':
                ty = i.x[0]
                nm = str(ty.a if getattr(ty, 'kind', '') == 'named' else ty)
                if 'MyPaintRectangle' in nm:
                    env[str(i.res)] = 'a rectangle'
                elif 'MyPaintTiledSurface' in nm and len(i.ops) > 2:
                    off, m = 0, f.module
                    idx = i.ops[2]
                    if hasattr(idx, 'v'):
                        off, _ = m.field_offset(ty, int(idx.v))
                        mem = lay(pr).name_at(TS, off)
                        if mem in ('num_bboxes', 'num_bboxes_dirtied', 'bboxes', 'default_bboxes'):
                            env[str(i.res)] = mem
            elif i.op == 'store':
                a = str(i.ops[1]).lstrip('%')
                rep.ob(R_EFF, a not in env, irq.where(f, i), '%s, reached without drawing a dab, writes %s' % (n, env.get(a)), key='eff %s %s' % (n, env.get(a)))
    if len(seen) < 5:
        raise Broken('only %d functions are reached' % len(seen))
    rep.analysed(*seen)


_LAY = {}


def lay(pr):
    if id(pr) not in _LAY:
        _LAY[id(pr)] = Layout(pr)
    return _LAY[id(pr)]


def run(rep, w):
    pr = w.program()
    jobs = [(growth, ('point', False)), (growth, ('point', True)), (growth, ('rect', False)), (growth, ('rect', True)), (growth, ('rect', False, True)),
            (onedab, (False,)), (onedab, (True,)), (begin, ()), (effects, ()), (end, (0,)), (end, (1,)), (slots, (None,))]
    jobs += [(slots, (v,)) for n, v in sorted(lay(pr).enum('MYPAINT_SYMMETRY_TYPE_').items()) if not n.endswith('COUNT')]
    par.run(rep, jobs, ctx=pr)
