"""C08 Every dab is queued to every tile it can touch."""
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, SYMS, Poly
from ..interp import Checker, Interp, State, Ptr, RegMem, Parts, reset, Bool
from ..objs import Layout, World, heap, number
from ..report import Broken
from ..tiles import tileof, TS

META = {
    'level': 'proof',
    'technique': 'abstract interpretation: relational loop invariants for the tile enumeration (product coverage of rows and columns), allocation typestate',
    'note': 'every dab position and radius below 2^29, exact real arithmetic',
    'explanation': 'each enqueue event is related to the tile range of the dab; a row counts as complete when the inner loop is left with '
                   'an array-fill invariant over all columns, the enumeration when the outer loop is left with all rows complete; every queued '
                   'operation is an object allocated for this tile whose fields do not depend on the tile',
    'trusted': ['contracts of the operation queue (C10)'],
}
OP = 'OperationDataDrawDab'
R_ALL = 'an accepted dab is queued for every tile of its rectangle'
R_ONLY = 'a dab is queued for no tile outside of its rectangle'
R_ONCE = 'a dab is queued once per tile'
R_OWN = 'every tile gets its own complete copy'
R_SAME = 'every copy has the parameters of the dab'
R_REF = 'a refused dab is queued nowhere, and only dabs without effect are refused'
R_REND = 'a queued dab is rendered at its position relative to the tile'
PARAMS = ['x', 'y', 'radius', 'color_r', 'color_g', 'color_b', 'opaque', 'hardness', 'softness', 'color_a', 'aspect_ratio',
          'angle', 'lock_alpha', 'colorize', 'posterize', 'posterize_num', 'paint']
EXACT = ('x', 'y', 'radius', 'angle')
LIM = 1 << 29


def params(bounds=None):
    return {n: P(sym(('arg', n, (bounds or {}).get(n)), n, *(bounds or {}).get(n, (None, None)))) for n in PARAMS}


class Dab(Checker):
    """draw_dab with symmetry switched off"""
    maxstates = 1
    exactjoin = True

    def __init__(self, rep, pr, bounds=None, prove=True):
        self.rep, self.pr, self.prove = rep, pr, prove
        self.lay = lay = Layout(pr)
        self.w = World(lay)
        self.queue = heap(('opqueue',), 'operation queue', 24)
        self.w.spec[(TS, 'operation_queue')] = lambda *a: Ptr(self.queue)
        self.w.spec[(TS, 'active')] = lambda *a: ZERO
        self.w.spec[(TS, 'bboxes')] = lambda *a: Ptr(heap(('bboxes',), 'bboxes', 16 * 32))
        self.p = params(bounds)
        big = C(1 << 50)
        self.sh = {k: heap(('shadow', k), k, big, uninit=True) for k in ('rowcells', 'colcells', 'rows', 'cols')}
        self.events = []
        self.copies = []

    def key(self, st):
        return tuple(sorted((k for k in st.ghost if isinstance(k, tuple)), key=repr))

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def ob(self, I, inst, rule, ok, msg, key):
        if self.prove and I.recording:
            self.rep.ob(rule, ok, I.where(inst) if inst is not None else 'draw_dab', msg, key=key)

    def span(self, st, a, b, k):
        """[a, b) in tile units covers the tiles of the dab in direction k: (too small, too large)"""
        c, r = self.p['xy'[k]], self.p['radius'] + 1
        ge, gt = st.num.ge0, st.num.gt0
        return ge(c - r - a.scale(64)) and gt(b.scale(64) - c - r)

    def inside(self, st, t, k):
        c, r = self.p['xy'[k]], self.p['radius'] + 1
        ge, gt = st.num.ge0, st.num.gt0
        return ge(c + r - t.scale(64)) and gt(t.scale(64) + 64 - (c - r))

    def cell(self, I, st, which, t):
        m = st.mem.get(self.sh[which])
        c = m.cells.get(t.scale(8)) if m else None
        return c[1] if c else None

    def clear(self, st, which):
        st.mem[self.sh[which]] = RegMem(0, True)

    def covered(self, st, which, k):
        m = st.mem.get(self.sh[which])
        for a, b, w in reversed(m.fills if m else ()):
            while w[0] == 'val' and b in m.cells and m.cells[b][1] == w[1]:
                b = b + 8
            if w[0] == 'val' and isinstance(w[1], Poly) and self.span(st, eighth(a), eighth(b), k):
                return w[1]
        return None

    def on_loop_exit(self, I, st, fn, loop, ctx):
        for cells, full, k in (('rowcells', 'rows', 0), ('colcells', 'cols', 1)):
            v = self.covered(st, cells, k)
            if v is not None:
                t = v
                m = st.mem[self.sh[full]]
                for a, b, w in m.fills:
                    # a row completed before must be another one
                    out = st.num.ge0(a - t.scale(8) - 8) or st.num.ge0(t.scale(8) - b)
                    self.ob(I, None, R_ONCE, out, 'tiles of row or column %r are queued again' % (t,), 'again')
                c = m.cells.get(t.scale(8))
                if c is not None and c[1] == C(1):
                    self.ob(I, None, R_ONCE, False, 'tiles of row or column %r are queued again' % (t,), 'again')
                I.write(st, self.sh[full], t.scale(8), 8, C(1), fn.blocks[loop.header].insts[-1], 0)
                for c in ('rowcells', 'colcells'):
                    self.clear(st, c)

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('malloc', 'calloc'):
            r = heap(('op', I.iid(inst)), 'operation copy', C(self.lay.size(OP)), uninit=name == 'malloc')
            st.mem[r] = RegMem(0, name == 'malloc')
            st.ghost[('own', r.id)] = True
            return [(st, Ptr(r))]
        if name == 'operation_queue_add':
            self.add(I, st, inst, args)
            st.ghost[('queued',)] = True
            return [(st, C(1))]
        if name == 'update_dirty_bbox' or name.startswith('mypaint_rectangle'):
            return [(st, None)]
        return None

    def add(self, I, st, inst, args):
        q, idx, op = args
        tx, ty = tileof(idx)
        if not isinstance(tx, Poly) or not isinstance(ty, Poly):
            raise Broken('tile index of %s is unknown' % I.where(inst))
        self.ob(I, inst, R_ALL, isinstance(q, Ptr) and q.reg is self.queue and q.off == ZERO, 'operation goes to another queue', 'queue')
        for k, t in enumerate((tx, ty)):
            self.ob(I, inst, R_ONLY, self.inside(st, t, k), 'tile %s %r may be outside of the rectangle of the dab' % ('xy'[k], t), 'only')
        own = isinstance(op, Ptr) and ('own', op.reg.id) in st.ghost and op.off == ZERO
        self.ob(I, inst, R_OWN, own, 'the queued operation is not a copy made for this tile', 'own')
        if own:
            del st.ghost[('own', op.reg.id)]
            vals = {}
            young = min([q for t in (tx, ty) for q in t.syms() if SYMS[q].key[0] == 'n'] or [s.id for s in SYMS if s.key[0] == 'n'] or [1 << 40])
            for n, o, z in self.lay.members(OP):
                c = st.mem[op.reg].cells.get(C(o))
                v = I.read(st, op.reg, C(o), z, ir.FLOAT if z == 4 else ir.Type('int', z * 8), inst, 0)
                vals[n] = v
                self.ob(I, inst, R_OWN, isinstance(v, Poly), 'field %s of the copy is not set' % n, 'field ' + n)
                # the same on every iteration: no symbol that belongs to a loop
                bad = [q for q in v.syms() if q >= young] if isinstance(v, Poly) else []
                self.ob(I, inst, R_SAME, not bad, 'field %s depends on the tile' % n, 'loop ' + n)
            for n in EXACT:
                self.ob(I, inst, R_SAME, vals.get(n) == self.p[n], 'field %s is %r' % (n, vals.get(n)), 'same ' + n)
            if I.recording:
                self.copies.append((st.copy(), vals, I.where(inst)))
        dup = self.cell(I, st, 'rowcells', tx) == ty and self.cell(I, st, 'colcells', ty) == tx
        self.ob(I, inst, R_ONCE, not dup, 'the tile is queued twice', 'dup')
        I.write(st, self.sh['rowcells'], tx.scale(8), 8, ty, inst, 0)
        I.write(st, self.sh['colcells'], ty.scale(8), 8, tx, inst, 0)
        if I.recording:
            self.events.append((I.where(inst), tx, ty))


def eighth(p):
    return p.scale(Fraction(1, 8))


def draw(rep, pr, bounds=None, prove=True):
    """interpret draw_dab; (checker, [(state, value)])"""
    reset()
    ck = Dab(rep, pr, bounds, prove)
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    for r in ck.sh.values():
        st.mem[r] = RegMem(0, True)
    f = pr.fn('draw_dab')
    if len(f.params) != len(PARAMS) + 1:
        raise Broken('draw_dab has other parameters')
    res = I.call_fn(f, [Ptr(s)] + [ck.p[n] for n in PARAMS], st, 0)
    if prove:
        rep.analysed(*I.visited)
    return ck, I, res


def queue(rep):
    ck, I, res = draw(rep, par.shared())
    for r, v in res:
        z = r.decide(('eq', v)) if isinstance(v, Poly) else None
        q = ('queued',) in r.ghost
        if z is None:
            ck.ob(I, None, R_REF, False, 'result is undetermined (%r)' % (v,), 'ret')
        elif z:
            ck.ob(I, None, R_REF, not q, 'reports that nothing was drawn after queueing operations', 'ret0')
        else:
            ok = ck.covered(r, 'rows', 1) is not None or ck.covered(r, 'cols', 0) is not None
            ck.ob(I, None, R_ALL, ok, 'a tile of the rectangle may be left out', 'cover')
    if not ck.events:
        raise Broken('no operation is queued')


def refuse(rep):
    """dabs that leave a mark: within the coordinate range, radius of at least 0.1, some opacity, hardness, not fully soft"""
    tiny = Fraction(1, 1 << 30)
    b = {'x': (-LIM, LIM), 'y': (-LIM, LIM), 'radius': (Fraction(float.fromhex('0x1.99999ap-4')), LIM), 'hardness': (tiny, None),
         'opaque': (tiny, None), 'softness': (None, 1 - Fraction(1, 1 << 24))}
    ck, I, res = draw(rep, par.shared(), b)
    ck.ob(I, None, R_REF, bool(res), 'never returns', 'some')
    for r, v in res:
        z = r.decide(('eq', v)) if isinstance(v, Poly) else None
        ck.ob(I, None, R_REF, z is False, 'a dab that leaves a mark is refused', 'refused')


class Render(Checker):
    linear = False
    maxstates = 64

    def __init__(self, rep, pr):
        self.rep, self.pr = rep, pr
        self.lay = Layout(pr)
        self.mask = heap(('mask',), 'mask', 1 << 16)
        self.tile = heap(('tilebuf',), 'tile', 64 * 64 * 8)
        self.op = heap(('op',), 'operation', self.lay.size(OP))

    def key(self, st):
        return st.ghost.get('masked', 0)

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.op and off.isconst():
            n = self.lay.name_at(OP, int(off.cval()))
            if ty.kind == 'int':
                return P(sym(('op', n), 'op.' + n, 0, (1 << ty.a) - 1 if ty.a < 32 else None, True))
            return P(sym(('op', n), 'op.' + n, None, None))

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'render_dab_mask':
            st.ghost['masked'] = min(st.ghost.get('masked', 0) + 1, 2)
            f = lambda n: P(sym(('op', n), 'op.' + n, None, None))
            t = [P(sym(('tx', k), 't' + k, -(1 << 24), 1 << 24, True)) for k in 'xy']
            want = [f('x') - t[0].scale(64), f('y') - t[1].scale(64)] + [f(n) for n in ('radius', 'hardness', 'softness', 'aspect_ratio', 'angle')]
            names = ['x', 'y', 'radius', 'hardness', 'softness', 'aspect ratio', 'angle']
            ok = isinstance(args[0], Ptr) and args[0].reg is self.mask and args[0].off == ZERO
            self.ob(I, inst, ok, 'the mask is rendered elsewhere', 'mask')
            for n, a, b in zip(names, args[1:], want):
                self.ob(I, inst, isinstance(a, Poly) and a == b, '%s of the mask is %r, not %r' % (n, a, b), 'mask ' + n)
            return [(st, None)]
        if any(isinstance(a, Ptr) and a.reg is self.tile for a in args):
            m = [a for a in args if isinstance(a, Ptr) and a.reg is not self.tile]
            self.ob(I, inst, len(m) == 1 and m[0].reg is self.mask and m[0].off == ZERO, '%s is given another mask' % name, 'use ' + name)
            self.ob(I, inst, st.ghost.get('masked') == 1, '%s: the mask was rendered %d times' % (name, st.ghost.get('masked', 0)), 'n ' + name)
            self.n += I.recording
            return [(st, None)]
        return None
    n = 0

    def ob(self, I, inst, ok, msg, key):
        if I.recording:
            self.rep.ob(R_REND, ok, I.where(inst), msg, key=key)


def render(rep):
    pr = par.shared()
    reset()
    ck = Render(rep, pr)
    I = Interp(pr, ck)
    st = State()
    t = [P(sym(('tx', k), 't' + k, -(1 << 24), 1 << 24, True)) for k in 'xy']
    I.call_fn(pr.fn('process_op'), [Ptr(ck.tile), Ptr(ck.mask), t[0], t[1], Ptr(ck.op)], st, 0)
    if not ck.n:
        raise Broken('process_op draws nothing')
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    par.run(rep, [(queue, ()), (refuse, ()), (render, ())], ctx=pr)
