"""C27 Random numbers stay in range and in their own stream."""
from fractions import Fraction
from .. import ir, irq
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, FnV, UNDEF
from ..objs import Layout, heap
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation: interval invariant on generator memory, typestate of the read position, effect analysis',
    'note': 'all seeds, all histories (the invariant holds between any two calls)',
    'explanation': 'every number stored in generator memory is in [0,1), assuming so for every number read; the read position stays '
                   'between the first element and the end marker; all accesses stay in the own object; seeding reads nothing '
                   'that it has not written',
    'trusted': [],
}
R_VAL = 'number stored in generator memory is in [0,1)'
R_RET = 'returned number is in [0,1)'
R_POS = 'read position stays on a number or on the end marker'
R_OWN = 'only the own object is accessed'
R_SEED = 'seeding overwrites the whole state before reading it'
R_MEM = 'access lies inside its array'


class Ck(Checker):
    maxstates = 2
    unroll_limit = 64

    def __init__(self, rep, lay, uninit=False):
        self.rep, self.lay = rep, lay
        self.self = heap('self', 'generator', lay.size('RngDouble'), uninit=uninit)
        self.uo, self.uz = lay.member('RngDouble', 'ran_u')
        self.bo, self.bz = lay.member('RngDouble', 'ranf_arr_buf')
        self.po = lay.off('RngDouble', 'ranf_arr_ptr')
        self.marks = []
        self.cur = None           # (region offset, value) of the current number for `next`
        self.seeding = False
        self.globs = set()

    def numbers(self, I, reg, off, ty):
        """is this place generator number memory?"""
        if ty.kind != 'double':
            return False
        return reg is self.self or reg.kind == 'alloca'

    def inrange(self, st, v):
        if not isinstance(v, Poly):
            return False
        for x in v.syms():              # 0 <= p - floor(p) < 1
            d = SYMS[x].defn
            if d and d[0] == 'floor' and st.num.norm(v + P(SYMS[x])) == st.num.norm(d[1]):
                return True
        if not st.num.ge0(v):
            return False
        if st.num.gt0(C(1) - v):
            return True
        return False

    def on_load(self, I, st, inst, ptr, size, ty):
        r = ptr.reg
        self.own(I, inst, r, 'read')
        if not self.numbers(I, r, ptr.off, ty):
            return None
        if self.cur is not None and r is self.self and ptr.off == self.cur[0]:
            return self.cur[1]
        m = st.mem.get(r)
        c = m.cells.get(ptr.off) if m is not None else None
        if c is not None and (c[1] is UNDEF or self.inrange(st, c[1]) and self.simple(c[1])):
            return None
        if c is None and (m.uninit if m is not None else r.uninit) is True:
            return None
        # an element that may be the end marker (only in rng_double_next)
        lo = -1 if self.cur is not None and r is self.self else 0
        s = P(sym(('rn', I.iid(inst), r.key, ptr.off, I.lctx), 'x', lo, 1))
        st.num.assume_ge(C(1) - s, True)
        if c is not None:
            st.mem[r] = m = m.copy() if hasattr(m, 'copy') else m
            m.cells[ptr.off] = (8, s)
        return s

    def simple(self, v):
        """a sum whose terms are not numbers of the generator themselves (those are forgotten once stored)"""
        return v.isconst() or len(v.t) == 1 or all(SYMS[x].key[0] in ('seed', 'floor') for x in v.syms())

    def on_store(self, I, st, inst, ptr, size, val, ty):
        r = ptr.reg
        self.own(I, inst, r, 'write')
        if not self.numbers(I, r, ptr.off, ty) or not I.recording:
            return
        if r is self.self:
            ok = any(st.num.ge0(ptr.off - o) and st.num.ge0(C(o + z - 8) - ptr.off) for o, z in ((self.uo, self.uz), (self.bo, self.bz)))
            self.rep.ob(R_MEM, ok, I.where(inst), 'number written at generator+%r' % (ptr.off,), key='mem@' + inst.fn.name)
        v = val
        if isinstance(v, Poly) and v == C(-1) and r is self.self and ptr.off.isconst():
            self.marks.append(int(ptr.off.cval()))
            return
        self.rep.ob(R_VAL, self.inrange(st, v), I.where(inst), 'value %r, range %s' % (v, st.num.range(v) if isinstance(v, Poly) else '?'),
                    key='val@' + inst.fn.name)

    def own(self, I, inst, r, rw):
        if not I.recording:
            return
        ok = r is self.self or r.kind in ('alloca',) or rw == 'read' and r.kind == 'glob' or r.kind == 'heap'
        self.rep.ob(R_OWN, ok, I.where(inst), '%s of %r' % (rw, r), key='own@' + inst.fn.name)

    def alarm(self, I, st, kind, inst, msg):
        if inst is None:
            return
        if kind == 'oob' or kind == 'index':
            self.rep.ob(R_MEM, False, I.where(inst), msg, key='mem@' + inst.fn.name)
        if kind == 'uninit':
            self.rep.ob(R_SEED, False, I.where(inst), msg, key='uninit@' + inst.fn.name)
        if kind == 'fptoint':
            self.rep.ob(R_VAL, False, I.where(inst), msg, key='conv@' + inst.fn.name)


def marker(ck, I, st, v):
    """pointer value that makes the next call refill: a constant that holds a negative number"""
    if not isinstance(v, Ptr) or v.reg.kind != 'glob':
        return False
    x = I.read(st, v.reg, v.off, 8, ir.DOUBLE, None, ('mk', 0))
    return isinstance(x, Poly) and x.isconst() and x.cval() < 0


def position(rep, ck, I, st, mark, where, name):
    v = I.read(st, ck.self, C(ck.po), 8, ir.PTR, None, ('pos', 0))
    ok = marker(ck, I, st, v)
    if not ok and isinstance(v, Ptr) and v.reg is ck.self and mark is not None:
        ok = st.num.ge0(v.off - ck.bo) and st.num.ge0(C(mark) - v.off) and v.off.isint() and \
            all((k - (ck.bo if m == () else 0)) % 8 == 0 for m, k in v.off.t.items())
    rep.ob(R_POS, ok, where, '%s leaves the read position at %r' % (name, v), key='pos@' + name)


def run(rep, w):
    pr = w.program()
    lay = Layout(pr)
    for m in pr.modules:
        for g in m.globals.values():
            if g.name.startswith('ranf_arr_') and not g.const:
                rep.ob(R_OWN, False, m.name, 'end marker %s is writable' % g.name, key='marker')

    # (1) seeding
    reset()
    ck = Ck(rep, lay, uninit=True)
    I = Interp(pr, ck)
    st = State()
    st.mem[ck.self] = RegMem(0, True)
    seed = sym(('seed',), 'seed', -(1 << 63), (1 << 63) - 1, True)
    rets = I.call_fn(pr.fn('rng_double_set_seed'), [Ptr(ck.self), P(seed)], st, 0)
    rep.analysed(*I.visited)
    if not rets:
        raise Broken('rng_double_set_seed never returns')
    for s, v in rets:
        position(rep, ck, I, s, None, 'rng-double.c (rng_double_set_seed)', 'rng_double_set_seed')
        mm = s.mem[ck.self]
        for k in range(ck.uz // 8):
            c = mm.cells.get(C(ck.uo + 8 * k))
            rep.ob(R_SEED, c is not None and c[1] is not UNDEF, 'rng-double.c (rng_double_set_seed)', 'element %d of the state is not set' % k,
                   key='state')

    # (2) refill: marker position, then everything before the marker is a number
    reset()
    ck = Ck(rep, lay)
    I = Interp(pr, ck)
    st = State()
    rets = I.call_fn(pr.fn('rng_double_cycle'), [Ptr(ck.self)], st, 0)
    rep.analysed(*I.visited)
    marks = {m for m in ck.marks if ck.bo <= m < ck.bo + ck.bz}
    rep.ob(R_POS, len(marks) == 1 and set(ck.marks) == marks, 'rng-double.c (rng_double_cycle)', 'end markers at %s' % sorted(ck.marks), key='mark')
    mark = max(marks) if marks else None
    for s, v in rets:
        rep.ob(R_RET, ck.inrange(s, v), 'rng-double.c (rng_double_cycle)', 'returns %r' % (v,), key='ret@cycle')
        position(rep, ck, I, s, mark, 'rng-double.c (rng_double_cycle)', 'rng_double_cycle')
        if mark is None:
            continue
        mm = s.mem[ck.self]
        for o in range(ck.bo, mark, 8):
            c = mm.cells.get(C(o))
            rep.ob(R_VAL, c is not None and ck.inrange(s, c[1]), 'rng-double.c (rng_double_cycle)', 'number at offset %d before the end marker: %r'
                   % (o, c), key='filled')
        c = mm.cells.get(C(mark))
        rep.ob(R_POS, c is not None and c[1] == C(-1), 'rng-double.c (rng_double_cycle)', 'end marker overwritten by %r' % (c,), key='mark2')

    # (3) next number, for each kind of read position
    for kind in ('number', 'end', 'refill'):
        if mark is None:
            break
        reset()
        ck = Ck(rep, lay)
        I = Interp(pr, ck)
        st = State()
        if kind == 'number':
            k = sym(('k',), 'k', 0, (mark - ck.bo) // 8 - 1, True)
            off = C(ck.bo) + P(k).scale(8)
            x = P(sym(('cur',), 'cur', 0, 1))
            st.num.assume_ge(C(1) - x, True)
            ck.cur = (off, x)
            pos = Ptr(ck.self, off)
        elif kind == 'end':
            ck.cur = (C(mark), C(-1))
            pos = Ptr(ck.self, C(mark))
        else:
            pos = None
            for m in pr.modules:
                for g in m.globals.values():
                    if g.name.startswith('ranf_arr_'):
                        pos = I.gref(g.name, m)
            if pos is None:
                continue
        m = RegMem(0, False)
        m.cells[C(ck.po)] = (8, pos)
        st.mem[ck.self] = m

        class Off:
            pass
        old = ck.on_call

        def on_call(I2, s2, inst, name, args, ctx, ck=ck):
            if name == 'rng_double_cycle':
                ck.cur = None
            return None
        ck.on_call = on_call
        rets = I.call_fn(pr.fn('rng_double_next'), [Ptr(ck.self)], st, 0)
        rep.analysed(*I.visited)
        if not rets:
            raise Broken('rng_double_next (%s) never returns' % kind)
        for s, v in rets:
            rep.ob(R_RET, ck.inrange(s, v), 'rng-double.c (rng_double_next)', 'with the position on %s: returns %r, range %s'
                   % (kind, v, s.num.range(v) if isinstance(v, Poly) else '?'), key='ret@next-' + kind)
            position(rep, ck, I, s, mark, 'rng-double.c (rng_double_next)', 'rng_double_next')
    # callees outside the file
    for m in pr.modules:
        if any(f.startswith('rng_double_') for f in m.functions):
            for n, uses in irq.externals(pr).items():
                for f, i in uses:
                    if f.module is m and not n.startswith('llvm.'):
                        rep.ob(R_OWN, n in ('malloc', 'free', 'calloc'), irq.where(f, i), 'uses %s' % n, key='ext@' + n)
    rep.require(R_VAL, 30)
    rep.require(R_RET, 2)
    rep.require(R_POS, 3)
