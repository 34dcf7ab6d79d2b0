"""C18 Reset makes the brush forget its history."""
from .. import ir, irq, par
from ..dom import C, P, ZERO, sym, Poly
from ..interp import Checker, Interp, State, Ptr, region, reset
from ..objs import Layout, World, heap, number
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of the event function under the reset condition: final content of every history member; '
                 'typestate of the used-bucket interval over every function that touches the buckets',
    'note': 'arbitrary previous brush state, event and brush settings; finite event coordinates',
    'explanation': 'the event function is interpreted with a pending reset request and with a pause above the limit; every returned '
                   'state is compared member by member with the documented initial state; the bucket interval that the reset clears '
                   'is shown to contain every bucket that any function writes or hands out',
    'trusted': ['skipped time is never negative (it only accumulates positive event times)'],
}
R_NOSURF = 'no access to the surface while resetting'
R_TRUE = 'the stroke is reported as finished'
R_STATE = 'every state has its initial value'
R_POS = 'brush is placed at the event'
R_SKIP = 'pending skip is forgotten'
R_RND = 'the random input is drawn anew'
R_SETV = 'current setting values restart from the base values'
R_BK = 'every bucket in the used interval is cleared and the interval is empty afterwards'
R_USED = 'a bucket that is written or handed out lies in the used interval'
R_REQ = 'reset request is served once'
R_PUB = 'requesting a reset sets the request; a new brush starts with one'
R_HALF = 'the pressureless half of a split event is the one that resets'

ROOT = 'mypaint_brush_stroke_to'
ENGINE = ('update_states_and_setting_values', 'prepare_and_draw_dab')
LIMIT = 5


class Base(Checker):
    maxstates = 60

    def key(self, st):
        m = st.mem.get(self.brush)
        return repr((st.isnull(self.bk), st.ghost.get('wr'), [m.cells.get(o) for o in self.pos] if m else None))

    def __init__(self, rep, pr):
        self.rep = rep
        self.lay = L = Layout(pr)
        self.w = W = World(L)
        self.brush = W.obj('brush', 'MyPaintBrush')
        s = L.enum('MYPAINT_BRUSH_STATE_')
        self.pos = [C(0) + L.off('MyPaintBrush', 'states') + 4 * s['MYPAINT_BRUSH_STATE_' + a] for a in ('X', 'Y')]
        self.bsz = L.enum('SMUDGE_BUCKET_SIZE').get('SMUDGE_BUCKET_SIZE')
        self.nb = sym(('nb',), 'num_buckets', 1, 1 << 24, True)
        self.lo = sym(('lo',), 'min_bucket_used', 0, 1 << 24, True)
        self.hi = sym(('hi',), 'max_bucket_used', 0, 1 << 24, True)
        self.bk = heap('buckets', 'smudge_buckets', P(self.nb).scale(4 * self.bsz), nullable=True)
        W.spec[('MyPaintBrush', 'settings')] = self.setting
        W.spec[('MyPaintBrush', 'smudge_buckets')] = lambda *a: Ptr(self.bk)
        W.spec[('MyPaintBrush', 'num_buckets')] = lambda *a: P(self.nb)
        W.spec[('MyPaintBrush', 'rng')] = lambda *a: Ptr(heap('rng', 'rng', 4096))
        W.spec[('MyPaintBrush', 'skipped_dtime')] = number('skipped_dtime', 0, 1e9, False)
        W.spec[('MyPaintMapping', 'base_value')] = self.base

    def setting(self, I, st, reg, off, ty, key):
        return Ptr(self.w.obj(('mapping', off), 'MyPaintMapping', 'mapping@%r' % off))

    def base(self, I, st, reg, off, ty, key):
        return P(sym(('basevalue', reg.key[1]), 'base(%r)' % (reg.key[1],)))

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def member(self, I, st, name, ty, k=0):
        o, z = self.lay.member('MyPaintBrush', name)
        sz = {'f': 4, 'd': 8, 'i': 4, 'p': 8}[ty]
        t = {'f': ir.FLOAT, 'd': ir.DOUBLE if hasattr(ir, 'DOUBLE') else ir.Type('double'), 'i': ir.I32, 'p': ir.PTR}[ty]
        return I.read(st, self.brush, C(o + k * sz), sz, t, None, ('m', name, k))


class Reset(Base):
    def __init__(self, rep, pr, what):
        Base.__init__(self, rep, pr)
        self.surf = heap('surface', 'surface', 4096)
        self.what = what
        self.depth = 0
        self.W_reset(what)
        self.fills = 0

    def W_reset(self, what):
        W = self.w
        if what == 'request':
            W.spec[('MyPaintBrush', 'reset_requested')] = lambda *a: P(sym(('rr',), 'reset_requested', 1, 1 << 30, True))
        W.spec[('MyPaintBrush', 'min_bucket_used')] = lambda *a: P(self.lo) if self.interval else C(-1)
        W.spec[('MyPaintBrush', 'max_bucket_used')] = lambda *a: P(self.hi) if self.interval else C(-1)

    def on_call(self, I, st, inst, name, args, ctx):
        if name == ROOT:                     # the pressureless half of an event, analysed as an event of its own
            ok = isinstance(args[1], Ptr) and args[1].reg is self.surf
            a = [I.asnum(st, v) for v in (args[2], args[3], args[4], args[7])]
            ok = ok and a[0] == self.x and a[1] == self.y and st.num.ge0(a[2]) and st.num.ge0(-a[2])
            if self.what == 'pause':
                ok = ok and st.num.ge0(a[3] - LIMIT)
            self.rep.ob(R_HALF, ok, I.where(inst), 'first half is called with %r' % (a,), key='half')
            return []
        if any(isinstance(a, Ptr) and a.reg is self.surf for a in args):
            self.rep.ob(R_NOSURF, False, I.where(inst), 'call of %s with the surface on the reset path' % name, key='surf@' + name)
            return []
        if name in ENGINE:
            self.rep.ob(R_NOSURF, False, I.where(inst), '%s called on the reset path' % name, key='sim@' + name)
            return []
        if name in ('rand_gauss', 'rng_double_next'):
            return [(st, P(sym(('rnd', ctx, I.iid(inst)), name, -10, 10)))]
        return None

    def on_icall(self, I, st, inst, fv, args, ctx):
        self.rep.ob(R_NOSURF, False, I.where(inst), 'indirect call on the reset path', key='icall')
        return []


def event(rep, what, noise, press, interval):
    pr = par.shared()
    reset()
    ck = Reset(rep, pr, what)
    ck.interval = interval
    L, W = ck.lay, ck.w
    fn = pr.fn(ROOT)
    I = Interp(pr, ck)
    st = State()
    states = L.enum('MYPAINT_BRUSH_STATE_')
    sets = L.enum('MYPAINT_BRUSH_SETTING_')
    tn = C(L.off('MyPaintBrush', 'settings') + 8 * sets['MYPAINT_BRUSH_SETTING_TRACKING_NOISE'])
    if not noise:
        W.spec[('MyPaintMapping', 'base_value')] = lambda I, st, reg, off, ty, key: \
            ZERO if reg.key[1] == ('mapping', tn) else ck.base(I, st, reg, off, ty, key)
    x, y = sym(('x',), 'x', -9e7, 9e7), sym(('y',), 'y', -9e7, 9e7)
    p = sym(('p',), 'pressure', 1e-6, 100) if press else sym(('p',), 'pressure', -100, 0)
    ck.x, ck.y = P(x), P(y)
    dt = sym(('dt',), 'dtime', -1e6, 1e6) if what == 'request' else sym(('dt',), 'dtime', LIMIT + 0.01, 1e6)
    if interval:
        st.assume(('ge', P(ck.hi) - P(ck.lo)))
        st.assume(('ge', P(ck.nb) - 1 - P(ck.hi)))
    args = []
    vals = {'x': P(x), 'y': P(y), 'pressure': P(p), 'dtime': P(dt)}
    for k, (nm, ty, _) in enumerate(fn.params):
        if k < 2:
            args.append(Ptr(ck.brush if k == 0 else ck.surf))
        elif k in (2, 3, 4, 7):
            args.append((P(x), P(y), P(p), None, None, P(dt))[k - 2])
        elif ty.kind == 'int':
            args.append(P(sym(('arg', k), nm, 0, 1, True)))
        else:
            args.append(ZERO if noise and k in (5, 6) else P(sym(('arg', k), nm, -100, 100)))
    where = 'mypaint-brush.c (%s)' % ROOT
    n = 0
    tag = '%s/%s' % (what, 'noise' if noise else 'plain')
    for s, v in I.call_fn(fn, args, st, 0):
        n += 1
        r = I.asnum(s, v)
        rep.ob(R_TRUE, r.isconst() and r.cval() != 0, where, 'returns %r after a reset (%s)' % (r, tag), key='ret')
        rep.ob(R_NOSURF, True)
        for nm, k in sorted(states.items(), key=lambda t: t[1]):
            if nm.endswith('_COUNT'):
                continue
            val = I.asnum(s, ck.member(I, s, 'states', 'f', k))
            base = nm[len('MYPAINT_BRUSH_STATE_'):]
            if base in ('X', 'ACTUAL_X', 'Y', 'ACTUAL_Y'):
                e = P(x) if base.endswith('X') else P(y)
                if noise:
                    o = I.asnum(s, ck.member(I, s, 'states', 'f', states['MYPAINT_BRUSH_STATE_' + base[-1]]))
                    ok = val == e or val == o
                else:
                    ok = val == e
                rep.ob(R_POS, ok, where, 'state %s = %r after a reset at %r (%s)' % (base, val, e, tag), key='pos@' + base)
                continue
            if base == 'PRESSURE':
                e = P(p) if press else ZERO
                rep.ob(R_POS, val == e or s.num.ge0(val - e) and s.num.ge0(e - val), where,
                       'pressure %r after a reset with %r' % (val, e), key='pos@' + base)
                continue
            e = {'FLIP': -1, 'STROKE': 1}.get(base, 0)
            rep.ob(R_STATE, val == C(e), where, 'state %s = %r after a reset, %d expected (%s)' % (base, val, e, tag), key='st@' + base)
        for nm, t in (('skip', 'f'), ('skip_last_x', 'f'), ('skip_last_y', 'f'), ('skipped_dtime', 'f')):
            val = ck.member(I, s, nm, t)
            rep.ob(R_SKIP, val == ZERO, where, '%s = %r after a reset (%s)' % (nm, val, tag), key='skip@' + nm)
        val, old = (ck.member(I, t, 'random_input', 'd') for t in (s, State()))
        rep.ob(R_RND, val != old, where, 'random_input = %r after a reset (%s)' % (val, tag), key='random')
        rr = ck.member(I, s, 'reset_requested', 'i')
        rep.ob(R_REQ, what != 'request' or rr == ZERO, where, 'reset_requested = %r after a reset' % (rr,), key='req')
        so = L.off('MyPaintBrush', 'settings')
        for nm, k in sorted(sets.items(), key=lambda t: t[1]):
            if nm.endswith('_COUNT'):
                continue
            val = ck.member(I, s, 'settings_value', 'f', k)
            e = P(sym(('basevalue', ('mapping', C(so + 8 * k))), '')) if noise or C(so + 8 * k) != tn else ZERO
            rep.ob(R_SETV, val == e, where, 'current value of %s = %r after a reset' % (nm, val), key='setv')
        a, b = ck.member(I, s, 'min_bucket_used', 'i'), ck.member(I, s, 'max_bucket_used', 'i')
        null = s.isnull(ck.bk) is True
        if interval and not null:
            rep.ob(R_BK, a == C(-1) and b == C(-1), where, 'bucket interval %r..%r after a reset' % (a, b), key='bkint')
            fl = [f for f in s.mem[ck.bk].fills] if ck.bk in s.mem else []
            ok = any(cleared(s, f, P(ck.lo).scale(4 * ck.bsz), (P(ck.hi) + 1).scale(4 * ck.bsz)) for f in fl)
            rep.ob(R_BK, ok, where, 'cleared ranges %s of the bucket array do not cover buckets min..max' % (fl,), key='bkclr')
        elif not null:
            rep.ob(R_BK, a == C(-1) and b == C(-1), where, 'bucket interval %r..%r after a reset' % (a, b), key='bkint')
    if not n:
        raise Broken('%s: no path resets' % tag)
    rep.analysed(*I.visited)


def cleared(s, f, lo, hi):
    a, b, c = f
    return (c[0] == 'zero' or c[0] == 'val' and c[1] in (0, ZERO)) and s.num.ge0(lo - a) and s.num.ge0(b - hi)


class Used(Base):
    maxstates = 40

    def __init__(self, rep, pr, first):
        Base.__init__(self, rep, pr)
        self.first = first                # no bucket used so far
        W = self.w
        W.spec[('MyPaintBrush', 'min_bucket_used')] = lambda *a: C(-1) if first else P(self.lo)
        W.spec[('MyPaintBrush', 'max_bucket_used')] = lambda *a: C(-1) if first else P(self.hi)

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if ptr.reg is self.bk and not (val == ZERO or val == 0):
            st.ghost['wr'] = tuple(sorted(set(st.ghost.get('wr', ())) | {(ptr.off, size if isinstance(size, Poly) else C(size))}, key=repr))


def used(rep, name, first):
    """after a function that writes bucket memory, or returns its address, the interval covers the bucket"""
    pr = par.shared()
    reset()
    ck = Used(rep, pr, first)
    fn = pr.fn(name)
    I = Interp(pr, ck)
    st = State()
    if not first:
        st.assume(('ge', P(ck.hi) - P(ck.lo)))
        st.assume(('ge', P(ck.nb) - 1 - P(ck.hi)))
    args = []
    for k, (nm, ty, _) in enumerate(fn.params):
        if k == 0:
            args.append(Ptr(ck.brush))
        elif ty.kind == 'ptr':
            args.append(Ptr(heap(('out', k), nm, 64)))
        elif ty.kind == 'int':
            args.append(P(sym(('arg', k), nm, -(1 << 31), (1 << 31) - 1, True)))
        else:
            args.append(P(sym(('arg', k), nm)))
    where = 'mypaint-brush.c (%s)' % name
    rec = 4 * ck.bsz
    for s, v in I.call_fn(fn, args, st, 0):
        todo = list(s.ghost.get('wr', ()))
        if isinstance(v, Ptr) and v.reg is ck.bk:
            todo.append((v.off, C(rec)))
        a = I.asnum(s, ck.member(I, s, 'min_bucket_used', 'i'))
        b = I.asnum(s, ck.member(I, s, 'max_bucket_used', 'i'))
        for off, size in todo:
            rep.ob(R_USED, s.num.ge0(off - a.scale(rec)) and s.num.ge0((b + 1).scale(rec) - off - size) and s.num.ge0(a), where,
                   'bytes %r.. of the bucket array are written, used interval is %r..%r' % (off, a, b), key='used@' + name)
        if not first:
            gone = a == C(-1) and b == C(-1) and (s.isnull(ck.bk) is True or ck.bk in s.mem and any(
                cleared(s, f, P(ck.lo).scale(rec), (P(ck.hi) + 1).scale(rec)) for f in s.mem[ck.bk].fills))
            rep.ob(R_USED, gone or s.num.ge0(P(ck.lo) - a) and s.num.ge0(b - P(ck.hi)) and s.num.ge0(a), where,
                   'used interval %r..%r no longer contains the buckets used before' % (a, b), key='shrink@' + name)
        else:
            rep.ob(R_USED, a == C(-1) and b == C(-1) or s.num.ge0(a) and s.num.ge0(b - a), where,
                   'used interval becomes %r..%r' % (a, b), key='shape@' + name)
    rep.analysed(*I.visited)


def requests(rep):
    pr = par.shared()
    reset()
    ck = Base(rep, pr)
    I = Interp(pr, ck)
    n = 0
    for s, v in I.call_fn(pr.fn('mypaint_brush_reset'), [Ptr(ck.brush)], State(), 0):
        r = I.asnum(s, ck.member(I, s, 'reset_requested', 'i'))
        n += 1
        rep.ob(R_PUB, r.isconst() and r.cval() != 0, 'mypaint-brush.c (mypaint_brush_reset)', 'reset_requested = %r' % (r,), key='pub')
    rep.analysed(*I.visited)

    class K(Checker):
        maxstates = 16
        linear = False

        def on_call(self, I, st, inst, name, args, ctx):
            if name in ('mypaint_mapping_new', 'rng_double_new', 'json_object_new_object'):
                return [(st, Ptr(region(('made', name, ctx, I.iid(inst)), 'heap', name)))]
            if name == 'settings_base_values_have_changed':     # derived values only
                return [(st, None)]
            return None
    reset()
    I = Interp(pr, K())
    L = Layout(pr)
    for s, v in I.call_fn(pr.fn('mypaint_brush_new'), [], State(), 0):
        if isinstance(v, Ptr) and v.reg.kind != 'null' and s.isnull(v.reg) is not True:
            r = I.asnum(s, I.read(s, v.reg, v.off + L.off('MyPaintBrush', 'reset_requested'), 4, ir.I32, None, ('c', 0)))
            n += 1
            rep.ob(R_PUB, r.isconst() and r.cval() != 0, 'mypaint-brush.c (mypaint_brush_new)', 'reset_requested = %r' % (r,), key='pubn')
    if n < 2:
        raise Broken('reset request: no path')
    rep.analysed(*I.visited)


def touching(pr):
    """functions that load the bucket array, as (function)"""
    L = Layout(pr)
    m, ty, _ = L.by['MyPaintBrush']
    idx = [k for k in range(len(m.fields(ty))) if L.name_at('MyPaintBrush', m.field_offset(ty, k)[0]) == 'smudge_buckets'][0]
    out = []
    for f in m.functions.values():
        geps = set()
        for i in f.insts():
            if i.op == 'getelementptr' and len(i.ops) == 3 and isinstance(i.ops[2], ir.Const) and i.ops[2].v == idx \
                    and i.x[0].kind == 'named' and i.x[0].a.replace('struct.', '') == 'MyPaintBrush':
                geps.add(i.res)
        if any(i.op == 'load' and isinstance(i.ops[0], ir.Reg) and i.ops[0].name in geps for i in f.insts()):
            out.append(f.name)
    # small helpers are analysed as part of their callers
    callers = {}
    for f in m.functions.values():
        for i in f.insts():
            if i.op == 'call' and isinstance(i.ops[0], ir.GRef):
                callers.setdefault(i.ops[0].name, set()).add(f.name)

    def light(n):
        f = m.functions[n]
        return len(list(f.insts())) < 200 and all(i.op != 'call' or isinstance(i.ops[0], ir.GRef) for i in f.insts()) \
            and f.params and f.params[0][1].kind == 'ptr'
    for _ in range(8):
        nxt = []
        for n in out:
            cs = callers.get(n, set()) - {n}
            if cs and all(light(c) for c in cs):
                nxt += sorted(cs)
            else:
                nxt.append(n)
        nxt = sorted(set(nxt))
        if nxt == sorted(out):
            break
        out = nxt
    return sorted(out)


def run(rep, w):
    pr = w.program()
    rep.assume('event coordinates are finite and within the range that the engine accepts')
    rep.assume('allocation of a new brush succeeds')
    jobs = [(requests, ())]
    for what in ('request', 'pause'):
        for noise in (0, 1):
            for press in (0, 1):
                jobs.append((event, (what, noise, press, 1)))
        jobs.append((event, (what, 0, 1, 0)))
    t = touching(pr)
    # helpers that get the bucket pointer or index from a caller are analysed with their callers
    for n in t:
        f = pr.fn(n)
        if not f.params or f.params[0][1].kind != 'ptr':
            continue
        for first in (1, 0):
            jobs.append((used, (n, first)))
    par.run(rep, jobs, ctx=pr)
    rep.set('functions that load the bucket array', t)
    rep.require(R_STATE, 100)
    rep.require(R_SETV, 100)
    rep.require(R_BK, 4)
    rep.require(R_USED, 10)
    rep.require(R_POS, 20)
    rep.require(R_HALF, 1)
    rep.require(R_PUB, 2)
