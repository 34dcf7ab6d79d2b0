"""C26 The brush tracks every event completely."""
from fractions import Fraction
from .. import ir, irq, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Interp, State, Ptr, reset
from ..objs import Layout, heap, number
from ..report import Broken
from .c18 import Base, ROOT

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of the event function with polynomial values: tracked states at return and at every back '
                 'edge of the dab loop; divisor sign obligations',
    'note': 'arbitrary previous state, brush settings and number of dabs; exact real arithmetic, view zoom above zero',
    'explanation': 'the simulation step is interpreted inside the event function; the last step must cancel whatever the dab loop '
                   'left, so position, pressure and tilt are polynomials of the event alone; each step in the loop must move all of '
                   'them by the same fraction of what is left',
    'trusted': ['skipped time is not negative before the event'],
}
R_END = 'state equals the value of the event at return'
R_PROP = 'a step inside the dab loop moves every tracked value by the same fraction of the rest'
R_SIM = 'an event is left out only while a skip is pending'
R_TIME = 'elapsed time used as a divisor is positive'
R_ACT = 'drawn position moves from its old value towards the brush position'
R_ANG = 'angular difference is congruent modulo 360 and at most half a turn'
R_PRE = 'pressure is never negative'

TRACK = ('X', 'Y', 'PRESSURE', 'DECLINATION', 'DECLINATIONX', 'DECLINATIONY', 'ASCENSION', 'BARREL_ROTATION')


class Event(Base):
    maxstates = 6
    stop = (ROOT,)
    fcap = (60, 6)

    def __init__(self, rep, pr, mode):
        Base.__init__(self, rep, pr)
        self.mode = mode
        s = self.lay.enum('MYPAINT_BRUSH_STATE_')
        self.st = {n: s['MYPAINT_BRUSH_STATE_' + n] for n in TRACK + ('ACTUAL_X', 'ACTUAL_Y', 'PARTIAL_DABS', 'VIEWZOOM')}
        self.surf = heap('surface', 'surface', 4096)
        W = self.w
        W.spec[('MyPaintBrush', 'reset_requested')] = lambda *a: ZERO
        W.spec[('MyPaintBrush', 'states')] = self.state0
        W.spec[('MyPaintBrush', 'skipped_dtime')] = number('skipped_dtime', 0, Fraction(1, 2), False)
        W.spec[('MyPaintBrush', 'skip')] = lambda *a: ZERO if mode != 'skip' else P(sym(('skip0',), 'skip', 0, 1e6))
        self.steps = 0
        self.fracs, self.pstores = set(), []
        self.presoff = C(0) + self.lay.off('MyPaintBrush', 'states') + 4 * self.st['PRESSURE']
        self.timediv = time_divisions(pr)
        self.named = 'prepare_and_draw_dab' in pr.functions
        self.events = 0

    def key(self, st):
        return (st.ghost.get('sim'), st.ghost.get('rec'))

    def state0(self, I, st, reg, off, ty, key):
        k = int(off.cval() - self.lay.off('MyPaintBrush', 'states')) // 4 if off.isconst() else None
        if k == self.st['PRESSURE'] and not key[2]:
            return P(sym(('press0',), 'old_pressure', 0, None))
        return None

    def cur(self, I, st, name):
        return I.asnum(st, self.member(I, st, 'states', 'f', self.st[name]))

    def on_call(self, I, st, inst, name, args, ctx):
        if name == ROOT:                     # the first half of a split event: an event of its own
            I.havoc_args(st, args, (ctx, I.iid(inst)))
            st.ghost['rec'] = 1
            return [(st, P(sym(('rec', ctx, I.iid(inst)), 'first half', 0, 1, True)))]
        if name == 'mypaint_mapping_calculate':
            st.ghost['sim'] = 1
            return [(st, P(sym(('calc', ctx, I.iid(inst), repr(args[0])), 'setting')))]
        if name in ('rand_gauss', 'rng_double_next'):
            return [(st, P(sym(('rnd', ctx, I.iid(inst)), name, -10, 10)))]
        if name == 'print_inputs':
            return [(st, None)]
        if name == 'smallest_angular_difference':
            a, b = I.asnum(st, args[0]), I.asnum(st, args[1])
            if self.mode != 'step':          # modulo full turns
                return [(st, b - a)]
            return [(st, P(sym(('sad', a, b), 'angle', -180, 180)))]
        if name == 'prepare_and_draw_dab' or not self.named and name != ROOT and \
                any(isinstance(a, Ptr) and a.reg is self.surf for a in args):
            self.events += 1
            if self.mode == 'final':
                I.havoc_args(st, args, (ctx, I.iid(inst)))
            return [(st, P(sym(('painted', ctx, I.iid(inst)), 'painted', 0, 1, True)))]
        return None

    def on_fdiv(self, I, st, inst, a, b):
        if I.recording and id(inst) in self.timediv:
            self.rep.ob(R_TIME, st.num.ge0(b) and st.decide(('eq', b)) is False, I.where(inst),
                        'elapsed time %r divides and may be zero or negative' % (b,), key='time')

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if self.mode == 'step' and I.recording and ptr.reg is self.brush and ptr.off == self.presoff:
            v, p = I.asnum(st, val), self.ev['p']
            if v == ZERO or v == P(p):
                return
            c = v.coeff(p.id)
            ok = c is not None and any(v == P(SYMS[z]) + (P(p) - P(SYMS[z])) * c[0] for z in c[1].syms())
            self.pstores.append((c[0] if ok else None, v, I.where(inst)))

    def on_backedge(self, I, H, s, fn, loop, ctx):
        if self.mode != 'step' or not I.recording or not self.events:
            return
        frac = None
        where = '%s (%s)' % (fn.module.name, fn.name)
        for n in TRACK:
            a, b = self.cur(I, H, n), self.cur(I, s, n)
            e = self.target(n)
            if n == 'PRESSURE':
                self.rep.ob(R_PRE, s.num.ge0(b), where, 'pressure %r after a step' % (b,), key='pre')
                continue
            if e is None:               # an angle
                q = [x for x in (b - a).syms() if SYMS[x].key[0] == 'sad']
                c = (b - a).coeff(q[0]) if len(q) == 1 else None
                ok = c is not None and frac is not None and c[0] == frac and c[1] == ZERO and SYMS[q[0]].key[1] == a \
                    and self.isangle(n, SYMS[q[0]].key[2])
                self.rep.ob(R_PROP, ok, where, '%s moves by %r' % (n, b - a), key='step@' + n)
                continue
            if frac is None:
                v = e.single()
                c = (b - a).coeff(v.id)
                frac = c[0] if c else None
                if frac is None or frac == ZERO:
                    self.rep.ob(R_PROP, False, where, '%s does not move in a step' % n, key='step@' + n)
                    return
                self.steps += 1
                self.fracs.add(frac)
            self.rep.ob(R_PROP, b - a == frac * (e - a), where, '%s moves by %r, expected the fraction %r of %r'
                        % (n, b - a, frac, e - a), key='step@' + n)

    def target(self, n):
        return {'X': P(self.ev['x']), 'Y': P(self.ev['y']), 'PRESSURE': P(self.ev['p']), 'DECLINATION': self.decl,
                'DECLINATIONX': P(self.ev['xt']).scale(60), 'DECLINATIONY': P(self.ev['yt']).scale(60)}.get(n)

    def isangle(self, n, t):
        if n == 'BARREL_ROTATION':
            return t == P(self.ev['barrel']).scale(360)
        if self.asc == ZERO:
            return t == ZERO
        z = t.coeff(self.asc.single().id)
        return z is not None and z[1] == ZERO and z[0].isconst() and abs(float(z[0].cval()) - 57.29578) < 1e-3


def time_divisions(pr):
    """divisions whose divisor is computed from the time argument of the event"""
    root = pr.fn(ROOT)
    seen = set()
    todo = [(root, root.params[7][0])]
    out = set()
    while todo:
        f, r = todo.pop()
        if (f.name, r) in seen:
            continue
        seen.add((f.name, r))
        for i in f.insts():
            use = [k for k, o in enumerate(i.ops) if isinstance(o, ir.Reg) and o.name == r]
            if i.op == 'phi':
                use = [k for k, o in enumerate(irq.operands(i)) if isinstance(o, ir.Reg) and o.name == r]
            if not use:
                continue
            if i.op == 'fdiv' and 1 in use:
                out.add(id(i))
            if i.op in ('phi', 'select', 'fadd', 'fsub', 'fmul', 'fneg', 'fptrunc', 'fpext') or i.op == 'fdiv' and 0 in use:
                todo.append((f, i.res))
            elif i.op == 'call' and isinstance(i.ops[0], ir.GRef):
                g = pr.functions.get(i.ops[0].name)
                for k in use:
                    if g is not None and 1 <= k <= len(g.params):
                        todo.append((g, g.params[k - 1][0]))
    return out


def event(rep, mode, tilt, smooth):
    """mode: final (drawing a dab may change anything), step (inside the loop), skip"""
    pr = par.shared()
    reset()
    ck = Event(rep, pr, mode)
    L, W = ck.lay, ck.w
    fn = pr.fn(ROOT)
    I = Interp(pr, ck)
    st = State()
    sets = L.enum('MYPAINT_BRUSH_SETTING_')
    so = L.off('MyPaintBrush', 'settings')
    tn = C(so + 8 * sets['MYPAINT_BRUSH_SETTING_TRACKING_NOISE'])
    sl = C(so + 8 * sets['MYPAINT_BRUSH_SETTING_SLOW_TRACKING'])

    def base(I, st, reg, off, ty, key):
        if reg.key[1] == ('mapping', tn):
            return ZERO
        if reg.key[1] == ('mapping', sl):
            return P(sym(('slow',), 'slow_tracking', Fraction(1, 100), 10)) if smooth else ZERO
        return ck.base(I, st, reg, off, ty, key)
    W.spec[('MyPaintMapping', 'base_value')] = base
    ck.ev = ev = {
        'x': sym(('x',), 'x', -9e7, 9e7), 'y': sym(('y',), 'y', -9e7, 9e7), 'p': sym(('p',), 'pressure', Fraction(1, 10 ** 6), 100),
        'xt': sym(('xt',), 'xtilt', Fraction(1, 1000), 1) if tilt else None, 'yt': sym(('yt',), 'ytilt', -1, 1) if tilt else None,
        'dt': sym(('dt',), 'dtime', Fraction(1, 1000) if smooth else -100, Fraction(1, 10) if smooth else 4), 'zoom': sym(('zoom',), 'viewzoom', Fraction(1, 100000), 1e6),
        'rot': sym(('rot',), 'viewrotation', -100, 100), 'barrel': sym(('barrel',), 'barrel', -100, 100)}
    order = ['x', 'y', 'p', 'xt', 'yt', 'dt', 'zoom', 'rot', 'barrel']
    args = [Ptr(ck.brush), Ptr(ck.surf)]
    for k in range(2, len(fn.params)):
        if k - 2 < len(order):
            s = ev[order[k - 2]]
            args.append(P(s) if s is not None else ZERO)
        else:
            args.append(P(sym(('lin',), 'linear', 0, 1, True)))
    if tilt:
        xt, yt = P(ev['xt']), P(ev['yt'])
        ck.decl = C(90) - P(sym(('fun', 'hypot') + tuple(sorted((xt, yt), key=hash)), None, 0, None)).scale(60)
        at = P(sym(('fun', 'atan2', -xt, yt), None, Fraction(-3141593, 1000000), Fraction(3141593, 1000000)))
        ck.asc = at
    else:
        ev['xt'] = ev['yt'] = None
        ck.decl = C(90)
        ck.asc = ZERO
        zero90 = C(90)
        ck.target = lambda n: {'X': P(ev['x']), 'Y': P(ev['y']), 'PRESSURE': P(ev['p']), 'DECLINATION': zero90,
                               'DECLINATIONX': zero90, 'DECLINATIONY': zero90}.get(n)
    where = 'mypaint-brush.c (%s)' % ROOT
    n = 0
    old = {a: ck.cur(I, st, a) for a in ('X', 'Y')}
    tag = '%s/%s/%s' % (mode, 'tilt' if tilt else 'upright', 'smooth' if smooth else 'plain')
    for s, v in I.call_fn(fn, args, st, 0):
        n += 1
        fin = {a: ck.cur(I, s, a) for a in ck.st}
        if s.ghost.get('sim') is None:
            sk = I.asnum(s, ck.member(I, s, 'skip', 'f'))
            rep.ob(R_SIM, mode == 'skip' and s.num.ge0(sk - Fraction(1, 1001)), where, 'event ignored with skip = %r (%s)' % (sk, tag), key='sim')
            continue
        rep.ob(R_SIM, True)
        f = None
        for a in TRACK:
            val = fin[a]
            e = ck.target(a)
            if a in ('X', 'Y') and smooth:
                c = val.coeff(ev[a.lower()].id)
                ok = c is not None and c[0] != ZERO and (f is None or c[0] == f)
                if ok:
                    f = c[0]
                    o = [z for z in (val - P(ev[a.lower()])).syms() if SYMS[z].key[:1] != ('fun',)]
                    ok = any(val == P(SYMS[z]) + (P(ev[a.lower()]) - P(SYMS[z])) * f for z in c[1].syms()) and \
                        s.num.ge0(f) and s.num.ge0(C(1) - f)
                rep.ob(R_END, ok, where, '%s = %r at return, not between the old position and the event (%s)' % (a, val, tag), key='end@' + a)
            elif e is None:
                rep.ob(R_END, mode == 'step' or ck.isangle(a, val), where, '%s = %r at return (%s)' % (a, val, tag), key='end@' + a)
            elif a == 'PRESSURE':
                rep.ob(R_END, val == e or val == ZERO and s.num.ge0(-e), where, '%s = %r at return (%s)' % (a, val, tag), key='end@' + a)
            else:
                rep.ob(R_END, val == e, where, '%s = %r at return, the event has %r (%s)' % (a, val, e, tag), key='end@' + a)
        rep.ob(R_END, fin['VIEWZOOM'] == P(ev['zoom']), where, 'VIEWZOOM = %r' % (fin['VIEWZOOM'],), key='end@VIEWZOOM')
        if mode == 'final' and not smooth:
            for a in ('X', 'Y'):
                val, e = fin['ACTUAL_' + a], P(ev[a.lower()])
                rep.ob(R_ACT, val == e or towards(s, val, ev[a.lower()]), where, 'ACTUAL_%s = %r (%s)' % (a, val, tag), key='act@' + a)
    if not n:
        raise Broken('no path of an ordinary event')
    for f, v, wh in ck.pstores:
        rep.ob(R_PROP, f in ck.fracs, wh, 'pressure becomes %r in a step' % (v,), key='step@PRESSURE')
    if mode == 'step' and not (ck.steps and ck.pstores):
        rep.ob(R_PROP, False, where, 'no moving step seen in the dab loop', key='step')
    rep.analysed(*I.visited)


def towards(s, val, ev):
    """val = ev + (old - ev) * d with 0 <= d <= 1"""
    c = val.coeff(ev.id)
    if c is None:
        return False
    d = C(1) - c[0]
    if not (s.num.ge0(d) and s.num.ge0(C(1) - d)):
        return False
    return any(val == P(ev) + (P(SYMS[z]) - P(ev)) * d for z in c[1].syms())


def angles(rep):
    pr = par.shared()
    reset()

    class K(Base):
        def __init__(self):
            self.rep = rep

        def key(self, st):
            return None

        def unknown_load(self, *a):
            return None
    I = Interp(pr, K())
    a, b = sym(('a',), 'a', -1e5, 1e5), sym(('b',), 'b', -1e5, 1e5)
    fn = pr.fn('smallest_angular_difference')
    n = 0
    for s, v in I.call_fn(fn, [P(a), P(b)], State(), 0):
        n += 1
        d = I.asnum(s, v) - (P(b) - P(a))
        ok = all(co % 360 == 0 and all(SYMS[z].isint for z in mono_syms(mono)) for mono, co in d.t.items())
        rep.ob(R_ANG, ok, 'helpers.c (%s)' % fn.name, 'result differs from the difference of the angles by %r' % (d,), key='ang')
        r = I.asnum(s, v)
        rep.ob(R_ANG, s.num.ge0(r + 180) and s.num.ge0(C(180) - r), 'helpers.c (%s)' % fn.name, 'result range %s' % (s.num.range(r),), key='angr')
    if not n:
        raise Broken('smallest_angular_difference does not return')
    rep.analysed(*I.visited)


def mono_syms(m):
    return [x[0] if isinstance(x, tuple) else x for x in m]


def run(rep, w):
    pr = w.program()
    rep.assume('event coordinates are finite and within the range that the engine accepts; view zoom is above zero')
    rep.assume('tracking noise is off (it displaces the event by a random amount)')
    jobs = [(angles, ())]
    for mode in ('final', 'step', 'skip'):
        for tilt in (0, 1):
            jobs.append((event, (mode, tilt, 0)))
    jobs.append((event, ('final', 0, 1)))
    par.run(rep, jobs, ctx=pr)
    rep.require(R_END, 20)
    rep.require(R_PROP, 8)
    rep.require(R_TIME, 2)
    rep.require(R_ANG, 2)
