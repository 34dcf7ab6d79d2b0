"""C19 Colour conversions return colours in range."""
import itertools
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, UNDEF
from ..objs import heap
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation (relational numeric domain) of every conversion for unbounded inputs',
    'note': 'all finite inputs; floats as reals, pow() by its sign and monotonicity',
    'explanation': 'each conversion is interpreted with unconstrained components; every component stored must lie in [0,1] and no '
                   'division by zero, root of a negative number or out-of-range conversion may be reachable',
    'trusted': ['floating point arithmetic treated as exact'],
}
R_RANGE = 'converted component is in range'
R_NAN = 'no undefined arithmetic'
R_ANG = 'angle helper returns an equivalent angle in its interval'
R_MEM = 'only the given components are accessed'
R_DEF = 'conversion follows its definition in every hue sector'
R_TRIP = 'colour survives the spectral round trip'
R_MIX = 'additive mix is the weighted mean'
HUGE = Fraction(2) ** 128


class Ck(Checker):
    maxstates = 64

    def __init__(self, rep, name, level):
        self.rep, self.name = rep, name
        self.maxstates = level

    def alarm(self, I, st, kind, inst, msg):
        if kind in ('fdiv0', 'div0', 'sqrtneg', 'fptoint', 'sovf'):
            self.rep.ob(R_NAN, False, I.where(inst), '%s: %s' % (self.name, msg), key='%s@%s' % (kind, self.name))
        if kind in ('oob', 'index', 'badptr', 'uninit', 'constwrite'):
            self.rep.ob(R_MEM, False, I.where(inst), '%s: %s' % (self.name, msg), key='%s@%s' % (kind, self.name))

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('pow', 'powf', 'fastpow'):
            x, y = (I.asnum(st, a, ('arg', I.iid(inst))) for a in args[:2])
            if not st.num.ge0(x) or not (st.num.gt0(x) or st.num.ge0(y)):
                self.rep.ob(R_NAN, False, I.where(inst), '%s: power of %r' % (self.name, x), key='pow@' + self.name)
            if not I.recording:
                pass
            l, h = st.num.range(x)
            yl, yh = st.num.range(y)
            lo, hi = 0, None
            if h is not None and yl is not None and yl >= 0 and yh is not None:
                hi = max(1, h) ** max(1, int(yh) + 1)
            return [(st, P(sym(('pow', x, y), 'pow', lo, hi)))]
        return None


def arr(st, key, name, n, vals=None, lo=None, hi=None, uninit=False):
    r = heap(key, name, 4 * n, uninit=uninit)
    m = RegMem(0, uninit)
    vs = []
    for k in range(n):
        v = vals[k] if vals else P(sym(('el', key, k), '%s%d' % (name, k), lo, hi))
        vs.append(v)
        if not uninit:
            m.cells[C(4 * k)] = (4, v)
    st.mem[r] = m
    return r, vs


def job_conv(rep, level, name):
    pr = par.shared()
    reset()
    ck = Ck(rep, name, level)
    I = Interp(pr, ck)
    st = State()
    regs, vs = [], []
    for k in range(3):
        r, v = arr(st, ('c', k), 'xyz'[k], 1, None, -HUGE, HUGE)
        regs.append(r)
    rets = I.call_fn(pr.fn(name), [Ptr(r) for r in regs], st, 0)
    rep.analysed(*I.visited)
    if not rets:
        raise Broken('%s never returns' % name)
    check3(rep, I, rets, regs, name, [0, 0, 0])


def check3(rep, I, rets, regs, name, offs, lo=0, hi=1):
    for s, _ in rets:
        for k, (r, o) in enumerate(zip(regs, offs)):
            v = I.read(s, r, C(o), 4, ir.FLOAT, None, ('res', k))
            ok = isinstance(v, Poly) and s.num.ge0(v - C(lo)) and s.num.ge0(C(hi) - v)
            rep.ob(R_RANGE, ok, 'helpers.c (%s)' % name, 'component %d is %r, range %s' % (k, v, s.num.range(v) if isinstance(v, Poly) else '?'),
                   key='%s.%d' % (name, k))


def cancel(p):
    """q * (a/q) = a"""
    for y in p.syms():
        d = SYMS[y].defn
        if d and d[0] == 'div':
            c, r = p.coeff(y) or (None, None)
            if c is not None and c == d[2]:
                return d[1] + r
            if c is not None and c == -d[2]:
                return r - d[1]
    return p


def job_angle(rep, level):
    pr = par.shared()
    for name in ('mod_arith', 'smallest_angular_difference'):
        reset()
        ck = Ck(rep, name, level)
        I = Interp(pr, ck)
        st = State()
        x = P(sym(('a', 0), 'a', -HUGE, HUGE))
        if name == 'mod_arith':
            y = P(sym(('a', 1), 'N', 0, HUGE))
            st.num.assume_ge(y, True)
            base, lo, hi, mod = x, ZERO, y, y
        else:
            y = P(sym(('a', 1), 'b', -HUGE, HUGE))
            base, lo, hi, mod = y - x, C(-180), C(180), C(360)
        rets = I.call_fn(pr.fn(name), [x, y], st, 0)
        rep.analysed(*I.visited)
        if not rets:
            raise Broken('%s never returns' % name)
        for s, v in rets:
            wh = 'helpers.c (%s)' % name
            ok = isinstance(v, Poly)
            inside = ok and s.num.ge0(v - lo) and s.num.ge0(hi - v)
            if ok and not inside and lo == ZERO:
                # 0 <= q - floor(q) < 1
                inside = any(SYMS[f].defn and SYMS[f].defn[0] == 'floor' and
                             cancel(v - hi * (SYMS[f].defn[1] - P(SYMS[f]))) == ZERO for f in v.syms())
            rep.ob(R_ANG, inside, wh, 'returns %r, range %s' % (v, s.num.range(v) if ok else '?'),
                   key='rng@' + name)
            d = ok and s.num.norm(v - base)
            q = ok and I.div(s, d, mod)
            rep.ob(R_ANG, ok and (d == ZERO or q.isint()), wh, 'returns %r, not the angle plus whole turns' % (v,), key='mod@' + name)


def job_spec(rep, level):
    pr = par.shared()
    # rgb -> spectrum
    name = 'rgb_to_spectral'
    reset()
    ck = Ck(rep, name, level)
    I = Interp(pr, ck)
    st = State()
    rgb = [P(sym(('rgb', k), 'rgb'[k], 0, 1)) for k in range(3)]
    r, _ = arr(st, 'spec', 'spectrum', 10, [ZERO] * 10)
    rets = I.call_fn(pr.fn(name), rgb + [Ptr(r)], st, 0)
    rep.analysed(*I.visited)
    for s, _ in rets:
        for k in range(10):
            v = I.read(s, r, C(4 * k), 4, ir.FLOAT, None, ('res', k))
            ok = isinstance(v, Poly) and s.num.gt0(v) and s.num.ge0(C(2) - v)
            rep.ob(R_RANGE, ok, 'helpers.c (%s)' % name, 'band %d is %r, range %s' % (k, v, s.num.range(v) if isinstance(v, Poly) else '?'),
                   key='%s.%d' % (name, k))
    # spectrum -> rgb
    name = 'spectral_to_rgb'
    reset()
    ck = Ck(rep, name, level)
    I = Interp(pr, ck)
    st = State()
    sp, _ = arr(st, 'spec', 'spectrum', 10, None, -HUGE, HUGE)
    out, _ = arr(st, 'out', 'rgb', 3, uninit=True)
    rets = I.call_fn(pr.fn(name), [Ptr(sp), Ptr(out)], st, 0)
    rep.analysed(*I.visited)
    if not rets:
        raise Broken('%s never returns' % name)
    check3(rep, I, rets, [out] * 3, name, [0, 4, 8])


def job_mix(rep, level, case):
    pr = par.shared()
    name = 'mix_colors'
    reset()
    ck = Ck(rep, name, level)
    I = Interp(pr, ck)
    st = State()
    A, va = arr(st, 'A', 'a', 4, None, 0, 1)
    B, vb = arr(st, 'B', 'b', 4, None, 0, 1)
    out, _ = arr(st, 'out', 'result', 4, uninit=True)
    fac = P(sym(('fac',), 'fac', 0, 1))
    paint = {'no': ZERO, 'yes': C(1)}.get(case)
    if paint is None:
        paint = P(sym(('paint',), 'paint', 0, 1))
    rets = I.call_fn(pr.fn(name), [Ptr(A), Ptr(B), fac, paint, Ptr(out)], st, 0)
    rep.analysed(*I.visited)
    if not rets:
        raise Broken('%s never returns' % name)
    check3(rep, I, rets, [out] * 4, name, [0, 4, 8, 12])
    for s, _ in rets:
        for k in (range(4) if case == 'no' else (3,)):
            v = I.read(s, out, C(4 * k), 4, ir.FLOAT, None, ('res', k))
            rep.ob(R_MIX, eq(I, s, v, fac * va[k] + (C(1) - fac) * vb[k]), 'helpers.c (mix_colors)', 'component %d is %r' % (k, v), key='mix%d' % k)


def eq(I, s, v, want, den=None):
    """v*den == want"""
    if not isinstance(v, Poly):
        return False
    d = v * den - want if den is not None else v - want
    for _ in range(3):
        d = cancel(s.num.norm(d))
    if d == ZERO:
        return True
    return s.num.ge0(d) and s.num.ge0(-d)


def job_sector(rep, level, name, k):
    """hue/saturation/value (lightness) to rgb: hue (n + (k + t)/6)"""
    pr = par.shared()
    reset()
    ck = Ck(rep, name, level)
    I = Interp(pr, ck)
    st = State()
    n = P(sym(('turns',), 'n', -1000, 1000, True))
    t = P(sym(('t',), 't', 0, 1))
    sa = P(sym(('s',), 's', 0, 1))
    st.num.assume_ge(C(1) - t, True)
    st.num.assume_ge(t, True)
    st.num.assume_ge(sa, True)
    halves = ('',) if name.startswith('hsv') else ('lo', 'hi')
    for half in halves:
        s0 = st.copy()
        v = P(sym(('v', half), 'v', 0, 1)).scale(Fraction(1, 2) if half else 1) + (Fraction(1, 2) if half == 'hi' else 0)
        if half == 'hi':
            s0.num.assume_ge(v - Fraction(1, 2), True)
        h = n + (t + k).scale(Fraction(1, 6))
        regs = [arr(s0, ('c', half, i), 'hsv'[i], 1, [x])[0] for i, x in enumerate((h, sa, v))]
        if not half:
            top, bot = v, v * (C(1) - sa)
        else:
            top = v * (C(1) + sa) if half == 'lo' else v + sa - v * sa
            bot = v.scale(2) - top
        mid = bot + (top - bot) * (t if k % 2 == 0 else C(1) - t)
        want = [(top, mid, bot), (mid, top, bot), (bot, top, mid), (bot, mid, top), (mid, bot, top), (top, bot, mid)][k]
        rets = I.call_fn(pr.fn(name), [Ptr(r) for r in regs], s0, 0)
        if not rets:
            raise Broken('%s never returns' % name)
        for s, _ in rets:
            for i, r in enumerate(regs):
                x = I.read(s, r, ZERO, 4, ir.FLOAT, None, ('res', i))
                rep.ob(R_DEF, eq(I, s, x, want[i]), 'helpers.c (%s)' % name, 'sector %d%s: component %d is %r, defined as %r'
                       % (k, half, i, x, want[i]), key='def@%s.%d' % (name, i))
    rep.analysed(*I.visited)


def job_order(rep, level, name, perm):
    """rgb to hue/saturation/value (lightness): component order `perm` (largest first)"""
    pr = par.shared()
    hsl = name.startswith('rgb_to_hsl')
    for half in (('lo', 'hi') if hsl else ('',)):
        reset()
        ck = Ck(rep, name, level)
        I = Interp(pr, ck)
        st = State()
        g = [P(sym(('gap', k), 'xyz'[k], 0, 1)) for k in range(3)]
        lo, mid, hi = g[0], g[0] + g[1], g[0] + g[1] + g[2]
        st.num.assume_ge(g[1], True)
        st.num.assume_ge(g[2], True)
        st.num.assume_ge(hi - lo - Fraction(1, 1000))
        st.num.assume_ge(C(1) - hi)
        if half == 'lo':
            st.num.assume_ge(C(1) - hi - lo)
        elif half:
            st.num.assume_ge(hi + lo - 1, True)
        rgb = [None] * 3
        for c, v in zip(perm, (hi, mid, lo)):
            rgb[c] = v
        regs = [arr(st, ('c', i), 'rgb'[i], 1, [x])[0] for i, x in enumerate(rgb)]
        d = hi - lo
        r, gg, b = rgb
        six = [gg - b, b - r + d.scale(2), r - gg + d.scale(4)][perm[0]]
        if perm[0] == 0 and perm[1] == 2:
            six = six + d.scale(6)
        rets = I.call_fn(pr.fn(name), [Ptr(x) for x in regs], st, 0)
        rep.analysed(*I.visited)
        if not rets:
            raise Broken('%s never returns' % name)
        for s, _ in rets:
            x = [I.read(s, q, ZERO, 4, ir.FLOAT, None, ('res', i)) for i, q in enumerate(regs)]
            wants = [(six, d.scale(6)), (d, hi if not hsl else hi + lo if half == 'lo' else C(2) - hi - lo),
                     ((hi + lo).scale(Fraction(1, 2)) if hsl else hi, None)]
            for i, (want, den) in enumerate(wants):
                rep.ob(R_DEF, eq(I, s, x[i], want, den), 'helpers.c (%s)' % name, 'order %s%s: component %d is %r, defined as (%r) / (%r)'
                       % (perm, half, i, x[i], want, den), key='def@%s.%d' % (name, i))


def job_trip(rep, level):
    pr = par.shared()
    reset()
    ck = Ck(rep, 'spectral round trip', level)
    I = Interp(pr, ck)
    st = State()
    rgb = [P(sym(('rgb', k), 'rgb'[k], 0, 1)) for k in range(3)]
    r, _ = arr(st, 'spec', 'spectrum', 10, [ZERO] * 10)
    out, _ = arr(st, 'out', 'rgb', 3, uninit=True)
    n = 0
    for s, _ in I.call_fn(pr.fn('rgb_to_spectral'), rgb + [Ptr(r)], st, 0):
        for s2, _ in I.call_fn(pr.fn('spectral_to_rgb'), [Ptr(r), Ptr(out)], s, 0):
            for k in range(3):
                v = I.read(s2, out, C(4 * k), 4, ir.FLOAT, None, ('res', k))
                d = isinstance(v, Poly) and v - rgb[k]
                ok = isinstance(v, Poly) and s2.num.ge0(C(TOL) - d) and s2.num.ge0(C(TOL) + d)
                n += 1
                rep.ob(R_TRIP, ok, 'helpers.c (rgb_to_spectral, spectral_to_rgb)', 'component %d differs by %s' % (k, s2.num.range(d) if d else '?'),
                       key='trip%d' % k)
    rep.analysed(*I.visited)
    if not n:
        raise Broken('spectral conversion never returns')


TOL = Fraction(1, 100)


def run(rep, w):
    pr = w.program()
    for n in ('rgb_to_hsv_float', 'hsv_to_rgb_float', 'rgb_to_hsl_float', 'hsl_to_rgb_float', 'mix_colors'):
        pr.fn(n)
    jobs = [(job_conv, (n,)) for n in ('rgb_to_hsv_float', 'hsv_to_rgb_float', 'rgb_to_hsl_float', 'hsl_to_rgb_float')]
    jobs += [(job_angle, ()), (job_spec, ())] + [(job_mix, (c,)) for c in ('no', 'yes', 'some')]
    jobs += [(job_sector, (n, k)) for n in ('hsv_to_rgb_float', 'hsl_to_rgb_float') for k in range(6)]
    jobs += [(job_order, (n, o)) for n in ('rgb_to_hsv_float', 'rgb_to_hsl_float') for o in itertools.permutations(range(3))]
    jobs += [(job_trip, ())]
    par.ladder(rep, jobs, ctx=pr)
    rep.require(R_RANGE, 30)
    rep.require(R_ANG, 4)
    rep.require(R_DEF, 90)
    rep.require(R_TRIP, 3)
