"""C05 Blend-mode weights split the dab opacity as documented."""
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, SYMS, Poly
from ..interp import Checker, Interp, State, Ptr, RegMem, reset
from ..objs import Layout, heap
from ..report import Broken
from . import c08
from .c08 import OP

META = {
    'level': 'proof',
    'technique': 'abstract interpretation with symbolic polynomials: weight of every stamp call and path condition of every skipped mode, value relations of the clamped parameters',
    'note': 'all parameter values, exact real arithmetic, one unit of 1/32768 for rounding',
    'explanation': 'the fields of a queued operation are compared with the clamped parameters of the dab as minimum/maximum expressions; '
                   'the opacity handed to every blend mode is compared with its weight as a polynomial over these fields; where a mode is '
                   'not called the path conditions must imply that its weight is zero',
    'trusted': [],
}
R_CLAMP = 'parameters are clamped to their range'
R_WEIGHT = 'opacity of a mode is its weight'
R_SKIP = 'a mode is skipped only if its weight is zero'
R_COLOR = 'modes get the colour of the dab'
R_ONCE = 'a mode is applied once'

UNIT = [n for n in ('color_r', 'color_g', 'color_b')]
ZERO_ONE = ('opaque', 'hardness', 'softness', 'color_a', 'lock_alpha', 'colorize', 'posterize', 'paint')


def levels(rep, lo, hi, want):
    """number of levels, rounded and clamped: one range of the parameter"""
    ck, I, res = c08.draw(rep, par.shared(), {'posterize_num': (lo, hi)}, prove=False)
    if not ck.copies:
        raise Broken('no operation is queued')
    for st, v, where in ck.copies:
        w = C(want) if want else ck.p['posterize_num'].scale(100)
        x = v['posterize_num']
        rep.ob(R_CLAMP, same(st, x, w, 1) and same(st, x, clamp(st, x, 1, 128)), where,
               'posterize_num in %s..%s: the queued operation has %r' % (lo, hi, x), key='levels %s' % want)


def clamp(st, v, lo, hi):
    a = mm(st, 'max', C(lo), v)
    return mm(st, 'min', C(hi), a)


def mm(st, k, a, b):
    if repr(a) > repr(b):
        a, b = b, a
    s = sym(('mm', k, a, b), k, None, None, a.isint() and b.isint(), (k, a, b))
    return P(s)


def same(st, a, b, tol=0):
    return isinstance(a, Poly) and (a == b or st.num.ge0(a - b + tol) and st.num.ge0(b - a + tol))


def fields(rep):
    ck, I, res = c08.draw(rep, par.shared(), prove=False)
    if not ck.copies:
        raise Broken('no operation is queued')
    p = ck.p
    for st, v, where in ck.copies:
        def ob(n, ok):
            rep.ob(R_CLAMP, ok, where, 'field %s of the queued operation is %r' % (n, v.get(n)), key='clamp ' + n)
        for n in ZERO_ONE:
            ob(n, same(st, v[n], clamp(st, p[n], 0, 1)))
        for n in UNIT:
            ob(n, same(st, v[n], clamp(st, p[n], 0, 1).scale(1 << 15), 1))
        ob('aspect_ratio', same(st, v['aspect_ratio'], mm(st, 'max', C(1), p['aspect_ratio'])))
        if 'normal' in v:
            L, Z, Q = (C(1) - v[n] for n in ('lock_alpha', 'colorize', 'posterize'))
            ob('normal', same(st, v['normal'], L * Z * Q))
    rep.analysed(*I.visited)


# mode: (weight as function of the fields, positions: colour channels start at 2 / opacity)
class Stamp(Checker):
    maxstates = 4096
    fcap = (128, 8)

    def __init__(self, rep, pr):
        self.rep, self.pr = rep, pr
        self.lay = Layout(pr)
        self.mask = heap(('mask',), 'mask', 1 << 16)
        self.tile = heap(('tilebuf',), 'tile', 64 * 64 * 8)
        self.op = heap(('op',), 'operation', self.lay.size(OP))
        names = [n for n, _, _ in self.lay.members(OP)]
        f = {}
        for n in ('opaque', 'lock_alpha', 'colorize', 'posterize', 'paint', 'color_a', 'normal'):
            if n in names:
                f[n] = P(sym(('op', n), n, 0, 1))
        for n in UNIT:
            f[n] = P(sym(('op', n), n, 0, 1 << 15, True))
        f['posterize_num'] = P(sym(('op', 'pn'), 'posterize_num', 1, 128))
        self.f = f
        one = C(1)
        nl, nc, npz = one - f['lock_alpha'], one - f['colorize'], one - f['posterize']
        self.full = nl * nc * npz                       # weight of the normal modes
        normal = f.get('normal', self.full)
        lock = f['lock_alpha'] * nc * npz
        o, paint = f['opaque'], f['paint']
        # family -> (functions, weight factor lists)
        self.weights = {
            'normal': (normal * o * (one - paint), self.full * o * (one - paint)),
            'normal pigment': (normal * o * paint, self.full * o * paint),
            'lock alpha': (lock * o * (one - paint),),
            'lock alpha pigment': (lock * o * paint,),
            'colorize': (f['colorize'] * o,),
            'posterize': (f['posterize'] * o,),
        }
        b = 'draw_dab_pixels_BlendMode_'
        # function -> (family, index of the opacity argument, has colour alpha, has colour)
        self.modes = {
            b + 'Normal': ('normal', 5, False, True),
            b + 'Normal_and_Eraser': ('normal', 6, True, True),
            b + 'Normal_Paint': ('normal pigment', 5, False, True),
            b + 'Normal_and_Eraser_Paint': ('normal pigment', 6, True, True),
            b + 'LockAlpha': ('lock alpha', 5, None, True),
            b + 'LockAlpha_Paint': ('lock alpha pigment', 5, None, True),
            b + 'Color': ('colorize', 5, None, True),
            b + 'Posterize': ('posterize', 2, None, False),
        }

    def key(self, st):
        return tuple(sorted(st.ghost.items()))

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.op and off.isconst():
            n = self.lay.name_at(OP, int(off.cval()))
            v = self.f.get(n)
            return v
        return None

    def ob(self, I, st, inst, rule, ok, msg, key):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst) if inst is not None else 'process_op', msg, key=key)

    def on_call(self, I, st, inst, name, args, ctx):
        m = self.modes.get(name)
        if m is not None:
            self.stamp(I, st, inst, name, m, args)
            return [(st, None)]
        if name == 'render_dab_mask':
            return [(st, None)]
        if any(isinstance(a, Ptr) and a.reg is self.tile for a in args):
            if not I.pr.fn(name) or not I.pr.fn(name).blocks:
                raise Broken('%s changes the tile: unknown' % name)
        return None

    def stamp(self, I, st, inst, name, m, args):
        fam, k, alpha, colour = m
        n = st.ghost.get(fam, 0)
        self.ob(I, st, inst, R_ONCE, n == 0, '%s mode is applied again' % fam, 'once ' + fam)
        st.ghost[fam] = min(n + 1, 2)
        w = [x.scale(1 << 15) for x in self.weights[fam]]
        ok = any(same(st, args[k], x, 1) for x in w)
        self.ob(I, st, inst, R_WEIGHT, ok, '%s is given opacity %r instead of %r' % (name, args[k], w[0]), 'weight ' + name)
        if colour:
            for j, c in enumerate(UNIT):
                self.ob(I, st, inst, R_COLOR, same(st, args[2 + j], self.f[c]), '%s is given %r as channel %s' % (name, args[2 + j], c), 'colour %s %s' % (name, c))
        else:
            self.ob(I, st, inst, R_COLOR, same(st, args[3], self.f['posterize_num'], 1), '%s is given %r levels' % (name, args[3]), 'levels')
        if alpha is True:
            self.ob(I, st, inst, R_COLOR, same(st, args[5], self.f['color_a'].scale(1 << 15), 1), '%s is given colour alpha %r' % (name, args[5]), 'alpha ' + name)
        elif alpha is False:
            self.ob(I, st, inst, R_COLOR, st.decide(('eq', self.f['color_a'] - 1)) is True, '%s is used for a colour that may not be opaque' % name, 'opaque ' + name)

    def end(self, I, st):
        for fam, ws in self.weights.items():
            if st.ghost.get(fam):
                continue
            ok = any(st.num.ge0(-w) for w in ws)
            if not ok:
                # product of factors: one of them is zero on this path
                ok = any(st.decide(('eq', q)) is True for q in self.factors(fam))
            self.ob(I, st, None, R_SKIP, ok, '%s mode may be skipped although its weight is not zero' % fam, 'skip ' + fam)

    def factors(self, fam):
        f, one = self.f, C(1)
        rest = [one - f['colorize'], one - f['posterize']]
        pig = [f['paint'] if fam.endswith('pigment') else one - f['paint']]
        if fam.startswith('normal'):
            return rest + pig + [one - f['lock_alpha'], f['opaque'], self.full] + ([f['normal']] if 'normal' in f else [])
        if fam.startswith('lock'):
            return rest + pig + [f['lock_alpha'], f['opaque'], f['color_a']]
        return [f[fam], f['opaque']]


def stamps(rep):
    pr = par.shared()
    reset()
    ck = Stamp(rep, pr)
    I = Interp(pr, ck)
    st = State()
    t = [P(sym(('tx', k), 't' + k, -(1 << 24), 1 << 24, True)) for k in 'xy']
    res = I.call_fn(pr.fn('process_op'), [Ptr(ck.tile), Ptr(ck.mask), t[0], t[1], Ptr(ck.op)], st, 0)
    seen = set()
    for r, v in res:
        ck.end(I, r)
        seen |= set(r.ghost)
    for fam in ck.weights:
        rep.ob(R_WEIGHT, fam in seen, 'process_op', '%s mode is never applied' % fam, key='used ' + fam)
    rep.notes['paths of process_op'] = len(res)
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    par.run(rep, [(fields, ()), (stamps, ()), (levels, (Fraction(128, 100), None, 128)), (levels, (None, Fraction(1, 100), 1)),
                  (levels, (Fraction(1, 100), Fraction(128, 100), None))], ctx=pr)
