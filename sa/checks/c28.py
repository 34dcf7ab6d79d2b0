"""C28 Every dab carries what its settings ask for."""
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, Poly
from ..interp import Interp, State, Ptr, Parts, reset
from ..report import Broken
from .c21 import Prep, PREP

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of the dab preparation with symbolic settings and states: every argument of the draw call '
                 'as a term over settings, states and the results of the colour conversions, compared with the documented term',
    'note': 'one group of settings active at a time (%d groups), the others at their neutral value; float arithmetic as reals; '
            'colour conversions, smudge mixing and powers are uninterpreted functions (their own properties are C01, C19)' % 14,
    'explanation': 'each argument of the call that hands the dab to the surface is computed as a symbolic term over all states and settings',
    'trusted': ['directional offsets are added as computed (their bounds are C21)'],
}
R_ARG = 'dab parameter has the value of its settings'
R_RET = 'the result of drawing is returned'
CONV = ('hsv_to_rgb_float', 'rgb_to_hsv_float', 'hsl_to_rgb_float', 'rgb_to_hsl_float')
SETTINGS = 'MYPAINT_BRUSH_SETTING_'
STATES = 'MYPAINT_BRUSH_STATE_'
NEUTRAL = {'OPAQUE_MULTIPLY': 1, 'RADIUS_BY_RANDOM': 0, 'OFFSET_BY_SPEED': 0, 'OFFSET_BY_RANDOM': 0, 'SMUDGE': 0, 'ERASER': 0,
           'CHANGE_COLOR_H': 0, 'CHANGE_COLOR_L': 0, 'CHANGE_COLOR_HSL_S': 0, 'CHANGE_COLOR_V': 0, 'CHANGE_COLOR_HSV_S': 0,
           'ANTI_ALIASING': 0, 'SNAP_TO_PIXEL': 0, 'SMUDGE_LENGTH': 1}
UNIT = ('OPAQUE', 'HARDNESS', 'SOFTNESS')


def conv(name, args):
    """the three results of a conversion, as terms over its arguments"""
    return [P(sym(('cv', name, k, tuple(args)), '%s.%d' % (name, k), 0, 1)) for k in range(3)]


def power(a, e):
    return P(sym(('pow', a, round(float(e), 4)), 'pow(%r,%s)' % (a, round(float(e), 4)), 0, None))


def near(a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and all(abs(c) < Fraction(1, 10 ** 5) for c in (a - b).t.values())


class Term(Prep):
    maxstates = 20

    def __init__(self, rep, pr, over):
        Prep.__init__(self, rep, pr)
        L = self.lay
        self.vals = {}
        v, m = L.off('MyPaintBrush', 'settings_value'), L.off('MyPaintBrush', 'settings')
        self.sets = {n[len(SETTINGS):]: k for n, k in L.enum(SETTINGS).items()}
        self.over = dict(NEUTRAL)
        self.over.update(over)
        self.byoff = {C(v + 4 * k): n for n, k in self.sets.items()}
        self.bases = {('mapping', C(m + 8 * k)): n for n, k in self.sets.items()}
        self.st_off = {n[len(STATES):]: C(self.states + 4 * k) for n, k in L.enum(STATES).items()}
        self.dabs = []
        self.rnd = []

    def value(self, n):
        x = self.over.get(n)
        if isinstance(x, tuple):
            return P(sym(('setting', n), n, x[0], x[1]))
        if x is not None:
            return C(x)
        return P(sym(('setting', n), n, *((Fraction(1, 100), Fraction(99, 100)) if n in UNIT else (None, None))))

    def state(self, n):
        if n == 'ACTUAL_RADIUS':
            return P(sym(('st', n), n, 1, 100))
        if n == 'VIEWZOOM':
            return C(2)
        return P(sym(('st', n), n))

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.brush:
            if off in self.byoff:
                return self.value(self.byoff[off])
            for n, o in self.st_off.items():
                if o == off:
                    return self.state(n)
        return self.w.load(I, st, reg, off, ty, key)

    def base(self, I, st, reg, off, ty, key):
        n = self.bases.get(reg.key[1])
        if n == 'OPAQUE_LINEARIZE':
            return ZERO
        return P(sym(('base', n), 'base ' + str(n)))

    def on_fmul(self, I, st, inst, a, b):
        return None

    def read3(self, I, st, ptrs):
        return [I.asnum(st, I.read(st, p.reg, p.off, 4, ir.FLOAT, None, ('c28', k))) for k, p in enumerate(ptrs)]

    def on_call(self, I, st, inst, name, args, ctx):
        if name in CONV:
            for p, v in zip(args, conv(name, self.read3(I, st, args[:3]))):
                I.write(st, p.reg, p.off, 4, v, inst, ctx)
            return [(st, None)]
        if name in ('powf', 'pow'):
            b, e = (I.asnum(st, a) for a in args)
            return [(st, power(b, e.cval()) if e.isconst() else P(sym(('powx', b, e), 'pow')))]
        if name in ('floor', 'floorf') or name.startswith('llvm.floor'):
            a = I.asnum(st, args[0])
            return [(st, P(sym(('fl', a), 'floor(%r)' % (a,))))]
        if name in ('round', 'roundf') or name.startswith('llvm.round'):
            a = I.asnum(st, args[0])
            return [(st, P(sym(('ro', a), 'round(%r)' % (a,), 2, 200)))]
        if name in ('exp', 'expf'):
            a = I.asnum(st, args[0])
            return [(st, P(sym(('ex', a), 'exp(%r)' % (a,), 0, None)))]
        if name == 'directional_offsets':
            return [(st, Parts(8, [(4 * k, 4, P(sym(('off', k), 'offset.' + 'xy'[k], -3240, 3240))) for k in (0, 1)]))]
        if name == 'mypaint_mapping_is_constant':
            return [(st, P(sym(('const', ctx, I.iid(inst)), 'is constant', 0, 1, True)))]
        if name == 'apply_smudge':
            ptrs = args[-3:]
            old = self.read3(I, st, ptrs)
            for k, p in enumerate(ptrs):
                I.write(st, p.reg, p.off, 4, P(sym(('smudged', k, tuple(old)), 'smudged.%d' % k, 0, 1)), inst, ctx)
            return [(st, P(sym(('target', tuple(old)), 'smudge target', 0, 1)))]
        if name == 'mypaint_surface_draw_dab':
            f = self.pr.fn(name)
            v = {p[0]: a if isinstance(a, Ptr) else I.asnum(st, a) for p, a in zip(f.params, args)}
            if I.recording:
                self.dabs.append((I.where(inst), v))
            st.ghost = dict(st.ghost)
            st.ghost['drawn'] = st.ghost.get('drawn', 0) + 1
            return [(st, P(sym(('drawn',), 'painted', None, None, True)))]
        if name in ('rand_gauss', 'rng_double_next'):
            g = P(sym(('rnd', ctx, I.iid(inst)), name))
            self.rnd.append(g)
            return [(st, g)]
        return None

    def join_ghost(self, gs):
        return dict(gs[0]) if all(g.get('drawn') == gs[0].get('drawn') for g in gs) else {'drawn': None}


def expected(ck):
    """terms of a dab whose settings are all neutral"""
    b = {n: P(sym(('base', n), 'base ' + n)) for n in ('COLOR_H', 'COLOR_S', 'COLOR_V')}
    off = [P(sym(('off', k), 'offset.' + 'xy'[k], -3240, 3240)) for k in (0, 1)]
    rgb = conv('hsv_to_rgb_float', [b['COLOR_H'], b['COLOR_S'], b['COLOR_V']])
    return {'x': ck.state('ACTUAL_X') + off[0], 'y': ck.state('ACTUAL_Y') + off[1], 'radius': ck.state('ACTUAL_RADIUS'),
            'color_r': rgb[0], 'color_g': rgb[1], 'color_b': rgb[2], 'opaque': ck.value('OPAQUE'), 'hardness': ck.value('HARDNESS'),
            'softness': ck.value('SOFTNESS'), 'alpha_eraser': C(1), 'aspect_ratio': ck.state('ACTUAL_ELLIPTICAL_DAB_RATIO'),
            'angle': ck.state('ACTUAL_ELLIPTICAL_DAB_ANGLE'), 'lock_alpha': ck.value('LOCK_ALPHA'), 'colorize': ck.value('COLORIZE'),
            'posterize': ck.value('POSTERIZE'), 'posterize_num': ck.value('POSTERIZE_NUM'), 'paint': ck.value('PAINT_MODE')}


def colour(e, c):
    e.update(zip(('color_r', 'color_g', 'color_b'), c))


def rgb(e):
    return [e['color_r'], e['color_g'], e['color_b']]


def hsv(ck, e, lin):
    c = rgb(e)
    if lin:
        c = [power(x, 1 / 2.2) for x in c]
    h, s, v = conv('rgb_to_hsv_float', c)
    c = conv('hsv_to_rgb_float', [h + ck.value('CHANGE_COLOR_H'), s + s * v * ck.value('CHANGE_COLOR_HSV_S'), v + ck.value('CHANGE_COLOR_V')])
    colour(e, [power(x, 2.2) for x in c] if lin else c)


def hsl(ck, e, lin):
    c = rgb(e)
    if lin:
        c = [power(x, 1 / 2.2) for x in c]
    h, s, l = conv('rgb_to_hsl_float', c)
    c = conv('hsl_to_rgb_float', [h, s, l + ck.value('CHANGE_COLOR_L')])
    colour(e, [power(x, 2.2) for x in c] if lin else c)


def eraser(ck, e, lin):
    e['alpha_eraser'] = C(1) - ck.value('ERASER')


def smudge(ck, e, lin):
    c = tuple(rgb(e))
    colour(e, [P(sym(('smudged', k, c), 'smudged.%d' % k, 0, 1)) for k in range(3)])
    e['alpha_eraser'] = P(sym(('target', c), 'smudge target', 0, 1)) * (C(1) - ck.value('ERASER'))


def speed(ck, e, lin):
    for a, d in (('x', 'NORM_DX_SLOW'), ('y', 'NORM_DY_SLOW')):
        e[a] = e[a] + ck.state(d) * ck.value('OFFSET_BY_SPEED') * Fraction(1, 20)


def snap(ck, e, lin):
    t, half = ck.value('SNAP_TO_PIXEL'), Fraction(1, 2)
    for a in ('x', 'y'):
        e[a] = e[a] + (P(sym(('fl', e[a]), 'floor')) + half - e[a]) * t
    r = e['radius']
    e['radius'] = r + (P(sym(('ro', r.scale(2)), 'round', 2, 200)).scale(half) - r) * t


def scatter(ck, e, lin):
    """x and y move by two different random numbers times the setting times the base radius"""
    amp = ck.value('OFFSET_BY_RANDOM') * P(sym(('ex', P(sym(('base', 'RADIUS_LOGARITHMIC'), 'base'))), 'exp', 0, None))
    x0, y0 = e['x'], e['y']
    e['x'] = lambda v: any(near(v['x'], x0 + g * amp) and not near(v['y'], y0 + g * amp) for g in ck.rnd)
    e['y'] = lambda v: any(near(v['y'], y0 + g * amp) for g in ck.rnd)


def without(*names):
    def f(ck, e, lin):
        for n in names:
            e.pop(n)
    return f


POS = (Fraction(1, 100), Fraction(99, 100))
CASES = {
    'neutral': ({}, None),
    'multiplied opacity': ({'OPAQUE': 1, 'OPAQUE_MULTIPLY': POS}, lambda ck, e, lin: e.update(opaque=ck.value('OPAQUE_MULTIPLY'))),
    'negative opacity': ({'OPAQUE': (-9, -1), 'OPAQUE_MULTIPLY': (-9, -1)}, lambda ck, e, lin: e.update(opaque=ZERO)),
    'eraser': ({'ERASER': POS}, eraser),
    'smudge': ({'SMUDGE': POS, 'ERASER': POS}, smudge),
    'offset by speed': ({'OFFSET_BY_SPEED': POS}, speed),
    'offset by random': ({'OFFSET_BY_RANDOM': POS}, scatter),
    'negative offset by random': ({'OFFSET_BY_RANDOM': (-9, -1)}, None),
    'radius by random': ({'RADIUS_BY_RANDOM': POS}, without('radius', 'opaque')),
    'hue': ({'CHANGE_COLOR_H': POS}, hsv),
    'value and saturation': ({'CHANGE_COLOR_V': POS, 'CHANGE_COLOR_HSV_S': POS}, hsv),
    'lightness': ({'CHANGE_COLOR_L': POS}, hsl),
    'anti-aliasing': ({'ANTI_ALIASING': (1, 5)}, without('radius', 'hardness')),
    'snap to pixel': ({'SNAP_TO_PIXEL': POS}, snap),
}


def case(rep, name, lin):
    pr = par.shared()
    reset()
    over, change = CASES[name]
    ck = Term(rep, pr, over)
    I = Interp(pr, ck)
    st = State()
    f = pr.fn(PREP)
    args = [Ptr(ck.surf) if nm == 'surface' else Ptr(ck.brush) if ty.kind == 'ptr' else C(lin) for nm, ty, _ in f.params]
    label = name + (' (linear)' if lin else '')
    want = expected(ck)
    if change:
        change(ck, want, lin)
    n = 0
    for s, v in I.call_fn(f, args, st, 0):
        n += 1
        nothing = name == 'negative opacity' and s.ghost.get('drawn', 0) == 0 and isinstance(v, Poly) and v == ZERO     # leaves no mark
        rep.ob(R_RET, nothing or s.ghost.get('drawn') == 1 and v == P(sym(('drawn',), 'painted', None, None, True)), '%s (%s)' % (f.module.name, PREP),
               '%s: %r dabs drawn, returns %r' % (label, s.ghost.get('drawn'), v), key='ret')
    if not n or not ck.dabs and name != 'negative opacity':
        raise Broken('%s: the dab is not drawn' % label)
    for wh, v in ck.dabs:
        rep.ob(R_ARG, isinstance(v['self'], Ptr) and v['self'].reg is ck.surf, wh, '%s: dab is drawn on %r' % (label, v['self']), key='surface')
        for a, x in want.items():
            if a not in v:
                raise Broken('the draw operation has no parameter %s' % a)
            ok = near(v[a], x) if isinstance(x, Poly) else x(v)
            rep.ob(R_ARG, ok, wh, '%s: %s is %r, expected %s' % (label, a, v[a], x if isinstance(x, Poly) else 'a random move'), key='%s@%s' % (a, name))
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    par.run(rep, [(case, (n, lin)) for n in CASES for lin in (0, 1)], ctx=pr)
    rep.require(R_ARG, 17 * 8)
    rep.require(R_RET, len(CASES))
