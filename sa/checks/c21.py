"""C21 Dabs handed to a surface are sane."""
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..fpclass import Classes, NONFIN
from ..interp import Checker, Interp, State, Ptr, FnV, Parts, reset
from ..objs import Layout, World, heap
from ..report import Broken
from .c18 import Base

META = {
    'level': 'proof',
    'technique': 'interval and relational abstract interpretation of the dab preparation, the simulation step and the offsets; '
                 'floating-point class analysis (NaN, infinite, finite) in front of tile enumeration',
    'note': 'arbitrary settings, states and input; settings without dynamics are within their documented range; float arithmetic as reals',
    'explanation': 'arguments of every draw_dab and get_color call that the engine makes are bounded for all settings; the radius state is '
                   'bounded wherever it is set; position and radius of every queued operation have been shown finite on the path',
    'trusted': ['rounding does not carry a clamped value over its bound'],
}
R_UNIT = 'hardness, softness and opacity of a dab are in 0..1'
R_RAD = 'actual radius is bounded wherever it is computed'
R_DAB = 'radius of a dab without anti-aliasing and snapping is bounded'
R_SAMP = 'radius of color sampling is bounded'
R_OFF = 'directional offsets are bounded'
R_FIN = 'position and radius of a queued dab are finite'
R_INT = 'tile coordinates and levels of a queued dab are representable'

PREP = 'prepare_and_draw_dab'
STEP = 'update_states_and_setting_values'
EPS = Fraction(1, 10 ** 6)
LO, HI = Fraction(2, 10) - EPS, 1000 + EPS
COLOR = ('hsv_to_rgb_float', 'rgb_to_hsv_float', 'hsl_to_rgb_float', 'rgb_to_hsl_float', 'apply_smudge', 'mix_colors')
LIMIT = 3240


class Prep(Base):
    maxstates = 12

    def __init__(self, rep, pr, plain=False):
        Base.__init__(self, rep, pr)
        self.pr = pr
        L = self.lay
        self.zero = set()
        if plain:
            v, es = L.off('MyPaintBrush', 'settings_value'), L.enum('MYPAINT_BRUSH_SETTING_')
            self.zero = {C(v + 4 * es['MYPAINT_BRUSH_SETTING_' + n]) for n in ('ANTI_ALIASING', 'SNAP_TO_PIXEL')}
        self.plain = plain
        self.states = L.off('MyPaintBrush', 'states')
        se = L.enum('MYPAINT_BRUSH_STATE_')
        self.rad = C(self.states + 4 * se['MYPAINT_BRUSH_STATE_ACTUAL_RADIUS'])
        self.lin = C(L.off('MyPaintBrush', 'settings') + 8 * L.enum('MYPAINT_BRUSH_SETTING_')['MYPAINT_BRUSH_SETTING_OPAQUE_LINEARIZE'])
        self.dabs = [C(self.states + 4 * se['MYPAINT_BRUSH_STATE_DABS_PER_' + n]) for n in ('ACTUAL_RADIUS', 'BASIC_RADIUS')]
        self.surf = self.w.obj('surface', 'MyPaintSurface')
        self.events = {}

    def key(self, st):
        return None

    def base(self, I, st, reg, off, ty, key):
        if reg.key[1] == ('mapping', self.lin):
            return P(sym(('basevalue', reg.key[1]), 'opaque_linearize', 0, 2))
        return Base.base(self, I, st, reg, off, ty, key)

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.brush and off == self.rad:
            return P(sym(('state', 'radius'), 'ACTUAL_RADIUS', LO, HI))
        if reg is self.brush and off in self.zero:
            return ZERO
        return self.w.load(I, st, reg, off, ty, key)

    def ob(self, I, rule, ok, inst, msg, key):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst), msg, key=key)

    def between(self, st, v, lo, hi):
        return isinstance(v, Poly) and st.num.ge0(v - C(lo)) and st.num.ge0(C(hi) - v)

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('rand_gauss', 'rng_double_next'):
            return [(st, P(sym(('rnd', ctx, I.iid(inst)), name)))]
        if name in COLOR:
            I.havoc_args(st, args, ('color', ctx, I.iid(inst)))
            return [(st, None if inst.ty.kind == 'void' else P(sym(('color', ctx, I.iid(inst)), name)))]
        if name == 'directional_offsets':
            return [(st, Parts(8, [(4 * k, 4, P(sym(('off', k), 'offset', -LIMIT, LIMIT))) for k in (0, 1)]))]
        if name == 'mypaint_mapping_is_constant':
            return [(st, P(sym(('const', ctx, I.iid(inst)), 'is constant', 0, 1, True)))]
        if name.startswith('mypaint_surface_') and name.endswith(('draw_dab', 'get_color')):
            f = self.pr.fn(name)
            vals = {p[0]: a for p, a in zip(f.params, args)}
            if name.endswith('get_color'):
                self.events['get'] = 1
                r = I.asnum(st, vals['radius'])
                self.ob(I, R_SAMP, self.between(st, r, LO, HI), inst, 'colors are sampled with radius %r in %r' % (r, st.num.interval(r)), 'sample')
                I.havoc_args(st, args[1:], ('get', ctx, I.iid(inst)))
                return [(st, None)]
            self.events['draw'] = 1
            if self.plain:
                r = I.asnum(st, vals['radius'])
                self.ob(I, R_DAB, self.between(st, r, LO, HI), inst, 'dab is drawn with radius %r in %r' % (r, st.num.interval(r)), 'radius')
            for n in ('hardness', 'softness', 'opaque'):
                v = I.asnum(st, vals[n])
                self.ob(I, R_UNIT, self.between(st, v, 0, 1), inst, '%s is %r in %r' % (n, v, st.num.interval(v)), n)
            return [(st, P(sym(('drawn', ctx), 'painted', 0, 1, True)))]
        return None

    def on_fmul(self, I, st, inst, a, b):
        if a.isconst() or b.isconst() or not (self.between(st, a, 0, 1) and self.between(st, b, 0, 1)):
            return None
        return P(sym(('prod',) + tuple(sorted((a, b), key=hash)), None, 0, 1))      # of two numbers in 0..1

    def on_icall(self, I, st, inst, fv, args, ctx):
        raise Broken('%s: surface called directly' % I.where(inst))


def prep(rep, plain):
    pr = par.shared()
    reset()
    ck = Prep(rep, pr, plain)
    I = Interp(pr, ck)
    st = State()
    f = pr.fn(PREP)
    args = []
    for nm, ty, _ in f.params:
        args.append(Ptr(ck.surf) if nm == 'surface' else Ptr(ck.brush) if ty.kind == 'ptr' else I.fresh(('par', nm), ty, st, nm))
    n = len(I.call_fn(f, args, st, 0))
    if not n or set(ck.events) != {'get', 'draw'}:
        raise Broken('the dab is not drawn')
    rep.analysed(*I.visited)


class Step(Prep):
    maxstates = 6

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'mypaint_mapping_calculate':
            return [(st, P(sym(('calc', ctx, I.iid(inst)), 'value')))]
        if name in ('print_inputs',):
            return [(st, None)]
        return Prep.on_call(self, I, st, inst, name, args, ctx)


def radius(rep, name):
    pr = par.shared()
    reset()
    ck = Step(rep, pr)
    I = Interp(pr, ck)
    st = State()
    f = pr.fn(name)
    args = [Ptr(ck.surf) if nm == 'surface' else Ptr(ck.brush) if ty.kind == 'ptr' else I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in f.params]
    n = 0
    for s, v in I.call_fn(f, args, st, 0):
        n += 1
        r = I.asnum(s, I.read(s, ck.brush, ck.rad, 4, ir.FLOAT, None, ('radius',)))
        rep.ob(R_RAD, ck.between(s, r, LO, HI), '%s (%s)' % (f.module.name, name), 'leaves the actual radius at %r in %r' % (r, s.num.interval(r)), key='radius@' + name)
    if not n:
        raise Broken('%s never returns' % name)
    rep.analysed(*I.visited)


class Offs(Prep):
    maxstates = 4
    linear = False

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('sin', 'cos', 'sinf', 'cosf'):
            return [(st, P(sym((name, ctx, I.iid(inst)), name, -1, 1)))]
        return None


def offsets(rep):
    pr = par.shared()
    reset()
    ck = Offs(rep, pr)
    I = Interp(pr, ck)
    st = State()
    f = pr.fn('directional_offsets')
    args = [Ptr(ck.brush) if ty.kind == 'ptr' else I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in f.params]
    n = 0
    for s, v in I.call_fn(f, args, st, 0):
        n += 1
        parts = I.flatten(v).parts if isinstance(v, Parts) else []
        ok = {o for o, z, x in parts if z == 4 and ck.between(s, I.asnum(s, x), -LIMIT - EPS, LIMIT + EPS)}
        rep.ob(R_OFF, ok == {0, 4}, 'mypaint-brush.c (directional_offsets)', 'returns %r' % (v,), key='offsets')
    if not n:
        raise Broken('offsets are not computed')
    rep.analysed(*I.visited)


class Queue(Classes, Checker):
    maxstates = 8

    def __init__(self, rep, pr, name):
        self.rep, self.pr, self.name = rep, pr, name
        self.lay = Layout(pr)
        self.w = World(self.lay)
        self.count = 0

    def key(self, st):
        return repr(sorted(st.ghost.get('cls', ()), key=repr))

    def join_ghost(self, gs):
        out = dict(gs[0])
        out['cls'] = self.join_classes(gs)
        return out

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def alarm(self, I, st, kind, inst, msg):
        if kind == 'fptoint' and I.recording:
            self.rep.ob(R_INT, False, I.where(inst), msg, key='int %s' % I.where(inst))

    def finite(self, st, p, seen):
        """all tracked numbers that the value is computed from are finite"""
        for x in p.syms():
            if x in seen:
                continue
            seen.add(x)
            if self.tracked(x) and self.class_of(st, P(SYMS[x])) & NONFIN:
                return False
        return True

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'operation_queue_add':
            self.count += 1
            op = args[-1]
            for n in ('x', 'y', 'radius'):
                o, z = self.lay.member('OperationDataDrawDab', n)
                v = I.asnum(st, I.read(st, op.reg, op.off + o, z, ir.FLOAT, None, ('op', n)))
                if I.recording:
                    self.rep.ob(R_FIN, self.finite(st, v, set()), I.where(inst), '%s: %s of the dab may not be finite' % (self.name, n), key=n)
            return [(st, None)]
        if name == 'update_dirty_bbox':
            return [(st, None)]
        return self.class_call(I, st, name, args)


def queue(rep):
    pr = par.shared()
    names, todo, seen = [], ['operation_queue_add'], set()
    while todo:                                  # up to the functions that make the operation from numbers
        name = todo.pop()
        for m in pr.modules:
            for f in m.functions.values():
                calls = [i for i in f.insts() if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == name]
                if calls and f.name not in seen:
                    seen.add(f.name)
                    params = {p[0] for p in f.params}
                    if any(isinstance(i.ops[-1], ir.Reg) and i.ops[-1].name in params for i in calls):
                        todo.append(f.name)
                    else:
                        names.append(f)
    if not names:
        raise Broken('no operation is queued')
    for f in names:
        reset()
        ck = Queue(rep, pr, f.name)
        I = Interp(pr, ck)
        st = State()
        args = []
        for nm, ty, _ in f.params:
            if ty.kind == 'float' and nm in ('x', 'y', 'radius'):
                args.append(P(sym(('dbl', nm), nm)))
            elif ty.kind == 'ptr':
                args.append(Ptr(ck.w.obj(nm, 'MyPaintTiledSurface', nm)))
            else:
                args.append(I.fresh(('par', nm), ty, st, nm))
        I.call_fn(f, args, st, 0)
        rep.ob(R_FIN, ck.count > 0, f.name, 'no operation is queued', key='some')
        rep.analysed(*I.visited)
    rep.ob(R_INT, True, 'tile enumeration')


def run(rep, w):
    pr = w.program()
    rep.assume('base value of opaque_linearize within its documented range')
    stores = setters(pr)
    par.run(rep, [(prep, (False,)), (prep, (True,)), (offsets, ()), (queue, ())] + [(radius, (n,)) for n in stores], ctx=pr)
    for r, n in ((R_UNIT, 3), (R_RAD, 2), (R_SAMP, 1), (R_DAB, 1), (R_OFF, 1), (R_FIN, 3)):
        rep.require(r, n)


def setters(pr):
    """functions of the simulation that the event function calls and that store to the radius state"""
    out = [STEP]
    if 'count_dabs_to' in pr.functions:
        out.append('count_dabs_to')
    return out
