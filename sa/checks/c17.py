"""C17 Every input and setting takes effect through its mapping."""
from .. import ir, irq, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, reset
from ..objs import Layout, heap
from ..report import Broken
from .c16 import table
from .c18 import Base

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of the simulation step (order and completeness of mapping evaluations) and an '
                 'interprocedural value-flow query over all reads of current and base values',
    'note': 'arbitrary state and settings; the radius may also be read through its base value (the "base radius" of spacing, '
            'offsets and speeds)',
    'explanation': 'every evaluation in the step is an event: its input array must be complete and unchanged, its mapping must be '
                   'that of the setting which receives the result; all reads of setting values are classified by setting id and '
                   'compared with the constant flag of the settings table; setters of base values must leave the cached values '
                   'that belong to the new base values',
    'trusted': ['mapping evaluation itself is correct (C25)'],
}
R_INP = 'every input is computed before any mapping is evaluated'
R_SAME = 'all mappings are evaluated with the same inputs'
R_OWN = 'current value of a setting comes from its own mapping'
R_SRC = 'an input has the value of its source'
R_CUR = 'a constant setting is not read through its current value'
R_BASE = 'a setting with dynamics is not read through its base value'
R_USED = 'a setting with dynamics is read by the engine'
R_CACHE = 'cached values follow the base values'

STEP = 'update_states_and_setting_values'
CALC = 'mypaint_mapping_calculate'
BASE_TOO = ('RADIUS_LOGARITHMIC',)


FROM = [('ACTUAL_RADIUS', 'RADIUS_LOGARITHMIC'), ('ACTUAL_ELLIPTICAL_DAB_RATIO', 'ELLIPTICAL_DAB_RATIO'),
        ('ACTUAL_ELLIPTICAL_DAB_ANGLE', 'ELLIPTICAL_DAB_ANGLE'), ('DABS_PER_BASIC_RADIUS', 'DABS_PER_BASIC_RADIUS'),
        ('DABS_PER_ACTUAL_RADIUS', 'DABS_PER_ACTUAL_RADIUS'), ('DABS_PER_SECOND', 'DABS_PER_SECOND'),
        ('CUSTOM_INPUT', 'CUSTOM_INPUT')]


class Step(Base):
    maxstates = 8

    def __init__(self, rep, pr, const=False):
        Base.__init__(self, rep, pr)
        L = self.lay
        self.const = const
        self.sets = {n[len('MYPAINT_BRUSH_SETTING_'):]: v for n, v in L.enum('MYPAINT_BRUSH_SETTING_').items()}
        self.n = L.member('MyPaintBrush', 'settings_value')[1] // 4
        inp = {n[len('MYPAINT_BRUSH_INPUT_'):]: v for n, v in L.enum('MYPAINT_BRUSH_INPUT_').items()}
        self.inp = {n: v for n, v in inp.items() if 'COUNT' not in n}
        self.states = {n[len('MYPAINT_BRUSH_STATE_'):]: v for n, v in L.enum('MYPAINT_BRUSH_STATE_').items()}
        self.so = L.off('MyPaintBrush', 'settings')
        self.first = []
        self.calls = 0
        self.feeds = {}
        self.w.spec[('MyPaintBrush', 'random_input')] = lambda *a: P(sym(('random_input',), 'random_input'))

    def key(self, st):
        return bool(st.ghost.get('snap'))

    def mapped(self, k):
        """value of evaluating the mapping at offset k of the brush"""
        if self.const:
            return P(sym(('basevalue', ('mapping', k)), 'base(%r)' % k))
        return P(sym(('calc', repr(k)), 'current(%r)' % (k,)))

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if isinstance(ptr, Ptr) and ptr.reg is self.brush and ptr.off.isconst() and size == 4 and isinstance(val, Poly):
            for nm, _ in FROM:
                if ptr.off.cval() == self.lay.off('MyPaintBrush', 'states') + 4 * self.states[nm]:
                    self.feeds.setdefault(nm, set()).update(depends(val))

    def snapshot(self, I, st, p):
        m = st.mem.get(p.reg)
        out = {}
        for n, k in self.inp.items():
            c = m.cells.get(p.off + 4 * k) if m else None
            out[n] = c[1] if c and c[0] == 4 else None
        return out

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'print_inputs':
            return [(st, None)]
        if name == 'mypaint_mapping_is_constant':
            return [(st, C(int(self.const)))]
        if name != CALC:
            return None
        self.calls += 1
        where = I.where(inst)
        p = args[1]
        if not isinstance(p, Ptr):
            raise Broken('inputs of the mapping are %r' % (p,))
        snap = self.snapshot(I, st, p)
        done = 'snap' in st.ghost
        if I.recording:
            if not done:
                for n, v in sorted(snap.items()):
                    self.rep.ob(R_INP, v is not None, where, 'input %s is not set before the first mapping is evaluated' % n, key='inp@' + n)
                self.sources(I, st, snap, where)
            else:
                old = dict(st.ghost.get('snap'))
                bad = [n for n in snap if snap[n] is not old.get(n) and snap[n] != old.get(n)]
                self.rep.ob(R_SAME, not bad, where, 'inputs %s changed between two mappings' % bad, key='same')
        if not done:
            st.ghost['snap'] = tuple(sorted(snap.items(), key=lambda t: t[0]))
        mp = args[0]
        k = None
        if isinstance(mp, Ptr) and isinstance(mp.reg.key, tuple) and mp.reg.key[0] == 'obj' and mp.reg.key[1][0] == 'mapping':
            k = mp.reg.key[1][1]
        return [(st, self.mapped(k) if k is not None else P(sym(('calc?', ctx, I.iid(inst)), 'unknown mapping')))]

    def sources(self, I, st, snap, where):
        s = lambda n: I.asnum(st, self.member(I, st, 'states', 'f', self.states[n]))
        b = lambda n: self.base(I, st, self.w.obj(('mapping', C(self.so + 8 * self.sets[n])), 'MyPaintMapping'), None, None, None)
        exact = {'TILT_DECLINATION': s('DECLINATION'), 'TILT_DECLINATIONX': s('DECLINATIONX'), 'TILT_DECLINATIONY': s('DECLINATIONY'),
                 'CUSTOM': s('CUSTOM_INPUT'), 'BRUSH_RADIUS': b('RADIUS_LOGARITHMIC'), 'RANDOM': P(sym(('random_input',), ''))}
        for n, e in exact.items():
            if n in snap and snap[n] is not None:
                v = I.asnum(st, snap[n])
                self.rep.ob(R_SRC, v == e, where, 'input %s is %r, its source is %r' % (n, v, e), key='src@' + n)
        dep = {'SPEED1': s('NORM_SPEED1_SLOW'), 'SPEED2': s('NORM_SPEED2_SLOW'),
               'DIRECTION_ANGLE': s('DIRECTION_ANGLE_DX'), 'DIRECTION': s('DIRECTION_DX'), 'TILT_ASCENSION': s('ASCENSION'),
               'ATTACK_ANGLE': s('ASCENSION'), 'BARREL_ROTATION': s('BARREL_ROTATION'), 'VIEWZOOM': s('VIEWZOOM')}
        for n, e in dep.items():
            if n in snap and isinstance(snap[n], Poly):
                self.rep.ob(R_SRC, depends(snap[n]) & e.syms() == set(e.syms()) & depends(snap[n]) and bool(depends(snap[n]) & set(e.syms())),
                            where, 'input %s = %r does not depend on %r' % (n, snap[n], e), key='dep@' + n)
        cache = {k: {x for n in ('gamma', 'm', 'q') for x in I.asnum(st, self.member(I, st, 'speed_mapping_' + n, 'f', k)).syms()}
                 for k in (0, 1)}
        for k, n in enumerate(('SPEED1', 'SPEED2')):
            if isinstance(snap.get(n), Poly):
                d = depends(snap[n])
                self.rep.ob(R_SRC, cache[k] <= d and not cache[1 - k] & d, where,
                            'input %s = %r is not computed with the cached curve of its own gamma' % (n, snap[n]), key='curve@' + n)


def depends(p, seen=None):
    """all symbols a value is computed from"""
    seen = set() if seen is None else seen
    for x in p.syms():
        if x in seen:
            continue
        seen.add(x)

        def walk(k):
            if isinstance(k, Poly):
                depends(k, seen)
            elif isinstance(k, (tuple, list)):
                for y in k:
                    walk(y)
        walk(SYMS[x].key)
    return seen


def step(rep, const):
    pr = par.shared()
    reset()
    ck = Step(rep, pr, const)
    fn = pr.fn(STEP)
    I = Interp(pr, ck)
    st = State()
    args = []
    for k, (nm, ty, _) in enumerate(fn.params):
        args.append(Ptr(ck.brush) if ty.kind == 'ptr' else P(sym(('arg', k), nm, -1000, 1000)))
    n = 0
    where = 'mypaint-brush.c (%s)' % STEP
    for s, v in I.call_fn(fn, args, st, 0):
        n += 1
        for nm, k in sorted(ck.sets.items()):
            if 'COUNT' in nm:
                continue
            val = ck.member(I, s, 'settings_value', 'f', k)
            e = ck.mapped(C(ck.so + 8 * k))
            rep.ob(R_OWN, val == e, where, 'current value of %s is %r after a step' % (nm, val), key='own@' + nm)
    if not const:
        for nm, src in FROM:
            e = ck.mapped(C(ck.so + 8 * ck.sets[src])).syms()
            rep.ob(R_USED, set(e) <= ck.feeds.get(nm, set()), where, 'no value stored to %s depends on the current value of %s' % (nm, src),
                   key='from@' + nm)
    if not n or not (ck.calls or const):
        raise Broken('no evaluation of a mapping seen')
    rep.analysed(*I.visited)


# ---------------------------------------------------------------- reads of setting values

def flags(pr):
    reset()
    I = Interp(pr, Checker())
    for m in pr.modules:
        for g in m.globals.values():
            if g.ty.kind == 'array' and g.init is not None and g.ty.b.kind == 'named' and g.ty.b.a.endswith('MyPaintBrushSettingInfo'):
                rows, size, mem = table(I, pr, g, m, 'MyPaintBrushSettingInfo', 0)
                return [bool(r['constant'].cval()) for r in rows]
    raise Broken('settings table not found')


class Reads:
    """constant offsets from the brush pointer, by propagation through address arithmetic; symbolic indices are followed to
    the callers when they are parameters"""

    def __init__(self, pr):
        self.pr = pr
        self.L = L = Layout(pr)
        self.m, self.ty, _ = L.by['MyPaintBrush']
        self.val = L.member('MyPaintBrush', 'settings_value')
        self.set = L.member('MyPaintBrush', 'settings')
        self.callers = {}
        for f in self.m.functions.values():
            for i in f.insts():
                if i.op == 'call' and isinstance(i.ops[0], ir.GRef):
                    self.callers.setdefault(i.ops[0].name, []).append((f, i))

    def index(self, f, o, depth=0):
        """set of constants an index operand may have, or None"""
        if isinstance(o, ir.Const):
            return {int(o.v)} if o.v is not None and o.v.__class__.__name__ in ('int', 'Fraction') else None
        if not isinstance(o, ir.Reg) or depth > 6:
            return None
        for k, (nm, ty, _) in enumerate(f.params):
            if nm == o.name:
                out = set()
                cs = self.callers.get(f.name)
                if not cs:
                    return None
                for g, i in cs:
                    r = self.index(g, i.ops[1 + k], depth + 1)
                    if r is None:
                        return None
                    out |= r
                return out
        for i in f.insts():
            if i.res == o.name:
                if i.op in ('sext', 'zext', 'trunc'):
                    return self.index(f, i.ops[0], depth)
                if i.op in ('phi', 'select'):
                    out = set()
                    for x in (i.ops[1:] if i.op == 'select' else i.ops):
                        r = self.index(f, x, depth + 1)
                        if r is None:
                            return None
                        out |= r
                    return out
        return None

    def collect(self):
        cur, base = [], []
        m = self.m
        for f in m.functions.values():
            off = {}                # register -> (start offset of the table, set of indices or None)
            loaded = {}             # mapping pointers
            ins = list(f.insts())
            for i in ins:
                if i.op == 'getelementptr':
                    t = i.x[0]
                    b = i.ops[0]
                    if t.kind == 'named' and t.a.replace('struct.', '') == 'MyPaintBrush' and len(i.ops) >= 3 and isinstance(i.ops[2], ir.Const):
                        o = m.field_offset(t, int(i.ops[2].v))[0]
                        for nm, (a, z) in (('val', self.val), ('set', self.set)):
                            if o == a:
                                ix = self.index(f, i.ops[3]) if len(i.ops) == 4 else {0}
                                off[i.res] = (nm, ix, len(i.ops) == 4)
                    elif isinstance(b, ir.Reg) and b.name in off:
                        nm, ix, fin = off[b.name]
                        e = self.index(f, i.ops[-1])
                        off[i.res] = (nm, None if e is None or ix is None else {x + y for x in ix for y in e}, True)
            for i in ins:
                if i.op == 'load' and isinstance(i.ops[0], ir.Reg) and i.ops[0].name in off:
                    nm, ix, _ = off[i.ops[0].name]
                    if nm == 'val':
                        cur.append((f, i, ix))
                    else:
                        loaded[i.res] = ix
            # pointers that merge
            for _ in range(4):
                for i in ins:
                    if i.op in ('phi', 'select'):
                        xs = [o.name for o in (i.ops[1:] if i.op == 'select' else i.ops) if isinstance(o, ir.Reg)]
                        if xs and all(x in loaded for x in xs):
                            s = set()
                            for x in xs:
                                s = None if s is None or loaded[x] is None else s | loaded[x]
                            loaded[i.res] = s
            for i in ins:
                if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == 'mypaint_mapping_get_base_value':
                    a = i.ops[1]
                    if isinstance(a, ir.Reg) and a.name in loaded:
                        base.append((f, i, loaded[a.name]))
        return cur, base


def reads(rep):
    pr = par.shared()
    fl = flags(pr)
    R = Reads(pr)
    names = {v: n[len('MYPAINT_BRUSH_SETTING_'):] for n, v in R.L.enum('MYPAINT_BRUSH_SETTING_').items() if 'COUNT' not in n}
    cur, base = R.collect()
    used = set()
    for f, i, ix in cur:
        for k in ix or ():
            used.add(k)
            rep.ob(R_CUR, k < len(fl) and not fl[k], irq.where(f, i), 'current value of the constant setting %s is read' % names.get(k),
                   key='cur@%s' % names.get(k))
    ub = set()
    for f, i, ix in base:
        for k in ix or ():
            ub.add(k)
            rep.ob(R_BASE, k < len(fl) and (fl[k] or names.get(k) in BASE_TOO), irq.where(f, i),
                   'base value of %s is read, which may have dynamics' % names.get(k), key='base@%s' % names.get(k))
    for k, n in sorted(names.items()):
        if not fl[k]:
            rep.ob(R_USED, k in used, 'mypaint-brush.c', 'current value of %s is never read' % n, key='used@' + n)
    rep.set('reads of current values', len(cur))
    rep.set('reads of base values', len(base))
    rep.set('constant settings never read', [names[k] for k in names if fl[k] and k not in ub])
    rep.analysed(*{f.name for f, _, _ in cur + base})


def caches(rep, setting):
    pr = par.shared()
    reset()
    ck = Step(rep, pr)
    fn = pr.fn('mypaint_brush_set_base_value')
    I = Interp(pr, ck)
    v = sym(('v',), 'value', -10, 10)
    where = 'mypaint-brush.c (%s)' % fn.name
    n = 0
    ids = ['SPEED1_GAMMA', 'SPEED2_GAMMA']
    for s, _ in I.call_fn(fn, [Ptr(ck.brush), C(ck.sets[setting]), P(v)], State(), 0):
        n += 1
        for k, nm in enumerate(ids):
            g = I.asnum(s, ck.member(I, s, 'speed_mapping_gamma', 'f', k))
            m = I.asnum(s, ck.member(I, s, 'speed_mapping_m', 'f', k))
            q = I.asnum(s, ck.member(I, s, 'speed_mapping_q', 'f', k))
            e = P(v) if nm == setting else P(sym(('basevalue', ('mapping', C(ck.so + 8 * ck.sets[nm]))), ''))
            eg = P(sym(('fun', 'exp', e), None, 0, None))
            rep.ob(R_CACHE, g == eg, where, 'gamma[%d] = %r after setting %s' % (k, g, setting), key='gamma%d' % k)
            # slope 0.015 and value 0.5 at speed 45
            c = m.coeff(eg.single().id) if eg.single() else None
            ok = c is not None and c[0].isconst() and abs(float(c[0].cval()) - 0.015) < 1e-6 and c[1].isconst() and \
                abs(float(c[1].cval()) - 0.675) < 1e-4
            rep.ob(R_CACHE, ok, where, 'm[%d] = %r after setting %s' % (k, m, setting), key='m%d' % k)
            lg = [x for x in q.syms() if SYMS[x].key[:2] == ('fun', 'log')]
            d = q.coeff(lg[0]) if len(lg) == 1 else None
            ok = d is not None and d[0] == -m and d[1].isconst() and abs(float(d[1].cval()) - 0.5) < 1e-6 and \
                any(isinstance(y, Poly) and y == eg + 45 for y in SYMS[lg[0]].key)
            rep.ob(R_CACHE, ok, where, 'q[%d] = %r after setting %s' % (k, q, setting), key='q%d' % k)
    if not n:
        raise Broken('base value setter does not return')
    rep.analysed(*I.visited)


def setters(rep):
    """every brush function that changes a base value is covered by the cache rule"""
    pr = par.shared()
    L = Layout(pr)
    m = L.by['MyPaintBrush'][0]
    for f in m.functions.values():
        for i in f.insts():
            if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == 'mypaint_mapping_set_base_value':
                reach, todo = {f.name}, [f.name]
                up = {}
                for g in m.functions.values():
                    for j in g.insts():
                        if j.op == 'call' and isinstance(j.ops[0], ir.GRef):
                            up.setdefault(j.ops[0].name, set()).add(g.name)
                while todo:
                    for c in up.get(todo.pop(), ()):
                        if c not in reach:
                            reach.add(c)
                            todo.append(c)
                stat = f.name == 'mypaint_brush_set_base_value' or 'mypaint_brush_set_base_value' in reach
                rep.ob(R_CACHE, stat, irq.where(f, i), 'base value changed outside mypaint_brush_set_base_value', key='setter@' + f.name)


def run(rep, w):
    pr = w.program()
    jobs = [(step, (False,)), (step, (True,)), (reads, ()), (setters, ())] + [(caches, (s,)) for s in ('SPEED1_GAMMA', 'SPEED2_GAMMA')]
    par.run(rep, jobs, ctx=pr)
    rep.require(R_INP, 15)
    rep.require(R_OWN, 60)
    rep.require(R_SRC, 12)
    rep.require(R_CUR, 40)
    rep.require(R_BASE, 10)
    rep.require(R_USED, 40)
    rep.require(R_CACHE, 12)
