"""C25 Dynamics mappings are evaluated as piecewise linear curves."""
from .. import ir, irq, par, dom
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, region, reset
from ..objs import Layout, World, heap
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation: symbolic values of the outer loop iteration compared with the interpolation polynomial',
    'note': 'every number of points up to the maximum, arbitrary inputs and coordinates; exact real arithmetic',
    'explanation': 'for every point count the contribution of one input is a rational function of the input and the coordinates on '
                   'each path; it is compared, by polynomial identity, with linear interpolation on a segment that the path condition '
                   'places the input in; the sum over inputs and the used-input counter are loop and transition invariants',
    'trusted': ['points are stored in non-decreasing order (enforced by the setter, property C15)'],
}
R_SEG = 'contribution of an input is the interpolation on its segment'
R_NONE = 'an input without points contributes nothing'
R_SUM = 'result starts at the base value and adds every input once'
R_DIV = 'no division by zero'
R_USED = 'count of used inputs changes with the number of points'
R_ONE = 'single-input evaluation uses that input'


def common_den(I, v):
    """v = n/d with no quotient symbols left"""
    d = C(1)
    for _ in range(8):
        q = next((x for x in v.syms() if SYMS[x].key[0] == 'div'), None)
        if q is None:
            return v, d
        c = v.coeff(q)
        if c is None:
            return None
        _, num, den = SYMS[q].key
        v = c[0] * num + c[1] * den
        d = d * den
    return None


dom.Numeric.MAXFACTS = 400


class Ck(Checker):
    maxstates = 400
    fcap = (200, 8)

    def __init__(self, rep, lay, n):
        self.rep, self.n = rep, n
        self.lay = lay
        self.w = W = World(lay)
        self.outer = None
        self.J = sym(('inputs',), 'inputs', 1, 4096, True)
        self.used = sym(('used',), 'inputs_used', 0, 4096, True)
        self.base = sym(('base',), 'base_value')
        self.m = W.obj('m', 'MyPaintMapping')
        self.cp = lay.size('ControlPoints')
        self.pts = heap('pts', 'points', P(self.J).scale(self.cp))
        self.data = heap('data', 'data', P(self.J).scale(4))
        W.spec[('MyPaintMapping', 'pointsList')] = lambda *a: Ptr(self.pts)
        W.spec[('MyPaintMapping', 'inputs')] = lambda *a: P(self.J)
        W.spec[('MyPaintMapping', 'inputs_used')] = lambda *a: P(self.used)
        W.spec[('MyPaintMapping', 'base_value')] = lambda *a: P(self.base)
        self.xo, self.yo = lay.off('ControlPoints', 'xvalues'), lay.off('ControlPoints', 'yvalues')
        self.maxn = lay.member('ControlPoints', 'xvalues')[1] // 4
        self.edges = []
        self.entries = []

    def keep_loop(self, I, fn, loop, st):
        if self.outer is None:
            self.outer = (fn.name, loop.header)
        return self.outer == (fn.name, loop.header)

    def force_unroll(self, I, fn, loop, st):
        return True

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.pts:
            if ty.kind == 'int':
                return C(self.n)
            d = [x for x in off.t.values()]
            r = int(off.t.get((), 0)) % self.cp
            k, axis = (r - self.xo) // 4, 'x'
            if r >= self.yo:
                k, axis = (r - self.yo) // 4, 'y'
            s = self.point(axis, off - r, k)
            if I.recording and k >= self.n:
                self.rep.ob(R_SEG, False, 'mypaint-mapping.c', 'reads point %d of %d' % (k, self.n), key='beyond')
            if axis == 'x':
                for i in range(k):
                    st.num.assume_ge(s - self.point('x', off - r, i))
                    break
                if k > 0:
                    st.num.assume_ge(s - self.point('x', off - r, k - 1))
            return s
        if reg is self.data:
            return P(sym(('data', off), 'in[%r]' % off))
        return self.w.load(I, st, reg, off, ty, key)

    def point(self, axis, base, k):
        return P(sym(('pt', axis, base, k), '%s%d' % (axis, k)))

    def alarm(self, I, st, kind, inst, msg):
        if kind == 'fdiv0':
            self.rep.ob(R_DIV, False, I.where(inst), msg, key='div0')
        if kind in ('oob', 'uninit'):
            self.rep.ob(R_SEG, False, I.where(inst), msg, key=kind)

    def on_loop_entry(self, I, E, fn, loop, mp, ctx):
        if (fn.name, loop.header) == self.outer:
            self.entries.append(dict(mp))

    def on_backedge(self, I, H, s, fn, loop, ctx):
        if I.recording and (fn.name, loop.header) == self.outer:
            self.edges.append((dict(I.backmap), s, '%s (%s)' % (fn.module.name, fn.name)))


def evaluation(rep, n):
    pr = par.shared()
    reset()
    L = Layout(pr)
    ck = Ck(rep, L, n)
    I = Interp(pr, ck)
    st = State()
    fn = pr.fn('mypaint_mapping_calculate')
    rets = I.call_fn(fn, [Ptr(ck.m), Ptr(ck.data)], st, 0)
    rep.analysed(*I.visited)
    rep.ob(R_DIV, True)
    acc = None
    nsy = None
    early = 0
    for s, v in rets:
        v = I.asnum(s, v)
        if s.num.ge0(-P(ck.used)):
            # no used inputs: the base value; (then no input has points either)
            if not (v == P(ck.base)):
                one = v.single()
                if one is None or one.key[0] not in ('lg', 'n', 'lo'):
                    rep.ob(R_SUM, False, fn.name, 'returns %r although no input is used' % v, key='base')
                    continue
            else:
                early += 1
                rep.ob(R_SUM, True)
                continue
        one = v.single()
        if v == P(ck.base) and n == 0:
            rep.ob(R_SUM, True)
            continue
        if one is None or one.key[0] not in ('lg', 'n', 'lo'):
            rep.ob(R_SUM, False, fn.name, 'returned value %r is not the accumulated sum' % v, key='sum')
            continue
        acc = one
        # all inputs have been visited
        ns = [x for mp in ck.entries for x in mp if SYMS[x].key[0] == 'n']
        ok = any(s.num.ge0(P(SYMS[x]) - P(ck.J)) for x in ns)
        rep.ob(R_SUM, ok, fn.name, 'the loop may end before the last input', key='end')
    if acc is None:
        if n == 0:
            for mp, s, wh in ck.edges:
                rep.ob(R_NONE, True)
            return
        # no return value was the plain sum (reported above): take the loop-carried value that starts at the base value
        acc = next((SYMS[x] for mp in ck.entries for x, v in mp.items() if v is not None and v == P(ck.base)), None)
    if acc is None:
        raise Broken('mypaint_mapping_calculate: accumulation over the inputs not recognised (n=%d)' % n)
    for mp in ck.entries:
        if acc.id in mp:
            rep.ob(R_SUM, mp[acc.id] is not None and mp[acc.id] == P(ck.base), fn.name, 'sum starts at %r' % (mp[acc.id],), key='start')
    segs = set()
    for mp, s, wh in ck.edges:
        ns = [x for x in mp if SYMS[x].key[0] == 'n' and SYMS[x].key[1] is not None]
        cnt = next((SYMS[x] for x in ns if mp[x] is not None), None)
        d = mp.get(acc.id)
        if d is None or cnt is None:
            rep.ob(R_SEG, False, wh, 'value after one input unknown', key='unk%d' % min(n, 3))
            continue
        d = d - P(acc)
        if n == 0:
            rep.ob(R_NONE, d == ZERO or s.num.ge0(d) and s.num.ge0(-d), wh, 'an input without points adds %r' % d, key='none')
            continue
        ok = False
        fr = common_den(I, d)
        # inputs are visited in increasing or decreasing order
        for k, idx in [(k, x) for x in (P(cnt), P(ck.J) - P(cnt) - 1) for k in range(n - 1)]:
            base = idx.scale(ck.cp)
            X = P(sym(('data', idx.scale(4)), ''))
            x0, x1 = ck.point('x', base, k), ck.point('x', base, k + 1)
            y0, y1 = ck.point('y', base, k), ck.point('y', base, k + 1)
            if k > 0 and not s.num.ge0(X - x0):
                continue
            if k < n - 2 and not s.num.ge0(x1 - X):
                continue
            if fr is None:
                break
            num, den = fr
            diff = num * (x1 - x0) - den * (y1 * (X - x0) + y0 * (x1 - X))
            if not diff.t or zero(s, diff, [(x1 - x0), (y1 - y0)], d, y0, y1):
                ok = True
                segs.add(k)
                break
        rep.ob(R_SEG, ok, wh, 'with %d points an input adds %r' % (n, d), key='seg%d' % min(n, 3))
    if n and len(segs) < n - 1:
        rep.ob(R_SEG, False, fn.name, 'with %d points only segments %s are ever used' % (n, sorted(segs)), key='segs')


def zero(s, diff, eqs, d, y0, y1):
    """on paths where the segment is degenerate (equal coordinates) the value is that of its end points"""
    dx, dy = eqs
    if s.decide(('eq', dx)) is True:
        return d == y0 or d == y1
    if s.decide(('eq', dy)) is True:
        return d == y0 or d == y1
    return False


def used(rep):
    """inputs_used - (number of inputs with points) is unchanged by the setter"""
    pr = par.shared()
    reset()
    L = Layout(pr)

    class K(Ck):
        def unknown_load(self, I, st, reg, off, ty, key):
            if reg is self.pts and ty.kind == 'int':
                return P(sym(('n', off), 'n_old', 0, self.maxn, True))
            return Ck.unknown_load(self, I, st, reg, off, ty, key)

        def force_unroll(self, *a):
            return False
    ck = K(rep, L, 2)
    I = Interp(pr, ck)
    st = State()
    fn = pr.fn('mypaint_mapping_set_n')
    j = sym(('j',), 'input', 0, 4095, True)
    n = sym(('newn',), 'n', 0, ck.maxn, True)
    st.num.assume_ge(P(ck.J) - P(j) - 1)
    st.num.assume_ge(P(ck.J) - P(ck.used))
    cnt = 0
    kinds = set()
    po = P(j).scale(ck.cp) + L.off('ControlPoints', 'n')
    old = P(sym(('n', po), ''))
    for s, v in I.call_fn(fn, [Ptr(ck.m), P(j), P(n)], st, 0):
        new = I.asnum(s, I.read(s, ck.pts, po, 4, ir.I32, None, ('u', 0)))
        u = I.asnum(s, I.read(s, ck.m, C(L.off('MyPaintMapping', 'inputs_used')), 4, ir.I32, None, ('u', 1)))
        rep.ob(R_USED, new == P(n), fn.name, 'number of points becomes %r instead of %r' % (new, P(n)), key='setn')
        # split by the old and the new count being zero
        for oz in (True, False):
            for nz in (True, False):
                t = s.copy()
                if not t.assume(('eq' if oz else 'ne', old)) or not t.assume(('eq' if nz else 'ne', P(n))):
                    continue
                if not oz and t.num.ge0(-old) or not nz and t.num.ge0(-P(n)):
                    continue
                want = (0 if nz else 1) - (0 if oz else 1)
                d = u - P(ck.used)
                cnt += 1
                kinds.add((oz, nz))
                rep.ob(R_USED, d == C(want) or t.num.ge0(d - want) and t.num.ge0(C(want) - d), fn.name,
                       'points %s -> %s: counter changes by %r' % ('none' if oz else 'some', 'none' if nz else 'some', d),
                       key='used%d%d' % (oz, nz))
    rep.analysed(*I.visited)
    if len(kinds) < 4:
        raise Broken('mypaint_mapping_set_n: transitions %s only' % kinds)
    # nothing else writes the counter or a point count, constructors aside
    m, ty, _ = L.by['MyPaintMapping']
    for f in m.functions.values():
        for i in f.insts():
            if i.op != 'getelementptr' or len(i.ops) < 3:
                continue
            last = i.ops[-1]
            if not isinstance(last, ir.Const):
                continue
            nm = None
            for sname, mem in (('MyPaintMapping', 'inputs_used'), ('ControlPoints', 'n')):
                mm, t2, _ = L.by[sname]
                if t2.a in repr(i.x) and len(i.ops) == 3:
                    k = next(k for k in range(len(mm.fields(t2))) if mm.field_offset(t2, k)[0] == L.off(sname, mem))
                    if last.v == k:
                        nm = mem
            if nm is None:
                continue
            stores = [j for j in f.insts() if j.op == 'store' and isinstance(j.ops[1], ir.Reg) and j.ops[1].name == i.res]
            for j in stores:
                callers = {g.name for g in m.functions.values() for c in g.insts()
                           if c.op == 'call' and isinstance(c.ops[0], ir.GRef) and c.ops[0].name == f.name}
                ok = f.name in ('mypaint_mapping_set_n', 'mypaint_mapping_new') or callers and \
                    callers <= {'mypaint_mapping_set_n', 'mypaint_mapping_new'}
                rep.ob(R_USED, ok, irq.where(f, j), '%s is changed here' % nm, key='writer@' + f.name)
    # a new mapping has no points and no used inputs
    reset()

    class Z(Checker):
        maxstates = 8
    I = Interp(pr, Z())
    st = State()
    for s, v in I.call_fn(pr.fn('mypaint_mapping_new'), [C(18)], st, 0):
        u = I.read(s, v.reg, v.off + L.off('MyPaintMapping', 'inputs_used'), 4, ir.I32, None, ('z', 0))
        pl = I.read(s, v.reg, v.off + L.off('MyPaintMapping', 'pointsList'), 8, ir.PTR, None, ('z', 1))
        ns = [I.read(s, pl.reg, pl.off + (k * ck.cp + L.off('ControlPoints', 'n')), 4, ir.I32, None, ('z', 2)) for k in range(18)]
        rep.ob(R_USED, u == ZERO and all(x == ZERO for x in ns), 'mypaint_mapping_new', 'used = %r, points = %r' % (u, ns), key='new')


def single(rep):
    pr = par.shared()
    reset()
    L = Layout(pr)
    got = []

    class K(Ck):
        def on_call(self, I, st, inst, name, args, ctx):
            if name == 'mypaint_mapping_calculate':
                v = I.read(st, args[1].reg, args[1].off, 4, ir.FLOAT, None, ('s', 0)) if isinstance(args[1], Ptr) else None
                got.append((args[0], v))
                return [(st, P(sym(('calc',), 'calc')))]
            return None
    ck = K(rep, L, 2)
    I = Interp(pr, ck)
    st = State()
    x = P(sym(('x',), 'x'))
    fn = pr.fn('mypaint_mapping_calculate_single_input')
    rets = I.call_fn(fn, [Ptr(ck.m), x], st, 0)
    rep.analysed(*I.visited)
    if not rets or not got:
        raise Broken('mypaint_mapping_calculate_single_input: evaluation not found')
    for a, v in got:
        rep.ob(R_ONE, isinstance(a, Ptr) and a.reg is ck.m and v == x, fn.name, 'evaluates %r with %r' % (a, v), key='one')
    for s, v in rets:
        rep.ob(R_ONE, v == P(sym(('calc',), 'calc')), fn.name, 'returns %r' % v, key='oner')


def run(rep, w):
    pr = w.program()
    mx = Layout(pr).member('ControlPoints', 'xvalues')[1] // 4
    ns = [0] + (list(range(2, 12)) + [16, 33, mx] if rep.tier == 'quick' else list(range(2, mx + 1)))
    if rep.tier == 'quick':
        rep.assume('point counts checked in this tier: %s' % ns)
    par.run(rep, [(evaluation, (n,)) for n in reversed(ns)] + [(used, ()), (single, ())], ctx=pr)
    rep.require(R_SEG, 60)
    rep.require(R_SUM, 10)
    rep.require(R_USED, 8)
