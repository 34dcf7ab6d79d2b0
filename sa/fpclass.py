"""Floating-point classes (NaN, infinite, finite) of chosen values, learned from classification calls and comparisons.

A checker that mixes this in gets the ghost fact 'cls': {(value, mask)} with the bits of llvm.is.fpclass; values without a fact
may be anything.  Comparisons are otherwise decided over the reals."""
from fractions import Fraction
from functools import reduce
from operator import or_
from .dom import ZERO, Poly, SYMS, C
from .interp import Bool

NAN, INF, NONFIN, ALL = 3, 0x204, 0x207, 0x3ff
FLT_MAX = (2 - Fraction(1, 1 << 23)) * (1 << 127)
FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}


class Classes:
    fcmp_forks = True

    def tracked(self, x):
        """symbols whose class matters"""
        return isinstance(SYMS[x].key, tuple) and SYMS[x].key[0] == 'dbl'

    def join_classes(self, gs):
        cl = {}
        for g in gs:
            for k, v in g.get('cls', ()):
                cl.setdefault(k, []).append(v)
        return frozenset((k, reduce(or_, v)) for k, v in cl.items() if len(v) == len(gs))

    def class_of(self, st, v):
        return dict(st.ghost.get('cls', ())).get(self.bare(v), ALL)

    def bare(self, v):
        """absolute value and sign do not matter for the classes asked for"""
        s = v.single()
        while s is not None and isinstance(s.key, tuple) and s.key[0] == 'fabs':
            v = s.key[1]
            s = v.single()
        if s is None and (-v).single() is not None:
            v = -v
        return v

    def cls(self, st, v, m):
        """fork on v being in one of the classes m -> [(state, bool)]"""
        cur = dict(st.ghost.get('cls', ())).get(v, ALL)
        out = []
        for mask, r in ((m, True), (ALL & ~m, False)):
            if cur & mask:
                s = st.copy()
                d = dict(s.ghost.get('cls', ()))
                d[v] = cur & mask
                s.ghost['cls'] = frozenset(d.items())
                out.append((s, r))
        return out

    def classes(self, st, v, m):
        if not any(self.tracked(x) for x in v.syms()):
            return None
        return [(s, Bool(('eq', ZERO)) if r else Bool(('ne', ZERO))) for s, r in self.cls(st, v, m)]

    def class_call(self, I, st, name, args):
        """calls that test the class of a number"""
        if name.startswith('llvm.is.fpclass'):
            return self.classes(st, self.bare(I.asnum(st, args[0])), int(I.asnum(st, args[1]).cval()))
        if name in ('isfinite', 'finite', 'finitef', '__finite', '__finitef'):
            return self.classes(st, self.bare(I.asnum(st, args[0])), ALL & ~NONFIN)
        if name in ('isnan', '__isnan', '__isnanf'):
            return self.classes(st, self.bare(I.asnum(st, args[0])), NAN)
        if name in ('isinf', '__isinf', '__isinff'):
            return self.classes(st, self.bare(I.asnum(st, args[0])), INF)
        return None

    def on_fcmp(self, I, st, inst, a, b):
        pred = inst.x[0]
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return None
        if pred in ('ord', 'uno', 'une', 'oeq') and (a == b or pred in ('ord', 'uno') and (a.isconst() or b.isconst())):
            v = self.bare(b if a.isconst() else a)
            return self.classes(st, v, NAN if pred in ('uno', 'une') else ALL & ~NAN)
        for x, y, flip in ((a, b, False), (b, a, True)):
            s, xs = y.single(), x.single()
            inf = s is not None and s.key[:2] == ('fconst', 'inf')
            if not inf and not y.isconst() or xs is None or not any(self.tracked(t) for t in self.bare(x).syms()):
                continue
            v = self.bare(x)
            isabs = isinstance(xs.key, tuple) and xs.key[0] == 'fabs'
            if not isabs and v != x:
                continue
            o = pred[1:]
            if flip:
                o = FLIP.get(o, o)
            if inf or y.cval() >= FLT_MAX:
                if not inf and o in ('lt', 'ge') or inf and o in ('gt', 'le'):
                    continue
                m = (INF if isabs else 0x200) if o in ('gt', 'ge', 'eq') else ALL & ~NAN & ~(INF if isabs else 0x200)
                if pred[0] == 'u':
                    m |= NAN
                return self.classes(st, v, m)
            if o not in FLIP:
                continue
            # an ordinary bound: a number below it is no positive infinity
            out = []
            low = o in ('lt', 'le')
            for s1, nan in self.cls(st, v, NAN):
                if nan:
                    out.append((s1, Bool(('eq', ZERO)) if pred[0] == 'u' else Bool(('ne', ZERO))))
                    continue
                d = x - y
                t = {'lt': ('gt', -d), 'le': ('ge', -d), 'gt': ('gt', d), 'ge': ('ge', d)}[o]
                f = {'lt': ('ge', d), 'le': ('gt', d), 'gt': ('ge', -d), 'ge': ('gt', -d)}[o]
                for q, r in ((t, True), (f, False)):
                    z = s1.copy()
                    if z.assume(q) is False:
                        continue
                    below = r == low
                    for z1, k in self.cls(z, v, (INF if isabs else 0x200) if below else (0 if isabs else 4)):
                        if not k:
                            out.append((z1, Bool(('eq', ZERO)) if r else Bool(('ne', ZERO))))
            return out
        return None
