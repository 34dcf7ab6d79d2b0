"""Abstract numeric domain: multilinear polynomials over symbols, with per-state ranges and linear facts.

Symbols are hash-consed.  A symbol may carry a definition (floor, quotient, ...), which the bound
computation may expand.  Nothing here enumerates program inputs: bounds are computed from endpoint
elimination (exact for multilinear polynomials) and from subtracting known non-negative facts.
"""
from fractions import Fraction
from math import floor as _floor, ceil as _ceil, gcd

SYMS = []          # id -> Sym
_TABLE = {}
FACTORS = {}       # product polynomial -> its factors, for bounding it as a product


class Sym:
    __slots__ = ('id', 'key', 'name', 'lo', 'hi', 'isint', 'defn', 'tag')

    def __repr__(self):
        return self.name


def reset():
    SYMS.clear()
    _TABLE.clear()
    FACTORS.clear()


def sym(key, name=None, lo=None, hi=None, isint=False, defn=None, tag=None):
    s = _TABLE.get(key)
    if s is None:
        s = Sym()
        s.id = len(SYMS)
        s.key = key
        s.name = name if name is not None else 's%d' % s.id
        s.lo, s.hi, s.isint, s.defn, s.tag = lo, hi, isint, defn, tag
        SYMS.append(s)
        _TABLE[key] = s
    return s


def _n(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('t', '_h', '_s')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._s = None

    @staticmethod
    def const(c):
        c = _n(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def of(s):
        return Poly({(s.id,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            x = d.get(m, 0) + c
            if x == 0:
                d.pop(m, None)
            else:
                d[m] = _n(x)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: _n(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        if self.isconst():
            return o.scale(self.cval())
        if o.isconst():
            return self.scale(o.cval())
        d = {}
        for m, c in self.t.items():
            for n, e in o.t.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                x = d.get(k, 0) + c * e
                if x == 0:
                    d.pop(k, None)
                else:
                    d[k] = _n(x)
        return Poly(d)

    def syms(self):
        if self._s is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._s = frozenset(s)
        return self._s

    def isint(self):
        """integer valued for all values of its symbols (sufficient condition)"""
        for c in self.t.values():
            if type(c) is Fraction and c.denominator != 1:
                return False
        return all(SYMS[s].isint for s in self.syms())

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def single(self):
        """the symbol if self == that symbol"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if len(m) == 1 and c == 1:
                return SYMS[m[0]]
        return None

    def subst(self, sid, q):
        """replace symbol sid by polynomial q"""
        if sid not in self.syms():
            return self
        out = ZERO
        rest = {}
        for m, c in self.t.items():
            k = m.count(sid)
            if not k:
                rest[m] = c
                continue
            r = Poly({tuple(x for x in m if x != sid): c})
            for _ in range(k):
                r = r * q
            out = out + r
        return out + Poly(rest)

    def substmap(self, mp):
        p = self
        hit = [s for s in p.syms() if s in mp]
        if not hit:
            return p
        out = ZERO
        for m, c in p.t.items():
            r = Poly.const(c)
            for s in m:
                r = r * (mp[s] if s in mp else Poly({(s,): 1}))
            out = out + r
        return out

    def coeff(self, sid):
        """(c, rest) with self = c*sid + rest, or None if sid occurs nonlinearly"""
        c, r = {}, {}
        for m, k in self.t.items():
            n = m.count(sid)
            if n == 0:
                r[m] = k
            elif n == 1:
                mm = tuple(x for x in m if x != sid)
                c[mm] = k
            else:
                return None
        return Poly(c), Poly(r)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            cs = str(c) if not isinstance(c, Fraction) or c.denominator < 10 ** 6 else '%.9g' % float(c)
            out.append('*'.join(([cs] if c != 1 or not m else []) + [SYMS[s].name for s in m]))
        return ' + '.join(out)


ZERO = Poly({})
ONE = Poly.const(1)


def C(c):
    return Poly.const(c)


def P(s):
    return Poly.of(s)


def denom(p):
    d = 1
    from math import gcd
    for c in p.t.values():
        if type(c) is Fraction:
            q = c.denominator
            d = d * q // gcd(d, q)
    return d


EPS = Fraction(1, 1 << 40)
BIG = 36            # polynomials with more terms are bounded by intervals only


def imul(a, b):
    """interval product with None = unbounded"""
    (al, ah), (bl, bh) = a, b
    if al is not None and ah is not None and bl is not None and bh is not None:
        if al == ah:
            return (al * bl, al * bh) if al >= 0 else (al * bh, al * bl)
        v = (al * bl, al * bh, ah * bl, ah * bh)
        return min(v), max(v)
    if (al == 0 and ah == 0) or (bl == 0 and bh == 0):
        return 0, 0
    # at least one unbounded end: decide by signs
    lo = hi = None
    if al is not None and al >= 0:
        if bl is not None and bl >= 0:
            return al * bl, (ah * bh if ah is not None and bh is not None else None)
        if bh is not None and bh <= 0:
            return (ah * bl if ah is not None and bl is not None else None), al * bh
        if ah is not None:                       # a bounded, b of unknown sign
            return (ah * bl if bl is not None else None), (ah * bh if bh is not None else None)
        return None, None
    if ah is not None and ah <= 0:
        l, h = imul((-ah, None if al is None else -al), (bl, bh))
        return (None if h is None else -h), (None if l is None else -l)
    if (bl is not None and bl >= 0) or (bh is not None and bh <= 0):
        return imul((bl, bh), (al, ah))
    return None, None


def ipow(a, k):
    r = (1, 1)
    if k % 2 == 0:
        lo, hi = a
        b = ipow(a, k // 2) if k > 2 else a
        x = imul(b, b)
        return (max(0, x[0]) if x[0] is not None else 0), x[1]
    for _ in range(k):
        r = imul(r, a)
    return r


GRID = 1 << 64
INF = float('inf')


def fl(x):
    try:
        return float(x)
    except OverflowError:
        return INF if x > 0 else -INF


def fm(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def fpow(l, h, k):
    if k % 2 == 0:
        if l >= 0:
            return l ** k, h ** k
        if h <= 0:
            return h ** k, l ** k
        return 0.0, max(-l, h) ** k
    return l ** k, h ** k


def fadd(r, c, k):
    d = dict(r)
    if k:
        for m, x in c.items():
            d[m] = d.get(m, 0.0) + x * k
    return d


def widen(r):
    """round bounds with huge denominators outwards"""
    lo, hi = r
    if type(lo) is Fraction and lo.denominator > GRID:
        lo = Fraction(_floor(lo * GRID), GRID)
    if type(hi) is Fraction and hi.denominator > GRID:
        hi = Fraction(_ceil(hi * GRID), GRID)
    return lo, hi


QUICK = False          # intervals only, no relational lower bounds


class Numeric:
    """ranges + facts; the numeric part of an abstract state"""
    MAXFACTS = 80

    def __init__(self, other=None):
        if other is None:
            self.rng = {}
            self.facts = ()
            self.nes = frozenset()
            self._memo = {}
        else:
            self.rng = dict(other.rng)
            self.facts = other.facts
            self.nes = other.nes
            self._memo = other._memo      # shared until changed

    def _dirty(self):
        self._memo = {}

    # ------------------------------------------------------------ ranges
    def srange(self, sid):
        memo = self._memo
        k = sid
        r = memo.get(k)
        if r is not None:
            return r
        s = SYMS[sid]
        lo, hi = s.lo, s.hi
        x = self.rng.get(sid)
        if x is not None:
            if x[0] is not None and (lo is None or x[0] > lo):
                lo = x[0]
            if x[1] is not None and (hi is None or x[1] < hi):
                hi = x[1]
        memo[k] = (lo, hi)          # recursion guard
        if s.defn is not None:
            dl, dh = self._defrange(s)
            if dl is not None and (lo is None or dl > lo):
                lo = dl
            if dh is not None and (hi is None or dh < hi):
                hi = dh
        lo, hi = widen((lo, hi))
        memo[k] = (lo, hi)
        return lo, hi

    def settle(self, sid):
        """precise range of a defined symbol, computed once where it is created"""
        if QUICK:
            return
        s = SYMS[sid]
        key = ('S', sid)
        if key in self._memo:
            return
        self._memo[key] = True
        lo, hi = self._defrange(s, self.range, self.ge0q)
        if s.defn[0] in ('floor', 'trunc', 'round') and (lo is None or lo < 0) and self.ge0(s.defn[1]):
            lo = 0
        if s.defn[0] == 'floor' and hi is not None and self.facts and len(s.defn[1].t) <= 3 and self.gt0(C(hi) - s.defn[1]):
            hi -= 1
        cl, ch = self.srange(sid)
        nl = cl if lo is None or (cl is not None and cl >= lo) else lo
        nh = ch if hi is None or (ch is not None and ch <= hi) else hi
        if (nl, nh) != (cl, ch):
            self.rng[sid] = (nl, nh)
            self._dirty()
            self._memo[key] = True

    def ge0q(self, p):
        if p.isconst():
            return p.cval() >= 0
        l = self.lower(p, 0, depth=2, nodes=30)
        return l is not None and l >= 0

    def _defrange(self, s, range_=None, ge0=None):
        range_ = range_ or self.interval
        d = s.defn
        k = d[0]
        if k == 'floor':
            l, h = range_(d[1])
            return (None if l is None else _floor(l)), (None if h is None else _floor(h))
        if k == 'round':      # roundf: half away from zero; monotone
            l, h = range_(d[1])

            def rnd(x):
                return _floor(x + Fraction(1, 2)) if x >= 0 else -_floor(-x + Fraction(1, 2))
            return (None if l is None else rnd(l)), (None if h is None else rnd(h))
        if k == 'trunc':
            l, h = range_(d[1])

            def tr(x):
                return _floor(x) if x >= 0 else -_floor(-x)
            return (None if l is None else tr(l)), (None if h is None else tr(h))
        if k == 'div':
            return self._quot(d[1], d[2], range_, ge0)
        if k == 'fabs':
            l, h = range_(d[1])
            if l is None or h is None:
                return 0, None
            if l >= 0:
                return l, h
            if h <= 0:
                return -h, -l
            return 0, max(-l, h)
        if k == 'mul':
            return widen(imul(range_(d[1]), range_(d[2])))
        if k == 'irange':
            return range_(d[1])
        if k in ('max', 'min'):
            (al, ah), (bl, bh) = range_(d[1]), range_(d[2])
            if k == 'max':
                return self._max(al, bl), None if ah is None or bh is None else max(ah, bh)
            return None if al is None or bl is None else min(al, bl), bh if ah is None else ah if bh is None else min(ah, bh)
        return None, None

    def _quot(self, p, q, range_, ge0):
        r = self._quot1(p, q, range_, ge0)
        if ge0 is not None:
            for neg in (False, True):
                f = FACTORS.get(-p if neg else p)
                if f is None:
                    continue
                for a, b in (f, f[::-1]):
                    x = self._quot1(b, q, range_, ge0)
                    x = imul(range_(a), x)
                    if neg:
                        x = (None if x[1] is None else -x[1]), (None if x[0] is None else -x[0])
                    r = (self._max(r[0], x[0]), x[1] if r[1] is None else r[1] if x[1] is None else min(r[1], x[1]))
        return r

    def _quot1(self, p, q, range_, ge0):
        lo = hi = None
        ql, qh = range_(q)
        if ql is not None and ql >= 0:
            pass
        elif qh is not None and qh <= 0:
            p, q = -p, -q
            ql, qh = (None if qh is None else -qh), (None if ql is None else -ql)
        else:
            return None, None
        if ql is not None and ql > 0:
            pl, ph = range_(p)
            if pl is not None:
                lo = Fraction(pl) / ql if pl < 0 else (Fraction(pl) / qh if qh is not None else 0)
            if ph is not None:
                hi = Fraction(ph) / ql if ph > 0 else (Fraction(ph) / qh if qh is not None else 0)
        if ge0 is not None:
            for c in (1, 0, -1):
                if lo is not None and lo >= c:
                    break
                if ge0(p - q.scale(c)):
                    lo = c
                    break
            for c in (0, 1, 2):
                if hi is not None and hi <= c:
                    break
                if ge0(q.scale(c) - p):
                    hi = c
                    break
        return widen((_n(lo) if lo is not None else None, _n(hi) if hi is not None else None))

    def interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            iv = (c, c)
            if m:
                i = 0
                while i < len(m):
                    k = 1
                    while i + k < len(m) and m[i + k] == m[i]:
                        k += 1
                    r = self.srange(m[i])
                    iv = imul(iv, ipow(r, k) if k > 1 else r)
                    i += k
            lo = None if lo is None or iv[0] is None else lo + iv[0]
            hi = None if hi is None or iv[1] is None else hi + iv[1]
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def _vertex(self, p, budget):
        """lower bound of p by endpoint elimination; None = -inf"""
        lo, hi = self.interval(p)
        if p.degree() <= 1:
            # linear: interval arithmetic is exact
            return lo
        if len(p.t) <= 1:
            return lo
        if budget[0] <= 0:
            return lo
        budget[0] -= 1
        syms = list(p.syms())
        # choose a symbol with determined coefficient sign
        best = None
        for s in syms:
            cr = p.coeff(s)
            if cr is None:
                continue
            c, r = cr
            sl, sh = self.srange(s)
            if sl is not None and sl == sh:
                return self._vertex(p.subst(s, C(sl)), budget)
            cl, ch = self.interval(c)
            if cl is not None and cl >= 0:
                if not c.isconst():
                    if sl is None:
                        continue
                    return self._max(lo, self._vertex(c.scale(sl) + r, budget))
            elif ch is not None and ch <= 0:
                if not c.isconst():
                    if sh is None:
                        continue
                    return self._max(lo, self._vertex(c.scale(sh) + r, budget))
            elif sl is not None and sh is not None:
                n = len(c.t)
                if best is None or n > best[0]:
                    best = (n, s, c, r, sl, sh)
        if best is None:
            return lo
        _, s, c, r, sl, sh = best
        a = self._vertex(c.scale(sl) + r, budget)
        b = self._vertex(c.scale(sh) + r, budget)
        if a is None or b is None:
            return lo
        return self._max(lo, min(a, b))

    # ---- floating point estimate of _vertex, used only to skip hopeless exact computations
    def frange(self, sid):
        k = ('f', sid)
        r = self._memo.get(k)
        if r is None:
            lo, hi = self.srange(sid)
            r = (-INF if lo is None else fl(lo), INF if hi is None else fl(hi))
            self._memo[k] = r
        return r

    def finterval(self, t):
        lo = hi = 0.0
        for m, c in t.items():
            a = b = c
            for i, s in enumerate(m):
                if i and m[i - 1] == s:
                    continue
                k = m.count(s)
                l, h = self.frange(s)
                if k > 1:
                    l, h = fpow(l, h, k)
                v = (fm(a, l), fm(a, h), fm(b, l), fm(b, h))
                a, b = min(v), max(v)
            lo += a
            hi += b
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return lo, hi

    def _fvertex(self, t, budget):
        lo, hi = self.finterval(t)
        if len(t) <= 1 or budget[0] <= 0:
            return lo
        deg = max((len(m) for m in t), default=0)
        if deg <= 1:
            return lo
        budget[0] -= 1
        syms = set()
        for m in t:
            syms.update(m)
        best = None
        for s in syms:
            c, r = {}, {}
            bad = False
            for m, k in t.items():
                n = m.count(s)
                if n == 0:
                    r[m] = k
                elif n == 1:
                    c[tuple(x for x in m if x != s)] = k
                else:
                    bad = True
                    break
            if bad:
                continue
            sl, sh = self.frange(s)
            isc = len(c) == 1 and () in c
            if sl == sh:
                return self._fvertex(fadd(r, c, sl), budget)
            if isc:
                continue
            cl, ch = self.finterval(c)
            if cl >= 0:
                if sl == -INF:
                    continue
                return max(lo, self._fvertex(fadd(r, c, sl), budget))
            elif ch <= 0:
                if sh == INF:
                    continue
                return max(lo, self._fvertex(fadd(r, c, sh), budget))
            elif sl != -INF and sh != INF:
                n = len(c)
                if best is None or n > best[0]:
                    best = (n, c, r, sl, sh)
        if best is None:
            return lo
        _, c, r, sl, sh = best
        a = self._fvertex(fadd(r, c, sl), budget)
        b = self._fvertex(fadd(r, c, sh), budget)
        return max(lo, min(a, b))

    def _try(self, p, best, vb):
        """exact lower bound of p unless the estimate says that it does not beat best"""
        if best is not None:
            e = self._fvertex({m: fl(c) for m, c in p.t.items()}, [vb])
            b = fl(best)
            if e < b + 1e-9 * abs(b) and e < b + 1e-12:
                # not better (or only within rounding): keep best unless bounds are tiny integers at stake
                if not (e > b - 1e-9 * (1 + abs(b))):
                    return best
        return self._vertex(p, [vb])

    @staticmethod
    def _max(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return max(a, b)

    def _expand(self, p, sid):
        """p with floor symbol sid replaced by its definition minus a fraction"""
        s = SYMS[sid]
        d = s.defn
        if d[0] != 'floor':
            return None
        q = d[1]
        if all(SYMS[x].isint for x in q.syms()):
            D = denom(q)
            e = sym(('eps', sid), 'eps_%s' % s.name, 0, Fraction(D - 1, D))
        else:
            e = sym(('eps', sid), 'eps_%s' % s.name, 0, 1)
        return p.subst(sid, q - P(e))

    def lower(self, p, target=None, depth=3, nodes=120, splits=2):
        """greatest lower bound found for p (None = none); stops early at target"""
        if p.isconst():
            return p.cval()
        p = self.norm(p)
        if p.isconst():
            return p.cval()
        key = (p, 'L')
        m = self._memo.get(key)
        if m is not None:
            if (target is not None and m[0] is not None and m[0] >= target) or m[1] >= 3 \
                    or m[1] >= (1 if target is None else 2 if depth < 3 else 3):
                return m[0]
        isint = p.isint()

        def rnd(v):
            return _ceil(v) if (isint and v is not None) else v
        if len(p.t) > BIG:
            best = rnd(self.interval(p)[0])
            self._memo[key] = (best, 3)
            return best
        nt = len(p.t)
        vb = max(6, 1200 // (nt * nt))
        if QUICK:
            best = rnd(self.interval(p)[0])
            for f, strict in self.facts:
                m = next((m for m in f.t if m), None)
                c = p.t.get(m) if m is not None else None
                if c is None or (c > 0) != (f.t[m] > 0):
                    continue
                r = p - f.scale(Fraction(c) / f.t[m])
                if r.isconst():
                    best = self._max(best, r.cval())
            self._memo[key] = (best, 3)
            return best
        nodes = min(nodes, max(8, 600 // nt))
        if not isint and nt > 6:
            depth, nodes = min(depth, 1), min(nodes, 16)
        best = rnd(self._vertex(p, [vb]))
        if target is None or best is None or best < target:
            best = self._max(best, rnd(self._factored(p, splits)))
        if target is not None and best is not None and best >= target:
            self._memo[key] = (best, 0)
            return best
        # relaxations
        seen = {p}
        frontier = [p]
        n = 0
        fl = [s for s in p.syms() if SYMS[s].defn and SYMS[s].defn[0] == 'floor']
        if len(fl) > 1:
            q = p
            for s in fl:
                q = self._expand(q, s)
            if q not in seen:
                seen.add(q)
                frontier.append(q)
                best = self._max(best, rnd(self._try(q, best, vb)))
                # fully expanded (nested)
                for _ in range(4):
                    f2 = [s for s in q.syms() if SYMS[s].defn and SYMS[s].defn[0] == 'floor']
                    if not f2:
                        break
                    for s in f2:
                        q = self._expand(q, s)
                    if len(q.t) > 200:
                        break
                    best = self._max(best, rnd(self._try(q, best, vb)))
                if target is not None and best is not None and best >= target:
                    self._memo[key] = (best, 0)
                    return best
        if 3 <= len(fl) <= 4:
            for i in range(len(fl)):
                for j in range(i):
                    q = self._expand(self._expand(p, fl[i]), fl[j])
                    if q not in seen and len(q.t) <= BIG:
                        seen.add(q)
                        frontier.append(q)
                        best = self._max(best, rnd(self._try(q, best, vb)))
            frontier = frontier[1:] + frontier[:1]
        for d in range(depth):
            nxt = []
            for q in frontier:
                if len(q.t) > BIG:
                    continue
                for r in self._relax(q):
                    if r in seen:
                        continue
                    seen.add(r)
                    n += 1
                    v = rnd(self._try(r, best, vb))
                    best = self._max(best, v)
                    if target is not None and best is not None and best >= target:
                        self._memo[key] = (best, 0)
                        return best
                    nxt.append(r)
                    if n >= nodes:
                        break
                if n >= nodes:
                    break
            frontier = nxt
            if n >= nodes or not frontier:
                break
        if target is not None and splits and (best is None or best < target):
            # endpoint elimination of a real symbol in which p is linear, each end with full relaxations
            cands = [p]
            fl1 = [x for x in p.syms() if SYMS[x].defn and SYMS[x].defn[0] == 'floor' and not SYMS[x].defn[1].isint()
                   and any(not SYMS[y].isint for y in SYMS[x].defn[1].syms())]
            if fl1:
                q = p
                for x in fl1:
                    q = self._expand(q, x)
                cands.append(q)
            for q in cands:
                if not 3 <= len(q.t) <= 24:
                    continue
                qint = q.isint()
                for s in q.syms():
                    sy = SYMS[s]
                    if sy.isint or sy.key[0] == 'eps' or all(len(m) < 2 for m in q.t if s in m):
                        continue
                    cr = q.coeff(s)
                    sl, sh = self.srange(s)
                    if cr is None or sl is None or sh is None or sl == sh:
                        continue
                    # integer valued p: p > target - 1 is enough
                    tq = target if not isint else target - 1 + EPS
                    a = self.lower(cr[0].scale(sl) + cr[1], tq, depth, nodes, splits - 1)
                    if a is None or a < tq:
                        continue
                    b = self.lower(cr[0].scale(sh) + cr[1], tq, depth, nodes, splits - 1)
                    if b is None:
                        continue
                    best = self._max(best, rnd(min(a, b)))
                    if best >= target:
                        self._memo[key] = (best, 0)
                        return best
        if target is not None and (best is None or best < target):
            # the unfavourable side of a maximum or minimum: both alternatives
            for s in p.syms():
                d = SYMS[s].defn
                if d is None or d[0] not in ('max', 'min'):
                    continue
                cr = p.coeff(s)
                if cr is None or not cr[0].isconst():
                    continue
                good = (cr[0].cval() > 0) == (d[0] == 'max')        # either alternative is enough
                tq = target if not isint else target - 1 + EPS
                a = self.lower(cr[0] * d[1] + cr[1], tq, depth, nodes, splits)
                if a is not None and a >= tq and good:
                    best = self._max(best, rnd(a))
                    break
                if (a is None or a < tq) and not good:
                    continue
                if good:
                    a = None
                b = self.lower(cr[0] * d[2] + cr[1], tq, depth, nodes, splits)
                if b is None or b < tq:
                    continue
                best = self._max(best, rnd(b if a is None else min(a, b)))
                break
        self._memo[key] = (best, 1 if target is None else 2 if depth < 3 or splits < 2 else 3)
        return best

    def _factored(self, p, splits):
        """lower bound of k*a*b + c from the ranges of a and b"""
        if splits < 1:
            return None
        c = p.t.get((), 0)
        q = p - c if c else p
        for neg in (False, True):
            f = FACTORS.get(-q if neg else q)
            if f is None:
                continue
            r = imul(self.range(f[0]), self.range(f[1]))
            v = r[0] if not neg else (None if r[1] is None else -r[1])
            if v is not None:
                return v + c
        return None

    def norm(self, p):
        """p with the symbols that have a single possible value replaced"""
        mp = None
        for s in p.syms():
            lo, hi = self.srange(s)
            if lo is not None and lo == hi:
                mp = mp or {}
                mp[s] = C(lo)
        return p.substmap(mp) if mp else p

    def _relax(self, q):
        out = []
        qs = q.syms()
        for s in qs:
            sy = SYMS[s]
            if sy.defn is not None and sy.defn[0] == 'floor':
                out.append(self._expand(q, s))
        for f, strict in self.facts:
            if not (f.syms() & qs):
                continue
            for m, fc in f.t.items():
                if not m:
                    continue
                pc = q.t.get(m)
                if pc is not None:
                    lam = Fraction(pc) / fc
                    if lam > 0:
                        out.append(q - f.scale(lam))
            # fact times a non-negative symbol
            if f.degree() == 1:
                for m, pc in q.t.items():
                    if len(m) == 2 and m[0] != m[1]:
                        for a, b in ((m[0], m[1]), (m[1], m[0])):
                            fc = f.t.get((a,))
                            if fc is None:
                                continue
                            lam = Fraction(pc) / fc
                            l, h = self.srange(b)
                            if lam > 0:
                                if l is not None:
                                    out.append(q - (f * Poly({(b,): 1} if l == 0 else {(b,): 1, (): -l})).scale(lam))
                            elif h is not None:
                                out.append(q - (f * Poly({(b,): -1, (): h})).scale(-lam))
        return out

    def upper(self, p, target=None):
        l = self.lower(-p, None if target is None else -target)
        return None if l is None else -l

    def range(self, p):
        if p.isconst():
            return p.cval(), p.cval()
        s = p.single()
        if s is not None and not self.facts and not (s.defn and s.defn[0] == 'floor'):
            return self.srange(s.id)
        return self.lower(p, depth=2, nodes=30), self.upper_q(p)

    def upper_q(self, p):
        l = self.lower(-p, depth=2, nodes=30)
        return None if l is None else -l

    def ge0(self, p):
        if p.isconst():
            return p.cval() >= 0
        l = self.lower(p, 0)
        return l is not None and l >= 0

    def gt0(self, p):
        if p.isconst():
            return p.cval() > 0
        if p.isint():
            return self.ge0(p - 1)
        l = self.interval(p)[0]
        if l is not None and l > 0:
            return True
        l = self.lower(p, EPS)
        if l is not None and l > 0:
            return True
        if l is not None and l == 0:
            return self._nonzero(p) or any(st and p == f for f, st in self.facts) or self._strictlin(p) or self._strictfloor(p)
        return any(st and p == f for f, st in self.facts)

    def _strictfloor(self, p):
        """floor(q) = q - e with e < 1: positive if not negative at e = 1"""
        def floors(q):
            return [s for s in q.syms() if SYMS[s].defn and SYMS[s].defn[0] == 'floor']
        if not floors(p):
            return False
        cands = [p]
        for f, _ in self.facts:
            for m, c in f.t.items():
                if m and m in p.t and Fraction(p.t[m]) / c > 0:
                    q = p - f.scale(Fraction(p.t[m]) / c)
                    if m not in q.t and q not in cands and floors(q):
                        cands.append(q)
        for q in cands[:8]:
            for _ in range(4):
                fl = floors(q)
                if not fl:
                    break
                for s in fl:
                    q = self._expand(q, s)
                if len(q.t) > BIG:
                    break
                for s in q.syms():
                    if SYMS[s].key[0] == 'eps' and SYMS[s].hi == 1 and all(m == (s,) for m in q.t if s in m) and q.t[(s,)] < 0:
                        if self.ge0(q):
                            return True
        return False

    def _strictlin(self, p):
        """the infimum 0 of a linear form is not reached when it needs a symbol at a bound that it stays off"""
        if not self.facts:
            return False
        ss = p.syms()
        if len(ss) == 1 and len(p.t) == 1 and p.degree() == 1:
            (m, c), = p.t.items()
            d = SYMS[m[0]].defn
            if d is not None and d[0] == 'div' and self.gt0(d[2]):
                return self.gt0(d[1] if c > 0 else -d[1])
        for f, st in self.facts:
            if st and len(f.t) <= 4 and f.syms() <= ss:
                for m, c in f.t.items():
                    if m and m in p.t and Fraction(p.t[m]) / c > 0 and self.ge0(p - f.scale(Fraction(p.t[m]) / c)):
                        return True
        if self.interval(p)[0] != 0:
            return False
        for m, c in p.t.items():
            if len(m) > 1:
                return False
        for m, c in p.t.items():
            if m:
                l, h = self.srange(m[0])
                q = P(SYMS[m[0]]) - C(l) if c > 0 else C(h) - P(SYMS[m[0]])
                if any(st and f == q for f, st in self.facts):
                    return True
        return False

    def _nonzero(self, p):
        return p in self.nes or (-p) in self.nes

    # ------------------------------------------------------- assumptions
    def set_range(self, sid, lo, hi):
        """intersect; returns False if empty"""
        s = SYMS[sid]
        if s.isint:
            if lo is not None:
                lo = _ceil(lo)
            if hi is not None:
                hi = _floor(hi)
        cl, ch = self.srange(sid)
        nl = cl if lo is None or (cl is not None and cl >= lo) else lo
        nh = ch if hi is None or (ch is not None and ch <= hi) else hi
        if nl is not None and nh is not None and nl > nh:
            return False
        if (nl, nh) != (cl, ch):
            self.rng[sid] = (nl, nh)
            self._dirty()
            d = s.defn
            if d is not None:
                ok = True
                if d[0] == 'floor':
                    if lo is not None:
                        ok = ok and self.assume_ge(d[1] - C(nl), depth=1)
                    if hi is not None:
                        ok = ok and self.assume_ge(C(nh + 1) - d[1], strict=True, depth=1)
                elif d[0] == 'div' :
                    ql = self.lower(d[2])
                    if ql is not None and ql >= 0:
                        if lo is not None:
                            ok = ok and self.assume_ge(d[1] - d[2].scale(nl), depth=1)
                        if hi is not None:
                            ok = ok and self.assume_ge(d[2].scale(nh) - d[1], depth=1)
                if not ok:
                    return False
        return True

    def assume_ge(self, p, strict=False, depth=0):
        """assume p >= 0 (or > 0); returns False when infeasible"""
        if p.isconst():
            return p.cval() > 0 if strict else p.cval() >= 0
        if p.isint():
            if strict:
                p, strict = p - 1, False
            if len(p.t) > 1:
                # common factor of the coefficients: g*q + c >= 0 with integral q means q + floor(c/g) >= 0
                g = 0
                for m, c in p.t.items():
                    if m != ():
                        g = gcd(g, int(c))
                        if g == 1:
                            break
                if g > 1:
                    p = Poly({m: int(c) // g for m, c in p.t.items() if m != () or int(c) // g})
        elif not strict and all(SYMS[x].isint for x in p.syms()):
            pass
        u = self.upper(p)
        if u is not None and (u < 0 or (strict and u <= 0)):
            return False
        if u is not None and u == 0 and not strict:
            pass
        if self.ge0(p) and not strict:
            return True
        ss = p.syms()
        if len(ss) == 1 and p.degree() == 1:
            s, = ss
            c, r = p.coeff(s)
            b = Fraction(-r.cval()) / c.cval()
            if c.cval() > 0:
                ok = self.set_range(s, _n(b), None)
            else:
                ok = self.set_range(s, None, _n(b))
            if not ok:
                return False
            if strict:
                self._addfact(p, True)
            return True
        self._addfact(p, strict)
        if depth < 1:
            q = self._unquot(p, ss)
            if q is not None and not self.assume_ge(q, strict, 1):
                return False
        # bound propagation
        if depth < 2:
            for s in ss:
                cr = p.coeff(s)
                if cr is None or not cr[0].isconst():
                    continue
                c = cr[0].cval()
                if c == 0:
                    continue
                u = self.interval(cr[1])[1]
                if u is None:
                    continue
                b = _n(Fraction(-u) / c)
                if c > 0:
                    if not self.set_range(s, b, None):
                        return False
                else:
                    if not self.set_range(s, None, b):
                        return False
        return True

    def _unquot(self, p, ss):
        """k*floor(c*(a/b) + e) + r >= 0 with k > 0, b > 0: k*c*a + (k*e + r)*b >= 0"""
        for x in ss:
            d = SYMS[x].defn
            if d is None or d[0] != 'floor' or len(p.t) > 6:
                continue
            cr = p.coeff(x)
            if cr is None or not cr[0].isconst() or cr[0].cval() <= 0 or x in cr[1].syms():
                continue
            for y in d[1].syms():
                dd = SYMS[y].defn
                if dd is None or dd[0] != 'div' or len(dd[2].t) > 3:
                    continue
                c2 = d[1].coeff(y)
                if c2 is None or not c2[0].isconst() or y in c2[1].syms():
                    continue
                l = self.lower(dd[2])
                if l is None or l <= 0:
                    continue
                k = cr[0].cval()
                return dd[1].scale(Fraction(k) * c2[0].cval()) + (c2[1].scale(k) + cr[1]) * dd[2]
        return None

    def _addfact(self, p, strict):
        if (p, strict) in self.facts:
            return
        if len(p.t) > 40:
            return
        self.facts = (self.facts + ((p, strict),))[-self.MAXFACTS:]
        self._dirty()

    def assume_ne(self, p):
        if p.isconst():
            return p.cval() != 0
        ss = p.syms()
        if len(ss) == 1 and p.degree() == 1:
            s, = ss
            if SYMS[s].isint:
                c, r = p.coeff(s)
                v = Fraction(-r.cval()) / c.cval()
                lo, hi = self.srange(s)
                if lo is not None and lo == v:
                    if not self.set_range(s, v + 1, None):
                        return False
                elif hi is not None and hi == v:
                    if not self.set_range(s, None, v - 1):
                        return False
                else:
                    self.nes = self.nes | {p}
                    self._dirty()
                return True
        self.nes = self.nes | {p}
        for q in (p, -p):
            if self.ge0(q):
                if q.isint():
                    if self.assume_ge(q - 1) is False:
                        return False
                else:
                    self._addfact(q, True)
                break
        self._dirty()
        return True

    def assume_eq(self, p):
        return self.assume_ge(p) and self.assume_ge(-p)
