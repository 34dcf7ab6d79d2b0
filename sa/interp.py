"""Abstract interpreter over mem2reg'd LLVM IR.

Forward dataflow analysis of a whole call tree (calls are analysed in context), to a fixpoint at every
loop.  Values are polynomials over symbols (dom.py), pointers are (region, offset polynomial).  States that
meet at a block are kept apart up to a bound and are joined beyond it; loop headers are generalised until
the back edges add nothing new.  Nothing is executed and no path is handed to a solver.
"""
from fractions import Fraction
from . import dom, ir
from .dom import Poly, C, P, ZERO, sym, SYMS, Numeric, _n


class AnalysisError(Exception):
    """the analysis could not be carried out (error exit, never a verdict)"""


# ---------------------------------------------------------------- values
class Region:
    __slots__ = ('key', 'kind', 'name', 'size', 'uninit', 'nullable', 'glob', 'id')

    def __repr__(self):
        return self.name


_REGS = {}


def region(key, kind, name=None, size=None, uninit=False, nullable=False, glob=None):
    r = _REGS.get(key)
    if r is None:
        r = Region()
        r.key, r.kind, r.name = key, kind, name or ('r%d' % len(_REGS))
        r.size, r.uninit, r.nullable, r.glob = size, uninit, nullable, glob
        r.id = len(_REGS)
        _REGS[key] = r
    return r


_CTX = {}


def ctx_push(ctx, *what):
    k = (ctx,) + what
    c = _CTX.get(k)
    if c is None:
        c = len(_CTX) + 1
        _CTX[k] = c
        CTXINFO[c] = k
    return c


CTXINFO = {}


def reset():
    dom.reset()
    _REGS.clear()
    _CTX.clear()
    CTXINFO.clear()
    _REGS[('null',)] = NULLR


NULLR = region(('null',), 'null', 'NULL')


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off=ZERO):
        self.reg, self.off = reg, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.reg is o.reg and self.off == o.off

    def __hash__(self):
        return hash((self.reg.id, self.off))

    def __repr__(self):
        return '&%s+%r' % (self.reg, self.off)


class Bool:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Bool) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Bool%r' % (self.p,)


class FnV:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __eq__(self, o):
        return isinstance(o, FnV) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class UndefT:
    def __repr__(self):
        return 'undef'


UNDEF = UndefT()


class Parts:
    """bytes made of several values: ((offset, size, value), ...)"""
    __slots__ = ('size', 'parts')

    def __init__(self, size, parts):
        self.size, self.parts = size, tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Parts) and self.size == o.size and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'Parts%r' % (self.parts,)


# ------------------------------------------------------------- predicates
TRUE, FALSE = ('c', True), ('c', False)


def pneg(p):
    k = p[0]
    if k == 'c':
        return FALSE if p[1] else TRUE
    if k == 'ge':
        return ('gt', -p[1])
    if k == 'gt':
        return ('ge', -p[1])
    if k == 'eq':
        return ('ne', p[1])
    if k == 'ne':
        return ('eq', p[1])
    if k == 'null':
        return ('nonnull', p[1])
    if k == 'nonnull':
        return ('null', p[1])
    if k == 'unk':
        return ('nunk', p[1])
    if k == 'nunk':
        return ('unk', p[1])
    if k == 'and':
        return ('or', pneg(p[1]), pneg(p[2]))
    if k == 'or':
        return ('and', pneg(p[1]), pneg(p[2]))
    raise AnalysisError('pneg')


class RegMem:
    __slots__ = ('cells', 'ver', 'fills', 'uninit')

    def __init__(self, ver=0, uninit=False):
        self.cells = {}
        self.ver = ver
        self.fills = ()
        self.uninit = uninit

    def copy(self):
        m = RegMem(self.ver, self.uninit)
        m.cells = dict(self.cells)
        m.fills = self.fills
        return m


class State:
    __slots__ = ('env', 'mem', 'num', 'null', 'unk', 'ghost')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.num = Numeric()
        self.null = {}
        self.unk = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.num = Numeric(self.num)
        s.null = dict(self.null)
        s.unk = dict(self.unk)
        s.ghost = dict(self.ghost)
        return s

    # ---- predicates
    def decide(self, p):
        k = p[0]
        n = self.num
        if k == 'c':
            return p[1]
        if k == 'ge':
            if n.ge0(p[1]):
                return True
            if n.gt0(-p[1]):
                return False
            return None
        if k == 'gt':
            if n.gt0(p[1]):
                return True
            if n.ge0(-p[1]):
                return False
            return None
        if k in ('eq', 'ne'):
            q = p[1]
            r = None
            if q.isconst():
                r = q.cval() == 0
            elif n._nonzero(q):
                r = False
            elif n.gt0(q) or n.gt0(-q):
                r = False
            elif n.ge0(q) and n.ge0(-q):
                r = True
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k in ('null', 'nonnull'):
            r = self.isnull(p[1])
            if r is None:
                return None
            return r if k == 'null' else not r
        if k == 'unk':
            return self.unk.get(p[1])
        if k == 'nunk':
            r = self.unk.get(p[1])
            return None if r is None else not r
        if k == 'and':
            a = self.decide(p[1])
            if a is False:
                return False
            b = self.decide(p[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.decide(p[1])
            if a is True:
                return True
            b = self.decide(p[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        raise AnalysisError('decide %r' % (p,))

    def isnull(self, reg):
        if reg.kind == 'null':
            return True
        if reg in self.null:
            return self.null[reg]
        if not reg.nullable:
            return False
        return None

    def assume(self, p):
        """refine in place; False if infeasible"""
        k = p[0]
        n = self.num
        if k == 'c':
            return p[1]
        if k == 'ge':
            return n.assume_ge(p[1])
        if k == 'gt':
            return n.assume_ge(p[1], strict=True)
        if k == 'eq':
            if self.decide(p) is False:
                return False
            return n.assume_eq(p[1])
        if k == 'ne':
            if self.decide(p) is False:
                return False
            return n.assume_ne(p[1])
        if k in ('null', 'nonnull'):
            r = self.isnull(p[1])
            want = k == 'null'
            if r is not None:
                return r == want
            self.null[p[1]] = want
            return True
        if k in ('unk', 'nunk'):
            want = k == 'unk'
            r = self.unk.get(p[1])
            if r is not None:
                return r == want
            self.unk[p[1]] = want
            return True
        if k == 'and':
            return self.assume(p[1]) and self.assume(p[2])
        if k == 'or':
            a, b = self.decide(p[1]), self.decide(p[2])
            if a is False:
                return self.assume(p[2])
            if b is False:
                return self.assume(p[1])
            return True
        raise AnalysisError('assume')


# ----------------------------------------------------------------- checker
class Checker:
    """hooks; every check subclasses this"""
    maxstates = 16
    maxrets = None      # states that a call may return with (default: maxstates)
    stop = ()                 # functions not to be entered (on_call must model them, or unknown result)
    unroll_limit = 200
    fcap = (16, 4)            # products of real polynomials beyond this size become opaque
    fcmp_forks = False        # on_fcmp(I, st, inst, a, b) -> [(state, value)] or None is called for floating-point comparisons
    exactjoin = False         # express joined values as maximum / minimum of the alternatives where they are
    cases = False             # pointers that differ between the ghost states of a loop are tracked per ghost state
    alias_loads = False       # unknown_load also decides loads that may overlap known cells
    linear = False            # value arithmetic irrelevant: float operations and non-linear terms become opaque

    def key(self, st):
        return None

    def count_points(self, I):
        """loop iteration numbers that matter for the ghost keys (symbolic)"""
        return ()

    def stable(self, v):
        """does v denote the same value in all iterations?"""
        return False

    def keep_loop(self, I, fn, loop, st):
        """never unroll this loop"""
        return False

    def force_unroll(self, I, fn, loop, st):
        """try to follow every iteration of this loop separately"""
        return False

    def join_ghost(self, ghosts):
        out = {}
        for k in ghosts[0]:
            if all(k in g and g[k] == ghosts[0][k] for g in ghosts):
                out[k] = ghosts[0][k]
        return out

    def on_call(self, I, st, inst, name, args, ctx):
        return None

    def on_icall(self, I, st, inst, fv, args, ctx):
        return None

    def on_fdiv(self, I, st, inst, num, den):
        pass

    def on_fmul(self, I, st, inst, a, b):
        return None

    def on_store(self, I, st, inst, ptr, size, val, ty):
        pass

    def on_load(self, I, st, inst, ptr, size, ty):
        """may return a value"""
        return None

    def unknown_load(self, I, st, reg, off, ty, key):
        return None

    def alarm(self, I, st, kind, inst, msg):
        pass

    def on_branch(self, I, st, inst, pred, taken):
        pass

    def on_ret(self, I, st, fn, val, ctx):
        pass

    def on_enter(self, I, st, fn, args, ctx):
        pass

    def on_loop_entry(self, I, E, fn, loop, entrymap, ctx):
        pass

    def on_loop_exit(self, I, st, fn, loop, ctx):
        pass

    def pointer_attr(self, I, ptrs):
        """what the pointers that are joined have in common; for loop variables only a guess from the entry"""
        return None

    def on_backedge(self, I, header, back, fn, loop, ctx):
        pass


INTRINSIC_NOOP = ('llvm.dbg', 'llvm.lifetime', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.assume',
                  'llvm.va_start', 'llvm.va_end', 'llvm.experimental')


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.children = []
        self.parent = None


def analyse_cfg(fn):
    """dominators, loop forest, rpo, liveness; cached on the function"""
    if getattr(fn, '_cfg', None):
        return fn._cfg
    blocks = fn.blocks
    order, seen = [], set()

    def dfs(b0):
        stack = [(b0, iter(blocks[b0].succs))]
        seen.add(b0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(blocks[s].succs)))
                    break
            else:
                order.append(b)
                stack.pop()
    e = fn.entry.name
    dfs(e)
    rpo = list(reversed(order))
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {e: e}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in blocks[b].preds if p in idom and p in idx]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == e:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in blocks[b].succs:
            if s in idx and dominates(s, b):
                L = loops.setdefault(s, Loop(s))
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work += [p for p in blocks[x].preds if p in idx]
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks and l is not m:
                l.parent = m
                m.children.append(l)
                break
    # retreating edges that are not back edges -> irreducible
    for b in rpo:
        for s in blocks[b].succs:
            if idx[s] <= idx[b] and not dominates(s, b):
                raise AnalysisError('irreducible control flow in %s' % fn.name)
    # liveness
    use, deff, phiuse = {}, {}, {}
    for b in rpo:
        u, d = set(), set()
        for i in blocks[b].insts:
            if i.op == 'phi':
                for v, pb in zip(i.ops, i.x):
                    if isinstance(v, ir.Reg):
                        phiuse.setdefault(pb, set()).add(v.name)
            else:
                for v in i.ops:
                    if isinstance(v, ir.Reg) and v.name not in d:
                        u.add(v.name)
            if i.res:
                d.add(i.res)
        use[b], deff[b] = u, d
    live_in = {b: set() for b in rpo}
    live_out = {b: set() for b in rpo}
    changed = True
    while changed:
        changed = False
        for b in reversed(rpo):
            o = set(phiuse.get(b, ()))
            for s in blocks[b].succs:
                ph = {i.res for i in blocks[s].insts if i.op == 'phi'}
                o |= live_in[s] - ph
            n = use[b] | (o - deff[b])
            if o != live_out[b] or n != live_in[b]:
                live_out[b], live_in[b] = o, n
                changed = True
    for b in rpo:
        live_in[b] |= {i.res for i in blocks[b].insts if i.op == 'phi'}
    cfg = type('CFG', (), {})()
    cfg.rpo, cfg.idx, cfg.loops, cfg.live_in, cfg.live_out = rpo, idx, loops, live_in, live_out
    cfg.idom = idom
    cfg.dominates = dominates
    cfg.top = [l for l in ls if l.parent is None]
    fn._cfg = cfg
    return cfg


class Interp:
    def __init__(self, program, checker):
        self.pr = program
        dom.QUICK = checker.linear
        self.ck = checker
        self.recording = True
        self.stack = []
        self.steps = 0
        self.maxsteps = 3000000
        self.visited = set()
        self.ninst = 0
        self._gl = {}
        self.branchlog = None
        self.unknown_calls = {}
        self.nswcache = {}
        self.checked = {}
        self.backmap = None
        self.subject = None

    # --------------------------------------------------------------- misc
    def where(self, inst):
        if inst is None or inst.fn is None:
            return '?'
        f, l = inst.fn.module.loc(inst.dbg)
        return '%s:%s (%s)' % (f, l, inst.fn.name)

    def alarm(self, st, kind, inst, msg=''):
        if self.recording:
            self.ck.alarm(self, st, kind, inst, msg)

    def curmod(self):
        return self.stack[-1].module if self.stack else self.pr.modules[0]

    # ------------------------------------------------------------- values
    def tysize(self, mod, ty):
        return mod.size_align(ty)[0]

    def fresh(self, key, ty, st=None, name=None):
        k = ty.kind
        if k == 'int':
            if ty.a == 1:
                return Bool(('unk', key))
            n = ty.a
            lo, hi = (0, (1 << n) - 1) if n in (16,) else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            return P(sym(('u', key, n), name, lo, hi, True))
        if k in ('float', 'double'):
            return P(sym(('u', key, 'f'), name))
        if k == 'ptr':
            return Ptr(region(('p', key), 'unk', name, nullable=True))
        if k == 'void':
            return None
        if k in ('vec', 'struct', 'array', 'named'):
            mod = self.curmod()
            parts = []
            for o, t in mod.leaves(ty):
                parts.append((o, self.tysize(mod, t), self.fresh((key, o), t, st)))
            return Parts(self.tysize(mod, ty), parts)
        raise AnalysisError('fresh %r' % ty)

    def const(self, v, ty, mod):
        k = v.kind
        if k == 'int':
            if ty.kind == 'int' and ty.a == 1:
                return Bool(TRUE if v.v else FALSE)
            return C(int(v.v))
        if k == 'float':
            if isinstance(v.v, str):
                return P(sym(('fconst', v.v), v.v))
            return C(v.v)
        if k == 'null':
            return Ptr(NULLR)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty, mod)
        if k == 'gep':
            st, ops = v.v
            base = self.value_const(ops[0][1], ops[0][0], mod)
            off = self.gep_off(mod, st, [(t, self.const(x, t, mod)) for t, x in ops[1:]], None, None)
            return Ptr(base.reg, base.off + off)
        if k == 'agg':
            parts = []
            if ty.kind in ('named', 'struct'):
                for i, (et, ev) in enumerate(v.v):
                    o, _ = mod.field_offset(ty, i)
                    parts.append((o, self.tysize(mod, et), self.value_const(ev, et, mod)))
            else:
                s = self.tysize(mod, ty.b)
                for i, (et, ev) in enumerate(v.v):
                    parts.append((i * s, s, self.value_const(ev, et, mod)))
            return self.flatten(Parts(self.tysize(mod, ty), parts))
        if k == 'cstr':
            return Parts(len(v.v), [(i, 1, C(b)) for i, b in enumerate(v.v)])
        if k == 'cast':
            return self.value_const(v.v[2], v.v[1], mod)
        raise AnalysisError('const %r' % v)

    def flatten(self, v):
        out = []
        for o, s, x in v.parts:
            if isinstance(x, Parts):
                out += [(o + oo, ss, xx) for oo, ss, xx in self.flatten(x).parts]
            else:
                out.append((o, s, x))
        return Parts(v.size, out)

    def zero(self, ty, mod):
        if ty.kind == 'int':
            return Bool(FALSE) if ty.a == 1 else ZERO
        if ty.kind in ('float', 'double'):
            return ZERO
        if ty.kind == 'ptr':
            return Ptr(NULLR)
        return Parts(self.tysize(mod, ty), [(o, self.tysize(mod, t), self.zero(t, mod)) for o, t in mod.leaves(ty)])

    def value_const(self, v, ty, mod):
        if isinstance(v, ir.GRef):
            return self.gref(v.name, mod)
        return self.const(v, ty, mod)

    def gref(self, name, mod):
        g = mod.globals.get(name)
        if g is None or g.external:
            g2 = self.pr.globals.get(name)
            if g2 is not None and not g2.internal:
                g = g2
        if g is not None:
            own = next((m for m in self.pr.modules if m.globals.get(name) is g), mod)
            r = region(('g', own.name, name), 'glob', '@' + name, glob=(g, own))
            if r.size is None and g.ty is not None:
                try:
                    r.size = C(self.tysize(own, g.ty))
                except ir.IRError:
                    pass
            return Ptr(r)
        return FnV(name)

    def val(self, st, v, ty, mod):
        if isinstance(v, ir.Reg):
            try:
                return st.env[v.name]
            except KeyError:
                raise AnalysisError('undefined register %s in %s' % (v.name, self.stack[-1].name))
        return self.value_const(v, ty, mod)

    # ---- integer views
    def asnum(self, st, v, key=None):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bool):
            d = st.decide(v.p)
            if d is not None:
                return C(1 if d else 0)
            return P(sym(('b2i', v.p), 'bool', 0, 1, True, tag=('b2i', v.p)))
        if v is UNDEF:
            return P(sym(('undefnum', key), 'undef'))
        if isinstance(v, Ptr):
            return P(sym(('ptrint', v), 'ptrint', None, None, True))
        if isinstance(v, Parts):
            if len(v.parts) == 1:
                return self.asnum(st, v.parts[0][2])
            if all(isinstance(x, Poly) and x.isconst() and x.cval() == 0 for _, _, x in v.parts):
                return ZERO
            return P(sym(('partsnum', v), 'parts', None, None, True))
        return P(sym(('num', repr(v)), 'x', None, None, True))

    def tick(self, kind, inst):
        if self.recording and inst is not None:
            self.checked.setdefault(kind, set()).add(self.iid(inst))

    def sview(self, st, p, w, inst):
        self.tick('wrap', inst)
        if p.isconst():
            c = p.cval()
            if isinstance(c, int):
                c &= (1 << w) - 1
                return C(c - (1 << w) if c >> (w - 1) else c)
        M = 1 << (w - 1)
        n = st.num
        lo, hi = n.interval(p)
        if lo is not None and hi is not None and lo >= -M and hi < M:
            return p
        if n.ge0(p + M) and n.ge0(C(M - 1) - p):
            return p
        if n.ge0(p - M) and n.ge0(C(3 * M - 1) - p):
            return p - 2 * M
        self.alarm(st, 'wrap', inst, 'value %r not representable as signed %d-bit' % (p, w))
        return P(sym(('sw', p, w), 'wrap', -M, M - 1, True))

    def uview(self, st, p, w, inst):
        self.tick('wrap', inst)
        if p.isconst():
            c = p.cval()
            if isinstance(c, int):
                return C(c & ((1 << w) - 1))
        M = 1 << w
        n = st.num
        lo, hi = n.interval(p)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return p
        if n.ge0(p) and n.ge0(C(M - 1) - p):
            return p
        if n.ge0(-p - 1) and n.ge0(p + M):
            return p + M
        self.alarm(st, 'wrap', inst, 'value %r not representable as unsigned %d-bit' % (p, w))
        return P(sym(('uw', p, w), 'wrap', 0, M - 1, True))

    # ---- arithmetic
    def defined(self, st, s):
        st.num.settle(s.id)
        return P(s)

    def floor(self, st, p):
        """floor of polynomial p as an integer polynomial"""
        p = st.num.norm(p)
        ip, fp = {}, {}
        for m, c in p.t.items():
            if not (type(c) is Fraction) and all(SYMS[s].isint for s in m):
                ip[m] = c
            elif m == () and type(c) is Fraction:
                k = c.numerator // c.denominator
                if k:
                    ip[m] = k
                fp[m] = c - k
            else:
                fp[m] = c
        I, F = Poly(ip), Poly({m: _n(c) for m, c in fp.items()})
        if F.isconst():
            return I
        lo, hi = st.num.interval(F)
        if lo is not None and hi is not None:
            import math
            if math.floor(lo) == math.floor(hi):
                return I + math.floor(lo)
        if len(F.t) == 1:
            pass
        # canonical: floor(k*x) ...
        return I + self.defined(st, sym(('floor', F), None, None, None, True, ('floor', F)))

    def truncate(self, st, p):
        """C conversion of a real to an integer"""
        p = st.num.norm(p)
        if p.isint():
            return p
        if st.num.ge0(p):
            return self.floor(st, p)
        if st.num.ge0(-p):
            return -self.floor(st, -p)
        return self.defined(st, sym(('trunc', p), None, None, None, True, ('trunc', p)))

    def mul(self, st, a, b):
        if a.isconst() or b.isconst():
            return a * b
        isint = a.isint() and b.isint()
        capt, capd = (120, 8) if isint else self.ck.fcap
        if len(a.t) * len(b.t) <= capt and a.degree() + b.degree() <= capd:
            r = self.cancel(a * b)
            if len(a.t) > 1 or len(b.t) > 1:
                dom.FACTORS.setdefault(r, (a, b))
            return r
        return self.defined(st, sym(('mul',) + tuple(sorted((a, b), key=hash)), None, None, None, isint, ('mul', a, b)))

    def cancel(self, p):
        """quotient symbol times its divisor"""
        for m in list(p.t):
            for s in m:
                d = SYMS[s].defn
                if d is not None and d[0] == 'div':
                    q = d[2]
                    if len(q.t) == 1:
                        (qm, qc), = q.t.items()
                        rest = list(m)
                        rest.remove(s)
                        try:
                            for x in qm:
                                rest.remove(x)
                        except ValueError:
                            continue
                        c = p.t[m]
                        r = Poly({k: v for k, v in p.t.items() if k != m})
                        return self.cancel(r + (d[1] * Poly({tuple(rest): 1})).scale(Fraction(c) / qc))
        return p

    def div(self, st, p, q):
        """real quotient"""
        if q.isconst() and q.cval() != 0:
            return p.scale(Fraction(1) / q.cval())
        if p.isconst() and p.cval() == 0:
            return ZERO
        if p == q:
            return C(1)
        if p == -q:
            return C(-1)
        # common monomial factor
        if len(q.t) == 1 and p.t:
            (qm, qc), = q.t.items()
            res = {}
            ok = True
            for m, c in p.t.items():
                rest = list(m)
                try:
                    for x in qm:
                        rest.remove(x)
                except ValueError:
                    ok = False
                    break
                res[tuple(rest)] = _n(Fraction(c) / qc)
            if ok:
                return Poly(res)
        if not q.t:
            return P(sym(('div', p, q)))
        # normalise sign/scale of the denominator
        lead = max(q.t.items(), key=lambda x: (len(x[0]), x[0]))[1]
        if lead != 1:
            p, q = p.scale(Fraction(1) / lead), q.scale(Fraction(1) / lead)
        # proportional
        if set(p.t) == set(q.t):
            r = None
            for m in q.t:
                k = Fraction(p.t[m]) / q.t[m]
                if r is None:
                    r = k
                elif r != k:
                    r = None
                    break
            if r is not None:
                return C(r)
        k = 1
        lp = max(p.t.items(), key=lambda x: (len(x[0]), x[0]))[1]
        if lp != 1:
            k = lp
            p = p.scale(Fraction(1) / lp)
        return self.defined(st, sym(('div', p, q), None, None, None, False, ('div', p, q))).scale(k)

    # ------------------------------------------------------------- memory
    def rmem(self, st, reg):
        m = st.mem.get(reg)
        if m is None:
            m = RegMem(0, reg.uninit)
            st.mem[reg] = m
        return m

    def overlap(self, st, o1, s1, o2, s2):
        """True / False / None"""
        d = o1 - o2
        if d.isconst():
            d = d.cval()
            return d < s2 and -d < s1
        n = st.num
        if n.ge0(d - s2) or n.ge0(-d - s1):
            return False
        # offsets with a common stride (same granularity) that differ symbolically: may overlap
        return None

    def load(self, st, ptr, ty, inst, ctx, hook=True):
        mod = self.curmod()
        size = self.tysize(mod, ty)
        if not isinstance(ptr, Ptr):
            self.alarm(st, 'badptr', inst, 'load through %r' % (ptr,))
            return self.fresh(('badld', ctx, id(inst)), ty)
        if hook:
            self.check_access(st, ptr, size, inst, 'load')
            self.lctx = ctx
            v = self.ck.on_load(self, st, inst, ptr, size, ty)
            if v is not None:
                return v
        return self.read(st, ptr.reg, ptr.off, size, ty, inst, ctx)

    def check_access(self, st, ptr, size, inst, rw):
        self.tick('access', inst)
        r = ptr.reg
        n = st.isnull(r)
        if n is True or n is None:
            self.alarm(st, 'null' if n else 'maynull', inst, '%s through %s pointer %r' % (rw, 'NULL' if n else 'possibly NULL', ptr))
        if r.size is not None:
            o = ptr.off
            if not (st.num.ge0(o) and st.num.ge0(r.size - size - o)):
                self.alarm(st, 'oob', inst, '%s of %d bytes at offset %r of %s (size %r)' % (rw, size, o, r, r.size))

    def read(self, st, reg, off, size, ty, inst, ctx):
        if reg.kind == 'glob' and reg.glob is not None and reg.glob[0].const and reg not in st.mem:
            v = self.read_const(st, reg, off, size, ty, inst, ctx)
            if v is not None:
                return v
        m = st.mem.get(reg)
        if m is None:
            m = self.rmem(st, reg)
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            return self.settype(st, v, ty, inst, (reg.key, off), ctx)
        overl = []
        unk = False
        for o, (s, v) in m.cells.items():
            if o == off and s == size:
                continue
            r = self.overlap(st, off, size, o, s)
            if r is None:
                d = off - o
                if s == size and st.num.ge0(d) and st.num.ge0(-d):
                    return self.settype(st, v, ty, inst, (reg.key, off), ctx)
                unk = True
            elif r:
                overl.append((o, s, v))
        if unk:
            return self.fresh(('ldu', ctx, self.iid(inst), reg.key, off, ty.kind), ty)
        if overl:
            return self.assemble(st, m, reg, off, size, ty, overl, inst, ctx)
        return self.read_base(st, m, reg, off, size, ty, inst, ctx)

    def iid(self, inst):
        if inst is None:
            return 0
        return (inst.fn.name, inst.block.name, inst.idx)

    def read_base(self, st, m, reg, off, size, ty, inst, ctx):
        for f in reversed(m.fills):
            start, end, what = f
            if what[0] == 'stride':
                d = off - start
                if d.isconst():
                    k, r = divmod(int(d.cval()), what[1])
                    if r >= what[3] or r + size <= 0:
                        if r + size <= what[1]:
                            continue            # between the elements that were written
                    elif r == 0 and size == what[3] and k >= 0 and st.num.ge0(end - start - (k + 1) * what[1]):
                        if what[2] is not None:
                            return self.settype(st, what[2], ty, inst, (reg.key, off), ctx)
                        return self.fresh(('ldf', reg.key, m.ver, what, off, ty.kind, ty.a), ty)
                    elif k < 0 or st.num.ge0(start - end + k * what[1]):
                        continue
                return self.fresh(('ldu', ctx, self.iid(inst), reg.key, off, ty.kind), ty)
            if st.num.ge0(off - start) and st.num.ge0(end - size - off):
                if what[0] == 'zero':
                    return self.zero(ty, self.curmod())
                if what[0] == 'byte':
                    if what[1] == 0xff and ty.kind == 'int':
                        return C(-1)
                    return self.fresh(('fillb', reg.key, off, ty.kind, what[1]), ty)
                if what[0] == 'val' and what[2] == size:
                    return self.settype(st, what[1], ty, inst, (reg.key, off), ctx)
                if what[0] == 'copy':
                    sreg, smem, soff = what[1:]
                    save = st.mem.get(sreg)
                    st.mem[sreg] = smem
                    v = self.read(st, sreg, soff + (off - start), size, ty, inst, ctx)
                    if save is None:
                        st.mem.pop(sreg, None)
                    else:
                        st.mem[sreg] = save
                    return v
                return self.fresh(('ldf', reg.key, m.ver, what, off, ty.kind, ty.a), ty)
            if st.num.ge0(start - off - size) or st.num.ge0(off - end):
                continue
            key = ('ldu', ctx, self.iid(inst), reg.key, off, ty.kind)
            v = self.ck.unknown_load(self, st, reg, off, ty, key) if self.ck.alias_loads else None
            return self.fresh(key, ty) if v is None else v
        if m.uninit is True:
            self.alarm(st, 'uninit', inst, 'read of uninitialised memory %s+%r' % (reg, off))
            return self.fresh(('uninit', reg.key, m.ver, off, ty.kind, ctx), ty)
        key = ('ld', reg.key, m.ver, off, ty.kind, ty.a if ty.kind == 'int' else None)
        v = self.ck.unknown_load(self, st, reg, off, ty, key)
        if v is None:
            if ty.kind == 'ptr':
                v = Ptr(region(('p', key), 'unk', '*(%s+%r)' % (reg, off), nullable=True))
            else:
                v = self.fresh(key, ty, st, '%s[%r]%s' % (reg, off, '' if not m.ver else "'"))
        m2 = m.copy()
        m2.cells[off] = (size, v)
        st.mem[reg] = m2
        return v

    def settype(self, st, v, ty, inst, key, ctx):
        if v is UNDEF:
            self.alarm(st, 'uninit', inst, 'read of possibly uninitialised value')
            return self.fresh(('undefld', key, ctx), ty)
        if isinstance(v, Parts) and ty.kind in ('int', 'float', 'double', 'ptr'):
            if len(v.parts) == 1 and v.parts[0][0] == 0 and v.parts[0][1] == v.size:
                return self.settype(st, v.parts[0][2], ty, inst, key, ctx)
            return v
        if ty.kind == 'ptr' and isinstance(v, Poly):
            if v.isconst() and v.cval() == 0:
                return Ptr(NULLR)
            return Ptr(region(('i2p', v), 'unk', nullable=True))
        if ty.kind == 'int' and ty.a == 1 and isinstance(v, Poly):
            return Bool(('ne', v))
        return v

    def assemble(self, st, m, reg, off, size, ty, overl, inst, ctx):
        """read overlapping cells of other sizes/offsets"""
        if len(overl) == 1:
            o, s, v = overl[0]
            d = (off - o)
            if d.isconst() and 0 <= d.cval() and d.cval() + size <= s:
                d = d.cval()
                if isinstance(v, Parts):
                    sub = [(po - d, ps, pv) for po, ps, pv in self.flatten(v).parts
                           if po < d + size and po + ps > d]
                    if len(sub) == 1 and sub[0][0] == 0 and sub[0][1] == size:
                        return self.settype(st, sub[0][2], ty, inst, (reg.key, off), ctx)
                    if all(0 <= po and po + ps <= size for po, ps, _ in sub):
                        return Parts(size, sub)
                if v is UNDEF:
                    return self.settype(st, v, ty, inst, (reg.key, off), ctx)
                if isinstance(v, Poly) and v.isconst() and v.cval() == 0:
                    return self.zero(ty, self.curmod())
                if isinstance(v, Poly):
                    return self.fresh(('part', v, d, size, ty.kind), ty)
                return self.fresh(('ldu', ctx, self.iid(inst), reg.key, off), ty)
        parts = []
        for o, s, v in overl:
            d = o - off
            if not d.isconst() or d.cval() < 0 or d.cval() + s > size:
                return self.fresh(('ldu', ctx, self.iid(inst), reg.key, off, ty.kind), ty)
            parts.append((d.cval(), s, v))
        parts.sort()
        # holes: fill from base
        pos = 0
        full = []
        for o, s, v in parts:
            if o > pos:
                full.append((pos, o - pos, self.read_base(st, m, reg, off + pos, o - pos, ir.Type('int', 8 * (o - pos)), inst, ctx)))
            full.append((o, s, v))
            pos = o + s
        if pos < size:
            full.append((pos, size - pos, self.read_base(st, m, reg, off + pos, size - pos, ir.Type('int', 8 * (size - pos)), inst, ctx)))
        return Parts(size, full)

    def read_const(self, st, reg, off, size, ty, inst, ctx):
        g, mod = reg.glob
        if g.init is None:
            return None
        if not off.isconst():
            return None
        cells = self._gl.get(reg)
        if cells is None:
            v = self.value_const(g.init, g.ty, mod)
            cells = {}
            if isinstance(v, Parts):
                for o, s, x in self.flatten(v).parts:
                    cells[o] = (s, x)
            else:
                cells[0] = (self.tysize(mod, g.ty), v)
            self._gl[reg] = cells
        c = cells.get(off.cval())
        if c is not None and c[0] == size:
            return c[1]
        if ty.kind not in ('int', 'float', 'double', 'ptr'):
            return None
        sub = [(o - off.cval(), s, x) for o, (s, x) in cells.items() if o < off.cval() + size and o + s > off.cval()]
        if sub and all(0 <= o and o + s <= size for o, s, _ in sub):
            return Parts(size, sorted(sub, key=lambda x: x[0]))
        return None

    def const_cells(self, reg):
        self.read_const(State(), reg, ZERO, 1, ir.Type('array', 0, ir.I8), None, 0)
        return self._gl.get(reg)

    def store(self, st, ptr, val, ty, inst, ctx, hook=True):
        mod = self.curmod()
        size = self.tysize(mod, ty)
        if not isinstance(ptr, Ptr):
            self.alarm(st, 'badptr', inst, 'store through %r' % (ptr,))
            return
        if hook:
            self.check_access(st, ptr, size, inst, 'store')
            self.ck.on_store(self, st, inst, ptr, size, val, ty)
        self.write(st, ptr.reg, ptr.off, size, val, inst, ctx)

    def write(self, st, reg, off, size, val, inst, ctx):
        m = st.mem.get(reg)
        m = RegMem(0, reg.uninit) if m is None else m.copy()
        if reg.kind == 'glob' and reg.glob and reg.glob[0].const:
            self.alarm(st, 'constwrite', inst, 'write to constant %s' % reg)
        c = m.cells.get(off)
        if isinstance(val, Parts):
            val = self.flatten(val)
        if c is not None and c[0] == size and not any(
                o is not off and o != off and self.overlap(st, off, size, o, s) is None
                for o, (s, _) in m.cells.items() if not (o - off).isconst()):
            m.cells[off] = (size, val)
            st.mem[reg] = m
            return
        if isinstance(val, Parts) and len(val.parts) > 1:
            self.clear(st, m, reg, off, C(size), inst, ctx)
            for o, s, v in val.parts:
                m.cells[off + o] = (s, v)
            st.mem[reg] = m
            return
        self.clear(st, m, reg, off, C(size), inst, ctx)
        m.cells[off] = (size, val)
        st.mem[reg] = m

    def clear(self, st, m, reg, off, size, inst, ctx):
        """remove cells that the range [off, off+size) may touch; partially touched ones become unknown"""
        csize = size.cval() if size.isconst() else None
        for o in list(m.cells):
            s, v = m.cells[o]
            d = o - off
            if csize is not None and d.isconst():
                dd = d.cval()
                if dd >= csize or -dd >= s:
                    continue
                if dd >= 0 and dd + s <= csize:
                    del m.cells[o]
                    continue
                # partial: split Parts or make unknown pieces
                del m.cells[o]
                lo, hi = max(0, -dd), min(s, csize - dd)
                if isinstance(v, Parts):
                    for po, ps, pv in self.flatten(v).parts:
                        if po + ps <= lo or po >= hi:
                            m.cells[o + po] = (ps, pv)
                else:
                    if lo > 0:
                        m.cells[o] = (lo, self._piece(v, 0, lo))
                    if hi < s:
                        m.cells[o + hi] = (s - hi, self._piece(v, hi, s - hi))
                continue
            n = st.num
            if n.ge0(d - size) or n.ge0(-d - s):
                continue
            if n.ge0(d) and n.ge0(size - d - s):
                del m.cells[o]
                continue
            m.cells[o] = (s, self.havoc_value(v, ('mayw', ctx, self.iid(inst), reg.key, o)))

    def _piece(self, v, o, s):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Poly) and v.isconst() and v.cval() == 0:
            return ZERO
        return P(sym(('piece', v, o, s), None, None, None, True))

    def havoc_value(self, v, key):
        if isinstance(v, Ptr):
            return Ptr(region(('hv', key), 'unk', nullable=True))
        if isinstance(v, Bool):
            return Bool(('unk', key))
        if isinstance(v, Parts):
            return Parts(v.size, [(o, s, self.havoc_value(x, (key, o))) for o, s, x in v.parts])
        if isinstance(v, Poly):
            lo = hi = None
            isint = v.isint()
            return P(sym(('hv', key, isint), None, lo, hi, isint))
        if v is UNDEF:
            return UNDEF
        return P(sym(('hv', key), None))

    def fill(self, st, ptr, size, what, inst, ctx):
        """memory range [ptr, ptr+size) := what"""
        reg, off = ptr.reg, ptr.off
        m = st.mem.get(reg)
        m = RegMem(0, reg.uninit) if m is None else m.copy()
        self.clear(st, m, reg, off, size, inst, ctx)
        m.fills = m.fills + ((off, off + size, what),)
        st.mem[reg] = m

    def havoc_region(self, st, reg, key):
        m = RegMem(('hv', key), False)
        st.mem[reg] = m

    def memset(self, st, ptr, byte, size, inst, ctx):
        self.ck.on_store(self, st, inst, ptr, size, byte, None)
        if not isinstance(ptr, Ptr):
            return
        if size.isconst() and size.cval() <= 0:
            return
        r = ptr.reg
        if r.size is not None:
            if not (st.num.ge0(ptr.off) and st.num.ge0(r.size - size - ptr.off)):
                self.alarm(st, 'oob', inst, 'memset of %r bytes at offset %r of %s (size %r)' % (size, ptr.off, r, r.size))
        b = byte.cval() if isinstance(byte, Poly) and byte.isconst() else None
        self.fill(st, ptr, size, ('zero',) if b == 0 else ('byte', b), inst, ctx)

    def memcpy(self, st, dst, src, size, inst, ctx):
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            return
        for p, w in ((dst, 'store'), (src, 'load')):
            n = st.isnull(p.reg)
            if n is not False:
                self.alarm(st, 'null' if n else 'maynull', inst, 'memcpy through %r' % p)
            r = p.reg
            if r.size is not None and not (st.num.ge0(p.off) and st.num.ge0(r.size - size - p.off)):
                self.alarm(st, 'oob', inst, 'memcpy %s of %r bytes at offset %r of %s (size %r)' % (w, size, p.off, r, r.size))
        self.ck.on_store(self, st, inst, dst, size, ('copy', src), None)
        smem = self.rmem(st, src.reg).copy()
        m = self.rmem(st, dst.reg).copy()
        self.clear(st, m, dst.reg, dst.off, size, inst, ctx)
        if size.isconst() and src.reg.kind == 'glob' and src.reg.glob and src.reg.glob[0].const and src.off.isconst():
            cells = self.const_cells(src.reg)
            if cells is not None:
                for o, (s, v) in cells.items():
                    d = o - src.off.cval()
                    if 0 <= d and d + s <= size.cval():
                        m.cells[dst.off + d] = (s, v)
                st.mem[dst.reg] = m
                return
        exact = True
        new = {}
        for o, (s, v) in smem.cells.items():
            d = o - src.off
            if st.num.ge0(d) and st.num.ge0(size - d - s):
                new[dst.off + d] = (s, v)
            elif st.num.ge0(-d - s) or st.num.ge0(d - size):
                pass
            else:
                exact = False
        m.fills = m.fills + ((dst.off, dst.off + size, ('copy', src.reg, smem, src.off)),)
        if exact:
            m.cells.update(new)
        st.mem[dst.reg] = m

    # --------------------------------------------------------------- gep
    def gep_off(self, mod, sty, idx, st, inst):
        """byte offset polynomial"""
        off = ZERO
        t = sty
        for k, (ity, iv) in enumerate(idx):
            v = iv if isinstance(iv, Poly) else self.asnum(st, iv)
            if k == 0:
                if v.isconst():
                    if v.cval() != 0:
                        off = off + C(v.cval() * self.tysize(mod, t))
                    continue
                w = ity.a
                if st is not None:
                    v = self.sview(st, v, w, inst)
                off = off + v.scale(self.tysize(mod, t))
                continue
            if t.kind in ('named', 'struct'):
                o, t = mod.field_offset(t, int(v.cval()))
                off = off + o
            elif t.kind in ('array', 'vec'):
                n = t.a
                t = t.b
                if st is not None and not v.isconst():
                    v = self.sview(st, v, ity.a, inst)
                if st is not None and self.recording and n > 0:
                    if not (st.num.ge0(v) and st.num.ge0(C(n) - v)):
                        self.alarm(st, 'index', inst, 'index %r outside array of %d elements' % (v, n))
                off = off + v.scale(self.tysize(mod, t))
            else:
                raise AnalysisError('gep into %r' % t)
        return off

    # ------------------------------------------------------------ compare
    def icmp(self, st, inst, a, b, ty, mod):
        pred = inst.x[0]
        if isinstance(a, FnV) or isinstance(b, FnV):
            if isinstance(a, FnV) and isinstance(b, FnV):
                eq = a.name == b.name
            elif isinstance(a, Ptr) and a.reg.kind == 'null' or isinstance(b, Ptr) and b.reg.kind == 'null':
                eq = False
            else:
                return Bool(('unk', ('fneq', a, b, pred)))
            return Bool(TRUE if eq == (pred == 'eq') else FALSE)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(NULLR) if isinstance(a, Poly) and a.isconst() and a.cval() == 0 else a
            if not isinstance(b, Ptr):
                b = Ptr(NULLR) if isinstance(b, Poly) and b.isconst() and b.cval() == 0 else b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return Bool(('unk', ('pcmp', repr(a), repr(b), pred)))
            if a.reg is b.reg:
                d = a.off - b.off
                m = {'eq': ('eq', d), 'ne': ('ne', d), 'ult': ('gt', -d), 'slt': ('gt', -d), 'ule': ('ge', -d),
                     'sle': ('ge', -d), 'ugt': ('gt', d), 'sgt': ('gt', d), 'uge': ('ge', d), 'sge': ('ge', d)}
                return Bool(self.simp(st, m[pred]))
            if pred in ('eq', 'ne'):
                if b.reg.kind == 'null' or a.reg.kind == 'null':
                    r = a.reg if b.reg.kind == 'null' else b.reg
                    p = ('null', r) if pred == 'eq' else ('nonnull', r)
                    return Bool(self.simp(st, p))
                if st.isnull(a.reg) is True or st.isnull(b.reg) is True:
                    o = b.reg if st.isnull(a.reg) is True else a.reg
                    return Bool(self.simp(st, ('null' if pred == 'eq' else 'nonnull', o)))
                own = ('alloca', 'heap', 'glob', 'arg')
                if a.reg.kind in own and b.reg.kind in own and a.reg.kind + b.reg.kind != 'argarg':
                    return Bool(TRUE if pred == 'ne' else FALSE)
                k = ('unk', ('peq', tuple(sorted((a.reg.id, b.reg.id))), a.off, b.off))
                return Bool(k if pred == 'eq' else pneg(k))
            return Bool(('unk', ('pcmp', a, b, pred)))
        if isinstance(a, Bool) or isinstance(b, Bool):
            if isinstance(b, Poly) and b.isconst() and pred in ('eq', 'ne') and isinstance(a, Bool):
                want = (b.cval() != 0) == (pred == 'eq')
                return Bool(a.p if want else pneg(a.p))
            if isinstance(a, Bool) and isinstance(b, Bool) and pred in ('eq', 'ne'):
                db = st.decide(b.p)
                da = st.decide(a.p)
                if db is not None:
                    return Bool(a.p if db == (pred == 'eq') else pneg(a.p))
                if da is not None:
                    return Bool(b.p if da == (pred == 'eq') else pneg(b.p))
                if a.p == b.p:
                    return Bool(TRUE if pred == 'eq' else FALSE)
                if a.p == pneg(b.p):
                    return Bool(FALSE if pred == 'eq' else TRUE)
                return Bool(('unk', ('bcmp', a.p, b.p, pred)))
        if isinstance(a, Parts) or isinstance(b, Parts):
            a, b = self.asnum(st, a), self.asnum(st, b)
        a, b = self.asnum(st, a, ('ic', self.iid(inst), 0)), self.asnum(st, b, ('ic', self.iid(inst), 1))
        # comparisons of a 0/1 symbol that stands for a predicate
        for x, y in ((a, b),):
            s = x.single()
            if s is not None and s.tag and s.tag[0] == 'b2i' and y.isconst() and pred in ('eq', 'ne'):
                v = y.cval()
                if v in (0, 1):
                    pp = s.tag[1] if (v == 1) == (pred == 'eq') else pneg(s.tag[1])
                    return Bool(self.simp(st, pp))
        w = ty.a
        if pred[0] == 's':
            a, b = self.sview(st, a, w, inst), self.sview(st, b, w, inst)
            pred = pred[1:]
        elif pred[0] == 'u':
            a, b = self.uview(st, a, w, inst), self.uview(st, b, w, inst)
            pred = pred[1:]
        else:
            # equality: compare in whichever representation fits
            if a.isconst() and not b.isconst():
                a = self.fit(st, a, b, w)
            elif b.isconst() and not a.isconst():
                b = self.fit(st, b, a, w)
        d = a - b
        m = {'eq': ('eq', d), 'ne': ('ne', d), 'lt': ('gt', -d), 'le': ('ge', -d), 'gt': ('gt', d), 'ge': ('ge', d)}
        return Bool(self.simp(st, m[pred]))

    def fit(self, st, c, p, w):
        """representation of constant c (mod 2^w) nearest to the range of p"""
        v = c.cval()
        lo, hi = st.num.interval(p)
        for k in (v, v - (1 << w), v + (1 << w)):
            if (lo is None or k >= lo) and (hi is None or k <= hi):
                return C(k)
        return c

    def simp(self, st, p):
        d = st.decide(p)
        if d is None:
            return p
        return TRUE if d else FALSE

    def fcmp(self, st, inst, a, b):
        pred = inst.x[0]
        if pred == 'ord':
            return Bool(TRUE)
        if pred == 'uno':
            return Bool(FALSE)
        if pred == 'true':
            return Bool(TRUE)
        if pred == 'false':
            return Bool(FALSE)
        a, b = self.asnum(st, a, ('fc', self.iid(inst), 0)), self.asnum(st, b, ('fc', self.iid(inst), 1))
        op = pred[1:]
        for x, y, flip in ((a, b, False), (b, a, True)):
            s = y.single()
            if s is not None and s.key[0] == 'fconst':
                if s.key[1] == 'nan':
                    return Bool(FALSE if pred[0] == 'o' else TRUE)
                pos = s.key[1] == 'inf'
                o = op
                if flip:
                    o = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
                # x (finite) o +-inf
                r = {'eq': False, 'ne': True, 'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos}[o]
                return Bool(TRUE if r else FALSE)
        d = a - b
        if self.ck.linear and not d.isconst():
            return Bool(('unk', ('lfc', inst.x[0], d)))
        m = {'eq': ('eq', d), 'ne': ('ne', d), 'lt': ('gt', -d), 'le': ('ge', -d), 'gt': ('gt', d), 'ge': ('ge', d)}
        return Bool(self.simp(st, m[op]))

    # -------------------------------------------------------- instructions
    def exec_inst(self, st, i, ctx):
        """-> None (st updated in place) or list of states (after calls)"""
        mod = i.fn.module
        op = i.op
        self.ninst += 1
        if op == 'call':
            return self.exec_call(st, i, ctx)
        if op == 'load':
            p = self.val(st, i.ops[0], ir.PTR, mod)
            st.env[i.res] = self.load(st, p, i.ty, i, ctx)
            return None
        if op == 'store':
            v = self.val(st, i.ops[0], i.ty, mod)
            p = self.val(st, i.ops[1], ir.PTR, mod)
            self.store(st, p, v, i.ty, i, ctx)
            return None
        if op in ('atomicrmw', 'cmpxchg'):
            p = self.val(st, i.ops[0], ir.PTR, mod)
            old = self.load(st, p, i.ty, i, ctx)
            self.store(st, p, self.fresh((op, ctx, self.iid(i)), i.ty), i.ty, i, ctx)
            if i.res is not None:
                if op == 'cmpxchg':
                    z = self.tysize(mod, i.ty)
                    old = Parts(2 * z, [(0, z, old), (z, 1, self.fresh((op, 'ok', ctx, self.iid(i)), ir.I1))])
                st.env[i.res] = old
            return None
        if op == 'getelementptr':
            sty, tys = i.x
            b = self.val(st, i.ops[0], ir.PTR, mod)
            idx = [(tys[k], self.val(st, i.ops[k], tys[k], mod)) for k in range(1, len(i.ops))]
            off = self.gep_off(mod, sty, idx, st, i)
            if isinstance(b, Ptr):
                st.env[i.res] = Ptr(b.reg, b.off + off)
            else:
                st.env[i.res] = Ptr(region(('gepu', ctx, self.iid(i)), 'unk', nullable=True), off)
            return None
        if op == 'fcmp' and self.ck.fcmp_forks:
            ty = i.x[1]
            r = self.ck.on_fcmp(self, st, i, self.val(st, i.ops[0], ty, mod), self.val(st, i.ops[1], ty, mod))
            if r is not None:
                for s, v in r:
                    s.env[i.res] = v
                return [s for s, v in r]
        if op == 'select' and i.ty.kind == 'int' and all(isinstance(o, ir.Const) for o in i.ops[1:3]):
            a, b = self.val(st, i.ops[1], i.ty, mod), self.val(st, i.ops[2], i.ty, mod)
            if isinstance(a, Poly) and isinstance(b, Poly) and a.isconst() and b.isconst() and a.cval() * b.cval() < 0:
                c = self.val(st, i.ops[0], ir.I1, mod)      # a sign: joining would lose that it is not zero
                if isinstance(c, Bool) and st.decide(c.p) is None:
                    out = []
                    for s, q, v in ((st, c.p, a), (st.copy(), pneg(c.p), b)):
                        if s.assume(q) is not False:
                            s.env[i.res] = v
                            out.append(s)
                    return out
        st.env[i.res] = self.exec_pure(st, i, ctx, mod)
        return None

    def exec_pure(self, st, i, ctx, mod):
        op = i.op
        if op in ir.BINOPS:
            a = self.val(st, i.ops[0], i.ty, mod)
            b = self.val(st, i.ops[1], i.ty, mod)
            if a is UNDEF or b is UNDEF:
                self.alarm(st, 'uninit', i, 'use of undefined value')
            return self.binop(st, i, op, a, b, i.ty, ctx)
        if op in ('icmp', 'fcmp'):
            ty = i.x[1]
            a = self.val(st, i.ops[0], ty, mod)
            b = self.val(st, i.ops[1], ty, mod)
            if a is UNDEF or b is UNDEF:
                self.alarm(st, 'uninit', i, 'comparison of undefined value')
                return Bool(('unk', ('undefcmp', ctx, self.iid(i))))
            return self.icmp(st, i, a, b, ty, mod) if op == 'icmp' else self.fcmp(st, i, a, b)
        if op in ir.CASTS:
            return self.cast(st, i, self.val(st, i.ops[0], i.x, mod), i.x, i.ty, ctx)
        if op == 'alloca':
            n = 1
            if i.ops:
                nv = self.asnum(st, self.val(st, i.ops[0], ir.I64, mod))
                size = nv.scale(self.tysize(mod, i.x))
            else:
                size = C(self.tysize(mod, i.x))
            r = region(('a', ctx, self.iid(i)), 'alloca', '%s' % i.res, size=size, uninit=True)
            st.mem[r] = RegMem(0, True)
            return Ptr(r)
        if op == 'select':
            c = self.val(st, i.ops[0], ir.I1, mod)
            a = self.val(st, i.ops[1], i.ty, mod)
            b = self.val(st, i.ops[2], i.ty, mod)
            d = st.decide(c.p) if isinstance(c, Bool) else None
            if d is not None:
                return a if d else b
            if a == b:
                return a
            if isinstance(a, Bool) and isinstance(b, Bool):
                return Bool(('or', ('and', c.p, a.p), ('and', pneg(c.p), b.p)))
            if isinstance(c, Bool) and i.ty.kind == 'int' and a == C(1) and b == ZERO:
                return c
            if isinstance(c, Bool) and i.ty.kind == 'int' and a == ZERO and b == C(1):
                return Bool(pneg(c.p))
            s1, s2 = st.copy(), st.copy()
            s1.assume(c.p)
            s2.assume(pneg(c.p))
            return self.join_values(st, [(s1, a), (s2, b)], ('sel', ctx, self.iid(i)))
        if op == 'fneg':
            a = self.asnum(st, self.val(st, i.ops[0], i.ty, mod), ('fn', ctx, self.iid(i)))
            return -a
        if op == 'freeze':
            return self.val(st, i.ops[0], i.ty, mod)
        if op == 'extractvalue' or op == 'extractelement':
            tys, idx = i.x
            a = self.val(st, i.ops[0], tys[0], mod)
            if op == 'extractelement':
                k = self.val(st, i.ops[1], tys[1], mod)
                if not k.isconst():
                    return self.fresh(('ee', ctx, self.iid(i)), tys[0].b)
                et = tys[0].b
                s = self.tysize(mod, et)
                o = int(k.cval()) * s
            else:
                o, et = 0, tys[0]
                for k in idx:
                    if et.kind in ('named', 'struct'):
                        oo, et = mod.field_offset(et, k)
                        o += oo
                    else:
                        et = et.b
                        o += k * self.tysize(mod, et)
                s = self.tysize(mod, et)
            if isinstance(a, Parts):
                for po, ps, pv in self.flatten(a).parts:
                    if po == o and ps == s:
                        return pv
            return self.fresh(('ev', ctx, self.iid(i)), et)
        if op == 'insertvalue' or op == 'insertelement':
            tys, idx = i.x
            a = self.val(st, i.ops[0], tys[0], mod)
            v = self.val(st, i.ops[1], tys[1], mod)
            size = self.tysize(mod, tys[0])
            if op == 'insertelement':
                k = self.val(st, i.ops[2], tys[2], mod)
                et = tys[0].b
                s = self.tysize(mod, et)
                o = int(k.cval()) * s
            else:
                o, et = 0, tys[0]
                for k in idx:
                    if et.kind in ('named', 'struct'):
                        oo, et = mod.field_offset(et, k)
                        o += oo
                    else:
                        et = et.b
                        o += k * self.tysize(mod, et)
                s = self.tysize(mod, et)
            parts = [x for x in (self.flatten(a).parts if isinstance(a, Parts) else ())
                     if x[0] + x[1] <= o or x[0] >= o + s]
            parts.append((o, s, v))
            return Parts(size, sorted(parts, key=lambda x: x[0]))
        raise AnalysisError('instruction %s at %s' % (op, self.where(i)))

    def binop(self, st, i, op, a, b, ty, ctx):
        n = st.num
        if ty.kind == 'int' and ty.a == 1:
            if isinstance(a, Bool) and isinstance(b, Bool):
                if op == 'and':
                    return Bool(self.simp(st, ('and', a.p, b.p)))
                if op == 'or':
                    return Bool(self.simp(st, ('or', a.p, b.p)))
                if op == 'xor':
                    d = st.decide(b.p)
                    if d is not None:
                        return Bool(pneg(a.p) if d else a.p)
            return Bool(('unk', ('b', ctx, self.iid(i))))
        if ty.kind not in ('int', 'float', 'double'):
            return self.fresh(('vec', ctx, self.iid(i)), ty)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
                return a.off - b.off
            if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, Poly):
                return Ptr(a.reg, a.off + b if op == 'add' else a.off - b)
            return self.fresh(('pi', ctx, self.iid(i)), ty)
        if isinstance(a, Parts) and op in ('lshr', 'and', 'shl', 'or', 'ashr'):
            r = self.parts_op(st, op, a, b)
            if r is not None:
                return r
        if isinstance(b, Parts) and op == 'or':
            r = self.parts_op(st, op, b, a)
            if r is not None:
                return r
        if op == 'shl' and ty.a == 64 and isinstance(a, Poly) and isinstance(b, Poly) and b.isconst() and b.cval() == 32 \
                and not a.isconst():
            return Parts(8, [(0, 4, ZERO), (4, 4, a)])
        a, b = self.asnum(st, a, ('bo', ctx, self.iid(i), 0)), self.asnum(st, b, ('bo', ctx, self.iid(i), 1))
        if self.ck.linear and not (a.isconst() and b.isconst()):
            if ty.kind in ('float', 'double'):
                if op == 'fdiv':
                    self.tick('fdiv0', i)
                return self.fresh(('lin', op, a, b), ty)
            if op in ('udiv', 'sdiv', 'urem', 'srem') or (op == 'mul' and not (a.isconst() or b.isconst())):
                return self.fresh(('lin', op, a, b, ty.a), ty)
        if ty.kind in ('float', 'double'):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                r = self.ck.on_fmul(self, st, i, a, b)
                return self.mul(st, a, b) if r is None else r
            if op == 'fdiv':
                self.ck.on_fdiv(self, st, i, a, b)
                self.check_div0(st, b, i, 'fdiv0')
                return self.div(st, a, b)
            return self.fresh(('frem', ctx, self.iid(i)), ty)
        w = ty.a
        fl = i.x if isinstance(i.x, dict) else {}
        nsw = 'nsw' in fl
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else self.mul(st, a, b)
            if nsw:
                self.tick('sovf', i)
                M = 1 << (w - 1)
                lo, hi = n.interval(r)
                if not (lo is not None and hi is not None and lo >= -M and hi < M):
                    if not (n.ge0(r + M) and n.ge0(C(M - 1) - r)):
                        self.subject = r
                        self.alarm(st, 'sovf', i, 'signed overflow: %r' % (r,))
                        # the program has no behaviour beyond this point outside the range
                        if not r.isconst():
                            n.assume_ge(r + M)
                            n.assume_ge(C(M - 1) - r)
            return r
        if op in ('udiv', 'urem'):
            a, b = self.uview(st, a, w, i), self.uview(st, b, w, i)
            self.check_div0(st, b, i, 'div0')
            q = self.floor(st, self.div(st, a, b))
            return q if op == 'udiv' else self.rem(st, a, b, q)
        if op in ('sdiv', 'srem'):
            a, b = self.sview(st, a, w, i), self.sview(st, b, w, i)
            self.check_div0(st, b, i, 'div0')
            d = self.div(st, a, b)
            if n.ge0(a) and n.ge0(b):
                q = self.floor(st, d)
            elif b.isconst() and b.cval() > 0 and n.ge0(-a):
                q = -self.floor(st, -d)
            else:
                q = self.truncate(st, d)
            return q if op == 'sdiv' else self.rem(st, a, b, q)
        if op == 'shl':
            if b.isconst():
                return a.scale(1 << int(b.cval()))
            return self.fresh(('shl', a, b, w), ty)
        if op in ('lshr', 'ashr'):
            if b.isconst():
                a = self.uview(st, a, w, i) if op == 'lshr' else self.sview(st, a, w, i)
                return self.floor(st, a.scale(Fraction(1, 1 << int(b.cval()))))
            return self.fresh((op, a, b, w), ty)
        if op == 'and':
            if a.isconst() and b.isconst():
                return C(int(a.cval()) & int(b.cval()))
            if a.isconst():
                a, b = b, a
            if b.isconst():
                m = int(b.cval())
                if m >= 0 and (m & (m + 1)) == 0:
                    if m + 1 == 1 << w:
                        return a
                    k = m + 1
                    if n.ge0(a) and n.ge0(C(m) - a):
                        return a
                    return a - self.floor(st, a.scale(Fraction(1, k))).scale(k)
                if m >= 0:
                    return P(sym(('and', a, m), None, 0, m, True))
            return self.fresh(('and', a, b, w), ty)
        if op == 'or':
            if a.isconst() and b.isconst():
                return C(int(a.cval()) | int(b.cval()))
            if b.isconst() and b.cval() == 0:
                return a
            if a.isconst() and a.cval() == 0:
                return b
            if a.isconst():
                a, b = b, a
            if b.isconst() and b.cval() > 0:
                m = int(b.cval())
                k = m & -m                    # lowest set bit: a below it shares no bits with b
                if n.ge0(a) and n.ge0(C(k - 1) - a):
                    return a + b
            return self.fresh(('or', a, b, w), ty)
        if op == 'xor':
            if b.isconst() and b.cval() == -1:
                return -a - 1
            if a.isconst() and b.isconst():
                return C(int(a.cval()) ^ int(b.cval()))
            return self.fresh(('xor', a, b, w), ty)
        raise AnalysisError('binop ' + op)

    def rem(self, st, a, b, q):
        r = a - self.mul(st, b, q)
        if b.isconst():
            return r
        # a mod b: keep the facts 0 <= r < b when a >= 0, b > 0
        s = sym(('rem', a, b), None, None, None, True)
        if st.num.ge0(a) and st.num.ge0(b):
            st.num.set_range(s.id, 0, None)
            st.num.assume_ge(b - P(s) - 1)
        return P(s)

    def check_div0(self, st, b, i, kind):
        self.tick(kind, i)
        if b.isconst():
            if b.cval() == 0:
                self.alarm(st, kind, i, 'division by zero')
            return
        d = st.decide(('eq', b))
        if d is not False:
            self.alarm(st, kind, i, 'divisor %r may be zero' % (b,))
            st.assume(('ne', b))

    def parts_op(self, st, op, a, b):
        if not (isinstance(b, Poly) and b.isconst()):
            if op == 'or' and isinstance(b, Poly):
                # parts | value with a zero hole at the bottom
                ps = list(a.parts)
                if ps and ps[0][0] == 0 and isinstance(ps[0][2], Poly) and ps[0][2].isconst() and ps[0][2].cval() == 0:
                    ps[0] = (0, ps[0][1], b)
                    return Parts(a.size, ps)
            return None
        k = int(b.cval())
        if op == 'lshr' and k % 8 == 0:
            k //= 8
            sub = [(o - k, s, v) for o, s, v in a.parts if o >= k]
            if len(sub) == 1 and sub[0][0] == 0:
                return sub[0][2]
            return Parts(a.size - k, sub)
        if op == 'and':
            for nb in (1, 2, 4):
                if k == (1 << (8 * nb)) - 1:
                    sub = [(o, s, v) for o, s, v in a.parts if o < nb]
                    if len(sub) == 1 and sub[0][1] == nb:
                        return sub[0][2]
        return None

    def cast(self, st, i, v, fty, tty, ctx):
        op = i.op
        if v is UNDEF:
            self.alarm(st, 'uninit', i, 'use of undefined value')
            return self.fresh(('undefc', ctx, self.iid(i)), tty)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(v, Poly):
                if v.isconst() and v.cval() == 0:
                    return Ptr(NULLR)
                return Ptr(region(('i2p', v), 'unk', nullable=True))
            if op == 'bitcast' and fty.kind != tty.kind and isinstance(v, Poly):
                if v.isconst() and v.cval() == 0:
                    return v
                return self.bitcast(st, v, tty)
            return v
        if op in ('fpext', 'fptrunc'):
            return v
        if op == 'zext':
            if isinstance(v, Bool):
                d = st.decide(v.p)
                return v if d is None else C(1 if d else 0)
            if isinstance(v, (Ptr, Parts)):
                return v
            return self.uview(st, self.asnum(st, v), fty.a, i)
        if op == 'sext':
            if isinstance(v, Bool):
                return -self.asnum(st, v)
            if isinstance(v, (Ptr, Parts)):
                return v
            return self.sview(st, self.asnum(st, v), fty.a, i)
        if op == 'trunc':
            if isinstance(v, Parts):
                nb = tty.a // 8
                for o, s, x in v.parts:
                    if o == 0 and s == nb:
                        return x
                sub = [(o, s, x) for o, s, x in v.parts if o + s <= nb]
                if sub:
                    return Parts(nb, sub)
            if isinstance(v, Bool):
                return v
            if tty.a == 1:
                return Bool(self.simp(st, ('ne', self.asnum(st, v))))
            p = self.asnum(st, v)
            if p.isconst() and isinstance(p.cval(), int):
                c = p.cval() & ((1 << tty.a) - 1)
                return C(c) if tty.a == 16 else C(c - (1 << tty.a) if c >> (tty.a - 1) else c)
            return p
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, Bool):
                return self.asnum(st, v) if op == 'uitofp' else -self.asnum(st, v)
            p = self.asnum(st, v)
            if fty.a == 1:
                return p
            return self.uview(st, p, fty.a, i) if op == 'uitofp' else self.sview(st, p, fty.a, i)
        if op in ('fptoui', 'fptosi') and self.ck.linear and isinstance(v, Poly) and not v.isconst():
            return self.fresh(('lin', op, v, tty.a), tty)
        if op in ('fptoui', 'fptosi'):
            p = self.asnum(st, v, ('cv', ctx, self.iid(i)))
            w = tty.a
            t = self.truncate(st, p)
            self.tick('fptoint', i)
            lo, hi = (0, (1 << w) - 1) if op == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            # clang converts to i32 and truncates for narrower unsigned types only when allowed: check the range
            if not (st.num.gt0(p - lo + 1) and st.num.gt0(C(hi + 1) - p)):
                self.alarm(st, 'fptoint', i, 'conversion of %r to %d-bit %s out of range'
                           % (p, w, 'unsigned' if op == 'fptoui' else 'signed'))
                if not (t.isconst()):
                    st.num.assume_ge(t - lo)
                    st.num.assume_ge(C(hi) - t)
            return t
        raise AnalysisError('cast ' + op)

    def bitcast(self, st, v, tty):
        """IEEE single <-> 32-bit integer; monotone on non-negative values"""
        import struct
        n = st.num
        r = self.fresh(('bitcast', v, tty.kind), tty)
        lo, hi = n.range(v)
        sid = r.single()
        if sid is None or lo is None or lo < 0:
            return r
        try:
            if tty.kind == 'float':
                f = lambda x: Fraction(struct.unpack('<f', struct.pack('<I', int(x)))[0])
                n.set_range(sid.id, f(lo), f(hi) if hi is not None and hi < 0x7f800000 else None)
            elif tty.kind == 'int':
                f = lambda x: struct.unpack('<I', struct.pack('<f', float(x)))[0]
                n.set_range(sid.id, max(0, f(lo) - 1), f(hi) + 1 if hi is not None else 0x7f7fffff)
        except (struct.error, OverflowError, ValueError):
            pass
        return r

    # ----------------------------------------------------------------- calls
    def exec_call(self, st, i, ctx):
        mod = i.fn.module
        tys, attrs = i.x
        callee = i.ops[0]
        if isinstance(callee, ir.GRef):
            fv = FnV(callee.name)
            if callee.name in mod.globals and callee.name not in mod.functions:
                fv = self.gref(callee.name, mod)
        else:
            fv = self.val(st, callee, ir.PTR, mod)
        if isinstance(fv, FnV) and fv.name.startswith(INTRINSIC_NOOP):
            return None
        args = [self.val(st, v, t, mod) if v is not None else None for v, t in zip(i.ops[1:], tys)]
        for k, a in enumerate(attrs):
            if 'byval' in a and isinstance(args[k], Ptr):
                t = a['byval']
                size = self.tysize(mod, t)
                r = region(('bv', ctx, self.iid(i), k), 'alloca', 'byval%d' % k, size=C(size), uninit=True)
                st.mem[r] = RegMem(0, True)
                self.memcpy(st, Ptr(r), args[k], C(size), i, ctx)
                args[k] = Ptr(r)
        if not isinstance(fv, FnV):
            r = self.ck.on_icall(self, st, i, fv, args, ctx)
            if r is None:
                if isinstance(fv, Ptr):
                    n = st.isnull(fv.reg)
                    if n is not False:
                        self.alarm(st, 'nullcall', i, 'call through %s function pointer' % ('NULL' if n else 'possibly NULL'))
                self.unknown_calls[('indirect', self.where(i))] = self.unknown_calls.get(('indirect', self.where(i)), 0) + 1
                self.havoc_args(st, args, (ctx, self.iid(i)))
                r = [(st, self.fresh(('icall', ctx, self.iid(i)), i.ty))]
            return self.finish_call(i, r)
        name = fv.name
        r = self.ck.on_call(self, st, i, name, args, ctx)
        if r is None:
            r = self.call_named(st, i, name, args, ctx, mod)
        return self.finish_call(i, r)

    def finish_call(self, i, r):
        out = []
        for s, v in r:
            if i.res is not None:
                s.env[i.res] = v
            out.append(s)
        return out

    def call_named(self, st, i, name, args, ctx, mod):
        from . import frontend, models
        fn = frontend.resolve(self.pr, mod, name)
        if fn is not None and name not in self.ck.stop:
            if fn in self.stack:
                self.havoc_args(st, args, (ctx, self.iid(i)))
                return [(st, self.fresh(('rec', ctx, self.iid(i)), i.ty))]
            return self.call_fn(fn, args, st, ctx_push(ctx, 'c', self.iid(i)))
        m = models.lookup(name)
        if m is not None:
            r = m(self, st, i, name, args, ctx)
            if isinstance(r, list):
                return r
            return [(st, r)]
        key = ('unknown function', name)
        self.unknown_calls[key] = self.unknown_calls.get(key, 0) + 1
        self.havoc_args(st, args, (ctx, self.iid(i)))
        return [(st, self.fresh(('call', name, ctx, self.iid(i)), i.ty))]

    def havoc_args(self, st, args, key):
        for a in args:
            if isinstance(a, Ptr) and a.reg.kind != 'null' and not (a.reg.kind == 'glob' and a.reg.glob[0].const):
                self.havoc_region(st, a.reg, key)

    def call_fn(self, fn, args, st, ctx):
        """-> [(state, return value)] with the caller's environment restored"""
        if len(self.stack) > 40:
            raise AnalysisError('call depth')
        self.visited.add(fn.name)
        saved = st.env
        st.env = {}
        for (nm, ty, _), a in zip(fn.params, args):
            if a is UNDEF:
                a = self.fresh(('undefarg', ctx, nm), ty)
            st.env[nm] = a
        self.stack.append(fn)
        try:
            self.ck.on_enter(self, st, fn, args, ctx)
            cfg = analyse_cfg(fn)
            outs = self.run_region(fn, cfg, None, fn.entry.name, [(None, st)], ctx)
        finally:
            self.stack.pop()
        rets = outs.get('ret', [])
        rets = self.limit_rets(rets, fn, ctx)
        res = []
        for s, v in rets:
            self.ck.on_ret(self, s, fn, v, ctx)
            s.env = dict(saved)
            res.append((s, v))
        return res

    def limit_rets(self, rets, fn, ctx):
        if len(rets) <= (self.ck.maxrets or self.ck.maxstates):
            return rets
        groups = {}
        verdicts = {v.cval() for _, v in rets if isinstance(v, Poly) and v.isconst()}
        for s, v in rets:
            c = v.cval() if len(verdicts) <= 3 and isinstance(v, Poly) and v.isconst() else None
            groups.setdefault((self.ck.key(s), c), []).append((s, v))
        out = []
        for k, g in groups.items():
            for s, v in g:
                s.env = {'$ret': v}
            j = self.join([s for s, _ in g], {'$ret'}, ('ret', fn.name, ctx, k))
            out.append((j, j.env.get('$ret')))
        return out

    # -------------------------------------------------------------- control
    def run_region(self, fn, cfg, loop, entry, ins, ctx, at_header_done=False):
        """ins: [(pred block name or None, state)].  -> {'ret': [(st, val)], 'back': [(src, st)], (src, tgt): [st]}"""
        inner = {}
        kids = loop.children if loop else cfg.top
        owner = {}
        for l in kids:
            for b in l.blocks:
                owner[b] = l
        pending = {}
        pending[entry] = list(ins)
        out = {'ret': [], 'back': []}
        order = [b for b in cfg.rpo if (loop is None or b in loop.blocks) and (b not in owner or owner[b].header == b)]
        first = True
        for b in order:
            sts = pending.pop(b, None)
            if not sts:
                continue
            if b in owner:
                edges = self.run_loop(fn, cfg, owner[b], sts, ctx, out)
            else:
                edges = self.run_block(fn, cfg, fn.blocks[b], sts, ctx, out,
                                       phis_done=(at_header_done and b == entry))
            for src, tgt, st in edges:
                if loop is not None and tgt == loop.header:
                    out['back'].append((src, st))
                elif loop is not None and tgt not in loop.blocks:
                    out.setdefault('exits', []).append((src, tgt, st))
                else:
                    pending.setdefault(tgt, []).append((src, st))
        return out

    def enter_block(self, fn, cfg, b, sts, ctx, phis_done):
        res = []
        live = cfg.live_in[b.name]
        for pred, st in sts:
            if not phis_done:
                self.eval_phis(fn, b, pred, st)
            st.env = {k: v for k, v in st.env.items() if k in live}
            res.append(st)
        if len(res) > 1:
            t = b.insts[-1]
            verdict = t.ops[0].name if t.op == 'ret' and t.ops and isinstance(t.ops[0], ir.Reg) else None
            res = self.limit(res, live, ('blk', fn.name, b.name, ctx), verdict)
        return res

    def eval_phis(self, fn, b, pred, st):
        new = {}
        for i in b.insts:
            if i.op != 'phi':
                break
            for v, pb in zip(i.ops, i.x):
                if pb == pred:
                    new[i.res] = self.val(st, v, i.ty, fn.module)
                    break
            else:
                raise AnalysisError('phi without incoming edge from %s in %s' % (pred, fn.name))
        st.env.update(new)

    def same(self, a, b, live):
        if a.ghost != b.ghost or a.null != b.null or a.unk != b.unk:
            return False
        for k in live:
            x, y = a.env.get(k), b.env.get(k)
            if x is not y and x != y:
                return False
        if set(a.mem) != set(b.mem):
            return False
        for r, m in a.mem.items():
            n = b.mem[r]
            if m is not n and (m.ver != n.ver or m.cells != n.cells or m.fills != n.fills):
                return False
        return a.num.rng == b.num.rng and a.num.facts == b.num.facts and a.num.nes == b.num.nes

    def limit(self, sts, live, key, verdict=None):
        def group(sts):
            groups = {}
            vals = [s.env.get(verdict) for s in sts] if verdict else []
            vals = {v.cval() for v in vals if isinstance(v, Poly) and v.isconst()}
            for s in sts:
                v = s.env.get(verdict) if verdict and len(vals) <= 3 else None
                k = self.ck.key(s)
                if v is not None:
                    k = (k, v.cval() if isinstance(v, Poly) and v.isconst() else None)
                groups.setdefault(k, []).append(s)
            return groups
        groups = group(sts)
        out = []
        tot = len(sts)
        if tot > 1 and tot <= 60:
            # drop exact duplicates
            uniq = []
            for s in sts:
                if not any(self.same(s, u, live) for u in uniq):
                    uniq.append(s)
            sts = uniq
            if len(sts) <= self.ck.maxstates:
                return sts
            groups = group(sts)
        if len(sts) <= self.ck.maxstates:
            return sts
        for k, g in groups.items():
            out.append(g[0] if len(g) == 1 else self.join(g, live, key + (k,)))
        return out

    def run_block(self, fn, cfg, b, sts, ctx, out, phis_done=False):
        sts = self.enter_block(fn, cfg, b, sts, ctx, phis_done)
        edges = []
        for st in sts:
            cur = [st]
            for i in b.insts:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise AnalysisError('analysis budget exceeded in %s' % fn.name)
                nxt = []
                for s in cur:
                    r = self.exec_inst(s, i, ctx)
                    if r is None:
                        nxt.append(s)
                    else:
                        nxt += r
                cur = nxt
                if len(cur) > self.ck.maxstates and i.op == 'call':
                    live = set().union(*[set(s.env) for s in cur])
                    cur = self.limit(cur, live, ('call', fn.name, self.iid(i), ctx))
                if not cur:
                    break
            t = b.insts[-1]
            for s in cur:
                self.terminator(fn, b, t, s, edges, out, ctx)
        return edges

    def terminator(self, fn, b, t, s, edges, out, ctx):
        if t.op == 'ret':
            v = self.val(s, t.ops[0], t.ty, fn.module) if t.ops else None
            if self.ck_undef_ret(fn, v, s, t):
                pass
            out['ret'].append((s, v))
        elif t.op == 'br':
            if len(t.x) == 1:
                edges.append((b.name, t.x[0], s))
                return
            c = self.val(s, t.ops[0], ir.I1, fn.module)
            if c is UNDEF:
                self.alarm(s, 'uninit', t, 'branch on undefined value')
                p = ('unk', ('undefbr', ctx, self.iid(t)))
            else:
                p = c.p if isinstance(c, Bool) else ('ne', self.asnum(s, c))
            if t.x[0] == t.x[1]:
                edges.append((b.name, t.x[0], s))
                return
            d = s.decide(p)
            if self.branchlog is not None:
                self.branchlog.append(p)
            if d is not None:
                self.ck.on_branch(self, s, t, p, d)
                edges.append((b.name, t.x[0] if d else t.x[1], s))
                return
            s2 = s.copy()
            if s.assume(p):
                self.ck.on_branch(self, s, t, p, True)
                edges.append((b.name, t.x[0], s))
            if s2.assume(pneg(p)):
                self.ck.on_branch(self, s2, t, p, False)
                edges.append((b.name, t.x[1], s2))
        elif t.op == 'switch':
            v = self.asnum(s, self.val(s, t.ops[0], t.ty, fn.module), ('sw', ctx, self.iid(t)))
            dflt, cases = t.x
            byt = {}
            rest = s
            feasible = True
            for cv, tgt in cases:
                p = ('eq', v - self.fit(s, C(int(cv.v)), v, t.ty.a))
                d = rest.decide(p)
                if self.branchlog is not None:
                    self.branchlog.append(p)
                if d is False:
                    continue
                s2 = rest.copy()
                if s2.assume(p):
                    self.ck.on_branch(self, s2, t, p, True)
                    edges.append((b.name, tgt, s2))
                if d is True or not rest.assume(pneg(p)):
                    feasible = False
                    break
            if feasible:
                edges.append((b.name, dflt, rest))

    def ck_undef_ret(self, fn, v, s, t):
        if v is UNDEF:
            self.alarm(s, 'uninit', t, 'returns an undefined value')
        return False

    # ------------------------------------------------------------------ join
    def join_values(self, st, pairs, key):
        vals = [v for _, v in pairs]
        v0 = vals[0]
        if all(v is v0 or v == v0 for v in vals[1:]):
            return v0
        if any(v is UNDEF for v in vals):
            return UNDEF
        if all(isinstance(v, Bool) for v in vals):
            return Bool(('unk', ('j', key)))
        if all(isinstance(v, (Poly, Bool)) for v in vals):
            ps = [(s, self.asnum(s, v)) for s, v in pairs]
            if all(p == ps[0][1] for _, p in ps):
                return ps[0][1]
            isint = all(p.isint() for _, p in ps)
            if self.ck.exactjoin:
                x = self.exact_minmax(st, ps, isint)
                if x is not None:
                    return x
            x = sym(('j', key, isint), None, None, None, isint)
            lo = hi = 0
            first = True
            for s, p in ps:
                l, h = s.num.range(p)
                if first:
                    lo, hi, first = l, h, False
                else:
                    lo = None if lo is None or l is None else min(lo, l)
                    hi = None if hi is None or h is None else max(hi, h)
            self._newsyms.append((x, lo, hi, ps)) if self._newsyms is not None else None
            if self._newsyms is None:
                st.num.rng.pop(x.id, None)
                st.num._dirty()
                st.num.set_range(x.id, lo, hi)
                self.minmax_facts(st, x, ps)
            return P(x)
        if all(isinstance(v, Ptr) for v in vals):
            if all(v.reg is v0.reg for v in vals):
                o = self.join_values(st, [(s, v.off) for s, v in pairs], (key, 'o'))
                return Ptr(v0.reg, o)
            nl = any(s.isnull(v.reg) is not False for s, v in pairs)
            a = self.ck.pointer_attr(self, vals)
            return Ptr(region(('jp', key, nl) if a is None else ('jp', key, nl, a), 'unk', nullable=nl))
        if all(isinstance(v, Parts) for v in vals):
            fl = [self.flatten(v) for v in vals]
            shape = [(o, s) for o, s, _ in fl[0].parts]
            if all([(o, s) for o, s, _ in f.parts] == shape for f in fl):
                parts = []
                for k, (o, s) in enumerate(shape):
                    parts.append((o, s, self.join_values(st, [(pairs[n][0], fl[n].parts[k][2]) for n in range(len(fl))], (key, o))))
                return Parts(v0.size, parts)
        if any(isinstance(v, (Ptr, FnV)) for v in vals):
            return Ptr(region(('jp', key, True), 'unk', nullable=True))
        return P(sym(('jx', key), None))

    _newsyms = None

    def exact_minmax(self, st, ps, isint):
        """two alternatives, the larger (smaller) one on either path: MAX, MIN, one step of CLAMP"""
        a = ps[0][1]
        b = next(p for _, p in ps if p != a)
        if any(p != a and p != b for _, p in ps):
            return None
        for k, sg in (('max', 1), ('min', -1)):
            if all(s.num.ge0((a - b if p == a else b - a).scale(sg)) for s, p in ps):
                if repr(a) > repr(b):
                    a, b = b, a
                x = sym(('mm', k, a, b), k, None, None, isint, (k, a, b))
                self._settle.append(x) if self._newsyms is not None else st.num.settle(x.id)
                for y in (a, b):
                    self._settle.append((P(x) - y).scale(sg)) if self._newsyms is not None else st.num.assume_ge((P(x) - y).scale(sg))
                return P(x)
        return None

    def minmax_facts(self, st, x, ps):
        """relations of a joined value to its alternatives (as for MIN/MAX/CLAMP)"""
        if len(ps) > 4 or self.ck.linear:
            return
        for i, (si, pi) in enumerate(ps):
            if pi.isconst() or len(pi.t) > 8:
                continue
            for sg in (1, -1):
                if all(j == i or sj.num.ge0((pj - pi).scale(sg)) for j, (sj, pj) in enumerate(ps)):
                    st.num.assume_ge((P(x) - pi).scale(sg))

    def join(self, sts, live, key):
        st = State()
        st.ghost = self.ck.join_ghost([s.ghost for s in sts])
        self._newsyms = news = []
        self._settle = settle = []
        try:
            for k in live:
                if all(k in s.env for s in sts):
                    st.env[k] = self.join_values(st, [(s, s.env[k]) for s in sts], (key, k))
            regs = []
            for s in sts:
                for r in s.mem:
                    if r not in regs:
                        regs.append(r)
            for r in regs:
                has = [s for s in sts if r in s.mem]
                if len(has) < len(sts) and r.kind in ('alloca', 'heap'):
                    # does not exist on the other paths
                    ms = [s.mem[r] for s in has]
                    if len(has) == 1:
                        st.mem[r] = ms[0]
                        continue
                    st.mem[r] = self.join_mem(st, has, r, key)
                    continue
                for s in sts:
                    self.rmem(s, r)
                st.mem[r] = self.join_mem(st, sts, r, key)
        finally:
            self._newsyms = None
        for r in sts[0].null:
            if all(s.null.get(r, s.isnull(r)) == sts[0].null[r] for s in sts):
                st.null[r] = sts[0].null[r]
        for k in sts[0].unk:
            if all(s.unk.get(k) == sts[0].unk[k] for s in sts):
                st.unk[k] = sts[0].unk[k]
        # numeric part
        n = st.num
        sids = set()
        for s in sts:
            sids |= set(s.num.rng)
        for sid in sids:
            lo, hi = sts[0].num.srange(sid)
            for s in sts[1:]:
                l, h = s.num.srange(sid)
                lo = None if lo is None or l is None else min(lo, l)
                hi = None if hi is None or h is None else max(hi, h)
            if lo is not None or hi is not None:
                n.rng[sid] = (lo, hi)
        for x, lo, hi, ps in news:
            n.rng[x.id] = (lo, hi)
        n._dirty()
        cand = []
        for s in sts:
            for f in s.num.facts:
                if f not in cand:
                    cand.append(f)
        keep = []
        newids = {x.id for x, _, _, _ in news}
        for f, strict in cand:
            if f.syms() & newids:
                continue
            if all((f, strict) in s.num.facts or (s.num.gt0(f) if strict else s.num.ge0(f)) for s in sts):
                keep.append((f, strict))
        n.facts = tuple(keep[-n.MAXFACTS:])
        nes = sts[0].num.nes
        for s in sts[1:]:
            nes = nes & s.num.nes
        n.nes = nes
        n._dirty()
        for x in settle:
            if isinstance(x, Poly):
                n.assume_ge(x)
            else:
                n.settle(x.id)
        for x, lo, hi, ps in news:
            self.minmax_facts(st, x, ps)
            if not x.isint and not self.ck.linear:
                # bounds that are not reached on any path
                for b, sg in ((lo, 1), (hi, -1)):
                    if b is not None and all(s.num.facts or p.isconst() for s, p in ps) and all(s.num.gt0((p - C(b)).scale(sg)) for s, p in ps):
                        st.num._addfact((P(x) - C(b)).scale(sg), True)
        return st

    def join_mem(self, st, sts, r, key):
        ms = [s.mem[r] for s in sts]
        m0 = ms[0]
        if all(m is m0 for m in ms[1:]):
            return m0
        out = RegMem(m0.ver, m0.uninit)
        samebase = all(m.ver == m0.ver and m.fills == m0.fills and m.uninit == m0.uninit for m in ms)
        keys = []
        for m in ms:
            for o in m.cells:
                if o not in keys:
                    keys.append(o)
        if samebase:
            out.fills = m0.fills
        else:
            out.ver = ('jv', key, r.key)
            out.uninit = 'maybe' if any(m.uninit for m in ms) else False
        for o in keys:
            vals = []
            ok = True
            size = next(m.cells[o][0] for m in ms if o in m.cells)
            for s, m in zip(sts, ms):
                c = m.cells.get(o)
                if c is None:
                    if samebase and not m.uninit and not m.fills:
                        # untouched on that path: the initial value
                        ov = next(mm.cells[o][1] for mm in ms if o in mm.cells)
                        ty = self.guess_type(ov, size)
                        v = None
                        if ty is not None:
                            rec, self.recording = self.recording, False
                            v = self.read(s, r, o, size, ty, None, key)
                            self.recording = rec
                        if v is None:
                            ok = False
                            break
                        vals.append((s, v))
                    elif m.uninit is True and not m.fills:
                        if any(self.overlap(s, o, size, o2, s2) is not False for o2, (s2, _) in m.cells.items()):
                            ok = False
                            break
                        vals.append((s, UNDEF))
                    else:
                        ov = next(mm.cells[o][1] for mm in ms if o in mm.cells)
                        ty = self.guess_type(ov, size)
                        if ty is None:
                            ok = False
                            break
                        rec, self.recording = self.recording, False
                        v = self.read(s, r, o, size, ty, None, key)
                        self.recording = rec
                        vals.append((s, v))
                elif c[0] != size:
                    ok = False
                    break
                else:
                    vals.append((s, c[1]))
            if ok:
                out.cells[o] = (size, self.join_values(st, vals, (key, r.key, o)))
            else:
                out.cells[o] = (size, self.havoc_value(next(m.cells[o][1] for m in ms if o in m.cells), (key, r.key, o, 'x')))
        return out

    def guess_type(self, v, size):
        if isinstance(v, (Ptr, FnV)):
            return ir.PTR
        if isinstance(v, (Poly, Bool)):
            if isinstance(v, Poly) and not v.isint():
                return ir.FLOAT if size == 4 else ir.DOUBLE if size == 8 else None
            if isinstance(v, Poly) and v.isconst() and size in (4, 8):
                return ir.Type('float' if size == 4 else 'double') if False else ir.Type('int', size * 8)
            return ir.Type('int', size * 8)
        return None

    # ------------------------------------------------------------------ loops
    def run_loop(self, fn, cfg, loop, sts, ctx, out):
        h = fn.blocks[loop.header]
        live = cfg.live_in[h.name]
        entry = []
        for pred, st in sts:
            self.eval_phis(fn, h, pred, st)
            st.env = {k: v for k, v in st.env.items() if k in live}
            entry.append(st)
        entry = self.limit(entry, live, ('lh', fn.name, h.name, ctx))
        edges = []
        for n, st in enumerate(entry):
            lctx = ctx if len(entry) == 1 else ctx_push(ctx, 'le', n)
            if not self.ck.keep_loop(self, fn, loop, st) and (self.counted(fn, loop, st) or self.ck.force_unroll(self, fn, loop, st)):
                r = self.unroll(fn, cfg, loop, st, lctx, out)
                if r is not None:
                    edges += r
                    continue
            edges += self.fixpoint(fn, cfg, loop, st, lctx, out)
        return edges

    def counted(self, fn, loop, st):
        """a header phi with constant start and step that an exit test compares with a constant"""
        h = fn.blocks[loop.header]
        phis = {}
        for i in h.insts:
            if i.op != 'phi':
                break
            phis[i.res] = i
        defs = {}
        for b in loop.blocks:
            for i in fn.blocks[b].insts:
                if i.res:
                    defs[i.res] = i

        def constval(v, ty):
            if isinstance(v, ir.Const):
                return v.kind == 'int' or v.kind == 'null' or v.kind == 'gep'
            if isinstance(v, ir.GRef):
                return True
            if isinstance(v, ir.Reg) and v.name not in defs:
                x = st.env.get(v.name)
                return (isinstance(x, Poly) and x.isconst()) or (isinstance(x, Ptr) and x.off.isconst())
            return False

        def step(v, name, depth=0):
            """v = phi + const"""
            if not isinstance(v, ir.Reg) or depth > 4:
                return False
            d = defs.get(v.name)
            if d is None:
                return False
            if d.op in ('add', 'sub'):
                if isinstance(d.ops[0], ir.Reg) and d.ops[0].name == name and constval(d.ops[1], None):
                    return True
            if d.op == 'getelementptr' and isinstance(d.ops[0], ir.Reg) and d.ops[0].name == name:
                return all(isinstance(o, ir.Const) for o in d.ops[1:])
            return False
        counters = set()
        for nm, i in phis.items():
            v = st.env.get(nm)
            if not ((isinstance(v, Poly) and v.isconst()) or (isinstance(v, Ptr) and v.off.isconst())):
                continue
            back = [x for x, pb in zip(i.ops, i.x) if pb in loop.blocks]
            if back and all(step(x, nm) for x in back):
                counters.add(nm)
        if not counters:
            return False

        def derived(v, depth=0):
            """value computed from a counter and constants only"""
            if isinstance(v, ir.Reg):
                if v.name in counters:
                    return 1
                d = defs.get(v.name)
                if d is None:
                    return 0 if constval(v, None) else -1
                if depth > 6:
                    return -1
                if d.op in ('sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'getelementptr'):
                    r = [derived(o, depth + 1) for o in d.ops]
                    if min(r) < 0:
                        return -1
                    return max(r)
                return -1
            return 0 if constval(v, None) else -1
        for b in loop.blocks:
            t = fn.blocks[b].insts[-1]
            if t.op == 'br' and len(t.x) == 2 and any(x not in loop.blocks for x in t.x):
                c = t.ops[0]
                if isinstance(c, ir.Reg) and c.name in defs and defs[c.name].op == 'icmp':
                    r = [derived(o) for o in defs[c.name].ops]
                    if min(r) >= 0 and max(r) == 1:
                        return True
        return False

    def unroll(self, fn, cfg, loop, st, ctx, out):
        h = fn.blocks[loop.header]
        live = cfg.live_in[h.name]
        rec = self.recording
        edges = []
        rets = []
        cur = [st]
        for it in range(self.ck.unroll_limit + 1):
            ictx = ctx_push(ctx, 'it', h.name, it)
            nxt = []
            r = self.run_region(fn, cfg, loop, h.name, [(None, s.copy() if it == 0 else s) for s in cur], ictx, at_header_done=True)
            rets += r['ret']
            edges += r.get('exits', [])
            for src, s in r['back']:
                self.eval_phis(fn, h, src, s)
                s.env = {k: v for k, v in s.env.items() if k in live}
                nxt.append(s)
            if not nxt:
                out['ret'] += rets
                return self.merge_exits(edges, cfg, fn, loop, ctx)
            cur = self.limit(nxt, live, ('lu', fn.name, h.name, ictx))
        return None

    def merge_exits(self, edges, cfg, fn, loop, ctx):
        """bound the number of states leaving through one edge"""
        by = {}
        for src, tgt, s in edges:
            self.ck.on_loop_exit(self, s, fn, loop, ctx)
            by.setdefault((src, tgt), []).append(s)
        out = []
        for (src, tgt), ss in by.items():
            if len(ss) > self.ck.maxstates:
                live = cfg.live_out[src]
                for s in ss:
                    s.env = {k: v for k, v in s.env.items() if k in live}
                ss = self.limit(ss, live, ('lx', fn.name, src, tgt, ctx))
            for s in ss:
                out.append((src, tgt, s))
        return out

    # items: ('r', phi name) | ('m', region, offset, size)
    def items_of(self, st, phis):
        for p in phis:
            yield ('r', p), st.env.get(p)

    def fixpoint(self, fn, cfg, loop, E, ctx, out):
        h = fn.blocks[loop.header]
        live = cfg.live_in[h.name]
        phis = [i.res for i in h.insts if i.op == 'phi' and i.res in E.env]
        bctx = ctx_push(ctx, 'lp', h.name)
        nsym = sym(('n', bctx), 'n_%s' % h.name, 0, None, True)
        gen = {}            # item -> ('sym', group) | ('aff', delta) | ('top',)
        havoc = set()       # regions generalised completely (symbolic writes)
        tried = set()
        arrays = {}         # region -> fill facts ((start, end-of-n poly), what)
        cands = None
        ghostkeys = {}
        rec = self.recording
        self.recording = False
        self.nswphis(fn, h, loop, phis)
        extra = {}          # ghost key -> list of header states (generalised)
        log = None
        headers = [E]       # one per ghost key
        points = list(self.ck.count_points(self))   # iteration counts that the ghost keys are compared with
        boot = 0
        lfact = {}          # header -> facts about values that do not change in the loop
        lenv = {}           # header -> values of loop variables in that case
        local = {}          # header -> facts (sign, point): sign * (n - point) >= 0
        LP = lambda g, t, d=0: (P(nsym) + d - t).scale(g)
        first = None        # no back edge leads to the ghost key of the entry state: it is only that of the first iteration
        try:
            for rnd in range(30):
                Hs = []
                for e in headers:
                    H = self.make_header(e, gen, havoc, arrays, cands, bctx, nsym, h)
                    if first and e is E:
                        self.first_iteration(E, H, gen, nsym)
                    for g, t in local.get(len(Hs), ()):
                        H.num.assume_ge(LP(g, t))
                    H.env.update(lenv.get(len(Hs), {}))
                    for f in lfact.get(len(Hs), ()):
                        H.num.assume_ge(f)
                    Hs.append(H)
                saved = self.branchlog
                self.branchlog = blog = []
                backs = []
                self_changed = False
                for k, H in enumerate(Hs):
                    r = self.run_region(fn, cfg, loop, h.name, [(None, H.copy())], ctx_push(bctx, 'h', k) if k else bctx, at_header_done=True)
                    for src, s in r['back']:
                        self.eval_phis(fn, h, src, s)
                        s.env = {q: v for q, v in s.env.items() if q in live}
                        backs.append((k, H, s))
                self.branchlog = saved
                if saved is not None:
                    saved.extend(blog)
                # new ghost keys
                known = {self.ck.key(e): i for i, e in enumerate(headers)}
                newkey = False
                if len(headers) > 1 and backs and first is not False:
                    k0 = self.ck.key(E)
                    f = all(self.ck.key(s) != k0 for _, _, s in backs)
                    newkey = f != bool(first)
                    first = f
                for k, H, s in backs:
                    kk = self.ck.key(s)
                    if kk not in known:
                        e = headers[k].copy()
                        e.ghost = dict(s.ghost)
                        e.null = {r: v for r, v in e.null.items() if s.isnull(r) == v}
                        for it, g in gen.items():
                            if g[0] == 'case' and it[1] in s.env:
                                e.env[it[1]] = s.env[it[1]]
                        headers.append(e)
                        known[kk] = len(headers) - 1
                        newkey = True
                    else:
                        hg = headers[known[kk]]
                        for it, g in gen.items():
                            if g[0] == 'case' and hg.env.get(it[1]) != s.env.get(it[1]):
                                # two values in one case
                                gen[it] = ('top',)
                                newkey = True
                        if hg.ghost != s.ghost:
                            g = self.ck.join_ghost([hg.ghost, s.ghost])
                            if g != hg.ghost:
                                hg.ghost = g
                                newkey = True
                        if any(s.isnull(r) != v for r, v in hg.null.items()):
                            hg.null = {r: v for r, v in hg.null.items() if s.isnull(r) == v}
                            newkey = True
                if len(headers) > 12:
                    raise AnalysisError('too many ghost states in loop %s of %s' % (h.name, fn.name))
                if newkey:
                    continue
                ch = self.generalise(E, backs, gen, havoc, arrays, phis, bctx, nsym, tried)
                if ch == 'case':
                    headers = [E]
                    local, lenv, lfact = {}, {}, {}
                if ch:
                    cands = None
                    continue
                if cands is None:
                    cands = self.candidates(E, Hs[0], backs, gen, blog, bctx, nsym, arrays)
                    cands = [c for c in cands if self.cand_entry(E, c, gen, nsym)]
                    boot = len(headers) - 1 if points else 0
                    if cands:
                        continue
                drop = []
                for c in cands:
                    for k, H, s in backs:
                        if not self.cand_back(s, H, c, gen, nsym):
                            drop.append(c)
                            break
                if boot > 0 and not drop:
                    # conjectures for each ghost key, from the header that leads to it first
                    boot -= 1
                    for k in range(1, len(headers)):
                        j = min([j for j, _, s in backs if known[self.ck.key(s)] == k], default=k)
                        local[k] = [(g, t) for t in points for g in (1, -1)
                                    if all(s.num.ge0(LP(g, t, 1)) for i, _, s in backs if i == j != k and known[self.ck.key(s)] == k)] if j < k else []
                        vals = [s.env for i, _, s in backs if i == j != k and known[self.ck.key(s)] == k]
                        lenv[k] = {p: vals[0][p] for p in phis if j < k and isinstance(vals[0].get(p), Poly) and not vals[0][p].isconst()
                                   and self.ck.stable(vals[0][p]) and all(e.get(p) == vals[0][p] for e in vals)}
                        froms = [s for i, _, s in backs if i == j != k and known[self.ck.key(s)] == k]
                        lfact[k] = [f for f, strict in (froms[0].num.facts if froms and j < k else ()) if not strict and self.ck.stable(f)
                                    and all(s.num.ge0(f) for s in froms)]
                        if j < k:
                            headers[k].ghost = self.ck.join_ghost([s.ghost for i, _, s in backs if i == j and known[self.ck.key(s)] == k])
                    continue
                lost = False
                for k, H, s in backs:
                    kk = known[self.ck.key(s)]
                    keep = [(g, t) for g, t in local.get(kk, ()) if s.num.ge0(LP(g, t, 1))]
                    if len(keep) != len(local.get(kk, ())):
                        local[kk] = keep
                        lost = True
                    for f in list(lfact.get(kk, ())):
                        if not s.num.ge0(f):
                            lfact[kk].remove(f)
                            lost = True
                    for p, v in list(lenv.get(kk, {}).items()):
                        if s.env.get(p) != v:
                            del lenv[kk][p]
                            lost = True
                if not drop and not lost:
                    break
                cands = [c for c in cands if c not in drop]
            else:
                raise AnalysisError('no fixpoint in loop %s of %s' % (h.name, fn.name))
        finally:
            self.recording = rec
        # final pass
        edges = []
        if self.recording:
            self.ck.on_loop_entry(self, E, fn, loop, self.entry_map(E, gen, nsym), bctx)
        for k, e in enumerate(headers):
            H = self.make_header(e, gen, havoc, arrays, cands, bctx, nsym, h)
            if first and e is E:
                self.first_iteration(E, H, gen, nsym)
            for g, t in local.get(k, ()):
                H.num.assume_ge(LP(g, t))
            H.env.update(lenv.get(k, {}))
            for f in lfact.get(k, ()):
                H.num.assume_ge(f)
            H0 = H.copy()
            r = self.run_region(fn, cfg, loop, h.name, [(None, H)], ctx_push(bctx, 'h', k) if k else bctx, at_header_done=True)
            out['ret'] += r['ret']
            edges += r.get('exits', [])
            for src, s in r['back']:
                self.eval_phis(fn, h, src, s)
                if self.recording:
                    self.backmap = self.back_map(H0, s, gen, nsym)
                    self.ck.on_backedge(self, H0, s, fn, loop, bctx)
        return self.merge_exits(edges, cfg, fn, loop, ctx)

    def first_iteration(self, E, H, gen, nsym):
        """restrict a header state to the entry of the loop"""
        H.num.assume_ge(-P(nsym))
        for it, g in gen.items():
            if g[0] == 'sym':
                a, b = self.get_item(E, it), self.get_item(H, it)
                if isinstance(a, Poly) and isinstance(b, Poly) and not b.isconst():
                    H.assume(('eq', b - a))

    def get_item(self, st, item, like=None):
        if item[0] == 'r':
            return st.env.get(item[1])
        _, reg, off, size = item
        m = st.mem.get(reg)
        if m is None:
            return None
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return None

    def nswphis(self, fn, h, loop, phis):
        """integer loop variables that only signed additions without wrap-around feed"""
        c = self.nswcache
        if (fn.name, h.name) in c:
            return
        defs = {i.res: i for i in fn.insts() if i.res and i.op in ('add', 'sub') and isinstance(i.x, dict) and 'nsw' in i.x}
        out = {}
        for i in h.insts:
            if i.op == 'phi' and i.res in phis and i.ty.kind == 'int':
                back = [v for v, b in zip(i.ops, i.x) if b in loop.blocks]
                if back and all(isinstance(v, ir.Reg) and v.name in defs for v in back):
                    out[i.res] = i.ty.a
                elif back and all(isinstance(v, ir.Reg) and self.ucount(fn, h, loop, i.res, v.name) for v in back):
                    out[i.res] = -i.ty.a
        c[(fn.name, h.name)] = c[id(h)] = out

    def ucount(self, fn, h, loop, phi, nxt):
        """next = phi + 1 and the header leaves the loop unless phi < limit (unsigned): the addition never wraps around"""
        t = h.insts[-1]
        if t.op != 'br' or not t.ops or len(t.x) != 2 or t.x[0] not in loop.blocks or t.x[1] in loop.blocks:
            return False
        d = {i.res: i for i in fn.insts() if i.res in (nxt, getattr(t.ops[0], 'name', None))}
        a, c = d.get(nxt), d.get(getattr(t.ops[0], 'name', None))
        if a is None or c is None or a.op != 'add' or c.op != 'icmp' or c not in h.insts:
            return False
        isphi = lambda v: isinstance(v, ir.Reg) and v.name == phi
        one = [v for v in a.ops if not isphi(v)]
        if len(one) != 1 or not isinstance(one[0], ir.Const) or one[0].v != 1:
            return False
        return c.x[0] == 'ult' and isphi(c.ops[0]) or c.x[0] == 'ugt' and isphi(c.ops[1])

    def make_header(self, e, gen, havoc, arrays, cands, bctx, nsym, h):
        H = e.copy()
        for reg in havoc:
            old = H.mem.get(reg)
            m = RegMem(('lv', bctx), old.uninit if old else reg.uninit)
            if old is not None:
                m.fills = old.fills
                # cells that no back edge disturbs are kept as cells (generalised individually below)
                m.cells = dict(old.cells)
                if reg in arrays:
                    for start, end, what in arrays[reg]:
                        m.fills = m.fills + ((start, end, what),)
                elif m.uninit is True:
                    m.uninit = 'maybe'
                if reg not in arrays:
                    m.fills = ()
            H.mem[reg] = m
        for item, g in gen.items():
            ev = self.get_item(e, item)
            if g[0] == 'aff':
                v = self.affine(ev, g[1], nsym)
            elif g[0] == 'sym':
                v = self.generic(ev, (bctx, g[1]))
            elif g[0] == 'case':
                v = ev
            else:
                v = None
            if item[0] == 'r':
                H.env[item[1]] = v if v is not None else self.generic(ev, (bctx, item))
                w = self.nswcache.get(id(h), {}).get(item[1])
                lo, hi = e.num.interval(ev) if w and isinstance(ev, Poly) else (None, None)
                if w and w < 0:
                    if lo is not None and hi is not None and lo >= 0 and hi < 1 << -w and isinstance(v, Poly):
                        H.num.assume_ge(v)
                        H.num.assume_ge(C((1 << -w) - 1) - v)
                elif lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < 1 << (w - 1) and isinstance(v, Poly):
                    # overflow of the addition that produced it is undefined (and reported there)
                    H.num.assume_ge(v + (1 << (w - 1)))
                    H.num.assume_ge(C((1 << (w - 1)) - 1) - v)
            else:
                _, reg, off, size = item
                m = self.rmem(H, reg).copy()
                if v is None:
                    m.cells.pop(off, None)
                else:
                    m.cells[off] = (size, v)
                H.mem[reg] = m
        if cands:
            for c in cands:
                if not H.num.assume_ge(c):
                    # contradictory header state: loop body unreachable; keep sound by ignoring
                    pass
        return H

    def affine(self, ev, delta, nsym):
        if isinstance(ev, Ptr):
            return Ptr(ev.reg, ev.off + P(nsym).scale(delta))
        return ev + P(nsym).scale(delta)

    def generic(self, ev, key):
        if isinstance(ev, Ptr):
            if key[1] and isinstance(key[1], tuple) and key[1][0] == 'po':
                return Ptr(ev.reg, P(sym(('lo', key), None, None, None, True)))
            a = self.ck.pointer_attr(self, [ev])
            return Ptr(region(('lpt', key) if a is None else ('lpt', key, a), 'unk', nullable=True))
        if isinstance(ev, Bool):
            return Bool(('unk', ('lb', key)))
        if isinstance(ev, Poly):
            isint = not (isinstance(key[1], tuple) and key[1] and key[1][0] == 'real')
            return P(sym(('lg', key), None, None, None, isint))
        if isinstance(ev, Parts):
            return Parts(ev.size, [(o, s, self.generic(v, (key[0], ('parts', key[1], o)))) for o, s, v in ev.parts])
        return P(sym(('lgx', key), None))

    def generalise(self, E, backs, gen, havoc, arrays, phis, bctx, nsym, tried):
        """compare back-edge states with the header; extend the set of generalised items.  True if changed"""
        changed = False
        items = {}
        for p in phis:
            items[('r', p)] = None
        regs = set()
        backfills = set(arrays)          # facts the header states of this round were built with
        for k, H, s in backs:
            for r, m in H.mem.items():
                m2 = s.mem.get(r)
                if m2 is None or m2 is m:
                    continue
                if m2.ver != m.ver or m2.fills != m.fills:
                    if r not in havoc:
                        havoc.add(r)
                        self.try_array_fill(E, H, s, r, m, m2, arrays, nsym)
                        changed = True
                    elif m2.ver != m.ver or not self.fills_ok(H, s, r, m, m2, arrays, nsym):
                        if r in arrays:
                            del arrays[r]
                            changed = True
                for off, (size, v) in m2.cells.items():
                    c = m.cells.get(off)
                    if c is None or c[0] != size:
                        # written in the body at an offset that the header knows nothing about
                        base = self.header_read(H, r, off, size, v)
                        if base is not None and base == v:
                            continue
                        if off.isconst() and not off.syms():
                            it = ('m', r, off, size)
                            if base is not None and it not in gen:
                                # materialise the entry value
                                em = self.rmem(E, r).copy()
                                ebase = self.header_read(E, r, off, size, v)
                                if ebase is not None:
                                    em.cells[off] = (size, ebase)
                                    E.mem[r] = em
                                    items[it] = None
                                    tried.add(('mat', r, off))
                                    continue
                        if r not in havoc:
                            havoc.add(r)
                            self.try_array_fill(E, H, s, r, m, m2, arrays, nsym, (off, size, v))
                            changed = True
                            if r in arrays and r in E.mem:
                                # cells that an earlier round read from the entry state only to compare them
                                for o in [o for o in E.mem[r].cells if ('mat', r, o) in tried]:
                                    em = self.rmem(E, r).copy()
                                    it = ('m', r, o, em.cells[o][0])
                                    del em.cells[o]
                                    E.mem[r] = em
                                    gen.pop(it, None)
                                    items.pop(it, None)
                        elif r in arrays and not self.array_step_ok(H, s, r, off, size, v, arrays, nsym):
                            n0 = len(arrays[r])
                            if (r, off, nsym.id) not in tried and all(w[0] == 'stride' for *_, w in arrays[r]):
                                tried.add((r, off, nsym.id))
                                self.try_array_fill(E, H, s, r, m, m2, arrays, nsym, (off, size, v))
                                if len(arrays[r]) > n0 and arrays[r][-1][2][0] != 'stride':
                                    arrays[r].pop()
                            if len(arrays[r]) == n0:
                                del arrays[r]
                            changed = True
                        elif r not in arrays and (r, off, nsym.id) not in tried and off.coeff(nsym.id):
                            # the counter has become affine only now
                            tried.add((r, off, nsym.id))
                            self.try_array_fill(E, H, s, r, m, m2, arrays, nsym, (off, size, v))
                            changed = changed or r in arrays
                    elif c[1] is not v and c[1] != v:
                        items[('m', r, off, size)] = None
                for off, (size, v) in m.cells.items():
                    if off not in m2.cells:
                        items[('m', r, off, size)] = None
        case = False
        # every iteration must write its own element
        for r in list(arrays):
            if r not in backfills:
                continue
            for k, H, s in backs:
                m2 = s.mem.get(r)
                if any(m2 is None or c not in m2.cells or m2.cells[c][0] != what[-1]
                       for what, c in [(what, self.nextcell(start, end, what, nsym)) for start, end, what in arrays[r]]):
                    del arrays[r]
                    changed = True
                    break
        for it in items:
            ev = self.get_item(E, it)
            g = gen.get(it)
            if g is not None and g[0] in ('top', 'case'):
                continue
            vals = [(k, H, s, self.get_item(H, it), self.get_item(s, it)) for k, H, s in backs]
            if any(v is None or hv is None for _, _, _, hv, v in vals):
                if it[0] == 'm':
                    gen[it] = ('top',)
                    changed = True
                continue
            if g is None:
                if all(v is hv or v == hv for _, _, _, hv, v in vals):
                    continue
                # try affine straight away
                d = self.common_delta(vals)
                if self.ck.cases and it[0] == 'r' and all(isinstance(x, Ptr) for x in [ev] + [v for *_, v in vals]):
                    # one value per ghost key
                    gen[it] = ('case',)
                    case = True
                elif d is not None and d != 0:
                    gen[it] = ('aff', d)
                else:
                    gen[it] = ('sym', self.group(it, ev, vals, E))
                changed = True
            elif g[0] == 'aff':
                d = self.common_delta(vals)
                if d != g[1]:
                    gen[it] = ('sym', self.group(it, ev, vals, E))
                    changed = True
            elif g[0] == 'sym':
                d = self.common_delta(vals)
                if isinstance(g[1], tuple) and g[1][0] == 'try':
                    pass
                # pointer into one region but generalised as unknown pointer: fine
                ng = self.group(it, ev, vals, E)
                if ng != g[1] and self.wider(ng, g[1]):
                    gen[it] = ('sym', ng)
                    changed = True
        # split groups whose members disagree on the back edge
        groups = {}
        for it, g in gen.items():
            if g[0] == 'sym':
                groups.setdefault(g[1], []).append(it)
        for gname, its in groups.items():
            if len(its) > 1:
                for k, H, s in backs:
                    v0 = self.get_item(s, its[0])
                    bad = [it for it in its[1:] if self.get_item(s, it) != v0]
                    if bad:
                        for it in its:
                            gen[it] = ('sym', self.kind_tag(gname) + ('solo', it))
                        changed = True
                        break
        return 'case' if case else changed

    def kind_tag(self, g):
        return (g[0],) if isinstance(g, tuple) and g and g[0] in ('po', 'real', 'pp', 'int') else ('int',)

    def wider(self, a, b):
        order = {'int': 0, 'po': 0, 'real': 1, 'pp': 1}
        return order.get(a[0], 0) > order.get(b[0], 0)

    def group(self, it, ev, vals, E):
        """name of the symbol that stands for the item; items with equal entry values share it at first"""
        kind = 'int'
        allv = [ev] + [v for *_, v in vals]
        if isinstance(ev, Ptr):
            kind = 'po' if all(isinstance(v, Ptr) and v.reg is ev.reg for v in allv) else 'pp'
        elif isinstance(ev, Poly):
            kind = 'int' if all(isinstance(v, Poly) and v.isint() for v in allv) else 'real'
        if isinstance(ev, Ptr) and kind == 'pp':
            return (kind, 'eq', ev)
        return (kind, 'solo', it)

    def common_delta(self, vals):
        d = None
        for k, H, s, hv, v in vals:
            if isinstance(hv, Ptr) and isinstance(v, Ptr) and hv.reg is v.reg:
                x = v.off - hv.off
            elif isinstance(hv, Poly) and isinstance(v, Poly):
                x = v - hv
            else:
                return None
            if not x.isconst():
                return None
            x = x.cval()
            if d is None:
                d = x
            elif d != x:
                return None
        return d

    def header_read(self, H, r, off, size, like):
        """value a header state has at a place (None = unknown)"""
        m = H.mem.get(r)
        if m is None:
            return None
        ty = self.guess_type(like, size)
        if ty is None:
            return None
        if m.uninit is True and not m.fills:
            return UNDEF
        return self.read(H, r, off, size, ty, None, ('hr', 0))

    # ---- arrays filled by the loop: [start, start + stride*n)
    def try_array_fill(self, E, H, s, r, m, m2, arrays, nsym, wr=None):
        if wr is None:
            return
        off, size, v = wr
        c = off.coeff(nsym.id)
        if c is None or not c[0].isconst() or c[0].cval() == 0:
            return
        stride = c[0].cval()
        down = stride == -size
        if stride < 0 and not down:
            return
        stride = abs(stride)
        start = c[1]
        if stride < size or nsym.id in start.syms():
            return
        isinv = isinstance(v, (Ptr, Poly, FnV)) and not (isinstance(v, Poly) and nsym.id in v.syms())
        # symbols that are older than the loop do not change in it
        const = (isinstance(v, Poly) and all(q < nsym.id for q in v.syms())) or isinstance(v, FnV) or (isinstance(v, Ptr) and v.reg.kind in ('null', 'glob'))
        what = ('val', v, size) if const else ('some', size)
        if stride != size:
            what = ('stride', int(stride), v if const else None, size)
        if down:
            arrays.setdefault(r, []).append((off + size, start + size, what))
            return
        arrays.setdefault(r, []).append((start, start + P(nsym).scale(stride), what))

    def nextcell(self, start, end, what, nsym):
        """the element that the next iteration writes"""
        return start - what[-1] if nsym.id in start.syms() else end

    def array_step_ok(self, H, s, r, off, size, v, arrays, nsym):
        for start, end, what in arrays[r]:
            if off == self.nextcell(start, end, what, nsym):
                if what[0] == 'val' and what[1] != v:
                    return False
                if what[0] == 'stride' and what[2] is not None and what[2] != v:
                    return False
                return size == what[-1]
            if H.num.ge0(off - start) and H.num.ge0(end - size - off) and what[0] == 'some':
                return True
        return False

    def fills_ok(self, H, s, r, m, m2, arrays, nsym):
        return m.fills == m2.fills

    # ---- invariant candidates
    def candidates(self, E, H, backs, gen, blog, bctx, nsym, arrays):
        lsyms = set()
        aff = False
        cands = []

        def add(p):
            if p is not None and not p.isconst() and p not in cands and len(p.t) <= 12:
                cands.append(p)
        for it, g in gen.items():
            ev, hv = self.get_item(E, it), self.get_item(H, it)
            if g[0] == 'aff':
                aff = True
                continue
            if g[0] != 'sym':
                continue
            if isinstance(ev, Ptr) and isinstance(hv, Ptr) and ev.reg is hv.reg:
                e, x = ev.off, hv.off
            elif isinstance(ev, Poly) and isinstance(hv, Poly):
                e, x = ev, hv
            else:
                continue
            lsyms |= x.syms()
            add(x - e)
            add(e - x)
            # value hull
            los, his = [], []
            for st, v in [(E, e)] + [(s, self.get_item(s, it).off if isinstance(ev, Ptr) else self.get_item(s, it)) for _, _, s in backs]:
                if not isinstance(v, Poly):
                    los.append(None)
                    his.append(None)
                    continue
                l, h2 = st.num.range(v)
                los.append(l)
                his.append(h2)
            if all(l is not None for l in los):
                add(x - C(min(los)))
            if all(l is not None for l in his):
                add(C(max(his)) - x)
            for c in (0, 1):
                add(x - c)
                add(C(c) - x)
            # type-ish bounds
            for c in (-1,):
                add(x - c)
        if aff:
            lsyms.add(nsym.id)
        # loop symbols of memory cells too
        for p in blog[:400]:
            for q in self.pred_polys(p):
                if q.syms() & lsyms:
                    add(q)
                    add(-q)
                    if q.isint():
                        add(q + 1)
                        add(-q + 1)
                        add(q - 1)
                        add(-q - 1)
        return cands[:160]

    def pred_polys(self, p):
        if p[0] in ('ge', 'gt', 'eq', 'ne'):
            return [p[1]]
        if p[0] in ('and', 'or'):
            return self.pred_polys(p[1]) + self.pred_polys(p[2])
        return []

    def loop_syms(self, st, gen, H, nsym):
        """symbol id -> (item, offset?) for generalised items"""
        mp = {}
        for it, g in gen.items():
            if g[0] == 'sym':
                hv = self.get_item(H, it)
                p = hv.off if isinstance(hv, Ptr) else hv
                if isinstance(p, Poly):
                    sy = p.single()
                    if sy is not None:
                        v = self.get_item(st, it)
                        if isinstance(v, Ptr):
                            v = v.off
                        mp[sy.id] = v if isinstance(v, Poly) else None
        return mp

    def cand_entry(self, E, c, gen, nsym):
        mp = self.entry_map(E, gen, nsym)
        if any(s in mp and mp[s] is None for s in c.syms()):
            return False
        return E.num.ge0(c.substmap(mp))

    def entry_map(self, E, gen, nsym):
        mp = {nsym.id: ZERO}
        for it, g in gen.items():
            if g[0] != 'sym':
                continue
            ev = self.get_item(E, it)
            hv = self.generic(ev, (nsym.key[1], g[1]))
            p = hv.off if isinstance(hv, Ptr) else hv
            v = ev.off if isinstance(ev, Ptr) else ev
            if isinstance(p, Poly):
                sy = p.single()
                if sy is not None:
                    mp[sy.id] = v if isinstance(v, Poly) else None
        return mp

    def back_map(self, H, s, gen, nsym):
        """loop symbol id -> its value on the back edge (None = not a polynomial)"""
        mp = {nsym.id: P(nsym) + 1}
        for it, g in gen.items():
            if g[0] != 'sym':
                continue
            hv = self.get_item(H, it)
            p = hv.off if isinstance(hv, Ptr) else hv
            if not isinstance(p, Poly):
                continue
            sy = p.single()
            if sy is None:
                continue
            v = self.get_item(s, it)
            if isinstance(v, Ptr):
                v = v.off
            mp[sy.id] = v if isinstance(v, Poly) else None
        return mp

    def cand_back(self, s, H, c, gen, nsym):
        mp = self.back_map(H, s, gen, nsym)
        if any(x in mp and mp[x] is None for x in c.syms()):
            return False
        return s.num.ge0(c.substmap(mp))
