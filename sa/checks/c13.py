"""C13 Parallel tile processing is race-free."""
from .. import ir, irq, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, FnV, Parts, region, reset, NULLR
from ..objs import Layout, World, heap
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of the OpenMP-outlined functions: ownership of every object accessed (iteration, tile, shared) '
                 'and lock sets at every access of shared memory',
    'note': 'the sources are compiled with -fopenmp; an arbitrary iteration of every parallel loop, all callees included',
    'explanation': 'objects created in an iteration are its own; an object reached through an address that depends on the whole index of '
                   'the tile of the iteration belongs to that tile; everything else is shared and may only be written with a lock held '
                   'that all other accesses hold as well',
    'trusted': ['GEGL buffers and iterators, printf, malloc and free are thread-safe',
                'an address computed from the index of a tile differs for different tiles (C10 decides that for the tile map)'],
}
R_FORK = 'tiles are processed in parallel only if requests are thread-safe'
R_WRITE = 'shared memory is written under a lock'
R_READ = 'memory that is written is accessed under the same lock'
R_CALL = 'unprotected calls have no shared state'
R_BAL = 'locks are released'
R_SUR = 'surfaces that claim thread-safe requests have them'

TS = 'MyPaintTiledSurface'
# external functions with hidden state, not to be called concurrently
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'strtok', 'setlocale', 'strerror',
            'localtime', 'gmtime', 'asctime', 'ctime', 'getenv', 'setenv', 'putenv', 'g_random_int', 'lgamma'}
ENTER = {'__kmpc_critical': 2, '__kmpc_critical_with_hint': 2, 'omp_set_lock': 0, 'omp_set_nest_lock': 0, 'g_mutex_lock': 0,
         'pthread_mutex_lock': 0, '__kmpc_ordered': 0, 'GOMP_critical_start': None}
LEAVE = {'__kmpc_end_critical': 2, 'omp_unset_lock': 0, 'omp_unset_nest_lock': 0, 'g_mutex_unlock': 0,
         'pthread_mutex_unlock': 0, '__kmpc_end_ordered': 0}


PURE = {'sqrt', 'exp', 'log', 'log2', 'pow', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'floor', 'ceil', 'round', 'roundf', 'fabs', 'fmin',
        'fmax', 'fmod', 'hypot', 'abs', 'isfinite', 'isnan', 'isinf', 'trunc', 'lround', 'lrint', 'rint', 'cbrt', 'exp2', '__assert_fail',
        'copysign', 'ldexp', 'frexp', 'sinh', 'cosh', 'tanh', 'nearbyint'}


def summary(pr, f, memo):
    """(parameters read through, parameters written through) of a function that touches nothing else, or None"""
    from .. import frontend
    if f in memo:
        return memo[f]
    memo[f] = None
    index = {p[0]: k for k, p in enumerate(f.params)}
    defs = {i.res: i for i in f.insts() if i.res is not None}
    rd, wr = set(), set()

    def bases(v, seen):
        if not isinstance(v, ir.Reg):
            gs = [f.module.globals.get(n) or pr.globals.get(n) for n in irq.grefs(v)]
            return {'const'} if all(g is not None and g.const for g in gs) else None
        if v.name in index:
            return {index[v.name]}
        if v.name in seen:
            return set()
        seen.add(v.name)
        i = defs.get(v.name)
        if i is None:
            return None
        if i.op == 'alloca':
            return {'local'}
        if i.op in ('getelementptr', 'bitcast'):
            return bases(i.ops[0], seen)
        if i.op in ('phi', 'select'):
            out = set()
            for o in (irq.operands(i) if i.op == 'phi' else i.ops[1:]):
                b = bases(o, seen)
                if b is None:
                    return None
                out |= b
            return out
        return None

    def use(v, into):
        b = bases(v, set())
        if b is None or 'const' in b and into is wr:
            return False
        into.update(x for x in b if isinstance(x, int))
        return True
    for i in f.insts():
        if i.op == 'load' and (not use(i.ops[0], rd) or i.ty.kind == 'ptr'):
            return None
        if i.op == 'store' and (not use(i.ops[1], wr) or isinstance(i.x, dict) and i.x.get('atomic')):
            return None
        if i.op == 'store' and isinstance(i.ops[0], ir.Reg) and i.ty.kind == 'ptr':
            return None
        if i.op in ('atomicrmw', 'cmpxchg', 'other'):
            return None
        if i.op == 'call':
            c = i.ops[0]
            if not isinstance(c, ir.GRef):
                return None
            if c.name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                if not use(i.ops[1], wr) or 'memset' not in c.name and not use(i.ops[2], rd):
                    return None
                continue
            if c.name.startswith('llvm.'):
                continue
            g = frontend.resolve(pr, f.module, c.name)
            if g is None:
                if c.name in PURE or c.name[:-1] in PURE and c.name[-1] in 'fl':
                    continue
                return None
            s = summary(pr, g, memo)
            if s is None:
                return None
            for part, into in zip(s, (rd, wr)):
                for k in part:
                    if not use(i.ops[1 + k], into):
                        return None
    if any(p[1].kind == 'ptr' and ('byval' in p[2] or 'sret' in p[2]) for p in f.params if isinstance(p[2], dict)):
        return None
    if f.ret.kind == 'ptr' if hasattr(f, 'ret') else False:
        return None
    memo[f] = (frozenset(rd), frozenset(wr))
    return memo[f]


class Par(Checker):
    linear = True
    alias_loads = True
    maxstates = 6

    def __init__(self, rep, pr, forks):
        self.rep, self.pr, self.forks = rep, pr, forks
        self.lay = Layout(pr)
        self.own = {}           # region -> 'tile' | 'shared'
        self.writes, self.reads = {}, {}
        self.forked = 0
        self.memo = {}
        self.demoted, self.changed = set(), False
        self.born = None
        self.calls = 0
        z = self.lay.member(TS, 'threadsafe_tile_requests')
        self.flag = C(z[0])
        self.request = self.lay.size('MyPaintTileRequest'), self.lay.member('MyPaintTileRequest', 'buffer')[0]

    def key(self, st):
        return (st.ghost.get('locks', ()), st.ghost.get('par'))

    def join_ghost(self, gs):
        out = dict(gs[0])
        ext = [set(g.get('ext', ())) for g in gs]
        out['ext'] = frozenset(set.intersection(*ext))
        return out

    def ob(self, I, rule, ok, inst, msg, key):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst), msg, key=key)

    # ---------------------------------------------------------------- what belongs to an iteration
    def deps(self, x, out=None, seen=None):
        """tile index components and iteration counters that a value was computed from"""
        out = set() if out is None else out
        seen = set() if seen is None else seen
        if isinstance(x, Poly):
            if self.iteration(x):
                out.add(('iter',))
            for s in x.syms():
                if s in seen:
                    continue
                seen.add(s)
                k = SYMS[s].key
                if isinstance(k, tuple) and k[:1] == ('elem',):
                    out.add(k[1:3])
                elif isinstance(k, tuple) and k[:1] == ('thread',):
                    out.add(('iter',))
                elif self.merges(SYMS[s]) or self.fixed(SYMS[s]):
                    continue
                else:
                    self.deps(k, out, seen)
                    if SYMS[s].defn is not None:
                        self.deps(SYMS[s].defn, out, seen)
        elif isinstance(x, (tuple, list)):
            for y in x:
                self.deps(y, out, seen)
        elif isinstance(x, Parts):
            for _, _, v in x.parts:
                self.deps(v, out, seen)
        elif isinstance(x, Ptr):
            self.deps(x.off, out, seen)
            if x.reg not in seen:
                seen.add(x.reg)
                if self.own.get(x.reg) == 'tile':
                    out.add(('iter',))
        return out

    def merges(self, s):
        """an operation that gives the same result for different operands"""
        k, d = s.key, s.defn
        return (isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple) and k[1][:1] == ('lin',)
                and k[1][1] in ('udiv', 'sdiv', 'urem', 'srem', 'and', 'lshr', 'ashr') or d is not None and d[0] in ('floor', 'trunc', 'max', 'min'))

    def complete(self, d):
        if ('iter',) in d:
            return True
        by = {}
        for t in d:
            by.setdefault(t[0], set()).add(t[1])
        return any(len(v) > 1 for v in by.values())

    def pointer_attr(self, I, ptrs):
        return 'own' if all(self.owned(None, p) for p in ptrs) else None

    def on_backedge(self, I, header, back, fn, loop, ctx):
        def check(a, b):
            if isinstance(a, Ptr) and a.reg.key[0] == 'lpt' and a.reg.key[-1] == 'own' and a.reg not in self.demoted:
                if not (isinstance(b, Ptr) and self.owned(None, b)):
                    self.demoted.add(a.reg)
                    self.changed = True
        for n, v in header.env.items():
            check(v, back.env.get(n))
        for r, m in header.mem.items():
            for off, (z, v) in m.cells.items():
                if isinstance(v, Ptr):
                    c = back.mem[r].cells.get(off) if r in back.mem else None
                    check(v, c[1] if c else None)

    def owned(self, st, ptr):
        r = ptr.reg
        if r.key[0] in ('jp', 'lpt') and r.key[-1] == 'own':
            return r not in self.demoted
        if r.kind == 'null':
            return True
        o = self.own.get(r)
        if o == 'tile':
            return True
        if r.kind == 'alloca' and o is None:
            return True
        if r.kind == 'heap' and o is None:           # allocated by the iteration itself
            return True
        return self.complete(self.deps(ptr.off))

    def iteration(self, p):
        """the counter of the parallel loop with a constant factor, and terms that are the same in all iterations -> (factor, rest)"""
        f, base, rest = None, False, {}
        for m, c in p.t.items():
            k = self.counter(SYMS[m[0]]) if len(m) == 1 else None
            if k is not None:
                if f is not None and f != c:
                    return None
                f, base = c, base or k
            else:
                if any(not self.fixed(SYMS[x]) for x in m):
                    return None
                rest[m] = c
        return (f, Poly(rest)) if base else None

    def counter(self, s):
        """part of the iteration number of a parallel loop: True the start of the share of a thread, False the steps from it"""
        k = s.key
        if not isinstance(k, tuple):
            return None
        if k[0] == 'u' and isinstance(k[1], tuple) and k[1][:1] == ('ld',) and isinstance(k[1][2], tuple) and k[1][2][:1] == ('hv',):
            return True if k[1][2][1][:1] == ('omp.lb',) else None
        if k[0] == 'n' and (s.name or '').startswith('n_omp.'):
            return False
        if k[0] == 'lo' and '.omp.iv' in repr(k[1][-1]):
            return True
        return None

    def fixed(self, s):
        """known before the region is entered, or loaded from memory"""
        k = s.key
        if self.born is not None and s.id < self.born:
            return True
        return isinstance(k, tuple) and k[0] == 'u' and isinstance(k[1], tuple) and k[1][:1] in (('ld',), ('ldu',), ('ldf',)) and self.counter(s) is None

    # ---------------------------------------------------------------- hooks
    def unknown_load(self, I, st, reg, off, ty, key):
        if not st.ghost.get('par'):
            return None
        p = Ptr(reg, off)
        mine = self.owned(st, p)
        if ty.kind == 'ptr':
            if reg.kind == 'alloca' and self.own.get(reg) is None:
                mine = reg.key in st.ghost.get('ext', ())
            r = region(('c13', reg.key, off, key[2], mine), 'unk', '*(%s+%r)' % (reg, off), nullable=True)
            self.own[r] = 'tile' if mine else 'shared'
            return Ptr(r)
        if ty.kind == 'int' and reg.kind != 'alloca' and self.own.get(reg) != 'tile':
            t = self.iteration(off)
            if t is not None and abs(t[0]) >= I.tysize(I.curmod(), ty):
                c = t[1].t.get((), 0)
                rest = t[1] - C(c)
                return P(sym(('elem', (reg.key, t[0], rest), int(c) % int(abs(t[0])), key[2], off), 'tile index', -(1 << 31), (1 << 31) - 1, True))
        return None

    def access(self, I, st, inst, ptr, write, locks=None):
        if not st.ghost.get('par') or not isinstance(ptr, Ptr) or not I.recording:
            return
        if self.owned(st, ptr) or ptr.reg.kind == 'glob' and ptr.reg.glob[0].const:
            return
        held = set(st.ghost.get('locks', ()))
        if isinstance(inst.x, dict) and inst.x.get('atomic'):
            held.add('atomic')
        held |= set(locks or ())
        where = (ptr.reg.key, ptr.off if ptr.off.isconst() else None)
        what = '%s+%r' % (ptr.reg, ptr.off)
        (self.writes if write else self.reads).setdefault(where, []).append((frozenset(held), I.where(inst), what))
        if write:
            self.ob(I, R_WRITE, bool(held), inst, 'shared memory %s is written without a lock' % what, 'write %s' % I.where(inst))

    def on_store(self, I, st, inst, ptr, size, val, ty):
        self.access(I, st, inst, ptr, True)
        if st.ghost.get('par') and isinstance(val, tuple) and val[:1] == ('copy',) and isinstance(val[1], Ptr):
            self.access(I, st, inst, val[1], False)

    def on_load(self, I, st, inst, ptr, size, ty):
        self.access(I, st, inst, ptr, False)

    def on_icall(self, I, st, inst, fv, args, ctx):
        if not st.ghost.get('par'):
            return None
        request = any(isinstance(a, Ptr) and self.owned(st, a) and a.reg.size is not None and a.reg.size == C(self.request[0]) for a in args)
        self.external(I, st, inst, 'the surface', [a for a in args if not request or not isinstance(a, Ptr) or self.owned(st, a)], ctx)
        return [(st, I.fresh(('icall', ctx, I.iid(inst)), inst.ty))]

    def external(self, I, st, inst, name, args, ctx):
        """code elsewhere: writes the objects it is given the address of"""
        held = st.ghost.get('locks', ())
        for a in args:
            if not isinstance(a, Ptr):
                continue
            r = a.reg
            if self.owned(st, a) and r.kind == 'alloca':
                d = self.deps([v for _, v in st.mem[r].cells.values()]) if r in st.mem else set()
                I.havoc_region(st, r, (ctx, I.iid(inst)))
                if self.complete(d):
                    st.ghost['ext'] = frozenset(st.ghost.get('ext', ())) | {r.key}
            elif not self.owned(st, a) and self.inner(r, a.off):
                self.access(I, st, inst, a, True)

    def inner(self, r, off):
        """address of a member or variable, in contrast to an object of the library that is called"""
        return not (r.kind == 'unk' and off.isconst() and off.cval() == 0) and r.kind != 'glob'

    def on_call(self, I, st, inst, name, args, ctx):
        if name in self.forks:
            if self.forks[name] == 'seq':
                return [(st, None)]
        if name == '__kmpc_fork_call':
            return self.fork(I, st, inst, args, ctx)
        if name.startswith('__kmpc_global_thread_num') or name == 'omp_get_thread_num':
            return [(st, P(sym(('thread',), 'thread', 0, 1 << 16, True)))]
        if name in ENTER or name in LEAVE:
            t = ENTER if name in ENTER else LEAVE
            k = t[name]
            lock = repr(args[k]) if k is not None and k < len(args) else name
            held = set(st.ghost.get('locks', ()))
            if name in ENTER:
                held.add(lock)
            else:
                held.discard(lock)
            st.ghost['locks'] = tuple(sorted(held))
            return [(st, None)]
        if name.startswith('__kmpc_reduce'):
            out = []
            for v in (0, 1, 2):                   # nothing to do, combine under the runtime's lock, combine atomically
                s = st.copy()
                if v == 1:
                    s.ghost['locks'] = tuple(sorted(set(s.ghost.get('locks', ())) | {'atomic'}))
                out.append((s, C(v)))
            return out
        if name.startswith('__kmpc_end_reduce'):
            st.ghost['locks'] = tuple(x for x in st.ghost.get('locks', ()) if x != 'atomic')
            return [(st, None)]
        if name.startswith('__kmpc_for_static_init') or name.startswith('__kmpc_dispatch_'):
            for a in args:
                if isinstance(a, Ptr) and a.reg.kind == 'alloca':
                    I.havoc_region(st, a.reg, ('omp.lb', ctx, I.iid(inst)))
            return [(st, I.fresh(('omp', ctx, I.iid(inst)), inst.ty))]
        if name.startswith(('__kmpc_', 'omp_')):
            return [(st, I.fresh(('omp', ctx, I.iid(inst)), inst.ty))]
        if not st.ghost.get('par'):
            return None
        from .. import frontend, models
        g = frontend.resolve(self.pr, inst.fn.module, name)
        if g is not None:
            m = summary(self.pr, g, self.memo)
            if m is None:
                return None
            I.visited.add(name)
            for k in m[0] | m[1]:
                a = args[k]
                if isinstance(a, Ptr):
                    self.access(I, st, inst, a, k in m[1])
                    if k in m[1] and a.reg.kind != 'null':
                        I.havoc_region(st, a.reg, (ctx, I.iid(inst), k))
            return [(st, I.fresh(('sum', ctx, I.iid(inst)), inst.ty))]
        if name.startswith('llvm.'):
            return None
        self.calls += 1
        bad = name in STATEFUL and not st.ghost.get('locks')
        self.ob(I, R_CALL, not bad, inst, '%s has state shared by all threads' % name, 'call ' + name)
        if name == 'free':
            if isinstance(args[0], Ptr):
                self.access(I, st, inst, args[0], True)
            return [(st, None)]
        if models.lookup(name) is not None:
            return None
        self.external(I, st, inst, name, args, ctx)
        v = I.fresh(('ext', name, ctx, I.iid(inst)), inst.ty)
        if isinstance(v, Ptr):
            d = self.deps(args)
            for a in args:
                if isinstance(a, Ptr) and a.reg.key in st.ghost.get('ext', ()):
                    d.add(('iter',))
            self.own[v.reg] = 'tile' if self.complete(d) else 'shared'
        return [(st, v)]

    def fork(self, I, st, inst, args, ctx):
        target = [a for a in args if isinstance(a, FnV)]
        if not target:
            raise Broken('%s: unknown parallel region' % I.where(inst))
        self.forked += 1
        if self.surface is not None:
            v = I.asnum(st, I.read(st, self.surface, self.flag, 4, ir.I32, None, ('flag',)))
            self.ob(I, R_FORK, st.decide(('ne', v)) is True, inst, 'the tiles are processed in parallel although requests may not be thread-safe', 'fork')
        if self.born is None:
            self.born = len(SYMS)
        s = st.copy()
        s.ghost['par'] = True
        s.ghost['locks'] = ()
        rest = args[args.index(target[0]) + 1:]
        tid = Ptr(heap(('tid', inst.fn.name), 'thread id', 4))
        for r in list(s.mem):
            if r.kind in ('alloca', 'heap'):
                self.own.setdefault(r, 'shared')
        for a in rest:
            if isinstance(a, Ptr):
                self.own.setdefault(a.reg, 'shared')
        f = self.pr.fn(target[0].name) if target[0].name in self.pr.functions else inst.fn.module.functions[target[0].name]
        for x, v in I.call_fn(f, [tid, tid] + rest, s, 0):
            self.ob(I, R_BAL, not x.ghost.get('locks'), inst, 'an iteration ends with a lock held', 'balance')
        for a in rest:
            if isinstance(a, Ptr):
                I.havoc_region(st, a.reg, ('forked', I.iid(inst)))
        return [(st, None)]

    def conclude(self, name):
        for w, ws in self.writes.items():
            common = frozenset.intersection(*[x[0] for x in ws])
            for r, rs in self.reads.items():
                if r[0] == w[0] and (r[1] is None or w[1] is None or r[1] == w[1]):
                    common = frozenset.intersection(common, *[x[0] for x in rs])
            ok = bool(common) or not all(x[0] for x in ws)          # (no lock at all: reported at the write)
            self.rep.ob(R_READ, ok, ws[0][1], '%s: %s is not protected by one lock everywhere' % (name, ws[0][2]), key='lock %s' % ws[0][1])


def parallel(pr):
    """outlined functions: {name: function that forks them}; wrappers called directly are the sequential case"""
    out = {}
    for m in pr.modules:
        for f in m.functions.values():
            for i in f.insts():
                if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == '__kmpc_fork_call':
                    for o in i.ops[1:]:
                        if isinstance(o, ir.GRef) and o.name in m.functions:
                            out[o.name] = f
    return out


def settle(ck, go):
    """repeat until the guesses about loop variables hold; only the last run counts"""
    rep = ck.rep
    for _ in range(8):
        ck.changed = False
        ck.writes, ck.reads = {}, {}
        ck.rep = Tape()
        r = go()
        if not ck.changed:
            for a, k in ck.rep.obs:
                rep.ob(*a, **k)
            ck.rep = rep
            return r
    raise Broken('no fixpoint of ownership')


class Tape:
    def __init__(self):
        self.obs = []

    def ob(self, *a, **k):
        self.obs.append((a, k))


def region_job(rep, root):
    pr = par.shared()[0]
    reset()
    forks = parallel(pr)
    f = [g for g in forks.values() if g.name == root][0]
    ck = Par(rep, pr, {n: 'seq' for n in forks})
    ck.surface = None
    I = Interp(pr, ck)
    st = State()
    args = []
    for nm, ty, _ in f.params:
        if ty.kind == 'ptr':
            r = region(('arg', nm), 'arg', nm)
            ck.own[r] = 'shared'
            if not args:
                ck.surface = r
            args.append(Ptr(r))
        else:
            args.append(I.fresh(('par', nm), ty, st, nm))
    settle(ck, lambda: I.call_fn(f, args, st.copy(), 0))
    if not ck.forked:
        raise Broken('%s has no reachable parallel region' % root)
    ck.conclude(root)
    rep.ob(R_CALL, True, root)
    rep.analysed(*I.visited)


def flagged(pr):
    """[(module, request start, request end)] of surfaces that claim thread-safe requests"""
    lay = Layout(pr)
    off = lay.member(TS, 'threadsafe_tile_requests')[0]
    out = []
    for m in pr.modules:
        claims, impl = False, []
        for f in m.functions.values():
            geps = {}
            for i in f.insts():
                if i.op == 'getelementptr':
                    st, tys = i.x
                    if st.kind == 'named' and st.a.split('.')[-1].lstrip('_') == TS and len(i.ops) == 3:
                        k = i.ops[2]
                        if isinstance(k, ir.Const) and m.field_offset(st, int(k.v))[0] == off:
                            geps[i.res] = True
                if i.op == 'store' and isinstance(i.ops[1], ir.Reg) and i.ops[1].name in geps:
                    v = i.ops[0]
                    if not (isinstance(v, ir.Const) and v.v == 0):
                        claims = True
                if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == 'mypaint_tiled_surface_init':
                    impl.append([irq.grefs(o) for o in i.ops[2:4]])
        if claims and impl:
            for s in impl:
                out += [(m, n[0]) for n in s if n]
    return out


def request_job(rep, k, modname, name):
    """a request function of a surface, called for the tile of an iteration"""
    pr = par.shared()[k]
    reset()
    ck = Par(rep, pr, {n: 'seq' for n in parallel(pr)})
    ck.surface = None
    I = Interp(pr, ck)
    st = State()
    st.ghost['par'] = True
    st.ghost['locks'] = ()
    mod = [m for m in pr.modules if m.name == modname][0]
    f = mod.functions[name]
    lay = ck.lay
    args = []
    for j, (nm, ty, _) in enumerate(f.params):
        if j == 1:
            r = heap(('request', nm), nm, lay.size('MyPaintTileRequest'))
            ck.own[r] = 'tile'
            for t, n in enumerate(('tx', 'ty')):
                o, z = lay.member('MyPaintTileRequest', n)
                I.write(st, r, C(o), z, P(sym(('elem', ('request',), t), n, -(1 << 31), (1 << 31) - 1, True)), None, ('init',))
        else:
            r = region(('arg', nm), 'arg', nm)
            ck.own[r] = 'shared'
        args.append(Ptr(r))
    for s, v in settle(ck, lambda: I.call_fn(f, args, st.copy(), 0)):
        rep.ob(R_BAL, not s.ghost.get('locks'), name, 'returns with a lock held', key='balance ' + name)
    ck.conclude(name)
    rep.ob(R_SUR, True, '%s (%s)' % (modname, name))
    rep.analysed(*I.visited)


def run(rep, w):
    prs = [w.program(openmp=True, tag='omp'), w.program(openmp=True, gegl=True, tag='ompg')]
    prs = [p for p in prs if p is not None]
    forks = parallel(prs[0])
    roots = sorted({f.name for f in forks.values()})
    jobs = [(region_job, (r,)) for r in roots]
    for k, p in enumerate(prs):
        for m, n in flagged(p):
            jobs.append((request_job, (k, m.name, n)))
    rep.set('regions', roots)
    rep.set('requests', [j[1][2] for j in jobs if j[0] is request_job])
    par.run(rep, jobs, ctx=prs)
    rep.require(R_FORK, len(roots))
    rep.ob(R_CALL, True, 'parallel regions')
    rep.require(R_CALL, 1)
