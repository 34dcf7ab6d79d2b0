"""C22 Reference counts and ownership balance."""
from .. import frontend, ir, par
from ..dom import C, P, ZERO, sym, Poly
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, Parts, NULLR
from ..objs import Layout, World, heap
from ..report import Broken
from . import c14

META = {
    'level': 'proof',
    'technique': 'ownership analysis: abstract interpretation with reference counts of every allocation as typestate, through whole '
                 'life cycles and through single functions',
    'note': 'construction, use and destruction of brushes, fixed and GEGL surfaces, mappings, queues; any allocation that is checked may fail',
    'explanation': 'every allocation, JSON document and GObject created on a path is a token with a reference count. The token must be released '
                   'exactly once and never used afterwards, or belong to an object that is still alive when the path ends. Life cycles are '
                   'interpreted from construction to the last unref, with growth in between',
    'trusted': ['C10 for the contents of the operation queue, C06 for the operations taken from it', 'allocations that are not checked succeed'],
}
R_REF = 'reference counts change by one and the object goes with the last reference'
R_BAL = 'everything allocated on a path is released or kept by a living object'
R_ONCE = 'nothing is released twice, and only what is owned'
R_UAF = 'nothing is used after it is released'
R_DOC = 'documents made while loading are kept or released'

TS = 'MyPaintTiledSurface'
MALLOC = {'malloc': 0, 'g_malloc': 0, 'g_try_malloc': 0, 'gegl_malloc': 0, 'calloc': None, 'g_malloc0': 0, 'g_try_malloc0': 0,
          'aligned_alloc': 1, 'strdup': None, 'g_strdup': None, 'g_malloc_n': None, 'g_malloc0_n': None, 'reallocarray': None,
          'gegl_calloc': None}
ZEROED = ('calloc', 'g_malloc0', 'g_try_malloc0', 'g_malloc0_n', 'gegl_calloc')
FREE = ('free', 'g_free', 'gegl_free', 'g_slice_free1')
NEWOBJ = ('g_object_new', 'gegl_node_new', 'gegl_buffer_new', 'json_object_new_object', 'json_tokener_parse', 'json_object_new_array')
REF = ('g_object_ref', 'json_object_get')
UNREF = ('g_object_unref', 'json_object_put')
OWN = set(MALLOC) | set(FREE) | set(NEWOBJ) | set(REF) | set(UNREF) | {'realloc', 'g_realloc', 'g_clear_object', 'g_set_object'}
INTMAX = (1 << 31) - 1


class Own(Checker):
    maxstates = 48
    unroll_limit = 1300
    linear = True

    def __init__(self, rep, pr, name, unroll=True):
        self.rep, self.pr, self.name, self.unroll = rep, pr, name, unroll
        self.lay = Layout(pr)
        self.w = World(self.lay)
        self.regs = {}
        self.calls = {}

    def key(self, st):
        return tuple(sorted(((k, v) for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] in ('a', 'e')), key=repr))

    def join_ghost(self, gs):
        out = dict(gs[0])
        for g in gs[1:]:
            for k, v in g.items():
                if isinstance(k, tuple) and k[0] == 'n':
                    out[k] = max(v, out.get(k, 0))
        return out

    def force_unroll(self, I, fn, loop, st):
        return self.unroll

    def ob(self, I, inst, rule, ok, msg, key):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst) if inst is not None else self.name, '%s: %s' % (self.name, msg), key='%s@%s' % (key, self.name))

    # tokens
    def token(self, I, st, inst, ctx, what, size=None, zero=False, null=True):
        k = 0
        site = (I.where(inst), I.iid(inst))
        if self.unroll:
            k = st.ghost.get(('n', site), 0)
            st.ghost[('n', site)] = k + 1
        r = region(('tok', site, k), 'heap', '%s at %s' % (what, I.where(inst)) + ('#%d' % k if k else ''), nullable=null, uninit=not zero)
        r.size = size
        if not self.unroll and st.ghost.get(('a', r.id)):
            self.ob(I, inst, R_BAL, False, '%r of an earlier iteration was neither released nor handed over' % r, 'lost')
        self.regs[r.id] = r
        st.mem[r] = RegMem(0, not zero)
        if zero and size is not None:
            st.mem[r].fills = ((ZERO, size, ('zero',)),)
        st.null.pop(r, None)
        st.ghost[('a', r.id)] = 1
        return Ptr(r)

    def grab(self, st, r, n=1):
        self.regs[r.id] = r
        st.ghost[('a', r.id)] = st.ghost.get(('a', r.id), 0) + n

    def release(self, I, st, inst, name, v):
        if isinstance(v, Ptr) and (v.reg.kind == 'null' or st.isnull(v.reg) is True):
            return
        ok = isinstance(v, Ptr) and v.off == ZERO and ('a', v.reg.id) in st.ghost
        n = st.ghost.get(('a', v.reg.id), 0) if isinstance(v, Ptr) else 0
        self.ob(I, inst, R_ONCE, ok and n > 0, '%s of %r, %s' % (name, v, 'which is released already' if ok else 'which is not owned'), 'once')
        if ok:
            st.ghost[('a', v.reg.id)] = max(n - 1, 0)
            self.gone(I, st, inst, v.reg)

    def gone(self, I, st, inst, r):
        pass

    def dead(self, st, r):
        return st.ghost.get(('a', r.id)) == 0

    def on_load(self, I, st, inst, ptr, size, ty):
        if ptr.reg.id in self.regs:
            if st.isnull(ptr.reg) is None:
                st.assume(('nonnull', ptr.reg))      # the program goes on only if it was
            self.ob(I, inst, R_UAF, not self.dead(st, ptr.reg), 'read of %r after it was released' % ptr.reg, 'read')

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if ptr.reg.id in self.regs:
            if st.isnull(ptr.reg) is None:
                st.assume(('nonnull', ptr.reg))      # the program goes on only if it was
            self.ob(I, inst, R_UAF, not self.dead(st, ptr.reg), 'write to %r after it was released' % ptr.reg, 'write')

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def on_call(self, I, st, inst, name, args, ctx):
        r = self.special(I, st, inst, name, args, ctx)
        if r is not None:
            return r
        if name in MALLOC:
            k = MALLOC[name]
            size = I.uview(st, I.asnum(st, args[k]), 64, inst) if k is not None else None
            return [(st, self.token(I, st, inst, ctx, name, size, name in ZEROED, not name.startswith(('g_malloc', 'gegl_malloc', 'gegl_calloc'))))]
        if name in ('realloc', 'g_realloc'):
            bad = st.copy()
            self.release(I, st, inst, name, args[0])
            p = self.token(I, st, inst, ctx, name, I.uview(st, I.asnum(st, args[1]), 64, inst), True, False)
            st.mem[p.reg] = RegMem(0, False)
            return [(st, p), (bad, Ptr(NULLR))]
        if name in FREE or name in UNREF:
            self.release(I, st, inst, name, args[0])
            if name == 'json_object_put':
                return [(st, C(1))]
            return [(st, None)]
        if name in NEWOBJ:
            p = self.token(I, st, inst, ctx, name, None, True, not name.startswith('g'))
            st.mem[p.reg] = RegMem(0, False)
            return [(st, p)]
        if name in REF:
            v = args[0]
            if isinstance(v, Ptr) and st.isnull(v.reg) is not True:
                if v.reg.id in self.regs:
                    self.ob(I, inst, R_UAF, not self.dead(st, v.reg), '%s of %r after it was released' % (name, v.reg), 'ref')
                self.grab(st, v.reg)
            return [(st, v)]
        f = self.pr.functions.get(name)
        if f is not None and f.blocks and inst.ty.kind == 'void' and name not in self.roots and neutral(self.pr, name):
            return [(st, None)]
        if name in ('fprintf', 'printf', 'fwrite', 'puts', 'perror', 'g_log', 'g_warning', 'g_return_if_fail_warning', 'fputs', 'putchar'):
            return [(st, C(0) if inst.ty.kind == 'int' else None)]
        return None
    roots = ()

    def special(self, I, st, inst, name, args, ctx):
        return None

    def balance(self, I, st, keep, what):
        for k, n in sorted(st.ghost.items(), key=repr):
            if isinstance(k, tuple) and k[0] == 'a':
                r = self.regs[k[1]]
                if st.isnull(r) is True:
                    continue
                if r in keep:
                    self.rep.ob(R_BAL, n == keep[r], self.name, '%s: %r has %d references instead of %d' % (what, r, n, keep[r]), key='kept@%s' % self.name)
                else:
                    self.rep.ob(R_BAL, n == 0, self.name, '%s: %r is never released' % (what, r), key='leak %r@%s' % (r, self.name))

    def live(self, st):
        return {k[1]: n for k, n in st.ghost.items() if isinstance(k, tuple) and k[0] == 'a' and n and st.isnull(self.regs[k[1]]) is not True}


NEUTRAL = {}


def neutral(pr, name, stack=()):
    """the function and all it calls own nothing: stores to numbers of real type only, no allocation, release or indirect call"""
    k = (id(pr), name)
    if k in NEUTRAL:
        return NEUTRAL[k]
    if name in stack:
        return True
    f = pr.functions.get(name)
    if f is None or not f.blocks:
        return False
    ok = True
    n = 0
    for i in f.insts():
        n += 1
        if i.op == 'store' and i.ops and not local(f, i.ops[1]):
            ok = ok and getattr(i, 'ty', None) is not None and i.ty.kind in ('float', 'double')
        elif i.op == 'call':
            c = i.ops[0]
            if not isinstance(c, ir.GRef):
                ok = False
            elif c.name in pr.functions and pr.functions[c.name].blocks:
                ok = ok and neutral(pr, c.name, stack + (name,))
            else:
                ok = ok and c.name not in OWN and not c.name.startswith(('llvm.memcpy', 'llvm.memset', 'memset', 'memcpy', 'g_', 'gegl', 'json')) 
        if not ok:
            break
    if not stack:
        NEUTRAL[k] = ok
    return ok


def local(f, a):
    defs = {i.res: i for i in f.insts() if i.res}
    while isinstance(a, ir.Reg):
        i = defs.get(a.name)
        if i is None:
            return False
        if i.op == 'alloca':
            return True
        if i.op not in ('getelementptr', 'bitcast'):
            return False
        a = i.ops[0]
    return False


def refs(ck, I, s, obj, struct, path):
    """reference count stored in the object"""
    o, z = path
    v = I.read(s, obj, o, z, ir.I32, None, ('refcount',))
    return v


def cycle(ck, I, fn, st, obj, struct, path, ref, unref, prefix):
    """ref, unref and the last unref of a fresh object in state st"""
    rep = ck.rep
    a = refs(ck, I, st, obj, struct, path)
    rep.ob(R_REF, isinstance(a, Poly) and a == C(1), ck.name, 'a new object has %r references' % (a,), key='one@' + ck.name)
    live = ck.live(st)
    n = 0
    for s1, _ in I.call_fn(ck.pr.fn(ref), [Ptr(obj)], st, 0):
        b = refs(ck, I, s1, obj, struct, path)
        rep.ob(R_REF, b == C(2) and ck.live(s1) == live, ck.name, '%s leaves %r references and %r' % (ref, b, ck.live(s1)), key='ref@' + ck.name)
        for s2, _ in I.call_fn(ck.pr.fn(unref), [Ptr(obj)], s1, 0):
            ok = ck.live(s2) == live
            rep.ob(R_REF, ok, ck.name, '%s of an object that is referenced elsewhere releases something' % unref, key='early@' + ck.name)
            if not ok:
                continue
            b = refs(ck, I, s2, obj, struct, path)
            rep.ob(R_REF, b == C(1), ck.name, '%s leaves %r references of 2' % (unref, b), key='unref@' + ck.name)
            for s3, _ in I.call_fn(ck.pr.fn(unref), [Ptr(obj)], s2, 0):
                n += 1
                rep.ob(R_REF, ck.dead(s3, obj), ck.name, 'the last %s does not release the object' % unref, key='last@' + ck.name)
                ck.balance(I, s3, {}, prefix)
    rep.ob(R_REF, n > 0, ck.name, 'the life of the object does not end with its references', key='end@' + ck.name)


def member(ck, struct, name):
    o, z = ck.lay.member(struct, name)
    return C(o), z


def brush(rep, buckets):
    pr = par.shared()[0]
    reset()
    ck = Own(rep, pr, 'brush with %s smudge buckets' % ('some' if buckets else 'no'))
    ck.roots = ('mypaint_brush_new_with_buckets', 'mypaint_brush_new', 'mypaint_brush_ref', 'mypaint_brush_unref')
    I = Interp(pr, ck)
    n = 0
    args = [P(sym(('buckets',), 'buckets', 1, 255, True))] if buckets else []
    f = pr.fn('mypaint_brush_new_with_buckets' if buckets else 'mypaint_brush_new')
    for s, v in I.call_fn(f, args, State(), 0):
        if not isinstance(v, Ptr):
            raise Broken('constructor returns %r' % (v,))
        if v.reg.kind == 'null' or s.isnull(v.reg) is True:
            ck.balance(I, s, {}, 'failed construction')
            continue
        s.assume(('nonnull', v.reg))
        n += 1
        cycle(ck, I, f, s, v.reg, 'MyPaintBrush', member(ck, 'MyPaintBrush', 'refcount'), 'mypaint_brush_ref', 'mypaint_brush_unref', 'after the last unref')
    if not n:
        raise Broken('no brush is constructed')
    rep.analysed(*I.visited)


class Surf(Own):
    """surfaces: the loops over matrices and rectangles are summarised, the ones over tiles unrolled"""
    opq = True

    def force_unroll(self, I, fn, loop, st):
        return fn.name not in self.sums
    sums = ()

    def special(self, I, st, inst, name, args, ctx):
        f = self.pr.functions.get(name)
        if f is not None and f.params and 'sret' in str(f.params[0]) and name.startswith('mypaint_transform'):
            return [(st, None)]
        if name.startswith('g_type_check_instance_is'):
            return [(st, C(1))]
        if name.startswith('g_type_check_instance_cast'):
            return [(st, args[0])]
        if name == 'gegl_buffer_get_format':
            return [(st, Ptr(heap(('babl', repr(args[0])), 'format of buffer', 64)))]
        if name == 'g_object_get':
            for k, a in enumerate(args):
                if isinstance(a, Ptr) and a.reg.kind == 'alloca':
                    I.write(st, a.reg, a.off, 4, P(sym(('property', k, repr(args[0])), 'property', 0, INTMAX, True)), inst, ctx)
            return [(st, None)]
        if name.startswith('babl_') and inst.ty.kind == 'ptr':
            return [(st, Ptr(heap(('babl', name), name, 64)))]
        if name.startswith(('gegl_', 'babl_', 'g_')) and name not in self.pr.functions and name not in OWN:
            t = inst.ty
            return [(st, None if t.kind == 'void' else Ptr(heap((name, I.iid(inst)), name, 4096)) if t.kind == 'ptr' else
                     I.fresh((name, I.iid(inst), ctx), t, st, name))]
        return None


def surface(rep, kind):
    sh = par.shared()
    pr = sh[1] if kind == 'gegl' else sh[0]
    reset()
    ck = Surf(rep, pr, '%s surface' % kind)
    ck.roots = ('mypaint_surface_ref', 'mypaint_surface_unref')
    ck.sums = ('mypaint_update_symmetry_state', 'prepare_bounding_boxes', 'reset_null_tile')
    I = Interp(pr, ck)
    I.maxsteps *= 4
    if kind == 'gegl':
        f, st, args = pr.fn('mypaint_gegl_tiled_surface_new'), State(), []
        struct = 'MyPaintGeglTiledSurface'
    else:
        f, st = pr.fn('mypaint_fixed_tiled_surface_new'), State()
        args = [P(sym((n,), n, 1, INTMAX, True)) for n in ('width', 'height')]
        struct = 'MyPaintFixedTiledSurface'
    rc = member(ck, 'MyPaintSurface', 'refcount')
    n = 0
    for s, v in I.call_fn(f, args, st, 0):
        if v.reg.kind == 'null' or s.isnull(v.reg) is True:
            ck.balance(I, s, {}, 'failed construction')
            continue
        s.assume(('nonnull', v.reg))
        n += 1
        # a fresh surface, and one with everything grown and an operation in the queue
        cycle(ck, I, f, s.copy(), v.reg, struct, rc, 'mypaint_surface_ref', 'mypaint_surface_unref', 'after the last unref')
        for s2 in grow(ck, I, s, v.reg, kind):
            cycle(ck, I, f, s2, v.reg, struct, rc, 'mypaint_surface_ref', 'mypaint_surface_unref', 'after growth and the last unref')
    if not n:
        raise Broken('no surface is constructed')
    rep.analysed(*I.visited)


def grow(ck, I, s, obj, kind):
    pr = ck.pr
    lay = ck.lay
    sts = [s]
    te = lay.enum('MYPAINT_SYMMETRY_TYPE')
    rot, snow = te['MYPAINT_SYMMETRY_TYPE_ROTATIONAL'], te['MYPAINT_SYMMETRY_TYPE_SNOWFLAKE']
    for k, (lines, t) in enumerate(((40, rot), (100, snow)) if kind == 'fixed' else ()):
        nxt = []
        for x in sts:
            x = x.copy()
            f = pr.fn('mypaint_tiled_surface_set_symmetry_state')
            vals = {'self': Ptr(obj), 'active': C(1), 'type': C(t), 'symmetry_type': C(t), 'num_lines': C(lines), 'rot_symmetry_lines': C(lines)}
            args = [vals.get(p[0], ZERO) for p in f.params]
            for y, _ in I.call_fn(f, args, x, 0):
                for z, _ in I.call_fn(pr.fn('mypaint_tiled_surface_begin_atomic'), [Ptr(obj)], y, 0):
                    nxt.append(z)
        sts = I.limit(nxt, set(), ('grow', k)) if len(nxt) > 8 else nxt
    out = []
    for x in sts:
        q = I.read(x, obj, member(ck, TS, 'operation_queue')[0], 8, ir.PTR, None, ('q',))
        op = region(('tok', 'operation'), 'heap', 'queued operation')
        ck.regs[op.id] = op
        x.ghost[('a', op.id)] = 1
        x.mem[op] = RegMem(0, False)
        for y, _ in I.call_fn(pr.fn('operation_queue_add'), [q, Parts(8, [(0, 4, C(-2)), (4, 4, C(3))]), Ptr(op)], x, 0):
            out.append(y)
    if kind == 'gegl':
        nxt = []
        for x in out:
            b = region(('tok', 'caller'), 'heap', "caller's buffer")
            ck.regs[b.id] = b
            x.mem[b] = RegMem(0, False)
            for arg in (Ptr(b), Ptr(NULLR)):
                y = x.copy()
                y.ghost[('a', b.id)] = 1
                for z, _ in I.call_fn(pr.fn('mypaint_gegl_tiled_surface_set_buffer'), [Ptr(obj), arg], y, 0):
                    n = z.ghost[('a', b.id)]
                    ck.rep.ob(R_REF, n == (2 if arg.reg is b else 1), ck.name, 'buffer of the caller has %r references' % n, key='buffer@gegl')
                    if arg.reg is b:            # setting it again changes nothing
                        for z2, _ in I.call_fn(pr.fn('mypaint_gegl_tiled_surface_set_buffer'), [Ptr(obj), arg], z.copy(), 0):
                            ck.rep.ob(R_REF, ck.live(z2) == ck.live(z), ck.name, 'setting the same buffer again changes references', key='again@gegl')
                    z.ghost[('a', b.id)] -= 1       # the caller's own reference
                    nxt.append(z)
                    if arg.reg is b:
                        for z2, _ in I.call_fn(pr.fn('mypaint_gegl_tiled_surface_set_buffer'), [Ptr(obj), arg], z.copy(), 0):
                            ck.rep.ob(R_REF, ck.live(z2) == ck.live(z), ck.name, 'setting the same buffer again changes references', key='again2@gegl')
        out = nxt
    if not out:
        raise Broken('surface can not be used')
    return out


class Dab(Own):
    """queueing of dabs: every copy is handed to the queue"""
    unroll = False

    def special(self, I, st, inst, name, args, ctx):
        if name == 'operation_queue_add':
            self.calls['add'] = 1
            v = args[-1]
            ok = isinstance(v, Ptr) and st.ghost.get(('a', v.reg.id)) == 1
            self.ob(I, inst, R_ONCE, ok, 'hands %r to the queue, which is not an operation of its own' % (v,), 'hand')
            if ok:
                del st.ghost[('a', v.reg.id)]
                st.mem.pop(v.reg, None)
            return [(st, None)]
        if name == 'update_dirty_bbox':
            return [(st, None)]
        return None


def dab(rep):
    pr = par.shared()[0]
    fns, todo, seen = [], ['operation_queue_add'], set()
    while todo:
        name = todo.pop()
        for m in pr.modules:
            for f in m.functions.values():
                calls = [i for i in f.insts() if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == name]
                if calls and f.name not in seen:
                    seen.add(f.name)
                    params = {p[0] for p in f.params}
                    if any(isinstance(i.ops[-1], ir.Reg) and i.ops[-1].name in params for i in calls):
                        todo.append(f.name)     # passes on what it is given: look at its callers
                    else:
                        fns.append(f)
    if not fns:
        raise Broken('no operation is queued')
    for f in fns:
        reset()
        ck = Dab(rep, pr, f.name, False)
        ck.roots = (f.name,)
        I = Interp(pr, ck)
        st = State()
        args = [I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in f.params]
        n = 0
        for r, v in I.call_fn(f, args, st, 0):
            n += 1
            ck.balance(I, r, {}, 'dab queued')
        rep.ob(R_BAL, n > 0 and 'add' in ck.calls, f.name, 'no operation is queued', key='add@' + f.name)
        rep.analysed(*I.visited)


def geglreq(rep):
    pr = par.shared()[1]
    reset()
    ck = Surf(rep, pr, 'GEGL tile request')
    I = Interp(pr, ck)
    mod = next(m for m in pr.modules if 'mypaint_gegl_tiled_surface_new' in m.functions)
    st = State()
    s = ck.w.obj('surface', 'MyPaintGeglTiledSurface', 'surface')
    q = ck.w.obj('request', 'MyPaintTileRequest', 'request')
    n = 0
    # the functions the constructor installs
    start, end = installed(mod, 'mypaint_gegl_tiled_surface_new')
    for a, _ in I.call_fn(mod.functions[start], [Ptr(s), Ptr(q)], st, 0):
        for b, _ in I.call_fn(mod.functions[end], [Ptr(s), Ptr(q)], a, 0):
            n += 1
            ck.balance(I, b, {}, 'request ended')
    if not n:
        raise Broken('requests never end')
    f = pr.functions.get('save_png') or mod.functions.get('save_png')
    if f is not None:
        st = State()
        for a, _ in I.call_fn(f, [Ptr(s), Ptr(heap('path', 'path', 4096)), ZERO, ZERO, C(64), C(64)], st, 0):
            ck.balance(I, a, {}, 'picture saved')
    rep.analysed(*I.visited)


def installed(mod, ctor):
    for i in mod.functions[ctor].insts():
        if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == 'mypaint_tiled_surface_init':
            return i.ops[2].name, i.ops[3].name
    raise Broken('%s does not install tile functions' % ctor)


def single(rep, name, keepret):
    """one function: what it allocates is returned or released"""
    pr = par.shared()[0]
    reset()
    ck = Own(rep, pr, name, False)
    ck.roots = (name,)
    I = Interp(pr, ck)
    st = State()
    f = pr.fn(name)
    args = [I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in f.params]
    n = 0
    for s, v in I.call_fn(f, args, st, 0):
        n += 1
        keep = {v.reg: 1} if keepret and isinstance(v, Ptr) else {}
        ck.balance(I, s, keep, 'on return')
    if not n:
        raise Broken('%s never returns' % name)
    rep.analysed(*I.visited)


class Load(c14.Load):
    """reference counts of the documents"""
    def __init__(self, rep, pr):
        c14.Load.__init__(self, rep, pr, True)

    def ob(self, I, rule, ok, inst, msg, key):
        pass

    def alarm(self, *a):
        pass

    def key(self, st):
        return repr((c14.Load.key(self, st), sorted((k, v) for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'doc')))

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('json_object_put', 'json_object_get') and isinstance(args[0], Ptr) and st.isnull(args[0].reg) is not True:
            k = ('doc', args[0].reg.id)
            n = st.ghost.get(k, 0)
            if name == 'json_object_put':
                if I.recording:
                    self.rep.ob(R_ONCE, n > 0, I.where(inst), '%s of %r, which is not owned' % (name, args[0]), key='put@load')
                st.ghost[k] = max(n - 1, 0)
            else:
                st.ghost[k] = n + 1
            return [(st, C(1) if name == 'json_object_put' else args[0])]
        out = c14.Load.on_call(self, I, st, inst, name, args, ctx)
        if name in ('json_tokener_parse', 'json_object_new_object') and out:
            for s, v in out:
                if v.reg.kind != 'null':
                    s.ghost[('doc', v.reg.id)] = s.ghost.get(('doc', v.reg.id), 0) + 1
                    self.docs[v.reg.id] = v.reg
        return out
    docs = {}


def load(rep):
    pr = par.shared()[0]
    reset()
    ck = Load(rep, pr)
    ck.docs = {ck.old.id: ck.old}
    I = Interp(pr, ck)
    st = State()
    st.ghost[('doc', ck.old.id)] = 1
    where = 'mypaint-brush.c (%s)' % c14.ROOT
    n = 0
    for s, v in I.call_fn(pr.fn(c14.ROOT), [Ptr(ck.brush), Ptr(heap('text', 'text', 1 << 20, nullable=True))], st, 0):
        n += 1
        root = ck.member(I, s, 'brush_json', 'p')
        for i, r in ck.docs.items():
            k = s.ghost.get(('doc', i), 0)
            if s.isnull(r) is True:
                continue
            want = 1 if isinstance(root, Ptr) and root.reg is r else 0
            if k:
                rep.ob(R_DOC, k == want, where, '%r has %d references instead of %d' % (r, k, want), key='doc %r' % (r.key,))
            else:
                rep.ob(R_DOC, want == 0, where, 'the brush keeps %r, which is released' % (r,), key='doc %r' % (r.key,))
    if not n:
        raise Broken('loading never returns')
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    g = w.program(gegl=True)
    full = None
    if g is not None:
        full = frontend.merge(pr, g)
    jobs = [(load, ()), (brush, (True,)), (brush, (False,)), (surface, ('fixed',)), (dab, ()), (single, ('mypaint_rectangle_copy', True))]
    if full is not None:
        jobs += [(surface, ('gegl',)), (geglreq, ())]
    else:
        rep.assume('GEGL backend not analysed (gegl development files missing)')
    par.run(rep, jobs, ctx=(pr, full))
    for r, n in ((R_REF, 100), (R_BAL, 500), (R_ONCE, 300), (R_UAF, 1000), (R_DOC, 4)):
        rep.require(r, n)
