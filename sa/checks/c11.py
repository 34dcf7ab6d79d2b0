"""C11 Constructors return fully initialised objects."""
from .. import ir, irq, frontend
from ..dom import C, P, sym, Poly, ZERO, SYMS
from ..interp import Checker, Interp, State, Ptr, FnV, region, reset, Parts, UNDEF, RegMem
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of constructors with uninitialised memory tracking; definite-assignment dataflow for locals',
    'note': 'all constructors; fixed list of arrays whose unused elements are exempt; locals of every function',
    'explanation': 'each constructor is interpreted on uninitialised memory and every scalar of the object graph it returns is checked '
                   'to have been written; a forward must-assign analysis covers local variables of all functions',
    'trusted': ['the C library returns uninitialised memory from malloc and realloc, zeroed memory from calloc'],
}
R_OBJ = 'every field of the returned object is initialised'
R_ARR = 'every element of the returned array is initialised'
R_LOC = 'local variable is set before it is read'

# elements that the object marks as unused itself: (structure, member holding the array or pointing to it)
UNUSED = {
    ('ControlPoints', 'xvalues'): 'beyond n',
    ('ControlPoints', 'yvalues'): 'beyond n',
    ('OperationQueue', 'dirty_tiles'): 'beyond dirty_tiles_n',
    ('RngDouble', 'ranf_arr_buf'): 'behind the refill marker',
    ('MyPaintSymmetryData', 'symmetry_matrices'): 'computed when symmetry becomes active',
}


class Ck(Checker):
    linear = True
    maxstates = 8

    def __init__(self, stop=()):
        self.stop = tuple(stop)
        self.hit = None
        self.types = {}

    def alarm(self, I, st, kind, inst, msg):
        if kind == 'uninit':
            self.hit = I.where(inst) + ': ' + msg

    def on_call(self, I, st, inst, name, args, ctx):
        if name in self.stop and inst.ty.kind == 'ptr':
            r = region(('made', name, ctx, I.iid(inst)), 'heap', '%s()' % name)
            return [(st, Ptr(r))]
        return None


class Types:
    def __init__(self, pr):
        self.pr = pr
        self.by = {}
        for m in pr.modules:
            for n in m.structs:
                s = n.replace('struct.', '').lstrip('_')
                try:
                    size = m.size_align(ir.Type('named', n))[0]
                except Exception:
                    continue
                self.by.setdefault(s, (m, ir.Type('named', n), size))
        self.memb = {}

    def members(self, s):
        if s not in self.memb:
            out = None
            for m in self.pr.modules:
                out = m.di_struct(s)
                if out:
                    break
            self.memb[s] = out or []
        return self.memb[s]


def walk(rep, I, ck, st, tys, reg, sname, base, path, ctor, wh, seen, depth=0):
    """checks the structure sname at reg+base"""
    if (reg, base) in seen or depth > 6:
        return
    seen.add((reg, base))
    ent = tys.by.get(sname)
    if ent is None:
        raise Broken('structure type %s not found' % sname)
    m, ty, size = ent
    for off, t, f, ex in fields(tys, m, ty, sname):
        if ex and t.kind != 'ptr':
            continue
        ck.hit = None
        v = I.read(st, reg, base + C(off), m.size_align(t)[0], t, None, ('c11', ctor))
        ok = ck.hit is None and v is not UNDEF
        mm = st.mem.get(reg)
        if mm is not None and mm.uninit == 'maybe' and isinstance(v, Poly) and v.syms() and \
                any(SYMS[x].key[0] == 'u' and SYMS[x].key[1][0] in ('ld', 'ldu') for x in v.syms()):
            ok = False              # some path of a loop leaves it as allocated
        if isinstance(v, Poly) and any(isinstance(x.key, tuple) and x.key[0] == 'undefld' for x in map(symof, v.syms()) if x is not None):
            ok = False
        rep.ob(R_OBJ, ok, wh, '%s.%s is not initialised' % (path, f), key='%s.%s@%s' % (path, f, ctor))
        if ex or not isinstance(v, Ptr) or v.reg.kind != 'heap' or st.isnull(v.reg) is True:
            continue
        array(rep, I, ck, st, tys, v, '%s.%s' % (path, f), ctor, wh, seen, depth)


def fields(tys, m, ty, sname, base=0):
    """(offset, scalar type, member name, exempt) of every scalar; nested structures by their own member tables"""
    mem = tys.members(sname)
    out = []
    for i, t in enumerate(m.fields(ty)):
        o, _ = m.field_offset(ty, i)
        n = next((n for n, a, s in mem if a <= o < a + s), '+%d' % o)
        if t.kind == 'named':
            out += fields(tys, m, t, t.a.replace('struct.', '').lstrip('_'), base + o)
        else:
            out += [(base + o + p, x, n, (sname, n) in UNUSED) for p, x in m.leaves(t)]
    return out


def symof(s):
    return s if hasattr(s, 'key') else None


POINTEE = {}


def array(rep, I, ck, st, tys, v, path, ctor, wh, seen, depth):
    r = v.reg
    mm = st.mem.get(r)
    if mm is None or not r.uninit or any(x[0] is r for x in seen):
        return
    field = path.split('.')[-1]
    sname = POINTEE.get(field)
    if sname:
        m, ty, size = tys.by[sname]
        n = r.size.cval() if r.size is not None and r.size.isconst() else None
        if n is None or n % size:
            raise Broken('%s: size of %s unknown (%r)' % (ctor, path, r.size))
        for k in range(int(n) // size):
            walk(rep, I, ck, st, tys, r, sname, C(k * size), path if n == size else path + '[]', ctor, wh, seen, depth + 1)
        return
    seen.add((r, 'arr'))
    rep.ob(R_ARR, covered(st, mm, r), wh, 'memory behind %s is not initialised' % path, key='%s[]@%s' % (path, ctor))


def covered(st, mm, r):
    if not mm.uninit:
        return True
    iv = []
    for a, b, what in mm.fills:
        if r.size is not None and st.num.ge0(-a) and st.num.ge0(b - r.size):
            return True
        if a.isconst() and b.isconst():
            iv.append((a.cval(), b.cval()))
    for o, (s, v) in mm.cells.items():
        if o.isconst() and v is not UNDEF:
            iv.append((o.cval(), o.cval() + s))
    if r.size is None or not r.size.isconst():
        return False
    p = 0
    for a, b in sorted(iv):
        if a > p:
            return False
        p = max(p, b)
    return p >= r.size.cval()


CTORS = [   # function, structure, functions taken as constructed separately, constant arguments
    ('mypaint_brush_new', 'MyPaintBrush', ('mypaint_mapping_new', 'rng_double_new', 'json_object_new_object'), {}),
    ('mypaint_brush_new_with_buckets', 'MyPaintBrush', ('mypaint_mapping_new', 'rng_double_new', 'json_object_new_object'), {}),
    ('mypaint_mapping_new', 'MyPaintMapping', (), 'calls'),
    ('mypaint_fixed_tiled_surface_new', 'MyPaintFixedTiledSurface', (), {}),
    ('operation_queue_new', 'OperationQueue', (), {}),
    ('tile_map_new', 'TileMap', (), 'calls'),
    ('fifo_new', 'fifo', (), {}),
    ('rng_double_new', 'RngDouble', (), {}),
]


def ctor(rep, pr, tys, name, sname, stop, how):
    fn = pr.fn(name)
    if sname not in tys.by:
        raise Broken('structure %s not found' % sname)
    ck = Ck(stop)
    ck.linear = how != 'calls'
    reset()
    I = Interp(pr, ck)
    st = State()
    args = [I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in fn.params]
    wh = '%s (%s)' % (fn.module.name, name)
    if how == 'calls':
        # arguments that are the same constant at every call
        for k in range(len(args)):
            vals = set()
            for m in pr.modules:
                for f in m.functions.values():
                    for i in f.insts():
                        if i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == name:
                            o = i.ops[1 + k]
                            vals.add(int(o.v) if isinstance(o, ir.Const) and o.kind == 'int' else None)
            if len(vals) == 1 and None not in vals:
                args[k] = C(vals.pop())
    rets = I.call_fn(fn, args, st, 0)
    rep.analysed(*I.visited)
    n = 0
    for s, v in rets:
        if not isinstance(v, Ptr):
            raise Broken('%s returns %r' % (name, v))
        if s.isnull(v.reg) is True or v.reg.kind == 'null':
            continue
        n += 1
        I.recording = True
        walk(rep, I, ck, s, tys, v.reg, sname, v.off, sname, name, wh, set())
    if not n:
        raise Broken('%s never returns an object' % name)


def local_init(rep, w, pr2, pr):
    """forward must-assign analysis over stack variables (before promotion to registers)"""
    for m in pr2.modules:
        for f in m.functions.values():
            bad = definite(f)
            rep.analysed(f.name)
            for (i, var) in bad[1]:
                # path-sensitive second opinion
                rep.ob(R_LOC, not confirm(pr, f.name), irq.where(f, i), '%s may be read before it is set' % var, key='%s@%s' % (var, f.name))
            for _ in range(bad[0]):
                rep.ob(R_LOC, True)


def confirm(pr, name):
    """does the path-sensitive analysis see the read of an unset value as well?"""
    fn = pr.functions.get(name) or next((m.functions[name] for m in pr.modules if name in m.functions), None)
    if fn is None:
        return True
    reset()
    ck = Ck()
    ck.maxstates = 32
    I = Interp(pr, ck)
    st = State()
    args = []
    for nm, ty, _ in fn.params:
        args.append(Ptr(region(('arg', nm), 'arg', nm)) if ty.kind == 'ptr' else I.fresh(('par', nm), ty, st, nm))
    try:
        I.call_fn(fn, args, st, 0)
    except Exception as e:
        return True
    return ck.hit is not None


def definite(f):
    allo = {}
    base = {}
    for i in f.insts():
        if i.op == 'alloca':
            allo[i.res] = i
            base[i.res] = i.res
    changed = True
    while changed:
        changed = False
        for i in f.insts():
            if i.res and i.res not in base and i.op in ('getelementptr', 'bitcast', 'phi', 'select', 'freeze'):
                bs = {base[o.name] for o in irq.operands(i) if isinstance(o, ir.Reg) and o.name in base}
                if len(bs) == 1:
                    base[i.res] = bs.pop()
                    changed = True
    order = list(f.blocks)
    succ = {}
    for b in f.blocks.values():
        t = b.insts[-1]
        succ[b.name] = list(t.x) if t.op == 'br' else [t.x[0]] + [x[1] for x in t.x[1]] if t.op == 'switch' else []

    def flow(b, s, report=None):
        s = set(s)
        for i in f.blocks[b].insts:
            if i.op == 'load' and isinstance(i.ops[0], ir.Reg) and i.ops[0].name in base:
                a = base[i.ops[0].name]
                if report is not None:
                    if a not in s:
                        report[1].append((i, a.replace('.addr', '')))
                    else:
                        report[0] += 1
                s.add(a)
            elif i.op == 'store':
                if isinstance(i.ops[1], ir.Reg) and i.ops[1].name in base:
                    v = i.ops[0]
                    if not (isinstance(v, ir.Const) and v.kind == 'undef'):
                        s.add(base[i.ops[1].name])
                if isinstance(i.ops[0], ir.Reg) and i.ops[0].name in base:
                    s.add(base[i.ops[0].name])
            elif i.op == 'call':
                c = i.ops[0]
                if isinstance(c, ir.GRef) and c.name.startswith(('llvm.dbg', 'llvm.lifetime')):
                    continue
                src = isinstance(c, ir.GRef) and c.name.startswith('llvm.memcpy')
                for k, o in enumerate(i.ops[1:]):
                    if isinstance(o, ir.Reg) and o.name in base:
                        a = base[o.name]
                        if src and k == 1:
                            if report is not None:
                                if a not in s:
                                    report[1].append((i, a))
                                else:
                                    report[0] += 1
                            continue
                        s.add(a)
            elif i.op in ('ptrtoint', 'insertvalue', 'ret', 'other'):
                for o in irq.operands(i):
                    if isinstance(o, ir.Reg) and o.name in base:
                        s.add(base[o.name])
        return s
    # arrays: set on some path is enough (which elements a loop has filled is not decided)
    may = {a for a, i in allo.items() if i.x.kind == 'array' or i.ops}
    full = set(allo)
    inn = {b: set(full) for b in order}
    inn[f.entry.name] = set()
    work = [f.entry.name]
    seenb = set()
    while work:
        b = work.pop(0)
        out = flow(b, inn[b])
        seenb.add(b)
        for t in succ[b]:
            new = (inn[t] & out) | (may & (out | (inn[t] if t in seenb else set())))
            if new != inn[t] or t not in seenb:
                inn[t] = new
                if t not in work:
                    work.append(t)
    rep = [0, []]
    for b in order:
        if b in seenb:
            flow(b, inn[b], rep)
    return rep


def initialiser(rep, pr, tys, name, sname, arg=0, stop=()):
    """a structure initialised through a pointer argument"""
    fn = pr.fn(name)
    ck = Ck(stop)
    reset()
    I = Interp(pr, ck)
    st = State()
    args = [I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in fn.params]
    if arg >= len(args) or fn.params[arg][1].kind != 'ptr':
        raise Broken('%s does not take its structure by reference' % name)
    r = region(('arg', 'out'), 'heap', 'out', size=C(tys.by[sname][2]), uninit=True)
    r.nullable = False
    st.mem[r] = RegMem(0, True)
    args[arg] = Ptr(r)
    rets = I.call_fn(fn, args, st, 0)
    rep.analysed(*I.visited)
    if not rets:
        raise Broken('%s never returns' % name)
    I.recording = True
    for s, v in rets:
        walk(rep, I, ck, s, tys, r, sname, ZERO, sname, name, '%s (%s)' % (fn.module.name, name), set())


def run(rep, w):
    POINTEE.clear()
    POINTEE.update({'operation_queue': 'OperationQueue', 'tile_map': 'TileMap', 'pointsList': 'ControlPoints', 'rng': 'RngDouble'})
    pr = w.program()
    tys = Types(pr)
    for a in CTORS:
        ctor(rep, pr, tys, *a)
    # returned by value: the caller passes the place
    initialiser(rep, pr, tys, 'mypaint_default_symmetry_data', 'MyPaintSymmetryData')
    initialiser(rep, pr, tys, 'mypaint_tiled_surface_init', 'MyPaintTiledSurface')
    initialiser(rep, pr, tys, 'mypaint_surface_init', 'MyPaintSurface')
    g = w.program(gegl=True)
    if g is not None:
        full = frontend.merge(pr, g)
        ctor(rep, full, Types(full), 'mypaint_gegl_tiled_surface_new', 'MyPaintGeglTiledSurface', (), {})
    else:
        rep.assume('GEGL backend not analysed (gegl development files missing)')
    local_init(rep, w, w.program(keep_allocas=True, tag='raw'), pr)
    rep.require(R_OBJ, 200)
    rep.require(R_LOC, 1000)
