"""C15 Public accessors never index outside their tables."""
from .. import frontend, ir, irq, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, Bool
from ..objs import Layout, World, heap, number
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of every index-taking public function with symbolic indices (bounds and element addressing)',
    'note': 'all index values including negative and huge ones; objects as the constructors leave them',
    'explanation': 'each accessor is interpreted for every index value; every access must lie inside the element that the index '
                   'denotes; setters followed by getters must return the stored value',
    'trusted': ['assertions are enabled (the default build)'],
}
R_IN = 'access lies inside its table'
R_EL = 'access belongs to the addressed element'
R_REJ = 'index outside the table is rejected'
R_RT = 'a value that was set is the value that is returned'
R_BK = 'smudge buckets are disjoint records inside their array'
R_INV = 'table length recorded at construction matches its allocation'

M31 = 1 << 31


class Ck(Checker):
    maxstates = 24
    stop = ('settings_base_values_have_changed',)

    def __init__(self, rep, pr):
        self.rep = rep
        self.pr = pr
        self.lay = L = Layout(pr)
        self.w = W = World(L)
        self.name = ''
        self.ints = []
        self.accesses = []
        self.nelem = {}
        W.spec[('MyPaintBrush', 'settings')] = self.setting
        W.spec[('MyPaintBrush', 'smudge_buckets')] = self.buckets
        W.spec[('MyPaintBrush', 'num_buckets')] = lambda *a: P(self.nb)
        W.spec[('MyPaintMapping', 'pointsList')] = self.points
        W.spec[('MyPaintMapping', 'inputs')] = lambda I, st, reg, off, ty, key: P(self.inputs(reg))
        self.nb = sym(('nb',), 'num_buckets', 0, 1 << 24, True)
        self.cp = L.size('ControlPoints')
        self.noff = L.off('ControlPoints', 'n')
        self.npts = L.member('ControlPoints', 'xvalues')[1] // 4
        self.brush = W.obj('brush', 'MyPaintBrush')
        self.bsz = L.enum('SMUDGE_BUCKET_SIZE').get('SMUDGE_BUCKET_SIZE')
        if not self.bsz:
            raise Broken('SMUDGE_BUCKET_SIZE not found')
        self.bk = heap('buckets', 'smudge_buckets', P(self.nb).scale(4 * self.bsz), nullable=True)

    def inputs(self, reg):
        return sym(('inputs', reg.key), 'inputs', 1, 4096, True)

    def setting(self, I, st, reg, off, ty, key):
        r = self.w.obj(('mapping', off), 'MyPaintMapping', 'mapping@%r' % off)
        return Ptr(r)

    def buckets(self, I, st, reg, off, ty, key):
        return Ptr(self.bk)

    def points(self, I, st, reg, off, ty, key):
        r = heap(('points', reg.key), 'points', P(self.inputs(reg)).scale(self.cp))
        self.w.kind[r] = 'points'
        return Ptr(r)

    def unknown_load(self, I, st, reg, off, ty, key):
        if self.w.kind.get(reg) == 'points':
            if ty.kind == 'int':
                # number of points: established by the setter
                s = P(sym(('npts', reg.key, off, key[2]), 'n', 0, self.npts, True))
                return s
            return None
        return self.w.load(I, st, reg, off, ty, key)

    def alarm(self, I, st, kind, inst, msg):
        if kind in ('oob', 'index', 'badptr', 'null'):
            self.rep.ob(R_IN, False, I.where(inst), '%s: %s' % (self.name, msg), key='%s@%s' % (kind, self.name))

    def on_load(self, I, st, inst, ptr, size, ty):
        self.access(I, st, inst, ptr, size, 'read')

    def on_store(self, I, st, inst, ptr, size, val, ty):
        self.access(I, st, inst, ptr, size, 'write')
        if self.w.kind.get(ptr.reg) == 'points' and ty.kind == 'int' and I.recording:
            v = I.asnum(st, val)
            self.rep.ob(R_INV, st.num.ge0(v) and st.num.ge0(C(self.npts) - v), I.where(inst),
                        '%s: point count %r outside 0..%d' % (self.name, v, self.npts), key='npts@' + self.name)

    def access(self, I, st, inst, ptr, size, rw):
        if not I.recording:
            return
        r, o = ptr.reg, ptr.off
        wh = I.where(inst)
        L = self.lay
        kind = self.w.kind.get(r)
        if r.size is not None and kind is not None or r is self.bk:
            self.rep.ob(R_IN, st.num.ge0(o) and st.num.ge0(r.size - size - o), wh,
                        '%s: %s of %d bytes at offset %r of %s' % (self.name, rw, size, o, r), key='in@' + self.name)
        i = [P(x) for x in self.ints]
        if kind == 'MyPaintBrush':
            for tab, esz in (('settings', 8), ('states', 4), ('settings_value', 4)):
                b, z = L.member('MyPaintBrush', tab)
                if (st.num.ge0(o - b) and st.num.ge0(C(b + z - 1) - o)) or not o.isconst() and tab in self.expect:
                    if tab in self.expect:
                        want = C(b) + i[0].scale(esz)
                        self.rep.ob(R_EL, o == want, wh, '%s: %s of %s at offset %r, the index denotes %r'
                                    % (self.name, rw, tab, o, want), key='el@' + self.name)
                        self.touched.add(tab)
                    elif tab != 'states' and self.name != 'fetch_smudge_bucket':
                        self.rep.ob(R_EL, False, wh, '%s: unexpected access to %s' % (self.name, tab), key='elx@' + self.name)
                    break
        elif kind == 'points':
            k = 1 if self.name.startswith('mypaint_brush') else 0
            if len(i) <= k:
                return
            base = i[k].scale(self.cp)
            d = o - base
            self.touched.add('points')
            if not len(i) > k + 1 or not self.name.endswith('_point'):
                self.rep.ob(R_EL, d == C(self.noff), wh, '%s: %s at offset %r of the points of input %r' % (self.name, rw, d, i[k]),
                            key='el@' + self.name)
                return
            xo, yo = L.off('ControlPoints', 'xvalues'), L.off('ControlPoints', 'yvalues')
            ok = d == C(self.noff) and rw == 'read'
            for b in (xo, yo):
                ok = ok or d == C(b) + i[k + 1].scale(4)
            # the setter compares with the neighbouring points
            ok = ok or rw == 'read' and any(d == C(xo) + i[k + 1].scale(4) + 4 * e for e in (-1, 1))
            self.rep.ob(R_EL, ok, wh, '%s: %s at offset %r of the points of input %r' % (self.name, rw, d, i[k]), key='el@' + self.name)
            # only points that exist
            n = I.read(st, r, base + self.noff, 4, ir.I32, None, ('npts', 0))
            if not d == C(self.noff):
                self.rep.ob(R_IN, st.num.ge0(I.asnum(st, n) - 1 - i[k + 1]) or d == C(xo) + i[k + 1].scale(4) - 4, wh,
                            '%s: point %r may not exist' % (self.name, i[k + 1]), key='pt@' + self.name)
        elif r is self.bk:
            want = i[0].scale(4 * self.bsz)
            d = o - want
            ok = d.isconst() and 0 <= d.cval() and d.cval() + size <= 4 * self.bsz
            self.touched.add('buckets')
            self.rep.ob(R_BK, ok, wh, '%s: %s at offset %r, bucket starts at %r' % (self.name, rw, o, want), key='bk@' + self.name)


# function -> expected table; further index-taking functions of the headers are reported as not covered
SPEC = {
    'mypaint_brush_set_base_value': ('settings',), 'mypaint_brush_get_base_value': ('settings',),
    'mypaint_brush_set_mapping_n': ('settings', 'points'), 'mypaint_brush_get_mapping_n': ('settings', 'points'),
    'mypaint_brush_is_constant': ('settings',), 'mypaint_brush_get_inputs_used_n': ('settings',),
    'mypaint_brush_set_mapping_point': ('settings', 'points'), 'mypaint_brush_get_mapping_point': ('settings', 'points'),
    'mypaint_brush_get_state': ('states',), 'mypaint_brush_set_state': ('states',),
    'mypaint_brush_set_smudge_bucket_state': ('buckets',), 'mypaint_brush_get_smudge_bucket_state': ('buckets',),
    'mypaint_mapping_set_n': ('points',), 'mypaint_mapping_get_n': ('points',),
    'mypaint_mapping_set_point': ('points',), 'mypaint_mapping_get_point': ('points',),
    'mypaint_brush_setting_info': ('settings_info_array',), 'mypaint_brush_input_info': ('inputs_info_array',),
}
PAIRS = [   # setter, getter, stored arguments -> returned (result or out parameters)
    ('mypaint_brush_set_base_value', 'mypaint_brush_get_base_value'),
    ('mypaint_brush_set_mapping_n', 'mypaint_brush_get_mapping_n'),
    ('mypaint_brush_set_mapping_point', 'mypaint_brush_get_mapping_point'),
    ('mypaint_brush_set_state', 'mypaint_brush_get_state'),
    ('mypaint_brush_set_smudge_bucket_state', 'mypaint_brush_get_smudge_bucket_state'),
]


def index_params(fn):
    return [k for k, (nm, ty, _) in enumerate(fn.params) if ty.kind == 'int']


def unsigned(fn, k):
    """is the parameter an enumeration (compared without sign)?"""
    nm = fn.params[k][0]
    for i in fn.insts():
        if i.op == 'icmp' and any(isinstance(o, ir.Reg) and o.name == nm for o in i.ops) and str(i.x)[0] == 'u':
            return True
        if i.op == 'zext' and isinstance(i.ops[0], ir.Reg) and i.ops[0].name == nm:
            return True
    return False


def setup(ck, fn, name, ints, st, tag=''):
    """argument values; ints: list of symbols for the leading integer parameters (the rest is data)"""
    args = []
    q = 0
    data = []
    for k, (nm, ty, _) in enumerate(fn.params):
        if ty.kind == 'ptr' and k == 0:
            if name.startswith('mypaint_mapping'):
                args.append(Ptr(ck.w.obj('mapping', 'MyPaintMapping')))
            else:
                args.append(Ptr(ck.brush))
        elif ty.kind == 'ptr':
            r = heap(('out', tag, k), 'out_%s' % nm, 4)
            args.append(Ptr(r))
            data.append(r)
        elif ty.kind == 'int' and q < len(ints):
            args.append(P(ints[q]))
            q += 1
        elif ty.kind == 'int':
            v = P(sym(('par', tag, nm), nm, -M31, M31 - 1, True))
            args.append(v)
            data.append(v)
        else:
            v = P(sym(('par', tag, nm), nm))
            args.append(v)
            data.append(v)
    return args, data


def nints(name, fn):
    k = len(index_params(fn))
    return k - 1 if name.endswith('set_mapping_n') or name == 'mypaint_mapping_set_n' else k


def cases(fn, name):
    """index symbols, split by sign of the bit pattern for enumerations"""
    out = [[]]
    for k in index_params(fn)[:nints(name, fn)]:
        nm = fn.params[k][0]
        u = unsigned(fn, k) or name.startswith('mypaint_brush') and nm in ('id', 'input', 'i')
        parts = [('', 0, M31 - 1), ("'", M31, 2 * M31 - 1)] if u else [('-', -M31, -1), ('', 0, M31 - 1)]
        out = [x + [(nm + t, lo, hi)] for x in out for t, lo, hi in parts]
    return out


def length(ck, st, name, tab, i, I):
    L = ck.lay
    if tab in ('settings', 'states'):
        return C(L.member('MyPaintBrush', tab)[1] // (8 if tab == 'settings' else 4))


def accessor(rep, name):
    pr = par.shared()
    fn = pr.fn(name)
    tabs = SPEC[name]
    ok_total = 0
    for cs in cases(fn, name):
        reset()
        ck = Ck(rep, pr)
        ck.name = name
        ck.expect = set(tabs)
        ck.touched = set()
        I = Interp(pr, ck)
        st = State()
        ints = [sym(('idx', nm), nm, lo, hi, True) for nm, lo, hi in cs]
        ck.ints = ints
        args, data = setup(ck, fn, name, ints, st) if not name.endswith('_info') else ([P(ints[0])], [])
        rets = I.call_fn(fn, args, st, 0)
        rep.analysed(*I.visited)
        valid = all(lo == 0 for _, lo, hi in cs)
        for s, v in rets:
            if name.endswith('_info'):
                rep.ob(R_IN, table_result(pr, s, v, ints[0]), name, '%s returns %r' % (name, v), key='in@' + name)
                ck.touched.add(tabs[0])
                ok_total += 1
                continue
            acc = True
            if 'buckets' in tabs:
                # returns TRUE exactly for buckets that exist
                b = I.asnum(s, v)
                inr = s.num.ge0(P(ints[0])) and s.num.ge0(P(ck.nb) - 1 - P(ints[0]))
                outr = s.num.ge0(-P(ints[0]) - 1) or s.num.ge0(P(ints[0]) - P(ck.nb))
                acc = b == C(1)
                rep.ob(R_REJ, b == C(1) and inr or b == ZERO and outr, name,
                       '%s: returns %r for index range %s' % (name, v, s.num.range(P(ints[0]))), key='rej@' + name)
            else:
                # the function returned normally: the index must be inside
                if tabs[0] in ('settings', 'states'):
                    n = length(ck, s, name, tabs[0], ints[0], I)
                    rep.ob(R_REJ, s.num.ge0(P(ints[0])) and s.num.ge0(n - 1 - P(ints[0])), name,
                           '%s: accepts index range %s of %r entries' % (name, s.num.range(P(ints[0])), n), key='rej@' + name)
            ok_total += 1 if acc else 0
        if valid:
            for t in tabs:
                if t not in ck.touched:
                    raise Broken('%s: access to %s not seen' % (name, t))
    if not ok_total:
        raise Broken('%s never succeeds' % name)


def table_result(pr, s, v, i):
    if not isinstance(v, Ptr) or v.reg.kind != 'glob' or v.reg.size is None:
        return False
    c = v.off.coeff(i.id)
    if c is None or not c[0].isconst():
        return False
    esz = c[0].cval()
    return v.off == P(i).scale(esz) and s.num.ge0(v.off) and s.num.ge0(v.reg.size - esz - v.off) and esz >= 40


def pair(rep, setter, getter):
    pr = par.shared()
    f, g = pr.fn(setter), pr.fn(getter)
    reset()
    ck = Ck(rep, pr)
    ck.name = setter
    ck.expect = set(SPEC[setter])
    ck.touched = set()
    I = Interp(pr, ck)
    st = State()
    n = min(nints(setter, f), nints(getter, g))
    ints = [sym(('idx', k), 'i%d' % k, 0, M31 - 1, True) for k in range(n)]
    ck.ints = ints
    args, stored = setup(ck, f, setter, ints, st, 'set')
    cnt = 0
    for s, v in I.call_fn(f, args, st, 0):
        if f.ret.kind != 'void' and s.decide(('eq', I.asnum(s, v))) is True:
            continue
        ck.name = getter
        args2, outs = setup(ck, g, getter, ints, s, 'get')
        for s2, v2 in I.call_fn(g, args2, s, 1):
            if outs and f.ret.kind != 'void' and s2.decide(('eq', I.asnum(s2, v2))) is True:
                rep.ob(R_RT, False, getter, '%s fails after %s succeeded' % (getter, setter), key='rt@' + getter)
                continue
            got = [I.read(s2, r, ZERO, 4, ir.FLOAT, None, ('out', 0)) for r in outs] if outs else [v2]
            cnt += 1
            rep.ob(R_RT, len(got) == len(stored) and all(same(s2, a, b) for a, b in zip(got, stored)), getter,
                   '%s stores %s, %s returns %s' % (setter, stored, getter, got), key='rt@' + getter)
    if not cnt:
        raise Broken('%s / %s: no successful path' % (setter, getter))


def same(s, a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and (a == b or s.num.ge0(a - b) and s.num.ge0(b - a))


def construction(rep):
    """the recorded number of buckets is the number that was allocated, and nothing changes it later"""
    pr = par.shared()
    reset()

    class K(Checker):
        maxstates = 16
        linear = False

        def on_call(self, I, st, inst, name, args, ctx):
            if name in ('mypaint_mapping_new', 'rng_double_new'):
                return [(st, Ptr(region(('made', name, ctx, I.iid(inst)), 'heap', name)))]
            if name == 'settings_base_values_have_changed':     # derived values only
                return [(st, None)]
            return None
    L = Layout(pr)
    bsz = L.enum('SMUDGE_BUCKET_SIZE')['SMUDGE_BUCKET_SIZE']
    I = Interp(pr, K())
    st = State()
    fn = pr.fn('mypaint_brush_new_with_buckets')
    n = sym(('n',), 'num_smudge_buckets', -M31, 1 << 24, True)
    rep.assume('at most 2^24 smudge buckets (the product with the record size must not overflow)')
    cnt = 0
    for s, v in I.call_fn(fn, [P(n)], st, 0):
        if not isinstance(v, Ptr) or v.reg.kind == 'null' or s.isnull(v.reg) is True:
            continue
        num = I.asnum(s, I.read(s, v.reg, v.off + L.off('MyPaintBrush', 'num_buckets'), 4, ir.I32, None, ('c', 0)))
        bk = I.read(s, v.reg, v.off + L.off('MyPaintBrush', 'smudge_buckets'), 8, ir.PTR, None, ('c', 1))
        cnt += 1
        if isinstance(bk, Ptr) and bk.reg.size is not None:
            ok = s.num.ge0(bk.reg.size - num.scale(4 * bsz)) and s.num.ge0(bk.off) and s.num.ge0(-bk.off)
        else:
            ok = isinstance(bk, Ptr) and bk.reg.kind == 'null' and s.num.ge0(-num)
        rep.ob(R_INV, ok, 'mypaint-brush.c (%s)' % fn.name, 'num_buckets = %r, array %r of %r bytes'
               % (num, bk, getattr(getattr(bk, 'reg', None), 'size', None)), key='inv@new')
    if cnt < 2:
        raise Broken('constructor: bucket and no-bucket path expected')
    rep.analysed(*I.visited)
    # writers of the two members
    m, ty, _ = L.by['MyPaintBrush']
    idx = {}
    for k in range(len(m.fields(ty))):
        nm = L.name_at('MyPaintBrush', m.field_offset(ty, k)[0])
        if nm in ('num_buckets', 'smudge_buckets'):
            idx[nm] = k
    for f in m.functions.values():
        geps = {}
        for i in f.insts():
            if i.op == 'getelementptr' and len(i.ops) == 3 and isinstance(i.ops[2], ir.Const) and 'MyPaintBrush' in repr(i.x):
                for nm, k in idx.items():
                    if i.ops[2].v == k:
                        geps[i.res] = nm
        for i in f.insts():
            if i.op == 'store' and isinstance(i.ops[1], ir.Reg) and i.ops[1].name in geps:
                callers = {g.name for g in m.functions.values() for j in g.insts()
                           if j.op == 'call' and isinstance(j.ops[0], ir.GRef) and j.ops[0].name == f.name}
                rep.ob(R_INV, 'mypaint_brush_new' in f.name or callers and all('mypaint_brush_new' in c for c in callers),
                       irq.where(f, i), '%s changed outside the constructor' % geps[i.ops[1].name], key='inv@' + f.name)


def engine_bucket(rep):
    """the engine's own bucket choice stays inside the array"""
    pr = par.shared()
    name = 'fetch_smudge_bucket'
    fn = pr.fn(name)
    reset()
    ck = Ck(rep, pr)
    ck.name = name
    ck.expect = set()
    ck.touched = set()
    I = Interp(pr, ck)
    st = State()
    n = 0
    L = ck.lay
    so, sz = L.member('MyPaintBrush', 'states')
    for s, v in I.call_fn(fn, [Ptr(ck.brush)], st, 0):
        n += 1
        if not isinstance(v, Ptr):
            raise Broken('%s returns %r' % (name, v))
        if v.reg is ck.brush:
            ok = v.off.isconst() and so <= v.off.cval() and v.off.cval() + 4 * ck.bsz <= so + sz
        else:
            ok = v.reg is ck.bk and s.num.ge0(v.off) and s.num.ge0(v.reg.size - 4 * ck.bsz - v.off) and \
                all(x % (4 * ck.bsz) == 0 for x in v.off.t.values()) and v.off.isint()
        rep.ob(R_BK, ok, 'mypaint-brush.c (%s)' % name, 'bucket address %r' % (v,), key='bk@' + name)
    if n < 2:
        raise Broken('%s: bucket and fallback path expected' % name)
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    decl = frontend.header_functions(w.dir, ['mypaint-brush.h', 'mypaint-mapping.h', 'mypaint-brush-settings.h'])
    for n in decl:
        f = pr.functions.get(n)
        if f is None or n in SPEC:
            continue
        ints = [f.params[k][0] for k in index_params(f)]
        if any(x in ('id', 'input', 'index', 'bucket_index', 'i') for x in ints):
            raise Broken('public function %s takes an index but has no rule' % n)
    jobs = [(accessor, (n,)) for n in SPEC] + [(pair, p) for p in PAIRS] + [(construction, ()), (engine_bucket, ())]
    par.run(rep, jobs, ctx=pr)
    rep.require(R_IN, 40)
    rep.require(R_EL, 20)
    rep.require(R_RT, 5)
    rep.require(R_BK, 19)
