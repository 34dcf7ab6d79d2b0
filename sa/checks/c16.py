"""C16 Setting and input metadata is consistent."""
from .. import ir
from ..dom import C, P, sym, Poly
from ..interp import Checker, Interp, State, Ptr, region, reset, Bool
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'constant evaluation of the info tables plus abstract interpretation of the accessors and lookups',
    'note': 'all ids and all strings (string comparison is an uninterpreted equality per table entry)',
    'explanation': 'the tables are read from the compiled initialisers; accessors run with a symbolic id, lookups with an unknown string',
    'trusted': ['strcmp returns 0 exactly for equal strings'],
}
R_ONE = 'one entry per id, in the order of the enumeration'
R_UNIQ = 'name is unique and not empty'
R_ORD = 'minimum <= default <= maximum'
R_ACC = 'info accessor returns the entry of its id, and only for valid ids'
R_FIND = 'lookup returns the id of the equal name'
R_REJ = 'lookup returns -1 only after comparing every name'


class Look(Checker):
    maxstates = 600
    unroll_limit = 400

    def __init__(self, names, arg):
        self.names, self.arg = names, arg
        self.rets = []

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('strcmp', 'g_strcmp0', 'g_str_equal'):
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if isinstance(b, Ptr) and b.reg is self.arg and b.off == C(0) and isinstance(a, Ptr):
                    s = string_at(I, a)
                    if s is not None:
                        v = P(sym(('cmp', s), 'strcmp(%s)' % s, -255, 255, True))
                        if name == 'g_str_equal':
                            return [(st, P(sym(('b2i', ('eq', v)), 'eq', 0, 1, True, tag=('b2i', ('eq', v)))))]
                        return [(st, v)]
        return None


def string_at(I, p):
    if p.reg.kind != 'glob' or not p.off.isconst():
        return None
    g = p.reg.glob[0]
    if g.init is None or g.init.kind not in ('cstr', 'zero'):
        return None
    if g.init.kind == 'zero':
        return ''
    b = bytes(g.init.v)[int(p.off.cval()):]
    return b.split(b'\0')[0].decode('latin-1')


def table(I, pr, g, own, dstruct, count):
    """-> list of {member: value} for each array element"""
    mem = None
    for m in pr.modules:
        mem = m.di_struct(dstruct)
        if mem:
            break
    if not mem:
        raise Broken('structure %s not found' % dstruct)
    v = I.value_const(g.init, g.ty, own)
    size = I.tysize(own, g.ty.b)
    cells = {o: x for o, s, x in v.parts}
    flat = {}
    for o, s, x in I.flatten(v).parts:
        flat[o] = x
    rows = []
    for k in range(g.ty.a):
        rows.append({n: flat.get(k * size + off) for n, off, s in mem})
    return rows, size, mem


def one(rep, pr, info, find, dstruct, prefix, order):
    fi, ff = pr.fn(info), pr.fn(find)
    enums = {}
    for m in pr.modules:
        enums.update(m.di_enums())
    ids = {n: int(v) for n, v in enums.items() if n.startswith(prefix[:-1])}
    cnt = [n for n in ids if n == prefix[:-1] + 'S_COUNT']
    if len(cnt) != 1:
        raise Broken('no count enumerator with prefix %s' % prefix)
    count = ids.pop(cnt[0])
    # --- accessor with every id
    reset()
    ck = Look(None, None)
    I = Interp(pr, ck)
    st = State()
    idp = P(sym(('par', 'id'), 'id', 0, (1 << 32) - 1, True))
    rets = I.call_fn(fi, [idp], st, 0)
    rep.analysed(*I.visited)
    if not rets:
        raise Broken('%s never returns' % info)
    g = own = None
    for s, v in rets:
        ok = isinstance(v, Ptr) and v.reg.kind == 'glob'
        if ok:
            g, own = v.reg.glob
            size = I.tysize(own, g.ty.b) if g.ty.kind == 'array' else None
            ok = size is not None and (v.off - idp.scale(size)) == C(0)
            ok = ok and s.decide(('ge', idp)) is True and s.decide(('ge', C(count - 1) - idp)) is True
        rep.ob(R_ACC, ok, '%s (%s)' % (fi.module.name, info), 'returns %r for id in %s' % (v, s.ival(idp) if hasattr(s, 'ival') else '?'),
               key='acc@' + info)
    if g is None or g.ty.kind != 'array':
        return
    rows, size, mem = table(I, pr, g, own, dstruct, count)
    rep.ob(R_ONE, len(rows) >= count, g.name, 'table has %d entries for %d ids' % (len(rows), count), key='count@' + g.name)
    names = []
    for r in rows[:count]:
        names.append(string_at(I, r['cname']) if isinstance(r['cname'], Ptr) and r['cname'].reg.kind == 'glob' else None)
    byid = {v: n for n, v in ids.items()}
    for k in range(count):
        want = byid.get(k, '?')[len(prefix):].lower()
        rep.ob(R_ONE, k < len(names) and names[k] == want, '%s[%d]' % (g.name, k), 'entry of %s is named %r' % (byid.get(k), names[k] if k < len(names) else None),
               key='id:%s' % want)
        rep.ob(R_UNIQ, bool(names[k]) and names.count(names[k]) == 1, '%s[%d]' % (g.name, k), 'name %r' % names[k], key='uniq:%s' % want)
        vals = []
        for f in order:
            x = rows[k].get(f)
            if not isinstance(x, Poly) or not x.isconst():
                x = None
            vals.append(None if x is None else x.cval())
        rep.ob(R_ORD, None not in vals and all(a <= b for a, b in zip(vals, vals[1:])), '%s[%d] (%s)' % (g.name, k, names[k]),
               'values %s' % [None if x is None else float(x) for x in vals], key='order:%s' % want)
    # --- lookup (the table is never modified: decided by C12)
    g.const = True
    reset()
    arg = region(('arg', 'cname'), 'arg', 'cname')
    ck = Look(names, arg)
    I = Interp(pr, ck)
    rets = I.call_fn(ff, [Ptr(arg)], State(), 0)
    rep.analysed(*I.visited)
    found = set()
    wh = '%s (%s)' % (ff.module.name, find)

    def eq(s, n):
        return s.decide(('eq', P(sym(('cmp', n), 'strcmp(%s)' % n, -255, 255, True))))
    for s, v in rets:
        if isinstance(v, Poly) and v.isconst():
            k = int(v.cval())
            if k >= 1 << 31:
                k -= 1 << 32
            if 0 <= k < count:
                found.add(k)
                rep.ob(R_FIND, eq(s, names[k]) is True, wh, 'returns %d without having compared equal to %r' % (k, names[k]), key='find@' + find)
                continue
            miss = [n for n in names if eq(s, n) is not False]
            rep.ob(R_REJ, k == -1 and not miss, wh, 'returns %d without having ruled out %s' % (k, miss[:5]), key='rej@' + find)
            continue
        rep.ob(R_FIND, False, wh, 'returns %r' % (v,), key='find@' + find)
    rep.ob(R_FIND, found == set(range(count)), wh, 'never returns the ids %s' % sorted(set(range(count)) - found)[:5], key='all@' + find)


def run(rep, w):
    pr = w.program()
    one(rep, pr, 'mypaint_brush_setting_info', 'mypaint_brush_setting_from_cname', 'MyPaintBrushSettingInfo',
        'MYPAINT_BRUSH_SETTING_', ('min', 'def', 'max'))
    one(rep, pr, 'mypaint_brush_input_info', 'mypaint_brush_input_from_cname', 'MyPaintBrushInputInfo',
        'MYPAINT_BRUSH_INPUT_', ('hard_min', 'soft_min', 'normal', 'soft_max', 'hard_max'))
    rep.require(R_ORD, 60)
    rep.require(R_FIND, 60)
    rep.require(R_REJ, 2)
