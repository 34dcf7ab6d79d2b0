"""C14 Loading a brush never crashes and never half-applies a bad file."""
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, Bool, FnV, NULLR, region, reset
from ..fpclass import Classes, NONFIN, ALL
from ..objs import Layout, World, heap, number
from ..report import Broken
from .c16 import string_at
from .c18 import Base

META = {
    'level': 'proof',
    'technique': 'abstract interpretation of the loader over a symbolic JSON document (typestate of JSON values, arbitrary element '
                 'of every array), with contracts at the JSON library and at the mapping setters',
    'note': 'arbitrary JSON document and brush; arrays of up to 2^30 elements',
    'explanation': 'each JSON value carries what the code has established about its type, each number what it has established about '
                   'its class (finite, infinite, NaN); array elements are represented by an arbitrary element and its predecessor. '
                   'Typed accesses, setter arguments and the returned verdict are checked on every path',
    'trusted': ['json-c accessors behave as documented: scalar getters accept every value including NULL, container accessors '
                'need a value of that type'],
}
R_TYPE = 'a JSON container is accessed as what it is'
R_LIVE = 'JSON value is not used after it is released'
R_ID = 'setting and input ids passed on are in range'
R_N = 'number of points is one that a mapping can hold'
R_PT = 'points passed on are finite and in order'
R_VAL = 'values passed on are those of the document'
R_FAIL = 'nothing is changed and failure is reported unless version and settings are right'
R_ROOT = 'the brush keeps a valid document'
R_CRASH = 'no crash'

ROOT = 'mypaint_brush_from_string'
OBJECT, ARRAY = 4, 5
VERSION = 3
NEED = {'json_object_array_length': ARRAY, 'json_object_array_get_idx': ARRAY, 'json_object_object_length': OBJECT,
        'json_object_object_add': OBJECT, 'json_object_array_add': ARRAY, 'json_object_array_sort': ARRAY}
SCALAR = {'json_object_get_double': 'dbl', 'json_object_get_int': 'int', 'json_object_get_int64': 'i64', 'json_object_get_boolean': 'bool'}
NEUTRAL = ('json_object_to_json_string', 'json_object_to_json_string_ext', 'json_object_get_string', 'json_object_get_string_len')


def inside(k, what):
    return k == what or isinstance(k, tuple) and any(inside(x, what) for x in k)


class Load(Classes, Base):
    maxstates = 80
    maxrets = 8
    alarms = ('assert', 'badptr', 'index', 'oob', 'null', 'nullcall', 'maynull', 'uninit', 'constwrite')

    def __init__(self, rep, pr, first):
        Base.__init__(self, rep, pr)
        self.K = ZERO if first else P(sym(('K',), 'K', 1, 1 << 30, True))
        self.first = first
        L = self.lay
        self.nset = L.member('MyPaintBrush', 'settings')[1] // 8
        self.nin = L.enum('MYPAINT_BRUSH_INPUT').get('MYPAINT_BRUSH_INPUTS_COUNT')
        self.so = L.off('MyPaintBrush', 'settings')
        x = L.member('ControlPoints', 'xvalues')
        self.maxn = x[1] // 4
        self.old = heap(('json', 'old'), 'old document', 64, nullable=True)
        self.w.spec[('MyPaintBrush', 'brush_json')] = lambda *a: Ptr(self.old)
        self.setpt = self.setbase = self.setn = 0

    def join_ghost(self, gs):
        out = Base.join_ghost(self, gs)
        for k in ('jt',):
            s = None
            for g in gs:
                v = g.get(k, frozenset())
                s = v if s is None else s & v
            out[k] = s
        out['cls'] = self.join_classes(gs)
        fr = frozenset()
        for g in gs:
            fr |= g.get('freed', frozenset())
        out['freed'] = fr
        return out

    def key(self, st):
        return repr((st.ghost.get('ph'), st.ghost.get('short'), st.ghost.get('root')))

    def count_points(self, I):
        return (self.K - 1, self.K, self.K + 1)

    def stable(self, v):
        return all(self.tracked(x) and (inside(SYMS[x].key, 'p') or inside(SYMS[x].key, 'k')) for x in v.syms())

    def on_loop_exit(self, I, st, fn, loop, ctx):
        st.ghost.pop('ph', None)
        if 'n' in st.ghost:
            for k in ('short', 'n', 'px'):
                st.ghost.pop(k, None)

    def on_ret(self, I, st, fn, val, ctx):
        if any(i.op == 'call' and isinstance(i.ops[0], ir.GRef) and i.ops[0].name == 'lh_entry_v' for i in fn.insts()):
            st.ghost.pop('short', None)

    def alarm(self, I, st, kind, inst, msg):
        if kind in self.alarms and I.recording:
            self.rep.ob(R_CRASH, False, I.where(inst), '%s: %s' % (kind, msg), key='%s %s' % (kind, I.where(inst)))

    def ob(self, I, rule, ok, inst, msg, key):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst), msg, key=key)

    # JSON values
    def jv(self, key, null=True):
        return Ptr(heap(('json', key), 'json%r' % (key,), 64, nullable=null))

    def isj(self, v):
        return isinstance(v, Ptr) and isinstance(v.reg.key, tuple) and len(v.reg.key) == 2 and v.reg.key[0] == 'obj' \
            and isinstance(v.reg.key[1], tuple) and v.reg.key[1][0] == 'json'

    def jkey(self, v):
        k = v.reg.key
        return k[1][1] if self.isj(v) else ('?', k)

    def typed(self, st, key, t):
        return (key, t) in st.ghost.get('jt', ())

    def learn(self, st, key, t):
        st.ghost['jt'] = st.ghost.get('jt', frozenset()) | {(key, t)}

    def types(self, I, st, v, t):
        """fork on v being of type t -> [(state, bool)]"""
        key = self.jkey(v)
        jt = dict(st.ghost.get('jt', ()))
        n = st.isnull(v.reg)
        if n:
            return [(st, t == 0)]
        if key in jt:
            return [(st, jt[key] == t)]
        out = []
        a = st.copy()
        if t == 0:
            if a.assume(('null', v.reg)) is not False:
                out.append((a, True))
            b = st.copy()
            if b.assume(('nonnull', v.reg)) is not False:
                out.append((b, False))
            return out
        if a.assume(('nonnull', v.reg)) is not False:
            self.learn(a, key, t)
            out.append((a, True))
        out.append((st.copy(), False))
        return out

    def live(self, I, st, inst, name, v):
        if isinstance(v, Ptr) and v.reg in st.ghost.get('freed', ()):
            self.ob(I, R_LIVE, False, inst, '%s of a released value' % name, 'live@' + name)
        else:
            self.ob(I, R_LIVE, True, inst, '', 'live@' + name)

    def good(self, st):
        """version and settings of the document have been found right"""
        r = st.ghost.get('root')
        if r is None:
            return False
        return self.typed(st, ('get', r, 'settings'), OBJECT) and \
            st.decide(('eq', P(self.scalar('int', ('get', r, 'version'))) - VERSION)) is True

    def scalar(self, kind, key):
        if kind == 'dbl':
            return sym((kind, key), 'double%r' % (key,))
        return sym((kind, key), '%s%r' % (kind, key), -(1 << 31), (1 << 31) - 1, True)

    def text(self, I, st, v):
        return string_at(I, v) if isinstance(v, Ptr) else None

    def spec(self, key):
        """False for the elements that are not followed"""
        return not inside(key, 'other')

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'json_tokener_parse':
            a = st.copy()
            a.ghost['root'] = None
            st.ghost['root'] = ('root',)
            r = self.jv(('root',), False)
            return [(a, Ptr(NULLR)), (st, r)]
        if name == 'json_object_new_object':
            r = self.jv(('new', I.where(inst)), False)
            self.learn(st, ('new', I.where(inst)), OBJECT)
            return [(st, r)]
        if name == 'json_object_put':
            if isinstance(args[0], Ptr) and st.isnull(args[0].reg) is not True:
                self.live(I, st, inst, name, args[0])
                st.ghost['freed'] = st.ghost.get('freed', frozenset()) | {args[0].reg}
            return [(st, C(1))]
        if name.startswith('json_object_') and args and isinstance(args[0], Ptr):
            v = args[0]
            key = self.jkey(v)
            self.live(I, st, inst, name, v)
            if name in NEED:
                if self.spec(key):
                    self.ob(I, R_TYPE, self.typed(st, key, NEED[name]), inst, '%s of a value that may not be one' % name, 'type@' + name)
                if name == 'json_object_array_length' and not inside(key, 'elem') and st.ghost.get('short') is None:
                    n = P(sym(('len', key), 'length', 0, 1 << 30, True))
                    out = []
                    for short, c in ((False, n - 1 - self.K), (True, self.K - n)):
                        s = st.copy()
                        if s.assume(('ge', c)) is not False:
                            s.ghost['short'] = short
                            out.append((s, n))
                    return out
                if name == 'json_object_array_length' or name == 'json_object_object_length':
                    return [(st, P(sym(('len', key), 'length', 0, 1 << 30, True)))]
                if name == 'json_object_array_get_idx':
                    return self.element(I, st, inst, v, key, args[1])
                return [(st, C(0))]
            if name in SCALAR:
                return [(st, P(self.scalar(SCALAR[name], key)))]
            if name == 'json_object_is_type':
                t = I.asnum(st, args[1])
                if not t.isconst():
                    raise Broken('type test with a computed type')
                return [(s, C(int(r))) for s, r in self.types(I, st, v, int(t.cval()))]
            if name == 'json_object_get_type':
                out = []
                rest = [(st, False)]
                for t in (0, OBJECT, ARRAY):
                    nxt = []
                    for s, _ in rest:
                        for s2, r in self.types(I, s, v, t):
                            if r:
                                out.append((s2, C(t)))
                            else:
                                nxt.append((s2, False))
                    rest = nxt
                for s, _ in rest:
                    for t in (1, 2, 3, 6):
                        s2 = s.copy()
                        self.learn(s2, key, t)
                        out.append((s2, C(t)))
                return out
            if name in ('json_object_object_get_ex', 'json_object_object_get'):
                nm = self.text(I, st, args[1])
                out = []
                no = st.copy()
                ex = name.endswith('_ex')
                slot = args[2] if ex else None
                if isinstance(slot, Ptr) and no.isnull(slot.reg) is not True:
                    I.write(no, slot.reg, slot.off, 8, Ptr(NULLR), None, 0)
                out.append((no, C(0) if ex else Ptr(NULLR)))
                for s, r in self.types(I, st, v, OBJECT):
                    if not r:
                        continue
                    e = self.jv(('get', key, nm if nm is not None else I.where(inst)))
                    if isinstance(slot, Ptr) and s.isnull(slot.reg) is not True:
                        I.write(s, slot.reg, slot.off, 8, e, None, 0)
                    out.append((s, C(1) if ex else e))
                return out
            if name == 'json_object_get_object':
                return [(s, Ptr(heap(('table', key), 'table', 64)) if r else Ptr(NULLR)) for s, r in self.types(I, st, v, OBJECT)]
            if name == 'json_object_get':
                return [(st, v)]
            if name in NEUTRAL:
                return [(st, Ptr(heap(('text', key), 'text', 4096, nullable=True)))]
            raise Broken('no model of %s' % name)
        if name in ('lh_table_head', 'lh_entry_k', 'lh_entry_v', 'lh_entry_next'):
            v = args[0]
            ok = isinstance(v, Ptr) and (st.isnull(v.reg) is False or v.reg in st.ghost.get('walk', ()))
            self.ob(I, R_TYPE, ok, inst, 'members of a value that may not be an object are enumerated', 'type@' + name)
            if not ok:
                return []
            if name == 'lh_table_head':
                return [(st, self.entry(st, v.reg.key))]
            if name == 'lh_entry_next':        # every entry of a table is represented by the same one
                st.ghost['walk'] = st.ghost.get('walk', frozenset()) | {v.reg}
                return [(st, self.entry(st, v.reg.key[1][1]))]
            if name == 'lh_entry_k':
                return [(st, Ptr(heap(('name', v.reg.key), 'member name', 4096)))]
            key = ('member', v.reg.key)
            st.ghost.pop('short', None)
            st.ghost['jt'] = frozenset(x for x in st.ghost.get('jt', ()) if not inside(x[0], key))
            st.ghost['cls'] = frozenset(x for x in st.ghost.get('cls', ()) if not inside(x[0], key))
            return [(st, self.jv(key))]
        if name in ('mypaint_brush_setting_from_cname', 'mypaint_brush_input_from_cname'):
            k = args[0].reg.key if isinstance(args[0], Ptr) else '?'
            top = (self.nset if 'setting' in name else self.nin) - 1
            return [(st.copy(), C(-1)), (st, P(sym(('cname', name, k), name, 0, top, True)))]      # C16
        r = self.class_call(I, st, name, args)
        if r is not None:
            return r
        if name.startswith('mypaint_mapping_set_'):
            return self.setter(I, st, inst, name, args)
        if name in ('settings_base_values_have_changed', 'fprintf', 'puts', 'printf', 'fwrite', 'g_log', 'g_warning'):
            return [(st, C(0))] if inst.ty.kind != 'void' else [(st, None)]
        return None

    def entry(self, st, table):
        r = heap(('entry', table), 'entry', 64, nullable=True)
        st.null = {k: v for k, v in st.null.items() if k is not r}
        return Ptr(r)


    def element(self, I, st, inst, v, key, i):
        i = I.asnum(st, i)
        if i.isconst() and (inside(key, 'elem') or self.first is None):
            return [(st, self.jv(('elem', key, int(i.cval()))))]
        if inside(key, 'elem') or not self.spec(key) or st.ghost.get('short'):
            return [(st, self.jv(('elem', key, 'other')))]
        out = []
        st0 = st.ghost.get('ph')
        rest = [st]
        for ph, t in (('p', self.K - 1), ('k', self.K)):
            if ph == 'p' and self.first:
                continue
            nxt = []
            for s in rest:
                d = s.decide(('eq', i - t))
                if d is not False:
                    y = s.copy()
                    if d or y.assume(('eq', i - t)) is not False:
                        y.ghost['ph'] = ph
                        out.append((y, self.jv(('elem', key, ph))))
                if d is not True:
                    if d is None and s.assume(('ne', i - t)) is False:
                        continue
                    nxt.append(s)
            rest = nxt
        for s in rest:
            s.ghost['ph'] = 'post' if s.num.gt0(i - self.K) or st0 in ('k', 'post') else 'pre'
            out.append((s, self.jv(('elem', key, 'other'))))
        return out

    # setters
    def setter(self, I, st, inst, name, args):
        self.ob(I, R_FAIL, self.good(st), inst, '%s before version and settings of the document are known to be right' % name, 'fail@' + name)
        m = args[0]
        k = None
        if isinstance(m, Ptr) and isinstance(m.reg.key, tuple) and m.reg.key[0] == 'obj' and m.reg.key[1][0] == 'mapping':
            k = (m.reg.key[1][1] - self.so).scale(Fraction(1, 8))
        okid = k is not None and st.num.ge0(k) and st.num.ge0(-k + self.nset - 1)
        self.ob(I, R_ID, okid, inst, 'setting id is %r' % (k,), 'id@' + name)
        s = self.single(k)
        src = s.key[2] if s is not None and s.key[:2] == ('cname', 'mypaint_brush_setting_from_cname') else None
        obj = ('member', src[1][1]) if src else None
        if name == 'mypaint_mapping_set_base_value':
            self.setbase += 1
            v = I.asnum(st, args[1])
            ok = obj is not None and v == P(self.scalar('dbl', ('get', obj, 'base_value')))
            self.ob(I, R_VAL, ok, inst, 'base value is %r' % (v,), 'base')
            return [(st, None)]
        inp = I.asnum(st, args[1])
        self.ob(I, R_ID, st.num.ge0(inp) and st.num.ge0(-inp + self.nin - 1), inst, 'input id is %r' % (inp,), 'input@' + name)
        t = self.single(inp)
        nm = t.key[2] if t is not None and t.key[:2] == ('cname', 'mypaint_brush_input_from_cname') else None
        pts = ('member', nm[1][1]) if nm else None
        own = pts is not None and obj is not None and inside(pts, ('get', obj, 'inputs'))
        self.ob(I, R_VAL, own, inst, 'input %r does not belong to the setting' % (pts,), 'input-of@' + name)
        if name == 'mypaint_mapping_set_n':
            self.setn += 1
            n = I.asnum(st, args[2])
            ok = st.num.ge0(n) and st.num.ge0(-n + self.maxn) and st.decide(('eq', n - 1)) is False
            self.ob(I, R_N, ok, inst, 'number of points is %r' % (n,), 'n')
            self.ob(I, R_VAL, pts is not None and n == P(sym(('len', pts), '')), inst, 'number of points is %r' % (n,), 'n-of')
            st.ghost['n'] = n
            st.ghost.pop('px', None)
            return [(st, None)]
        if name == 'mypaint_mapping_set_point':
            self.setpt += 1
            i, x, y = (I.asnum(st, a) for a in args[2:5])
            n = st.ghost.get('n')
            self.ob(I, R_N, n is not None and st.num.ge0(i) and st.num.ge0(n - 1 - i), inst, 'point %r of %r' % (i, n), 'index')
            ph = st.ghost.get('ph')
            t = self.K if ph == 'k' else self.K - 1
            if ph in ('p', 'k'):
                cl = dict(st.ghost.get('cls', ()))
                for nm, v in (('x', x), ('y', y)):
                    self.ob(I, R_PT, not (cl.get(v, ALL) & NONFIN), inst, '%s coordinate may not be finite' % nm, 'finite-' + nm)
                ok = st.decide(('eq', i - t)) is True
                for j, v in ((0, x), (1, y)):
                    ok = ok and v == P(self.scalar('dbl', ('elem', ('elem', pts, ph), j)))
                self.ob(I, R_VAL, ok, inst, 'point %r is (%r, %r)' % (i, x, y), 'point')
            if ph == 'k' and not self.first:
                px = st.ghost.get('px')
                self.ob(I, R_PT, px is not None and st.num.ge0(x - px), inst, 'x = %r after x = %r' % (x, px), 'order')
            if ph == 'p':
                st.ghost['px'] = x
            return [(st, None)]
        raise Broken('no model of %s' % name)

    def single(self, p):
        return p.single() if isinstance(p, Poly) and p.single() else None


def load(rep, first):
    pr = par.shared()
    reset()
    ck = Load(rep, pr, first)
    fn = pr.fn(ROOT)
    I = Interp(pr, ck)
    text = heap('text', 'text', 1 << 20, nullable=True)
    n = 0
    where = 'mypaint-brush.c (%s)' % ROOT
    got = set()
    for s, v in I.call_fn(fn, [Ptr(ck.brush), Ptr(text)], State(), 0):
        n += 1
        r = I.asnum(s, v)
        zero = s.decide(('eq', r))
        got.add(zero)
        rep.ob(R_FAIL, zero is True or ck.good(s), where, 'returns %r for a document without right version and settings' % (r,), key='verdict')
        root = ck.member(I, s, 'brush_json', 'p')
        ok = isinstance(root, Ptr) and s.isnull(root.reg) is False and root.reg not in s.ghost.get('freed', ())
        rep.ob(R_ROOT, ok, where, 'document of the brush is %r' % (root,), key='root')
        if s.ghost.get('root'):
            rep.ob(R_ROOT, isinstance(root, Ptr) and ck.isj(root) and ck.jkey(root) == ('root',), where,
                   'parsed document is not kept: %r' % (root,), key='kept')
    rep.ob(R_FAIL, True in got and len(got) > 1, where, 'verdicts: %r' % sorted(map(str, got)), key='both')
    rep.ob(R_VAL, bool(n and ck.setbase and ck.setn and ck.setpt), where, 'the setters are not reached', key='reached')
    rep.analysed(*I.visited)


def run(rep, w):
    pr = w.program()
    rep.assume('JSON arrays have at most 2^30 elements')
    par.run(rep, [(load, (True,)), (load, (False,))], ctx=pr)
    for r, n in ((R_TYPE, 10), (R_LIVE, 20), (R_ID, 6), (R_N, 4), (R_PT, 4), (R_VAL, 6), (R_FAIL, 8), (R_ROOT, 4)):
        rep.require(r, n)
