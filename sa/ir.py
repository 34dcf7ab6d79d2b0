"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the analyses run on."""
import re
from fractions import Fraction
import struct as _struct


class IRError(Exception):
    pass


# ----------------------------------------------------------------- types
class Type:
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        k = self.kind
        if k == 'int':
            return 'i%d' % self.a
        if k == 'array':
            return '[%d x %r]' % (self.a, self.b)
        if k == 'vec':
            return '<%d x %r>' % (self.a, self.b)
        if k == 'named':
            return '%' + self.a
        if k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return k

    def __eq__(self, o):
        return isinstance(o, Type) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


PTR = Type('ptr')
VOID = Type('void')
FLOAT = Type('float')
DOUBLE = Type('double')
I1 = Type('int', 1)
I8 = Type('int', 8)
I32 = Type('int', 32)
I64 = Type('int', 64)
I16 = Type('int', 16)

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
 | "(?:[^"\\]|\\.)*"
 | [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
 | ![a-zA-Z_][-\w.]*\(? | !\d+ | !\{ | !"(?:[^"\\]|\\.)*"
 | \#\d+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | [a-zA-Z_][\w.$]*
 | \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)))


INT = re.compile(r'i(\d+)$')
ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext
 inreg returned immarg nofree nounwind dso_local local_unnamed_addr unnamed_addr tail musttail notail
 fastcc ccc cold internal private external linkonce_odr weak_odr weak hidden protected default
 nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact inbounds volatile disjoint nneg
 willreturn noreturn mustprogress allockind allocsize swiftself nest common available_externally
 appending linkonce dllimport dllexport thread_local writable dead_on_unwind'''.split())


def parse_type(p):
    t = p.next()
    m = INT.match(t)
    if m:
        ty = Type('int', int(m.group(1)))
    elif t in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'token', 'half', 'x86_fp80', 'fp128'):
        ty = Type(t)
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = Type('array', n, e)
    elif t == '<':
        if p.peek() == '{':
            p.next()
            ty = _fields(p)
            p.expect('>')
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            ty = Type('vec', n, e)
    elif t == '{':
        ty = _fields(p)
    elif t.startswith('%'):
        ty = Type('named', t[1:].strip('"'))
    elif t == 'opaque':
        ty = Type('opaque')
    else:
        raise IRError('type? %s in %s' % (t, ' '.join(p.t[:60])))
    # function type: ret (args...)
    if p.peek() == '(' and ty.kind != 'metadata':
        depth = 0
        while True:
            x = p.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        ty = Type('func', ty)
    return ty


def _fields(p):
    fs = []
    while not p.accept('}'):
        fs.append(parse_type(p))
        p.accept(',')
    return Type('struct', tuple(fs))


def skip_attrs(p):
    out = {}
    while True:
        t = p.peek()
        if t is None:
            return out
        if t in ATTR_WORDS:
            p.next()
            out[t] = True
            if p.peek() == '(' and t in ('allockind', 'allocsize', 'unnamed_addr', 'thread_local'):
                depth = 0
                while True:
                    x = p.next()
                    depth += (x == '(') - (x == ')')
                    if depth == 0:
                        break
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
            p.next()
            if p.accept('('):
                p.next()
                p.expect(')')
            else:
                p.next()
        elif t in ('byval', 'sret', 'inalloca', 'preallocated', 'elementtype'):
            p.next()
            p.expect('(')
            out[t] = parse_type(p)
            p.expect(')')
        elif t in ('range', 'initializes', 'captures', 'memory', 'nofpclass'):
            p.next()
            depth = 0
            while True:
                x = p.next()
                depth += (x == '(') - (x == ')')
                if depth == 0:
                    break
        elif t.startswith('#'):
            p.next()
        else:
            return out


# ---------------------------------------------------------------- values
class Const:
    """kind: int(Fraction) float(Fraction|'nan'|'inf'|'-inf') null undef zero agg(list) cstr(bytes) gep expr"""
    __slots__ = ('ty', 'kind', 'v')

    def __init__(self, ty, kind, v=None):
        self.ty, self.kind, self.v = ty, kind, v

    def __repr__(self):
        return 'Const(%r,%s,%r)' % (self.ty, self.kind, self.v)


class Reg:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '%' + self.name


class GRef:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '@' + self.name


def parse_float_hex(t, ty):
    bits = int(t[2:], 16)
    d = _struct.unpack('<d', _struct.pack('<Q', bits))[0]
    if d != d:
        return 'nan'
    if d in (float('inf'), float('-inf')):
        return 'inf' if d > 0 else '-inf'
    return Fraction(d)


def parse_value(p, ty):
    t = p.next()
    if t.startswith('%'):
        return Reg(t[1:].strip('"'))
    if t.startswith('@'):
        return GRef(t[1:].strip('"'))
    if t == 'null':
        return Const(ty, 'null')
    if t in ('undef', 'poison'):
        return Const(ty, 'undef')
    if t == 'zeroinitializer':
        return Const(ty, 'zero')
    if t == 'true':
        return Const(ty, 'int', Fraction(1))
    if t == 'false':
        return Const(ty, 'int', Fraction(0))
    if t.startswith('c"'):
        return Const(ty, 'cstr', unescape(t[2:-1]))
    if t.startswith('0x'):
        return Const(ty, 'float', parse_float_hex(t, ty))
    if re.match(r'-?\d+$', t):
        if ty.kind in ('float', 'double'):
            return Const(ty, 'float', Fraction(t))
        return Const(ty, 'int', Fraction(int(t)))
    if re.match(r'-?\d+\.', t):
        return Const(ty, 'float', Fraction(float(t)) if ty.kind == 'double' else Fraction(float(t)))
    if t in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        if t == '<' and p.peek() == '{':
            p.next()
            close = '}'
        out = []
        while not p.accept(close):
            et = parse_type(p)
            skip_attrs(p)
            out.append((et, parse_value(p, et)))
            p.accept(',')
        if t == '<' and close == '}':
            p.expect('>')
        return Const(ty, 'agg', out)
    if t == 'getelementptr':
        skip_attrs(p)
        p.expect('(')
        st = parse_type(p)
        ops = []
        while p.accept(','):
            et = parse_type(p)
            ops.append((et, parse_value(p, et)))
        p.expect(')')
        return Const(ty, 'gep', (st, ops))
    if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        et = parse_type(p)
        v = parse_value(p, et)
        p.expect('to')
        parse_type(p)
        p.expect(')')
        return Const(ty, 'cast', (t, et, v))
    raise IRError('value? %s in %s' % (t, ' '.join(p.t[:80])))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ---------------------------------------------------------- instructions
class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'block', 'idx', 'fn')

    def __init__(self, op, res=None, ty=None, ops=(), x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, list(ops), x
        self.dbg = None
        self.block = None
        self.fn = None
        self.idx = 0

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.preds = []
        self.succs = []


class Function:
    def __init__(self, name, module):
        self.name, self.module = name, module
        self.params = []      # (name, type, attrs)
        self.ret = None
        self.blocks = {}      # ordered
        self.entry = None
        self.internal = False
        self.dbg = None
        self.vararg = False

    def __repr__(self):
        return '<fn %s>' % self.name

    def insts(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield i


class Global:
    def __init__(self, name, ty, init, const, internal, external):
        self.name, self.ty, self.init = name, ty, init
        self.const, self.internal, self.external = const, internal, external
        self.tls = False
        self.dbg = None


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast'.split())


def parse_inst(line, ty_ctx=None):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    # strip trailing metadata attachments
    line = re.sub(r'(?:, ![a-zA-Z_.\-]+ !\d+)+\s*$', '', line)
    toks = tokenize(line)
    p = P(toks)
    res = None
    if len(toks) > 1 and toks[1] == '=' and toks[0].startswith('%'):
        res = toks[0][1:].strip('"')
        p.i = 2
    pre = skip_attrs(p)
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins = _parse_op(op, p, res)
    ins.dbg = dbg
    return ins


def _typed(p):
    ty = parse_type(p)
    skip_attrs(p)
    return ty, parse_value(p, ty)


def _parse_op(op, p, res):
    if op in BINOPS:
        fl = skip_attrs(p)
        ty, a = _typed(p)
        p.expect(',')
        b = parse_value(p, ty)
        return Inst(op, res, ty, [a, b], fl)
    if op in CASTS:
        skip_attrs(p)
        ty, a = _typed(p)
        p.expect('to')
        to = parse_type(p)
        return Inst(op, res, to, [a], ty)
    if op == 'fneg':
        skip_attrs(p)
        ty, a = _typed(p)
        return Inst(op, res, ty, [a])
    if op == 'freeze':
        ty, a = _typed(p)
        return Inst(op, res, ty, [a])
    if op in ('icmp', 'fcmp'):
        skip_attrs(p)
        pred = p.next()
        ty, a = _typed(p)
        p.expect(',')
        b = parse_value(p, ty)
        return Inst(op, res, I1, [a, b], (pred, ty))
    if op == 'alloca':
        skip_attrs(p)
        ty = parse_type(p)
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                nt, n = _typed(p)
        return Inst(op, res, PTR, [n] if n is not None else [], ty)
    if op == 'load':
        fl = skip_attrs(p)
        if p.peek() == 'atomic':
            p.next()
            fl = dict(fl or {}, atomic=True) if not isinstance(fl, (set, list)) else fl
            skip_attrs(p)
        ty = parse_type(p)
        p.expect(',')
        _, a = _typed(p)
        return Inst(op, res, ty, [a], fl)
    if op == 'store':
        fl = skip_attrs(p)
        if p.peek() == 'atomic':
            p.next()
            fl = dict(fl or {}, atomic=True) if not isinstance(fl, (set, list)) else fl
            skip_attrs(p)
        ty, v = _typed(p)
        p.expect(',')
        _, a = _typed(p)
        return Inst(op, None, ty, [v, a], fl)
    if op == 'getelementptr':
        skip_attrs(p)
        st = parse_type(p)
        ops = []
        while p.accept(','):
            ops.append(_typed(p))
        return Inst(op, res, PTR, [o[1] for o in ops], (st, [o[0] for o in ops]))
    if op == 'br':
        if p.accept('label'):
            return Inst(op, None, None, [], [p.next()[1:].strip('"')])
        ty, c = _typed(p)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        b = p.next()[1:].strip('"')
        return Inst(op, None, None, [c], [a, b])
    if op == 'switch':
        ty, c = _typed(p)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            _, v = _typed(p)
            p.expect(',')
            p.expect('label')
            cases.append((v, p.next()[1:].strip('"')))
        return Inst(op, None, ty, [c], (d, cases))
    if op == 'ret':
        if p.peek() == 'void':
            return Inst(op, None, VOID, [])
        ty, v = _typed(p)
        return Inst(op, None, ty, [v])
    if op == 'unreachable':
        return Inst(op)
    if op == 'phi':
        skip_attrs(p)
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            b = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Inst(op, res, ty, [v for v, _ in inc], [b for _, b in inc])
    if op == 'select':
        skip_attrs(p)
        _, c = _typed(p)
        p.expect(',')
        ty, a = _typed(p)
        p.expect(',')
        _, b = _typed(p)
        return Inst(op, res, ty, [c, a, b])
    if op == 'call':
        skip_attrs(p)
        ty = parse_type(p)
        if ty.kind == 'func':
            ty = ty.a
        callee = parse_value(p, PTR) if p.peek() != 'asm' else None
        if callee is None:
            raise IRError('inline asm')
        p.expect('(')
        args = []
        attrs = []
        while not p.accept(')'):
            at = parse_type(p)
            if at.kind == 'metadata':
                # skip to , or )
                depth = 0
                while True:
                    x = p.peek()
                    if depth == 0 and x in (',', ')'):
                        break
                    p.next()
                    depth += (x in ('(', '{', '!{') or (x.startswith('!') and x.endswith('('))) - (x in (')', '}'))
                args.append((at, None))
                attrs.append({})
            else:
                fl = skip_attrs(p)
                args.append((at, parse_value(p, at)))
                attrs.append(fl)
            p.accept(',')
        return Inst(op, res, ty, [callee] + [a[1] for a in args], ([a[0] for a in args], attrs))
    if op in ('extractvalue', 'insertvalue', 'extractelement', 'insertelement'):
        ty, a = _typed(p)
        ops = [a]
        idx = []
        tys = [ty]
        while p.accept(','):
            if op in ('extractvalue', 'insertvalue') and re.match(r'\d+$', p.peek()):
                idx.append(int(p.next()))
            else:
                t2, v = _typed(p)
                tys.append(t2)
                ops.append(v)
        return Inst(op, res, ty, ops, (tys, idx))
    if op in ('atomicrmw', 'cmpxchg'):
        while p.peek() in ('weak', 'volatile'):
            p.next()
        how = p.next() if op == 'atomicrmw' else None
        _, a = _typed(p)
        p.expect(',')
        ty, v = _typed(p)
        if op == 'cmpxchg':
            p.expect(',')
            ty, v = _typed(p)
        return Inst(op, res, ty, [a, v], {'atomic': True, 'how': how})
    if op in ('fence', 'va_arg', 'shufflevector'):
        return Inst('other', res, None, [], op)
    raise IRError('unknown op %s' % op)


# ------------------------------------------------------------- metadata
class Meta:
    """lazily parsed metadata nodes"""

    def __init__(self):
        self.raw = {}
        self.cache = {}

    def node(self, n):
        if n in self.cache:
            return self.cache[n]
        r = self.raw.get(n)
        out = None
        if r is not None:
            m = re.match(r'(?:distinct )?!(\w+)\((.*)\)\s*$', r, re.S)
            if m:
                out = {'_': m.group(1)}
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|!DIExpression\([^)]*\)|[^,]+)', m.group(2)):
                    if v.startswith('"'):
                        out[k] = v[1:-1]
                    elif re.match(r'!\d+$', v):
                        out[k] = ('ref', int(v[1:]))
                    elif re.match(r'-?\d+$', v):
                        out[k] = int(v)
                    else:
                        out[k] = v
            else:
                m = re.match(r'(?:distinct )?!\{(.*)\}\s*$', r, re.S)
                if m:
                    out = {'_': 'list', 'items': [int(x) for x in re.findall(r'!(\d+)', m.group(1))]}
        self.cache[n] = out
        return out

    def ref(self, d, k):
        v = d.get(k) if d else None
        if isinstance(v, tuple):
            return self.node(v[1])
        return None


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.meta = Meta()
        self.source = None

    # --- layout (x86-64)
    def size_align(self, ty):
        k = ty.kind
        if k == 'int':
            n = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.a)
            if n is None:
                n = 1
                while n * 8 < ty.a:
                    n *= 2
            return n, n
        if k == 'float':
            return 4, 4
        if k in ('double', 'ptr'):
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'array':
            s, a = self.size_align(ty.b)
            return s * ty.a, a
        if k == 'vec':
            s, a = self.size_align(ty.b)
            return s * ty.a, s * ty.a
        if k in ('named', 'struct'):
            off, al = 0, 1
            for f in self.fields(ty):
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('size of %r' % ty)

    def fields(self, ty):
        if ty.kind == 'named':
            ty = self.structs[ty.a]
        if ty.kind == 'opaque':
            raise IRError('opaque struct')
        return ty.a

    def field_offset(self, ty, idx):
        off = 0
        for i, f in enumerate(self.fields(ty)):
            s, a = self.size_align(f)
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise IRError('field index')

    def leaves(self, ty, base=0):
        """[(offset, scalar type)]"""
        k = ty.kind
        if k in ('named', 'struct'):
            out = []
            for i, f in enumerate(self.fields(ty)):
                o, _ = self.field_offset(ty, i)
                out += self.leaves(f, base + o)
            return out
        if k in ('array', 'vec'):
            s, _ = self.size_align(ty.b)
            out = []
            sub = self.leaves(ty.b, 0)
            for i in range(ty.a):
                out += [(base + i * s + o, t) for o, t in sub]
            return out
        return [(base, ty)]

    # --- debug info
    def loc(self, dbg):
        """-> (file, line)"""
        n = self.meta.node(dbg) if dbg is not None else None
        if not n or 'line' not in n:
            return (self.source, 0)
        sc = self.meta.ref(n, 'scope')
        f = self._file(sc)
        return (f or self.source, n['line'])

    def _file(self, sc):
        d = 0
        while sc and d < 50:
            f = self.meta.ref(sc, 'file')
            if f:
                return f.get('filename')
            sc = self.meta.ref(sc, 'scope')
            d += 1
        return None

    def di_struct(self, name):
        """debug-info members of struct/typedef `name`: [(member, byte offset, byte size)]"""
        for n in list(self.meta.raw):
            if 'DICompositeType' not in self.meta.raw[n] and 'DIDerivedType' not in self.meta.raw[n]:
                continue
            d = self.meta.node(n)
            if d.get('name') != name:
                continue
            t = d
            k = 0
            while t and t['_'] == 'DIDerivedType' and k < 5:
                t = self.meta.ref(t, 'baseType')
                k += 1
            if t and t['_'] == 'DICompositeType' and 'elements' in t:
                els = self.meta.ref(t, 'elements')
                if not els or els['_'] != 'list':
                    continue
                out = []
                for e in els['items']:
                    m = self.meta.node(e)
                    if m and m['_'] == 'DIDerivedType' and 'member' in str(m.get('tag')):
                        out.append((m.get('name'), int(m.get('offset', 0)) // 8, int(m.get('size', 0)) // 8))
                if out:
                    return out
        return None

    def di_enums(self):
        """{enumerator: value} over all enumerations"""
        out = {}
        for n, r in self.meta.raw.items():
            if '!DIEnumerator(' in r:
                d = self.meta.node(n)
                out[d['name']] = d['value']
        return out


HEADER = re.compile(r'^define\s')


def parse_module(path, name=None):
    text = open(path, encoding='utf-8', errors='replace').read()
    m = Module(name or path)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('source_filename'):
            m.source = re.search(r'"(.*)"', ln).group(1)
        elif ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            m.structs[nm[1:].strip('"')] = parse_type(P(tokenize(rest)))
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            parse_function(m, ln, lines[i + 1:j])
            i = j
        elif ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
            if mm:
                m.declares[mm.group(1).strip('"')] = ln
        elif ln.startswith('!') and ' = ' in ln:
            mm = re.match(r'!(\d+) = (.*)', ln)
            if mm:
                m.meta.raw[int(mm.group(1))] = mm.group(2)
        i += 1
    return m


def parse_global(m, ln):
    ln0 = ln
    ln = re.sub(r'(?:, ![a-zA-Z_.\-]+ !\d+)+\s*$', '', ln)
    toks = tokenize(ln)
    p = P(toks)
    name = p.next()[1:].strip('"')
    p.expect('=')
    attrs = skip_attrs(p)
    kw = p.next()
    if kw == 'alias':
        return
    while kw not in ('global', 'constant'):
        kw = p.next()
    ty = parse_type(p)
    init = None
    if p.peek() not in (None, ',') and 'external' not in attrs:
        init = parse_value(p, ty)
    g = Global(name, ty, init, kw == 'constant', 'internal' in attrs or 'private' in attrs, 'external' in attrs)
    g.tls = 'thread_local' in attrs
    mm = re.search(r'!dbg !(\d+)', ln0)
    g.dbg = int(mm.group(1)) if mm else None
    m.globals[name] = g


def parse_function(m, head, body):
    mm = re.search(r'!dbg !(\d+)', head)
    dbg = int(mm.group(1)) if mm else None
    p = P(tokenize(re.sub(r' !dbg !\d+', '', head)))
    p.expect('define')
    attrs = skip_attrs(p)
    ret = parse_type_nofn(p)
    name = p.next()[1:].strip('"')
    f = Function(name, m)
    f.ret = ret
    f.dbg = dbg
    f.internal = 'internal' in attrs
    p.expect('(')
    k = 0
    while not p.accept(')'):
        if p.accept('...'):
            f.vararg = True
            continue
        ty = parse_type(p)
        fl = skip_attrs(p)
        if p.peek() and p.peek().startswith('%'):
            nm = p.next()[1:].strip('"')
        else:
            nm = str(k)
        f.params.append((nm, ty, fl))
        k += 1
        p.accept(',')
    cur = None
    first = True
    j = 0
    while j < len(body):
        ln = body[j]
        s = ln.strip()
        j += 1
        if not s or s.startswith(';'):
            continue
        if not ln.startswith(' ') and s.split(';')[0].strip().endswith(':'):
            nm = s.split(';')[0].strip()[:-1].strip('"')
            cur = Block(nm)
            f.blocks[nm] = cur
            first = False
            continue
        if first:
            cur = Block(str(len(f.params)) if not any(x for x in ()) else 'entry')
            f.blocks[cur.name] = cur
            first = False
        if s.startswith('switch') and s.endswith('['):
            while not body[j].strip().startswith(']'):
                s += ' ' + body[j].strip()
                j += 1
            s += ' ' + body[j].strip()
            j += 1
        if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s:
            continue
        if s.startswith('#dbg_'):
            continue
        ins = parse_inst(s)
        ins.block = cur
        ins.fn = f
        ins.idx = len(cur.insts)
        cur.insts.append(ins)
    f.entry = next(iter(f.blocks.values()))
    for b in f.blocks.values():
        t = b.insts[-1]
        if t.op == 'br':
            b.succs = list(dict.fromkeys(t.x))
        elif t.op == 'switch':
            b.succs = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
    for b in f.blocks.values():
        for s in b.succs:
            f.blocks[s].preds.append(b.name)
    m.functions[name] = f


def parse_type_nofn(p):
    """type of a definition: do not swallow '(' of the parameter list (name comes first, so safe)"""
    return parse_type(p)
