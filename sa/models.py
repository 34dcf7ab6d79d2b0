"""Models of external functions (C library, glib, json-c, compiler intrinsics)."""
import re
from fractions import Fraction
from . import ir
from .dom import C, P, ZERO, sym, SYMS, Poly
from .interp import Ptr, region, RegMem, Bool, UNDEF, FnV
from . import interp as _i

EXACT = {}
PREFIX = []


def model(*names):
    def deco(f):
        for n in names:
            if n.endswith('*'):
                PREFIX.append((n[:-1], f))
            else:
                EXACT[n] = f
        return f
    return deco


def lookup(name):
    f = EXACT.get(name)
    if f is not None:
        return f
    for p, f in PREFIX:
        if name.startswith(p):
            return f
    return None


def num(I, st, a, inst):
    return I.asnum(st, a, ('arg', I.iid(inst)))


@model('llvm.memset*', 'memset')
def memset(I, st, i, name, args, ctx):
    I.memset(st, args[0], num(I, st, args[1], i), num(I, st, args[2], i), i, ctx)
    return args[0]


@model('llvm.memcpy*', 'llvm.memmove*', 'memcpy', 'memmove')
def memcpy(I, st, i, name, args, ctx):
    I.memcpy(st, args[0], args[1], num(I, st, args[2], i), i, ctx)
    return args[0]


def alloc(I, st, i, ctx, size, zero=False, kind='heap'):
    base = ('h', ctx, I.iid(i))
    r = region(base, 'heap', 'heap@%s' % I.where(i), nullable=True, uninit=not zero)
    k = 0
    while r in st.mem and not st.ghost.get('freed:%d' % r.id):
        k += 1
        r = region(base + (k,), 'heap', 'heap@%s#%d' % (I.where(i), k), nullable=True, uninit=not zero)
        if k > 8:
            break
    r.size = size if (r.size is None or r.size == size) else None
    st.mem[r] = RegMem(0, not zero)
    if zero:
        st.mem[r].fills = ((ZERO, size, ('zero',)),)
    st.null.pop(r, None)
    return Ptr(r)


@model('malloc', 'g_malloc', 'g_malloc_n')
def malloc(I, st, i, name, args, ctx):
    return alloc(I, st, i, ctx, I.uview(st, num(I, st, args[0], i), 64, i))


@model('calloc', 'g_malloc0', 'g_malloc0_n')
def calloc(I, st, i, name, args, ctx):
    n = num(I, st, args[0], i)
    if len(args) > 1:
        n = I.mul(st, n, num(I, st, args[1], i))        # calloc checks the product
    return alloc(I, st, i, ctx, n, zero=True)


@model('free', 'g_free')
def free(I, st, i, name, args, ctx):
    return None


@model('floor', 'floorf', 'llvm.floor*')
def m_floor(I, st, i, name, args, ctx):
    return I.floor(st, num(I, st, args[0], i))


@model('ceil', 'ceilf', 'llvm.ceil*')
def m_ceil(I, st, i, name, args, ctx):
    return -I.floor(st, -num(I, st, args[0], i))


@model('fabs', 'fabsf', 'llvm.fabs*')
def m_fabs(I, st, i, name, args, ctx):
    p = num(I, st, args[0], i)
    if st.num.ge0(p):
        return p
    if st.num.ge0(-p):
        return -p
    s = sym(('fabs', p), None, 0, None, p.isint(), ('fabs', p))
    st.num.settle(s.id)
    st.num.assume_ge(P(s) - p)
    st.num.assume_ge(P(s) + p)
    return P(s)


@model('abs', 'labs', 'llvm.abs*')
def m_abs(I, st, i, name, args, ctx):
    return m_fabs(I, st, i, name, args, ctx)


@model('round', 'roundf', 'llvm.round*', 'lround', 'lroundf')
def m_round(I, st, i, name, args, ctx):
    p = num(I, st, args[0], i)
    if p.isint():
        return p
    if st.num.ge0(p):
        return I.floor(st, p + C(Fraction(1, 2)))
    return I.defined(st, sym(('round', p), None, None, None, True, ('round', p)))


@model('trunc', 'truncf', 'llvm.trunc*')
def m_trunc(I, st, i, name, args, ctx):
    return I.truncate(st, num(I, st, args[0], i))


def fun(name, args, lo=None, hi=None):
    return P(sym(('fun', name.rstrip('f') if len(name) > 4 else name) + tuple(args), None, lo, hi))


@model('cos', 'sin', 'cosf', 'sinf', 'llvm.cos*', 'llvm.sin*')
def m_trig(I, st, i, name, args, ctx):
    p = num(I, st, args[0], i)
    b = 'cos' if 'cos' in name else 'sin'
    if p.isconst() and p.cval() == 0:
        return C(1 if b == 'cos' else 0)
    return P(sym(('fun', b, p), None, -1, 1, False, tag=(b, p)))


@model('sqrt', 'sqrtf', 'llvm.sqrt*')
def m_sqrt(I, st, i, name, args, ctx):
    p = num(I, st, args[0], i)
    if not st.num.ge0(p):
        I.alarm(st, 'sqrtneg', i, 'square root of %r, which may be negative' % (p,))
    if p.isconst() and p.cval() >= 0:
        from math import isqrt
        f = Fraction(p.cval())
        a, b = isqrt(f.numerator), isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return C(Fraction(a, b))
        v = Fraction(float(f) ** 0.5)
        return C(v)
    return P(sym(('fun', 'sqrt', p), None, 0, None))


@model('exp', 'expf')
def m_exp(I, st, i, name, args, ctx):
    p = num(I, st, args[0], i)
    s = sym(('fun', 'exp', p), None, 0, None)
    if st.num.ge0(-p):
        st.num.set_range(s.id, 0, 1)
    if st.num.ge0(p):
        st.num.set_range(s.id, 1, None)
    st.num._addfact(P(s), True)
    return P(s)


@model('pow', 'powf')
def m_pow(I, st, i, name, args, ctx):
    a, b = num(I, st, args[0], i), num(I, st, args[1], i)
    if b.isconst() and b.cval() == 2:
        return I.mul(st, a, a)
    lo = 0 if st.num.ge0(a) else None
    hi = 1 if lo == 0 and st.num.ge0(b) and st.num.ge0(C(1) - a) else None
    s = sym(('fun', 'pow', a, b), None, lo, None)
    if hi is not None:
        st.num.assume_ge(C(1) - P(s))
    return P(s)


@model('log', 'logf', 'log2', 'log2f', 'log10', 'log10f', 'tan', 'tanf', 'asin', 'acos', 'sinh', 'cosh', 'tanh')
def m_fun(I, st, i, name, args, ctx):
    return P(sym(('fun', name, num(I, st, args[0], i))))


@model('atan2', 'atan2f')
def m_atan2(I, st, i, name, args, ctx):
    a, b = num(I, st, args[0], i), num(I, st, args[1], i)
    return P(sym(('fun', 'atan2', a, b), None, Fraction(-3141593, 1000000), Fraction(3141593, 1000000)))


@model('hypot', 'hypotf')
def m_hypot(I, st, i, name, args, ctx):
    a, b = num(I, st, args[0], i), num(I, st, args[1], i)
    s = sym(('fun', 'hypot') + tuple(sorted((a, b), key=hash)), None, 0, None)
    for p in (a, b):
        st.num.assume_ge(P(s) - p)
        st.num.assume_ge(P(s) + p)
    return P(s)


@model('fmod', 'fmodf')
def m_fmod(I, st, i, name, args, ctx):
    a, b = num(I, st, args[0], i), num(I, st, args[1], i)
    if not (b.isconst() and b.cval() != 0):
        I.check_div0(st, b, i, 'fdiv0')
    s = sym(('fun', 'fmod', a, b))
    lo, hi = st.num.range(b)
    if hi is not None and st.num.ge0(b):
        st.num.set_range(s.id, 0 if st.num.ge0(a) else -hi, hi)
    if st.num.ge0(b):
        if st.num.ge0(a):
            st.num.assume_ge(P(s))
        st.num.assume_ge(b - P(s))
        st.num.assume_ge(b + P(s))
    return P(s)


@model('fmax', 'fmaxf', 'llvm.maxnum*', 'fmin', 'fminf', 'llvm.minnum*', 'llvm.smax*', 'llvm.smin*', 'llvm.umax*', 'llvm.umin*')
def m_minmax(I, st, i, name, args, ctx):
    a, b = num(I, st, args[0], i), num(I, st, args[1], i)
    mx = 'max' in name
    d = st.decide(('ge', a - b))
    if d is not None:
        return (a if d else b) if mx else (b if d else a)
    k = 'max' if mx else 'min'
    s = sym(('mm', k, a, b), k, None, None, a.isint() and b.isint(), (k, a, b))
    st.num.settle(s.id)
    for x in (a, b):
        st.num.assume_ge((P(s) - x) if mx else (x - P(s)))
    return P(s)


@model('llvm.fmuladd*', 'llvm.fma*', 'fma', 'fmaf')
def m_fma(I, st, i, name, args, ctx):
    a, b, c = (num(I, st, x, i) for x in args[:3])
    return I.mul(st, a, b) + c


@model('llvm.is.fpclass*')
def m_fpclass(I, st, i, name, args, ctx):
    m = num(I, st, args[1], i)
    fin = 0x1F8
    if m.isconst():
        k = int(m.cval())
        if k & 0x3 and not k & fin:          # nan classes
            return Bool(_i.FALSE)
        if not (k & fin):                    # inf classes
            return Bool(_i.FALSE)
        if (k & fin) == fin:
            return Bool(_i.TRUE)
    return Bool(('unk', ('fpc', ctx, I.iid(i))))


@model('isfinite', 'finite', 'finitef', '__finite', '__finitef')
def m_fin(I, st, i, name, args, ctx):
    return C(1)


@model('isnan', '__isnan', '__isnanf', '__isinf', '__isinff', 'isinf')
def m_nan(I, st, i, name, args, ctx):
    return C(0)


@model('__assert_fail', 'abort', 'exit', 'g_assertion_message_expr', '__assert_rtn')
def m_assert(I, st, i, name, args, ctx):
    I.alarm(st, 'assert', i, 'assertion can fail' if 'assert' in name else 'call of ' + name)
    return []


@model('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'perror', 'fwrite', 'vprintf', 'vfprintf')
def m_print(I, st, i, name, args, ctx):
    return I.fresh(('prn', ctx, I.iid(i)), i.ty) if i.ty.kind != 'void' else None


@model('rand', 'random')
def m_rand(I, st, i, name, args, ctx):
    return P(sym(('rand', ctx, I.iid(i)), 'rand', 0, (1 << 31) - 1, True))


@model('strcmp', 'strncmp', 'strcasecmp', 'memcmp')
def m_strcmp(I, st, i, name, args, ctx):
    return P(sym(('strcmp',) + tuple(repr(a) for a in args), None, -(1 << 31), (1 << 31) - 1, True))


@model('strlen')
def m_strlen(I, st, i, name, args, ctx):
    return P(sym(('strlen', repr(args[0])), None, 0, (1 << 40), True))


@model('gettext', 'dgettext', 'dcgettext', 'g_dgettext')
def m_gettext(I, st, i, name, args, ctx):
    return Ptr(region(('gettext', repr(args[1] if name != 'gettext' else args[0])), 'unk'))


@model('omp_get_thread_num')
def m_omp(I, st, i, name, args, ctx):
    return P(sym(('omp', ctx, I.iid(i)), 'thread', 0, (1 << 31) - 1, True))


@model('gegl_rectangle_set')
def gegl_rectangle_set(I, st, i, name, args, ctx):
    for k in range(4):
        I.store(st, Ptr(args[0].reg, args[0].off + C(4 * k)), args[1 + k], ir.Type('int', 32), i, ctx)
    return None


@model('gegl_rectangle_bounding_box')
def gegl_rectangle_bounding_box(I, st, i, name, args, ctx):
    for k in range(4):
        I.store(st, Ptr(args[0].reg, args[0].off + C(4 * k)), I.fresh(('bbox', ctx, I.iid(i), k), ir.Type('int', 32)), ir.Type('int', 32), i, ctx)
    return None
