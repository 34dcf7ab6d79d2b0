"""Shared parts of the checks on the dab pixel functions (brushmodes.c)."""
from fractions import Fraction
from . import ir, dom
from .dom import C, P, ZERO, sym, SYMS, Poly
from .interp import Ptr, region, RegMem, Checker, Interp, State, reset, AnalysisError
from .report import Broken

ONE15 = 1 << 15
PREFIX = 'draw_dab_pixels_BlendMode_'
MODES = ['Normal', 'Normal_Paint', 'Posterize', 'Color', 'Normal_and_Eraser', 'Normal_and_Eraser_Paint',
         'LockAlpha', 'LockAlpha_Paint']
ALPHA_KEEPING = ['LockAlpha', 'LockAlpha_Paint', 'Color', 'Posterize']
SAMPLERS = ['get_color_pixels_legacy', 'get_color_pixels_accumulate']
# parameters after (mask, rgba)
PARAMS = {
    'Normal': ['color_r', 'color_g', 'color_b', 'opacity'],
    'Normal_Paint': ['color_r', 'color_g', 'color_b', 'opacity'],
    'Posterize': ['opacity', 'posterize_num'],
    'Color': ['color_r', 'color_g', 'color_b', 'opacity'],
    'Normal_and_Eraser': ['color_r', 'color_g', 'color_b', 'color_a', 'opacity'],
    'Normal_and_Eraser_Paint': ['color_r', 'color_g', 'color_b', 'color_a', 'opacity'],
    'LockAlpha': ['color_r', 'color_g', 'color_b', 'opacity'],
    'LockAlpha_Paint': ['color_r', 'color_g', 'color_b', 'opacity'],
}


def blend_functions(pr):
    """every blend mode function of the library; the known ones must exist"""
    fs = {}
    for n, f in pr.functions.items():
        if n.startswith(PREFIX):
            fs[n[len(PREFIX):]] = f
    missing = [m for m in MODES if m not in fs]
    if missing:
        raise Broken('blend mode functions vanished: %s' % missing)
    return fs


def channel(off):
    """channel 0..3 of a byte offset into a tile, assuming pixel-aligned symbolic parts; None if not a channel"""
    c = off.t.get((), 0)
    if type(c) is Fraction:
        return None
    k = c % 8
    return k // 2 if k % 2 == 0 else None


def pixel_of(off):
    """offset of the pixel that a channel offset lies in"""
    c = off.t.get((), 0)
    return off - (c % 8)


def position(p):
    """does p advance a loop-carried counter linearly (and not combine pixel data)?"""
    ss = p.syms()
    return p.degree() == 1 and any(SYMS[s].key[0] in ('n', 'lo', 'lg') for s in ss) and \
        all(SYMS[s].key[0] in ('n', 'lo', 'lg') or (SYMS[s].name or '').startswith('mask[') for s in ss)


class PixelChecker(Checker):
    """mask/rgba walkers: a valid pixel behind every rgba access, mask values in 0..2^15"""
    maxstates = 96
    fcap = (16, 4)
    stop = ('fastpow', 'fastlog2', 'fastpow2', 'fastexp', 'rgb_to_spectral', 'spectral_to_rgb')

    def __init__(self, rep):
        self.rep = rep
        self.mask = self.rgba = None

    def setup(self, I, fn, params, extra=None):
        """argument values; params = names after mask, rgba"""
        self.mask = region(('arg', 'mask'), 'arg', 'mask')
        self.rgba = region(('arg', 'rgba'), 'arg', 'rgba')
        args = [Ptr(self.mask), Ptr(self.rgba)]
        self.par = {}
        if len(fn.params) != 2 + len(params):
            raise Broken('%s has %d parameters, expected %d' % (fn.name, len(fn.params), 2 + len(params)))
        for n, (nm, ty, _) in zip(params, fn.params[2:]):
            lo, hi = (1, 128) if n == 'posterize_num' else (0, ONE15)
            s = sym(('par', n), n, lo, hi, True)
            self.par[n] = P(s)
            args.append(P(s))
        return args

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.mask:
            return P(sym(key, 'mask[%r]' % off, 0, ONE15, True))
        if reg is self.rgba and ty.kind == 'int' and ty.a == 16:
            c = channel(off)
            if c is None:
                raise AnalysisError('odd pixel offset %r' % off)
            X = pixel_of(off)
            ver = key[2]
            a = sym(('px', ver, X, 3), 'A[%r]' % X, 0, ONE15, True)
            if c == 3:
                return P(a)
            s = sym(('px', ver, X, c), '%s[%r]' % ('RGB'[c], X), 0, ONE15, True)
            st.num.assume_ge(P(a) - P(s))
            return P(s)
        return None

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('rgb_to_spectral', 'spectral_to_rgb'):
            out = args[-1]
            n, lo, hi = (10, 0, None) if name == 'rgb_to_spectral' else (3, 0, 1)
            if name == 'spectral_to_rgb':
                for k in range(10):
                    I.load(st, Ptr(args[0].reg, args[0].off + 4 * k), ir.FLOAT, inst, ctx)
            for k in range(n):
                v = P(sym((name, ctx, I.iid(inst), k), '%s[%d]' % (name, k), lo, hi))
                I.store(st, Ptr(out.reg, out.off + 4 * k), v, ir.FLOAT, inst, ctx)
            self.rep.analysed(name)
            return [(st, None)]
        if name == 'fastpow':
            return [(st, P(sym(('fastpow', ctx, I.iid(inst)), 'fastpow', 0, None)))]
        return None

    # ---- final value of a pixel's channels in a state
    def channel_value(self, I, st, X, c):
        return I.read(st, self.rgba, X + 2 * c, 2, ir.I16, None, ('final', 0))

    def written_pixels(self, st, H=None):
        m = st.mem.get(self.rgba)
        if m is None:
            return []
        h = H.mem.get(self.rgba) if H is not None else None
        out = []
        for o, (s, v) in m.cells.items():
            if h is not None and h.cells.get(o) == (s, v):
                continue
            X = pixel_of(o)
            if X not in out:
                out.append(X)
        return out


class BlendSemantics(PixelChecker):
    """validity, alpha and arithmetic obligations"""
    ARITH = {'sovf': 'no signed overflow', 'wrap': 'no integer wrap', 'div0': 'no integer division by zero',
             'fdiv0': 'no float division by zero', 'fptoint': 'float to integer conversion in range',
             'uninit': 'no uninitialised read', 'assert': 'no reachable abort'}

    def __init__(self, rep, mode, rules=('valid', 'arith', 'alpha')):
        PixelChecker.__init__(self, rep)
        self.mode = mode
        self.rules = rules
        self.pixels = 0
        self.alarmed = {}
        self.formula = None

    def alarm(self, I, st, kind, inst, msg):
        if kind == 'sovf' and I.subject is not None and position(I.subject):
            # counters of the walk itself (a tile has 64*64 pixels); how they move is property C04
            self.rep.assume('the mask walk stays inside one tile, so its position counters do not overflow')
            self.alarmed.setdefault(kind, set()).add(I.iid(inst))
            return
        if 'arith' in self.rules and kind in self.ARITH:
            self.alarmed.setdefault(kind, set()).add(I.iid(inst))
            self.rep.ob(self.ARITH[kind], False, I.where(inst), '%s: %s' % (self.mode, msg),
                        key='%s@%s:%s' % (kind, self.mode, inst.fn.name))

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if not I.recording:
            return
        if ptr.reg is self.mask:
            self.rep.ob('mask is read-only', False, I.where(inst), 'store to the mask')
            return
        if ptr.reg is not self.rgba:
            return
        if size != 2 or channel(ptr.off) is None:
            raise AnalysisError('store of %d bytes into a pixel at %s' % (size, I.where(inst)))
        if 'valid' in self.rules:
            v = I.asnum(st, val)
            lo = st.num.ge0(v)
            hi = st.num.ge0(C(ONE15) - v)
            self.rep.ob('stored channel in 0..2^15', lo and hi, I.where(inst),
                        '%s: channel %d := %r, range %s' % (self.mode, channel(ptr.off), v, st.num.range(v)),
                        key='range@%s' % self.mode)

    def finish_pixel(self, I, st, X, where):
        A = self.channel_value(I, st, X, 3)
        A = I.asnum(st, A)
        for c in range(3):
            v = I.asnum(st, self.channel_value(I, st, X, c))
            if 'valid' in self.rules:
                ok = st.num.ge0(A - v)
                self.rep.ob('colour channel <= alpha', ok, where,
                            '%s: channel %d = %r, alpha = %r, slack %s' % (self.mode, c, v, A, None if ok else st.num.range(A - v)),
                            key='premult@%s' % self.mode)
        if 'alpha' in self.rules:
            h = st.mem[self.rgba]
            a0 = P(sym(('px', h.ver, X, 3), 'A[%r]' % X, 0, ONE15, True))
            self.rep.ob('alpha unchanged', A == a0 or (st.num.ge0(A - a0) and st.num.ge0(a0 - A)), where,
                        '%s: alpha becomes %r' % (self.mode, A), key='alpha@%s' % self.mode)
        if self.formula:
            self.formula(self, I, st, X, where)

    def on_backedge(self, I, H, s, fn, loop, ctx):
        if not I.recording:
            return
        for X in self.written_pixels(s, H):
            self.pixels += 1
            self.finish_pixel(I, s, X, '%s (%s)' % (fn.module.name, fn.name))

    def on_ret(self, I, st, fn, val, ctx):
        if I.recording and fn.name.startswith(PREFIX):
            for X in self.written_pixels(st):
                self.finish_pixel(I, st, X, '%s (%s)' % (fn.module.name, fn.name))


def analyse(pr, rep, mode, fn, checker):
    reset()
    I = Interp(pr, checker)
    I.stack = []
    st = State()
    params = PARAMS.get(mode)
    if params is None:
        raise Broken('unknown blend mode function %s: add its parameters' % fn.name)
    args = checker.setup(I, fn, params)
    rets = I.call_fn(fn, args, st, 0)
    if not rets:
        raise Broken('%s never returns in the analysis' % fn.name)
    rep.analysed(*I.visited)
    rep.count('instructions_interpreted', I.ninst)
    for k, what in getattr(checker, 'ARITH', {}).items():
        bad = {w for w in checker.alarmed.get(k, ())}
        for iid in I.checked.get(k, ()):
            if iid not in bad and 'arith' in getattr(checker, 'rules', ()):
                rep.ob(what, True)
    return I
