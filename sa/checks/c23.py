"""C23 The public API is complete."""
import os
from .. import ir, irq, frontend
from ..dom import C, P, sym, Poly
from ..interp import Checker, Interp, State, Ptr, FnV, region, reset, Parts
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'declaration/definition matching over the installed headers; abstract interpretation of backend constructors '
                 'and of the interface wrappers',
    'note': 'installed headers as listed in Makefile.am; both backends (GEGL when its headers are installed)',
    'explanation': 'declared functions are looked up among the definitions; constructors are interpreted and the operation table at '
                   'their return is read; wrappers are interpreted with symbolic arguments',
    'trusted': [],
}
R_DEF = 'declared function is defined in the library'
R_OP = 'backend installs the operation'
R_SIG = 'installed operation takes what the interface passes'
R_CHK = 'operation is only called after it was checked'
R_FWD = 'interface call hands its arguments on unchanged and in order'
REQUIRED = ['draw_dab', 'get_color', 'begin_atomic', 'end_atomic', 'destroy']
WRAP = {'draw_dab': 'mypaint_surface_draw_dab', 'get_color': 'mypaint_surface_get_color', 'begin_atomic': 'mypaint_surface_begin_atomic',
        'end_atomic': 'mypaint_surface_end_atomic', 'save_png': 'mypaint_surface_save_png'}
TILED = {'tile_request_start': 'mypaint_tiled_surface_tile_request_start', 'tile_request_end': 'mypaint_tiled_surface_tile_request_end'}


def members(pr, name):
    for m in pr.modules:
        d = m.di_struct(name)
        if d:
            return {n: (o, s) for n, o, s in d}
    raise Broken('structure %s not found' % name)


class Wrap(Checker):
    def __init__(self):
        self.calls = []

    def on_icall(self, I, st, inst, fv, args, ctx):
        self.calls.append((st.copy(), inst, fv, list(args)))
        return None


def sig(fn):
    return [repr(t) for _, t, _ in fn.params], repr(fn.ret)


def wrapper(rep, pr, op, name, off):
    """interprets the wrapper with an object whose operation is unknown (possibly NULL)"""
    reset()
    fn = pr.fn(name)
    ck = Wrap()
    I = Interp(pr, ck)
    st = State()
    args = []
    for k, (nm, ty, _) in enumerate(fn.params):
        args.append(Ptr(region(('arg', nm), 'arg', nm)) if ty.kind == 'ptr' else I.fresh(('par', nm), ty, st, nm))
    I.call_fn(fn, args, st, 0)
    rep.analysed(*I.visited)
    wh = '%s (%s)' % (fn.module.name, name)
    if not ck.calls:
        rep.ob(R_FWD, False, wh, 'never calls the operation', key='nocall@' + name)
        return None
    cs = None
    for s, i, fv, a in ck.calls:
        w = I.where(i)
        mm = s.mem.get(args[0].reg)
        cell = mm.cells.get(C(off)) if mm else None
        rep.ob(R_FWD, cell is not None and cell[1] == fv, w, 'does not call the operation %s' % op, key='op@' + name)
        rep.ob(R_CHK, isinstance(fv, Ptr) and s.isnull(fv.reg) is False, w, '%s may be NULL here' % op, key='null@' + name)
        ok = len(a) == len(args) and all(same(x, y) for x, y in zip(a, args))
        rep.ob(R_FWD, ok, w, 'operation %s called with %s instead of %s' % (op, a, args), key='args@' + name)
        cs = [repr(t) for t in i.x[0]], repr(i.ty)
    return cs


def same(x, y):
    return x == y or (isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and x.off == y.off)


def backend(rep, pr, ctor, obj, tsurf, surf, sigs, nargs):
    reset()
    fn = pr.fn(ctor)
    ck = Checker()
    ck.linear = True
    I = Interp(pr, ck)
    st = State()
    args = [I.fresh(('par', nm), ty, st, nm) for nm, ty, _ in fn.params]
    rets = I.call_fn(fn, args, st, 0)
    rep.analysed(*I.visited)
    wh = '%s (%s)' % (fn.module.name, ctor)
    n = 0
    for s, v in rets:
        if not isinstance(v, Ptr):
            raise Broken('%s returns %r' % (ctor, v))
        if s.isnull(v.reg) is True:
            continue
        n += 1
        mm = s.mem.get(v.reg)
        for op in REQUIRED + list(TILED):
            off = (surf[op] if op in surf else tsurf[op])[0]
            c = mm.cells.get(v.off + C(off)) if mm else None
            val = c[1] if c else None
            rep.ob(R_OP, isinstance(val, FnV), wh, '%s is not installed (%r)' % (op, val), key='%s@%s' % (op, ctor))
            if isinstance(val, FnV):
                f = frontend.resolve(pr, fn.module, val.name) or next((m.functions[val.name] for m in pr.modules if val.name in m.functions), None)
                ok = f is not None
                rep.ob(R_OP, ok, wh, '%s is installed for %s but not defined' % (val.name, op), key='def:%s@%s' % (op, ctor))
                if ok and op in sigs and sigs[op]:
                    rep.ob(R_SIG, sig(f) == sigs[op], wh, '%s%s is called as %s' % (val.name, sig(f), sigs[op]), key='sig:%s@%s' % (op, ctor))
    if not n:
        raise Broken('%s never returns an object' % ctor)


def run(rep, w):
    pr = w.program()
    g = w.program(gegl=True)
    mv = frontend.makefile_vars(os.path.join(w.dir, 'Makefile.am'))
    heads = set()
    for k, v in mv.items():
        if k.endswith('_HEADERS') and not k.startswith('noinst'):
            heads.update(x for x in v if x.endswith('.h'))
    heads = sorted(h for h in heads if os.path.exists(os.path.join(w.dir, h)) and not h.startswith(('fastapprox/',)))
    if len(heads) < 8:
        raise Broken('installed headers not recognised: %s' % heads)
    rep.set('installed_headers', heads)
    decl = frontend.header_functions(w.dir, heads)
    defs = {n for m in pr.modules for n, f in m.functions.items() if not f.internal}
    for n, h in sorted(decl.items()):
        rep.ob(R_DEF, n in defs, h, '%s is declared but not defined' % n, key='def:' + n)
    full = pr
    if g is not None:
        full = frontend.merge(pr, g)
        gm = frontend.makefile_vars(os.path.join(w.dir, 'gegl', 'Makefile.am'))
        gh = set()
        for k, v in gm.items():
            if k.endswith('_HEADERS'):
                gh.update(os.path.normpath('gegl/' + x) for x in v if x.endswith('.h'))
        gh = sorted(h for h in gh if os.path.exists(os.path.join(w.dir, h)))
        gdefs = {n for m in full.modules for n, f in m.functions.items() if not f.internal}
        for n, h in sorted(frontend.header_functions(w.dir, gh, gegl=True).items()):
            rep.ob(R_DEF, n in gdefs, h, '%s is declared but not defined' % n, key='def:' + n)
    else:
        rep.assume('GEGL backend not analysed (gegl development files missing)')
    surf, tsurf = members(pr, 'MyPaintSurface'), members(pr, 'MyPaintTiledSurface')
    sigs = {}
    for op, name in WRAP.items():
        sigs[op] = wrapper(rep, pr, op, name, surf[op][0])
    for op, name in TILED.items():
        sigs[op] = wrapper2(rep, pr, op, name, tsurf[op][0])
    backend(rep, pr, 'mypaint_fixed_tiled_surface_new', 'MyPaintFixedTiledSurface', tsurf, surf, sigs, 2)
    if g is not None:
        backend(rep, full, 'mypaint_gegl_tiled_surface_new', 'MyPaintGeglTiledSurface', tsurf, surf, sigs, 0)
    rep.require(R_DEF, 60)
    rep.require(R_OP, 7)
    rep.require(R_FWD, 10)


def wrapper2(rep, pr, op, name, off):
    """tile request wrappers: the operations are set by the mandatory constructor, no check needed"""
    class W2(Wrap):
        pass
    reset()
    fn = pr.fn(name)
    ck = W2()
    I = Interp(pr, ck)
    st = State()
    args = [Ptr(region(('arg', nm), 'arg', nm)) for nm, ty, _ in fn.params]
    I.call_fn(fn, args, st, 0)
    wh = '%s (%s)' % (fn.module.name, name)
    if not ck.calls:
        rep.ob(R_FWD, False, wh, 'never calls the operation', key='nocall@' + name)
        return None
    cs = None
    for s, i, fv, a in ck.calls:
        mm = s.mem.get(args[0].reg)
        cell = mm.cells.get(C(off)) if mm else None
        rep.ob(R_FWD, cell is not None and cell[1] == fv and len(a) == len(args) and all(same(x, y) for x, y in zip(a, args)),
               I.where(i), 'operation %s is not called with the arguments' % op, key='args@' + name)
        cs = [repr(t) for t in i.x[0]], repr(i.ty)
    return cs
