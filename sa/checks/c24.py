"""C24 Fixed surfaces never touch memory outside their buffer."""
from .. import ir, irq
from ..dom import C, P, ZERO, sym, Poly
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, FnV, UNDEF
from ..objs import Layout, World, heap
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'abstract interpretation with symbolic sizes and coordinates; polynomial addresses against region sizes',
    'note': 'all sizes, all tile coordinates (negative and huge ones included)',
    'explanation': 'constructor: the buffer has tiles_width * tiles_height * tile bytes without wrap-around; request start: address is '
                   'the tile of the coordinates or the scratch tile; request end: scratch tile zero-filled',
    'trusted': ['assertions are enabled (the default build)', 'size_t has 64 bits'],
}
S = 'MyPaintFixedTiledSurface'
R_SIZE = 'buffer holds every tile of the recorded size'
R_WRAP = 'size computation has no undefined operation'
R_TILE = 'request is given its own whole tile'
R_NULL = 'request outside the surface is given the scratch tile'
R_BLANK = 'scratch tile is blank'
R_ACC = 'only own memory is accessed'
R_GET = 'recorded size is the requested size'
M31 = 1 << 31
TOP = (1 << 63) - 1       # malloc never returns more


class Ck(Checker):
    maxstates = 32

    def __init__(self, rep, lay):
        self.rep, self.lay = rep, lay
        self.name = ''
        self.stored = []
        self.w = World(lay)
        self.allowed = None

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def alarm(self, I, st, kind, inst, msg):
        if kind in ('sovf', 'div0'):
            self.rep.ob(R_WRAP, False, I.where(inst), '%s: %s' % (self.name, msg), key='%s@%s' % (kind, self.name))
        if kind in ('oob', 'index', 'badptr', 'null', 'uninit', 'nullcall'):       # (not: out of memory)
            self.rep.ob(R_ACC, False, I.where(inst), '%s: %s' % (self.name, msg), key='%s@%s' % (kind, self.name))

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if not I.recording:
            return
        self.stored.append((ptr.reg, ptr.off, inst))
        if self.allowed is not None:
            ok = ptr.reg.kind == 'alloca' or self.allowed(ptr.reg)
            self.rep.ob(R_ACC, ok, I.where(inst), '%s writes to %s' % (self.name, ptr.reg), key='st@' + self.name)


def fld(I, st, lay, reg, name, ty):
    o, z = lay.member(S, name)
    return I.read(st, reg, C(o), z, ty, None, ('fld', name))


def zeroed(st, reg, size):
    m = st.mem.get(reg)
    if m is None:
        return False
    if any(v != ZERO for o, (z, v) in m.cells.items()):
        return False
    for a, b, what in reversed(m.fills):
        a, b = (x if isinstance(x, Poly) else C(x) for x in (a, b))
        if what == ('zero',) or what[0] == 'val' and what[1] == ZERO or what[0] == 'stride' and what[2] == ZERO and what[1] == what[3]:
            if st.num.ge0(-a) and st.num.ge0(b - size):
                return True
        else:
            return False
    return False


def one(rep, pr, lay, vt, fn, name, case, tile, side, file):
    reset()
    ck = Ck(rep, lay)
    ck.name = name
    I = Interp(pr, ck)
    st = State()
    r = ck.w.obj('self', S, 'surface')
    q = ck.w.obj('request', 'MyPaintTileRequest', 'request')
    W, H = (P(sym(('dim', k), k, 1, 1 << 26, True)) for k in ('W', 'H'))
    tx, ty = (P(sym(('coord', k), k, -M31, M31 - 1, True)) for k in ('tx', 'ty'))
    nat = lambda k, hi=M31 - 1: P(sym(('nat', k), k, 0, hi, True))
    if case == 'inside':
        tx, ty = nat('tx', (1 << 26) - 1), nat('ty', (1 << 26) - 1)
        W, H = tx + 1 + nat('w', (1 << 26) - 1), ty + 1 + nat('h', (1 << 26) - 1)
    elif case == 'left':
        tx = C(-1) - nat('tx')
    elif case == 'above':
        ty = C(-1) - nat('ty')
    elif case == 'right':
        d = nat('tx')
        tx = W + d
        st.num.assume_ge(C(M31 - 1) - tx)
    elif case == 'below':
        d = nat('ty')
        ty = H + d
        st.num.assume_ge(C(M31 - 1) - ty)
    st.num.assume_ge(C(TOP) - W * H * tile)
    buf = heap('buffer', 'tile_buffer', W * H * tile)
    nul = heap('null', 'null_tile', tile)
    vals = {'tile_size': tile, 'tile_buffer': Ptr(buf), 'null_tile': Ptr(nul), 'tiles_width': W, 'tiles_height': H}
    dims = {k: P(sym(('px', k), k, 1, M31 - 1, True)) for k in ('width', 'height')}
    vals.update(dims)
    m = RegMem(0, False)
    for k, v in vals.items():
        o, z = lay.member(S, k)
        m.cells[C(o)] = (z, v)
    # side of a tile as the constructor records it
    o, z = lay.member('MyPaintTiledSurface', 'tile_size')
    m.cells[C(lay.off(S, 'parent') + o)] = (z, C(side))
    st.mem[r] = m
    m = RegMem(0, False)
    for k, v in (('tx', tx), ('ty', ty)):
        o, z = lay.member('MyPaintTileRequest', k)
        m.cells[C(o)] = (z, v)
    is_end = name in vt['tile_request_end']
    bo, bz = lay.member('MyPaintTileRequest', 'buffer')
    st.mem[q] = m
    st.mem[buf], st.mem[nul] = RegMem(0, False), RegMem(0, False)
    ck.allowed = lambda reg: reg is q or is_end and reg is nul
    rets = I.call_fn(fn, [Ptr(r), Ptr(q)][:len(fn.params)], st, 0)
    rep.analysed(*I.visited)
    wh = '%s (%s)' % (file, name)
    if not rets:
        raise Broken('%s never returns' % name)
    for s, v in rets:
        n = s.num
        if name in vt['tile_request_start']:
            b = I.read(s, q, C(bo), bz, ir.PTR, None, ('buf', 0))
            ok = isinstance(b, Ptr)
            if case == 'inside':
                o = ok and n.norm(b.off)
                rep.ob(R_TILE, ok and b.reg is buf and o in (n.norm((W * ty + tx) * tile), n.norm((H * tx + ty) * tile)), wh,
                       'tile (tx, ty) is at %r' % (b,), key='tile@' + name)
            else:
                rep.ob(R_NULL, ok and b.reg is nul and b.off == ZERO, wh, '%s: outside tile is at %r' % (case, b), key='null@' + name)
        elif is_end:
            if case != 'inside':
                rep.ob(R_BLANK, zeroed(s, nul, tile), wh, 'scratch tile is not blank after the request', key='blank@' + name)
        elif name.endswith('_interface'):
            rep.ob(R_GET, v == Ptr(r), wh, 'returns %r' % (v,), key='ret@' + name)
        else:
            k = name.rsplit('_', 1)[1]
            rep.ob(R_GET, v == dims[k], wh, 'returns %r' % (v,), key='ret@' + name)


def run(rep, w):
    pr = w.program()
    lay = Layout(pr)
    file = 'mypaint-fixed-tiled-surface.c'

    # ---- constructor
    reset()
    ck = Ck(rep, lay)
    ck.name = 'mypaint_fixed_tiled_surface_new'
    I = Interp(pr, ck)
    st = State()
    a = [sym(('arg', n), n, -M31, M31 - 1, True) for n in ('width', 'height')]
    rets = I.call_fn(pr.fn(ck.name), [P(x) for x in a], st, 0)
    rep.analysed(*I.visited)
    good = 0
    vt = {}
    for s, v in rets:
        if not isinstance(v, Ptr) or v.reg.kind == 'null':
            continue
        if s.isnull(v.reg) is True:
            continue
        good += 1
        r = v.reg
        g = lambda n, ty: fld(I, s, lay, r, n, ty)
        W, H = g('tiles_width', ir.I32), g('tiles_height', ir.I32)
        T = g('tile_size', ir.I64)
        px = I.read(s, r, C(lay.off(S, 'parent') + lay.off('MyPaintTiledSurface', 'tile_size')), 4, ir.I32, None, ('fld', 'px'))
        buf, nul = g('tile_buffer', ir.PTR), g('null_tile', ir.PTR)
        wh = '%s (%s)' % (file, ck.name)
        for n, x, k in (('width', a[0], W), ('height', a[1], H)):
            v2 = g(n, ir.I32)
            rep.ob(R_GET, v2 == P(x), wh, '%s recorded as %r' % (n, v2), key='rec@' + n)
            rep.ob(R_SIZE, isinstance(k, Poly) and s.num.ge0(k - 1) and s.num.ge0(k * px - P(x)), wh,
                   '%r tiles of %r pixels do not cover the %s' % (k, px, n), key='cover@' + n)
        rep.ob(R_SIZE, isinstance(px, Poly) and isinstance(T, Poly) and T == px * px * C(8), wh, 'tile of %r bytes for %r pixels' % (T, px), key='tile')
        ok = isinstance(buf, Ptr) and buf.off == ZERO and buf.reg.kind == 'heap' and s.isnull(buf.reg) is False
        rep.ob(R_SIZE, ok and buf.reg.size is not None and (buf.reg.size == W * H * T or s.num.ge0(buf.reg.size - W * H * T)), wh,
               'tile buffer %r of %r bytes, needed %r' % (buf, ok and buf.reg.size, W * H * T), key='buffer')
        ok = isinstance(nul, Ptr) and nul.off == ZERO and nul.reg.kind == 'heap' and s.isnull(nul.reg) is False and \
            not (isinstance(buf, Ptr) and nul.reg is buf.reg)
        rep.ob(R_SIZE, ok and nul.reg.size is not None and s.num.ge0(nul.reg.size - T), wh, 'scratch tile %r of %r bytes' % (nul, ok and nul.reg.size),
               key='scratch')
        if ok:
            rep.ob(R_BLANK, zeroed(s, nul.reg, T), wh, 'scratch tile is not blank after construction', key='blank@new')
        for op in ('tile_request_start', 'tile_request_end'):
            f = I.read(s, r, C(lay.off(S, 'parent') + lay.off('MyPaintTiledSurface', op)), 8, ir.PTR, None, ('fld', op))
            if isinstance(f, FnV):
                vt.setdefault(op, set()).add(f.name)
            else:
                rep.ob(R_ACC, False, wh, '%s is %r' % (op, f), key='op@' + op)
        tile = T
    if not good:
        raise Broken('mypaint_fixed_tiled_surface_new never succeeds')
    if not all(x.isconst() for x in (tile, px)):
        raise Broken('tile size is not constant')

    # ---- requests and accessors on any surface that a constructor may have left
    names = sorted(vt.get('tile_request_start', ())) + sorted(vt.get('tile_request_end', ()))
    gets = ['mypaint_fixed_tiled_surface_get_width', 'mypaint_fixed_tiled_surface_get_height', 'mypaint_fixed_tiled_surface_interface']
    for name in names + gets:
        fn = next((f for m in pr.modules for f in m.functions.values() if f.name == name and f.blocks and m.name.endswith(file.replace('.c', ''))), None) \
            or pr.fn(name)
        for case in ('inside', 'left', 'right', 'above', 'below'):
            one(rep, pr, lay, vt, fn, name, case, tile, int(px.cval()), file)
    # ---- nobody else changes the fields: members of the structure are only reachable in its own file
    other = {m.name for m in pr.modules if any(n.lstrip('_').replace('struct.', '') == S for n in m.structs)}
    rep.note('modules that know the structure: %s' % sorted(other)) if hasattr(rep, 'note') else None
    rep.require(R_TILE, 1)
    rep.require(R_NULL, 1)
    rep.require(R_BLANK, 2)
    rep.require(R_SIZE, 4)
