"""The protocol between the tiled surface, its tile store and its operation queue, as events in the abstract state.

start/end are the surface's own function pointers; operation_queue_* are replaced by contracts (verified by C10).
Ghost state (part of the partition key, so paths with different histories stay separate):
  ('open', request)   tile of a running request
  ('op',)             operations popped and not yet retired, oldest first: (number, times rendered, times freed)
  ('flushed',)        tile index for which the queue was last found empty
  ('listed',)         list of dirty tiles was fetched;  ('cleared',) it was cleared"""
from . import ir, models
from .dom import C, P, ZERO, sym, Poly
from .interp import Checker, Interp, State, Ptr, region, reset, RegMem, FnV, Parts, UNDEF, NULLR
from .objs import Layout, World, heap
from .report import Broken
from . import par

TS = 'MyPaintTiledSurface'
M31 = 1 << 31


class Proto(Checker):
    maxstates = 64
    linear = True
    cases = True
    rules = ()
    PRIMS = ('mypaint_tiled_surface_tile_request_start', 'mypaint_tiled_surface_tile_request_end', 'mypaint_tile_request_init')

    def __init__(self, rep, pr, name):
        self.rep, self.pr, self.name = rep, pr, name
        self.lay = lay = Layout(pr)
        self.w = World(lay)
        self.w.spec[(TS, 'tile_request_start')] = lambda *a: FnV('<tile start>')
        self.w.spec[(TS, 'tile_request_end')] = lambda *a: FnV('<tile end>')
        self.w.spec[(TS, 'operation_queue')] = lambda *a: Ptr(heap(('opqueue',), 'operation queue', 24))
        self.tiles = {}
        self.ops = {}
        self.readers = {}            # function -> argument positions that receive a read-only tile
        self.events = {}
        self.origin = {}
        self.stop = ()
        self.roots = ()
        self.sampling = False

    # ------------------------------------------------ partitioning
    def key(self, st):
        return tuple(sorted(((k, v) for k, v in st.ghost.items()
                            if isinstance(k, tuple) and k not in (('flushed',), ('index',))), key=repr))

    def join_ghost(self, gs):
        return {k: v for k, v in gs[0].items() if all(k in g and g[k] == v for g in gs)}

    def unknown_load(self, I, st, reg, off, ty, key):
        if reg.key == ('obj', ('dirtylist',)) and ty.kind == 'int':
            s = sym(('tile', off, ty.a), 'tiles[%r]' % off, -M31, M31 - 1, True) if ty.a == 32 else None
            if s is not None:
                self.origin[s] = off
                return P(s)
        return self.w.load(I, st, reg, off, ty, key)

    # ------------------------------------------------ events
    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    def ob(self, I, inst, rule, ok, msg, key):
        if rule in self.rules and I.recording:
            self.rep.ob(rule, ok, I.where(inst) if inst is not None else self.name, '%s: %s' % (self.name, msg), key='%s@%s' % (key, self.name))

    R_BAL = 'every started request is ended exactly once'
    R_USE = 'tile is only used while its request runs and after it was checked'
    R_RO = 'sampling asks for read-only tiles and does not write them'
    R_ORDER = 'operations are rendered in queue order, each exactly once'
    R_FLUSH = 'tile is flushed before it is sampled'
    R_END = 'every dirty tile is flushed before the list is cleared'

    def use(self, I, st, inst, r, what, write=False):
        info = self.tiles.get(r)
        if info is None:
            return
        st_open = any(k[0] == 'open' and v == r.id for k, v in st.ghost.items() if isinstance(k, tuple) and k)
        self.ob(I, inst, self.R_USE, st_open, '%s tile outside its request' % what, 'use')
        self.ob(I, inst, self.R_USE, st.isnull(r) is False, '%s tile that was not checked for NULL' % what, 'unchecked')
        if write:
            self.ob(I, inst, self.R_RO, st.ghost.get(('ro', r.id)) is not True, 'writes to a read-only tile', 'rowrite')

    def on_load(self, I, st, inst, ptr, size, ty):
        self.use(I, st, inst, ptr.reg, 'reads')

    def on_store(self, I, st, inst, ptr, size, val, ty):
        self.use(I, st, inst, ptr.reg, 'writes', True)

    def fld(self, I, st, p, name, ty):
        o, z = self.lay.member('MyPaintTileRequest', name)
        return I.read(st, p.reg, p.off + o, z, ty, None, ('req', name))

    def on_icall(self, I, st, inst, fv, args, ctx):
        raise Broken('%s: unknown indirect call at %s' % (self.name, I.where(inst)))

    def on_call(self, I, st, inst, name, args, ctx):
        f = {'<tile start>': self.start, '<tile end>': self.end, 'operation_queue_pop': self.pop, 'free': self.free,
             'operation_queue_get_dirty_tiles': self.listed, 'operation_queue_clear_dirty_tiles': self.cleared,
             'operation_queue_peek_first': self.peek, 'operation_queue_peek_last': self.peek}.get(name)
        if f:
            return f(I, st, inst, args, ctx)
        if name in self.PRIMS or name.startswith('llvm.'):
            return None
        ts = [k for k, a in enumerate(args) if isinstance(a, Ptr) and a.reg in self.tiles]
        if ts:
            return self.given(I, st, inst, name, args, ts, ctx)
        return self.other(I, st, inst, name, args, ctx)

    def other(self, I, st, inst, name, args, ctx):
        """calls of no interest to the protocol: skip those that only compute a mask"""
        if name in self.roots and name != self.name:
            # analysed on its own: balanced, and leaves the queue of its tile empty
            x, y = args[1:3] if len(args) == 3 else (None, None)
            st.ghost[('flushed',)] = (x, y)
            st.ghost.pop(('op',), None)
            self.flushed(I, st, inst, x, y)
            return [(st, None)]
        if name == 'render_dab_mask':
            I.havoc_args(st, args, (ctx, I.iid(inst)))
            return [(st, None)]
        return None

    def start(self, I, st, inst, args, ctx):
        self.ev('start')
        q = args[1]
        if not isinstance(q, Ptr):
            raise Broken('%s: request is not an object' % self.name)
        k = ('open', q.reg.id, q.off)
        self.ob(I, inst, self.R_BAL, k not in st.ghost, 'request is started again before it was ended', 'restart')
        t = heap(('tile', I.iid(inst)), 'tile', C(64 * 64 * 8), nullable=True)
        self.tiles[t] = True
        st.null.pop(t, None)
        st.mem[t] = RegMem(0, False)
        self.put(I, st, q, 'buffer', Ptr(t), inst, ctx)
        cx = heap(('tilecontext', I.iid(inst)), 'context', 8, nullable=True)
        st.null.pop(cx, None)
        self.put(I, st, q, 'context', Ptr(cx), inst, ctx)
        ro = self.fld(I, st, q, 'readonly', ir.I32)
        tx, ty = (self.fld(I, st, q, n, ir.I32) for n in ('tx', 'ty'))
        rof = bool(ro.cval()) if isinstance(ro, Poly) and ro.isconst() else None
        self.started(I, st, inst, rof, tx, ty)
        st.ghost[k] = t.id
        st.ghost[('ro', t.id)] = rof
        return [(st, None)]

    def put(self, I, st, q, name, val, inst, ctx):
        o, z = self.lay.member('MyPaintTileRequest', name)
        I.write(st, q.reg, q.off + o, z, val, inst, ctx)

    def started(self, I, st, inst, ro, tx, ty):
        pass

    def end(self, I, st, inst, args, ctx):
        self.ev('end')
        q = args[1]
        k = ('open', q.reg.id, q.off) if isinstance(q, Ptr) else None
        self.ob(I, inst, self.R_BAL, k in st.ghost, 'request is ended that is not running', 'end')
        t = st.ghost.pop(k, None)
        if t is not None:
            st.ghost.pop(('ro', t), None)
        return [(st, None)]

    def pending(self, st):
        """operations popped and not released yet; a popped operation known to be NULL is none"""
        return [o for o in st.ghost.get(('op',), ()) if st.isnull(self.opreg(o[0])) is not True]

    def opreg(self, k):
        return heap(('popped', k), 'operation', 128, nullable=True)

    def opof(self, reg):
        return next((k for k in range(3) if self.opreg(k) is reg), None)

    def pop(self, I, st, inst, args, ctx):
        """the result is NULL exactly when the queue is empty: resolved when the code tests it"""
        self.ev('pop')
        old = st.ghost.get(('op',), ())
        ops = [o for o in self.pending(st) if o[2] == 0]
        for o in self.pending(st):
            if o[2]:
                self.retired(I, st, inst, o)
        self.ob(I, inst, self.R_ORDER, len(ops) < 2, 'operations are fetched and not rendered', 'pending')
        k = (old[-1][0] + 1) % 3 if old else 0
        ops = [o for o in ops if o[0] != k] + [(k, 0, 0)]
        r = self.opreg(k)
        self.ops[r] = True
        st.null.pop(r, None)
        st.mem[r] = RegMem(0, False)
        st.ghost[('op',)] = tuple(ops)
        st.ghost[('index',)] = tileof(args[1])
        st.ghost.pop(('flushed',), None)
        return [(st, Ptr(r))]

    def lastflushed(self, st):
        """index of the tile whose queue was found empty last"""
        ops = st.ghost.get(('op',))
        if ops:
            return st.ghost.get(('index',)) if st.isnull(self.opreg(ops[-1][0])) is True else None
        return st.ghost.get(('flushed',))

    def sampled(self, I, st, inst, tile):
        pass

    def peek(self, I, st, inst, args, ctx):
        return [(st, Ptr(heap(('peeked', I.iid(inst), ctx), 'operation', 128, nullable=True)))]

    def flushed(self, I, st, inst, x, y):
        pass

    def retired(self, I, st, inst, o):
        """operation o is out of the hands of the code"""
        opened = [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'open']
        n = o[1]
        ok = n == 1 or n == 0 and any(st.isnull(r) is True for r in self.tiles if r.id in opened or not opened)
        self.ob(I, inst, self.R_ORDER, ok, 'operation is rendered %d times' % n, 'render')

    def opdone(self, I, st, inst):
        """no operation may be left in the hands of the code"""
        for o in self.pending(st):
            self.ob(I, inst, self.R_ORDER, o[2] == 1, 'operation is released %d times' % o[2], 'opfree')
            self.retired(I, st, inst, o)

    def free(self, I, st, inst, args, ctx):
        a = args[0]
        k = self.opof(a.reg) if isinstance(a, Ptr) else None
        if k is not None:
            ops = st.ghost.get(('op',), ())
            self.ob(I, inst, self.R_ORDER, any(o[0] == k and o[2] == 0 for o in ops) or st.isnull(a.reg) is True,
                    'operation is released again', 'opfree')
            st.ghost[('op',)] = tuple((o[0], o[1], min(o[2] + 1, 2)) if o[0] == k else o for o in ops)
        return [(st, None)]

    def given(self, I, st, inst, name, args, ts, ctx):
        """a function is given the tile"""
        self.ev('render')
        for k in ts:
            self.use(I, st, inst, args[k].reg, 'passes')
            if st.ghost.get(('ro', args[k].reg.id)) is not False:
                self.readers.setdefault(name, set()).add(k)
        ops = st.ghost.get(('op',), ())
        for a in args:
            k = self.opof(a.reg) if isinstance(a, Ptr) else None
            if k is None:
                continue
            o = next((o for o in ops if o[0] == k), None)
            self.ob(I, inst, self.R_ORDER, o is not None and o[2] == 0, 'operation is used after it was released', 'opuse')
            self.ob(I, inst, self.R_ORDER, all(q[1] or st.isnull(self.opreg(q[0])) is True for q in ops[:ops.index(o)]) if o in ops else True,
                    'renders an operation other than the oldest one', 'opother')
            ops = tuple((q[0], min(q[1] + 1, 2), q[2]) if q[0] == k else q for q in ops)
            st.ghost[('op',)] = ops
        if any(isinstance(a, Ptr) and a.reg.key[:1] == ('peeked',) for a in args):
            self.ob(I, inst, self.R_ORDER, False, 'renders an operation that is still queued', 'opother')
        if self.sampling and not any(isinstance(a, Ptr) and a.reg in self.ops for a in args):
            for k in ts:
                self.ob(I, inst, self.R_RO, st.ghost.get(('ro', args[k].reg.id)) is True, 'samples a tile that was requested writable', 'ro')
                self.sampled(I, st, inst, args[k].reg)
        I.havoc_args(st, args, (ctx, I.iid(inst)))
        f = self.pr.fn(name)
        return [(st, I.fresh(('given', ctx, I.iid(inst)), inst.ty) if inst.ty.kind != 'void' else None)]

    def listed(self, I, st, inst, args, ctx):
        d = heap(('dirtylist',), 'dirty tiles', P(sym(('ndirty',), 'n', 0, 1 << 24, True)).scale(8))
        if isinstance(args[1], Ptr):
            I.write(st, args[1].reg, args[1].off, 8, Ptr(d), inst, ctx)
        st.ghost[('listed',)] = True
        return [(st, P(sym(('ndirty',), 'n', 0, 1 << 24, True)))]

    def cleared(self, I, st, inst, args, ctx):
        return [(st, None)]

    def alarm(self, I, st, kind, inst, msg):
        pass


def tileof(v):
    """coordinates of a tile index argument"""
    if isinstance(v, Parts):
        d = {o: x for o, z, x in v.parts}
        return d.get(0), d.get(4)
    if isinstance(v, Poly) and v.isconst():
        return None, None
    return None, None


def setup(rep, name, cls):
    pr = par.shared()
    reset()
    ck = cls(rep, pr, name)
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    return pr, ck, I, st, s


def coordinate(k, lo=-M31, hi=M31 - 1):
    return P(sym(('xy', k), k, lo, hi, True))


def opened(st):
    return [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'open']
