"""C10 The operation queue keeps every operation, in order."""
import itertools
from .. import ir, models, par
from ..dom import C, P, ZERO, sym, Poly, SYMS
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, FnV, Parts, UNDEF, NULLR
from ..objs import Layout, World, heap
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'shape analysis: abstract interpretation over symbolic heaps, checking the heap after each operation',
    'note': 'push, pop, peek, addressing and add: all states; whole-structure loops (copy, free, duplicates): shapes up to a small size',
    'explanation': 'each queue operation is interpreted on every shape of its structure (empty, one item, several items; tile inside, outside '
                   'the map; list full or not); the resulting heap must be the first-in first-out one, nothing else may be written, and '
                   'memory is released exactly once',
    'trusted': ['memory can be allocated', 'tile maps have at most 2^31 entries'],
}
R_FIFO = 'queue is first-in first-out'
R_FRAME = 'nothing else is changed'
R_FREE = 'memory is released exactly once and not used afterwards'
R_ADDR = 'each coordinate of the map has its own slot'
R_CONT = 'map contains exactly its coordinates'
R_COPY = 'growing keeps every queue at its coordinates'
R_DIRTY = 'tile with queued operations is on the dirty list'
R_DUP = 'removing duplicates drops no tile'
R_RET = 'operation completes'
R_ACC = 'only own memory is accessed'
R_INIT = 'new map is empty'
M31 = 1 << 31
ALLOC = {'malloc': models.malloc, 'g_malloc': models.malloc, 'calloc': models.calloc, 'g_malloc0': models.calloc}


class Ck(Checker):
    maxstates = 256
    unroll_limit = 70

    def __init__(self, rep, pr, name):
        self.rep, self.pr, self.name = rep, pr, name
        self.lay = Layout(pr)
        self.freed = {}
        self.writable = None

    def key(self, st):
        return tuple(sorted((k, v) for k, v in st.ghost.items() if isinstance(k, tuple)))

    def join_ghost(self, gs):
        return dict(gs[0])

    def force_unroll(self, I, fn, loop, st):
        return True

    def wh(self):
        return self.name

    def ob(self, rule, ok, where, msg, key=None):
        self.rep.ob(rule, ok, where, '%s: %s' % (self.name, msg), key='%s@%s' % (key or rule, self.name.split(' ')[0]))

    def use(self, I, st, inst, r, what):
        if I.recording and st.ghost.get(('f', r.id)):
            self.ob(R_FREE, False, I.where(inst), '%s %s after it was released' % (what, r), 'uaf')

    def on_load(self, I, st, inst, ptr, size, ty):
        self.use(I, st, inst, ptr.reg, 'read of')

    def on_store(self, I, st, inst, ptr, size, val, ty):
        self.use(I, st, inst, ptr.reg, 'write to')
        if I.recording and self.writable is not None and ptr.reg.kind != 'alloca':
            ok = self.writable(ptr.reg, ptr.off, size) or ptr.reg.name and str(ptr.reg).startswith('heap@')
            self.ob(R_FRAME, ok, I.where(inst), 'writes to %r' % (ptr,), 'frame')

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('free', 'g_free'):
            a = args[0]
            if isinstance(a, Ptr) and (a.reg.kind == 'null' or st.isnull(a.reg) is True):
                return [(st, None)]
            if not isinstance(a, Ptr) or a.off != ZERO:
                if I.recording:
                    self.ob(R_FREE, False, I.where(inst), 'releases %r' % (a,), 'free')
                return [(st, None)]
            k = ('f', a.reg.id)
            if I.recording:
                self.ob(R_FREE, not st.ghost.get(k), I.where(inst), 'releases %s twice' % a.reg, 'double')
            st.ghost[k] = st.ghost.get(k, 0) + 1
            return [(st, None)]
        if name == 'operation_queue_resize' and isinstance(args[1], Poly) and args[1].isconst() and args[1].cval() > 16:
            self.ob(R_RET, False, I.where(inst), 'map grows past every tile asked for', 'grow')
            return []
        if name in ALLOC:
            v = ALLOC[name](I, st, inst, name, args, ctx)
            st.assume(('nonnull', v.reg))
            return [(st, v)]
        return None

    def alarm(self, I, st, kind, inst, msg):
        if kind in ('oob', 'index', 'badptr', 'null', 'uninit', 'nullcall', 'sovf', 'assert'):
            self.ob(R_ACC, False, I.where(inst), msg, kind)


def cells(st, reg, **kw):
    pass


class H:
    """heap builder"""
    def __init__(self, ck, st):
        self.ck, self.st, self.lay = ck, st, ck.lay

    def obj(self, struct, key, **fields):
        r = heap((struct, key), '%s %s' % (struct, key), self.lay.size(struct))
        m = RegMem(0, False)
        for k, v in fields.items():
            o, z = self.lay.member(struct, k)
            m.cells[C(o)] = (z, v)
        self.st.mem[r] = m
        return r

    def get(self, I, st, struct, r, name, ty=ir.PTR):
        o, z = self.lay.member(struct, name)
        return I.read(st, r, C(o), z, ty, None, ('get', name))


def null():
    return Ptr(NULLR)


def isnull(st, v):
    return isinstance(v, Ptr) and (v.reg.kind == 'null' or st.isnull(v.reg) is True)


def payload(k):
    return Ptr(heap(('op', k), 'operation %s' % k, 64))


def mkfifo(h, n, key='q', tail=False):
    """fifo of n items; with `tail`, the second item leads to an unknown rest"""
    items = [heap(('fifo_item', key, k), 'item %s.%d' % (key, k), h.lay.size('fifo_item')) for k in range(n)]
    for k, r in enumerate(items):
        m = RegMem(0, False)
        o, z = h.lay.member('fifo_item', 'next')
        m.cells[C(o)] = (z, Ptr(items[k + 1]) if k + 1 < n else null())
        o, z = h.lay.member('fifo_item', 'payload')
        m.cells[C(o)] = (z, payload('%s.%d' % (key, k)))
        h.st.mem[r] = m
    cnt = C(n)
    if tail:
        # an unknown number of items between the second and the last
        o, z = h.lay.member('fifo_item', 'next')
        rest = heap(('fifo_item', key, 'rest'), 'items between', h.lay.size('fifo_item'))
        h.st.mem[items[-2]].cells[C(o)] = (z, Ptr(rest))
        cnt = P(sym(('count', key), 'count', n + 1, 1 << 30, True))
    q = h.obj('fifo', key, first=Ptr(items[0]) if n else null(), last=Ptr(items[-1]) if n else null(), item_count=cnt)
    return q, items


def walk(I, h, s, q, limit=8):
    """item regions from first to last as the heap says; None when malformed"""
    out = []
    v = h.get(I, s, 'fifo', q, 'first')
    while not isnull(s, v):
        if not isinstance(v, Ptr) or v.off != ZERO or len(out) > limit or v.reg in out:
            return None
        out.append(v.reg)
        v = h.get(I, s, 'fifo_item', v.reg, 'next')
    last = h.get(I, s, 'fifo', q, 'last')
    if out:
        if not (isinstance(last, Ptr) and last.reg is out[-1] and last.off == ZERO):
            return None
    elif not isnull(s, last):
        return None
    return out


def pays(I, h, s, items):
    return [h.get(I, s, 'fifo_item', r, 'payload') for r in items]


def setup(rep, name, cls=None):
    pr = par.shared()
    reset()
    ck = (cls or Ck)(rep, pr, name)
    I = Interp(pr, ck)
    st = State()
    return pr, ck, I, st, H(ck, st)


def call(rep, pr, I, fn, args, st):
    rets = I.call_fn(pr.fn(fn), args, st, 0)
    rep.analysed(*I.visited)
    if not rets:
        I.ck.ob(R_RET, False, fn, 'does not return', 'returns')
    return rets


def nfree(s, r):
    return s.ghost.get(('f', r.id), 0)


# ------------------------------------------------------------------ single queues
def fifo_jobs(rep):
    shapes = [(0, False), (1, False), (2, False), (3, False), (3, True)]
    for n, tail in shapes:
        label = '%d items' % n if not tail else 'many items'
        for op in ('fifo_push', 'fifo_pop', 'fifo_peek_first', 'fifo_peek_last'):
            pr, ck, I, st, h = setup(rep, '%s (%s)' % (op, label))
            q, items = mkfifo(h, n, 'q', tail)
            before = [payload('q.%d' % k) for k in range(n)]
            data = payload('new')
            args = [Ptr(q)] + ([data] if op == 'fifo_push' else [])
            last = items[-1:] if op == 'fifo_push' else []
            no = ck.lay.off('fifo_item', 'next')
            ck.writable = lambda r, o, z, q=q, last=last, no=no, op=op: op in ('fifo_push', 'fifo_pop') and (
                r is q or r in last and o == C(no))
            for s, v in call(rep, pr, I, op, args, st):
                wh = 'fifo.c (%s)' % op
                if op == 'fifo_push':
                    if tail:
                        lst = h.get(I, s, 'fifo', q, 'last')
                        f = h.get(I, s, 'fifo', q, 'first')
                        nx = h.get(I, s, 'fifo_item', items[-1], 'next')
                        ok = f == Ptr(items[0]) and isinstance(lst, Ptr) and lst == nx and lst.reg not in items and \
                            isnull(s, h.get(I, s, 'fifo_item', lst.reg, 'next')) and h.get(I, s, 'fifo_item', lst.reg, 'payload') == data
                        ck.ob(R_FIFO, ok, wh, 'item is not appended at the end', 'push')
                    else:
                        lst = walk(I, h, s, q)
                        ck.ob(R_FIFO, lst is not None and pays(I, h, s, lst) == before + [data], wh, 'queue after it holds %s'
                              % (lst and pays(I, h, s, lst)), 'push')
                    ck.ob(R_FREE, not any(isinstance(k, tuple) for k in s.ghost), wh, 'releases memory', 'pushfree')
                elif op == 'fifo_pop':
                    if n == 0:
                        ck.ob(R_FIFO, isnull(s, v) and walk(I, h, s, q) == [], wh, 'empty queue gives %r' % (v,), 'pop')
                        continue
                    ck.ob(R_FIFO, v == before[0], wh, 'returns %r' % (v,), 'popval')
                    if tail:
                        ok = h.get(I, s, 'fifo', q, 'first') == Ptr(items[1]) and h.get(I, s, 'fifo', q, 'last') == Ptr(items[-1])
                        ck.ob(R_FIFO, ok, wh, 'remaining queue is wrong', 'pop')
                    else:
                        lst = walk(I, h, s, q)
                        ck.ob(R_FIFO, lst is not None and pays(I, h, s, lst) == before[1:], wh, 'queue after it holds %s'
                              % (lst and pays(I, h, s, lst)), 'pop')
                    for k, r in enumerate(items):
                        ck.ob(R_FREE, nfree(s, r) == (k == 0), wh, 'item %d is released %d times' % (k, nfree(s, r)), 'popfree')
                    ck.ob(R_FREE, nfree(s, before[0].reg) == 0, wh, 'releases the operation it returns', 'popop')
                else:
                    want = before[0 if op.endswith('first') else -1] if n else None
                    ck.ob(R_FIFO, isnull(s, v) if want is None else v == want, wh, 'returns %r' % (v,), 'peek')
    for op in ('fifo_new',):
        pr, ck, I, st, h = setup(rep, op)
        for s, v in call(rep, pr, I, op, [], st):
            if isinstance(v, Ptr) and s.isnull(v.reg) is not True:
                ck.ob(R_FIFO, walk(I, h, s, v.reg) == [], 'fifo.c (fifo_new)', 'new queue is not empty', 'new')
    for n in range(4):
        pr, ck, I, st, h = setup(rep, 'fifo_free (%d items)' % n)
        q, items = mkfifo(h, n)
        given = [payload('q.%d' % k).reg for k in range(n)]
        for s, v in call(rep, pr, I, 'fifo_free', [Ptr(q), FnV('operation_delete_func', pr.fn('operation_delete_func'))], st):
            for r in items + given + [q]:
                ck.ob(R_FREE, nfree(s, r) == 1, 'fifo.c (fifo_free)', '%s is released %d times' % (r, nfree(s, r)), 'free')


# ------------------------------------------------------------------ tile map
TOPS = 11585            # 4 * size * size * 8 fits 2^32, indices fit int


def pointer_slots(n):
    return n.scale(4)


def map_case():
    """tile map of symbolic size"""
    S = P(sym(('S',), 'size', 1, TOPS, True))
    return S, (S * S).scale(32)


def maps(rep):
    pr, ck, I, st, h = setup(rep, 'tile_map_new')
    S, size = map_case()
    for s, v in call(rep, pr, I, 'tile_map_new', [S, C(8), FnV('free_fifo', pr.fn('free_fifo'))], st):
        wh = 'tilemap.c (tile_map_new)'
        ok = isinstance(v, Ptr) and h.get(I, s, 'TileMap', v.reg, 'size', ir.I32) == S
        ck.ob(R_INIT, ok, wh, 'recorded size is not the requested one', 'size')
        m = h.get(I, s, 'TileMap', v.reg, 'map') if ok else None
        ok = ok and isinstance(m, Ptr) and m.off == ZERO
        ck.ob(R_ADDR, ok and m.reg.size == size, wh, 'map has %s bytes' % (m.reg.size if ok else '?'), 'alloc')
        ck.ob(R_INIT, ok and blank(s, m.reg, size), wh, 'slots are not all empty', 'blank')
    # addressing
    for sx in (0, 1):
        for sy in (0, 1):
            address(rep, sx, sy)
    for case in CASES:
        contains(rep, case)


def blank(st, reg, size):
    m = st.mem.get(reg)
    if m is None:
        return False
    if any(not isnull(st, v) for z, v in m.cells.values()):
        return False
    for a, b, what in reversed(m.fills):
        a, b = (x if isinstance(x, Poly) else C(x) for x in (a, b))
        zero = what == ('zero',) or what[0] in ('val', 'stride') and any(isnull(st, x) or x == ZERO for x in what[1:])
        if not zero:
            return False
        if st.num.ge0(-a) and st.num.ge0(b - size):
            return True
    return False


def index(x, y):
    return Parts(8, [(0, 4, x), (4, 4, y)])


def tmap(ck, st, S, size, key='map'):
    h = H(ck, st)
    arr = heap(('arr', key), key, size)
    r = h.obj('TileMap', key, map=Ptr(arr), size=S, item_size=C(8), item_free_func=FnV('free_fifo', ck.pr.fn('free_fifo')))
    return r, arr


def nat(k, hi=M31 - 1):
    return P(sym(('nat', k), k, 0, hi, True))


def coord(k, half):
    """coordinate inside a map: (coordinate + size, coordinate, constraint on size): lower or upper half"""
    return nat(k, TOPS)


def address(rep, sx, sy):
    """every coordinate addresses slot (y + size) * 2 size + (x + size), up to swapping the axes"""
    pr, ck, I, st, h = setup(rep, 'tile_map_get (x %s, y %s)' % ('>= 0' if sx else '< 0', '>= 0' if sy else '< 0'))
    S, size = map_case()
    a, b = nat('a', TOPS), nat('b', TOPS)
    st.assume(('ge', S - 1 - a))
    st.assume(('ge', S - 1 - b))
    x = a if sx else -a - 1
    y = b if sy else -b - 1
    t, arr = tmap(ck, st, S, size)
    ck.writable = lambda r, o, z: False
    for s, v in call(rep, pr, I, 'tile_map_get', [Ptr(t), index(x, y)], st):
        wh = 'tilemap.c (tile_map_get)'
        row = (y + S) * S.scale(2) + x + S
        col = (x + S) * S.scale(2) + y + S
        ok = isinstance(v, Ptr) and v.reg is arr and v.off in (row.scale(8), col.scale(8))
        ck.ob(R_ADDR, ok, wh, 'address is %r' % (v,), 'get')


CASES = ('inside', 'left', 'right', 'above', 'below')


def contains(rep, case):
    pr, ck, I, st, h = setup(rep, 'tile_map_contains (%s)' % case)
    S, size = map_case()
    x, y = (P(sym(('c', k), k, -M31, M31 - 1, True)) for k in 'xy')
    n = nat('n')
    if case == 'inside':
        for k in (x, y):
            st.assume(('ge', k + S))
            st.assume(('ge', S - 1 - k))
    elif case in ('left', 'above'):
        st.assume(('ge', -S - 1 - (x if case == 'left' else y)))
    else:
        st.assume(('ge', (x if case == 'right' else y) - S))
    t, arr = tmap(ck, st, S, size)
    ck.writable = lambda r, o, z: False
    for s, v in call(rep, pr, I, 'tile_map_contains', [Ptr(t), index(x, y)], st):
        ok = truth(s, v) is (case == 'inside')
        ck.ob(R_CONT, ok, 'tilemap.c (tile_map_contains)', 'returns %r' % (v,), 'contains')


def truth(st, v):
    if isinstance(v, Poly):
        if v.isconst():
            return bool(v.cval())
        d = st.decide(('eq', v))
        if d is not None:
            return not d
    return None


# ------------------------------------------------------------------ maps with content
def cmap(h, S, key, fill=True):
    """tile map of concrete size whose slots hold distinct (possibly absent) queues"""
    t, arr = tmap(h.ck, h.st, C(S), C(32 * S * S), key)
    m = RegMem(0, False)
    qs = []
    for k in range(4 * S * S):
        r = heap(('fifo', key, k), 'queue %d of %s' % (k, key), h.lay.size('fifo'), nullable=True)
        v = Ptr(r) if fill else null()
        m.cells[C(8 * k)] = (8, v)
        qs.append(v)
    h.st.mem[arr] = m
    return t, arr, qs


def slot(I, s, arr, S, x, y):
    return I.read(s, arr, C(8 * ((y + S) * 2 * S + x + S)), 8, ir.PTR, None, ('slot',))


def copies(rep):
    for S, S2s in ((1, range(1, 5)), (2, range(2, 5)), (3, range(3, 5)), (10, (20,))):
        for S2 in S2s:
            pr, ck, I, st, h = setup(rep, 'tile_map_copy_to (size %d to %d)' % (S, S2))
            # both axis orders agree on what was copied where: contents are keyed by coordinate
            src, arr, qs = cmap(h, S, 'old')
            dst, arr2, _ = cmap(h, S2, 'new', fill=False)
            ck.writable = lambda r, o, z: r is arr2
            for s, v in call(rep, pr, I, 'tile_map_copy_to', [Ptr(src), Ptr(dst)], st):
                wh = 'tilemap.c (tile_map_copy_to)'
                bad = None
                for y in range(-S2, S2):
                    for x in range(-S2, S2):
                        got = slot(I, s, arr2, S2, x, y)
                        inside = -S <= x < S and -S <= y < S
                        want = slot(I, s, arr, S, x, y) if inside else None
                        if got != want if inside else not isnull(s, got):
                            bad = 'slot (%d,%d) holds %r' % (x, y, got)
                ck.ob(R_COPY, bad is None, wh, bad or 'every queue is at its coordinates', 'copy')


def mapfree(rep):
    for S in (1, 2):
        for flag in (0, 1):
            pr, ck, I, st, h = setup(rep, 'tile_map_free (size %d, %s items)' % (S, 'with' if flag else 'without'), QCk)
            t, arr, qs = cmap(h, S, 'map')
            for s, v in call(rep, pr, I, 'tile_map_free', [Ptr(t), C(flag)], st):
                wh = 'tilemap.c (tile_map_free)'
                for r in (t, arr):
                    ck.ob(R_FREE, nfree(s, r) == 1, wh, '%s is released %d times' % (r, nfree(s, r)), 'mapfree')
                for q in qs:
                    n = s.ghost.get(('q', q.reg.id), 0)
                    ck.ob(R_FREE, n == flag, wh, '%s is released %d times' % (q.reg, n), 'mapitems')


class QCk(Ck):
    """queues of the map are opaque: releasing one is counted"""
    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'free_fifo' or name == 'fifo_free':
            a = args[0]
            if isinstance(a, Ptr) and a.off == ZERO:
                if st.isnull(a.reg) is not True:
                    k = ('q', a.reg.id)
                    st.ghost[k] = st.ghost.get(k, 0) + 1
            elif I.recording:
                self.ob(R_FREE, False, I.where(inst), 'releases %r' % (a,), 'free')
            return [(st, None)]
        return Ck.on_call(self, I, st, inst, name, args, ctx)


# ------------------------------------------------------------------ operation queue
OQ = 'operationqueue.c (%s)'


def tiles(key, n):
    return [(P(sym(('t', key, k, 'x'), 't%d.x' % k, -M31, M31 - 1, True)), P(sym(('t', key, k, 'y'), 't%d.y' % k, -M31, M31 - 1, True)))
            for k in range(n)]


def tilearr(h, key, ts, cap):
    r = heap(('dirty', key), 'dirty list', C(8 * cap) if isinstance(cap, int) else cap.scale(8))
    m = RegMem(0, False)
    for k, (x, y) in enumerate(ts):
        m.cells[C(8 * k)] = (4, x if isinstance(x, Poly) else C(x))
        m.cells[C(8 * k + 4)] = (4, y if isinstance(y, Poly) else C(y))
    h.st.mem[r] = m
    return r


def tileat(I, s, r, k):
    off = k.scale(8) if isinstance(k, Poly) else C(8 * k)
    return tuple(I.read(s, r, off + d, 4, ir.I32, None, ('tile', d)) for d in (0, 4))


def poly(t):
    return tuple(x if isinstance(x, Poly) else C(x) for x in t)


def same(a, b):
    return poly(a) == poly(b)


def equal(s, a, b):
    return all(x == y or isinstance(x, Poly) and s.num.ge0(x - y) and s.num.ge0(y - x) for x, y in zip(poly(a), poly(b)))


def opq(h, S, ts, cap=None, queue=None, at=None, key='old'):
    """operation queue with a map of size S, dirty tiles ts; the slot at `at` holds `queue`, others distinct queues"""
    t, arr, qs = cmap(h, S, key)
    d = tilearr(h, key, ts, 4 * S * S)
    if at is not None:
        x, y = at
        # both storage orders: the slot is found by interpreting the lookup itself
        off = lookup(h, t, x, y)
        h.st.mem[arr].cells[off] = (8, queue)
    q = h.obj('OperationQueue', 'queue', tile_map=Ptr(t), dirty_tiles=Ptr(d), dirty_tiles_n=C(len(ts)))
    return q, t, arr, qs, d


def lookup(h, t, x, y):
    """byte offset of a coordinate's slot, from the library's own addressing (checked separately)"""
    st = h.st.copy()
    I = Interp(h.ck.pr, Checker())
    for s, v in I.call_fn(h.ck.pr.fn('tile_map_get'), [Ptr(t), index(C(x), C(y))], st, 0):
        if isinstance(v, Ptr) and v.off.isconst():
            return v.off
    raise Broken('tile_map_get has no definite result')


def resize(rep):
    for S in (None, 1, 2):
        for S2 in (1, 2, 4):
            if S and S2 < S:
                continue
            for n in (range(0, 5) if S == 1 and S2 == 2 else (0, 2) if S else (0,)):
                pr, ck, I, st, h = setup(rep, 'operation_queue_resize (%s to %d, %d dirty)' % (S or 'none', S2, n), QCk)
                ts = tiles('d', n)
                if S:
                    q, t, arr, qs, d = opq(h, S, ts)
                else:
                    q = h.obj('OperationQueue', 'queue', tile_map=null(), dirty_tiles=null(), dirty_tiles_n=ZERO)
                    t = arr = d = None
                    qs = []
                ck.writable = lambda r, o, z: r is q or r is d      # the old list is about to be replaced
                s0 = st.copy()
                for s, v in call(rep, pr, I, 'operation_queue_resize', [Ptr(q), C(S2)], st):
                    wh = OQ % 'operation_queue_resize'
                    grown(ck, I, h, s0, s, q, S, S2, arr, wh)
                    nd = h.get(I, s, 'OperationQueue', q, 'dirty_tiles')
                    nn = h.get(I, s, 'OperationQueue', q, 'dirty_tiles_n', ir.I32)
                    ok = isinstance(nd, Ptr) and isinstance(nn, Poly) and nn.isconst() and 0 <= nn.cval() <= n
                    if ok:
                        new = [tileat(I, s, nd.reg, k) for k in range(int(nn.cval()))]
                        ok = all(any(equal(s, x, y) for x in new) for y in ts) and all(any(equal(s, x, y) for y in ts) for x in new)
                    ck.ob(R_DIRTY, ok, wh, 'dirty list is not kept', 'dirty')
                    ok = isinstance(nd, Ptr) and nd.reg.size is not None and s.num.ge0(nd.reg.size - 32 * S2 * S2)
                    ck.ob(R_DIRTY, ok, wh, 'dirty list has no room for every tile', 'dirtycap')
                    for r in (t, arr, d):
                        if r is not None:
                            ck.ob(R_FREE, nfree(s, r) == 1, wh, '%s is released %d times' % (r, nfree(s, r)), 'old')
                    for x in qs:
                        ck.ob(R_FREE, not s.ghost.get(('q', x.reg.id)), wh, 'queues of the old map are released', 'oldq')
    for S in (None, 1, 2):
        pr, ck, I, st, h = setup(rep, 'operation_queue_resize (%s to 0)' % (S or 'none'), QCk)
        if S:
            q, t, arr, qs, d = opq(h, S, tiles('d', 1))
        else:
            q = h.obj('OperationQueue', 'queue', tile_map=null(), dirty_tiles=null(), dirty_tiles_n=ZERO)
            t = arr = d = None
            qs = []
        for s, v in call(rep, pr, I, 'operation_queue_resize', [Ptr(q), ZERO], st):
            emptied(ck, I, h, s, q, (t, arr, d), qs, OQ % 'operation_queue_resize')
    pr, ck, I, st, h = setup(rep, 'operation_queue_free', QCk)
    q, t, arr, qs, d = opq(h, 2, tiles('d', 1))
    for s, v in call(rep, pr, I, 'operation_queue_free', [Ptr(q)], st):
        emptied(ck, I, h, s, None, (q, t, arr, d), qs, OQ % 'operation_queue_free')
    pr, ck, I, st, h = setup(rep, 'operation_queue_new')
    for s, v in call(rep, pr, I, 'operation_queue_new', [], st):
        wh = OQ % 'operation_queue_new'
        if not isinstance(v, Ptr) or s.isnull(v.reg) is True:
            continue
        m = h.get(I, s, 'OperationQueue', v.reg, 'tile_map')
        d = h.get(I, s, 'OperationQueue', v.reg, 'dirty_tiles')
        ck.ob(R_INIT, h.get(I, s, 'OperationQueue', v.reg, 'dirty_tiles_n', ir.I32) == ZERO, wh, 'dirty list is not empty', 'new')
        S = h.get(I, s, 'TileMap', m.reg, 'size', ir.I32) if isinstance(m, Ptr) and s.isnull(m.reg) is not True else None
        ok = S is not None and S.isconst() and S.cval() >= 1 and isinstance(d, Ptr) and d.reg.size is not None \
            and s.num.ge0(d.reg.size - 32 * S.cval() ** 2)
        ck.ob(R_DIRTY, ok, wh, 'dirty list has no room for every tile', 'dirtycap')


def grown(ck, I, h, s0, s, q, S, S2, arr, wh):
    """the queue has a map of size S2 holding every old queue at its coordinates"""
    m = h.get(I, s, 'OperationQueue', q, 'tile_map')
    if not (isinstance(m, Ptr) and s.isnull(m.reg) is not True):
        return ck.ob(R_COPY, False, wh, 'has no map', 'grown')
    arr2 = h.get(I, s, 'TileMap', m.reg, 'map')
    if h.get(I, s, 'TileMap', m.reg, 'size', ir.I32) != C(S2) or not isinstance(arr2, Ptr):
        return ck.ob(R_COPY, False, wh, 'has not the requested size', 'grown')
    bad = None
    for y in range(-S2, S2):
        for x in range(-S2, S2):
            got = slot(I, s, arr2.reg, S2, x, y)
            if S and -S <= x < S and -S <= y < S:
                if got != slot(I, s0, arr, S, x, y):
                    bad = 'slot (%d,%d) holds %r' % (x, y, got)
            elif not isnull(s, got):
                bad = 'slot (%d,%d) is not empty' % (x, y)
    ck.ob(R_COPY, bad is None, wh, bad or '', 'grown')


def emptied(ck, I, h, s, q, regs, qs, wh):
    if q is not None:
        ok = isnull(s, h.get(I, s, 'OperationQueue', q, 'tile_map')) and \
            h.get(I, s, 'OperationQueue', q, 'dirty_tiles_n', ir.I32) == ZERO and isnull(s, h.get(I, s, 'OperationQueue', q, 'dirty_tiles'))
        ck.ob(R_FREE, ok, wh, 'emptied queue keeps pointers to what was released', 'emptied')
    for r in regs:
        if r is not None:
            ck.ob(R_FREE, nfree(s, r) == 1, wh, '%s is released %d times' % (r, nfree(s, r)), 'empty')
    for x in qs:
        n = s.ghost.get(('q', x.reg.id), 0)
        ck.ob(R_FREE, n == 1, wh, '%s is released %d times' % (x.reg, n), 'emptyq')


QUEUES = (None, 0, 1, 2)


def content(I, h, s, v):
    """operations in the queue that a slot points to, oldest first (None: malformed)"""
    if isnull(s, v):
        return []
    if not isinstance(v, Ptr) or v.off != ZERO or nfree(s, v.reg):
        return None
    its = walk(I, h, s, v.reg)
    if its is None or any(nfree(s, r) for r in its):
        return None
    return pays(I, h, s, its)


def others(I, h, s0, s, q, arr, S, at, wh, ck):
    """slots of the other tiles keep their queues"""
    m = h.get(I, s, 'OperationQueue', q, 'tile_map')
    arr2 = h.get(I, s, 'TileMap', m.reg, 'map')
    S2 = int(h.get(I, s, 'TileMap', m.reg, 'size', ir.I32).cval())
    h2 = H(ck, s)
    off = lookup(h2, m.reg, *at) if -S2 <= at[0] < S2 and -S2 <= at[1] < S2 else None
    bad = None
    for y in range(-S, S):
        for x in range(-S, S):
            own = S == S2 and off == C(8 * ((y + S) * 2 * S + x + S))
            if not own and slot(I, s, arr2.reg, S2, x, y) != slot(I, s0, arr, S, x, y):
                bad = 'queue of tile (%d,%d) changes' % (x, y)
    ck.ob(R_FRAME, bad is None, wh, bad or '', 'other')
    return S2, I.read(s, arr2.reg, off, 8, ir.PTR, None, ('slot',)) if off is not None else None


ALL1 = [(-1, -1), (0, -1), (-1, 0), (0, 0)]


def dirtylists(at, queue):
    """dirty lists that are possible before an operation is added for tile `at`"""
    if queue:                                   # tile has operations: it is on the list
        yield [at]
        yield [(-1, 0), at]
        return
    yield []
    yield [(-1, 0)]
    yield [at]
    yield [(-1, 0), (0, -1), (-1, 0)]
    yield [(-1, 0), (-1, 0), (-1, 0), (-1, 0)]   # full with duplicates
    yield [(-1, 0), (0, -1), (-1, 0), (-1, -1)]
    yield list(ALL1)                            # full, every tile
    yield [at] * 4


def add(rep, at):
    S = 1
    inside = at in ALL1
    for n in (QUEUES if inside else (None,)):
        for dl in dirtylists(at, n) if inside else ([], [(-1, 0), (0, -1)], list(ALL1)):
            pr, ck, I, st, h = setup(rep, 'operation_queue_add (tile %s, %s queued, dirty %s)' % (at, n, dl))
            v = null()
            before = []
            if n is not None:
                f, items = mkfifo(h, n)
                v = Ptr(f)
                before = [payload('q.%d' % k) for k in range(n)]
            q, t, arr, qs, d = opq(h, S, dl, queue=v, at=at if inside else None)
            op = payload('new')
            s0 = st.copy()
            for s, _ in call(rep, pr, I, 'operation_queue_add', [Ptr(q), index(C(at[0]), C(at[1])), op], st):
                wh = OQ % 'operation_queue_add'
                S2, got = others(I, h, s0, s, q, arr, S, at, wh, ck)
                ck.ob(R_FIFO, got is not None and content(I, h, s, got) == before + [op], wh, 'queue of the tile holds %s afterwards'
                      % (got is not None and content(I, h, s, got),), 'add')
                after = dirty(I, h, s, q)
                ck.ob(R_DIRTY, after is not None and at in after, wh, 'tile is not on the dirty list %s' % (after,), 'add')
                ck.ob(R_DIRTY, after is not None and set(dl) <= set(after), wh, 'other tiles leave the dirty list: %s' % (after,), 'adddrop')
                ck.ob(R_DIRTY, after is not None and len(after) <= 4 * S2 * S2, wh, 'dirty list overflows', 'addover')
                ck.ob(R_FREE, not nfree(s, op.reg) and not any(nfree(s, x.reg) for x in before), wh, 'operations are released', 'addfree')
    rep.analysed(*[])


def dirty(I, h, s, q):
    d = h.get(I, s, 'OperationQueue', q, 'dirty_tiles')
    n = h.get(I, s, 'OperationQueue', q, 'dirty_tiles_n', ir.I32)
    if not (isinstance(d, Ptr) and isinstance(n, Poly) and n.isconst()) or nfree(s, d.reg):
        return None
    if not s.num.ge0(d.reg.size - 8 * n.cval()):
        return None
    out = []
    for k in range(int(n.cval())):
        x, y = tileat(I, s, d.reg, k)
        if not (isinstance(x, Poly) and isinstance(y, Poly) and x.isconst() and y.isconst()):
            return None
        out.append((int(x.cval()), int(y.cval())))
    return out


def addmany(rep):
    """adding for a tile of a map of any size: the tile enters the list, or a full list has been pruned first"""
    for n in QUEUES:
        pr, ck, I, st, h = setup(rep, 'operation_queue_add (any size, %s queued)' % (n,), AddCk)
        if not any(pr.fn(x) for x in ('remove_duplicate_tiles',)):
            return
        S, size = map_case()
        a, b = nat('a', 2 * TOPS), nat('b', 2 * TOPS)
        st.assume(('ge', S.scale(2) - 1 - a))
        st.assume(('ge', S.scale(2) - 1 - b))
        v, before = null(), []
        if n is not None:
            f, items = mkfifo(h, n)
            v, before = Ptr(f), [payload('q.%d' % k) for k in range(n)]
        t, arr = tmap(ck, st, S, size)
        ck.slot = (arr, v)
        cap = (S * S).scale(4)
        d = heap(('dirty', 'any'), 'dirty list', cap.scale(8))
        dn = nat('n')
        st.assume(('ge', cap - dn))
        q = h.obj('OperationQueue', 'queue', tile_map=Ptr(t), dirty_tiles=Ptr(d), dirty_tiles_n=dn)
        x, y = a - S, b - S
        op = payload('new')
        for s, _ in call(rep, pr, I, 'operation_queue_add', [Ptr(q), index(x, y), op], st):
            wh = OQ % 'operation_queue_add'
            n2 = h.get(I, s, 'OperationQueue', q, 'dirty_tiles_n', ir.I32)
            m = s.ghost.get(('kept',), dn)
            if n:
                ok = n2 in (m, m + 1)
            else:
                ok = n2 == m + 1 and same(tileat(I, s, d, m), (x, y)) or n2 == m and ('kept',) in s.ghost and s.num.ge0(m - cap)
            ck.ob(R_DIRTY, ok, wh, 'dirty list has %s entries afterwards, %s before' % (n2, m), 'any')
            got = [(z, c) for o, (z, c) in (s.mem[arr].cells.items() if arr in s.mem else ())]
            if n is not None:
                ck.ob(R_FIFO, content(I, h, s, v) == before + [op], wh, 'operation is not appended', 'any')
            else:
                ok = len(got) == 1 and content(I, h, s, got[0][1]) == [op]
                ck.ob(R_FIFO, ok, wh, 'operation is not in the queue of the tile', 'any')


class AddCk(Ck):
    def unknown_load(self, I, st, reg, off, ty, key):
        if reg is self.slot[0]:
            return self.slot[1]
        return None

    def on_call(self, I, st, inst, name, args, ctx):
        if name == 'remove_duplicate_tiles':
            d, n = args
            m = P(sym(('kept', n), 'kept', 0, M31 - 1, True))
            st.assume(('ge', n - m))
            st.ghost[('kept',)] = m
            return [(st, m)]
        if name == 'operation_queue_resize':
            self.ob(R_CONT, False, I.where(inst), 'map grows for a tile that is inside', 'grow')
            return []
        return Ck.on_call(self, I, st, inst, name, args, ctx)


def dups(rep, n):
    pr, ck, I, st, h = setup(rep, 'remove_duplicate_tiles (%d tiles)' % n, DupCk)
    ts = tiles('d', n)
    d = tilearr(h, 'dups', ts, n)
    ck.writable = lambda r, o, z: r is d
    for s, v in call(rep, pr, I, 'remove_duplicate_tiles', [Ptr(d), C(n)], st):
        wh = OQ % 'remove_duplicate_tiles'
        if not (isinstance(v, Poly) and v.isconst() and 0 <= v.cval() <= n):
            ck.ob(R_DUP, False, wh, 'returns %r' % (v,), 'dup')
            continue
        kept = [poly(tileat(I, s, d, k)) for k in range(int(v.cval()))]
        eq = lambda a, b: all(s.decide(('eq', p - q)) is True for p, q in zip(a, b))
        ne = lambda a, b: any(s.decide(('eq', p - q)) is False for p, q in zip(a, b))
        for k, t in enumerate(ts):
            ck.ob(R_DUP, any(eq(poly(t), x) for x in kept), wh, 'tile %d is dropped (%d kept)' % (k, len(kept)), 'drop')
        for a, b in itertools.combinations(kept, 2):
            ck.ob(R_DUP, ne(a, b), wh, 'duplicates remain', 'dup')


class DupCk(Ck):
    maxstates = 4096

    def key(self, st):
        return Ck.key(self, st) + (st.num.key() if hasattr(st.num, 'key') else ())


def pops(rep):
    S = 1
    for op in ('operation_queue_pop', 'operation_queue_peek_first', 'operation_queue_peek_last'):
        for at in ALL1 + [(1, 0), (0, 1), (-2, 0), (0, -2)]:
            inside = at in ALL1
            for n in QUEUES if inside else (None,):
                pr, ck, I, st, h = setup(rep, '%s (tile %s, %s queued)' % (op, at, n))
                v, before, items = null(), [], []
                if n is not None:
                    f, items = mkfifo(h, n)
                    v, before = Ptr(f), [payload('q.%d' % k) for k in range(n)]
                dl = [at] if n else []
                q, t, arr, qs, d = opq(h, S, dl, queue=v, at=at if inside else None)
                pop = op.endswith('pop')
                if not pop:
                    ck.writable = lambda r, o, z: False
                s0 = st.copy()
                for s, r in call(rep, pr, I, op, [Ptr(q), index(C(at[0]), C(at[1]))], st):
                    wh = OQ % op
                    S2, got = others(I, h, s0, s, q, arr, S, at, wh, ck)
                    want = None if not before else before[-1 if op.endswith('last') else 0]
                    ck.ob(R_FIFO, isnull(s, r) if want is None else r == want, wh, 'returns %r' % (r,), 'popval')
                    left = before[1:] if pop else before
                    if inside:
                        ck.ob(R_FIFO, content(I, h, s, got) == left, wh, 'leaves %s' % (content(I, h, s, got),), 'popleft')
                        if n is not None:
                            gone = isnull(s, got)
                            ck.ob(R_FREE, nfree(s, v.reg) == int(gone), wh, 'queue is released %d times' % nfree(s, v.reg), 'popq')
                    for k, x in enumerate(items):
                        ck.ob(R_FREE, nfree(s, x) == int(pop and k == 0), wh, 'item %d is released %d times' % (k, nfree(s, x)), 'popitem')
                    for x in before:
                        ck.ob(R_FREE, not nfree(s, x.reg), wh, 'an operation is released', 'popop')
                    ck.ob(R_DIRTY, dirty(I, h, s, q) == dl, wh, 'dirty list changes', 'pop')


def lists(rep):
    for dl in ([], [(0, 0)], [(0, 0), (0, 0)], [(0, 0), (-1, 0), (0, 0), (0, -1)], list(ALL1)):
        for op in ('operation_queue_get_dirty_tiles', 'operation_queue_clear_dirty_tiles'):
            pr, ck, I, st, h = setup(rep, '%s (%s)' % (op, dl))
            q, t, arr, qs, d = opq(h, 1, dl)
            out = heap(('out',), 'result', 8)
            args = [Ptr(q)] + ([Ptr(out)] if 'get' in op else [])
            ck.writable = lambda r, o, z: r in (q, out, d)
            for s, v in call(rep, pr, I, op, args, st):
                after = dirty(I, h, s, q)
                wh = OQ % op
                if 'get' in op:
                    ck.ob(R_DIRTY, after is not None and sorted(after) == sorted(set(dl)), wh, 'dirty list becomes %s' % (after,), 'get')
                    o = I.read(s, out, ZERO, 8, ir.PTR, None, ('out',))
                    ok = o == h.get(I, s, 'OperationQueue', q, 'dirty_tiles') and v == C(len(after or ()))
                    ck.ob(R_DIRTY, ok, wh, 'returns %r entries at %r' % (v, o), 'getret')
                else:
                    ck.ob(R_DIRTY, after == [], wh, 'dirty list is %s' % (after,), 'clear')


def run(rep, w):
    pr = w.program()
    jobs = [(fifo_jobs, ()), (maps, ()), (copies, ()), (mapfree, ()), (resize, ()), (addmany, ()), (pops, ()), (lists, ())]
    jobs += [(dups, (n,)) for n in range(5)]
    jobs += [(add, (at,)) for at in [(0, 0), (-1, -1), (1, 0), (0, 2), (-3, 1), (3, -4)]]
    par.run(rep, jobs, ctx=pr)
