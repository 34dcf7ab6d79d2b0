"""C06 Tile requests are balanced, checked and honour read-only."""
from .. import ir, irq, par
from ..dom import C, P, ZERO, sym
from ..interp import Checker, Interp, State, Ptr, region, reset, RegMem, FnV, UNDEF
from ..objs import heap
from ..report import Broken
from ..tiles import Proto, setup, coordinate, opened, TS

META = {
    'level': 'proof',
    'technique': 'typestate analysis of tile requests by abstract interpretation of every function that starts one',
    'note': 'all paths, including tile stores that fail; any number of tiles and queued operations',
    'explanation': 'requests are followed as objects through start, use and end on every path; the tile pointer is tainted and may '
                   'only be used between start and end once it is known not to be NULL; functions that are given read-only tiles '
                   'are analysed for writes',
    'trusted': ['operation_queue_pop ends after finitely many operations (C10)'],
}


class Ck(Proto):
    rules = (Proto.R_BAL, Proto.R_USE, Proto.R_RO)


def args_for(ck, fn, s):
    out = []
    for nm, ty, _ in fn.params:
        if ty.kind == 'ptr':
            out.append(Ptr(s) if not out else Ptr(heap(('arg', nm), nm, 4096)))
        elif ty.kind == 'int':
            out.append(coordinate(nm))
        else:
            out.append(P(sym(('farg', nm), nm, -1 << 24, 1 << 24)))
    return out


def one(rep, name, sampling, roots):
    pr, ck, I, st, s = setup(rep, name, Ck)
    ck.sampling, ck.roots = sampling, roots
    fn = pr.fn(name)
    rets = I.call_fn(fn, args_for(ck, fn, s), st, 0)
    rep.analysed(*I.visited)
    for x, v in rets:
        ck.ob(I, None, ck.R_BAL, not opened(x), 'returns while a request is running', 'open')
    for k, v in ck.events.items():
        rep.notes['%s events' % k] = rep.notes.get('%s events' % k, 0) + v
    for f, ks in ck.readers.items():
        if sampling:
            for k in ks:
                reader(rep, pr, f, k)


class Reader(Checker):
    linear = True
    maxstates = 4

    def __init__(self, rep, name):
        self.rep, self.name = rep, name
        self.tile = heap(('readonly',), 'tile', 64 * 64 * 8)
        self.n = 0

    def on_store(self, I, st, inst, ptr, size, val, ty):
        if I.recording:
            self.n += 1
            self.rep.ob(Proto.R_RO, ptr.reg is not self.tile, I.where(inst), '%s writes to the read-only tile' % self.name,
                        key='reader@' + self.name)

    def alarm(self, I, st, kind, inst, msg):
        if kind == 'constwrite':
            self.rep.ob(Proto.R_RO, False, I.where(inst), '%s: %s' % (self.name, msg), key='reader@' + self.name)


def reader(rep, pr, name, k):
    reset()
    ck = Reader(rep, name)
    fn = pr.functions.get(name)
    if fn is None:
        rep.ob(Proto.R_RO, False, name, 'read-only tile is passed to an unknown function', key='reader@' + name)
        return
    I = Interp(pr, ck)
    st = State()
    args = []
    for j, (nm, ty, _) in enumerate(fn.params):
        if j == k:
            args.append(Ptr(ck.tile))
        elif ty.kind == 'ptr':
            args.append(Ptr(heap(('arg', nm), nm, 1 << 16)))
        elif ty.kind == 'int':
            args.append(coordinate(nm, 0, 1 << 16))
        else:
            args.append(P(sym(('farg', nm), nm, -1, 1 << 15)))
    I.call_fn(fn, args, st, 0)
    rep.analysed(*I.visited)
    rep.ob(Proto.R_RO, True, name, 'no store reaches the tile')


START = 'mypaint_tiled_surface_tile_request_start'


def callers(pr, name):
    out = set()
    for f in pr.functions.values():
        for i in f.insts():
            if i.op == 'call' and getattr(i.ops[0], 'name', None) == name and f.name != name:
                out.add(f.name)
    return out


def roots(pr):
    """functions that start requests, with helpers replaced by their callers: (name, does it sample?)"""
    out = {'process_tile', 'get_color'}
    inside = set(out)
    work = list(out)
    while work:                      # everything reachable from the roots is analysed with them
        for i in pr.fn(work.pop()).insts():
            n = getattr(i.ops[0], 'name', None) if i.op == 'call' else None
            if n and n not in inside and n in pr.functions:
                inside.add(n)
                work.append(n)
    return sorted(out | {f for f in callers(pr, START) if f not in inside})


def run(rep, w):
    pr = w.program()
    rs = roots(pr)
    # sampling functions are the ones that do not take operations from the queue themselves
    par.run(rep, [(one, (n, n == 'get_color', tuple(rs))) for n in rs], ctx=pr)
