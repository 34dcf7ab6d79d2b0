"""C20 Symmetry draws the exact set of symmetric copies."""
import math
from fractions import Fraction
from .. import ir, par
from ..dom import C, P, ZERO, sym, SYMS, Poly
from ..interp import Checker, Interp, State, Ptr, RegMem, reset, NULLR
from ..objs import Layout, World, heap
from ..report import Broken
from ..tiles import TS

META = {
    'level': 'proof',
    'technique': 'abstract interpretation with a symbolic algebra of trigonometric polynomials: the transformation of every copy is computed '
                 'from the source as an affine map in cos/sin of the symbolic angle and compared with the elements of the symmetry group',
    'note': 'all centres, angles and dabs; every number of lines up to 12 (quick) or 40 (thorough) for the copies, any number for the storage; '
            'coefficients compared within 1e-5',
    'explanation': 'mypaint_tiled_surface_set_symmetry_state, begin_atomic and draw_dab are interpreted one after another on a surface with '
                   'symbolic centre, angle, position and dab angle; every call of the dab drawing function is an event whose position is an affine '
                   'map of the dab position; events and group elements must match one to one',
    'trusted': ['cos and sin of libm', 'exact real arithmetic instead of float'],
}
R_EL = 'every element of the symmetry group draws a copy at its image of the dab'
R_MORE = 'no copy is drawn that does not belong to the symmetry group'
R_ANG = 'the angle of the dab is transformed with the copy'
R_PAR = 'all other parameters of a copy are those of the dab'
R_MEM = 'matrix storage is large enough'
R_PEND = 'the requested symmetry is stored completely'
R_UPD = 'matrices are recomputed when the requested symmetry differs'
R_OFF = 'without symmetry a dab is drawn once'
TYPES = ('VERTICAL', 'HORIZONTAL', 'VERTHORZ', 'ROTATIONAL', 'SNOWFLAKE')
PRE = 'MYPAINT_SYMMETRY_TYPE_'
DAB = 'draw_dab_internal'
MAT = 36


def group(t, n):
    """elements: (kind, multiple of a in degrees, constant in degrees); rotation by b or reflection with doubled axis angle b"""
    if t == 'VERTICAL':
        return [('rot', 0, 0), ('ref', -2, -180)]
    if t == 'HORIZONTAL':
        return [('rot', 0, 0), ('ref', -2, 0)]
    if t == 'VERTHORZ':
        return [('rot', 0, 0), ('ref', -2, 0), ('ref', -2, -180), ('rot', 0, 180)]
    out = [('rot', 0, Fraction(360 * j, n)) for j in range(n)]
    if t == 'SNOWFLAKE':
        out += [('ref', -2, -Fraction(360 * j, n)) for j in range(n)]
    return out


class Trig:
    """cos and sin of const + m*angle"""

    def __init__(self, angle):
        self.angle = angle
        self.a = angle.single().id
        self.c = P(sym(('cosA',), 'cos a', -1, 1))
        self.s = P(sym(('sinA',), 'sin a', -1, 1))

    def mult(self, m):
        """(cos m a, sin m a), degrees"""
        c, s = C(1), ZERO
        for _ in range(abs(m)):
            c, s = c * self.c - s * self.s, s * self.c + c * self.s
        return (c, s) if m >= 0 else (c, -s)

    def of(self, arg):
        """arg in radians"""
        cr = arg.coeff(self.a)
        if cr is None or not cr[0].isconst() or not cr[1].isconst():
            return None
        m = cr[0]
        k = arg.t.get((), 0)
        q = float(m.cval()) * 180 / math.pi
        r = round(q)
        if abs(q - r) > 1e-6 or abs(r) > 4:
            return None
        return self.build(r, float(k))

    def build(self, r, k):
        c, s = self.mult(r)
        kc, ks = exact(math.cos(k)), exact(math.sin(k))
        return c.scale(kc) - s.scale(ks), s.scale(kc) + c.scale(ks)

    def norm(self, p):
        """with sin^2 = 1 - cos^2"""
        s, c = next(iter(self.s.syms())), self.c
        out = ZERO
        for m, k in p.t.items():
            n = m.count(s)
            q = Poly({tuple(x for x in m if x != s): k})
            if n % 2:
                q = q * self.s
            for _ in range(n // 2):
                q = q - q * c * c
            out = out + q
        return out

    def same(self, p, q, tol=Fraction(1, 100000)):
        d = self.norm(p - q)
        return all(abs(k) <= tol for k in d.t.values())


def exact(f):
    for v in (0, 1, -1):
        if abs(f - v) < 1e-9:
            return v
    return Fraction(f).limit_denominator(1 << 40)


class Sym(Checker):
    fcap = (1000, 14)

    def __init__(self, rep, pr, n):
        self.rep, self.pr, self.n = rep, pr, n
        self.maxstates = 64 if n is None else 16
        self.unroll_limit = 12 if n is None else 500
        self.lay = lay = Layout(pr)
        self.w = World(lay)
        self.x, self.y, self.cx, self.cy, self.ang, self.dang = [P(sym(('in', k), k)) for k in ('x', 'y', 'cx', 'cy', 'angle', 'dab angle')]
        self.trig = Trig(self.ang)
        self.par = {}
        self.mats = P(sym(('nmat',), 'number of matrices', 0, 1 << 25, True))
        self.m0 = heap(('mats',), 'matrices', self.mats.scale(MAT), uninit=True)
        sd = 'MyPaintSymmetryData'
        self.w.spec[(TS, 'num_symmetry_matrices')] = lambda *a: self.mats
        self.w.spec[(TS, 'symmetry_matrices')] = lambda *a: Ptr(self.m0)
        self.w.spec[(TS, 'bboxes')] = lambda *a: Ptr(self.bb)
        self.nb = P(sym(('nbb',), 'num_bboxes', 1, 1 << 26, True))
        self.bb = heap(('bboxes',), 'bounding boxes', self.nb.scale(16))
        self.w.spec[(TS, 'num_bboxes')] = lambda *a: self.nb
        self.w.spec[(TS, 'num_bboxes_dirtied')] = lambda *a: ZERO
        self.w.spec[(TS, 'num_lines')] = lambda *a: P(sym(('lines0',), 'earlier lines', 2, 1 << 24, True))
        lay.member(TS, 'num_symmetry_matrices'), lay.member(TS, 'symmetry_matrices')
        self.count = 0

    def force_unroll(self, *a):
        return self.n is not None

    def key(self, st):
        if self.watch is None:
            return 0
        m = st.mem.get(self.watch[0])
        kept = repr([m.cells.get(C(o)) for o in self.watch[1]]) if m is not None else ''
        return kept, tuple(st.decide(('eq', d)) for d in self.watch[2])
    watch = None

    def unknown_load(self, I, st, reg, off, ty, key):
        return self.w.load(I, st, reg, off, ty, key)

    def alarm(self, I, st, kind, inst, msg):
        if kind in ('oob', 'null', 'maynull', 'badptr', 'fptoint') and I.recording:
            self.rep.ob(R_MEM, False, I.where(inst), '%s: %s' % (kind, msg), key='%s %s' % (kind, I.where(inst)))

    def ob(self, I, rule, ok, msg, key, inst=None):
        if I.recording:
            self.rep.ob(rule, ok, I.where(inst) if inst is not None else 'draw_dab', msg, key=key)

    def on_call(self, I, st, inst, name, args, ctx):
        if name in ('realloc', 'malloc', 'calloc'):
            size = args[1] if name == 'realloc' else args[0] * args[1] if name == 'calloc' else args[0]
            if not isinstance(size, Poly):
                raise Broken('%s: size of the allocation is unknown' % I.where(inst))
            self.count += 1
            if name == 'realloc' and not (isinstance(args[0], Ptr) and args[0].reg is self.m0):
                self.ob(I, R_MEM, False, 'reallocates another object', 'realloc', inst)
            r = heap(('new', I.iid(inst), size), 'allocation', size, uninit=True)
            r.nullable = False
            st.mem[r] = RegMem(0, True)
            bad = st.copy()
            bad.ghost['failed'] = True
            return [(st, Ptr(r)), (bad, Ptr(NULLR))]
        if name == 'free':
            return [(st, None)]
        if name in ('cos', 'sin', 'cosf', 'sinf') and isinstance(args[0], Poly):
            if self.n is None:
                return [(st, P(sym(('trig', I.iid(inst), ctx), name, -1, 1)))]
            t = self.trig.of(args[0])
            if t is None:
                return [(st, P(sym(('trig', name, args[0]), '%s(%r)' % (name, args[0]), -1, 1)))]
            return [(st, t[0] if name.startswith('cos') else t[1])]
        f = self.pr.functions.get(name) if self.n is None else None
        if f is not None and f.params and 'sret' in str(f.params[0]):
            # (only positions depend on the contents of a transformation)
            for k in range(0, MAT, 4):
                I.write(st, args[0].reg, args[0].off + k, 4, P(sym(('m', I.iid(inst), ctx, k), 'm%d' % (k // 4))), inst, ctx)
            return [(st, None)]
        if name == DAB:
            return self.dab(I, st, inst, args)
        return None

    def dab(self, I, st, inst, args):
        f = self.pr.fn(DAB)
        names = [p[0] for p in f.params]
        a = dict(zip(names, args))
        first = 'events' not in st.ghost
        ev = st.ghost.get('events', ())
        vals = {}
        for n, v in a.items():
            if n in ('x', 'y', 'angle') or n in self.skip:
                continue
            ok = v == self.par.get(n)
            self.ob(I, R_PAR, ok, '%s of a copy is %r, not the one of the dab' % (n, v), 'par ' + n, inst)
        self.nevents += I.recording
        st.ghost['events'] = ev + ((a['x'], a['y'], a['angle'], I.where(inst)),) if self.n is not None else ev
        if not first:
            r = P(sym(('drawn', I.iid(inst), len(ev)), 'drawn', 0, 1, True))
            return [(st, r)]
        if 'skipped' in self.modes:
            no = st.copy()
            no.ghost['refused'] = True
            return [(st, C(1)), (no, ZERO)]
        return [(st, C(1))]
    nevents = 0
    skip = ('self', 'bbox_index')
    modes = ('skipped',)


def setup(rep, n, current=None):
    pr = par.shared()
    reset()
    ck = Sym(rep, pr, n)
    I = Interp(pr, ck)
    st = State()
    s = ck.w.obj('surface', TS, 'surface')
    f = pr.fn(DAB)
    names = [p[0] for p in f.params]
    for k in ('x', 'y', 'angle', 'self', 'bbox_index'):
        if k not in names:
            raise Broken('%s has no parameter %s any more' % (DAB, k))
    d = pr.fn('draw_dab')
    dn = [p[0] for p in d.params]
    args = [Ptr(s)]
    for k in dn[1:]:
        v = {'x': ck.x, 'y': ck.y, 'angle': ck.dang}.get(k)
        if v is None:
            v = P(sym(('in', k), k))
        ck.par[k] = v
        args.append(v)
    return pr, ck, I, st, s, args


def setstate(ck, I, st, s, t, n, active=1):
    f = ck.pr.fn('mypaint_tiled_surface_set_symmetry_state')
    by = {'active': C(active), 'center_x': ck.cx, 'center_y': ck.cy, 'symmetry_angle': ck.ang, 'symmetry_type': C(t) if isinstance(t, int) else t, 'rot_symmetry_lines': n}
    order = ['active', 'center_x', 'center_y', 'symmetry_angle', 'symmetry_type', 'rot_symmetry_lines']
    if len(f.params) != 7:
        raise Broken('mypaint_tiled_surface_set_symmetry_state has other parameters')
    return [r for r, _ in I.call_fn(f, [Ptr(s)] + [by[k] for k in order], st, 0)]


def begin(ck, I, st, s):
    return [r for r, _ in I.call_fn(ck.pr.fn('mypaint_tiled_surface_begin_atomic'), [Ptr(s)], st, 0)]


def deg180(d):
    d = d % 180
    return min(d, 180 - d) < Fraction(1, 200)


def copies(rep, tname, n, active=1):
    pr, ck, I, st, s, args = setup(rep, n)
    t = ck.lay.enum(PRE)[PRE + tname]
    # no symmetry computed before: a type that no request can have
    ck.w.spec[(TS, 'type')] = lambda *a: C(-1)
    done = 0
    states = setstate(ck, I, st, s, t, C(n), active)
    for a in states:
        for b in begin(ck, I, a, s):
            if b.ghost.get('failed'):
                continue
            for c, v in I.call_fn(pr.fn('draw_dab'), args, b, 0):
                ev = c.ghost.get('events', ())
                if c.ghost.get('refused'):
                    ck.ob(I, R_MORE, len(ev) == 1, 'a refused dab is drawn %d times' % len(ev), '%s refused' % tname)
                    continue
                match(ck, I, tname, n, ev) if active else \
                    ck.ob(I, R_OFF, len(ev) == 1 and ev[0][:3] == (ck.x, ck.y, ck.dang), '%d dabs are drawn' % len(ev), 'off')
                done += 1
    if not done:
        raise Broken('no path draws a dab with symmetry %s' % tname)
    rep.analysed(*I.visited)


def match(ck, I, tname, n, ev):
    T = ck.trig
    left = list(ev)
    label = '%s %d' % (tname, n)
    for kind, m, k in group(tname, n):
        c, s = T.build(m, float(k) * math.pi / 180)
        dx, dy = ck.x - ck.cx, ck.y - ck.cy
        if kind == 'rot':
            px, py = ck.cx + c * dx + s * dy, ck.cy - s * dx + c * dy
            want = [ck.dang - C(Fraction(k))]
        else:
            px, py = ck.cx + c * dx + s * dy, ck.cy + s * dx - c * dy
            want = [ck.ang.scale(m) + C(Fraction(k)) - ck.dang]
        hits = [e for e in left if isinstance(e[0], Poly) and isinstance(e[1], Poly) and T.same(e[0], px) and T.same(e[1], py)]
        name = '%s %s %s' % (label, 'rotation' if kind == 'rot' else 'reflection', float(k))
        ck.ob(I, R_EL, bool(hits), '%s: no copy is drawn for the %s (%s degrees)' % (label, name.split()[2], float(k)), name)
        if not hits:
            continue
        best = None
        for e in hits:
            ok = False
            if isinstance(e[2], Poly):
                d = e[2] - want[0]
                lin = Poly({a: b for a, b in d.t.items() if a})
                ok = all(abs(b) < Fraction(1, 100000) for b in lin.t.values()) and deg180(Fraction(d.cval()))
            if ok:
                best = e
        ck.ob(I, R_ANG, best is not None, '%s: copy drawn by %s has angle %r, expected %r' % (name, hits[0][3], hits[0][2], want[0]), 'angle ' + name)
        left.remove(best or hits[0])
    ck.ob(I, R_MORE, not left, '%s: %d further copies are drawn (%s)' % (label, len(left), left[0][3] if left else ''), label)


def pending(rep):
    """requests are stored, any number of lines"""
    pr, ck, I, st, s, args = setup(rep, None)
    t = P(sym(('type',), 'type', 0, 4, True))
    n = P(sym(('lines',), 'lines', -(1 << 31), (1 << 31) - 1, True))
    f = pr.fn('mypaint_tiled_surface_set_symmetry_state')
    act = P(sym(('active',), 'active', 0, 1, True))
    b = ck.lay.off(TS, 'symmetry_data')
    sd, ss = 'MyPaintSymmetryData', 'MyPaintSymmetryState'
    base = b + ck.lay.off(sd, 'state_pending')
    for r, _ in I.call_fn(f, [Ptr(s), act, ck.cx, ck.cy, ck.ang, t, n], st, 0):
        for name, v, ty in (('center_x', ck.cx, ir.FLOAT), ('center_y', ck.cy, ir.FLOAT), ('angle', ck.ang, ir.FLOAT), ('type', t, ir.I32)):
            got = I.read(r, s, C(base + ck.lay.off(ss, name)), 4, ty, None, 0)
            ck.ob(I, R_PEND, got == v, 'pending %s is %r, not the requested one' % (name, got), name)
        got = I.read(r, s, C(base + ck.lay.off(ss, 'num_lines')), 4, ir.FLOAT, None, 0)
        ok = isinstance(got, Poly) and r.num.ge0(got - 2) and (r.decide(('eq', got - n)) is True or got.isconst())
        ck.ob(I, R_PEND, ok, 'pending number of lines is %r' % (got,), 'lines')
        got = I.read(r, s, C(b + ck.lay.off(sd, 'pending_changes')), 4, ir.I32, None, 0)
        ck.ob(I, R_UPD, isinstance(got, Poly) and r.decide(('eq', got)) is False, 'the change is not marked as pending', 'mark')
        got = I.read(r, s, C(b + ck.lay.off(sd, 'active')), 4, ir.I32, None, 0)
        ck.ob(I, R_PEND, got == act, 'active flag is %r' % (got,), 'active')
    rep.analysed(*I.visited)


def storage(rep, tname):
    """any number of lines: matrices written and read lie in the storage"""
    pr, ck, I, st, s, args = setup(rep, None)
    t = ck.lay.enum(PRE)[PRE + tname]
    n = P(sym(('lines',), 'lines', -(1 << 31), (1 << 31) - 1, True))
    ck.w.spec[(TS, 'type')] = lambda *a: C(-1)
    rep.ob(R_MEM, True, 'begin_atomic', '', key='storage ' + tname)
    for a in setstate(ck, I, st, s, t, n):
        for b in begin(ck, I, a, s):
            if b.ghost.get('failed'):
                continue
            # a request during the atomic section must not affect the matrices in use
            t2, n2 = P(sym(('type2',), 'later type', 0, 4, True)), P(sym(('lines2',), 'later lines', -(1 << 31), (1 << 31) - 1, True))
            for c in setstate(ck, I, b, s, t2, n2):
                I.call_fn(pr.fn('draw_dab'), args, c, 0)
    if not ck.nevents:
        raise Broken('no path draws a dab with symmetry %s' % tname)
    rep.analysed(*I.visited)


def update(rep):
    """begin_atomic after a request: matrices of the current state are only kept if the states are equal"""
    pr, ck, I, st, s, args = setup(rep, None)
    b = ck.lay.off(TS, 'symmetry_data')
    sd, ss = 'MyPaintSymmetryData', 'MyPaintSymmetryState'
    t = P(sym(('type',), 'type', 0, 4, True))
    n = P(sym(('lines',), 'lines', 2, 1 << 20, True))
    names = ('type', 'center_x', 'center_y', 'angle', 'num_lines')
    want = dict(zip(names, (t, ck.cx, ck.cy, ck.ang, n)))
    cur = {k: P(sym(('cur', k), 'current ' + k, *((-1, 4, True) if k == 'type' else (2, 1 << 20, True) if k == 'num_lines' else ()))) for k in names}
    for k in names:
        o = ck.lay.off(ss, k)
        ty = ir.I32 if k == 'type' else ir.FLOAT
        poke(I, st, s, b + ck.lay.off(sd, 'state_current') + o, cur[k])
    f = pr.fn('mypaint_tiled_surface_set_symmetry_state')
    c0 = b + ck.lay.off(sd, 'state_current')
    ck.watch = (s, [c0 + ck.lay.off(ss, k) for k in names], [cur[k] - want[k] for k in names])
    seen = 0
    act = P(sym(('active',), 'active', 0, 1, True))
    for a, _ in I.call_fn(f, [Ptr(s), act, ck.cx, ck.cy, ck.ang, t, n], st, 0):
        for r in begin(ck, I, a, s):
            if r.ghost.get('failed'):
                continue
            seen += 1
            for k in names:
                got = I.read(r, s, C(c0 + ck.lay.off(ss, k)), 4, ir.I32 if k == 'type' else ir.FLOAT, None, 0)
                ok = got == want[k] or isinstance(got, Poly) and r.decide(('eq', got - want[k])) is True
                ck.ob(I, R_UPD, ok, 'an atomic section can start while the %s in use differs from the requested one' % k, 'kept ' + k)
    if not seen:
        raise Broken('begin_atomic does not return')
    rep.analysed(*I.visited)


def poke(I, st, reg, off, v):
    m = st.mem.get(reg)
    m = m.copy() if m is not None else RegMem(0, False)
    st.mem[reg] = m
    m.cells[C(off)] = (4, v)


def run(rep, w):
    pr = w.program()
    top = 12 if rep.tier == 'quick' else 40
    jobs = [(copies, ('VERTICAL', 2)), (copies, ('HORIZONTAL', 2)), (copies, ('VERTHORZ', 2)), (copies, ('VERTICAL', 7)), (copies, ('ROTATIONAL', 3, 0)),
            (pending, ()), (update, ())]
    jobs += [(storage, (t,)) for t in TYPES]
    for n in range(2, top + 1):
        jobs += [(copies, ('ROTATIONAL', n)), (copies, ('SNOWFLAKE', n))]
    par.run(rep, jobs, ctx=pr)
