"""Symbolic objects of the library: layouts by member name, typed pointers behind members, values of known range."""
from . import ir
from .dom import C, P, ZERO, sym, Poly
from .interp import Ptr, region
from .report import Broken


class Layout:
    """offsets and sizes by member name, nested members with dots, array elements with [k]"""

    def __init__(self, pr):
        self.pr = pr
        self.by = {}
        for m in pr.modules:
            for n in m.structs:
                s = n.replace('struct.', '').lstrip('_')
                try:
                    size = m.size_align(ir.Type('named', n))[0]
                except Exception:
                    continue
                self.by.setdefault(s, (m, ir.Type('named', n), size))
        self._mem = {}

    def members(self, s):
        if s not in self._mem:
            out = None
            for m in self.pr.modules:
                out = m.di_struct(s)
                if out:
                    break
            self._mem[s] = out or []
        return self._mem[s]

    def size(self, s):
        if s not in self.by:
            raise Broken('structure %s not found' % s)
        return self.by[s][2]

    def member(self, s, name):
        """(offset, size)"""
        self.size(s)
        for n, o, z in self.members(s):
            if n == name:
                return o, z
        # members of a nested structure
        for n, o, z in self.members(s):
            t = self.nested(s, o)
            if t and t in self.by and any(x[0] == name for x in self.members(t)):
                a, b = self.member(t, name)
                return o + a, b
        raise Broken('structure %s has no member %s any more' % (s, name))

    def nested(self, s, off):
        m, ty, _ = self.by[s]
        for i, t in enumerate(m.fields(ty)):
            o, _ = m.field_offset(ty, i)
            if o == off and t.kind == 'named':
                return t.a.replace('struct.', '').lstrip('_')
        return None

    def off(self, s, name):
        return self.member(s, name)[0]

    def name_at(self, s, off):
        for n, o, z in self.members(s):
            if o <= off < o + z:
                t = self.nested(s, o)
                if t:
                    x = self.name_at(t, off - o)
                    if x:
                        return x
                return n
        return None

    def enum(self, prefix):
        out = {}
        for m in self.pr.modules:
            for n, v in m.di_enums().items():
                if n.startswith(prefix):
                    out.setdefault(n, int(v))
        return out


def heap(key, name, size, nullable=False, uninit=False):
    r = region(('obj', key), 'heap', name, size=size if isinstance(size, Poly) else C(size), uninit=uninit)
    r.nullable = nullable
    return r


class World:
    """typed regions: reg -> structure name; loads of pointer members yield typed regions, loads of number members
    symbols of a given range.  spec: {(struct, member): value factory(I, st, reg, off, ty, key)}"""

    def __init__(self, lay):
        self.lay = lay
        self.kind = {}
        self.spec = {}

    def obj(self, key, struct, name=None, base=0):
        r = heap(key, name or struct, self.lay.size(struct))
        self.kind[r] = struct
        return r

    def load(self, I, st, reg, off, ty, key):
        s = self.kind.get(reg)
        if s is None:
            return None
        if off.isconst():
            n = self.lay.name_at(s, int(off.cval()))
        else:
            n = None
            # element of an array member: symbolic part bounded
            for nm, o, z in self.lay.members(s):
                if z > 8 and st.num.ge0(off - o) and st.num.ge0(C(o + z) - off - 1):
                    n = nm
                    break
        f = self.spec.get((s, n))
        if f is None:
            return None
        return f(I, st, reg, off, ty, key)


def number(name, lo, hi, isint=True):
    def f(I, st, reg, off, ty, key):
        return P(sym(('fld', name, reg.key, off, key[2]), '%s.%s' % (reg, name), lo, hi, isint))
    return f
