"""Queries over the intermediate representation: uses of values, external callees, address flow."""
from . import ir, frontend


def grefs(v):
    """names of globals inside a (constant) value"""
    if isinstance(v, ir.GRef):
        return [v.name]
    if isinstance(v, ir.Const):
        out = []

        def walk(x):
            if isinstance(x, ir.GRef):
                out.append(x.name)
            elif isinstance(x, ir.Const):
                walk(x.v)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        walk(v.v)
        return out
    return []


def operands(i):
    """all value operands of an instruction, phi inputs included"""
    for o in i.ops or ():
        if isinstance(o, (tuple, list)):
            for y in o:
                if isinstance(y, (ir.Reg, ir.GRef, ir.Const)):
                    yield y
        elif o is not None:
            yield o
    if i.op == 'phi' and i.x:
        for t in i.x if isinstance(i.x, (list, tuple)) else ():
            if isinstance(t, (tuple, list)):
                for y in t:
                    if isinstance(y, (ir.Reg, ir.GRef, ir.Const)):
                        yield y


def externals(pr):
    """{name: [(function, instruction)]} of everything called or referenced that the program does not define"""
    out = {}
    for m in pr.modules:
        for f in m.functions.values():
            for i in f.insts():
                names = []
                for o in operands(i):
                    names += grefs(o)
                for n in names:
                    if n in m.globals and n not in m.functions:
                        g = m.globals[n]
                        if not g.external or n in pr.globals and not pr.globals[n].external:
                            continue
                        if n in pr.functions:
                            continue
                        out.setdefault(n, []).append((f, i))
                        continue
                    if frontend.resolve(pr, m, n) is None:
                        out.setdefault(n, []).append((f, i))
    return out


def where(f, i):
    fi, l = f.module.loc(i.dbg)
    return '%s:%s (%s)' % (fi, l, f.name)
