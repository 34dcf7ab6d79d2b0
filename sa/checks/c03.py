"""C03 Blend modes compute the documented compositing formula."""
from .. import blend, par
from ..dom import C, P, SYMS, Poly
from ..blend import ONE15
from fractions import Fraction

META = {
    'level': 'proof',
    'technique': 'abstract interpretation, polynomial value tracking against a specification formula',
    'note': 'error bound 4/2^15 for all inputs; floats as reals',
    'explanation': 'for every path through the pixel loop the polynomial written to each channel is compared with the '
                   'compositing formula; the difference is bounded over all inputs by the abstract domain',
    'trusted': [],
}
K = Fraction(1, ONE15)
TOL = 4


def mask_symbol(ck, I, st, vals):
    """the mask entry that the written values depend on"""
    m = st.mem.get(ck.mask)
    cells = [v for _, v in m.cells.values()] if m else []
    dep = set()
    work = [v for v in vals]
    seen = set()
    while work:
        p = work.pop()
        for s in p.syms():
            if s in seen:
                continue
            seen.add(s)
            d = SYMS[s].defn
            if d:
                work += [x for x in d[1:] if isinstance(x, Poly)]
            dep.add(s)
    hit = [v for v in cells if isinstance(v, Poly) and v.single() is not None and v.single().id in dep]
    return hit or [v for v in cells if isinstance(v, Poly)]


def near(st, d):
    """|d| <= TOL for a difference polynomial"""
    return st.num.ge0(d + TOL) and st.num.ge0(C(TOL) - d)


def formula(ck, I, st, X, where):
    mode = ck.mode
    out = [I.asnum(st, ck.channel_value(I, st, X, c)) for c in range(4)]
    ver = st.mem[ck.rgba].ver
    from ..dom import sym
    px = [P(sym(('px', ver, X, c), None, 0, ONE15, True)) for c in range(4)]
    par_ = ck.par
    opa = par_['opacity']
    paint = mode.endswith('_Paint')
    if mode in ('Normal_Paint', 'LockAlpha_Paint'):
        # the pigment modes enforce a minimum opacity
        if st.num.ge0(C(150) - opa):
            opa = C(150)
        elif not st.num.ge0(opa - 150):
            opa = None
    chans = [] if paint else [0, 1, 2]
    if mode in ('Normal', 'Normal_Paint', 'Normal_and_Eraser', 'Normal_and_Eraser_Paint'):
        chans = chans + [3]
    masks = mask_symbol(ck, I, st, [out[c] for c in chans])
    col = [par_.get(n) for n in ('color_r', 'color_g', 'color_b')]
    for c in chans:
        ok = False
        d = None
        for m in masks:
            if opa is None:
                break
            a = (m * opa).scale(K)
            if mode.startswith('Normal_and_Eraser'):
                w = (a * par_['color_a']).scale(K)
            elif mode.startswith('LockAlpha'):
                w = (a * px[3]).scale(K)
            else:
                w = a
            back = ((C(ONE15) - a) * px[c]).scale(K)
            if c == 3:
                spec = w + back
            elif mode == 'Posterize':
                n = par_['posterize_num']
                q = I.floor(st, (px[c] * n).scale(K) + C(Fraction(1, 2)))
                post = I.floor(st, I.div(st, q.scale(ONE15), n))
                if st.num.ge0(px[3] - post):
                    pass
                elif st.num.ge0(post - px[3]):
                    post = px[3]
                else:
                    continue
                spec = (a * post).scale(K) + back
            else:
                spec = (w * col[c]).scale(K) + back
            d = out[c] - spec
            if near(st, d):
                ok = True
                break
        ck.rep.ob('written value = compositing formula (+-%d/2^15)' % TOL, ok, where,
                  '%s: channel %d = %r, difference from the formula %r in %s'
                  % (mode, c, out[c], d, st.num.range(d) if d is not None else None), key='formula@%s:%d' % (mode, c))


def one(rep, level, mode):
    pr = par.shared()
    fn = blend.blend_functions(pr)[mode]
    ck = blend.BlendSemantics(rep, mode, rules=())
    ck.formula = formula
    ck.maxstates = level
    blend.analyse(pr, rep, mode, fn, ck)
    rep.ob('pixel loop found', ck.pixels > 0, fn.name, 'no pixel was written')
    rep.count('pixel_paths', ck.pixels)


MODES = [m for m in blend.MODES if m not in ('Color', 'LockAlpha_Paint')]


def run(rep, w):
    pr = w.program()
    blend.blend_functions(pr)
    par.ladder(rep, [(one, (m,)) for m in MODES], levels=(2, 8, 24), ctx=pr)
    rep.require('written value = compositing formula (+-%d/2^15)' % TOL, 14)
