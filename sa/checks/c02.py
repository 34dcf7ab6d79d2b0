"""C02 Alpha-preserving blend modes never change alpha."""
from .. import blend, par

META = {
    'level': 'proof',
    'technique': 'abstract interpretation, value equality dataflow on the alpha channel',
    'note': 'all inputs in the stated ranges',
    'explanation': 'abstract interpretation of each blend function over all valid pixels, mask values, opacities and colours',
    'trusted': [],
}


def one(rep, level, mode):
    pr = par.shared()
    fn = blend.blend_functions(pr)[mode]
    ck = blend.BlendSemantics(rep, mode, rules=('alpha',))
    ck.maxstates = level
    blend.analyse(pr, rep, mode, fn, ck)
    rep.ob('pixel loop found', ck.pixels > 0, fn.name, 'no pixel was written')
    rep.count('pixel_paths', ck.pixels)


def run(rep, w):
    pr = w.program()
    par.ladder(rep, [(one, (m,)) for m in blend.ALPHA_KEEPING], ctx=pr)
    rep.require('alpha unchanged', 4)
