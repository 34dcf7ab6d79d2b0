"""C01 Blending always leaves valid premultiplied pixels."""
from .. import blend, par

META = {
    'level': 'proof',
    'technique': 'abstract interpretation (relational numeric domain) of LLVM IR',
    'note': 'all inputs in the stated ranges; floats as reals',
    'explanation': 'abstract interpretation of each blend function over all valid pixels, mask values, opacities and colours',
    'trusted': [],
}


def one(rep, level, mode):
    pr = par.shared()
    fn = blend.blend_functions(pr)[mode]
    ck = blend.BlendSemantics(rep, mode, rules=('valid', 'arith'))
    ck.maxstates = level
    blend.analyse(pr, rep, mode, fn, ck)
    rep.ob('pixel loop found', ck.pixels > 0, fn.name, 'no pixel was written')
    rep.count('pixel_paths', ck.pixels)


def run(rep, w):
    pr = w.program()
    par.ladder(rep, [(one, (m,)) for m in sorted(blend.blend_functions(pr))], ctx=pr)
    rep.require('colour channel <= alpha', 24)
    rep.require('stored channel in 0..2^15', 24)
