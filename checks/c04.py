from vp import cccheck

SPEC = dict(
    harness=['c04.cc'],
    rule='squarefree right hand sides: offsets against the point counts, Hasse-Weil bound, power sums of an integral zeta numerator with functional equation; counts over extensions with up to 2^31 elements put in place of the counted ones: offsets, lists and complete exponents; and the same curve transformed by x->ax+b, reversal and scaling: counts, offsets, type compared; non-trivial: for the symmetry part the transformed right hand side differs from the original, for the counts put in place some extension has more than 2^24 elements',
    quick=dict(plain=(24000, 60), asan=(1800, 40)),
    thorough=dict(plain=(600000, 420), asan=(45000, 150), fuzz=150),
    assumptions=[],
)


def run(**kw):
    return cccheck.run('C04', SPEC, **kw)
