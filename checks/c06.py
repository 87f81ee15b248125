from vp import cccheck

SPEC = dict(
    harness=['c06.cc'],
    rule='random iterators of ranges, sets and dependent sets with and without package size against the product set written out; non-trivial: more than one position, respectively more than one block; distinct by the described set and package size',
    quick=dict(plain=(120000, 60), asan=(10000, 40)),
    thorough=dict(plain=(3000000, 420), asan=(250000, 150), fuzz=150),
    assumptions=['bounds below 2^31, value sets not empty (where the code does not refuse)'],
)


def run(**kw):
    return cccheck.run('C06', SPEC, **kw)
