from vp import cccheck

SPEC = dict(
    harness=['c05.cc'],
    rule='element tables for random p^r: every entry against powers of the generator in an independently built field (irreducible polynomial obtained from the listing), all indices reduced, coset representatives for random n; non-trivial: distinct (p, r, n) with a table of at least 3 elements',
    quick=dict(plain=(24000, 60), asan=(2000, 40)),
    thorough=dict(plain=(600000, 420), asan=(50000, 150), fuzz=150),
    assumptions=['p is an odd prime below 140000'],
)


def run(**kw):
    return cccheck.run('C05', SPEC, **kw)
