from vp import cccheck

SPEC = dict(
    harness=['c02.cc'],
    rule='random histories of count requests (any mixture of the three implementations, any extensions, repetitions, several curves with shared or fresh fields) against a record of what was reported before, plus each first count repeated on a fresh curve with the two other implementations; non-trivial: every history or differential case that ran to its end, distinct by the choices made',
    quick=dict(plain=(14000, 60), asan=(1200, 40)),
    thorough=dict(plain=(350000, 420), asan=(30000, 150), fuzz=150),
    assumptions=['the point counts themselves are decided by C01; here only agreement and bookkeeping'],
)


def run(**kw):
    return cccheck.run('C02', SPEC, **kw)
