from vp import cccheck

SPEC = dict(
    harness=['c01.cc'],
    rule='random histories of counting curves (degree 3..60, any characteristic, F_{p^r} and extensions up to 7e5 elements, '
         'shared and fresh tables, trailing zeros) compared with the count by definition in an independently built field; '
         'a case is non-trivial if at least one curve was counted and compared, distinct by fields, coefficients and extensions',
    quick=dict(plain=(22000, 60), asan=(1200, 40)),
    thorough=dict(plain=(600000, 420), asan=(30000, 150), fuzz=150),
    assumptions=['the base field is the one listed by FqElementTable (checked on its own by C05)'],
)


def run(**kw):
    return cccheck.run('C01', SPEC, **kw)
