from vp import cccheck

SPEC = dict(
    harness=['c03.cc'],
    rule='right hand sides built from known factors (with and without repeated factors, inseparable p-th powers) or at random, extensions counted in random order and with gaps before the type is asked for, compared with an independent squarefree test and distinct-degree factorisation; non-trivial: the squarefree verdict was compared, and for squarefree inputs of degree at least 3 the type as well; distinct by curve and request order',
    quick=dict(plain=(120000, 60), asan=(8000, 40)),
    thorough=dict(plain=(3000000, 420), asan=(200000, 150), fuzz=150),
    assumptions=['polynomials of degree 0 or the zero polynomial are outside the domain'],
)


def run(**kw):
    return cccheck.run('C03', SPEC, **kw)
