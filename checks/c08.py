from vp import cccheck

SPEC = dict(
    harness=['c08.cc'],
    rule='random histories of creating stores, registering curves (type and offsets known from an independent count), reading texts into stores, flushing to the shared '
         'results with random blocks, taking the shared results out and dropping stores, compared at each taking with a model map of big integers; '
         'the same with several threads flushing at once; non-trivial: at least one store was flushed, distinct by choices',
    quick=dict(plain=(24000, 60), asan=(2500, 40)),
    thorough=dict(plain=(800000, 420), asan=(60000, 150), fuzz=150),
    assumptions=['the multiplicity of a single curve is decided by C07', 'curves have at least one counted extension'],
)


def run(**kw):
    return cccheck.run('C08', SPEC, **kw)
