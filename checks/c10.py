from vp import cccheck

SPEC = dict(
    harness=['c10.cc'],
    rule='random histories over one to three folders (odd names, nested) of opening, saving (also repeated and large records), adding unrelated files and directories, '
         'cutting records off at a random byte; file names are drawn from a random device which repeats itself, so that names collide; after each step every file in '
         'every folder is compared byte for byte, and each handle is asked for saved, unsaved and nearly equal blocks; non-trivial: at least one save, distinct by choices',
    quick=dict(plain=(14000, 60), asan=(1200, 40)),
    thorough=dict(plain=(500000, 420), asan=(40000, 150)),
    assumptions=['names are drawn from std::random_device (if not, only the collision part is not exercised)'],
)


def run(**kw):
    return cccheck.run('C10', SPEC, **kw)
