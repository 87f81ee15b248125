from vp import cccheck

SPEC = dict(
    harness=['c22.cc'], stubmpi=True,
    rule='random sequences of handing out blocks, moving the calendar clock by random amounts (seconds to weeks, near five minutes), waiting for all blocks, and going on to another '
         'configuration, with StandaloneWorkerPool and with MPIWorkerPool on simulated processes; the files in the result folder are read after each block; non-trivial: a save was due '
         'at least once, distinct by choices',
    quick=dict(plain=(6000, 45)),
    thorough=dict(plain=(400000, 600)),
    assumptions=['the clock is read through the interfaces of the C library (clock_gettime, gettimeofday, time)', 'the clock does not go backwards'],
)


def run(**kw):
    return cccheck.run('C22', SPEC, **kw)
