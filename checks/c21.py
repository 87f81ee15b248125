from vp import cccheck

SPEC = dict(
    harness=['c21.cc'], stubmpi=True,
    rule='random operations (with curves, tables, iterators, configurations, texts of results and records, result folders, pools of threads, of one and of several processes) repeated, counting the blocks and '
         'bytes of memory in use, open files, and threads after growing numbers of repetitions; non-trivial: all cases which were repeated, distinct by choices',
    quick=dict(plain=(9000, 45)),
    thorough=dict(plain=(200000, 600)),
    assumptions=['what is kept once, or up to a bound, is not left behind: only growth by at least one byte (file, thread) for each repetition, in every interval, is'],
)


def run(**kw):
    return cccheck.run('C21', SPEC, **kw)
