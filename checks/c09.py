from vp import cccheck

SPEC = dict(
    harness=['c09.cc'],
    rule='random results (keys with shared prefixes, all signs, counts up to 600 bit) and records written by an independent printer, read in parts and in any order, '
         'compared byte for byte with the canonical text of the summed model; values copied, added and compared against big integers; '
         'non-trivial: at least one key or block, distinct by text',
    quick=dict(plain=(120000, 60), asan=(8000, 40)),
    thorough=dict(plain=(3000000, 420), asan=(200000, 150), fuzz=150),
    assumptions=['offsets below 2^31 in absolute value, block bounds below 2^31, at least one degree and one offset per key'],
)


def run(**kw):
    return cccheck.run('C09', SPEC, **kw)
