from vp import cccheck

SPEC = dict(
    harness=['c07.cc'],
    rule='random (q, genus, marked point, package size): all blocks of the enumeration are collected, a random squarefree right hand side is moved through '
         'the whole group of x->ax+b and scalings, and twice the multiplicities of the images found in the blocks must add up to the group order '
         '(no image in two blocks); for genus up to 6 one right hand side is taken from each block and moved by scalings; for fields up to 250000 elements members of the enumeration are moved by x->ax and scalings; for small fields the complete enumeration is walked through, without repetition and with the exact total weight; '
         'non-trivial: the sum was formed and compared, distinct by parameters and right hand side',
    quick=dict(plain=(9500, 50), asan=(400, 40)),
    thorough=dict(plain=(60000, 500), asan=(2000, 150), fuzz=100),
    assumptions=['p odd, genus 1 to 6, q up to 250000; beyond q = 343 only right hand sides that the enumeration visits'],
)


def run(**kw):
    return cccheck.run('C07', SPEC, **kw)
