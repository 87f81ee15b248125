from vp import build, cccheck, kernels

SPEC = dict(
    harness=['c19.cc'], libs=build.LIBS + build.CL_LIBS,
    rule='the text handed to the OpenCL compiler is compiled by clang as OpenCL C for the host; random fields, generators and coefficient vectors (leading zeros and constants included), work items '
         'in any order, each mark compared with the definition; random group shapes, lengths and values, work items as coroutines run in random order between barriers, sums '
         'compared; both together compared with the processor implementation; non-trivial: both kinds of values of the polynomial occur resp. more than one work item and entry, '
         'distinct by choices',
    quick=dict(plain=(32000, 30), asan=(2500, 25)),
    thorough=dict(plain=(1500000, 350), asan=(60000, 200), fuzz=100),
    assumptions=['no OpenCL device or compiler is available: kernels run on the host, int of 32 bit, one dimension',
                 'the host code behind WITH_OPENCL is the subject of C20'],
)


def run(**kw):
    spec = dict(SPEC, harness=SPEC['harness'] + ['cldev.cc', kernels.generated()])
    return cccheck.run('C19', spec, **kw)
