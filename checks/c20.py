import os

from checks import c12, c15
from vp import build, cccheck, census_runs as cr, kernels, pbt, runs
from vp.pbt import Fail, Discard

P = None
SHIM = None
STUB = None
TIER = 'quick'

CC = dict(
    harness=['c20.cc'], opencl=True,
    rule='',
    quick=dict(plain=(9000, 14), asan=(2500, 14)),
    thorough=dict(plain=(400000, 150), asan=(60000, 150)),
)


def gen_devices(c):
    """platforms and devices; -> environment, number of devices used"""
    vendors = ['NVIDIA', 'Advanced Micro Devices', 'pocl']
    n = c.weighted([1, 8, 3, 1])
    known, parts, count = set(), [], 0
    for _ in range(n):
        v = c.of(vendors)
        gpus, acc, cpus = c.weighted([1, 6, 2, 1]), c.weighted([5, 1]), c.pick(2)
        parts.append('%s:%d:%d:%d' % (v, gpus, acc, cpus))
        if v not in known:
            known.add(v)
            count += gpus + acc
    env = dict(FAKECL_LAZY=str(c.of([0, 30, 100])), FAKECL_SEED=str(c.pick(1 << 30)))
    if parts:
        env['FAKECL'] = ','.join(parts)
    return env, count


def gen_threads(c, devices):
    per_device = 1 + c.weighted([6, 2, 1, 1]) if not c.chance(1, 20) else c.pick(12)
    cpu = c.weighted([2, 4, 3, 2, 1])
    if devices * per_device == 0 or c.chance(1, 10):
        cpu = max(cpu, 1 + devices * per_device // 8)      # without any thread a run does not end
    return cpu, per_device


def say_env(env):
    return ' '.join('%s=%s' % x for x in sorted(env.items()) if x[0] not in ('LD_PRELOAD', 'SCHED_REPORT', 'CLDEV_DIR'))


def hybrid(c, work, mpi=False):
    """threads with and without a device, under the deterministic scheduler or that of the system"""
    entries = c12.gen_entries(c, 1 + c.weighted([4, 3, 1]), c.of([3, 8, 25]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    env, devices = gen_devices(c)
    cpu, per_device = gen_threads(c, devices)
    env['CLDEV_DIR'] = CLDIR
    scheduled = mpi or c.chance(5, 6)
    if scheduled:
        env.update(c12.gen_policy(c), LD_PRELOAD=SHIM, SCHED_REPORT=os.path.join(work, 'report'))
    else:
        env.update(LD_PRELOAD=P.fast, FAST_DIV=str(c.of([20, 50, 200, 1000])))
        if c.chance(1, 2):
            env['CLOCK_JUMP'] = str(c.of([7, 61, 400]))
    cmd = [P.path['threaded-opencl']]
    if mpi:
        env.update(STUB_N=str(1 + c.weighted([2, 8, 4, 1])), STUB_SYNC=str(c.pick(2)), STUB_LAZY=str(c.of([0, 0, 1, 5])))
        cmd = [STUB]
    cmd += ['-n%d' % cpu, '-g%d' % per_device, cfg, 'out']
    c.say('%d devices with %d threads each, -n%d, %s' % (devices, per_device, cpu, say_env(env)))
    r = runs.run(cmd, work, env, timeout=60)
    if r.rc == 85:
        c.label('inconclusive')
        raise Discard()
    if r.timeout and scheduled:
        raise Discard()
    if 'fakecl: ' in r.err:
        raise Fail('OpenCL is not used as it has to be: ' + r.err[-600:])
    runs.ended_well(r, 'hycu-mpi with OpenCL' if mpi else 'hycu-threaded with OpenCL')
    total = c12.inspect(work, 'out', entries, c)
    c.label('%s devices' % (devices if devices < 4 else 'more than 3'))
    if cpu > devices * per_device // 8 and devices * per_device:
        c.label('threads with and without device')
        if total > len(entries):
            c.nontrivial((tuple(str(e) for e in entries), tuple(sorted(env.items())), cpu, per_device))
    elif devices * per_device:
        c.label('threads with device only')


def distributed(c, work):
    """processes of the stand-in for MPI, each with threads on its devices"""
    if not STUB:
        raise Discard()
    hybrid(c, work, mpi=True)


def single(c, work):
    """the report of hycu-single is the same through OpenCL"""
    p = c.of([3, 5, 7, 11, 13, 17, 19, 29, 43, 101])
    genus = 1 + c.pick(4)
    while p ** genus > 3000:
        genus -= 1
    coeffs = [str(c.pick(p)) if c.chance(3, 4) else '0' for _ in range(2 * genus + 1 + c.pick(2))] + [str(1 + c.pick(p - 1))]
    env, devices = gen_devices(c)
    if not devices:
        env['FAKECL'], devices = 'NVIDIA:1:0:0', 1
    env['CLDEV_DIR'] = CLDIR
    c.say('p = %d, coefficients %s' % (p, ' '.join(coeffs)))
    a = runs.run([P.path['single-opencl'], str(p)] + coeffs, work, env, timeout=60)
    b = runs.run([P.path['single-opencl'], '--opencl', str(p)] + coeffs, work, env, timeout=60)
    runs.ended_well(a, 'hycu-single')
    runs.ended_well(b, 'hycu-single --opencl')
    if 'fakecl: ' in b.err:
        raise Fail('OpenCL is not used as it has to be: ' + b.err[-600:])
    if a.out != b.out:
        raise Fail('the report through OpenCL differs:\n%s\ninstead of\n%s' % (b.out, a.out))
    c.nontrivial()


SUBS = [('hybrid', hybrid, 30), ('distributed', distributed, 10), ('single', single, 5)]
CLDIR = os.path.join(build.BUILD, 'cl')


def run(tier, seed, scratch, replay):
    global P, SHIM, STUB, TIER
    TIER = tier
    notes, subs = [], SUBS
    if replay and not replay.endswith('.json'):
        return cccheck.run('C20', CC, tier, seed, scratch, replay)
    P = c12.P = runs.Programs(['threaded-opencl', 'single-opencl', 'census', 'sequential'])
    SHIM = build.shared_lib('sched', ['sched.cc'])
    os.makedirs(CLDIR, exist_ok=True)
    try:
        STUB = runs.Programs(['mpi-stub-opencl']).path['mpi-stub-opencl']
    except build.BuildError as e:                  # uses more of MPI than the stand-in offers
        notes.append('not run on the stand-in for MPI: ' + str(e)[-300:])
        subs = [s for s in SUBS if s[0] != 'distributed']
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    first = cccheck.run('C20', CC, tier, seed, scratch, None)
    if first['violations']:
        return first
    cases, deadline = (3000, 22) if tier == 'quick' else (200000, 400)
    cov, violations, more = pbt.run('C20', subs, seed, cases, deadline, scratch, workers=10)
    a = first['coverage']
    for k in ('evaluations', 'distinct_nontrivial', 'discarded'):
        cov[k] = cov.get(k, 0) + a.get(k, 0)
    cov['samples'] = a['samples'][:5] + cov['samples'][:7]
    cov['labels'] = dict(cov.get('labels', {}), **{'library: ' + k: v for k, v in a['labels'].items()})
    cov['library_cases_by_subproperty'] = a['cases_by_subproperty']
    cov['library_cases_by_build'] = a['cases_by_build']
    cov['rule'] = ('the host code for OpenCL, built with the installed bindings against a driver of our own whose devices run the kernels on the host: random sequences of curves, tables '
                   'and interfaces, with queued commands executed at any allowed moment, compared with the processor; random lists of platforms and devices; one failing call to the driver; '
                   'runs of hycu-threaded, hycu-mpi (stand-in for MPI) and hycu-single with any number of devices and threads for them, under random schedules, compared with a brute-force census '
                   'and with the sequential computation of each saved pair; non-trivial: a count through OpenCL resp. threads with and without device and more blocks than moduli, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes + first['notes'] + more,
                assumptions=['the driver and the device are stand-ins: kernels are compiled by clang as OpenCL C for the host, one work group at a time',
                             'queued commands are executed in order, at any moment up to the next blocking call'])
