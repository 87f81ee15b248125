import os

from checks import c12, c13
from vp import build, census_runs as cr, pbt, runs
from vp.pbt import Fail, Discard

P = None
STUB = None
SHIM = None
TIER = 'quick'


def partly(c, work, cfg, entries):
    """an earlier run which was interrupted, or of which something was lost; -> blocks on record"""
    k = c.pick(3)
    env = c12.gen_policy(c)
    env['SCHED_JUMP'] = str(c.of([2, 3, 10]))
    threads = 1 + c.pick(4)
    env.update(LD_PRELOAD=SHIM, FAULT_DIR=os.path.join(os.path.realpath(work), 'out'))
    cmd = [P.path['threaded'], '-n%d' % threads, cfg, 'out']
    if k == 0 or not STUB:
        what = 'a threaded run'
    else:
        env.update(STUB_N=str(1 + c.pick(3)), STUB_SYNC=str(c.pick(2)))
        cmd[0] = STUB
        what = 'a run of %s processes' % env['STUB_N']
    if c.chance(2, 3):
        env.update(c13.gen_fault(c, 20 * len(entries), 150 * len(entries)))
        what = 'interrupted ' + what
    c.say('after %s, %s;' % (what, ' '.join('%s=%s' % (a, b) for a, b in env.items() if a not in ('LD_PRELOAD', 'FAULT_DIR'))))
    runs.run(cmd, work, env, timeout=60)
    if c.chance(1, 2):                        # some saves are lost
        for e in entries:
            full = os.path.join(work, 'out', e['path'])
            if os.path.isdir(full):
                rec, _, _ = runs.folder(full)
                for stem in sorted(rec, key=lambda s: (rec[s], s)):
                    if c.chance(1, 2):
                        for x in (runs.REC, runs.STO):
                            os.unlink(os.path.join(full, stem + x))
    c.label(what.split(' of ')[0])
    before = c13.recorded(work, 'out', entries)
    if any(before.values()):
        c.label('partly filled folders')
    return before


def finished(c, work, entries, before):
    after = c13.recorded(work, 'out', entries)
    for k in before or {}:
        if not before[k] <= after[k]:
            raise Fail('blocks on record before the run vanished from %s' % k)
    return c12.inspect(work, 'out', entries, c, clean=before is None)


def simulated(c, work):
    """processes and messages of the stand-in for MPI, threads under the deterministic scheduler"""
    entries = c12.gen_entries(c, 1 + c.weighted([4, 3, 1]), c.of([3, 8, 25, 3, 8, 25, 150]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    before = partly(c, work, cfg, entries) if c.chance(1, 3) else None
    procs, threads = 1 + c.weighted([4, 12, 8, 4, 0, 0, 0, 1]), 1 + (c.pick(3) if not c.chance(1, 30) else c.pick(16))
    env = c12.gen_policy(c)
    env.update(STUB_N=str(procs), STUB_SYNC=str(c.pick(2)), STUB_LAZY=str(c.of([0, 0, 1, 5])))
    c.say('%d processes of %d threads, %s' % (procs, threads, ' '.join('%s=%s' % x for x in env.items())))
    env.update(LD_PRELOAD=SHIM, SCHED_REPORT=os.path.join(work, 'report'))
    r = runs.run([STUB, '-n%d' % threads, cfg, 'out'], work, env, timeout=45)
    if r.rc == 85:
        c.label('inconclusive')
        raise Discard()
    runs.ended_well(r, 'hycu-mpi (%d simulated processes)' % procs)
    total = finished(c, work, entries, before)
    with open(os.path.join(work, 'report')) as f:
        decisions, switches, jumps, spurious, nthreads = map(int, f.read().split())
    if jumps:
        c.label('clock jumps')
    c.label('%d simulated processes' % procs)
    if env['STUB_SYNC'] == '1':
        c.label('sends wait for receives')
    if procs > 1 and total > len(entries):
        c.nontrivial((tuple(str(e) for e in entries), tuple(sorted(env.items())), threads))


def distributed(c, work):
    """Open MPI"""
    entries = c12.gen_entries(c, 1 + c.weighted([2, 2, 1]), c.of([10, 40]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    before = partly(c, work, cfg, entries) if c.chance(1, 3) else None
    procs, threads = 1 + c.weighted([1, 3, 2, 1]), 1 + c.pick(3)
    e = dict(LD_PRELOAD=P.fast, FAST_DIV=str(c.of([20, 100, 400])), DELAY_US=str(c.of([0, 0, 100, 1000])))
    if c.chance(1, 2):
        e['CLOCK_JUMP'] = str(c.of([7, 61, 400]))
    c.say('%d processes of %d threads, %s' % (procs, threads, {a: b for a, b in e.items() if a != 'LD_PRELOAD'}))
    env = dict(TMPDIR=work, OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_btl_vader_single_copy_mechanism='none')
    args = [P.path['mpi'], '-n%d' % threads, cfg, 'out']
    if procs == 1 and c.chance(1, 2):
        env.update(e)
        cmd = args
    else:
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(procs)]
        for a, b in e.items():
            cmd += ['-x', '%s=%s' % (a, b)]
        cmd += args
    r = runs.run(cmd, work, env, timeout=120)
    runs.ended_well(r, 'hycu-mpi (%d processes)' % procs)
    total = finished(c, work, entries, before)
    c.label('%d processes' % procs)
    if total > len(entries):
        c.nontrivial()


SUBS = [('simulated', simulated, 40), ('distributed', distributed, 1)]


def run(tier, seed, scratch, replay):
    global P, SHIM, STUB, TIER
    TIER = tier
    P = c12.P = c13.P = runs.Programs(['threaded', 'mpi', 'census', 'merger', 'sequential'])
    SHIM = build.shared_lib('crash', ['sched.cc', 'fault.cc'])
    notes, subs = [], SUBS
    try:
        STUB = runs.Programs(['mpi-stub']).path['mpi-stub']
    except build.BuildError as e:                  # uses more of MPI than the stand-in offers
        notes.append('not run on the stand-in for MPI: ' + str(e)[-300:])
        subs = SUBS[1:]
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (3000, 40) if tier == 'quick' else (200000, 700)
    cov, violations, more = pbt.run('C16', subs, seed, cases if STUB else cases // 40, deadline, scratch, workers=10)
    cov['rule'] = ('random configurations run by hycu-mpi with 1 to 4 (seldom 8) processes of 1 to 3 (seldom up to 16) threads, on Open MPI and (most) with forked processes and messages of a stand-in for Boost.MPI, whose '
                   'sends may wait for receives and whose messages may be delayed, under a deterministic scheduler within each process; one in three completes folders partly filled by '
                   'an earlier threaded or distributed run; each saved pair is compared with a sequential computation, the whole with a brute-force census; non-trivial: several '
                   'processes (Open MPI: any number) and more blocks than moduli, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes + more,
                assumptions=['the stand-in for Boost.MPI keeps the order of messages between two processes and matches them by source and tag, as MPI does'])
