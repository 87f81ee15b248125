import os, struct

from checks import c12
from vp import build, census_runs as cr, pbt, runs
from vp.pbt import Fail, Discard

P = None
GATE = None
STUB = None
WAIT = 15000
FIELDS = ('lock', 'waiting', 'slots', 'phases', 'open', 'failed', 'most', 'stuck', 'calls')


def state_file(work, name):
    path = os.path.join(work, name)
    with open(path, 'wb') as f:
        f.write(bytes(16384))
    return path


def read_state(path):
    with open(path, 'rb') as f:
        return dict(zip(FIELDS, struct.unpack('9i', f.read(36))))


def recorded(full):
    if not os.path.isdir(full):
        return set()
    return {b for stem, t in runs.folder(full)[0].items() for b in runs.parse_record(t, 'record')}


def nmb_curves(block):
    n = 1
    for lo, hi in block:
        n *= hi - lo
    return n


def share(c, work, stub):
    n_entries = 1 + c.weighted([4, 1])
    many = c.chance(1, 12)
    entries = c12.gen_entries(c, n_entries, 150 if many else c.of([10, 40, 100]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    env = dict(LD_PRELOAD=P.fast + ':' + GATE, FAST_DIV=str(c.of([20, 100, 1000])))
    # all blocks, and whether every curve passes the gate
    count = state_file(work, 'count')
    runs.ended_well(runs.run([P.path['threaded'], '-n4', cfg, 'all'], work, dict(env, GATE_STATE=count), timeout=60), 'hycu-threaded')
    blocks = [recorded(os.path.join(work, 'all', e['path'])) for e in entries]
    if read_state(count)['calls'] < sum(nmb_curves(b) for bs in blocks for b in bs):
        c.label('gate does not fit')
        raise Discard()
    left = [len(b) for b in blocks]
    # some are on record already
    if c.chance(1, 3):
        e, full = entries[0], os.path.join(work, 'out', entries[0]['path'])
        os.makedirs(full)
        done = set(b for b in sorted(blocks[0]) if c.chance(1, 4))
        with open(os.path.join(full, '17' + runs.REC), 'w') as f:
            f.write(runs.record_text(done))
        with open(os.path.join(full, '17' + runs.STO), 'w') as f:
            pass
        left[0] -= len(done)
        c.label('partly filled folders')
    procs = 1 if not stub else 1 + c.weighted([1, 4, 4, 2])
    threads = 1 + (c.pick(90) if many else c.pick(4) if not c.chance(1, 8) else c.pick(12))
    if procs * threads > left[0] >= procs and (many or c.chance(7, 8)):
        threads = left[0] // procs
    if threads > 16:
        c.label('more than 16 threads')
    args = ['-n%d' % threads]
    cores = os.cpu_count()
    if cores == len(os.sched_getaffinity(0)) <= 16 and c.chance(1, 8):          # all available cores
        threads, args = cores, []
        c.label('as many threads as cores')
    total = procs * threads
    # the first configuration decides: later ones find all threads idle again
    spare = left[0] - total
    if spare < 0:
        raise Discard()
    st = state_file(work, 'state')
    env.update(GATE_STATE=st, GATE_N=str(total), GATE_SPARE=str(spare), GATE_SEED=str(c.pick(1 << 30)), GATE_WAIT=str(WAIT),
               GATE_EXTRA=str(c.of([0, 0, 3, 20])), GATE_HOLD=str(c.of([0, 2, 5, 7, 8])))
    if stub:
        env.update(STUB_N=str(procs), STUB_SYNC=str(c.pick(2)), STUB_LAZY=str(c.of([0, 0, 1, 5])))
    c.say('%d processes of %d threads, %d blocks, %s' % (procs, threads, left[0], ' '.join('%s=%s' % x for x in env.items() if x[0] not in ('LD_PRELOAD', 'GATE_STATE'))))
    r = runs.run([STUB if stub else P.path['threaded']] + args + [cfg, 'out'], work, env, timeout=90)
    s = read_state(st)
    if s['failed'] == 1:
        raise Fail('only %d of %d threads are at work after %d steps, although there are blocks for all of them' % (s['stuck'], total, s['phases']))
    if s['failed'] == 2:
        raise Fail('%d threads are at work, %d were asked for' % (s['most'], total))
    runs.ended_well(r, 'the program')
    for e, b in zip(entries, blocks):
        got = recorded(os.path.join(work, 'out', e['path']))
        if got != b:
            raise Fail('%d blocks are on record for %s instead of %d' % (len(got), cr.say(e), len(b)))
    c.label('%d phases or more' % (1 << max(0, s['phases'].bit_length() - 1)))
    if total > 1 and s['phases'] > 1:
        c.nontrivial()


def threaded(c, work):
    share(c, work, False)


def distributed(c, work):
    share(c, work, True)


SUBS = [('threaded', threaded, 3), ('distributed', distributed, 5)]


def run(tier, seed, scratch, replay):
    global P, GATE, STUB
    P = c12.P = runs.Programs(['threaded'])
    GATE = build.shared_lib('gate', ['gate.cc'])
    notes, subs = [], SUBS
    try:
        STUB = runs.Programs(['mpi-stub']).path['mpi-stub']
    except build.BuildError as e:                  # uses more of MPI than the stand-in offers
        notes.append('not run on the stand-in for MPI: ' + str(e)[-300:])
        subs = SUBS[:1]
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (2000, 40) if tier == 'quick' else (40000, 600)
    cov, violations, more = pbt.run('C23', subs, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('random configurations run by hycu-threaded and hycu-mpi (simulated processes), where each thread stops before each curve until as many threads as were asked for have '
                   'stopped at the same time; then a random subset goes on, while the others are kept; repeated as long as blocks are left for all of them; non-trivial: at least two '
                   'threads and two steps, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes + more,
                assumptions=['a thread which has work begins it within %d s' % (WAIT // 1000),
                             'each curve is tested for being squarefree by FLINT, otherwise nothing is decided'])
