import os, shutil, subprocess

from vp import build, census_runs as cr, pbt, runs
from vp.pbt import Fail, Discard

P = None
SHIM = None
TSAN = None
TINY = [(3, 1, 1, 3), (5, 1, 1, 3), (7, 1, 1, 2), (3, 2, 1, 2), (3, 1, 2, 2)]


def gen_entries(c, n, blocks):
    entries = []
    for k in range(n):
        e = cr.gen_entry(c, 'abcdefghijklmnopqrst'[k], (TINY, cr.SMALL[5:8]), (6, 1), max_blocks=blocks)
        e['package'] = min(e['package'], 1 << 20)
        entries.append(e)
    if n > 1 and c.chance(1, 3):              # the same blocks again
        entries[1] = dict(entries[0], path='b')
        c.label('the same blocks in two folders')
    return entries


def sequential(e, records):
    """results of each list of blocks"""
    text = ''.join(t + '=\n' for t in records)
    x = subprocess.run([P.path['sequential'], str(e['p']), str(e['r']), str(e['L'])], input=text.encode(), stdout=subprocess.PIPE, check=True)
    return x.stdout.decode().split('=\n')[:-1]


def inspect(work, out, entries, c, before=None, clean=True):
    """each folder: complete, every block once, each pair consistent"""
    total = 0
    for e in entries:
        full = os.path.join(work, out, e['path'])
        rec, sto, other = runs.folder(full)
        if other and clean:
            raise Fail('unexpected files in the result folder: %s' % sorted(other))
        if set(rec) != set(sto) and (clean or not set(rec) <= set(sto)):
            raise Fail('records %s, but results %s in the folder of %s' % (sorted(rec), sorted(sto), cr.say(e)))
        seen, total_store = {}, {}
        for stem in sorted(rec):
            for b in runs.parse_record(rec[stem], 'record'):
                if b in seen:
                    raise Fail('block %s of %s is recorded twice' % (b, cr.say(e)))
                seen[b] = stem
            for k, v in runs.parse_store(sto[stem], 'results %s' % stem).items():
                total_store[k] = total_store.get(k, 0) + v
        want = cr.census(P, e)
        got = runs.store_text(total_store)
        if got != want:
            raise Fail('census of %s is wrong:\n%s' % (cr.say(e), runs.diff(got, want)))
        stems = sorted(rec)
        for stem, t in zip(stems, sequential(e, [rec[s] for s in stems])):
            if t != sto[stem]:
                raise Fail('results saved with the record of %d blocks are not theirs (%s):\n%s' % (len(runs.parse_record(rec[stem])), cr.say(e), runs.diff(sto[stem], t)))
        if before and not before.get(e['path'], set()) <= set(seen):
            raise Fail('blocks recorded before the run vanished')
        cr.complete(P, e, seen)
        total += len(seen)
        if len([s for s in stems if rec[s]]) > 1:
            c.label('several saves in one folder')
    return total


def gen_policy(c):
    env = dict(SCHED_SEED=str(c.pick(1 << 30)))
    if c.chance(1, 2):
        env.update(SCHED_MODE='0', SCHED_SWITCH=str(c.of([1, 1, 2, 4, 16])), SCHED_SLEEP=str(c.of([1, 4, 30, 500])))
    else:
        env.update(SCHED_MODE='1', SCHED_POINTS=str(c.pick(12)), SCHED_SPAN=str(c.of([60, 200, 600, 2000])))
    env['SCHED_ALLOC'] = str(c.of([0, 0, 20, 100, 500]))
    env['SCHED_JUMP'] = str(c.of([0, 0, 1, 3, 10, 40]))
    env['SCHED_SPURIOUS'] = str(c.of([0, 0, 100, 20]))
    return env


def scheduled(c, work):
    n = 1 + c.weighted([5, 3, 1]) if not c.chance(1, 40) else 4 + c.pick(12)
    entries = gen_entries(c, n, c.of([3, 8, 25, 3, 8, 25, 200]) if n < 4 else 4)
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    before = None
    for k in range(1 + c.chance(1, 4)):
        if k:                                     # some of the pairs are lost: the others are kept, their blocks not computed again
            before = {}
            for e in entries:
                full = os.path.join(work, 'out', e['path'])
                rec, _, _ = runs.folder(full)
                for stem in sorted(rec, key=lambda s: (rec[s], s)):
                    if c.chance(1, 2):
                        os.unlink(os.path.join(full, stem + runs.REC))
                        os.unlink(os.path.join(full, stem + runs.STO))
                    else:
                        before.setdefault(e['path'], set()).update(runs.parse_record(rec[stem]))
            c.label('partly filled folders')
        threads = 1 + (c.pick(6) if not c.chance(1, 40) else c.pick(40 if c.chance(2, 3) else 100))
        if threads > 8:
            c.label('more than 8 threads')
        env = gen_policy(c)
        c.say('%d threads, %s;' % (threads, ' '.join('%s=%s' % (a[6:].lower(), b) for a, b in env.items())))
        env.update(LD_PRELOAD=SHIM, SCHED_REPORT=os.path.join(work, 'report'))
        r = runs.run([P.path['threaded'], '-n%d' % threads, cfg, 'out'], work, env, timeout=60)
        if r.rc == 85:                            # an operation the scheduler does not know
            c.label('inconclusive')
            raise Discard()
        if r.timeout:
            raise Discard()
        if r.rc in (86, 87):
            raise Fail('hycu-threaded: ' + r.err[-600:])
        runs.ended_well(r, 'hycu-threaded')
        with open(os.path.join(work, 'report')) as f:
            decisions, switches, jumps, spurious, nthreads = map(int, f.read().split())
        total = inspect(work, 'out', entries, c, before)
        if jumps:
            c.label('clock jumps')
        if spurious:
            c.label('spurious wakeups')
        c.label('random walk' if env['SCHED_MODE'] == '0' else 'priorities')
    c.label('at least %d switches' % (10 ** (len(str(switches)) - 1)))
    if threads > 1 and switches > 20:
        c.nontrivial((tuple(str(e) for e in entries), env['SCHED_SEED'], decisions, switches))


def real(c, work, program='threaded'):
    """the threads of the system, at several speeds"""
    n = 1 + c.weighted([3, 2, 1])
    entries = gen_entries(c, n, c.of([10, 60, 150, 500]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    threads = 1 + (c.pick(16) if not c.chance(1, 6) else c.pick(80))
    tsan = program != 'threaded'
    env = dict(LD_PRELOAD=P.fast, FAST_DIV=str(c.of([20, 50, 200, 1000])), DELAY_US=str(c.of([0, 0, 50, 500])))
    if c.chance(1, 2):
        env['CLOCK_JUMP'] = str(c.of([7, 61, 400]))
    c.say('%d threads, %s' % (threads, {a: b for a, b in env.items() if a != 'LD_PRELOAD'}))
    cmd = [P.path['threaded'], '-n%d' % threads, cfg, 'out']
    if tsan:
        del env['LD_PRELOAD']
        env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0'
        cmd = [TSAN] + cmd[1:]
    r = runs.run(cmd, work, env, timeout=150)
    if tsan and 'ThreadSanitizer' in r.err and 'WARNING: ThreadSanitizer' not in r.err:
        raise Discard()                           # the sanitizer does not work here
    if 'WARNING: ThreadSanitizer' in r.err:
        raise Fail('unsynchronised access: ' + r.err[:3500])
    runs.ended_well(r, 'hycu-threaded')
    total = inspect(work, 'out', entries, c)
    if threads > 1 and total > 1:
        c.nontrivial()


def sanitized(c, work):
    real(c, work, 'tsan')


SUBS = [('scheduled', scheduled, 200), ('real', real, 3), ('sanitized', sanitized, 1)]


def run(tier, seed, scratch, replay):
    global P, SHIM, TSAN
    P = runs.Programs(['threaded', 'census', 'sequential'])
    SHIM = build.shared_lib('sched', ['sched.cc'])
    TSAN = list(build.build_all([build.program('threaded', 'tsan')]).values())[0]
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (6000, 40) if tier == 'quick' else (400000, 700)
    cov, violations, notes = pbt.run('C12', SUBS, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('runs of hycu-threaded on random configurations under random schedules of a deterministic scheduler (random walks and priorities with change points over all operations on '
                   'mutexes, conditions, threads, sleeps, clocks and some allocations, with clock jumps and spurious wakeups), and under the system\'s scheduler with and without '
                   'ThreadSanitizer; each saved pair is compared with a sequential computation of its blocks, the whole with a brute-force census; non-trivial: several threads and more '
                   'than 20 switches between them (system: more than one block), distinct by configuration and schedule')
    return dict(coverage=cov, violations=violations, notes=notes,
                assumptions=['under the deterministic scheduler threads switch at synchronisation, clock and allocation only; accesses in between are left to ThreadSanitizer',
                             'FLINT and Boost are not instrumented by ThreadSanitizer'])
