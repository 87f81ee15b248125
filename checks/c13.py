import os, random, signal, subprocess, time

from checks import c12
from vp import build, census_runs as cr, pbt, runs
from vp.pbt import Fail, Discard

P = None
SHIM = None
KINDS = ['kill_before', 'kill_after', 'kill_within', 'fail', 'fail_all', 'cut', 'short']
ERRNOS = [28, 5, 122, 13, 24]                 # no space, input/output, quota, permission, too many files


def recorded(work, out, entries):
    """blocks on record in each folder; blocks must not be recorded twice"""
    found = {}
    for e in entries:
        full = os.path.join(work, out, e['path'])
        seen = {}
        if os.path.isdir(full):
            rec, _, _ = runs.folder(full)
            for stem in sorted(rec):
                t = rec[stem]
                for line in t.split('\n')[:-1]:            # a last line without an end is no block
                    b = tuple(line.split())
                    if b in seen:
                        raise Fail('block %s of %s was computed again: recorded in %s and %s' % (line, cr.say(e), seen[b], stem))
                    seen[b] = stem
        found[e['path']] = set(seen)
    return found


def command(threads, cfg):
    return [P.path['threaded'], '-n%d' % threads, cfg, 'out']


def attempt(c, work, cfg, env, threads, timeout=60):
    env = dict(env, LD_PRELOAD=SHIM, SCHED_REPORT=os.path.join(work, 'report'), FAULT_REPORT=os.path.join(work, 'faults'), FAULT_DIR=os.path.join(os.path.realpath(work), 'out'))
    for f in ('report', 'faults'):
        if os.path.exists(os.path.join(work, f)):
            os.unlink(os.path.join(work, f))
    r = runs.run(command(threads, cfg), work, env, timeout=timeout)
    if r.rc == 85 or r.timeout:
        c.label('inconclusive')
        raise Discard()
    if r.rc in (86, 87):
        raise Fail('hycu-threaded: ' + r.err[-600:])
    r.ops = r.faults = r.decisions = 0
    for f in ('report', 'faults'):
        p = os.path.join(work, f)
        if os.path.exists(p):
            v = open(p).read().split()
            if f == 'report':
                r.decisions = int(v[0])
            else:
                r.ops, r.faults = int(v[0]), int(v[1])
    return r


def finish(c, work, cfg, entries, before, env, threads):
    """a last run without faults completes everything"""
    r = attempt(c, work, cfg, env, threads)
    runs.ended_well(r, 'hycu-threaded after interruptions')
    after = recorded(work, 'out', entries)
    for k in before:
        if not before[k] <= after[k]:
            raise Fail('blocks on record before vanished from %s: %s' % (k, sorted(before[k] - after[k])[:3]))
    for e in entries:
        cr.check_folder(P, work, os.path.join(work, 'out', e['path']), e, 'after interruptions: ')


def gen_fault(c, ops, decisions):
    if c.chance(1, 3):
        return dict(SCHED_KILL=str(1 + c.pick(max(2, decisions))))
    return dict(FAULT_AT=str(1 + c.pick(max(1, ops))), FAULT_KIND=c.of(KINDS), FAULT_PART=str(c.of([0, 1, 500, 900, 999, c.pick(1000)])),
                FAULT_ERRNO=str(c.of(ERRNOS)))


def histories(c, work):
    """several interrupted runs, then a complete one"""
    entries = c12.gen_entries(c, 1 + c.weighted([4, 2, 1]), c.of([3, 8, 25, 3, 8, 25, 120]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    ops, decisions = 8 * len(entries), 150 * len(entries)
    before = {e['path']: set() for e in entries}
    hits = partly = 0
    for k in range(1 + c.weighted([3, 3, 2, 1])):
        threads = 1 + c.pick(5)
        env = c12.gen_policy(c)
        if c.chance(1, 3):
            env['SCHED_JUMP'] = '2'
        fault = gen_fault(c, ops * 2, decisions)
        c.say('%d threads, %s;' % (threads, ' '.join('%s=%s' % (a[6:].lower(), b) for a, b in list(env.items()) + list(fault.items()))))
        r = attempt(c, work, cfg, dict(env, **fault), threads)
        ops, decisions = max(2, r.ops), max(20, r.decisions)
        if r.rc != 0 or r.faults:
            hits += 1
            c.label(fault.get('FAULT_KIND', 'killed between synchronisations'))
            if r.rc == 0 and fault.get('FAULT_KIND') != 'short':
                c.label('ended well in spite of the fault')
        now = recorded(work, 'out', entries)
        for p in before:
            if not before[p] <= now[p]:
                raise Fail('blocks on record before vanished from %s: %s' % (p, sorted(before[p] - now[p])[:3]))
        before = now
        if any(now.values()):
            partly += 1
    threads = 1 + c.pick(5)
    finish(c, work, cfg, entries, before, c12.gen_policy(c), threads)
    if hits > 1:
        c.label('several interruptions')
    if partly:
        c.label('something was on record when interrupted')
    if hits:
        c.nontrivial()


def every_operation(c, work):
    """one run, interrupted at each of its operations on files in turn"""
    entries = c12.gen_entries(c, 1 + c.pick(2), c.of([3, 8]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    threads = 1 + c.pick(4)
    env = c12.gen_policy(c)
    env['SCHED_JUMP'] = str(c.of([2, 5, 10, 40]))
    env['SCHED_ALLOC'] = '0'
    kind = c.of(KINDS)
    fault = dict(FAULT_KIND=kind, FAULT_PART=str(c.of([0, 500, 999])), FAULT_ERRNO=str(c.of(ERRNOS)))
    again = 1 + c.pick(4)
    c.say('%d threads, %s, then %d' % (threads, ' '.join('%s=%s' % (a[6:].lower(), b) for a, b in list(env.items()) + list(fault.items())), again))
    r = attempt(c, work, cfg, env, threads)
    runs.ended_well(r, 'hycu-threaded')
    n = r.ops
    first = c.pick(max(1, n)) if n > 24 else 0
    points = [1 + (first + k) % n for k in range(min(n, 24))]
    for at in points:
        subprocess.run(['rm', '-rf', os.path.join(work, 'out')], check=True)
        r = attempt(c, work, cfg, dict(env, **fault, FAULT_AT=str(at)), threads)
        before = recorded(work, 'out', entries)
        try:
            finish(c, work, cfg, entries, before, {'SCHED_SEED': '1'}, again)
        except Fail as e:
            raise Fail('interrupted (%s) at operation %d of %d: %s' % (kind, at, n, e))
        c.label('points of %s' % kind)
    c.nontrivial()


def killed(c, work):
    """the threads of the system, killed after some time"""
    entries = c12.gen_entries(c, 1 + c.pick(2), c.of([10, 60]))
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    env = dict(LD_PRELOAD=P.fast, FAST_DIV=str(c.of([20, 100, 400])), CLOCK_JUMP=str(c.of([7, 61, 400])))
    interrupted = 0
    before = {e['path']: set() for e in entries}
    for k in range(1 + c.pick(3)):
        threads = 1 + c.pick(8)
        after = c.pick(60)
        c.say('%d threads, killed after %d ms, %s;' % (threads, after, {a: b for a, b in env.items() if a != 'LD_PRELOAD'}))
        p = subprocess.Popen(command(threads, cfg), cwd=work, env=dict(os.environ, **env), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        time.sleep(after / 1000)
        p.send_signal(signal.SIGKILL)
        if p.wait() < 0:
            interrupted += 1
        now = recorded(work, 'out', entries)
        for q in before:
            if not before[q] <= now[q]:
                raise Fail('blocks on record before vanished from %s' % q)
        before = now
    threads = 1 + c.pick(8)
    r = runs.run(command(threads, cfg), work, env, timeout=100)
    runs.ended_well(r, 'hycu-threaded after interruptions')
    recorded(work, 'out', entries)
    for e in entries:
        cr.check_folder(P, work, os.path.join(work, 'out', e['path']), e, 'after interruptions: ')
    if interrupted:
        c.nontrivial()


SUBS = [('histories', histories, 40), ('every_operation', every_operation, 2), ('killed', killed, 2)]


def run(tier, seed, scratch, replay):
    global P, SHIM
    P = c12.P = runs.Programs(['threaded', 'census', 'merger', 'sequential'])
    SHIM = build.shared_lib('crash', ['sched.cc', 'fault.cc'])
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (3000, 40) if tier == 'quick' else (300000, 700)
    cov, violations, notes = pbt.run('C13', SUBS, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('random histories of runs of hycu-threaded on one output path under a deterministic scheduler, each killed at a random decision of the scheduler or hit by a fault of a random '
                   'file operation in the result folders (killed before, after or within it, failing once or from then on, cut off, short), then completed by a run without faults, merged and '
                   'compared with a brute-force census; runs interrupted at each file operation in turn; runs of the system\'s scheduler killed after a random time; non-trivial: at least one '
                   'interruption or fault took place, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes, level='fault_enumeration',
                assumptions=['what a killed process has written stays written (no loss of power)',
                             'faults are injected at the calls of the C library for opening, writing, closing, renaming and removing'])
