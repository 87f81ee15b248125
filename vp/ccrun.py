"""Runs the C++ property harnesses: shards, crash and hang detection, confirmation, shrinking."""
import json, os, shutil, struct, subprocess, sys, tempfile, time

from . import build, clock

SHARDS = os.cpu_count() or 8
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')


def read_state(path):
    try:
        with open(path, 'rb') as f:
            head = f.read(32)
            if len(head) < 32:
                return None
            idx, started, n, done = struct.unpack('<QdQQ', head)
            return dict(index=idx, started=started, n=n, done=done, path=path)
    except OSError:
        return None


def state_choices(path):
    with open(path, 'rb') as f:
        idx, started, n, done = struct.unpack('<QdQQ', f.read(32))
        return list(struct.unpack('<%dQ' % n, f.read(8 * n)))


def run_shards(exe, seed, cases, deadline, scratch, tag, case_timeout, sub=None, shards=None):
    shards = shards or SHARDS
    procs = []
    for k in range(shards):
        base = os.path.join(scratch, '%s-%d' % (tag, k))
        cmd = [exe, '--seed', str(seed), '--shard', str(k), '--shards', str(shards), '--cases', str(cases),
               '--deadline', str(deadline), '--out', base + '.json', '--state', base + '.state',
               '--replay-out', base + '.replay']
        if sub:
            cmd += ['--sub', sub]
        err = open(base + '.err', 'wb')
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=ENV, cwd=scratch)
        procs.append(dict(p=p, base=base, k=k, cmd=cmd))
    return procs


def poll_shards(procs, case_timeout, hard_end):
    """waits for all; returns the list of failures (dicts)"""
    failures = []
    live = list(procs)
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s['p'].poll()
            if rc is None:
                st = read_state(s['base'] + '.state')
                if st and st['started'] and time.monotonic() - st['started'] > case_timeout:
                    s['p'].kill()
                    s['p'].wait()
                    live.remove(s)
                    failures.append(dict(shard=s, kind='hang', index=st['index'],
                                         message='a case did not end within %d s' % case_timeout))
                elif time.monotonic() > hard_end:
                    s['p'].kill()
                    s['p'].wait()
                    live.remove(s)
                    s['late'] = True
                continue
            live.remove(s)
            if rc == 0:
                continue
            tail = open(s['base'] + '.err', 'rb').read()[-3000:].decode(errors='replace')
            if rc == 1 and os.path.exists(s['base'] + '.json'):
                try:
                    f = json.load(open(s['base'] + '.json'))['failure']
                except ValueError:
                    f = None
                if f:
                    failures.append(dict(shard=s, kind='check', index=f['index'], sub=f['sub'],
                                         message=f['message'] + '\ncase: ' + f['case'], replay=s['base'] + '.replay'))
                    continue
            st = read_state(s['base'] + '.state')
            failures.append(dict(shard=s, kind='crash', index=st['index'] if st else 0,
                                 message='the case ended the process (status %s)\n%s' % (rc, tail)))
        if failures:
            for s in live:
                s['p'].kill()
                s['p'].wait()
            live = []
    return failures


def confirm(exe, failure, scratch, pid, case_timeout, budget=25):
    """-> (replay path, message) if the failure is real, else None"""
    s = failure['shard']
    out_dir = os.path.join(build.VERIF, 'replays')
    os.makedirs(out_dir, exist_ok=True)
    rp = failure.get('replay')
    if not rp:
        ch = state_choices(s['base'] + '.state')
        rp = os.path.join(scratch, 'crash.replay')
        sub = which_sub(exe, failure, s)
        with open(rp, 'w') as f:
            f.write('sub %s\nchoices %s\n' % (sub, ' '.join(map(str, ch))))
    else:
        sub = failure['sub']
    final = os.path.join(out_dir, '%s-%s-%d.replay' % (pid, sub, failure['index']))
    repeats = 2 if failure.get('kind') == 'hang' else 3

    def reproduces(path):
        for _ in range(repeats):
            try:
                q = subprocess.run([exe, '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   env=ENV, cwd=scratch, timeout=clock.at_most(case_timeout))
                if q.returncode == 0:
                    return False
            except subprocess.TimeoutExpired:
                if clock.left() < -30:
                    return False
        return True

    # a case which takes too long while shrinking counts as failing only if it also does with the full time
    try:
        r = subprocess.run([exe, '--shrink', rp, '--out', final, '--budget', str(clock.at_most(budget, 300)), '--timeout', str(min(case_timeout, 30))],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, cwd=scratch, timeout=clock.at_most(budget + 90)).returncode
    except subprocess.TimeoutExpired:
        r = 4
    if r == 1 and reproduces(final):
        return final, open(final).read()
    if clock.left() > 3 * case_timeout and reproduces(rp):
        with open(rp) as f, open(final, 'w') as g:
            g.write(f.read().split('\n#')[0].rstrip('\n') + '\n# ' + failure['message'].replace('\n', '\n# ') + '\n')
        return final, failure['message']
    # a failure which needs the cases before it: repeat the whole shard up to this case
    hits = 0
    for _ in range(2):
        if clock.left() < 20:
            break
        cmd = list(s['cmd'])
        cmd[cmd.index('--cases') + 1] = str(failure['index'] + 1)
        cmd[cmd.index('--deadline') + 1] = '600'
        try:
            q = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=scratch, timeout=clock.at_most(300))
            hits += q.returncode != 0
        except subprocess.TimeoutExpired:
            hits += failure.get('kind') == 'hang'
    if hits == 2:
        final = os.path.join(out_dir, '%s-history-%d.replay' % (pid, failure['index']))
        with open(final, 'w') as f:
            keep = {'--seed', '--shard', '--shards', '--sub'}
            c = s['cmd']
            args = [x for i in range(1, len(c), 2) if c[i] in keep for x in c[i:i + 2]]
            f.write('history %s --cases %d\n# fails only after the cases before it\n# %s\n' % (
                ' '.join(args), failure['index'] + 1, failure['message'].replace('\n', '\n# ')))
        return final, failure['message']
    return None


def which_sub(exe, failure, s):
    cmd = s['cmd']
    seed = cmd[cmd.index('--seed') + 1]
    r = subprocess.run([exe, '--which-index', str(failure['index']), '--seed', seed], stdout=subprocess.PIPE)
    return r.stdout.decode().strip()


def collect(procs):
    total = dict(evaluations=0, discarded=0, labels={}, by_sub={}, time_by_sub={}, samples=[], hashes=set())
    for s in procs:
        try:
            d = json.load(open(s['base'] + '.json'))
        except (OSError, ValueError):
            continue
        total['evaluations'] += d['evaluations']
        total['discarded'] += d['discarded']
        for k in ('labels', 'by_sub', 'time_by_sub'):
            for a, b in d[k].items():
                total[k][a] = round(total[k].get(a, 0) + b, 2)
        total['hashes'].update(d['hashes'])
        total['samples'] += d['samples'][:4]
    return total
