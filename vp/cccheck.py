"""A check made of one C++ harness run in several build flavors."""
import os, struct, subprocess, sys, time

from . import build, ccrun

CASE_TIMEOUT = {'plain': 60, 'asan': 120}


def targets(pid, spec, flavors):
    ts = [dict(name=pid.lower(), flavor=f, harness=spec['harness'], lib=spec.get('lib', True), mpi=False,
               libs=spec.get('libs', build.LIBS)) for f in flavors]
    if spec.get('stubmpi'):
        ts = [dict(t, mpi=True, extra=build.stubmpi_flags()) for t in ts]
    if spec.get('opencl'):
        ts = [dict(build.opencl(t), name=t['name']) for t in ts]
    return ts


def run(pid, spec, tier, seed, scratch, replay):
    plan = dict(spec[tier])
    fuzz = plan.pop('fuzz', 0)
    flavors = list(plan)
    if replay:
        return do_replay(pid, spec, replay, scratch)
    t_build = time.time()
    exes = build.build_all(targets(pid, spec, flavors + (['fuzz'] if fuzz else [])))
    t_build = time.time() - t_build
    violations, notes = [], []
    total = None
    cov_flavor = {}
    for flavor in flavors:
        cases, deadline = plan[flavor]
        exe = exes[(pid.lower(), flavor)]
        procs = ccrun.run_shards(exe, seed + (0 if flavor == 'plain' else 7919), cases, deadline, scratch, flavor, CASE_TIMEOUT[flavor])
        failures = ccrun.poll_shards(procs, CASE_TIMEOUT[flavor], time.monotonic() + deadline + CASE_TIMEOUT[flavor] + 30)
        got = ccrun.collect(procs)
        cov_flavor[flavor] = got['evaluations']
        if total is None:
            total = got
        else:
            total['evaluations'] += got['evaluations']
            total['discarded'] += got['discarded']
            for k in ('labels', 'by_sub', 'time_by_sub'):
                for a, b in got[k].items():
                    total[k][a] = round(total[k].get(a, 0) + b, 2)
            total['hashes'] |= got['hashes']
        for f in failures[:4]:
            c = ccrun.confirm(exe, f, scratch, pid, CASE_TIMEOUT[flavor])
            if c:
                violations.append(dict(replay=c[0], message=c[1]))
                break
            notes.append('unconfirmed failure (not reported): ' + f['message'][:300])
        if violations:
            break
    execs = 0
    if fuzz and not violations:
        v, execs, n = run_fuzz(pid, exes, fuzz, seed, scratch)
        violations += v
        notes += n
    coverage = dict(evaluations=total['evaluations'] + execs, distinct_nontrivial=len(total['hashes']), rule=spec['rule'],
                    samples=total['samples'][:10], discarded=total['discarded'], labels=total['labels'],
                    cases_by_subproperty=total['by_sub'], seconds_by_subproperty=total['time_by_sub'],
                    cases_by_build=cov_flavor, build_s=round(t_build, 1))
    if fuzz:
        coverage['coverage_guided_executions'] = execs
    return dict(coverage=coverage, violations=violations, assumptions=spec.get('assumptions', ()), notes=notes)


def do_replay(pid, spec, replay, scratch):
    exe = build.build_all(targets(pid, spec, ['asan' if 'asan' in spec['quick'] else 'plain']))
    exe = list(exe.values())[0]
    text = open(replay).read()
    if text.startswith('history '):
        exe = list(build.build_all(targets(pid, spec, ['plain'])).values())[0]
        cmd = [exe] + text.split('\n')[0].split()[1:] + ['--out', os.path.join(scratch, 'o.json')]
    else:
        cmd = [exe, '--replay', replay]
    r = subprocess.run(cmd, env=ccrun.ENV, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors='replace')
    return dict(violations=[1] if r.returncode else [], message=out, coverage={})


def run_fuzz(pid, exes, seconds, seed, scratch):
    exe = exes[(pid.lower(), 'fuzz')]
    procs = []
    for k in range(ccrun.SHARDS):
        d = os.path.join(scratch, 'fuzz%d' % k)
        os.makedirs(os.path.join(d, 'corpus'))
        # seeds: random choice bytes, so that deep cases are reached at once
        rnd = seed * 1000 + k
        for j in range(40):
            rnd = (rnd * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
            import random
            r = random.Random(rnd)
            with open(os.path.join(d, 'corpus', 's%d' % j), 'wb') as f:
                f.write(bytes([r.randrange(256) if r.random() < .8 else 0 for _ in range(r.choice([20, 60, 200, 800]))]))
        env = dict(ccrun.ENV, PBT_FUZZ_STATE=os.path.join(d, 'state'))
        err = open(os.path.join(d, 'err'), 'wb')
        procs.append((subprocess.Popen([exe, '-max_total_time=%d' % seconds, '-max_len=4096', '-rss_limit_mb=3500', '-timeout=90',
                                        '-seed=%d' % (seed * 100 + k + 1), '-print_final_stats=1', 'corpus'],
                                       cwd=d, env=env, stdout=err, stderr=err), d))
    violations, notes, execs = [], [], 0
    end = time.monotonic() + seconds + 150
    for p, d in procs:
        try:
            p.wait(timeout=max(1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        text = open(os.path.join(d, 'err'), 'rb').read().decode(errors='replace')
        for line in text.split('\n'):
            if 'stat::number_of_executed_units' in line:
                execs += int(line.split()[-1])
        if p.returncode not in (0, -9) and not violations:
            st = ccrun.read_state(os.path.join(d, 'state'))
            if not st:
                continue
            plain = [e for k, e in exes.items() if k[1] == 'plain'][0]
            name = subprocess.run([plain, '--which-index', str(st['index']), '--raw', '1'], stdout=subprocess.PIPE).stdout.decode().strip()
            rp = os.path.join(d, 'found.replay')
            with open(rp, 'w') as f:
                f.write('sub %s\nchoices %s\n' % (name, ' '.join(map(str, ccrun.state_choices(st['path'])))))
            for flavor in [k[1] for k in exes if k[1] != 'fuzz']:
                fl = dict(shard=dict(cmd=[plain, '--cases', '0', '--deadline', '0', '--out', os.path.join(d, 'x.json')]),
                          index=st['index'], sub=name, replay=rp, message='found by coverage guided fuzzing')
                c = ccrun.confirm(exes[(pid.lower(), flavor)], fl, d, pid, 120)
                if c:
                    violations.append(dict(replay=c[0], message=c[1]))
                    break
            else:
                notes.append('fuzzer stopped without a reproducible failure: ' + text[-400:])
    return violations, execs, notes
