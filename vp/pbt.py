"""Property-based testing of whole programs: choice sequences, parallel cases, shrinking, replay.

A property is fn(case, work): it draws choices from the case, runs programs inside the directory `work`, and raises
Fail(message).  A replay file holds the list of choices."""
import hashlib, json, mmap, os, random, shutil, subprocess, time, traceback
from concurrent.futures import ThreadPoolExecutor

from . import build, clock


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class Case:
    def __init__(self, rng=None, choices=None):
        self.rng, self.choices = rng, choices
        self.record, self.desc, self.labels, self.key, self.is_nontrivial = [], [], {}, None, False
        self.extra = {}

    def pick(self, n):
        n = max(1, int(n))
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            k = len(self.record)
            v = min(self.choices[k], n - 1) if k < len(self.choices) else 0
        self.record.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.pick(hi - lo + 1)

    def chance(self, num, den):
        return self.pick(den) >= den - num

    def of(self, xs):
        return xs[self.pick(len(xs))]

    def weighted(self, ws):
        v = self.pick(sum(ws))
        for k, w in enumerate(ws):
            if v < w:
                return k
            v -= w
        return 0

    def shuffle(self, xs):
        xs = list(xs)
        for k in range(len(xs) - 1, 0, -1):
            j = self.pick(k + 1)
            xs[k], xs[j] = xs[j], xs[k]
        return xs

    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1

    def say(self, s):
        self.desc.append(str(s))

    def nontrivial(self, key=None):
        self.is_nontrivial = True
        self.key = key

    def hash(self):
        return hashlib.sha1(repr(self.key if self.key is not None else self.record).encode()).hexdigest()[:16]


def execute(fn, case, work):
    """-> None (holds), 'discard', or the failure message"""
    os.makedirs(work, exist_ok=True)
    try:
        fn(case, work)
        return None
    except Discard:
        return 'discard'
    except Fail as e:
        return 'FAIL ' + str(e)
    except (ValueError, LookupError, FileNotFoundError, NotADirectoryError, IsADirectoryError, subprocess.SubprocessError) as e:
        # what the programs left behind can not be made sense of
        return 'FAIL unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-600:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def shrink(fn, record, message, scratch, budget, workers, same=None):
    """parallel greedy shrinking of a list of choices"""
    end = time.monotonic() + clock.at_most(budget, 150)
    best, msg, desc = list(record), message, None
    counter = [0]

    def attempt(cand):
        counter[0] += 1
        c = Case(choices=cand)
        r = execute(fn, c, os.path.join(scratch, 'shrink%d-%d' % (os.getpid(), counter[0])))
        if r and r != 'discard':
            rec = list(c.record)
            while rec and rec[-1] == 0:
                rec.pop()
            return rec, r[5:], ' '.join(c.desc)
        return None

    def simpler(a, b):
        return (len(a), a) < (len(b), b)

    with ThreadPoolExecutor(max_workers=workers) as ex:
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            cands = []
            n = len(best)
            size = max(1, n // 2)
            while size >= 1:
                for i in range(0, n, size):
                    cands.append(best[:i] + best[i + size:])
                    if any(best[i:i + size]):
                        cands.append(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                size //= 2
            for i in range(n):
                if best[i]:
                    cands.append(best[:i] + [best[i] // 2] + best[i + 1:])
                    cands.append(best[:i] + [best[i] - 1] + best[i + 1:])
            seen = set()
            cands = [c for c in cands if simpler(c, best) and not (tuple(c) in seen or seen.add(tuple(c)))]
            for i in range(0, len(cands), workers):
                if time.monotonic() > end:
                    break
                got = [g for g in ex.map(attempt, cands[i:i + workers]) if g and simpler(g[0], best)]
                if got:
                    got.sort(key=lambda g: (len(g[0]), g[0]))
                    best, msg, desc = got[0]
                    progress = True
                    break
    return best, msg, desc


def write_replay(path, pid, name, choices, message, desc):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, sub=name, choices=choices, message=message, case=desc), f, indent=1)
        f.write('\n')


def run(pid, subs, seed, cases, deadline, scratch, workers=8, shrink_budget=60, repeats=32, needed=1):
    """subs: list of (name, fn, weight).  -> (coverage, violations, notes)"""
    t_end = time.monotonic() + deadline
    total = sum(w for _, _, w in subs)
    cov = dict(evaluations=0, discarded=0, labels={}, cases_by_subproperty={}, samples=[])
    hashes, failures, notes = set(), [], []

    def choose(ix):
        v = random.Random('%d/%d/sub' % (seed, ix)).randrange(total)
        for name, fn, w in subs:
            if v < w:
                return name, fn
            v -= w

    stop = mmap.mmap(-1, 4096)

    def worker(k, out):
        for ix in range(k, cases, workers):
            if stop[0] or time.monotonic() > t_end:
                break
            name, fn = choose(ix)
            case = Case(rng=random.Random('%d/%d' % (seed, ix)))
            try:
                r = execute(fn, case, os.path.join(scratch, 'case%d' % ix))
            except BaseException:
                stop[0] = 1
                out.write(json.dumps(dict(error=traceback.format_exc())) + '\n')
                break
            d = dict(ix=ix, name=name, r=r, labels=case.labels, nt=case.hash() if case.is_nontrivial else None)
            if r and r != 'discard':
                d['choices'] = case.record
            if ix < 40 * workers:
                d['desc'] = (name + ': ' + ' '.join(case.desc))[:700]
            out.write(json.dumps(d) + '\n')
            if 'choices' in d:
                stop[0] = 1
                break

    pids = []
    for k in range(workers):
        path = os.path.join(scratch, 'worker%d' % k)
        pid_ = os.fork()
        if pid_ == 0:
            code = 1
            try:
                with open(path, 'w') as out:
                    worker(k, out)
                code = 0
            finally:
                os._exit(code)
        pids.append((pid_, path))
    errors = []
    for pid_, path in pids:
        _, status = os.waitpid(pid_, 0)
        if status:
            errors.append('worker ended with status %d' % status)
        for line in open(path):
            d = json.loads(line)
            if 'error' in d:
                errors.append(d['error'])
            elif d['r'] == 'discard':
                cov['discarded'] += 1
            elif d['r']:
                failures.append((d['ix'], d['name'], [f for n, f, _ in subs if n == d['name']][0], d['choices'], d['r'][5:]))
            else:
                cov['evaluations'] += 1
                cov['cases_by_subproperty'][d['name']] = cov['cases_by_subproperty'].get(d['name'], 0) + 1
                for x, v in d['labels'].items():
                    cov['labels'][x] = cov['labels'].get(x, 0) + v
                if d['nt']:
                    if d['nt'] not in hashes and len(cov['samples']) < 10 and 'desc' in d and d['ix'] % 3 == 0:
                        cov['samples'].append(d['desc'])
                    hashes.add(d['nt'])
    if errors and not failures:
        raise RuntimeError('\n'.join(errors))
    failures.sort(key=lambda f: f[0])
    cov['distinct_nontrivial'] = len(hashes)
    violations = []
    for ix, name, fn, choices, message in failures[:3]:
        ok = 0

        def again(k):
            r = execute(fn, Case(choices=choices), os.path.join(scratch, 'confirm%d-%d' % (ix, k)))
            return bool(r and r != 'discard')
        with ThreadPoolExecutor(max_workers=workers) as ex:      # some failures depend on how threads are scheduled
            for first in range(0, repeats, workers):
                ok += sum(ex.map(again, range(first, min(repeats, first + workers))))
                if ok >= needed or clock.left() < 150:
                    break
        if ok < needed:
            notes.append('not reproduced (%d of %d), not reported: %s; case: %s' % (ok, repeats, message[:500], choices))
            continue
        rec, msg, desc = shrink(fn, choices, message, scratch, shrink_budget, workers)
        path = os.path.join(build.VERIF, 'replays', '%s-%s-%d.json' % (pid, name, ix))
        write_replay(path, pid, name, rec, msg, desc or '')
        violations.append(dict(replay=path, message=msg + '\ncase: ' + (desc or '')))
        break
    return cov, violations, notes


def replay(subs, path, scratch, repeats=10):
    d = json.load(open(path))
    fn = [f for n, f, _ in subs if n == d['sub']][0]
    for k in range(repeats):
        c = Case(choices=d['choices'])
        r = execute(fn, c, os.path.join(scratch, 'replay'))
        bad = bool(r and r != 'discard')
        if bad:
            break
    return dict(violations=[1] if bad else [], message=('FAILS: ' + r[5:] if bad else 'holds') + '\n' + ' '.join(c.desc), coverage={})


def merge_coverage(a, b):
    for k in ('evaluations', 'discarded', 'distinct_nontrivial'):
        a[k] = a.get(k, 0) + b.get(k, 0)
    for k in ('labels', 'cases_by_subproperty', 'seconds_by_subproperty', 'cases_by_build'):
        for x, y in b.get(k, {}).items():
            a.setdefault(k, {})[x] = round(a.get(k, {}).get(x, 0) + y, 2)
    a['samples'] = (a.get('samples', [])[:6] + b.get('samples', [])[:6])[:10]
    for k in b:
        a.setdefault(k, b[k])
    return a
