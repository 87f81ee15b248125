import os

from vp import census_runs as cr, pbt, runs
from vp.pbt import Fail

P = None
PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def refused(r, what):
    if r.timeout:
        raise Fail('%s: did not end within %d s' % (what, r.time))
    if r.rc == 0:
        raise Fail('%s: was not refused, printed %r' % (what, (r.out + r.err)[-300:]))


def answered(r, what):
    """a request inside the domain, as a control"""
    runs.ended_well(r, what)


# ---- classes of the library ----

def small_field(c, bound):
    p = c.of([x for x in PRIMES if x <= bound])
    r = 1
    while p ** (r + 1) <= bound and c.chance(1, 2):
        r += 1
    return p, r


def curve(c, work):
    p, r = small_field(c, 30)
    coeffs = [str(c.pick(p ** r)) if c.chance(3, 4) else 'z' for _ in range(c.range(3, 7))] + [str(c.pick(p ** r))]
    ops, want = [], []
    exts = [l * r for l in range(1, 5) if p ** (l * r) <= 3000]
    for _ in range(c.weighted([3, 2, 2, 1])):
        e = c.of(exts)
        ops.append(c.of(['t:%d:%d' % (p, e), 'n:%d' % e, 'z:%d' % e]))
    valid = list(ops)
    kind = c.weighted([4, 3, 3, 1, 1])
    if kind == 0:                       # table of another prime, whichever exponents
        p2 = c.of([x for x in PRIMES if x != p])
        es = [e for e in range(1, 5) if p2 ** e <= 50000]
        good = [e for e in es if e % r == 0]
        e = c.of(good) if good and c.chance(2, 3) else c.of(es)
        bad, what = 't:%d:%d' % (p2, e), 'table of another prime'
    elif kind in (1, 2):                # no extension of the base field
        es = [e for e in range(1, 9) if e % r and p ** e <= 60000]
        if not es:
            p, r = 3, 2 + c.pick(2)
            coeffs = [str(c.pick(p ** r)) for _ in range(5)]
            valid = []
            es = [e for e in range(1, 9) if e % r]
        e = c.of(es)
        bad = ('t:%d:%d' % (p, e)) if kind == 1 else c.of(['n', 'z']) + ':%d' % e
        what = 'no extension of the base field'
    elif kind == 3:
        bad, what = c.of(['n', 'z']) + ':0', 'no field at all'
    else:
        bad, what = None, 'control'
    ops = valid + ([bad] if bad else [])
    cmd = ['curve', str(p), str(r), ','.join(coeffs)] + ops
    c.say(' '.join(cmd))
    c.label(what)
    x = runs.run([P.path['refuse']] + cmd, work, timeout=30)
    lines = [l for l in x.out.split('\n') if l.startswith('answered')]
    if bad is None:
        answered(x, ' '.join(cmd))
        if len(lines) != len(ops):
            raise Fail('%s: answered %d of %d' % (' '.join(cmd), len(lines), len(ops)))
        return
    refused(x, 'counting %s (%s)' % (' '.join(cmd), what))
    if len(lines) > len(valid):
        raise Fail('counting %s (%s): answered %r' % (' '.join(cmd), what, lines[-1]))
    c.nontrivial()


def enumeration(c, work):
    kind = c.weighted([2, 2, 1, 2])
    marked = str(c.pick(2))
    package = str(c.of([1, 2, 10, 1000, 4294967295]))
    p, r = small_field(c, 50)
    g = 1 + c.pick(3)
    if kind == 0:
        p, r, what = 2, 1 + c.pick(6), 'characteristic 2'
    elif kind == 1:
        g, what = 0, 'genus 0'
    elif kind == 2:
        what = 'control'
    if kind < 3:
        cmd = ['enumerate', str(p), str(r), str(g), marked, package]
    else:
        n = 1 + c.pick(5)
        bounds = []
        for _ in range(n):
            lo = c.of([0, 1, 2, c.pick(100), 2 ** 31 - 10])
            bounds.append((lo, lo + 1 + c.pick(5)))
        k = c.pick(n)
        lo = bounds[k][0] + 1
        bounds[k] = (lo, lo if c.chance(1, 2) else c.pick(lo))
        cmd = ['range', c.of(['0', '1', '3', '100', '4294967295'])] + ['%d:%d' % b for b in bounds]
        what = 'empty range'
    c.say(' '.join(cmd))
    c.label(what)
    x = runs.run([P.path['refuse']] + cmd, work, timeout=30)
    if what == 'control':
        answered(x, ' '.join(cmd))
        return
    refused(x, '%s (%s)' % (' '.join(cmd), what))
    if 'answered' in x.out:
        raise Fail('%s (%s): answered %r' % (' '.join(cmd), what, x.out))
    c.nontrivial()


# ---- hycu-single ----

def composite(c):
    k = c.weighted([1, 3, 2, 2, 1])
    if k == 0:
        return c.of([0, 1])
    if k == 1:
        return c.of([4, 6, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 22, 24, 25, 26, 27, 33, 35, 39, 45, 49, 51, 57, 63, 65, 77, 81, 85, 91])
    if k == 2:                       # powers and products of primes
        a, b = c.of(PRIMES), c.of(PRIMES)
        return a * b
    if k == 3:                       # pseudoprimes
        return c.of([341, 561, 645, 1105, 1387, 1729, 1905, 2047, 2465, 2701, 2821, 3277, 4033, 4369, 4681, 5461, 6601, 8911, 29341, 3215031751, 3825123056546413051 % 2 ** 32 * 2 % 2 ** 32])
    n = c.range(4, 2 ** 32 - 1)
    while is_prime(n):
        n -= 1
    return n


def single(c, work):
    kind = c.weighted([4, 2, 3, 1])
    p = c.of(PRIMES)
    coeffs = [str(c.pick(p)) for _ in range(c.range(3, 6))] + [str(1 + c.pick(p - 1))]
    flags = []
    k = c.weighted([3, 1, 1])
    if k:
        flags = [['--naivenmod'], ['--naivezech']][k - 1]
    if kind == 0:
        p, what = composite(c), 'field size not prime'
    elif kind == 1:
        coeffs, what = coeffs[:c.pick(2)], 'fewer than two coefficients'
    elif kind == 2:
        flags, what = c.shuffle(['--naivenmod', '--naivezech']), 'two implementations'
        if c.chance(1, 4):
            p = composite(c)
    else:
        what = 'control'
        flags = []
    args = [str(p)] + coeffs
    at = c.pick(len(args) + 1)
    args = args[:at] + flags + args[at:]
    c.say('hycu-single ' + ' '.join(args))
    c.label(what)
    x = runs.run([P.path['single']] + args, work, timeout=30)
    if what == 'control':
        answered(x, 'hycu-single ' + ' '.join(args))
        if 'number of points' not in x.out:
            raise Fail('hycu-single %s printed %r' % (' '.join(args), x.out))
        return
    refused(x, 'hycu-single %s (%s)' % (' '.join(args), what))
    if 'number of points' in x.out or 'ramification' in x.out:
        raise Fail('hycu-single %s (%s): answered %r' % (' '.join(args), what, x.out))
    c.nontrivial()


# ---- runs on configurations ----

def results_in(path):
    found = []
    for root, _, files in os.walk(path):
        found += [os.path.join(root, f) for f in files if f.endswith((runs.REC, runs.STO)) or '.hycu_' in f]
    return found


def configurations(c, work, program='threaded', kinds=None):
    n = 1 + c.weighted([4, 2, 1])
    entries = []
    for k in range(n):
        e = cr.gen_entry(c, 'r%d' % k, ([(3, 1, 1, 3), (5, 1, 1, 3), (7, 1, 1, 2)],), (1,), max_blocks=20)
        entries.append(cr.fields(e, explicit=c.chance(1, 2)))
    k = c.pick(n)
    e = entries[k]
    top = ''
    name, outname, text = 'config.yaml', 'out', None
    kind = c.weighted([3, 4, 2, 3, 3, 2, 1, 3, 3] if kinds is None else kinds)
    whole, mine = True, None            # nothing at all may be written
    if kind == 0:
        f = c.of(['Prime', 'PrimeExponent', 'Genus', 'ResultPath', 'PackageSize'])
        del e[f]
        what = 'no ' + f
        if c.chance(1, 3):
            e[c.of([f.lower(), f + 's', 'x' + f])] = 3
    elif kind == 1:
        f = c.of(['Prime', 'PrimeExponent', 'Genus', 'CountExponent', 'PackageSize'])
        e[f] = c.of(['0', '0', '00', '0x0'])
        if f == 'CountExponent' and 'Genus' in e and c.chance(1, 3):
            e['Genus'] = 1
        if f != 'CountExponent' and c.chance(1, 2):
            e['CountExponent'] = c.range(1, 6)
        what, whole = f + ' 0', k == 0
    elif kind == 2:
        e['Prime'], e['PrimeExponent'] = 2, 1 + c.pick(3)
        what, whole = 'characteristic 2', k == 0
    elif kind == 3:
        e['Prime'], e['PrimeExponent'] = min(composite(c), 2 ** 31), 1 + c.pick(2)
        what, whole = 'not a prime', k == 0
    elif kind == 4:
        t = c.of(['ec', 'Ec', 'E', 'ECC', 'EC2', 'Count', '"EC "', '" EC"', '""', 'CE', '0', 'count', 'ExplicitRamificationHasseWeil', 'null', 'EC,EC', 'xEC'])
        top = 'StoreType: %s\n' % t
        what = 'store type ' + t
    elif kind == 5:
        m = c.pick(5)
        what = ['configuration missing', 'configuration is a folder', 'configuration is not YAML', 'configuration is empty', 'configuration not given'][m]
        if m == 0:
            name = c.of(['none.yaml', 'config.yml', 'no/config.yaml'])
        elif m == 1:
            name = 'folder'
            os.mkdir(os.path.join(work, name))
        elif m == 2:
            text = c.of(['Moduli: [', 'Prime: 3\n  Genus: "\n', '{', '- Prime: 3\n Genus: 1\n', '\t- x\n: :'])
        elif m == 3:
            text = c.of(['', '\n', '# nothing\n', 'Moduli:\n  - \n', '3', 'x', '[]', '{}'])
        else:
            name = None
    elif kind == 7:                     # something else is where the results should go
        m = c.pick(4)
        what = ['output path is a file', 'a file within the output path', 'result path is a file', 'a file within the result path'][m]
        f = ['out', 'file', 'out/r%d' % k, 'out/file'][m]
        os.makedirs(os.path.dirname(os.path.join(work, f)), exist_ok=True)
        with open(os.path.join(work, f), 'w') as h:
            h.write('mine')
        if m == 1:
            outname = c.of(['file/out', './file/out', 'file/out/deep'])
        elif m == 3:
            e['ResultPath'] = c.of(['file/r%d' % k, 'file/x/r%d' % k])
        mine, whole = os.path.join(work, f), m < 2 or k == 0
    elif kind == 8:
        f = c.of(['Prime', 'PrimeExponent', 'Genus', 'CountExponent', 'PackageSize', 'WithMarkedPoint'])
        e[f] = c.of(['maybe', '2', '"1 "', 'tru', '[true]', '']) if f == 'WithMarkedPoint' else c.of(['-1', '3.5', '1e1', 'three', '"3 1"', '4294967299', '18446744073709551619', '', '[3]', '3,', '0x', '{a: 3}', '1.0', '-4294967293'])
        what = '%s no number' % f if f != 'WithMarkedPoint' else f + ' no truth value'
    else:
        what = 'control'
    t = runs.config_text(entries)
    if n == 1 and c.chance(1, 2):       # a single entry at top level
        t = ''.join('%s: %s\n' % x for x in entries[0].items())
    t = t + top if c.chance(1, 2) else top + t
    if text is not None:
        t = text
    with open(os.path.join(work, 'config.yaml'), 'w') as h:
        h.write(t)
    os.mkdir(os.path.join(work, 'empty'))
    c.say('%s; %r' % (what, t))
    c.label(what if what.endswith(' 0') and not what.startswith('store') else ('store type' if what.startswith('store type') else what))
    args = ['-n%d' % (1 + c.pick(3))] + ([name, outname] if name else c.of([[], ['--output-path', outname]]))
    if program == 'threaded':
        cmd, env = [P.path['threaded']], {}
    else:
        procs = 1 + c.weighted([2, 3, 1])
        cmd, env = mpi_command(procs), mpi_env(work)
        c.say('%d processes' % procs)
        c.label('%d processes' % procs)
    env.update(LD_PRELOAD=P.fast, FAST_DIV='100')
    x = runs.run(cmd + args, work, env, timeout=30)
    if what == 'control':
        answered(x, 'hycu-' + program)
        if any(not results_in(os.path.join(work, outname, e['ResultPath'])) for e in entries):
            raise Fail('hycu-%s on a valid configuration wrote no results' % program)
        return
    refused(x, 'hycu-%s (%s)' % (program, what))
    if mine and open(mine).read() != 'mine':
        raise Fail('hycu-%s (%s): overwrote the file' % (program, what))
    found = results_in(work) if whole else [f for f in results_in(work) if ('/r%d/' % k) in f]
    if found:
        raise Fail('hycu-%s (%s): wrote %s' % (program, what, found))
    c.nontrivial()


def mpi_command(procs):
    if procs == 1:
        return [P.path['mpi']]
    return ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(procs), P.path['mpi']]


def mpi_env(work):
    return dict(TMPDIR=work, OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_btl_vader_single_copy_mechanism='none')


def mpi_configurations(c, work):
    configurations(c, work, 'mpi')


# ---- hycu-merger ----

def merger(c, work):
    kind = c.weighted([2, 2, 2, 1])
    folder = os.path.join(work, 'in')
    os.mkdir(folder)
    for k in range(c.pick(3)):
        with open(os.path.join(folder, '%d%s' % (k, runs.STO)), 'w') as f:
            f.write('1,1,2;%d:%d\n' % (c.pick(5), c.pick(100)))
        with open(os.path.join(folder, '%d%s' % (k, runs.REC)), 'w') as f:
            f.write('0 %d \n' % (1 + k))
    if kind == 0:
        args, what = [c.of(['none', 'in/none', './in2', 'in/0.hycu_store/x']), 'result'], 'input path missing'
    elif kind == 1:
        with open(os.path.join(work, 'file'), 'w') as f:
            f.write(c.of(['', '0 1 \n', '1,1,2;0:5\n']))
        args, what = ['file', 'result'], 'input path is no folder'
    elif kind == 2:
        args, what = c.of([[], ['in'], ['--output-file', 'result']]), 'no paths'
    else:
        args, what = ['in', 'result'], 'control'
    c.say('hycu-merger %s (%s)' % (' '.join(args), what))
    c.label(what)
    x = runs.run([P.path['merger']] + args, work, timeout=30)
    if what == 'control':
        answered(x, 'hycu-merger')
        return
    refused(x, 'hycu-merger %s (%s)' % (' '.join(args), what))
    found = [f for f in results_in(work) if os.path.dirname(f) != folder]
    if found:
        raise Fail('hycu-merger %s (%s): wrote %s' % (' '.join(args), what, found))
    c.nontrivial()


SUBS = [('curve', curve, 40), ('enumeration', enumeration, 20), ('single', single, 20), ('configurations', configurations, 25),
        ('mpi_configurations', mpi_configurations, 1), ('merger', merger, 5)]


def run(tier, seed, scratch, replay):
    global P
    P = runs.Programs(['threaded', 'single', 'merger', 'mpi', 'refuse'])
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (6000, 35) if tier == 'quick' else (200000, 600)
    cov, violations, notes = pbt.run('C18', SUBS, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('random impossible requests of each listed kind to the classes of the library (one process per request, after random valid requests on the same object) and to all four '
                   'programs, and random valid requests as controls; non-trivial: an impossible request, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes,
                assumptions=['that a request is refused is seen by a failing exit status or an abnormal end, no printed count and no result file'])
