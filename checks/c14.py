import os

from vp import cccheck, census_runs as cr, pbt, runs
from vp.pbt import Fail

SPEC = dict(
    harness=['c14.cc'],
    rule='random values for all fields (paths that need quoting in YAML, numbers up to 2^32-1) written as YAML and read back, and sent through binary and text archives '
         'together with blocks, texts and tuples into objects holding other values; random hand-written documents in the documented forms (listed under Moduli or at top '
         'level, with or without StoreType, optional fields left out, any order, block or flow style, comments); and the programs hycu-threaded and hycu-mpi run on such documents with '
         'output paths that exist or not, compared with a brute-force census; non-trivial: a configuration was compared, distinct by document or choices',
    quick=dict(plain=(60000, 60), asan=(6000, 40)),
    thorough=dict(plain=(1500000, 300), asan=(150000, 150), fuzz=100),
    assumptions=['result paths without NUL; in hand-written documents without newline', 'relative result paths in the programs run'],
)
P = None
POOL = [(3, 1, 1, 2), (5, 1, 1, 2), (3, 1, 2, 3), (7, 1, 1, 1), (3, 2, 1, 1)]
NAMES = ['a', 'r4 x', 'b/c', './d', 'deep/er/still', "it's", 'äö', 'true', '7', 'a: b', '#e', 'x.hycu_store']


def quoted(s):
    return "'" + s.replace("'", "''") + "'"


def document(c, entries, single):
    t, with_type, first = '', c.chance(1, 2), c.chance(1, 2)
    flow = not single and c.chance(1, 5)
    for e in entries:
        fs = ['Prime: %d' % e['p'], 'PrimeExponent: %d' % e['r'], 'Genus: %d' % e['g'], 'ResultPath: ' + quoted(e['path']), 'PackageSize: %d' % e['package']]
        if e['marked'] or c.chance(1, 2):
            fs.append('WithMarkedPoint: ' + ('true' if e['marked'] else 'false'))
        else:
            c.label('WithMarkedPoint left out')
        if e['L'] != e['g'] or c.chance(1, 2):
            fs.append('CountExponent: %d' % e['L'])
        else:
            c.label('CountExponent left out')
        if single and with_type:
            fs.append('StoreType: EC')
        fs = c.shuffle(fs)
        if single:
            t += ''.join(f + '\n' for f in fs)
        elif flow:
            t += '  - {' + ', '.join(fs) + '}\n'
        else:
            t += ''.join(('    ' if k else '  - ') + f + '\n' for k, f in enumerate(fs))
    if single:
        c.label('one entry at top level')
        return t
    t = 'Moduli:\n' + t
    if with_type:
        t = 'StoreType: EC\n' + t if first else t + 'StoreType: EC\n'
        c.label('with StoreType')
    return t


def programs_on_documents(c, work):
    n = 1 + c.weighted([4, 2, 1])
    single = n == 1 and c.chance(1, 2)
    names = c.shuffle(NAMES)
    entries = []
    for k in range(n):
        p, r, g, top = c.of(POOL)
        entries.append(dict(p=p, r=r, g=g, L=g if g <= top and c.chance(1, 2) else 1 + c.pick(top), marked=c.chance(1, 3), package=c.of([7, 50, 400, 70000, 4294967295]), path=names[k]))
    t = document(c, entries, single)
    cfg = c.of(['config.yaml', 'sub/my config', os.path.join(work, 'abs.yml')])
    os.makedirs(os.path.dirname(os.path.join(work, cfg)), exist_ok=True)
    with open(os.path.join(work, cfg), 'w') as f:
        f.write(t)
    out = c.of(['out', 'out/', 'new/deep/out', '.', 'there', os.path.join(work, 'abs', 'out'), './there/x/..'])
    if 'there' in out:
        os.makedirs(os.path.join(work, 'there', 'x'))
    form = c.pick(3)
    args = [[cfg, out], ['-c', cfg, '--output-path', out], ['--output-path=' + out, cfg]][form]
    args = (['-n%d' % (1 + c.pick(3))] + args) if c.chance(1, 2) else args + ['--nmb-threads', '2']
    c.say(t.replace('\n', ' | ') + ' args: ' + ' '.join(args).replace(work, '<work>'))
    kind = c.weighted([12, 3, 1])
    program, cmd = [('hycu-threaded', [P.path['threaded']]), ('hycu-mpi', [P.path['mpi']]),
                    ('hycu-mpi', ['mpirun', '--allow-run-as-root', '--oversubscribe', '-x', 'LD_PRELOAD=' + P.fast, '-x', 'FAST_DIV=100', '-n', '2', P.path['mpi']])][kind]
    env = {} if kind == 2 else dict(LD_PRELOAD=P.fast, FAST_DIV='100')
    if kind:
        c.say('hycu-mpi')
        c.label('hycu-mpi')
        env.update(TMPDIR=work, OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_btl_vader_single_copy_mechanism='none')
    r = runs.run(cmd + args, work, env, timeout=150)
    runs.ended_well(r, '%s on\n%s(arguments %s)' % (program, t, args))
    for e in entries:
        full = os.path.join(work, out, e['path'])
        if not os.path.isdir(full):
            raise Fail('no folder %s after running\n%s(arguments %s)' % (full, t, args))
        cr.check_folder(P, work, full, e)
    c.nontrivial()


SUBS = [('programs_on_documents', programs_on_documents, 1)]


def run(tier, seed, scratch, replay):
    global P
    is_json = replay and open(replay).read(1) == '{'
    if replay and not is_json:
        return cccheck.run('C14', SPEC, tier=tier, seed=seed, scratch=scratch, replay=replay)
    P = runs.Programs(['threaded', 'mpi', 'merger', 'census', 'sequential'])
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    res = cccheck.run('C14', SPEC, tier=tier, seed=seed, scratch=scratch, replay=None)
    cases, deadline = (300, 25) if tier == 'quick' else (10000, 250)
    cov, violations, notes = pbt.run('C14', SUBS, seed, cases, deadline, scratch, workers=10)
    res['coverage'] = pbt.merge_coverage(res['coverage'], cov)
    res['violations'] += violations
    res['notes'] += notes
    return res
