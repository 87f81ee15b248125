import os

from vp import census_runs as cr, pbt, runs
from vp.pbt import Fail

P = None
TIER = 'quick'


def complete_runs(c, work):
    n = 1 + c.weighted([5, 3, 2, 1])
    pools, weights = ((cr.SMALL, cr.MORE), (4, 2)) if TIER == 'quick' else ((cr.SMALL, cr.MORE, cr.LARGE), (4, 4, 1))
    if c.chance(1, 40):                       # many moduli
        n = 5 + c.pick(12)
        pools, weights = (cr.SMALL[:5],), (1,)
        c.label('more than 4 moduli')
    paths = ['a', 'b', 'c/d', 'r 4'] + ['x%d' % k for k in range(20)]
    entries = [cr.gen_entry(c, paths[k], pools, weights) for k in range(n)]
    if n > 1 and c.chance(1, 4):              # the same modulus once more, or the same with other parameters
        entries[1] = dict(entries[0], path='b', marked=c.chance(1, 2), L=entries[0]['L'])
    cfg = cr.write_config(work, entries, c=c)
    for e in entries:
        c.say(cr.say(e) + ';')
    total = 0
    for k in range(1 + c.chance(1, 3)):
        threads = 1 + (c.pick(64) if c.chance(1, 12) else c.pick(8))
        if threads > 16:
            c.label('more than 16 threads')
        env = dict(LD_PRELOAD=P.fast, FAST_DIV=str(c.of([20, 50, 100, 400])))
        if c.chance(1, 2):
            env['CLOCK_JUMP'] = str(c.of([7, 61, 400]))     # intermediate saves
            c.label('intermediate saves')
        out = 'out%d' % k
        c.say('%d threads, env %s;' % (threads, {a: b for a, b in env.items() if a != 'LD_PRELOAD'}))
        r = runs.run([P.path['threaded'], '-n%d' % threads, cfg, out], work, env, timeout=150)
        runs.ended_well(r, 'hycu-threaded')
        for e in entries:
            total += cr.check_folder(P, work, os.path.join(work, out, e['path']), e, out='m-%d' % k)
        if k:
            c.label('repeated with other threads')
    for e in entries:
        if e['r'] > 1:
            c.label('q = p^r')
        if e['L'] != e['g']:
            c.label('count exponent differs from the genus')
    if n > 1:
        c.label('several moduli')
    if total > len(entries):
        c.nontrivial()


SUBS = [('complete_runs', complete_runs, 1)]


def run(tier, seed, scratch, replay):
    global P, TIER
    TIER = tier
    P = runs.Programs(['threaded', 'merger', 'census', 'sequential'])
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (1000, 45) if tier == 'quick' else (30000, 650)
    cov, violations, notes = pbt.run('C11', SUBS, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('random configuration files (one to four moduli, seldom up to 16, over prime and other fields, genus 1 to 4, with and without marked point, any number of counted extensions, '
                   'package sizes from one block to hundreds), run by hycu-threaded with 1 to 8 (seldom up to 64) threads at several speeds and with intermediate saves, merged, and compared byte for '
                   'byte with a brute-force census; non-trivial: more blocks than moduli were computed, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes,
                assumptions=['the brute-force census uses the substitution x -> x+b and scaling by squares to save time'])
