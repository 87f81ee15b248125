import re

from vp import pbt, runs
from vp.pbt import Discard, Fail

P = None
TIER = 'quick'


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


PRIMES = [p for p in range(3, 800000) if p < 3000 and is_prime(p)]


def gen_prime(c, bound):
    k = c.weighted([5, 3, 2])
    small = [p for p in PRIMES if p <= bound]
    if k == 0:
        return c.of(small[:6])
    if k == 1 or bound < 3000:
        return c.of(small)
    p = c.range(3, bound)
    while not is_prime(p) or p % 2 == 0:
        p -= 1
    return p


def number(c, p, v):
    """some integer with residue v"""
    k = c.weighted([6, 2, 2, 1, 1])
    if k == 0:
        return v
    if k == 1:
        return v - p
    if k == 2:
        return v + p * (1 + c.pick(5))
    if k == 3:
        m = c.range(2 ** 31 - p, 2 ** 32 + p)
        return m - m % p + v
    m = c.range(0, 2 ** 31)
    return -(m - m % p) + v - p


def parse(out, text):
    """-> polynomial (dict), p, exponents, points, offsets, types"""
    lines = [l for l in out.split('\n') if l.strip()]
    if len(lines) != 5:
        raise Fail('%d lines printed: %r (%s)' % (len(lines), out, text))
    poly, rest = {}, []
    m = re.fullmatch(r'Y\^2 = (.*?)\s*/\s*F_(\d+)\s*', lines[0])
    if not m:
        raise Fail('curve printed as %r (%s)' % (lines[0], text))
    for term in m.group(1).split(' + '):
        t = re.fullmatch(r'\((\d+)\)\*X\^(\d+)', term.strip())
        if not t or int(t.group(2)) in poly:
            raise Fail('curve printed as %r (%s)' % (lines[0], text))
        poly[int(t.group(2))] = int(t.group(1))
    for head, line in zip(['coefficient exponents', 'number of points', 'hasse-weil offsets', 'ramification type'], lines[1:]):
        if not line.startswith(head + ':') or re.search(r'[^-0-9 ;,]', line[len(head) + 1:]):
            raise Fail('line %r does not report the %s (%s)' % (line, head, text))
        rest.append([int(x) for x in re.findall(r'-?\d+', line[len(head) + 1:])])
    return poly, int(m.group(2)), rest


def check_exponents(p, coeffs, exps, text):
    if len(exps) != len(coeffs):
        raise Fail('%d coefficient exponents for %d coefficients (%s)' % (len(exps), len(coeffs), text))
    for v, e in zip(coeffs, exps):
        if (v == 0) != (e == p - 1) or not 0 <= e <= p - 1:
            raise Fail('exponent %d for coefficient %d (%s)' % (e, v, text))
    if p > 3000:
        return
    # one generator has to explain all of them
    fs = [d for d in range(2, p) if (p - 1) % d == 0 and is_prime(d)]
    for g in range(1, p):
        if all(pow(g, (p - 1) // d, p) != 1 for d in fs) and all(v == 0 or pow(g, e, p) == v for v, e in zip(coeffs, exps)):
            return
    raise Fail('no generator of F_%d has the powers %s for exponents %s (%s)' % (p, coeffs, exps, text))


def truth(p, nums, text):
    r = runs.run([P.path['curve_tool'], str(p)] + [str(x) for x in nums], '/', timeout=100)
    runs.ended_well(r, 'reference')
    if r.out.strip() == 'outside':
        raise Discard()
    return {l.split()[0]: [int(x) for x in l.split()[1:]] for l in r.out.strip().split('\n')}


def reports(c, work):
    bound = c.of([60, 400, 3000]) if c.chance(5, 6) else (20000 if TIER == 'quick' or c.chance(1, 2) else 200000)
    genus = 1 + c.weighted([32, 24, 16, 8, 8, 2, 2, 2, 2, 1] + ([] if TIER == 'quick' else [1, 1]))
    top = bound
    if genus > 5:
        top = bound = 3 ** genus if genus > 6 or c.chance(1, 2) else 5 ** genus
    while genus > 1 and (top + 1) ** genus > max(bound, 800):
        top -= 1 if top < 100 else top // 10
    p = gen_prime(c, max(3, top))
    if genus == 1 and c.chance(1, 30 if TIER == 'quick' else 20):
        p = c.of([65521, 65537, 65539, 65543, 99991, 109987, 110017, 131071, 139999, 262147])
        c.label('prime of at least 16 bit')
    degree = 2 * genus + 1 + c.pick(2)
    density = c.pick(3)
    coeffs = [0 if c.chance(2 - density, 4) else c.pick(p) for _ in range(degree)] + [1 + c.pick(p - 1)]
    nums = [number(c, p, v) for v in coeffs]
    if c.chance(1, 3):
        extra = 1 + c.pick(4)
        nums += [p * c.of([0, 0, 1, -1, 7]) for _ in range(extra)]
        c.label('zero leading coefficients')
    if min(nums) < 0:
        c.label('negative coefficients')
    if max(nums) >= p:
        c.label('coefficients of at least p')
    args = [str(p)] + [str(x) for x in nums]
    text = ' '.join(args)
    c.say(text)
    want = truth(p, nums, text)
    c.label('genus %d' % genus)
    first = None
    for flag in c.shuffle([None, '--naivenmod', '--naivezech']):
        if flag == '--naivenmod' and p > 109987:
            continue                                  # FLINT has no Conway polynomial
        if p > 30000 and flag and c.chance(1, 2):
            continue
        k = c.pick(3) if min(nums) >= 0 else 1
        cmd = [P.path['single']] + ([flag] if flag and k != 2 else []) + (['--'] if k == 1 else []) + args + ([flag] if flag and k == 2 else [])
        r = runs.run(cmd, work, timeout=120)
        if flag == '--naivenmod' and r.rc and 'onway' in r.out + r.err:
            c.label('no Conway polynomial')
            continue
        what = 'hycu-single ' + ' '.join(cmd[1:])
        runs.ended_well(r, what)
        poly, fp, (exps, points, offsets, types) = parse(r.out, what)
        if fp != p or [poly.get(i, -1) for i in range(len(poly))] != want['polynomial']:
            raise Fail('the printed curve %r is not %s over F_%d (%s)' % (r.out.split('\n')[0], want['polynomial'], p, what))
        check_exponents(p, want['polynomial'], exps, what)
        for name, got in (('points', points), ('offsets', offsets), ('ramification', types)):
            if got != want[name]:
                raise Fail('%s are reported as %s, but are %s (%s)' % (name, got, want[name], what))
        if first is None:
            first = (what, r.out)
        elif r.out != first[1]:
            raise Fail('%s prints\n%s\nbut %s prints\n%s' % (what, r.out, first[0], first[1]))
        c.label('with ' + (flag or 'default implementation'))
    c.nontrivial(text)


SUBS = [('reports', reports, 1)]


def run(tier, seed, scratch, replay):
    global P, TIER
    TIER = tier
    P = runs.Programs(['single', 'curve_tool'])
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (6000, 35) if tier == 'quick' else (60000, 600)
    cov, violations, notes = pbt.run('C15', SUBS, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('random odd primes (some above 2^16), degrees 3 to 22 (26 in the thorough tier), sparse and dense coefficients given by any representative of their residue (negative, above p, above 2^31), '
                   'with and without zero leading coefficients; hycu-single run with each implementation and option placement; every printed number compared with a count by '
                   'definition; non-trivial: squarefree of degree at least 3, distinct by arguments')
    return dict(coverage=cov, violations=violations, notes=notes,
                assumptions=['--naivenmod only where FLINT has a Conway polynomial', 'coefficients between -2^31 and 2^32+p'])
