"""Configurations whose exact census is known, and complete runs of the programs on them."""
import os

from . import runs
from .pbt import Fail, Discard

# (p, r, genus, largest number of extensions counted)
SMALL = [(3, 1, 1, 3), (5, 1, 1, 3), (3, 1, 2, 3), (7, 1, 1, 2), (3, 2, 1, 2), (11, 1, 1, 2), (5, 1, 2, 3), (13, 1, 1, 2), (3, 1, 3, 4), (7, 1, 2, 2)]
MORE = [(17, 1, 1, 2), (19, 1, 1, 1), (23, 1, 1, 1), (5, 2, 1, 1), (3, 3, 1, 1), (31, 1, 1, 1), (37, 1, 1, 1), (3, 1, 4, 4), (5, 1, 3, 2), (7, 2, 1, 1), (41, 1, 1, 1)]
LARGE = [(3, 2, 2, 2), (11, 1, 2, 2), (13, 1, 2, 1), (7, 1, 3, 1)]


def positions(p, r, g, marked):
    """roughly how many right hand sides are enumerated"""
    q = p ** r
    return (1 if marked else 2) * 2 * q ** (2 * g - 1) * (q if p <= 2 * g + 2 else 3)


def gen_entry(c, path, pools=(SMALL, MORE), weights=(4, 2), max_blocks=150):
    p, r, g, top = c.of(pools[c.weighted(weights)])
    L = min(g, top) if c.chance(3, 5) else 1 + c.pick(top)
    marked = c.chance(1, 3)
    n = positions(p, r, g, marked)
    least = max(1, n // max_blocks)
    k = c.weighted([4, 3, 1])
    if k == 0:
        package = least + (c.pick(3 * least + 5) if c.chance(3, 4) else 0)
    elif k == 1:
        package = (p ** r) ** (1 + c.pick(3))
    else:
        package = 1 << c.pick(32)
    package = min(max(package, least), 4294967295)
    return dict(p=p, r=r, g=g, L=L, marked=marked, package=package, path=path)


def fields(e, explicit=True):
    d = dict(Prime=e['p'], PrimeExponent=e['r'], Genus=e['g'], ResultPath=e['path'], PackageSize=e['package'])
    if e['marked'] or explicit:
        d['WithMarkedPoint'] = 'true' if e['marked'] else 'false'
    if e['L'] != e['g'] or explicit:
        d['CountExponent'] = e['L']
    return d


def say(e):
    return 'F_%d^%d genus %d%s, %d extensions, package %d -> %s' % (e['p'], e['r'], e['g'], ' marked' if e['marked'] else '', e['L'], e['package'], e['path'])


def write_config(work, entries, name='config.yaml', c=None):
    text = runs.config_text([fields(e) for e in entries])
    if c and len(entries) == 1 and c.chance(1, 3):        # at top level
        text = ''.join('%s: %s\n' % x for x in fields(entries[0]).items())
        c.label('entry at top level')
    if c and c.chance(1, 3):
        text = 'StoreType: EC\n' + text
    with open(os.path.join(work, name), 'w') as f:
        f.write(text)
    return name


def merged(progs, work, path, out='merged'):
    r = runs.run([progs.path['merger'], path, out], work, timeout=60)
    runs.ended_well(r, 'hycu-merger')
    try:
        with open(os.path.join(work, out + runs.STO)) as f:
            sto = f.read()
        with open(os.path.join(work, out + runs.REC)) as f:
            rec = f.read()
    except OSError as e:
        raise Fail('hycu-merger wrote no result: %s' % e)
    return rec, sto


def census(progs, e):
    return progs.census(e['p'], e['r'], e['g'], e['marked'], e['L'])


def complete(progs, e, seen, what=''):
    """exactly the blocks of the enumeration are on record, those without curves included"""
    want = progs.blocks(e['p'], e['r'], e['g'], e['marked'], e['package'])
    seen = set(seen)
    if want - seen:
        raise Fail('%s%d of %d blocks of %s are not on record, e.g. %s' % (what, len(want - seen), len(want), say(e), sorted(want - seen)[0]))
    if seen - want:
        raise Fail('%s%d blocks on record are none of %s, e.g. %s' % (what, len(seen - want), say(e), sorted(seen - want)[0]))


def check_folder(progs, work, full, e, what='', out='merged', once=True):
    """the folder holds the census of entry e, each block recorded once; returns the number of blocks"""
    rec, sto, other = runs.folder(full)
    seen = {}
    for stem, t in rec.items():
        for b in runs.parse_record(t, 'record %s' % stem):
            if b in seen and once:
                raise Fail('%sblock %s is recorded twice (%s and %s)' % (what, b, seen[b], stem))
            seen[b] = stem
    mrec, msto = merged(progs, work, full, out)
    want = census(progs, e)
    if msto != want:
        raise Fail('%scensus of %s is wrong:\n%s' % (what, say(e), runs.diff(msto, want)))
    if sorted(set(runs.parse_record(mrec))) != sorted(seen):
        raise Fail('%smerged record differs from the records in the folder' % what)
    if once:
        complete(progs, e, seen, what)
    return len(seen)
