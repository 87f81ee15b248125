import hashlib, os, shutil

from vp import pbt, runs
from vp.pbt import Fail
from vp.runs import REC, STO

P = None
STEMS = ['1', '2', '23', 'a', 'a.b', 'a.b.c', 'x y', 'ä', '7g2', '-3', 'long' * 20, "it's", 'record', 'hycu_store', 'hycu_record', 'q7.hycu', '4711', '8242', '9223372036854775807', '0']
STRAY = ['notes.txt', 'x.hycu_store.bak', 'y.hycu_record.tmp', 'hycu_record', 'z.hycu_recordx', 'w.HYCU_RECORD', 'README', '.hidden', 'core.1', 'store', 'a.yaml']


def gen_key(c):
    n, m = 1 + c.weighted([4, 3, 2, 1]), 1 + c.pick(4)
    if c.chance(1, 30):                       # long lines
        n, m = c.of([(3, 40), (20, 200), (2, 3000), (2500, 4)])
    deg = sorted(c.of([1, 1, 1, 2, 3, 4, 10, 11]) for _ in range(m))
    off = [c.of([0, 1, -1, 2, -2, 3, 10, -10, 2147483647, -2147483647, c.range(-50, 50)]) for _ in range(n)]
    return ','.join(map(str, deg)) + ';' + ','.join(map(str, off))


def gen_count(c):
    k = c.weighted([5, 2, 2, 1])
    if k == 0:
        return c.pick(1000)
    b = c.of([8, 31, 32, 33, 62, 63, 64, 65, 128, 300])
    if k == 1:
        return 2 ** b - 1
    if k == 2:
        return 2 ** b
    return sum(c.pick(2 ** 16) << (16 * i) for i in range(1 + b // 16))


def gen_block(c, n):
    b = []
    for _ in range(n):
        lo = c.of([0, 0, 1, 2, c.pick(40), c.pick(2 ** 31 - 1)])
        b.append((lo, min(2 ** 31 - 1, lo + 1 + c.pick(6))))
    return tuple(b)


def gen_part(c, pool, blocks):
    res = {}
    for _ in range(c.weighted([1, 3, 3, 2, 1]) * (1 + c.pick(4))):
        k = c.of(pool) if c.chance(3, 4) else gen_key(c)
        res[k] = gen_count(c)
    rec = set()
    for _ in range(c.weighted([1, 3, 3, 2, 1]) * (1 + c.pick(3))):
        rec.add(c.of(blocks) if c.chance(1, 6) else gen_block(c, len(blocks[0])))
    return rec, res


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def put(path, text):
    with open(path, 'wb') as f:
        f.write(text.encode())


def state(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            full = os.path.join(root, f)
            with open(full, 'rb') as h:
                out[os.path.relpath(full, path)] = hashlib.sha1(h.read()).hexdigest()
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path)] = 'dir'
    return out


def text_of(c, res):
    lines = ['%s:%d\n' % x for x in res.items()]
    return ''.join(c.shuffle(lines) if c.chance(1, 3) else sorted(lines, key=lambda l: runs.key(l.split(':')[0])))


def record_of(c, rec):
    lines = [''.join('%d %d ' % b for b in x) + '\n' for x in sorted(rec)]
    return ''.join(c.shuffle(lines) if c.chance(1, 3) else lines)


def merge(folder, out, work, expect=True, env=None):
    r = runs.run([P.path['merger'], folder, out], work, env)
    if r.timeout:
        raise Fail('hycu-merger did not end')
    if expect:
        runs.ended_well(r, 'hycu-merger')
    return r


def result(work, out):
    for e in (STO, REC):
        if not os.path.isfile(os.path.join(work, out + e)):
            raise Fail('hycu-merger succeeds without writing %s' % (out + e))
    with open(os.path.join(work, out + STO)) as f:
        sto = f.read()
    with open(os.path.join(work, out + REC)) as f:
        rec = f.read()
    return rec, sto


def compare(rec, sto, want_rec, want_res, what):
    got = runs.parse_store(sto, what + ' results')
    blocks = runs.parse_record(rec, what + ' record')
    if got != want_res:
        bad = [k for k in set(got) | set(want_res) if got.get(k) != want_res.get(k)][:5]
        raise Fail('%s: wrong sums: %s' % (what, '; '.join('%s: %s instead of %s' % (k, got.get(k), want_res.get(k)) for k in bad)))
    if len(blocks) != len(set(blocks)):
        raise Fail('%s: a block is listed twice' % what)
    if set(blocks) != want_rec:
        raise Fail('%s: wrong blocks: unexpected %s, missing %s' % (what, list(set(blocks) - want_rec)[:3], list(want_rec - set(blocks))[:3]))


def gen_folder(c, work, name, big=False):
    os.makedirs(os.path.join(work, name))
    stems = c.shuffle(STEMS)[:c.pick(6) + c.weighted([3, 1]) * 8]
    if big:
        stems += ['%d' % (10 ** 6 + k) for k in range(c.pick(40) if not c.chance(1, 8) else 100 + c.pick(500))]
        if len(stems) > 100:
            c.label('more than 100 pairs')
    n = 1 + c.pick(6)
    pool = [gen_key(c) for _ in range(1 + c.pick(8))]
    blocks = [gen_block(c, n) for _ in range(3)]
    parts = {}
    for s in stems:
        rec, res = gen_part(c, pool, blocks)
        parts[s] = (rec, res)
        linked = c.of([(REC, STO), (REC,), (STO,)]) if c.chance(1, 8) else ()    # kept elsewhere
        for e, text in ((REC, record_of(c, rec)), (STO, text_of(c, res))):
            full = os.path.join(work, name, s + e)
            if e in linked:
                away = os.path.join(work, name + '.away')
                os.makedirs(away, exist_ok=True)
                os.symlink(os.path.join(away, s + e) if c.chance(1, 2) else os.path.join('..', name + '.away', s + e), full)
                c.label('linked ' + ('record' if e == REC else 'results'))
            put(full, text)
    c.say('%d pairs, %d keys, %d blocks;' % (len(stems), sum(len(p[1]) for p in parts.values()), sum(len(p[0]) for p in parts.values())))
    return parts, pool, blocks


def add_strays(c, work, name, parts, pool, blocks):
    """what has to be ignored"""
    p = os.path.join(work, name)
    left = [s for s in STEMS if s not in parts]
    for _ in range(c.pick(4)):
        k = c.pick(4)
        if k == 0 and left:
            s = left.pop(c.pick(len(left)))
            put(os.path.join(p, s + STO), text_of(c, gen_part(c, pool, blocks)[1]))
            c.label('results without record')
            c.say('results without record ' + s + ';')
        elif k == 1:
            s = c.of(STRAY)
            put(os.path.join(p, s), c.of(['', 'text\n', '1,1;2:3\n', '1 2 \n']))
            c.label('unrelated file')
        elif k == 2 and left:
            s = left.pop(c.pick(len(left)))
            d = os.path.join(p, s + REC)
            os.makedirs(d)
            if c.chance(1, 2):
                put(os.path.join(d, 'in' + REC), '1 2 \n')
                put(os.path.join(d, 'in' + STO), '1,1;5:7\n')
            c.label('folder named like a record')
        elif k == 3:
            os.makedirs(os.path.join(p, 'sub'), exist_ok=True)
            put(os.path.join(p, 'sub', 'in' + REC), '1 2 \n')
            put(os.path.join(p, 'sub', 'in' + STO), '1,1;5:7\n')
            c.label('nested folder')


def total(parts):
    rec, res = set(), {}
    for a, b in parts.values():
        rec |= a
        add(res, b)
    return rec, res


def sums(c, work):
    parts, pool, blocks = gen_folder(c, work, 'in', c.chance(1, 5))
    add_strays(c, work, 'in', parts, pool, blocks)
    before = state(os.path.join(work, 'in'))
    folder = c.of(['in', 'in/', './in', os.path.join(work, 'in'), 'linked'])
    os.symlink('in', os.path.join(work, 'linked'))
    out = c.of(['out', 'out.x', 'o.hycu', os.path.join(work, 'abs'), 'o p', 'deep/out'])
    os.makedirs(os.path.join(work, 'deep'))
    if c.chance(1, 3):
        put(os.path.join(work, out + STO), '9,9;9:9\n' * 200)
        put(os.path.join(work, out + REC), '9 9 9 9 \n' * 200)
        c.label('output existed before')
    merge(folder, out, work)
    rec, sto = result(work, out)
    want_rec, want_res = total(parts)
    compare(rec, sto, want_rec, want_res, 'merged')
    if state(os.path.join(work, 'in')) != before:
        raise Fail('hycu-merger changes the input folder')
    if len(parts) > 1 and sum(len(p[1]) for p in parts.values()) > len(want_res):
        c.label('sums formed')
    if len(parts) > 1:
        c.nontrivial()


def regrouped(c, work):
    parts, pool, blocks = gen_folder(c, work, 'in', c.chance(1, 5))
    add_strays(c, work, 'in', parts, pool, blocks)
    merge('in', 'all', work)
    direct = result(work, 'all')
    groups = [('in-%d' % k, 'mid/m%d' % k) for k in range(1 + c.pick(4))]
    os.makedirs(os.path.join(work, 'mid'))
    for a, b in groups:
        os.makedirs(os.path.join(work, a))
    for s in parts:
        a, b = c.of(groups)
        for e in (REC, STO):
            shutil.copy(os.path.join(work, 'in', s + e), os.path.join(work, a, s + e))
    for a, b in groups:
        merge(a, b, work)
    merge('mid', 'again', work)
    got = result(work, 'again')
    c.say('merged in %d groups' % len(groups))
    for k, what in enumerate(('record', 'results')):
        if got[k] != direct[k]:
            raise Fail('merging merged parts gives another %s:\n%s' % (what, runs.diff(got[k], direct[k])))
    want_rec, want_res = total(parts)
    compare(got[0], got[1], want_rec, want_res, 'merged parts')
    if len(parts) > 1 and len(groups) > 1:
        c.nontrivial()


def incomplete(c, work):
    parts, pool, blocks = gen_folder(c, work, 'in')
    left = [s for s in STEMS if s not in parts]
    s = left[c.pick(len(left))]
    rec, res = gen_part(c, pool, blocks)
    put(os.path.join(work, 'in', s + REC), record_of(c, rec))
    if c.chance(1, 3):
        os.makedirs(os.path.join(work, 'in', s + STO))
    c.say('record without results: ' + s)
    before = state(os.path.join(work, 'in'))
    r = merge('in', 'out', work, expect=False)
    if r.rc == 0:
        raise Fail('hycu-merger succeeds although the record %s has no results' % s)
    for e in (REC, STO):
        if os.path.exists(os.path.join(work, 'out' + e)):
            raise Fail('hycu-merger fails but writes out%s although the record %s has no results' % (e, s))
    if state(os.path.join(work, 'in')) != before:
        raise Fail('hycu-merger changes the input folder')
    c.nontrivial()


def unwritable(c, work):
    parts, pool, blocks = gen_folder(c, work, 'in')
    want_rec, want_res = total(parts)
    k = c.pick(3)
    out = 'out'
    if k == 0:
        out = 'missing/out'
    else:
        e, need = ((STO, want_res), (REC, want_rec))[k - 1]
        if not need:
            raise pbt.Discard()                    # nothing to be written
        if c.chance(1, 2):
            os.symlink('/dev/full', os.path.join(work, out + e))
        else:
            os.makedirs(os.path.join(work, out + e))
    c.say('output cannot be written: %s' % ['no such folder', 'results', 'record'][k])
    r = merge('in', out, work, expect=False)
    if r.rc == 0:
        raise Fail('hycu-merger succeeds although the output cannot be written (%s)' % ['no such folder', 'results', 'record'][k])
    c.nontrivial()


SUBS = [('sums', sums, 6), ('regrouped', regrouped, 3), ('incomplete', incomplete, 2), ('unwritable', unwritable, 1)]


def run(tier, seed, scratch, replay):
    global P
    P = runs.Programs(['merger'])
    if replay:
        return pbt.replay(SUBS, replay, scratch)
    cases, deadline = (6000, 35) if tier == 'quick' else (250000, 500)
    cov, violations, notes = pbt.run('C17', SUBS, seed, cases, deadline, scratch, workers=10)
    cov['rule'] = ('random folders (up to 60, seldom 600 pairs of record and results with shared keys and blocks, counts up to 300 bit, odd file names, results without record, unrelated files, '
                   'folders named like records, nested folders, files and folders reached by links), merged by hycu-merger and compared with big integer sums and set union; the same folders merged in random groups '
                   'and again; records without results; outputs that cannot be written; non-trivial: at least two pairs resp. a failing case, distinct by choices')
    return dict(coverage=cov, violations=violations, notes=notes,
                assumptions=['the output is not inside of the input folder', 'files as written by the programs, in any order of lines'])
