"""Running the programs of /repo on generated configurations, and reading what they wrote."""
import fcntl, os, re, signal, subprocess, threading, time

from . import build
from .pbt import Fail

TOOLS = ('census', 'curve_tool')         # stand-alone
HARNESSES = ('refuse', 'sequential')                  # linked with the library
REC, STO = '.hycu_record', '.hycu_store'


class Programs:
    """built programs by name"""
    def __init__(self, names, flavor='plain', shim=None):
        targets = [build.program(n, flavor) for n in names if n not in TOOLS + HARNESSES]
        for n in names:
            if n in TOOLS:
                targets.append(dict(name=n, flavor='plain', harness=[n + '.cc'], lib=False, libs=['-pthread']))
            if n in HARNESSES:
                targets.append(dict(name=n, flavor=flavor, harness=[n + '.cc']))
        out = build.build_all(targets)
        self.path = {}
        for (n, f), p in out.items():
            self.path[n.replace('hycu-', '')] = p
        self.fast = build.shared_lib('fast', ['fast.cc'])
        self.census_cache = {}

    def census(self, p, r, g, marked, L):
        k = (p, r, g, bool(marked), L)
        if k not in self.census_cache:
            # computed once by whichever process comes first
            tool = self.path['census']
            path = os.path.join(build.BUILD, 'census', os.path.basename(tool), '-'.join(str(int(x)) for x in k))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path + '.lock', 'w') as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                if not os.path.exists(path):
                    with open(path + '.tmp', 'wb') as f:
                        subprocess.run([tool] + [str(int(x)) for x in k], stdout=f, check=True)
                    os.rename(path + '.tmp', path)
            with open(path) as f:
                self.census_cache[k] = f.read()
        return self.census_cache[k]

    def blocks(self, p, r, g, marked, package):
        """the blocks of an enumeration"""
        k = ('blocks', p, r, g, bool(marked), package)
        if k not in self.census_cache:
            x = subprocess.run([self.path['sequential'], 'blocks'] + [str(int(v)) for v in k[1:]], stdout=subprocess.PIPE, check=True)
            self.census_cache[k] = set(parse_record(x.stdout.decode(), 'enumeration'))
        return self.census_cache[k]


class Result:
    pass


def run(cmd, cwd, env=None, timeout=120, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    r = Result()
    t0 = time.monotonic()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.out, r.err = r.out.decode(errors='replace'), r.err.decode(errors='replace')
    r.time = time.monotonic() - t0
    return r


def ended_well(r, what):
    if r.timeout:
        raise Fail('%s did not end within %d s' % (what, r.time))
    if r.rc != 0:
        raise Fail('%s ended with status %d: %s' % (what, r.rc, (r.out + r.err)[-800:]))


def folder(path):
    """(records: stem -> text, stores: stem -> text, others)"""
    rec, sto, other = {}, {}, {}
    for f in sorted(os.listdir(path)):
        full = os.path.join(path, f)
        if not os.path.isfile(full):
            continue
        with open(full, 'rb') as h:
            t = h.read().decode(errors='replace')
        if f.endswith(REC):
            rec[f[:-len(REC)]] = t
        elif f.endswith(STO):
            sto[f[:-len(STO)]] = t
        else:
            other[f] = t
    return rec, sto, other


def parse_store(t, what='results'):
    d = {}
    if t and not t.endswith('\n'):
        raise Fail('%s do not end with a newline' % what)
    for line in t.split('\n')[:-1]:
        m = re.fullmatch(r'(\d+(?:,\d+)*;-?\d+(?:,-?\d+)*):(\d+)', line)
        if not m:
            raise Fail('%s: line %r is not of the form degrees;offsets:count' % (what, line))
        if m.group(1) in d:
            raise Fail('%s: two lines for %s' % (what, m.group(1)))
        d[m.group(1)] = int(m.group(2))
    return d


def key(s):
    a, b = s.split(';')
    return ([int(x) for x in a.split(',')], [int(x) for x in b.split(',')])


def store_text(d):
    return ''.join('%s:%d\n' % (k, d[k]) for k in sorted(d, key=key))


def parse_record(t, what='record'):
    blocks = []
    if t and not t.endswith('\n'):
        raise Fail('%s does not end with a newline' % what)
    for line in t.split('\n')[:-1]:
        v = [int(x) for x in line.split()]
        if len(v) % 2:
            raise Fail('%s: odd number of bounds in %r' % (what, line))
        blocks.append(tuple(zip(v[::2], v[1::2])))
    return blocks


def record_text(blocks):
    return ''.join(''.join('%d %d ' % b for b in x) + '\n' for x in sorted(set(blocks)))


def diff(got, want, n=6):
    g, w = got.split('\n'), want.split('\n')
    gs, ws = set(g), set(w)
    out = ['unexpected: ' + x for x in g if x not in ws][:n] + ['missing: ' + x for x in w if x not in gs][:n]
    return '\n'.join(out) or 'same lines in another order'


def config_text(entries):
    """entries: dicts with Prime, ..."""
    t = 'Moduli:\n'
    for e in entries:
        for k, (a, b) in enumerate(e.items()):
            t += ('  - ' if k == 0 else '    ') + '%s: %s\n' % (a, b)
    return t
