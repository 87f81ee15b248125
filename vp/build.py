"""Builds what a check needs from /repo's current working tree into /verif/build (content addressed)."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')

# headers the sources use without including them (as in the project's build here)
PRE = []
for _h in ['string', 'flint/ulong_extras.h', 'flint/fmpz.h', 'flint/nmod_poly.h', 'flint/nmod_poly_factor.h',
           'flint/fq_nmod_poly.h', 'flint/fq_nmod_poly_factor.h', 'boost/serialization/vector.hpp']:
    PRE += ['-include', _h]

FLAVORS = {
    'plain': (['g++'], ['-O2', '-g1']),
    'asan': (['g++'], ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment',
                       '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']),
    'tsan': (['g++'], ['-O1', '-g1', '-fsanitize=thread']),
    'fuzz': (['clang++'], ['-O1', '-g1', '-fsanitize=fuzzer-no-link,address', '-D_GLIBCXX_ASSERTIONS', '-DPBT_LIBFUZZER',
                           '-Wno-everything']),
}
LINK = {'plain': [], 'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread'],
        'fuzz': ['-fsanitize=fuzzer,address']}
LIBS = ['-lboost_serialization', '-lboost_filesystem', '-lboost_program_options', '-lboost_system', '-lyaml-cpp',
        '-lflint', '-lgmp', '-pthread']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])


def header_hash(dirs):
    parts = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(('.hh', '.h', '.hpp', '.cl', '.inc')):
                    parts.append(os.path.relpath(os.path.join(root, f), d).encode())
                    parts.append(read(os.path.join(root, f)))
    return sha(*parts)


_hh = {}


def repo_headers():
    if 'r' not in _hh:
        _hh['r'] = header_hash([SRC])
    return _hh['r']


def harness_headers():
    if 'h' not in _hh:
        _hh['h'] = header_hash([os.path.join(VERIF, 'harness')])
    return _hh['h']


def compile_one(src, flavor, extra=(), harness=False, compiler=None):
    cc, flags = FLAVORS[flavor]
    if compiler:
        cc = compiler
    flags = list(flags) + list(extra) + PRE + ['-I' + SRC, '-w']
    if harness:
        flags.append('-I' + os.path.join(VERIF, 'harness'))
    key = sha(' '.join(cc + flags), read(src), os.path.basename(src), repo_headers(), harness_headers() if harness else '')
    out = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        run(cc + flags + ['-c', src, '-o', tmp])
        os.rename(tmp, out)
    return out


def lib_sources(mpi=False, opencl=False):
    srcs = []
    for root, dirs, files in sorted(os.walk(SRC)):
        rel = os.path.relpath(root, SRC)
        if rel.split(os.sep)[0] in ('executables',) + (() if opencl else ('opencl',)):
            continue
        for f in sorted(files):
            if f.endswith(('.cc', '.cpp')) and (mpi or not f.startswith('mpi')):
                srcs.append(os.path.join(root, f))
    return srcs


def link(objs, libs, out_name, flavor, compiler=None):
    cc = compiler or FLAVORS[flavor][0]
    key = sha(' '.join(objs), ' '.join(libs), flavor, ' '.join(cc))
    out = os.path.join(BUILD, 'bin', out_name + '-' + flavor + '-' + key[:12])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        run(cc + LINK[flavor] + list(objs) + list(libs) + ['-o', tmp])
        os.rename(tmp, out)
    return out


def build_all(targets):
    """targets: list of (name, flavor, [harness sources], [repo main sources], libs) -> dict (name, flavor) -> path"""
    jobs = {}
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        def want(src, flavor, harness, compiler=None, extra=()):
            k = (src, flavor, harness, tuple(compiler or ()), tuple(extra))
            if k not in jobs:
                jobs[k] = ex.submit(compile_one, src, flavor, extra, harness, compiler)
            return jobs[k]
        plan = []
        repo_headers(), harness_headers()
        for t in targets:
            comp = t.get('compiler')
            extra = t.get('extra', ())
            fs = [want(os.path.join(VERIF, 'harness', s), t['flavor'], True, comp, extra) for s in t.get('harness', [])]
            fs += [want(os.path.join(SRC, s), t['flavor'], False, comp, extra) for s in t.get('main', [])]
            if t.get('lib', True):
                fs += [want(s, t['flavor'], False, comp, extra) for s in lib_sources(t.get('mpi', False), t.get('opencl', False))]
            plan.append((t, fs))
        outs = {}
        links = []
        for t, fs in plan:
            objs = [f.result() for f in fs]
            links.append((t, ex.submit(link, objs, t.get('libs', LIBS), t['name'], t['flavor'], comp if False else t.get('compiler'))))
        for t, f in links:
            outs[(t['name'], t['flavor'])] = f.result()
    return outs


MPI_LIBS = ['-lboost_mpi', '-lboost_serialization', '-lboost_filesystem', '-lboost_program_options', '-lboost_system',
            '-lyaml-cpp', '-lflint', '-lgmp', '-lmpi_cxx', '-lmpi', '-pthread']


# support for OpenCL, with the bindings installed here and a driver of our own
CL_HARNESS = ['fakecl.cc', 'cldev.cc']
CL_LIBS = ['-rdynamic', '-ldl']


def opencl(target):
    t = dict(target, opencl=True)
    t['name'] += '-opencl'
    t['harness'] = list(t.get('harness', [])) + CL_HARNESS
    t['extra'] = tuple(t.get('extra', ())) + ('-DWITH_OPENCL', '-I' + os.path.join(VERIF, 'harness', 'cl'))
    t['libs'] = list(t.get('libs', LIBS)) + CL_LIBS
    return t


def stubmpi_flags():
    d = os.path.join(VERIF, 'harness', 'stubmpi')
    return ('-I' + d, '-DSTUB_VERSION=0x' + header_hash([d])[:8])


def program(name, flavor='plain'):
    if name.endswith('-opencl'):
        return opencl(program(name[:-7], flavor))
    if name == 'mpi':
        return dict(name='hycu-mpi', flavor=flavor, main=['executables/mpi.cc'], mpi=True, libs=MPI_LIBS,
                    extra=tuple(mpi_flags()[0]))
    if name == 'mpi-stub':                  # processes and messages by harness/stubmpi
        return dict(name='hycu-mpi-stub', flavor=flavor, main=['executables/mpi.cc'], mpi=True, libs=LIBS,
                    extra=stubmpi_flags())
    return dict(name='hycu-' + name, flavor=flavor, main=['executables/%s.cc' % name])


def mpi_flags():
    out = subprocess.run(['mpicxx', '--showme:compile'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split()
    return out, []


def shared_lib(name, sources, extra=()):
    srcs = [os.path.join(VERIF, 'shim', s) for s in sources]
    key = sha(*[read(s) for s in srcs], ' '.join(extra))
    out = os.path.join(BUILD, 'bin', '%s-%s.so' % (name, key[:12]))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        run(['g++', '-O2', '-g1', '-fPIC', '-shared', '-w'] + srcs + ['-o', tmp, '-ldl', '-pthread'] + list(extra))
        os.rename(tmp, out)
    return out
