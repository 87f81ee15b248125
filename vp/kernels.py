"""The texts of the OpenCL kernels of /repo as the OpenCL compiler would get them (the files go through the project's AS_STRING)."""
import ast, os, re

from . import build


def kernel_text(name):
    path = os.path.join(build.SRC, 'opencl', name)
    work = os.path.join(build.BUILD, 'gen')
    os.makedirs(work, exist_ok=True)
    text = build.read(path)
    key = build.sha(text, name)[:16]
    inc = os.path.join(work, 'string-%s.cc' % key)
    tmp = '%s.%d' % (inc, os.getpid())
    with open(tmp, 'w') as f:
        f.write('#define AS_STRING(S) AS_STRING_(S)\n#define AS_STRING_(S) #S\nconst char * text =\n#include "%s"\n' % path)
    os.rename(tmp, inc)
    out = '%s.%d.i' % (inc, os.getpid())
    build.run(['g++', '-E', '-P', '-w', inc, '-o', out])
    with open(out) as f:
        t = f.read()
    os.remove(out)
    t = '\n'.join(l for l in t.split('\n') if not l.lstrip().startswith('#'))
    return ''.join(ast.literal_eval(s) for s in re.findall(r'"(?:[^"\\]|\\.)*"', t))


def generated():
    """path of a source with the texts of both kernels"""
    parts = []
    for name in ('evaluation', 'reduction'):
        t = kernel_text(name + '.cl')
        if not re.search(r'\bkernel\b', t):
            raise build.BuildError('no kernel in %s.cl' % name)
        parts.append('extern const char %s_text[] = {%s, 0};\n' % (name, ','.join(str(b) for b in t.encode())))
    src = ''.join(parts)
    path = os.path.join(build.BUILD, 'gen', 'kernels-%s.cc' % build.sha(src)[:16])
    if not os.path.exists(path):
        tmp = '%s.%d' % (path, os.getpid())
        with open(tmp, 'w') as f:
            f.write(src)
        os.rename(tmp, path)
    return path
