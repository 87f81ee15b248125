#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough] [--replay FILE]

Decides one property by generated-input search against /repo's current working tree.
exit 0: held on everything explored;  exit 1: VIOLATION property=<id> replay=<path>."""
import importlib, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, report


def main():
    args = sys.argv[1:]
    pid = args[0]
    replay = None
    if '--replay' in args:
        replay = os.path.abspath(args[args.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(args) > 1 and args[1] in ('quick', 'thorough'):
        tier = args[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='hycu-%s-' % pid)
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        res = mod.run(tier=tier, seed=seed, scratch=scratch, replay=replay)
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    finally:
        os.chdir(build.VERIF)
        shutil.rmtree(scratch, ignore_errors=True)
    if replay:
        print(res['message'])
        sys.exit(1 if res['violations'] else 0)
    known = report.known_findings(pid)
    real = []
    for v in res['violations']:
        for match, what in known:
            if match in v['message']:
                print('KNOWN-FINDING: property=%s %s' % (pid, what))
                break
        else:
            real.append(v)
    report.write_evidence(pid, tier, seed, res.get('level', 'exploration'), res['coverage'], time.time() - t0,
                          res.get('assumptions', ()), len(real))
    for v in real:
        report.violation(pid, v['replay'], v['message'])
    c = res['coverage']
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s, %d violations' % (
        pid, tier, c.get('evaluations', 0), c.get('distinct_nontrivial', 0), time.time() - t0, len(real)))
    for note in res.get('notes', ()):
        print('note: ' + note)
    sys.exit(1 if real else 0)


if __name__ == '__main__':
    main()
