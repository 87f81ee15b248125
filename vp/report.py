"""Evidence, verdict lines, known findings."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    """entries 'finding: property=<id> match=<text> :: <what fails>' (a violation whose message contains <text>)"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                body = line.strip().split(' match=', 1)[1]
                match, what = body.split(' :: ', 1)
                out.append((match, what))
    return out


def write_evidence(pid, tier, seed, level, coverage, wall, assumptions=(), violations=0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 2),
             assumptions=list(assumptions), violations=violations)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))


def violation(pid, replay, message):
    print('VIOLATION property=%s replay=%s' % (pid, replay))
    for line in message.strip().split('\n')[:40]:
        print('  ' + line)
    sys.stdout.flush()
