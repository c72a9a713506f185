"""Turns the planted changes of bugs.py into /verif/seeded/<id>/ after confirming each in a scratch copy of /repo.
python plant.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS  # noqa: E402
import bugs2  # noqa: E402,F401
import bugs3  # noqa: E402,F401
import bugs4  # noqa: E402,F401
import bugs5  # noqa: E402,F401
import bugs6  # noqa: E402,F401
import bugs7  # noqa: E402,F401
import bugs8  # noqa: E402,F401
import bugs9  # noqa: E402,F401

# caught by the test suite, equivalent, or on lines of fixes
REJECTED = set('''i03-traffic-first-path i08-node-one-group-up i53-resignal-rounded h22-groups-class h32-unfail-validates-first h34-shared-lsp-interface-once h39-lsp-exact-metric-type b01-ecmp-reverse-cost b04-res-percent b05-resignal-release b06-most-hops b07-resignal-strict b08-share-unconfigured b09-equal-traffic-demands
b10-metric-feasible b13-shortcut-traffic-once b22-node-lon-check b26-shortcut-end-node b27-node-shortcut-row b30-flex-min-path-limit c03-share-of-unconfigured
c10-default-metric-path c23-lsps-first-hop c29-res-bw-percent-once c32-lsp-zero-metric-default d05-srlg-failed-any d07-lower-metric-only d09-first-path-traffic
d16-lsps-zero d18-int-info-joined d19-perf-exact-fit d22-optimize-single d24-unfail-any-srlg d26-nonfailed-isolated d29-stale-detail
d30-loads-percent-blank'''.split())
OUT = os.path.normpath(os.path.join(HERE, '..', '..', 'seeded'))
SCR = '/tmp/plant'
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def original(f, old):
    """are the lines that hold `old` from the original repository?"""
    src = open('/repo/' + f).read()
    a = src.index(old)
    l1, l2 = src.count('\n', 0, a) + 1, src.count('\n', 0, a + len(old.rstrip('\n'))) + 1
    bl = sh('git -C /repo blame -s -L %d,%d HEAD -- %s' % (l1, l2, f)).stdout.splitlines()
    return [x for x in bl if not x.lstrip('^').startswith(BASE[:7])]


def tests(root):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    p = sh('/opt/venv/bin/python -m pytest --no-cov -o cache_dir=/tmp/plant/cache -q --timeout=300 2>&1 | tail -5', cwd=root, env=env)
    return p.stdout


def main():
    want = sys.argv[1:]
    for b in BUGS:
        if b['id'] in REJECTED and b['id'] not in want:
            continue
        if want and b['id'] not in want:
            continue
        if not want and os.path.exists(os.path.join(OUT, b['id'], 'meta.json')):
            continue
        root = os.path.join(SCR, b['id'])
        sh('rm -rf %s; mkdir -p %s; cp -a /repo %s' % (root, SCR, root))
        for f, old, new in b['edits']:
            s = open(os.path.join(root, f)).read()
            if s.count(old) != b.get('count', 1):
                print(b['id'], 'PATTERN COUNT', s.count(old), repr(old))
                break
            foreign = original(f, old)
            if foreign:
                print(b['id'], 'touches lines of fixes:', foreign)
            open(os.path.join(root, f), 'w').write(s.replace(old, new, 1))
        else:
            d = os.path.join(SCR, 'out', b['id'])
            sh('rm -rf %s; mkdir -p %s' % (d, d))
            diff = sh('git -C %s diff -- pyNTM' % root).stdout
            open(d + '/patch.diff', 'w').write(diff)
            shutil.copy(os.path.join(HERE, 'net.py'), d)
            open(d + '/demo.py', 'w').write('from net import *  # noqa: F401,F403\n' + b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write('#!/bin/sh\nfor s in 0 1 2; do\n  PYTHONHASHSEED=$s PYTHONDONTWRITEBYTECODE=1 '
                                            '/opt/venv/bin/python "$(dirname "$0")/demo.py" || exit 1\ndone\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r0 = sh('sh %s/demo.sh' % d, cwd='/repo')
            r1 = sh('sh %s/demo.sh' % d, cwd=root)
            t = tests(root)
            ok = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in t and 'error' not in t and 'passed' in t
            ap = sh('git -C /repo apply --check %s/patch.diff' % d)
            ok = ok and ap.returncode == 0
            print(b['id'], 'OK' if ok else 'REJECT', r0.returncode, r1.returncode, t.strip().splitlines()[-1:], flush=True)
            if r0.returncode:
                print(r0.stderr[-600:])
            if not ok:
                print('\n'.join(t.splitlines()[-4:]))
            else:
                print('   ', r1.stderr.strip().splitlines()[-1:])
                sh('rm -rf %s/%s; mkdir -p %s; cp -a %s %s/' % (OUT, b['id'], OUT, d, OUT))
        sh('rm -rf %s' % root)


main()
