"""Validates planted bugs: python3 tools/seed.py ID... (all when none given).

Per bug: applies cleanly to /repo, builds, existing tests pass, the demonstration fails with it and
passes without it, and the check of its property is run.  /repo is restored afterwards.
Development aid only; no check uses it."""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def one(i, tests=True):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    out = [i, meta['property']]
    if sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip():
        return out + ['/repo is not clean']
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', timeout=300)
    out.append('demo-base:%d' % r.returncode)
    r = sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode:
        return out + ['does not apply: ' + r.stdout]
    try:
        r = sh(['bash', '/opt/vp/build.sh'])
        out.append('build:%d' % r.returncode)
        if tests:
            r = sh(['bash', '/opt/vp/test.sh', '/tmp/seed_tests.json'])
            out.append(r.stdout.strip().splitlines()[-1])
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', timeout=300)
        out.append('demo-bug:%d' % r.returncode)
        props = [meta['property']] + os.environ.get('ALSO', '').split()
        for p in props:
            if not os.path.exists(os.path.join(HERE, 'sa', 'checks', p.lower() + '.py')):
                out.append('%s: no check' % p)
                continue
            r = sh(['/opt/venv/bin/python', '-B', '-m', 'sa.run', p], cwd=HERE)
            out.append('%s exit %d' % (p, r.returncode))
            if os.environ.get('SHOW') or r.returncode > 1:
                out.append('\n' + r.stdout[-3000:])
    finally:
        sh(['git', '-C', '/repo', 'apply', '-R', os.path.join(d, 'patch.diff')])
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        sh(['bash', '/opt/vp/build.sh'])
    return out


ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
for x in ids:
    print(' | '.join(map(str, one(x, not os.environ.get('NOTESTS')))))
    sys.stdout.flush()
