#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds.py and confirm each change in a scratch copy: it applies, the stable tests
pass, the demonstration exits 0 without it and nonzero with it.  usage: mkseed.py [id ...]   Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/tools')
from seeds import SEEDS
BASE = '6ccfeef'

DEMO = '''#!/bin/bash
# run with cwd at the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(d):
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'metatab/test/test_parser.py',
            '--deselect', 'metatab/test/test_parser.py::test_data', '--tb=no', '-rA'], d,
           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d, PYTHONHASHSEED='0', METAPACK_CACHE=d + '/_c', METATAB_CACHE=d + '/_c'))
    return sorted(l.split()[1] for l in r.stdout.splitlines() if l.startswith('PASSED'))


def main():
    ids = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        d = tmp + '/repo'
        sh(['git', 'clone', '-q', '/repo', d], tmp)
        ref = tests(d)
        base_lines = {}
        for s in SEEDS:
            if ids and not any(s['id'].startswith(i) for i in ids):
                continue
            sh(['git', 'checkout', '-q', '--', '.'], d)
            sh(['git', 'clean', '-fdq'], d)
            bad = []
            orig = False
            for f, old, new in s['edits']:
                p = d + '/metatab/' + f
                t = open(p).read()
                if t.count(old) < 1:
                    bad.append('text not found in %s: %r' % (f, old[:60]))
                    continue
                t = t.replace(old, new, 1)
                compile(t, p, 'exec')
                open(p, 'w').write(t)
            diff = sh(['git', 'diff'], d).stdout
            import re
            cur = ln = None
            for l in diff.splitlines():
                if l.startswith('--- '):
                    cur = l[6:]
                elif l.startswith('@@'):
                    ln = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
                elif ln is not None and l[:1] in ' -':
                    ln += 1
                    if l[0] == '-' and l[1:].strip():
                        b = sh(['git', 'blame', '-s', '-L%d,%d' % (ln, ln), BASE + '..HEAD', '--', cur], d).stdout
                        orig = orig or b.startswith('^')
                if l.startswith('diff '):
                    ln = None
            out = here + '/seeded/' + s['id']
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
            if not bad:
                if tests(d) != ref:
                    bad.append('tests differ')
                r1 = sh(['bash', out + '/demo.sh'], d)
                if r1.returncode == 0:
                    bad.append('demo passes with the change')
                sh(['git', 'checkout', '-q', '--', '.'], d)
                r0 = sh(['bash', out + '/demo.sh'], d)
                if r0.returncode != 0:
                    bad.append('demo fails without the change: ' + (r0.stdout + r0.stderr)[-400:])
                sh(['git', 'clean', '-fdq'], d)
                if sh(['git', 'apply', '--check', out + '/patch.diff'], d).returncode:
                    bad.append('does not apply')
            print(s['id'], 'BAD ' + '; '.join(bad) if bad else 'ok ' + ('' if orig else '(adds only) ') + ((r1.stderr + r1.stdout).strip().splitlines() or [''])[-1][:120])
    finally:
        shutil.rmtree(tmp)


main()
