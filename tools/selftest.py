#!/usr/bin/env python3
"""Self-test of the analyses: mutants (must be reported) and refactorings (must stay quiet), as text replacements on a
scratch copy of /repo.  usage: selftest.py [filter ...]   A filter is a property id or part of a case name.
Not used by any check."""
import os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from cases import MUTANTS, REFACTORINGS

RULES = sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, 'sa', 'rules')) if f.startswith('c') and f.endswith('.py'))


def make(edits):
    d = tempfile.mkdtemp(prefix='sa_self_')
    shutil.copytree('/repo/metatab', d + '/metatab', ignore=shutil.ignore_patterns('test', '__pycache__'))
    shutil.copy('/repo/setup.py', d + '/setup.py')
    for f, old, new in edits:
        p = os.path.join(d, 'metatab', f) if not f.startswith('/') else d + f
        s = open(p).read()
        if old not in s:
            shutil.rmtree(d)
            return None
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    for f, _, _ in edits:
        p = os.path.join(d, 'metatab', f) if not f.startswith('/') else d + f
        compile(open(p).read(), p, 'exec')
    return d


def one(kind, name, props, edits):
    d = make(edits)
    if d is None:
        return kind, name, 'STALE (text not found)', ''
    try:
        out = []
        bad = False
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(here, 'check.py'), p], env=dict(os.environ, SA_REPO=d, SA_OUT=d),
                               capture_output=True, text=True)
            if kind == 'mutant':
                if r.returncode != 1:
                    bad = True
                    out.append('%s MISSED (exit %d) %s' % (p, r.returncode, r.stdout[-300:] if r.returncode > 1 else ''))
            elif r.returncode != 0:
                bad = True
                out.append('%s ALARM (exit %d)\n%s%s' % (p, r.returncode, r.stdout, r.stderr[-2000:]))
        return kind, name, 'BAD' if bad else 'ok', '\n'.join(out)
    finally:
        shutil.rmtree(d)


def main():
    fl = sys.argv[1:]
    only = [f for f in fl if f in RULES]
    names = [f for f in fl if f not in RULES and f not in ('mutants', 'refactorings')]
    jobs = []
    if 'refactorings' not in fl:
        for name, props, edits in MUTANTS:
            ps = [p for p in props if p in RULES and (not only or p in only)]
            if ps and (not names or any(n in name for n in names)):
                jobs.append(('mutant', name, ps, edits))
    if 'mutants' not in fl:
        for name, edits in REFACTORINGS:
            if not names or any(n in name for n in names):
                jobs.append(('refactoring', name, only or RULES, edits))
    nbad = 0
    with ThreadPoolExecutor(6) as ex:
        for kind, name, verdict, text in ex.map(lambda j: one(*j), jobs):
            if verdict != 'ok':
                nbad += 1
                print('%s %s: %s\n%s' % (verdict, kind, name, text))
    print('%d cases, %d bad' % (len(jobs), nbad))


main()
