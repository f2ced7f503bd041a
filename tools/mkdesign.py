"""Writes the parts of DESIGN.md that follow from the rules, the seeds and the cases (between the markers)."""
import ast, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(here, 'tools'))
from cases import MUTANTS, REFACTORINGS

props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
rules = {}
for f in sorted(glob.glob(os.path.join(here, 'sa', 'rules', 'c*.py'))):
    i = os.path.basename(f)[:3].upper()
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and isinstance(n.args[0], ast.Constant):
            rules.setdefault(i, []).append((n.args[0].value, ast.literal_eval(n.args[1])))
out = ['| property | rule | what is decided |', '|---|---|---|']
for p in props:
    for n, (r, t) in enumerate(rules.get(p['id'], [])):
        out.append('| %s | %s | %s |' % (('**%s** %s' % (p['id'], p['title'])) if n == 0 else '', r, t.replace('|', '/')))
tab = '\n'.join(out)
out = ['| planted change | caught by | needs | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
seeds = '\n'.join(out)
cnt = {}
for n, ps, e in MUTANTS:
    for q in ps:
        cnt[q] = cnt.get(q, 0) + 1
cases = 'mutants: ' + ', '.join('%s %d' % (k, v) for k, v in sorted(cnt.items())) + '.  Refactorings: %d, each run against every rule.' % len(REFACTORINGS)
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
for name, text in (('rules', tab), ('seeds', seeds), ('cases', cases)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
