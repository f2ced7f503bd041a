"""Writes /verif/MANIFEST.json from the rule modules that exist and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'flow- and path-sensitive abstract interpretation of the AST: '
TECH = {
 'C01': AI + 'mutation effects with freshness (purity of read operations)',
 'C02': AI + 'ownership/escape of mutable containers, global-state effects',
 'C03': AI + 'lower-case qualifier on keys and comparisons of names',
 'C04': 'flow-sensitive interprocedural dataflow of unspecified order and unrepeatable values to results, attributes, errors and output',
 'C05': AI + 'typestate of the target file (rendered and encoded before opened)',
 'C06': AI + 'ordering of identity update, rendering and write on every path',
 'C07': AI + 'encoding obligations of every text-mode file access',
 'C08': AI + 'effect analysis: file-modifying calls per entry point, existence guard',
 'C09': AI + 'taint from document data to execution primitives',
 'C10': AI + 'effect analysis: stdout writes and process exit in library code',
 'C11': AI + 'exception flow: handlers that swallow load failures',
 'C12': AI + 'guard dominance of the recursive read on the chain of documents',
 'C13': AI + 'paired updates of both sides of the ownership relations',
 'C14': AI + 'path enumeration of row and cell filters',
 'C15': AI + 'loop-carried state per kind of row',
 'C16': AI + 'totality of emission per path, name transformation, escape pairing',
 'C17': AI + 'suffix guards and renderer dispatch on every path',
 'C18': AI + 'nullness of lookup results',
 'C19': AI + 'qualified-name qualifier on keys of declaration and class tables',
 'C20': AI + 'cache invalidation and publication of declaration tables',
 'C25': AI + 'provenance of paths and locations of terms through nested reads',
 'C31': AI + 'per-path selection conditions of searches; constant propagation of the name match',
 'C32': 'constant propagation over every path for a table of name parts, versions and changes',
 'C33': AI + 'the shape of the result per property type and sequence of child names, with symbolic values',
 'C34': AI + 'exact list and dict contents at the end of every path of an edit, for a table of trees and names',
 'C21': 'purity analysis of assert conditions over the call graph',
 'C22': 'symbol tables, import resolution and attribute/arity resolution over inferred types',
 'C23': 'partial evaluation of attribute assignment per structural attribute; definite initialisation of attributes',
 'C24': 'constant propagation over MetatabUrl per class of file format',
}
NA = {
 'C30': 'equality of two documents of unbounded size after two transformations; no static argument in reach bounds the '
        'string contents. The losses that can be decided (dropped rows, unescaped separators, names changed) are C14 and C16.',
}
NOTE = ('Sound up to the abstractions listed in the evidence notes: the analysis reads every function of the package on '
        'every run, follows helpers in place, and reports the construct that breaks the rule. It assumes Python semantics '
        'without monkey patching, and the documented behaviour of external libraries.')
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'sa', 'rules', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique=TECH[i], level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Static analysis only; no hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks', len(na), 'not applicable')
