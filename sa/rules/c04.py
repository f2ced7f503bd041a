"""C04 Results are deterministic: what unspecified order and unrepeatable values reach."""
import ast

from ..common import *
from ..order import Order


def unused(prog):
    """Helpers of util that nothing else of the package refers to: what they do is not part of any result."""
    used = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            own = m.name.endswith('.util')
            if isinstance(n, ast.Name) and not own:
                used.add(n.id)
            elif isinstance(n, ast.Attribute) and not own:
                used.add(n.attr)
            elif isinstance(n, (ast.ImportFrom,)):
                used |= {a.name for a in n.names}
    out = []
    for f in prog.funcs.values():
        if f.module.name.endswith('.util') and f.cls is None and f.qual.split('.')[0] not in used:
            out.append(f)
    return out


def run(prog, ck, thorough):
    ck.rule('result', 'what a public function or method returns or yields is not in the order of a set or of a directory listing, '
                      'and does not depend on random numbers, the clock, the process, hashes or addresses', 60)
    ck.rule('kept', 'what is kept in public attributes and in containers does not depend on the order of a set or on an '
                    'unrepeatable value; only the identifier of a document that has none is random', 20)
    ck.rule('loop', 'a loop over a set only does what comes out the same in every order', 0)
    ck.rule('source', 'where unrepeatable values are made, none reaches a result', 0)
    ck.rule('error', 'an error message does not depend on the order of a set or on an unrepeatable value', 0)
    ck.rule('output', 'what is printed or written does not depend on the order of a set or on an unrepeatable value', 0)
    ck.rule('decision', 'no decision depends on an unrepeatable value', 0)
    o = Order(prog)
    skip = unused(prog)
    o.run(skip)
    for r in sorted(o.obs):
        ck.ob(*r)
    for rule, where, construct, msg in o.findings.values():
        ck.report(Finding(rule, where, construct, msg))
    ck.functions.update(o.functions)
    ck.add(functions=len(o.functions), attributes_tracked=len(o.attrs), helpers_not_used_by_the_package=len(skip))
