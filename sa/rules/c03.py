"""C03 Section, term and property names are case-insensitive."""
from ..common import *

PASSES = 2      # of loop bodies

# tables with lower case names as keys
TABLES = {'sections', 'decl_sections', 'decl_terms', 'super_terms', 'derived_terms', '_declared_terms', '_declared_sections',
          'term_classes', 'synonyms', '_common_properties', 'section_map', '_declared_super_terms'}
TABLE_ATOMS = {'TermParser.synonyms', 'TermParser.super_terms', 'TermParser.derived_terms', 'TermParser.declared_terms',
               'TermParser.declared_sections', 'MetatabDoc.super_terms', 'Term.props', 'Term.arg_props', 'Term.all_props'}
LC_ATOMS = {'Term.record_term_lc', 'Term.parent_term_lc', 'Term.join_lc', 'Term.join', 'Term.normalize_term',
            'Term.split_term_lower', 'Term.qualified_term', 'Term.record_term', 'Term.parent_term'}
LC_ATTRS = {'record_term', 'parent_term'}
KEEP = {'strip', 'lstrip', 'rstrip', 'str', 'replace', 'slice', 'split', 'rsplit', 'join', '+', 'fmt', 'partition', 'rpartition',
        'removeprefix', 'removesuffix', 'format', 'list', 'tuple', 'set', 'sorted', 'intern'}
NAMES = {'SectionTerm.name'}
# properties of a declaration that are names, as they were spelled
NAME_PROPS = {'terms', 'inheritsfrom', 'term', 'section', 'valuesetname', 'synonym', 'termvaluename'}
COLUMNS = {'SectionTerm.property_names', 'Term.property_names'}


def lc(v, depth=0):
    """True: v is lower case for sure; False: v may have upper case letters for sure; None: unknown."""
    if depth > 12:
        return None
    t = v[0]
    if t == 'c':
        c = cval(v)
        return c == c.lower() if isinstance(c, str) else True
    if t == 'phi':
        rs = [lc(m, depth + 1) for m in v[1]]
        return False if False in rs else None if None in rs else True
    if t == 't':
        rs = [lc(m, depth + 1) for m in v[1:]]
        return False if False in rs else None if None in rs else True
    if t == 'o':
        if v[1] in ('lower', 'casefold', 'len', 'int'):
            return True
        if v[1] in ('title', 'upper', 'capitalize', 'swapcase'):
            return False
        if v[1] in KEEP:
            rs = [lc(m, depth + 1) for m in v[2:] if isinstance(m, tuple)]
            return False if False in rs else None if None in rs else True
        return None
    if t == 'x':
        if v[1] in LC_ATOMS or v[1].split('.')[-1] in ('lower', 'casefold', 'int', 'len'):
            return True
        if v[1] in NAMES:
            return False
        if v[1] in ('str', 're.sub', '.strip', '.replace', 'sorted', 'list', 'tuple', 'set'):
            rs = [lc(m, depth + 1) for m in v[2] if isinstance(m, tuple)]
            return False if False in rs else None if None in rs else True
        if v[1] in TABLE_ATOMS:
            return True
        if v[1] == 'Term.split_term' and len(v[2]) > 1:
            return lc(v[2][1], depth + 1)
        if v[1] == 'MetatabDoc.section_args' or v[1] in COLUMNS:
            return False
        return None
    if t == 'a':
        if v[2] in LC_ATTRS:
            return True
        if v[2] == 'value':
            return False
        if v[2] in TABLES:
            return True
        if v[2] in ('args', 'term_args'):
            return False
        if v[2] == '_param_map':
            return True
        if v[2] == 'name':
            return False
        return None
    if t == 'k':
        return lc(v[1], depth + 1)
    if t == 'e':
        # an element of a container that is itself a table of names
        return lc(v[1], depth + 1) if v[1][0] in ('p', 'x', 'o', 'a', 't', 'phi') else None
    if t == 'i':
        if is_const(v[2]) and cval(v[2]) in NAME_PROPS:
            return False
        if v[1][0] == 'x' and v[1][1] in LC_ATOMS | {'Term.split_term'} or v[1][0] == 'o':
            return lc(v[1], depth + 1)
        if v[1][0] == 'a' and v[1][2] == '_param_map':
            return True
        if table(v[1]) and v[1][0] == 'a' and v[1][2] == 'super_terms' or v[1][0] == 'x' and v[1][1] in (
                'TermParser.super_terms', 'TermParser.synonyms'):
            return True
        if v[1][0] == 'e' and v[1][1][0] == 'x' and v[1][1][1] in ('YamlMetatabSource.yield_dict', 'Term.rows') and v[2] == C(0):
            return True
        return None
    if t == 'p':
        return False
    return None


def table(b):
    return b[0] == 'a' and b[2] in TABLES or b[0] == 'x' and b[1] in TABLE_ATOMS


def isname(v):
    """v is a name that was given by a caller or taken from a document as it is."""
    if v[0] == 'p':
        return v[1] in ('item', 'name', 'term', 'section', 'section_name', 'term_name', 'arg', 'prop', 'column', 'tn', 'sn')
    if v[0] == 'x':
        return v[1] in NAMES
    if v[0] == 'e':
        return isname(v[1]) or v[1][0] == 'a' and v[1][2] == 'args' or v[1][0] == 'x' and v[1][1] in COLUMNS or \
            v[1] == ('p', 'order')
    if v[0] == 'i' and v[1][0] == 'o' and v[1][1] == 'split':
        return isname(v[1])
    if v[0] == 'o' and v[1] in ('strip', 'str', 'split', 'title', 'upper', 'replace', 'slice') and len(v) > 2:
        return isname(v[2])
    return False


def name_part(v):
    """v is the name of a term, or a part of it, as it was spelled."""
    if lc(v) is True:
        return False
    if isname(v):
        return True
    if v[0] == 'o' and v[1] in KEEP:
        return any(name_part(w) for w in v[2:] if isinstance(w, tuple))
    if v[0] == 'x' and v[1] == 'Term.split_term':
        return True
    if v[0] == 'i' and is_const(v[2]) and cval(v[2]) in NAME_PROPS:
        return True
    return v[0] in ('i', 'e') and name_part(v[1])


def alpha(v):
    return is_const(v) and isinstance(cval(v), str) and any(c.isalpha() for c in cval(v)) and not cval(v).startswith('__')


def run(prog, ck, thorough):
    ck.rule('table', 'a table of section, term or property names is consulted and filled with lower case names only', 15)
    ck.rule('compare', 'a name that was made lower case is compared with lower case names only', 10)
    ck.rule('raw', 'names are not compared as they were spelled', 1)
    ck.rule('stored', 'the parts of the name of a term are stored in lower case, and the tables and maps of names that other '
                      'functions return are lower case', 3)
    ck.notes.append('attribute access with Python identifiers (__getattr__, __setattr__ of the fields of a term) is not a lookup '
                    'of a name of the document')
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], []
        short = f.qual.split('.')[-1]
        locator = short.endswith('_doc') and short.startswith('find')     # takes names of files and URLs

        def bad(rule, ev, what, text, it):
            findings.append(Finding(rule, ev.where, what, '%s: %s' % (f.qual, text), it.chain()))

        def o(ev, st, it):
            k = ev.kind
            if k == 'KEY':
                b, key, how = ev.args[:3]
                if is_const(key) and not isinstance(cval(key), str):
                    return
                if table(b):
                    r = lc(key)
                    obs.append(('table', '%s: %s of %s' % (f.qual, how, show(b)[:60])))
                    if r is False:
                        bad('table', ev, show(b)[:60], '%s is accessed (%s) with the name %s as it was spelled' % (
                            show(b)[:60], how, show(key)[:80]), it)
                elif b[0] in ('n', 'p', 't', 'phi', 'x', 'e') and how in ('in', 'get', 'load', '__delitem__', 'pop'):
                    held = held_of(b, st, it)
                    if held is not None:
                        compare(ev, key, held, st, it)
            elif k == 'CMP':
                if ev.args[0] == '==':
                    compare(ev, ev.args[1], ev.args[2], st, it)
            elif k == 'COND' and not locator:
                for w in walk(ev.args[0]):
                    if w[0] == 'o' and w[1] in ('startswith', 'endswith') and len(w) > 3 and alpha(w[3]) and isname(w[2]) and \
                            lc(w[2]) is False and short not in ('__getattr__', '__setattr__'):
                        bad('raw', ev, w[1], '%s is tested with %s(%s) as it was spelled' % (show(w[2])[:60], w[1], show(w[3])), it)
                    if w[0] == 'o' and w[1] in ('startswith', 'endswith') and len(w) > 3 and not is_const(w[3]):
                        for a, b in ((w[2], w[3]), (w[3], w[2])):
                            if lowered(a) and lc(b) is False or name_part(a) and name_part(b):
                                bad('raw', ev, w[1], '%s and %s are compared (%s) as they were spelled' % (
                                    show(w[2])[:60], show(w[3])[:60], w[1]), it)
                                break
                    if w[0] == 'o' and w[1] == 'in' and alpha(w[2]) and isname(w[3]) and lc(w[3]) is False:
                        bad('raw', ev, w[1], '%s is searched for %s as it was spelled' % (show(w[3])[:60], show(w[2])), it)
            elif k == 'STORE':
                b, attr, v = ev.args[:3]
                if attr in LC_ATTRS:
                    obs.append(('stored', '%s: %s' % (f.qual, attr)))
                    if lc(v) is False:
                        bad('stored', ev, attr, '%s is stored as %s, which is not lower case' % (attr, show(v)[:80]), it)
                elif attr == '_param_map':
                    el = it.content(st, v)
                    obs.append(('stored', '%s: %s' % (f.qual, attr)))
                    if el[0] != 'u' and lc(el) is False:
                        bad('stored', ev, attr, 'the column names are stored as %s, which is not lower case' % show(el)[:80], it)
                elif attr in TABLES and v[0] == 'n':
                    keys = st.heap.get((v, '{k}'))
                    if keys is not None:
                        obs.append(('stored', '%s: %s' % (f.qual, attr)))
                        if lc(keys) is False:
                            bad('stored', ev, attr, 'the names in %s are stored as %s, which is not lower case' % (attr, show(keys)[:80]), it)
            elif k == 'YIELD' and f.qual == 'YamlMetatabSource.yield_dict':
                v = ev.args[0]
                if v[0] == 't':
                    obs.append(('stored', f.qual))
                    if lc(v[1]) is False or lc(v[1]) is None and any(w[0] == 'k' for w in walk(v[1])):
                        bad('stored', ev, 'yield', 'the name is passed on as %s, which is not lower case' % show(v[1])[:80], it)

        def held_of(b, st, it):
            if b[0] == 'n':
                return st.heap.get((b, '{k}')) if b[1] in ('dict', 'OrderedDict') else st.heap.get((b, '[]'))
            if b[0] == 't':
                return phi(b[1:]) if len(b) > 1 else None
            if b[0] == 'p':
                return ('e', b)
            if b[0] == 'x' and b[1] in COLUMNS:
                return ('e', b)
            return None

        def lowered(v):
            """v is a name that was made lower case."""
            for m in members(v):
                if m[0] == 'c':
                    continue
                if lc(m) is not True:
                    return False
                if not any(w[0] == 'o' and w[1] in ('lower', 'casefold') or w[0] == 'x' and w[1] in LC_ATOMS or
                           w[0] == 'a' and w[2] in LC_ATTRS or w[0] == 'k' and table(w[1]) for w in walk(m)):
                    return False
            return any(m[0] != 'c' for m in members(v))

        def compare(ev, a, b, st, it):
            for x_, y_ in ((a, b), (b, a)):
                if lowered(x_):
                    obs.append(('compare', '%s: %s' % (f.qual, show(x_)[:60])))
                    for m in members(y_):
                        if lc(m) is False:
                            bad('compare', ev, show(x_)[:60], '%s, which is lower case, is compared with %s as it was spelled' % (
                                show(x_)[:60], show(m)[:80]), it)
                    return
            if short in ('__setattr__', '__getattr__') or locator:
                return
            for x_, y_ in ((a, b), (b, a)):
                if isname(x_) and lc(x_) is False:
                    for m in members(y_):
                        if isname(m) or alpha(m):
                            obs.append(('raw', '%s: %s, %s' % (f.qual, show(x_)[:40], show(m)[:40])))
                            if alpha(m) and x_[0] == 'x' and x_[1] == 'SectionTerm.name' and cval(m) == 'Root':
                                continue        # the name of the root section is always spelled like that
                            if alpha(m) and cval(m) == '*':
                                continue
                            bad('raw', ev, show(x_)[:60], '%s is compared with %s as they were spelled' % (show(x_)[:60], show(m)[:80]), it)

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        for st, kind, v in it.run(f):
            if kind == 'return' and isinstance(v, tuple) and f.qual in TABLE_ATOMS | {'TermParser.declare_dict'} and v[0] == 'n':
                keys = st.heap.get((v, '{k}'))
                if keys is not None and f.qual != 'TermParser.declare_dict':
                    obs.append(('stored', '%s returns %s' % (f.qual, show(keys)[:60])))
                    if lc(keys) is False:
                        findings.append(Finding('stored', (f.module.path, f.qual, f.node.lineno), 'keys',
                                                '%s: the names in the table that is returned are %s, which is not lower case' % (
                                                    f.qual, show(keys)[:80])))
            if kind == 'return' and isinstance(v, tuple) and f.qual in LC_ATOMS and lc(v) is False and f.qual not in (
                    'Term.split_term_lower',):
                findings.append(Finding('stored', (f.module.path, f.qual, f.node.lineno), 'result',
                                        '%s: returns %s, which is not lower case' % (f.qual, show(v)[:80])))
        return pack(it, findings, obs)

    sweep(ck, entries(prog), job, label=lambda f: f.qual)
