"""C01 Lookups and renderings never change the document."""
from ..common import *

PASSES = 2      # of loop bodies

READ = {
    'metatab.doc': ['MetatabDoc.' + n for n in (
        'ref path cache mtime as_version doc_dir section_args get_section __getitem__ __contains__ __iter__ find '
        'find_first find_first_value get get_value get_term_class resolve_url _has_semver as_dict rows lines all_terms '
        'as_csv as_lines _write_path').split()],
    'metatab.terms': ['Term.' + n for n in (
        'section split_term split_term_lower file_ref find find_first find_first_value find_value __getitem__ '
        '__contains__ __getattr__ get get_value term normalize_term join join_lc record_term_lc parent_term_lc '
        'qualified_term term_is is_arg_child is_terminal has_elided_parent props arg_props all_props property_names '
        'as_dict _convert_to_dict rows descendents __iter__ __repr__ __str__ nonterminal_children').split()] + [
        'SectionTerm.' + n for n in (
            'name property_names get_term find_first find find_first_value __getitem__ __iter__ _args rows lines '
            'as_lines as_dict').split()] + ['RootSectionTerm.as_dict'],
    'metatab.parser': ['TermParser.' + n for n in (
        'path doc declared_sections declared_terms synonyms super_terms get_term_class errors_as_dict').split()],
    'metatab.datapackage': ['convert_to_datapackage'],
    'metatab.cli': ['get_table'],
}
STATE = set('terms sections decl_terms decl_sections super_terms derived_terms errors root decls value args children '
            'parent _section section doc _doc term _term _orig_term parent_term record_term term_value_name '
            'child_property_type valid options file_name file_type row col header_args default_term_value_name '
            '_declared_terms _declared_sections _param_map __dict__ __class__ package_url resolver _ref'.split())
SCALAR = set('value term _term record_term parent_term row col file_name term_value_name'.split())
# verified on their own, so a call of one of them is not followed
HEAVY = set('''MetatabDoc.find MetatabDoc.find_first MetatabDoc.find_first_value MetatabDoc.get MetatabDoc.get_value
MetatabDoc.as_dict MetatabDoc.rows MetatabDoc.lines MetatabDoc.all_terms MetatabDoc.as_csv MetatabDoc.as_lines
MetatabDoc.get_term_class TermParser.get_term_class MetatabDoc._has_semver MetatabDoc._write_path
Term.find Term.find_first Term.find_first_value Term.__getitem__ Term.__getattr__ Term.get Term.get_value Term.props
Term.arg_props Term.all_props Term._convert_to_dict Term.rows Term.descendents Term.__repr__ Term.__str__ Term.term_is
SectionTerm.rows SectionTerm.lines SectionTerm.find SectionTerm.find_first SectionTerm.find_first_value
SectionTerm.get_term SectionTerm.__getitem__ TermParser.synonyms TermParser.super_terms TermParser.errors_as_dict
slugify declaration_path get_cache import_name_or_class'''.split())
INPLACE = {'random.shuffle': 0, 'heapq.heapify': 0, 'heapq.heappush': 0, 'heapq.heappop': 0, 'bisect.insort': 0,
           'bisect.insort_left': 0, 'bisect.insort_right': 0, 'operator.setitem': 0, 'operator.delitem': 0,
           'operator.iadd': 0, 'operator.iconcat': 0}
SHALLOW = ('copy.copy',)


def state_path(v):
    """Attributes on the way from the root of v to v."""
    out = []
    while True:
        if v[0] == 'a':
            out.append(v[2])
            v = v[1]
        elif v[0] in ('e', 'k', 'i', 'm'):
            v = v[1]
        elif v[0] == 'x' and v[2]:
            q = v[1][4:] if v[1].startswith('rec:') else v[1]
            t = RET.get(q, LOOKUPS.get(q))
            if t is not None and t not in ('str', 'dict', 'bool', 'any'):
                out.append('children')
            v = v[2][0]
        else:
            return out


def owner(it, st, v):
    """'param:<name>' when the object v is part of what the caller handed in."""
    if v[0] == 'phi':
        rs = sorted({owner(it, st, m) for m in v[1]})
        for r in rs:
            if r.startswith('param'):
                return r
        return rs[0]
    if v[0] == 'p':
        return 'param:' + v[1]
    if v[0] in ('a', 'e', 'k', 'i', 'm'):
        b = v[1]
        if b[0] == 'x' and b[1] in SHALLOW and b[2]:
            return owner(it, st, b[2][0])
        r = owner(it, st, b)
        return r[len('fresh-of:'):] if r.startswith('fresh-of:') else r
    if v[0] == 'x':
        q = v[1][4:] if v[1].startswith('rec:') else v[1]
        t = RET.get(q, LOOKUPS.get(q))
        if t is not None and v[2] and q not in ('Term.new_child', 'SectionTerm.new_term'):
            r = owner(it, st, v[2][0])
            if isinstance(t, tuple) and t[0] == 'list':
                return 'fresh-of:' + r if r.startswith('param') else r
            if t in ('Term', 'SectionTerm', 'MetatabDoc'):
                # a new object may still list terms of the document
                for a in ('children', 'terms'):
                    if v[2][0][0] == 'n' and (v[2][0], a) in st.heap:
                        for m in members(st.heap[(v[2][0], a)]):
                            c = owner(it, st, it.content(st, m)) if m[0] == 'n' else owner(it, st, m)
                            if c.startswith('param'):
                                return c
                return r
    return it.owner_root(st, v)


def run(prog, ck, thorough):
    ck.rule('read-only', 'a read operation neither assigns to, deletes from nor modifies in place anything of the document, '
                         'section, term or parser it was called on or given; it modifies only objects it created itself', 60)
    ck.notes += ['attributes that are not part of the observable document (memo attributes a refactoring may add) are not '
                 'counted as document state',
                 'a change that is undone later in the same call is still reported: an error in between would leave it']
    at = boundaries(prog)
    at = {q: t for q, t in at.items() if q in HEAVY}
    names = {q for l in READ.values() for q in l}
    items = []
    for f in base(prog):
        if f.module.name in READ and f.qual in READ[f.module.name] and top(f):
            items.append(f)

    def job(f, cap):
        findings = []

        def bad(ev, st, it, b, what, attr=None):
            for m in members(b):
                r = owner(it, st, m)
                if not r.startswith('param'):
                    continue
                path = state_path(m)
                if attr is not None:
                    hit = attr in STATE
                else:       # values, names and places are not containers
                    hit = any(a in STATE for a in path) and not (m[0] == 'a' and m[2] in SCALAR)
                if hit:
                    findings.append(Finding('read-only', ev.where, '%s %s' % (what, show(m)[:80]),
                                            '%s %s %s' % (f.qual, what, show(m) + ('.' + attr if attr else '')), it.chain()))

        def o(ev, st, it):
            if it.assert_depth:
                return
            k = ev.kind
            if k == 'STORE':
                a = ev.args[1]
                if not isinstance(a, str):
                    a = cval(a) if is_const(a) else 'value'
                bad(ev, st, it, ev.args[0], 'assigns to', a)
            elif k == 'DELATTR':
                a = cval(ev.args[1]) if is_const(ev.args[1]) else 'value'
                bad(ev, st, it, ev.args[0], 'deletes', a)
            elif k == 'MUT':
                bad(ev, st, it, ev.args[0], 'modifies (%s)' % ev.args[1])
            elif k == 'XCALL':
                name, recv, args, kw = ev.args[:4]
                if name in INPLACE and args:
                    bad(ev, st, it, args[0], 'modifies (%s)' % name)
                elif '.' in name and name.split('.')[0] in ('list', 'dict', 'set', 'OrderedDict') and \
                        name.split('.')[-1] in MUT and args:
                    bad(ev, st, it, args[0], 'modifies (%s)' % name)

        it = Interp(prog, atoms={q: t for q, t in at.items() if q != f.qual}, cap=cap, observers=[o])
        it.run(f)
        return pack(it, findings, [('read-only', f.module.name + ':' + f.qual)])

    from ..interp import MUTATORS as MUT
    sweep(ck, items, job, label=lambda f: f.qual, caps=(48, 8, 2))
