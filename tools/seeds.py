SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


PRE = '''
import os, sys, tempfile, shutil
from metatab import MetatabDoc, TermParser
from metatab.terms import Term, SectionTerm
from rowgenerators import get_generator


def load(text):
    from metatab.rowgen import TextRowGenerator
    return MetatabDoc(TextRowGenerator(text))

'''

seed('C01-as-dict-root', 'C01', 'conversion to a dict of a document that has another section with terms, then looking at its sections',
     'as_dict moves the terms of every section into the root section of the document',
     [('doc.py', """        r = RootSectionTerm(doc=self)

        for s in self:  # Iterate over sections
            for t in s:  # Iterate over the terms in each section.
                r.terms.append(t)
""", """        r = self.root

        for s in self:  # Iterate over sections
            if s is not r:
                r.terms.extend(t for t in s if t not in r.terms)
""")],
     PRE + '''
doc = load("Title: x\\nSection: Resources|Name\\nDatafile: y|z\\n")
before = doc.as_csv()
doc.as_dict()
assert doc.as_csv() == before, doc.as_csv()
''')

seed('C02-sort-order', 'C02', 'sorting the sections with a list that the caller keeps',
     'the list of names that the caller passed in is changed',
     [('doc.py', "        order_lc = [e.lower() for e in order]\n",
       "        for i, e in enumerate(order):\n            order[i] = e.lower()\n\n        order_lc = order\n")],
     PRE + '''
doc = MetatabDoc()
doc.new_section('Schema'); doc.new_section('Resources')
names = ['Resources', 'Schema']
doc.sort_sections(names)
assert names == ['Resources', 'Schema'], names
''')

seed('C05-cli-encode', 'C05', 'write in place with text that cannot be encoded, onto an existing file',
     'the target is opened, and so truncated, before the document is rendered',
     [('doc.py', """        return self._write(self.as_lines(), path)
""", """        with path.open('wb') as f:
            f.write(self.as_lines().encode('utf8'))

        return path
""")],
     PRE + '''
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'm.txt')
    doc = MetatabDoc()
    doc['Root'].new_term('Root.Title', 'x')
    doc.write_lines(p)
    old = open(p, 'rb').read()
    doc['Root'].new_term('Root.Description', 'bad \\udcff')
    try:
        doc.write_lines(p)
    except Exception:
        pass
    assert open(p, 'rb').read() == old
finally:
    shutil.rmtree(d)
''')

seed('C17-txt-suffix', 'C17', 'writing the lines form to a path with another text extension',
     'the lines form is written to paths that are not .txt',
     [('doc.py', "        if path.suffix != '.txt':\n", "        if not path.suffix.startswith('.t'):\n")],
     PRE + '''
d = tempfile.mkdtemp()
try:
    doc = MetatabDoc()
    try:
        doc.write_lines(os.path.join(d, 'm.tsv'))
    except Exception:
        pass
    assert os.listdir(d) == [], os.listdir(d)
finally:
    shutil.rmtree(d)
''')

seed('C10-print-loop', 'C10', 'a term with an unknown parent',
     'the parser prints to standard output before it raises',
     [('parser.py', """                        except KeyError:
                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
""", """                        except KeyError as e:
                            print(t, 'has no parent', e)
                            raise ParserError("No parent term for '{}' in term '{}', row {}"
""")],
     PRE + '''
import io, contextlib
s = io.StringIO()
with contextlib.redirect_stdout(s):
    try:
        load("Title: x\\nFoo.Bar: y\\n")
    except Exception as e:
        pass
assert s.getvalue() == '', s.getvalue()
''')

FILES = '''
d = tempfile.mkdtemp()


def put(name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w', encoding='utf8') as f:
        f.write(text)
    return p

'''

seed('C03-remove-arg', 'C03', 'removing a section column by a spelling that str.title does not give, such as DataType',
     'the column is only removed when it is spelled as str.title spells it',
     [('terms.py', "            if arg_.lower() == arg.lower():\n", "            if arg_ in (arg, arg.title()):\n")],
     PRE + '''
doc = load("Section: Schema|DataType|Description\\nTable: x\\n")
doc['Schema'].remove_arg('datatype')
assert doc['Schema'].args == ['Description'], doc['Schema'].args
''')

seed('C04-sort-sections', 'C04', 'sorting sections when two or more are not in the list, with another hash seed',
     'the sections that are not in the list come in the order of a set',
     [('doc.py', "        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n",
       "        sections.update((k, self.sections[k]) for k in self.sections.keys() - set(order_lc))\n")],
     '''
import os, subprocess, sys
code = """
from metatab import MetatabDoc
doc = MetatabDoc()
for n in ('Resources', 'Schema', 'Contacts', 'Documentation', 'References', 'Notes'):
    doc.new_section(n)
doc.sort_sections(['Root'])
print(list(doc.sections))
"""
outs = set()
for seed in range(8):
    r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True)
    outs.add(r.stdout)
assert len(outs) == 1, outs
''')

seed('C06-identifier', 'C06', 'writing a document whose identifier does not look like a UUID',
     'the identifier that the document has is replaced when it is written',
     [('doc.py', "        if not identifier.value:\n            identifier.value = str(uuid4())\n",
       "        if not identifier.value or len(identifier.value.split('-')) != 5:\n            identifier.value = str(uuid4())\n")],
     PRE + '''
doc = load("Title: x\\nIdentifier: example.com-thing\\n")
doc.cleanse()
assert doc.find_first_value('Root.Identifier') == 'example.com-thing', doc.find_first_value('Root.Identifier')
''')

seed('C07-write-text', 'C07', 'writing a document with other than ASCII text in a locale that is not UTF-8',
     'the file is written in the encoding of the locale',
     [('doc.py', "        with path.open('wb') as f:\n            f.write(content)\n",
       "        with path.open('w', newline='') as f:\n            f.write(content.decode('utf8'))\n")],
     PRE + FILES + '''
import subprocess
try:
    code = """
import sys
from metatab import MetatabDoc
doc = MetatabDoc()
doc['Root'].new_term('Root.Title', 'caf' + chr(233))
doc.write_csv(sys.argv[1])
"""
    p = os.path.join(d, 'm.csv')
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    r = subprocess.run([sys.executable, '-c', code, p], env=env, capture_output=True, text=True)
    assert r.returncode == 0 and 'caf\\u00e9' in open(p, encoding='utf8').read(), r.stderr
finally:
    shutil.rmtree(d)
''')

seed('C11-declare-missing', 'C11', 'a declaration document that cannot be found',
     'the document is loaded without the declarations',
     [('parser.py', "                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:\n",
       "                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:\n"
       "                        if t.term_is('declare'):\n                            continue\n\n")],
     PRE + FILES + '''
try:
    put('decl.csv', 'Include,missing.csv\\n')
    p = put('m.csv', 'Declare,decl\\nTitle,x\\n')
    os.remove(os.path.join(d, 'decl.csv')) if False else None
    put('sub/decl2.csv', 'Title,y\\n')
    from metatab.parser import TermParser as P
    orig = P.find_declare_doc

    def find(self, dd, name):
        from rowgenerators import parse_app_url
        return parse_app_url(os.path.join(d, 'gone.csv'))

    P.find_declare_doc = find
    try:
        MetatabDoc(p)
    except Exception:
        pass
    else:
        raise AssertionError('loaded without its declarations')
finally:
    shutil.rmtree(d)
''')

seed('C13-remove-root-child', 'C13', 'removing a top level term that was parsed from a document, then looking at the children of the root',
     'the term is no longer listed by the document, but still by its parent',
     [('doc.py', "        if t.parent:\n            try:\n                t.parent.remove_child(t)\n",
       "        if t.parent and t.parent_term_lc != 'root':\n            try:\n                t.parent.remove_child(t)\n")],
     PRE + '''
doc = load("Title: x\\nName: y\\n")
t = doc.find_first('Root.Title')
doc.remove_term(t)
assert t not in doc.root.children
''')

seed('C14-blank-cells', 'C14', 'a row with a blank cell before a cell with text',
     'the cell after the blank one becomes the property of another column',
     [('parser.py', "                         row[2:] if len(row) > 2 else [],\n", "                         [e for e in row[2:] if str(e).strip()],\n")],
     PRE + '''
doc = load("Section: Resources|Name|Description\\nDatafile: x||text\\n")
t = doc.find_first('Root.Datafile')
assert t.get_value('description') == 'text' and t.get_value('name') is None, t.props
''')

seed('C15-same-section', 'C15', 'a section that is continued after a header row',
     'the columns of the header stay in force in the next section of the same name',
     [('parser.py', "                    self._param_map = munge_param_map(t)\n                    # Parentage should not persist across sections\n",
       "                    if t is not last_section:\n                        self._param_map = munge_param_map(t)\n"
       "                    # Parentage should not persist across sections\n")],
     PRE + '''
doc = load("Section: Resources|Name\\nHeader: Datafile|Title\\nDatafile: x|y\\nSection: Resources|Name\\nDatafile: z|w\\n")
ts = doc.find('Root.Datafile')
assert ts[1].get_value('name') == 'w', [t.props for t in ts]
''')

seed('C16-empty-parent', 'C16', 'a child with children of its own whose value is empty',
     'the rows of the child and its properties are not written',
     [('terms.py', "            if not c.is_terminal:\n                for row in c.rows:\n",
       "            if not c.is_terminal and c.value:\n                for row in c.rows:\n")],
     PRE + '''
doc = load("Section: Contacts\\nContact: x\\n.Address:\\nAddress.Street: s\\nAddress.City: c\\n")
assert 'Street' in doc.as_lines().title(), doc.as_lines()
''')

seed('C18-find-first', 'C18', 'asking for the value of a term that the document does not have',
     'the missing term is used as if it had been found',
     [('doc.py', "        term = self.find_first(term, value=False, section=section)\n\n        if term is None:\n            return default\n        else:\n            return term.value\n",
       "        term = self.find_first(term, value=False, section=section)\n\n        if term is None and default is not None:\n            return default\n        else:\n            return term.value\n")],
     PRE + '''
doc = load("Title: x\\n")
assert doc.get_value('Root.Version') is None
''')

seed('C19-derived', 'C19', 'a top level term that inherits from another, looked up by the unqualified name of that one',
     'derived terms are only found by the qualified name',
     [('doc.py', "        term = terms\n" if False else "            term = term.lower()\n\n            found = []\n\n            if not '.' in term:\n                term = 'root.' + term\n",
       "            term = term.lower()\n\n            found = []\n"),
      ('doc.py', "                t = Term.normalize_term(t)\n", "                t = t.lower()\n")],
     PRE + '''
doc = load("Title: x\\nName: y\\n")
assert len(doc.find('Title')) == len(doc.find('Root.Title')) == 1
''')

seed('C20-clear-cache', 'C20', 'a term that inherits from a term with a registered class, in a document where a term was looked up before',
     'the super terms from before the declaration are still used for the choice of the class',
     [('parser.py', "            self.add_value_set_value(t)\n\n        self.super_terms.cache_clear()\n", "            self.add_value_set_value(t)\n\n            self.super_terms.cache_clear()\n")],
     PRE + FILES + '''
class Special(Term):
    pass


TermParser.register_term_class('root.basething', Special)
try:
    put('decl.csv', 'Section,Declaredterms,Section,InheritsFrom\\nDeclareSection,Things\\nDeclareTerm,Root.BaseThing,Things\\n'
                    'DeclareTerm,Root.SubThing,Things,Root.BaseThing\\n')
    p = put('m.csv', 'Declare,decl\\nSection,Things\\nSubThing,x\\n')
    doc = MetatabDoc(p)
    t = doc.find_first('Root.SubThing')
    assert isinstance(t, Special), type(t)
finally:
    TermParser.unregister_term_class('root.basething')
    shutil.rmtree(d)
''')

seed('C21-assert-update', 'C21', 'sorting the sections with assertions disabled',
     'the sections that are not in the list are dropped when assertions are disabled',
     [('doc.py', "        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n\n        assert len(self.sections) == len(sections)\n",
       "        assert not sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n")],
     '''
import os, subprocess, sys
code = """
from metatab import MetatabDoc
doc = MetatabDoc()
doc.new_section('Resources'); doc.new_section('Schema')
doc.sort_sections(['Schema'])
print(sorted(doc.sections))
"""
outs = [subprocess.run([sys.executable] + o + ['-c', code], env=dict(os.environ), capture_output=True, text=True).stdout for o in ([], ['-O'])]
assert outs[0] == outs[1] and outs[0].strip(), outs
''')

seed('C22-kwargs', 'C22', 'setting a term of a section with properties',
     'a method that does not exist is called',
     [('terms.py', "            self.new_term(k,value,**props)\n", "            self.new_term(k, value).set_children(**props)\n")],
     PRE + '''
doc = MetatabDoc()
doc['Root'].set_terms(title=('x', {'lang': 'en'}))
assert doc.find_first('Root.Title').get_value('lang') == 'en'
''')

seed('C23-row', 'C23', 'a section with a column named Row or Parent, and assigning that attribute of a term',
     'the assignment creates a property instead of setting the attribute',
     [('terms.py', "        elif item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n",
       "        elif item.lower() in [e.lower() for e in self.property_names] and item.islower():\n            self[item] = value\n\n"
       "        elif item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n"),
      ('terms.py', "        elif item != 'value' and (item in self.__dict__", "        elif item != 'value' and item not in ('row', 'col') and (item in self.__dict__")],
     PRE + '''
doc = load("Section: Schema|Row|Name\\nTable: x|7|n\\n")
t = doc.find_first('Root.Table')
t.row = 99
assert t.__dict__['row'] == 99 and t.get_value('row') != 99, (t.__dict__['row'], t.props)
''')

seed('C24-ipynb', 'C24', 'the metatab URL of a notebook',
     'the target format does not match the target file',
     [('appurl.py', "        if self.resource_format in self.simple_file_formats:\n            return self.resource_format\n        elif self.resource_format == 'xlsx':\n            return 'xlsx'\n",
       "        if self.resource_format in self.simple_file_formats[:2]:\n            return self.resource_format\n        elif self.resource_format == 'xlsx':\n            return 'xlsx'\n")],
     PRE + '''
from rowgenerators import parse_app_url
u = parse_app_url('metatab+file:/tmp/a/b.ipynb')
assert u.target_format == u.target_file.rsplit('.')[-1] == 'ipynb', (u.target_format, u.target_file)
''')

seed('C25-top-dir', 'C25', 'an include in a document of a directory that is not that of the document that includes it',
     'the name is looked up relative to the document that was loaded',
     [('parser.py', "                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())\n",
       "                        resolved = self.find_include_doc(self.doc.doc_dir if self.doc and self.doc.doc_dir else dirname(ref_path), t.value.strip())\n")],
     PRE + FILES + '''
try:
    put('sub/b.csv', 'Include,c.csv\\n')
    put('sub/c.csv', 'Title,right\\n')
    put('c.csv', 'Title,wrong\\n')
    doc = MetatabDoc(put('a.csv', 'Include,sub/b.csv\\n'))
    assert doc.find_first_value('Root.Title') == 'right', doc.find_first_value('Root.Title')
finally:
    shutil.rmtree(d)
''')

seed('C09-declared-class', 'C09', 'a declaration with a TermClass column',
     'a declaration document can name a class, which is imported',
     [('parser.py', "            return import_name_or_class(self.term_classes[self.super_terms()[tnl]])\n        except KeyError:\n            pass\n\n        return Term\n",
       "            return import_name_or_class(self.term_classes[self.super_terms()[tnl]])\n        except KeyError:\n            pass\n\n"
       "        declared = self._declared_terms.get(tnl, {}).get('termclass')\n\n        return import_name_or_class(declared) if declared else Term\n")],
     PRE + FILES + '''
try:
    put('evil.py', 'import os\\nopen(os.path.join(os.path.dirname(__file__), "ran"), "w").close()\\nfrom metatab.terms import Term as Evil\\n')
    sys.path.insert(0, d)
    put('decl.csv', 'Section,Declaredterms,Section,TermClass\\nDeclareSection,Things\\nDeclareTerm,Root.Thing,Things,evil.Evil\\n')
    MetatabDoc(put('m.csv', 'Declare,decl\\nSection,Things\\nThing,x\\n'))
    assert not os.path.exists(os.path.join(d, 'ran'))
finally:
    shutil.rmtree(d)
''')

seed('C12-skip-root', 'C12', 'a loop of includes that goes through the document that was loaded',
     'the loop is not found until the recursion limit',
     [('parser.py', "                        sub_gen = get_generator(resolved.get_resource().get_target())\n",
       "                        sub_gen = get_generator(resolved.get_resource().get_target())\n                        including = including[1:]\n")],
     PRE + FILES + '''
try:
    from metatab.exc import IncludeError
    put('b.csv', 'Include,a.csv\\n')
    try:
        MetatabDoc(put('a.csv', 'Title,x\\nInclude,b.csv\\n'))
    except IncludeError as e:
        assert 'loop' in str(e).lower(), str(e)[:300]
finally:
    shutil.rmtree(d)
''')


# replaced by the ones below
SEEDS[:] = [s for s in SEEDS if s['id'] not in ('C11-declare-missing', 'C14-blank-cells', 'C16-empty-parent', 'C19-derived', 'C12-skip-root',
                                                'C23-row', 'C25-top-dir')]

seed('C11-section', 'C11', 'a declaration of a term in a section that is not declared',
     'the declaration is accepted without an error, and the term does not belong to any section',
     [('parser.py', "        if td.get('section'):\n            add_term_to_section(td)\n",
       "        if td.get('section', '').lower() in self._declared_sections:\n            add_term_to_section(td)\n")],
     PRE + FILES + """
try:
    from metatab.exc import DeclarationError
    put('decl.csv', 'Section,DeclaredTerms,Section\\nDeclareTerm,Root.Thing,Nowhere\\n')
    try:
        MetatabDoc(put('m.csv', 'Declare,decl\\nTitle,x\\n'))
    except DeclarationError:
        pass
    else:
        raise AssertionError('loaded')
finally:
    shutil.rmtree(d)
""")

seed('C11-parent', 'C11', 'a child in an included document that has no parent in that document',
     'the child is silently left out',
     [('parser.py', """                        except KeyError:
                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                              .format(t.parent_term, t.term, t.row))
""", """                        except KeyError:
                            if t.file_type == 'include':
                                continue  # Belongs to a term of the including document
                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                              .format(t.parent_term, t.term, t.row))
""" .replace("                            raise ParserError(\"No parent term for '{}' in term '{}', row = {}\"\n", "                            raise ParserError(\"No parent for '{}' in term '{}', row = {}\"\n"))],
     PRE + FILES + """
try:
    from metatab.exc import ParserError
    put('i.csv', 'Contact.Email,x\\n')
    try:
        MetatabDoc(put('m.csv', 'Title,x\\nInclude,i.csv\\n'))
    except ParserError:
        pass
    else:
        raise AssertionError('loaded')
finally:
    shutil.rmtree(d)
""")

seed('C14-zero-cell', 'C14', 'rows from a generator that have the number 0 in a property cell',
     'the property is left out',
     [('parser.py', "                        if str(value).strip():\n", "                        if value and str(value).strip():\n")],
     PRE + """
from rowgenerators import get_generator
doc = MetatabDoc(get_generator([['Section', 'Resources', 'Size', 'Name'], ['Datafile', 'x', 0, 'n']]))
t = doc.find_first('Root.Datafile')
assert t.get_value('size') == '0' and t.get_value('name') == 'n', t.props
""")

seed('C14-comment', 'C14', 'a line whose text has a number sign after the first character',
     'the rest of the line after the number sign is not read',
     [('rowgen.py', "row[0]] + [ e.replace", "row[0]] + [ e.split(' #')[0].replace")],
     PRE + """
doc = load('Section: Contacts|Email\\nContact: Joe|a #1\\n')
assert doc.find_first('Root.Contact').get_value('email') == 'a #1'
""")

seed('C16-empty-parent', 'C16', 'a child with children of its own whose value is empty',
     'the rows of the child and its properties are not written',
     [('terms.py', "            if not c.is_terminal:\n                for row in c.rows:\n",
       "            if not c.is_terminal and c.value:\n                for row in c.rows:\n")],
     PRE + """
doc = load("Section: Contacts\\nContact: x\\nContact.Address:\\nAddress.Street: s\\nAddress.City: c\\n")
assert 'Street' in doc.as_lines().title(), doc.as_lines()
""")

seed('C16-remain', 'C16', 'a property that has no column in its section and an empty value or the value 0',
     'the property is not written',
     [('terms.py', "                    for k, v in remain.items():\n                        yield", "                    for k, v in ((k, v) for k, v in remain.items() if v):\n                        yield")],
     PRE + """
doc = load("Section: Contacts|Email\\nContact: x|e\\n")
doc.find_first('Root.Contact').new_child('Phone', '')
assert 'phone' in doc.as_csv().lower(), doc.as_csv()
""")

seed('C19-child-class', 'C19', 'a class registered for a child, and one registered for the top level term of the same name',
     'get_or_new_child makes a child of the class of the top level term',
     [('terms.py', "            tc = self.doc.get_term_class(term.lower())\n            c = tc(term, value,", "            tc = self.doc.get_term_class(rt.lower())\n            c = tc(term, value,")],
     PRE + """
class Email(Term):
    pass


TermParser.register_term_class('contact.email', Email)
try:
    doc = load("Section: Contacts\\nContact: x\\n")
    c = doc.find_first('Root.Contact').get_or_new_child('Email', 'e')
    assert type(c) is Email, type(c)
finally:
    TermParser.unregister_term_class('contact.email')
""")

seed('C12-declare-chain', 'C12', 'two declaration documents that declare each other',
     'the chain starts over at every declaration, so the loop is not found until the recursion limit',
     [('parser.py', "                        sub_gen = get_generator(resolved.get_resource().get_target())\n",
       "                        target = resolved.get_resource().get_target()\n"
       "                        including = including if t.term_is('include') else including[-1:]\n"
       "                        sub_gen = get_generator(target)\n")],
     PRE + FILES + """
try:
    from metatab.exc import IncludeError
    put('b.csv', 'Declare,c.csv\\n')
    put('c.csv', 'Declare,b.csv\\n')
    try:
        MetatabDoc(put('a.csv', 'Declare,b.csv\\nTitle,x\\n'))
    except IncludeError as e:
        assert 'loop' in str(e).lower(), str(e)[:300]
finally:
    shutil.rmtree(d)
""")

seed('C23-no-row', 'C23', 'a section with a column named Row, a term that was created without a row, and assigning its row',
     'the assignment creates a property instead of setting the attribute',
     [('terms.py', "        self.row = row\n        self.col = col\n", "        if row is not None:\n            self.row, self.col = row, col\n"),
      ('terms.py', "    def __init__(self, term, value, term_args=False,\n                 row=None, col=None,", "    row = col = None\n\n    def __init__(self, term, value, term_args=False,\n                 row=None, col=None,")],
     PRE + """
doc = load("Section: Schema|Row|Name\\nTable: x|7|n\\n")
t = doc['Schema'].new_term('Root.Table', 'y')
t.row = 99
assert t.row == 99 and not t.children, t.props
""")

seed('C25-child-file', 'C25', 'a property of a term of an included document',
     'the property reports the file that was loaded',
     [('parser.py', "                                       file_name=ref_path,\n", "                                       file_name=getattr(self._ref, 'path', None) or ref_path,\n")],
     PRE + FILES + """
try:
    put('inc.csv', 'Section,Contacts,Email\\nContact,x,e\\n')
    doc = MetatabDoc(put('top.csv', 'Title,t\\nInclude,inc.csv\\n'))
    t = doc.find_first('Root.Contact')
    assert t.children[0].file_name == t.file_name == 'inc.csv', (t.file_name, t.children[0].file_name)
finally:
    shutil.rmtree(d)
""")

seed('C08-create-empty', 'C08', 'creating a document over a file that exists and is empty, or over a link',
     'the file is overwritten',
     [('cli.py', "    if not exists(mt_file):\n        doc = make_metatab_file(template)\n", "    if not exists(mt_file) or not open(mt_file, encoding='utf8').readline().strip():\n        doc = make_metatab_file(template)\n")],
     PRE + FILES + """
try:
    from metatab.cli import new_metatab_file
    p = put('m.csv', '\\nTitle,mine\\n')
    r = new_metatab_file(p, None)
    assert open(p, encoding='utf8').read() == '\\nTitle,mine\\n'
finally:
    shutil.rmtree(d)
""")

seed('C31-find-none', 'C31', 'a search among the children for those without a value (None)',
     'the value is taken for no value, so terms with any value are found',
     [('terms.py', "        for c in self.children:\n            if c.record_term_lc == term.lower():\n                if value is False or c.value == value:\n                    yield c\n",
       "        for c in self.children:\n            if c.record_term_lc == term.lower():\n                if value in (False, None) or c.value == value:\n                    yield c\n")],
     PRE + """
doc = load("Section: Contacts|Email\\nContact: x\\n.Count: 5\\n.Count: 6\\n")
t = doc.find_first('Root.Contact')
t.new_child('Count', None)
assert [c.value for c in t.find('Count', None)] == [None], list(t.find('Count', None))
""")

seed('C31-props-section', 'C31', 'a search by a property within a list of sections',
     'only the first section is searched',
     [('doc.py', "            terms = self.find(term, value, section)\n",
       "            sections = [section] if section is None or isinstance(section, str) else section\n"
       "            terms = next((f for f in (self.find(term, value, s) for s in sections) if f), [])\n")],
     PRE + """
doc = load("Section: Contacts|Email\\nContact: x|e\\nSection: Other|Email\\nContact: y|e\\nContact: z|f\\n")
assert [t.value for t in doc.find('Root.Contact', section=['Contacts', 'Other'], email='e')] == ['x', 'y']
""")

seed('C33-any-empty', 'C33', 'several children with the same name of no declared type, the first of them without a value',
     'the values before the first one that is not empty are lost',
     [('terms.py', "                    except AttributeError as e:\n                        # d[c.term] exists, but is a scalar, so convert it to a list\n\n"
       "                        d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]\n",
       "                    except AttributeError as e:\n                        # d[c.term] exists, but is a scalar, so convert it to a list\n\n"
       "                        v = cls._convert_to_dict(c, replace_value_names)\n"
       "                        d[c.record_term_lc] = [d[c.record_term]] + [v] if d[c.record_term] is not None else v\n")],
     PRE + """
doc = load("Section: Contacts|Email\\nContact: x\\n.Count:\\n.Count: 6\\n.Count: 7\\n")
assert doc.find_first('Root.Contact').as_dict()['count'] == [None, '6', '7']
""")

seed('C33-sconcat-blank', 'C33', 'a concatenated property whose first value is empty',
     'the separator is left out when what was collected so far is empty',
     [('terms.py', "                    if c.record_term_lc in d:\n                        s = d[c.record_term_lc] + ' '\n",
       "                    if d.get(c.record_term_lc):\n                        s = d[c.record_term_lc] + ' '\n")],
     PRE + """
doc = load("Section: Contacts|Email\\nContact: x\\n.Note:\\n.Note: 6\\n.Note: 7\\n")
t = doc.find_first('Root.Contact')
for c in t.children:
    c.child_property_type = 'sconcat'
assert t.as_dict()['note'] == ' 6 7', t.as_dict()
""")

seed('C32-build-stale', 'C32', 'a semantic version with a build number, and a change of its patch number',
     'the build suffix is appended to the version before the change',
     [('doc.py', "        build = version.find_first('Version.Build')\n        if build:\n            templ += '.{}'\n            values = values + (build.value,)\n",
       "        build = version.find_first('Version.Build')\n        if build:\n            templ += '.{}'\n            values = values[:2] + (build.value, patch.value)\n")],
     PRE + """
doc = load("Declare: metatab-latest\\nIdentifier: a\\nName: n\\nDataset: data\\nVersion:\\n.Major: 1\\n.Minor: 2\\n.Patch: 3\\n.Build: 9\\n")
assert doc.as_version('+1') == 'data-1.2.4.9', doc.as_version('+1')
""")

seed('C32-two-digits', 'C32', 'a relative version change of more than nine',
     'only the first digit of the amount is used when a version is decreased',
     [('doc.py', "int(mv) - int(mod_version[1:] if mod_version[1:] else 1)", "int(mv) - int(mod_version[1:2] if mod_version[1:2] else 1)")],
     PRE + """
doc = load("Declare: metatab-latest\\nIdentifier: a\\nName: n\\nDataset: data\\nVersion: 40\\n")
assert doc.as_version('+12') == 'data-52', doc.as_version('+12')
assert doc.as_version('-12') == 'data-28', doc.as_version('-12')
""")

seed('C34-same-value', 'C34', 'setting a property whose name occurs twice to the value of the second child',
     'the second child is taken for the property, and the first keeps its old value',
     [('terms.py', "        c = self.find_first(rt)\n\n        if c is None:", "        c = self.find_first(rt, value) or self.find_first(rt)\n\n        if c is None:")],
     PRE + """
doc = load("Section: Contacts|Email\\nContact: x\\n.Note: a\\n.Note: b\\n")
t = doc.find_first('Root.Contact')
try:
    t.get_or_new_child('Note', 'b')
except AssertionError:
    pass
assert [c.value for c in t.children if c.record_term_lc == 'note'] == ['b', 'b'], [(c.record_term, c.value) for c in t.children]
""")

seed('C34-column-part', 'C34', 'removing a column whose name is the start of the name of another one',
     'the other column is removed, too',
     [('terms.py', "            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "            if arg_.lower().split()[0] == arg.lower():\n                self.args.remove(arg_)")],
     PRE + """
doc = MetatabDoc()
s = doc.new_section('Schema', ['Name', 'Name Part', 'Note'])
s.remove_arg('name')
assert s.args == ['Name Part', 'Note'], s.args
""")

seed('C34-sort-overlap', 'C34', 'sorting a section by names of which two match the same term',
     'the term is listed twice',
     [('terms.py', "                for t in list(all_terms):\n\n                    if t.term_is(tn):\n                        all_terms.remove(t)\n                        sorted_terms.append(t)\n",
       "                named = [t for t in self.terms if t.term_is(tn)]\n                all_terms = [t for t in all_terms if t not in named]\n                sorted_terms.extend(named)\n")],
     PRE + """
doc = MetatabDoc()
s = doc['Root']
for n in ('Title', 'Name', 'Description'):
    s.new_term('Root.' + n, n)
n = len(s.terms)
s.sort_by_term(['root.name', 'root.*'])
assert len(s.terms) == n and s.terms[0].record_term_lc == 'name', s.terms
""")

seed('C34-other-section', 'C34', 'asking a section for a term that only another section has, with the same name and value',
     'the term of the other section is returned and none is added',
     [('terms.py', "        t = self.get_term(term, value=value)\n\n        if not t:", "        t = self.get_term(term, value=value) or self.doc.find_first(term, value=value)\n\n        if not t:")],
     PRE + """
doc = MetatabDoc()
a, b = doc.new_section('Resources'), doc.new_section('References')
a.new_term('Root.Note', 'x')
t = b.get_or_new_term('Root.Note', 'x')
assert t in b.terms and len(a.terms) == 1, (a.terms, b.terms)
""")
