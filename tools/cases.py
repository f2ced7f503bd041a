# (name, properties that must report it, [(file, old, new), ...])
MUTANTS = [
 ('as_csv cleanses', ['C01'], [('doc.py', "        s = StringIO()\n", "        self.cleanse()\n        s = StringIO()\n")]),
 ('find sorts terms', ['C01'], [('doc.py', "                term_gen = self.terms  #", "                self.terms.sort(key=lambda e: e.row or 0)\n                term_gen = self.terms  #")]),
 ('as_dict appends to root', ['C01'], [('doc.py', "        r = RootSectionTerm(doc=self)\n\n        for s", "        r = self.root\n\n        for s")]),
 ('lines pops name', ['C01'], [('terms.py', "            children = list(zip(self.property_names, value[1:]))", "            names = self.property_names\n            names.extend([''] * (len(value) - 1 - len(names)))\n            children = list(zip(names, value[1:]))")]),
 ('section_args default created', ['C01'], [('doc.py', "return self.decl_sections.get(section_name.lower(), {}).get('args', [])", "return self.decl_sections.setdefault(section_name.lower(), {}).get('args', [])")]),
 ('get_table fills', ['C01'], [('terms.py', "        item = str(item)\n", "        item = str(item)\n        self.args = [a.strip() for a in self.args]\n")]),
 ('version copy shallow', ['C01'], [('doc.py', """        copy = Term('Root.Version', version.value, doc=self, section=version.section)

        for c in version.children:
            copy.new_child(c.record_term, c.value)
""", """        import copy as copy_
        copy = copy_.copy(version)
""")]),

 ('args alias', ['C02'], [('terms.py', "self.args = [strip_if_str(x) for x in (term_args or [])]", "self.args = term_args or []")]),
 ('class level errors', ['C02'], [('parser.py', "        self.errors = set()\n", ""), ('parser.py', "    # Map term names to subclass objects\n", "    errors = set()\n    # Map term names\n")]),
 ('hoisted declare sections', ['C02'], [('parser.py', '''        self._declared_sections.update({
            'root': {'args': [], 'terms': []},
            'declaredterms': {'args': [], 'terms': []},
            'declaredsections': {'args': [], 'terms': []},

        })''', '''        self._declared_sections.update(BASE_SECTIONS)'''), ('parser.py', "class TermParser", "BASE_SECTIONS = {\n    'root': {'args': [], 'terms': []},\n    'declaredterms': {'args': [], 'terms': []},\n    'declaredsections': {'args': [], 'terms': []},\n}\n\nclass TermParser")]),
 ('declared classes registered globally', ['C02'], [('parser.py', "        self._declared_terms[term_name] = td\n", "        self._declared_terms[term_name] = td\n        if td.get('class'):\n            self.term_classes[term_name] = td['class']\n")]),
 ('decls default list', ['C02'], [('doc.py', "    def __init__(self, ref=None, decl=None,", "    def __init__(self, ref=None, decl=[],"), ('doc.py', "            self.decls = decl\n", "            self.decls = decl\n            self.decls.append('metatab-latest')\n")]),
 ('load_declarations pops', ['C02'], [('doc.py', "        extant_decls = [t.value for t in self.find('Root.Declare')]\n", "        extant_decls = [t.value for t in self.find('Root.Declare')]\n        for e in extant_decls:\n            if e in decls:\n                decls.remove(e)\n")]),
 ('sort_sections reverses order', ['C02'], [('doc.py', "        order_lc = [e.lower() for e in order]\n", "        order.append('root')\n        order_lc = [e.lower() for e in order]\n")]),
 ('row modified', ['C02'], [('parser.py', "                tt = Term(row[0], None)", "                row[0] = row[0].strip()\n                tt = Term(row[0], None)")]),
 ('memo decl path global', ['C02'], [('doc.py', "        dd = terms.declare_dict\n", "        dd = terms.declare_dict\n        MetatabDoc.known_terms = dd['terms']\n")]),
 ('new_section alias', ['C02'], [('doc.py', "s.args = list(self.decl_sections[name.lower()]['args'])", "s.args = self.decl_sections[name.lower()]['args']")]),
 ('common properties extended', ['C02'], [('terms.py', "        item = str(item)\n", "        item = str(item)\n        self._common_properties.append(item.lower())\n")]),
]
# (name, [(file, old, new), ...])
REFACTORINGS = [
 ('add_arg in place is safe', [('terms.py', "                self.args = [arg.title()] + self.args", "                self.args.insert(0, arg.title())")]),
 ('sort_sections local list', [('doc.py', "        order_lc = [e.lower() for e in order]\n", "        order_lc = []\n        for e in order:\n            order_lc.append(e.lower())\n")]),
 ('as_csv local list', [('doc.py', "        for row in self.rows:\n            w.writerow(row)\n", "        w.writerows(self.rows)\n")]),
 ('find with comprehension', [('doc.py', '''            found_terms = []

            for t in terms:
                if all(t.get_value(k) == v for k, v in kwargs.items()):
                    found_terms.append(t)

            return found_terms
''', '''            return [t for t in terms if all(t.get_value(k) == v for k, v in kwargs.items())]
''')]),
]

MUTANTS += [
 ('add_child no parent', ['C13'], [('terms.py', "        child.parent = self\n        assert not child", "        assert not child")]),
 ('add_child keeps in old', ['C13'], [('terms.py', "            old.children.remove(child)\n", "            pass\n")]),
 ('doc add_term unguarded', ['C13'], [('doc.py', "        if t in self.terms:\n            return\n", "        if t.section is None:\n            return\n")]),
 ('section add_term unguarded', ['C13'], [('terms.py', "        if t not in self.terms:\n            if t.parent_term_lc == 'root':", "        if t is not None:\n            if t.parent_term_lc == 'root':")]),
 ('add_term name guard', ['C13'], [('doc.py', "        if t in self.terms:\n            return\n", "        if t.join_lc in [e.join_lc for e in self.terms if e.value == t.value]:\n            return\n")]),
 ('add_term not removed from old', ['C13'], [('terms.py', "                if t.section and t.section is not self:\n                    t.section.remove_term(t, remove_from_doc=False)\n", "")]),
 ('add_term no section set', ['C13'], [('terms.py', "                t.section = self\n                self.terms.append(t)\n", "                self.terms.append(t)\n                t.section = t.section or self\n")]),
 ('add_term no doc', ['C13'], [('terms.py', "                self.doc.add_term(t, add_section=False)\n\n", "")]),
 ('add_term no ownership', ['C13'], [('terms.py', "                t.set_ownership()\n", "")]),
 ('set_ownership not recursive', ['C13'], [('terms.py', "            t.doc = self.doc\n            t.set_ownership()\n", "            t.doc = self.doc\n")]),
 ('set_ownership recursion only with doc', ['C13'], [('terms.py', "            t.doc = self.doc\n            t.set_ownership()\n", "            if t.doc is not self.doc:\n                t.doc = self.doc\n                t.set_ownership()\n")]),
 ('doc remove_term not section', ['C13'], [('doc.py', "            t.section = self.add_section(t.section)\n            t.section.remove_term(t, remove_from_doc=False)\n", "            t.section = self.add_section(t.section)\n")]),
 ('doc remove_term not parent', ['C13'], [('doc.py', "                t.parent.remove_child(t)\n", "                t.parent = None\n")]),
 ('doc remove_term early', ['C13'], [('doc.py', "        try:\n            self.terms.remove(t)\n        except ValueError:\n            pass\n\n        if t.section and", "        try:\n            self.terms.remove(t)\n        except ValueError:\n            return\n\n        if t.section and")]),
 ('section remove not doc', ['C13'], [('terms.py', "        if remove_from_doc:\n            self.doc.remove_term(term)", "        if remove_from_doc and term not in self.terms:\n            term.section = None")]),
 ('remove_child doc only', ['C13'], [('terms.py', "        self.children.remove(child)\n        self.doc.remove_term(child)\n", "        self.children.remove(child)\n")]),
 ('remove_child only doc', ['C13'], [('terms.py', "        self.children.remove(child)\n        self.doc.remove_term(child)\n", "        self.doc.remove_term(child)\n")]),
 ('clean live', ['C13'], [('terms.py', "        terms = list(self)\n\n        for t in terms:", "        for t in self:")]),
 ('clean only doc list', ['C13'], [('terms.py', "        for t in terms:\n            self.doc.remove_term(t)\n", "        for t in terms:\n            self.doc.terms.remove(t)\n        self.terms = []\n")]),
 ('del section live', ['C13'], [('doc.py', "for t in list(self.sections[item.lower()]):", "for t in self.sections[item.lower()]:")]),
 ('del section terms kept', ['C13'], [('doc.py', "                for t in list(self.sections[item.lower()]):\n                    self.remove_term(t)\n", "                self.terms = [t for t in self.terms if t.section.value.lower() != item]\n")]),
 ('del term live', ['C13'], [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):", "        for t in self.terms:\n            if t.term_is(item):")]),
 ('clean_unused live', ['C13'], [('doc.py', "for child in list(c.children):", "for child in c.children:")]),
 ('Term eq', ['C13'], [('terms.py', "    def __iter__(self):\n        raise NotImpl", "    def __eq__(self, o):\n        return isinstance(o, Term) and self.term == o.term and self.value == o.value\n    __hash__ = object.__hash__\n\n    def __iter__(self):\n        raise NotImpl")]),
 ('Section len', ['C13'], [('terms.py', "    @property\n    def name(self):\n        return self.value\n", "    def __len__(self):\n        return len(self.terms)\n\n    @property\n    def name(self):\n        return self.value\n")]),
 ('new_child no section', ['C13'], [('terms.py', "parent=self, doc=self.doc, section=self.section).new_children(**kwargs)\n\n        c.term_value_name", "parent=self, doc=self.doc).new_children(**kwargs)\n\n        c.term_value_name")]),
 ('new_child parents section', ['C13'], [('terms.py', "parent=self, doc=self.doc, section=self.section).new_children(**kwargs)\n\n        c.term_value_name", "parent=self, doc=self.doc, section=self.doc.root).new_children(**kwargs)\n\n        c.term_value_name")]),
 ('get_or_new_child no parent', ['C13'], [('terms.py', "c = tc(term, value, parent=self, doc=self.doc, section=self.section).new", "c = tc(term, value, doc=self.doc, section=self.section).new")]),
 ('get_or_new_child not listed', ['C13'], [('terms.py', '            assert not c.term_is("Datafile.Section"), (self, c)\n            self.children.append(c)\n', '            assert not c.term_is("Datafile.Section"), (self, c)\n            if kwargs:\n                self.children.append(c)\n')]),
 ('new_term not added', ['C13'], [('terms.py', "        self.doc.add_term(t)\n        return t\n", "        self.terms.append(t)\n        return t\n")]),
 ('new_term only section', ['C13'], [('terms.py', "        self.doc.add_term(t)\n        return t\n", "        self.doc.add_term(t, add_section=False)\n        return t\n")]),
 ('get_or_new_section replaces', ['C13'], [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm", "        if name.lower() not in self.sections or params:\n            self.sections[name.lower()] = SectionTerm")]),
 ('add_section replaces', ['C13'], [('doc.py', "        if s.value.lower() not in self.sections:\n            self.sections[s.value.lower()] = s", "        if self.sections.get(s.value.lower()) is not s:\n            self.sections[s.value.lower()] = s")]),
 ('add_term foreign section not local', ['C13'], [('doc.py', "            t.section = self.add_section(t.section)\n            t.section.add_term(t)\n", "            self.add_section(t.section)\n")]),
 ('setitem None removes without parent', ['C13'], [('terms.py', "                self.remove_child(child)\n", "                self.doc.terms.remove(child)\n")]),
 ('sort drops', ['C13'], [('terms.py', "            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))\n\n            self.terms = sorted_terms", "            self.terms = sorted_terms")]),
 ('sort live', ['C13'], [('terms.py', "                for t in list(all_terms):\n", "                for t in all_terms:\n")]),
]
REFACTORINGS += [
 ('add_term early return', [('terms.py', """        if t not in self.terms:
            if t.parent_term_lc == 'root':
                if t.section and t.section is not self:
                    t.section.remove_term(t, remove_from_doc=False)

                t.section = self
                self.terms.append(t)

                self.doc.add_term(t, add_section=False)

                t.set_ownership()

            else:
                raise GenerateError("Can only add or move root-level terms. Term '{}' parent is '{}' "
                                    .format(t, t.parent_term_lc))

        assert t.section or t.join_lc == 'root.root', t
""", """        if t in self.terms:
            return

        if t.parent_term_lc != 'root':
            raise GenerateError("Can only add or move root-level terms. Term '{}' parent is '{}' "
                                .format(t, t.parent_term_lc))

        old = t.section
        if old and old is not self:
            old.remove_term(t, remove_from_doc=False)

        self._own(t)

    def _own(self, t):
        t.section = self
        self.terms.append(t)
        self.doc.add_term(t, add_section=False)
        t.set_ownership()
""")]),
 ('doc remove_term guarded', [('doc.py', """        try:
            self.terms.remove(t)
        except ValueError:
            pass

        if t.section and""", """        if t in self.terms:
            self.terms.remove(t)

        if t.section and""")]),
 ('remove_term contextlib', [('doc.py', """        try:
            self.terms.remove(t)
        except ValueError:
            pass

        if t.section and""", """        import contextlib
        with contextlib.suppress(ValueError):
            self.terms.remove(t)

        if t.section and""")]),
 ('new_child uses add_child', [('terms.py', '        assert not c.term_is("*.Section")\n        self.children.append(c)\n', '        assert not c.term_is("*.Section")\n        self.add_child(c)\n')]),
 ('get_or_new_child uses new helper', [('terms.py', """            tc = self.doc.get_term_class(term.lower())
            c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
            assert not c.term_is("Datafile.Section"), (self, c)
            self.children.append(c)
""", """            c = self._make_child(term, value)
            c.new_children(**kwargs)
            assert not c.term_is("Datafile.Section"), (self, c)
            self.children.append(c)
"""), ('terms.py', "    def __getitem__(self, item):\n        \"\"\"Item getter for child", "    def _make_child(self, term, value):\n        cls = self.doc.get_term_class(term.lower())\n        return cls(term, value, parent=self, doc=self.doc, section=self.section)\n\n    def __getitem__(self, item):\n        \"\"\"Item getter for child")]),
 ('set_ownership while', [('terms.py', """        for t in self.children:
            t.parent = self
            t._section = self.section
            t.doc = self.doc
            t.set_ownership()
""", """        section, doc = self.section, self.doc
        for child in list(self.children):
            child.parent = self
            child._section = section
            child.doc = doc
            child.set_ownership()
""")]),
 ('clean via copy', [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)\n", "        for t in self.terms[:]:\n            self.remove_term(t)\n")]),
 ('delitem comprehension', [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):\n                self.remove_term(t)\n", "        for t in [e for e in self.terms if e.term_is(item)]:\n            self.remove_term(t)\n")]),
 ('doc delitem pop', [('doc.py', """        try:
            if item.lower() in self.sections:
                for t in list(self.sections[item.lower()]):
                    self.remove_term(t)

            del self.sections[item.lower()]
        except KeyError:
            # Ignore errors
            pass
""", """        name = item.lower()
        if name not in self.sections:
            return

        for t in list(self.sections[name].terms):
            self.remove_term(t)

        del self.sections[name]
""")]),
 ('get_or_new_section try', [('doc.py', """        if name.lower() not in self.sections:
            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)

        return self.sections[name.lower()]
""", """        key = name.lower()
        try:
            return self.sections[key]
        except KeyError:
            section = SectionTerm(None, name, term_args=params, doc=self)
            self.sections[key] = section
            return section
""")]),
 ('sort_by_term list comp', [('terms.py', """            for tn in order:
                for t in list(all_terms):

                    if t.term_is(tn):
                        all_terms.remove(t)
                        sorted_terms.append(t)
""", """            for tn in order:
                matching = [t for t in all_terms if t.term_is(tn)]
                sorted_terms.extend(matching)
                all_terms = [t for t in all_terms if t not in matching]
""")]),
 ('new_term local doc', [('terms.py', "        t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n\n        self.doc.add_term(t)\n        return t\n", "        doc = self.doc\n        t = tc(term, value, doc=doc, section=self)\n        t.new_children(**kwargs)\n        doc.add_term(t)\n\n        return t\n")]),
]

SETATTR_OLD = """        if '_Term__initialised' not in self.__dict__:
            # Not initialized yet; set attributes normally.
            return object.__setattr__(self, item, value)

        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):
            # Value already exists as an attribute in the object, which a value name or
            # property name from the document does not change
            object.__setattr__(self, item, value)

        elif item.lower() =="""
MUTANTS += [
 ('setattr value name first', ['C23'], [('terms.py', SETATTR_OLD, """        if '_Term__initialised' not in self.__dict__:
            # Not initialized yet; set attributes normally.
            return object.__setattr__(self, item, value)

        elif item.lower() == self.term_value_name.lower():
            object.__setattr__(self, 'value', value)

        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):
            object.__setattr__(self, item, value)

        elif item.lower() ==""")]),
 ('setattr columns first', ['C23'], [('terms.py', SETATTR_OLD, """        if '_Term__initialised' not in self.__dict__:
            # Not initialized yet; set attributes normally.
            return object.__setattr__(self, item, value)

        elif item != 'parent' and item.lower() in [e.lower() for e in self.property_names] and item.lower() in self.props:
            self[item] = value

        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):
            object.__setattr__(self, item, value)

        elif item.lower() ==""")]),
 ('setattr dict compare lower', ['C23'], [('terms.py', "(item in self.__dict__ or getattr", "(item.lower() not in self.props and item in self.__dict__ or getattr")]),
 ('setattr no fset', ['C23'], [('terms.py', "(item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None))", "item in self.__dict__")]),
 ('init no _doc', ['C23'], [('terms.py', "        self._section = None\n        self._doc = None\n", "        self._section = None\n")]),
 ('init marker early', ['C23'], [('terms.py', "        self.children = []  # When terms are linked, hold term's children.\n", "        self.__initialised = True\n        self.children = []\n")]),
 ('init no options', ['C23'], [('terms.py', "        self.options =[] # Set from the options defined in the declaration during parsing.\n", "")]),
 ('section no header_args before', ['C23'], [('terms.py', "        self.header_args = None\n", "")]),
 ('parser sets new attribute', ['C23'], [('parser.py', "                    t.valid = t.join_lc in", "                    t.declared = t.join_lc in self._declared_terms\n                    t.valid = t.join_lc in")]),
]
REFACTORINGS += [
 ('setattr helper', [('terms.py', SETATTR_OLD, """        if '_Term__initialised' not in self.__dict__:
            return object.__setattr__(self, item, value)

        if item != 'value' and self._is_own(item):
            return object.__setattr__(self, item, value)

        if item.lower() =="""), ('terms.py', "    def get(self, item, default=None):\n        \"\"\"Get a child\"\"\"", "    def _is_own(self, item):\n        if item in self.__dict__:\n            return True\n        prop = getattr(type(self), item, None)\n        return getattr(prop, 'fset', None) is not None\n\n    def get(self, item, default=None):\n        \"\"\"Get a child\"\"\"")]),
 ('setattr vars', [('terms.py', SETATTR_OLD, """        attrs = vars(self)

        if '_Term__initialised' not in attrs:
            super().__setattr__(item, value)
            return

        elif item != 'value' and (item in attrs or getattr(getattr(self.__class__, item, None), 'fset', None)):
            super().__setattr__(item, value)

        elif item.lower() ==""")]),
 ('init reordered', [('terms.py', "        self._section = None\n        self._doc = None\n        self.section = section\n        self.doc = doc\n", "        self._doc = None\n        self._section = None\n        self.doc = doc\n        self.section = section\n")]),
]

MUTANTS += [
 ('url accepts xls', ['C24'], [('appurl.py', "not in ('zip', 'xlsx') + self", "not in ('zip', 'xlsx', 'xls') + self")]),
 ('url no default for pdf', ['C24'], [('appurl.py', "if file_ext(basename(u.path)) not in ('zip', 'xlsx') + self.simple_file_formats:", "if not file_ext(basename(u.path)):")]),
 ('url zip target txt', ['C24'], [('appurl.py', "            return 'metadata.csv'\n", "            return 'metadata.txt'\n")]),
 ('url xlsx target', ['C24'], [('appurl.py', "        elif self.resource_format == 'xlsx':\n            return 'meta'\n", "")]),
 ('url target endswith', ['C24'], [('appurl.py', "        if basename(self.path) == DEFAULT_METATAB_FILE:\n            return", "        if self.path.endswith(DEFAULT_METATAB_FILE):\n            return")]),
 ('url ipynb format', ['C24'], [('appurl.py', "        if self.resource_format in self.simple_file_formats:\n            return self.resource_format\n", "        if self.resource_format in ('csv', 'txt'):\n            return self.resource_format\n")]),
 ('url resource format', ['C24'], [('appurl.py', "        resource_format = file_ext(basename(self.path))\n", "        resource_format = basename(self.path)[-3:]\n")]),
 ('url upper ext', ['C24'], [('appurl.py', "        if file_ext(basename(u.path)) not in", "        if basename(u.path).split('.')[-1] not in")]),
 ('url zip format', ['C24'], [('appurl.py', "        elif self.resource_format == 'zip':\n            return 'csv'\n", "        elif self.resource_format == 'zip':\n            return 'zip'\n")]),
 ('url frag meta for zip', ['C24'], [('appurl.py', "        elif self.resource_format == 'xlsx':\n            frag = 'meta'\n", "        elif self.resource_format in ('xlsx', 'zip'):\n            frag = 'meta'\n")]),
]
REFACTORINGS += [
 ('url table', [('appurl.py', """        if basename(self.path) == DEFAULT_METATAB_FILE:
            frag = ''
        elif self.resource_format in self.simple_file_formats:
            frag = ''
        elif self.resource_format == 'xlsx':
            frag = 'meta'
        elif self.resource_format == 'zip':
            frag = DEFAULT_METATAB_FILE

        self.fragment = [frag, None]
""", """        frag = self._container_target() or ''

        self.fragment = [frag, None]
"""), ('appurl.py', "    @property\n    def resource_file(self):", "    def _container_target(self):\n        return {'xlsx': 'meta', 'zip': DEFAULT_METATAB_FILE}.get(self.resource_format)\n\n    @property\n    def resource_file(self):")]),
 ('url ext local', [('appurl.py', "        if file_ext(basename(u.path)) not in ('zip', 'xlsx') + self.simple_file_formats:\n            u.path = join(u.path, DEFAULT_METATAB_FILE)\n", "        ext = file_ext(basename(u.path))\n        known = set(self.simple_file_formats) | {'zip', 'xlsx'}\n\n        if ext is None or ext not in known:\n            u.path = join(u.path, DEFAULT_METATAB_FILE)\n")]),
 ('url target early', [('appurl.py', """        if self.resource_format in self.simple_file_formats:
            return self.resource_format
        elif self.resource_format == 'xlsx':
            return 'xlsx'
        elif self.resource_format == 'zip':
            return 'csv'
        else:
            return 'csv'
""", """        rf = self.resource_format
        if rf in self.simple_file_formats or rf == 'xlsx':
            return rf

        return 'csv'
""")]),
]

MUTANTS += [
 ('c12 own only', ['C12'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = (str(row_gen.ref),)\n")]),
 ('c12 not passed', ['C12'], [('parser.py', "for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                     including=including, header=last_header):", "for t in self.generate_terms(sub_gen, last_section, file_type=sub_type):")]),
 ('c12 last only', ['C12'], [('parser.py', "if str(sub_gen.ref) in including:", "if str(sub_gen.ref) == including[-1]:")]),
 ('c12 include only', ['C12'], [('parser.py', "if str(sub_gen.ref) in including:", "if t.term_is('include') and str(sub_gen.ref) in including:")]),
 ('c12 other key', ['C12'], [('parser.py', "if str(sub_gen.ref) in including:", "if str(resolved) in including:")]),
 ('c12 slice', ['C12'], [('parser.py', "if str(sub_gen.ref) in including:", "if str(sub_gen.ref) in including[-2:]:")]),
 ('c12 skip quietly', ['C12'], [('parser.py', "                            raise IncludeError(\"Include loop for '{}' \".format(resolved))\n", "                            continue\n")]),
 ('c12 not accumulated', ['C12'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = including or (str(row_gen.ref),)\n")]),
 ('c12 bare ref', ['C12'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = including + (ref_path,)\n")]),
 ('c12 path key', ['C12'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        if not isinstance(ref, Source):\n            including = including + (str(row_gen.ref),)\n")]),
 ('c12 declare nested', ['C12'], [('parser.py', "                        yield t\n\n                        sub_gen", "                        yield t\n\n                        if t.term_is('declare'):\n                            from .doc import MetatabDoc\n                            self._declared_terms.update(MetatabDoc(resolved).decl_terms)\n                            continue\n\n                        sub_gen")]),
 ('c12 http exempt', ['C12'], [('parser.py', "if str(sub_gen.ref) in including:", "if str(sub_gen.ref) in including and not str(resolved).startswith('http'):")]),
]
REFACTORINGS += [
 ('c12 list', [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = [*including, str(row_gen.ref)]\n")]),
 ('c12 set', [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = set(including) | {str(row_gen.ref)}\n")]),
 ('c12 append', [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        ancestors = list(including)\n        ancestors.append(str(row_gen.ref))\n"), ('parser.py', "if str(sub_gen.ref) in including:", "if str(sub_gen.ref) in ancestors:"), ('parser.py', "including=including, header", "including=ancestors, header")]),
 ('c12 any', [('parser.py', "if str(sub_gen.ref) in including:", "if any(str(sub_gen.ref) == r for r in including):")]),
 ('c12 for', [('parser.py', "                        if str(sub_gen.ref) in including:\n                            raise IncludeError(\"Include loop for '{}' \".format(resolved))\n", "                        for r in including:\n                            if str(sub_gen.ref) == r:\n                                raise IncludeError(\"Include loop for '{}' \".format(resolved))\n")]),
 ('c12 helper', [('parser.py', "                        if str(sub_gen.ref) in including:\n                            raise IncludeError(\"Include loop for '{}' \".format(resolved))\n", "                        self._check_loop(sub_gen, resolved, including)\n"), ('parser.py', "    def generate_terms(", "    @staticmethod\n    def _check_loop(gen, url, seen):\n        key = str(gen.ref)\n        if key in seen:\n            raise IncludeError(\"Include loop for '{}' \".format(url))\n\n    def generate_terms(")]),
 ('c12 yield from', [('parser.py', "                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                     including=including, header=last_header):\n                            yield t\n", "                        yield from self.generate_terms(sub_gen, last_section, sub_type, including, last_header)\n")]),
 ('c12 not in else', [('parser.py', "                        if str(sub_gen.ref) in including:\n                            raise IncludeError(\"Include loop for '{}' \".format(resolved))\n", "                        sub_key = str(sub_gen.ref)\n                        looped = sub_key in including\n                        if looped:\n                            raise IncludeError(\"Include loop for '{}' \".format(resolved))\n")]),
 ('c12 generator helper', [('parser.py', '''                        sub_gen = get_generator(resolved.get_resource().get_target())

                        if str(sub_gen.ref) in including:
                            raise IncludeError("Include loop for '{}' ".format(resolved))

                        # What a declaration document includes is also part of the declarations
                        sub_type = 'declare' if file_type == 'declare' else t.record_term_lc

                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,
                                                     including=including, header=last_header):
                            yield t

                        if last_section:
                            yield last_section  # Re-assert the last section
''', '''                        sub_type = 'declare' if file_type == 'declare' else t.record_term_lc
                        for t in self._nested(resolved, last_section, sub_type, including, last_header):
                            yield t

                        if last_section:
                            yield last_section  # Re-assert the last section
'''), ('parser.py', "    def generate_terms(", '''    def _nested(self, resolved, section, file_type, including, header):
        sub_gen = get_generator(resolved.get_resource().get_target())

        if str(sub_gen.ref) in including:
            raise IncludeError("Include loop for '{}' ".format(resolved))

        yield from self.generate_terms(sub_gen, section, file_type=file_type, including=including, header=header)

    def generate_terms(''')]),
]

T_LOOP = """        for c in self.children:
            if c.is_terminal:
                if c.record_term_lc in properties:
                    repeated.append(c)
                elif c.record_term_lc:
                    # This is rare, but can happen if a property child is not given
                    # a property name by the section -- the "Section" term has a blank column.
                    properties[c.record_term_lc] = c.value
"""
T_NEST = """        for c in self.children:
            if not c.is_terminal:
                for row in c.rows:
                    yield row

    @property
    def descendents"""
T_REP = """        for c in repeated:
            yield (c.qualified_term, c.value)
"""
S_REMAIN = """                    for k, v in remain.items():
                        yield term.split('.')[-1] + '.' + k, v
"""
S_ARGS = """        args = []
        for n in [tvm] + self.property_names:
            args.append(lower_d.get(n.lower(), ''))

            try:
                del lower_d[n.lower()]
            except KeyError:
                pass
"""
L_CHILD = """            children = list(zip(self.property_names, value[1:]))

            for prop, value in children:
                if value is not None and str(value).strip():
                    child_t = '.' + (prop.title())
                    yield ("    "+child_t, escape(value))
"""
D_ROW = """                term = re.sub(r'^root\\.', '', term).title()

                try:
                    yield [term] + value
                except TypeError:
                    yield [term] + [value]
"""
MUTANTS += [
 ('c16 repeated replace', ['C16'], [('terms.py', "                if c.record_term_lc in properties:\n                    repeated.append(c)\n                elif c.record_term_lc:", "                if c.record_term_lc:")]),
 ('c16 repeated equal value dropped', ['C16'], [('terms.py', "                    repeated.append(c)\n", "                    if c.value != properties[c.record_term_lc]:\n                        repeated.append(c)\n")]),
 ('c16 repeated not yielded', ['C16'], [('terms.py', T_REP, "")]),
 ('c16 repeated last only', ['C16'], [('terms.py', "        for c in repeated:\n", "        for c in repeated[-1:]:\n")]),
 ('c16 empty values skipped', ['C16'], [('terms.py', "                elif c.record_term_lc:\n", "                elif c.record_term_lc and c.value:\n")]),
 ('c16 nested first row', ['C16'], [('terms.py', "                for row in c.rows:\n                    yield row\n\n    @property\n    def descendents", "                for row in c.rows:\n                    yield row\n                    break\n\n    @property\n    def descendents")]),
 ('c16 nested dropped when valueless', ['C16'], [('terms.py', "            if not c.is_terminal:\n                for row in c.rows:", "            if not c.is_terminal and c.value:\n                for row in c.rows:")]),
 ('c16 repeated name bare', ['C16'], [('terms.py', "            yield (c.qualified_term, c.value)\n", "            yield (self.record_term_lc, c.value)\n")]),
 ('c16 remain dropped', ['C16'], [('terms.py', S_REMAIN, "")]),
 ('c16 remain non-empty', ['C16'], [('terms.py', "                    for k, v in remain.items():\n                        yield", "                    for k, v in remain.items():\n                        if v:\n                          yield")]),
 ('c16 remain no parent', ['C16'], [('terms.py', "                        yield term.split('.')[-1] + '.' + k, v\n", "                        yield k, v\n")]),
 ('c16 del all', ['C16'], [('terms.py', "        return term, args, lower_d\n", "        lower_d.pop('id', None)\n\n        return term, args, lower_d\n")]),
 ('c16 columns args', ['C16'], [('terms.py', "        for n in [tvm] + self.property_names:\n", "        for n in [tvm] + self.args[:1]:\n")]),
 ('c16 rows header raw args', ['C16'], [('doc.py', "                yield ['Section', s.value] + s.property_names\n", "                yield ['Section', s.value] + [a for a in s.args if a]\n")]),
 ('c16 header only with args', ['C16'], [('doc.py', "                yield ['Section', s.value] + s.property_names\n", "                if s.property_names:\n                    yield ['Section', s.value] + s.property_names\n")]),
 ('c16 unanchored', ['C16'], [('doc.py', "term = re.sub(r'^root\\.', '', term).title()", "term = re.sub(r'root\\.', '', term).title()")]),
 ('c16 replace', ['C16'], [('terms.py', "term = re.sub(r'^root\\.', '', term).title()", "term = term.replace('root.', '').title()")]),
 ('c16 empty sections skipped', ['C16'], [('doc.py', "        for s_name, s in self.sections.items():\n            yield from s.lines\n", "        for s_name, s in self.sections.items():\n            if s.terms:\n                yield from s.lines\n")]),
 ('c16 no escape', ['C16'], [('terms.py', "                    yield (\"    \"+child_t, escape(value))\n", "                    yield (\"    \"+child_t, value)\n")]),
 ('c16 escape wrong', ['C16'], [('terms.py', "return v.replace('|', '\\\\|') if isinstance(v, str) else v", "return v.replace('|', '||') if isinstance(v, str) else v")]),
 ('c16 falsy cells', ['C16'], [('terms.py', "                if value is not None and str(value).strip():\n", "                if value and str(value).strip():\n")]),
 ('c16 cell break', ['C16'], [('terms.py', "                    yield (\"    \"+child_t, escape(value))\n", "                    yield (\"    \"+child_t, escape(value))\n                else:\n                    break\n")]),
 ('c16 cells limited', ['C16'], [('terms.py', "zip(self.property_names, value[1:])", "zip(self.property_names, value[1:-1])")]),
 ('c16 csv filter', ['C16'], [('doc.py', "            w.writerow(row)\n", "            if any(row[1:]):\n                w.writerow(row)\n")]),
 ('c16 csv trims', ['C16'], [('doc.py', "            w.writerow(row)\n", "            w.writerow([c for c in row if c not in (None, '')])\n")]),
 ('c16 lines filter', ['C16'], [('doc.py', "            out_lines.append('{}: {}'.format(t, v if v is not None else ''))\n", "            if v:\n                out_lines.append('{}: {}'.format(t, v))\n")]),
 ('c16 lines falsy', ['C16'], [('doc.py', "v if v is not None else ''))\n\n        return", "v or ''))\n\n        return")]),
 ('c16 list only when nonempty', ['C16'], [('terms.py', "            term = re.sub(r'^root\\.', '', term).title()\n            yield (term, escape(value[0]))\n", "            term = re.sub(r'^root\\.', '', term).title()\n            if value[0]:\n                yield (term, escape(value[0]))\n")]),
 ('c16 terms dedup', ['C16'], [('terms.py', "        for t in self.terms:\n\n            for row in t.rows:\n", "        seen = set()\n        for t in self.terms:\n            if (t.join_lc, t.value) in seen:\n                continue\n            seen.add((t.join_lc, t.value))\n\n            for row in t.rows:\n")]),
 ('c16 nondict dropped', ['C16'], [('terms.py', "                else:\n                    yield row\n", "                elif value:\n                    yield row\n")]),
]
REFACTORINGS += [
 ('c16 values', [('doc.py', "        for s_name, s in self.sections.items():\n\n            # Yield the section header\n            if s.name != 'Root':\n                yield ['']", "        for s in self.sections.values():\n\n            # Yield the section header\n            if s.name != 'Root':\n                yield ['']")]),
 ('c16 iter doc', [('doc.py', "        for s_name, s in self.sections.items():\n            yield from s.lines\n", "        for s in self.sections.values():\n            for line in s.lines:\n                yield line\n")]),
 ('c16 isinstance', [('doc.py', D_ROW, """                term = re.sub(r'^root\\.', '', term).title()

                if isinstance(value, list):
                    yield [term] + value
                else:
                    yield [term, value]
""")]),
 ('c16 removeprefix', [('doc.py', "term = re.sub(r'^root\\.', '', term).title()", "term = term.removeprefix('root.').title()")]),
 ('c16 startswith', [('terms.py', "            term = re.sub(r'^root\\.', '', term).title()\n", "            if term.startswith('root.'):\n                term = term[len('root.'):]\n            term = term.title()\n")]),
 ('c16 nested yield from', [('terms.py', "                for row in c.rows:\n                    yield row\n\n    @property\n    def descendents", "                yield from c.rows\n\n    @property\n    def descendents")]),
 ('c16 continue', [('terms.py', T_NEST, """        for c in self.children:
            if c.is_terminal:
                continue
            for row in c.rows:
                yield row

    @property
    def descendents""")]),
 ('c16 lists', [('terms.py', T_LOOP, """        for c in [e for e in self.children if e.is_terminal]:
            name = c.record_term_lc
            if name in properties:
                repeated.append(c)
                continue
            if name:
                properties[name] = c.value
""")]),
 ('c16 repeated pairs', [('terms.py', "                    repeated.append(c)\n", "                    repeated.append((c.qualified_term, c.value))\n"), ('terms.py', T_REP, "        yield from repeated\n")]),
 ('c16 nested list', [('terms.py', T_NEST, """        nested = [c for c in self.children if not c.is_terminal]
        for c in nested:
            for row in c.rows:
                yield row

    @property
    def descendents""")]),
 ('c16 pop', [('terms.py', S_ARGS, """        args = []
        for n in [tvm] + self.property_names:
            args.append(lower_d.pop(n.lower(), ''))
""")]),
 ('c16 pop comp', [('terms.py', S_ARGS, """        args = [lower_d.pop(n.lower(), '') for n in [tvm] + self.property_names]
""")]),
 ('c16 del if in', [('terms.py', S_ARGS, """        args = []
        for n in [tvm] + self.property_names:
            key = n.lower()
            if key in lower_d:
                args.append(lower_d[key])
                del lower_d[key]
            else:
                args.append('')
""")]),
 ('c16 remain helper', [('terms.py', S_REMAIN, "                    yield from self._remaining(term, remain)\n"), ('terms.py', "    def _args(self, term, d):", """    @staticmethod
    def _remaining(term, remain):
        last = term.split('.')[-1]
        for k, v in remain.items():
            yield last + '.' + k, v

    def _args(self, term, d):""")]),
 ('c16 zip inline', [('terms.py', L_CHILD, """            for prop, cell in zip(self.property_names, value[1:]):
                if cell is None or not str(cell).strip():
                    continue
                yield ("    ." + prop.title(), escape(cell))
""")]),
 ('c16 cells', [('terms.py', L_CHILD, """            cells = value[1:]
            for i, prop in enumerate(self.property_names):
                if i >= len(cells):
                    break
                if cells[i] is not None and str(cells[i]).strip():
                    yield ("    ." + prop.title(), escape(cells[i]))
""")]),
 ('c16 escape module', [('terms.py', """        def escape(v):
            # A bar separates columns, so it must be escaped within a value
            return v.replace('|', '\\\\|') if isinstance(v, str) else v

""", ""), ('terms.py', "class Term(object):", "def escape(v):\n    if not isinstance(v, str):\n        return v\n    return v.replace('|', '\\\\|')\n\n\nclass Term(object):")]),
 ('c16 writerows', [('doc.py', "        for row in self.rows:\n            w.writerow(row)\n", "        w.writerows(list(self.rows))\n")]),
 ('c16 lines fstring', [('doc.py', "            out_lines.append('{}: {}'.format(t, v if v is not None else ''))\n", "            if v is None:\n                v = ''\n            out_lines.append(f'{t}: {v}')\n")]),
 ('c16 as_lines loop', [('terms.py', "        return '\\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )", "        out = []\n        for t, v in self.lines:\n            out.append('{}: {}'.format(t, '' if v is None else v))\n        return '\\n'.join(out)")]),
 ('c16 isinstance early', [('terms.py', "                if isinstance(value, dict):  # Dict is for properties, which might be arg-children\n", "                if not isinstance(value, dict):\n                    yield row\n                    continue\n                if True:\n"), ('terms.py', "                else:\n                    yield row\n\n    @property\n    def lines", "\n    @property\n    def lines")]),
 ('c16 rows two', [('terms.py', "            for row in t.rows:\n                term, value = row  # Value can either be a string, or a dict\n", "            for term, value in t.rows:\n                row = (term, value)\n")]),
 ('c16 header star', [('doc.py', "yield ['Section', s.value] + s.property_names", "yield ['Section', s.value, *s.property_names]")]),
]

CLEANSE = """            if name and name.value:
                name.value = slugify(name.value)
            elif name:
                name.value = slugify(identifier.value)
            else:
                self['Root'].get_or_new_term('Root.Name').value = slugify(identifier.value)
"""
SEMVER = """        version = self['Root'].find_first('Root.Version')

        if not version:
            return False

        return any(["""
UPV = """        if not version:
            version = self['Root'].find_first('Root.Version')

        if not version:
            return None

        major"""
MUTANTS += [
 ('c18 cleanse', ['C18'], [('doc.py', CLEANSE, """            if name.value:
                name.value = slugify(name.value)
            else:
                name.value = slugify(identifier.value)
""")]),
 ('c18 cleanse no ensure', ['C18'], [('doc.py', "        self.ensure_identifier()\n\n        try:\n            self.update_name()", "        try:\n            self.update_name()")]),
 ('c18 semver', ['C18'], [('doc.py', SEMVER, "        version = self['Root'].find_first('Root.Version')\n\n        return any([")]),
 ('c18 update_version', ['C18'], [('doc.py', UPV, "        if not version:\n            version = self['Root'].find_first('Root.Version')\n\n        major")]),
 ('c18 update_version param', ['C18'], [('doc.py', UPV, "        if version is None:\n            version = self['Root'].find_first('Root.Version')\n\n        if not version.value:\n            return None\n\n        major")]),
 ('c18 cli', ['C18'], [('cli.py', "        if t is None:\n            err(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))\n\n        print(t.value)", "        print(t.value)")]),
 ('c18 cli warn', ['C18'], [('cli.py', "            err(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))", "            warn(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))")]),
 ('c18 error term', ['C18'], [('parser.py', "'row': e.term.row if e.term else '<unknown>',", "'row': e.term.row if e.args else '<unknown>',")]),
 ('c18 schema', ['C18'], [('doc.py', "        schema_section = self.get_section('Schema', default=None)\n\n        if schema_section:", "        schema_section = self['Schema']\n\n        if schema_section:")]),
 ('c18 schema none', ['C18'], [('doc.py', "        schema_section = self.get_section('Schema', default=None)\n\n        if schema_section:", "        schema_section = self.get_section('Schema', default=None)\n\n        if self.terms:")]),
 ('c18 build', ['C18'], [('doc.py', "        if build:\n            templ += '.{}'\n            values = values + (build.value,)\n", "        templ += '.{}' if build else ''\n        values = values + (build.value,)\n")]),
 ('c18 mv', ['C18'], [('doc.py', "mv = version_term.value if version_term else None", "mv = version_term.value")]),
 ('c18 find_first_value', ['C18'], [('doc.py', "        term = self.find_first(term, value=value, section=section, **kwargs)\n\n        if term is None:\n            return None\n        else:\n            return term.value\n", "        return self.find_first(term, value=value, section=section, **kwargs).value\n")]),
 ('c18 get_value', ['C18'], [('doc.py', "        term = self.find_first(term, value=False, section=section)\n\n        if term is None:\n            return default\n        else:\n            return term.value\n", "        return self.find(term, value=False, section=section)[0].value or default\n")]),
 ('c18 dataset strip', ['C18'], [('doc.py', "        datasetname = self.get_value('Root.Dataset')\n", "        datasetname = self.get_value('Root.Dataset').strip()\n")]),
 ('c18 origin plus', ['C18'], [('doc.py', "        self.update_version(version_term)\n\n        if version_term and", "        origin = origin.lower()\n\n        self.update_version(version_term)\n\n        if version_term and")]),
 ('c18 pass none', ['C18'], [('doc.py', "                self['Root'].get_or_new_term('Root.Name').value = slugify(identifier.value)\n", "                self['Root'].get_or_new_term('Root.Name').value = slugify(identifier.value)\n\n        self.remove_term(self.find_first('Root.Draft'))\n")]),
 ('c18 int', ['C18'], [('doc.py', "            try:\n                int(mv)\n            except (ValueError, TypeError):\n                raise", "            try:\n                int(mv)\n            except ValueError:\n                raise")]),
 ('c18 name_term', ['C18'], [('doc.py', "        if not name_term:\n            if create_term:\n                name_term = self['Root'].new_term('Root.Name', '')\n            else:\n                updates.append(\"No Root.Name, can't update name\")\n                return updates\n", "        if not name_term and create_term:\n            name_term = self['Root'].new_term('Root.Name', '')\n")]),
 ('c18 get table', ['C18'], [('cli.py', "    if not t:\n\n        table_names", "    if not t.value:\n\n        table_names")]),
]
REFACTORINGS += [
 ('c18 is none', [('doc.py', SEMVER, "        version = self['Root'].find_first('Root.Version')\n\n        if version is None:\n            return False\n\n        return any([")]),
 ('c18 and', [('doc.py', """        if not version:
            return False

        return any([
            version.find_first('Version.Major'),
            version.find_first('Version.Minor'),
            version.find_first('Version.Patch')
        ])
""", """        return bool(version) and any(version.find_first('Version.' + p) for p in ('Major', 'Minor', 'Patch'))
""")]),
 ('c18 helper', [('doc.py', SEMVER, "        version = self._root_version()\n\n        if not version:\n            return False\n\n        return any(["), ('doc.py', "    def _has_semver(self):", "    def _root_version(self):\n        return self['Root'].find_first('Root.Version')\n\n    def _has_semver(self):")]),
 ('c18 walrus', [('doc.py', "        build = version.find_first('Version.Build')\n        if build:\n", "        if (build := version.find_first('Version.Build')):\n")]),
 ('c18 build not none', [('doc.py', "        if build:\n            templ", "        if build is not None:\n            templ")]),
 ('c18 try', [('doc.py', "        term = self.find_first(term, value=value, section=section, **kwargs)\n\n        if term is None:\n            return None\n        else:\n            return term.value\n", "        try:\n            return self.find_first(term, value=value, section=section, **kwargs).value\n        except AttributeError:\n            return None\n")]),
 ('c18 ternary', [('doc.py', "        term = self.find_first(term, value=value, section=section, **kwargs)\n\n        if term is None:\n            return None\n        else:\n            return term.value\n", "        found = self.find_first(term, value=value, section=section, **kwargs)\n        return found.value if found is not None else None\n")]),
 ('c18 first', [('doc.py', "        terms = self.find(term, value=value, section=section, **kwargs)\n\n        if len(terms) > 0:\n            return terms[0]\n        else:\n            return None\n", "        terms = self.find(term, value=value, section=section, **kwargs)\n\n        return terms[0] if terms else None\n")]),
 ('c18 first next', [('doc.py', "        terms = self.find(term, value=value, section=section, **kwargs)\n\n        if len(terms) > 0:\n            return terms[0]\n        else:\n            return None\n", "        return next(iter(self.find(term, value=value, section=section, **kwargs)), None)\n")]),
 ('c18 first loop', [('doc.py', "        terms = self.find(term, value=value, section=section, **kwargs)\n\n        if len(terms) > 0:\n            return terms[0]\n        else:\n            return None\n", "        for t in self.find(term, value=value, section=section, **kwargs):\n            return t\n\n        return None\n")]),
 ('c18 schema contains', [('doc.py', "        schema_section = self.get_section('Schema', default=None)\n\n        if schema_section:", "        schema_section = self['Schema'] if 'schema' in self.sections else None\n\n        if schema_section:")]),
 ('c18 schema return', [('doc.py', "        schema_section = self.get_section('Schema', default=None)\n\n        if schema_section:", "        schema_section = self.get_section('Schema', default=None)\n\n        if not schema_section:\n            return\n\n        if True:")]),
 ('c18 error helper', [('parser.py', "'row': e.term.row if e.term else '<unknown>',", "'row': getattr(e.term, 'row', '<unknown>'),")]),
 ('c18 cli else', [('cli.py', "        if t is None:\n            err(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))\n\n        print(t.value)", "        if t is not None:\n            print(t.value)\n        else:\n            err(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))")]),
 ('c18 cleanse', [('doc.py', CLEANSE, """            if not name:
                name = self['Root'].get_or_new_term('Root.Name')

            name.value = slugify(name.value if name.value else identifier.value)
""")]),
 ('c18 update_version or', [('doc.py', UPV, "        version = version or self['Root'].find_first('Root.Version')\n\n        if not version:\n            return None\n\n        major")]),
 ('c18 update_version loop', [('doc.py', """        for term, term_name in ((major, 'Version.Major'),
                                (minor, 'Version.Minor'),
                                (patch, 'Version.Patch')):

            if not term:
""", """        for term_name in ('Version.Major', 'Version.Minor', 'Version.Patch'):
            term = version.find_first(term_name)

            if not term:
""")]),
]

MUTANTS += [
 ('c03 get_section', ['C03'], [('doc.py', "            return self.sections[name.lower()]\n", "            return self.sections[name]\n")]),
 ('c03 contains', ['C03'], [('doc.py', "        return item.lower() in self.sections\n", "        return item in self.sections\n")]),
 ('c03 contains names', ['C03'], [('doc.py', "        return item.lower() in self.sections\n", "        return item in [s.name for s in self.sections.values()]\n")]),
 ('c03 section_args', ['C03'], [('doc.py', "self.decl_sections.get(section_name.lower(), {})", "self.decl_sections.get(section_name, {})")]),
 ('c03 new_section', ['C03'], [('doc.py', "        if name.lower() in self.decl_sections:\n", "        if name in self.decl_sections:\n")]),
 ('c03 sort_sections', ['C03'], [('doc.py', "if k not in order_lc)", "if k not in order)")]),
 ('c03 in_section', ['C03'], [('doc.py', "return section.lower() == term.section.name.lower()", "return section == term.section.name")]),
 ('c03 in_section half', ['C03'], [('doc.py', "return section.lower() == term.section.name.lower()", "return section == term.section.name.lower()")]),
 ('c03 find startswith', ['C03'], [('doc.py', "            term = term.lower()\n\n            found = []\n", "            found = []\n"), ('doc.py', "for dt in sorted(self.derived_terms.get(t, [])) + [t]:", "for dt in sorted(self.derived_terms.get(t, [])) + [term]:"), ('doc.py', "                t = Term.normalize_term(t)\n", "                term = t\n                t = Term.normalize_term(t)\n")]),
 ('c03 term_is', ['C03'], [('terms.py', "        if self.join_lc == v.lower():", "        if self.join_lc == v:")]),
 ('c03 term find', ['C03'], [('terms.py', "    def find(self, term, value=False):", "    def find(self, term, value=False):\n        if '.' not in term:\n            return [c for c in self.children if c.record_term_lc == term and (value is False or c.value == value)]\n")]),
 ('c03 remove_arg', ['C03'], [('terms.py', "            if arg_.lower() == arg.lower():", "            if arg_ == arg:")]),
 ('c03 add_arg', ['C03'], [('terms.py', "        if arg.lower() not in [", "        if arg not in [")]),
 ('c03 register', ['C03'], [('parser.py', "cls.term_classes[term_name.lower()] = ", "cls.term_classes[term_name] = ")]),
 ('c03 unregister', ['C03'], [('parser.py', "del cls.term_classes[term_name.lower()]", "del cls.term_classes[term_name]")]),
 ('c03 declared section', ['C03'], [('parser.py', "        self._declared_sections[t.value.lower()] = ", "        self._declared_sections[t.value.strip()] = ")]),
 ('c03 term setter', ['C03'], [('terms.py', "self.parent_term, self.record_term = Term.split_term_lower(self._term)", "self.parent_term, self.record_term = Term.split_term(self._term)")]),
 ('c03 param_map', ['C03'], [('parser.py', "[p.lower() if p else i for i, p in enumerate(t.args)]", "[p if p else i for i, p in enumerate(t.args)]")]),
 ('c03 yaml', ['C03'], [('rowgen.py', ".split('.')[-1], k).lower()", ".split('.')[-1], k)")]),
 ('c03 getitem value name', ['C03'], [('terms.py', "        if item.lower() == self.term_value_name.lower():", "        if item == self.term_value_name.lower():")]),
 ('c03 args columns', ['C03'], [('terms.py', "            args.append(lower_d.get(n.lower(), ''))\n", "            args.append(lower_d.get(n, ''))\n")]),
 ('c03 del section', ['C03'], [('doc.py', "            del self.sections[item.lower()]\n", "            del self.sections[item]\n")]),
 ('c03 upper const', ['C03'], [('doc.py', "                if t.join_lc == 'root.root':\n                    continue\n", "                if t.join_lc == 'Root.Root':\n                    continue\n")]),
 ('c03 add_section', ['C03'], [('doc.py', "        if s.value.lower() not in self.sections:\n            self.sections[s.value.lower()] = s\n\n        return self.sections[s.value.lower()]", "        if s.value not in self.sections:\n            self.sections[s.value] = s\n\n        return self.sections[s.value]")]),
 ('c03 contains prop', ['C03'], [('terms.py', "item.lower() in self.props", "item in self.props")]),
]
REFACTORINGS += [
 ('c03 local', [('doc.py', "            return self.sections[name.lower()]\n", "            key = name.lower()\n            return self.sections[key]\n")]),
 ('c03 helper', [('doc.py', "            return self.sections[name.lower()]\n", "            return self.sections[self._section_key(name)]\n"), ('doc.py', "    def get_section(self, name", "    @staticmethod\n    def _section_key(name):\n        return name.lower()\n\n    def get_section(self, name")]),
 ('c03 casefold', [('doc.py', "        return item.lower() in self.sections\n", "        return item.casefold() in self.sections\n")]),
 ('c03 any', [('doc.py', "        return item.lower() in self.sections\n", "        return any(item.lower() == k for k in self.sections)\n")]),
 ('c03 section values', [('doc.py', "        return item.lower() in self.sections\n", "        return any(s.value.lower() == item.lower() for s in self.sections.values())\n")]),
 ('c03 in_section', [('doc.py', "return section.lower() == term.section.name.lower()", "a, b = section, term.section.name\n                return a.lower() == b.lower()")]),
 ('c03 new_section', [('doc.py', "        if name.lower() in self.decl_sections:\n            s.args = list(self.decl_sections[name.lower()]['args'])\n", "        decl = self.decl_sections.get(name.lower())\n        if decl is not None:\n            s.args = list(decl['args'])\n")]),
 ('c03 map', [('doc.py', "        order_lc = [e.lower() for e in order]\n", "        order_lc = list(map(str.lower, order))\n")]),
 ('c03 term_is', [('terms.py', "            if self.join_lc == v.lower():", "            wanted = v.lower()\n            if wanted == self.join_lc:")]),
]

SKIP = "                if not row or not row[0] or not row[0].strip() or row[0].strip().startswith('#'):\n                    continue\n"
CELLS = """                if not t.term_is('section') and not t.term_is('header'):
                    for col, value in enumerate(t.args, 0):
                        if str(value).strip():

                            term_name = t.record_term_lc + '.' + str(col)

                            term_class = self.get_term_class(term_name)

                            yield term_class(term_name, str(value), [],
                                       row=line_n,
                                       col=col + 2,  # The 0th argument starts in col 2
                                       file_name=ref_path,
                                       file_type=file_type,
                                       parent=t) #,
                                       #doc=None,
                                       #section=last_section)
"""
MUTANTS += [
 ('c14 value comment', ['C14'], [('parser.py', SKIP, SKIP + "                if len(row) > 1 and str(row[1]).startswith('#'):\n                    continue\n")]),
 ('c14 short row', ['C14'], [('parser.py', SKIP, SKIP.replace("not row or", "not row or len(row) < 2 or"))]),
 ('c14 slashes', ['C14'], [('parser.py', SKIP, SKIP.replace("startswith('#')", "startswith(('#', '//'))"))]),
 ('c14 empty value', ['C14'], [('parser.py', SKIP, SKIP + "                if len(row) > 1 and not any(str(e).strip() for e in row[1:]):\n                    continue\n")]),
 ('c14 args from 3', ['C14'], [('parser.py', "row[2:] if len(row) > 2 else [],", "row[2:] if len(row) > 3 else [],")]),
 ('c14 args cut', ['C14'], [('parser.py', "row[2:] if len(row) > 2 else [],", "row[2:64] if len(row) > 2 else [],")]),
 ('c14 args filter', ['C14'], [('parser.py', "row[2:] if len(row) > 2 else [],", "[e for e in row[2:] if e],")]),
 ('c14 cell truthy', ['C14'], [('parser.py', "                        if str(value).strip():\n", "                        if value:\n")]),
 ('c14 cell break', ['C14'], [('parser.py', "                        if str(value).strip():\n", "                        if not str(value).strip():\n                            break\n                        else:\n")]),
 ('c14 cell zip', ['C14'], [('parser.py', "enumerate(t.args, 0)", "zip(range(len(self._param_map)), t.args)"), ('parser.py', "                        if str(value).strip():\n", "                        if str(value).strip() and col < len(self._param_map):\n")]),
 ('c14 cell na', ['C14'], [('parser.py', "                        if str(value).strip():\n", "                        if str(value).strip() not in ('', 'NA'):\n")]),
 ('c14 header child', ['C14'], [('parser.py', "if not t.term_is('section') and not t.term_is('header'):", "if not t.term_is('section') and not t.term_is('header') and t.value:")]),
 ('c14 synonym child', ['C14'], [('parser.py', "if not t.term_is('section') and not t.term_is('header'):", "if not t.term_is('section') and not t.term_is('header') and not t.term_is('synonym'):")]),
 ('c14 col off', ['C14'], [('parser.py', "enumerate(t.args, 0)", "enumerate(t.args, 1)"), ('parser.py', "str(col)\n", "str(col - 1)\n")]),
 ('c14 row offset', ['C14'], [('parser.py', "enumerate(row_gen, 1)", "enumerate(row_gen)")]),
 ('c14 value split', ['C14'], [('parser.py', "                         row[1] if len(row) > 1 else '',\n", "                         row[1].split('#')[0] if len(row) > 1 else '',\n")]),
 ('c14 value long rows', ['C14'], [('parser.py', "                         row[1] if len(row) > 1 else '',\n", "                         row[1] if len(row) > 2 else '',\n")]),
 ('c14 term value truthy', ['C14'], [('terms.py', "        no_value = value is None or value is False or value == ''\n", "        no_value = not value\n")]),
 ('c14 term value slice', ['C14'], [('terms.py', "None if no_value else strip_if_str(value)", "None if no_value else strip_if_str(value)[:4096] if isinstance(value, str) else value")]),
 ('c14 term args filter', ['C14'], [('terms.py', "[strip_if_str(x) for x in (term_args or [])]", "[strip_if_str(x) for x in (term_args or []) if x]")]),
 ('c14 nested filter', ['C14'], [('parser.py', "                                                     including=including, header=last_header):\n                            yield t\n", "                                                     including=including, header=last_header):\n                            if not t.term_is('root.section') or t.args:\n                                yield t\n")]),
 ('c14 not passed', ['C14'], [('parser.py', "                else:\n\n                    yield t\n\n        except", "                elif t.value is not None or t.children:\n\n                    yield t\n\n        except")]),
 ('c14 not attached', ['C14'], [('parser.py', "                    elif t.is_arg_child:\n", "                    elif t.is_arg_child and not t.valid:\n                        pass\n\n                    elif t.is_arg_child:\n")]),
 ('c14 load skip', ['C14'], [('doc.py', "            elif t.parent_term_lc == 'root':\n                self.add_term(t)\n\n            else:\n                # These", "            elif t.parent_term_lc == 'root' and t.value is not None:\n                self.add_term(t)\n\n            else:\n                # These"), ('doc.py', "                assert t.parent is not None\n\n        try:", "                pass\n\n        try:")]),
 ('c14 text blank', ['C14'], [('rowgen.py', "            if row.startswith('===='):\n", "            if not row.split(':', 1)[-1].strip():\n                continue\n            if row.startswith('===='):\n")]),
 ('c14 text inline comment', ['C14'], [('rowgen.py', "            if re.match(r'^\\s*#', row):", "            if re.search(r'\\s#', ' ' + row):")]),
 ('c14 text colon', ['C14'], [('rowgen.py', "for e in row.split(':', 1)]", "for e in row.split(':')]")]),
 ('c14 text columns', ['C14'], [('rowgen.py', "for e in re.split(r'(?<!\\\\)\\|', row[1]) ]", "for e in re.split(r'(?<!\\\\)\\|', row[1]) if e.strip() ]")]),
 ('c14 text comment skip', ['C14', 'C25'], [('rowgen.py', "            if re.match(r'^\\s*#', row):  # The parser skips comments, but they count as rows\n                yield [row.strip()]\n                continue\n", "            if re.match(r'^\\s*#', row):\n                continue\n")]),
 ('c14 text blank skip', ['C14', 'C25'], [('rowgen.py', "            if re.match(r'^\\s*#', row):  # The parser skips comments, but they count as rows\n                yield [row.strip()]\n                continue\n", "            if re.match(r'^\\s*#', row):\n                yield ['']\n                continue\n\n            if not row.strip():\n                continue\n")]),
 ('c14 text comment read', ['C14'], [('rowgen.py', "                yield [row.strip()]\n", "                yield [row.strip().lstrip('#')]\n")]),
 ('c14 text inline comment', ['C14'], [('rowgen.py', "row = [e.strip() for e in row.split(':', 1)]", "row = [e.split('#')[0].strip() for e in row.split(':', 1)]")]),
 ('c14 text rsplit', ['C14'], [('rowgen.py', "row.split(':', 1)", "row.rsplit(':', 1)")]),
 ('c14 text blanks', ['C14'], [('rowgen.py', "row = [e.strip() for e in row.split(':', 1)]", "row = [' '.join(e.split()) for e in row.split(':', 1)]")]),
 ('c14 text quotes', ['C14'], [('rowgen.py', "row = [e.strip() for e in row.split(':', 1)]", "row = [e.strip(' \"') for e in row.split(':', 1)]")]),
 ('c14 text cut', ['C14'], [('rowgen.py', "row = [e.strip() for e in row.split(':', 1)]", "row = [e.strip()[:255] for e in row.split(':', 1)]")]),
 ('c14 text two', ['C14', 'C25'], [('rowgen.py', "            if row.startswith('===='):\n", "            if row.startswith('===='):\n                yield ['']\n")]),
 ('c14 text lines', ['C14'], [('rowgen.py', "        self._text_lines = text.splitlines()\n", "        self._text_lines = [e for e in text.splitlines() if ':' in e]\n")]),
 ('c14 rows filter', ['C14'], [('rowgen.py', "        for row in self._rows:\n            yield row\n", "        for row in self._rows:\n            if len(row) > 1:\n                yield row\n")]),
]
REFACTORINGS += [
 ('c14 skip helper', [('parser.py', SKIP, "                if self._is_blank(row):\n                    continue\n"), ('parser.py', "    def generate_terms(", "    @staticmethod\n    def _is_blank(row):\n        if not row or not row[0]:\n            return True\n        first = row[0].strip()\n        return not first or first.startswith('#')\n\n    def generate_terms(")]),
 ('c14 skip split', [('parser.py', SKIP, "                if not row:\n                    continue\n\n                name = row[0].strip() if row[0] else ''\n\n                if name == '' or name[0] == '#':\n                    continue\n")]),
 ('c14 skip len', [('parser.py', SKIP, SKIP.replace("not row or", "len(row) == 0 or"))]),
 ('c14 enumerate plus', [('parser.py', "for line_n, row in enumerate(row_gen, 1):\n", "for i, row in enumerate(row_gen):\n                line_n = i + 1\n")]),
 ('c14 counter', [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            line_n = 0\n            for row in row_gen:\n                line_n += 1\n")]),
 ('c14 locals', [('parser.py', "                t = term_class(tt.join_lc,\n                         row[1] if len(row) > 1 else '',\n                         row[2:] if len(row) > 2 else [],\n", "                value = row[1] if len(row) >= 2 else ''\n                args = row[2:]\n\n                t = term_class(tt.join_lc,\n                         value,\n                         args,\n")]),
 ('c14 cells helper', [('parser.py', CELLS, """                if not t.term_is('section') and not t.term_is('header'):
                    yield from self._arg_terms(t, line_n, ref_path, file_type)
"""), ('parser.py', "    def generate_terms(", """    def _arg_terms(self, t, line_n, ref_path, file_type):
        for col, value in enumerate(t.args):
            if not str(value).strip():
                continue
            term_name = '{}.{}'.format(t.record_term_lc, col)
            term_class = self.get_term_class(term_name)
            yield term_class(term_name, str(value), [], row=line_n, col=col + 2, file_name=ref_path,
                             file_type=file_type, parent=t)

    def generate_terms(""")]),
 ('c14 cells early continue', [('parser.py', CELLS, """                if t.term_is('section') or t.term_is('header'):
                    continue

                for col in range(len(t.args)):
                    text = str(t.args[col])
                    if text.strip() == '':
                        continue

                    term_name = t.record_term_lc + '.' + str(col)
                    term_class = self.get_term_class(term_name)
                    yield term_class(term_name, text, [], row=line_n, col=col + 2, file_name=ref_path,
                                     file_type=file_type, parent=t)
""")]),
 ('c14 cells col 2', [('parser.py', CELLS, CELLS.replace("enumerate(t.args, 0)", "enumerate(t.args, 2)").replace("str(col)", "str(col - 2)").replace("col=col + 2", "col=col"))]),
 ('c14 term value', [('terms.py', "        no_value = value is None or value is False or value == ''\n        self.value = None if no_value else strip_if_str(value)\n", "        if value is None or value is False or value == '':\n            self.value = None\n        else:\n            self.value = strip_if_str(value)\n")]),
 ('c14 term args loop', [('terms.py', "        self.args = [strip_if_str(x) for x in (term_args or [])]\n", "        self.args = []\n        for x in (term_args or []):\n            self.args.append(strip_if_str(x))\n")]),
 ('c14 text comment empty', [('rowgen.py', "            if re.match(r'^\\s*#', row):  # The parser skips comments, but they count as rows\n                yield [row.strip()]\n                continue\n", "            if row.lstrip().startswith('#'):\n                yield []\n                continue\n")]),
 ('c14 text partition', [('rowgen.py', "row = [e.strip() for e in row.split(':', 1)]", "name, sep, rest = row.partition(':')\n            row = [name.strip(), rest.strip()] if sep else [name.strip()]")]),
 ('c14 text section', [('rowgen.py', "row = re.sub(r'^=*','Section:', row)", "row = 'Section:' + row.lstrip('=')")]),
 ('c14 text helper', [('rowgen.py', "row = [row[0]] + [ e.replace('\\|','|') for e in re.split(r'(?<!\\\\)\\|', row[1]) ]", "row = [row[0]] + self._columns(row[1])"), ('rowgen.py', "    def __iter__(self):\n        import re\n\n        for row in self._text_lines:", "    @staticmethod\n    def _columns(text):\n        import re\n        cols = []\n        for part in re.split(r'(?<!\\\\)\\|', text):\n            cols.append(part.replace('\\\\|', '|'))\n        return cols\n\n    def __iter__(self):\n        import re\n\n        for row in self._text_lines:")]),
 ('c14 text else', [('rowgen.py', "            if re.match(r'^\\s*#', row):  # The parser skips comments, but they count as rows\n                yield [row.strip()]\n                continue\n", "            comment = re.match(r'^\\s*#', row) is not None\n            if comment:\n                row = row.strip()\n                yield [row]\n                continue\n")]),
 ('c14 text yield', [('rowgen.py', "            if re.match(r'^\\s*#', row):  # The parser skips comments, but they count as rows\n                yield [row.strip()]\n", "            if row.lstrip().startswith('#'):\n                yield ['']\n")]),
 ('c14 text partition', [('rowgen.py', "            row = [e.strip() for e in row.split(':', 1)]\n\n            # Pipe characters seperate columns\n            if len(row) > 1:\n                row = [row[0]] + [ e.replace('\\|','|') for e in re.split(r'(?<!\\\\)\\|', row[1]) ]\n\n            yield row", "            name, sep, rest = row.partition(':')\n\n            cells = [name.strip()]\n            if sep:\n                for e in re.split(r'(?<!\\\\)\\|', rest.strip()):\n                    cells.append(e.replace('\\\\|', '|'))\n\n            yield cells\n")]),
 ('c14 text helper', [('rowgen.py', "            row = [e.strip() for e in row.split(':', 1)]\n\n            # Pipe characters seperate columns\n            if len(row) > 1:\n                row = [row[0]] + [ e.replace('\\|','|') for e in re.split(r'(?<!\\\\)\\|', row[1]) ]\n\n            yield row", "            yield self._cells(row)\n\n    @staticmethod\n    def _cells(line):\n        import re\n        parts = [e.strip() for e in line.split(':', 1)]\n        if len(parts) < 2:\n            return parts\n        return [parts[0]] + [e.replace('\\\\|', '|') for e in re.split(r'(?<!\\\\)\\|', parts[1])]\n")]),
 ('c14 rows yield from', [('rowgen.py', "        for row in self._rows:\n            yield row\n", "        yield from self._rows\n")]),
 ('c14 load match', [('doc.py', "            if t.term_is('root.section'):\n                self.add_section(t)\n\n            elif t.parent_term_lc == 'root':\n                self.add_term(t)\n\n            else:\n                # These terms aren't added to the doc because they are attached to a\n                # parent term that is added to the doc.\n                assert t.parent is not None\n", "            if t.term_is('root.section'):\n                self.add_section(t)\n                continue\n\n            if t.parent_term_lc != 'root':\n                # attached to a parent term that is added to the doc.\n                assert t.parent is not None\n                continue\n\n            self.add_term(t)\n")]),
 ('c14 iter declare first', [('parser.py', "                if t.file_type == 'declare':\n                    self.manage_declare_terms(t)\n                    # Declare terms aren't part of document, so they aren't yieled\n                else:\n\n                    yield t\n", "                if t.file_type != 'declare':\n                    yield t\n                    continue\n\n                self.manage_declare_terms(t)\n")]),
]

HANDLE = """                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                        e = IncludeError("Failed to Include; {}".format(e))
                        e.term = include_term
                        raise e
"""
PARENT = """                        try:
                            last_term_map[t.parent_term].add_child(t)
                        except KeyError:
                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                              .format(t.parent_term, t.term, t.row))
"""
MUTANTS += [
 ('c11 include listed only', ['C11'], [('parser.py', HANDLE, HANDLE.replace("raise e\n", "self.errors.add(e)\n"))]),
 ('c11 download passed over', ['C11'], [('parser.py', HANDLE, HANDLE.replace("OSError,  FileNotFoundError, GenerateError, RowGeneratorError", "OSError,  FileNotFoundError, GenerateError") + "                    except RowGeneratorError as e:\n                        self.errors.add(IncludeError(str(e)))\n")]),
 ('c11 declare optional', ['C11'], [('parser.py', "                            e.term = include_term\n                        raise\n", "                            e.term = include_term\n                        if include_term.term_is('include'):\n                            raise\n                        self.errors.add(e)\n")]),
 ('c11 missing file', ['C11'], [('parser.py', "                        yield t\n\n                        sub_gen", "                        yield t\n\n                        if resolved.scheme == 'file' and not exists(str(resolved.fspath)):\n                            continue\n\n                        sub_gen")]),
 ('c11 not listed', ['C11'], [('parser.py', "            assert e is not None\n            self.errors.add(e)\n            raise\n", "            assert e is not None\n            raise\n")]),
 ('c11 listed when term', ['C11'], [('parser.py', "            self.errors.add(e)\n            raise\n", "            if e.term is not None:\n                self.errors.add(e)\n            raise\n")]),
 ('c11 root parent', ['C11'], [('parser.py', PARENT, "                        last_term_map.get(t.parent_term, self.root).add_child(t)\n")]),
 ('c11 handler parent', ['C11'], [('parser.py', PARENT, PARENT.replace("""                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                              .format(t.parent_term, t.term, t.row))
""", "                            self.root.add_child(t)\n"))]),
 ('c11 own child', ['C11'], [('parser.py', PARENT, "                        last_term_map[t.record_term] = t\n" + PARENT)]),
 ('c11 undeclared section', ['C11'], [('parser.py', "                raise DeclarationError((\"Section '{}' is referenced", "                self.errors.add(DeclarationError((\"Section '{}' is referenced"), ('parser.py', ".format(section_name, t.file_name))\n", ".format(section_name, t.file_name)))\n                return\n")]),
 ('c11 section setdefault', ['C11'], [('parser.py', "            st = self._declared_sections[td['section'].lower()]['terms']\n", "            st = self._declared_sections.setdefault(td['section'].lower(), {'args': [], 'terms': []})['terms']\n"), ('parser.py', "            if section_name.lower() not in self._declared_sections:\n", "            if not section_name:\n")]),
 ('c11 section if known', ['C11'], [('parser.py', "        if td.get('section'):\n", "        if td.get('section', '').lower() in self._declared_sections:\n")]),
 ('c11 inherits', ['C11'], [('parser.py', "        if not t.get('inheritsfrom'):\n", "        if not t.get('inheritsfrom') or 'section' not in t:\n")]),
 ('c11 load source error', ['C11'], [('doc.py', "                raise MetatabError(\"Failed to load terms for document '{}': {}\".format(self._ref, e))\n", "                self.errors = [{'error': str(e)}]\n")]),
 ('c11 load declarations try', ['C11'], [('doc.py', "        self.load_declarations(self.decls)\n", "        try:\n            self.load_declarations(self.decls)\n        except MetatabError as e:\n            self.errors.append(e)\n")]),
 ('c11 declare dict', ['C11'], [('doc.py', "            self._load_declare_dict(terms)\n\n        except AttributeError as e:", "            self._load_declare_dict(terms)\n\n        except Exception as e:")]),
 ('c11 load loop', ['C11'], [('doc.py', "        for t in terms:\n\n            t.doc = self\n", "        terms_ = iter(terms)\n        while True:\n            try:\n                t = next(terms_)\n            except Exception:\n                break\n            t.doc = self\n")]),
 ('c11 getattr bare', ['C11'], [('terms.py', "                except Exception as e:", "                except:")]),
 ('c11 finally', ['C11'], [('parser.py', "            self.errors.add(e)\n            raise\n", "            self.errors.add(e)\n            raise\n        finally:\n            if self.errors:\n                return\n")]),
 ('c11 none path', ['C11'], [('resolver.py', "        raise IncludeError(name)\n", "        return None\n"), ('parser.py', "                path = self.resolver.find_decl_doc(name)\n                break\n", "                path = self.resolver.find_decl_doc(name)\n                break\n")]),
 ('c11 decl path none', ['C11'], [('util.py', "    raise IncludeError(", "    return None\n    raise IncludeError(")]),
 ('c11 file as text', ['C11'], [('rowgen.py', "            except (UnicodeDecodeError, PermissionError):\n                # The file is there, so the ref is not the text of the document\n                raise\n", "")]),
 ('c11 yaml errors', ['C11'], [('rowgen.py', "            d = yaml.safe_load(f)\n", "            try:\n                d = yaml.safe_load(f)\n            except yaml.YAMLError:\n                d = {}\n")]),
 ('c11 suppress', ['C11'], [('doc.py', "        self.load_declarations(self.decls)\n", "        from contextlib import suppress\n        with suppress(OSError):\n            self.load_declarations(self.decls)\n")]),
]
REFACTORINGS += [
 ('c11 handler types', [('parser.py', "except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:", "except (OSError, GenerateError, RowGeneratorError) as e:")]),
 ('c11 handler from', [('parser.py', HANDLE, """                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as cause:
                        failure = IncludeError("Failed to Include; {}".format(cause))
                        failure.term = include_term
                        raise failure from cause
""")]),
 ('c11 handler helper', [('parser.py', HANDLE, """                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                        raise self._include_failed(e, include_term)
"""), ('parser.py', "    def generate_terms(", """    @staticmethod
    def _include_failed(cause, term):
        e = IncludeError("Failed to Include; {}".format(cause))
        e.term = term
        return e

    def generate_terms(""")]),
 ('c11 parent get', [('parser.py', PARENT, """                        parent = last_term_map.get(t.parent_term)

                        if parent is None:
                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                              .format(t.parent_term, t.term, t.row))

                        parent.add_child(t)
""")]),
 ('c11 parent in', [('parser.py', PARENT, """                        if t.parent_term not in last_term_map:
                            raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                              .format(t.parent_term, t.term, t.row))

                        last_term_map[t.parent_term].add_child(t)
""")]),
 ('c11 section get', [('parser.py', "            st = self._declared_sections[td['section'].lower()]['terms']\n", "            section = self._declared_sections.get(section_name)\n            st = section['terms']\n")]),
 ('c11 section try', [('parser.py', "            if section_name.lower() not in self._declared_sections:\n                raise DeclarationError((\"Section '{}' is referenced in a term but was not \"\n                                        \"previously declared with DeclareSection, in '{}'\")\n                                       .format(section_name, t.file_name))\n\n            st = self._declared_sections[td['section'].lower()]['terms']\n", "            try:\n                st = self._declared_sections[section_name]['terms']\n            except KeyError:\n                raise DeclarationError((\"Section '{}' is referenced in a term but was not \"\n                                        \"previously declared with DeclareSection, in '{}'\")\n                                       .format(section_name, t.file_name))\n")]),
 ('c11 find declare', [('parser.py', "                path = self.resolver.find_decl_doc(name)\n                break\n", "                return parse_app_url(self.resolver.find_decl_doc(name))\n")]),
 ('c11 find loop', [('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n", "            if exists(join(d, name)):\n                path = realpath(join(d, name))\n                break\n            if exists(join(d, name + '.csv')):\n                path = realpath(join(d, name + '.csv'))\n                break\n")]),
 ('c11 load wrap', [('doc.py', "                raise MetatabError(\"Failed to load terms for document '{}': {}\".format(self._ref, e))\n", "                msg = \"Failed to load terms for document '{}': {}\"\n                raise MetatabError(msg.format(self._ref, e)) from e\n")]),
 ('c11 errors helper', [('parser.py', "            assert e is not None\n            self.errors.add(e)\n            raise\n", "            self._note(e)\n            raise\n"), ('parser.py', "    def manage_declare_terms(", "    def _note(self, e):\n        self.errors.add(e)\n\n    def manage_declare_terms(")]),
]

MUTANTS += [
 ('c19 expand', ['C19'], [('doc.py', "                t = Term.normalize_term(t)\n", "                t = t.lower()\n")]),
 ('c19 expand key', ['C19'], [('doc.py', "self.derived_terms.get(t, [])", "self.derived_terms.get(t.split('.')[-1], [])"), ('doc.py', "                t = Term.normalize_term(t)\n", "                t = t.lower()\n")]),
 ('c19 class', ['C19'], [('doc.py', "        tnl = Term.normalize_term(term_name)\n", "        tnl = term_name.lower()\n")]),
 ('c19 parser class', ['C19'], [('parser.py', "        tnl = Term.normalize_term(term_name)\n", "        tnl = term_name.lower()\n")]),
 ('c19 term_is', ['C19'], [('terms.py', "            if '.' not in v:\n                v = 'root.' + v\n\n", "")]),
 ('c19 term_is parent', ['C19'], [('terms.py', "            if '.' not in v:\n                v = 'root.' + v\n", "            if '.' not in v:\n                v = self.parent_term + '.' + v\n")]),
 ('c19 child class', ['C19'], [('terms.py', "self.doc.get_term_class(self.record_term_lc + '.' + self.split_term_lower(term)[1])", "self.doc.get_term_class(term.lower())")]),
 ('c19 get or new child class', ['C19'], [('terms.py', "            tc = self.doc.get_term_class(term.lower())\n            c = tc(", "            tc = self.doc.get_term_class(rt.lower())\n            c = tc(")]),
 ('c19 super', ['C19'], [('parser.py', "{k.lower(): Term.normalize_term(v['inheritsfrom'])", "{k.lower(): v['inheritsfrom'].lower()")]),
 ('c19 declared', ['C19'], [('parser.py', "        term_name = Term.normalize_term(t.value)\n", "        term_name = t.value.strip().lower()\n")]),
 ('c19 child value name', ['C19'], [('terms.py', "self.doc.decl_terms.get(c.join, {})", "self.doc.decl_terms.get(term.lower(), {})")]),
 ('c19 split', ['C19'], [('terms.py', "            parent_term, record_term = ROOT_TERM, term.strip()\n", "            parent_term, record_term = ELIDED_TERM, term.strip()\n")]),
 ('c19 setter', ['C19'], [('terms.py', "        if self.parent and self.parent_term == ROOT_TERM.lower():\n            self.parent_term = self.parent.record_term\n", "")]),
 ('c19 find star', ['C19'], [('doc.py', "                term = 'root.' + term\n", "                term = '*.' + term\n"), ('doc.py', "                t = Term.normalize_term(t)\n", "                t = Term.normalize_term(t) if '.' in t else t.lower()\n")]),
 ('c19 direct', ['C19'], [('terms.py', "        t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n", "        t = Term(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n")]),
 ('c19 row value name', ['C19'], [('terms.py', "tvm = self.section.doc.decl_terms.get(self.qualified_term, {})", "tvm = self.section.doc.decl_terms.get(self.record_term_lc, {})")]),
 ('c19 add_term', ['C19'], [('doc.py', "            t.child_property_type = self.decl_terms \\\n                .get(t.join, {}) \\\n", "            t.child_property_type = self.decl_terms \\\n                .get(t.term, {}) \\\n")]),
]
REFACTORINGS += [
 ('c19 inline', [('doc.py', "                t = Term.normalize_term(t)\n", "                parent, record = Term.split_term_lower(t)\n                t = '{}.{}'.format(parent, record)\n")]),
 ('c19 fstring', [('terms.py', "                v = 'root.' + v\n", "                v = f'root.{v}'\n")]),
 ('c19 name local', [('terms.py', "        tc = self.doc.get_term_class(self.record_term_lc + '.' + self.split_term_lower(term)[1])\n", "        name = '{}.{}'.format(self.record_term_lc, self.split_term_lower(term)[1])\n        tc = self.doc.get_term_class(name)\n")]),
 ('c19 setter', [('terms.py', "        self.parent_term, self.record_term = Term.split_term_lower(self._term)\n\n        if self.parent and self.parent_term == ROOT_TERM.lower():\n            self.parent_term = self.parent.record_term\n", "        parent_term, self.record_term = Term.split_term_lower(self._term)\n\n        if parent_term == ROOT_TERM.lower() and self.parent:\n            parent_term = self.parent.record_term\n\n        self.parent_term = parent_term\n")]),
 ('c19 normalize', [('terms.py', "        return \"{}.{}\".format(*cls.split_term_lower(term))\n", "        return '.'.join(cls.split_term_lower(term))\n")]),
 ('c19 class loop', [('doc.py', "        try:\n            return import_name_or_class(TermParser.term_classes[tnl])\n        except KeyError:\n            pass\n\n        try:\n            return import_name_or_class(TermParser.term_classes[self.super_terms[tnl]])\n        except KeyError:\n            pass\n\n        return Term", "        for name in (tnl, self.super_terms.get(tnl)):\n            if name in TermParser.term_classes:\n                return import_name_or_class(TermParser.term_classes[name])\n\n        return Term")]),
 ('c19 term_is early', [('terms.py', "            if self.join_lc == v.lower():\n                return True\n            elif v_r == '*' and v_p == self.parent_term_lc:", "            if (v_p, v_r) == (self.parent_term_lc, self.record_term_lc):\n                return True\n            elif v_r == '*' and v_p == self.parent_term_lc:")]),
 ('c19 find helper', [('doc.py', "            if not '.' in term:\n                term = 'root.' + term\n", "            term = self._qualify(term)\n"), ('doc.py', "    def find_first(self", "    @staticmethod\n    def _qualify(term):\n        return term if '.' in term else 'root.' + term\n\n    def find_first(self")]),
 ('c19 declared helper', [('parser.py', "        td = {k: v for k, v in t.arg_props.items() if v.strip()}\n        td['values'] = {}\n        td['term'] = t.value\n\n        self._declared_terms[term_name] = td\n", "        td = {k: v for k, v in t.arg_props.items() if v.strip()}\n        td['values'] = {}\n        td['term'] = t.value\n\n        def declare(name, d):\n            self._declared_terms[name] = d\n\n        declare(term_name, td)\n")]),
]

# C15
MUTANTS += [
 ('c15 no parent reset', ['C15'], [('parser.py', "                    last_parent_term = self.root.record_term\n\n", "\n")]),
 ('c15 no value name reset', ['C15'], [('parser.py', "                    last_section = t\n                    default_term_value_name = '@value'\n", "                    last_section = t\n")]),
 ('c15 no map reset', ['C15'], [('parser.py', "                elif t.term_is('root.section') or t.term_is('root.root'):\n                    self._param_map = munge_param_map(t)\n", "                elif t.term_is('root.section') or t.term_is('root.root'):\n                    self._param_map = munge_param_map(t) if t.args else self._param_map\n")]),
 ('c15 root only section', ['C15'], [('parser.py', "                    last_section = t\n                    default_term_value_name = '@value'\n                    t.section = None\n", "                    last_section = t\n                    if t.term_is('root.section'):\n                        default_term_value_name = '@value'\n                    t.section = None\n")]),
 ('c15 header no value', ['C15'], [('parser.py', "                    default_term_value_name = t.value.lower()\n", "                    default_term_value_name = t.value.lower() if not t.args else default_term_value_name\n")]),
 ('c15 header no map', ['C15'], [('parser.py', "                    self._param_map = munge_param_map(t)\n                    default_term_value_name = t.value.lower()\n", "                    default_term_value_name = t.value.lower()\n")]),
 ('c15 header extends', ['C15'], [('parser.py', "                    self._param_map = munge_param_map(t)\n                    default_term_value_name = t.value.lower()\n", "                    self._param_map = munge_param_map(t) or self._param_map\n                    default_term_value_name = t.value.lower()\n")]),
 ('c15 no restore', ['C15'], [('parser.py', "                        if last_section:\n                            yield last_section  # Re-assert the last section\n", "                        if last_section is not root:\n                            yield last_section  # Re-assert the last section\n")]),
 ('c15 restore root', ['C15'], [('parser.py', "                            yield last_section  # Re-assert the last section\n", "                            yield root\n")]),
 ('c15 restore include only', ['C15'], [('parser.py', "                        if last_section:\n                            yield last_section", "                        if last_section and file_type != 'declare':\n                            yield last_section")]),
 ('c15 existing section', ['C15'], [('parser.py', "                        last_section = self.doc[t.name]\n                        t = last_section\n", "                        t = self.doc[t.name]\n")]),
 ('c15 pass root', ['C15'], [('parser.py', "self.generate_terms(sub_gen, last_section, file_type", "self.generate_terms(sub_gen, root, file_type")]),
 ('c15 header kept', ['C15'], [('parser.py', "                    last_header = None\n\n", "")]),
 ('c15 header not restored', ['C15'], [('parser.py', "                        if last_header:\n                            yield last_header  # And its header\n", "")]),
 ('c15 header first', ['C15'], [('parser.py', "                        if last_section:\n                            yield last_section  # Re-assert the last section\n\n                        if last_header:\n                            yield last_header  # And its header\n", "                        if last_header:\n                            yield last_header\n                        if last_section:\n                            yield last_section\n")]),
 ('c15 arg to elided', ['C15'], [('parser.py', "                        t.parent.add_child(t)  # The", "                        last_term_map[t.parent_term].add_child(t)  # The")]),
 ('c15 arg to last', ['C15'], [('parser.py', "                        t.parent.add_child(t)  # The", "                        last_term_map[last_parent_term].add_child(t)  # The")]),
 ('c15 elided to map', ['C15'], [('parser.py', "                        last_term_map[last_parent_term].add_child(t)\n\n                    elif", "                        last_term_map[ELIDED_TERM].add_child(t)\n\n                    elif")]),
 ('c15 arg is parent', ['C15'], [('parser.py', "                        last_parent_term = t.record_term\n                        last_term_map[ELIDED_TERM] = t\n                        last_term_map[t.record_term] = t\n", "                        if t.parent_term == 'root':\n                            last_parent_term = t.record_term\n                        last_term_map[ELIDED_TERM] = t\n                        last_term_map[t.record_term] = t\n")]),
 ('c15 section early', ['C15'], [('parser.py', "                t.section = last_section\n\n", "                t.section = t.section or last_section\n\n")]),
 ('c15 map once', ['C15'], [('parser.py', "                elif t.term_is('root.section') or t.term_is('root.root'):\n                    self._param_map = munge_param_map(t)\n", "                elif t.term_is('root.section') or t.term_is('root.root'):\n                    if t is not last_section:\n                        self._param_map = munge_param_map(t)\n")]),
]
REFACTORINGS += [
 ('c15 reset helper', [('parser.py', "                    self._param_map = munge_param_map(t)\n                    # Parentage should not persist across sections\n                    last_parent_term = self.root.record_term\n\n                    last_section = t\n                    default_term_value_name = '@value'\n                    t.section = None\n", "                    last_parent_term, default_term_value_name = self._start_section(t, munge_param_map)\n                    last_section = t\n"), ('parser.py', "    def manage_declare_terms(self, t):\n", "    def _start_section(self, t, munge):\n        self._param_map = munge(t)\n        t.section = None\n        return self.root.record_term, '@value'\n\n    def manage_declare_terms(self, t):\n")]),
 ('c15 munge method', [('parser.py', "                def munge_param_map(t):\n                    return [p.lower() if p else i for i, p in enumerate(t.args)]\n\n", ""), ('parser.py', "                    self._param_map = munge_param_map(t)\n                    default", "                    self._param_map = self._columns(t)\n                    default"), ('parser.py', "                    self._param_map = munge_param_map(t)\n                    # Par", "                    self._param_map = self._columns(t)\n                    # Par"), ('parser.py', "    def manage_declare_terms(self, t):\n", "    @staticmethod\n    def _columns(t):\n        cols = []\n        for i, p in enumerate(t.args):\n            cols.append(p.lower() if p else i)\n        return cols\n\n    def manage_declare_terms(self, t):\n")]),
 ('c15 kinds', [('parser.py', "                if t.term_is('root.header'):\n", "                is_section = t.term_is(['root.section', 'root.root'])\n\n                if not is_section and t.term_is('header'):\n"), ('parser.py', "                elif t.term_is('root.section') or t.term_is('root.root'):\n", "                elif is_section:\n")]),
 ('c15 join_lc', [('parser.py', "                if t.term_is('root.header'):\n", "                if t.join_lc == 'root.header':\n"), ('parser.py', "                elif t.term_is('root.section') or t.term_is('root.root'):\n", "                elif t.join_lc in ('root.section', 'root.root'):\n")]),
 ('c15 order', [('parser.py', "                    last_section = t\n                    default_term_value_name = '@value'\n                    t.section = None\n", "                    t.section = None\n                    default_term_value_name = '@value'\n                    last_section = t\n")]),
 ('c15 no enumerate', [('parser.py', "            for i, t in enumerate(self.generate_terms(target, self.root)):\n", "            for t in self.generate_terms(target, self.root):\n")]),
 ('c15 yield from', [('parser.py', "                        if last_section:\n                            yield last_section  # Re-assert the last section\n\n                        if last_header:\n                            yield last_header  # And its header\n", "                        # Re-assert the last section and its header\n                        yield from filter(None, (last_section, last_header))\n")]),
 ('c15 restore loop', [('parser.py', "                        if last_section:\n                            yield last_section  # Re-assert the last section\n\n                        if last_header:\n                            yield last_header  # And its header\n", "                        for setting in (last_section, last_header):\n                            if setting is not None:\n                                yield setting\n")]),
 ('c15 nested yield from', [('parser.py', "                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                     including=including, header=last_header):\n                            yield t\n", "                        yield from self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                       including=including, header=last_header)\n")]),
 ('c15 section try', [('parser.py', "                    try:\n                        last_section = self.doc[t.name]\n                        t = last_section\n\n                    except (KeyError, TypeError): # TypeError -> self.doc is None\n                        last_section = t\n\n                        # The columns that were declared earlier in this document\n                        if not t.args:\n                            t.args =", "                    try:\n                        t = self.doc[t.name]\n                    except (KeyError, TypeError):  # TypeError -> self.doc is None\n                        if not t.args:\n                            t.args ="), ('parser.py', "                    last_header = None\n", "                    last_section = t\n                    last_header = None\n")]),
 ('c15 parent local', [('parser.py', "                    if elided_parent:\n                        last_term_map[last_parent_term].add_child(t)\n\n                    elif t.is_arg_child:\n                        t.parent.add_child(t)  # The term of the row that the argument is in\n", "                    if elided_parent or t.is_arg_child:\n                        owner = last_term_map[last_parent_term] if elided_parent else t.parent\n                        owner.add_child(t)\n")]),
 ('c15 value name local', [('parser.py', "                    default_term_value_name = t.value.lower()\n                    last_section.header_args = t.args\n                    last_section.default_term_value_name = default_term_value_name\n                    continue\n", "                    value_name = t.value.lower()\n                    default_term_value_name = value_name\n                    last_section.header_args = t.args\n                    last_section.default_term_value_name = value_name\n                    continue\n")]),
]

# C12 spelling of paths
MUTANTS += [
 ('c12 include path', ['C12'], [('parser.py', "            path = realpath(join(d, include_ref))\n", "            path = join(d, include_ref)\n")]),
 ('c12 declare path', ['C12'], [('parser.py', "                    path = realpath(fn)\n", "                    path = fn\n")]),
]
REFACTORINGS += [
 ('c12 pathlib', [('parser.py', "            path = realpath(join(d, include_ref))\n", "            from pathlib import Path\n            path = str(Path(d, include_ref).resolve())\n")]),
 ('c12 normpath', [('parser.py', "            path = realpath(join(d, include_ref))\n", "            from os.path import normpath\n            joined = join(d, include_ref)\n            path = normpath(joined)\n")]),
]

# C20
LDD = """        self.super_terms.update(terms.super_terms())

        kf = lambda e: e[1]  # Sort on the value
        self.derived_terms = {k: set(e[0] for e in g)
                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
"""
CPT = """                    elided_parent = t.has_elided_parent

                    if elided_parent:
                        # Elided parent terms refer to the last term that can be a parent
                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False

                    t.child_property_type = self._declared_terms \\
                        .get(t.join, {}) \\
                        .get('childpropertytype', 'any')

                    t.term_value_name = self._declared_terms \\
                        .get(t.join, {}) \\
                        .get('termvaluename', default_term_value_name)
"""
SYN = """                # Substitute synonyms
                if t.join_lc in self.synonyms:
                    t.parent_term, t.record_term = Term.split_term_lower(self.synonyms[t.join_lc]);
"""
FOR = "            for i, t in enumerate(self.generate_terms(target, self.root)):\n"
SUPER = """        return {k.lower(): Term.normalize_term(v['inheritsfrom'])
                for k, v in self._declared_terms.items() if v.get('inheritsfrom')}
"""
DECLS = """        rg = self.resolver.get_row_generator([['Declare', dcl] for dcl in decls if dcl not in extant_decls],
"""
MUTANTS += [
 ('c20 no clear', ['C20'], [('parser.py', "            self.add_value_set_value(t)\n\n        self.super_terms.cache_clear()\n", "            self.add_value_set_value(t)\n")]),
 ('c20 clear first', ['C20'], [('parser.py', "            self.add_value_set_value(t)\n\n        self.super_terms.cache_clear()\n", "            self.add_value_set_value(t)\n"), ('parser.py', "    def manage_declare_terms(self, t):\n", "    def manage_declare_terms(self, t):\n        self.super_terms.cache_clear()\n")]),
 ('c20 clear some', ['C20'], [('parser.py', "        self.super_terms.cache_clear()\n", "        if t.term_is('root.declaresection'):\n            self.super_terms.cache_clear()\n")]),
 ('c20 lru synonyms', ['C20'], [('parser.py', "    @property\n    def synonyms(self):\n", "    @property\n    @lru_cache()\n    def synonyms(self):\n")]),
 ('c20 memo synonyms', ['C20'], [('parser.py', '        """Return a dict of term synonyms"""\n        syns = {}\n', '        """Return a dict of term synonyms"""\n        if getattr(self, \'_synonyms\', None):\n            return self._synonyms\n\n        syns = {}\n'), ('parser.py', "        return syns\n", "        self._synonyms = syns\n        return syns\n")]),
 ('c20 hoisted synonyms', ['C20'], [('parser.py', FOR, "            synonyms = self.synonyms\n\n" + FOR), ('parser.py', SYN, SYN.replace('self.synonyms', 'synonyms'))]),
 ('c20 class memo', ['C20'], [('parser.py', "        tnl = Term.normalize_term(term_name)\n\n        try:\n            return import_name_or_class(self.term_classes[tnl])\n        except KeyError:\n            pass\n\n        try:\n            return import_name_or_class(self.term_classes[self.super_terms()[tnl]])\n        except KeyError:\n            pass\n\n        return Term\n", "        tnl = Term.normalize_term(term_name)\n\n        if tnl not in self._classes:\n            try:\n                self._classes[tnl] = import_name_or_class(self.term_classes[tnl])\n            except KeyError:\n                try:\n                    self._classes[tnl] = import_name_or_class(self.term_classes[self.super_terms()[tnl]])\n                except KeyError:\n                    self._classes[tnl] = Term\n\n        return self._classes[tnl]\n"), ('parser.py', "        self.errors = set()\n", "        self.errors = set()\n        self._classes = {}\n")]),
 ('c20 lookup early', ['C20'], [('parser.py', CPT, CPT.split("\n\n", 2)[2] + "\n" + CPT.split("\n\n", 2)[0] + "\n\n" + CPT.split("\n\n", 2)[1] + "\n")]),
 ('c20 lookup before synonym', ['C20'], [('parser.py', SYN, "                declared = self._declared_terms.get(t.join, {})\n\n" + SYN), ('parser.py', "                    t.term_value_name = self._declared_terms \\\n                        .get(t.join, {}) \\\n", "                    t.term_value_name = declared \\\n")]),
 ('c20 table copy', ['C20'], [('parser.py', FOR, "            declared = dict(self._declared_terms)\n\n" + FOR), ('parser.py', "                    t.term_value_name = self._declared_terms \\\n", "                    t.term_value_name = declared \\\n")]),
 ('c20 first wins', ['C20'], [('parser.py', "        self._declared_terms[term_name] = td\n", "        self._declared_terms.setdefault(term_name, td)\n")]),
 ('c20 known skip', ['C20'], [('parser.py', "        td = {k: v for k, v in t.arg_props.items() if v.strip()}\n", "        if term_name in self._declared_terms:\n            return\n\n        td = {k: v for k, v in t.arg_props.items() if v.strip()}\n")]),
 ('c20 section once', ['C20'], [('parser.py', "        self._declared_sections[t.value.lower()] = {\n", "        if t.value.lower() in self._declared_sections:\n            return\n\n        self._declared_sections[t.value.lower()] = {\n")]),
 ('c20 props only known', ['C20'], [('parser.py', "for k, v in t.arg_props.items() if v.strip()}", "for k, v in t.arg_props.items() if v.strip() and k != 'synonym'}")]),
 ('c20 no inherited', ['C20'], [('parser.py', "        for t in self.inherited_children(td):\n            self._declared_terms[Term.normalize_term(t['term'])] = t\n", "        for t in self.inherited_children(td):\n")]),
 ('c20 derived first', ['C20'], [('doc.py', LDD, LDD.split("\n\n", 1)[1] + "\n" + LDD.split("\n\n", 1)[0] + "\n")]),
 ('c20 derived unsorted', ['C20'], [('doc.py', "groupby(sorted(self.super_terms.items(), key=kf), kf)", "groupby(self.super_terms.items(), kf)")]),
 ('c20 derived key', ['C20'], [('doc.py', "groupby(sorted(self.super_terms.items(), key=kf), kf)", "groupby(sorted(self.super_terms.items()), kf)")]),
 ('c20 derived new only', ['C20'], [('doc.py', "groupby(sorted(self.super_terms.items(), key=kf), kf)", "groupby(sorted(terms.super_terms().items(), key=kf), kf)")]),
 ('c20 terms kept', ['C20'], [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        for k, v in dd['terms'].items():\n            self.decl_terms.setdefault(k, v)\n")]),
 ('c20 terms new', ['C20'], [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        self.decl_terms.update((k, v) for k, v in dd['terms'].items() if k not in self.decl_terms)\n")]),
 ('c20 terms loop new', ['C20'], [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        for k, v in dd['terms'].items():\n            if k not in self.decl_terms:\n                self.decl_terms[k] = v\n")]),
 ('c20 no sections', ['C20'], [('doc.py', "        self.decl_sections.update(dd['sections'])\n", "")]),
 ('c20 sections if empty', ['C20'], [('doc.py', "        self.decl_sections.update(dd['sections'])\n", "        if not self.decl_sections:\n            self.decl_sections.update(dd['sections'])\n")]),
 ('c20 load before', ['C20'], [('doc.py', "        list(term_interp)\n\n        self._load_declare_dict(term_interp)\n", "        self._load_declare_dict(term_interp)\n\n        list(term_interp)\n")]),
 ('c20 load first', ['C20'], [('doc.py', "        list(term_interp)\n\n        self._load", "        next(iter(term_interp))\n\n        self._load")]),
 ('c20 no load', ['C20'], [('doc.py', "        list(term_interp)\n\n        self._load", "        self._load")]),
 ('c20 terms before rows', ['C20'], [('doc.py', "        try:\n            self._load_declare_dict(terms)\n\n        except AttributeError as e:\n            pass\n\n", ""), ('doc.py', "        for t in terms:\n\n            t.doc = self\n", "        try:\n            self._load_declare_dict(terms)\n        except AttributeError as e:\n            pass\n\n        for t in terms:\n\n            t.doc = self\n")]),
 ('c20 not seeded', ['C20'], [('parser.py', "            self._declared_sections.update(self.doc.decl_sections)\n", "")]),
 ('c20 seeded part', ['C20'], [('parser.py', "            self._declared_terms.update(self.doc.decl_terms)\n", "            self._declared_terms.update((k, v) for k, v in self.doc.decl_terms.items() if not v.get('synonym'))\n")]),
 ('c20 decl after', ['C20'], [('doc.py', "        self.load_declarations(self.decls)\n\n", ""), ('doc.py', "            try:\n                self.load_terms(self._term_parser)\n", "            self.load_declarations(self.decls)\n\n            try:\n                self.load_terms(self._term_parser)\n")]),
 ('c20 decl first', ['C20'], [('doc.py', "        self.load_declarations(self.decls)\n\n", "        self.load_declarations(self.decls[:1])\n\n")]),
 ('c20 decls filter', ['C20'], [('doc.py', DECLS, DECLS.replace("dcl not in extant_decls", "dcl not in extant_decls and dcl not in self.decls[:-1]"))]),
 ('c20 nested type', ['C20'], [('parser.py', "sub_type = 'declare' if file_type == 'declare' else t.record_term_lc", "sub_type = t.record_term_lc")]),
 ('c20 sub declare', ['C20'], [('parser.py', "sub_type = 'declare' if file_type == 'declare' else t.record_term_lc", "sub_type = file_type or t.record_term_lc")]),
 ('c20 columns', ['C20'], [('parser.py', "                        if not t.args:\n                            t.args = list(self._declared_sections.get(t.value.lower(), {}).get('args', []))\n", "")]),
 ('c20 new section', ['C20'], [('doc.py', "        if name.lower() in self.decl_sections:\n            s.args = list(self.decl_sections[name.lower()]['args'])\n\n", "")]),
 ('c20 new child', ['C20'], [('terms.py', "        c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)\n\n", "")]),
 ('c20 super filter', ['C20'], [('parser.py', SUPER, SUPER.replace("if v.get('inheritsfrom')", "if v.get('inheritsfrom') and v.get('section')"))]),
 ('c20 synonym filter', ['C20'], [('parser.py', "            if v.get('synonym'):\n", "            if v.get('synonym') and v.get('section'):\n")]),
 ('c20 declare once', ['C20'], [('parser.py', "                if t.file_type == 'declare':\n", "                if t.file_type == 'declare' and t.valid:\n")]),
 ('c20 route', ['C20'], [('parser.py', "        elif t.term_is('root.declareterm'):\n            self.add_declared_term(t)\n", "        elif t.term_is('root.declareterm') and t.section.name != 'Root':\n            self.add_declared_term(t)\n")]),
]
REFACTORINGS += [
 ('c20 derived loop', [('doc.py', LDD.split("\n\n", 1)[1], "        derived = {}\n        for name, super_term in self.super_terms.items():\n            derived.setdefault(super_term, set()).add(name)\n\n        self.derived_terms = derived\n")]),
 ('c20 derived defaultdict', [('doc.py', LDD.split("\n\n", 1)[1], "        from collections import defaultdict\n        derived = defaultdict(set)\n        for name, super_term in self.super_terms.items():\n            derived[super_term].add(name)\n\n        self.derived_terms = dict(derived)\n")]),
 ('c20 derived itemgetter', [('doc.py', LDD.split("\n\n", 1)[1], "        from operator import itemgetter\n        by_super = itemgetter(1)\n        pairs = sorted(self.super_terms.items(), key=by_super)\n        self.derived_terms = {k: {e[0] for e in g} for k, g in groupby(pairs, key=by_super)}\n")]),
 ('c20 derived comp', [('doc.py', LDD.split("\n\n", 1)[1], "        self.derived_terms = {s: {k for k, v in self.super_terms.items() if v == s}\n                              for s in self.super_terms.values()}\n")]),
 ('c20 derived method', [('doc.py', LDD.split("\n\n", 1)[1], "        self.derived_terms = self._derived(self.super_terms)\n\n    @staticmethod\n    def _derived(super_terms):\n" + LDD.split("\n\n", 1)[1].replace("self.derived_terms =", "return").replace("self.super_terms", "super_terms"))]),
 ('c20 publish attrs', [('doc.py', "        self.decl_terms.update(dd['terms'])\n        self.decl_sections.update(dd['sections'])\n", "        self.decl_sections.update(terms.declared_sections)\n        self.decl_terms.update(terms.declared_terms)\n")]),
 ('c20 publish loop', [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        for k, v in dd['terms'].items():\n            self.decl_terms[k] = v\n")]),
 ('c20 publish merge', [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        self.decl_terms = {**self.decl_terms, **dd['terms']}\n")]),
 ('c20 publish pairs', [('doc.py', "        self.decl_terms.update(dd['terms'])\n        self.decl_sections.update(dd['sections'])\n", "        for table, found in ((self.decl_terms, dd['terms']), (self.decl_sections, dd['sections'])):\n            table.update(found)\n")]),
 ('c20 for drain', [('doc.py', "        list(term_interp)\n\n        self._load", "        for _ in term_interp:\n            pass\n\n        self._load")]),
 ('c20 inline load', [('doc.py', "        list(term_interp)\n\n        self._load_declare_dict(term_interp)\n", "        parsed = list(term_interp)\n        logger.debug('%d terms', len(parsed))\n\n        self._load_declare_dict(term_interp)\n")]),
 ('c20 super property', [('parser.py', SUPER, "        supers = {}\n        for k, v in self._declared_terms.items():\n            inherits = v.get('inheritsfrom')\n            if inherits:\n                supers[k.lower()] = Term.normalize_term(inherits)\n\n        return supers\n")]),
 ('c20 no cache', [('parser.py', "    @lru_cache()\n    def super_terms", "    def super_terms"), ('parser.py', "            self.add_value_set_value(t)\n\n        self.super_terms.cache_clear()\n", "            self.add_value_set_value(t)\n")]),
 ('c20 manual cache', [('parser.py', "    @lru_cache()\n    def super_terms(self):\n", "    def super_terms(self):\n"), ('parser.py', SUPER, "        if self._super is None:\n            self._super = {k.lower(): Term.normalize_term(v['inheritsfrom'])\n                           for k, v in self._declared_terms.items() if v.get('inheritsfrom')}\n\n        return self._super\n"), ('parser.py', "        self.super_terms.cache_clear()\n", "        self._super = None\n"), ('parser.py', "        self.errors = set()\n", "        self.errors = set()\n        self._super = None\n")]),
 ('c20 decl local', [('parser.py', CPT, CPT.split("\n\n", 2)[0] + "\n\n" + CPT.split("\n\n", 2)[1] + "\n\n                    declared = self._declared_terms.get(t.join, {})\n\n                    t.child_property_type = declared.get('childpropertytype', 'any')\n                    t.term_value_name = declared.get('termvaluename', default_term_value_name)\n")]),
 ('c20 decl helper', [('parser.py', CPT, CPT.split("\n\n", 2)[0] + "\n\n" + CPT.split("\n\n", 2)[1] + "\n\n                    t.child_property_type = self._declared(t, 'childpropertytype', 'any')\n                    t.term_value_name = self._declared(t, 'termvaluename', default_term_value_name)\n"), ('parser.py', "    def manage_declare_terms(self, t):\n", "    def _declared(self, t, prop, default):\n        return self._declared_terms.get(t.join, {}).get(prop, default)\n\n    def manage_declare_terms(self, t):\n")]),
 ('c20 syn helper', [('parser.py', SYN, "                self.substitute_synonym(t)\n")]),
 ('c20 syn local', [('parser.py', SYN, "                synonym = self.synonyms.get(t.join_lc)\n                if synonym:\n                    t.parent_term, t.record_term = Term.split_term_lower(synonym)\n")]),
 ('c20 table alias', [('parser.py', FOR, "            declared = self._declared_terms\n\n" + FOR), ('parser.py', "                    t.term_value_name = self._declared_terms \\\n", "                    t.term_value_name = declared \\\n")]),
 ('c20 td update', [('parser.py', "        td = {k: v for k, v in t.arg_props.items() if v.strip()}\n        td['values'] = {}\n        td['term'] = t.value\n", "        td = {'values': {}, 'term': t.value}\n        for k, v in t.arg_props.items():\n            if v.strip() and k not in ('values', 'term'):\n                td[k] = v\n")]),
 ('c20 section dict', [('parser.py', "        self._declared_sections[t.value.lower()] = {\n            'args': [e.strip() for e in t.args if e.strip()],  # FIXME Very suspicious\n            'terms': []\n        }\n", "        args = []\n        for e in t.args:\n            e = e.strip()\n            if e:\n                args.append(e)\n\n        self._declared_sections[t.value.lower()] = dict(args=args, terms=[])\n")]),
 ('c20 manage order', [('parser.py', "        if t.term_is('root.declaresection'):\n            self.add_declared_section(t)\n\n        elif t.term_is('root.declareterm'):\n            self.add_declared_term(t)\n", "        if t.term_is('root.declareterm'):\n            self.add_declared_term(t)\n\n        elif t.term_is('root.declaresection'):\n            self.add_declared_section(t)\n")]),
 ('c20 manage dispatch', [('parser.py', "        if t.term_is('root.declaresection'):\n            self.add_declared_section(t)\n\n        elif t.term_is('root.declareterm'):\n            self.add_declared_term(t)\n\n        elif t.term_is('value.*'):\n            self.add_value_set_value(t)\n", "        for name, add in (('root.declaresection', self.add_declared_section), ('root.declareterm', self.add_declared_term),\n                          ('value.*', self.add_value_set_value)):\n            if t.term_is(name):\n                add(t)\n                break\n")]),
 ('c20 sub type if', [('parser.py', "sub_type = 'declare' if file_type == 'declare' else t.record_term_lc\n", "sub_type = t.record_term_lc\n                        if file_type == 'declare':\n                            sub_type = file_type\n")]),
 ('c20 columns local', [('parser.py', "                        if not t.args:\n                            t.args = list(self._declared_sections.get(t.value.lower(), {}).get('args', []))\n", "                        declared = self._declared_sections.get(t.value.lower())\n                        if declared and not t.args:\n                            t.args = list(declared['args'])\n")]),
 ('c20 decls loop', [('doc.py', DECLS, "        rows = []\n        for dcl in decls:\n            if dcl in extant_decls:\n                continue\n            rows.append(['Declare', dcl])\n\n        rg = self.resolver.get_row_generator(rows,\n")]),
 ('c20 ctor', [('doc.py', "        if decl is None:\n            self.decls = []\n        elif not isinstance(decl, MutableSequence):\n            self.decls = [decl]\n        else:\n            self.decls = decl\n", "        if isinstance(decl, MutableSequence):\n            self.decls = decl\n        else:\n            self.decls = [] if decl is None else [decl]\n")]),
]

# ---- C25
INC = """                        if t.term_is('include'):
                            resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
                        else:
                            resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
"""
ARGC = """                    for col, value in enumerate(t.args, 0):
                        if str(value).strip():
"""
REFP = """        if isinstance(ref, Source):
            row_gen = ref
            # Generators of rows or text that isn't in a file don't have a path
            ref_path = getattr(row_gen.ref, 'path', None) or row_gen.__class__.__name__
        else:
            row_gen = get_generator(ref)
            ref_path = ref.path
"""
OUTER = """        except IncludeError as e:
            exc = IncludeError(str(e) + "; in '{}' ".format(ref_path))
            exc.term = e.term if hasattr(e, 'term') else None
            raise exc
"""
INNER = """                    except IncludeError as e:
                        if getattr(e, 'term', None) is None:  # Otherwise, it is from a nested document
                            e.term = include_term
                        raise
"""
ERRD = """        errors = []

        for e in sorted(self.errors, key=str):

            errors.append({
                'file': e.term.file_name if e.term else '<unknown>',
                'row': e.term.row if e.term else '<unknown>',
                'col': e.term.col if e.term else '<unknown>',
                'term': e.term.join if e.term else '<unknown>',
                'error': str(e)
            })

        return errors
"""
MUTANTS += [
 ('c25 doc dir', ['C25'], [('parser.py', INC, INC.replace('dirname(ref_path)', 'self.doc.doc_dir'))]),
 ('c25 doc dir declare', ['C25'], [('parser.py', INC, INC.replace('find_declare_doc(dirname(ref_path)', 'find_declare_doc(self.doc.doc_dir'))]),
 ('c25 top ref', ['C25'], [('parser.py', INC, INC.replace('dirname(ref_path)', 'dirname(self._ref.path)'))]),
 ('c25 including dir', ['C25'], [('parser.py', INC, INC.replace('dirname(ref_path)', 'dirname(including[0])'))]),
 ('c25 no dirname', ['C25'], [('parser.py', INC, INC.replace('dirname(ref_path)', 'ref_path'))]),
 ('c25 cwd', ['C25'], [('parser.py', INC, INC.replace('find_declare_doc(dirname(ref_path)', "find_declare_doc('.'"))]),
 ('c25 source path', ['C25'], [('parser.py', "getattr(row_gen.ref, 'path', None) or row_gen.__class__.__name__", "self._ref.path")]),
 ('c25 first path', ['C25'], [('parser.py', REFP, REFP + "\n        if not including:\n            self._path = ref_path\n\n        ref_path = self._path\n")]),
 ('c25 include cwd', ['C25'], [('parser.py', "            path = realpath(join(d, include_ref))\n", "            path = realpath(include_ref if exists(include_ref) else join(d, include_ref))\n")]),
 ('c25 declare no dir', ['C25'], [('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n\n", "")]),
 ('c25 declare wrong path', ['C25'], [('parser.py', "                    path = realpath(fn)\n", "                    path = realpath(name)\n")]),
 ('c25 row zero', ['C25'], [('parser.py', "enumerate(row_gen, 1)", "enumerate(row_gen)")]),
 ('c25 row skip', ['C25'], [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            for line_n, row in enumerate((r for r in row_gen if r), 1):\n")]),
 ('c25 row count', ['C25'], [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            line_n = 0\n            for row in row_gen:\n"), ('parser.py', "                tt = Term(row[0], None) # Just", "                line_n += 1\n                tt = Term(row[0], None) # Just")]),
 ('c25 arg row', ['C25'], [('parser.py', "                                       row=line_n,\n", "                                       row=col,\n")]),
 ('c25 arg col', ['C25'], [('parser.py', "col=col + 2,", "col=col + 1,")]),
 ('c25 arg skip', ['C25'], [('parser.py', ARGC, "                    for col, value in enumerate([v for v in t.args if str(v).strip()], 0):\n                        if str(value).strip():\n")]),
 ('c25 arg file', ['C25'], [('parser.py', "                                       file_name=ref_path,\n", "                                       file_name=self.path,\n")]),
 ('c25 term file', ['C25'], [('parser.py', "file_name=ref_path, file_type=file_type, doc=self.doc)", "file_name=root.file_name, file_type=file_type, doc=self.doc)")]),
 ('c25 no term', ['C25'], [('parser.py', "            exc.term = e.term if hasattr(e, 'term') else None\n", "            exc.term = None\n")]),
 ('c25 lost document', ['C25'], [('parser.py', "str(e) + \"; in '{}' \".format(ref_path)", "str(e)")]),
 ('c25 old term', ['C25'], [('parser.py', INNER, INNER.replace("                        if getattr(e, 'term', None) is None:  # Otherwise, it is from a nested document\n                            e.term = include_term\n", "                        e.term = t\n"))]),
 ('c25 outer term', ['C25'], [('parser.py', INNER, INNER.replace("                        if getattr(e, 'term', None) is None:  # Otherwise, it is from a nested document\n                            e.term = include_term\n", "                        e.term = include_term\n"))]),
 ('c25 os term', ['C25'], [('parser.py', "                        e = IncludeError(\"Failed to Include; {}\".format(e))\n                        e.term = include_term\n", "                        e = IncludeError(\"Failed to Include; {}\".format(e))\n                        e.term = t\n")]),
 ('c25 os no term', ['C25'], [('parser.py', "                        e = IncludeError(\"Failed to Include; {}\".format(e))\n                        e.term = include_term\n", "                        e = IncludeError(\"Failed to Include; {}\".format(e))\n")]),
 ('c25 no generator error', ['C25'], [('parser.py', "(OSError,  FileNotFoundError, GenerateError, RowGeneratorError)", "(OSError,  FileNotFoundError, GenerateError)")]),
 ('c25 only missing', ['C25'], [('parser.py', "(OSError,  FileNotFoundError, GenerateError, RowGeneratorError)", "(FileNotFoundError, GenerateError, RowGeneratorError)")]),
 ('c25 find outside', ['C25'], [('parser.py', "                    try:\n\n" + INC, INC.replace("                        if", "                    if").replace("                        else", "                    else").replace("                            resolved", "                        resolved") + "\n                    try:\n")]),
 ('c25 swapped', ['C25'], [('parser.py', "'row': e.term.row if", "'row': e.term.col if")]),
 ('c25 report file', ['C25'], [('parser.py', "'file': e.term.file_name if", "'file': self.path if")]),
 ('c25 report one', ['C25'], [('parser.py', "sorted(self.errors, key=str):", "sorted(self.errors, key=str)[-1:]:")]),
 ('c25 section col', ['C25'], [('terms.py', "row=row, col=col, file_name=file_name", "row=row, col=row, file_name=file_name")]),
 ('c25 term row', ['C25'], [('terms.py', "        self.row = row\n", "        self.row = row or col\n")]),
 ('c25 renumber', ['C25'], [('parser.py', "                t.section = last_section\n", "                t.section = last_section\n                t.row = i\n")]),
 ('c25 moved file', ['C25'], [('doc.py', "            t.doc = self\n\n            if t.term_is('root.root')", "            t.doc = self\n            t.file_name = self.root.file_name\n\n            if t.term_is('root.root')")]),
 ('c25 wrong nested', ['C25'], [('parser.py', "for t in self.generate_terms(sub_gen, last_section", "for t in self.generate_terms(row_gen, last_section")]),
]
REFACTORINGS += [
 ('c25 split', [('parser.py', INC, INC.replace('dirname(ref_path)', 'split(ref_path)[0]')), ('parser.py', "from os.path import dirname, join, exists, realpath", "from os.path import dirname, join, exists, realpath, split")]),
 ('c25 dir local', [('parser.py', REFP, REFP + "\n        ref_dir = dirname(ref_path)\n"), ('parser.py', INC, INC.replace('dirname(ref_path)', 'ref_dir'))]),
 ('c25 path helper', [('parser.py', REFP, "        row_gen, ref_path = self._open(ref)\n"), ('parser.py', "    def generate_terms(self,", "    def _open(self, ref):\n" + REFP + "\n        return row_gen, ref_path\n\n    def generate_terms(self,")]),
 ('c25 find choice', [('parser.py', INC, "                        find = self.find_include_doc if t.term_is('include') else self.find_declare_doc\n                        resolved = find(dirname(ref_path), t.value.strip())\n")]),
 ('c25 find helper', [('parser.py', INC, "                        resolved = self._find_nested(t, dirname(ref_path))\n"), ('parser.py', "    def generate_terms(self,", "    def _find_nested(self, t, d):\n        name = t.value.strip()\n\n        if t.term_is('include'):\n            return self.find_include_doc(d, name)\n\n        return self.find_declare_doc(d, name)\n\n    def generate_terms(self,")]),
 ('c25 counter', [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            line_n = 0\n            for row in row_gen:\n                line_n += 1\n")]),
 ('c25 arg enumerate', [('parser.py', "enumerate(t.args, 0)", "enumerate(t.args)")]),
 ('c25 arg enumerate two', [('parser.py', "enumerate(t.args, 0)", "enumerate(t.args, 2)"), ('parser.py', "col=col + 2,", "col=col,"), ('parser.py', "'.' + str(col)\n", "'.' + str(col - 2)\n")]),
 ('c25 arg helper', [('parser.py', "                    for col, value in enumerate(t.args, 0):\n                        if str(value).strip():\n", "                    for col, value in self._arguments(t):\n                        if True:\n"), ('parser.py', "    def generate_terms(self,", "    @staticmethod\n    def _arguments(t):\n        return [(col, value) for col, value in enumerate(t.args) if str(value).strip()]\n\n    def generate_terms(self,")]),
 ('c25 location dict', [('parser.py', "                t = term_class(tt.join_lc,\n", "                where = dict(file_name=ref_path, row=line_n)\n\n                t = term_class(tt.join_lc,\n"), ('parser.py', "                         row=line_n,\n                         col=1,\n                         file_name=ref_path, file_type=file_type, doc=self.doc)", "                         col=1, file_type=file_type, doc=self.doc, **where)")]),
 ('c25 nested name', [('parser.py', "                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                     including=including, header=last_header):\n                            yield t\n", "                        for sub_term in self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                            including=including, header=last_header):\n                            yield sub_term\n"), ('parser.py', INNER, INNER.replace('include_term', 't'))]),
 ('c25 yield from', [('parser.py', "                        for t in self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                     including=including, header=last_header):\n                            yield t\n", "                        yield from self.generate_terms(sub_gen, last_section, file_type=sub_type,\n                                                       including=including, header=last_header)\n")]),
 ('c25 hasattr', [('parser.py', INNER, INNER.replace("if getattr(e, 'term', None) is None:", "if not hasattr(e, 'term') or e.term is None:"))]),
 ('c25 term default', [('parser.py', INNER, INNER.replace("                        if getattr(e, 'term', None) is None:  # Otherwise, it is from a nested document\n                            e.term = include_term\n", "                        e.term = getattr(e, 'term', None) or include_term\n"))]),
 ('c25 outer getattr', [('parser.py', "            exc.term = e.term if hasattr(e, 'term') else None\n", "            exc.term = getattr(e, 'term', None)\n")]),
 ('c25 outer helper', [('parser.py', OUTER, "        except IncludeError as e:\n            raise self._in_document(e, ref_path)\n"), ('parser.py', "    def generate_terms(self,", "    @staticmethod\n    def _in_document(e, path):\n        exc = IncludeError(\"{}; in '{}' \".format(e, path))\n        exc.term = getattr(e, 'term', None)\n        return exc\n\n    def generate_terms(self,")]),
 ('c25 outer from', [('parser.py', OUTER, OUTER.replace("raise exc", "raise exc from e"))]),
 ('c25 error helper', [('parser.py', "                        e = IncludeError(\"Failed to Include; {}\".format(e))\n                        e.term = include_term\n                        raise e\n", "                        raise self._include_error(e, include_term)\n"), ('parser.py', "    def generate_terms(self,", "    @staticmethod\n    def _include_error(e, term):\n        exc = IncludeError(\"Failed to Include; {}\".format(e))\n        exc.term = term\n        return exc\n\n    def generate_terms(self,")]),
 ('c25 report comp', [('parser.py', ERRD, "        def where(e):\n            if not e.term:\n                return ('<unknown>',) * 4\n\n            return e.term.file_name, e.term.row, e.term.col, e.term.join\n\n        return [dict(zip(('file', 'row', 'col', 'term', 'error'), where(e) + (str(e),)))\n                for e in sorted(self.errors, key=str)]\n")]),
 ('c25 report helper', [('parser.py', ERRD, "        return [self._error_dict(e) for e in sorted(self.errors, key=str)]\n\n    @staticmethod\n    def _error_dict(e):\n        t = e.term\n\n        if not t:\n            return {'file': '<unknown>', 'row': '<unknown>', 'col': '<unknown>', 'term': '<unknown>', 'error': str(e)}\n\n        return {'file': t.file_name, 'row': t.row, 'col': t.col, 'term': t.join, 'error': str(e)}\n")]),
 ('c25 declare loop', [('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n\n", "            candidates = [join(d, name + ext) for ext in ('', '.csv')]\n            found = [fn for fn in candidates if exists(fn)]\n\n            if found:\n                path = realpath(found[0])\n                break\n\n")]),
 ('c25 declare flat', [('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n\n", "            fn = join(d, name)\n            if not exists(fn):\n                fn = join(d, name + '.csv')\n\n            if exists(fn):\n                path = realpath(fn)\n                break\n\n")]),
 ('c25 include flat', [('parser.py', "        if include_ref.startswith('http'):\n            path = include_ref\n        else:\n            if not d:\n                raise IncludeError(\"Can't include '{}' because don't know current path \"\n                                   .format(name))\n\n            # The real path, so that a loop of includes comes back to the same path\n            path = realpath(join(d, include_ref))\n\n        return parse_app_url(path)\n", "        if include_ref.startswith('http'):\n            return parse_app_url(include_ref)\n\n        if not d:\n            raise IncludeError(\"Can't include '{}' because don't know current path \".format(name))\n\n        # The real path, so that a loop of includes comes back to the same path\n        return parse_app_url(realpath(join(d, include_ref)))\n")]),
 ('c25 file name if', [('terms.py', "        if file_name:\n            self.file_name = slugify(basename(file_name))\n        else:\n            self.file_name = '<none>'\n", "        self.file_name = slugify(basename(file_name)) if file_name else '<none>'\n")]),
]

# ---- C04
D4 = "            for dt_ in ()"
MUTANTS += [
 ('c04 find derived', ['C04'], [('doc.py', "for dt in sorted(self.derived_terms.get(t, [])) + [t]:", "for dt in list(self.derived_terms.get(t, [])) + [t]:")]),
 ('c04 find derived union', ['C04'], [('doc.py', "for dt in sorted(self.derived_terms.get(t, [])) + [t]:", "for dt in self.derived_terms.get(t, set()) | {t}:")]),
 ('c04 find dedupe', ['C04'], [('doc.py', "            term = terms\n", "            term = list(set(terms))\n")]),
 ('c04 find key len', ['C04'], [('doc.py', "for dt in sorted(self.derived_terms.get(t, [])) + [t]:", "for dt in sorted(self.derived_terms.get(t, []), key=len) + [t]:")]),
 ('c04 clean schema', ['C04'], [('doc.py', "for arg in sorted(used_args - set(section_args)):", "for arg in used_args - set(section_args):")]),
 ('c04 clean schema list', ['C04'], [('doc.py', "            for arg in sorted(used_args - set(section_args)):\n                schema_section.add_arg(arg)\n", "            new = used_args.difference(section_args)\n            while new:\n                schema_section.add_arg(new.pop())\n")]),
 ('c04 clean schema args', ['C04'], [('doc.py', "            for arg in sorted(used_args - set(section_args)):\n                schema_section.add_arg(arg)\n", "            schema_section.args = list(used_args)\n")]),
 ('c04 sort sections', ['C04'], [('doc.py', "        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        sections.update((k, self.sections[k]) for k in set(self.sections).difference(order_lc))\n")]),
 ('c04 sort sections loop', ['C04'], [('doc.py', "        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        rest = {k for k in self.sections if k not in order_lc}\n        for k in rest:\n            sections[k] = self.sections[k]\n")]),
 ('c04 all terms', ['C04'], [('doc.py', "                for d in rterm.descendents:\n                    yield d\n", "                for d in set(rterm.descendents):\n                    yield d\n")]),
 ('c04 as_dict', ['C04'], [('doc.py', "            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "            for t in frozenset(s):\n                r.terms.append(t)\n")]),
 ('c04 errors', ['C04'], [('parser.py', "for e in sorted(self.errors, key=str):", "for e in self.errors:")]),
 ('c04 identity time', ['C04'], [('doc.py', "        time = self.find_first_value('Root.Time', section='Root')\n", "        import datetime\n        time = self.find_first_value('Root.Time', section='Root') or datetime.date.today().year\n")]),
 ('c04 identity uuid', ['C04'], [('doc.py', "        variant = self.find_first_value('Root.Variant', section='Root')\n", "        from uuid import uuid4\n        variant = self.find_first_value('Root.Variant', section='Root') or str(uuid4())\n")]),
 ('c04 uuid name', ['C04'], [('doc.py', "            identifier.value = str(uuid4())\n", "            identifier.value = str(uuid4())\n            self['Root'].get_or_new_term('Root.Name').value = str(uuid4())\n")]),
 ('c04 sort id', ['C04'], [('terms.py', "            self.terms = sorted(self.terms, key=lambda e: e.join_lc)\n", "            self.terms = sorted(self.terms, key=lambda e: (e.join_lc, id(e)))\n")]),
 ('c04 sort hash', ['C04'], [('terms.py', "            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))\n", "            all_terms.sort(key=hash)\n            sorted_terms.extend(all_terms)\n")]),
 ('c04 sort set', ['C04'], [('terms.py', "            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))\n", "            sorted_terms.extend(set(self.terms) - set(sorted_terms))\n")]),
 ('c04 property names', ['C04'], [('terms.py', "        if self.header_args:\n            return self.header_args\n        else:\n            return self.args\n", "        return list({e for e in self.header_args or self.args})\n")]),
 ('c04 remove arg', ['C04'], [('terms.py', "        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)\n", "        self.args = list(set(self.args) - {arg})\n")]),
 ('c04 props', ['C04'], [('terms.py', "        return {t.record_term_lc: t.value for t in self.children}\n", "        names = set(t.record_term_lc for t in self.children)\n        return {n: self.find_first_value(n) for n in names}\n")]),
 ('c04 args rest', ['C04'], [('terms.py', "        for n in [tvm] + self.property_names:\n            args.append(lower_d.get(n.lower(), ''))\n", "        for n in [tvm] + list(set(self.property_names)):\n            args.append(lower_d.get(n.lower(), ''))\n")]),
 ('c04 get table', ['C04'], [('cli.py', "        table_names = [\"'\" + t.value + \"'\" for t in doc.find('Root.Table')]\n", "        table_names = {\"'\" + t.value + \"'\" for t in doc.find('Root.Table')}\n")]),
 ('c04 dp resources', ['C04'], [('datapackage.py', "    for r in file_resources:\n", "    for r in {id(e): e for e in set(doc['resources'])}.values():\n        r = r.arg_props\n")]),
 ('c04 dp timestamp', ['C04'], [('datapackage.py', "    dp['resources'] = []\n", "    import time\n    dp['created'] = time.strftime('%Y')\n    dp['resources'] = []\n")]),
 ('c04 dp hash', ['C04'], [('datapackage.py', "            dp['name'] = dp['indentifier']\n", "            dp['name'] = hash(dp['indentifier'])\n")]),
 ('c04 decl search', ['C04'], [('util.py', "    path = join(d, name)\n", "    import glob\n    path = next(iter(glob.glob(join(d, name + '*'))), join(d, name))\n")]),
 ('c04 super terms', ['C04'], [('parser.py', "        return {k.lower(): Term.normalize_term(v['inheritsfrom'])\n                for k, v in self._declared_terms.items() if v.get('inheritsfrom')}\n", "        names = set(self._declared_terms)\n        return {k.lower(): Term.normalize_term(self._declared_terms[k]['inheritsfrom']) for k in names if self._declared_terms[k].get('inheritsfrom')}\n")]),
 ('c04 helper', ['C04'], [('doc.py', "            term = terms\n", "            term = self._unique(terms)\n"), ('doc.py', "    def find_first(self,", "    @staticmethod\n    def _unique(names):\n        seen = set()\n        for n in names:\n            seen.add(n)\n        return [n for n in seen]\n\n    def find_first(self,")]),
 ('c04 attr', ['C04'], [('doc.py', "        self.errors = []\n", "        self.errors = []\n        self._order = set()\n"), ('doc.py', "        self.sections = sections\n", "        self._order.update(sections)\n        self.sections = OrderedDict((k, sections[k]) for k in self._order)\n")]),
 ('c04 error message', ['C04'], [('datapackage.py', "            raise ConversionError(\"Datapackage.json requires a Name or Identity term\")\n", "            raise ConversionError(\"Datapackage.json requires a Name or Identity term, not {}\".format(set(dp)))\n")]),
 ('c04 first of set', ['C04'], [('doc.py', "            term = terms\n", "            term = terms\n            rest = set(terms)\n            first, *_ = rest\n            if first:\n                term.remove(first)\n                term.insert(0, first)\n")]),
]
REFACTORINGS += [
 ('c04 named set', [('doc.py', "            for arg in sorted(used_args - set(section_args)):\n", "            missing = used_args.difference(section_args)\n            missing = sorted(missing)\n            for arg in missing:\n")]),
 ('c04 sort in place', [('doc.py', "            for arg in sorted(used_args - set(section_args)):\n", "            missing = [a for a in used_args if a not in section_args]\n            missing.sort()\n            for arg in missing:\n")]),
 ('c04 unused loop', [('doc.py', "            for arg in set(section_args) - used_args:\n", "            for arg in [e for e in section_args if e not in used_args]:\n")]),
 ('c04 order set', [('doc.py', "        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        known = set(order_lc)\n        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in known)\n")]),
 ('c04 seen set', [('doc.py', "                for dt in sorted(self.derived_terms.get(t, [])) + [t]:\n                    if dt not in terms:\n                        terms.append(dt)\n", "                for dt in sorted(self.derived_terms.get(t, [])) + [t]:\n                    if dt not in seen:\n                        seen.add(dt)\n                        terms.append(dt)\n"), ('doc.py', "            terms = []\n            for t in [term]", "            terms = []\n            seen = set()\n            for t in [term]")]),
 ('c04 identifier helper', [('doc.py', "            identifier.value = str(uuid4())\n", "            identifier.value = self._new_identifier()\n"), ('doc.py', "    def ensure_identifier(self):\n", "    @staticmethod\n    def _new_identifier():\n        from uuid import uuid4\n        return str(uuid4())\n\n    def ensure_identifier(self):\n")]),
 ('c04 identifier value', [('doc.py', "            identifier.value = str(uuid4())\n", "            value = str(uuid4())\n            identifier.value = value\n")]),
 ('c04 identifier uuid module', [('doc.py', "        from uuid import uuid4\n", "        import uuid\n"), ('doc.py', "            identifier.value = str(uuid4())\n", "            identifier.value = '{}'.format(uuid.uuid4())\n")]),
 ('c04 errors sorted', [('parser.py', "        errors = []\n\n        for e in sorted(self.errors, key=str):\n", "        errors = []\n        found = list(self.errors)\n        found.sort(key=str)\n\n        for e in found:\n")]),
 ('c04 errors helper', [('parser.py', "for e in sorted(self.errors, key=str):", "for e in self._sorted_errors():"), ('parser.py', "    def errors_as_dict(self):", "    def _sorted_errors(self):\n        return sorted(self.errors, key=lambda e: str(e))\n\n    def errors_as_dict(self):")]),
 ('c04 derived lists', [('doc.py', "        self.derived_terms = {k: set(e[0] for e in g)\n", "        self.derived_terms = {k: frozenset(e[0] for e in g)\n")]),
 ('c04 seen ids', [('doc.py', "            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "            for t in s:  # Iterate over the terms in each section.\n                if id(t) not in seen:\n                    seen.add(id(t))\n                    r.terms.append(t)\n"), ('doc.py', "        r = RootSectionTerm(doc=self)\n", "        r = RootSectionTerm(doc=self)\n        seen = set()\n")]),
 ('c04 extensions set', [('cli.py', "        if not table_names:\n", "        names = set(table_names)\n        if not names or len(names) < 1:\n")]),
 ('c04 used set comp', [('doc.py', "            used_args = set()\n", "            used_args = set()\n            used_args |= set()\n")]),
 ('c04 mtime', [('doc.py', "            self._mtime = time()\n", "            now = time()\n            self._mtime = now\n")]),
]

# ---- writing, files, output, assertions, references
W = "        content = content.encode('utf8')\n\n        with path.open('wb') as f:\n            f.write(content)\n"
WC = "        self.cleanse()\n\n        return self._write(self.as_csv(), path)\n"
WL = "        self.cleanse()\n\n        return self._write(self.as_lines(), path)\n"
SC = "        if path.suffix != '.csv':\n            raise MetatabError(\"Writing CSV file, but extension is wrong: {} \".format(str(path)))\n"
SL = "        if path.suffix != '.txt':\n            raise MetatabError(\"Writing line (txt) file, but extension is wrong: {} \".format(str(path)))\n"
CW = "            content = t.encode('utf8')\n\n            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                f.write(content)\n"
EI = "        if not identifier.value:\n            identifier.value = str(uuid4())\n"
MUTANTS += [
 ('c05 encode in with', ['C05'], [('doc.py', W, "        with path.open('wb') as f:\n            f.write(content.encode('utf8'))\n")]),
 ('c05 text mode', ['C05'], [('doc.py', W, "        with path.open('w', encoding='utf8') as f:\n            f.write(content)\n")]),
 ('c05 write_text', ['C05'], [('doc.py', W, "        path.write_text(content, encoding='utf8')\n")]),
 ('c05 unlink first', ['C05'], [('doc.py', W, "        if path.exists():\n            path.unlink()\n\n" + W)]),
 ('c05 touch', ['C05'], [('doc.py', SC, "        path.touch()\n\n" + SC)]),
 ('c05 backup rename', ['C05'], [('doc.py', WC, "        self.cleanse()\n\n        if path.exists():\n            path.rename(path.with_suffix('.bak'))\n\n        return self._write(self.as_csv(), path)\n")]),
 ('c05 unlink on error', ['C05'], [('doc.py', WL, "        self.cleanse()\n\n        try:\n            return self._write(self.as_lines(), path)\n        except Exception:\n            if path.exists():\n                path.unlink()\n            raise\n")]),
 ('c05 render in open', ['C05'], [('doc.py', WC, "        self.cleanse()\n\n        with path.open('wb') as f:\n            f.write(self.as_csv().encode('utf8'))\n\n        return path\n")]),
 ('c05 lazy content', ['C05'], [('doc.py', WC, "        self.cleanse()\n\n        return self._write(self.as_csv, path)\n"), ('doc.py', WL, "        self.cleanse()\n\n        return self._write(self.as_lines, path)\n"), ('doc.py', W, "        with path.open('wb') as f:\n            f.write(content().encode('utf8'))\n")]),
 ('c05 suffix after', ['C05', 'C17'], [('doc.py', SC, ""), ('doc.py', WC, "        self.cleanse()\n\n        self._write(self.as_csv(), path)\n\n" + SC + "\n        return path\n")]),
 ('c05 cli text mode', ['C05'], [('cli.py', CW, "            with metadata_url.fspath.with_suffix('.'+ext).open('w', encoding='utf8') as f:\n                f.write(t)\n")]),
 ('c05 cli lambda', ['C05'], [('cli.py', "            content = t.encode('utf8')\n\n            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                f.write(content)\n", "            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                f.write(t().encode('utf8'))\n"), ('cli.py', "        write_or_print(doc.as_lines())\n", "        write_or_print(doc.as_lines)\n")]),
 ('c05 cli truncate', ['C05'], [('cli.py', CW, "            open(metadata_url.fspath.with_suffix('.'+ext), 'wb').close()\n\n" + CW)]),
 ('c05 partial lines', ['C05'], [('doc.py', W, "        with path.open('wb') as f:\n            for line in content.splitlines(True):\n                f.write(line.encode('utf8'))\n")]),
 ('c06 render first', ['C06'], [('doc.py', WC, "        content = self.as_csv()\n        self.cleanse()\n\n        return self._write(content, path)\n")]),
 ('c06 no cleanse', ['C06'], [('doc.py', WL, "        return self._write(self.as_lines(), path)\n")]),
 ('c06 cleanse once', ['C06'], [('doc.py', WC, "        if not self.get_value('Root.Name'):\n            self.cleanse()\n\n        return self._write(self.as_csv(), path)\n")]),
 ('c06 cleanse try', ['C06'], [('doc.py', WC, "        try:\n            self.cleanse()\n        except Exception:\n            pass\n\n        return self._write(self.as_csv(), path)\n")]),
 ('c06 identifier none', ['C06'], [('doc.py', EI, "        if identifier.value is None:\n            identifier.value = str(uuid4())\n")]),
 ('c06 identifier length', ['C06'], [('doc.py', EI, "        if not identifier.value or len(identifier.value) != 36:\n            identifier.value = str(uuid4())\n")]),
 ('c06 identifier always', ['C06'], [('doc.py', EI, "        identifier.value = str(uuid4())\n")]),
 ('c06 identifier blank', ['C06'], [('doc.py', EI, "")]),
 ('c06 identifier missing only', ['C06'], [('doc.py', "            identifier = self['Root'].new_term('Root.Identifier', None)\n\n" + EI, "            identifier = self['Root'].new_term('Root.Identifier', str(uuid4()))\n")]),
 ('c06 version identifier', ['C06'], [('doc.py', "    def _has_semver(self):\n", "    def renew_identifier(self):\n        from uuid import uuid4\n        self.find_first('Root.Identifier').value = str(uuid4())\n\n    def _has_semver(self):\n"), ('doc.py', "        if not version:\n            version = self['Root'].find_first('Root.Version')\n\n        if not version:\n            return None\n\n        major", "        if not version:\n            version = self['Root'].find_first('Root.Version')\n\n        if not version:\n            return None\n\n        self.renew_identifier()\n\n        major")]),
 ('c06 section removed', ['C06'], [('doc.py', "        identifier = self.find_first('Root.Identifier', section='Root')\n\n        if not identifier:\n", "        identifier = self.find_first('Root.Identifier', section='Root')\n\n        if not identifier or identifier.value == self.get_value('Root.Name'):\n            if identifier:\n                self.remove_term(identifier)\n")]),
 ('c07 default encoding', ['C07'], [('rowgen.py', "with open(self.url.fspath, encoding='utf8') as f:", "with open(self.url.fspath) as f:")]),
 ('c07 latin', ['C07'], [('rowgen.py', "with ref.open(encoding='utf8') as r:", "with ref.open(encoding='latin1') as r:")]),
 ('c07 read_text', ['C07'], [('rowgen.py', "                with ref.inner.fspath.open(encoding='utf8') as f:\n                    text = f.read()\n", "                text = ref.inner.fspath.read_text()\n")]),
 ('c07 locale', ['C07'], [('doc.py', "        content = content.encode('utf8')\n", "        import locale\n        content = content.encode(locale.getpreferredencoding(False))\n")]),
 ('c07 fallback', ['C07'], [('doc.py', "        content = content.encode('utf8')\n", "        try:\n            content = content.encode('ascii')\n        except UnicodeError:\n            content = content.encode('latin1', 'replace')\n")]),
 ('c07 encoding none', ['C07'], [('rowgen.py', "with open(ref, encoding='utf8') as r:", "with open(ref, encoding=None) as r:")]),
 ('c07 wrapper', ['C07'], [('rowgen.py', "                with open(ref, encoding='utf8') as r:\n                    text = r.read()\n", "                import io\n                with open(ref, 'rb') as r:\n                    text = io.TextIOWrapper(r).read()\n")]),
 ('c07 cli encode', ['C07'], [('cli.py', "            content = t.encode('utf8')\n", "            content = t.encode(sys.stdout.encoding)\n")]),
 ('c07 cli text', ['C07'], [('cli.py', CW, "            with metadata_url.fspath.with_suffix('.'+ext).open('w') as f:\n                f.write(t)\n")]),
 ('c07 decode', ['C07'], [('rowgen.py', "                with ref.open(encoding='utf8') as r:\n                    text = r.read()\n", "                with ref.open('rb') as r:\n                    text = r.read().decode('cp1252')\n")]),
 ('c08 cache', ['C08'], [('doc.py', "        return '\\n'.join(out_lines)\n", "        text = '\\n'.join(out_lines)\n        open('.metatab-cache', 'w', encoding='utf8').close()\n        return text\n")]),
 ('c08 cleanup', ['C08'], [('doc.py', "        for t in terms:\n\n            t.doc = self\n", "        import os\n        if os.path.exists('metadata.csv.lock'):\n            os.remove('metadata.csv.lock')\n\n        for t in terms:\n\n            t.doc = self\n")]),
 ('c08 mkdir', ['C08'], [('appurl.py', "        assert downloader\n", "        assert downloader\n        import os\n        os.makedirs(os.path.dirname(url or '.') or '.', exist_ok=True)\n")]),
 ('c08 cli writes json', ['C08'], [('cli.py', "        if args.write_in_place:\n", "        if args.write_in_place or args.out_type == 'json':\n")]),
 ('c08 cli overwrite', ['C08'], [('cli.py', "    if not exists(mt_file):\n", "    if not exists(mt_file) or template != 'metatab':\n")]),
 ('c08 cli exists other', ['C08'], [('cli.py', "    if not exists(mt_file):\n", "    if not exists(join('.', template + '.csv')):\n")]),
 ('c08 cli temp', ['C08'], [('cli.py', "    metadata_url = parse_app_url(args.file, proto='metatab')\n    try:\n", "    metadata_url = parse_app_url(args.file, proto='metatab')\n    import tempfile\n    tempfile.mkstemp()\n    try:\n")]),
 ('c08 ensure writes', ['C08'], [('doc.py', "            identifier.value = str(uuid4())\n", "            identifier.value = str(uuid4())\n            if self.ref:\n                self.write()\n")]),
 ('c08 cli save', ['C08'], [('cli.py', "        print(t.value)\n", "        print(t.value)\n        doc.write_csv()\n")]),
 ('c09 yaml load', ['C09'], [('rowgen.py', "yaml.safe_load(f)", "yaml.load(f, Loader=yaml.Loader)")]),
 ('c09 yaml unsafe', ['C09'], [('rowgen.py', "yaml.safe_load(f)", "yaml.unsafe_load(f)")]),
 ('c09 eval value', ['C09'], [('terms.py', "        return {t.record_term_lc: t.value for t in self.children}\n", "        return {t.record_term_lc: eval(t.value[1:]) if str(t.value).startswith('=') else t.value for t in self.children}\n")]),
 ('c09 literal eval ok?', ['C09'], [('parser.py', "                #if t.value and", "                if t.value and str(t.value).startswith('!'):\n                    import os\n                    os.system(t.value[1:])\n                #if t.value and")]),
 ('c09 import class', ['C09'], [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        self.decl_terms.update(dd['terms'])\n        for k, v in dd['terms'].items():\n            if v.get('class'):\n                self.register_term_class(k, v['class'])\n")]),
 ('c09 import module', ['C09'], [('resolver.py', "        raise IncludeError(name)\n", "        import importlib\n        return importlib.import_module(name).DECLARATION\n")]),
 ('c09 pickle', ['C09'], [('rowgen.py', "                with open(ref, encoding='utf8') as r:\n                    text = r.read()\n", "                if str(ref).endswith('.pkl'):\n                    import pickle\n                    text = pickle.load(open(ref, 'rb'))\n                    break\n                with open(ref, encoding='utf8') as r:\n                    text = r.read()\n")]),
 ('c09 popen', ['C09'], [('parser.py', "                #if t.value and", "                if t.term_is('root.command'):\n                    import subprocess\n                    t.value = subprocess.check_output(t.value, shell=True)\n                #if t.value and")]),
 ('c10 print', ['C10'], [('rowgen.py', "            #print(section_name, section)\n", "            print(section_name, section)\n")]),
 ('c10 stdout', ['C10'], [('doc.py', "        debug_logger.debug(\"writing doc {}\".format(str(path)))\n", "        import sys\n        sys.stdout.write(\"writing doc {}\\n\".format(str(path)))\n")]),
 ('c10 exit', ['C10'], [('resolver.py', "        raise IncludeError(name)\n", "        raise SystemExit(name)\n")]),
 ('c10 sys exit', ['C10'], [('util.py', "        raise IncludeError(\"No local declaration file for name '{}' \".format(name))\n", "        import sys\n        sys.exit(\"No local declaration file for name '{}' \".format(name))\n")]),
 ('c10 pprint', ['C10'], [('doc.py', "        # if self.root and len(self.root.children) > 0:\n", "        from pprint import pprint\n        if not self.root:\n            pprint(terms)\n        # if self.root and len(self.root.children) > 0:\n")]),
 ('c10 handler', ['C10'], [('doc.py', "        debug_logger.debug(\"writing doc {}\".format(str(path)))\n", "        import sys\n        debug_logger.addHandler(logging.StreamHandler(sys.stdout))\n        debug_logger.debug(\"writing doc {}\".format(str(path)))\n")]),
 ('c10 helper', ['C10'], [('util.py', "        raise IncludeError(\"No local declaration file for name '{}' \".format(name))\n", "        from metatab.cli import err\n        err(\"No local declaration file for name '{}' \".format(name))\n")]),
 ('c10 os exit', ['C10'], [('doc.py', "        try:\n            self._load_declare_dict(terms)\n", "        import os\n        if not self.root:\n            os._exit(2)\n\n        try:\n            self._load_declare_dict(terms)\n")]),
 ('c10 csv stdout', ['C10'], [('doc.py', "        return '\\n'.join(out_lines)\n", "        import sys, csv\n        csv.writer(sys.stdout).writerow(out_lines[:1])\n        return '\\n'.join(out_lines)\n")]),
 ('c17 in', ['C17'], [('doc.py', "        if path.suffix != '.csv':\n", "        if '.csv' not in path.name:\n")]),
 ('c17 suffixes', ['C17'], [('doc.py', "        if path.suffix != '.csv':\n", "        if '.csv' not in path.suffixes:\n")]),
 ('c17 no check', ['C17'], [('doc.py', SL, "")]),
 ('c17 assert', ['C17'], [('doc.py', SL, "        assert path.suffix == '.txt', path\n")]),
 ('c17 empty suffix', ['C17'], [('doc.py', "        if path.suffix != '.txt':\n", "        if path.suffix and path.suffix != '.txt':\n")]),
 ('c17 write else', ['C17'], [('doc.py', "        elif path.suffix == '.csv':\n            self.write_csv(path)\n        else:\n            raise FormatError(\"Can't write to filetype of {}\".format(path.suffix))", "        else:\n            self._write(self.as_csv(), path)")]),
 ('c17 swap', ['C17'], [('doc.py', WL, WL.replace('as_lines', 'as_csv'))]),
 ('c17 cli ext', ['C17'], [('cli.py', "        ext = 'txt' if args.out_type == 'line' else args.out_type\n", "        ext = args.out_type\n")]),
 ('c17 cli ext swap', ['C17'], [('cli.py', "        ext = 'txt' if args.out_type == 'line' else args.out_type\n", "        ext = 'txt' if args.out_type in ('line', 'csv') else args.out_type\n")]),
 ('c17 cli swap', ['C17'], [('cli.py', "        write_or_print(doc.as_csv())\n", "        write_or_print(doc.as_lines())\n")]),
 ('c17 cli same', ['C17'], [('cli.py', "    elif args.out_type == 'json':\n        write_or_print(", "    elif args.out_type == 'json' and not args.write_in_place:\n        write_or_print(")]),
 ('c17 cli no suffix', ['C17'], [('cli.py', "metadata_url.fspath.with_suffix('.'+ext).open('wb')", "metadata_url.fspath.open('wb')")]),
 ('c17 cli prety', ['C17'], [('cli.py', "dest='out_type', const='prety'", "dest='out_type', const='pretty'")]),
 ('c17 default', ['C17'], [('cli.py', "    parser.set_defaults(out_type='csv')\n", "    parser.set_defaults(out_type='lines')\n")]),
 ('c21 pop', ['C21'], [('doc.py', "        assert len(self.sections) == len(sections)\n", "        assert self.sections.pop('', None) is None\n")]),
 ('c21 assign', ['C21'], [('doc.py', "        self.ensure_identifier()\n\n        try:\n", "        assert self.ensure_identifier() is None\n\n        try:\n")]),
 ('c21 consume', ['C21'], [('doc.py', "        for t in terms:\n\n            t.doc = self\n", "        terms = iter(terms)\n        assert all(t is not None for t in terms)\n        for t in terms:\n\n            t.doc = self\n")]),
 ('c21 handler', ['C21'], [('terms.py', "        assert isinstance(child, Term)\n", "        try:\n            assert isinstance(child, Term)\n        except AssertionError:\n            return\n")]),
 ('c21 debug', ['C21'], [('terms.py', "        assert isinstance(child, Term)\n", "        if __debug__:\n            child.doc = self.doc\n        assert isinstance(child, Term)\n")]),
 ('c21 walrus', ['C21'], [('doc.py', "        identifier = self.find_first('Root.Identifier', section='Root')\n\n        if not identifier:\n            identifier = self", "        identifier = None\n        assert (identifier := self.find_first('Root.Identifier', section='Root')) or True\n\n        if not identifier:\n            identifier = self")]),
 ('c21 get or new', ['C21'], [('terms.py', "        assert self.find_first(rt)\n", "        assert self.get_or_new_child(rt)\n")]),
 ('c21 setdefault', ['C21'], [('terms.py', "        assert self.section is not None\n", "        assert self.__dict__.setdefault('_checked', True)\n")]),
 ('c22 attr', ['C22'], [('doc.py', "            return terms[0]\n        else:\n            return None\n", "            return terms[0]\n        else:\n            return self.default_term\n")]),
 ('c22 method', ['C22'], [('terms.py', "        assert self.find_first(rt) == c\n", "        assert self.find_one(rt) == c\n")]),
 ('c22 name', ['C22'], [('cli.py', "        table_names = [\"'\" + t.value + \"'\" for t in doc.find('Root.Table')]\n", "        table_names = [quote(t.value) for t in doc.find('Root.Table')]\n")]),
 ('c22 positional', ['C22'], [('doc.py', "        return self._write(self.as_lines(), path)\n", "        return self._write(self.as_lines(), path, None, 'txt')\n")]),
 ('c22 module attr', ['C22'], [('util.py', "        import IncludeError", "        import IncludeErr")] ) if False else
 ('c22 stdlib', ['C22'], [('doc.py', "itertools.chain(*[", "itertools.chain_all(*[")]),
 ('c22 import', ['C22'], [('doc.py', "        from .util import slugify\n\n        self.ensure", "        from .util import slug\n        slugify = slug\n\n        self.ensure")]),
 ('c22 method str', ['C22'], [('parser.py', "row[0].strip().startswith('#')", "row[0].strip().beginswith('#')")]),
 ('c22 entry', ['C22'], [('/setup.py', "metatab=metatab.cli:metatab", "metatab=metatab.cli:main")]),
 ('c22 local', ['C22'], [('doc.py', "        name = self['Root'].find_first('Root.Name')\n\n            if name", "        name = self['Root'].find_first('Root.Name')\n\n            if name")]) if False else
 ('c22 unbound', ['C22'], [('datapackage.py', "    dp['resources'] = []\n", "    if doc.sections:\n        resources = []\n    dp['resources'] = resources\n")]),
]
REFACTORINGS += [
 ('c05 temp bytes', [('doc.py', W, "        data = bytes(content, 'utf8')\n\n        f = path.open('wb')\n        try:\n            f.write(data)\n        finally:\n            f.close()\n")]),
 ('c05 write_bytes', [('doc.py', W, "        path.write_bytes(content.encode('utf-8'))\n")]),
 ('c05 content names', [('doc.py', WC, "        self.cleanse()\n        content = self.as_csv()\n        written = self._write(content, path)\n\n        return written\n")]),
 ('c05 common', [('doc.py', "        path = self._write_path(path)\n\n" + SC + "\n" + WC, "        return self._write_as(path, '.csv', self.as_csv, 'CSV')\n\n    def _write_as(self, path, suffix, render, what):\n\n        path = self._write_path(path)\n\n        if path.suffix != suffix:\n            raise MetatabError(\"Writing {} file, but extension is wrong: {} \".format(what, str(path)))\n\n        self.cleanse()\n\n        return self._write(render(), path)\n"), ('doc.py', "        path = self._write_path(path)\n\n" + SL + "\n" + WL, "        return self._write_as(path, '.txt', self.as_lines, 'line (txt)')\n")]),
 ('c05 cli common', [('cli.py', CW, "            _save(metadata_url.fspath.with_suffix('.'+ext), t)\n"), ('cli.py', "def cli_init(", "def _save(path, text):\n    content = text.encode('utf8')\n\n    with path.open('wb') as f:\n        f.write(content)\n\n\ndef cli_init(")]),
 ('c05 cli early', [('cli.py', "        ext = 'txt' if args.out_type == 'line' else args.out_type\n\n        if args.write_in_place:\n" + CW + "        else:\n            print(t)\n", "        if not args.write_in_place:\n            print(t)\n            return\n\n        if args.out_type == 'line':\n            ext = 'txt'\n        else:\n            ext = args.out_type\n\n        content = t.encode('utf8')\n        target = metadata_url.fspath.with_suffix('.'+ext)\n\n        with open(target, 'wb') as f:\n            f.write(content)\n")]),
 ('c06 identifier flat', [('doc.py', "        if not identifier:\n            identifier = self['Root'].new_term('Root.Identifier', None)\n\n" + EI, "        if identifier and identifier.value:\n            return\n\n        if not identifier:\n            identifier = self['Root'].new_term('Root.Identifier', None)\n\n        identifier.value = str(uuid4())\n")]),
 ('c06 cleanse helper', [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_csv(), path)\n", "        return self._write(self._cleansed().as_csv(), path)\n\n    def _cleansed(self):\n        self.cleanse()\n        return self\n")]),
 ('c07 utf spelling', [('rowgen.py', "with open(self.url.fspath, encoding='utf8') as f:", "with open(self.url.fspath, 'r', encoding='UTF-8') as f:")]),
 ('c07 constant', [('rowgen.py', "class YamlMetatabSource(Source):", "ENCODING = 'utf8'\n\n\nclass YamlMetatabSource(Source):"), ('rowgen.py', "with ref.open(encoding='utf8') as r:", "with ref.open(encoding=ENCODING) as r:")]),
 ('c07 decode', [('rowgen.py', "                with open(ref, encoding='utf8') as r:\n                    text = r.read()\n", "                with open(ref, 'rb') as r:\n                    text = r.read().decode('utf8')\n")]),
 ('c08 exists early', [('cli.py', "    if not exists(mt_file):\n        doc = make_metatab_file(template)\n\n        doc.write_csv(mt_file)\n\n        return True\n\n    else:\n\n        return False\n", "    if exists(mt_file):\n        return False\n\n    doc = make_metatab_file(template)\n    doc.write_csv(mt_file)\n\n    return True\n")]),
 ('c08 create helper', [('cli.py', "        if new_metatab_file(args.file, args.create):\n            prt(\"Created \", args.file)\n        else:\n            warn(\"File\",args.file,'already exists.')\n\n        exit(0)\n", "        created = new_metatab_file(args.file, args.create)\n        if created:\n            prt(\"Created \", args.file)\n        if not created:\n            warn(\"File\",args.file,'already exists.')\n\n        sys.exit(0)\n")]),
 ('c10 stderr', [('doc.py', "        debug_logger.debug(\"writing doc {}\".format(str(path)))\n", "        debug_logger.debug(\"writing doc %s\", path)\n")]),
 ('c17 suffix set', [('doc.py', "        if path.suffix == '.txt':\n            self.write_lines(path)\n        elif path.suffix == '.csv':\n            self.write_csv(path)\n        else:\n            raise FormatError", "        writers = {'.txt': self.write_lines, '.csv': self.write_csv}\n        if path.suffix in writers:\n            writers[path.suffix](path)\n        else:\n            raise FormatError")]),
 ('c17 not equal', [('doc.py', SL, "        if not path.suffix == '.txt':\n            message = \"Writing line (txt) file, but extension is wrong: {} \".format(str(path))\n            raise MetatabError(message)\n")]),
 ('c17 cli dict ext', [('cli.py", "') if False else ('cli.py', "        ext = 'txt' if args.out_type == 'line' else args.out_type\n", "        ext = {'line': 'txt'}.get(args.out_type, args.out_type)\n")]),
 ('c17 cli renderers', [('cli.py', "    elif args.out_type == 'line':\n        write_or_print(doc.as_lines())\n\n    elif args.out_type == 'csv':\n        write_or_print(doc.as_csv())\n", "    elif args.out_type in ('line', 'csv'):\n        text = doc.as_lines() if args.out_type == 'line' else doc.as_csv()\n        write_or_print(text)\n")]),
 ('c21 message', [('doc.py', "        assert len(self.sections) == len(sections)\n", "        assert len(self.sections) == len(sections), sorted(self.sections)\n")]),
 ('c21 all', [('doc.py', "        assert all([major, minor, patch])\n", "        assert major and minor and patch\n")]),
]
REFACTORINGS += [
 ('c08 exists path', [('cli.py', "    if not exists(mt_file):\n        doc = make_metatab_file(template)\n\n        doc.write_csv(mt_file)\n", "    from pathlib import Path\n    target = Path(mt_file)\n\n    if not target.exists():\n        doc = make_metatab_file(template)\n\n        doc.write_csv(target)\n")]),
 ('c08 exists os', [('cli.py', "    if not exists(mt_file):\n        doc", "    import os\n    there = os.path.exists(str(mt_file))\n    if not there:\n        doc")]),
 ('c18 no assert', [('doc.py', "        assert all([major, minor, patch])\n", "")]),
 ('c06 no assert', [('doc.py', "        assert identifier is not None and bool(identifier.value)\n", "")]),
 ('c13 no assert', [('doc.py', "        assert t.section or t.join_lc == 'root.root', t\n", "")]),
]
REFACTORINGS += [
 ('c17 suffix get', [('doc.py', "        if path.suffix == '.txt':\n            self.write_lines(path)\n        elif path.suffix == '.csv':\n            self.write_csv(path)\n        else:\n            raise FormatError", "        writer = {'.txt': self.write_lines, '.csv': self.write_csv}.get(path.suffix)\n        if writer is not None:\n            writer(path)\n        else:\n            raise FormatError")]),
 ('c17 suffix name', [('doc.py', "        if path.suffix == '.txt':\n            self.write_lines(path)\n        elif path.suffix == '.csv':\n            self.write_csv(path)\n        else:\n            raise FormatError(\"Can't write to filetype of {}\".format(path.suffix))", "        ext = path.suffix\n\n        if ext not in ('.txt', '.csv'):\n            raise FormatError(\"Can't write to filetype of {}\".format(ext))\n\n        if ext == '.txt':\n            return self.write_lines(path)\n\n        self.write_csv(path)")]),
 ('c17 cli target', [('cli.py', "            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                f.write(content)\n", "            from pathlib import Path\n            target = metadata_url.fspath.parent / (metadata_url.fspath.stem + '.' + ext)\n            Path(target).write_bytes(content)\n")]),
]
MUTANTS += [
 ('c17 cli consts', ['C17'], [('cli.py', "dest='out_type', const='json'", "dest='out_type', const='@'"), ('cli.py', "dest='out_type', const='yaml'", "dest='out_type', const='json'"), ('cli.py', "dest='out_type', const='@'", "dest='out_type', const='yaml'")]),
 ('c17 cli decl', ['C17'], [('cli.py', "            print(json.dumps(d, indent=4))\n", "            print(d)\n")]),
 ('c17 cli decl yaml', ['C17'], [('cli.py', "            print(yaml.safe_dump(d, default_flow_style=False, indent=4))\n", "            print(json.dumps(d, indent=4))\n")]),
 ('c17 cli terms', ['C17'], [('cli.py', "    elif args.out_type == 'terms':\n        for t in doc._term_parser:\n            print(t)\n", "    elif args.out_type == 'term':\n        for t in doc._term_parser:\n            print(t)\n")]),
 ('c17 cli prety csv', ['C17'], [('cli.py', "        pprint(doc.as_dict())\n", "        pprint(doc.as_csv())\n")]),
 ('c17 cli double', ['C17'], [('cli.py', ".with_suffix('.'+ext).open('wb')", ".with_suffix('.' + ext + metadata_url.fspath.suffix).open('wb')")]),
]
MUTANTS += [
 ('c22 own kwarg', ['C22'], [('doc.py', "            identifier = self['Root'].new_term('Root.Identifier', None)\n", "            identifier = self['Root'].new_term('Root.Identifier', None, term_value_name=None, doc=self, sectoin=self['Root'])\n"), ('terms.py', "    def new_term(self, term, value, **kwargs):", "    def new_term(self, term, value, term_value_name=None, doc=None, section=None):")]),
 ('c22 exc class', ['C22'], [('rowgen.py', "            except (UnicodeDecodeError, PermissionError):\n", "            except (UnicodeDecodeError, IOPermissionError):\n")]),
 ('c22 removed', ['C22'], [('cli.py', "    args = parser.parse_args(sys.argv[1:])\n", "    import inspect\n    inspect.getargspec(cli_init)\n    args = parser.parse_args(sys.argv[1:])\n")]),
]

# ------------------------------------------------------------------------------------------------ C31
SEL = """                if (t.term_is(term)
                        and in_section(t, section)
                        and (value is False or value == t.value)):
                    found.append(t)
"""
KWF = """            for t in terms:
                if all(t.get_value(k) == v for k, v in kwargs.items()):
                    found_terms.append(t)
"""
INSEC = """            if isinstance(section, (list, tuple)):
                return any(in_section(t, e) for e in section)
            else:
                return section.lower() == term.section.name.lower()
"""
TFIND = """        for c in self.children:
            if c.record_term_lc == term.lower():
                if value is False or c.value == value:
                    yield c
"""
TFF = """        for c in self.children:
            if c.record_term_lc == term.lower():
                if value is False or c.value == value:
                    return c

        return None
"""
TIS = """            if self.join_lc == v.lower():
                return True
            elif v_r == '*' and v_p == self.parent_term_lc:
                return True
            elif v_p == '*' and v_r == self.record_term_lc:
                return True
            elif v_p == '*' and v_r == '*':
                return True
            else:
                return False
"""
CHAIN = """            return list(
                itertools.chain(*[self.find(e, value=value, section=section, _expand_derived=False) for e in term]))
"""
ALLT = """            for rterm in s:
                yield rterm
                for d in rterm.descendents:
                    yield d
"""
DFF = """        if len(terms) > 0:
            return terms[0]
        else:
            return None
"""
MUTANTS += [
 ('c31 value falsy', ['C31'], [('doc.py', "(value is False or value == t.value)", "(not value or value == t.value)")]),
 ('c31 value none', ['C31'], [('doc.py', "(value is False or value == t.value)", "(value in (False, None) or value == t.value)")]),
 ('c31 value str', ['C31'], [('doc.py', "(value is False or value == t.value)", "(value is False or str(value) == str(t.value))")]),
 ('c31 section prefix', ['C31'], [('doc.py', "return section.lower() == term.section.name.lower()", "return term.section.name.lower().startswith(section.lower())")]),
 ('c31 section substring', ['C31'], [('doc.py', "return section.lower() == term.section.name.lower()", "return term.section.name.lower() in section.lower()")]),
 ('c31 section all', ['C31'], [('doc.py', "return any(in_section(t, e) for e in section)", "return all(in_section(t, e) for e in section)")]),
 ('c31 section first', ['C31'], [('doc.py', "return any(in_section(t, e) for e in section)", "return in_section(term, section[0])")]),
 ('c31 section none ok', ['C31'], [('doc.py', "            if term.section is None:\n                return False\n", "            if term.section is None:\n                return True\n")]),
 ('c31 or', ['C31'], [('doc.py', "                        and in_section(t, section)\n                        and (value", "                        and in_section(t, section)\n                        or (value")]),
 ('c31 stop', ['C31'], [('doc.py', SEL, SEL + "                    if value is not False:\n                        break\n")]),
 ('c31 insert', ['C31'], [('doc.py', "                    found.append(t)\n", "                    found.insert(0, t)\n")]),
 ('c31 reversed', ['C31'], [('doc.py', "            for t in term_gen:\n", "            for t in reversed(list(term_gen)):\n")]),
 ('c31 sorted', ['C31'], [('doc.py', "            return found\n", "            return sorted(found, key=lambda e: e.row or 0)\n")]),
 ('c31 sort', ['C31'], [('doc.py', "            return found\n", "            found.sort(key=lambda e: e.row or 0)\n            return found\n")]),
 ('c31 dedupe value', ['C31'], [('doc.py', SEL, SEL.replace("value == t.value)):", "value == t.value)\n                        and t.value not in [e.value for e in found]):"))]),
 ('c31 hidden', ['C31'], [('doc.py', "                if t.join_lc == 'root.root':\n                    continue\n", "                if t.join_lc == 'root.root' or t.value is None:\n                    continue\n")]),
 ('c31 no file', ['C31'], [('doc.py', "                if t.join_lc == 'root.root':\n                    continue\n", "                if t.parent_term_lc == 'root' and t.record_term_lc.startswith('root'):\n                    continue\n")]),
 ('c31 only top', ['C31'], [('doc.py', "            if term.startswith('root.'):\n", "            if term.startswith('root.') or term.startswith('*.'):\n")]),
 ('c31 contains star', ['C31'], [('doc.py', "            if term.startswith('root.'):\n", "            if term.startswith('root.') or '*' in term:\n")]),
 ('c31 kwargs any', ['C31'], [('doc.py', KWF, KWF.replace("all(", "any("))]),
 ('c31 kwargs value', ['C31'], [('doc.py', "            terms = self.find(term, value, section)\n", "            terms = self.find(term, section=section)\n")]),
 ('c31 kwargs section', ['C31'], [('doc.py', "            terms = self.find(term, value, section)\n", "            terms = self.find(term, value)\n")]),
 ('c31 kwargs in', ['C31'], [('doc.py', KWF, KWF.replace("t.get_value(k) == v", "v in (t.get_value(k), None)"))]),
 ('c31 kwargs case', ['C31'], [('doc.py', KWF, KWF.replace("t.get_value(k) == v", "str(t.get_value(k)).startswith(v)"))]),
 ('c31 kwargs break', ['C31'], [('doc.py', KWF, KWF + "                    break\n")]),
 ('c31 list value', ['C31'], [('doc.py', CHAIN, CHAIN.replace("value=value, ", ""))]),
 ('c31 list section', ['C31'], [('doc.py', CHAIN, CHAIN.replace(" section=section,", ""))]),
 ('c31 list some', ['C31'], [('doc.py', CHAIN, CHAIN.replace("for e in term]", "for e in term[:1]]"))]),
 ('c31 list if', ['C31'], [('doc.py', CHAIN, CHAIN.replace("for e in term]", "for e in term if '.' in e]"))]),
 ('c31 list first found', ['C31'], [('doc.py', CHAIN, "            for e in term:\n                found = self.find(e, value=value, section=section, _expand_derived=False)\n                if found:\n                    return found\n            return []\n")]),
 ('c31 derived only', ['C31'], [('doc.py', "for dt in sorted(self.derived_terms.get(t, [])) + [t]:", "for dt in sorted(self.derived_terms.get(t, [])) or [t]:")]),
 ('c31 first last', ['C31'], [('doc.py', DFF, DFF.replace("terms[0]", "terms[-1]"))]),
 ('c31 first single', ['C31'], [('doc.py', DFF, DFF.replace("len(terms) > 0", "len(terms) == 1"))]),
 ('c31 first drops section', ['C31'], [('doc.py', "        terms = self.find(term, value=value, section=section, **kwargs)\n", "        terms = self.find(term, value=value, **kwargs)\n")]),
 ('c31 first drops kwargs', ['C31'], [('doc.py', "        terms = self.find(term, value=value, section=section, **kwargs)\n", "        terms = self.find(term, value=value, section=section)\n")]),
 ('c31 first value drops value', ['C31'], [('doc.py', "        term = self.find_first(term, value=value, section=section, **kwargs)\n", "        term = self.find_first(term, section=section, **kwargs)\n")]),
 ('c31 get_value default', ['C31'], [('doc.py', "        if term is None:\n            return default\n        else:\n            return term.value\n", "        if term is None or not term.value:\n            return default\n        else:\n            return term.value\n")]),
 ('c31 get_value no section', ['C31'], [('doc.py', "        term = self.find_first(term, value=False, section=section)\n", "        term = self.find_first(term, value=False)\n")]),
 ('c31 get value', ['C31'], [('doc.py', "        if not v:\n            return default\n        else:\n            return v\n", "        if not v or not v.value:\n            return default\n        else:\n            return v\n")]),
 ('c31 section get_term', ['C31'], [('terms.py', "    def get_term(self, term, value=False):\n        \"\"\"Synonym for find_first, restructed to this section\"\"\"\n        return self.doc.find_first(term, value=value, section=self.name)\n", "    def get_term(self, term, value=False):\n        \"\"\"Synonym for find_first, restructed to this section\"\"\"\n        return self.doc.find_first(term, value=value)\n")]),
 ('c31 section find', ['C31'], [('terms.py', "        return self.doc.find(term, value=value, section=self.name)\n", "        return self.doc.find(term, section=self.name)\n")]),
 ('c31 section first value', ['C31'], [('terms.py', "        return self.doc.find_first_value(term, value=value, section=self.name)\n", "        return self.doc.find_first_value(term, value=value)\n")]),
 ('c31 term find value', ['C31'], [('terms.py', TFIND, TFIND.replace("value is False or", "not value or"))]),
 ('c31 term find stop', ['C31'], [('terms.py', TFIND, TFIND + "                    return\n")]),
 ('c31 term find terminal', ['C31'], [('terms.py', TFIND, TFIND.replace("if c.record_term_lc == term.lower():", "if c.is_terminal and c.record_term_lc == term.lower():"))]),
 ('c31 term find prefix', ['C31'], [('terms.py', TFIND, TFIND.replace("c.record_term_lc == term.lower()", "c.record_term_lc.startswith(term.lower())"))]),
 ('c31 term find descendents', ['C31'], [('terms.py', TFIND, TFIND.replace("in self.children", "in self.children[1:] + self.children[:1]"))]),
 ('c31 term first last', ['C31'], [('terms.py', TFF, "        found = None\n\n        for c in self.children:\n            if c.record_term_lc == term.lower():\n                if value is False or c.value == value:\n                    found = c\n\n        return found\n")]),
 ('c31 term first reversed', ['C31'], [('terms.py', TFF, TFF.replace("in self.children", "in reversed(self.children)"))]),
 ('c31 term first truthy', ['C31'], [('terms.py', TFF, TFF.replace("value is False or", "(value is False and c.value) or"))]),
 ('c31 term first dict', ['C31'], [('terms.py', TFF, TFF.replace("                    return c\n", "                    return c\n                return None\n"))]),
 ('c31 term_is star', ['C31'], [('terms.py', TIS, TIS.replace("elif v_p == '*' and v_r == '*':", "elif v_p == '*' or v_r == '*':"))]),
 ('c31 term_is no parent', ['C31'], [('terms.py', TIS, TIS.replace("elif v_r == '*' and v_p == self.parent_term_lc:", "elif v_r == '*':"))]),
 ('c31 term_is prefix', ['C31'], [('terms.py', TIS, TIS.replace("self.join_lc == v.lower()", "self.join_lc.endswith(v.lower())"))]),
 ('c31 term_is record', ['C31'], [('terms.py', TIS, TIS.replace("elif v_p == '*' and v_r == self.record_term_lc:", "elif v_r == self.record_term_lc:"))]),
 ('c31 term_is swap', ['C31'], [('terms.py', TIS, TIS.replace("v_p == self.parent_term_lc", "v_p == self.record_term_lc"))]),
 ('c31 all no descendents', ['C31'], [('doc.py', ALLT, "            for rterm in s:\n                yield rterm\n                for d in rterm.children:\n                    yield d\n")]),
 ('c31 all after', ['C31'], [('doc.py', ALLT, "            for rterm in s:\n                for d in rterm.descendents:\n                    yield d\n                yield rterm\n")]),
 ('c31 descendents shallow', ['C31'], [('terms.py', "            yield c\n\n            for d in c.descendents:\n                yield d\n", "            yield c\n\n            if c.is_terminal:\n                continue\n\n            for d in c.children:\n                yield d\n")]),
 ('c31 descendents terminal', ['C31'], [('terms.py', "            yield c\n\n            for d in c.descendents:\n", "            if c.value is not None:\n                yield c\n\n            for d in c.descendents:\n")]),
 ('c31 iter values', ['C31'], [('terms.py', '        """Iterate over all terms in the section"""\n        for t in self.terms:\n            yield t\n', '        """Iterate over all terms in the section"""\n        for t in self.terms:\n            if not t.term_is(\'*.section\'):\n                yield t\n')]),
 ('c31 getitem value name', ['C31'], [('terms.py', "        if item.lower() == self.term_value_name.lower():\n            return self\n", "        if item.lower() == 'value':\n            return self\n")]),
 ('c31 term get_value falsy', ['C31'], [('terms.py', "            return self[item].value\n        except (AttributeError, KeyError) as e:", "            return self[item].value or default\n        except (AttributeError, KeyError) as e:")]),
 ('c31 first value term', ['C31'], [('terms.py', "            return self.find_first(term).value\n", "            return self.find_first(term).value or None\n")]),
]
REFACTORINGS += [
 ('c31 sel nested', [('doc.py', SEL, "                if not t.term_is(term):\n                    continue\n\n                if not in_section(t, section):\n                    continue\n\n                if value is not False and t.value != value:\n                    continue\n\n                found.append(t)\n")]),
 ('c31 sel helper', [('doc.py', SEL, "                if self._selects(t, term, value) and in_section(t, section):\n                    found.append(t)\n"), ('doc.py', "    def find_first(self, term,", "    @staticmethod\n    def _selects(t, term, value):\n        if not t.term_is(term):\n            return False\n        return value is False or value == t.value\n\n    def find_first(self, term,")]),
 ('c31 sel comp', [('doc.py', "            found = []\n\n            if not '.' in term", "            if not '.' in term"), ('doc.py', """            for t in term_gen:

                if t.join_lc == 'root.root':
                    continue

                assert t.section or t.join_lc == 'root.root' or t.join_lc == 'root.section', t

""" + SEL + "\n            return found\n", """            return [t for t in term_gen
                    if t.join_lc != 'root.root' and t.term_is(term) and in_section(t, section)
                    and (value is False or value == t.value)]
""")]),
 ('c31 sel order', [('doc.py', SEL, "                if in_section(t, section) and (value is False or t.value == value) and t.term_is(term):\n                    found += [t]\n")]),
 ('c31 sel gen', [('doc.py', SEL, "                matches = t.term_is(term) and in_section(t, section)\n                if matches and value is not False:\n                    matches = t.value == value\n                if matches:\n                    found.append(t)\n")]),
 ('c31 insec set', [('doc.py', INSEC, "            sections = section if isinstance(section, (list, tuple)) else [section]\n            return term.section.name.lower() in [e.lower() for e in sections]\n")]),
 ('c31 insec loop', [('doc.py', INSEC, """            if isinstance(section, (list, tuple)):
                for e in section:
                    if in_section(term, e):
                        return True
                return False

            return term.section.name.lower() == section.lower()
""")]),
 ('c31 insec str', [('doc.py', INSEC, """            if isinstance(section, str):
                return section.lower() == term.section.name.lower()

            return any(in_section(term, e) for e in section)
""")]),
 ('c31 insec method', [('doc.py', "        def in_section(term, section):\n\n            if section is None:\n                return True\n\n            if term.section is None:\n                return False\n\n" + INSEC, "        in_section = self._in_section\n"), ('doc.py', "    def find_first(self, term,", "    @classmethod\n    def _in_section(cls, term, section):\n        if section is None:\n            return True\n        if term.section is None:\n            return False\n        if isinstance(section, (list, tuple)):\n            return any(cls._in_section(term, e) for e in section)\n        return term.section.name.lower() == section.lower()\n\n    def find_first(self, term,")]),
 ('c31 kw loop', [('doc.py', KWF, """            for t in terms:
                for k, v in kwargs.items():
                    if t.get_value(k) != v:
                        break
                else:
                    found_terms.append(t)
""")]),
 ('c31 kw any', [('doc.py', KWF, """            for t in terms:
                if any(t.get_value(k) != v for k, v in kwargs.items()):
                    continue
                found_terms.append(t)
""")]),
 ('c31 kw helper', [('doc.py', KWF, "            for t in terms:\n                if self._has_properties(t, kwargs):\n                    found_terms.append(t)\n"), ('doc.py', "    def find_first(self, term,", "    @staticmethod\n    def _has_properties(t, props):\n        for name, wanted in props.items():\n            if t.get_value(name) != wanted:\n                return False\n        return True\n\n    def find_first(self, term,")]),
 ('c31 kw filter', [('doc.py', "            found_terms = []\n\n" + KWF + "\n            return found_terms\n", "            return list(filter(lambda t: all(t.get_value(k) == v for k, v in kwargs.items()), terms))\n")]),
 ('c31 chain loop', [('doc.py', CHAIN, "            found = []\n            for e in term:\n                found.extend(self.find(e, value=value, section=section, _expand_derived=False))\n            return found\n")]),
 ('c31 chain from', [('doc.py', CHAIN, "            return list(itertools.chain.from_iterable(self.find(e, value, section, _expand_derived=False) for e in term))\n")]),
 ('c31 chain comp', [('doc.py', CHAIN, "            return [t for e in term for t in self.find(e, value=value, section=section, _expand_derived=False)]\n")]),
 ('c31 gen choice', [('doc.py', "            if term.startswith('root.'):\n                term_gen = self.terms  # Just the root level terms\n            else:\n                term_gen = self.all_terms  # All terms, root level and children.\n", "            term_gen = self.terms if term.split('.')[0] == 'root' else self.all_terms\n")]),
 ('c31 first truthy', [('doc.py', DFF, "        return terms[0] if terms else None\n")]),
 ('c31 first next', [('doc.py', DFF, "        return next(iter(terms), None)\n")]),
 ('c31 first loop', [('doc.py', DFF, "        for t in terms:\n            return t\n\n        return None\n")]),
 ('c31 first try', [('doc.py', DFF, "        try:\n            return terms[0]\n        except IndexError:\n            return None\n")]),
 ('c31 value cond', [('doc.py', "        if term is None:\n            return None\n        else:\n            return term.value\n", "        return term.value if term is not None else None\n")]),
 ('c31 get_value via first', [('doc.py', "        if term is None:\n            return default\n        else:\n            return term.value\n", "        if term is not None:\n            return term.value\n\n        return default\n")]),
 ('c31 get or', [('doc.py', "        if not v:\n            return default\n        else:\n            return v\n", "        return v or default\n")]),
 ('c31 section get', [('terms.py', "        \"\"\"Synonym for get_term()\"\"\"\n        return self.get_term(item)\n", "        \"\"\"Synonym for get_term()\"\"\"\n        return self.find_first(item)\n")]),
 ('c31 section first via', [('terms.py', "    def get_term(self, term, value=False):\n        \"\"\"Synonym for find_first, restructed to this section\"\"\"\n        return self.doc.find_first(term, value=value, section=self.name)\n", "    def get_term(self, term, value=False):\n        \"\"\"Synonym for find_first, restructed to this section\"\"\"\n        return self.find_first(term, value)\n")]),
 ('c31 section positional', [('terms.py', "        return self.doc.find(term, value=value, section=self.name)\n", "        return self.doc.find(term, value, self.value)\n")]),
 ('c31 term find and', [('terms.py', TFIND, "        name = term.lower()\n\n        for c in self.children:\n            if c.record_term_lc == name and (value is False or value == c.value):\n                yield c\n")]),
 ('c31 term find continue', [('terms.py', TFIND, "        for c in self.children:\n            if c.record_term_lc != term.lower():\n                continue\n\n            if value is not False and c.value != value:\n                continue\n\n            yield c\n")]),
 ('c31 term find from', [('terms.py', TFIND, "        yield from (c for c in self.children\n                    if c.record_term_lc == term.lower() and (value is False or c.value == value))\n")]),
 ('c31 term first next', [('terms.py', TFF, "        return next((c for c in self.children if c.record_term_lc == term.lower()\n                     and (value is False or c.value == value)), None)\n")]),
 ('c31 term first find', [('terms.py', TFF, "        for c in self.find(term, value):\n            return c\n\n        return None\n")]),
 ('c31 term first break', [('terms.py', TFF, "        found = None\n\n        for c in self.children:\n            if c.record_term_lc == term.lower() and (value is False or c.value == value):\n                found = c\n                break\n\n        return found\n")]),
 ('c31 term first else', [('terms.py', TFF, "        for c in self.children:\n            if c.record_term_lc == term.lower() and (value is False or c.value == value):\n                break\n        else:\n            c = None\n\n        return c\n")]),
 ('c31 term_is in', [('terms.py', TIS, "            return v_p in ('*', self.parent_term_lc) and v_r in ('*', self.record_term_lc)\n")]),
 ('c31 term_is or', [('terms.py', TIS, "            if self.join_lc == v.lower():\n                return True\n\n            return (v_p == '*' or v_p == self.parent_term_lc) and (v_r == '*' or v_r == self.record_term_lc)\n")]),
 ('c31 term_is vars', [('terms.py', TIS, "            parent_ok = v_p == '*' or v_p == self.parent_term_lc\n            record_ok = v_r == '*' or v_r == self.record_term_lc\n\n            return parent_ok and record_ok\n")]),
 ('c31 term_is early', [('terms.py', "        if isinstance(v, str):\n\n            if '.' not in v:\n                v = 'root.' + v\n\n            v_p, v_r = self.split_term_lower(v)\n\n" + TIS + "\n        else:\n\n            return any(self.term_is(e) for e in v)\n", "        if not isinstance(v, str):\n            return any(self.term_is(e) for e in v)\n\n        v_p, v_r = self.split_term_lower(v)\n\n        if v_p not in ('*', self.parent_term_lc):\n            return False\n\n        return v_r in ('*', self.record_term_lc)\n")]),
 ('c31 all from', [('doc.py', ALLT, "            for rterm in s.terms:\n                yield rterm\n                yield from rterm.descendents\n")]),
 ('c31 all values', [('doc.py', "        for s_name, s in self.sections.items():\n\n            # Yield the section header\n            if s.name != 'Root':\n                yield s\n\n            # Yield all of the rows for terms in the section\n            for rterm in s:\n", "        for s in self:\n\n            if s.name != 'Root':\n                yield s\n\n            for rterm in s:\n")]),
 ('c31 descendents from', [('terms.py', "            yield c\n\n            for d in c.descendents:\n                yield d\n", "            yield c\n            yield from c.descendents\n")]),
 ('c31 iter', [('terms.py', '        """Iterate over all terms in the section"""\n        for t in self.terms:\n            yield t\n', '        """Iterate over all terms in the section"""\n        return iter(self.terms)\n')]),
 ('c31 term getitem', [('terms.py', "        if item.lower() == self.term_value_name.lower():\n            return self\n\n        else:\n\n            c = self.find_first(item)\n            if c is None:\n                raise KeyError", "        if self.term_value_name.lower() == item.lower():\n            return self\n\n        for c in [self.find_first(item)]:\n            if c is None:\n                raise KeyError")]),
 ('c31 term first value', [('terms.py', "        try:\n            return self.find_first(term).value\n        except AttributeError:\n            return None\n", "        t = self.find_first(term)\n\n        return t.value if t else None\n")]),
]

# C33
_SC = "                if c.child_property_type == 'scalar':\n                    d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)\n"
_SEQ = """                    try:
                        d[c.record_term_lc].append(cls._convert_to_dict(c, replace_value_names))
                    except (KeyError, AttributeError):
                        # The c.term property doesn't exist, so add a list
                        d[c.record_term_lc] = [cls._convert_to_dict(c, replace_value_names)]
"""
_SCAT = """                    if c.record_term_lc in d:
                        s = d[c.record_term_lc] + ' '
                    else:
                        s = ''

                    d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')
"""
_BCAT = """                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls._convert_to_dict(c,
                                                                                               replace_value_names)
                                                                          or '')
"""
_ANY = """                    try:
                        d[c.record_term_lc].append(cls._convert_to_dict(c, replace_value_names))
                    except KeyError:
                        # The c.term property doesn't exist, so add a scalar or a map
                        d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)
                    except AttributeError as e:
                        # d[c.term] exists, but is a scalar, so convert it to a list

                        d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]
"""
_VAL = """            if term.value:
                if replace_value_names:
                    d[term.term_value_name.lower()] = term.value
                else:
                    d['@value'] = term.value
"""
_CHI = "            children = term.children\n\n        if children:\n"
MUTANTS += [
 ('c33 scalar first', ['C33'], [('terms.py', _SC, _SC.replace("d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)", "d.setdefault(c.record_term_lc, cls._convert_to_dict(c, replace_value_names))"))]),
 ('c33 scalar skip empty', ['C33'], [('terms.py', _SC, _SC.replace("                    d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)", "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if v:\n                        d[c.record_term_lc] = v"))]),
 ('c33 scalar option', ['C33'], [('terms.py', _SC, _SC.replace("(c, replace_value_names)", "(c)"))]),
 ('c33 sequence single scalar', ['C33'], [('terms.py', _SEQ, _SEQ.replace("= [cls._convert_to_dict(c, replace_value_names)]", "= cls._convert_to_dict(c, replace_value_names)"))]),
 ('c33 sequence front', ['C33'], [('terms.py', _SEQ, _SEQ.replace("].append(", "].insert(0, "))]),
 ('c33 sequence unique', ['C33'], [('terms.py', _SEQ, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if v not in d.setdefault(c.record_term_lc, []):\n                        d[c.record_term_lc].append(v)\n")]),
 ('c33 sequence non empty', ['C33'], [('terms.py', _SEQ, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    d.setdefault(c.record_term_lc, [])\n                    if v:\n                        d[c.record_term_lc].append(v)\n")]),
 ('c33 sequence extend', ['C33'], [('terms.py', _SEQ, _SEQ.replace("].append(", "].extend("))]),
 ('c33 sconcat no space', ['C33'], [('terms.py', _SCAT, _SCAT.replace("+ ' '\n", "+ ''\n"))]),
 ('c33 sconcat always space', ['C33'], [('terms.py', _SCAT, "                    d[c.record_term_lc] = d.get(c.record_term_lc, '') + ' ' + (cls._convert_to_dict(c, replace_value_names) or '')\n")]),
 ('c33 sconcat replace', ['C33'], [('terms.py', _SCAT, _SCAT.replace("                        s = d[c.record_term_lc] + ' '", "                        s = ' '"))]),
 ('c33 sconcat front', ['C33'], [('terms.py', _SCAT, _SCAT.replace("                    d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')", "                    d[c.record_term_lc] = (cls._convert_to_dict(c, replace_value_names) or '') + s"))]),
 ('c33 sconcat none', ['C33'], [('terms.py', _SCAT, _SCAT.replace("(cls._convert_to_dict(c, replace_value_names) or '')", "cls._convert_to_dict(c, replace_value_names)"))]),
 ('c33 sconcat truthy', ['C33'], [('terms.py', _SCAT, _SCAT.replace("if c.record_term_lc in d:", "if d.get(c.record_term_lc):"))]),
 ('c33 bconcat space', ['C33'], [('terms.py', _BCAT, _BCAT.replace("'') + ", "'') + ' ' + "))]),
 ('c33 bconcat str none', ['C33'], [('terms.py', _BCAT, "                    d[c.record_term_lc] = d.get(c.record_term_lc, '') + str(cls._convert_to_dict(c, replace_value_names))\n")]),
 ('c33 bconcat last', ['C33'], [('terms.py', _BCAT, "                    d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names) or d.get(c.record_term_lc, '')\n")]),
 ('c33 bconcat type', ['C33'], [('terms.py', "elif c.child_property_type == 'bconcat':", "elif c.child_property_type == 'concat':")]),
 ('c33 types swapped', ['C33'], [('terms.py', "elif c.child_property_type == 'bconcat':", "elif c.child_property_type == '?':"), ('terms.py', "elif c.child_property_type == 'sconcat':", "elif c.child_property_type in ('sconcat', 'bconcat'):")]),
 ('c33 any last', ['C33'], [('terms.py', _ANY, "                    d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)\n")]),
 ('c33 any always list', ['C33'], [('terms.py', _ANY, "                    d.setdefault(c.record_term_lc, []).append(cls._convert_to_dict(c, replace_value_names))\n")]),
 ('c33 any order', ['C33'], [('terms.py', _ANY, _ANY.replace("[d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]", "[cls._convert_to_dict(c, replace_value_names)] + [d[c.record_term]]"))]),
 ('c33 any lost', ['C33'], [('terms.py', _ANY, _ANY.replace("[d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]", "[cls._convert_to_dict(c, replace_value_names)]"))]),
 ('c33 any third lost', ['C33'], [('terms.py', _ANY, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if c.record_term_lc in d:\n                        old = d[c.record_term_lc]\n                        d[c.record_term_lc] = [old[0] if isinstance(old, list) else old, v]\n                    else:\n                        d[c.record_term_lc] = v\n")]),
 ('c33 any nested', ['C33'], [('terms.py', _ANY, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if c.record_term_lc in d:\n                        d[c.record_term_lc] = [d[c.record_term_lc], v]\n                    else:\n                        d[c.record_term_lc] = v\n")]),
 ('c33 any truthy', ['C33'], [('terms.py', _ANY, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if isinstance(d.get(c.record_term_lc), list):\n                        d[c.record_term_lc].append(v)\n                    elif d.get(c.record_term_lc):\n                        d[c.record_term_lc] = [d[c.record_term_lc], v]\n                    else:\n                        d[c.record_term_lc] = v\n")]),
 ('c33 any option', ['C33'], [('terms.py', _ANY, _ANY.replace("= cls._convert_to_dict(c, replace_value_names)\n", "= cls._convert_to_dict(c)\n"))]),
 ('c33 any equal', ['C33'], [('terms.py', _ANY, _ANY.replace("                    except AttributeError as e:\n", "                    except AttributeError as e:\n                        if d[c.record_term] == c.value:\n                            continue\n"))]),
 ('c33 value always', ['C33'], [('terms.py', _VAL, _VAL.replace("if term.value:", "if True:"))]),
 ('c33 value not none', ['C33'], [('terms.py', _VAL, _VAL.replace("if term.value:", "if term.value is not None:"))]),
 ('c33 value name', ['C33'], [('terms.py', _VAL, _VAL.replace("                if replace_value_names:", "                if replace_value_names and term.term_value_name.lower() not in d:"))]),
 ('c33 value swapped', ['C33'], [('terms.py', _VAL, _VAL.replace("if replace_value_names", "if not replace_value_names"))]),
 ('c33 value case', ['C33'], [('terms.py', _VAL, _VAL.replace("term_value_name.lower()", "term_value_name"))]),
 ('c33 value first', ['C33'], [('terms.py', _VAL, _VAL.replace("d[term.term_value_name.lower()] = term.value", "d.setdefault(term.term_value_name.lower(), term.value)"))]),
 ('c33 value @value', ['C33'], [('terms.py', _VAL, _VAL.replace("d['@value'] = term.value", "d['value'] = term.value"))]),
 ('c33 no children', ['C33'], [('terms.py', "        else:\n            return term.value\n\n    @property\n    def rows", "        else:\n            return term.value or ''\n\n    @property\n    def rows")]),
 ('c33 no children dict', ['C33'], [('terms.py', "        else:\n            return term.value\n\n    @property\n    def rows", "        else:\n            return {term.term_value_name.lower(): term.value}\n\n    @property\n    def rows")]),
 ('c33 first child', ['C33'], [('terms.py', "            for c in children:\n\n                if c.child_property_type == 'scalar'", "            for c in children[1:]:\n\n                if c.child_property_type == 'scalar'")]),
 ('c33 reversed', ['C33'], [('terms.py', "            for c in children:\n\n                if c.child_property_type == 'scalar'", "            for c in reversed(children):\n\n                if c.child_property_type == 'scalar'")]),
 ('c33 skip none', ['C33'], [('terms.py', "            for c in children:\n\n                if c.child_property_type == 'scalar'", "            for c in children:\n                if c.value is None and not c.children:\n                    continue\n\n                if c.child_property_type == 'scalar'")]),
 ('c33 as_dict option', ['C33'], [('terms.py', "        return self._convert_to_dict(self, replace_value_names)\n", "        return self._convert_to_dict(self)\n")]),
 ('c33 section option', ['C33'], [('terms.py', "        return self._convert_to_dict(self, replace_value_names, children=self.terms)\n", "        return self._convert_to_dict(self, children=self.terms)\n")]),
 ('c33 section children', ['C33'], [('terms.py', "        return self._convert_to_dict(self, replace_value_names, children=self.terms)\n", "        return self._convert_to_dict(self, replace_value_names)\n")]),
 ('c33 section part', ['C33'], [('terms.py', "        return self._convert_to_dict(self, replace_value_names, children=self.terms)\n", "        return self._convert_to_dict(self, replace_value_names, children=[t for t in self.terms if t.value])\n")]),
 ('c33 root value', ['C33'], [('terms.py', "        if replace_value_names and '@value' in d:\n", "        if not replace_value_names and '@value' in d:\n")]),
 ('c33 root option', ['C33'], [('terms.py', "        d = super(RootSectionTerm, self).as_dict(replace_value_names)\n", "        d = super(RootSectionTerm, self).as_dict()\n")]),
 ('c33 doc sections', ['C33'], [('doc.py', "            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "            for t in s:  # Iterate over the terms in each section.\n                if t not in r.terms and t.children:\n                    r.terms.append(t)\n")]),
 ('c33 doc option', ['C33'], [('doc.py', "        return r.as_dict(replace_value_names)\n", "        return r.as_dict()\n")]),
 ('c33 doc last', ['C33'], [('doc.py', "            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "            r.terms = list(s)\n")]),
 ('c33 doc order', ['C33'], [('doc.py', "                r.terms.append(t)\n", "                r.terms.insert(0, t)\n")]),
]
REFACTORINGS += [
 ('c33 hoist value', [('terms.py', "            for c in children:\n\n                if c.child_property_type == 'scalar'", "            for c in children:\n                name, v = c.record_term_lc, cls._convert_to_dict(c, replace_value_names)\n\n                if c.child_property_type == 'scalar'"),
   ('terms.py', _SC, _SC.replace("[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)", "[name] = v")), ('terms.py', _SEQ, _SEQ.replace("c.record_term_lc", "name").replace("cls._convert_to_dict(c, replace_value_names)", "v"))]),
 ('c33 any isinstance', [('terms.py', _ANY, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if c.record_term_lc not in d:\n                        d[c.record_term_lc] = v\n                    elif isinstance(d[c.record_term_lc], list):\n                        d[c.record_term_lc].append(v)\n                    else:\n                        d[c.record_term_lc] = [d[c.record_term_lc], v]\n")]),
 ('c33 sequence setdefault', [('terms.py', _SEQ, "                    d.setdefault(c.record_term_lc, []).append(cls._convert_to_dict(c, replace_value_names))\n")]),
 ('c33 sequence in', [('terms.py', _SEQ, "                    if c.record_term_lc not in d:\n                        d[c.record_term_lc] = []\n                    d[c.record_term_lc].append(cls._convert_to_dict(c, replace_value_names))\n")]),
 ('c33 sequence plus', [('terms.py', _SEQ, "                    d[c.record_term_lc] = d.get(c.record_term_lc, []) + [cls._convert_to_dict(c, replace_value_names)]\n")]),
 ('c33 sconcat expr', [('terms.py', _SCAT, "                    s = d[c.record_term_lc] + ' ' if c.record_term_lc in d else ''\n                    d[c.record_term_lc] = s + (cls._convert_to_dict(c, replace_value_names) or '')\n")]),
 ('c33 sconcat join', [('terms.py', _SCAT, "                    v = cls._convert_to_dict(c, replace_value_names) or ''\n                    if c.record_term_lc in d:\n                        d[c.record_term_lc] = ' '.join([d[c.record_term_lc], v])\n                    else:\n                        d[c.record_term_lc] = v\n")]),
 ('c33 sconcat aug', [('terms.py', _SCAT, "                    v = cls._convert_to_dict(c, replace_value_names) or ''\n                    if c.record_term_lc in d:\n                        d[c.record_term_lc] += ' ' + v\n                    else:\n                        d[c.record_term_lc] = v\n")]),
 ('c33 sconcat fstring', [('terms.py', _SCAT, "                    v = cls._convert_to_dict(c, replace_value_names) or ''\n                    if c.record_term_lc in d:\n                        d[c.record_term_lc] = f'{d[c.record_term_lc]} {v}'\n                    else:\n                        d[c.record_term_lc] = v\n")]),
 ('c33 bconcat in', [('terms.py', _BCAT, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    if v is None or not v:\n                        v = ''\n                    d[c.record_term_lc] = (d[c.record_term_lc] if c.record_term_lc in d else '') + v\n")]),
 ('c33 merge helper', [('terms.py', "            for c in children:\n\n                if c.child_property_type == 'scalar':\n                    d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)\n\n                elif c", "            for c in children:\n                if c.child_property_type == 'scalar':\n                    cls._put(d, c, replace_value_names)\n                elif c"),
   ('terms.py', "    @classmethod\n    def _convert_to_dict(", "    @classmethod\n    def _put(cls, d, c, rvn):\n        d[c.record_term_lc] = cls._convert_to_dict(c, rvn)\n\n    @classmethod\n    def _convert_to_dict(")]),
 ('c33 early return', [('terms.py', _CHI, "            children = term.children\n\n        if not children:\n            return term.value\n        if True:\n"), ('terms.py', "            return d\n\n        else:\n            return term.value\n", "            return d\n")]),
 ('c33 key expr', [('terms.py', _VAL, "            if term.value:\n                key = term.term_value_name.lower() if replace_value_names else '@value'\n                d[key] = term.value\n")]),
 ('c33 plain dict', [('terms.py', "            d = OrderedDict()\n\n            for c in children:", "            d = {}\n\n            for c in children:")]),
 ('c33 doc extend', [('doc.py', "            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "            r.terms.extend(s)\n")]),
 ('c33 doc comp', [('doc.py', "        for s in self:  # Iterate over sections\n            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "        r.terms = [t for s in self for t in s]\n")]),
 ('c33 doc terms', [('doc.py', "            for t in s:  # Iterate over the terms in each section.\n                r.terms.append(t)\n", "            r.terms += s.terms\n")]),
 ('c33 root pop', [('terms.py', "        if replace_value_names and '@value' in d:\n            del d['@value']\n", "        if replace_value_names and isinstance(d, dict):\n            d.pop('@value', None)\n")]),
 ('c33 child as_dict', [('terms.py', _SC, _SC.replace("cls._convert_to_dict(c, replace_value_names)", "c.as_dict(replace_value_names)"))]),
 ('c33 static helper', [('terms.py', "        return self._convert_to_dict(self, replace_value_names)\n", "        return type(self)._convert_to_dict(self, replace_value_names=replace_value_names)\n")]),
 ('c33 any get', [('terms.py', _ANY, "                    v = cls._convert_to_dict(c, replace_value_names)\n                    try:\n                        old = d[c.record_term_lc]\n                    except KeyError:\n                        d[c.record_term_lc] = v\n                    else:\n                        if isinstance(old, list):\n                            old.append(v)\n                        else:\n                            d[c.record_term_lc] = [old, v]\n")]),
]
_AP = "        d = dict(zip([str(e).lower() for e in self.section.property_names], self.args))\n"
MUTANTS += [
 ('c33 props skip empty', ['C33'], [('terms.py', "        return {t.record_term_lc: t.value for t in self.children}\n", "        return {t.record_term_lc: t.value for t in self.children if t.value}\n")]),
 ('c33 props first', ['C33'], [('terms.py', "        return {t.record_term_lc: t.value for t in self.children}\n", "        return {t.record_term_lc: t.value for t in reversed(self.children)}\n")]),
 ('c33 arg_props case', ['C33'], [('terms.py', _AP, _AP.replace("str(e).lower()", "str(e)"))]),
 ('c33 arg_props shift', ['C33'], [('terms.py', _AP, _AP.replace("self.args))", "[self.value] + self.args))"))]),
 ('c33 arg_props skip', ['C33'], [('terms.py', _AP, _AP.replace("for e in self.section.property_names]", "for e in self.section.property_names if e != 'x']"))]),
 ('c33 all_props order', ['C33'], [('terms.py', "        d = self.arg_props\n        d.update(self.props)\n", "        d = self.props\n        d.update(self.arg_props)\n")]),
 ('c33 all_props keep', ['C33'], [('terms.py', "        d.update(self.props)\n\n", "        for k, v in self.props.items():\n            d.setdefault(k, v)\n\n")]),
 ('c33 all_props empty', ['C33'], [('terms.py', "        d.update(self.props)\n\n", "        d.update({k: v for k, v in self.props.items() if v is not None})\n\n")]),
]
REFACTORINGS += [
 ('c33 props loop', [('terms.py', "        return {t.record_term_lc: t.value for t in self.children}\n", "        d = {}\n        for c in self.children:\n            d[c.record_term_lc] = c.value\n        return d\n")]),
 ('c33 arg_props loop', [('terms.py', _AP, "        d = {}\n        for n, v in zip(self.section.property_names, self.args):\n            d[str(n).lower()] = v\n")]),
 ('c33 arg_props comp', [('terms.py', _AP, "        d = {str(n).lower(): v for n, v in zip(self.section.property_names, self.args)}\n")]),
 ('c33 all_props merge', [('terms.py', "        d = self.arg_props\n        d.update(self.props)\n\n        return d\n", "        return {**self.arg_props, **self.props}\n")]),
 ('c33 all_props loop', [('terms.py', "        d.update(self.props)\n\n", "        for k, v in self.props.items():\n            d[k] = v\n\n")]),
 ('c33 all_props or', [('terms.py', "        d = self.arg_props\n        d.update(self.props)\n\n        return d\n", "        return self.arg_props | self.props\n")]),
 ('c32 sign', [('doc.py', "            if mod_version[0] == '+':\n                mv = str(int(mv) + int(mod_version[1:] if mod_version[1:] else 1))\n            else:\n                mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))\n", "            amount = int(mod_version[1:] or 1)\n            sign = 1 if mod_version[0] == '+' else -1\n            mv = str(int(mv) + sign * amount)\n")]),
 ('c32 in', [('doc.py', "elif str(mod_version)[0] == '+' or str(mod_version)[0] == '-':", "elif str(mod_version)[0] in ('+', '-'):")]),
 ('c32 startswith', [('doc.py', "elif str(mod_version)[0] == '+' or str(mod_version)[0] == '-':", "elif str(mod_version).startswith(('+', '-')):")]),
 ('c32 join loop', [('doc.py', "        parts = [slugify(str(e).replace('-', '_')) for e in (\n            origin, datasetname, time, space, grain, variant, version)\n                 if e is not None and str(e).strip()]\n", "        parts = []\n        for e in (origin, datasetname, time, space, grain, variant, version):\n            if e is None or not str(e).strip():\n                continue\n            parts.append(slugify(str(e).replace('-', '_')))\n")]),
 ('c32 join filter', [('doc.py', "        parts = [slugify(str(e).replace('-', '_')) for e in (\n            origin, datasetname, time, space, grain, variant, version)\n                 if e is not None and str(e).strip()]\n\n        return '-'.join(parts)\n", "        elements = [origin, datasetname, time, space, grain, variant, version]\n        named = [str(e) for e in elements if e is not None and str(e).strip()]\n        return '-'.join(slugify(e.replace('-', '_')) for e in named)\n")]),
 ('c32 parts helper', [('doc.py', "        parts = [slugify(str(e).replace('-', '_')) for e in (\n            origin, datasetname, time, space, grain, variant, version)\n                 if e is not None and str(e).strip()]\n\n        return '-'.join(parts)\n", "        return self._join_name(origin, datasetname, time, space, grain, variant, version)\n\n    @staticmethod\n    def _join_name(*elements):\n        return '-'.join(slugify(str(e).replace('-', '_')) for e in elements if e is not None and str(e).strip())\n")]),
 ('c32 lookup loop', [('doc.py', "        datasetname = self.find_first_value('Root.Dataset', section='Root')\n        origin = self.find_first_value('Root.Origin', section='Root')\n        time = self.find_first_value('Root.Time', section='Root')\n        space = self.find_first_value('Root.Space', section='Root')\n        grain = self.find_first_value('Root.Grain', section='Root')\n        variant = self.find_first_value('Root.Variant', section='Root')\n", "        origin, datasetname, time, space, grain, variant = [\n            self.find_first_value('Root.' + n, section='Root')\n            for n in ('Origin', 'Dataset', 'Time', 'Space', 'Grain', 'Variant')]\n")]),
 ('c32 helper method', [('doc.py', "            if mod_version[0] == '+':\n                mv = str(int(mv) + int(mod_version[1:] if mod_version[1:] else 1))\n            else:\n                mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))\n", "            mv = self._shift_version(mv, mod_version)\n"), ('doc.py', "    def as_dict(self, replace_value_names=True):\n        \"\"\"Iterate, link", "    @staticmethod\n    def _shift_version(mv, mod_version):\n        n = int(mod_version[1:]) if len(mod_version) > 1 else 1\n        return str(int(mv) + n if mod_version.startswith('+') else int(mv) - n)\n\n    def as_dict(self, replace_value_names=True):\n        \"\"\"Iterate, link")]),
 ('c32 int of mod', [('doc.py', "            if mod_version[0] == '+':\n                mv = str(int(mv) + int(mod_version[1:] if mod_version[1:] else 1))\n            else:\n                mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))\n", "            if mod_version in ('+', '-'):\n                mod_version += '1'\n            mv = str(int(mv) + int(mod_version))\n")]),
 ('c32 update join', [('doc.py', "        templ = '{}.{}.{}'\n        values = (major.value, minor.value, patch.value)\n\n        version.value = templ.format(*values)\n\n        build = version.find_first('Version.Build')\n        if build:\n            templ += '.{}'\n            values = values + (build.value,)\n\n        version.value = templ.format(*values)\n", "        values = [major, minor, patch]\n\n        build = version.find_first('Version.Build')\n        if build:\n            values.append(build)\n\n        version.value = '.'.join(str(t.value) for t in values)\n")]),
 ('c32 update fstring', [('doc.py', "        templ = '{}.{}.{}'\n        values = (major.value, minor.value, patch.value)\n\n        version.value = templ.format(*values)\n\n        build = version.find_first('Version.Build')\n        if build:\n            templ += '.{}'\n            values = values + (build.value,)\n\n        version.value = templ.format(*values)\n", "        version.value = f'{major.value}.{minor.value}.{patch.value}'\n\n        build = version.find_first('Version.Build')\n        if build:\n            version.value = f'{version.value}.{build.value}'\n")]),
 ('c32 percent', [('doc.py', "        version.value = templ.format(*values)\n\n        build =", "        version.value = '%s.%s.%s' % values\n\n        build =")]),
 ('c32 set_ver inline', [('doc.py', "            def set_ver(mv):\n                version_term['Version.Patch'].value = mv\n\n        else:", "            def set_ver(mv):\n                version_term.find_first('Version.Patch').value = mv\n\n        else:")]),
 ('c32 slug compiled', [('util.py', r"""    value = re.sub(r'[^\w\s\-\.]', '', value)
    value = re.sub(r'[-\s]+', '-', value)
    return value
""", r"""    value = re.sub(r'[^-.\w\s]', '', value)
    return re.sub(r'[\s-]+', '-', value)
""")]),
 ('c32 name early', [('doc.py', "        elif orig_name == identifier:\n            if report_unchanged:\n                updates.append(\"Name did not change\")\n\n        else:\n", "        elif orig_name == identifier and not report_unchanged:\n            pass\n        elif orig_name == identifier:\n            updates.append(\"Name did not change\")\n\n        else:\n")]),
]

MUTANTS += [
 ('c32 plus minus swapped', ['C32'], [('doc.py', "            if mod_version[0] == '+':\n", "            if mod_version[0] == '-':\n")]),
 ('c32 default zero', ['C32'], [('doc.py', "int(mv) - int(mod_version[1:] if mod_version[1:] else 1)", "int(mv) - int(mod_version[1:] if mod_version[1:] else 0)")]),
 ('c32 default two', ['C32'], [('doc.py', "int(mv) + int(mod_version[1:] if mod_version[1:] else 1)", "int(mv) + int(mod_version[1:] or 2)")]),
 ('c32 one digit', ['C32'], [('doc.py', "int(mv) + int(mod_version[1:] if mod_version[1:] else 1)", "int(mv) + int(mod_version[1:2] if mod_version[1:2] else 1)")]),
 ('c32 minus floor', ['C32'], [('doc.py', "mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))", "mv = str(max(0, int(mv) - int(mod_version[1:] if mod_version[1:] else 1)))")]),
 ('c32 minor', ['C32'], [('doc.py', "mv = version_term.get_value('Version.Patch')", "mv = version_term.get_value('Version.Minor')")]),
 ('c32 set minor', ['C32'], [('doc.py', "version_term['Version.Patch'].value = mv", "version_term['Version.Minor'].value = mv")]),
 ('c32 zero is none', ['C32'], [('doc.py', "        if mv is None:\n            version = None\n", "        if mv is None or mv == '0':\n            version = None\n")]),
 ('c32 none keeps', ['C32'], [('doc.py', "            # Set the version to nothing -- the nonver name\n            mv = None\n", "            # Set the version to nothing -- the nonver name\n            pass\n")]),
 ('c32 set digits only', ['C32'], [('doc.py', "            # Set the version to a specific string\n            mv = mod_version\n", "            # Set the version to a specific string\n            mv = mod_version if str(mod_version).isdigit() else mv\n")]),
 ('c32 order', ['C32'], [('doc.py', "origin, datasetname, time, space, grain, variant, version)\n", "origin, datasetname, space, time, grain, variant, version)\n")]),
 ('c32 order variant', ['C32'], [('doc.py', "origin, datasetname, time, space, grain, variant, version)\n", "origin, datasetname, time, space, variant, grain, version)\n")]),
 ('c32 no variant', ['C32'], [('doc.py', "origin, datasetname, time, space, grain, variant, version)\n", "origin, datasetname, time, space, grain, version)\n")]),
 ('c32 blank kept', ['C32'], [('doc.py', "                 if e is not None and str(e).strip()]\n", "                 if e]\n")]),
 ('c32 dash kept', ['C32'], [('doc.py', "slugify(str(e).replace('-', '_'))", "slugify(str(e))")]),
 ('c32 dash after', ['C32'], [('doc.py', "slugify(str(e).replace('-', '_'))", "slugify(str(e)).replace('-', '_')")]),
 ('c32 first dash', ['C32'], [('doc.py', "slugify(str(e).replace('-', '_'))", "slugify(str(e).replace('-', '_', 1))")]),
 ('c32 joiner', ['C32'], [('doc.py', "        return '-'.join(parts)\n", "        return '_'.join(parts)\n")]),
 ('c32 dedupe', ['C32'], [('doc.py', "        return '-'.join(parts)\n", "        return '-'.join(sorted(parts))\n")]),
 ('c32 build dropped', ['C32'], [('doc.py', "            values = values + (build.value,)\n", "            values = values + (patch.value,)\n")]),
 ('c32 build late', ['C32'], [('doc.py', "        version.value = templ.format(*values)\n\n        return version.value\n", "        return version.value\n")]),
 ('c32 returned stale', ['C32'], [('doc.py', "            set_ver(mv)\n            version = self.update_version(version_term)\n", "            version = self.update_version(version_term)\n            set_ver(mv)\n")]),
 ('c32 mv as version', ['C32'], [('doc.py', "            set_ver(mv)\n            version = self.update_version(version_term)\n", "            set_ver(mv)\n            self.update_version(version_term)\n            version = mv\n")]),
 ('c32 no version ok', ['C32'], [('doc.py', "                if not version_term:\n                    raise MetatabError(\"Can't set the version; there is no Root.Version term\")\n\n                version_term.value = mv\n", "                if version_term:\n                    version_term.value = mv\n")]),
 ('c32 identifier wins', ['C32'], [('doc.py', "        elif not orig_name:\n\n            if not identifier:", "        elif not orig_name or orig_name != identifier:\n\n            if not identifier:")]),
 ('c32 identifier not set', ['C32'], [('doc.py', "                name_term.value = identifier\n", "                pass\n")]),
 ('c32 copy without build', ['C32'], [('doc.py', "        for c in version.children:\n            copy.new_child(c.record_term, c.value)\n", "        for c in version.children[:3]:\n            copy.new_child(c.record_term, c.value)\n")]),
 ('c32 as_version int', ['C32'], [('doc.py', "return self._generate_identity_name(ver, version_term=self._version_copy())", "return self._generate_identity_name(ver or False, version_term=self._version_copy())")]),
 ('c32 not forwarded', ['C32'], [('doc.py', "name = self._generate_identity_name(mod_version=mod_version)", "name = self._generate_identity_name(mod_version=mod_version or False)")]),
 ('c32 slug dots', ['C32'], [('util.py', r"""re.sub(r'[^\w\s\-\.]', '', value)""", r"""re.sub(r'[^\w\s\-]', '', value)""")]),
 ('c32 slug underscore', ['C32'], [('util.py', r"""re.sub(r'[-\s]+', '-', value)""", r"""re.sub(r'[-_\s]+', '-', value)""")]),
 ('c32 slug one', ['C32'], [('util.py', r"""re.sub(r'[-\s]+', '-', value)""", r"""re.sub(r'[-\s]', '-', value)""")]),
 ('c32 slug case', ['C32'], [('util.py', ".decode('utf8').strip().lower()", ".decode('utf8').strip()")]),
 ('c32 slug nfc', ['C32'], [('util.py', "unicodedata.normalize('NFKD', value)", "unicodedata.normalize('NFC', value)")]),
]

# Changes written from the statements of the properties alone
MUTANTS += [
 ('adv c01 args padded', ['C01'], [('terms.py', "        d = dict(zip([str(e).lower() for e in self.section.property_names], self.args))\n", "        names = [str(e).lower() for e in self.section.property_names]\n        while len(self.args) < len(names):\n            self.args.append('')\n        d = dict(zip(names, self.args))\n")]),
 ('adv c01 version children shared', ['C01'], [('doc.py', "        for c in version.children:\n            copy.new_child(c.record_term, c.value)\n", "        copy.children = list(version.children)\n")]),
 ('adv c01 errors drained', ['C01'], [('parser.py', "        for e in sorted(self.errors, key=str):\n\n            errors.append({", "        found = sorted(self.errors, key=str)\n        self.errors.clear()\n        for e in found:\n\n            errors.append({")]),
 ('adv c01 sections stripped', ['C01'], [('doc.py', "            if s.name != 'Root':\n                yield s\n", "            if s.name != 'Root':\n                s.args = [a for a in s.args if a]\n                yield s\n")]),
 ('adv c01 child sort', ['C01'], [('terms.py', "        for c in self.children:\n            if not c.is_terminal:\n                for row in c.rows:", "        self.children.sort(key=lambda c: c.is_terminal)\n        for c in self.children:\n            if not c.is_terminal:\n                for row in c.rows:")]),
 ('adv c01 as_dict value', ['C01'], [('terms.py', "        else:\n            return term.value\n\n    @property\n    def rows", "        else:\n            if isinstance(term.value, str):\n                term.value = term.value.strip()\n            return term.value\n\n    @property\n    def rows")]),
 ('adv c01 datapackage title', ['C01'], [('datapackage.py', "    dp['resources'] = []\n\n", "    dp['resources'] = []\n    for t in doc['schema']:\n        t.term_value_name = 'name'\n\n")]),
 ('adv c01 getattr common', ['C01'], [('terms.py', "            if item.lower() in self._common_properties:\n                return None\n", "            if item.lower() in self._common_properties:\n                return self.get_or_new_child(item, None).value\n")]),
 ('adv c01 get_section default', ['C01'], [('doc.py', "            else:\n                return default\n\n    def sort_sections", "            else:\n                if isinstance(default, SectionTerm):\n                    self.sections[name.lower()] = default\n                return default\n\n    def sort_sections")]),
 ('adv c01 as_lines pops', ['C01'], [('terms.py', "            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))", "            names = self.property_names\n            while names and not names[-1]:\n                names.pop()\n            yield ('Section', '|'.join(escape(e) for e in [self.value] + names))")]),
 ('adv c02 class errors', ['C02'], [('parser.py', "        self.errors = set()\n", ""), ('parser.py', "    @property\n    def path(self):\n        \"\"\"Return the path from", "    errors = set()\n\n    @property\n    def path(self):\n        \"\"\"Return the path from")]),
 ('adv c02 args alias', ['C02'], [('terms.py', "        self.args = [strip_if_str(x) for x in (term_args or [])]\n", "        self.args = term_args or []\n")]),
 ('adv c02 options class', ['C02'], [('terms.py', "        self.options =[] # Set", "        self.options = Term._common_properties # Set"), ('parser.py', "                    t.valid = t.join_lc in self._declared_terms  # advisory.\n", "                    t.valid = t.join_lc in self._declared_terms  # advisory.\n                    t.options.append(t.join_lc)\n")]),
 ('adv c02 decl cache', ['C02'], [('doc.py', "        self.decl_sections.update(dd['sections'])\n", "        _decl_sections.update(dd['sections'])\n        self.decl_sections = dict(_decl_sections)\n"), ('doc.py', "class MetatabDoc(object):\n", "_decl_sections = {}\n\n\nclass MetatabDoc(object):\n")]),
 ('adv c02 header args shared', ['C02'], [('doc.py', "            s.args = list(self.decl_sections[name.lower()]['args'])\n", "            s.header_args = self.decl_sections[name.lower()]['args']\n")]),
 ('adv c02 decl list grows', ['C02'], [('doc.py', "        self.load_declarations(self.decls)\n", "        if 'metatab-latest' not in self.decls:\n            self.decls.append('metatab-latest')\n        self.load_declarations(self.decls)\n")]),
 ('adv c02 row padded', ['C02'], [('parser.py', "                tt = Term(row[0], None) # Just", "                if len(row) < 2:\n                    row.append('')\n\n                tt = Term(row[0], None) # Just")]),
 ('adv c06 rendered before', ['C06'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_csv(), path)", "        content = self.as_csv()\n        self.cleanse()\n\n        return self._write(content, path)")]),
 ('adv c06 identifier shape', ['C06'], [('doc.py', "        if not identifier.value:\n            identifier.value = str(uuid4())", "        if not identifier.value or len(str(identifier.value)) < 8:\n            identifier.value = str(uuid4())")]),
 ('adv c06 write direct', ['C06'], [('doc.py', "        if path.suffix == '.txt':\n            self.write_lines(path)\n", "        if path.suffix == '.txt':\n            self._write(self.as_lines(), path)\n")]),
 ('adv c06 cleanse when new', ['C06'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_lines(), path)", "        if not path.exists():\n            self.cleanse()\n\n        return self._write(self.as_lines(), path)")]),
 ('adv c06 swallow', ['C06'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_csv(), path)", "        try:\n            self.cleanse()\n        except Exception:\n            pass\n\n        return self._write(self.as_csv(), path)")]),
 ('adv c06 name to id', ['C06'], [('doc.py', "            elif name:\n                name.value = slugify(identifier.value)\n", "            elif name:\n                identifier.value = slugify(identifier.value)\n                name.value = identifier.value\n")]),
 ('adv c08 empty overwrite', ['C08'], [('cli.py', "    if not exists(mt_file):\n", "    import os\n    if not exists(mt_file) or not os.path.getsize(mt_file):\n")]),
 ('adv c08 backup on load', ['C08'], [('doc.py', "            self._term_parser = TermParser(ref,", "            if self._ref is not None and self._ref.scheme == 'file':\n                pathlib.Path(str(self._ref.path) + '.lock').touch()\n            self._term_parser = TermParser(ref,")]),
 ('adv c08 path made', ['C08'], [('doc.py', "        u = parse_app_url(self.ref)\n        return abspath(dirname(u.path))\n", "        u = parse_app_url(self.ref)\n        import os\n        os.makedirs(abspath(dirname(u.path)), exist_ok=True)\n        return abspath(dirname(u.path))\n")]),
 ('adv c08 always in place', ['C08'], [('cli.py', "        if args.write_in_place:\n", "        if args.write_in_place or not sys.stdout.isatty():\n")]),
 ('adv c08 find writes', ['C08'], [('cli.py', "        print(t.value)\n", "        print(t.value)\n        if args.out_type == 'csv':\n            doc.write_csv(args.file)\n")]),
 ('adv c08 create force', ['C08'], [('cli.py', "    if not exists(mt_file):\n", "    if not exists(mt_file) or template != 'metatab':\n")]),
 ('adv c09 class from decl', ['C09'], [('parser.py', "        if td.get('section'):\n            add_term_to_section(td)\n", "        if td.get('class'):\n            self.term_classes[term_name] = td['class']\n\n        if td.get('section'):\n            add_term_to_section(td)\n")]),
 ('adv c09 resource module', ['C09'], [('parser.py', "        path = None\n        while True:\n            if exists(name):", "        path = None\n        if ':' in name and not exists(name):\n            from importlib import import_module\n            path = import_module(name.split(':')[0]).__file__\n        while path is None:\n            if exists(name):")]),
 ('adv c09 full loader', ['C09'], [('rowgen.py', "d = yaml.safe_load(f)", "d = yaml.load(f, Loader=yaml.Loader)")]),
 ('adv c09 literal', ['C09'], [('parser.py', "                    default_term_value_name = t.value.lower()\n", "                    default_term_value_name = str(eval(t.value, {'__builtins__': {}}) if t.value.startswith('=') else t.value).lower()\n")]),
 ('adv c09 getattr type', ['C09'], [('rowgen.py', "            d = yaml.safe_load(f)\n", "            d = yaml.load(f, Loader=getattr(yaml, 'UnsafeLoader'))\n")]),
 ('adv c09 shell', ['C09'], [('parser.py', "        include_ref = name.strip('/')\n", "        import os\n        include_ref = name.strip('/')\n        if include_ref.startswith('git:'):\n            include_ref = os.popen('git show ' + include_ref[4:]).read()\n")]),
 ('adv c10 print', ['C10'], [('parser.py', "            if td['term'] not in st:", "            if td['term'] in st:\n                print('Term declared twice: ', td['term'])\n            if td['term'] not in st:")]),
 ('adv c10 print unflagged', ['C10'], [('rowgen.py', "        decl = d.get('declare', 'metatab-latest')\n", "        decl = d.get('declare', 'metatab-latest')\n        sys.stdout.write(str(decl))\n"), ('rowgen.py', "from rowgenerators import Source\n", "import sys\nfrom rowgenerators import Source\n")]),
 ('adv c10 logging', ['C10'], [('doc.py', "debug_logger = logging.getLogger('debug')\n", "debug_logger = logging.getLogger('debug')\nimport sys\ndebug_logger.addHandler(logging.StreamHandler(sys.stdout))\ndebug_logger.setLevel(logging.DEBUG)\n")]),
 ('adv c10 err', ['C10'], [('doc.py', "from .util import import_name_or_class\n", "from .util import import_name_or_class, err\n"), ('doc.py', "            raise MetatabError(\"Can't write file to URL '{}'\".format(str(path)))", "            err(\"Can't write file to URL '{}'\".format(str(path)))")]),
 ('adv c10 systemexit', ['C10'], [('parser.py', "                            raise ParserError(\"No parent term", "                            raise SystemExit(\"No parent term")]),
 ('adv c10 prt', ['C10'], [('doc.py', "        debug_logger.debug(\"writing doc {}\".format(str(path)))\n", "        from .util import prt, cli_init\n        cli_init()\n        prt(\"writing doc {}\".format(str(path)))\n")]),
 ('adv c12 last only', ['C12'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = including[-1:] + (str(row_gen.ref),)\n")]),
 ('adv c12 declare fresh', ['C12'], [('parser.py', "                                                     including=including, header=last_header):", "                                                     including=including if sub_type != 'declare' else (), header=last_header):")]),
 ('adv c12 unresolved', ['C12'], [('parser.py', "            path = realpath(join(d, include_ref))\n", "            path = join(d, include_ref)\n")]),
 ('adv c12 basename', ['C12'], [('parser.py', "                        if str(sub_gen.ref) in including:", "                        if t.term_is('include') and str(sub_gen.ref) in including:")]),
 ('adv c12 continue', ['C12'], [('parser.py', "                            raise IncludeError(\"Include loop for '{}' \".format(resolved))", "                            continue")]),
 ('adv c21 walrus', ['C21'], [('terms.py', "        assert self.find_first(rt)\n        assert self.find_first(rt) == c\n\n        return c\n", "        assert (found := self.find_first(rt))\n\n        return found if __debug__ else c\n")]),
 ('adv c21 debug', ['C21'], [('doc.py', "        assert t.section or t.join_lc == 'root.root', t\n\n        # Section terms", "        if __debug__ and not t.section:\n            t.section = self.root\n\n        # Section terms")]),
 ('adv c21 set in assert', ['C21'], [('doc.py', "        assert len(self.sections) == len(sections)\n\n        self.sections = sections\n", "        assert self._replace_sections(sections)\n\n    def _replace_sections(self, sections):\n        self.sections = sections\n        return True\n")]),
 ('adv c21 catch', ['C21'], [('terms.py', "        try:\n            return self[item].value\n        except (AttributeError, KeyError) as e:\n            return default\n", "        try:\n            return self[item].value\n        except (AttributeError, KeyError, AssertionError) as e:\n            return default\n")]),
 ('adv c21 iterator', ['C21'], [('doc.py', "        for t in terms:\n\n            t.doc = self\n\n            if t.term_is('root.root'):", "        terms_iter = iter(terms)\n        assert next(terms_iter, None) is not None\n        for t in terms_iter:\n\n            t.doc = self\n\n            if t.term_is('root.root'):")]),
 ('adv c22 typo', ['C22'], [('doc.py', "            elif name:\n                name.value = slugify(identifier.value)\n", "            elif name:\n                name.value = slugify(identifer.value)\n")]),
 ('adv c22 method', ['C22'], [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)\n", "        terms = list(self)\n\n        for t in terms:\n            self.doc.delete_term(t)\n")]),
 ('adv c22 kw', ['C31'], [('terms.py', "        return self.doc.find_first_value(term, value=value, section=self.name)", "        return self.doc.find_first_value(term, value=value, sections=self.name, default=None)")]),
 ('adv c22 collections', ['C22'], [('util.py', "isinstance(e, collections.abc.MutableSequence)", "isinstance(e, collections.MutableSequence)")]),
 ('adv c22 entry point', ['C22'], [('/setup.py', "MetatabUrl", "MetatabUrls")]),
 ('adv c22 arity', ['C22'], [('terms.py', "            t.section.remove_term(t, remove_from_doc=False)\n\n                t.section = self", "            t.section.remove_term(t, False, True)\n\n                t.section = self")]),
 ('adv c23 value first', ['C23'], [('terms.py', "        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):", "        elif item != 'value' and item.lower() != self.term_value_name.lower() and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):")]),
 ('adv c23 slots', ['C23'], [('terms.py', "        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):", "        elif item != 'value' and (item in self.__dict__ and item not in self.property_names or getattr(getattr(type(self), item, None), 'fset', None)):")]),
 ('adv c23 no fset', ['C23'], [('terms.py', "        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):", "        elif item != 'value' and item in self.__dict__:")]),
 ('adv c23 init early', ['C23'], [('terms.py', "        self.children = []  # When terms are linked, hold term's children.\n\n        assert self.file_name is None or isinstance(self.file_name, str), self.file_name\n\n        self.__initialised = True\n", "        self.__initialised = True\n\n        self.children = []  # When terms are linked, hold term's children.\n\n        assert self.file_name is None or isinstance(self.file_name, str), self.file_name\n")]),
 ('adv c24 zip target', ['C24'], [('appurl.py', "        elif self.resource_format == 'zip':\n            return 'metadata.csv'\n", "        elif self.resource_format == 'zip':\n            return self.resource_file\n")]),
 ('adv c24 upper', ['C24'], [('appurl.py', "        resource_format = file_ext(basename(self.path))\n", "        resource_format = file_ext(basename(self.path)).upper()\n")]),
 ('adv c24 xls', ['C24'], [('appurl.py', "not in ('zip', 'xlsx') + self.simple_file_formats:", "not in ('zip', 'xlsx', 'xls') + self.simple_file_formats:")]),
 ('adv c24 frag none', ['C24'], [('appurl.py', "        elif self.resource_format == 'zip':\n            frag = DEFAULT_METATAB_FILE\n", "        elif self.resource_format == 'zip':\n            frag = None\n")]),
]
MUTANTS += [
 ('adv c03 get_or_new_section', ['C03'], [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return self.sections[name.lower()]\n\n    def get_section", "        key = name.lower()\n        if name not in self.sections:\n            self.sections[key] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return self.sections[key]\n\n    def get_section")]),
 ('adv c03 in_section', ['C03'], [('doc.py', "                return section.lower() == term.section.name.lower()", "                return section.title() == term.section.name.title() or section == term.section.name if section.isupper() else section == term.section.name")]),
 ('adv c03 unregister', ['C03'], [('parser.py', "            del cls.term_classes[term_name.lower()]\n", "            del cls.term_classes[term_name]\n")]),
 ('adv c03 remove_arg', ['C03'], [('terms.py', "            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "            if arg_ == arg.title():\n                self.args.remove(arg_)")]),
 ('adv c03 term find', ['C03'], [('terms.py', "            if c.record_term_lc == term.lower():\n                if value is False or c.value == value:\n                    yield c\n", "            if c.record_term in (term, term.lower(), term.title()):\n                if value is False or c.value == value:\n                    yield c\n")]),
 ('adv c03 declared section', ['C03'], [('parser.py', "            st = self._declared_sections[td['section'].lower()]['terms']\n", "            st = self._declared_sections.setdefault(td['section'], self._declared_sections[section_name])['terms']\n")]),
 ('adv c03 contains', ['C03'], [('terms.py', "        return item.lower() in self._common_properties or item.lower() in self.props\n", "        return item.lower() in self._common_properties or item in self.props\n")]),
 ('adv c03 synonym', ['C03'], [('parser.py', "                syns[k.lower()] = v['synonym']\n\n", "                syns[k] = v['synonym']\n\n"), ('parser.py', "        self._declared_terms[term_name] = td\n", "        self._declared_terms[t.value if '.' in t.value else term_name] = td\n")]),
 ('adv c03 inherits', ['C03'], [('parser.py', "            if st_name.lower().startswith(ih_r.lower() + '.'):", "            if st_name.startswith(ih_r + '.'):")]),
 ('adv c04 used args', ['C04'], [('doc.py', "            for arg in sorted(used_args - set(section_args)):\n", "            for arg in used_args - set(section_args):\n")]),
 ('adv c04 derived', ['C04'], [('doc.py', "                for dt in sorted(self.derived_terms.get(t, [])) + [t]:", "                for dt in list(self.derived_terms.get(t, [])) + [t]:")]),
 ('adv c04 errors', ['C04'], [('parser.py', "        for e in sorted(self.errors, key=str):\n", "        for e in sorted(self.errors, key=id):\n")]),
 ('adv c04 mtime', ['C04'], [('doc.py', "        return '-'.join(parts)\n", "        if not parts:\n            parts = [slugify(datetime.date.today())]\n        return '-'.join(parts)\n"), ('doc.py', "import csv\n", "import csv\nimport datetime\n")]),
 ('adv c04 group', ['C04'], [('doc.py', "for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}", "for k, g in groupby(set(self.super_terms.items()), kf)}")]),
 ('adv c04 hash name', ['C04'], [('doc.py', "                name.value = slugify(identifier.value)\n            else:", "                name.value = slugify(hash(identifier.value))\n            else:")]),
 ('adv c04 dedupe rows', ['C04'], [('terms.py', "        for c in repeated:\n            yield (c.qualified_term, c.value)\n", "        for q, v in set((c.qualified_term, c.value) for c in repeated):\n            yield (q, v)\n")]),
 ('adv c05 open first', ['C05'], [('doc.py', "        content = content.encode('utf8')\n\n        with path.open('wb') as f:\n            f.write(content)\n", "        with path.open('wb') as f:\n            f.write(content.encode('utf8'))\n")]),
 ('adv c05 cli', ['C05'], [('cli.py', "            content = t.encode('utf8')\n\n            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                f.write(content)\n", "            with metadata_url.fspath.with_suffix('.'+ext).open('w', encoding='utf8') as f:\n                f.write(t)\n")]),
 ('adv c05 unlink', ['C05'], [('doc.py', "        if path.suffix != '.csv':\n            raise MetatabError(\"Writing CSV", "        if path.exists() and self.ref is not None:\n            path.unlink()\n\n        if path.suffix != '.csv':\n            raise MetatabError(\"Writing CSV")]),
 ('adv c05 touch', ['C05'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_lines(), path)", "        path.touch()\n        self.cleanse()\n\n        return self._write(self.as_lines(), path)")]),
 ('adv c05 chunks', ['C05'], [('doc.py', "        content = content.encode('utf8')\n\n        with path.open('wb') as f:\n            f.write(content)\n", "        with path.open('wb') as f:\n            for line in content.splitlines(True):\n                f.write(line.encode('utf8'))\n")]),
 ('adv c07 locale', ['C07'], [('rowgen.py', "                with open(ref, encoding='utf8') as r:", "                with open(ref) as r:")]),
 ('adv c07 latin', ['C07'], [('rowgen.py', "                with ref.open(encoding='utf8') as r:", "                with ref.open(encoding='utf8' if ref.suffix == '.txt' else None) as r:")]),
 ('adv c07 write', ['C07'], [('doc.py', "        content = content.encode('utf8')\n\n        with path.open('wb') as f:\n            f.write(content)\n", "        path.write_text(content)\n")]),
 ('adv c07 bom', ['C07'], [('doc.py', "        content = content.encode('utf8')\n\n", "        content = content.encode('utf-16' if path.suffix == '.csv' else 'utf8')\n\n")]),
 ('adv c11 swallow key', ['C11'], [('parser.py', "                        except KeyError:\n                            raise ParserError(", "                        except KeyError:\n                            if t.file_type == 'include':\n                                continue\n                            raise ParserError(")]),
 ('adv c11 decl doc', ['C11'], [('parser.py', "                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:\n", "                    except FileNotFoundError:\n                        continue\n\n                    except (OSError, GenerateError, RowGeneratorError) as e:\n")]),
 ('adv c11 source error', ['C11'], [('doc.py', "            except SourceError as e:\n                raise MetatabError(", "            except SourceError as e:\n                if not self.terms:\n                    raise MetatabError(")]),
 ('adv c11 undeclared', ['C11'], [('parser.py', "        if td.get('section'):\n            add_term_to_section(td)\n", "        if td.get('section', '').lower() in self._declared_sections:\n            add_term_to_section(td)\n")]),
 ('adv c11 not listed', ['C11'], [('parser.py', "            assert e is not None\n            self.errors.add(e)\n            raise\n", "            if e.term is not None:\n                self.errors.add(e)\n            raise\n")]),
 ('adv c11 list suppress', ['C11'], [('doc.py', "        list(term_interp)\n\n", "        from contextlib import suppress\n        with suppress(MetatabError):\n            list(term_interp)\n\n")]),
 ('adv c11 return finally', ['C11'], [('doc.py', "        try:\n            self.errors = terms.errors_as_dict()\n        except AttributeError:\n            self.errors = {}\n\n        return self\n", "        self.errors = {}\n        try:\n            self.errors = terms.errors_as_dict()\n        except AttributeError:\n            pass\n        finally:\n            return self\n")]),
 ('adv c13 add_child keeps', ['C13'], [('terms.py', "        if old is not None and old is not self and child in old.children:\n            old.children.remove(child)\n\n", "")]),
 ('adv c13 child section', ['C13'], [('terms.py', "            c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)", "            c = tc(term, value, parent=self, doc=self.doc).new_children(**kwargs)")]),
 ('adv c13 removed section', ['C13'], [('doc.py', "                for t in list(self.sections[item.lower()]):\n                    self.remove_term(t)\n", "                for t in list(self.sections[item.lower()])[1:]:\n                    self.remove_term(t)\n")]),
 ('adv c13 ownership depth', ['C13'], [('terms.py', "            t.doc = self.doc\n            t.set_ownership()\n", "            t.doc = self.doc\n            if t.is_terminal:\n                t.set_ownership()\n")]),
 ('adv c13 move', ['C13'], [('terms.py', "                if t.section and t.section is not self:\n                    t.section.remove_term(t, remove_from_doc=False)\n", "                if t.section and t.section.doc is not self.doc:\n                    t.section.remove_term(t, remove_from_doc=False)\n")]),
 ('adv c13 clean', ['C13'], [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)\n", "        for t in self:\n            self.doc.remove_term(t)\n")]),
 ('adv c14 hash value', ['C14'], [('parser.py', "                #    continue\n", "                #    continue\n                if t.value and str(t.value).startswith('#') and not t.args:\n                    continue\n")]),
 ('adv c14 zero cell', ['C14'], [('parser.py', "                        if str(value).strip():\n", "                        if value and str(value).strip():\n")]),
 ('adv c14 max cols', ['C14'], [('parser.py', "                    for col, value in enumerate(t.args, 0):\n", "                    for col, value in enumerate(t.args[:len(self._param_map) or None], 0):\n")]),
 ('adv c14 row number', ['C14'], [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            for line_n, row in enumerate((r for r in row_gen if r), 1):\n")]),
 ('adv c14 blank lines', ['C14'], [('rowgen.py', "        for row in self._text_lines:\n", "        for row in filter(None, self._text_lines):\n")]),
 ('adv c14 dup rows', ['C14'], [('parser.py', "                tt = Term(row[0], None) # Just", "                if t is not None and row[0] == '.' + t.record_term and t.value == (row[1:2] or [''])[0]:\n                    continue\n\n                tt = Term(row[0], None) # Just")]),
 ('adv c14 lines colon', ['C14'], [('rowgen.py', "row.split(':', 1)]", "row.split(':')]")]),
 ('adv c15 value name', ['C15'], [('parser.py', "                    last_section = t\n                    default_term_value_name = '@value'\n", "                    last_section = t\n                    default_term_value_name = t.default_term_value_name\n")]),
 ('adv c15 header kept', ['C15'], [('parser.py', "                    last_header = None\n", "                    last_header = None if t.args else last_header\n")]),
 ('adv c15 elided arg', ['C15'], [('parser.py', "                    elif t.is_arg_child:\n                        t.parent.add_child(t)  # The term", "                    elif t.is_arg_child:\n                        last_term_map[ELIDED_TERM].add_child(t)  # The term")]),
 ('adv c15 elided becomes parent', ['C15'], [('parser.py', "                    if elided_parent:\n                        last_term_map[last_parent_term].add_child(t)\n", "                    if elided_parent:\n                        last_term_map[last_parent_term].add_child(t)\n                        last_term_map[t.record_term] = t\n")]),
 ('adv c15 reassert', ['C15'], [('parser.py', "                        if last_section:\n                            yield last_section  # Re-assert", "                        if last_section and last_section is not root:\n                            yield last_section  # Re-assert")]),
 ('adv c16 blank property', ['C16'], [('terms.py', "                elif c.record_term_lc:\n                    # This is rare", "                elif c.record_term_lc and c.value:\n                    # This is rare")]),
 ('adv c16 remain once', ['C16'], [('terms.py', "                    for k, v in remain.items():\n                        yield term.split('.')[-1] + '.' + k, v\n", "                    for k, v in remain.items():\n                        if v is not None:\n                            yield term.split('.')[-1] + '.' + k, v\n")]),
 ('adv c16 escape name', ['C16'], [('terms.py', "            yield (term, escape(value[0]))\n", "            yield (term, value[0])\n")]),
 ('adv c16 empty sections', ['C16'], [('doc.py', "        for s_name, s in self.sections.items():\n            yield from s.lines\n", "        for s_name, s in self.sections.items():\n            if s.terms:\n                yield from s.lines\n")]),
 ('adv c17 case ext', ['C17'], [('doc.py', "        if path.suffix != '.csv':", "        if path.suffix.lower() not in ('.csv', '.txt'):")]),
 ('adv c17 else csv', ['C17'], [('doc.py', "        elif path.suffix == '.csv':\n            self.write_csv(path)\n        else:", "        elif path.suffix in ('.csv', '.tsv', ''):\n            self.write_csv(path.with_suffix('.csv'))\n        else:")]),
 ('adv c17 cli yaml', ['C17'], [('cli.py', "        write_or_print(ordered_dump(doc.as_dict(), default_flow_style=False, indent=4, Dumper=yaml.SafeDumper))", "        write_or_print(json.dumps(doc.as_dict(), indent=4))")]),
 ('adv c18 version', ['C18'], [('doc.py', "            mv = version_term.value if version_term else None\n", "            mv = version_term.value\n")]),
 ('adv c18 find first', ['C18'], [('cli.py', "        if t is None:\n            err(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))\n\n", "")]),
 ('adv c18 section', ['C18'], [('doc.py', "        schema_section = self.get_section('Schema', default=None)\n", "        schema_section = self['Schema']\n")]),
 ('adv c18 error term', ['C18'], [('parser.py", "x", "y')] if False else [('parser.py', "                'col': e.term.col if e.term else '<unknown>',\n", "                'col': e.term.col,\n")]),
 ('adv c19 delitem', ['C19'], [('terms.py', "            if '.' not in v:\n                v = 'root.' + v\n\n", "")]),
 ('adv c19 class lookup', ['C19'], [('doc.py', "        tnl = Term.normalize_term(term_name)\n", "        tnl = term_name.lower()\n")]),
 ('adv c19 child class', ['C19'], [('terms.py', "            tc = self.doc.get_term_class(term.lower())\n            c = tc(term, value, parent=self", "            tc = self.doc.get_term_class(rt.lower())\n            c = tc(term, value, parent=self")]),
 ('adv c20 stale super', ['C20'], [('parser.py', "            self.add_value_set_value(t)\n\n        self.super_terms.cache_clear()\n", "            self.add_value_set_value(t)\n\n        if t.get_value('inheritsfrom'):\n            self.super_terms.cache_clear()\n")]),
 ('adv c20 first wins', ['C20'], [('parser.py', "        self._declared_terms[term_name] = td\n", "        self._declared_terms.setdefault(term_name, td)\n")]),
 ('adv c20 decl arg skipped', ['C20'], [('doc.py', "        self.decl_terms.update(dd['terms'])\n", "        self.decl_terms.update((k, v) for k, v in dd['terms'].items() if k not in self.decl_terms)\n")]),
 ('adv c20 synonyms cached', ['C20'], [('parser.py', "    @property\n    def synonyms(self):\n", "    @property\n    @lru_cache()\n    def synonyms(self):\n")]),
 ('adv c20 derived merge', ['C20'], [('doc.py', "        self.derived_terms = {k: set(e[0] for e in g)\n                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}\n", "        for k, g in groupby(sorted(terms.super_terms().items(), key=kf), kf):\n            self.derived_terms.setdefault(k, set(e[0] for e in g))\n")]),
 ('adv c25 cwd', ['C25'], [('parser.py', "            path = realpath(join(d, include_ref))\n", "            path = realpath(include_ref if exists(include_ref) else join(d, include_ref))\n")]),
 ('adv c25 arg row', ['C25'], [('parser.py', "                                       col=col + 2,  # The 0th", "                                       col=col + 1,  # The 0th")]),
 ('adv c25 root dir', ['C25'], [('parser.py', "resolved = self.find_include_doc(dirname(ref_path), t.value.strip())", "resolved = self.find_include_doc(dirname(self.path if including[1:] else ref_path), t.value.strip())")]),
 ('adv c25 term lost', ['C25'], [('parser.py', "            exc.term = e.term if hasattr(e, 'term') else None\n", "            exc.term = t\n")]),
 ('adv c31 value or', ['C31'], [('doc.py', "                        and (value is False or value == t.value)):", "                        and (not value or value == t.value)):")]),
 ('adv c31 kwargs section', ['C31'], [('doc.py', "            terms = self.find(term, value, section)\n", "            terms = self.find(term, value)\n")]),
 ('adv c31 any', ['C31'], [('doc.py', "                if all(t.get_value(k) == v for k, v in kwargs.items()):", "                if all(t.get_value(k) == v for k, v in kwargs.items() if v):")]),
 ('adv c31 default', ['C31'], [('doc.py', "        if term is None:\n            return default\n        else:\n            return term.value\n", "        if term is None or term.value is None:\n            return default\n        else:\n            return term.value\n")]),
]

# a third batch of bugs, written from the properties alone
MUTANTS += [
 # C01
 ('adv3 c01 props cache', ['C01'], [('terms.py', "        d = dict(zip([str(e).lower() for e in self.section.property_names], self.args))\n", "        self.args.extend([''] * (len(self.section.property_names) - len(self.args)))\n        d = dict(zip([str(e).lower() for e in self.section.property_names], self.args))\n")]),
 ('adv3 c01 section in find', ['C01'], [('terms.py', "    def get_term(self, term, value=False):\n        \"\"\"Synonym for find_first, restructed to this section\"\"\"\n", "    def get_term(self, term, value=False):\n        \"\"\"Synonym for find_first, restructed to this section\"\"\"\n        self.doc.add_section(self)\n")]),
 ('adv3 c01 sort in rows', ['C01'], [('doc.py', "        s = StringIO()\n        w = csv.writer(s)\n", "        self.sort_sections(['root'])\n        s = StringIO()\n        w = csv.writer(s)\n")]),
 ('adv3 c01 version copy shares', ['C01'], [('doc.py', "            copy.new_child(c.record_term, c.value)\n", "            copy.add_child(c)\n")]),
 ('adv3 c01 errors', ['C01'], [('parser.py', "        for e in sorted(self.errors, key=str):\n", "        while self.errors:\n            e = self.errors.pop()\n")]),
 ('adv3 c01 header strip', ['C01'], [('terms.py', "        for n in [tvm] + self.property_names:\n", "        names = self.property_names\n        names.insert(0, tvm)\n        for n in names:\n")]),
 ('adv3 c01 getattr caches', ['C01'], [('terms.py', "            if item.lower() in self._common_properties:\n                return None\n            else:", "            if item.lower() in self._common_properties:\n                self.__dict__[item] = None\n                return None\n            else:")]),
 # C02
 ('adv3 c02 decl terms same', ['C02'], [('parser.py', "            self._declared_terms.update(self.doc.decl_terms)\n", "            self._declared_terms = self.doc.decl_terms\n"), ('doc.py', "        self.decl_terms = {}\n", "        self.decl_terms = DECLS\n"), ('doc.py', "class MetatabDoc(object):\n", "DECLS = {}\n\n\nclass MetatabDoc(object):\n")]),
 ('adv3 c02 default header', ['C02'], [('parser.py', "    def generate_terms(self, ref, root, file_type=None, including=(), header=None):\n", "    def generate_terms(self, ref, root, file_type=None, including=(), header=None, seen=[]):\n"), ('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = including + (str(row_gen.ref),)\n        seen.append(ref_path)\n")]),
 ('adv3 c02 args alias', ['C02'], [('terms.py', "        self.args = [strip_if_str(x) for x in (term_args or [])]\n", "        self.args = [strip_if_str(x) for x in (term_args or [])]\n        if self.args == term_args:\n            self.args = term_args\n")]),
 ('adv3 c02 section args', ['C02'], [('parser.py', "                            t.args = list(self._declared_sections.get(t.value.lower(), {}).get('args', []))\n", "                            t.args = self._declared_sections.get(t.value.lower(), {}).get('args', [])\n")]),
 ('adv3 c02 yaml del', ['C02'], [('datapackage.py', "            path=r.get('url'),\n", "            path=type_map.setdefault(r.get('url'), r.get('url')),\n")]),
 # C03
 ('adv3 c03 startswith', ['C03'], [('parser.py', "            if st_name.lower().startswith(ih_r.lower() + '.'):\n", "            if st_name.lower().startswith(ih_r + '.'):\n")]),
 ('adv3 c03 syn value', ['C03'], [('parser.py', "                syns[k.lower()] = v['synonym']\n\n                if", "                syns[k] = v['synonym']\n\n                if"), ('parser.py', "        term_name = Term.normalize_term(t.value)\n\n        td", "        term_name = '.'.join(Term.split_term(t.value))\n\n        td")]),
 ('adv3 c03 contains', ['C03'], [('terms.py', "        return item.lower() in self._common_properties or item.lower() in self.props\n", "        return item.lower() in self._common_properties or item in self.props\n")]),
 ('adv3 c03 delitem', ['C03'], [('doc.py', "            del self.sections[item.lower()]\n        except KeyError:", "            self.sections.pop(item, None) or self.sections.pop(item.strip().lower())\n        except KeyError:")]),
 ('adv3 c03 setattr', ['C03'], [('terms.py', "        elif item.lower() in [ e.lower() for e in self.property_names]:\n", "        elif item.lower() in self.property_names:\n")]),
 ('adv3 c03 param map', ['C03'], [('parser.py', "                    return [p.lower() if p else i for i, p in enumerate(t.args)]\n", "                    return [p if p else i for i, p in enumerate(t.args)]\n")]),
 ('adv3 c03 valueset', ['C03'], [('parser.py', "            if 'valuesetname' in v and vs_name == v['valuesetname'].lower():\n", "            if 'valuesetname' in v and vs_name == v['valuesetname']:\n")]),
 ('adv3 c03 find section', ['C03'], [('doc.py', "                return section.lower() == term.section.name.lower()\n", "                return section.lower() == term.section.name or section == term.section.name\n")]),
 # C04
 ('adv3 c04 used args', ['C04'], [('doc.py', "            for arg in sorted(used_args - set(section_args)):\n", "            for arg in used_args.difference(section_args):\n")]),
 ('adv3 c04 glob', ['C04'], [('util.py', "    if not exists(path):\n        path = join(d, name + '.csv')\n", "    if not exists(path):\n        from glob import glob\n        found = glob(join(d, name + '*.csv'))\n        path = found[0] if found else path\n")]),
 ('adv3 c04 time name', ['C04'], [('doc.py', "        time = self.find_first_value('Root.Time', section='Root')\n", "        time = self.find_first_value('Root.Time', section='Root') or self._mtime\n")]),
 ('adv3 c04 set union', ['C04'], [('terms.py', "        d = self.arg_props\n        d.update(self.props)\n\n        return d\n", "        d = self.arg_props\n        d.update(self.props)\n\n        return {k: d[k] for k in d.keys() & d.keys()}\n")]),
 ('adv3 c04 sort key id', ['C04'], [('terms.py', "            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))\n", "            sorted_terms.extend(sorted(all_terms, key=lambda e: (e.join_lc, hash(e))))\n")]),
 # C05
 ('adv3 c05 open first', ['C05'], [('doc.py', "        content = content.encode('utf8')\n\n        with path.open('wb') as f:\n            f.write(content)\n\n        return path\n", "        with path.open('w', encoding='utf8') as f:\n            f.write(content)\n\n        return path\n")]),
 ('adv3 c05 cli', ['C05'], [('cli.py', "            content = t.encode('utf8')\n\n            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                f.write(content)\n", "            with metadata_url.fspath.with_suffix('.'+ext).open('wb') as f:\n                for line in t.splitlines(True):\n                    f.write(line.encode('utf8'))\n")]),
 ('adv3 c05 touch', ['C05'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_lines(), path)\n", "        if not path.exists():\n            path.touch()\n\n        self.cleanse()\n\n        return self._write(self.as_lines(), path)\n")]),
 ('adv3 c05 parents', ['C05'], [('doc.py', "        path = self._write_path(path)\n\n        if path.suffix == '.txt':\n", "        path = self._write_path(path)\n\n        if path.exists():\n            path.replace(path.with_suffix('.bak'))\n\n        if path.suffix == '.txt':\n")]),
 # C06
 ('adv3 c06 render first', ['C06'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_csv(), path)\n", "        content = self.as_csv()\n\n        self.cleanse()\n\n        return self._write(content, path)\n")]),
 ('adv3 c06 only if', ['C06'], [('doc.py', "        self.cleanse()\n\n        return self._write(self.as_lines(), path)\n", "        if self.ref is None or self._mtime:\n            self.cleanse()\n\n        return self._write(self.as_lines(), path)\n")]),
 ('adv3 c06 id section', ['C06'], [('doc.py', "        if not identifier.value:\n            identifier.value = str(uuid4())\n", "        if not identifier.value or len(identifier.value) < 36:\n            identifier.value = str(uuid4())\n")]),
 ('adv3 c06 copies', ['C06'], [('doc.py', "        elif orig_name == identifier:\n            if report_unchanged:\n", "        elif orig_name == identifier:\n            self.find_first('Root.Identifier').value = name_term.value.strip()\n            if report_unchanged:\n")]),
 ('adv3 c06 name after', ['C06'], [('doc.py', "        return self._write(self.as_csv(), path)\n", "        self._write(self.as_csv(), path)\n\n        self.update_name(force=True)\n\n        return path\n")]),
 # C07
 ('adv3 c07 default', ['C07'], [('rowgen.py', "        with open(self.url.fspath, encoding='utf8') as f:\n            d = yaml.safe_load(f)\n", "        with open(self.url.fspath) as f:\n            d = yaml.safe_load(f)\n")]),
 ('adv3 c07 read_text', ['C07'], [('rowgen.py', "                with ref.inner.fspath.open(encoding='utf8') as f:\n                    text = f.read()\n", "                text = ref.inner.fspath.read_text()\n")]),
 ('adv3 c07 sig', ['C07'], [('doc.py', "        content = content.encode('utf8')\n", "        import sys\n        content = content.encode(sys.getfilesystemencoding())\n")]),
 ('adv3 c07 errors', ['C07'], [('rowgen.py', "                with open(ref, encoding='utf8') as r:\n", "                with open(ref, encoding=('utf8' if ref.endswith('.txt') else None)) as r:\n")]),
 # C08
 ('adv3 c08 backup', ['C08'], [('doc.py', "    def as_csv(self):\n        \"\"\"Return a CSV representation as a string\"\"\"\n", "    def as_csv(self):\n        \"\"\"Return a CSV representation as a string\"\"\"\n        import tempfile\n        tempfile.NamedTemporaryFile(delete=False).close()\n")]),
 ('adv3 c08 exists race', ['C08'], [('cli.py', "    if not exists(mt_file):\n", "    if not exists(mt_file) or template != 'metatab':\n")]),
 ('adv3 c08 write flag', ['C08'], [('cli.py', "        if args.write_in_place:\n", "        if args.write_in_place or not sys.stdout.isatty() and ext == 'yaml':\n")]),
 ('adv3 c08 cleanse writes', ['C08'], [('parser.py', "        path = None\n        while True:\n", "        path = None\n        from metatab.util import make_dir_structure\n        make_dir_structure(d or '.')\n        while True:\n")]),
 # C09
 ('adv3 c09 yaml', ['C09'], [('rowgen.py', "            d = yaml.safe_load(f)\n", "            d = yaml.load(f, Loader=yaml.UnsafeLoader)\n")]),
 ('adv3 c09 class from decl', ['C09'], [('doc.py', "            return import_name_or_class(TermParser.term_classes[self.super_terms[tnl]])\n", "            return import_name_or_class(self.decl_terms[tnl]['class'])\n")]),
 ('adv3 c09 fmt', ['C09'], [('doc.py', "        version.value = templ.format(*values)\n\n        return version.value\n", "        import ast\n        version.value = str(compile(templ.format(*values), 'v', 'eval').co_consts[0]) if build and 0 else templ.format(*values)\n        if build and build.value and build.value.startswith('='):\n            version.value = str(eval(build.value[1:]))\n\n        return version.value\n")]),
 ('adv3 c09 getattr method', ['C09'], [('parser.py', "        elif t.term_is('value.*'):\n            self.add_value_set_value(t)\n", "        elif t.term_is('value.*'):\n            self.add_value_set_value(t)\n\n        elif t.term_is('root.plugin'):\n            __import__(t.value)\n")]),
 # C10
 ('adv3 c10 exit', ['C10'], [('util.py', "    if not exists(path):\n        raise IncludeError(\"No local declaration file for name '{}' \".format(name))\n", "    if not exists(path):\n        if os.environ.get('METATAB_STRICT'):\n            raise SystemExit('no declaration ' + name)\n        raise IncludeError(\"No local declaration file for name '{}' \".format(name))\n")]),
 ('adv3 c10 handler', ['C10'], [('doc.py', "debug_logger = logging.getLogger('debug')\n", "debug_logger = logging.getLogger('debug')\nimport sys\ndebug_logger.addHandler(logging.StreamHandler(sys.stdout))\n")]),
 ('adv3 c10 print', ['C10'], [('parser.py', "                except IndexError:\n                    pass  # Probably no parameter map.\n", "                except IndexError:\n                    print('no column for', t.record_term)\n")]),
]
MUTANTS += [
 # C11
 ('adv3 c11 swallow oserror', ['C11'], [('parser.py', "                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:\n                        e = IncludeError(\"Failed to Include; {}\".format(e))\n                        e.term = include_term\n                        raise e\n", "                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:\n                        e = IncludeError(\"Failed to Include; {}\".format(e))\n                        e.term = include_term\n                        if t.term_is('include'):\n                            raise e\n                        self.errors.add(e)\n")]),
 ('adv3 c11 load source', ['C11'], [('doc.py', "            except SourceError as e:\n                raise MetatabError(\"Failed to load terms for document '{}': {}\".format(self._ref, e))\n", "            except SourceError as e:\n                if self._mtime:\n                    raise MetatabError(\"Failed to load terms for document '{}': {}\".format(self._ref, e))\n")]),
 ('adv3 c11 finally return', ['C11'], [('doc.py', "        list(term_interp)\n\n        self._load_declare_dict(term_interp)\n\n        return self\n", "        try:\n            list(term_interp)\n        finally:\n            self._load_declare_dict(term_interp)\n            return self\n")]),
 ('adv3 c11 suppress', ['C11'], [('doc.py', "        list(term_interp)\n\n        self._load", "        from contextlib import suppress\n        with suppress(KeyError, OSError):\n            list(term_interp)\n\n        self._load")]),
 ('adv3 c11 parent any', ['C11'], [('parser.py', "                            last_term_map[t.parent_term].add_child(t)\n                        except KeyError:\n", "                            last_term_map.get(t.parent_term, last_section).add_child(t)\n                        except KeyError:\n")]),
 ('adv3 c11 empty value', ['C11'], [('parser.py', "                    include_term = t  # The nested terms are also assigned to t\n", "                    include_term = t  # The nested terms are also assigned to t\n\n                    if t.value and t.value.startswith('?'):\n                        continue\n")]),
 ('adv3 c11 http', ['C11'], [('parser.py', "                        sub_gen = get_generator(resolved.get_resource().get_target())\n", "                        try:\n                            sub_gen = get_generator(resolved.get_resource().get_target())\n                        except OSError:\n                            if resolved.scheme == 'file':\n                                raise\n                            sub_gen = get_generator([])\n")]),
 # C12
 ('adv3 c12 including reset', ['C12'], [('parser.py', "                                                     including=including, header=last_header):\n", "                                                     including=including[-2:], header=last_header):\n")]),
 ('adv3 c12 only include', ['C12'], [('parser.py', "                        if str(sub_gen.ref) in including:\n", "                        if t.term_is('include') and str(sub_gen.ref) in including:\n")]),
 ('adv3 c12 only same type', ['C12'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        if file_type != 'declare':\n            including = including + (str(row_gen.ref),)\n")]),
 ('adv3 c12 name', ['C12'], [('parser.py', "                        if str(sub_gen.ref) in including:\n", "                        if t.value in including:\n"), ('parser.py', "        including = including + (str(row_gen.ref),)\n", "        including = including + (str(row_gen.ref), ref_path)\n")]),
 ('adv3 c12 first', ['C12'], [('parser.py', "                        if str(sub_gen.ref) in including:\n", "                        if str(sub_gen.ref) == including[0]:\n")]),
 # C13
 ('adv3 c13 no old', ['C13'], [('terms.py', "        if old is not None and old is not self and child in old.children:\n", "        if old is not None and old is not self and not child.section and child in old.children:\n")]),
 ('adv3 c13 new child section', ['C13'], [('terms.py', "               parent=self, doc=self.doc, section=self.section).new_children(**kwargs)\n\n        c.term", "               parent=self, doc=self.doc).new_children(**kwargs)\n\n        c.term")]),
 ('adv3 c13 move', ['C13'], [('terms.py', "                    t.section.remove_term(t, remove_from_doc=False)\n\n                t.section = self\n", "                    if t.section.doc is self.doc:\n                        t.section.remove_term(t, remove_from_doc=False)\n\n                t.section = self\n")]),
 ('adv3 c13 del iter', ['C13'], [('doc.py', "                for t in list(self.sections[item.lower()]):\n", "                for t in self.sections[item.lower()]:\n")]),
 ('adv3 c13 remove parent', ['C13'], [('doc.py', "        if t.section and t.parent_term_lc == 'root':\n            t.section = self.add_section(t.section)\n            t.section.remove_term(t, remove_from_doc=False)\n", "        if t.section and t.parent_term_lc == 'root' and not t.children:\n            t.section = self.add_section(t.section)\n            t.section.remove_term(t, remove_from_doc=False)\n")]),
 ('adv3 c13 dup', ['C34'], [('terms.py', "            for tn in order:\n                for t in list(all_terms):\n\n                    if t.term_is(tn):\n                        all_terms.remove(t)\n                        sorted_terms.append(t)\n", "            for tn in order:\n                for t in list(all_terms):\n\n                    if t.term_is(tn):\n                        sorted_terms.append(t)\n            all_terms = [t for t in all_terms if not any(t.term_is(tn) for tn in order)]\n")]),
 # C14
 ('adv3 c14 limit', ['C14'], [('parser.py', "                    for col, value in enumerate(t.args, 0):\n", "                    for col, value in enumerate(t.args[:max(len(self._param_map), 64)], 0):\n")]),
 ('adv3 c14 zero', ['C14'], [('parser.py', "                        if str(value).strip():\n", "                        if value and str(value).strip():\n")]),
 ('adv3 c14 comment', ['C14'], [('parser.py', "or row[0].strip().startswith('#'):\n                    continue\n", "or row[0].strip().startswith(('#', '//')):\n                    continue\n")]),
 ('adv3 c14 dup rows', ['C14'], [('parser.py', "                tt = Term(row[0], None)", "                if t is not None and row[0] == t._orig_term and len(row) < 2:\n                    continue\n\n                tt = Term(row[0], None)")]),
 ('adv3 c14 line strip', ['C14'], [('rowgen.py', "        for row in self._text_lines:\n", "        for row in self._text_lines:\n            row = row.split(' #')[0]\n")]),
 ('adv3 c14 cols', ['C14'], [('parser.py', "                                       col=col + 2,  # The 0th argument starts in col 2\n", "                                       col=t.args.index(value) + 2,\n")]),
 ('adv3 c14 declare args', ['C14'], [('parser.py', "                if not t.term_is('section') and not t.term_is('header'):\n", "                if not t.term_is('section') and not t.term_is('*.header'):\n")]),
 # C15
 ('adv3 c15 header keeps', ['C15'], [('parser.py', "                    self._param_map = munge_param_map(t)\n                    default_term_value_name = t.value.lower()\n", "                    self._param_map = munge_param_map(t) or self._param_map\n                    default_term_value_name = t.value.lower()\n")]),
 ('adv3 c15 section empty', ['C15'], [('parser.py', "                    self._param_map = munge_param_map(t)\n                    # Parentage", "                    if t.args:\n                        self._param_map = munge_param_map(t)\n                    # Parentage")]),
 ('adv3 c15 parent persists', ['C15'], [('parser.py', "                    last_parent_term = self.root.record_term\n", "                    if t is not last_section:\n                        last_parent_term = self.root.record_term\n")]),
 ('adv3 c15 header not restored', ['C15'], [('parser.py', "                        if last_header:\n                            yield last_header  # And its header\n", "                        if last_header and t.term_is('header'):\n                            yield last_header  # And its header\n")]),
 ('adv3 c15 header of nested', ['C15'], [('parser.py', "                    last_header = None\n\n                elif t.term_is('header')", "                    last_header = header if file_type == 'include' else None\n\n                elif t.term_is('header')")]),
 # C16
 ('adv3 c16 falsy', ['C16'], [('terms.py', "                    for k, v in remain.items():\n", "                    for k, v in remain.items():\n                        if not v:\n                            continue\n")]),
 ('adv3 c16 repeated set', ['C16'], [('terms.py', "                if c.record_term_lc in properties:\n                    repeated.append(c)\n", "                if c.record_term_lc in properties:\n                    if c.value != properties[c.record_term_lc]:\n                        repeated.append(c)\n")]),
 ('adv3 c16 escape', ['C16'], [('terms.py', "                    yield (\"    \"+child_t, escape(value))\n", "                    yield (\"    \"+child_t, escape(value) if prop in self.args else value)\n")]),
 ('adv3 c16 nonterminal', ['C16'], [('terms.py', "            if not c.is_terminal:\n                for row in c.rows:\n                    yield row\n", "            if not c.is_terminal and c.value:\n                for row in c.rows:\n                    yield row\n")]),
 ('adv3 c16 root name', ['C16'], [('doc.py', "            if s.name != 'Root':\n                yield ['']  # Un", "            if s.name != 'Root' and s.terms:\n                yield ['']  # Un")]),
 ('adv3 c16 tvm', ['C16'], [('terms.py', "        lower_d = {k.lower(): v for k, v in d.items()}\n\n        args = []\n", "        lower_d = {k.lower().split('.')[-1].strip('_'): v for k, v in d.items()}\n\n        args = []\n")]),
 # C17
 ('adv3 c17 lower', ['C17'], [('doc.py', "        if path.suffix != '.csv':\n            raise MetatabError(\"Writing CSV", "        if path.suffix.lower() not in ('.csv', '.tsv'):\n            raise MetatabError(\"Writing CSV")]),
 ('adv3 c17 name endswith', ['C17'], [('doc.py', "        if path.suffix == '.txt':\n            self.write_lines(path)\n", "        if path.name.endswith('txt'):\n            self._write(self.as_lines(), path)\n")]),
 ('adv3 c17 ext', ['C17'], [('cli.py', "        ext = 'txt' if args.out_type == 'line' else args.out_type\n", "        ext = {'line': 'txt', 'yaml': 'yml'}.get(args.out_type, args.out_type)\n")]),
 # C18
 ('adv3 c18 table', ['C18'], [('cli.py', "        if t is None:\n            err(\"No term '{}' in '{}'\".format(args.find_first, metadata_url))\n\n        print(t.value)\n", "        print(t.value)\n")]),
 ('adv3 c18 version', ['C18'], [('doc.py', "            mv = version_term.value if version_term else None\n", "            mv = version_term.value\n")]),
 ('adv3 c18 section', ['C18'], [('doc.py', "        schema_section = self.get_section('Schema', default=None)\n\n        if schema_section:\n            used_args = set()\n            section_args = [e.lower() for e in schema_section.args]\n", "        schema_section = self.get_section('Schema', default=None)\n        section_args = [e.lower() for e in schema_section.args]\n\n        if schema_section:\n            used_args = set()\n")]),
 ('adv3 c18 error term', ['C18'], [('parser.py', "                'col': e.term.col if e.term else '<unknown>',\n", "                'col': e.term.col,\n")]),
 ('adv3 c18 identifier', ['C18'], [('doc.py', "        if not identifier:\n            identifier = self['Root'].new_term('Root.Identifier', None)\n\n        if not identifier.value:\n", "        if not identifier.value:\n")]),
 ('adv3 c18 patch', ['C18'], [('doc.py', "        for term, term_name in ((major, 'Version.Major'),\n                                (minor, 'Version.Minor'),\n", "        for term, term_name in ((major, 'Version.Major'),\n")]),
]
MUTANTS += [
 # C19
 ('adv3 c19 section del', ['C19'], [('terms.py', "            if t.term_is(item):\n                self.remove_term(t)\n", "            if t.join_lc == item.lower():\n                self.remove_term(t)\n")]),
 ('adv3 c19 derived', ['C19'], [('doc.py', "                t = Term.normalize_term(t)\n                for dt", "                t = t.lower()\n                for dt")]),
 ('adv3 c19 new term class', ['C19'], [('doc.py', "        tnl = Term.normalize_term(term_name)\n\n        try:\n            return import_name_or_class(TermParser.term_classes[tnl])", "        tnl = term_name.lower()\n\n        try:\n            return import_name_or_class(TermParser.term_classes[tnl])")]),
 ('adv3 c19 child class', ['C19'], [('terms.py', "        tc = self.doc.get_term_class(self.record_term_lc + '.' + self.split_term_lower(term)[1])\n", "        tc = self.doc.get_term_class(term.lower())\n")]),
 ('adv3 c19 inherits', ['C19'], [('parser.py', "        return {k.lower(): Term.normalize_term(v['inheritsfrom'])\n", "        return {k.lower(): v['inheritsfrom'].lower()\n")]),
 ('adv3 c19 term setter', ['C19'], [('terms.py', "        if self.parent and self.parent_term == ROOT_TERM.lower():\n            self.parent_term = self.parent.record_term\n", "        if self.parent and '.' not in v and not v.istitle():\n            self.parent_term = self.parent.record_term\n")]),
 # C20
 ('adv3 c20 no clear', ['C20'], [('parser.py', "        elif t.term_is('value.*'):\n            self.add_value_set_value(t)\n\n        self.super_terms.cache_clear()\n", "        elif t.term_is('value.*'):\n            self.add_value_set_value(t)\n            self.super_terms.cache_clear()\n")]),
 ('adv3 c20 derived once', ['C20'], [('doc.py', "        self.derived_terms = {k: set(e[0] for e in g)\n                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}\n", "        if not self.derived_terms:\n            self.derived_terms = {k: set(e[0] for e in g)\n                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}\n")]),
 ('adv3 c20 setdefault', ['C20'], [('parser.py', "        self._declared_terms[term_name] = td\n", "        self._declared_terms.setdefault(term_name, td)\n")]),
 ('adv3 c20 declared section', ['C20'], [('parser.py', "        self._declared_sections[t.value.lower()] = {\n", "        if t.value.lower() not in self._declared_sections:\n          self._declared_sections[t.value.lower()] = {\n")]),
 ('adv3 c20 nested type', ['C20'], [('parser.py', "                        sub_type = 'declare' if file_type == 'declare' else t.record_term_lc\n", "                        sub_type = t.record_term_lc\n")]),
 ('adv3 c20 no doc decl', ['C20'], [('parser.py', "            self._declared_sections.update(self.doc.decl_sections)\n", "            pass\n")]),
 ('adv3 c20 second load', ['C20'], [('doc.py', "        extant_decls = [t.value for t in self.find('Root.Declare')]\n", "        extant_decls = [t.value for t in self.find('Root.Declare')] + self.decls[:-1]\n")]),
 # C21
 ('adv3 c21 walrus', ['C21'], [('terms.py', "        assert self.find_first(rt)\n        assert self.find_first(rt) == c\n", "        assert (c := self.find_first(rt))\n")]),
 ('adv3 c21 next', ['C21'], [('parser.py', "        including = including + (str(row_gen.ref),)\n", "        row_gen = iter(row_gen) if not isinstance(row_gen, Source) else row_gen\n        including = including + (str(getattr(row_gen, 'ref', '')),)\n        rows = iter(row_gen)\n        assert next(rows, None) is not None or True\n"), ('parser.py', "enumerate(row_gen, 1):", "enumerate(rows, 1):")]),
 ('adv3 c21 setdefault', ['C21'], [('doc.py', "        assert isinstance(s, SectionTerm), str(s)\n", "        assert isinstance(s, SectionTerm) and self.sections.setdefault(s.value.lower(), s), str(s)\n")]),
 ('adv3 c21 cleanse', ['C21'], [('doc.py', "        assert len(self.sections) == len(sections)\n\n        self.sections = sections\n", "        assert len(self.sections) == len(sections) and not self.sections.clear()\n\n        self.sections.update(sections)\n")]),
 # C22
 ('adv3 c22 attr', ['C22'], [('doc.py', "        return self._cache\n", "        return self._file_cache\n")]),
 ('adv3 c22 kw', ['C22'], [('terms.py', "        return self.doc.find_first(term, value=value, section=self.name)\n\n    def find(self", "        return self.doc.find_first(term, value=value, section_name=self.name, **{}) if value else self.doc.find_first_term(term, section=self.name)\n\n    def find(self")]),
 ('adv3 c22 method', ['C22'], [('doc.py', "                    schema_section.remove_arg(arg.title())\n", "                    schema_section.delete_arg(arg.title())\n")]),
 ('adv3 c22 import', ['C22'], [('util.py', "        import collections.abc\n\n        prefix", "        import collections\n\n        prefix"), ('util.py', "isinstance(e, collections.abc.MutableMapping)", "isinstance(e, collections.MutableMapping)")]),
 ('adv3 c22 name', ['C22'], [('doc.py', "                    raise MetatabError(\"Can't set the version; there is no Root.Version term\")\n", "                    raise VersionError(\"Can't set the version; there is no Root.Version term\")\n")]),
 ('adv3 c22 args count', ['C22'], [('doc.py', "            t.section.remove_term(t, remove_from_doc=False)\n", "            t.section.remove_term(t, False, True)\n")]),
 # C23
 ('adv3 c23 order', ['C23'], [('terms.py', "        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):\n            # Value already exists as an attribute in the object, which a value name or\n            # property name from the document does not change\n            object.__setattr__(self, item, value)\n\n        elif item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n            # Set the value name\n            object.__setattr__(self, 'value', value)\n", "        elif item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n            # Set the value name\n            object.__setattr__(self, 'value', value)\n\n        elif item != 'value' and (item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None)):\n            object.__setattr__(self, item, value)\n")]),
 ('adv3 c23 no fset', ['C23'], [('terms.py', "(item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None))", "item in self.__dict__")]),
 ('adv3 c23 underscore', ['C23'], [('terms.py', "(item in self.__dict__ or getattr(getattr(type(self), item, None), 'fset', None))", "(item.startswith('_') or item in ('section', 'parent', 'children', 'term', 'row', 'col'))")]),
 # C24
 ('adv3 c24 xls', ['C24'], [('appurl.py', "        if file_ext(basename(u.path)) not in ('zip', 'xlsx') + self.simple_file_formats:\n", "        if file_ext(basename(u.path)) not in ('zip', 'xlsx', 'xls') + self.simple_file_formats:\n")]),
 ('adv3 c24 frag', ['C24'], [('appurl.py', "        elif self.resource_format in self.simple_file_formats:\n            frag = ''\n", "        elif self.resource_format in self.simple_file_formats[:2]:\n            frag = ''\n")]),
 ('adv3 c24 target', ['C24'], [('appurl.py', "        elif self.resource_format == 'zip':\n            return 'metadata.csv'\n", "        elif self.resource_format == 'zip':\n            return 'metadata.txt'\n")]),
 ('adv3 c24 ext lower', ['C24'], [('appurl.py', "        resource_format = file_ext(basename(self.path))\n", "        resource_format = self.path.rsplit('.', 1)[-1]\n")]),
 # C25
 ('adv3 c25 cwd', ['C25'], [('parser.py', "                            resolved = self.find_include_doc(dirname(ref_path), t.value.strip())\n", "                            resolved = self.find_include_doc(dirname(self._ref.path) if including[1:] else dirname(ref_path), t.value.strip())\n")]),
 ('adv3 c25 row', ['C25'], [('parser.py', "            for line_n, row in enumerate(row_gen, 1):\n", "            for line_n, row in enumerate((r for r in row_gen if r), 1):\n")]),
 ('adv3 c25 err term', ['C25'], [('parser.py', "                        if getattr(e, 'term', None) is None:  # Otherwise, it is from a nested document\n                            e.term = include_term\n", "                        e.term = include_term\n")]),
 ('adv3 c25 file', ['C25'], [('parser.py', "                                       file_name=ref_path,\n", "                                       file_name=self.path,\n")]),
 ('adv3 c25 decl dir', ['C25'], [('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n", "            for fn in (name, join(d, name + '.csv')):\n")]),
 ('adv3 c25 exc', ['C25'], [('parser.py', "            exc.term = e.term if hasattr(e, 'term') else None\n", "            exc.term = t\n")]),
 ('adv3 c25 msg', ['C25'], [('parser.py', "            exc = IncludeError(str(e) + \"; in '{}' \".format(ref_path))\n", "            exc = IncludeError(str(e) + \"; in '{}' \".format(self.path))\n")]),
 # C31
 ('adv3 c31 falsy value', ['C31'], [('doc.py', "                        and (value is False or value == t.value)):\n", "                        and (not value or value == t.value)):\n")]),
 ('adv3 c31 nested only', ['C31'], [('doc.py', "            if term.startswith('root.'):\n", "            if term.startswith('root'):\n")]),
 ('adv3 c31 kwargs', ['C31'], [('doc.py', "            terms = self.find(term, value, section)\n", "            terms = self.find(term, value)\n")]),
 ('adv3 c31 any', ['C31'], [('doc.py', "                if all(t.get_value(k) == v for k, v in kwargs.items()):\n", "                if all(t.get_value(k, v) == v for k, v in kwargs.items()):\n")]),
 ('adv3 c31 term find', ['C31'], [('terms.py', "            if c.record_term_lc == term.lower():\n                if value is False or c.value == value:\n                    yield c\n", "            if c.record_term_lc == term.lower():\n                if value is False or c.value == value:\n                    yield c\n                elif not value:\n                    return\n")]),
 ('adv3 c31 wild', ['C31'], [('terms.py', "            elif v_p == '*' and v_r == self.record_term_lc:\n", "            elif v_p == '*' and self.record_term_lc.startswith(v_r):\n")]),
 ('adv3 c31 section value', ['C31'], [('terms.py', "        return self.doc.find_first_value(term, value=value, section=self.name)\n", "        return self.doc.find_first_value(term, section=self.name)\n")]),
 ('adv3 c31 get default', ['C31'], [('doc.py', "        if term is None:\n            return default\n        else:\n            return term.value\n", "        if term is None or not term.value:\n            return default\n        else:\n            return term.value\n")]),
 ('adv3 c31 descend', ['C31'], [('terms.py', "            yield c\n\n            for d in c.descendents:\n                yield d\n", "            yield c\n\n            for d in c.children:\n                yield d\n")]),
 # C32
 ('adv3 c32 build', ['C32'], [('doc.py', "            templ += '.{}'\n", "            templ += '+{}'\n")]),
 ('adv3 c32 minus', ['C32'], [('doc.py', "                mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))\n", "                mv = str(max(int(mv) - int(mod_version[1:] if mod_version[1:] else 1), 0))\n")]),
 ('adv3 c32 zero version', ['C32'], [('doc.py', "        if mv is None:\n            version = None\n", "        if not mv:\n            version = None\n")]),
 ('adv3 c32 slug dot', ['C32'], [('util.py', "    value = re.sub(r'[^\\w\\s\\-\\.]', '', value)\n", "    value = re.sub(r'[^\\w\\s\\-]', '', value)\n")]),
 # C33
 ('adv3 c33 falsy', ['C33'], [('terms.py', "                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls", "                    d[c.record_term_lc] = (d.get(c.record_term_lc) or '') + (' ' if c.children else '') +  (cls")]),
 ('adv3 c33 rvn', ['C33'], [('terms.py', "                        d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]\n", "                        d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c)]\n")]),
 ('adv3 c33 three', ['C33'], [('terms.py', "                        d[c.record_term_lc].append(cls._convert_to_dict(c, replace_value_names))\n                    except KeyError:", "                        d[c.record_term_lc].insert(1, cls._convert_to_dict(c, replace_value_names))\n                    except KeyError:")]),
 ('adv3 c33 scalar first', ['C33'], [('terms.py', "                if c.child_property_type == 'scalar':\n                    d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)\n", "                if c.child_property_type == 'scalar':\n                    d.setdefault(c.record_term_lc, cls._convert_to_dict(c, replace_value_names))\n")]),
 ('adv3 c33 root', ['C33'], [('terms.py', "        if replace_value_names and '@value' in d:\n", "        if '@value' in d:\n")]),
 ('adv3 c33 props', ['C33'], [('terms.py', "        return {t.record_term_lc: t.value for t in self.children}\n", "        return {t.record_term_lc: t.value for t in self.children if t.is_terminal}\n")]),
]

# ------------------------------------------------------------------------------------------------------------ C34
MUTANTS += [
 ('c34 setitem none falsy', ['C34'], [('terms.py', "        elif value is None:\n            child = self.find_first(item)", "        elif not value:\n            child = self.find_first(item)")]),
 ('c34 setitem removes all', ['C34'], [('terms.py', "            child = self.find_first(item)\n            if child:\n                self.remove_child(child)", "            for child in list(self.find(item)):\n                self.remove_child(child)")]),
 ('c34 setitem value name case', ['C34'], [('terms.py', "        if item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n            self.value = value\n\n        elif value is None", "        if item.lower() == self.term_value_name or item.lower() == 'value':\n            self.value = value\n\n        elif value is None")]),
 ('c34 gonc truthy', ['C34'], [('terms.py', "            if value is not False:\n                c.value = value", "            if value:\n                c.value = value")]),
 ('c34 gonc by value', ['C34'], [('terms.py', "        c = self.find_first(rt)\n\n        if c is None:", "        c = self.find_first(rt, value)\n\n        if c is None:")]),
 ('c34 gonc insert', ['C34'], [('terms.py', "(self, c)\n            self.children.append(c)", "(self, c)\n            self.children.insert(0, c)")]),
 ('c34 gonc props lost', ['C34'], [('terms.py', "            for k, v in kwargs.items():\n                c.get_or_new_child(k, v)\n\n        # Check", "            for k, v in kwargs.items():\n                c.new_child(k, v)\n                break\n\n        # Check")]),
 ('c34 add_arg case', ['C34'], [('terms.py', "        if arg.lower() not in [e.lower() for e in self.args]:", "        if arg not in [e.lower() for e in self.args]:")]),
 ('c34 add_arg prepend', ['C34'], [('terms.py', "                self.args = [arg.title()] + self.args", "                self.args = [arg.title()] + self.args[1:]")]),
 ('c34 add_arg prefix', ['C34'], [('terms.py', "        if arg.lower() not in [e.lower() for e in self.args]:", "        if not any(e.lower().startswith(arg.lower()) for e in self.args):")]),
 ('c34 remove_arg skip', ['C34'], [('terms.py', "        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "        for arg_ in self.args:\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)\n                break")]),
 ('c34 remove_arg in', ['C34'], [('terms.py', "            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "            if arg.lower() in arg_.lower():\n                self.args.remove(arg_)")]),
 ('c34 remove_arg strip', ['C34'], [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        for arg_ in list", "        self.args = [arg_ for arg_ in self.args if arg_.strip()]\n\n        for arg_ in list")]),
 ('c34 sort rest original', ['C34'], [('terms.py', "            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))", "            sorted_terms.extend(all_terms)")]),
 ('c34 sort dup', ['C34'], [('terms.py', "                        all_terms.remove(t)\n", "")]),
 ('c34 sort first only', ['C34'], [('terms.py', "                        all_terms.remove(t)\n                        sorted_terms.append(t)\n", "                        all_terms.remove(t)\n                        sorted_terms.append(t)\n                        break\n")]),
 ('c34 sort value', ['C34'], [('terms.py', "            self.terms = sorted(self.terms, key=lambda e: e.join_lc)\n", "            self.terms = sorted(self.terms, key=lambda e: (e.join_lc, e.value), reverse=True)\n")]),
 ('c34 sort case', ['C34'], [('terms.py', "            self.terms = sorted(self.terms, key=lambda e: e.join_lc)\n", "            self.terms = sorted(self.terms, key=lambda e: e.join)\n")]),
 ('c34 sections rest', ['C34'], [('doc.py', "for k in self.sections.keys() if k not in order_lc)", "for k in sorted(self.sections.keys()) if k not in order_lc)")]),
 ('c34 sections case', ['C34'], [('doc.py', "        order_lc = [e.lower() for e in order]\n\n        sections", "        order_lc = list(order)\n\n        sections")]),
 ('c34 sections missing', ['C34'], [('doc.py', "for k in order_lc if k in self.sections)", "for k in order_lc)")]),
 ('c34 del first', ['C34'], [('terms.py', "            if t.term_is(item):\n                self.remove_term(t)\n\n        return", "            if t.term_is(item):\n                self.remove_term(t)\n                return")]),
 ('c34 del live', ['C34'], [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):", "        for t in self.terms[:-1]:\n            if t.term_is(item):")]),
 ('c34 del doc', ['C34'], [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):\n                self.remove_term(t)", "        for t in self.doc.find(item):\n            if t.term_is(item):\n                t.section.remove_term(t)")]),
 ('c34 gont value', ['C34'], [('terms.py', "        t = self.get_term(term, value=value)\n\n        if not t:", "        t = self.get_term(term)\n\n        if not t:")]),
 ('c34 gont section', ['C34'], [('terms.py', "        t = self.get_term(term, value=value)\n\n        if not t:", "        t = self.doc.find_first(term, value=value)\n\n        if not t:")]),
 ('c34 gont props', ['C34'], [('terms.py', "            for k, v in kwargs.items():\n                t.get_or_new_child(k, v)\n\n        return t", "            for k, v in kwargs.items():\n                if t.find_first(k):\n                    t.get_or_new_child(k, v)\n\n        return t")]),
 ('c34 gons case', ['C34'], [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return", "        if name not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return")]),
 ('c34 clean', ['C34'], [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        terms = list(self)\n\n        for t in terms[1:]:\n            self.doc.remove_term(t)")]),
 ('c34 new_child value', ['C34'], [('terms.py', "        c = tc(term, str(value) if value is not None else None,", "        c = tc(term, str(value) if value else None,")]),
 ('c34 set_terms pair', ['C34'], [('terms.py', "            if isinstance(v, (tuple, list)) and len(v) == 2:\n", "            if len(str(v)) == 2 or isinstance(v, tuple):\n")]),
 ('c34 set_terms props', ['C34'], [('terms.py', "            self.new_term(k,value,**props)", "            self.new_term(k,value).new_children(**{p: w for p, w in list(props.items())[:1]})")]),
 ('c34 set_terms existing', ['C34'], [('terms.py', "            self.new_term(k,value,**props)", "            (self.get_term('xa') or self).new_child(k,value,**props)")]),
 ('c34 doc del', ['C34'], [('doc.py', "                for t in list(self.sections[item.lower()]):\n                    self.remove_term(t)", "                for t in list(self.terms):\n                    self.remove_term(t)")]),
]
REFACTORINGS += [
 ('c34 setitem early', [('terms.py', "        elif value is None:\n            child = self.find_first(item)\n            if child:\n                self.remove_child(child)\n\n        else:\n            c = self.get_or_new_child(item, value)", "            return\n\n        if value is None:\n            child = next(self.find(item), None)\n            if child is not None:\n                self.remove_child(child)\n\n        else:\n            c = self.get_or_new_child(item, value)")]),
 ('c34 setitem names', [('terms.py', "        if item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n            self.value = value\n\n        elif value is None", "        if item.lower() in (self.term_value_name.lower(), 'value'):\n            self.value = value\n\n        elif value is None")]),
 ('c34 gonc helper', [('terms.py', "        if c is None:\n            tc = self.doc.get_term_class(term.lower())\n            c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)\n            assert not c.term_is(\"Datafile.Section\"), (self, c)\n            self.children.append(c)\n", "        if c is None:\n            c = self._make_child(term, value, kwargs)\n"),
                      ('terms.py', "    def get_or_new_child(self, term, value=False, **kwargs):", "    def _make_child(self, term, value, props):\n        tc = self.doc.get_term_class(term.lower())\n        c = tc(term, value, parent=self, doc=self.doc, section=self.section)\n        c.new_children(**props)\n        assert not c.term_is(\"Datafile.Section\"), (self, c)\n        self.children.append(c)\n        return c\n\n    def get_or_new_child(self, term, value=False, **kwargs):")]),
 ('c34 add_arg clean', [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        if arg.lower() not in [e.lower() for e in self.args]:\n            if prepend:\n                self.args = [arg.title()] + self.args\n            else:\n                self.args.append(arg.title())", "        args = list(filter(None, (a.strip() for a in self.args)))\n        have = {e.lower() for e in args}\n\n        if arg.lower() not in have:\n            args.insert(0 if prepend else len(args), arg.title())\n\n        self.args = args")]),
 ('c34 add_arg any', [('terms.py', "        if arg.lower() not in [e.lower() for e in self.args]:\n            if prepend:\n                self.args = [arg.title()] + self.args\n            else:\n                self.args.append(arg.title())", "        if any(e.lower() == arg.lower() for e in self.args):\n            return\n\n        if prepend:\n            self.args.insert(0, arg.title())\n        else:\n            self.args += [arg.title()]")]),
 ('c34 remove_arg comp', [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "        stripped = [a.strip() for a in self.args]\n        self.args = [a for a in stripped if a and a.lower() != arg.lower()]")]),
 ('c34 remove_arg loop', [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "        kept = []\n        for a in self.args:\n            a = a.strip()\n            if not a or a.lower() == arg.lower():\n                continue\n            kept.append(a)\n        self.args = kept")]),
 ('c34 remove_arg while', [('terms.py', "        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "        i = 0\n        while i < len(self.args):\n            if self.args[i].lower() == arg.lower():\n                del self.args[i]\n            else:\n                i += 1")]),
 ('c34 sort comp', [('terms.py', "            for tn in order:\n                for t in list(all_terms):\n\n                    if t.term_is(tn):\n                        all_terms.remove(t)\n                        sorted_terms.append(t)\n\n            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))\n", "            for tn in order:\n                named = [t for t in all_terms if t.term_is(tn)]\n                all_terms = [t for t in all_terms if not t.term_is(tn)]\n                sorted_terms += named\n\n            sorted_terms += sorted(all_terms, key=lambda e: e.join_lc)\n")]),
 ('c34 sort rank', [('terms.py', "            all_terms = list(self.terms)\n            sorted_terms = []\n\n            for tn in order:\n                for t in list(all_terms):\n\n                    if t.term_is(tn):\n                        all_terms.remove(t)\n                        sorted_terms.append(t)\n\n            sorted_terms.extend(sorted(all_terms, key=lambda e: e.join_lc))\n", "            def rank(t):\n                for i, tn in enumerate(order):\n                    if t.term_is(tn):\n                        return i, ''\n                return len(order), t.join_lc\n\n            sorted_terms = sorted(self.terms, key=rank)\n")]),
 ('c34 sort inplace', [('terms.py', "            self.terms = sorted(self.terms, key=lambda e: e.join_lc)\n", "            self.terms.sort(key=lambda e: e.join_lc)\n")]),
 ('c34 sort attrgetter', [('terms.py', "            self.terms = sorted(self.terms, key=lambda e: e.join_lc)\n", "            from operator import attrgetter\n            self.terms = sorted(self.terms, key=attrgetter('join_lc'))\n")]),
 ('c34 sections loop', [('doc.py', "        sections = OrderedDict((k, self.sections[k]) for k in order_lc if k in self.sections)\n\n        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        sections = OrderedDict()\n\n        for k in order_lc + list(self.sections.keys()):\n            if k in self.sections and k not in sections:\n                sections[k] = self.sections[k]\n")]),
 ('c34 sections names', [('doc.py', "        sections = OrderedDict((k, self.sections[k]) for k in order_lc if k in self.sections)\n\n        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        first = [k for k in order_lc if k in self.sections]\n        rest = [k for k in self.sections if k not in order_lc]\n        sections = OrderedDict((k, self.sections[k]) for k in first + rest)\n")]),
 ('c34 sections move', [('doc.py', "        sections = OrderedDict((k, self.sections[k]) for k in order_lc if k in self.sections)\n\n        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        sections = OrderedDict(self.sections)\n\n        for k in reversed(order_lc):\n            if k in sections:\n                sections.move_to_end(k, last=False)\n")]),
 ('c34 sections sorted', [('doc.py', "        sections = OrderedDict((k, self.sections[k]) for k in order_lc if k in self.sections)\n\n        sections.update((k, self.sections[k]) for k in self.sections.keys() if k not in order_lc)\n", "        place = lambda e: order_lc.index(e[0]) if e[0] in order_lc else len(order_lc)\n        sections = OrderedDict(sorted(self.sections.items(), key=place))\n")]),
 ('c34 del find', [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):\n                self.remove_term(t)\n\n        return", "        doomed = [t for t in self.terms if t.term_is(item)]\n        for t in doomed:\n            self.remove_term(t)")]),
 ('c34 del slice', [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):\n                self.remove_term(t)\n", "        for t in self.terms[:]:\n            if not t.term_is(item):\n                continue\n            self.remove_term(t)\n")]),
 ('c34 gont get', [('terms.py', "        t = self.get_term(term, value=value)\n\n        if not t:\n            t = self.new_term(term, value, **kwargs)\n\n        else:\n            if value is not None and value is not False:\n                t.value = value\n\n            for k, v in kwargs.items():\n                t.get_or_new_child(k, v)\n\n        return t", "        t = self.doc.find_first(term, value=value, section=self.name)\n\n        if t is None:\n            return self.new_term(term, value, **kwargs)\n\n        if value is not None and value is not False:\n            t.value = value\n\n        for k in kwargs:\n            t.get_or_new_child(k, kwargs[k])\n\n        return t")]),
 ('c34 gons setdefault', [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return self.sections[name.lower()]\n\n    def get_section", "        key = name.lower()\n        s = self.sections.get(key)\n        if s is None:\n            s = self.sections[key] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return s\n\n    def get_section")]),
 ('c34 gons try', [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return self.sections[name.lower()]\n\n    def get_section", "        key = name.lower()\n        try:\n            return self.sections[key]\n        except KeyError:\n            self.sections[key] = SectionTerm(None, name, term_args=params, doc=self)\n            return self.sections[key]\n\n    def get_section")]),
 ('c34 clean direct', [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        for t in [*self.terms]:\n            self.doc.remove_term(t)")]),
 ('c34 clean while', [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        while self.terms:\n            self.doc.remove_term(self.terms[0])")]),
 ('c34 set_terms try', [('terms.py', "            if isinstance(v, (tuple, list)) and len(v) == 2:\n                value, props = v\n            else:\n                value, props = v, {}\n", "            value, props = v if isinstance(v, (tuple, list)) and len(v) == 2 else (v, {})\n")]),
 ('c34 set_terms str', [('terms.py', "            if isinstance(v, (tuple, list)) and len(v) == 2:\n                value, props = v\n            else:\n                value, props = v, {}\n", "            if isinstance(v, str):\n                value, props = v, {}\n            else:\n                try:\n                    value, props = v\n                except (ValueError, TypeError):\n                    value, props = v, {}\n")]),
 ('c34 doc del pop', [('doc.py', "        try:\n            if item.lower() in self.sections:\n                for t in list(self.sections[item.lower()]):\n                    self.remove_term(t)\n\n            del self.sections[item.lower()]\n        except KeyError:\n            # Ignore errors\n            pass\n", "        section = self.sections.get(item.lower())\n\n        if section is None:\n            return\n\n        for t in list(section.terms):\n            self.remove_term(t)\n\n        self.sections.pop(item.lower(), None)\n")]),
 ('c34 remove guard', [('terms.py', "        try:\n            self.terms.remove(term)\n        except ValueError:\n            pass\n\n        if remove_from_doc:", "        if term in self.terms:\n            self.terms.remove(term)\n\n        if remove_from_doc:")]),
 ('c34 remove comp', [('terms.py', "        try:\n            self.terms.remove(term)\n        except ValueError:\n            pass\n\n        if remove_from_doc:", "        self.terms = [t for t in self.terms if t is not term]\n\n        if remove_from_doc:")]),
 ('c34 children index', [('terms.py', "        self.children.remove(child)\n        self.doc.remove_term(child)", "        self.children.pop(self.children.index(child))\n        self.doc.remove_term(child)")]),
]
MUTANTS += [
 ('c34 clean live', ['C34'], [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        for t in self:\n            self.doc.remove_term(t)")]),
 ('c34 clean live iter', ['C34'], [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        for t in iter(self.terms):\n            self.doc.remove_term(t)")]),
 ('c34 del live2', ['C34'], [('terms.py', "        for t in list(self.terms):\n            if t.term_is(item):", "        for t in self.terms:\n            if t.term_is(item):")]),
 ('c34 doc del live', ['C34'], [('doc.py', "                for t in list(self.sections[item.lower()]):\n", "                for t in self.sections[item.lower()]:\n")]),
 ('c34 remove_arg live', ['C34'], [('terms.py', "        for arg_ in list(self.args):\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "        for arg_ in self.args:\n            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)")]),
]
MUTANTS += [
 ('c34b remove by name', ['C34'], [('terms.py', "        self.children.remove(child)\n        self.doc.remove_term(child)", "        self.children = [c for c in self.children if c.join_lc != child.join_lc]\n        self.doc.remove_term(child)")]),
 ('c34b remove by value', ['C34'], [('terms.py', "        self.children.remove(child)\n        self.doc.remove_term(child)", "        self.children = [c for c in self.children if c.value != child.value]\n        self.doc.remove_term(child)")]),
 ('c34b doc remove name', ['C34'], [('doc.py', "        try:\n            self.terms.remove(t)\n        except ValueError:\n            pass\n\n        if t.section and", "        self.terms = [e for e in self.terms if (e.join_lc, e.value) != (t.join_lc, t.value)]\n\n        if t.section and")]),
 ('c34b section remove name', ['C34'], [('terms.py', "            self.terms.remove(term)\n        except ValueError:", "            self.terms.remove([e for e in self.terms if e.join_lc == term.join_lc][0])\n        except ValueError:")]),
 ('c34b setitem record', ['C34'], [('terms.py', "        if item.lower() == self.term_value_name.lower() or item.lower() == 'value':\n            self.value = value\n\n        elif value is None", "        if item.lower() in (self.term_value_name.lower(), self.record_term_lc, 'value'):\n            self.value = value\n\n        elif value is None")]),
 ('c34b setitem prefix', ['C34'], [('terms.py', "        c = self.find_first(rt)\n\n        if c is None:", "        c = next((e for e in self.children if e.record_term_lc.startswith(rt.lower())), None)\n\n        if c is None:")]),
 ('c34b setitem last', ['C34'], [('terms.py', "            child = self.find_first(item)\n            if child:\n                self.remove_child(child)", "            child = (list(self.find(item)) or [None])[-1]\n            if child:\n                self.remove_child(child)")]),
 ('c34b setitem all values', ['C34'], [('terms.py', "            if value is not False:\n                c.value = value", "            if value is not False:\n                for e in self.find(rt):\n                    e.value = value")]),
 ('c34b setitem move', ['C34'], [('terms.py', "            if value is not False:\n                c.value = value", "            if value is not False:\n                c.value = value\n                self.children.remove(c)\n                self.children.append(c)")]),
 ('c34b sort named value', ['C34'], [('terms.py', "            self.terms = sorted(self.terms, key=lambda e: e.join_lc)\n", "            self.terms = sorted(self.terms, key=lambda e: (e.join_lc, e.value))\n")]),
 ('c34b sort named reverse', ['C34'], [('terms.py', "                for t in list(all_terms):\n\n", "                for t in reversed(all_terms[:]):\n\n")]),
 ('c34b sort order loop', ['C34'], [('terms.py', "            for tn in order:\n                for t in list(all_terms):\n\n                    if t.term_is(tn):\n                        all_terms.remove(t)\n                        sorted_terms.append(t)\n", "            for t in list(all_terms):\n                if any(t.term_is(tn) for tn in order):\n                    all_terms.remove(t)\n                    sorted_terms.append(t)\n")]),
 ('c34b add_arg moves', ['C34'], [('terms.py', "        if arg.lower() not in [e.lower() for e in self.args]:\n", "        if prepend:\n            self.args = [e for e in self.args if e.lower() != arg.lower()]\n\n        if arg.lower() not in [e.lower() for e in self.args]:\n")]),
 ('c34b add_arg title', ['C34'], [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        if", "        self.args = [arg_.strip().title() for arg_ in self.args if arg_.strip()]\n\n        if")]),
 ('c34b add_arg blank', ['C34'], [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        if", "        self.args = [arg_.strip() for arg_ in self.args if len(arg_.strip()) > 1]\n\n        if")]),
 ('c34b add_arg set', ['C34'], [('terms.py', "        self.args = [arg_.strip() for arg_ in self.args if arg_.strip()]\n\n        if", "        self.args = sorted(arg_.strip() for arg_ in self.args if arg_.strip())\n\n        if")]),
 ('c34b sections swap', ['C34'], [('doc.py', "        order_lc = [e.lower() for e in order]\n\n        sections", "        order_lc = [k for k in self.sections if k in [e.lower() for e in order]]\n\n        sections")]),
 ('c34b gons replace', ['C34'], [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return", "        if not self.sections.get(name.lower(), ()) or not self.sections[name.lower()].args:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return")]),
 ('c34b gons startswith', ['C34'], [('doc.py', "        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return", "        for k in self.sections:\n            if k.startswith(name.lower()):\n                return self.sections[k]\n\n        if name.lower() not in self.sections:\n            self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)\n\n        return")]),
 ('c34b new_term reuse', ['C34'], [('terms.py', "        t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n\n        self.doc.add_term(t)", "        t = self.get_term(term, value=value) or tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n\n        self.doc.add_term(t)")]),
 ('c34b new_term str', ['C34'], [('terms.py', "        t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n", "        t = tc(term, value or None, doc=self.doc, parent=None, section=self).new_children(**kwargs)\n")]),
 ('c34b new_children skip', ['C34'], [('terms.py', "        for k, v in kwargs.items():\n            self.new_child(k, v)\n\n        return self", "        for k, v in sorted(kwargs.items(), reverse=True):\n            self.new_child(k, v)\n\n        return self")]),
 ('c34b set_terms order', ['C34'], [('terms.py', "        for k,v in kw_terms.items():\n", "        for k,v in sorted(kw_terms.items()):\n")]),
 ('c34b doc del prefix', ['C34'], [('doc.py', "            del self.sections[item.lower()]\n", "            for k in [k for k in self.sections if k.startswith(item.lower())]:\n                del self.sections[k]\n")]),
 ('c34b doc del keeps', ['C34'], [('doc.py', "                for t in list(self.sections[item.lower()]):\n                    self.remove_term(t)\n", "                for t in list(self.sections[item.lower()]):\n                    if t.value:\n                        self.sections[item.lower()].remove_term(t, remove_from_doc=False)\n")]),
 ('c34b clean nodoc', ['C34'], [('terms.py', "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        self.terms = []")]),
]

MUTANTS += [
 ('adv5 setdefault', ['C15'], [('parser.py', "                        last_term_map[t.record_term] = t\n\n", "                        last_term_map.setdefault(t.record_term, t)\n\n")]),
 ('adv5 blank cols', ['C15'], [('parser.py', "return [p.lower() if p else i for i, p in enumerate(t.args)]", "return [p.lower() for p in t.args if p]")]),
 ('adv5 subtype alias', ['C20'], [('parser.py', "subtype_d = dict(self._declared_terms[st_name.lower()].items())", "subtype_d = self._declared_terms[st_name.lower()]")]),
 ('adv5 include last', ['C12'], [('parser.py', "including = including + (str(row_gen.ref),)", "including = including[-1:] + (str(row_gen.ref),)")]),
 ('adv5 decl order', ['C25'], [('parser.py', "            try:\n                # Look for a local document\n                path = declaration_path(name)\n                break\n            except IncludeError:\n                pass\n\n            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n", "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n\n            try:\n                # Look for a local document\n                path = declaration_path(name)\n                break\n            except IncludeError:\n                pass\n")]),
 ('adv5 section value', ['C15'], [('parser.py', "                    last_section = t\n                    default_term_value_name = '@value'\n", "                    last_section = t\n                    if not t.args:\n                        default_term_value_name = '@value'\n")]),
 ('adv5 pmap if args', ['C15'], [('parser.py', "                elif t.term_is('root.section') or t.term_is('root.root'):\n                    self._param_map = munge_param_map(t)\n", "                elif t.term_is('root.section') or t.term_is('root.root'):\n                    if t.args:\n                        self._param_map = munge_param_map(t)\n")]),
 ('adv5 derived update', ['C20'], [('doc.py', "        self.super_terms.update(terms.super_terms())\n", "        for k, v in terms.super_terms().items():\n            self.super_terms.setdefault(k, v)\n")]),
 ('adv5 decl sections keep', ['C20'], [('doc.py', "        self.decl_sections.update(dd['sections'])\n", "        for k, v in dd['sections'].items():\n            if v['terms'] or k not in self.decl_sections:\n                self.decl_sections[k] = v\n")]),
 ('adv5 find kwargs any', ['C31'], [('doc.py', "                if all(t.get_value(k) == v for k, v in kwargs.items()):", "                if any(t.get_value(k) == v for k, v in kwargs.items()):")]),
 ('adv5 find kwargs section', ['C31'], [('doc.py', "            terms = self.find(term, value, section)\n", "            terms = self.find(term, value)\n")]),
 ('adv5 find noder section', ['C31'], [('doc.py', "                    if dt not in terms:\n                        terms.append(dt)", "                    terms.append(dt)")]),
 ('adv5 get falsy', ['C31'], [('doc.py', "        if term is None:\n            return default\n        else:\n            return term.value\n\n    def resolve_url", "        if term is None or not term.value:\n            return default\n        else:\n            return term.value\n\n    def resolve_url")]),
 ('adv5 version copy', ['C01'], [('doc.py', "        for c in version.children:\n            copy.new_child(c.record_term, c.value)\n", "        for c in version.children:\n            copy.add_child(c)\n")]),
 ('adv5 version build', ['C32'], [('doc.py', "            values = values + (build.value,)", "            values = values[:2] + (build.value,)\n            templ = '{}.{}.{}'")]),
 ('adv5 ident any section', ['C06'], [('doc.py', "        if not identifier.value:\n            identifier.value = str(uuid4())", "        if not identifier.value or len(identifier.value) != 36:\n            identifier.value = str(uuid4())")]),
 ('adv5 new section args', ['C02'], [('doc.py', "s.args = list(self.decl_sections[name.lower()]['args'])", "s.args = self.section_args(name)")]),
 ('adv5 mtime errors', ['C11'], [('doc.py', "            except SourceError as e:\n                raise MetatabError(", "            except SourceError as e:\n                if self.terms:\n                    return\n                raise MetatabError(")]),
 ('adv5 remove nosec', ['C13'], [('doc.py', "        if t.section and t.parent_term_lc == 'root':\n            t.section = self.add_section(t.section)\n            t.section.remove_term(t, remove_from_doc=False)", "        if t.section and t.parent_term_lc == 'root' and t.section.name.lower() in self.sections and not t.children:\n            t.section.remove_term(t, remove_from_doc=False)")]),
 ('adv5 declare skip', ['C20'], [('doc.py', "for dcl in decls if dcl not in extant_decls]", "for dcl in decls if dcl not in extant_decls and dcl not in self.decl_sections]")]),
 ('adv5 child col', ['C25'], [('parser.py', "col=col + 2,  # The 0th", "col=col + 1,  # The 0th")]),
 ('adv5 row count', ['C25'], [('parser.py', "for line_n, row in enumerate(row_gen, 1):\n\n                if", "line_n = 0\n            for row in row_gen:\n                if not row:\n                    continue\n                line_n += 1\n\n                if")]),
 ('adv5 value blank', ['C14'], [('parser.py', "                        if str(value).strip():\n", "                        if value and str(value).strip():\n")]),
 ('adv5 schema order', ['C04'], [('doc.py', "for arg in sorted(used_args - set(section_args)):", "for arg in used_args - set(section_args):")]),
]

MUTANTS += [
 ('c15 cols strip dup', ['C15'], [('parser.py', "return [p.lower() if p else i for i, p in enumerate(t.args)]", "return [p.lower() if p else i for i, p in enumerate(dict.fromkeys(t.args))][1:] or [p.lower() if p else i for i, p in enumerate(t.args)]")]),
 ('c15 cols 1based', ['C15'], [('parser.py', "return [p.lower() if p else i for i, p in enumerate(t.args)]", "return [p.lower() if p else i for i, p in enumerate(t.args, 1)]")]),
 ('c15 cols prev', ['C15'], [('parser.py', "return [p.lower() if p else i for i, p in enumerate(t.args)]", "return [p.lower() if p else t.args[i - 1].lower() for i, p in enumerate(t.args)]")]),
]
REFACTORINGS += [
 ('c15 cols loop', [('parser.py', "                    return [p.lower() if p else i for i, p in enumerate(t.args)]\n", "                    names = []\n                    for p in t.args:\n                        if p:\n                            names.append(p.lower())\n                        else:\n                            names.append(len(names))\n                    return names\n")]),
 ('c15 cols range', [('parser.py', "                    return [p.lower() if p else i for i, p in enumerate(t.args)]\n", "                    return [t.args[i].lower() if t.args[i] else i for i in range(len(t.args))]\n")]),
 ('c15 cols dict', [('parser.py', "                    t.record_term = str(self._param_map[int(t.record_term)])\n                except ValueError:\n                    pass  # the record term wasn't an integer\n\n                except IndexError:\n                    pass  # Probably no parameter map.\n", "                    pos = int(t.record_term)\n                    if pos < len(self._param_map):\n                        t.record_term = str(self._param_map[pos])\n                except ValueError:\n                    pass  # the record term wasn't an integer\n")]),
 ('c15 cols isdigit', [('parser.py', "                try:\n                    t.record_term = str(self._param_map[int(t.record_term)])\n                except ValueError:\n                    pass  # the record term wasn't an integer\n\n                except IndexError:\n                    pass  # Probably no parameter map.\n", "                names = dict(enumerate(self._param_map))\n                try:\n                    col = int(t.record_term)\n                except ValueError:\n                    col = None  # the record term wasn't an integer\n\n                if col in names:\n                    t.record_term = str(names[col])\n")]),
]

MUTANTS += [
 ('c25 decl exists late', ['C25'], [('parser.py', "            if exists(name):\n                path =name\n                break\n\n            try:", "            try:")]),
]
REFACTORINGS += [
 ('c25 decl local first', [('parser.py', "            try:\n                # Look for a local document\n                path = declaration_path(name)", "            local = [fn for fn in (join(d, name), join(d, name + '.csv')) if exists(fn)]\n\n            try:\n                # Look for a local document\n                path = declaration_path(name)"), ('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n", "            if local:\n                path = realpath(local[0])\n                break\n")]),
 ('c25 decl next', [('parser.py', "            for fn in (join(d, name), join(d, name + '.csv')):\n                if exists(fn):\n                    path = realpath(fn)\n                    break\n            if path:\n                break\n", "            fn = next((fn for fn in (join(d, name), join(d, name + '.csv')) if exists(fn)), None)\n            if fn:\n                path = realpath(fn)\n                break\n")]),
]
