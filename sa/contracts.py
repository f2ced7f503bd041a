"""What the properties refer to: the functions of the package and the types their results have."""

# The functions of the package that the properties are about, as module:qualified name. A function that is not in the
# list is a helper: it is interpreted in place wherever it is called.
BASE_FUNCS = set("""
metatab.appurl:MetatabUrl.__init__
metatab.appurl:MetatabUrl._match
metatab.appurl:MetatabUrl.doc
metatab.appurl:MetatabUrl.exists
metatab.appurl:MetatabUrl.generator
metatab.appurl:MetatabUrl.get_resource
metatab.appurl:MetatabUrl.get_target
metatab.appurl:MetatabUrl.join_target
metatab.appurl:MetatabUrl.resource_file
metatab.appurl:MetatabUrl.resource_format
metatab.appurl:MetatabUrl.target_file
metatab.appurl:MetatabUrl.target_format
metatab.cli:cli_init
metatab.cli:err
metatab.cli:get_table
metatab.cli:make_metatab_file
metatab.cli:metatab
metatab.cli:new_metatab_file
metatab.cli:prt
metatab.cli:warn
metatab.datapackage:convert_to_datapackage
metatab.doc:MetatabDoc.__contains__
metatab.doc:MetatabDoc.__delitem__
metatab.doc:MetatabDoc.__getitem__
metatab.doc:MetatabDoc.__init__
metatab.doc:MetatabDoc.__iter__
metatab.doc:MetatabDoc._generate_identity_name
metatab.doc:MetatabDoc._has_semver
metatab.doc:MetatabDoc._load_declare_dict
metatab.doc:MetatabDoc._version_copy
metatab.doc:MetatabDoc._write
metatab.doc:MetatabDoc._write_path
metatab.doc:MetatabDoc.add_section
metatab.doc:MetatabDoc.add_term
metatab.doc:MetatabDoc.all_terms
metatab.doc:MetatabDoc.as_csv
metatab.doc:MetatabDoc.as_dict
metatab.doc:MetatabDoc.as_lines
metatab.doc:MetatabDoc.as_version
metatab.doc:MetatabDoc.cache
metatab.doc:MetatabDoc.clean_unused_schema_terms
metatab.doc:MetatabDoc.cleanse
metatab.doc:MetatabDoc.doc_dir
metatab.doc:MetatabDoc.ensure_identifier
metatab.doc:MetatabDoc.find
metatab.doc:MetatabDoc.find_first
metatab.doc:MetatabDoc.find_first_value
metatab.doc:MetatabDoc.get
metatab.doc:MetatabDoc.get_or_new_section
metatab.doc:MetatabDoc.get_section
metatab.doc:MetatabDoc.get_term_class
metatab.doc:MetatabDoc.get_value
metatab.doc:MetatabDoc.lines
metatab.doc:MetatabDoc.load_declarations
metatab.doc:MetatabDoc.load_rows
metatab.doc:MetatabDoc.load_terms
metatab.doc:MetatabDoc.mtime
metatab.doc:MetatabDoc.new_section
metatab.doc:MetatabDoc.path
metatab.doc:MetatabDoc.ref
metatab.doc:MetatabDoc.register_term_class
metatab.doc:MetatabDoc.remove_term
metatab.doc:MetatabDoc.resolve_url
metatab.doc:MetatabDoc.rows
metatab.doc:MetatabDoc.section_args
metatab.doc:MetatabDoc.sort_sections
metatab.doc:MetatabDoc.update_name
metatab.doc:MetatabDoc.update_version
metatab.doc:MetatabDoc.write
metatab.doc:MetatabDoc.write_csv
metatab.doc:MetatabDoc.write_lines
metatab.exc:IncludeError.__init__
metatab.exc:ParserError.__init__
metatab.parser:TermParser.__init__
metatab.parser:TermParser.__iter__
metatab.parser:TermParser.add_declared_section
metatab.parser:TermParser.add_declared_term
metatab.parser:TermParser.add_value_set_value
metatab.parser:TermParser.declare_dict
metatab.parser:TermParser.declared_sections
metatab.parser:TermParser.declared_terms
metatab.parser:TermParser.doc
metatab.parser:TermParser.errors_as_dict
metatab.parser:TermParser.find_declare_doc
metatab.parser:TermParser.find_include_doc
metatab.parser:TermParser.generate_terms
metatab.parser:TermParser.get_term_class
metatab.parser:TermParser.inherited_children
metatab.parser:TermParser.install_declare_terms
metatab.parser:TermParser.manage_declare_terms
metatab.parser:TermParser.path
metatab.parser:TermParser.register_term_class
metatab.parser:TermParser.substitute_synonym
metatab.parser:TermParser.super_terms
metatab.parser:TermParser.synonyms
metatab.parser:TermParser.unregister_term_class
metatab.resolver:WebResolver.fetch_row_source
metatab.resolver:WebResolver.find_decl_doc
metatab.resolver:WebResolver.get_row_generator
metatab.rowgen:MetatabRowGenerator.__init__
metatab.rowgen:MetatabRowGenerator.__iter__
metatab.rowgen:MetatabRowGenerator.close
metatab.rowgen:MetatabRowGenerator.open
metatab.rowgen:MetatabRowGenerator.path
metatab.rowgen:TextRowGenerator.__init__
metatab.rowgen:TextRowGenerator.__iter__
metatab.rowgen:TextRowGenerator.close
metatab.rowgen:TextRowGenerator.open
metatab.rowgen:TextRowGenerator.path
metatab.rowgen:YamlMetatabSource.__init__
metatab.rowgen:YamlMetatabSource.__iter__
metatab.rowgen:YamlMetatabSource.yield_dict
metatab.terms:RootSectionTerm.__init__
metatab.terms:RootSectionTerm.as_dict
metatab.terms:SectionTerm.__delitem__
metatab.terms:SectionTerm.__getitem__
metatab.terms:SectionTerm.__init__
metatab.terms:SectionTerm.__iter__
metatab.terms:SectionTerm.__setitem__
metatab.terms:SectionTerm._args
metatab.terms:SectionTerm.add_arg
metatab.terms:SectionTerm.add_term
metatab.terms:SectionTerm.as_dict
metatab.terms:SectionTerm.as_lines
metatab.terms:SectionTerm.clean
metatab.terms:SectionTerm.find
metatab.terms:SectionTerm.find_first
metatab.terms:SectionTerm.find_first_value
metatab.terms:SectionTerm.get_or_new_term
metatab.terms:SectionTerm.get_term
metatab.terms:SectionTerm.lines
metatab.terms:SectionTerm.move_term
metatab.terms:SectionTerm.name
metatab.terms:SectionTerm.new_term
metatab.terms:SectionTerm.property_names
metatab.terms:SectionTerm.remove_arg
metatab.terms:SectionTerm.remove_term
metatab.terms:SectionTerm.rows
metatab.terms:SectionTerm.set_terms
metatab.terms:SectionTerm.sort_by_term
metatab.terms:SectionTerm.subclass
metatab.terms:Term.__contains__
metatab.terms:Term.__getattr__
metatab.terms:Term.__getitem__
metatab.terms:Term.__init__
metatab.terms:Term.__iter__
metatab.terms:Term.__repr__
metatab.terms:Term.__setattr__
metatab.terms:Term.__setitem__
metatab.terms:Term.__str__
metatab.terms:Term._convert_to_dict
metatab.terms:Term.add_child
metatab.terms:Term.all_props
metatab.terms:Term.arg_props
metatab.terms:Term.as_dict
metatab.terms:Term.descendents
metatab.terms:Term.file_ref
metatab.terms:Term.find
metatab.terms:Term.find_first
metatab.terms:Term.find_first_value
metatab.terms:Term.find_value
metatab.terms:Term.get
metatab.terms:Term.get_or_new_child
metatab.terms:Term.get_value
metatab.terms:Term.has_elided_parent
metatab.terms:Term.is_arg_child
metatab.terms:Term.is_terminal
metatab.terms:Term.join
metatab.terms:Term.join_lc
metatab.terms:Term.new_child
metatab.terms:Term.new_children
metatab.terms:Term.normalize_term
metatab.terms:Term.parent_term_lc
metatab.terms:Term.property_names
metatab.terms:Term.props
metatab.terms:Term.qualified_term
metatab.terms:Term.record_term_lc
metatab.terms:Term.remove_child
metatab.terms:Term.rows
metatab.terms:Term.section
metatab.terms:Term.section.setter
metatab.terms:Term.set_ownership
metatab.terms:Term.split_term
metatab.terms:Term.split_term_lower
metatab.terms:Term.term
metatab.terms:Term.term.setter
metatab.terms:Term.term_is
metatab.util:Bunch.__init__
metatab.util:cli_init
metatab.util:copytree
metatab.util:declaration_path
metatab.util:ensure_dir
metatab.util:err
metatab.util:flatten
metatab.util:import_name_or_class
metatab.util:make_dir_structure
metatab.util:make_metatab_file
metatab.util:md5_file
metatab.util:prt
metatab.util:slugify
metatab.util:walk_up
metatab.util:warn
""".split())

# Result types of functions that are not followed by a rule
RET = {
    'SectionTerm.new_term': 'Term', 'SectionTerm.get_term': 'Term', 'SectionTerm.find_first': 'Term',
    'SectionTerm.get_or_new_term': 'Term', 'SectionTerm.find': ('list', 'Term'), 'SectionTerm.__getitem__': 'Term',
    'SectionTerm.find_first_value': 'str', 'SectionTerm.__iter__': ('list', 'Term'), 'SectionTerm.rows': 'list',
    'SectionTerm.lines': 'list', 'SectionTerm.as_lines': 'str', 'SectionTerm.property_names': ('list', 'str'),
    'SectionTerm.name': 'str', 'SectionTerm.as_dict': 'dict', 'RootSectionTerm.as_dict': 'dict',
    'Term.new_child': 'Term', 'Term.new_children': 'Term', 'Term.get_or_new_child': 'Term', 'Term.join': 'str',
    'Term.join_lc': 'str', 'Term.record_term_lc': 'str', 'Term.parent_term_lc': 'str', 'Term.qualified_term': 'str',
    'Term.term_is': 'bool', 'Term.props': 'dict', 'Term.arg_props': 'dict', 'Term.all_props': 'dict',
    'Term.property_names': ('list', 'str'), 'Term.rows': 'list', 'Term.descendents': ('list', 'Term'),
    'Term.normalize_term': 'str', 'Term.is_terminal': 'bool', 'Term.is_arg_child': 'bool',
    'Term.has_elided_parent': 'bool', 'Term.section': 'SectionTerm', 'Term.term': 'str', 'Term.file_ref': 'str',
    'Term.__contains__': 'bool', 'Term.find_value': 'str',
    'MetatabDoc.get_section': 'SectionTerm', 'MetatabDoc.add_section': 'SectionTerm',
    'MetatabDoc.new_section': 'SectionTerm', 'MetatabDoc.get_or_new_section': 'SectionTerm',
    'MetatabDoc.__getitem__': 'SectionTerm', 'MetatabDoc.section_args': ('list', 'str'),
    'MetatabDoc.__iter__': ('list', 'SectionTerm'), 'MetatabDoc.all_terms': ('list', 'Term'),
    'MetatabDoc.rows': 'list', 'MetatabDoc.lines': 'list', 'MetatabDoc.as_csv': 'str', 'MetatabDoc.as_lines': 'str',
    'MetatabDoc.as_dict': 'dict', 'MetatabDoc.load_terms': 'MetatabDoc', 'MetatabDoc.load_rows': 'MetatabDoc',
    'MetatabDoc.load_declarations': 'MetatabDoc', 'MetatabDoc.__contains__': 'bool',
    'TermParser.generate_terms': ('list', 'Term'), 'TermParser.__iter__': ('list', 'Term'),
    'TermParser.synonyms': ('dict', 'str'), 'TermParser.super_terms': ('dict', 'str'),
    'TermParser.declare_dict': 'dict', 'TermParser.declared_terms': ('dict', ('dict', 'str')),
    'TermParser.declared_sections': ('dict', 'dict'), 'TermParser.path': 'str', 'TermParser.doc': 'MetatabDoc',
    'TermParser.errors_as_dict': 'list', 'TermParser.inherited_children': ('list', 'dict'),
    'slugify': 'str', 'declaration_path': 'str', 'make_metatab_file': 'MetatabDoc',
    'convert_to_datapackage': 'dict',
}
