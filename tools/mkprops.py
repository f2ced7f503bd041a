import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None))
    P.append(d)
D='metatab/doc.py';T='metatab/terms.py';A='metatab/parser.py';R='metatab/rowgen.py';L='metatab/cli.py';U='metatab/util.py';K='metatab/datapackage.py';Q='metatab/appurl.py';V='metatab/resolver.py'

p('C01','Lookups and renderings never change the document',
 "No lookup, listing, conversion or rendering of a document, section or term (finding terms, reading items, attributes or properties, iterating, converting to a dict, CSV, lines, rows or a data package, computing the name of another version, listing parse errors) changes that document. Values, children, term and section order, section columns and declarations are the same afterwards as before, including when the call fails part way.",
 ['inputs','histories'],'every document, every read operation, any sequence of read operations, including ones that raise',
 'Tests compare a handful of outputs of a fresh document; they never compare the document before and after a read, and cannot over all documents and call sequences.',
 [D,T,A,K],[('query, rendering and conversion methods write only to objects they created themselves',D),('as_dict, rows, props, find',T)],
 [('terms / sections / children / args / decl tables','the document state that must be untouched',D)],['MetatabDoc.find*','MetatabDoc.as_dict/as_csv/as_lines/as_version','Term/SectionTerm accessors','convert_to_datapackage'])
p('C02','Documents do not share mutable state',
 "Creating, parsing or editing one document never changes another document of the same process (except a term or section object that the caller itself hands from one to the other), the defaults later documents start from, or the lists, dicts and rows the caller passed in. Editing the columns of one section never changes the declarations they were initialised from. The registration of term classes is the only process-wide setting.",
 ['histories','inputs'],'any interleaving of operations on any number of documents in a process',
 'Every test works on one document; leaks through class attributes, default arguments, caches or aliased lists need two documents and a particular order.',
 [D,T,A,R,U],[('all containers are created per instance in constructors','metatab/doc.py, metatab/terms.py, metatab/parser.py'),('term_classes is written only by register/unregister',A),('section column edits rebind rather than modify in place',T)])
p('C03','Section, term and property names are case-insensitive',
 "Two spellings of a section, term, property or column name that differ only in letter case are interchangeable in every operation that takes a name: lookup, membership, creation, get-or-create, deletion, sorting, column editing, declaration, synonym and class registration.",
 ['inputs'],'every name and every spelling of it, for every operation',
 'Tests use one spelling per name, usually the one the code stored; the property is about all pairs of spellings and all access sites.',
 [D,T,A],[('every access to a name-keyed table and every name comparison lower-cases both sides','metatab/doc.py, metatab/terms.py, metatab/parser.py')],
 [('sections, decl_terms, decl_sections, term_classes, super_terms, derived_terms','name-keyed tables, keys lower case',D)])
p('C04','Results are deterministic',
 "For the same input, the terms, their order, lookup results, rendered CSV, lines and dicts, section columns and reported errors are the same in every run: they do not depend on hash randomisation, clock, random numbers, process identity or directory listing order. The only random value is the identifier given to a document that has none.",
 ['configurations','inputs'],'every input and every value of PYTHONHASHSEED, time of day and machine',
 'Tests run once with PYTHONHASHSEED=0, which hides every dependence on set order.',
 [D,T,A,R,K],[('ordered containers; sets are only used for membership or sorted before use','metatab/doc.py, metatab/parser.py'),('uuid4 only when the identifier is missing','MetatabDoc.ensure_identifier')])
p('C05','A failed write leaves the target file as it was',
 "When writing a document fails because the path or extension is not acceptable, because the document cannot be rendered, or because its text cannot be encoded, a file that already existed at the target still has its previous content and no new file appears. This holds for the library's write operations and for the command line's write-in-place.",
 ['inputs','fault_sequences'],'every document, target path and failure before the final write call',
 'No stable test writes a file, let alone makes rendering or encoding fail over an existing file.',
 [D,L],[('validation, rendering and encoding finish before the file is opened for writing','MetatabDoc.write_csv/write_lines/write, cli.metatab')])
p('C06','Written documents carry their identity, and identifiers are stable',
 "Whatever a write operation puts in the file was rendered after the document was cleaned up, so the file always contains a non-empty identifier and the up-to-date name that the document in memory has after the call. A non-empty identifier that is already present is never replaced by any operation other than assigning to it explicitly.",
 ['inputs','histories'],'every document, every write operation, every history of earlier writes and updates',
 'The suite never reads back a written file, and would need a document for each state of identifier and name.',
 [D],[('clean-up precedes rendering in each write operation','MetatabDoc.write_csv/write_lines/write'),('the identifier is generated only under a test that it is missing','MetatabDoc.ensure_identifier')])
p('C07','Document text is UTF-8 regardless of locale',
 "Every file of document text that the library or command line opens itself is read and written as UTF-8; the platform's default encoding never influences what is read or written.",
 ['configurations'],'every locale / default encoding, every file access site',
 'Tests run in one locale (UTF-8) where the default encoding happens to be right.',
 [D,R,L],[('explicit encoding on each text-mode open, bytes encoded explicitly otherwise','metatab/doc.py, metatab/rowgen.py, metatab/cli.py')])
p('C08','Only explicit write requests touch the filesystem',
 "Parsing, looking up, editing, rendering or converting a document never creates, changes, renames or deletes a file or directory. On the command line, a file is written only when creation or write-in-place was requested, and creation never overwrites a file that already exists.",
 ['inputs','histories'],'every operation other than the write operations, every document and option combination',
 'Absence of a side effect on every path cannot be sampled; the CLI has no test at all.',
 [D,T,A,R,L,Q,K],[('file-modifying calls are reachable only from the write operations','MetatabDoc._write, cli.metatab, cli.new_metatab_file'),('existence test before creation','cli.new_metatab_file')])
p('C09','Documents cannot make the library run code',
 "No content of a document, declaration, include or YAML file is ever evaluated, executed, unpickled, imported by name, or handed to a shell or a YAML loader that builds arbitrary objects. Classes are imported by name only from the term-class registration made by the program itself.",
 ['inputs'],'every document content, including hostile ones',
 'A test can only try the payloads it thinks of; the property is about the absence of any path from document data to an execution primitive.',
 [A,D,R,U,L],[('safe YAML loading and dumping','metatab/rowgen.py, metatab/cli.py'),('import by name is applied only to registered classes','TermParser.get_term_class, MetatabDoc.get_term_class')])
p('C10','The library does not print to stdout or end the process',
 "Using the library (parsing, row generation, lookup, editing, rendering, URL handling, conversion) writes nothing to standard output and never terminates the process; only the command line program does. Standard output therefore carries only the rows or document that the program using the library, or the metatab command, prints.",
 ['inputs'],'every library operation on every input and path',
 'Tests capture and ignore stdout.',
 [D,T,A,R,Q,V,K],[('printing and exiting is confined to the command line module','metatab/cli.py and the cli helpers in metatab/util.py')])
p('C11','Load failures always surface',
 "A document is never returned as loaded when part of it could not be: an include or declaration that cannot be resolved, downloaded or read, a term whose parent does not exist, or a term declared in an undeclared section raises an error out of the load. No handler in the library swallows such an error, nor an interrupt or exit request, and an include error is listed among the parser's errors before it propagates.",
 ['inputs','fault_sequences'],'every document and every failing include, declaration, download or read',
 'The tests of error handling are skipped; the number of failure points and paths through handlers is beyond samples.',
 [A,D,R,V],[('handlers in the parser convert and re-raise','TermParser.generate_terms, TermParser.__iter__'),('resolver raises rather than returning nothing','WebResolver.find_decl_doc')])
p('C12','Include and declaration cycles end in an error',
 "A document that includes or declares itself, directly or through any chain of other documents, and however the paths are spelled, is rejected with an include error; parsing never recurses without bound.",
 ['inputs'],'every finite set of documents that include or declare each other',
 'No test has a cycle; cycles of every length must be covered.',
 [A],[('documents being read are remembered along the chain of nested reads, and one that is already there is refused','TermParser.generate_terms')])
p('C13','The term tree stays consistent under edits',
 "After any sequence of additions, creations, moves and removals of terms, children and sections, every child that a term lists has that term as its parent, a child created under a term belongs to that term's document and section, and a top-level term is listed at most once by the document and by exactly the section it reports, or by neither. Removing a term, child or section removes it from both sides.",
 ['histories'],'every sequence of editing operations',
 'Tests parse and query; the editing operations are barely exercised and never in sequence.',
 [D,T],[('add_child/new_child/get_or_new_child set the parent when they list the child',T),('section and document term lists are updated together','SectionTerm.add_term/remove_term, MetatabDoc.add_term/remove_term/__delitem__')])
p('C14','Every row and cell of the input is parsed',
 "Every row whose first cell is neither blank nor a comment yields a term with the value of its second cell and its own row number, and every non-blank cell after the second of an ordinary row yields a property child of that term at its column. In the lines format every line is passed on as one row with its text unchanged but for the separators, comment lines as rows that the parser skips. Nothing else is skipped.",
 ['inputs'],'every sequence of rows, any length and any cell content',
 'Tests count terms of a few fixed files.',
 [A,R],[('row filter and property loop','TermParser.generate_terms'),('line filter','TextRowGenerator.__iter__')])
p('C15','Section and header settings do not leak across sections',
 "Starting a section replaces the column names, the default value name and the current parent with those of that section, and a header row replaces the column names and value name until the next section or header. A property belongs to the term of its own row and has the name of its own column, or its number when that column has no name, and a term with an elided parent to the most recent row term of the same section that names its own parent (or to the root when there is none). An included document starts with the section and header in force at the include, and after it, at any depth, those are in force again.",
 ['inputs'],'every order of sections, headers, includes, terms and properties',
 'Interactions depend on the order of rows; tests fix a few orders.',
 [A],[('state update per kind of row','TermParser.__iter__'),('section re-asserted after nested reads','TermParser.generate_terms')])
p('C16','CSV and lines output contain every term and property',
 "Rendering a document as rows, CSV or lines emits every section, every top-level term, every nested child and every property, including repeated ones, each under its own name, and in the lines format with the column separator escaped so that reading the text back does not split a value. No term or property is dropped, merged with another, or renamed.",
 ['inputs'],'every document',
 'Tests compare outputs for a few files without repeated properties, separators in values or unusual parent names.',
 [T,D,R],[('each child is either folded into its parent\'s row or gets a row of its own','Term.rows, SectionTerm.rows'),('each row of each section is rendered','MetatabDoc.rows, SectionTerm.lines'),('separator escape and unescape','SectionTerm.lines, TextRowGenerator.__iter__')])
p('C17','The output format always matches the extension or option',
 "A document is written in CSV form only to a .csv path and in lines form only to a .txt path; any other extension is refused with an error before anything is written. Every output format the command line offers is produced by its own renderer, and write-in-place uses the extension of that format.",
 ['inputs','configurations'],'every path given to a write operation and every output option',
 'No test writes documents or runs the command line.',
 [D,L],[('suffix tests guard each writer','MetatabDoc.write_csv/write_lines/write'),('option to renderer dispatch','cli.metatab')])
p('C18','Absent terms and sections are tolerated',
 "An operation that looks up an optional term or section (version, name, identifier, schema, properties, the term named on the command line, the term of an error) works or raises the library's own error when it is absent; it never fails by using the missing result as if it had been found.",
 ['inputs'],'every document, whichever optional terms it lacks',
 'Test documents contain the terms; each combination of absences is a separate path.',
 [D,T,A,L],[('results of lookups are tested before use','metatab/doc.py, metatab/terms.py, metatab/cli.py, metatab/parser.py')])
p('C19','Unqualified top-level names equal root-qualified ones',
 "A top-level term name without a parent part means the same as the name qualified with root, in every lookup, including the expansion of a term into its derived terms and the choice of the registered class for a term that is created. A child that is created on a term has the name of that term as its parent part, and gets the class registered for that qualified name.",
 ['inputs'],'every term name in both spellings, every table of declared or registered names',
 'Tests use the spelling that works.',
 [D,T,A],[('names are qualified before any table of declared or registered terms is consulted','MetatabDoc.find, get_term_class, Term.new_child')])
p('C20','Declarations take effect immediately and completely',
 "Once a declaration has been read, whether through a declaration document, a document that it includes, or the declarations given to the constructor, everything that depends on declarations (value names, property types, section columns, synonyms, super terms, derived terms, term classes) reflects it for the rows that follow and for the loaded document. No result computed before the declaration is served afterwards.",
 ['inputs','histories'],'every order of declarations, rows and loads',
 'Staleness needs a lookup before and after a declaration; tests declare first.',
 [A,D],[('memoised super terms are dropped when a declaration is added','TermParser.manage_declare_terms'),('loading publishes all declaration tables to the document','MetatabDoc.load_terms, MetatabDoc.load_declarations')])
p('C21','Assertions carry no behaviour',
 "Running the interpreter with assertions disabled changes no result: no assertion modifies state, performs I/O or consumes an iterator that is used later.",
 ['configurations'],'every input, with and without -O',
 'The tests run only with assertions enabled.',
 [T,D,A],[('assert conditions are pure','all modules')])
p('C22','Everything the package refers to exists',
 "Every plugin and command advertised by the package resolves to an existing object, and no operation refers to a module, name, attribute, method or parameter that does not exist on the supported interpreter.",
 ['programs','inputs'],'every reference on every path of every module, executed or not by tests',
 'Python resolves references only when executed; most paths are not executed by the stable tests.',
 ['setup.py',D,T,A,R,L,U],[('entry points','setup.py'),('definitions and imports','all modules')])
p('C23','Names chosen by a document cannot clobber term internals',
 "Whatever names a document declares for columns, properties or term values, assigning one of a term's structural attributes (section, document, parent, children, name parts, location) sets that attribute and nothing else: it never changes the term's value and never creates a property.",
 ['inputs'],'every declared value name and column name, including ones equal to an internal attribute',
 'Collisions need specially named columns or value names.',
 [T],[('attribute assignment routing','Term.__setattr__')])
p('C24','Every accepted metatab URL has a defined target',
 "For every URL the metatab URL type accepts, including URLs without a recognised file extension, the resource format, target file, target format and fragment are defined and consistent with each other.",
 ['inputs'],'every path and extension',
 'Tests parse a single URL.',
 [Q],[('format tables','MetatabUrl')])
p('C25','Terms and names are tied to the document they come from',
 "A relative name in an include row is resolved against the directory of the file that contains the row, at any depth of nesting, and a declaration is looked for there too, after existing paths and the standard declarations. Every term of a loaded document reports the file, row and column of its own cell, rows counted from 1 with blank and comment rows included (in the lines format, the line number). An include or declaration that fails raises an include error that has the term that failed and names its document, and the reported errors have the file, row and column of that term.",
 ['inputs'],'every tree of documents in any directories, every row and cell',
 'Tests include only files of one directory and look at no locations.',
 [A],[('the path of the document being read is used for its names and its terms','TermParser.generate_terms'),('error conversion','TermParser.generate_terms, TermParser.errors_as_dict')])
p('C30','Round trip through CSV and lines preserves the document',
 "Parsing the CSV or lines rendering of a document gives a document with equal sections, terms, values and properties, and rendering that again gives the same text.",
 ['inputs'],'every document','Equality over unbounded documents.',
 [D,T,A,R],[('writers and readers are inverse','Term.rows, TermParser, TextRowGenerator')])
p('C31','Lookups return exactly the matching terms',
 "A search of a document, section or term gives every term there whose name, value, section and properties match what was asked, and no other, each as often as it is there and in document order; several names, or a name with derived terms, are searched name by name, * stands for any parent or record part, and a value of False means any value. Falsy values, empty strings and zero are compared like any other value, and a missing section or property never matches one that was asked for. The lookups of one term or one value give the first term of that search, or its value, and None or the default exactly when the search finds nothing.",
 ['inputs'],'every document and every query','Tests search for a few names that exist, with values that are not falsy.',
 [D,T],[('the conditions under which a term is found','MetatabDoc.find, Term.find, Term.term_is'),('the lookups of the first term use that search','MetatabDoc.find_first, MetatabDoc.get, MetatabDoc.get_value, SectionTerm.find, Term.find_first, Term.get'),('all terms are searched','MetatabDoc.all_terms, Term.descendents')])
p('C32','Version arithmetic and generated names are correct',
 "The name that is generated for a document with a dataset name (by updating the name, or as the name of another version) joins with dashes the slugs of its origin, dataset, time, space, grain, variant and version, in this order, without those that are blank and with the dashes of each as underscores; a document without a dataset name keeps its name, or gets its identifier if it has none. The version is kept if no change is asked for, left out for None, changed by the amount after a plus or minus sign (one if there is none), and otherwise set to what is given; for a semantic version (major, minor, patch) that is the patch number, the version is rebuilt from its numbers and the build, and there is an error if there is no version to change. A slug is the text in lower case ASCII with only letters, digits, dots, underscores and dashes, where spaces and dashes in a row become one dash.",
 ['inputs'],'every version value and change, every set of name parts','Tests update the names of a few documents, with one version change each.',
 [D,U],[('names and version changes','MetatabDoc._generate_identity_name, MetatabDoc.update_name, MetatabDoc.as_version'),('semantic versions','MetatabDoc.update_version'),('slugs','slugify')])
p('C33','Dict conversion follows the declared property types',
 "The dict of a term, section or document has one entry per name of its children (for a section its terms, for a document the terms of all sections): the last value if the declared property type is scalar, the list of all values in document order for a sequence, the text of all values joined by a space (sconcat) or nothing (bconcat) with a missing value as empty text, and otherwise the value itself if there is one and the list of all if there are several; this holds at every depth with the same options. The value of the term, if it has one, is under its value name, or under @value when value names are not replaced; a term without children is its value; the root section gives no entry of its own when value names are replaced. The properties of a term have, by lower-case name, the value of the last child of that name, and for the properties of its row the value of each column of its section and its own value.",
 ['inputs'],'every document and declaration, every number and order of children, empty values included','Tests convert a few documents whose names rarely repeat.',
 [T,D],[('dict conversion','Term._convert_to_dict, Term.as_dict, SectionTerm.as_dict, RootSectionTerm.as_dict, MetatabDoc.as_dict'),('properties','Term.props, Term.arg_props, Term.all_props')])
p('C34','An edit changes exactly what it names',
 "Setting a property of a term sets the value of the first child of that name, whatever its case, or adds one child with it (without the space around it) at the end, and None removes that child or does nothing; setting its value name sets the value of the term, and the names, values and order of all other children stay as they are, empty texts and zero included. Asking a section for a term, or a document for a section, gives the one that is there (a term of that name and value, in that section) or adds one at the end with the given value and properties, new terms are added with exactly the value and properties given, and deleting a name, or cleaning or deleting a section, removes all the terms it names from the section and the document and no others. A column that is added to a section is listed once at the end that was asked for, one that is removed is not listed any more, both whatever the case, and the other columns that are not blank keep their order; sorting lists every term or section exactly once, those named first in the given order, then the remaining terms by name and the remaining sections as they were.",
 ['inputs','histories'],'every tree, list and name, in every case, present, absent or repeated','Tests create and set a few properties and never delete, sort or edit columns.',
 [T,D],[('properties','Term.__setitem__, Term.get_or_new_child, Term.new_child, Term.remove_child'),('terms of a section','SectionTerm.get_or_new_term, SectionTerm.__setitem__, SectionTerm.new_term, SectionTerm.set_terms, SectionTerm.remove_term, SectionTerm.__delitem__, SectionTerm.clean'),('sections','MetatabDoc.get_or_new_section, MetatabDoc.__delitem__, MetatabDoc.sort_sections'),('columns and order','SectionTerm.add_arg, SectionTerm.remove_arg, SectionTerm.sort_by_term')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,S)
    assert d['statement'].count('. ')<=2,(d['id'],d['statement'].count('. '))
print(len(P))
