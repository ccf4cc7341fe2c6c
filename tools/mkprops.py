import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 **({"observe_at":observe} if observe else {}),"hook_needed":None}})
S="src/ucis/"
p("C01","Merging adds the hit counts of every source, bin by bin",
 "For every list of source databases, each bin of a coverpoint or cross in the merged database has a hit count equal to the sum of the counts of the bins with the same name and the same kind (regular, ignore, illegal) in the same-named coverpoint or cross of every source that has it, and exactly one merged bin exists per such name and kind. No hit of any source is lost, counted twice, or credited to another bin, coverpoint, cross, covergroup, covergroup instance or design instance. The merged bin's at-least threshold is that of the first source containing the bin.",
 ["inputs"],"any number of source databases, any scope tree, any bin names, kinds and counts (siblings of one type have distinct names, as UCIS requires)",
 "The tests merge a few tiny hand-written databases; loss, duplication or crediting to the wrong bin needs particular combinations of names, kinds and source counts.",
 [S+"merge/db_merger.py"],[("per-kind name->count accumulation",S+"merge/db_merger.py:DbMerger._merge_coverpoint_bins"),("cross bin accumulation",S+"merge/db_merger.py:DbMerger._merge_cross")],["merged database's bins"])
p("C02","Merging reproduces the union of the source scope trees",
 "The merged database contains exactly one design instance, covergroup, covergroup instance, coverpoint and cross for each name path that occurs in at least one source, in first-seen order, and nothing else. Each carries the name, weight and source location of the first source that has it, each design instance refers to a merged design unit with the name, weight and source location of its source design unit, and each merged cross links, in order, the merged coverpoints of its own covergroup whose names the source cross lists.",
 ["inputs"],"any list of source databases and any combination of scopes present in only some of them",
 "Tests compare two or three fixed trees; scopes present only in later sources, nested instances and multi-covergroup combinations are not sampled.",
 [S+"merge/db_merger.py"],[("group by name at each level, create from first",S+"merge/db_merger.py:DbMerger.merge/_merge_*")],["merged database's scope tree"])
p("C03","Merging and reporting never modify or share their input databases",
 "Merging databases, building a coverage report from one and exporting one to XML leave every source database exactly as it was: no scope, bin, count, weight or property of a source changes. The merged result keeps no mutable coverage state shared with a source: no source scope, bin or bin-data object becomes part of the merged tree.",
 ["inputs","histories"],"all source databases and all later operations on either the sources or the result",
 "Tests look at the result of one operation, never at the source afterwards nor at aliasing between the two.",
 [S+"merge/db_merger.py",S+"report/coverage_report_builder.py",S+"xml/xml_writer.py"],[("only query methods are called on sources; bins are re-created",S+"merge/db_merger.py"),("read-only traversal",S+"report/coverage_report_builder.py, "+S+"xml/xml_writer.py")])
p("C04","Reported coverage percentages follow the weighted UCIS formula",
 "A coverpoint's or cross's reported coverage is 100 times the number of its regular bins whose count reaches the bin's at-least threshold, divided by the number of its regular bins (0 when there are none); ignore and illegal bins count in neither number. A covergroup's (type or instance) coverage is the weight-weighted mean of the coverage of its own coverpoints and crosses (0 when the total weight is 0), and the report's overall coverage is the weight-weighted mean over all reported type covergroups (0 when there are none).",
 ["inputs"],"all databases: any number of bins, thresholds, counts, weights (including zero) and scopes",
 "Tests check a few percentages on fixed databases with unit weights.",
 [S+"report/coverage_report_builder.py",S+"report/coverage_report.py"],[("hit/total accumulation",S+"report/coverage_report_builder.py:build_coverpoint/build_cross"),("weighted mean",S+"report/coverage_report_builder.py:build_covergroup/build_covergroups")],["CoverageReport object"])
p("C05","The coverage report mirrors the database structure and bin data",
 "The report object built from a database lists, in database order and exactly once each, every type covergroup of every design instance, every instance covergroup under its type, and every coverpoint, cross and bin under its own parent, with the same names and weights (of a cross, only its regular bins are listed). Each reported bin shows the bin's own hit count and its at-least threshold as goal, is filed as regular, ignore or illegal according to its kind in the database, and is flagged hit exactly when its count reaches its goal.",
 ["inputs"],"all databases",
 "The tests look at a handful of entries in hand-built databases.",
 [S+"report/coverage_report_builder.py",S+"report/coverage_report.py"],[("traversal filling the report lists",S+"report/coverage_report_builder.py:build_*")],["CoverageReport object"])
p("C06","Text reports show every item once, under its parent, with its own numbers",
 "The text report writes exactly one line for every covergroup (type or instance), coverpoint and cross of the report, in report order and indented below its parent, showing that item's own name and its own coverage (possibly rounded). With details enabled, every regular, ignore and illegal bin of every coverpoint and every bin of every cross appears exactly once under the heading of its own category with its own name and count, whether or not bins are ordered by hit. Indentation returns to the parent's level after each item.",
 ["inputs","configurations"],"all reports and all combinations of the detail and ordering options",
 "No test compares complete text output; option combinations are unexercised.",
 [S+"report/format_rpt_text.py",S+"report/text_coverage_report_formatter.py"],[("recursive renderers",S+"report/format_rpt_text.py:FormatRptText; "+S+"report/text_coverage_report_formatter.py:TextCoverageReportFormatter")],["output stream"])
p("C07","JSON reports are complete and follow the published report schema",
 "The JSON report contains one object for every covergroup (nested by type and instance), coverpoint, cross and bin of the report, in order and under its own parent, carrying that item's own name and coverage or name and count, with ignore and illegal bins under their own keys. Every field the generator emits is declared, for that object, in the report schema shipped with the tool, and every field that schema requires is emitted.",
 ["inputs"],"all reports",
 "No test validates JSON output for covergroups with crosses, ignore or illegal bins.",
 [S+"report/format_rpt_json.py",S+"schema/covreport.json"],[("schema-derived object model filled by traversal",S+"report/format_rpt_json.py:FormatRptJson")],["output stream"])
p("C08","XML export writes every covergroup, coverpoint, cross and bin exactly once",
 "XML export of any database writes, in order and exactly once each, every design instance, every covergroup instance (or the type itself when it has no instances), and every coverpoint, cross, crossed-coverpoint name and bin under its own parent element, with the item's own name. Each bin element carries that bin's own hit count and the kind code of that bin, and each covergroup instance element names its covergroup type.",
 ["inputs"],"all databases",
 "Round-trip tests use one or two coverpoints with default bins.",
 [S+"xml/xml_writer.py"],[("recursive element writer",S+"xml/xml_writer.py:XmlWriter.write_*")],["XML document"])
p("C09","XML import restores instances exactly and type coverage as their sum",
 "Importing a UCIS XML document creates one design instance per distinct instance name, one covergroup per covergroup type it lists, one covergroup instance per instance element and one coverpoint, cross and bin per corresponding element, under the matching parent and with the document's own names, counts and bin kinds. The covergroup type gets each coverpoint, cross and bin name occurring in its instances exactly once, with a bin count equal to the sum over those instances. A cross is linked, in order, to the coverpoints of its own covergroup that the document names, and a cross naming an unknown coverpoint is rejected. Each design instance refers to the design unit named by its moduleName, one unit per distinct name; weights and at-least thresholds are 1 where the document gives none. Documents are accepted and read alike whether or not their elements are namespace-qualified, and comments in them change nothing.",
 ["inputs"],"all schema-valid XML documents",
 "Tests read two sample files and check few counts.",
 [S+"xml/xml_reader.py"],[("element traversal and per-type accumulation",S+"xml/xml_reader.py:XmlReader.read*")],["imported database"])
p("C10","Exported XML uses only what the UCIS schema allows, in schema order",
 "Every element and attribute the XML exporter can emit is declared by the shipped UCIS XML schema at the place where it is emitted, child elements are emitted in the order the schema's sequences prescribe, and every attribute and single child element the schema requires is emitted unconditionally (how many repeated children appear depends on the data, but at least one source-file and one history entry is written for every database). Elements and attributes are written without a namespace, as the schema declares them. Fixed attribute values are members of the schema's enumerations.",
 ["inputs","configurations"],"every path through the exporter",
 "Validation tests run the schema on the output of a few small databases.",
 [S+"xml/xml_writer.py",S+"xml/schema/ucis.xsd"],[("element construction",S+"xml/xml_writer.py:XmlWriter"),("schema",S+"schema/ucis.xsd")],["XML document"])
p("C11","The XML reader recovers each field from where the writer put it",
 "For every field the XML exporter writes from the database (history-node fields, instance, covergroup, coverpoint, cross and bin names, crossed-coverpoint names, bin kinds and bin counts), the importer reads the same attribute or element and restores it to the same field of the same kind of object with the inverse conversion; an unset field (None or negative) may be omitted, any other value is written, and a test status is restored as passed or not passed. One history element is written per history node (a placeholder only if there is none) and one node is restored per element. In particular each bin kind is written as a code that is read back as the same kind, for coverpoint and cross bins alike, and different kinds have different codes.",
 ["inputs"],"all databases that can be exported",
 "Round-trip tests compare a few fields of one history node and default bins.",
 [S+"xml/xml_writer.py",S+"xml/xml_reader.py"],[("attribute writers",S+"xml/xml_writer.py"),("attribute readers",S+"xml/xml_reader.py")],["database -> XML -> database"])
p("C12","YAML import restores instances exactly and type coverage as their sum",
 "Importing a schema-valid YAML coverage description creates exactly one covergroup per entry, one covergroup instance per instance entry and one coverpoint, cross and bin per corresponding entry under its own parent, with the entry's own name and count, its category (regular, ignore, illegal) and the entry's at-least threshold (1 when absent). A covergroup and its instances have the entry's weight (1 when absent), everything else weight 1. Whatever the schema allows a document to leave out is treated as empty. The covergroup type gets each coverpoint, cross and bin of its instances exactly once per name and category, with a count equal to the sum over the instances. A cross is linked, in order, to the coverpoints of its own parent that it names, and a cross naming an unknown coverpoint is rejected.",
 ["inputs"],"all schema-valid YAML documents, including ones without instances, bins or crosses",
 "The tests import a few small documents and mostly look at the percentages of the regular bins.",
 [S+"yaml/yaml_reader.py",S+"schema/coverage.json"],[("instance recording and type aggregation",S+"yaml/yaml_reader.py:YamlReader.process_covergroup/record_*")],["imported database"])
p("C13","Readers, writers, mergers and reports keep nothing between uses",
 "Each read, merge, export and report depends only on its own inputs, not on operations completed earlier: using one reader, writer, merger or report generator object several times, or several of them in one process, gives the same result as using fresh ones. Values that do not depend on any input may be kept. A database that was returned earlier is never modified by a later operation on another input.",
 ["histories"],"all sequences of operations on shared or separate reader, writer, merger and report objects",
 "Every test uses each object once.",
 [S+"xml/xml_reader.py",S+"xml/xml_writer.py",S+"yaml/yaml_reader.py",S+"merge/db_merger.py",S+"report/"],[("per-call initialisation of working state",S+"xml/xml_writer.py:XmlWriter.write and siblings")])
p("C14","What is set on an in-memory object is what is read back",
 "For every field of an in-memory database, scope, covergroup, coverpoint, cross, bin or history node that has both a setter and a getter, the getter returns the last value set and other fields keep their values; a value passed to the object's creation is what its getter returns until changed. Reading or writing the same field through the integer or string property interface is equivalent to using the getter or setter. Applying a test-data record to a history node sets each of its fields to the record's, and incrementing a bin adds exactly the amount given. This holds for every object reachable through the public creation operations.",
 ["inputs","histories"],"every value and every sequence of sets and gets on every kind of object",
 "Tests touch a few setters with one value each.",
 [S+"mem/",S+"cvg_scope.py",S+"covergroup.py",S+"coverpoint.py",S+"obj.py"],[("field-backed accessors",S+"mem/*.py"),("property dispatch",S+"*.py:getIntProperty/setIntProperty/getStringProperty/setStringProperty")])
p("C15","Iterating an in-memory database yields each matching child exactly once",
 "Iterating the child scopes, bins or history nodes of an in-memory database with a type mask yields, in creation order and exactly once each, precisely those children whose type intersects the mask (for history nodes: whose kind equals the requested one, or all of them). Iterators are independent of one another, end when the children are exhausted, and never modify the database.",
 ["inputs","histories"],"every child list, every mask and every interleaving of several iterators",
 "Tests iterate lists of one to three children with one or two masks.",
 [S+"mem/mem_scope_iterator.py",S+"mem/mem_cover_index_iterator.py",S+"mem/mem_history_node_iterator.py",S+"mem/mem_scope.py",S+"mem/mem_ucis.py"],[("cursor iterators",S+"mem/*_iterator.py")])
p("C16","Creating an object registers it once under its parent with the given data",
 "Every creation operation of the in-memory database (file handle, history node, design unit, instance, covergroup, covergroup instance, coverpoint, cross, bin) returns the new object, makes it visible exactly once, as the last child of precisely the parent it was requested on, and gives it the name, source location, weight, type, crossed coverpoints, count, at-least threshold and kind it was requested with. No two objects share a list of children. A file handle requested again for the same name is the same object.",
 ["inputs","histories"],"every creation operation, all argument values, every order of creations",
 "Tests exercise each creation call with one argument set and rarely read the arguments back.",
 [S+"mem/",S+"coverpoint.py",S+"covergroup.py"],[("create* methods",S+"mem/mem_scope.py, "+S+"mem/mem_covergroup.py, "+S+"mem/mem_ucis.py, "+S+"coverpoint.py")])
p("C17","Type codes are distinct single bits and the C-style names denote them",
 "Within each of the scope-type, cover-type, flag and cover-flag code sets, codes used as mask bits are distinct single bits (so a mask selects exactly the types named in it) and composite masks are the union of their named parts; codes that are not masks are pairwise distinct (flags that apply to different kinds of scope may share a bit). Scope, cover, history-node and cover-flag codes are those of the UCIS standard, the any-design-unit predicate holds for exactly the design-unit types, and every C-style constant name denotes the enumeration member of the same name.",
 ["configurations"],"every constant of the public API",
 "Tests use about a dozen of some two hundred constants.",
 [S+"__init__.py",S+"scope_type_t.py",S+"cover_type_t.py",S+"flags_t.py",S+"cover_flags_t.py"],[("enumerations and alias assignments",S+"__init__.py")])
p("C18","Each C-style API function performs exactly its object-API counterpart",
 "Every C-style API function invokes exactly one operation, the object-API operation of its name, on the object passed as handle (or on the database when no object is given), passes each of its arguments to the parameter of the same meaning, and returns that operation's result when it has one (writing and closing return status 0).",
 ["inputs","programs"],"every function of the C-style API and all arguments",
 "Tests call a few functions with default-looking arguments that cannot tell swapped parameters apart.",
 [S+"__init__.py"],[("thin delegating functions",S+"__init__.py:ucis_*")])
p("C19","Commands validate, then read everything, then write, and signal failure",
 "The merge, convert and report commands reject an unknown input or output format before any file is opened, read every input with the requested input format before anything is written, write only to the requested output and in the requested output format, and never write or truncate the output when reading or merging fails. Any failing command ends with a nonzero exit status, and a successful one with zero.",
 ["inputs","fault_sequences"],"all command lines, formats and failing inputs",
 "Tests run the commands on valid inputs only and never look at exit status or at the output after a failure.",
 [S+"cmd/",S+"__main__.py",S+"rgy/format_rgy.py"],[("command bodies",S+"cmd/cmd_merge.py, cmd_convert.py, cmd_report.py"),("error handling",S+"__main__.py:main")])
p("C20","Every file the library opens is closed on every path",
 "Every file opened by the library for reading or writing is closed when the operation ends, whether it succeeds or fails with an error, and is not used after being closed. Streams supplied by the caller, including standard output, are left open.",
 ["fault_sequences","inputs"],"every path including every exception path of every operation that opens a file",
 "Tests do not fail operations midway and CPython closes leaked files by reference counting.",
 [S+"xml/xml_factory.py",S+"xml/__init__.py",S+"xml/db_format_if_xml.py",S+"yaml/",S+"cmd/cmd_report.py",S+"report/",S+"xml/xml_ucis.py"],[("with statements and try/finally around opens","all open() sites under "+S)])
p("C21","Calls into the native UCIS library match the library's declared prototypes",
 "Every call the native-library backend makes names a function in the shipped prototype list and passes as many arguments as its prototype declares, with the database and object handles in the places the prototype gives them and strings as C strings; the prototypes have the number and kind of parameters of the C functions they bind. Each backend operation calls the native function of the operation's own name, on its own object, with its own arguments in the parameters of the same meaning; records carry every field of the data in the field of the same name, and the object returned stands for the handle the library returned. Operations that only read or iterate call nothing that creates or sets, and an iterator obtained from the library is freed when it is exhausted.",
 ["programs","inputs"],"every native call site",
 "No native library is available to the tests, so none of these calls is ever executed.",
 [S+"lib/"],[("ctypes call sites",S+"lib/*.py"),("prototype list",S+"lib/libucis.py")])
p("C22","Merge, report and export use only the public object API of a database",
 "Merging, reporting and XML export use databases only through operations and data fields declared by the public object API (the classes directly under ucis), called with argument lists that the declaration and every backend's version of the operation accept. What the API declares to be an iterator is only iterated (no length, index or truth value), nothing depends on which backend an object belongs to, and no object of one particular backend is handed to a database. So a database of any backend that implements the API can be used.",
 ["configurations","inputs"],"every access these components make to a database object, on every path",
 "All tests use the in-memory backend, where backend-specific attributes happen to exist.",
 [S+"merge/",S+"report/",S+"xml/xml_writer.py"],[("abstract API classes",S+"ucis.py, "+S+"scope.py, "+S+"cvg_scope.py, "+S+"covergroup.py, "+S+"coverpoint.py, "+S+"cross.py, "+S+"cover_index.py, "+S+"history_node.py")])
p("C23","Format names map to their own readers, writers and report generators",
 "Each registered database or report format name selects the reader, writer or report generator of that format, the default formats are registered ones, and asking for an unregistered format is reported as unknown rather than silently substituted. The list commands show every registered format of their category and only those.",
 ["configurations"],"every registered and unregistered format name",
 "Tests use two or three of the registered names.",
 [S+"rgy/",S+"xml/db_format_if_xml.py",S+"yaml/db_format_if_yaml.py",S+"lib/db_format_if_lib.py",S+"report/",S+"cmd/cmd_list_db_formats.py"],[("registry",S+"rgy/format_rgy.py:FormatRgy")])
p("C24","Documents that break the format's schema never become a database",
 "Reading a file or stream through XmlFactory.read, the xml format, YamlReader.load or loads, or the yaml format returns a database only if the whole document passed validation against the schema shipped for that format, on every path, for streams and file names, plain or compressed. A document that fails reaches the caller as an error, and validate_ucis_xml does not report as valid a document that has not passed.",
 ["inputs","configurations","fault_sequences"],"every document and every way of passing it to the readers",
 "Tests read a handful of valid documents; an invalid or differently passed one is hardly tried.",
 [S+"xml/__init__.py",S+"xml/xml_factory.py",S+"xml/db_format_if_xml.py",S+"yaml/yaml_reader.py",S+"yaml/db_format_if_yaml.py"],[("schema validation before the readers",S+"xml/__init__.py:validate_ucis_xml, "+S+"yaml/yaml_reader.py:YamlReader.loads")])
p("C25","The source-file table of an XML document is complete, unambiguous and read back",
 "Exporting a database to XML declares, in sourceFiles, the file name recorded as source location of every scope of the database, at every depth and of every kind: each distinct name once, as it is, under an id no other entry has. Every file id used elsewhere in the document is declared, and where it stands for a recorded location it is the id of that very file, with the line and token of the location. Importing creates exactly one file handle for each sourceFiles entry, with the name of the entry, and resolves a file id (with line and inline count) to the file declared under that id, whatever ids the document uses.",
 ["inputs"],"all scope trees, file names and id assignments",
 "Tests use databases with one or no source file, where a wrong id or a missing entry cannot show.",
 [S+"xml/xml_writer.py",S+"xml/xml_reader.py"],[("file table of the writer",S+"xml/xml_writer.py:XmlWriter.find_all_files, XmlWriter.write_source_files, XmlWriter.addId"),("file map of the reader",S+"xml/xml_reader.py:XmlReader.readSourceFile, XmlReader.readStatementId")])
p("C26","Operations finish in time proportional to the size of the database",
 "Reading, merging, reporting and writing terminate for every finite database and need time and memory at most proportional to its size (times the number of sources for a merge).",
 ["inputs"],"all database sizes",
 "Tests use tiny databases.",
 [S+"merge/",S+"xml/",S+"yaml/",S+"report/"],[("single-pass traversals","all traversals")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
