from . import merge, report, text, jsonrpt, xmlw, xmlr, xmlrt, yamlr, mem, iters, create, api, files, cmds, regs, uses, native, neutral, gate, srcfiles
RULES = {'C01': [merge.c01], 'C02': [merge.c02], 'C03': [merge.c03, report.c03, xmlw.c03], 'C04': [report.c04], 'C05': [report.c05], 'C06': [text.c06], 'C07': [jsonrpt.c07], 'C08': [xmlw.c08], 'C09': [xmlr.c09], 'C10': [xmlw.c10], 'C11': [xmlrt.c11], 'C12': [yamlr.c12], "C14": [mem.c14], "C15": [iters.c15], "C16": [create.c16], "C17": [api.c17], "C18": [api.c18], "C19": [cmds.c19], "C20": [files.c20], "C23": [regs.c23], "C13": [uses.c13], "C21": [native.c21], "C22": [neutral.c22], "C24": [gate.c24], "C25": [srcfiles.c25]}
GEN = ('Loops are summarised symbolically (every iteration count), branches by path conditions, user containers by the events that fill them; '
       'methods of the UCIS interface are read as opaque operations of the database object.')
META = {
    'C01': dict(technique='value-flow analysis (abstract interpretation) of DbMerger.merge',
                explanation='The symbolic value of every createBin argument on the merged tree is matched against the sum/first-source form.',
                note='Decides, for any number of sources and any contents, that counts are sums over same-path same-kind bins. ' + GEN,
                assumptions=['items of one source under one parent have distinct names', 'UCIS get* accessors are pure (C14)']),
    'C02': dict(technique='value-flow analysis (abstract interpretation) of DbMerger.merge',
                explanation='Every create call on the merged tree is matched against the source construct it must mirror.',
                note='Decides structure, fields, order and cross links of the merged tree for any sources. ' + GEN,
                assumptions=['items of one source under one parent have distinct names']),
    'C03': dict(technique='effect and escape analysis over all calls reachable from the entry points',
                explanation='Every call and assignment whose receiver derives from a source is classified as read or write; every value handed to the result is checked for source objects.',
                note='Effect analysis over the whole call graph of the operation. ' + GEN, assumptions=['get*/scopes/coverItems accessors do not modify the database (C14, C15)']),
    'C04': dict(technique='value-flow analysis of CoverageReportBuilder.build with arithmetic normal forms',
                explanation='The symbolic value of every coverage field of the report is brought to a normal form (sums over iterations, safe division) and compared with the formula.',
                note='Decides the percentage formulas for any number of bins, weights and scopes; a difference is reported only with a witness model. ' + GEN,
                assumptions=['counts, thresholds and weights are non-negative integers', 'floating-point rounding is not modelled']),
    'C05': dict(technique='value-flow analysis of CoverageReportBuilder.build',
                explanation='An analysis-only observer walks the report; every observation is matched against the database item it has to mirror.',
                note='Decides structure, order, names, goals, counts and hit flags of the report for any database. ' + GEN,
                assumptions=['UCIS get* accessors are pure (C14)']),
    'C06': dict(technique='value-flow analysis of the two text report formatters',
                explanation='Every line written is reconstructed as a template over the report object (literal text, values, indentation) and matched against the report item it has to show.',
                note='Decides which lines are written, their values, order and nesting, for any report. ' + GEN,
                assumptions=['the report object has the structure C05 establishes']),
    'C07': dict(technique='value-flow analysis of the JSON report formatter plus schema conformance',
                explanation='The object tree handed to the serializer is reconstructed and every field is matched against the report item, and against the declared JSON schema.',
                note='Decides presence, value and type of every JSON field for any report. ' + GEN,
                assumptions=['python_jsonschema_objects serializes the properties assigned to an object']),
    'C08': dict(technique='value-flow analysis of the XML writer',
                explanation='The element tree handed to the serializer is reconstructed symbolically; every element and attribute is matched against the database item it has to show.',
                note='Decides which elements are written, under which parent, in which order and with which values, for any database. ' + GEN,
                assumptions=['lxml SubElement/set/text have their documented effect']),
    'C09': dict(technique='value-flow analysis of the XML reader',
                explanation='The reader runs abstractly on an opaque document; every create call on the new database is matched against the document item it has to mirror.',
                note='Decides, for any schema-valid document, which objects are created, with which names, kinds, counts and links. ' + GEN,
                assumptions=['lxml iteration yields the descendants with the given tag in document order', 'required attributes and elements of the schema are present']),
    'C10': dict(technique='conformance of the symbolic element tree to the XML schema',
                explanation='Every element, attribute, value form and child order the writer can produce is checked against the declarations of ucis.xsd.',
                note='Decides vocabulary, order, required attributes and lexical form of everything written, for any database. ' + GEN,
                assumptions=['the number of repeated children is data driven and not decided']),
    'C11': dict(technique='slot-by-slot comparison of the symbolic document tree of the writer with the value flow of the reader',
                explanation='For every field the reader restores, the element and attribute it is taken from is looked up in the tree the writer builds, and the two conversions are compared.',
                note='Decides field, presence condition, conversion and bin-kind codes for any database; dates are compared by their formats. ' + GEN,
                assumptions=['str() of a number is read back by float()/int() as the same number', 'local time conversions of mktime and fromtimestamp are inverse']),
    'C12': dict(technique='value-flow analysis of the YAML reader',
                explanation='The reader runs abstractly on an opaque schema-valid document (classes generated at run time are modelled from coverage.json); every create call on the new database is matched against the entry it has to mirror.',
                note='Decides, for any schema-valid document, which objects are created, with which names, kinds, thresholds, counts and links. ' + GEN,
                assumptions=['jsonschema.validate rejects documents that do not conform', 'the generated classes have the declared properties, None until set']),
    'C14': dict(technique='value-flow analysis of every accessor and property of the in-memory objects',
                explanation='One object of every kind is built abstractly with arbitrary values; every setter, getter and property operation is applied to the generic state and the symbolic results are compared.',
                note='Decides read-back, independence of fields and agreement of the property interface with the accessors for every value. ' + GEN,
                assumptions=['objects are made by the public creation operations']),
    'C15': dict(technique='induction over the cursor of the iterators: abstract evaluation of one step from a generic position under a complete case split',
                explanation='An iterator at position p of an arbitrary list is stepped once for each case (exhausted, element matches, does not match); generators and comprehensions are decided from their loop summary.',
                note='Decides what is yielded, order, termination and independence for lists of any length and any mask. ' + GEN,
                assumptions=['scope and cover types are single bits (C17)', 'no child is removed while iterating']),
    'C16': dict(technique='value-flow and effect analysis of every creation operation of the in-memory objects',
                explanation='Each creation operation is applied twice, with arbitrary arguments, to a parent with arbitrary children; what is appended where, and what the getters of the new objects return, is compared with the request.',
                note='Decides registration (exactly once, last, under the parent asked for, nowhere else) and the stored data for all arguments. ' + GEN,
                assumptions=['which list an accessor shows is taken from the C15 analysis']),
    'C17': dict(technique='constant evaluation of the enumeration classes and module constants',
                explanation='Every member of every code set is evaluated from the syntax tree; bits, distinctness, standard codes and the binding of every C-style name are compared.',
                note='Finite and complete: all members of all code sets, all C-style names.',
                assumptions=['the code table of the UCIS 1.0 standard embedded in the rule']),
    'C18': dict(technique='value-flow analysis of every C-style function, with and without an object handle',
                explanation='Each function is evaluated on opaque handles; the calls it makes, their receivers, arguments and the returned value are compared with the operation of its name.',
                note='Decides delegation for every argument value. ' + GEN,
                assumptions=['which argument has which meaning is taken from the parameter names of the object API']),
    'C20': dict(technique='typestate analysis of file handles over all paths, including the exceptional ones',
                explanation='Every operation that opens a file is interpreted path by path (calls that can fail have a raising outcome, helpers and context managers are inlined); each file must be closed in every final state.',
                note='Path-sensitive typestate with exceptional edges; loops to a fixpoint. Correlated conditions (opened here / closed here) are remembered along a path.',
                assumptions=['interrupts (BaseException) raised between two statements are not modelled', 'simple attribute access, comparison, formatting and logging do not fail']),
    'C19': dict(technique='path-sensitive typestate analysis of the command functions and of main, including exceptional paths',
                explanation='Every command is interpreted path by path over symbolic arguments: the order of format checks, reads, merge and output operations, their operands, and what happens to each failure are tracked to every final state.',
                note='Decides ordering, provenance of formats, inputs and output, and propagation of every failure for all command lines. Correlated conditions are remembered along a path; loops to a fixpoint.',
                assumptions=['the registry lookups fail for unregistered names (C23)', 'argparse has its documented behaviour', 'interrupts (BaseException) are not modelled']),
    'C23': dict(technique='constant-propagating abstract interpretation of the format registry, its interfaces and the list commands',
                explanation='The registry is evaluated from its source; each lookup is applied to an arbitrary name and the resulting case split is compared with the registered formats; the interfaces found are followed to the reader, writer or report generator they use.',
                note='Finite and complete over the registered formats; lookups are decided for every name. ' + GEN,
                assumptions=['the expected formats are those documented: xml, yaml, libucis; txt, json']),
    'C13': dict(technique='effect and value-flow analysis of each operation used twice',
                explanation='Every place that outlives an operation and was changed by it (worker fields, class and module variables, default arguments, what they hold) is replaced by an unknown earlier value and the operation analysed again; no later step or result may mention one.',
                note='Decides independence from every earlier use for all inputs. Places filled in once with a value independent of the inputs, tables that only map a key to a function of it, and tallies nobody reads are allowed. ' + GEN,
                assumptions=['earlier uses completed normally where a place is restored at the end (indentation)', 'third-party libraries keep nothing between calls']),
    'C21': dict(technique='conformance of every native call and declaration to the C prototypes, and value-flow analysis of the wrapper methods',
                explanation='Argument and result types declared to ctypes, structure layouts and every call to the C library are compared with the UCIS C prototypes; each wrapper method is evaluated abstractly and what it passes to, and returns from, the library is matched against the request.',
                note='Decides handle, argument order, conversion, result and error handling of every native call for all arguments. ' + GEN,
                assumptions=['the C prototypes of the UCIS 1.0 standard embedded in the rule', 'ctypes converts as documented', 'the C library implements the standard']),
    'C22': dict(technique='type inference over the abstract evaluation of merge, report and export, checked against the declarations of the public API',
                explanation='Every value taken from a database is given the public class its declaration (and the scope kind asked for) promises; every operation, field, argument list and other use of it is checked against that class and its implementations.',
                note='Decides every access on every path, for any database. ' + GEN,
                assumptions=['results have the classes the declarations and scope kinds state', 'a backend implements the declared operations it is asked for']),
    'C24': dict(technique='path-sensitive taint and typestate analysis of the reading entry points, including exceptional paths',
                explanation='Every reading entry point is followed path by path over helpers and context managers; a document is clean only after the schema shipped for its format accepted the whole of it, and only clean documents may reach the construction of a returned database.',
                note='Decides the order and outcome of validation on every path for all inputs (streams, names, compressed or not). Loops to a fixpoint.',
                assumptions=['lxml and jsonschema decide validity as documented', 'a file does not change between its validation and its reading', 'interrupts (BaseException) are not modelled']),
    'C25': dict(technique='value-flow analysis of the source-file table: inductive completeness and id-freshness argument on the writer, slot matching on the reader',
                explanation='The writer runs abstractly on an opaque database; each sourceFiles entry is traced to the scopes it is made for (first level, a generic deeper level and the recursive step) and its id to the table it comes from; the reader is matched entry by entry.',
                note='Decides completeness, uniqueness, distinct ids and resolution for scope trees of any size and depth. ' + GEN,
                assumptions=['file names are compared as text', 'a scope without a file is given no entry']),
}
