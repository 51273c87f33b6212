XW = "src/ucis/xml/xml_writer.py"
XR = "src/ucis/xml/xml_reader.py"
XF = "src/ucis/xml/xml_factory.py"
YR = "src/ucis/yaml/yaml_reader.py"

P("P10", "Coverage data survives an XML round trip",
  "Writing any database as UCIS XML and reading it back yields the same design instances, covergroups, covergroup "
  "instances, coverpoints, crosses (with the same coverpoints in the same order) and bins with their kind, exact count, "
  "threshold and weight, in the same order, for every text that is legal in XML as a name and in every locale. Writing and reading again changes nothing, and "
  "writing does not modify the database.",
  ["inputs"], "all databases: shapes, names, kinds, counts, thresholds, weights; all ways to write and read",
  "tests round-trip a few databases with plain names and default options",
  [XW, XR, XF], [("XML serialisation", XW), ("XML reconstruction", XR)],
  note="instance weights, design-unit names and per-bin thresholds are not part of the interchange format; see DESIGN.md")

P("P11", "Every written XML file is valid and self-consistent",
  "Every XML file the library writes is, in every locale, well-formed, conforms to the UCIS schema shipped with the library, and is accepted "
  "by the library's own validator. Every source file referenced by any element is listed exactly once in the file table, and "
  "every reference resolves to an entry of that table.",
  ["inputs"], "all databases that the format can represent, names, file names, counts and history contents",
  "schema violations only show for databases that use the affected attribute or leave it unset",
  [XW, "src/ucis/xml/schema/ucis.xsd", XF], [("XML serialisation", XW), ("source file table", XW)])

P("P12", "Test history survives an XML round trip",
  "For every history node (test or merge record), writing the database as XML and reading it back preserves all of its "
  "attributes: logical and physical name, kind, test status, date, simulation and CPU time, time unit, run directory, seed, "
  "command, arguments, compulsory flag, user, cost, tool category, vendor, tool and version, same-tests and comment. The "
  "number and order of nodes are preserved, and looking up nodes by kind returns exactly the nodes of that kind.",
  ["inputs"], "all contents of all attributes, all subsets of attributes left unset, all statuses and kinds",
  "tests write history nodes but never compare more than a name after reading",
  [XW, XR, MEM + "/mem_history_node.py"], [("history nodes to XML", XW), ("history nodes from XML", XR)])

P("P13", "The XML reader reconstructs types, and refuses invalid documents",
  "Reading a schema-conforming document gives every covergroup instance verbatim, in document order, and, for each covergroup type, the union "
  "of the coverpoints, crosses and bins of its instances, with the count of every type bin the sum of the counts of the "
  "instance bins of the same name and kind, and weights and thresholds those of the first instance. Documents lacking a required element or attribute, or with an ill-typed value, "
  "are rejected with an error. A document is read the same in whichever encoding it declares or is marked with, and in every "
  "locale. Reading one document never influences the result of reading another, even with the same reader.",
  ["inputs", "histories"], "all schema-shaped documents within the bounds, optional parts present or absent, sequences of reads",
  "the sum over instances depends on which names coincide between instances; reader reuse is never tested",
  [XR, XF], [("type reconstruction", XR), ("validation", XF)])

P("P14", "The YAML reader represents every instance of the document",
  "Reading a YAML coverage document gives exactly the covergroups, covergroup instances, coverpoints, crosses and bins of "
  "the document in document order, with their kind (bins, ignore bins, illegal bins), exact counts, thresholds and weights, "
  "and the documented default of 1 where the document gives no weight or threshold. Every cross refers to the coverpoints "
  "it names, in the order given. The file's encoding (UTF-8 or UTF-16), the "
  "locale, and what the reader has read before do not matter.",
  ["inputs"], "all documents: shapes, names, kinds, counts, optional keys present or absent",
  "tests read a handful of fixed documents",
  [YR, "src/ucis/schema/coverage.json"], [("YAML reconstruction", YR)])

P("P15", "YAML type coverage is the sum of instances; bad documents are refused",
  "For each covergroup type of a YAML document the reader derives the union of the coverpoints, crosses and bins of its "
  "instances, with every type bin's count the sum of the counts of the instance bins of the same name and kind, and the "
  "threshold of the first instance. Documents lacking a required key, holding a value of the wrong type, or with a cross "
  "naming a coverpoint its instance does not have, are refused with an error.",
  ["inputs"], "all documents within the bounds, name overlaps between instances, all single-key deletions and type errors",
  "the sum depends on which names coincide between instances; tests contain no malformed documents",
  [YR, "src/ucis/schema/coverage.json"], [("type reconstruction", YR), ("schema validation", YR)])

CM = "src/ucis/cmd"
P("P16", "Iterating by kind yields exactly the matching items, in order",
  "Iterating over the children of a scope, the cover items of a coverpoint, cross or covergroup, or the history nodes of a "
  "database with a type mask (or kind) yields exactly the items whose type is in the mask, each once, in creation order. "
  "Iterators over the same list are independent of each other, iterating changes nothing, and items added later are found "
  "by the next iteration.",
  ["inputs", "histories"], "all types, masks, item sequences and interleavings of iterators",
  "tests iterate over a few kinds; the mask arithmetic and iterator independence depend on which types sit next to each other",
  [MEM + "/mem_scope_iterator.py", MEM + "/mem_cover_index_iterator.py", MEM + "/mem_history_node_iterator.py",
   MEM + "/mem_scope.py"],
  [("scope iteration", MEM + "/mem_scope_iterator.py"), ("cover item iteration", MEM + "/mem_cover_index_iterator.py"),
   ("history iteration", MEM + "/mem_history_node_iterator.py")])

P("P17", "The object model returns what was stored",
  "Every object of an in-memory database reports the name, type, weight, source location, design unit and crossed "
  "coverpoints it was created with. After any writable integer property or attribute is set - by setter, by property or by "
  "the C-style functions - reading it back by any of these ways gives the value last set, and no other property and no other "
  "object changes. Incrementing a bin adds exactly the given amount to that bin only. Cover data and lists given to the "
  "library may be used again by the caller without changing what was stored. A database has one file handle per file name, and history nodes keep every attribute given to them.",
  ["inputs", "histories"], "all values of all writable properties and attributes, all ways to set them, sequences of updates",
  "a setter writing to the wrong field, or a value shared between objects, only shows for particular combinations",
  [MEM + "/mem_scope.py", MEM + "/mem_cvg_scope.py", MEM + "/mem_covergroup.py", MEM + "/mem_history_node.py",
   "src/ucis/cvg_scope.py", "src/ucis/covergroup.py", "src/ucis/__init__.py"],
  [("scope attributes", MEM + "/mem_scope.py"), ("covergroup options", "src/ucis/cvg_scope.py"),
   ("C-style functions", "src/ucis/__init__.py")],
  note="string properties are ignored by the in-memory back end and not covered; flag-valued properties are set to 0 or 1")

P("P18", "Compressed XML files read like plain ones",
  "Reading a gzip or LZ4 compressed XML file gives exactly the database that reading the uncompressed file gives, whatever "
  "the file is called, and an invalid document is refused whether or not it is compressed.",
  ["inputs"], "all file contents within the bounds, all bytes that can follow the magic numbers, all file names used",
  "no test reads a compressed file",
  [XF], [("compression detection", XF)],
  note="Python's gzip and lz4 modules are modelled as exact inverses of compression")

P("P19", "The command line does what the library does and reports failure",
  "The convert command writes a file with the same coverage data as its input; merge writes the merge of all its inputs; "
  "report writes exactly the library's report of its input, to the given file or to standard output; the list commands name "
  "every format. A successful command exits with status 0. A command that cannot do its job (missing, malformed or invalid "
  "input, unknown or unsupported format, bad usage) exits with a non-zero status, and leaves no output file behind when its "
  "inputs or arguments are the reason.",
  ["inputs", "configurations", "fault_sequences"], "all option spellings, formats, input contents within the bounds, and all positions of a bad input",
  "the command line is not tested at all",
  ["src/ucis/__main__.py", CM + "/cmd_convert.py", CM + "/cmd_merge.py", CM + "/cmd_report.py", "src/ucis/rgy/format_rgy.py"],
  [("exit status", "src/ucis/__main__.py"), ("convert", CM + "/cmd_convert.py"), ("merge", CM + "/cmd_merge.py"),
   ("report", CM + "/cmd_report.py")])

P("P20", "Converting to XML does not change any reported coverage figure",
  "For a database whose type data is the sum of its instances (as read from XML or YAML) or that has no covergroup instances, "
  "writing it as XML and reading it back leaves the coverage percentage of every covergroup, covergroup instance, coverpoint and "
  "cross, the overall coverage, and every bin's count, goal and kind in the report unchanged.",
  ["inputs"], "all counts, thresholds, kinds, names and weights of points within the bounds",
  "a field that the writer or reader drops changes a percentage only for databases that depend on it",
  [XW, XR, YR, RB], [("XML serialisation", XW), ("XML reconstruction", XR), ("coverage computation", RB)])

P("P21", "Merging more results or hitting more bins never lowers coverage",
  "When databases of the same design are merged, the coverage of every covergroup, instance, coverpoint and cross, and the "
  "overall coverage, is at least that of every source; it is 100% when every bin reaches its threshold in some source; and "
  "merging in a run without hits changes nothing. Incrementing any bin never lowers any coverage figure.",
  ["inputs", "histories"], "all counts, thresholds, kinds and shapes within the bounds, all sequences of increments",
  "monotonicity relates two runs for all counts; a test compares single values",
  [MG, RB, MEM + "/mem_cover_index.py"], [("bin merging", MG), ("coverage computation", RB)])

P("P22", "Reporting, writing and merging are read-only and repeatable",
  "Building a report, printing it as text (in any order) or JSON, writing XML, merging into another database and iterating "
  "leave the database, and a report object already built, unchanged. Doing any of these again, in any order, gives the same "
  "result, and a report already built does not change when the database does. After the database has been changed, each "
  "operation gives what it gives for a new database with the changed content.",
  ["inputs", "histories"], "all databases within the bounds and the sequences of operations listed in the harness",
  "tests call each operation once on a fresh database",
  [RB, "src/ucis/report/format_rpt_text.py", "src/ucis/report/text_coverage_report_formatter.py",
   "src/ucis/report/format_rpt_json.py", XW, MG],
  [("report construction", RB), ("text rendering", "src/ucis/report/format_rpt_text.py"), ("XML serialisation", XW)])

P("P23", "The libucis back end behaves like the in-memory back end",
  "A database held by a UCIS C library shows the same scopes, cover items, properties and history nodes through the Python "
  "API as an in-memory database to which the same calls were made.",
  ["inputs", "programs"], "all call sequences on all conforming UCIS C libraries",
  "the back end needs a third-party C library, which no test has",
  ["src/ucis/lib/libucis.py", "src/ucis/lib/lib_scope.py"], [("C library binding", "src/ucis/lib/libucis.py")],
  na="the back end only forwards calls to a proprietary UCIS C shared library through ctypes; the library is not part of the "
     "repository or the sandbox, so the code that decides the property cannot be encoded")
