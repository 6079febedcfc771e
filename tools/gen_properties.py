"""Writes /verif/properties.jsonl (kept so that edits stay readable)."""
import json, os

Q = "wiggle_shell/core/query/query.py"
MK = "wiggle_query_language/clauses/make/make.py"
MKT = "wiggle_query_language/clauses/make/transform/make_pre.py"
MKP = "wiggle_query_language/clauses/make/parse_make/parse_make_statement.py"
FD = "wiggle_query_language/clauses/find/find.py"
FDT = "wiggle_query_language/clauses/find/transform/find_pre.py"
FDP = "wiggle_query_language/clauses/find/parse_find/parse_find_statement.py"
SC = "wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py"
RPP = "wiggle_query_language/clauses/report/parse_report/parse_report_statement.py"
EX = "wiggle_query_language/clauses/parsing_helpers/extract_statements.py"
PP = "wiggle_query_language/clauses/parsing_helpers/parse_properties.py"
PC = "wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py"
TR = "wiggle_query_language/clauses/transform_helpers/relationships.py"
CH = "wiggle_query_language/clauses/regexes/patterns/clause_helpers.py"
PH = "wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py"
PR = "wiggle_query_language/clauses/regexes/patterns/properties.py"
RR = "wiggle_query_language/clauses/regexes/patterns/relationships.py"
RPR = "wiggle_query_language/clauses/regexes/report/report_patterns.py"
DB = "wiggle_query_language/graph/database/database.py"
IH = "wiggle_query_language/graph/database/indexes/index_helpers.py"
NL = "wiggle_query_language/graph/database/indexes/node_labels_index.py"
RN = "wiggle_query_language/graph/database/indexes/relationship_names_index.py"
NR = "wiggle_query_language/graph/database/indexes/node_relationships_index.py"
WN = "wiggle_query_language/graph/state/wiggle_number.py"
SG = "wiggle_shell/core/select_gdbms/select_gdbms.py"
SD = "wiggle_shell/core/select_gdbms/select_database_file.py"
SI = "wiggle_shell/core/select_gdbms/select_index_file.py"
SW = "wiggle_shell/core/select_gdbms/select_wiggle_number_file.py"
SN = "wiggle_shell/core/select_gdbms/check_gdbms_name.py"
SH = "wiggle_shell/wiggleshell.py"
PQ = "models/wql/parsing/parsed_query.py"
PPM = "models/wql/parsing/properties_pre.py"
ND = "models/wql/data/node.py"
RL = "models/wql/data/relationship.py"
MD = "models/wql/data/wiggle_metadata.py"

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, id
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
        },
    }
    if state:
        d["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state
        ]
    P.append(d)


NOQ = "No test runs a whole query, so nothing samples even one point of this."

p("C01", "Wiggle numbers are unique and the counter never goes back",
  "Every node and relationship that a query stores gets a wiggle number that nothing else in that database has or ever had, over any sequence of MAKE queries. After a MAKE the stored counter is greater than every number that was handed out, and it never goes down.",
  ["inputs", "histories"], "every MAKE (any number of statements, patterns, nodes and relationships), after any history of earlier queries",
  "The tests only read and write the counter file; the numbering of patterns is never run. " + NOQ,
  [MKT, MK, WN], [("running number over all patterns", MKT), ("counter read before and written after", MK)],
  [("wiggle number counter", "the next number that is free", WN)])

p("C02", "Every node of a MAKE is stored once, with its own label and properties",
  "Each node written in a MAKE is stored exactly once, under its own wiggle number, with the label and the properties that were written for that very node. Nothing else is stored as a node.",
  ["inputs"], "every pattern shape (one to three nodes, with and without properties), any number of patterns and statements",
  "make() and the transform of a MAKE are never run by a test. " + NOQ,
  [MKT, MK, ND], [("one NodePre per matched node", MKT), ("one Node per NodePre", MK)])

p("C03", "Every relationship of a MAKE joins the nodes it was written between",
  "Each relationship written in a MAKE is stored exactly once, on the node it starts from, with the numbers of the two nodes it was written between, from and to as its arrow points. It carries the name and the properties written for it, whatever white space surrounds it.",
  ["inputs"], "every pattern shape, both arrow directions in both places, any spacing, with and without names and properties",
  "Only the direction helper is tested, on a few hand-written arrows without white space. " + NOQ,
  [MKT, TR, MK, RL], [("direction of the arrow", TR), ("from and to numbers", MKT)])

p("C04", "Label and relationship-name indexes are complete and only grow",
  "After a MAKE the label index holds the label of every node stored and the relationship-name index the name of every named relationship stored, whatever their order and number. Everything those indexes held before is still there, each in its own index, and nothing that was not stored is added.",
  ["inputs", "histories"], "every MAKE, after any history",
  "The tests add fixed sets straight to an index; no test connects what a MAKE stores with what it indexes.",
  [MKT, MK, IH, NL, RN], [("names collected per pattern", MKT), ("union over all patterns", MK), ("union with the stored index", IH)])

p("C05", "The node-relationships index lists every stored relationship of a node",
  "After a MAKE the node-relationships index has, for every stored node that has relationships, that node's number with the numbers of all of its relationships. Entries that were there before keep all their numbers, also when the same node is added again.",
  ["inputs", "histories"], "every MAKE, after any history; every set of additions",
  "The test adds two fixed nodes and then only counts the keys, so lost numbers go unseen.",
  [MK, NR], [("numbers per node", MK), ("merge with the stored entry", NR)])

p("C06", "Adding to the database never loses or replaces what is stored",
  "Adding nodes keeps every node that the database already held, unchanged, and adds all of the new ones. If any new node's number is already taken the whole addition is refused with the node-exists error and the database is left as it was.",
  ["inputs", "histories"], "every content of the database and every set of additions",
  "The test makes one insertion into an empty database and one complete duplicate of it; partial overlaps are never tried.",
  [DB], [("membership test before insertion", DB)])

p("C07", "Every storage file stays one well-formed document",
  "When a storage operation has finished, each file it wrote holds exactly one well-formed document: written from the start of the file, with nothing left over from a longer earlier version, also when there was nothing to add. Parts of the document that the operation is not about are still there.",
  ["inputs", "histories"], "every storage operation on every earlier content, also when the new content is shorter or there is nothing to add",
  "The tests only ever grow files and never add an empty set.",
  [DB, IH, NR, WN, SD, SI, SW], [("rewind, write, truncate", DB), ("rewind, write, truncate", IH), ("rewind, write, truncate", NR)])

p("C08", "A storage operation that fails leaves its file as it was",
  "If adding to or wiping the database or an index fails, whether because of its arguments, the content found or a value that cannot be written out, the file still holds what it held before. Nothing that can fail because of the data happens between the first destructive step and the last.",
  ["inputs", "fault_sequences"], "every failing storage operation",
  "The one failing insertion that is tested does not look at the file afterwards.",
  [DB, IH, NR], [("everything is loaded, checked and serialised before the first write", DB)])

p("C09", "A rejected query stores nothing",
  "When any part of a query is rejected, in whichever clause and for whatever reason to do with its text, none of the query's effects is stored: database, indexes and counter are all as before. All the clauses of a query are checked before the first thing is written.",
  ["inputs"], "every query that is rejected, with any mix of good and bad statements",
  "Tests call single parsing helpers; none runs a query that has a good MAKE and a bad other clause.",
  [Q, MK, FDT, PP], [("parse everything, then execute", Q), ("nodes are built before anything is written", MK)])

p("C10", "Every supported combination of clauses runs",
  "A query made of well-formed MAKE statements, a FIND, or both, with a REPORT when there is a FIND, runs to completion, whichever of the clauses are present. A query with no clause at all, or a REPORT without a FIND, is refused with a WiggleGraph error.",
  ["inputs"], "every presence and absence of each clause",
  "No test runs a query at all, so no combination is sampled.",
  [Q, RPP], [("optional parts are tested before they are used", Q)])

p("C11", "Every statement and every part of it is validated",
  "All the checks (brackets, illegal characters, property syntax, direction and upper-case names of relationships) are applied to every MAKE and FIND statement of a query and to every part of each, not only up to the first that passes. Text of a MAKE or FIND statement that is not understood is an error: once the keyword and its opening parenthesis are written, no statement, pattern, node, relationship or property is dropped silently.",
  ["inputs"], "every query with any number of statements, the offending part in any of them",
  "The tests give each check one statement at a time, so skipping the later ones goes unseen.",
  [PC, MKP, FDP, EX, PP], [("loops over all statements and all matches", PC), ("the leftover text must be empty", PC)])

p("C12", "A statement ends at its own semicolon",
  "Statements are separated by semicolons, however they are laid out on lines: what is between one semicolon and the next is never joined to a neighbouring statement, and each MAKE of a query is its own statement. More than one FIND or more than one REPORT in a query is refused.",
  ["inputs"], "every query text, on one line or on several",
  "The test queries have one statement per line, which hides greedy matching.",
  [CH, RPR, EX, FDP, RPP], [("no semicolon inside a statement", CH), ("count of FIND and of REPORT statements", FDP)])

p("C13", "A property value gets the type it is written in, and all of it counts",
  "A value written as null, true or false, a whole number, a decimal, a list or text is stored as exactly that type and value, and the whole of what was written takes part: a value is never cut short to a prefix that happens to look like another type. A value that is malformed is refused with a WiggleGraph error.",
  ["inputs"], "every property string",
  "The tests have about a dozen well-formed values, none of which has another type as its prefix.",
  [PR, PPM, PP], [("ordered alternatives of the value pattern", PR), ("type to handler dispatch", PP)])

p("C14", "Quoted text is stored as written, lists hold plain values",
  "Quoted text that is accepted is stored character for character without its quotes, both on its own and in a list, whatever it contains and whatever spacing surrounds it. A list holds only numbers, booleans, null and text; any other element is refused.",
  ["inputs"], "every quoted text and every list",
  "The tests have a few short texts, none with a keyword inside it or white space around it.",
  [PP], [("quotes removed as a pair", PP), ("keywords replaced outside quotes only", PP)])

p("C15", "FIND gives up early only when nothing can match",
  "A FIND is answered with no results from the indexes alone only if none of its node labels is in the label index, or if it names relationships and none of the names is in the relationship-name index. When a label and, where one is asked for, a name are present in the indexes, the FIND goes on.",
  ["inputs", "histories"], "every FIND against every content of the indexes",
  "The two set helpers are tested on their own; how they are combined is not.",
  [SC, FD], [("label and name tests", SC)])

p("C16", "A FIND looks for exactly the nodes and relationships it was given",
  "Each node and relationship of a FIND pattern is carried into the search with its own handle, label or name and properties, in its own place and direction, together with the criteria for its own handle. Nodes and relationships that the pattern does not have are absent, and every label and name of the pattern is looked up.",
  ["inputs"], "every pattern shape, both directions, with and without properties, names, handles and criteria",
  "Only the criteria helper is tested, with empty property dictionaries.",
  [FDT], [("one FindNodePre per matched node", FDT)])

p("C17", "A query touches only the files of the selected database",
  "A query reads and writes only the three files of the database it was given: nodes go to its database file, index entries to its indexes file and the number to its counter file. No other file, no other database and no state left in the process by an earlier query takes part.",
  ["inputs", "histories", "configurations"], "every query, whichever database is selected, after any earlier use of other databases",
  "The tests have a single set of files, so mixing databases up is invisible.",
  [Q, MK, SC, DB, IH, NR, WN], [("paths come from the GDBMSFilePath argument", MK)])

p("C18", "Wiping needs the confirmation and wipes one thing only",
  "A wipe changes nothing unless it is given the explicit confirmation. With it, exactly the database or the one index it is about becomes empty and every other index keeps its content.",
  ["inputs", "histories"], "every content of the files, confirmed or not",
  "Wipes are only used as test fixtures, always confirmed, and the other indexes are not looked at.",
  [DB, IH, NR, NL, RN], [("im_sure guard", DB)])

p("C19", "Creating a database makes its three files and overwrites none",
  "Creating a database makes an empty database file, an indexes file with all three indexes empty and a counter at zero, all in the folder of that name, and returns their paths; the lookup functions find the same three paths. If a file of that name is already there, creation is refused and the file is left as it was.",
  ["inputs", "histories"], "every name, whatever exists already",
  "The tests create one or two names and do not look at the content that is preserved on refusal.",
  [SD, SI, SW, SG], [("existence test before creation", SD)])

p("C20", "A database name cannot lead outside its own folder",
  "Whatever name is given, creating, looking up or deleting a database only ever touches one folder directly inside the databases folder, the one of that name; a name that does not denote such a folder is refused before anything is touched. Deleting a database removes the files of that database and of no other.",
  ["inputs"], "every name, including empty, dotted, nested, absolute and wildcard names",
  "The tests use plain alphanumeric names.",
  [SN, SD, SI, SW, SG], [("name check", SN), ("deletion of the folder's own entries", SG)])

p("C21", "Database selection offers what exists and opens what was chosen",
  "The selection lists every existing database of the folder it was given, each under its own letter and in alphabetical order, leaving out only the reserved folders. Choosing one gives the three files of that one; an unknown choice, a taken or invalid name or missing files lead to a new prompt and not to a crash.",
  ["inputs", "configurations"], "every number of databases and every answer typed",
  "The tests list two databases and never run the prompts.",
  [SG], [("letter to name mapping", SG), ("retry loops", SG)])

p("C22", "The shell survives every query and acts only on exact commands",
  "No query, however broken, ends the shell: the error is shown and the next prompt follows. Only the exact commands for leaving and for help are taken as commands; every other line reaches the query engine unchanged, with the database that was selected.",
  ["inputs", "histories"], "every sequence of input lines",
  "The shell loop has no tests.",
  [SH], [("try around the query", SH)])

p("C23", "Importing the code never touches a database",
  "Importing any module of the program reads, creates, changes or deletes no database, index or counter file and does not start a query or a prompt. Demonstration code runs only when its file is run as a script.",
  ["programs", "configurations"], "every module, imported in any order",
  "The tests import the modules but do not look for side effects, and run against the sample files anyway.",
  [Q, WN, DB, SI], [("__main__ guards", Q)])

p("C24", "Creation times are taken when the item is created",
  "The creation time stored with a node or relationship is the time at which that item was made, taken anew for each of them, not a time fixed earlier in the life of the process. An item that has only been created has no update time.",
  ["histories", "inputs"], "every item, however long the process has been running",
  "A test process is too short for a stale time to show, and no test compares times.",
  [MD, MK], [("default factory", MD)])

p("C25", "An unreadable counter is an error and never restarts numbering",
  "If the counter file is empty or does not hold a number, a MAKE fails with an error and stores nothing; it does not fall back to zero or to any other number. The number used is the one in the file at the time of the query.",
  ["inputs", "histories"], "every content of the counter file",
  "The tests only read counters that they have just written.",
  [WN, MK], [("the explicit refusal of an empty counter", WN)])

p("C26", "Impossible graph data cannot be constructed",
  "A relationship from a node to itself, a node holding a relationship it is not an end of, and a pattern that uses one handle twice are refused with their own errors, whichever element of the list or pattern is at fault. Everything else is accepted.",
  ["inputs"], "every number of relationships and handles, the fault anywhere among them",
  "The tests have a handful of one or two element cases.",
  [RL, ND, PQ], [("root validators", RL), ("root validators", ND), ("root validators", PQ)])

p("C27", "Rejected query text always gives a WiggleGraph error",
  "Whenever a query is rejected because of its text the error raised is one of the WiggleGraph errors; no text makes the parser or the executor fail with an internal error such as a missing index, attribute, key or an unconverted value. Each WiggleGraph error carries its message.",
  ["inputs"], "every query text",
  "The tests check the error class for some thirty hand-picked texts.",
  [Q, PC, PP, EX, MKP, FDP], [("conversion of library errors", PP), ("common base class", "exceptions/wiggle_base_exception.py")])

p("C28", "Clause keywords are recognised in any letter case",
  "MAKE, FIND and REPORT are recognised in any mixture of upper and lower case, with the same result, all the way from extraction to execution. A statement that one stage accepts is never refused by another because of how the keyword is written.",
  ["inputs"], "every capitalisation of every keyword",
  "The tests use all-upper and a few all-lower keywords, and only in the first stage.",
  [CH, RPR, PQ], [("extraction pattern", CH), ("the same pattern on the parsed model", PQ)])

p("C29", "No query makes pattern matching take exponential time",
  "None of the patterns that query text is matched against can take a number of steps exponential in the length of the text. This covers every pattern reachable from a query, for matching as well as for failing to match.",
  ["inputs"], "every text, in particular long texts that almost match",
  "The tests match short texts that mostly succeed.",
  [PH, PR, RR, CH, RPR], [("character classes without ambiguous nesting", PH)])

p("C30", "What is loaded is what is stored",
  "Loading a well-formed database or index file returns exactly what it holds at that time, converted to the documented types, with nothing left out or added and the file unchanged. Later changes to the file are seen by the next load.",
  ["inputs", "histories"], "every content of the files, after any history of operations",
  "The tests compare lengths and types, not content.",
  [DB, IH, NR], [("load and convert", IH)])

p("C31", "An interrupted MAKE neither blocks later ones nor hides stored nodes",
  "If the process stops between two storage steps of a MAKE, every number used by a stored node is already counted as used, so that later MAKE queries still succeed and reuse nothing. Every node that was stored is already in the indexes.",
  ["crash_points"], "every point between two storage steps of a MAKE",
  "No test stops a MAKE half way.",
  [MK], [("order of the storage steps", MK)])

p("C32", "Names and values are never mistaken for clauses",
  "Labels, handles, relationship names and property values that contain the word of a clause, or a rearrangement of its letters, are stored like any others. They are never taken for a statement of their own, for a misspelt keyword or for a shell command.",
  ["inputs"], "every well-formed MAKE and FIND statement",
  "No test uses such a name.",
  [RPR, CH, EX, SH], [("what must follow a keyword", RPR)])

# -- not applicable for static analysis ------------------------------------
p("C33", "FIND, CRITERIA and REPORT give the matching part of the graph",
  "A FIND returns every part of the graph that matches its pattern and criteria and nothing else, and REPORT shows the requested handles and properties of it.",
  ["inputs", "histories"], "every graph and every query",
  "The search itself is not written yet: there is nothing to test.",
  [FD, "wiggle_query_language/clauses/report/report.py"], [("unfinished search", FD)])

p("C34", "Concurrent sessions on one database do not lose updates",
  "Two shells that use the same database at the same time leave it as if their queries had been run one after the other.",
  ["schedules"], "every interleaving of the storage steps of two processes",
  "The tests run in one process.",
  [MK, DB, IH, WN], [("none: there is no locking", DB)])

p("C35", "A power cut during a write loses at most the query in progress",
  "If the machine stops in the middle of writing a file, the database can still be opened and holds everything stored by the queries that had finished.",
  ["crash_points", "fault_sequences"], "every byte at which a write can stop",
  "The tests never interrupt a write.",
  [DB, IH, WN], [("none: files are rewritten in place", DB)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
