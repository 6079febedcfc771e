Q = "`parse_query_string`, `execute_query` and everything under them, from an unknown query text and unknown (well-formed or not) file contents"
M = "the parser of MAKE on an unknown text, then `make()` on what it returns, with unknown database, index and counter files"
F = "the parser of FIND on an unknown text, `process_parsed_find` with and without criteria"
PROSE = {
"C01": (M + ".", "Numbers are terms *counter at the start of the pattern + offset*; in each case of the loops over statements and patterns the offsets must differ from each other and be below the step of the counter in that case. The counter written is the one after the last pattern.", "Any number of statements and patterns; one process.", "The step depends on which of five parts each of any number of patterns has; collisions need an earlier pattern that under-counts."),
"C02": (M + ".", "The document written, case by case, against the groups of the pattern regex: one entry for each node the pattern has, its label and property text from its own groups. The regex itself is checked for groups that could take another part's text.", "As C01. What the property text is turned into is C13 and C14.", "Two cooperating sites (the parser's groups, the preparation) decide this for every shape of pattern."),
"C03": (M + ".", "Entries for relationships, their ends as number terms, against the language of arrow texts on the path (an arrow text with `<` points left).", "As C01.", "White space, extra dashes and both directions in any combination."),
"C04": (M + ".", "The set terms given to the index functions, and those functions' documents, against the labels and names stored.", "As C01.", "Completeness must hold over all earlier states of the index file."),
"C05": (M + ".", "The entries given to the index and the document written, against the relationships stored, under the key they are stored under.", "As C01.", "As C04."),
"C06": ("`add_item_to_database` with an unknown database and unknown items.", "The document written = loaded document + every given item; the paths that get there exclude a number that is there already.", "None on the sizes.", "Collisions depend on what is stored."),
"C07": ("All functions that write a file, on unknown contents.", "File model with position and truncation: at every normal end the content is exactly one document; parts the operation is not about are those read.", "None on the contents.", "A shorter document over a longer one, a second document appended: need particular lengths."),
"C08": ("The storage functions, with every modelled operation that can fail failing (unserialisable items, unreadable documents, missing parts).", "At every raise the file terms equal those at the start.", "Failures of the operating system within one write are not modelled (C35).", "Every failing point, not those a test provokes."),
"C09": (Q + ".", "Every exceptional end is classified by what it depends on: the query's text, or the content of files (counter not a number, node already there…). For the first kind no file may have changed.", "Failures of the operating system are not *rejections*.", "A check placed after a write is harmless until a query fails in that check only."),
"C10": (Q + ".", "Table of clause combinations (MAKE, FIND, REPORT present or absent) against kind of outcome.", "CRITERIA, ADJUST and USING are not parsed by the code and take no part.", "All combinations with all contents."),
"C11": ("`parse_query_string` on an unknown text.", "What is known, on every accepting path, of each statement, each pattern and each relationship (facts that hold *for all* matches of a regex, with sources), against what must be true of it, as automata; the text left over when patterns are taken out.", "*Even braces* is claimed as the code checks it (parity per piece). Oddities within property text that drop nothing (C13) are not claimed. One known finding (FIND with several patterns).", "*Applied to all of them* is what a loop that leaves early breaks, for some order of good and bad statements only."),
"C12": ("As C11.", "Languages of the statement regexes (no `;` before the end; every layout of a grammar of well-formed statements included), the text they are searched in, the number of statements of one kind on accepting paths.", "The grammar of well-formed statements in `parse.py: valid` is the oracle.", "Layouts are unbounded."),
"C13": ("`get_property_dict` on an unknown text, paths kept apart (no joins).", "For each path that stores a value of a type: the language of the value's text on that path is included in how the type is written; alternatives of the regex that would take a beginning of another value are found by prefix comparison; what lies between matches.", "Integers of more than 4300 digits (refused by Python itself) and digits of other scripts are as Python has them.", "Value texts are unbounded; overlaps between alternatives show on odd texts only."),
"C14": ("As C13.", "The chain of operations from the matched text to the stored value; each must leave every text that can get there alone, apart from the outer quotes and white space. Lists: their text goes to `literal_eval` whole, with replacements outside quotes only.", "As C13.", "As C13."),
"C15": (F + ", `find()` with an unknown index file.", "The path condition of every result of nothing: it must imply that each label, or each asked-for name, is not in the right part of the index.", "No search is implemented, so nothing is claimed about results.", "Wrong short circuits need particular index contents."),
"C16": (F + ".", "Fields of the prepared FIND against the groups of the pattern; directions by arrow languages; criteria by handle.", "FIND of one pattern (see the known finding).", "All shapes, with and without criteria for each handle."),
"C17": (Q + ".", "Path terms of every effect; the base of each document written; a second query after an arbitrary first one with module state unknown.", "Logging is no file operation here.", "Leaks between databases and sessions need histories."),
"C18": ("The wiping functions with an unknown flag.", "Effects under *flag is not True*: none. Under True: exactly the named part becomes empty.", "None.", "All values of the flag, all contents."),
"C19": ("The functions that create a database and look up its files, unknown name, unknown folder.", "Existence of each path is a symbolic fact; every end with a file existing before must raise and leave it.", "Races with other processes are C34.", "Each file may be there or not, in any combination."),
"C20": ("Every function that takes a name and returns a path or has an effect on one; deletion included.", "Path terms are split in components; the name's language on that path must be within single, ordinary components; patterns for globbing must be literal.", "Symbolic links are not modelled.", "Names are unbounded."),
"C21": ("Listing and selection with symbolic directory listings and unknown answers.", "Provenance of names, letters and paths; sources complete; no escaping exception.", "None on the number of folders.", "More than 26 folders, odd folder names, answers of every kind."),
"C22": ("`start_wiggle_shell` with unknown lines and a `query()` that can raise anything.", "Exceptions out of the loop; the language of lines that do not get to `query()`.", "`KeyboardInterrupt` and the end of the input are the user's leaving.", "Lines are unbounded."),
"C23": ("The body of every module, and what it calls.", "Effects while importing: none on files but reading of the source's own resources, no prompt, no query.", "None.", "Tests import the modules in one order from one place."),
"C24": (M + ".", "The creation time is a clock read made in the query, one per item.", "The clock is trusted to be the clock.", "A default evaluated once shows only when time passes between."),
"C25": (M + ", and `get_current_wiggle_number`.", "The first number is `int` of the whole text; failing paths have no effects; no state of the process is used.", "None on the text.", "Texts of every kind."),
"C26": ("Constructors and validators of Relationship, Node and ParsedPattern on symbolic fields.", "Path conditions of refusal and acceptance compared with the rule, in both directions.", "None on the number of relationships.", "All combinations of ends and handles."),
"C27": (Q + ".", "Exception-escape: the class of everything that can leave `query()` on paths that depend on the query's text; the text of those errors.", "Recursion and memory errors are not modelled.", "Any text; tests expect the errors they know of."),
"C28": (Q + ".", "Determinised languages of regexes and conditions are compared after each spelling of the keyword: the rest must be the same language.", "The keyword's own letters in ASCII.", "2^n spellings at every stage."),
"C29": ("All patterns reachable from `parse_query_string`, with their flags.", "Exponential degree of ambiguity of the automaton (two different loops over one text at one state).", "Polynomial growth is not claimed; lookarounds are approximated.", "Catastrophic texts are not found by sampling."),
"C30": ("The load functions on unknown files; load, change, load.", "The value returned is the document's part, converted key by key.", "What a file that is not well-formed gives is C07, C08 and C25.", "All contents."),
"C31": (M + ".", "Order of effects on each path: at the first effect on the database file the counter and index files have their final content.", "Interruption between file operations; not within one (C35).", "Crash points."),
"C32": (Q + ", and the shell.", "Intersections of the language of well-formed statements with: what begins another statement, what is refused, what is a command. Every condition on a part of a statement is compared on clause words, rearrangements and their neighbours at one letter's distance.", "The six clause words, in four spellings and two rearrangements each, in twelve contexts.", "Names and values are unbounded."),
}
