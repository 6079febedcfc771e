"""Writes MANIFEST.json from the table of rules."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from wga.rules import TABLE  # noqa: E402

TECH = {
    "C01": "abstract interpretation of parse and MAKE from a symbolic query; number terms as loop variable plus offset, counted through nested loops by fixed point",
    "C02": "abstract interpretation of parse and MAKE; provenance of every stored label, key and property text; loop sources and their completeness",
    "C03": "abstract interpretation of parse and MAKE; provenance of names and ends, arrow texts as regular languages",
    "C04": "abstract interpretation of parse and MAKE; the sets written to the index compared with what is stored, case by case",
    "C05": "abstract interpretation of parse and MAKE; the index entries compared with the relationships stored, case by case",
    "C24": "provenance of time stamps (clock reads) in the document written by MAKE",
    "C25": "provenance of the first number given, failing outcomes and their file effects, state kept in the process",
    "C31": "order of the file effects on every path of MAKE",
    "C09": "abstract interpretation of parse and execution of every clause combination; exceptional outcomes with their file effects compared with the start",
    "C10": "abstract interpretation of parse and execution of every clause combination; kind of outcome against the table of accepted combinations",
    "C17": "effect and path analysis of query execution; provenance of the base of every document written",
    "C15": "abstract interpretation of FIND on an unknown statement and index file; the path conditions of every result of nothing against what must be absent from the indexes",
    "C16": "abstract interpretation of FIND parsing and processing, with and without criteria; dataflow from pattern groups to fields; marker automata for the place of each group in the pattern",
    "C27": "exception-escape analysis of query execution: class and text of everything that can leave it",
    "C13": "abstract interpretation of the property reader on unknown text, paths kept apart; automata inclusion between the language of each stored case and the language of its type",
    "C11": "abstract interpretation of parse on unknown text; what every accepted statement and pattern is known to match, as automata, against what it has to match; dataflow from every group to a use",
    "C12": "abstract interpretation of parse; the languages and sources of the statements taken from the query, counts of the statements of one kind, provenance across the semicolons",
    "C28": "abstract interpretation of parse and execution; the language of the keyword each stage accepts, compared between stages; case-dependent tests on the way",
    "C32": "abstract interpretation of parse and the prompt; automata intersection of what makes a statement, a refusal or a command with what can stand within a statement",
    "C14": "abstract interpretation of the property reader on unknown text; automata on quoted text and list text; dataflow from the quotes to the stored value",
    "C06": "abstract interpretation of the storage functions: symbolic file contents, document-shape domain, guard facts",
    "C07": "abstract interpretation of file handles (position/truncation typestate) and of the documents written",
    "C08": "effect analysis of exceptional paths: file state at every raise compared with the start",
    "C18": "path-sensitive effect analysis under the confirmation flag; document-shape domain",
    "C19": "abstract interpretation of the creation functions with path terms; file state at every end",
    "C20": "path-component analysis of every file effect; name conditions as regular languages (automata inclusion)",
    "C21": "abstract interpretation with symbolic directory listings; provenance of names, letters and paths",
    "C22": "exception-escape and effect analysis of the prompt loop; command conditions as regular languages",
    "C23": "effect analysis of all module bodies (import-time effects)",
    "C26": "abstract interpretation of the model constructors and validators on symbolic objects",
    "C29": "automata-based ambiguity (exponential-degree) analysis of every pattern",
    "C30": "abstract interpretation of the load functions; provenance of the value returned",
}
DEFAULT = "abstract interpretation (path-sensitive dataflow with symbolic documents, facts as automata, loops by fixed point)"
NOTE = ("Decided from the source of /repo at every run, no code of it is executed. Covers every path of the entry points from symbolic "
        "arguments; what the abstraction cannot express is reported as undecided (exit 0), listed in the evidence.")
NOT_APPLICABLE = {
    "C33": "The search and the report are not implemented in this repository (find.py computes no result set and report returns True): there is no code whose source could be shown to return exactly the matching part of the graph.",
    "C34": "Needs an order of the file operations of two processes; the program takes no lock and has no protocol that a static rule could find kept or broken, so any answer would be about a design that is not there.",
    "C35": "Depends on what the file system keeps of an unfinished write; the program writes in place and calls no sync, and nothing in the source bounds what is left on the disk.",
}


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in TABLE:
            checks.append({
                "property": p,
                "quick_cmd": f"python3 check.py {p}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                "technique": "static analysis: " + TECH.get(p, DEFAULT),
                "level": "other",
                "level_note": NOTE,
            })
    na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "Not claimed yet: its rules are being built.")} for p in props if p not in TABLE]
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
