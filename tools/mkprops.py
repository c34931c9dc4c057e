"""Writes properties.jsonl and MANIFEST.json (both committed) from one list."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "src/"
T = "src/translator/"


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=("Translator::translate", "Translator::translate_with_options"), hook=None, na=None):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over.split(), "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                            "observe_at": list(observe), "hook_needed": hook}), tech, note, na))


CONF = "TLA+ spec of the engine run by TLC on every recorded execution (conformance, both directions of the table)"
NOTE = ("Every observed translation is checked to be the behaviour the TLA+ specification gives to that table and input; tables and "
        "inputs are bounded samples (inputs exhaustive up to a small length). Trusts the rendering of rule records to table text.")
HOOK = "louis_verif: the rows applied in every stage (verif_trace); without it only outputs are compared"

prop("P01", "Translation is total: no table or text makes the library crash or hang",
     "Compiling any table text, in either direction, ends with a translator or with an error. Translating any text, with any emphasis spans and in either direction, with a translator that compiled ends with an output. No input makes the library panic, loop or exhaust memory.",
     "inputs programs configurations", "all table sources, directions, texts, emphasis spans",
     "Tests translate a few hundred hand written inputs; whether a loop that consults rules without width makes progress depends on combinations of rules and inputs.",
     [T + "table/primary.rs", T + "table/multipass.rs", S + "parser.rs", T + "regexp.rs"],
     [("zero-length rules are remembered per position", "src/translator/table/primary.rs trace"), ("parser returns errors", "src/parser.rs RuleParser")],
     "TLA+ session spec (compile, translate) validated against recorded sessions over generated and mutated tables; engine spec for progress invariants",
     "Panics, aborts and hangs of the real code are observations that no behaviour of the specification contains. Progress of the engine is an invariant of the engine specification.")
prop("P02", "Translation is a pure function of table, direction, text and options",
     "The same table, direction, text and options always give the same output: for every translator built from that table, whatever was translated before with it, from whatever thread. Nothing a translation does changes later translations.",
     "histories schedules configurations", "all histories of calls on any number of translators and threads",
     "A test calls a fresh translator once. Order of hash maps differs between translators and state kept between calls shows only in histories.",
     [T + "table/primary.rs", T + "trie.rs", T + "pipeline.rs", T + "table/multipass.rs"],
     [("compiled tables are immutable", "src/translator/pipeline.rs TranslationPipeline"), ("candidates are ordered before one is chosen", "src/translator/table/primary.rs trace")],
     "TLA+ session spec: recorded histories of several translators and threads must be explained by one function; results also conform with the engine spec",
     "Histories interleave copies of translators, repeated inputs, threads and processes.")
prop("P03", "A trace explains the output: rows partition the input and build the output",
     "In every stage the applied translations, in order, consume the input of that stage from beginning to end without gap or overlap, and their outputs concatenated are the input of the next stage or the final output. Every row names the rule that produced it, and that rule is one the specification of the table selects there. Tracing a text shows the same result as translating it.",
     "inputs programs", "all tables, texts, directions",
     "Tests compare final strings; a row that is attributed to another rule, dropped or consumed twice often leaves the output of the tested words unchanged.",
     [T + "table/primary.rs", T + "table/multipass.rs", T + "pipeline.rs", T + "translation.rs"],
     [("translation loop", "src/translator/table/primary.rs trace"), ("stages are chained", "src/translator/pipeline.rs trace_with_options")],
     "TLC checks recorded traces row by row against the engine spec; Segmentation and CompleteAtEnd are invariants of every step",
     "The recorded rows (input, output, line of the rule) of every stage equal the rows of the specification.",
     observe=("TranslationPipeline::trace_with_options", "louis trace"), hook=HOOK)
prop("P04", "The longest applicable rule wins",
     "At every position of a text, among all rules that apply there, the one that matches the most of the text is used (a word boundary a rule asks for counts like a character), whatever the order of the rules in the table. A longer rule that does not apply in its context never hides a shorter one that does.",
     "inputs programs", "all sets of overlapping rules and all texts",
     "Tests have a handful of overlapping rules; which candidate wins depends on all subsets of rules and contexts.",
     [T + "table/primary.rs", T + "trie.rs"], [("candidates sorted by weight", "src/translator/table/primary.rs trace"), ("all prefixes are collected", "src/translator/trie.rs find_translations")],
     CONF, NOTE, hook=HOOK)
prop("P05", "Precedence among equally long rules: kind first, then the first definition",
     "When several rules of the same length apply at a position, the choice follows the precedence of the kinds of rules and among equals the rule that stands first in the table. A character that is defined twice keeps its first definition in each direction.",
     "inputs programs", "all tables with competing rules and all orders of their lines",
     "Orders of lines are permutations; tests fix one order.",
     [S + "parser.rs", T + "table/primary.rs", T + "trie.rs"], [("precedence of a rule", "src/parser.rs HasPrecedence"), ("first rule is kept", "src/translator/trie.rs insert")],
     CONF, NOTE, hook=HOOK)
prop("P06", "Word position rules apply exactly in their position",
     "A rule for whole words, word beginnings, middles, ends, prefixes, suffixes, parts of words, or words beside punctuation or numbers is used only where its characters stand in that position of the text, and it is always eligible there. Beginning and end of the text count as boundaries.",
     "inputs programs", "all opcodes with positions, all texts around them",
     "Every opcode has a few examples in the tests; the combinations of neighbours (letters, digits, punctuation, spaces, undefined characters, text ends) are not enumerated.",
     [T + "trie.rs", T + "table/primary.rs"], [("boundaries of a rule", "src/translator/table/primary.rs compile"), ("boundary test", "src/translator/trie.rs find_translations_from_node")],
     CONF, NOTE, hook=HOOK)
prop("P07", "Before and after constraints restrict a rule to its neighbours",
     "A rule written with before or after conditions on character classes is used exactly where the character in front of or behind its text belongs to one of the named classes. The beginning and end of the text satisfy only a condition on spaces, and classes a table defines itself work like the predefined ones.",
     "inputs programs", "all class definitions, constraints, texts",
     "Tests have single examples; classes are defined by many rules whose order and kind matter.",
     [T + "trie.rs", T + "table/primary.rs", T + "table.rs"], [("classes are resolved", "src/translator/table/primary.rs resolve_class_constraints"), ("classes of characters", "src/translator/table.rs compile")],
     CONF, NOTE, hook=HOOK)
prop("P08", "A rule marked for one direction has no effect on the other",
     "A rule marked nofor never influences a forward translation and a rule marked noback never a backward one. In the direction it is meant for, it works as without the mark.",
     "inputs programs configurations", "all opcodes that take the marks, both directions",
     "Each opcode handles the marks on its own; tests cover few of them and only outputs where they matter.",
     [S + "parser.rs", T + "pipeline.rs", T + "table.rs"], [("filter by direction", "src/translator/pipeline.rs compile"), ("directions of a rule", "src/parser.rs HasDirection")],
     CONF, NOTE, hook=HOOK)
prop("P09", "Upper case text is translated like lower case text",
     "A translation rule (other than character definitions and patterns) whose characters are lower case applies to a text whatever the case of its letters, and an upper case letter without a definition of its own is translated like the letter it is based on. Length and alignment of the text do not matter, nor do letters whose other case is a different number of characters.",
     "inputs programs", "all case variants of all texts over defined and undefined characters",
     "Tests use ASCII words; positions shift when lower casing changes the length of a text.",
     [T + "trie.rs", T + "regexp.rs", T + "table/primary.rs"], [("case folding in the trie", "src/translator/trie.rs char_transition"), ("base rules", "src/translator/table/primary.rs compile")],
     CONF, NOTE, hook=HOOK)
prop("P10", "Numbers are announced once and are translated without contractions",
     "In a forward translation every maximal number is preceded by exactly one number sign, characters that are allowed inside a number do not end it, and a letter that could be read as a digit after a number is preceded by the sign that ends numeric mode. Inside a number no contraction is used, whatever prefixes the rule has.",
     "inputs programs", "all digit, letter and punctuation sequences and numeric settings",
     "Numeric mode is a state machine over the text; tests walk few of its paths.",
     [T + "indication/numeric.rs", T + "position_constraints.rs", T + "table/primary.rs"], [("numeric indicator", "src/translator/indication/numeric.rs"), ("numeric constraint", "src/translator/position_constraints.rs NumericConstrainer")],
     CONF, NOTE, hook=HOOK)
prop("P11", "Capital letters are marked by the indicators the table defines",
     "Every capital letter of a text is announced: single letters by the letter indicator, capitalised words by the word indicators and runs of capitalised words by the phrase indicators, in so far as the table defines them and the run is long enough. An indicator that opens is closed where the table defines how, and text without capitals gets no indicator.",
     "inputs programs", "all texts of mixed case, all subsets of indicator rules",
     "The indicators interact: which one is used depends on the whole surrounding text and on which others are defined (2^7 subsets).",
     [T + "indication/uppercase.rs", T + "indication.rs"], [("uppercase indicator", "src/translator/indication/uppercase.rs")],
     CONF, NOTE, hook=HOOK)
prop("P12", "Emphasis is marked by the indicators of its class, in nesting order",
     "Emphasis given by the caller is announced by the indicators the table defines for its class: letters, words, phrases of at least the configured length, or passages. Indicators of several classes open and close in a fixed order, each opened indicator is closed where the table says how, and emphasis of a class without indicators has no effect.",
     "inputs programs", "all span sets over all texts, all subsets of indicator rules",
     "Spans are intervals: partial words, punctuation, several classes and coinciding ends give a combinatorial space.",
     [T + "indication/emphasis.rs", S + "emphasis.rs", T + "indication.rs"], [("emphasis indicator", "src/translator/indication/emphasis.rs")],
     CONF, NOTE, hook=HOOK)
prop("P13", "Single letters and contraction look-alikes get their sign",
     "A letter that no letter follows and that neither a space nor a letter precedes gets the letter sign, and a word that could be read as a contraction by the sign against contraction, except where the table exempts the letter or its neighbours. No other text gets one of these signs.",
     "inputs programs", "all texts with single letters beside any other character",
     "Exemptions depend on characters before and behind; tests have single words.",
     [T + "indication/lettersign.rs", T + "indication/nocontract.rs"], [("letter sign", "src/translator/indication/lettersign.rs"), ("no contraction sign", "src/translator/indication/nocontract.rs")],
     CONF, NOTE, hook=HOOK)
prop("P14", "Computer braille covers exactly the words that ask for it",
     "A blank delimited word that contains a trigger, and every span marked as computer braille by the caller, is translated with the computer braille definitions, letter by letter, between the begin and end indicators. Text outside is translated as usual.",
     "inputs programs", "all texts with and around triggers, all spans",
     "Adjacent and overlapping triggers, ends of text and spans have no tests of all combinations.",
     [T + "indication/computer_braille.rs", T + "table/primary.rs", T + "position_constraints.rs"], [("computer braille spans", "src/translator/table/primary.rs enrich"), ("indicator", "src/translator/indication/computer_braille.rs")],
     CONF, NOTE, hook=HOOK)
prop("P15", "A contraction marked nocross never crosses a syllable break",
     "A contraction marked nocross is used only where all its characters belong to one syllable of the word, as the hyphenation dictionary of the table divides it. Where it is not used the text is translated as if the rule were not there, and rules without the mark ignore syllables.",
     "inputs programs", "all dictionaries, words and contractions",
     "Two dictionaries and a few words are tested; break positions are the result of overlapping weighted patterns.",
     [S + "hyphenation.rs", T + "position_constraints.rs", T + "table/primary.rs"], [("hyphenation", "src/hyphenation.rs"), ("candidates without crossing", "src/translator/table/primary.rs nocross_candidates")],
     CONF, NOTE, hook=HOOK)
prop("P16", "Punctuation rules depend on what the punctuation is attached to",
     "In a forward translation a rule for punctuation before (or behind) a word is used exactly for punctuation that, past further punctuation, is attached to a word or number on that side and is not attached to a letter on the other. Otherwise the ordinary definition of the character is used.",
     "inputs programs", "all runs of punctuation between words, numbers and blanks",
     "Tests have two examples; runs of punctuation are scanned over any distance.",
     [T + "position_constraints.rs", T + "table/primary.rs"], [("punctuation constraint", "src/translator/position_constraints.rs"), ("candidates are filtered", "src/translator/table/primary.rs translation_candidates")],
     CONF, NOTE, hook=HOOK)
prop("P17", "Match rules apply exactly where both their patterns match",
     "A match rule is used at a position exactly if its text stands there, the pattern in front matches what precedes and the pattern behind matches what follows. Patterns are regular expressions over characters, classes and text ends with repetition, alternatives and negation.",
     "inputs programs", "all patterns and texts",
     "Patterns are a language; tests contain a few dozen of its words.",
     [T + "match_pattern.rs", S + "parser/match_rule.rs", T + "regexp.rs"], [("pattern parser", "src/parser/match_rule.rs"), ("automaton", "src/translator/regexp.rs")],
     CONF, NOTE, hook=HOOK)
prop("P18", "Context rules: test, replacement and variables",
     "A context rule is used exactly where its test matches: strings, attributes and classes with repetition, negation, text ends, looking back and conditions on variables. What stands between the brackets (or all that matched) is replaced by what the action says: dots, copied text, nothing, swapped characters; variables keep what actions assigned for the rest of the translation and begin at zero.",
     "inputs programs histories", "all tests, actions, texts",
     "Tests and actions are a language with state (variables); unit tests have a few rules each with one text.",
     [T + "context_pattern.rs", S + "parser/multipass/test.rs", S + "parser/multipass/action.rs", T + "effect.rs", T + "swap.rs", T + "table/primary.rs"],
     [("context pattern", "src/translator/context_pattern.rs"), ("effects", "src/translator/effect.rs")], CONF, NOTE, hook=HOOK,
     state=[("environment", "values of the variables", "src/translator/effect.rs")])
prop("P19", "Correction and passes run in order, each on the output of the one before",
     "Forward, the correction rules rewrite the text, then the main translation applies, then the second, third and fourth pass rewrite the braille; backward the stages run in reverse order. Each stage sees exactly the output of the stage before it, works from left to right without rewriting its own output, and leaves unmatched characters alone.",
     "inputs programs", "all multi stage tables and texts",
     "Stages compose; tests exercise one or two at a time on a few strings.",
     [T + "pipeline.rs", T + "table/multipass.rs", T + "context_pattern.rs", T + "swap.rs"], [("pipeline", "src/translator/pipeline.rs compile"), ("stage", "src/translator/table/multipass.rs trace")],
     CONF, NOTE, hook=HOOK)
prop("P20", "Characters without definition are shown, never lost",
     "A character the table does not define is translated to the dots the table gives for undefined characters, or else to the braille for its code point in hexadecimal, so that it can be told apart from every other character. The characters around it are translated as usual.",
     "inputs programs", "all Unicode characters, all tables",
     "Tests try one emoji.", [T + "table/primary.rs", T + "table.rs"], [("undefined characters", "src/translator/table/primary.rs handle_undefined_char")],
     CONF, NOTE, hook=HOOK)
prop("P21", "Backward translation reads capital and number indicators",
     "Backward, an indicator for capital letters is removed and the letter, or all letters of the word, become upper case; a number sign is removed and the cells that follow are read as digits until the number ends. Cells that are also the translation of something else are read as the table's precedence says.",
     "inputs programs", "all sequences of cells, all indicator rules",
     "Cells are shared between letters, digits, contractions and indicators; tests decode a few words.",
     [T + "table/primary.rs", T + "position_constraints.rs"], [("backward indicators", "src/translator/table/primary.rs insert_backward_indicator"), ("constraints", "src/translator/position_constraints.rs")],
     CONF, NOTE, hook=HOOK)
prop("P22", "Translating forward and backward returns the text",
     "With a table in which every character and contraction has cells that begin like no other and indicators have cells of their own, translating a text to braille and the braille back returns the text. This holds with contractions of any length, with capital letters announced by the letter indicator (not inside a contraction), with numbers announced by the number sign (also when digits have the cells of letters and another sign ends the number) and with passes that undo each other.",
     "inputs programs", "all uniquely decodable tables, all texts over their characters",
     "Round trips are a relation between two compiled tables; the tests check the directions separately.",
     [T + "table/primary.rs", T + "pipeline.rs", T + "trie.rs"], [("table compiled in both directions", "src/translator/table/primary.rs compile")],
     "TLA+ engine spec with the round-trip as an invariant over behaviours forward then backward; recorded round trips conform", NOTE)

LIB = "TLA+ spec checked by TLC; recorded behaviours of the real code validated against it"
prop("P23", "Including a file has the effect of writing its contents in place",
     "A table that includes other files, directly or over several levels, means the same as the table with every include line replaced by the contents of the file. Files are found in the directories of the search path, the first directory that has the file wins, and a file may be included several times.",
     "configurations inputs", "all include graphs and search paths",
     "Tests have four include graphs.", [S + "parser.rs"], [("expansion", "src/parser.rs table_expanded")], LIB,
     "File trees are generated, expanded by the specification and by the real code; bounded number of files and depth.", observe=("Translator::new", "louis parse"))
prop("P24", "Errors in tables are all reported, each with its file and line",
     "A table with errors never yields a translator. All erroneous lines of the table, or if it has none those of all the files it includes (and so on), are reported with file and line number, and no correct line is. Missing files, hyphenation dictionaries with an error (with its line), and files that include themselves are reported; none is passed over or followed without end.",
     "configurations inputs", "all tables and include graphs with any set of erroneous lines",
     "Tests have one error at a time.", [S + "parser.rs"], [("collecting errors", "src/parser.rs table"), ("cycles and depth", "src/parser.rs table_expanded_with")], LIB,
     "File trees with erroneous lines at generated places; the set of reports is compared.", observe=("louis parse", "Translator::new"))
prop("P25", "Operands are read as the notation says",
     "Characters and escapes, dots and sequences of cells, names, numbers, prefixes, and the little languages of match patterns and of the tests and actions of multipass rules denote what the notation says, in every rule that takes them. Any other line is reported as an error, with its number, and no other line is. Comments, empty lines and surrounding blanks have no effect.",
     "inputs programs", "all texts of tables",
     "The notation is a language with several languages inside; the tests have a few examples per parser, and a line that is read as something else still compiles.",
     [S + "parser.rs", S + "parser/braille.rs", S + "parser/match_rule.rs", S + "parser/multipass/test.rs", S + "parser/multipass/action.rs"],
     [("dots", "src/parser/braille.rs"), ("escapes", "src/parser.rs unescape"), ("lines and rules", "src/parser.rs rule"), ("patterns", "src/parser/match_rule.rs"), ("multipass operands", "src/parser/multipass/")],
     "TLA+ spec of the notation (LouisParse.tla) that reads the text of tables itself: TLC compares the lines it refuses with the errors reported and the translations of the rules it read with those observed",
     "The specification gets the text of the table, not rule records. Short operands are enumerated, valid tables are spelled in odd ways and mutated; meanings are observed through translations in both directions.",
     observe=("Translator::new", "Translator::translate", "louis parse"))
prop("P26", "The test runner counts every test once and classifies it correctly",
     "Every test of a document is run once with the tables, direction and mode in force at that point, after the display table is applied, and is counted as success, failure, expected failure or unexpected success exactly according to its result and whether it is marked as failing. The totals of the summary add up.",
     "inputs configurations", "all documents of tables, flags and tests",
     "The runner is itself not under test; its state (tables, flags, modes) changes along the document.", [S + "yaml.rs", S + "test.rs", S + "main.rs"], [("document parser", "src/yaml.rs"), ("classification", "src/test.rs")], LIB,
     "Documents are behaviours of the specification; the printed summary and results are compared.", observe=("louis check",),
     state=[("tables, display, flags", "what is in force", "src/yaml.rs")])
prop("P27", "A display table maps cells to characters one by one",
     "After a forward translation each cell is shown as the character the first display rule for it gives, before a backward translation each character is read as the cell of the first display rule for it, and everything without a rule is left alone. Length and order of the text do not change.",
     "inputs configurations", "all display tables and texts",
     "Tests display one letter.", [S + "translator.rs", S + "test.rs"], [("display table", "src/translator.rs DisplayTable")], LIB,
     "Display tables with repeated cells and characters are observed through the test runner.", observe=("louis check",))
prop("P28", "A metadata query finds exactly the tables that carry all the values asked for",
     "A query returns a table if and only if the file is in a directory of the search path and has, for every pair asked for, a metadata line with that key and value. Keys are ASCII letters and digits and values printable ASCII characters without blanks; the order of the pairs and of the lines does not matter.",
     "inputs configurations", "all directories of tables with metadata, all queries",
     "There is no test of the query.", [S + "metadata.rs", S + "main.rs"], [("index", "src/metadata.rs index"), ("intersection", "src/metadata.rs find")], LIB,
     "Directories and queries are generated within small bounds.", observe=("louis query",))
prop("P29", "Command line and library agree",
     "The command line program prints for every table, text and direction the translation the library gives, and the trace it prints has one line for every applied rule in order, with its input, output and rule. A table that cannot be used gives a message and no translation.",
     "inputs programs", "all tables, texts, directions",
     "The program has no tests.", [S + "main.rs", S + "parser.rs"], [("commands", "src/main.rs")], LIB,
     "Output of the program is parsed and compared with the rows of the specification.", observe=("louis translate", "louis trace"))


def main():
    claimed = set(json.load(open(os.path.join(ROOT, "tools", "claimed.json"))))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 /verif/check.py setup",
           "hooks": {"guard": "louis_verif (rustc cfg)", "enable": "RUSTFLAGS='--cfg louis_verif' cargo build in /verif/harness (path dependency on /repo)",
                     "source_commits": ["6376b5d"]},
           "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": tech, "level": "model_checking", "level_note": note}
                      for p, tech, note, na in P if p["id"] in claimed],
           "not_applicable": [{"property": p["id"], "reason": na or "no check yet"} for p, tech, note, na in P if p["id"] not in claimed],
           "notes": "Generated by tools/mkprops.py. Known findings and repaired defects: known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
