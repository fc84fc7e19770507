import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state:a["state"]=state
    if obs:a["observe_at"]=[obs]
    if hook is not None:a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="src/translator/"
p("C01","Loading any table text ends with a translator or a list of errors",
"Loading a braille table, from text in memory or from files, for either direction, always ends: it yields a usable translator or a non-empty list of errors. It never panics, overflows the stack, hangs or aborts, however malformed or deeply nested the table is.",
["inputs"],"all table texts (valid UTF-8 of any content, up to 64 kB with lines up to 4096 characters) and both directions",
"Unit tests load a few dozen hand-written lines; a crash needs an operand, nesting or combination of opcodes nobody wrote down.",
["src/parser.rs","src/parser/match_rule.rs","src/parser/multipass/test.rs","src/parser/multipass/action.rs","src/parser/braille.rs","src/hyphenation.rs",T+"table.rs",T+"table/primary.rs",T+"regexp.rs"],
"line parser, operand parsers and the compilation of rules into tries and regular expressions",obs="Translator::from_table_source, Translator::new")
p("C02","Translating any text ends, without a crash and with bounded output",
"Translating any text with any table that loads ends and returns a result, in both directions and with any emphasis spans, modes and cursor position. It never panics, never loops forever and never produces output that grows without bound relative to the size of the text and the table; the empty text gives an empty result unless a rule inserts text at the beginning of the input.",
["inputs","configurations"],"all loadable tables, all Unicode texts, all option values, both directions",
"Termination and absence of panics depend on combinations of zero-length rules, delayed rules, indicators and odd characters that a sampled test never combines.",
[T+"table/primary.rs",T+"table/multipass.rs",T+"regexp.rs",T+"indication.rs",T+"position_constraints.rs",T+"indication/emphasis.rs",T+"indication/computer_braille.rs"],
"translation loop with zero-length guard, delayed translations, precomputed indications and constraints",obs="Translator::translate_with_options")
p("C03","The same table, text and options always give the same translation",
"A translation depends only on the table, the direction, the text and the options. Repeating it, on the same translator after any history of other translations, on another translator loaded from the same table, in another process, or concurrently from several threads sharing one translator, gives exactly the same output and the same applied rules.",
["histories","schedules","inputs"],"all tables, texts and options; all histories of earlier translations; all interleavings of threads sharing a translator; all hash seeds of a process",
"A test runs once per process, in one thread, on a fresh translator, so it sees one hash seed, one interleaving and no history.",
[T+"trie.rs",T+"table/primary.rs",T+"pipeline.rs",T+"regexp.rs","src/parser/character_class.rs"],
"selection among equally good rules, per-call variable environment, immutable compiled tables",obs="Translator::translate, louis translate")
p("C04","Every stage accounts for the whole text, and the stages are chained in order",
"The pieces recorded by a translation trace cover the text exactly: concatenating what the pieces of a stage consumed gives the text that entered the stage (up to letter case), and concatenating what they produced gives the text that enters the next stage. Forward translation runs correct, main, pass2, pass3, pass4 in this order and backward translation the reverse, a stage other than main is present only if the table has rules for it, and the last stage produces what translating returns.",
["inputs","programs"],"all tables with any subset of stages, all texts, both directions",
"Dropping or duplicating a character, or swapping two stages, shows only for particular overlaps of rules with the end of the text, zero-length or delayed rules.",
[T+"pipeline.rs",T+"table/primary.rs",T+"table/multipass.rs",T+"translation.rs"],
"the loop of each stage advances by the length of the applied translation; the pipeline feeds the output of a stage to the next",obs="trace of a translation (louis trace)",hook="structured trace of every stage (cfg louis_verif)")
p("C05","Position maps stay aligned with the translated pieces",
"For every trace of a stage, the map from input to output positions has one entry per consumed character and the reverse map one entry per produced character. Both are non-decreasing, and an entry of a piece that both consumes and produces text points into the counterpart of the same piece.",
["inputs"],"all traces of all stages: any sequence of pieces with any consumed and produced lengths including zero",
"Tests fix a few length combinations; off-by-one errors need particular mixes of empty, shrinking and growing pieces.",
["src/lib.rs"],"accumulated offsets of consumed and produced lengths",obs="compute_output_positions, compute_input_positions",hook="structured trace of every stage (cfg louis_verif)")
p("C06","Of all rules that apply at a position the longest one is used",
"At every position of the text the rule that is applied is one whose characters (ignoring case of the text) match there, whose word, number and class boundaries are satisfied by the neighbouring characters, and which no other applicable rule exceeds in number of matched characters plus boundary conditions. Between rules with the same characters and the same boundary conditions the opcode with the higher precedence is used and otherwise the one defined first; a word boundary is a space, a punctuation character or an end of the text.",
["inputs","programs"],"all tables built from the translation opcodes (always, word, begword, sufword, midword, midendword, endword, begmidword, prfword, partword, joinword, lowword, contraction, syllable, largesign, begnum, midnum, endnum, prepunc, postpunc with before/after class conditions) and all texts",
"The space of overlapping rule sets is combinatorial; tests check single opcodes on single words.",
[T+"trie.rs",T+"table/primary.rs","src/parser.rs"],
"prefix tree with boundary transitions, weight based selection of the candidate",obs="Translator::translate, louis trace")
p("C07","Characters without a longer rule are translated by their definition",
"A character for which no longer rule applies is translated by its own definition, in which the first definition wins and upper and lower case are distinct; a base rule gives the derived character the cells of its base and membership in the named class. A character without definition gives the undefined cells if the table has them and otherwise the translation of its hexadecimal escape, and '=' as dots operand stands for the cells of the characters of the rule.",
["inputs","programs"],"all tables of character definition opcodes, all Unicode characters",
"Which definition wins depends on the whole table; tests use tiny tables and ASCII.",
[T+"table.rs",T+"table/primary.rs","src/translator.rs","src/parser.rs"],
"character definitions, classes, fallback for undefined characters",obs="Translator::translate")
p("C08","match rules apply exactly where their surroundings match",
"A match rule is used at a position only if the text before it ends with a match of the pre pattern, its characters stand there (ignoring case of the text), and a match of the post pattern follows; patterns mean what regular expressions with greedy leftmost-first choice mean. The rule competes with the other rules with the total length of pre pattern, characters and post pattern matched, and only its characters are consumed.",
["inputs","programs"],"all match rules (sets, attributes, groups, alternatives, negations, quantifiers, boundaries) and all texts; a pre pattern is tried from the positions where the translation stops, so text consumed by an earlier rule is not seen by it",
"Regular expressions have unbounded combinations of operators and inputs; tests use a few patterns each on few strings.",
["src/parser/match_rule.rs",T+"match_pattern.rs",T+"regexp.rs",T+"table/primary.rs"],
"compilation to a virtual machine with prioritised threads; delayed application after the pre pattern",obs="Translator::translate")
p("C09","correct, context and pass rules rewrite exactly what their test selects",
"A correct, context or pass rule applies at a position only if its whole test matches there, it replaces exactly the bracketed part of the test (or all of it without brackets) by the result of its action, and text matched outside of the brackets is kept. Among the rules that match the one with the longest matched test is used, text that no rule matches passes through the correct and pass stages unchanged, and an insertion (empty brackets) happens at most once per position and rule.",
["inputs","programs"],"all test and action operands (strings, dots, attributes, classes, quantifiers, negation, begin and end anchors, brackets) and all texts",
"The test language is recursive and position dependent; tests cover single instructions.",
["src/parser/multipass/test.rs","src/parser/multipass/action.rs",T+"context_pattern.rs",T+"regexp.rs",T+"table/multipass.rs",T+"table/primary.rs"],
"tests compiled to regular expressions with a capture, actions resolved against the captured text",obs="Translator::translate")
p("C10","Variables and swap classes carry state and text as written",
"An assignment, increment or decrement in the action of an applied rule changes its variable (0 to 255, an unassigned one counts from 0) for the rest of that stage of that one translation and nothing else changes a variable; a comparison in a test matches exactly when the variable was assigned and the comparison holds, so every translation starts without assigned variables. A swap action replaces every character of the selected text that the swap class maps by the corresponding entry and keeps the others.",
["inputs","histories"],"all sequences of assignments and comparisons over variables 0 to 255, all swap classes and texts, all histories of earlier translations",
"State carried along a text and reset between translations needs sequences of rule applications that tests do not enumerate.",
[T+"effect.rs",T+"swap.rs",T+"context_pattern.rs",T+"regexp.rs",T+"table.rs",T+"table/multipass.rs"],
"environment of a stage, effects of applied translations, swap mapping",obs="Translator::translate")
p("C11","Numbers get exactly the number indicators the table asks for",
"In forward translation the number sign is inserted before every run of literary digits whose first digit is not inside of a longer rule, once per numeric run: characters declared to continue a number keep the run alive between digits, and nothing else does. Where a run is followed by a character that could be misread as part of the number the no-number sign is inserted, and inside a run contractions longer than one character are not used.",
["inputs","programs"],"all tables with number sign opcodes and numeric mode character lists, all texts mixing digits, letters, separators and punctuation",
"Whether a run continues depends on the characters on both sides; tests fix a few strings.",
[T+"indication/numeric.rs",T+"position_constraints.rs",T+"table/primary.rs"],
"state machine over the text that precomputes indicators and constraints",obs="Translator::translate")
p("C12","Capitals get exactly the capital indicators the table asks for",
"In forward translation every maximal run of capitals is marked by the indicator for a letter, a word or a passage that the table's opcodes and phrase length call for, begin and end indicators are inserted exactly at the boundaries of the run, and text without capitals gets no capital indicator. The indicators do not change how the characters themselves are translated.",
["inputs","programs"],"all tables with any subset of the capital indicator opcodes, all texts mixing upper case, lower case, digits, spaces and punctuation",
"Letter, word and passage decisions depend on whole runs across words; tests fix a few strings.",
[T+"indication/uppercase.rs",T+"table/primary.rs"],
"run analysis with word and passage tiers",obs="Translator::translate")
p("C13","Emphasis spans get exactly the emphasis indicators the table asks for",
"For every set of emphasis spans the translation contains the begin, word, letter, passage and end indicators of each class exactly where the spans, the word boundaries and the opcodes of the class put them, with nested begin and end indicators at one position in stack order. Spans of classes the table does not know, and spans outside of the text, change nothing, and removing the inserted indicators leaves the translation without emphasis.",
["inputs","configurations"],"all sets of spans (overlapping, nested, touching, empty, out of range), all subsets of emphasis opcodes for several classes, all texts",
"The number of span arrangements and opcode subsets is far beyond the fixed cases of the tests.",
[T+"indication/emphasis.rs",T+"indication.rs","src/emphasis.rs",T+"table/primary.rs"],
"per-class run analysis, ordering of events at the same position",obs="Translator::translate_with_options")
p("C14","Letter signs and no-contraction signs appear exactly where needed",
"In forward translation the letter sign precedes exactly those letters or contractions which the table says could be misread (isolated letters and letter sequences declared as contractions, next to spaces or the declared sequence delimiters), except where the table exempts them or a rule that began before consumes them. The no-contraction sign precedes exactly those words that stand for a declared contraction.",
["inputs","programs"],"all tables with letter sign, contraction, exemption and sequence delimiter opcodes, all texts",
"The decision looks at both neighbours and at class lists of the table; tests fix a few strings.",
[T+"indication/lettersign.rs",T+"indication/nocontract.rs"],
"scan of the text for isolated letters and contractions",obs="Translator::translate")
p("C15","Computer braille covers exactly the marked and triggered words",
"Text inside a computer braille span, and every whitespace delimited word that contains a trigger of the table, is translated with the computer braille rules and character definitions only, never with contractions. The begin and end indicators are inserted exactly at the two ends of each such region and text outside of all regions is translated as if there were none.",
["inputs","configurations"],"all tables with computer braille opcodes, all texts and spans",
"Regions combine triggers, spans and word boundaries; tests use one region.",
[T+"table/primary.rs",T+"indication/computer_braille.rs",T+"position_constraints.rs"],
"trigger scan extending to words, restriction of candidates, indicators at region ends",obs="Translator::translate_with_options")
p("C16","A nocross rule never spans a hyphenation point",
"A rule marked nocross is used only if no hyphenation point of the word lies inside its characters, where the hyphenation points are those that the patterns of the hyphenation dictionary give by the usual pattern algorithm (the highest number at each position wins, odd numbers break, minimum distances to both word ends are kept). If it is at least as long as every other applicable rule it is preferred, and without a hyphenation dictionary nothing is forbidden.",
["inputs","programs"],"all hyphenation pattern sets, all nocross rules, all words",
"Overlapping patterns interact at every position of every word; tests use one or two words.",
["src/hyphenation.rs",T+"position_constraints.rs",T+"table/primary.rs"],
"pattern parser and application, precomputed breaks, separate prefix tree",obs="Translator::translate with an included .dic file")
p("C17","Rules restricted to one direction have no effect in the other",
"A rule marked noback never changes a backward translation and a rule marked nofor never changes a forward translation: removing all rules of the other direction from a table leaves its translations unchanged, except that such rules may still define character classes for the correct and pass stages. Removing the marker makes no difference in the direction in which the rule is allowed.",
["programs","inputs"],"all tables, all subsets of rules marked with a direction, all texts, both directions",
"It is a relation between two tables for every opcode and text.",
["src/parser.rs",T+"pipeline.rs",T+"table/primary.rs"],
"direction filter before compilation",obs="Translator::translate")
p("C18","Back-translation inverts translation where the table is unambiguous",
"For a table whose cells can be read in only one way, translating a text of defined characters to braille and back gives the text again, including letter case restored from the capital signs and digits restored from the number sign. Cells without a definition never make the back-translation drop or reorder the text around them. Of characters with the same cells the first definition is read, a capital word extends over the cells of letters and always rules, and a number sign directly after the cell of a letter is not read as one.",
["inputs","programs"],"all unambiguous tables (distinct cells per character, digits and capitals that share the cells of an earlier letter, contractions with their own cells, capital and number signs) and all texts over their characters, of which no number directly follows a letter",
"Round trips quantify over all texts and all such tables; tests check single directions on samples.",
[T+"table/primary.rs",T+"position_constraints.rs",T+"trie.rs",T+"pipeline.rs"],
"backward compilation of the rules, backward capital and number constraints",obs="Translator::translate in both directions")
p("C19","Including a table is the same as writing its rules in place",
"A table with include lines behaves exactly like the table in which every include line is replaced by the lines of the included file, in the same order and with relative names looked up on the search path. A missing file, a cycle or an overlong chain of includes is reported as an error instead of being ignored or followed forever, and every malformed line is reported with the file and the line it stems from (what a table with malformed lines includes is not read); this holds for the lines of an included hyphenation dictionary, too.",
["programs","configurations","fault_sequences"],"all trees of included files (repeated, nested up to the limit, cyclic, missing, unreadable), all orders of rules, all search paths",
"Tests check one chain and one cycle; order and diamond shaped inclusion need generated trees.",
["src/parser.rs"],"recursive expansion with the chain of files being included",obs="Translator::new, louis parse")
p("C20","Every line of a table is a comment, a rule or a reported error",
"Loading a table succeeds exactly if every line that is not blank and not a comment is a well-formed rule; otherwise the reported errors name exactly the malformed lines by their numbers, all of them, and a parse session of the command line tool says the same of every line typed. A table of well-formed lines is rejected only if a rule refers to a character or a swap class that the table does not define. Extra whitespace, comment lines, blank lines, trailing comments and the line ending style never change the meaning of a table.",
["inputs"],"all tables mixing well-formed and malformed lines of all opcodes, all whitespace and comment layouts",
"Tests parse lines one at a time; missing or shifted line numbers and silently dropped rules show only in mixed tables.",
["src/parser.rs","src/parser/braille.rs","src/parser/match_rule.rs","src/parser/multipass.rs"],
"line splitting, rule parser, collection of errors",obs="error list of Translator::from_table_source, louis parse")
p("C21","Dots and escapes in operands denote the cells and characters as documented",
"Every dots operand denotes the braille cells written in it: dots 1 to 8 in any order give the Unicode braille character with these dots, cells are separated by '-', and virtual dots 9 and a to f give a private use character distinct from every other cell. Every escape in a character operand denotes exactly its character, and any character can be written literally or as its hexadecimal escape with the same result.",
["inputs"],"all dots operands over the sixteen dots, all escapes, all Unicode characters",
"There are 65536 cells and over a million characters, and tests check a handful.",
["src/parser/braille.rs","src/parser.rs"],
"dot set to Unicode conversion, escape decoding",obs="Translator::translate, louis parse")
p("C22","The test runner reports the verdict that the translation determines",
"For every test of a YAML test file the runner counts a success exactly if translating the input with the named table, direction and options gives the expected output, and an expected failure or unexpected success exactly if the test is marked as expected to fail. The numbers add up to the number of tests, they do not depend on how many files are checked together or in which order they are processed, and display tables are applied to the output before it is compared.",
["inputs","schedules","configurations"],"all YAML files with any mix of tables, flags, directions, spans, expected failures and display tables, checked alone or in parallel",
"The runner itself has no end to end test; parallel checking has schedules that tests do not vary.",
["src/test.rs","src/yaml.rs","src/main.rs","src/translator.rs"],
"YAML event parser, test execution, parallel map over files",obs="louis check")
p("C23","A metadata query finds exactly the tables that match all its fields",
"A metadata query returns exactly those tables on the search path which contain every queried key with the queried value in their metadata lines. The result does not depend on the order of the query fields, of the directories or of the files.",
["inputs","configurations"],"all sets of files with metadata lines, all queries",
"There is no test of the index; intersections and malformed lines need generated directories.",
["src/metadata.rs","src/main.rs"],"index from key and value to files, intersection of the sets found",obs="louis query")
p("C24","The command line tool translates like the library",
"For every table file, direction and text, the command line tool prints exactly the translation that the library returns, when the text is given as an argument, when it is typed line by line in one interactive session, and as the first line of a trace. Tables that the library rejects are reported and nothing is printed as translation.",
["inputs","histories"],"all table files, all texts without line breaks, all sessions of several lines, both directions",
"No test runs the tool.",
["src/main.rs","src/lib.rs"],"command dispatch, interactive loop, trace printing",obs="louis translate, louis trace")
p("C25","Rules that cannot apply to a text do not change its translation",
"Adding rules to a table, anywhere in it, whose characters or cells do not occur in the text at any stage leaves the translation of the text unchanged; this includes rules that list characters, where the table has none of the kind or characters add up. Reordering rules of which no two have the same characters (backward: cells) leaves every translation unchanged as long as no two applicable rules are equally long.",
["programs","inputs"],"all tables, all additions of rules with characters foreign to the text, all permutations of rules with different characters",
"It is a relation between tables; tests never compare two tables.",
[T+"trie.rs",T+"table.rs",T+"table/primary.rs",T+"indication/nocontract.rs"],
"compilation of rules into shared structures",obs="Translator::translate")
p("C26","No memory error and no data race while loading, translating and checking",
"Loading tables, translating (also from several threads that share a translator) and checking YAML test files, including malformed and truncated ones, never reads or writes memory out of bounds or after it was freed, never leaks memory without bound and never has a data race.",
["inputs","schedules"],"all tables, texts and YAML byte streams; all interleavings of translating threads and of files checked in parallel",
"The YAML parser is a C library called through a foreign function interface and tests run without sanitizers.",
["src/yaml.rs","src/main.rs","src/lib.rs"],"foreign function interface to a C library, shared immutable tables, thread pool",obs="sanitizer reports of louis check and of the library under load")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
