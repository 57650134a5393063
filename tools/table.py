# One entry per property; executed by gen.py.

prop("C01", "No text makes the analyser crash or read outside its data",
     "For every input text, analysing it never fails an internal assertion, never reads a character outside the text, "
     "and never looks up a value missing from one of its tables. Invalid UTF-8 may be rejected with an error but the "
     "analysis of valid text always returns normally.",
     ["inputs"], "every sequence of characters, every segmentation, every dictionary match",
     "The tests analyse a few dozen well-formed Thai words; a bad neighbourhood of characters (a lone leading vowel, "
     "a mark without consonant, text ending in the middle of a syllable) is outside all of them.",
     ["parser/parser.cxx", "thortho/thcons.inl", "thortho/thcons.cxx"],
     [("bounds guards before each character access", "parser/parser.cxx"), ("assertions", "parser/parser.cxx, thortho/thcons.inl")],
     check=AI + ": obligations at every access, lookup and assertion of the parser", note="All texts: length, characters, word breaks and dictionary matches are symbolic.")

prop("C02", "Analysis always moves forward and ends",
     "While analysing any text, every partial analysis that is put back for further work is either at a later text position "
     "than the one it came from or has had its stopping point moved further; so analysis of every text terminates and never goes beyond the end of the text.",
     ["inputs", "histories"], "every text and every order in which partial analyses are taken up",
     "Tests terminate on the inputs they have; non-termination needs one unlucky combination of characters.",
     ["parser/parser.cxx"], [("positions advance in every parsing rule", "parser/parser.cxx")],
     check=AI + ": progress obligation at every return of a partial analysis to the pool", note="All texts; pool order abstracted by an inductive invariant that is itself checked.")

prop("C03", "Syllables of an analysis tile the text from start to end",
     "In every analysis returned for a text, each syllable starts exactly where the previous one ended: the first starts at the beginning "
     "and the last ends at the end of the text, with no gap and no overlap. This includes readings that come from the exception dictionary.",
     ["inputs", "histories"], "every text, every segmentation, every dictionary entry and every merge of partial analyses",
     "Tests compare a few complete outputs; positions in the middle of rare constructions are not observed.",
     ["parser/parser.cxx", "lattice/pron-dag.cxx", "sylstring/sylstring.cxx"],
     [("edge end points and syllable end positions", "parser/parser.cxx"), ("shifting of dictionary readings", "sylstring/sylstring.cxx")],
     check=AI + ": graph typestate with symbolic node numbers", note="All texts; inductive over the pool of partial analyses.")

prop("C04", "Every syllable the analyser emits is complete",
     "Every syllable produced by analysing a text (other than the blank and quoted foreign text) has a definite initial sound, vowel and tone; "
     "no placeholder component ever reaches the output.",
     ["inputs"], "every text and every parsing rule",
     "Each parsing rule has many exits; tests reach a small share of them.",
     ["parser/parser.cxx"], [("partial syllable completion before it is added", "parser/parser.cxx")],
     check=AI + ": finite domains of syllable components at every attachment", note="All texts.")

prop("C05", "Tones follow the Thai tone rules",
     "For every syllable derived from spelling (not from the exception dictionary) the tone is the one the Thai tone rules give for the class of its "
     "leading consonant, its written tone mark, whether it is dead or live, and its vowel length.",
     ["inputs"], "every syllable spelling the analyser accepts",
     "The rule table has class x mark x dead x length cases, applied from several parsing rules; tests sample a few words.",
     ["parser/parser.cxx", "thortho/thcons.cxx"], [("tone from written form", "thortho/thcons.cxx"), ("class of the initial", "parser/parser.cxx")],
     check=AI + ": tone of every attached syllable against independent tone rules", note="All texts; marks and classes combined exhaustively within each abstract state.")

prop("C24", "The sounds of a syllable are those its letters stand for",
     "For every syllable derived from spelling, the initial sounds are those of the consonant letters it starts with, the vowel is one that the vowel signs (or their absence) "
     "in its stretch of the text can stand for, and the final sound is that of a letter or sign standing there.",
     ["inputs"], "every text, every parsing rule and every combination of letters it accepts",
     "Each parsing rule and table row matters for a few spellings only; tests cover a sample of words.",
     ["parser/parser.cxx", "thortho/thcons.cxx"], [("letter to sound tables", "thortho/thcons.cxx"), ("vowel assignment in the parsing rules", "parser/parser.cxx")],
     check=AI + ": components of every attached syllable against an independent spelling table", note="All texts; per abstract state every combination of letters.")

prop("C06", "Every notation can write every syllable",
     "Each output notation (Thai respelling, romanization, phonetic, raw code, sound code) produces a non-empty text for every combination of valid initial, second "
     "consonant, vowel, final and tone, without failing. It writes the blank as one space and foreign text as that text in parentheses (the raw code appends '@' and the end position).",
     ["inputs"], "all 90720 component combinations in each of the five notations, the blank, every literal",
     "Unit tests write a handful of syllables per notation; a missing table row shows only for the component it belongs to.",
     ["output/sylout-thai.cxx", "output/sylout-roman.cxx", "output/sylout-phonetic.cxx", "output/sylout-raw.cxx", "output/sylout-soundex.cxx", "output/isyl-output.cxx"],
     [("per-notation component tables", "output/sylout-*.cxx"), ("vowel dispatch", "output/sylout-thai.cxx")],
     check=AI + ": symbolic texts over all component values", note="Exhaustive over component values.", observe=["thpronun -t -r -p -w -s output"])

prop("C07", "Raw codes read back as the same syllable",
     "For every valid syllable, the code written by the raw notation, when read as a dictionary description, gives a syllable with the same initial, second consonant, vowel, final, tone and end position.",
     ["inputs"], "every component value and every end position",
     "Writer and reader tables are separate; tests exercise a few letters of each.",
     ["output/sylout-raw.cxx", "sylstring/syl.cxx", "sylstring/sylcomp.cxx", "sylstring/sylcomp.h"],
     [("code tables of writer and reader", "output/sylout-raw.cxx, sylstring/sylcomp.cxx")],
     check=AI + ": composition of writer and reader on symbolic syllables", note="Exhaustive over component values; end position symbolic.")

prop("C08", "Thai respelling reads back as the intended syllable",
     "Reading the Thai respelling of a syllable by the standard spelling rules (consonant classes, tone marks, vowel forms, final letters) gives back its initial sounds, vowel, final and tone. "
     "A shortened vowel with a final and a tone mark may also read as the long vowel; combinations that Thai spelling cannot express (level tone on a dead syllable, short ia/uea/oe with a final, e with final y) are excepted.",
     ["inputs"], "all expressible component combinations (42000)",
     "The existing test spells a few syllables; class, tone-mark and vowel-form selection interact in thousands of combinations.",
     ["output/sylout-thai.cxx"], [("initial letter and tone mark selection", "output/sylout-thai.cxx"), ("vowel forms", "output/sylout-thai.cxx")],
     check=AI + ": symbolic texts decoded with an independent spelling specification", note="Exhaustive over component values; the oracle is an independent decoder of Thai spelling.")

prop("C09", "Romanization follows the Royal Thai General System",
     "The romanization of every syllable is the concatenation of the Royal Thai General System letters of its initial, second consonant, vowel quality and final (k kh ng ch ch y d t th n b p ph f m r l w s h; "
     "a i ue u e ae ia uea ua o o oe; k t p ng n m i o), independent of tone and vowel length.",
     ["inputs"], "all component combinations",
     "Tests romanize a few words; each table row matters only for its own component.",
     ["output/sylout-roman.cxx"], [("romanization tables", "output/sylout-roman.cxx")],
     check=AI + ": symbolic text compared with the published sound values", note="Exhaustive over component values.")

prop("C10", "Phonetic spelling is unambiguous; sound codes group exactly like sounds",
     "Two different syllables never have the same phonetic spelling. Two syllables have the same sound code exactly when they agree in initial sound (r and l counting as the same), in vowel quality regardless of length, and in final, whatever their second consonant and tone.",
     ["inputs"], "all pairs of syllables with pronounceable clusters",
     "A property of pairs of outputs over the whole table product; tests look at single outputs.",
     ["output/sylout-phonetic.cxx", "output/sylout-soundex.cxx"], [("phonetic and sound-code tables", "output/sylout-phonetic.cxx, output/sylout-soundex.cxx")],
     check=AI + ": symbolic texts tabulated, injectivity and kernel of the code map", note="Exhaustive over component values.")

prop("C12", "JSON output is always valid JSON of the documented shape",
     "For every analysis, also an empty one and one with foreign text, JSON output is a valid JSON array of arrays of strings, one inner array per pronunciation and one string per syllable in order; "
     "grouped JSON output is valid JSON with arrays nested four deep around the strings. Quotes, backslashes and control characters in foreign text are escaped so that they read back as the same characters.",
     ["inputs"], "every number of pronunciations, syllables and alternatives (including none), every foreign text",
     "Tests print a few non-empty lists of plain Thai words; empty results and texts with quotes never occur.",
     ["output/output-json.cxx", "output/output-gjson.cxx"], [("separators and brackets", "output/output-json.cxx, output/output-gjson.cxx"), ("escaping", "output/output-json.cxx")],
     check=AI + ": regular language of the produced texts against JSON, completeness and escape monitors", note="Lists of any length at every level; foreign text of any length and content.", observe=["thpronun -j and -g output"])

prop("C22", "Romanized words are hyphenated by the published rule",
     "In the plain romanized output a hyphen stands between two syllables of a word exactly when the second starts with a vowel, or starts with ng after a syllable without final consonant; never at the beginning or end of a word, "
     "next to a blank or before foreign text. Every syllable is written once and in order, one pronunciation per line.",
     ["inputs"], "every sequence of syllables, blanks and foreign texts of any length",
     "The rule looks at neighbouring syllables and at blanks in between; tests have a few words of a few syllables.",
     ["output/output-roman.cxx"], [("hyphen decision from neighbouring syllables", "output/output-roman.cxx")],
     check=AI + ": regular language of the produced texts against a hyphenation monitor", note="Syllable sequences of any length.", observe=["thpronun -r output"])

prop("C13", "Grouped output represents exactly the pronunciations found",
     "Choosing one alternative in each group of one chain of the grouped output and joining them gives a pronunciation of the ungrouped output, and every pronunciation of the ungrouped output can be chosen this way. "
     "Alternatives in a group are sorted, and none is there twice with the same division of the text.",
     ["inputs", "programs"], "every graph of syllables, every order of merging",
     "Which edges merge depends on the shape of the whole graph; the tests have a handful of small graphs.",
     ["lattice/pron-dag.cxx", "lattice/lattice.cxx", "lattice/lattice.inl", "output/output-gjson.cxx"],
     [("merging of edges in series and in parallel", "lattice/pron-dag.cxx"), ("alternatives of a fraction, merging within a chain", "lattice/lattice.cxx")],
     check=AI + ": every change of the graph is one of the rewritings that keep the set of paths; unfolding lists every path", note="Graphs of any size and shape.", observe=["thpronun -g output"])

prop("C14", "The graph of analyses keeps its two directions in agreement",
     "After any sequence of additions and removals, an edge is listed among the edges leaving its start exactly when it is listed among those entering its end, with the same value; an edge is there at most once. "
     "Removing one edge or all edges between two nodes removes exactly those, and counting, testing and listing edges agree with what was added.",
     ["histories"], "every sequence of operations, every number of edges between and around two nodes",
     "Removal while iterating goes wrong only for certain neighbours; the tests build a few graphs.",
     ["lattice/dag.h", "lattice/dag.inl"], [("adding, testing and removing edges in both directions", "lattice/dag.inl")],
     check=AI + ": operations on containers of unknown content logged and run against a monitor", note="Any number of edges; both kinds of graphs.")

prop("C21", "Plain output lists every pronunciation once, one per line",
     "The plain output of a word has one line for each way through the graph of analyses, no way missing and none twice, with the syllables and foreign texts in order and the delimiter exactly between two neighbouring ones, never beside a blank or at either end.",
     ["inputs"], "every graph, every sequence of syllables, blanks and foreign texts",
     "Tests print a few words; graphs that fork and join again and words with blanks are rare there.",
     ["output/ioutput.cxx", "output/output-delim.cxx"], [("enumeration of the ways through the graph", "output/ioutput.cxx"), ("delimiters", "output/output-delim.cxx")],
     check=AI + ": recursion over the edges of a node and regular language of the produced texts against monitors", note="Graphs and words of any size.", observe=["thpronun output"])

prop("C11", "Comparing pronunciations is a consistent order",
     "Two syllables are equal exactly when all their sounds, tone and quoted text are equal, wherever in the text they end. Comparing syllables and sequences of syllables with <, >, <=, >=, == and != is consistent: nothing is less than itself, "
     "less-than is transitive and > is its mirror, <= and >= are the opposites of > and <; sequences compare at their first difference, and a proper beginning is less than the whole.",
     ["inputs"], "all pairs and triples of syllables, sequences of any length",
     "Sorting and removing duplicates rely on the laws for all values; tests compare a few pairs.",
     ["sylstring/syl.cxx", "sylstring/sylstring.cxx", "lattice/lattice.cxx"],
     [("component-wise comparison", "sylstring/syl.cxx"), ("comparison of sequences", "sylstring/sylstring.cxx")],
     check=AI + ": outcome of each operator as a table over the signs of the component differences, laws decided on the tables; sequences walked in step on lists of unknown length",
     note="All values; all triples of sign vectors; sequences of any length.")

prop("C23", "No analysis is lost while others are being worked on",
     "Whatever the order of work, a partial analysis that is set aside is later taken up exactly as it was, once; two are joined only when they stand at the same place of the text with the same link to what precedes, and then the readings of both are kept. "
     "The result contains every analysis that reaches the end of the text, and none is left unfinished when it is returned.",
     ["inputs", "histories"], "every text and every sequence of setting aside and taking up",
     "Losing one of several readings shows only for words with several readings of a certain shape; the tests look at few of them.",
     ["parser/parser.cxx"],
     [("waiting partial analyses: adding, joining, taking out", "parser/parser.cxx"), ("collection of finished analyses", "parser/parser.cxx")],
     check=AI + ": the waiting list as a list of unknown length; in the parser loop a ghost follows each analysis until it is united into the result or set aside again", note="Waiting lists of any length; all texts.")

prop("C15", "A dictionary is used only if it was read completely",
     "Opening a dictionary succeeds only if the file was opened and every part of it was read to its stated size; otherwise opening reports failure and nothing of the file is used, so that every lookup finds nothing. "
     "Opening another dictionary or closing releases the former one; every file, table and block of data is released exactly once and never used afterwards.",
     ["fault_sequences", "histories"], "every failing operation and every sequence of opening and closing",
     "Tests open one intact dictionary once; truncated files, read errors and reopening never occur there.",
     ["dict/dict.cxx", "dict/dict.h", "dict/dict.inl"], [("reading of the two parts of the file", "dict/dict.cxx"), ("releasing", "dict/dict.cxx")],
     check=AI + ": every library call may succeed or fail, handles are followed from creation to release", note="Every combination of failing calls; from the closed and from the open state.",
     observe=["thpronun -d<file>"])

prop("C25", "Dictionary lookup reports every entry that begins the text",
     "Looking up a text from a position reports, from the shortest to the longest, every dictionary entry that the text continues with there: each once, with the position where it ends, none that is empty or goes beyond the text. "
     "The data given for a match is what the dictionary stores for this entry.",
     ["inputs", "histories"], "every text, position and dictionary content, any number of matches",
     "The order and end of matches matter for entries that begin one another; the test dictionaries have few.",
     ["dict/dict.cxx", "dict/dict.h", "dict/dict.inl"], [("walking the dictionary along the text", "dict/dict.cxx")],
     check=AI + ": lookup on a text of unknown length with a dictionary that may answer anything, position invariant between calls", note="Texts and dictionaries of any size.")

prop("C26", "Every reading of a dictionary entry is used, with all its syllables",
     "The description of a dictionary entry is read as all of its readings, separated by semicolons, each of them as all of its syllables in order, separated by commas. "
     "Where an entry is used, every one of its readings becomes a way through the text: its syllables follow one another from the place where the entry begins, each ending where the description says, counted from there.",
     ["inputs", "configurations"], "every number of readings and syllables of an entry, at every place of a text",
     "Few entries of the shipped dictionary have more than one reading, and the tests use hardly any; what is lost of a description is not noticed where other readings remain.",
     ["sylstring/sylstring.cxx", "lattice/pron-dag.cxx", "parser/parser.cxx"], [("division of descriptions", "sylstring/sylstring.cxx, parser/parser.cxx"), ("attaching of readings", "lattice/pron-dag.cxx, parser/parser.cxx")],
     check=AI + ": division on a text of any number of pieces, moving and attaching on any number of syllables, the analyser on entries with two readings", note="Any number of pieces and syllables; in the analyser two readings for each entry. Pieces left out only where two elements compared on one line differ are not seen.",
     observe=["thpronun -d<file>"])

prop("C16", "The dictionary builder reports success only for a complete dictionary",
     "Given an input file and an output file, the dictionary builder ends with success only if every line of the input was a word in valid UTF-8, a tab and its data, each line became an entry, and words and data were written and the output closed without error. "
     "It ends with a failure status whenever its arguments are wrong, a file cannot be opened, a line has no tab or cannot be decoded or stored, or reading, growing memory or writing fails, and for a non-empty well-formed input with lines of at most 255 bytes only then. "
     "Nothing is used after it was released, nor released twice.",
     ["inputs", "fault_sequences"], "every number and kind of input lines and every failing operation",
     "The builder runs once during the build, on good input and with every operation succeeding; its exit status in all other cases is never seen.",
     ["dict/gen-lookup-dict.c"], [("reading of lines", "dict/gen-lookup-dict.c"), ("writing of the file", "dict/gen-lookup-dict.c")],
     check=AI + ": the builder on an input of unknown length, every library call may succeed or fail, a ghost remembers what went wrong", note="Inputs of any number of lines; every combination of failing calls except the first allocations.",
     observe=["gen-lookup-dict"])

prop("C17", "A dictionary that is built holds every entry of its input",
     "For an input of one or more lines of at most 255 bytes, each a word of Thai letters, a tab and its data, the dictionary built holds every word letter by letter with its complete data, which no later entry overwrites. "
     "Words, length of the data and the data are written in the form in which dictionaries are read, and no buffer is exceeded while building.",
     ["inputs", "programs"], "every number and length of entries, every Thai letter",
     "The tests look up some words of the shipped dictionaries only; growth of the data, long entries, rare letters and large dictionaries do not occur.",
     ["dict/gen-lookup-dict.c", "dict/dict.cxx"], [("decoding of words", "dict/gen-lookup-dict.c"), ("collected data and its growth", "dict/gen-lookup-dict.c"), ("reading of the length", "dict/dict.cxx")],
     check=AI + ": letters, data and memory blocks of the builder with unknown lengths and offsets; the written layout is compared with the one the reader is found to accept", note="Entries of any number; lines up to 255 bytes; all Thai letters.",
     observe=["gen-lookup-dict", "thpronun -d<file>"])

prop("C18", "Options act wherever they stand; every word is written in every notation",
     "Notation options select the notations in the order given (Thai, romanized and phonetic if there is none), and -j, -g, -n and -d<path> apply to all words wherever they stand on the command line; the last -d counts. "
     "Every word given, or else every line of standard input, is analysed once and in order, and for each the word with a colon and then its output in each notation are written on lines of their own; text that is not valid UTF-8 is reported on standard error and the next word follows. "
     "An unknown option ends the program with a failure status before any word is analysed, and nothing else makes it fail.",
     ["inputs", "configurations"], "every number, kind and order of arguments and input lines",
     "No test runs the program itself; options are given in one order at best.",
     ["thpronun/thpronun.cxx"], [("passes over the arguments", "thpronun/thpronun.cxx"), ("output of one word", "thpronun/thpronun.cxx")],
     check=AI + ": main on an argument list of unknown length, ghosts for the arguments that occur, have been seen and have had their effect", note="Argument lists and inputs of any length; plain output joined by the delimiter of its notation.",
     observe=["thpronun"])
