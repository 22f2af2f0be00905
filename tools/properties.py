#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says about their checks.  Writes both files."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))

prop("C01", "One derivation step rewrites every symbol in parallel",
     "One derivation step looks at every position of the current string independently and in the string as it was before the step: where some rule matches, the first such rule's replacement stands in the result, elsewhere the symbol itself does. The result is the concatenation of those pieces in order, whatever the lengths of the replacements (including none) and of the contexts. This holds for a list of rules and for the rules of a system alike.",
     ["inputs", "programs"], "All strings, all lists of (context-sensitive) rules with one replacement each, all lengths.",
     "Parallelism, order and context look-up can go wrong for particular combinations of contexts, erasing rules and overlaps; the tests derive a few fixed grammars.",
     ["src/system.rs", "src/productions.rs"], [("derive_once, find_matching", "src/system.rs"), ("ProductionHead::matches, rewrite", "src/productions.rs")],
     "Strings of up to 4 (thorough 4, rule pairs and triples) arbitrary symbols over 2-3 letters against up to 2 (3) rules with arbitrary targets, contexts and replacements; a 40-symbol string and a 10-rule system with 3 (6) arbitrary positions; 1500 and 12000 symbols with an arbitrary one; symbols with codes around every byte boundary; 130 (400) rules; 65545 (131081) equal symbols with an arbitrary one at each of 4 borders, the last symbol before or the first after it.")
prop("C02", "Deriving n times is n single steps",
     "A derivation with a maximum of n iterations gives exactly the string reached by n single steps, for every n: 0 gives the string itself, the empty string stays empty, and without rules every string stays as it is. A system and a plain list of the same rules agree, and deriving changes neither the system nor the result of deriving again.",
     ["inputs", "programs", "configurations"], "All start strings, rule sets and numbers of iterations.",
     "The tests use a few iteration counts on fixed grammars; off-by-one errors, lost iterations and early stopping show only for other counts, or for grammars that pause, repeat or die out.",
     ["src/system.rs"], [("derive, System::derive, RunSettings", "src/system.rs")],
     "Arbitrary strings of 2 (3) symbols, 2 arbitrary rules, all n up to 3; n up to 90 on a counting grammar, about 400 on one of period two; empty strings and empty rule sets for n up to 3; 65535 steps and back; a string doubled 17 (20) times; derivations one of whose steps fails; two lists of rules used in turn on the same strings; 65538 steps; every sequence of choices of rules that lead back, for up to 5 (7) steps.")
prop("C03", "A rule matches exactly where its target and contexts are",
     "A rule head matches at a position exactly if the symbol there is its target, the symbols immediately before are its left context (if it has one) and those immediately after are its right context (if it has one). A context reaching beyond either end does not match, and neither does a position outside the string; none of this ever fails or crashes.",
     ["inputs"], "All strings, positions (including out of range), targets and contexts of any length, absent and empty contexts included.",
     "The tests check a handful of positions; boundary positions and contexts longer than what is left of the string are where the arithmetic can go wrong.",
     ["src/productions.rs"], [("ProductionHead::matches, pre_matches, post_matches", "src/productions.rs")],
     "Contexts of up to 2 (3) symbols on each side, strings of up to 4 (6) symbols over 2-3 letters, every 64-bit position; contexts of 12 symbols with an arbitrary 32-bit symbol at an arbitrary place on each side; contexts of 300 symbols; contexts of up to 17 arbitrary 32-bit symbols against arbitrary strings.")
prop("C04", "Rules with equal heads merge; the first matching rule applies",
     "A system holds one rule for each distinct head (target and contexts), in the order the heads were first added; adding a rule with a head it already has appends the replacement to that rule, and the caller is given the rule with every replacement added so far. When several rules match a position the first one applies, and only replacements that were added for its head can result.",
     ["inputs", "histories"], "All sequences of additions and all strings derived afterwards, for every outcome of the random choice.",
     "Precedence and merging depend on the history of additions; the tests add two or three rules and look at counts.",
     ["src/system.rs", "src/productions.rs"], [("System::add_production, find_matching", "src/system.rs"), ("ProductionStore for RwLock<Vec<Production>>, Production::merge", "src/productions.rs")],
     "3 (4) additions with arbitrary target and one-symbol contexts over 2 letters, strings of 2 (3) symbols, every random draw; 3 (4) rules with both contexts against strings of 3 (4); heads whose names run together to the same text; 24 rules one of which has an arbitrary head; lists of 4 rules; 300 rules; contexts of up to 17 symbols that differ in any one place or in the order of two; 2 (3) replacements out of 4 that may be the same, with and without chances; 380 heads whose contexts are all pairs of letters; two heads with contexts of 2 and 3 (2 to 17) symbols two of which are arbitrary in each; up to 300 replacements for one head.")
prop("C05", "Stochastic choice follows the given chances",
     "A rule with several replacements uses each one for a share of the random draws that equals its chance; replacements without a chance share what the others leave equally, and a rule with a single replacement always uses it. Each occurrence in a string makes its own draw, and chances that clearly add up to more than one are an error whenever the rule is used.",
     ["inputs", "configurations"], "All random draws, for many sets of given and derived chances.",
     "A test can only sample draws; a share that is off, an unreachable replacement or a draw at the edge that selects nothing shows only over all draws.",
     ["src/productions.rs", "src/system.rs"], [("Production::body", "src/productions.rs")],
     "All 2^32 outcomes of each draw for 16 sets of up to 12 chances, every first chance in 64ths, every positive single chance; shares are compared up to a tolerance of 2.4e-5; 300 replacements. The random source is replaced by arbitrary draws (rand's own arithmetic on them is executed); two replacements for every chance in 1024ths (65536ths), in either order; 20 and 260 replacements whose chances come to more than one.")
prop("C06", "Chances are accepted exactly between 0 and 1, and kept",
     "A replacement can be given a chance exactly if it is a number from 0 to 1 inclusive; the chance is then kept exactly, whether given by value or written in front of a replacement in text. Anything else numeric is an error and never a crash, and a replacement without a number has no chance of its own.",
     ["inputs"], "All 32-bit floating-point values, and all number-like texts.",
     "The tests try a few values; infinities, NaN, signed zeros, denormals and odd spellings are not among them.",
     ["src/productions.rs", "src/parser.rs"], [("ProductionBody::try_with_chance", "src/productions.rs"), ("parse_production_body", "src/parser.rs")],
     "All 2^32 values of the chance; all texts of 3 (5) characters out of digits, '.', '-', '+', 'e', and 36 unusual ways to write a number, with and without a replacement after them; all words of 2 (3) visible characters, 25 words that are nearly numbers; 12 numbers of 25 to 120 digits next to the middle of two floats.")
prop("C07", "A system knows exactly the symbols of what was added",
     "After any additions, a system knows exactly the symbols that occur in the target, contexts or replacement of some rule added, or that were added themselves, and it reports how many. Looking a name up gives the symbol of that name if it is known and nothing otherwise. An addition that is rejected leaves the symbols and rules as they were.",
     ["inputs", "histories"], "All sequences of rules given as text or built from symbols, including malformed ones.",
     "The tests count symbols for one grammar; contexts, repeated symbols and rejected additions are where registration goes wrong.",
     ["src/system.rs", "src/symbols.rs", "src/parser.rs"], [("System::add_production, parse_production, get_symbol, add_symbol", "src/system.rs"), ("SymbolStore", "src/symbols.rs")],
     "1 rule over 4 names with contexts of up to 1 and replacements of up to 2 symbols, 2 rules over 2 (3) names; rules of 5 (7) arbitrary 32-bit codes; 13 malformed rules; 300 rules with 33 symbols, one rule with 400; all two-letter names one of whose letters is arbitrary, added in four ways; contexts of every length up to 8 on each side with an arbitrary last symbol; 2 (3) rounds of adding a symbol, a rule or a malformed one and looking names up, with 0 to 4 known before.")
prop("C08", "Names and codes correspond one to one",
     "Asking for the code of a name gives equal codes exactly for equal names (surrounding whitespace aside), always the same code for the same name, and the code leads back to the name. Only blank names are rejected; a code that was never handed out has no name and makes no symbol. Every way of making a symbol from a name agrees.",
     ["inputs", "histories"], "All pairs of names, any number of names before, all 32-bit codes.",
     "The tests register a few ASCII names; trimming of Unicode whitespace, prefixes, long names and the growth of the registry are not covered.",
     ["src/symbols.rs"], [("get_code, get_name", "src/symbols.rs"), ("Symbol::build, TryFrom", "src/symbols.rs")],
     "Pairs of arbitrary UTF-8 names of 2+2 and 3+1 (3+3, 4+2) bytes; 100-byte names differing in one arbitrary byte; one arbitrary name after 40 others; all 32-bit codes; a name of 600 bytes; 700 names; codes looked up before they are handed out; names in the same memory one after another; 19 unusual characters at either end of, around and within names of up to 255 characters.")
prop("C09", "The symbol registry is consistent under concurrency",
     "When several threads make symbols, parse text or look names up at the same time, a thread that has received a code finds its name and can make its symbol straight away. Equal names get equal codes and different names different ones in every thread, established names keep their codes, and no thread blocks forever.",
     ["schedules", "inputs"], "All interleavings of the threads, for equal and for different names.",
     "The tests run on whatever schedule occurs and hardly share names; a lost update or a code visible before its name needs a particular interleaving.",
     ["src/symbols.rs"], [("NAMES and CODES registries in get_code, get_name", "src/symbols.rs")],
     "2 threads (and 3 with none (one) preempted) with arbitrary one-letter names, all interleavings at lock, atomic and shared-memory steps with up to 3 (4) preemptions; a thread that finds a lock taken hands over at once or spins until it sleeps; from an empty and from a used registry; parsing against looking up.")
prop("C10", "A system can be shared between threads",
     "When threads add rules and symbols to one system and derive with it at the same time, every rule added is there in the end, with every replacement exactly once and one rule for each head, and all their symbols are known. A thread is given the rule it added to, including its own replacement; a derivation uses the rules as they were at one moment. No thread blocks forever.",
     ["schedules", "inputs"], "All interleavings of additions, look-ups and derivations on one system.",
     "No test shares a system between threads; lost or doubled rules, deadlocks between the two inner locks and torn derivations need particular interleavings.",
     ["src/system.rs", "src/productions.rs", "src/symbols.rs"], [("System with its RwLocks; add_production, derive, derive_once", "src/system.rs")],
     "2 threads (3 with none (one) preempted): two additions with equal or different heads, an addition against a derivation of 1-2 steps, an addition against a symbol; two additions against a derivation with up to 2 (3) preemptions; all interleavings at lock, atomic and shared-memory steps with up to 3 (4) preemptions; a thread that finds a lock taken hands over at once or spins until it sleeps; 1 (2) out of six operations while a rule is added, to an empty and a used system.")
prop("C11", "Parsing a string gives its words as symbols, in order",
     "Parsing a string gives one symbol for each word, in order, named exactly as written; words are separated by whitespace of any kind and amount, and a run of delimiter characters is a word of its own. A lone ';' ends the string; the string is rejected exactly if a lone '<', '>' or '->' comes before that. No text of any kind makes parsing crash.",
     ["inputs"], "All texts, including any Unicode characters.",
     "The tests parse a few ASCII strings; multi-byte whitespace, adjacent delimiters and repeated blanks exercise index arithmetic they never reach.",
     ["src/parser.rs", "src/parser/iterator.rs"], [("parse_prod_string", "src/parser.rs"), ("TokenIterator", "src/parser/iterator.rs")],
     "All valid UTF-8 texts of 3 and 4 (5) bytes; a 70-character text with 2 (3) arbitrary ASCII characters; 2 (3) words with arbitrary gaps of 6 kinds; texts of 1200 characters, words of 300; runs of up to 300 marks with an arbitrary character in it; all sequences of 5 out of 5 marks, letters and blanks; texts of 8 to 100 words that are alike but for one; words and gaps of 65533 to 70001 bytes.")
prop("C12", "Printing a string and parsing it gives the string back",
     "A string of symbols prints as the names of its symbols in order with one space between them, and parsing that text gives the same string again, provided every name is one word that is not a rule mark. In particular whatever was parsed survives being printed and parsed. A symbol without a name prints its code.",
     ["inputs"], "All strings whose symbols have names that are single words, any Unicode names.",
     "Round trips depend on the names; the tests try a few plain ones.",
     ["src/strings.rs", "src/symbols.rs", "src/parser.rs"], [("Display for ProductionString and Symbol", "src/strings.rs, src/symbols.rs"), ("parse_prod_string", "src/parser.rs")],
     "2 (3) arbitrary words of 2 bytes or delimiter runs, 1 word of 4 bytes; everything that parses among all UTF-8 texts of 4 (5) bytes; strings of 400 and 3000 symbols; texts of 8 to 100 words that are alike but for one; names of 31 to 1025 characters.")
prop("C13", "Parsing a rule recovers its contexts, target, chance and replacement",
     "Text of the form 'left < target > right -> chance replacement', with either context, the chance and the replacement optional and any spacing, gives a rule with exactly those parts, by every way of parsing rules. The first '<', and the first '>' behind it, are the context marks; a further mark is a name like any other. A rule without an arrow, with nothing before it, or without exactly one target is an error. No text of any kind makes parsing a rule crash.",
     ["inputs"], "All rule texts: every combination of parts, names and spacing, and arbitrary text.",
     "The tests parse a handful of rules; combinations of optional parts, marks in odd places and arbitrary text are not covered.",
     ["src/parser.rs", "src/productions.rs"], [("parse_production, parse_production_head, parse_production_body", "src/parser.rs")],
     "Every combination of optional parts with up to 1 arbitrary ASCII name in each context and 1 (2) in the replacement, three spacings; all UTF-8 texts of 4 (5) bytes, and 2 (3) bytes on each side of an arrow; heads out of 4 (6) words or 3 (4) bytes; contexts of up to 12 and replacements of up to 36 names; up to 300 names; 43 unusual names in every part; rules of 8 to 100 words that are alike but for one.")
prop("C14", "Tokens tell where each word is and of what kind",
     "The tokens of a text are exactly its words, in order: each token carries the text, the byte positions where it starts and ends in the original, and the kind (context marks, arrow, terminator or symbol). Every text has finitely many tokens and none makes the tokeniser crash.",
     ["inputs"], "All texts, including any Unicode characters.",
     "The tests look at token texts for ASCII input; positions after multi-byte characters and termination on every input are not covered.",
     ["src/parser/iterator.rs", "src/parser/token.rs"], [("TokenIterator::next", "src/parser/iterator.rs"), ("TokenKind", "src/parser/token.rs")],
     "All valid UTF-8 texts of 3 and 4 (5) bytes; texts of 72 kB; all sequences of 6 out of 5 marks, letters and blanks.")
prop("C15", "A plant file means what its lines say",
     "Reading a plant file gives the iterations, angle, start string and rules of its lines in any order, with the later of two settings counting and the defaults (2 iterations, 5 degrees) where there is none; '#' comments, blank lines, spacing and either line ending change nothing. A malformed line, number or rule, or a file without a rule or without a start string, is an error. No text makes reading crash.",
     ["inputs"], "All sequences of lines, numbers, comments; arbitrary text.",
     "The tests read one well-formed file; order, repetition, malformed values and comments in every place are not covered.",
     ["src/interpretation/abop/parser.rs"], [("parse, parse_line, parse_equality", "src/interpretation/abop/parser.rs")],
     "All files of 3 (4) lines out of 13 kinds with either ending; iterations of 3 (6) arbitrary digits; arbitrary values of 3 (4) bytes; arbitrary comments of 3 bytes in 4 places; all texts of 3 (5) bytes; start strings of 2 (3) arbitrary bytes; files of 140 (250) rules; 2 rules with and without chances; numbers of any length; settings given twice, 12 malformed lines among every kind of lines; 22 comments that look like something else in 4 places; lines of up to 70000 characters.")
prop("C16", "A family name stands for one family, registered once",
     "Of any number of attempts to register a family under a name exactly the first succeeds, blank names are refused, and from then on the name always leads to that same family. Asking for a family or else making it makes it exactly if the name is free, once even when threads ask at the same time, and all of them get the same family. Families of other names are never disturbed and no thread blocks forever.",
     ["histories", "schedules", "inputs"], "All histories of registering, looking up and get-or-make on any names, and all interleavings of two threads.",
     "Tests share one process-wide registry and cannot force interleavings; double initialisation and replacement of a registered family need particular histories or schedules.",
     ["src/system/family.rs"], [("register, get_family, family_exists, get_or_init_family", "src/system/family.rs")],
     "Histories of 3 (4) operations on two arbitrary names of 1 (2) bytes; families made on demand under another name than their own; 70 families at once; two threads, four combinations of operations on arbitrary one-letter names, all interleavings at lock, atomic and shared-memory steps with up to 3 (4) preemptions; a thread that finds a lock taken hands over at once or spins until it sleeps; 40 families nobody holds; names of up to 300 characters that differ in one of four places.")
prop("C17", "A system of a family knows exactly the family's symbols",
     "A system made from a family, given directly or by its registered name, knows exactly the symbols the family defines and has no rules; it can be made exactly if the family exists and none of its symbols is blank. The plants family provides its commands however and in whatever order it was set up, and systems made from one family do not share what is added to one of them.",
     ["inputs", "histories"], "All families and names, and all orders of registering and making systems.",
     "The tests make one system of one family; names by value or registry, duplicates, blanks and isolation are not covered.",
     ["src/system.rs", "src/system/family.rs", "src/interpretation/abop.rs"], [("System::of_family, TryIntoFamily", "src/system.rs, src/system/family.rs"), ("abop_family, AbopTurtleInterpretation::system", "src/interpretation/abop.rs")],
     "Families of up to 2 terminals and 1 (2) productions with arbitrary names of 1 (2) bytes; registered and unregistered names of 2 (3) bytes; families of up to 300 symbols; three ways of having the plants family; two families with the same or different names and symbols; two symbols out of 15 names that are alike, declared in four ways.")
prop("C18", "The turtle draws what the commands say",
     "Interpreting a string draws exactly the segments of the turtle's path: it starts at the origin heading up, 'Forward' draws and 'Move' skips one step of length 5, '+' turns counter-clockwise and '-' clockwise by the angle, '[' saves and ']' restores position and heading, and any other symbol (or one the symbol store does not know) does nothing. A ']' without a '[' is an error, and no string makes it crash. The settings given are the settings used.",
     ["inputs", "configurations"], "All strings of commands, several angles, all symbol stores, all settings.",
     "The tests interpret a few fixed strings; the interplay of stack, pen and heading, and what follows a restore, is a question over all command sequences.",
     ["src/interpretation/abop.rs", "src/geometry.rs"], [("AbopTurtleInterpretation::interpret", "src/interpretation/abop.rs")],
     "All strings of 4 (6) out of 8 commands, of 2 (3) after Forward for 8 angles, 2 (4) inside a nested plant of 20; 2 (3) with every pair of commands missing from the store; plants derived from rules for 2 (4) iterations; segments compared up to 1e-6; 600 (3000) commands with 300 (2000) nested branches and two arbitrary commands; 16 angles from 1e-6 to 359.99 turned by up to 40 times; branches that end where they or others began, for 6 angles; 18 names that are nearly commands.")
prop("C19", "Bounds are the tight box around all points",
     "The bounds of a path, or of several paths, exist exactly if there is at least one point; every point lies inside and each side touches some point, whatever the coordinates and however the points are spread over the paths. Width, height and centre follow from the sides, and the centre of mass is the mean of all points, each counted once.",
     ["inputs"], "All finite coordinates, all numbers of points and paths, empty paths included.",
     "The tests use one path of positive integers; all-negative coordinates, empty paths among others and paths of different lengths are not covered.",
     ["src/geometry.rs"], [("Bounds for Path and collections, BoundingBox", "src/geometry.rs")],
     "Up to 3 (5 and 4) points with arbitrary finite coordinates below 1e100, split in every way over three paths; centre of mass for 3 (5) points with quarter-integer coordinates, up to 1e-9; 10 (19) points one of which is any finite point, 30 (50) points on up to 9 paths one of which is arbitrary in 1024ths at three magnitudes; the centre of mass of 12 with 3 arbitrary coordinates; 600 (5000) points on 1 and on 200 (1700) paths with one arbitrary coordinate; 3 (9) points that all lie beyond 10 distances from 5e-324 to 1e300 on one side of both axes.")
prop("C20", "A drawing is scaled to fit the canvas, centred and undistorted",
     "The document made for a drawing has the size asked for and contains every path with its points; one uniform scale, upside down so that up is up, places all of them. The placed drawing lies inside the canvas, is centred in both directions and fills it in at least one; a single point is centred. A drawing with nothing in it gives a well-formed document, and nothing makes it crash or give a placement that is not finite.",
     ["inputs", "configurations"], "All drawings and canvas sizes.",
     "The tests compare nothing numerical; degenerate drawings (points, lines), extreme proportions and drawings far from the origin are not covered.",
     ["src/interpretation/svg.rs", "src/geometry.rs"], [("SvgPathInterpretation::interpret", "src/interpretation/svg.rs")],
     "Drawings of 5 shapes with an arbitrary quarter-integer coordinate on 6 canvas sizes, two on 1 (6); empty drawings for every width below 256; drawings of all turtle strings of 3 (5) commands; placement compared up to 1e-7 of the size; every canvas up to 256x256 for 4 drawings; drawings at magnitudes from 1e-6 to 1e12 and away from the origin; 300 paths; drawings whose width and height differ by up to 15 magnitudes, canvases of up to 1e12; drawings at magnitudes from 1e-300 to 1e290.")
prop("C21", "SVG text says exactly what the elements hold",
     "The text of a path has one move for its first point and one line for each further one, with every coordinate exactly and in order; a circle has its centre, radius and exactly the decorations given. A document of an interpretation has the size asked for and one element for each path, in one group that draws lines and fills nothing, and everything written is well-formed. A circle can be made exactly with a radius that is zero or more.",
     ["inputs"], "All finite coordinates, radii, decorations, numbers of points and paths.",
     "The tests compare two strings; coordinates of any magnitude, missing points and nesting are not covered.",
     ["src/interpretation/svg.rs"], [("ToSvg for SvgPath, SvgCircle, SvgGroup, Svg", "src/interpretation/svg.rs")],
     "Paths of up to 3 (8) points with arbitrary finite coordinates; all centres, radii and line widths with 4x4 decorations; documents of up to 3 (6) paths and every size below 256x17; paths of 2000 points, documents of 300 paths and sizes up to 2^40; decorations of up to 2 (3) arbitrary ASCII characters. Formatting a number as text is trusted (Rust's shortest round-trip output).")
prop("C22", "Points, vectors and paths compute coordinate by coordinate",
     "Adding, subtracting, negating, dividing, converting and comparing points and vectors work on each coordinate with ordinary floating-point results; the named constants are what they are called and the length of a vector follows Pythagoras. A path keeps its points in order however it is built, read or copied, and moving a path moves every point by the vector.",
     ["inputs"], "All finite coordinates, paths of any length.",
     "The tests add a few integers; swapped coordinates and lost points show only for other values.",
     ["src/geometry.rs"], [("operators of Point and Vector, Path, AddAssign/Add<Vector>", "src/geometry.rs")],
     "All finite coordinates below 1e100; division by 8 constants; lengths for quarter-integer coordinates and 5 exact triangles; paths of up to 3 (8) points; every 64-bit position of a path; paths of 5000 points.")
prop("C23", "Rotating a vector turns it counter-clockwise by the angle",
     "Rotating a vector by an angle in degrees gives the vector turned counter-clockwise by that angle: same length, any sign and size of the angle, for every vector. Turning twice is turning by the sum, and turning back undoes it.",
     ["inputs"], "All vectors, many angles.",
     "The tests rotate by one angle; the sign, the unit and the mixing of old and new coordinates depend on both.",
     ["src/geometry.rs"], [("Vector::rotate", "src/geometry.rs")],
     "Every multiple of 7.5 degrees from -720 to 720 and 15 odd angles up to 1e6 against all vectors with coordinates in 1024ths below 2^21 (up to 2e-5) and in quarters below 32 (up to 1e-9); 12 by all angles one after the other on the latter; 8 angles by up to 100000 whole turns either way. The sine and cosine of the C library are trusted.")
prop("C24", "Files are read and written whole",
     "Reading a plant file gives exactly what its text gives. A file that is missing, cannot be read to its end or is not UTF-8 is an error, never a shortened or altered plant. Saving a document leaves exactly its text in the named file, replacing whatever was there, or reports the error; interrupted and partial reads and writes neither lose nor double anything, no other file is touched, and the file is closed afterwards.",
     ["inputs", "fault_sequences"], "All file contents, and all ways in which each system call may fail, be interrupted or do only part of what was asked.",
     "No test reads or saves through a faulty system; a partial write, an interrupted call or an ignored error only shows when one happens.",
     ["src/interpretation/svg.rs", "src/interpretation/abop/parser.rs"], [("Svg::save_file", "src/interpretation/svg.rs"), ("parse_file", "src/interpretation/abop/parser.rs")],
     "An in-memory file system takes the place of libc's calls under the real standard library; every call may fail for good, be interrupted, or transfer one byte or half, up to 3 (5) times a run. Plant files with 2 (3) arbitrary bytes, all files of 2 bytes, files of 0.5 (5) kB; documents of up to 700 (4000) points to new, existing and impossible files, and twice to one file; outputs that exist with the same, a smaller and a larger size; 11 other files beside the one saved; byte order marks and odd bytes at either end of a file; 30 odd file names, with and without a home directory in the way.")
prop("C25", "The command-line tool draws the plant file it is given",
     "Given a plant file the tool saves exactly the drawing the library makes of it, in the size asked for (500 by 500 by default), to the output named ('out.svg' by default), whose extension becomes .svg unless it is that already. It succeeds exactly if all of this was done; otherwise it exits with a failure and reports the error on standard error, and a plant that cannot be drawn leaves every file as it was. Describing lists each symbol of the plants family once, under its heading and with its description; no file name, content, order of options or failing system call makes the tool crash.",
     ["inputs", "configurations", "fault_sequences"], "All plant files, file names, options in any order, and all ways in which system calls may fail.",
     "The tool has no tests at all; what it does depends on the combination of options, names and failures.",
     ["src/bin/lsystem/derive.rs", "src/bin/lsystem/main.rs", "src/bin/lsystem/cli.rs", "src/bin/lsystem/describe.rs"], [("handle_derive", "src/bin/lsystem/derive.rs"), ("describe", "src/bin/lsystem/describe.rs")],
     "The real main with clap and the standard library, run from its arguments to its exit code above an in-memory file system. Plant files with 1 (2) arbitrary bytes; up to 1 (3) faulty system calls; 432 combinations of options; output names of 4 (6) characters out of 5; input names with 1 (3) arbitrary bytes; 7 wrong usages; widths and heights from 0 to 2^64-1; plants and drawings in 8 and 19 places, in existing and missing directories.")
prop("C26", "Equal things are equal and hash alike",
     "Symbols are equal exactly if their codes are, strings exactly if they have the same symbols in the same order, rule heads exactly if target and both contexts are equal (an absent context differs from an empty one), and rules exactly if their heads are. Whatever is equal hashes alike, so that collections of them work.",
     ["inputs"], "All pairs of symbols, strings and heads.",
     "The tests compare a few; the consistency of equality and hashing is a statement about all pairs.",
     ["src/symbols.rs", "src/strings.rs", "src/productions.rs"], [("PartialEq and Hash of Symbol, ProductionString, ProductionHead, Production", "src/productions.rs")],
     "All pairs of 32-bit symbols; strings of up to 4 (8) arbitrary symbols; heads with contexts of up to 1 (2) symbols over 2 letters; strings of 5000 symbols; strings and contexts of every length up to 24 (80) with an arbitrary symbol in the last ten places; rules of 2 and 3 replacements merged that may be the same.")
prop("C27", "Going through the symbols of a rule visits each one in order",
     "Iterating over the symbols of a head gives its left context, its target and its right context, those of a rule its head and then every replacement in the order added, each symbol exactly once for each occurrence. Merging two rules keeps the replacements of both in order.",
     ["inputs"], "All rules with contexts and replacements of any length, absent or empty ones included.",
     "The tests iterate over two rules; absent, empty and long parts take different ways through the iterators.",
     ["src/symbols/iterator.rs", "src/productions.rs"], [("SymbolIterable, SymbolIterator", "src/symbols/iterator.rs"), ("Production::merge, add_body", "src/productions.rs")],
     "Contexts of up to 2 (3), up to 2 (3) replacements of up to 2 (3) arbitrary 32-bit symbols; merging up to 4 and 4 replacements; contexts and replacements of 300.")
prop("C28", "A string of symbols is the sequence it was built from",
     "A string of symbols has exactly the symbols pushed to it or collected into it, in order: its length, emptiness, positions, every way of iterating and a copy agree on them.",
     ["inputs"], "All sequences of symbols.",
     "The tests build strings of a few symbols and check some of the ways of reading.",
     ["src/strings.rs"], [("ProductionString", "src/strings.rs")],
     "Up to 6 (20) arbitrary 32-bit symbols; 70000 symbols; strings of every length up to 20 with an arbitrary symbol anywhere.")
prop("C29", "Stores of one's own hold exactly what is parsed into them",
     "Parsing rules into a symbol store and a production store supplied by the user puts exactly the symbols that occur in the accepted rules into the one and the rules, in order, into the other; the rule added is returned. Text that is not a rule is rejected and adds nothing.",
     ["inputs", "histories"], "All sequences of rules, accepted and rejected.",
     "The tests only use the stores of a system.",
     ["src/parser.rs", "src/symbols.rs", "src/productions.rs"], [("parse_and_add_production, SymbolStore and ProductionStore for RefCell", "src/parser.rs, src/symbols.rs, src/productions.rs")],
     "Sequences of 2 (3) rules in 4 forms over 4 names; 90 (300) rules; 17 texts that are or are not rules, each wrong in a different part.")

# how each property is decided: what is symbolic, against what oracle
HOW = {
"C01": "harnesses build rules and a string with symbolic symbols, run `derive_once` / `System::derive` and compare with a ten-line reference rewriting written over plain arrays (for each position: first rule whose head fits the old string).",
"C02": "the result of `derive` with a symbolic number of iterations is compared with that many calls of `derive_once`; systems are derived twice and compared with lists.",
"C03": "`ProductionHead::matches` with symbolic contexts, string and a fully symbolic 64-bit position against a direct statement of the three conditions; a panic anywhere is a violation.",
"C04": "symbolic additions to a system; the rules listed afterwards, the rule returned and the derived string are compared with a table of heads kept in order of first addition.",
"C05": "the random source is replaced by arbitrary 32/64-bit outcomes (rand's own arithmetic on them is executed); the set of draws that selects each replacement is decided by Z3: each share's borders must lie within the tolerance of the given chances, whatever the direction or the order in which a draw is mapped to replacements.",
"C06": "`try_with_chance` with a symbolic 32-bit float; symbolic number texts through the parser against a recogniser of Rust's number syntax; the value kept is compared bit for bit.",
"C07": "symbols known to the system (count, look-up by name, and the whole list) against the set of what was added, after symbolic rules and after rejected ones.",
"C08": "`get_code`, `get_name`, `Symbol::build`, `TryFrom` on symbolic UTF-8 names; equality of codes is compared with equality of the trimmed names, with `str::trim` as specification of trimming.",
"C09": "two or three threads with symbolic names; the executor explores the schedules; every thread asserts what it may rely on, and the final registry is checked; a schedule where nothing can run is a violation (deadlock).",
"C10": "as C09 with threads that add rules, symbols and derive; the final rules, what each addition returned and every derivation are compared with what some moment allows.",
"C11": "`ProductionString::from_str` on symbolic UTF-8 text against a reference splitter over characters (`char::is_whitespace` as specification of whitespace).",
"C12": "printing and parsing symbolic strings; the text is compared with the names joined by spaces, and the parsed result with the original.",
"C13": "texts assembled from symbolic parts; every public way of parsing rules is run and the parts of the result are compared with the parts put in; arbitrary texts against a reference grammar, where the grammar settles it, and for crashes.",
"C14": "the tokens of symbolic text against the reference splitter, with positions and kinds.",
"C15": "symbolic sequences of lines against a reference meaning (later setting wins, defaults, errors); symbolic digits, values, comments; arbitrary texts for crashes.",
"C16": "symbolic histories against a map from names to families; threads as in C09.",
"C17": "symbolic families; what the system knows against the family's names; isolation by adding to one of two systems.",
"C18": "symbolic commands; the set of drawn segments (not how they are split into paths) against a reference turtle with the same sine and cosine, up to 1e-6.",
"C19": "symbolic coordinates; containment and touching are checked in exact floating-point terms; centre of mass against the sum, up to 1e-9.",
"C20": "symbolic extents and canvas sizes; the placed corners are computed from the transform in the written document and compared with canvas and centring conditions.",
"C21": "the produced text is parsed back by a small reader in the harness (numbers stay symbolic through formatting, see float markers) and compared with what was put in.",
"C22": "symbolic coordinates; results compared bit for bit with the operation on each coordinate.",
"C23": "symbolic vectors, listed angles; the result against the rotation formula, where rounding errors are bounded by the executor's rounding analysis.",
"C24": "plant files and documents over an in-memory file system whose calls fail, are interrupted or partial as the solver chooses; the outcome is compared with the whole text or an error.",
"C25": "the tool's real `main` is run on symbolic files, options and faults; files, exit code and standard error afterwards are compared with what the library makes of the same plant.",
"C26": "equality and hashes (a recording `Hasher`) of pairs of symbolic values against equality of their parts.",
"C27": "`all_symbols_iter` of symbolic heads and rules against the concatenation of their parts.",
"C28": "symbolic symbols pushed or collected, and read back in every way there is.",
"C29": "rules parsed into `RefCell` stores; stores against what was accepted.",
}

NA = []
def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p, _ in P: f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                          technique="symbolic execution of the compiled LLVM IR with Z3" + (", thread schedules included" if "schedules" in p["quantifier"]["over"] else ""),
                          level="model_checking",
                          level_note="Every path of the real code over the harness inputs is executed symbolically and each check decided by Z3 for all values within the bounds. Bounds, quick (thorough): " + n +
                          " Trusted: rustc's LLVM IR at opt-level 1 and the executor's semantics of it (completed paths are replayed natively), Z3.") for p, n in P],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes="No hooks in /repo: the checks use its public API. See DESIGN.md.")
    with open(HERE + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")

if __name__ == "__main__": main()
