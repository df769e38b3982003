#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None,
                  **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {})}})

I=["inputs"]; H=["inputs","histories"]; C=["inputs","configurations"]
UT="The unit tests pin a few hand-picked values; "

prop("C01","Rows form the symmetric group",
 "Rows behave as permutations: transposition (multiplication) is associative, rounds is the identity, division undoes multiplication, and inverse, powers, conjugation, parity, order, number and length of cycles, cycle notation, and the search for a conjugating row agree with permutation theory, including when rows on different numbers of bells are combined. The named rows (rounds, reverse rounds, queens, kings, tittums, cyclic and plain-bob lead heads) are the rows ringers mean by those names and are recognised as such. Building a row from anything that is not a permutation is rejected, and hashing and comparison are consistent with equality.",
 I,"every row (or tuple of rows) on 0 to 33+ bells and every exponent and index",
 UT+"the laws quantify over all n! rows of every stage and over mixed stages.",
 ["ringing/row.cpp","ringing/row.h"],
 [("operator*, operator/, inverse, power","ringing/row.cpp"),("validate / swap of a bell vector","ringing/row.cpp"),("cycles, order, sign, conjugator","ringing/row.cpp")],
 ["return values and exceptions of the row class"])

prop("C02","Changes swap disjoint adjacent pairs and nothing else",
 "A change on n bells moves each bell by at most one position and is its own inverse; its text, parsed places, swapped pairs, parity, number of swaps, internal and external places, application to a row and to a single position all describe that same involution. Toggling a swap edits exactly the requested pair (cancelling whatever overlapped it), reversing mirrors it, and after any sequence of edits the change is still such an involution. Text that does not describe a change on n bells is rejected with an exception.",
 H,"every change on up to 33 bells, every place-notation text and every sequence of edits to a change",
 UT+"edit sequences and arbitrary texts are not explored.",
 ["ringing/change.cpp","ringing/change.h"],
 [("change::set / print","ringing/change.cpp"),("swappair, internal, sign, count_places","ringing/change.cpp"),("row *= change","ringing/row.cpp")],
 ["return values and exceptions of the change class"],
 [("swaps","sorted list of lower positions of swapped pairs","ringing/change.h")])

prop("C03","Bells, rows and changes survive a trip through text",
 "Printing a bell, row or change and reading it back gives the same value for every number of bells the library can write, both through conversion functions and through formatted stream extraction, and with any replacement bell symbols installed. Stream extraction consumes only the characters that belong to the value, skips leading white space, and on malformed input reports failure and leaves the target unchanged. Malformed texts are rejected by the conversion functions.",
 I,"every bell, every row and change text, every stream content surrounding it, every symbol table",
 UT+"streams with trailing data, end of file, malformed input and custom symbol sets are not covered.",
 ["ringing/bell.cpp","ringing/row.cpp","ringing/change.cpp","ringing/istream_impl.h"],
 [("bell symbols and extended form","ringing/bell.cpp"),("row parsing","ringing/row.cpp"),("stream extraction","ringing/istream_impl.h, ringing/row.cpp")],
 ["text produced, values parsed, stream state and position"])

prop("C04","Place notation expands to exactly the changes it denotes",
 "Expanding place notation yields precisely the sequence of changes it denotes: dots and crosses separate changes, implied external places are filled in, a block marked symmetric is unfolded palindromically about its last change, and the comma-separated blocks of a notation concatenate. Malformed notation raises an error rather than producing changes. Writing a method back in any of the supported notation styles and expanding that gives the same sequence of changes again (without its last change, when the style asks for the lead-head change to be left out).",
 C,"every place notation text on 3 to 33 bells; every method times every combination of formatting flags",
 UT+"they cover a handful of well-known methods and a few formatting flags.",
 ["ringing/place_notation.h","ringing/place_notation.cpp","ringing/method.cpp"],
 [("interpret_pn / block expansion","ringing/place_notation.h"),("method::format","ringing/method.cpp")],
 ["vector of changes of a method, formatted place notation"])

prop("C05","Method analysis describes the method's actual rows",
 "For every method the reported lead head, number of leads, hunt bells, lead-head code, regularity, maximum blows in one place, palindromic, rotational (double) and per-bell symmetry and symmetry points, and per-bell path facts (plain hunting, dodging, making internal places) are exactly those observed by ringing the method out row by row.",
 I,"every method: any sequence of one or more changes on 3 to 16 bells",
 UT+"only a few standard methods are checked.",
 ["ringing/method.cpp","ringing/method.h"],
 [("lh, leads, huntbells, maxblows, lhcode","ringing/method.cpp"),("symmetry_point, is_palindromic_about, isdouble","ringing/method.cpp"),("isplain, hasdodges, hasplaces","ringing/method.cpp")],
 ["return values of the method class"])

prop("C06","Methods are classified and titled by the rules of classification",
 "A method's class (principle, differential, plain bob or place, treble bob, surprise, delight, treble place, alliance, hybrid, and the little and differential qualifiers) follows, for a method rung from its usual start, from its hunt bell's path and the internal places made when it crosses between dodging positions. Its full title is its name followed by the class and stage words those imply, with the stage named correctly for every number of bells, and titling does not disturb the method.",
 I,"every method on 3 to 22 bells, every name",
 UT+"a few known titles are asserted; class boundaries are not explored.",
 ["ringing/method.cpp"],
 [("methclass","ringing/method.cpp"),("fullname, classname, stagename","ringing/method.cpp")],
 ["classification bits and full title of a method"])

prop("C07","Enumerations of the extent visit each row exactly once",
 "Iterating over the extent, the in-course half, the tenors-fixed or hunt-bell-fixed extents, or all changes of a stage yields every qualifying row or change exactly once and nothing else. Looking up the n-th row and finding a row's position are inverse to each other and agree with the order of iteration.",
 C,"every number of working, hunt and total bells and every position within range",
 UT+"only a few small stages are enumerated.",
 ["ringing/extent.cpp","ringing/extent.h"],
 [("extent_iterator, incourse_extent_iterator, changes_iterator","ringing/extent.cpp, ringing/extent.h"),("nth_row_of_extent, position_in_extent","ringing/extent.cpp")],
 ["sequences produced by the iterators; return values"])

prop("C08","Groups are closed and behave as groups",
 "A group generated by any set of rows contains exactly the closure of those rows, each member once, always including rounds. The standard groups (trivial, symmetric, alternating, cyclic, dihedral), conjugates, direct products, invariants, subgroup and membership tests, and left and right cosets with their canonical representatives agree with group theory.",
 I,"every set of generators on up to 8 bells; every pair of groups and rows",
 "No test asserts coset labels, direct products or closure for arbitrary generators.",
 ["ringing/group.cpp","ringing/group.h"],
 [("generate","ringing/group.cpp"),("lcoset_label, rcoset_label, direct_product, invariants","ringing/group.cpp")],
 ["members of group objects, results of group functions"])

prop("C09","Multiplication tables agree with multiplying rows",
 "A precomputed multiplication table over a set of rows, with or without part-end symmetries, gives for every row and every multiplier registered before or after other use the same product as multiplying the rows directly. Looking up a row finds its own entry, distinct entries stand for distinct rows (or distinct cosets of the part ends), and copying or swapping tables preserves all of this.",
 H,"every set of rows, part-end group and sequence of registered multipliers and changes",
 "No test exercises the tables.",
 ["ringing/multtab.cpp","ringing/multtab.h"],
 [("multtab constructor / compute_pre_mult / compute_post_mult","ringing/multtab.cpp"),("row_t arithmetic","ringing/multtab.h")],
 ["rows returned by table lookups"])

prop("C10","A touch is proved true exactly when no row repeats too often",
 "The prover declares a sequence of rows false exactly when some row occurs more often than the permitted number of times, reports how many distinct rows are repeated and where each repeated row occurred, and keeps doing so after rows are removed. Proving a list in one go, adding rows one at a time, allowing multiple extents, and branching a prover for look-ahead all give the verdict of a direct count of the rows.",
 H,"every sequence of additions, removals and branches of rows on any stage, every permitted number of extents",
 "No unit test proves anything; four gsiril scripts prove a few short touches.",
 ["ringing/proof.cpp","ringing/proof.h"],
 [("prover::add_row / remove_row","ringing/proof.cpp"),("proof::prove","ringing/proof.cpp"),("create_branch","ringing/proof.h")],
 ["prover and proof verdicts and failure reports"],
 [("row counts","multiset of rows rung so far","ringing/proof.h")])

prop("C11","False course heads are exactly those that repeat a row",
 "The falseness table of a method lists exactly the lead or course heads whose lead or course shares a row with the plain one, honouring the requested restrictions (in-course, out-of-course, tenors together, principle). The lettered false-course-head groups it reports are exactly those with a member in the table, and the letters written and read are consistent.",
 C,"every method on 4 to 8 bells and every combination of falseness options",
 "Only methsearch's output for a few searches includes falseness groups.",
 ["ringing/falseness.cpp","ringing/falseness.dat","ringing/falseness.h"],
 [("falseness_table::generate","ringing/falseness.cpp"),("false_courses / fchs lookup","ringing/falseness.cpp, ringing/falseness.dat")],
 ["contents of falseness tables and group symbols"])

prop("C12","Music and wildcard matching agree with the pattern's meaning",
 "A row matches a wildcard pattern exactly when its bells can be laid against the pattern, where a question mark stands for any one bell, brackets for one of a set and a star for any run. Music scoring counts, separately for handstroke and backstroke, how many of the supplied rows match each pattern, adds the scores given to each pattern for each stroke, and totals are the sums over the patterns; resetting starts again from zero. The reported number of rows a pattern could ever match is the true number, and malformed patterns are rejected.",
 H,"every pattern on any stage, every collection of rows, every split of strokes",
 UT+"no wildcards with several stars or brackets, few score combinations.",
 ["ringing/music.cpp","ringing/music.h","ringing/row_wildcard.cpp"],
 [("music tree build and match","ringing/music.cpp"),("row_wildcard","ringing/row_wildcard.cpp"),("possible score counting","ringing/music.cpp")],
 ["match results, counts, scores"])

prop("C13","Touch searches find every true touch and only true touches",
 "Every touch reported by a search for touches of a method with given calls, part ends, and a length range is within the range, comes round when that is required, is true, and is built only from whole leads of the method with an optional call at each lead end. Every touch meeting the requirements is reported exactly once, or exactly once up to rotation when rotations are to be ignored.",
 C,"every method, set of calls, part-end group, length range and option set small enough to enumerate",
 "No test runs a touch search.",
 ["ringing/basic_search.cpp","ringing/table_search.cpp","ringing/search_base.cpp","ringing/touch.cpp"],
 [("basic_search::run","ringing/basic_search.cpp"),("table_search::run, lead falseness table, rotation canonicalisation","ringing/table_search.cpp"),("touch node expansion","ringing/touch.cpp")],
 ["touches delivered to the output iterator"])

prop("C14","Method libraries are read faithfully in every format",
 "Reading a method library in any supported format (MicroSIRIL-style, Central Council text, light-weight plain text, XML) yields each method in the file once, in order, with the number of bells, name and changes the file states, and looking a method up by title or by its changes finds it exactly when it is present. A file in none of the formats is not accepted as a library. Supplementary facts in the file (references, first peal details) are attached to the right method.",
 C,"every library file content in each of the four formats, every title searched for",
 "No test reads a library.",
 ["ringing/library.cpp","ringing/mslib.cpp","ringing/cclib.cpp","ringing/litelib.cpp","ringing/xmllib.cpp","ringing/libfacet.cpp","ringing/peal.cpp"],
 [("library::find, registration of formats","ringing/library.cpp"),("per-format entry readers","ringing/mslib.cpp, ringing/cclib.cpp, ringing/litelib.cpp, ringing/xmllib.cpp")],
 ["entries, methods, facets and errors delivered by libraries"])

prop("C15","Methods written out or collected can be read back unchanged",
 "Methods written to the library formats the system can write (plain text stream and XML) and read back give the same methods with the same names, stages, changes and attached facts. A method set holds each distinct method (as identified by its changes) appended to it once, keeps the name and the chosen facts it was first appended with, and finds each by title and by changes.",
 H,"every list of methods with any names and facets, every choice of output form",
 "No test writes a library.",
 ["ringing/libout.cpp","ringing/xmlout.cpp","ringing/methodset.cpp","ringing/method_stream.cpp","ringing/dom_gdome.cpp"],
 [("xmlout::append","ringing/xmlout.cpp"),("method_stream::append","ringing/method_stream.cpp"),("methodset","ringing/methodset.cpp")],
 ["files and streams written; entries read back"])

prop("C16","Printed methods are well-formed and show the right rows",
 "Every PostScript, EPS or PDF document produced is well-formed: its declared page count, bounding box, PDF object offsets, cross-reference table and stream lengths agree with its content, and text is escaped so that it shows the characters asked for. The figures shown and lines drawn are those of the method's rows from the requested start, in order, split over columns and pages as requested, with no row lost or repeated at a boundary. Fonts, colours and sizes requested are the ones in the document.",
 C,"every method, page layout, option combination and text",
 "No test prints anything.",
 ["ringing/print.cpp","ringing/printm.cpp","ringing/print_ps.cpp","ringing/print_pdf.cpp","ringing/pdf_fonts.cpp","apps/psline/psline.cpp"],
 [("printmethod::print, defaults, fit_to_space","ringing/printm.cpp"),("printpage_pdf, pdf_file xref","ringing/print_pdf.cpp"),("printpage_ps","ringing/print_ps.cpp")],
 ["bytes of generated documents"])

prop("C17","Dimensions are read, converted and written consistently",
 "A length written in points, millimetres, centimetres, inches or plain decimal or mixed fractions is read as the length it denotes, and its value in points, and in every other unit, is that length to within rounding. Writing a length and reading it back gives an equal length, arithmetic on lengths matches arithmetic on their values, and malformed lengths are rejected.",
 I,"every textual length in every unit and every small integer scaling",
 "No test touches dimensions.",
 ["ringing/dimension.cpp","ringing/dimension.h"],
 [("dimension::read","ringing/dimension.cpp"),("in_points, to_string, reduce","ringing/dimension.cpp")],
 ["parsed and printed lengths"])

prop("C18","Basic arithmetic and text helpers are exact within range",
 "Factorials, greatest common divisors, least common multiples, integer powers, combinatorial counts and Landau's function are exact whenever the result fits the result type, and random integers and rows stay within the requested range and set. Converting numbers and bells to and from text either gives exactly the value the whole text denotes or reports failure.",
 I,"all arguments for which the mathematical result is representable; all texts",
 UT+"only a few small values are asserted.",
 ["ringing/mathutils.cpp","ringing/mathutils.h","ringing/lexical_cast.cpp","ringing/lexical_cast.h","ringing/extent.cpp"],
 [("factorial, gcd, lcm, ipower","ringing/mathutils.cpp"),("lexical_cast","ringing/lexical_cast.h")],
 ["return values and exceptions"])

prop("C19","Handles share and release what they own exactly once",
 "The library's owning, shared, copy-on-write and cloning handles destroy what they hold exactly once, when and only when the last owner lets go, under any sequence of construction, copying, assignment (including self-assignment), swapping, resetting and release. Writing through a copy-on-write or cloning handle never alters what another handle sees.",
 ["histories"],"every sequence of operations on every number of handles",
 "No test covers the handles.",
 ["ringing/pointers.h"],
 [("scoped_pointer, shared_pointer, cow_pointer, cloning_pointer","ringing/pointers.h")],
 ["construction, destruction and value of the held objects"])

prop("C20","gsiril proves what the composition actually rings",
 "For any composition whose meaning is defined by its program, gsiril rings exactly the rows the program denotes, and its verdict (true, false, or not round), the number of changes reported, the number of repeated rows and the exit status agree with a direct count of those rows. Extents, allowed repetitions, starting and finishing rows, part ends, and multiple proofs in one program are honoured, and one proof does not affect the next.",
 H,"every program in the language over any stage, with any nesting of definitions, repetitions, alternatives and conditions",
 "Four scripts are run by the existing suite.",
 ["apps/gsiril/proof_context.cpp","apps/gsiril/expression.cpp","apps/gsiril/statement.cpp","apps/gsiril/execution_context.cpp","ringing/proof.cpp"],
 [("proof_context permute / termination","apps/gsiril/proof_context.cpp"),("expression nodes","apps/gsiril/expression.cpp"),("prove statement","apps/gsiril/statement.cpp")],
 ["standard output and exit status of gsiril"])

prop("C21","gsiril evaluates its language as documented",
 "Definitions, sequencing, repetition, alternatives, conditionals, row patterns, arithmetic and comparisons, string output with escapes, symbols for rounds, truth and falsehood, imports, default symbols, MicroSiril and sirilic compatibility modes and command-line settings produce exactly the output their documented meaning implies. An erroneous statement produces an error message naming the line and a failing exit status, not a wrong result.",
 C,"every program and option set",
 "Four scripts are run by the existing suite.",
 ["apps/gsiril/parser.cpp","apps/gsiril/expression.cpp","apps/gsiril/functions.cpp","apps/gsiril/statement.cpp","apps/gsiril/prog_args.cpp","apps/gsiril/main.cpp","apps/utils/tokeniser.cpp"],
 [("tokenisers and parsers","apps/gsiril/parser.cpp"),("built-in functions","apps/gsiril/functions.cpp")],
 ["standard output, error output and exit status of gsiril"])

prop("C22","methsearch finds exactly the methods asked for",
 "Every method printed by a method search satisfies every requirement given (stage, lead length, blows, symmetry, treble path, class, places, lead head, number of leads, mask, true lead, falseness, parity, and so on), and every method that satisfies them all is printed, once. Narrowing a search with an additional requirement gives exactly the subset of the wider search that meets it.",
 C,"every combination of search options whose search space is small enough to enumerate independently",
 "54 option combinations are tested against stored counts; combinations of options are not.",
 ["apps/methsearch/search.cpp","apps/methsearch/mask.cpp","apps/methsearch/methodutils.cpp","apps/methsearch/falseness.cpp","apps/methsearch/prog_args.cpp"],
 [("searcher::general_recurse and pruning","apps/methsearch/search.cpp"),("mask parsing and matching","apps/methsearch/mask.cpp")],
 ["set of methods printed"])

prop("C23","methsearch reports the true facts about each method",
 "Each method-dependent value a method search can print (place notation in each style, name, lead head and its code, symmetries, blow counts, lengths, falseness groups, music counts and scores, path facts, expressions) and each require-expression is the value obtained by ringing that method, and the method counts and frequency tables printed are the true counts of the methods printed. Expression arithmetic and logic follow the documented meaning.",
 C,"every method found, every format string and expression",
 "Few format variables are checked on few methods.",
 ["apps/methsearch/format.cpp","apps/methsearch/expression.cpp","apps/methsearch/output.cpp","apps/methsearch/music.cpp","apps/methsearch/libraries.cpp"],
 [("method_properties","apps/methsearch/format.cpp"),("expression parser and nodes","apps/methsearch/expression.cpp"),("histogram output","apps/methsearch/output.cpp")],
 ["formatted output of methsearch"])

prop("C24","rowcalc computes row expressions by row algebra",
 "Evaluating an expression over rows, sets of rows, changes and place notation prints exactly the rows that the group operations denote: products, quotients, powers, conjugation, and element-by-element combinations of sets in order, including nested sets and expressions used as right-hand operands. Rows read from a stream are combined in the same way one by one, and invalid expressions are reported, with a failing status when they are arguments.",
 I,"every expression tree over rows and sets, every input stream",
 "No test runs rowcalc.",
 ["apps/rowcalc/rowcalc.cpp","apps/utils/row_calc.cpp"],
 [("row_calc expression nodes","apps/utils/row_calc.cpp")],
 ["standard output and exit status of rowcalc"])

prop("C25","musgrep selects and scores exactly the musical rows",
 "Given rows and patterns, musgrep prints exactly the rows matching at least one pattern, in input order, keeping only rows of the requested parity; in counting modes the counts, scores and totals are those of a direct match of every row, each scored for its stroke, on any number of bells. Rows on other numbers of bells are passed over, and reading ends at the first thing that is not a row.",
 C,"every input text, pattern set and option set",
 "No test runs musgrep.",
 ["apps/musgrep/musgrep.cpp","ringing/music.cpp"],
 [("row reading, stroke tracking, match","apps/musgrep/musgrep.cpp")],
 ["standard output and exit status of musgrep"])

prop("C26","The extent and method printers print the right rows",
 "The extent program prints exactly the rows of the requested extent or part of it, each once, with the requested hunts and tenors fixed and only the in-course rows when those are asked for. The method printer prints exactly the rows of the requested method from the requested start, whole leads or courses as asked, with the requested rounds before and after.",
 C,"every option set and every method",
 "No test runs these programs.",
 ["apps/extent/extent.cpp","apps/printmethod/main.cpp","apps/utils/bell_fmt.cpp"],
 [("extent main","apps/extent/extent.cpp"),("printmethod main loop","apps/printmethod/main.cpp")],
 ["standard output and exit status"])

prop("C27","touchsearch prints exactly the touches that exist",
 "The touch search program prints each true touch of the given method with the given calls, part ends and length range exactly once (up to rotation when requested, up to the limit when given), each shown by the calls that produce it with its true length and number of parts, and its count is the number of touches found. Filter mode keeps exactly the methods having such a touch, and plan mode prints exactly the touches made of the leads the plan permits (whose distinct leads are true to each other) joined by the given calls.",
 C,"every method, calls, part ends, lengths and option set small enough to enumerate",
 "No test runs touchsearch.",
 ["apps/touchsearch/main.cpp","apps/touchsearch/join_plan_search.cpp","apps/touchsearch/prog_args.cpp","ringing/table_search.cpp"],
 [("print_touch","apps/touchsearch/main.cpp"),("join_plan_search::run","apps/touchsearch/join_plan_search.cpp")],
 ["standard output and exit status of touchsearch"])

prop("C28","fextent's sets of leads are mutually true",
 "Every set of leads or courses reported by the mutually-true-leads search is mutually true under the requested part ends, contains the required leads, meets the in-course restriction (and, in whole courses, the tenors-together restriction) and the minimum size, and its reported size is that of the set printed. No set reported can exceed the extent, and the same seed gives the same result.",
 C,"every method, part-end group, option set and random seed",
 "No test runs fextent.",
 ["apps/fextent/fextent.cpp","ringing/falseness.cpp","ringing/multtab.cpp"],
 [("perturbation search state, falseness lookups","apps/fextent/fextent.cpp")],
 ["standard output and exit status of fextent"])

prop("C29","Splice tools report exactly the splices that exist",
 "The splice finder reports a pair (or, grouped together, a set) of methods exactly when the group generated by the falseness between their leads, under the requested conditions (in or out of course, half leads, same lead ends), is not everything or is of the size asked for, and describes it by that group: its size, halved as leads, and any pivot or swapping pair; as a filter it prints exactly the methods concerned. For palindromic methods the splicing planner prints exactly the ways of covering every lead head and lead end by mutually true leads of the given methods that are invariant under the part ends, each once (or once up to rotation), with true counts, and its plan files say the same.",
 C,"every set of methods on small stages and every option set",
 "No test runs these programs.",
 ["apps/splices/splices.cpp","apps/spliceplan/spliceplan.cpp"],
 [("splice grouping","apps/splices/splices.cpp"),("plan search","apps/spliceplan/spliceplan.cpp")],
 ["standard output and exit status"])

prop("C30","methodlib extracts exactly the methods asked for",
 "Extracting from one or several libraries prints exactly those methods that satisfy the title, prefix, stage and length requests (titles in the order requested), in the requested form, trying libraries and suffixes in the given priority; titles not found are reported and give a failing status.",
 C,"every library, list of titles and option set",
 "No test runs methodlib.",
 ["apps/methodlib/methodlib.cpp","ringing/library.cpp","ringing/method_stream.cpp"],
 [("filter_by_titles, filter_by_start","apps/methodlib/methodlib.cpp"),("method_stream output","ringing/method_stream.cpp")],
 ["standard output, error output and exit status of methodlib"])

prop("C31","No input makes the library misuse memory",
 "Whatever text, stream, file or sequence of valid calls the library is given, it performs no out-of-bounds or use-after-free access, no use of uninitialised values, no integer or pointer undefined behaviour, and it terminates; bad input is answered by an exception or an error state. Objects survive being copied, assigned to themselves, swapped and destroyed in any order.",
 H,"every byte string given to every parser and file reader, every sequence of calls meeting the documented preconditions",
 "The suite runs without instrumentation on well-formed input.",
 ["ringing/bell.cpp","ringing/row.cpp","ringing/change.cpp","ringing/place_notation.h","ringing/music.cpp","ringing/row_wildcard.cpp","ringing/dimension.cpp","ringing/cclib.cpp","ringing/mslib.cpp","ringing/litelib.cpp","ringing/xmllib.cpp"],
 [("input validation and exceptions throughout","ringing/*.cpp")],
 ["sanitizer and valgrind reports, termination"])

prop("C32","No input makes a program crash or hang",
 "Whatever options and input text they are given, the programs perform no memory misuse or undefined behaviour, do not die on a signal, and always end with a normal exit status, reporting options they do not have and missing or unwanted arguments as errors with a non-zero status, and saying what is wrong whenever they fail. Help and version requests succeed, and an option has the same effect however it is spelt.",
 C,"every command line, environment setting and input stream for each of the programs",
 "Only well-formed invocations of two of the programs are tested.",
 ["apps/utils/args.cpp","apps/utils/argv.cpp","apps/utils/tokeniser.cpp","apps/gsiril/parser.cpp","apps/methsearch/expression.cpp","apps/methsearch/format.cpp","apps/utils/row_calc.cpp"],
 [("argument parser","apps/utils/args.cpp"),("top-level exception handlers","apps/*/*.cpp")],
 ["exit status, signals, sanitizer reports"])

prop("C33","ringmethod's sound is the rows rung",
 "ringmethod writes a mono 16-bit PCM wave header giving the sample rate asked for, then the sound of exactly the rows read, and stops five seconds after the last blow. Bell by bell the blows follow each other at the spacing given by the peal speed (of 5000 changes, 2n+1 spacings to a whole pull of n bells), with the handstroke lead between whole pulls, displaced only by that bell's own offset and random deviation (which is reproducible for a given seed and has the mean and spread asked for). Each blow restarts its bell's sound: hum, prime, tierce, quint and nominal dying away, with the nominals on a major scale downwards to the tenor's frequency. A short row is completed by covering bells; a row on too many bells is refused with a message.",
 C,"every sequence of rows, number of bells, rate, speed, frequency, handstroke lead and offset",
 "No test runs ringmethod.",
 ["apps/ringmethod/ringmethod.cpp","ringing/mathutils.cpp"],
 [("header, do_ring","apps/ringmethod/ringmethod.cpp"),("harmonic, bell_sound, tower_sounds","apps/ringmethod/ringmethod.cpp"),("random_normal_deviate","ringing/mathutils.cpp")],
 ["standard output and exit status of ringmethod"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
