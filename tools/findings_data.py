def _f(p, *subjects):
    for s in subjects: FIXED[s] = p
_f("C01", "row::power() of the most negative int overflowed", "row_block() wrote to an empty block for half of a single change",
   "row::power() recursed for ever when the row's order exceeded the exponent")
_f("C02", "change::swappair() read past the end of the list of swaps")
_f("C04", "reading a bracketed bell in place notation dereferenced the end of the text")
_f("C05", "method::maxblows() returned -1 for a method without places", "finding a bell's symmetry point aborted for methods of odd length",
   "method::is_palindromic_about() read past the end of the method")
_f("C06", "method::methclass() read past the end of the lead head", "method::set_untitled() only had an effect the first time")
_f("C03", "the NUL character was accepted as a bell symbol", "reading a bell could take I or 1 for the symbol 0",
   "the bell {0} was accepted and read as bell 256", "extracting a row failed at the end of the stream and changed the row on malformed bells")
_f("C07", "stepping back from the end of an extent left the iterator at its end", "position_in_extent() read past the end of a row on fewer bells")
_f("C09", "a row that was not itself in a multtab with a post group was not found")
_f("C18", "hcf() divided by zero when one argument was zero", "lcm() overflowed when the product of its arguments did", "landau(0) converted a NaN to an integer")
_f("C11", "half-lead falseness tables of methods only used a quarter of the lead", "default-constructed falseness tables had uninitialised flags",
   "finding false courses never ended when the tenor did not come home")
_f("C10", "a full proof stopped collecting failures at the first false row", "a branch of a false prover claimed to be true",
   "provers forgot or kept the wrong lines of repeated rows", "proof's constructors used the failure details before they were constructed")
_f("C12", "music patterns missed rows when a star stood for nothing or for many bells", "a row matching a music pattern in several ways was counted several times",
   "matching music read past the end of the row", "music::set_bells() kept matching for the old number of bells", "music::clear() left the old patterns behind",
   "a plus sign in a music score was rejected", "the number of rows a wildcard pattern can match was often wrong")
_f("C13", "multi-part table searches ignored falseness between parts of opposite parity")
_f("C13", "a table_search constructor used its flags before they were initialised", "iterating over a touch dereferenced the end of an empty child",
   "touch searches reported some rotations of touches twice and missed others", "basic_search ignored falseness when the treble was not fixed",
   "multi-part table searches missed leads false against themselves in another part", "touch searches reported touches of methods whose leads repeat a row",
   "searches for non-round blocks reported false rotations and missed blocks", "a table_search constructed without lengths or part ends found nothing")
_f("C14", "xmllib returned the first handbell peal as the wrong type of facet", "xmllib looked for the location of a peal in the method, not in the peal", "mslib ignored the number of bells in the file name",
   "litelib stripped classes and stages that were not the last words of the name", "litelib left 'Treble' in the names of treble bob and treble place methods",
   "cclib treated every table after one of plain methods as plain", "cclib left the class in the base name, so that full names had it twice",
   "cclib denied having first handbell peals unless there was a column after that of tower bell peals", "litelib left 'Little' in the names of little hybrid methods",
   "mslib missed the number of bells in the file name if a directory's name had a dot", "litelib read blank lines with DOS line ends as methods", "litelib failed on files starting with a byte order mark")
_f("C15", "xmllib could not read the first peals that xmlout writes", "xmllib could not read the references that xmlout writes")
_f("C17", "dimension::write() put a NUL at the end of the text", "a zero dimension was written in a form that could not be read",
   "negative dimensions between -1 and 0 were written without their sign", "dimensions that overflow or have a zero denominator were accepted")
_f("C16", "printed text lost its unprintable and non-ASCII characters", "the first page of landscape PostScript documents had no number",
   "PostScript documents without text had no line for their end", "text put on a PDF page after rows was spaced out like the rows",
   "psline wrote broken EPS files when the method took several pages")
_f("C24", "rowcalc lost rows when a nested set or a power of sets was multiplied by a set", "rowcalc ended a set at an element which was an empty difference", "rowcalc could not read a file of rows without a newline at the end",
   "rowcalc did not accept negative powers", "rowcalc aborted when it could not read its input", "trimming an empty string read before its start", "rowcalc printed nothing when an empty difference was subtracted")
_f("C25", "musgrep -H failed when the type of terminal was not known")
_f("C26", "printmethod failed to colour bells when the type of terminal was not known", "printmethod aborted when given a bad number of bells", "extent did not limit the number of bells")
_f("C32", "gsiril exited without proving when the type of terminal was not known")
_f("C30", "methodlib -a read past the payloads when titles were given with -t")
_f("C27", "touchsearch -g put a comma before the first lead", "touchsearch -a found touches longer than the maximum length", "touchsearch -a mishandled plans whose lead heads or lead ends were not in the table")
_f("C13", "table searches aborted when a part end moved an otherwise fixed treble")
_f("C28", "multtab aborted when the part ends did not preserve the rows or when a row was not found", "fextent -c failed for any method with false course heads",
   "fextent -r required the wrong leads or never ended", "fextent -t aborted without -c and repeated courses on six bells or fewer",
   "fextent never ended when given a negative number of iterations", "fextent aborted or gave false results when weights were negative or were not whole numbers",
   "fextent aborted when a required lead was false against itself in another part", "fextent -k linked leads to rounds when the linking lead was not in the table",
   "fextent reported sets of leads of methods which are false in the plain lead or course", "fextent -c gave wrong results for methods whose treble is not home at the lead head",
   "fextent -q printed the Q-sets", "fextent -k could remove required leads", "fextent -c could report false sets when a course has several course heads",
   "fextent -k -c aborted or miscounted the links of some Q-sets")
_f("C29", "splices printed a debugging message for every pair", "splices -I printed the splices between the methods as well as the methods", "splices -g -l did not bracket the methods with lead splices",
   "splices -h only used a quarter of the second method's lead", "splices -g -e read past the end of the shorter of two methods", "spliceplan aborted on part ends or methods that do not fit",
   "spliceplan's plans had leads which are false in themselves or against their other parts", "splices ignored a file of rows which it could not read",
   "splices took the factorial of a negative number when there was no falseness, and overflowed on many bells")
_f("C22", "methsearch applied the first change of a principle's mask throughout, and ignored the rest",
   "methsearch did not notice that a mask containing a '*' was too long",
   "methsearch ignored the parts of a mask that lay where symmetry determines the change",
   "methsearch lost track of the start row when it undid the symmetric part of a lead",
   "methsearch rejected methods whose lead head was to be avoided, and missed avoided rows in later leads or with several extents",
   "methsearch found principles without the rotational symmetry asked for",
   "methsearch aborted when asked for principles with symmetric sections",
   "methsearch missed long runs of blows in one place where symmetry determines the changes",
   "methsearch ignored --row-match for the first row of the lead",
   "methsearch's -E option disregarded most of the other requirements",
   "methsearch did not let a mask override --no-78s at the symmetry points",
   "methsearch missed methods with floating symmetry when consecutive blows were limited",
   "methsearch proved the wrong lead head with -Fh when given a start row",
   "methsearch --start-at lost its place in searches for symmetric methods, and skipped later ones",
   "methsearch mixed up the alternatives in a mask, taking the work above the treble from one and below it from another",
   "methsearch misjudged the cross-sections of treble dodging methods which are copied by symmetry, or with an even number of hunts",
   "methsearch proved too little when null changes were allowed, and too much of a division when several extents were wanted",
   "methsearch --invert-filter omitted methods whose leads are of the wrong length",
   "methsearch --long-le-place did not exempt the right change when there is an even number of hunts",
   "methsearch found principles which repeat a change where one half of the lead, or one lead, meets the next",
   "methsearch took the lead-end change for part of a division when the treble dodges twice",
   "methsearch did not apply --parity-hack to changes determined by symmetry",
   "methsearch -E mistook the lead-end change for the second change of a division",
   "methsearch did not prove plain methods with floating symmetry")
_f("C08", "groups mishandled rows on a different number of bells when labelling cosets or conjugating")
_f("C21", "gsiril evaluated 10 - 3 - 2 as 10 - (3 - 2)", "gsiril arithmetic crashed on division by zero and on overflow",
   "gsiril's at function rejected the last place", "gsiril's pos function gave places for bells which do not exist",
   "gsiril's crus function counted runs", "gsiril counted each node twice, so an odd --node-limit had no effect",
   "gsiril repeated a block for ever when multiplied by -1", "gsiril lost the high bits of large numbers",
   "gsiril -P proved an old definition of the first symbol", "gsiril -I did not apply to symbols in strings",
   "gsiril ran out of stack on symbols defined in terms of themselves")
_f("C20", "gsiril printed a blank line for each row not matching the row mask", "gsiril did not recognise rounds when given on fewer bells",
   "gsiril executed conflict for every row after the first false one", "gsiril's N to M rows statement ignored M",
   "gsiril did not define max_length when there was no minimum length", "gsiril -qq did not silence the echo statement")
_f("C23", "methsearch expressions rejected variables with two numbers", "methsearch $P gave a path for a bell which is not there", "methsearch terminated on place notation beyond the end of a lead",
   "methsearch read beyond the end of a method for $r", "methsearch terminated on $O when the tenors do not course", "methsearch terminated on suppress or abort in -H", "methsearch printed part of a method on abort",
   "methsearch arithmetic crashed or overflowed on extreme values", "methsearch doubled an escaped $ in an expression", "methsearch expanded a variable after \\x24", "methsearch crashed on unmatched brackets in a format",
   "methsearch counted a method again for each width of $#", "methsearch did not always number suppressed methods", "methsearch music in leads and half-leads had the strokes swapped",
   "methsearch ran out of memory scoring music without -b", "methsearch --invert-filter left out the name of untitled methods")
_f("C31", "looking for a method in a library which could not be read crashed")
_f("C32", "ringmethod crashed on options out of range", "ringmethod's sound overflowed when loud or very long", "splices terminated on a method which could not be parsed",
   "spliceplan terminated on methods of a single change", "printmethod overflowed on a large number of rounds", "psline crashed on numbers out of range and on methods of zero length",
   "printmethod::fit_to_space crashed when there was no space to fit to", "psline -x or -y gave no size to anything not set explicitly", "methsearch did not explain a bad treble path",
   "touchsearch --filter crashed on a method with no changes")
_f("C33", "ringmethod rang a row of rounds when there were no rows", "ringmethod wrote the wrong sample rate in its header", "ringmethod did not accept a deviation with -o", "ringmethod's bells were an octave too high on 7 or 14 bells",
   "ringmethod used an uninitialised value when there were no rows", "ringmethod did not end if a bell was due before the previous row had finished", "ringmethod did not write the last part of the sound",
   "ringmethod crashed on a row with too many bells")
