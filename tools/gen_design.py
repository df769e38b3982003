"""Writes DESIGN.md from the properties, the checks' own descriptions, the notes below and the planted bugs."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
found = json.load(open(H + "/known_findings.json"))

ORACLE = {
 "C01": "vt/ring.py, permutations as tuples with their own multiplication, parity, cycles, order and named rows.",
 "C02": "A change as a set of disjoint adjacent pairs; every edit is replayed on that set.",
 "C03": "Written grammar of bell symbols ({n} beyond the table), rows and changes; the stream must stop exactly where the text of the value ends.",
 "C04": "The notation is produced from known changes, so the answer is known before the library sees the text.",
 "C05": "The method is rung out; symmetries, lead head code, blows, etc. are read off the rows.",
 "C06": "The hunt bells' paths, classified by the Framework's definitions.",
 "C07": "Brute-force enumeration for small sizes, counting argument for random positions.",
 "C08": "Closure computed independently; every operation on members compared as sets of rows.",
 "C09": "The product of the row at the position and the registered multiplier.",
 "C10": "A multiset of rows and a stack of histories.",
 "C11": "Quotients of the rows of two leads; letters from a separately transcribed table.",
 "C12": "Patterns translated to regular expressions over the row's symbols; counts by enumeration.",
 "C13": "Exhaustive depth-first search ringing every row in every part, compared as sets of rotation classes.",
 "C14": "The records from which the files were written.",
 "C15": "The records written, a model of a method set, and the exact text expected.",
 "C16": "Small interpreters for the PostScript and PDF that is written (vt/psdoc.py, vt/printed.py): each mark drawn is attributed to a row, place and bell, and compared with the rows rung.",
 "C17": "Exact rationals.",
 "C18": "Python integers.",
 "C19": "An ownership model: which handle owns which object, and when the last owner goes.",
 "C20": "An independent interpreter of gsiril (vt/gsir.py) which rings every row and proves by counting.",
 "C21": "The same interpreter; the generator produces programs over the whole grammar.",
 "C22": "Brute-force enumeration of every method with the treble path, each judged by predicates on its rows.",
 "C23": "Facts recomputed from the rows of the method printed; an independent evaluator of format strings and expressions.",
 "C24": "An independent evaluator of the expression tree.",
 "C25": "Regular expressions and sums.",
 "C26": "Enumeration for extent; for printmethod and psline the marks of C16's interpreters.",
 "C27": "As C13, and the printed calls are parsed back.",
 "C28": "Printed leads are rung in every part; no row may occur twice; part ends, required rows and restrictions are tested on the rows.",
 "C29": "The group generated by the falseness quotients, by closure; exact cover enumeration for plans.",
 "C30": "The records from which the libraries were written, and the documented priority of libraries and suffixes.",
 "C31": "AddressSanitizer, UBSan, libstdc++ assertions; memcheck for uninitialised values on a sample; a slot model for value types (a step may change only the object it is applied to); each run repeated with freed and fresh memory filled differently, and the observations compared.",
 "C32": "Sanitizers, the exit status, a message whenever the status reports an error, equality of output between spellings of the same options and between fills of fresh memory, refusal of unknown options and of missing or unwanted arguments.",
 "C33": "The waveform computed from first principles (scale, partials, decay, strike times), compared sample by sample; the header field by field; the times of single blows recovered from the sound for the mean and spread of deviations.",
}
GREY = {
 "C13": "Two searchers may print a touch in different rotations; they are compared as rotation classes.",
 "C16": "Fonts' metrics are not judged, only the text and where it is put.",
 "C20": "Left out: the `rounds` symbol when the number of extents is not the number of times rounds occurs; `?=` on null symbols; `break` outside a repeat; values of runs() and crus(); row masks together with imported bells; sirilic mode; colours; interactive mode. Programs with definitions in terms of themselves where gsiril reports \"nested too deeply\" are left out (the type of such an expression is not defined).",
 "C21": "As C20. Also left out: echo statements' escapes, `$$` in strings, reversed `=`, directly executed concatenations of strings.",
 "C22": "Left out: rounds recurring within the lead when no start row is given; -y in the half or quarter fixed by rotational symmetry; -U2 -G1 -k; the half-lead-head rule for principles with only -d or -k; rounds given as a lead head; -E with -d, -k or full symmetry; --prefix and --limit.",
 "C23": "Frequency lines whose values have several spellings are left out, and a blank -H header when everything is suppressed.",
 "C28": "Which of several maximal sets a stochastic search prints is not judged, only that what it prints is what it claims.",
 "C31": "A library entry obtained from a method set refers to it, so the set must outlive it (a precondition). Patterns have at most four stars, since matching takes time exponential in them.",
 "C32": "Searches (extent, fextent, touchsearch, splices, spliceplan, methsearch, gsiril, ringmethod) may honestly take longer than the limit; such cases are counted as undecided, never as failures. psline and printmethod write to the file given by -o, which is always inside the scratch directory.",
 "C33": "A row is taken up when the previous one has been struck, so where offsets make a bell due before that, its time is not judged.",
}
out = ["""# Runtime monitoring of ringing-lib

## The machinery

The real library and programs are compiled from /repo's working tree with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++
assertions (vt/build.py; a content-keyed cache under build/, so only what changed is rebuilt) and run under generated workloads. One
family of sanitizer goes into one build; memcheck runs on a separate uninstrumented build.

* *Drivers* (drivers/*.cpp) execute one event per input line (an API call, or a whole history of calls on real objects) and record one
  observation line per event.
* *Monitors* (checks/cNN.py with vt/*.py) judge each recorded observation, offline, against an independent model of change ringing,
  written from the documentation and from the theory, never by calling the code under test.
* *Programs* (gsiril, methsearch, ...) are run as sanitized binaries; their output, exit status, termination and sanitizer reports are
  judged in the same way.

The deciding step is always an oracle that observes an execution. Reach comes from the workloads: small sizes are exhausted where they can
be, and beyond them generators make inputs which are good, nearly good and hostile, from a seed (VERIF_SEED). Runs are bounded by numbers
of cases, not by time, so the same seed does the same work. Every check has minimum counts of what its monitors must have observed
(ctx.minimum), and fails as broken, without a VIOLATION, if they are not met; a time limit reached is retried once and otherwise counted
as undecided. The evidence file of each run gives the counts of events observed, of distinct non-trivial cases, and of each kind.

A planted or accidental crash in a driver is attributed to the event in flight; the remaining events go on in a fresh process.

Nothing in the repository has threads, so there is no race detection. No hooks were needed in /repo: everything is observable from the
API, files and standard streams.

Each check exits 0, or 1 with `VIOLATION property=<id> replay=<path>`; replays/ holds the input that failed (the event line for a driver,
or arguments, input and environment for a program) with the complaint. `thorough` runs the same generators for 10 to 20 times as many
cases and larger exhaustive bounds.

Cost: the sanitized build of everything takes about half a minute on 8 cores from scratch; a quick check takes from 5 seconds to two minutes.

## The properties

Level "exploration" throughout: the check decides the executions it observed, no more.
"""]
seeds = {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(m)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
def rule(pid):
    t = ast.parse(open(H + "/checks/%s.py" % pid.lower()).read())
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "rule":
            try: return ast.literal_eval(n.value)
            except Exception: return ast.unparse(n.value)
def fs(pid): return [f for f in found["findings"] if f["property"] == pid and f["status"] == "fixed"]
for p in props:
    i = p["id"]; out.append("### %s: %s\n" % (i, p["title"])); out.append("*Workload.* %s.\n" % (rule(i) or "").rstrip("."))
    out.append("*Oracle.* %s\n" % ORACLE.get(i, ""))
    if i in GREY: out.append("*Not judged.* %s\n" % GREY[i])
    if i in seeds: out.append("*Planted bugs caught.* " + "; ".join("%s (needs %s)" % (k, j["needs"]) for k, j in seeds[i]) + ".\n")
    n = len(fs(i))
    if n: out.append("*Genuine defects found and repaired:* %d (see known_findings.json).\n" % n)
out.append(open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("\n".join(out))
