import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
F=["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go","bfloat/bfloat.go","float.go","internal/strconv/ftoa.go","internal/strconv/itoa.go"]
p("C01","Concurrent callers get the answers they would get alone",
 "Every function and method of the library may be called from any number of goroutines at once, on the same or different values and on shared read-only arguments, without external locking. Whatever the interleaving, each call returns exactly the result (value bits, accuracy, text, *big.Float contents, or panic) that the same call returns when it is the only call a fresh process makes. No two such calls make conflicting unsynchronised memory accesses.",
 ["schedules","inputs","histories"],
 "all interleavings, at statement and shared-load granularity, of any set of concurrent API calls, from a fresh or a warmed-up library state",
 "the existing tests call each function from one goroutine, one call at a time; no schedule is ever varied and the race detector is not run (CI sets GOTEST_RACE=0)",
 F,[("conversions use only locals and freshly allocated big.Float/big.Int temporaries; package tables are read-only","binary16.NewFromBig, binary128.NewFromBig, float80x86.NewFromBig, float128ppc.NewFromBig, Float.Big in every package"),
    ("formatting works in stack buffers and freshly made slices","internal/strconv genericFtoa, bigFtoa, formatBits")],
 ["return values of every exported function and method","data races between calls"],None,
 [("leftcheats, powersOfTen, smallPowersOfTen, uint64pow10, float16info.., optimize","package-level tables shared by all callers","internal/strconv/decimal.go, extfloat.go, ftoa.go"),("NaN, NegNaN, Inf, NegInf, Zero, NegZero","exported special values shared by all callers","each format package")])
p("C02","Arguments are only read, at every instant",
 "A *big.Float passed to a conversion or an exactness predicate is only read. At no instant during the call, and not afterwards, does its value, sign, precision, rounding mode or accuracy differ from what the caller put there. So other goroutines may use the same argument while the call is in progress.",
 ["schedules","inputs"],
 "every instant of every call, for every argument precision, mode, accuracy and value, with any number of concurrent readers of the same argument",
 "the existing tests never look at an argument after (let alone during) a call, and no test shares an argument between goroutines",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go","float.go"],
 [("MantExp copies into a fresh temporary before scaling or negating","binary16/binary128/float80x86 NewFromBig"),("rounds a private copy of the argument","float128ppc.NewFromBig"),("Float32/Float64/Text only read","IsExact16, IsExact32, IsExact64")],
 ["the caller's *big.Float, sampled at every instrumented point of the call"])
p("C03","Results and arguments stay the caller's own",
 "Everything a call returns (a *big.Float, a byte slice, a string) is independent of the library and of every other result: the caller may overwrite it in place at any time and no other result, past or future, and no exported special value changes. Nor does the library keep a reference to an argument: after a call returns, the caller may change its argument in place and later calls see exactly the new content.",
 ["histories","schedules","inputs"],
 "all histories of calls, in-place changes by owners to their results and arguments, and further calls by any goroutine",
 "the existing tests never modify a returned value or reuse an argument, and never hold a result across later calls",
 F,[("each Big call allocates a new big.Float and parses into it","Float.Big in every format package"),("Float values hold bits by value, no pointers","type Float in every format package"),("FormatFloat copies its buffer into a new string","internal/strconv FormatFloat, FormatInt")],
 ["held *big.Float results, strings and byte slices","results of later calls","exported special values"])
p("C04","Answers do not depend on history",
 "What a call returns is determined by its inputs alone: it is the same as the first call of a fresh process and after any sequence of earlier calls, on any format, with any inputs, by any callers, including calls that panicked and were recovered. The exported special values never change.",
 ["histories","inputs"],
 "all finite call histories, including long ones (thousands of calls), repeats, near-repeats (inputs that agree in value, in part of their bits or in pointer identity) and restarts",
 "each table-driven test visits each input once in a fixed order; no test compares a result against the same call after a different history",
 F,[("no package-level mutable state","all packages"),("rounding mode and precision are set on fresh values in each call","Float.Big, NewFromFloat64")],
 ["return values of every exported function and method","exported special values"])
p("C05","Every call finishes: no deadlock, no livelock",
 "Callers may be delayed for arbitrarily long at any point of a call, and other callers may be panicking out of calls with invalid arguments. Once the delays stop and every caller is scheduled fairly, every call in progress returns or panics within a bounded number of its own steps: no combination of calls can deadlock, livelock or wait for an event that never comes.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings with stalls at any statement of any subset of callers and any placement of panicking calls",
 "the existing tests are single-goroutine, so nothing can block; they cannot show the absence of a blocking interleaving",
 F,[("calls take no locks and wait for nobody","all packages"),("loops are bounded by operand sizes","internal/strconv decimal.go, extfloat.go; binary128.NewFromBig mask loops")],
 ["completion of every issued call"])
p("C06","Append writes only inside its destination window",
 "Appending a formatted number to a byte slice yields the old content followed by exactly the text the corresponding formatting call returns. The existing content is never changed, not even transiently, and no byte outside the slice's capacity is ever written. So callers appending concurrently into disjoint windows of one shared array do not disturb each other.",
 ["schedules","inputs"],
 "all interleavings of appends into disjoint (adjacent) windows of one array, all lengths and capacities including too small ones, all formats, precisions, bit sizes and bases",
 "the append entry points have no tests at all; nothing checks neighbouring memory or intermediate states",
 ["internal/strconv/ftoa.go","internal/strconv/itoa.go"],
 [("only append is ever applied to dst","genericFtoa, formatDigits, fmtE, fmtF, fmtB, formatBits")],
 ["the shared array sampled at every instrumented point of the calls","returned slices"])
p("C07","A call that panics leaves no trace",
 "Some calls panic on invalid arguments (unsupported bit size or base, nil *big.Float, non-representable requests). A caller that recovers such a panic leaves the library exactly as if the call had never been made: calls then in progress and later calls, by this or other goroutines, return their usual results and none of them blocks.",
 ["fault_sequences","schedules","histories"],
 "every panicking call at every position of a history and in every interleaving with calls in progress",
 "no existing test makes a call that panics",
 F,[("validation before any effect; no locks or pooled state to unwind","FormatFloat/AppendFloat bitSize check, formatBits base check, trimZeros"),],
 ["results and completion of the calls concurrent with or after a recovered panic"])
p("C08","Regenerating the golden tests is reproducible",
 "Running a golden-test generator on the same template always produces byte-identical output. The output does not depend on the time, the random state of the process, map iteration order, goroutine scheduling, the number of CPUs, environment variables, process id, host or directory names, or what the output file contained before.",
 ["schedules","configurations","histories"],
 "all environments (clock, process randomness, map orders, CPU counts, environment, previous output) and schedules in which a generator can run",
 "the generators are excluded from the build (ignore tag) and no test runs them, once or twice",
 ["binary16/gen.go","binary128/gen.go","binary16/extra_test.tmpl","binary128/extra_test.tmpl"],
 [("fixed PRNG seed","binary128/gen.go dumpTest rand.Seed(1234)"),("sorted exponents and mantissas","binary128/gen.go dumpTest"),("output truncated on create","os.Create in dumpTest")],
 ["bytes of the output file"],None)
p("C09","A generator that reports success has written everything",
 "If a golden-test generator exits successfully, the output file holds the complete generated test suite, byte for byte. If opening or reading the template, or creating, writing or closing the output file fails at any point, the generator says so and exits with a failure status.",
 ["fault_sequences","crash_points"],
 "every file operation of a generator run failing, with every error kind, once or persistently, with every number of bytes accepted before a failed write",
 "no test runs the generators; disk-full, I/O and close errors do not occur in the test environment",
 ["binary16/gen.go","binary128/gen.go"],
 [("every error is returned to main, which exits through log.Fatalf","main and dumpTest of both gen.go"),("the error of closing the output is returned","dumpTest of both gen.go")],
 ["exit status and diagnostics of the generator","bytes of the output file"])
p("C21","Regenerating recovers from any earlier run",
 "A golden-test generator may be killed at any point, may fail on any I/O error, or the machine may lose power so that what was not synced is lost or torn. Whatever such earlier runs leave behind (a partial or empty output, temporary or lock files), the next undisturbed run in the same directory finishes, exits successfully, produces the complete output, byte for byte what a first run in a clean checkout produces, and leaves its template and other source files as they were.",
 ["crash_points","fault_sequences","histories"],
 "every sequence of up to a few earlier generator runs, each killed at any I/O operation or byte, or failing any operation, or followed by a power loss with any choice of unsynced effects surviving, in any order, then one undisturbed run",
 "no test runs the generators, let alone twice or after a crash",
 ["binary16/gen.go","binary128/gen.go"],
 [("the output is truncated and rewritten as a whole; no state is kept between runs","dumpTest of both gen.go (os.Create)"),("the template is only read","main of both gen.go")],
 ["exit status of the recovering run","bytes of the output file","bytes of the source files","progress"])
p("C22","Nothing accumulates, however many calls are made",
 "The library can be called any number of times by a program that never ends. Once no call is in progress and whatever was started for earlier calls has had time to finish, the memory the library keeps reachable and the number of goroutines and timers it keeps are bounded independently of how many calls were made, whatever their inputs, whether or not they panicked, and from however many goroutines they came. Caches, pools and workers of bounded size are within this.",
 ["histories","schedules"],
 "all histories of calls of any length (repeating one call, ever different inputs, panicking calls, overlapping calls under any schedule)",
 "each test makes a handful of calls in a process that ends a moment later",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go","bfloat/bfloat.go","internal/strconv/ftoa.go","internal/strconv/decimal.go"],
 [("no package state that changes; every buffer belongs to the call or to the caller","all packages")],
 ["reachable heap of the process after a garbage collection","number of goroutines and pending timers"])
p("C23","Generators that run at the same time do not disturb each other",
 "Any number of golden-test generator runs may overlap on one machine: both generators or the same one several times, in one directory or in several checkouts, with the same output path or different ones, started in the same instant or while another is anywhere in its work, each of them stalled for any time at any point. If nothing fails, every run ends and exits successfully, and when the last one has ended every output path holds the complete suite, byte for byte what a run alone produces, and templates and source files are as they were. A run that is killed or fails takes nothing of this from an overlapping run with another output path.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of the I/O operations of two or three generator runs, in the same or different directories, with the same or different outputs, with stalls anywhere, and kills and I/O errors in some of them",
 "no test runs the generators, and none could place two of them at particular points of their work",
 ["binary16/gen.go","binary128/gen.go"],
 [("the only file that is written is the output itself, and what is written depends on nothing but the template and constants","dumpTest of both gen.go")],
 ["exit status of every run","bytes of every output file after the last run has ended","bytes of the source files","progress"])
p("C24","A call changes nothing else in the process or outside it",
 "Importing the library and calling it have no effect besides the answer (and, for the appending functions, the bytes appended for the caller). Whatever the input, the history of calls, the interleaving, and whether calls panic, the library writes nothing to standard output, standard error, the log or any file; creates, changes, renames or removes no file; starts no program and does not end the process; and leaves as they are the environment variables, the working directory, the process's command-line flags and arguments, the standard logger's settings, the state of the shared random source, the number of CPUs in use, the collector's and the runtime's settings, signal handling, and the exported variables of the standard library such as os.Stdout and time.Local.",
 ["histories","schedules","inputs"],
 "all histories and interleavings of calls, including rare inputs, long histories, panicking calls and what the library does in the background while no call is in progress",
 "tests compare return values; none looks at what a call did besides returning, and an effect that needs a rare input, the thousandth call, a panic or a slow call is not met by a handful of calls",
 F,[("no package of the library uses os, log, flag, runtime/debug, os/signal or math/rand; formatting writes into the caller's buffer or fresh memory","imports of all library packages"),
    ("errors are reported by panics only","panic calls of ftoa.go, itoa.go, IsExactN")],
 ["standard output and error","file system operations","settings of the process before and after the calls"])
p("C25","The same call has the same answer in every process",
 "The answer of a call (value bits, accuracy, text, panic or result) depends on its arguments alone, in whatever process it is made: not on environment variables, command-line arguments, the files on the machine and the working directory, the number of CPUs, the date, time of day or time zone, the seeds of random sources and hashes, the name of the host, the identity of the process or the user, the name of the program, or on whether access to such things fails or is slow. So two processes that exchange numbers, or the same service on two machines or two days, agree.",
 ["fault_sequences","histories","schedules","inputs"],
 "all surroundings a process can have (environment, files, clock, CPUs, seeds, identity, I/O failures) and all calls in them",
 "all tests run in one process per package, on one machine, in one environment, within one second",
 F,[("the library asks the process and the system for nothing","imports of all library packages"),
    ("package variables are built from constants","tables of internal/strconv, special values of the format packages")],
 ["return values of every exported function and method, in processes that differ in nothing but their surroundings"])
# --- pure functions of their input
p("C10","Decoding gives the exact value of every bit pattern",
 "For every bit pattern of every format, the arbitrary-precision value obtained from it equals the value the format's definition assigns to that pattern, exactly and with the right sign, including subnormals, zeros, infinities and the Not-a-Number indicator.",
 ["inputs"],"all bit patterns of binary16, bfloat16, binary128, x87 extended and double-double",
 "tests sample a few dozen patterns of each format; the generated exhaustive tables are not in the tree",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go","bfloat/bfloat.go"],
 [("sign/exponent/fraction extraction and Parse of a binary literal","Float.Big, Exp, Frac, Signbit, Lead")],["Float.Big"])
p("C11","Encoding rounds to the nearest representable value",
 "Converting a float32, float64 or arbitrary-precision number to a format yields the nearest representable value, ties to even, with overflow to infinity and gradual underflow to subnormals and signed zero.",
 ["inputs"],"all float32, float64 and big.Float inputs","tests sample a few dozen exactly representable inputs and do not exercise rounding, overflow or most of the subnormal range",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go"],
 [("exponent/mantissa assembly","NewFromBig, NewFromFloat64, NewFromFloat32")],["bits of the result"])
p("C12","Reported accuracy matches the rounding that happened",
 "The accuracy returned with a conversion says Below, Exact or Above exactly when the result is less than, equal to or greater than the input.",
 ["inputs"],"all inputs of all conversions in both directions","tests check accuracy only for exactly representable inputs",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go"],
 [("acc computation","NewFromBig, NewFromFloat64, NewFromFloat32, Float32, Float64")],["big.Accuracy results"])
p("C13","Bits survive a round trip through arbitrary precision",
 "Decoding any canonical non-NaN bit pattern to an arbitrary-precision value and encoding it again in the same format gives back the same bits and reports an exact conversion.",
 ["inputs"],"all canonical non-NaN patterns of each format","only 14 double-double patterns are tried, and one of them fails",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go"],
 [("Big and NewFromBig are inverse","each format package")],["Bits after Big and NewFromBig"])
p("C14","Narrowing to float32/float64 is correctly rounded",
 "Converting a value of any format to float32 or float64 gives the nearest value of that type, ties to even, with overflow to infinity and underflow to subnormals and zero of the right sign, and the matching accuracy.",
 ["inputs"],"all bit patterns of each format","tests sample a few patterns",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go"],
 [("delegation to big.Float","Float32, Float64")],["Float32, Float64"])
p("C15","NaN, infinity and signed zero are preserved",
 "NaNs, infinities and zeros keep their class and sign through every conversion into and out of each format, and the exported special values denote what their names say.",
 ["inputs"],"all special inputs and all exported special values of each format","tests cover a few special patterns of three formats",
 ["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go","bfloat/bfloat.go"],
 [("special cases in each conversion; exported variables","NewFromFloat64, NewFromBig, Big, var NaN..NegZero")],["bits and values of the results"])
p("C16","The exactness predicates are right for every number",
 "The predicates that say whether a number can be represented exactly in 16, 32 or 64 bits answer true for exactly the numbers that can be, for every sign, magnitude and precision.",
 ["inputs"],"all big.Float values","the root package has no tests",
 ["float.go"],[("comparison of shortest decimal with exact decimal","IsExact16, IsExact32, IsExact64, trimZeros")],["IsExact16, IsExact32, IsExact64"])
p("C17","Formatted text round-trips and is shortest",
 "Formatting a number with precision -1 yields the shortest decimal text that reads back as the same number at the given bit size; with an explicit precision it yields the correctly rounded decimal. For 32 and 64 bits the text equals the standard library's.",
 ["inputs"],"all numbers, formats, precisions and bit sizes","the formatting package has no tests",
 ["internal/strconv/ftoa.go","internal/strconv/decimal.go","internal/strconv/extfloat.go"],
 [("Grisu3 with exact fallback","genericFtoa, bigFtoa, roundShortest, ShortestDecimal, FixedDecimal")],["FormatFloat, AppendFloat"])
p("C18","Integer formatting is correct in every base",
 "Formatting an integer in base 2 to 36 yields its standard representation, the same as the standard library's, for every value.",
 ["inputs"],"all 64-bit integers and bases","the formatting package has no tests",
 ["internal/strconv/itoa.go"],[("formatBits","itoa.go")],["FormatInt, FormatUint, Itoa, AppendInt, AppendUint"])
p("C19","No input makes a conversion panic",
 "No bit pattern of any format and no finite, infinite or zero number makes a decoding, encoding, narrowing or exactness call panic or run without bound.",
 ["inputs"],"all bit patterns and all numbers","tests sample few inputs, none near the failing classes",
 ["float.go","float128ppc/float128ppc.go","binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","bfloat/bfloat.go"],
 [("special-case branches before big.Float arithmetic","NewFromBig, Big, IsExact16/32/64")],["absence of panics"])
p("C20","Generated golden vectors agree with the library",
 "Every golden vector the generators emit is true of the format's definition, covers the ranges the generator says it covers, and is satisfied by the library.",
 ["inputs"],"all emitted vectors","the generated files are not in the tree and the generators are not built",
 ["binary16/gen.go","binary128/gen.go"],[("getNormalized, getDenormalized","gen.go of both packages")],["the generated tests"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
