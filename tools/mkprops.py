import os
import json
M='src/main/java/io/fastprintf/'
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":[M+f for f in files],"mechanism":[{"name":n,"where":M+w} for n,w in mech]}
    if state: a["state"]=[{"name":x.strip(),"meaning":"state the property is about","where":M+files[0]} for x in state.split(",")]
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent callers of one formatter each get their own, solo result",
 "One compiled formatter may be used by any number of threads at the same time. In every interleaving each call returns, or appends to its own destination, exactly the text (or raises exactly the error) it would produce if it ran alone. No character of one call's output or arguments ever appears in another's.",
 ["schedules","inputs"],"for all thread counts, all interleavings of the calls' memory accesses, all formats and argument lists",
 "A unit test runs one schedule per execution and nobody chooses it; a scratch buffer or memo shared by accident shows only when one call is preempted inside a window of a few instructions.",
 ["FastPrintfImpl.java","appender/DefaultAppender.java","appender/SeqFormatter.java","FormatContext.java","number/*","seq/*","traits/*","util/*"],
 [("immutable appender array","FastPrintfImpl.java"),("copy-on-write conversion context","FormatContext.java"),("static caches of small values","traits/IntTraits.java"),("static repeated-character cache","seq/Repeated.java")],
 "compiled formatter, static caches, per-call builder and ropes","format(...) return value, destination content, exception")
p("C02","Buffer caching and sizing options never change any result",
 "A formatter with the per-thread buffer cache switched on, or with any initial buffer capacity, produces for every call the same text or error as the plain formatter it was derived from, whatever was formatted before on that thread (including huge outputs and failed calls) and whatever other threads do meanwhile. Deriving such a variant leaves the original formatter's behaviour unchanged, and strings already returned never change.",
 ["histories","schedules","configurations"],"for all sequences of earlier calls on the thread (sizes across the retention limit, failures), all schedules, all combinations of cache and capacity settings",
 "The cached buffer is state carried from call to call; a test formats once or twice with small successful inputs, while the failure needs a particular earlier call.",
 ["FastPrintfImpl.java"],[("thread-local builder reuse and reset","FastPrintfImpl.java"),("oversize replacement rule","FastPrintfImpl.java"),("derivation methods","FastPrintfImpl.java")],
 "per-thread cached builder","format(...) return value")
p("C03","Nested formatting does not disturb the call it is nested in",
 "If the code of an argument (its toString, its character or number accessors) or of a destination itself formats with the same or another formatter, cached or not, to any nesting depth, then both the inner and the outer call still produce exactly their own text. A nested call that fails, and whose failure the argument handles, also leaves the outer call intact.",
 ["histories","programs","schedules"],"for all nestings of calls through caller-supplied code, all cache settings, all schedules",
 "Existing tests never call back into the formatter from an argument, and the outcome depends on which buffer is live at the instant of the callback.",
 ["FastPrintfImpl.java","traits/ObjectTraits.java","traits/CharSequenceTraits.java","seq/LazySeq.java"],
 [("thread-local builder in use during callbacks","FastPrintfImpl.java"),("lazy sequences calling user code","seq/LazySeq.java")],
 "per-thread cached builder, lazy sequence","return values of outer and inner calls")
p("C04","A failing destination: error surfaces, a prefix is written, then silence",
 "If the destination fails at any point, the call fails: an IOException surfaces as UncheckedIOException with that very exception as its cause, any other exception or error surfaces as itself. The destination then holds its earlier content followed by a prefix of the call's full text, and it receives no further write from that call. Later calls with the same formatter and arguments are unaffected.",
 ["fault_sequences","crash_points","inputs"],"for all formats and arguments, every write at which the destination can fail, every failure kind, partial writes included",
 "The failing write can be any of the pieces a conversion is made of (sign, prefix, padding, digits, exponent); tests use destinations that never fail or fail at once.",
 ["FastPrintfImpl.java","seq/Seq.java","seq/Concat.java","seq/SeqArray.java","seq/AtomicSeqIterable.java","seq/Repeated.java","seq/StrView.java","seq/CharArray.java","seq/LazySeq.java"],
 [("streaming to an Appendable","FastPrintfImpl.java"),("piecewise append of composite sequences","seq/AtomicSeqIterable.java")],
 None,"destination content and write log, exception")
p("C05","A failing argument fails its call and leaves no residue",
 "If the code of an argument throws, or an argument is missing or unsuitable for its conversion, the call fails with that error (or a formatting exception) and never returns text (only an element inside an array that cannot show itself is shown as such in place). A caller-supplied destination then holds its earlier content followed by a prefix of the text the call would have produced. All other calls, concurrent and later, with the same formatter, arguments and thread are unaffected.",
 ["fault_sequences","histories","schedules"],"for all formats and argument lists, every callback into argument code at which it can throw, every exception kind, all later calls",
 "Residue shows only in a later or concurrent call after a failure at one particular callback; tests stop at the exception.",
 ["FastPrintfImpl.java","appender/DefaultAppender.java","traits/*","seq/LazySeq.java"],
 [("argument iteration and missing-argument check","appender/DefaultAppender.java"),("value conversion","traits/ObjectTraits.java")],
 "per-thread cached builder, argument list","exception, destination content, later results")
p("C06","Running out of memory or stack at any point never corrupts later results",
 "If a call is aborted at any point inside the library by a virtual machine error such as OutOfMemoryError or StackOverflowError, the abort is visible to the caller: the call raises an error and never returns wrong text. Every later or concurrent call on the same formatter, argument list and thread still produces exactly its own text.",
 ["crash_points","histories","schedules"],"for every instruction at which the library allocates, enters a method or calls the platform, for all later histories",
 "No test can make the n-th allocation fail; state that survives an abort (buffers, caches, memo fields) must be right after a failure at each of thousands of points.",
 ["FastPrintfImpl.java","seq/LazySeq.java","seq/CharArray.java","seq/Repeated.java","util/internal/*","number/*","traits/*"],
 [("builder acquired before use, reset on next use","FastPrintfImpl.java"),("lazily cached values","seq/LazySeq.java")],
 "everything that outlives a call: cached builder, static caches, memo fields","exception and later results")
p("C07","An argument list can be reused and shared; formatting never alters it",
 "Formatting reads an argument list without consuming or changing it: the same list can be formatted any number of times, by any formatters, by many threads at once and after failed calls, with the same text each time. Later changes to the array or collection it was built from, or to the list of values handed back, do not affect it, and a value added between calls is seen by the next call.",
 ["histories","schedules"],"for all ways of building the list, all sequences of formatting and adding, all interleavings of readers",
 "Tests build a fresh list per call; sharing one list between threads at every interleaving, or after a failure half way through it, is not exercised.",
 ["Args.java","ArgsImpl.java","traits/*"],[("fresh iterator per call","ArgsImpl.java"),("copied values","ArgsImpl.java")],
 "argument list","format(...) results, values() and toString() of the list")
p("C08","Locale and time-zone changes reach the text only where they may",
 "Whenever the default locale or default time zone of the process is changed, even in the middle of a call, the text of every conversion other than dates stays the same under every locale and zone. A date pattern keeps the meaning it had when its format was compiled, and an instant or epoch value printed without a pattern uses one default zone that was in force during the call.",
 ["configurations","schedules","histories"],"for all default locales and zones, all instants at which they change relative to compiling and formatting",
 "Tests run under one fixed locale and zone (UTC, C) and never change them while a call is in progress.",
 ["Compiler.java","appender/SeqFormatter.java","seq/*","number/*","util/Utils.java"],
 [("pattern compiled once","Compiler.java"),("system zone read per call","appender/SeqFormatter.java"),("ASCII-only upper-casing","util/Utils.java")],
 "process-wide default locale and zone","format(...) results")
p("C09","A shared destination loses, duplicates and reorders nothing",
 "When several threads format at the same time into one destination that is itself safe for concurrent use, every character of every call arrives exactly once and the characters of each call arrive in order, in every interleaving. Only the mixing between different calls is unspecified.",
 ["schedules","inputs"],"for all interleavings of the calls' writes, all formats and arguments, all destination types",
 "Requires control of the schedule between individual writes; a test that joins threads on a StringBuffer can only observe lucky schedules.",
 ["FastPrintfImpl.java","seq/*"],[("streaming to an Appendable","FastPrintfImpl.java"),("piecewise append","seq/AtomicSeqIterable.java")],
 "shared destination","write log of the destination")
p("C10","No call ever waits for another call",
 "Compiling, building arguments and formatting never block: if a thread is suspended for ever at any point inside a call, including inside its argument's or destination's code, every other thread's calls on the same formatter and arguments still finish in a bounded number of steps. The same holds after calls that failed or were interrupted, and an interrupt neither changes a result nor is lost.",
 ["schedules","fault_sequences"],"for every suspension point, every set of other calls, every failure or interrupt before them",
 "A lock held across caller code or not released on failure is invisible until a participant stalls at the wrong moment; tests have no stalled participant.",
 ["FastPrintfImpl.java","seq/*","traits/*","Compiler.java"],[("lock-free per-call state","FastPrintfImpl.java"),("benign racy caches","seq/LazySeq.java")],
 "shared formatter, argument list, caches","completion of calls, interrupt flag")
p("C11","Compilations are independent of one another and of failed ones",
 "Compiling a format gives the same formatter behaviour, or the same syntax error, every time and on every thread, whatever other formats are being compiled or formatted at the same time and whatever compilations failed or were aborted before. A failed compilation has no effect on formatters that already exist.",
 ["schedules","histories","crash_points"],"for all pairs of formats valid or not, all interleavings of their compilation with other work, all aborts during compilation",
 "Tests compile one format at a time in a fresh state; shared parser or cache state shows only between overlapping or failed compilations.",
 ["Compiler.java","FormatContext.java","Flag.java","Specifier.java","FastPrintfImpl.java"],[("per-compilation parser state","Compiler.java"),("flag set copied into the context","FormatContext.java")],
 "parser state, flag sets","compiled formatter's output, syntax error")
p("C12","Stack use does not grow with the length of the format or of a text sequence",
 "Compiling and formatting need only a fixed amount of stack, however many literal pieces, conversions and arguments the format has, however much padding they ask for, and from however many pieces a text sequence was put together. A thread with little stack left therefore gets the same result for a long format as any other thread.",
 ["fault_sequences","inputs"],"for all format lengths, for every limit on remaining stack above a fixed small number of frames",
 "Tests use formats with a handful of conversions on the main thread's large stack.",
 ["Compiler.java","FastPrintfImpl.java","seq/Concat.java","seq/AtomicSeqIterable.java"],[("parse loop","Compiler.java"),("iterative traversal of composite sequences","seq/AtomicSeqIterable.java")],
 "call stack","result or error of compile and format")
p("C13","Every kind of destination receives the same text",
 "For every format and argument list, the string returned by a call, and the text appended to a StringBuilder, a StringBuffer, a Writer or any other character destination, however slow and whatever its append methods return, are identical. Existing content of a destination is kept, and the call returns the very destination it was given, still open. A destination may keep the sequences it is handed: they do not change afterwards.",
 ["inputs","configurations","schedules"],"for all formats and arguments, all destination implementations and their initial content, all delays",
 "There are two separate delivery paths per sequence kind and each has its own fast path; tests compare them on a few fixed formats.",
 ["FastPrintfImpl.java","seq/*"],[("separate builder and Appendable paths","FastPrintfImpl.java"),("per-sequence append methods","seq/Seq.java")],
 None,"destination content, returned reference")
p("C14","Arguments are consumed left to right and each is rendered exactly once",
 "Arguments are consumed strictly left to right: one for each star width, one for each star precision, one for each conversion. The value or text of a consumed argument is asked for exactly once per conversion that uses it, in that order, by the thread that made the call; arguments that are surplus, or come after the point where a call failed, are never touched.",
 ["histories","inputs","schedules","fault_sequences"],"for all formats with static and dynamic widths and precisions, all argument lists shorter or longer than needed, all failures part way",
 "Tests look at the text only; double rendering, early rendering or look-ahead is visible only to arguments with side effects.",
 ["appender/DefaultAppender.java","FastPrintfImpl.java","traits/*"],[("argument iterator","appender/DefaultAppender.java"),("lazy conversion","traits/CharSequenceTraits.java")],
 None,"log of callbacks into arguments")
p("C15","Text sequences act as immutable strings even when shared and lazy",
 "The library's text sequence values behave as immutable strings: length, characters, sub-sequences, searches, upper-casing, concatenation and delivery to a destination all agree with the plain string they stand for. This holds however they were built, in any order of use, when several threads use the same value at once and after a destination or a lazily supplied text failed during an earlier use.",
 ["histories","schedules","fault_sequences"],"for all sequences of building and observing operations, all interleavings of observers, all failures of destinations and lazy producers",
 "The sequences memoise and share structure, so an answer can depend on what was asked before and by whom; tests ask one question of a fresh value.",
 ["seq/*"],[("memoised lazy text","seq/LazySeq.java"),("structure sharing and sub-sequences","seq/AtomicSeqIterable.java"),("cached repeats","seq/Repeated.java")],
 "memo fields, shared character arrays","results of the sequence operations")
p("C16","Runaway widths and precisions are rejected before memory is spent on them",
 "A width or precision whose magnitude exceeds 65536 is rejected with a formatting exception, whether written in the format or supplied as an argument, for every int value (a negative dynamic precision means none). It is rejected before any text of that conversion is produced and before memory proportional to it is requested, and the formatter keeps working for later calls.",
 ["inputs","fault_sequences","histories"],"for all int values at every position of a format, in all histories of good and bad calls",
 "The dangerous values are a few points of a 32-bit range at any position, and allocation size is not visible to a test.",
 ["FormatContext.java","appender/DefaultAppender.java","Compiler.java"],[("limit check","FormatContext.java"),("dynamic width and precision","appender/DefaultAppender.java")],
 None,"exception, destination content, size of allocations requested")
p("C17","A finished call leaves nothing behind",
 "Once a call has returned or failed, at whatever point and by whatever error, neither the formatter, nor the library's shared state, nor the calling thread keeps hold of the call's arguments, argument list or destination. The buffer a caching formatter keeps per thread also stays in proportion: after a call that returns it is no larger than about twice the largest of 65536 characters, the configured capacity and what that call needed.",
 ["histories","fault_sequences","schedules"],"for all histories of calls that return or fail at any point, on any number of threads",
 "A leak is not visible in any result; it needs the heap to be searched after every outcome, including rare failures.",
 ["FastPrintfImpl.java","appender/*","ArgsImpl.java","seq/*"],[("per-thread buffer and its trimming","FastPrintfImpl.java"),("stateless appenders","appender/DefaultAppender.java")],
 "per-thread buffer","objects reachable from the formatter, static fields and thread-local variables after the call")
p("C18","The work of a call is in proportion to its own format, arguments and result",
 "The number of steps the library takes for one call, compilation included, is at most a fixed multiple of the number of its conversions plus the length of its format, its argument texts and its result. This holds in every interleaving and does not change with the number of earlier calls, compilations, failures or threads.",
 ["histories","schedules","fault_sequences","inputs"],"for all histories, interleavings and failures, and all lengths of text, padding and digits",
 "Tests use short texts and few calls, where quadratic work, retries or growing tables are invisible; wall-clock limits are too noisy to tell.",
 ["Compiler.java","FastPrintfImpl.java","appender/*","seq/*"],[("parse loop","Compiler.java"),("rope traversal","seq/AtomicSeqIterable.java"),("layout","appender/SeqFormatter.java")],
 None,"steps counted by the simulator per call")
p("C19","Every failure is the failing call's own and stays as it was",
 "The exception of a call that fails describes that call and nothing else: its type, message, causes and suppressed exceptions are those the same call gives when made alone, in every interleaving and after any history of other failures. An exception, or cause, that carries a stack is never raised by two calls and carries the stack of its own call. Once raised it does not change, whatever happens to the arguments or in later calls.",
 ["histories","schedules","fault_sequences","inputs"],"for all failing compilations and calls, repeated on any number of threads and interleaved in any way",
 "Tests look at one exception right after it was thrown; reused or shared exceptions, shared message buffers and messages built later show only when two failures are compared or an argument changes afterwards.",
 ["PrintfException.java","PrintfSyntaxException.java","Compiler.java","traits/*","util/Utils.java"],[("message of a formatting exception","PrintfException.java"),("lenient message text","util/Utils.java"),("syntax errors with cause","Compiler.java")],
 None,"type, message, causes, identity and stack of the exceptions raised")
p("C20","A call has no effect besides its result and its destination",
 "Compiling, building an argument list and formatting leave everything else as it is, even for a moment, and also when the call fails or is aborted at any point: the caller's argument objects, the default locale and time zone, system properties and the handler of uncaught exceptions, the standard output and error streams, and the calling thread's name, priority, interrupt status and context class loader. Nothing is printed, no thread is started and no work is handed to another thread.",
 ["histories","schedules","fault_sequences","inputs"],"for all calls, failures and aborts, as seen by other threads, arguments and destinations at any moment",
 "Side effects that are undone before the call returns, or happen only when a call fails, do not show in any result; they need an observer in the middle of the call.",
 ["FastPrintfImpl.java","Compiler.java","traits/*","util/Utils.java"],[("values taken from arguments","traits/ObjectTraits.java"),("array and list text","util/Utils.java"),("per-thread buffer","FastPrintfImpl.java")],
 None,"surroundings of the library, looked at at every step")

def n(id,title,st,why,files,mech):
    p(id,title,st,["inputs"],"for all values and conversion flags",why,files,mech)
n("N01","Integer conversions match C printf","For every integer value, Java type and combination of flags, width and precision, the integer conversions produce the text the C library's printf produces for the same value at the same bit width.",
  "Tests sample a few values of a 64-bit domain times 32 flag combinations.",["appender/SeqFormatter.java","number/*"],[("integer layout","appender/SeqFormatter.java")])
n("N02","Floating-point digits are correctly rounded and shortest","For every finite float and double, the digits printed are the correctly rounded decimal of the value at the requested precision, and the shortest digits that read back to the same value where the conversion asks for them.",
  "Tests sample a few of 2^64 values.",["util/internal/*","number/*"],[("shortest decimal","util/internal/DoubleToDecimal.java"),("fixed decimal","util/internal/FormattedFPDecimal.java")])
n("N03","Floating-point layouts match C printf","For every value and combination of flags, the fixed, scientific, general and hexadecimal conversions lay out sign, point, exponent, infinities and NaN as the C library's printf does.",
  "Tests sample a few values and flags.",["appender/SeqFormatter.java","number/FloatLayout.java"],[("float layout","appender/SeqFormatter.java")])
n("N04","Width and flags pad and align every conversion exactly","For every conversion, flag combination and admissible width, the output is at least the width, padded on the correct side with the correct character and never truncated by it.",
  "Tests sample a few combinations.",["appender/SeqFormatter.java"],[("justification","appender/SeqFormatter.java")])
n("N05","Exactly the documented format grammar is accepted","Every string of the documented format grammar compiles and every other string is rejected with a syntax error that reports the position of the fault.",
  "The set of strings is infinite.",["Compiler.java","Specifier.java","Flag.java"],[("parser","Compiler.java")])
n("N06","Every argument type converts to what its conversion documents","For every supported argument type and conversion, the value used is the documented one (unsigned widening, boolean as number, null text, arrays, dates to epoch milliseconds) and unsuitable types are rejected.",
  "Tests sample the type by conversion matrix.",["traits/*"],[("type dispatch","ArgsImpl.java")])
n("N07","The text is the same on every supported Java version","For every format and argument list the text is the same on Java 8 and every later version.",
  "The test suite runs on one Java version.",["util/internal/MultiplyHigh.java","seq/Repeated.java"],[("version-dependent fast paths","seq/Repeated.java")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
