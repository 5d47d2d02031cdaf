#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing; the file is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
BI, BH, IM, IH, SL = "src/BigInteger.cpp", "src/BigInteger.h", "src/BigIntegerImpl.cpp", "src/BigIntegerImpl.h", "src/Slice.h"

p("P01", "Integer arithmetic is exact for every operand",
  "For integers of any size and sign, +, -, *, / and % (both operands big integers, or one of them a 64-bit integer on either side, and every in-place form, including operands that are the same object) and ++, --, negation and absolute value give the mathematically exact result. Division truncates toward zero and the remainder has the sign of the dividend with |r| < |b|, so (a/b)*b + a%b == a for every non-zero b.",
  ["inputs", "histories"], "all operand pairs of any size/sign, every operator form and aliasing pattern",
  "Tests sample random operands on a few sizes; carries, borrow chains, the quotient-digit correction of long division, block splits of the sub-quadratic multiplication and sign combinations are hit with probability ~2^-32 or never.",
  [IM, BI, BH], [("addMag/subMag/inc/dec carry propagation", IM), ("gradeSchoolMul and mulKaratsuba", IM), ("knuthDivImpl, divideAssignAndReminderByU32", IM), ("operator forms", BI)],
  [("magnitude limbs + sign flags", "value of the integer", IH)],
  ["operators of BigInteger", "copyMagDataTo + sign predicates of the result"])
p("P02", "Bitwise and shift operators follow infinite two's complement",
  "&, |, ^ and ~ (with big or 64-bit operands of any sign) equal the same operation on the infinite two's complement representation of the operands; x << n equals x * 2^n and x >> n equals floor(x / 2^n) for every n >= 0. notBits() inverts exactly the significant bits of the magnitude and keeps the sign, giving zero when all of them were one.",
  ["inputs", "histories"], "all operand values, widths, signs and shift counts, including values that were larger before",
  "Test operands are non-negative and fresh; sign extension over operands of different width, values with whole zero limbs below the lowest set bit, shift counts around multiples of 32 and shrunk-then-regrown values are not sampled.",
  [IM, BI, SL], [("DEFINE_BITWISE over getU32", IM), ("shlMag/shrMag and the lost-bit rounding of negative right shifts", IM), ("Slice::slice growth", SL)],
  [("first-non-zero-limb cache", "where two's complement negation starts", IH)], ["operators of BigInteger"])
p("P03", "Comparisons and predicates depend on the mathematical value only",
  "==, !=, <, <=, >, >= and cmp, between two big integers or with a 64-bit integer on either side, agree with each other and with the mathematical total order; isZero, isOne, isNegOne, isPositive, isNegative, isEven and isOdd agree with the value. Equal values are indistinguishable through every public observer, whatever sequence of constructions and operations produced them.",
  ["inputs", "histories"], "all pairs of values and all ways of producing each value",
  "Tests compare a handful of freshly built values; representations left over by shrinking, copying or importing, and the mixed int64 forms at the limits of 32 and 64 bits, are never compared.",
  [BI, IM, SL], [("cmp / cmpMag", IM), ("canonical form: no leading zero limb, sign flag", IM), ("int64 comparison operators", BI)],
  [("sign flags", "zero/positive/negative", IH)], ["comparison operators", "is* predicates", "toString, get2sComplement, copyMagDataTo"])
p("P04", "Number text round-trips exactly in every radix 2..36",
  "toString(radix) yields the canonical representation (lower-case digits, '-' only for negative values, no leading zeros, \"0\" for zero) for every value and radix 2..36. Parsing any valid text of that radix (optional sign, leading zeros, either letter case) gives exactly its value and reports success, so parse(toString(x)) == x.",
  ["inputs"], "all values x all radices x all spellings of a number",
  "Tests print and parse a few numbers in radix 10 and 16; each radix has its own block size, block radix and digit-count table entries, exercised only by multi-block numbers of that radix with inner zero blocks.",
  [IM, BI], [("toString: 64-bit block radix, zero padding", IM), ("fromString: 32-bit block radix", IM), ("per-radix tables", IM)],
  (), ["BigInteger::toString", "BigInteger string constructor and assign"])
p("P05", "Malformed number text is rejected and leaves the target unchanged",
  "Parsing text that is not an integer in the given radix (empty, sign only, repeated or misplaced sign, a character that is not a digit of the radix at any position, or a radix outside 2..36) reports failure through the ok flag and an error status. The target object keeps the value it had before the call, and a value constructed from such text is zero.",
  ["inputs"], "all byte strings x all radices x all previous target values",
  "Tests parse well-formed text; a bad character matters at each position relative to the digit blocks in which the text is converted.",
  [IM, "c/src/pgbn.cpp"], [("fromString: from_chars result checks, temporary result", IM)], (), ["BigInteger::assign(string), string constructor, C AssignWithStr/CreateWithStr", "Status of the calling thread"])
p("P06", "Binary and native-integer conversions are exact and stay in bounds",
  "Importing two's complement bytes of any length in either byte order gives exactly their value; exporting the magnitude writes the little-endian bytes of |x|, never beyond the given capacity, and returns the number written; 32-bit block i of an integer equals block i of its infinite two's complement. getInt64/getUInt64 (and try forms) succeed exactly when the value is in range and then return it, and otherwise report overflow; as<T>() returns the low bits.",
  ["inputs"], "all byte strings, values, capacities and block indices",
  "Tests import a few 4- and 8-byte patterns; lengths not multiple of 4, redundant sign bytes, negative powers of 256 and values next to the type limits are separate code paths.",
  [IM, BI], [("assign(bin,len,little)", IM), ("copyMagDataTo / getMagBitCount", IM), ("getU32 / toU64 / getInt64 / getUInt64", BI)], (), ["fromBinary and binary constructor", "copyMagDataTo", "get2sComplement", "getInt64/getUInt64/as<T>"])
p("P07", "Copies are independent values; aliasing and moving are safe",
  "After any history of copies, moves, assignments, swaps and in-place operations, every variable holds exactly the value its own history gives it: changing one variable never changes another one. Operations whose operands are the same variable, or share storage with it, give the same result as with independent copies, and a moved-from variable can be assigned and used again.",
  ["histories"], "all interleavings of operations over variables that share storage",
  "Copy-on-write sharing is invisible to tests that build fresh operands; a missing clone shows only when a particular sharing pattern meets a particular mutating path.",
  [SL, IM, BI], [("Slice::cloneData", SL), ("cloneData before each mutation", IM), ("sliced views in split", IM)],
  [("shared limb vector + [lo,hi) window", "storage shared by copies", SL)], ["value of every live variable after every operation"])
p("P08", "eval computes the value the expression grammar defines",
  "For every well-formed integer expression, eval returns the exact value under the precedence, loosest to tightest: ?: (right), |, ^, &, ==/!=, relational, shifts, +/-, */ / %, ** (left-associative), unary + - ~, postfix ! (factorial), with parentheses, arbitrary white space and left-associative binary operators. Comparisons give 1 or 0, / and % truncate, the condition of ?: is true when non-zero, and x**0 is 1.",
  ["programs"], "all well-formed expressions (non-negative exponents and shift counts, non-zero divisors) of any shape and size",
  "Tests evaluate a handful of expressions; operator pairs, associativity, nesting and node counts are a product space.",
  ["src/infixExpr/ExprParser.cpp", "src/infixExpr/ExprTree.cpp", "src/infixExpr/Token.h", "src/eval.cpp"],
  [("recursive-descent parser", "src/infixExpr/ExprParser.cpp"), ("node evaluation callbacks and node pool", "src/infixExpr/ExprTree.cpp"), ("tokenizer", "src/infixExpr/Token.h")], (), ["pgbn::expr::eval"])
p("P09", "Parallel evaluation equals sequential evaluation",
  "For every expression and every thread count, peval returns the same value as eval, evaluates every node exactly once and terminates, under every schedule. An exception thrown by a registered function reaches the caller of peval as it reaches the caller of eval.",
  ["programs", "schedules", "configurations"], "all expressions x thread counts x schedules",
  "The test calls peval once with the default thread count and does not look at the result; ordering and hand-over between nodes is schedule dependent.",
  ["src/eval.cpp", "src/infixExpr/ExprTree.cpp", "src/parallel/ThreadPool.h"],
  [("topological scheduling over node counts", "src/eval.cpp"), ("per-node promise", "src/infixExpr/ExprTree.cpp"), ("node index across the pool buffers", "src/infixExpr/ExprTree.cpp")], (), ["pgbn::expr::peval", "calls observed by registered functions"])
p("P10", "Malformed expressions are rejected, terminate and touch no bad memory",
  "For any text, eval and peval terminate without undefined behaviour and read only the given characters. Text that is not a complete well-formed expression (bad character or literal, undefined symbol, missing operand, bracket or separator, trailing tokens, wrong number of arguments) returns zero and sets the given Status (the thread's Status if none is given) to a registered parse error instead of returning the value of some part of it.",
  ["inputs"], "all character strings, including views without terminator",
  "Tests contain only well-formed expressions.",
  ["src/infixExpr/Token.h", "src/infixExpr/ExprParser.cpp", "src/eval.cpp", "src/streams/StringReadStream.h"],
  [("tokenizer error returns", "src/infixExpr/Token.h"), ("BADTOK/CKERR error propagation", "src/infixExpr/ExprParser.cpp")], (), ["eval/peval result and Status"])
p("P11", "Registered symbols are called as written and never altered",
  "In every evaluation a registered function receives exactly the values of its arguments in source order, once per occurrence of the call - in eval in the written order, operands and arguments from left to right - and its result is used at that position; it is not called when the number of arguments differs from the registered count. A registered constant denotes its registered value in every evaluation and keeps it whatever expressions or functions are evaluated; registering a name again replaces it.",
  ["programs", "histories"], "all expressions over registered functions/constants and all sequences of evaluations",
  "Tests register two functions and print; argument vectors share storage with constants and literals, so an in-place change leaks only across evaluations.",
  ["src/infixExpr/ExprTree.cpp", "src/infixExpr/SymbolTable.h", "src/infixExpr/ObjectManager.h"],
  [("builtinFuncEvalCallback", "src/infixExpr/ExprTree.cpp"), ("ObjectManager::registe/get", "src/infixExpr/ObjectManager.h")], (), ["argument vectors seen by registered functions", "eval results"])
p("P12", "Fractions are exact, in lowest terms, and print exactly",
  "Every fraction built or computed by +, -, *, / equals the exact rational result and its numerator and denominator have no common factor; reciprocal inverts it. toString shows sign, |numerator| and |denominator|; toDecimal(n) shows the exact value truncated toward zero to n decimal digits, with all digits present and the sign of the value. A zero denominator or a division by (or reciprocal of) zero is reported as division by zero.",
  ["inputs", "histories"], "all numerators/denominators (any sign), operation chains and digit counts",
  "The test checks six results with small positive parts.",
  ["src/Fraction.h", "src/algorithm.cpp"], [("fix() with gcd", "src/Fraction.h"), ("toDecimal", "src/Fraction.h"), ("gcd", "src/algorithm.cpp")], (), ["Fraction getters, toString, toDecimal"])
p("P13", "The thread pool runs each accepted task exactly once and shuts down",
  "Every task accepted by a pool runs exactly once on one of its workers; its future delivers the task's own result or exception. A queued task does not wait while a worker is idle, so as many tasks as there are workers run at the same time, and tasks may submit further tasks. Destroying the pool first completes every accepted task, then ends all workers, and always returns; a pool with one worker runs tasks in submission order. When the system refuses it a thread, the pool (or the parallel evaluation that wanted it) reports that by an exception or does with fewer, but the program goes on, no thread stays behind and the next pool works.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of submitters, workers and destruction; any number of workers and tasks; any thread refused",
  "The test submits a few tasks once; lost wake-ups, double pops and shutdown races depend on the schedule.",
  ["src/parallel/ThreadPool.h", "src/parallel/SimpleConcurrenceQueue.h"],
  [("condition variable wait/notify", "src/parallel/SimpleConcurrenceQueue.h"), ("running flag and drain loop", "src/parallel/ThreadPool.h")],
  [("queue + always-pop flag", "pending tasks / shutdown", "src/parallel/SimpleConcurrenceQueue.h")], ["task start/end events", "futures", "destructor return"])
p("P14", "The C binding computes what the C++ API computes",
  "Every pgbn_BigInteger_* function has the effect and result of the corresponding C++ operation for all arguments, changes only the object it is told to change, and reports conversion failures the same way (NULL, false or ok=false, with the status set). Strings returned by the binding have the reported length and are terminated.",
  ["inputs", "histories"], "all call histories through the C API",
  "The C tests call the Status functions and one example.",
  ["c/src/pgbn.cpp", "c/src/pgbn.h"], [("thin wrappers over the implementation", "c/src/pgbn.cpp")], (), ["C functions' results and object values"])
p("P15", "Error codes: right message, right callback, per-thread state, built-ins present",
  "Setting a status to a registered code invokes the callback most recently registered for it exactly once with its bound arguments, while the status already shows the code, and its info text is the registered one; a context given to a status stays until another is given; every code the library defines is registered, from the first use in any thread, and an unknown code has the default info text and no callback. The library's status is per thread, and starting threads or first use of the status never overwrites what the user registered.",
  ["histories", "schedules"], "all histories of registrations, status changes and thread starts, through C++ and C",
  "The test registers a few codes in one thread after the registry is already initialised.",
  ["src/Status.cpp", "src/Status.h", "src/errInfos.cpp", "c/src/pgbn.cpp"], [("registeImpl/callback/find", "src/Status.cpp"), ("thread_local instance and one-time registration", "src/Status.cpp"), ("built-in table", "src/errInfos.cpp")],
  [("code -> (info, callback) map", "process-wide registry", "src/Status.cpp")], ["callback invocations", "getInfo/getCallback"])
p("P16", "No history of valid calls causes undefined behaviour",
  "No sequence of valid public calls (arithmetic, conversions, copies and moves, expressions, fractions, C binding) reads or writes outside live memory, uses uninitialised or freed memory, frees twice, overflows a signed integer, shifts out of range or trips an internal assertion.",
  ["histories", "inputs"], "all histories of valid calls",
  "Tests run uninstrumented: an out-of-bounds limb access or dangling view usually goes unnoticed.",
  [IM, SL, BI, "c/src/pgbn.cpp", "src/infixExpr/ExprTree.cpp", "src/Fraction.h"], [("window arithmetic of Slice", SL), ("limb loops", IM), ("debug assertions", "src/pgfwd.h")], (), ["AddressSanitizer, UBSan, valgrind, assertion failures"])
p("P17", "Distinct objects can be used from different threads",
  "Threads that work on distinct integers (including copies that share storage), read the same integer concurrently, or run eval, peval, parsing and printing at the same time get the same results as when run alone, with no data race.",
  ["schedules"], "all interleavings of threads on distinct objects, shared read-only objects and shared library state",
  "All tests are single-threaded apart from peval's own pool.",
  [SL, IM, "src/Status.cpp", "src/infixExpr/SymbolTable.h", "src/eval.cpp", "c/src/pgbn.cpp"],
  [("shared_ptr count as ownership test", SL), ("lazy cache in const readers", IM), ("thread_local Status and Hooks", "src/Status.cpp")], (), ["ThreadSanitizer reports", "per-thread results vs sequential results"])
p("P18", "Memory is released, and repetition does not make it grow",
  "When all objects created by a history of calls have been destroyed, all memory they obtained has been released, including after failed parses, rejected expressions and pool shutdown. Repeating any sequence of operations that restores a variable's value keeps its memory bounded by a constant multiple of the largest value involved.",
  ["histories"], "all histories; unbounded repetition",
  "Tests never measure memory.",
  [SL, IM, "c/src/pgbn.cpp", "src/eval.cpp"], [("shared_ptr ownership of limb vectors", SL), ("window reuse: prepend/append/slice", SL), ("C handles", "c/src/pgbn.cpp")], (), ["allocation balance and live bytes"])
p("P19", "Debug and release builds behave the same",
  "For every history of valid calls, a build with the library's debug checks and a build without them produce identical observable results, and the debug build's internal assertions never fire.",
  ["configurations", "histories"], "build configurations (debug checks on/off, optimisation levels, compilers) x histories",
  "The tests run in one configuration only; debug-only code, asserts with side effects and undefined behaviour differ between builds.",
  ["src/pgfwd.h", "src/fwd.h", IM, "src/infixExpr/Token.h"], [("PGBN_DEBUG / PGZXB_DEBUG macros", "src/pgfwd.h")], (), ["recorded results of the same history in each build"])
p("P20", "Division by zero always reaches the error callback",
  "Every division or remainder by zero, whichever operand form, in-place operator, C function, expression operator or fraction operation it comes from and whatever the size and sign of the dividend (zero included), sets the calling thread's status to division-by-zero and invokes its registered callback. No non-zero divisor ever does.",
  ["inputs"], "all dividends, all divisor forms and entry points",
  "No test divides by zero: the default callback ends the process.",
  [IM, BI, "src/Fraction.h", "c/src/pgbn.cpp"], [("divisor check in div and divideAssignAndReminderByU32", IM)], (), ["DIVBY0 callback count", "Status info"])
p("P21", "Expression literals denote their value in the written radix",
  "A literal is decimal, octal with a leading 0, hexadecimal with 0x, or of radix NN (one or two digits, 2..36) with 0Nx or 0NNx, with digits in either letter case, and denotes exactly that value; the fraction part of a decimal literal is ignored and ends where the literal ends. White space between tokens never changes the result.",
  ["inputs", "programs"], "all literals, radices and surrounding tokens",
  "Tests use a few literals in two radices.",
  ["src/infixExpr/Token.h", "src/infixExpr/fwd.h"], [("literal branch of the tokenizer", "src/infixExpr/Token.h"), ("literal2Value hook", "src/infixExpr/fwd.h")], (), ["eval of literals"])
p("P22", "The concurrent queue is a linearizable FIFO that loses nothing",
  "Under every schedule SimpleConcurrenceQueue behaves as one FIFO queue: no element is lost, duplicated or popped out of order, so the elements of one producer leave in the order it pushed them. push evaluates its condition once, decides and inserts in one step with respect to all other calls, and calls the error callback exactly when it refuses, leaving the offered element intact. pop waits until there is an element or notifyAllPop was called, notifyAllPop wakes every waiting consumer, a copy of the queue is a consistent snapshot, and every element is destroyed exactly once.",
  ["schedules", "histories"], "all interleavings of producers, consumers, closers and copiers",
  "The tests reach the queue only through one run of the pool; lost wake-ups, torn snapshots and check-then-act windows depend on the schedule.",
  ["src/parallel/SimpleConcurrenceQueue.h"],
  [("mutex + condition variable around std::queue", "src/parallel/SimpleConcurrenceQueue.h"), ("condition and callback of push", "src/parallel/SimpleConcurrenceQueue.h")],
  [("queue, always-pop flag", "elements not yet popped; consumers must not block any more", "src/parallel/SimpleConcurrenceQueue.h")], ["results of push and pop, condition and callback calls, element lifetimes"])
p("P23", "gcd is exact for non-negative integers of every size",
  "algo::gcd(a, b) is the greatest common divisor of any two non-negative integers, gcd(a, 0) = gcd(0, a) = a, whatever their sizes, common powers of two and order, and whether they are the same object or share storage; the operands keep their values.",
  ["inputs"], "all pairs of non-negative integers",
  "The tests reach gcd only through six small fractions; long quotient sequences, large common factors and limb boundaries are not sampled.",
  ["src/algorithm.cpp", IM], [("gcd loop over division with remainder", "src/algorithm.cpp")], (), ["algo::gcd result and operands"])
p("P24", "The integer implementation layer keeps the same exact contract",
  "BigIntegerImpl, the type registered functions and constants work on, is exact for every value and history: in-place arithmetic, bitwise and shift operations, comparison, conversion, the division that also delivers the remainder (or quotient) and the static multiplication and division into separate result objects all give the mathematical result; copying, sharing, swapping and moving keep every other object's value, and every later operation on the results is exact too.",
  ["histories", "inputs"], "all histories of BigIntegerImpl calls over several objects, results kept in objects that held other values",
  "The tests call this layer with fresh single-use objects; result objects that are reused, swapped or shared keep flags and caches of their former value.",
  [IM, IH], [("flags, window and lazy cache moved by swap/move/assign", IH), ("divideAssignAndReminder, modAssignAndQuotient, mul, div", IM)],
  [("sign flags, limb window, first-non-zero cache", "state of one object", IH)], ["value, predicates, text and two's complement blocks of every object"])
p("P25", "A slice is its own sequence, whoever shares its storage",
  "After any history of construction, slicing, appending, prepending, resizing of the window, copying, moving and cloneData, every Slice reads as exactly the sequence its own history defines; elements added by growing have the requested value. cloneData separates storage: afterwards no write through one slice is visible in another one, while without it slices that report the same base data see each other's writes. weakEquals and hasSameBaseData tell exactly whether window and storage coincide.",
  ["histories"], "all histories over several slices that share storage",
  "The Slice tests check one short history each; stale elements, window bounds and ownership after sharing appear only in longer mixed histories.",
  [SL], [("[lo, hi) window over a shared vector", SL), ("slice/append/preExtend/cloneData", SL)],
  [("shared vector + window", "sequence of a slice", SL)], ["every element, size and sharing predicate of every live slice"])
p("P26", "Parser objects and streams are reusable and hooks see every literal once",
  "A character stream delivers exactly the characters it was given, then its end mark. For each literal of a well-formed expression the literal hook is called once, in source order, with the radix, the lower-cased digits before and after the point, and its result is the literal's value; if it rejects, parsing fails as malformed. Parsing yields a tree exactly when the error code is success, a parser initialised again behaves like a new one, and trees produced earlier keep their structure and meaning.",
  ["programs", "histories"], "all texts and all sequences of parses, re-initialisations and runs of earlier trees with any hook",
  "The tests parse one text per parser with the default hook.",
  ["src/infixExpr/ExprParser.cpp", "src/infixExpr/ExprTree.cpp", "src/infixExpr/Token.h", "src/infixExpr/fwd.h", "src/streams/StringReadStream.h"],
  [("parser init and node pool", "src/infixExpr/ExprParser.cpp"), ("literal2Value hook", "src/infixExpr/fwd.h"), ("stream cursor", "src/streams/StringReadStream.h")], (), ["hook calls, error codes, tree walks and values"])
p("P27", "Formatted text is the given text with the named arguments in place",
  "pgfmt::format returns the format text with every placeholder {n} or {n:spec} replaced by the text of the argument number n (counted from 0; nothing if there is no such argument), in any order and as often as it is named, and every other character unchanged. Texts of any length, numbers of any value, true/false, pairs as 'a : b' and containers as '[a, b]' appear completely; spec is the printf flags, width and precision of the placeholder's own argument (the radix, for a BigIntegerImpl). formatAppend appends exactly this text, arguments are not changed and no call touches memory that is not its own.",
  ["inputs"], "all format texts and argument lists of the supported types",
  "The tests print a few short values and compare nothing; length, magnitude, order and width of the arguments decide whether fixed buffers suffice and whether specifications meet their argument.",
  ["src/pgdebug.h"], [("parseBracket, parseArgs, format", "src/pgdebug.h"), ("transToString", "src/pgdebug.h")], (), ["results of format and formatAppend"])
p("P28", "Interactive programs answer every line, in order, and end with their input",
  "The calculator example (examples/calculator.cpp), which is the documented way to use the expression evaluator, answers every line of its standard input in order and before it needs the next one with 'line = value' (sum and max of one or more arguments included), reports a malformed line on the error stream with value 0 and goes on, ends with the division-by-zero code on a zero divisor, and ends with success at the end of its input; a line never changes what a later line yields. The other example programs print exact results.",
  ["histories", "inputs"], "all sessions of lines, however they arrive at the program's input",
  "No test runs the example programs; long sessions in one process, where one evaluator state follows the other, are not sampled.",
  ["examples/calculator.cpp", "src/infixExpr/eval.cpp", "src/infixExpr/ExprEvaluator.cpp", "src/infixExpr/ExprParser.cpp", "src/io.cpp"],
  [("read-evaluate-print loop", "examples/calculator.cpp"), ("global symbol table, pool and status of eval", "src/infixExpr/eval.cpp")], (), ["both output streams and the exit code of the programs"])
p("P29", "Shared helpers keep their contracts",
  "A Variant holds exactly the alternative and value last put in, tells which one, and destroys each value exactly once. An ObjectManager returns for a name the object last registered under it, always at the same address, nothing for any other name, and destroys all its objects at its end. Parameter packs are visited once each, in order. popcnt, clz, ctz and ceilDivide are exact over their whole ranges; cStrToU32 and cStrToU64 convert exactly the numbers that fit and report all others. parseCmdSimply hands every known option to its callback, in order, with the argument after it if it takes one. PGZXB_NEW, PGZXB_DELETE, their batch forms and Deleter construct and destroy each object exactly once.",
  ["inputs", "histories"], "all argument values and all histories of the helper objects",
  "Most of the helpers have no test at all, the others one or two values; widths, limits, ownership and repeated use decide.",
  ["src/pgfwd.h", "src/fwd.h", "src/infixExpr/fwd.h", "src/infixExpr/ObjectManager.h"],
  [("bit counts, conversions, visitParamPackage, TypeArray, PGZXB_NEW/DELETE, Deleter, parseCmdSimply", "src/pgfwd.h"), ("Variant", "src/infixExpr/fwd.h"), ("ObjectManager", "src/infixExpr/ObjectManager.h")], (), ["results, live objects and contents"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
