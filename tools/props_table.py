ENUM = 'explicit-state enumeration: every state of a bounded configuration space, each transition executed on the real code and compared with a reference transition system'
BOUND = 'Exhaustive within the stated bounds on the real, unmodified code; trusts the reference transition system in /verif/mc/ref (written from the General Decimal Arithmetic specification, cross-validated against libmpdec) and assumes nothing outside the alphabets behaves differently. '

def q(over, text):
    return {'over': over, 'text': text}

def mech(*ps):
    return [{'name': n, 'where': w} for n, w in ps]

PROPS = [
 dict(id='C01', title='Addition, subtraction, multiplication and FMA are exactly rounded',
  statement='For every pair (triple) of finite or special decimals and every valid context, the sum, difference, product and fused multiply-add equal the mathematically exact result rounded once to the context precision with the context rounding mode, with the sign of zero and the exponent the General Decimal Arithmetic specification prescribes. In the Go operating mode and with unlimited precision the sum, difference and product are exact.',
  quantifier=q(['inputs', 'configurations'], 'all operand coefficients, signs and exponent gaps, all precisions, all seven rounding modes, both operating modes'),
  why_tests_cant='The tests sample a few thousand vectors at fixed precisions; carries across the machine-word boundary, half-way cases and exponent gaps that trigger shortcut paths combine into far more situations than the vectors contain.',
  anchors={'files': ['big_ctx.go', 'util.go', 'internal/arith/arith.go', 'internal/arith/pow.go'],
           'mechanism': mech(('aligned addition of compact, mixed and inflated coefficients', 'big_ctx.go add/addCompact/addMixed/addBig'), ('tiny addend replaced by a sticky digit', 'big_ctx.go tryTinyAdd'), ('single rounding of the exact result', 'util.go fixTo'), ('full-width multiplication', 'big_ctx.go mul'))},
  technique=ENUM, note=BOUND + 'Word-size boundaries, carries, exponent gaps and rounding ties are all inside the enumerated alphabet.'),
 dict(id='C02', title='Division is exactly rounded and terminates at its ideal exponent',
  statement='The quotient of two decimals is the exact quotient rounded once to the context precision under the context rounding mode; an exact quotient carries the exponent closest to the ideal exponent (dividend exponent minus divisor exponent) that represents it. With unlimited precision a terminating quotient is exact and a non-terminating one is reported as an error (NaN), never silently truncated.',
  quantifier=q(['inputs', 'configurations'], 'all dividends and divisors, all precisions, all rounding modes, both operating modes, unlimited precision'),
  why_tests_cant='Correct rounding depends on the relation between the remainder and half the divisor for every coefficient pair, and on which of the one-word, mixed and multi-word paths is taken; sampled vectors reach few of the combinations.',
  anchors={'files': ['big_ctx.go', 'util.go', 'internal/arith/arith.go'],
           'mechanism': mech(('coefficient scaling so that the quotient has exactly the wanted digits', 'big_ctx.go Quo'), ('remainder against half divisor decides the increment', 'big_ctx.go quo, quoBig; context.go needsInc'), ('trailing zeros removed down to the ideal exponent', 'big_ctx.go finishQuo, reduceTo'))},
  technique=ENUM, note=BOUND),
 dict(id='C03', title='Integer quotient and remainder satisfy x = q*y + r',
  statement='For finite x and non-zero finite y, the integer quotient q is x/y truncated towards zero, the remainder r has the sign of x, is smaller in magnitude than y, and x = q*y + r holds exactly whenever q fits the precision; otherwise the result is NaN with division-impossible. The separate quotient and remainder operations and the combined one agree for all operands, including zeros and infinities.',
  quantifier=q(['inputs', 'configurations'], 'all operand pairs, precisions, rounding modes and operating modes'),
  why_tests_cant='The identity must hold for every pair of scales and coefficients; the tests check a list of vectors for the separate operations and hardly any for the combined one.',
  anchors={'files': ['big_ctx.go'],
           'mechanism': mech(('aligned integer division', 'big_ctx.go quorem, quoremBig'), ('precision limit on the integer quotient', 'big_ctx.go QuoInt, Rem, QuoRem'))},
  technique=ENUM, note=BOUND),
 dict(id='C04', title='Rescaling operations round once, in the requested direction',
  statement='Quantize, Round, RoundToInt, Ceil, Floor, Reduce, Set, Abs and Neg yield the exact value of their operand rounded once to the requested digits or scale under the applicable rounding mode, keep the sign of zero, and produce the exponent the operation names. Quantize yields NaN exactly when the result would need more digits than the precision or an exponent outside the context range.',
  quantifier=q(['inputs', 'configurations'], 'all coefficients, exponents, target scales, precisions and rounding modes'),
  why_tests_cant='Every combination of digits to discard, digit pattern and rounding mode matters, including carries into a new digit and discarding more digits than there are; tests sample them.',
  anchors={'files': ['big_ctx.go', 'util.go', 'big.go'],
           'mechanism': mech(('digit discard with rounding', 'big_ctx.go shiftr'), ('rescaling to a target exponent', 'big_ctx.go Quantize, RoundToInt'), ('trailing zero removal', 'big_ctx.go reduceTo'))},
  technique=ENUM, note=BOUND),
 dict(id='C05', title='Exponent limits: overflow, underflow, subnormal and clamping',
  statement='For every operation and context, a result whose magnitude exceeds the largest number of the context becomes infinity or the largest finite number as the rounding mode demands, a result below the normal range is rounded once to the smallest exponent, and zero exponents are clamped into range; overflow, underflow, subnormal, clamped, inexact and rounded are raised exactly when the specification says so; with unlimited precision and in Go mode, where results are not rounded to a precision, the limits still apply.',
  quantifier=q(['inputs', 'configurations'], 'all operands whose results lie inside, at and beyond the exponent limits, all limits, precisions and rounding modes'),
  why_tests_cant='The existing tests use the default, astronomically large exponent limits, so the limits are almost never reached; deciding them needs every result within a few ulps of each boundary for every rounding mode.',
  anchors={'files': ['util.go', 'big_ctx.go', 'context.go'],
           'mechanism': mech(('range check and subnormal rounding', 'util.go fixTo'), ('overflow by rounding mode', 'util.go overflow'), ('quotients computed no finer than the smallest exponent', 'big_ctx.go Quo'))},
  technique=ENUM, note=BOUND + 'Value and condition flags are both compared.'),
 dict(id='C06', title='Conditions are sticky, complete, and never influence results',
  statement='Every operation raises exactly the conditions the specification assigns to its outcome, adds them to those already recorded in the receiver, and yields the same value whatever was recorded before; the operands\' and receiver\'s other context fields stay untouched. An error is reported exactly when a recorded condition is trapped and it names exactly the trapped ones; the operation taking an explicit context and the one using the receiver\'s context agree.',
  quantifier=q(['inputs', 'histories', 'configurations'], 'all operands, contexts, all earlier condition sets, all trap sets'),
  why_tests_cant='The test vectors always start from a clean context and mostly check values; a leak of an earlier condition into a later result, or a missing condition, needs the product of prior conditions, operations and outcomes.',
  anchors={'files': ['context.go', 'big_ctx.go', 'util.go', 'big.go'],
           'mechanism': mech(('condition accumulation', 'big_ctx.go, util.go fixTo'), ('trap evaluation', 'context.go Err'), ('NaN conditions', 'big.go checkNaNs, setNaN'))},
  technique=ENUM, note=BOUND + 'Prior condition sets enumerated: each single condition, none, all.'),
 dict(id='C15', title='Elementary functions are accurate to one unit in the last place',
  statement='Exponential, logarithms, power, trigonometric and inverse trigonometric functions, hypotenuse and the constants e and pi return a result that differs from the exact mathematical value by at most one unit in the last place of the requested precision, for every argument of their domain, every precision, rounding mode, exponent range and operating mode. Results outside the exponent range overflow or underflow as rounding the exact value would, whatever the size of intermediate results, and Inexact, Rounded, Subnormal, Underflow and Overflow describe the final result. Every call terminates promptly: irrational results for unlimited precision and trigonometric arguments too large to reduce are refused with NaN and an invalid condition.',
  quantifier=q(['inputs', 'configurations'], 'all arguments of the domain, all precisions, all rounding modes'),
  why_tests_cant='The tests compare a few fixed arguments at one or two precisions; cancellation near multiples of pi, near one, for tiny or huge arguments and for small precisions is only exposed by covering the argument/precision product.',
  anchors={'files': ['big_ctx.go', 'const.go', 'binary_spliting.go', 'continued_frac.go'],
           'mechanism': mech(('argument reduction and working precision', 'big_ctx.go Sin, Cos, Tan, prepCosine, exp'), ('series and continued fraction evaluation', 'big_ctx.go log, atan, expg; continued_frac.go; binary_spliting.go'), ('cached constants with fallback computation', 'const.go'))},
  technique=ENUM, note=BOUND + 'The oracle is an independent arbitrary precision evaluation with a rigorous error bound (mc/ref/fn.go).'),
 dict(id='C10', title='Comparison, classification and selection agree with the numeric order',
  statement='Comparisons, including the total-order and magnitude variants, agree with the exact numeric order (or the documented total order) for every pair of coefficients and exponents, and never modify their operands. Sign, class, integrality, digit count, adjusted exponent, quantum tests and the minimum/maximum of any number of values agree with the value they describe.',
  quantifier=q(['inputs'], 'all pairs and short lists of values in every representation'),
  why_tests_cant='Each comparison takes one of many shortcut paths depending on representation, digit counts and exponent gap; only covering all pairs of representations reaches each of them on both sides of every boundary.',
  anchors={'files': ['big.go', 'decimal.go', 'util.go'],
           'mechanism': mech(('comparison by digit count, adjusted exponent and aligned coefficients', 'big.go cmp, cmpabs; internal compare helpers'), ('total order', 'big.go CmpTotal, CmpTotalAbs'), ('classification', 'big.go IsInt, IsNormal, IsSubnormal, Class, Sign, Signbit, Precision'), ('selection', 'decimal.go Min, Max'))},
  technique=ENUM, note=BOUND),
 dict(id='C11', title='Parsing and printing are inverse and reject everything else',
  statement='Text accepted by the documented grammar is read as exactly the number it denotes (rounded once where a context applies), any other text is rejected or yields NaN with a conversion condition and never panics or yields a number; the result does not depend on what the receiver held before. Printing any value and reading it back gives the same sign, coefficient, exponent and class.',
  quantifier=q(['inputs', 'configurations'], 'all strings over the grammar alphabet up to a length, all values in all representations, dirty receivers'),
  why_tests_cant='The accepted language is infinite and the parser works in one pass with several digit counters; tests list a few dozen strings. Exhausting every short string over the grammar alphabet and every value near the representation limits decides acceptance and value together.',
  anchors={'files': ['scan.go', 'big.go', 'format.go', 'util.go'],
           'mechanism': mech(('sign, special and mantissa/exponent scanning', 'scan.go scan, scanForm, scanMant'), ('scientific and plain rendering', 'format.go; big.go String, MarshalText'), ('text unmarshalling', 'big.go UnmarshalText, Scan, SetString'))},
  technique=ENUM, note=BOUND),
 dict(id='C12', title='Formatted output shows the exact value rounded as requested',
  statement='Formatting with any verb, flag, width and precision prints the exact decimal value, rounded at most once to the requested number of digits under the value\'s rounding mode, padded and signed as the standard formatting rules say, and leaves the value unchanged. Without a precision every digit of the value is printed.',
  quantifier=q(['inputs', 'configurations'], 'all values, verbs, flag sets, widths and precisions'),
  why_tests_cant='Flags, width, precision, verb, sign, digit count and exponent interact, so the product of all of them has to be covered, which fixed examples cannot do.',
  anchors={'files': ['format.go', 'big.go'],
           'mechanism': mech(('verb dispatch and padding', 'big.go Format; format.go formatter.format'), ('digit rounding', 'format.go round helpers'))},
  technique=ENUM, note=BOUND),
 dict(id='C13', title='Conversions to and from Go numbers are exact or rounded once',
  statement='Setting a decimal from an integer, float, arbitrary-precision float or rational yields exactly that value (a ratio is rounded once to the context), with its sign, whatever the receiver held. Converting out yields the exact rational, the integer truncated towards zero with success reported exactly when it fits, and the correctly rounded binary float, with signs of zero and infinity kept.',
  quantifier=q(['inputs', 'configurations'], 'all values in all representations, all binary floats, receivers in any state'),
  why_tests_cant='The conversions switch algorithms at word size, power-of-ten and binary float limits, and at exponents from hugely negative to hugely positive; tests take a handful of values per conversion, mostly into fresh receivers.',
  anchors={'files': ['big.go', 'util.go', 'big_ctx.go'],
           'mechanism': mech(('truncating scaling', 'big.go Int, Int64, Uint64; util.go scalex, bigScalex'), ('binary floating point', 'big.go Float64, Float, SetFloat64, SetFloat'), ('rationals and integers', 'big.go Rat, SetMantScale, SetBigMantScale, SetUint64; big_ctx.go SetRat'))},
  technique=ENUM, note=BOUND),
 dict(id='C08', title='Results ignore aliasing, the receiver and operand history; operands stay intact',
  statement='Every operation yields the same result and the same conditions whether its receiver is a fresh value or one of its operands, whatever the receiver held before, and whatever context or conditions the operands carry. Operands that are not the receiver are never modified, results never share storage with operands or with the library\'s internal constants, and the operation\'s context form, method form and wrapper form agree.',
  quantifier=q(['inputs', 'histories', 'configurations'], 'all operations, operand values in every representation, ways receivers and operands can coincide, and prior receiver states'),
  why_tests_cant='Aliasing bugs depend on which operand is overwritten before its last use on each internal path, so they need the product of operation, alias pattern, representation and receiver history; the tests mostly use one fresh receiver per call.',
  anchors={'files': ['big_ctx.go', 'big.go', 'decimal.go', 'math/math.go', 'misc/misc.go', 'const.go'],
           'mechanism': mech(('operands copied before being overwritten', 'big_ctx.go Quo, Rem, Pow, FMA, QuoRem; util.go alias'), ('coefficient copies', 'big.go Copy, Set, Abs, Neg'), ('shared lazily created constants', 'const.go; util.go getDec, putDec'))},
  technique='explicit-state enumeration: every operation x operand tuple x alias pattern x receiver state is executed on the real code and compared with the run on separate fresh objects', note=BOUND + 'The reference run is the same operation on separate fresh objects (its value is judged by the other properties).'),
 dict(id='C07', title='NaNs, infinities, zeros and invalid contexts have their documented outcomes',
  statement='Every operation with a NaN operand yields a quiet NaN with that operand\'s sign (a signalling one first, raising invalid-operation), every undefined operation yields NaN with the conditions the specification assigns, and infinities, signed zeros and out-of-domain arguments give the documented special results. In the Go operating mode each of these NaN outcomes panics with the dedicated NaN error instead. An invalid context always yields NaN with the invalid-context condition.',
  quantifier=q(['inputs', 'configurations'], 'all operations and functions in all public forms, all tuples of operand classes, all contexts valid and invalid, both operating modes'),
  why_tests_cant='Every operation handles special operands in its own code, often after a shortcut for finite ones, so the product of operations, operand classes, forms and modes must be covered; the tests exercise special operands of the arithmetic core only, and the Go mode hardly at all.',
  anchors={'files': ['big.go', 'big_ctx.go', 'util.go', 'math/math.go', 'misc/misc.go'],
           'mechanism': mech(('NaN propagation and the Go mode panic', 'big.go checkNaNs, setNaN'), ('context validation', 'util.go invalidContext'), ('special cases of functions', 'big_ctx.go Pow, Atan2, Acos, Asin, Atan, logSpecials, Exp, Hypot'))},
  technique=ENUM, note=BOUND + 'Special results of functions come from a table transcribed from their documentation.'),
 dict(id='C09', title='Long operation histories never corrupt values, contexts or storage',
  statement='After any sequence of operations over a set of variables, every variable holds exactly the value and conditions that applying the specification step by step yields; each operation changes nothing but its receiver, keeps the receiver\'s context settings, keeps the representation canonical, and no two variables ever share coefficient storage.',
  quantifier=q(['histories', 'configurations'], 'all finite sequences of methods over variables with differing contexts, including every receiver/operand coincidence'),
  why_tests_cant='Stale digit counts, left-over coefficients, shared storage or sticky conditions show up only after a particular earlier operation left a particular residue; the tests execute single operations on fresh values.',
  anchors={'files': ['big.go', 'big_ctx.go', 'util.go'],
           'mechanism': mech(('compact and inflated forms kept canonical', 'util.go norm, setTriple; big.go SetBigMantScale'), ('storage reuse', 'util.go alias; big.go Copy; big_ctx.go'), ('cached digit count', 'big.go Precision'))},
  technique='explicit-state model checking: breadth-first search over the states of a machine whose registers are live library objects, every transition compared with the reference transition system', note=BOUND + 'Small contexts are explored to the fixed point, i.e. every reachable state; larger ones to a depth.'),
 dict(id='C14', title='Database interchange is lossless, bounded and leaves the decimal alone',
  statement='Decomposing a decimal and composing it again yields the same number, class and exponent, in any receiver and context; composing stores exactly the given sign, coefficient and exponent, keeps no reference to the caller\'s bytes and rejects unknown forms, and a number that does not fit the wire format is refused rather than altered. The PostgreSQL wrapper returns the exact value within the column limits, the value rounded once to them when allowed and otherwise a length error naming the part and its length, refuses infinities, maps nil, reads back what it wrote, and never changes the wrapped decimal.',
  quantifier=q(['inputs', 'configurations'], 'all values in all representations, coefficient byte strings, exponents to the int32 and library limits, receiver states and contexts, both column limits in both rounding settings'),
  why_tests_cant='Losses appear only for negative coefficients under a limiting context, exponents past int32, carries into a 131073rd digit or values that round away entirely; the tests compose a few values into fresh receivers and draw random digits far from the limits.',
  anchors={'files': ['decomposer.go', 'sql/postgres/decimal.go', 'big.go'],
           'mechanism': mech(('parts out of and into a decimal', 'decomposer.go Decompose, Compose'), ('column limits', 'sql/postgres/decimal.go Value'), ('reading columns', 'sql/postgres/decimal.go Scan; big.go UnmarshalText'))},
  technique=ENUM, note=BOUND),
 dict(id='C19', title='Reading numbers from a stream takes exactly the number and reports every fault',
  statement='Scanning decimals from a stream through package fmt skips leading space, reads exactly the characters of one number however the stream is chunked, yields what parsing that text yields whatever the receiver held, and leaves the next character unread; a stream that ends or fails before the number is complete yields an error and never a silently wrong number. JSON documents holding decimals in any position round-trip exactly.',
  quantifier=q(['inputs', 'crash_points', 'histories'], 'all streams, chunkings, read-fault positions, receivers in any state, successive reads from one stream'),
  why_tests_cant='The outcome depends on where a chunk ends, where a fault falls and what follows the number; the repository\'s only test of scanning is an empty to-do.',
  anchors={'files': ['big.go', 'scan.go'],
           'mechanism': mech(('token reading', 'big.go Scan'), ('number grammar', 'scan.go scan, scanForm, scanMant, scanExponent'), ('JSON', 'big.go UnmarshalJSON, MarshalText'))},
  technique='explicit-state enumeration with exhaustive fault injection: every stream, chunking and fault position within the bounds is executed on the real code against a token model', note=BOUND),
 dict(id='C16', title='Concurrent operations on shared operands behave as if run alone',
  statement='Goroutines that operate on their own receivers may share operands: in every interleaving each operation yields the result and conditions it yields alone, no operation writes to a shared operand even temporarily, the library\'s shared caches (lazily created constants, the table of powers of ten, pooled temporaries) never race, leak or hand one object to two users, and nothing deadlocks.',
  quantifier=q(['schedules', 'inputs'], 'all interleavings of two and three goroutines, all choices the pool may make, from the initial state of the library\'s caches'),
  why_tests_cant='The only hazards are in first uses of caches and in reuse of pooled objects, which need one particular interleaving in a fresh process; the tests run nothing concurrently and never from a fresh state.',
  anchors={'files': ['const.go', 'util.go', 'internal/arith/pow.go', 'big_ctx.go', 'binary_spliting.go'],
           'mechanism': mech(('lazily created constants', 'const.go lazyDecimal'), ('pooled temporaries', 'util.go getDec, putDec'), ('growing table of powers of ten', 'internal/arith/pow.go BigPow10, growBigTen'))},
  technique='stateless model checking: depth-first enumeration of all schedules and pool choices of the real code under a controlled scheduler, bounded by the number of preemptions, with the race detector as the oracle for the steps in between', note='exhaustive within the stated preemption bound per scenario; data races found by happens-before analysis of every explored schedule'),
 dict(id='C17', title='The series and continued fraction evaluators compute what they document',
  statement='Summing a series by binary splitting over any range of indices yields the documented sum of its terms (the exact sum rounded by the final division when the context holds the intermediate integers, a few units per term otherwise), the dynamic form converges to the limit of a convergent series, and the two continued fraction evaluators return the value of a finite fraction, or the limit of an infinite one, within a unit or two in the last place of the governing context. They terminate, ask the generator for a term only after it announced one, modify no term, and refuse an empty range.',
  quantifier=q(['inputs', 'configurations'], 'all term functions over the alphabet, all index ranges up to the length bound at every offset including the top of the index type, all generator kinds (with and without own storage or context), contexts and receivers'),
  why_tests_cant='The formulas for short ranges and for omitted term functions are each written out by hand; the tests only sum long series whose factors are mostly one, through the elementary functions built on them.',
  anchors={'files': ['binary_spliting.go', 'continued_frac.go', 'math/math.go'],
           'mechanism': mech(('recursive halving and the base cases of one to four terms, for four kinds of series', 'binary_spliting.go calculate'), ('forward recurrences', 'continued_frac.go Wallis, Lentz'), ('choice of storage, context and stopping rule', 'continued_frac.go walliser, lentzer, Contexter'))},
  technique=ENUM, note=BOUND),
 dict(id='C18', title='Square root and the neighbour operations are exact to the last digit',
  statement='The square root of any decimal is the exact root rounded half-even to the context whatever its rounding mode, exact roots being returned with the exponent nearest half the operand\'s and without Inexact, and an inexact root with unlimited precision being refused as an invalid operation; the next number above (below) an operand is the smallest (largest) number the context can represent that is greater (less), for operands of any length and class, without any condition.',
  quantifier=q(['inputs', 'configurations'], 'all operands and contexts including subnormal ranges, all rounding modes and representations'),
  why_tests_cant='A last-digit error needs an operand whose root lies next to a rounding boundary at the given precision; the neighbour operations differ only at powers of ten, zero, the ends of the range and operands longer than the context, of which the tests hold few.',
  anchors={'files': ['big_ctx.go', 'math/math.go'],
           'mechanism': mech(('integer square root and ideal exponent', 'big_ctx.go Sqrt'), ('step in the last place', 'big_ctx.go NextPlus, NextMinus'))},
  technique=ENUM, note=BOUND),
]
NOT_APPLICABLE = []
NOTES = 'All checks build the Go module in /verif/mc against /repo (replace directive), enumerate their space in parallel worker processes and execute the real code; see DESIGN.md.'
