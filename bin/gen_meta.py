#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when its
check (src/<ID>.cpp or checks/<ID>.py) exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/floaxie/"
P = []

def prop(id, title, statement, over, text, why, files, mech, note, technique, level="model_checking", observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique, level=level, observe=observe, state=state, na=na))

ENUM = "explicit enumeration of a bounded input space on the real code against an exact reference model"

prop("C01", "Printed text reads back as exactly the same value",
 "For every finite float and double, the printed text denotes a decimal number whose correctly rounded value in the same type is bit for bit the printed value (zero of either sign is printed as 0). No value loses precision or becomes another value by being printed.",
 ["inputs"], "every finite value of float; every finite value of double (bounded: all binary exponents x structured mantissas, all short decimals)",
 "Tests print a few hundred thousand random values of 2^64; a wrong entry of a table of powers, a wrong boundary at a power of two or a rounding slip shows only for a narrow set of exponents or mantissas.",
 [H + "grisu.h", H + "diy_fp.h", H + "powers_ten_double.h", H + "powers_ten_single.h", H + "cached_power.h", H + "k_comp.h", H + "prettify.h"],
 [("boundaries of the rounding interval and digit generation inside of them", H + "grisu.h: boundaries(), digit_gen(), grisu2()"), ("tables of powers of ten", H + "powers_ten_double.h"), ("layout of digits", H + "prettify.h: prettify()")],
 "All floats exhaustively; doubles on a bounded structured space. Text is judged by libstdc++ from_chars, disagreements by big integers.", ENUM)

prop("C02", "The library's own parser recovers every printed value",
 "Parsing the text printed for a value with the same type and character type yields the same bits (any NaN for NaN, 0 for -0), status success, and consumes the whole text.",
 ["inputs"], "every float including specials; bounded structured space of doubles; char and wchar_t",
 "The round trip tests sample random values; they can't reach each exponent, subnormals, the longest texts and near-ties of both directions.",
 [H + "ftoa.h", H + "atof.h", H + "krosh.h", H + "grisu.h"], [("detection of uncertain rounding and fallback", H + "krosh.h: krosh(), " + H + "diy_fp.h: downsample()"), ("printing", H + "grisu.h")],
 "All floats exhaustively, bounded structured doubles.", ENUM)

prop("C03", "Printed text has the documented format and notation",
 "The text of a finite value is an optional minus sign, one or more digits with at most one decimal point, and, only in exponent notation, 'e' with an optional minus sign and two or three digits; the number in front of 'e' has no leading or trailing zeros that could be dropped, there is no plus sign and no 'E'. Decimal notation is used exactly when the number needs at most 16 places left or right of the point, exponent notation with one leading digit otherwise; not-a-number and infinities print as nan, inf and -inf.",
 ["inputs"], "every float; every (number of digits, decimal power) pair of double, all binary exponents x structured mantissas; four character types",
 "The notation is chosen from the pair (digits, power); the tests cover a handful of such pairs and no length/threshold combination systematically.",
 [H + "prettify.h", H + "ftoa.h", H + "print.h"], [("choice of notation and placing of the point", H + "prettify.h: prettify(), print_exponent()")],
 "The layout model renders the digits and power read back from the text itself, so any digits the algorithm picks are accepted.", ENUM)

prop("C04", "Printing stays within the documented buffer and reports the exact length",
 "Printing never stores outside of the first max_buffer_size characters of the given buffer, terminates the text with a null character, and returns exactly the number of characters before it, for every value, character type and previous contents of the buffer.",
 ["inputs"], "bounded structured space of float and double values x 4 character types x 2 placements of guard pages x dirty buffer contents",
 "Tests print to generous 128 character buffers, so an overrun of one character or a missing terminator goes unnoticed.",
 [H + "ftoa.h", H + "prettify.h", H + "grisu.h", H + "memwrap.h"], [("maximum size computation", H + "ftoa.h: max_buffer_size()"), ("moves and fills inside of the buffer", H + "prettify.h")],
 "Stores are caught by inaccessible pages on both sides and a canary pattern.", "explicit enumeration of inputs under a memory monitor (guard pages, canaries)")

prop("C05", "Printed text is compact: never above the digit limit, 99% shortest",
 "No printed value has more than 9 significant digits for float or 17 for double, and at least 99% of the values are printed with the least number of digits which still reads back exactly.",
 ["inputs"], "all positive floats (the share is exact); for double the digit bound on a structured space and the share on a lattice of every binary exponent",
 "A share over the whole type is a statement on all values; tests don't measure it at all.",
 [H + "grisu.h", H + "powers_ten_single.h", H + "powers_ten_double.h"], [("digit generation stops as soon as the interval allows", H + "grisu.h: digit_gen()")],
 "Share for float is computed over all 2139095039 positive finite values; for double over a lattice.", ENUM)

prop("C06", "Parsing to double is correctly rounded",
 "For every decimal number text, parsing to double yields the representable value nearest to the number, ties to even, including subnormal results and values rounding to infinity or to zero.",
 ["inputs"], "decimal texts: all short digit strings x all powers, structured long ones, decimal neighbourhoods of the midpoints of all binary exponents",
 "Wrong rounding shows only for numbers near a midpoint of adjacent doubles or for particular powers; the tests sample random values.",
 [H + "krosh.h", H + "diy_fp.h", H + "bit_ops.h", H + "fraction.h", H + "static_pow.h", H + "powers_ten_double.h", H + "default_fallback.h"], [("accuracy tracking and fallback", H + "krosh.h: krosh(), " + H + "diy_fp.h: downsample()"), ("collection of digits", H + "krosh.h: parse_digits(), parse_mantissa()")],
 "Bounded input space; oracle is from_chars cross-validated by and, on disagreement, replaced with big integer arithmetic.", ENUM)

prop("C07", "Parsing to float is correctly rounded",
 "For every decimal number text, parsing to float yields the float nearest to the number itself (ties to even, no double rounding through another type), including subnormal results and values rounding to infinity or to zero.",
 ["inputs"], "decimal texts: all short digit strings x all powers of float's range, neighbourhoods of the midpoints between floats (exact, truncated, with sticky digits)",
 "As for double; additionally double rounding through double is invisible except next to float midpoints.",
 [H + "krosh.h", H + "diy_fp.h", H + "bit_ops.h", H + "fraction.h", H + "powers_ten_single.h", H + "default_fallback.h"], [("accuracy tracking and fallback", H + "krosh.h: krosh(), " + H + "diy_fp.h: downsample()"), ("fallback of the same type", H + "default_fallback.h")],
 "Bounded input space, as for C06.", ENUM)

prop("C08", "Long digit strings count to the last digit",
 "For numbers written with up to 2048 characters the result is correctly rounded taking every digit into account, wherever the decimal point stands and however many zeros precede, interrupt or follow the significant digits.",
 ["inputs"], "texts of 17 to 2048 characters: exact midpoints with sticky digits at every depth, zero runs, tails, leading zeros",
 "The part of the digits which doesn't fit the accumulator is handled by separate code; the tests have two or three such texts.",
 [H + "krosh.h", H + "fraction.h", H + "diy_fp.h"], [("truncation of digits and fractional tail", H + "krosh.h: parse_digits(), extract_fraction_digits()"), ("error bound of truncated digits", H + "krosh.h: parse_mantissa()")],
 "Bounded families of long texts; big integer oracle.", ENUM)

prop("C09", "All spellings of the same number parse to the same result",
 "Moving the decimal point with a compensating exponent, adding leading or trailing zeros, a plus sign, changing the case of the exponent character or padding the exponent with zeros changes neither the value nor the status.",
 ["inputs"], "digit strings x powers x all point positions x zero padding x exponent spellings",
 "It relates many spellings of one number; tests use the canonical one.",
 [H + "krosh.h", H + "atof.h"], [("position of the point and zeros turned to a decimal power", H + "krosh.h: parse_digits()"), ("exponent part", H + "krosh.h: parse_exponent()")],
 "Bounded; compared with the canonical spelling and the reference value.", ENUM)

prop("C10", "Exactly the documented number syntax is consumed",
 "The end pointer is set just behind the longest prefix which is a number of the documented format (sign, digits with optional point, optional exponent with digits, or a special word); without such a prefix it's set to the beginning and the value is zero with status success. No preceding space is skipped.",
 ["inputs"], "all strings up to length 4-5 over 23 characters, up to 9-12 over number characters, every foreign code unit at each position",
 "Malformed and partial texts are many; tests contain very few.",
 [H + "krosh.h", H + "atof.h"], [("state machine over characters", H + "krosh.h: parse_digits(), parse_exponent(), eat_nan(), eat_inf()"), ("end pointer", H + "atof.h: atof()")],
 "All strings up to the bound; the reference is an independent scanner of the grammar.", "exhaustive enumeration of all strings up to a length bound against a reference recognizer")

prop("C11", "Special values are recognized and printed exactly",
 "inf, infinity, nan and nan(characters) in any letter case with optional sign parse to the infinity of that sign or a quiet NaN with status success, consuming exactly the word; incomplete or mutated words aren't taken for them. Infinities and NaNs of any payload print as inf, -inf and nan.",
 ["inputs"], "all case variants, signs and suffixes; all nan(...) sequences up to a bound; all one-character mutations; NaN payload alphabet",
 "Tests parse the plain words only.",
 [H + "krosh.h", H + "ftoa.h"], [("eat_nan(), eat_inf()", H + "krosh.h"), ("special value branches", H + "ftoa.h: ftoa()")],
 "Bounded word space, exhaustive in case and one-character mutations.", "exhaustive enumeration of words and mutations against a reference recognizer")

prop("C12", "Out of range numbers are reported with the right value and status",
 "A number rounding beyond the largest finite value gives infinity of its sign with status overflow, a nonzero number rounding to zero gives zero of its sign with status underflow, and anything else, including every representable subnormal, has status success. Nothing left in errno by earlier code changes that.",
 ["inputs", "histories"], "decimal neighbourhoods of all four thresholds, digit strings x powers in [-420,420], exponents of up to 40 digits, initial errno values",
 "The thresholds are single points of the number line and the exponent is unbounded; tests try a few far values.",
 [H + "krosh.h", H + "diy_fp.h", H + "default_fallback.h", H + "atof.h", H + "huge_val.h"], [("range check of the power and of the result", H + "krosh.h: krosh(), " + H + "diy_fp.h: downsample()"), ("errno to status", H + "default_fallback.h: check_errno(), " + H + "atof.h")],
 "Bounded; big integer oracle at the thresholds.", ENUM)

prop("C13", "Negating a number only toggles the sign",
 "Printing -v gives the text of v with a minus sign in front (except for zero and NaN), and parsing a number with '-' gives the negated value, the same status and one more consumed character, with '+' the same value.",
 ["inputs"], "structured doubles, floats, all short strings and digit strings x powers",
 "Symmetry is a relation over all values; the sign is handled in several separate branches (special, out of range, fallback, zero).",
 [H + "krosh.h", H + "ftoa.h", H + "diy_fp.h"], [("sign of the parsed value", H + "krosh.h: krosh()"), ("sign of the printed value", H + "ftoa.h: ftoa()")],
 "Bounded; metamorphic comparison on the real code plus reference.", "explicit enumeration of input pairs (metamorphic relation) on the real code")

prop("C14", "The character type doesn't change the result",
 "Printing to char, wchar_t, char16_t and char32_t buffers produces the same characters, and parsing the same text as any of these types gives the same value, status and number of consumed characters. Code units which aren't the ASCII characters of the format are never taken for them.",
 ["inputs", "configurations"], "structured values and all short strings x 4 character types; all foreign code units at each position of sample numbers",
 "Tests cover char and a few wchar_t cases, 16 and 32 bit types not at all.",
 [H + "krosh.h", H + "prettify.h", H + "memwrap.h", H + "default_fallback.h", H + "ftoa.h"], [("templates over the character type", H + "krosh.h, prettify.h"), ("memory helpers per character type", H + "memwrap.h"), ("fallback per character type", H + "default_fallback.h")],
 "Bounded; compared with the char instantiation. Parsing of char16_t/char32_t uses a supplied fallback.", ENUM)

prop("C15", "String wrappers agree with the buffer functions",
 "The wrappers returning string objects contain exactly the characters the buffer function writes (no terminator, no padding), and the wrapper parsing a string object gives the value and status of parsing its characters.",
 ["inputs"], "structured values, all short strings including embedded null characters, long texts",
 "Tests compare a couple of values.",
 [H + "ftoa.h", H + "atof.h"], [("to_basic_string()", H + "ftoa.h"), ("from_string()", H + "atof.h")],
 "Bounded.", "explicit enumeration of inputs, two implementations compared on each")

prop("C16", "Every text and value is processed safely and in bounded time",
 "For any null-terminated text of any length and any value, parsing and printing terminate, never read behind the terminating null character or before the beginning, never write to the input, and execute no undefined behaviour; assertions never fire, and the stack needed doesn't grow with the text.",
 ["inputs"], "all short strings, all code units, prefixes of long texts, texts up to 6000 characters, exponents of any length, values of all exponents; 4 character types",
 "Out of bounds reads of one character and signed overflows are silent in ordinary test runs.",
 [H + "krosh.h", H + "atof.h", H + "grisu.h", H + "prettify.h", H + "bit_ops.h", H + "static_pow.h"], [("one pass scanning stops at the first foreign character", H + "krosh.h: parse_digits(), eat_nan(), eat_inf(), parse_exponent()"), ("limit of the length", H + "krosh.h: maximum_offset")],
 "Address and UB sanitizers, guard pages on both sides, read-only input; texts beyond 2048 characters also on a stack of 512 KB in code compiled without optimization.", "exhaustive enumeration of bounded inputs under memory and UB monitors")

prop("C17", "Results don't depend on what was called before",
 "The result of every parsing or printing call is a function of its arguments only: any sequence of preceding calls, with any arguments, types and fallbacks, on the same or other buffers, leaves it unchanged, and so does whatever they or anything else left in free memory (stack, heap, output buffers).",
 ["histories"], "all sequences of 3 operations in fresh processes, of 4-5 in a long-lived one, all ordered pairs of a large colliding alphabet, long repetitions; remains in memory: the large alphabet, all texts of up to 5-6 symbols, all powers and binary exponents, over 8 patterns, at 3 optimization levels",
 "Hidden state (caches, static buffers, errno) shows only after a particular pair or sequence of calls.",
 [H + "atof.h", H + "krosh.h", H + "ftoa.h", H + "grisu.h", H + "cached_power.h", H + "default_fallback.h"], [("no mutable static state", "all headers"), ("errno saved and cleared around the fallback", H + "atof.h")],
 "All operation sequences up to the bound over the stated alphabets; expected results come from fresh processes.", "exhaustive exploration of operation sequences up to a depth, differential against fresh-process results", )

prop("C18", "Concurrent calls don't affect each other",
 "Calls made by several threads at the same time, on separate buffers, give exactly the results they give alone, for every interleaving, and never race on shared memory.",
 ["schedules"], "all interleavings with at most 2 preemptions of 2-3 threads running one or two operations each, at every access to shared memory",
 "A lazily filled table or a shared scratch buffer fails only under particular interleavings; the tests are single threaded.",
 [H + "krosh.h", H + "grisu.h", H + "cached_power.h", H + "atof.h", H + "static_pow.h"], [("constant tables and automatic variables only", "all headers")],
 "Scheduling points at instrumented accesses to memory shared between the threads; sequentially consistent; the C library's conversions are atomic.", "stateless exploration of all thread interleavings of the real code up to a preemption bound")

prop("C19", "The fallback conversion is used exactly as documented",
 "The fallback is called at most once, with the original text, and only for a text which starts with a number whose rounding isn't certain; its value, end position and errno answer become the result, its exceptions reach the caller, and a null end pointer is supported. By default it's the C library's conversion of the same type.",
 ["inputs", "fault_sequences"], "texts x fallback answers (9 values x 3 errno x 3 end positions, throwing, re-entrant) x callable kinds x types",
 "Tests call with one custom fallback once.",
 [H + "atof.h", H + "default_fallback.h"], [("call and status of the fallback", H + "atof.h: atof()"), ("default choice", H + "default_fallback.h")],
 "All combinations of the stated answers of the environment.", "exhaustive enumeration of environment answers (scripted fallback) x inputs on the real code")

prop("C20", "Results don't depend on the locale and other ambient settings",
 "Printing and parsing give the same results in every locale of the C and C++ libraries, with any errno value and any floating point exception flags set before, and printing also under any rounding direction.",
 ["configurations", "inputs"], "locales C, C.UTF-8, en_US, de_DE and fr_FR (decimal comma, grouping), tr_TR (dotless i), de_CH, ps_AF (other separators) set globally, per thread and for C++ x texts and values; errno values; exception flags; 4 rounding directions x values",
 "Tests run in the C locale with default settings.",
 [H + "default_fallback.h", H + "krosh.h", H + "ftoa.h", H + "atof.h"], [("own scanning and letter comparison", H + "krosh.h: to_lower()"), ("fallback to the C library, which obeys the locale", H + "default_fallback.h")],
 "Known finding: with another decimal separator the C library's conversion, used as the default fallback, stops at the point; identified by the call site (instantiation of default_fallback).", "exhaustive enumeration of configurations x inputs, differential against the C locale")

prop("C21", "Compilers, standards and optimization levels give identical results",
 "The same inputs give bit for bit identical values, statuses, lengths and texts with each supported compiler, language standard, optimization level, with assertions on or off and with signed or unsigned plain char.",
 ["configurations"], "gcc and clang x C++14/17/20 x O0/O1/O2/O3/Os x NDEBUG x signedness of char, one digest per chunk of inputs",
 "The tests are built in a single configuration.",
 [H + "bit_ops.h", H + "krosh.h", H + "diy_fp.h", H + "static_pow.h", H + "type_punning_cast.h"], [("absence of implementation dependent constructs", "all headers")],
 "All configurations of the grid, each executing the same bounded input space.", "exhaustive enumeration of build configurations x bounded inputs, differential")

prop("C22", "The library is usable from any set of translation units and headers",
 "Every public header compiles on its own and in any order with the others, may be included in any number of translation units linked together, and its functions can be used for every supported value and character type, in each supported standard, without warnings in the default set.",
 ["configurations", "programs"], "all headers alone, all ordered pairs, all pairs of translation units using different type combinations, standards 14/17/20, both compilers",
 "Every test is a single translation unit.",
 [H + "atof.h", H + "ftoa.h", H + "powers_ten_double.h", H + "powers_ten_single.h", H + "memwrap.h", H + "print.h"], [("include guards, inline functions and templates", "all headers")],
 "All combinations of the stated grid are compiled, linked and run.", "exhaustive enumeration of bounded program configurations (compile, link, run)")

prop("C23", "Numbers can be read one after another from running text",
 "What follows the number (any character which can't continue it, and anything behind) doesn't affect the value, status or consumed length, so values printed to one buffer with any separators are recovered in sequence.",
 ["inputs", "histories"], "numbers x all following characters x continuations; all sequences of up to 4-5 printed values x separators",
 "Tests parse isolated null-terminated numbers.",
 [H + "krosh.h", H + "atof.h"], [("end position of the scanning and of the fallback", H + "krosh.h, atof.h")],
 "Bounded.", "exhaustive enumeration of sequences and continuations against the isolated result")

prop("C24", "The extended precision number keeps its arithmetic guarantees",
 "Splitting a finite value into mantissa and exponent and joining it back is exact; narrowing an extended number gives the nearest representable value whenever it's reported accurate, with the right overflow and underflow status; increment and decrement change the mantissa by one unit keeping the represented magnitude consistent; a product is within one unit of the exact one; normalizing doesn't change the value, a difference is exact, equality compares both parts; the boundaries of a positive value are the exact middles between it and its neighbours (the lower one of a power of two may be taken as the middle of the finer spacing), with a common exponent; narrowing a number known up to a small error, when reported accurate, gives what every number within the error gives.",
 ["inputs"], "all floats, structured doubles, structured 64-bit and 32-bit mantissas x all exponents, ties at every position",
 "Tests check a few dozen values.",
 [H + "diy_fp.h", H + "bit_ops.h"], [("construction, normalize(), downsample(), operators", H + "diy_fp.h"), ("rounding", H + "bit_ops.h: round_up()")],
 "Bounded; 128-bit integers are the oracle. The names used are those the repository's own tests use.", ENUM)

prop("C25", "Binary dumps show the exact bits",
 "The binary dump of a value consists of exactly its bits in order from the most significant one (for double values divided into sign, exponent and mantissa); this holds for signed and unsigned integers of every width, for values presented as if they were double (the 64 bits of an integer of any type, divided into the leading bit, 52 bits, one and ten bits), and for the dump of an extended precision number, which shows all bits of the mantissa and then the exponent.",
 ["inputs"], "all 8 and 16 bit values, structured 32 and 64 bit values, all exponents x structured mantissas of double",
 "No test checks the output.",
 [H + "bit_ops.h", H + "print.h", H + "diy_fp.h"], [("print_binary()", H + "print.h")],
 "Bounded.", ENUM)

prop("C26", "Allocation failures are reported, not fatal",
 "When memory allocation fails at any point of a parsing or printing call, the call either completes with the usual result or throws the allocation exception: it never terminates the program, leaks memory, or affects later calls.",
 ["fault_sequences"], "every operation of the alphabet x failure of every allocation it makes (and of every pair)",
 "Tests never make an allocation fail.",
 [H + "krosh.h", H + "ftoa.h", H + "atof.h"], [("exception propagation", H + "krosh.h: parse_digits()"), ("automatic storage of digits", H + "krosh.h")],
 "All single and double failure points of every operation of the alphabet.", "exhaustive fault enumeration (every allocation failure point)", level="fault_enumeration")

prop("C27", "Calls leave their surroundings as they were",
 "Printing, parsing and dumping calls leave the surroundings of the caller alone, whether they return or let an exception of the fallback out: errno keeps its value (it's changed only when the fallback conversion itself sets one), and the locales of the process, the thread and C++, rounding direction, raised exception flags and traps, settings of the stream written to, signal handling, environment and standard streams stay as they were, with any of them set to anything before; no memory stays allocated after every call.",
 ["inputs", "configurations"], "calls x environments (locales, errno values, rounding directions, exception flags, fallbacks which are quiet, set errno or throw)",
 "Tests look at results only, in one environment.",
 [H + "atof.h", H + "default_fallback.h", H + "ftoa.h", H + "print.h"], [("errno kept around the fallback", H + "atof.h: atof()"), ("default conversion", H + "default_fallback.h"), ("storage of digits", H + "krosh.h: parse_digits()")],
 "Every text and value of the domains in every environment, by comparing the state before and after the call; memory in use is compared between repetitions.", "exhaustive bounded enumeration of environments and calls, state compared before and after each")

prop("C28", "Tables and scaling factors are right for every entry",
 "Every cached power of ten is normalized and within a half of a unit of the exact power; for every binary exponent of a value of the type the chosen power is in the table and brings the product into the range of exponents the digit generation is made for; the compile time powers are exact, a decimal fraction is converted to a binary one within one unit, and bits are taken, masked and rounded (to nearest, ties to even, ties reported as uncertain) correctly at every position.",
 ["inputs"], "all table entries, all exponents, all bit positions",
 "Tests touch a few entries, and most single entries affect only very few inputs.",
 [H + "powers_ten_double.h", H + "powers_ten_single.h", H + "cached_power.h", H + "k_comp.h", H + "static_pow.h", H + "fraction.h", H + "bit_ops.h"], [("tables", H + "powers_ten_double.h, powers_ten_single.h"), ("choice of the power", H + "k_comp.h: k_comp_exp()"), ("rounding decision", H + "bit_ops.h: round_up()")],
 "Exhaustive over both tables, all exponents, all decimal numerators and all 8 and 16 bit patterns; alphabets of 32 and 64 bit patterns. A building block which a tree doesn't provide under the known name is left to the checks of the results.", "exhaustive enumeration of table entries and of the whole input spaces, compared with big-integer arithmetic")

prop("C29", "Scanning divides a number into exact parts",
 "Scanning a text finds the sign, the end and the special word per the documented format, and the significant digits and power of ten denote the number itself when it has at most 19 (float: 9) significant digits, or else that number cut after at least as many digits (for the extended precision mantissa: within the error reported or at most 4 units); zeros in front, inside, behind and around the point count properly in any number, and the exponent part is read exactly up to 4 digits and limited beyond, never overflowing.",
 ["inputs"], "texts over the grammar's alphabet up to a depth, digit strings with zeros and point at every place",
 "Tests scan seven texts.",
 [H + "krosh.h", H + "fraction.h"], [("digits", H + "krosh.h: parse_digits()"), ("mantissa", H + "krosh.h: parse_mantissa()"), ("exponent", H + "krosh.h: parse_exponent()")],
 "All texts up to 7 characters over a 9 character alphabet, structured digit strings up to 24 digits, zero blocks up to 2000. A part of the scanner which a tree doesn't provide under the known name is left to the checks of the results.", "exhaustive bounded enumeration of texts against a reference scanner with exact arithmetic")

prop("C30", "A call interrupted by another call on the same thread isn't disturbed",
 "When a printing or parsing call is interrupted within the library's own code by another complete printing or parsing call on the same thread with its own buffers (by a signal handler, an allocator or a conversion function which uses the library), both return exactly what they return alone, the first calls of a process included; printing into a caller's buffer takes neither memory from the heap nor locks, so that it may be done in a signal handler.",
 ["schedules", "histories"], "pairs and triples of calls, points of the code where the interruption takes place",
 "Tests never interrupt a call.",
 [H + "ftoa.h", H + "grisu.h", H + "prettify.h", H + "krosh.h", H + "atof.h"], [("buffers and tables", H + "grisu.h: digit_gen_select::gen(); " + H + "prettify.h: print_scientific(); " + H + "cached_power.h: cached_power()"), ("digits", H + "krosh.h: parse_digits()")],
 "67 operations; every point (access to memory, call) of every operation interrupted by every operation; nested interruptions at every 11th point. Initialization of static variables on the first use, the memory allocator and the C library aren't interrupted.", "exhaustive exploration of interruption points of the real code, compiled with instrumentation of memory accesses")

prop("C31", "Work of a conversion is bounded by the number's own text",
 "Printing any value takes a bounded number of steps. Parsing takes a number of steps, and an amount of memory, at most proportional to the length of the number's own text (special words, sequences of nan() and exponents included): neither quadratic in the length of any of its parts, nor dependent on the value of the exponent, nor on how much text follows the number in the buffer, so that parsing a long text number by number takes linear time.",
 ["inputs"], "all values and texts, all lengths of their parts and of what follows",
 "Tests measure no work and have short texts only.",
 [H + "krosh.h", H + "atof.h", H + "grisu.h", H + "prettify.h"], [("scanner", H + "krosh.h: parse_digits(), parse_exponent(), eat_nan(), eat_inf()"), ("fallback", H + "atof.h: atof()"), ("digit generation", H + "grisu.h: digit_gen_select::gen()")],
 "26 forms of texts with parts of every length up to 300, many up to 2100, and up to 2^17; 20 numbers within texts of up to 2^19 characters. Steps are basic blocks and memory accesses of the library's code (clang -O0); limits are an order of magnitude above what is needed. The C library's conversions aren't counted.", "exhaustive bounded enumeration of texts and values on instrumented real code, counting steps of every execution")

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            q = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["public functions of include/floaxie/ftoa.h and include/floaxie/atof.h"], "hook_needed": None}}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(V + "/src/%s.cpp" % p["id"]) or os.path.exists(V + "/checks/%s.py" % p["id"]):
            checks.append({"property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "mkdir -p build evidence && g++ --version >/dev/null && clang++ --version >/dev/null", "checks": checks, "not_applicable": na,
               "notes": "No hooks are needed in /repo. bin/gen_meta.py writes this file and properties.jsonl. Genuine defects: known_findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
main()
