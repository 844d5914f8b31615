"""writes properties.jsonl and MANIFEST.json (run by hand after editing)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, text, why, files, mech, technique=None, note=None, over=("inputs",), level="proof", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe))


AI = "abstract interpretation of the MIR (linear inequalities, joins at loop heads)"
ALL = ["src/lib.rs", "src/digital.rs", "src/additive.rs", "src/chinese.rs", "src/hebrew.rs", "src/ethiopic.rs", "src/enumerated.rs", "src/nominalstring.rs"]
NOTE = "Sound over all inputs for the interpreted MIR within the stated assumptions; trusts the interpreter, its numeric domain and its models of core/alloc; a construct it cannot interpret is reported as UNDECIDED, not as a violation."
FEW = "The tests format a few dozen chosen numbers, nearly all as u32 and with alloc; "

p("C01", "Formatting never panics",
  "Formatting any number of any supported unsigned integer type, with any built-in system, option or combinator, or with any consistent user-written digit collection, additive set or enumerated set, never panics (no overflow, no index out of range, no failed unwrap), with and without the alloc feature. The same holds for the questions a digit collection answers, for valid digit positions.",
  "all numbers of u8..u128 and usize, all systems and options, all collections (length, digits and flags unknown), both feature settings, every push failing or not without alloc",
  FEW + "arithmetic at the ends of the six integer types, collections of unusual length and failing pushes are never reached.",
  ALL, [("checked conversions before arithmetic", "src/digital.rs NominalSystem for DigitCollection"), ("T::try_from(value) skips symbols that do not fit", "src/additive.rs"), ("scale and rank tables", "src/chinese.rs")],
  AI, NOTE + " u128 Chinese is left to the thorough tier, and of u64 Chinese the quick tier takes two of 32 option combinations with alloc.", over=("inputs", "configurations"))
p("C02", "Formatting always terminates",
  "Formatting any number with any built-in system, option or combinator, or with any consistent user-written collection or set, finishes: no loop runs forever and no fallback recurses without end.",
  "all numbers, systems, options and collections as for panics, both feature settings",
  FEW + "a loop that stops making progress for one length, flag combination or number is not sampled.",
  ALL, [("remaining shrinks by division or subtraction", "src/digital.rs, src/additive.rs, src/hebrew.rs, src/ethiopic.rs"), ("digit queue is consumed", "src/chinese.rs")],
  "termination argument on the abstract state graph: a decreasing, bounded linear measure for each cycle of loop heads", NOTE, over=("inputs", "configurations"))
p("C03", "Errors are returned exactly when there is no numeral, and tell the truth",
  "The fallible operation fails exactly when the system has no numeral for the number: a no-zero-symbol error only when a zero is asked of something that has no zero, an out-of-bounds error only for a number that the system cannot represent, and never an out-of-memory error with the alloc feature. The last two errors carry the number that was asked for.",
  "all numbers and types, all systems, options and collections, both feature settings",
  FEW + "error results are compared in two places.",
  ALL, [("Error::NoZeroSymbol / OutOfBounds / OutOfMemory construction", "src/digital.rs, src/additive.rs, src/hebrew.rs, src/ethiopic.rs, src/chinese.rs, src/enumerated.rs"), ("with_nominal", "src/lib.rs")],
  AI + " against the domain of each numeral system", NOTE, over=("inputs", "configurations"))
p("C04", "Infallible rendering: the system's text, or the number in decimal",
  "Infallible formatting, through the number or through the system, gives the text of fallible formatting when that succeeds, and otherwise the ordinary decimal digits of the number (a single 0 for the no-zero-symbol error). Converting an error, or a result, to a decimal string does the same.",
  "every built-in system and combinator, every integer type, every number, each possible result of fallible formatting",
  FEW + "the decimal fallback is seen for a handful of numbers.",
  ["src/lib.rs", "src/digital.rs"], [("NominalSystem::format_nominal, Nominal::to_nominal", "src/lib.rs"), ("Error::into_decimal, UnwrapOrDecimal", "src/lib.rs")],
  AI + ", with the fallible operation replaced by its contract", NOTE)
p("C05", "Without alloc: the same text, or an out-of-memory error with the number",
  "Without the alloc feature every formatting operation gives what it gives with the feature, except that it returns the out-of-memory error, with the number, when the text does not fit into the inline string. It never returns a truncated text and never panics for lack of memory.",
  "all numbers and systems, every push that can fail failing or not",
  "The test suite is run with default features only; the build without alloc is never executed.",
  ALL, [("with_nominal on every push", "src/digital.rs, src/additive.rs, src/hebrew.rs, src/enumerated.rs"), ("ChineseFormatError conversion", "src/chinese.rs"), ("map_err", "src/ethiopic.rs")],
  AI + " in which every push may fail, compared with the variant with alloc", NOTE + " A unit that is wrong in the same way with alloc is left to the property it breaks there.", over=("inputs", "configurations", "fault_sequences"))
p("C06", "Positional and alphabetic digit systems write the right expansion",
  "A digit system with a zero digit writes the positional expansion of the number in base of its digit count, without leading zeros; one without a zero digit writes the bijective expansion (a … z, aa, ab, …) of the number plus one when it counts from zero, and of the number itself when it counts from one. A collection with more digits than the integer type has values writes exactly one digit.",
  "all numbers of all six types; the built-in positional and alphabetic systems, and any user-written collection that is not of fixed length (unknown digit count, digits and flags)",
  FEW + "multi-digit carries, 20-digit numbers, unusual bases and collections larger than the integer type are not.",
  ["src/digital.rs"], [("try_format_nominal for DigitCollection", "src/digital.rs:565"), ("accessors of DigitCollection", "src/digital.rs")],
  AI + " with a ghost expansion", NOTE)
p("C07", "Fixed-length digit collections: one symbol in range, the fallback beyond",
  "A digit collection of fixed length writes a single digit for each number in its range, and for a number beyond it exactly what its fallback collection writes, or an out-of-bounds error if the fallback has no digits. The Chinese stems and branches count from one and fall back to Chinese decimal digits.",
  "all numbers of all six types; the built-in stems and branches, and any user-written fixed collection with any user-written fallback",
  FEW + "only a few numbers around ten and twelve are formatted, and no user-written fallback.",
  ["src/digital.rs"], [("fixed(), Fallback", "src/digital.rs"), ("CjkHeavenlyStem, CjkEarthlyBranch", "src/digital.rs")],
  AI + " with a ghost expansion", NOTE)
p("C08", "Built-in additive systems write the greedy numeral",
  "Roman (both cases, with overlined symbols from 4,000 up), Armenian (both cases), Georgian, and the Japanese, Hangeul and Hanja systems write, for every number they can represent, the sequence of their symbols from the largest value down, each used as often as it still fits, so that the values add up to the number. Zero gives the system's zero symbol, or the no-zero-symbol error if it has none.",
  "every number of all six types, ten systems",
  "One test walks the first few thousand numbers of Roman; the other systems and the larger symbols are sampled at single numbers.",
  ["src/additive.rs"], [("AdditiveSet::try_format_nominal", "src/additive.rs:38"), ("symbol tables", "src/additive.rs")],
  AI + " with a ghost remainder, against the published symbol values", NOTE)
p("C09", "Hebrew numerals",
  "A Hebrew numeral is the greedy sequence of letters for the number's hundreds (400 repeated as needed), tens and units, with fifteen and sixteen at the end written as nine-six and nine-seven with gershayim, and a numeral of a single letter enclosed in geresh and gershayim. Zero gives the no-zero-symbol error.",
  "every number of all six types", "Five numbers are tested.", ["src/hebrew.rs"], [("symbol loop", "src/hebrew.rs:11")], AI + " with a ghost remainder", NOTE)
p("C10", "Ethiopic numerals",
  "An Ethiopic numeral writes each pair of decimal digits as a ten and a unit, separated by the hundred sign and the ten-thousand sign in alternation, where a one in front of a separator and empty pairs (with their hundred sign) are left out. Zero gives the no-zero-symbol error.",
  "every number of all six types", "Five numbers are tested.", ["src/ethiopic.rs"], [("format_ethiopic", "src/ethiopic.rs:17")], AI + " with a ghost queue of digit pairs", NOTE)
p("C11", "Chinese numerals",
  "Each of the four Chinese systems, in ordinary and financial usage and in the short, mid, long and myriad scales, writes every number as groups of digits with their tens, hundreds and thousands and with the scale's group words, a single zero for each gap between non-zero digits, the one in front of a leading ten left out in the informal systems, and the script's and usage's characters. A number beyond the scale's largest word gives the out-of-bounds error.",
  "every number, given by its decimal digits, of u8..u64 and usize (u128 in the thorough tier), 32 option combinations",
  "About a hundred numbers are compared with another crate, mostly simplified and myriad.",
  ["src/chinese.rs"], [("format_chinese and its digit queue", "src/chinese.rs"), ("word tables by script, usage and scale", "src/chinese.rs")],
  AI + " over symbolic decimal digits, with a ghost queue of words", NOTE + " The quick tier takes u8, u16 and u32 in all 32 combinations, u64 in ordinary usage and two u128 combinations; the thorough tier takes all.")
p("C12", "User-supplied digit and additive sets",
  "A digit set made from any characters, and an additive set made from any symbols with strictly descending values, write exactly the symbols they were given: the expansion in the digits, or the greedy sum of the symbols, with zero written as the symbol of value zero. An additive set whose values cannot add up to the number gives the out-of-bounds error, and a set that is not strictly descending is refused when it is made.",
  "any characters, any symbols, any 128-bit values (sets of 0 to 4 symbols, digit sets of 0, 1, 3 and 300), every number of all six types",
  "No test builds a set of its own.",
  ["src/digital.rs", "src/additive.rs"], [("DigitSet::new, zeroless", "src/digital.rs"), ("AdditiveSet::new", "src/additive.rs:19")], AI, NOTE + " Sets are taken at fixed small sizes; the loops are the same for every size.")
p("C13", "Chinese options: sticky usage, last scale wins",
  "Whatever the order and number of option calls on a Chinese system, the result is financial exactly if financial was ever asked for, and uses the scale that was asked for last (myriad if none was). No call has another effect.",
  "every finite sequence of option calls on each of the four systems", "A few single calls are tested.", ["src/chinese.rs"], [("financial(), short_scale(), mid_scale(), long_scale()", "src/chinese.rs"), ("ChineseOptions", "src/chinese.rs")],
  "finite automaton of the option values, as a fixpoint of abstract interpretation, against the documented automaton", NOTE, over=("histories",))
p("C14", "Enumerated systems",
  "An enumerated system writes for each number in its range exactly the symbol at that place, counting from zero or from one as the set says; zero gives the no-zero-symbol error if the set has no zero, and every larger number the out-of-bounds error. The circled numbers reach from 0 to 50 and the double circled ones from 1 to 10.",
  "every number of all six types, the built-in sets and any user-supplied symbols", "The tests format the listed symbols as u32.", ["src/enumerated.rs"], [("EnumeratedSet::try_format_nominal", "src/enumerated.rs:30"), ("CircledNumber, DoubleCircledNumber", "src/enumerated.rs")], AI, NOTE)
p("C15", "Combinators: one-based, restricted and chained collections",
  "A one-based collection has the digits, the zero digit and the fixed length of the collection it wraps and counts from one; a restricted one has the first digits of it, never more than there are; a chained one has the digits of the first and then those of the second, counts like the first, and falls back to the chain of their fallbacks. Numbers are written accordingly.",
  "any wrapped collections, any limit, any digit position, every number of all six types", "One-based letters are tested at four numbers; the other combinators in no test.", ["src/digital.rs"], [("OneBased, Restrict, Chain", "src/digital.rs")], AI, NOTE + " Chained lengths are assumed not to overflow usize.")
p("C16", "Digit tables",
  "Every built-in digit collection reports its number of digits, its digit at every position, whether it has a zero digit, where it starts to count, whether it is of fixed length, and its fallback, as its script defines them.",
  "31 collections, every digit position", "Each collection is tested, if at all, through the first few numerals.", ["src/digital.rs"], [("impl_digit_set! tables", "src/digital.rs:100")], AI + " against the Unicode blocks and alphabets", NOTE)
p("C17", "The string holds exactly what was pushed",
  "After any sequence of constructions and of characters and strings pushed at either end, the string reads as exactly the pushed characters in the order that results, however it was created, and it can be read and changed in place. It stays inline up to 62 bytes and moves to the heap beyond, where without alloc the push fails and leaves the content as it was.",
  "every sequence of operations, every character, strings of every length", "Eleven short sequences are tested.", ["src/nominalstring.rs"], [("InlineString push, push_str, push_front", "src/nominalstring.rs"), ("MaybeInline transitions", "src/nominalstring.rs")],
  "fixpoint over the string's layouts by abstract interpretation at byte level", "Every layout reachable by any operation sequence is found and every operation interpreted from each, with unknown bytes; std's String is modelled as a sequence of characters. " + NOTE, over=("histories", "inputs"))
p("C18", "Memory safety of the inline string",
  "No operation of the library reads or exposes memory that was not written, or accesses memory outside of the inline buffer, whatever sequence of operations came before. The text that is handed out consists of whole pushed characters.",
  "every layout of the string that any operation sequence can reach, every unsafe operation of the crate", "The tests do not run under a memory checker and reach a few layouts.", ["src/nominalstring.rs"], [("unsafe blocks", "src/nominalstring.rs:296-390")],
  "fixpoint over the string's layouts by abstract interpretation with initialisation tracking; census of unsafe operations in the MIR", NOTE, over=("histories", "inputs"))
p("C19", "Strings compare and display as their text",
  "Equality, ordering and display of a formatted string are those of its text, against another formatted string, a string slice or (with alloc) an owned string, and do not depend on how it is stored. Display honours the formatter's options.",
  "any two strings, all comparison operators", "Only equality with short literals is tested.", ["src/nominalstring.rs"], [("PartialEq, PartialOrd, Ord, Display", "src/nominalstring.rs")], "dataflow of the comparison operands and results over the MIR", NOTE)
p("C20", "Clones and conversions keep the text",
  "A clone has the text of the original and leaves it unchanged; conversion from and to owned strings keeps the text, and the conversion that only succeeds for heap strings gives back the unchanged string otherwise.",
  "every layout of the string that any operation sequence can reach, owned strings of every length", "No test clones or converts.", ["src/nominalstring.rs"], [("Clone, From<String>, From<&String>, try_into_string, String::from", "src/nominalstring.rs")], "fixpoint over the string's layouts by abstract interpretation at byte level", NOTE, over=("histories", "inputs"))
p("C21", "Boxed and shared systems behave like the system inside",
  "Formatting through a boxed, reference-counted or atomically reference-counted system, fallibly or infallibly, makes the same call on the system inside with the same number and returns its answer; so do the methods on the number.",
  "every system, including user-written ones that override infallible formatting; every number and type", "One number is formatted through each pointer.", ["src/lib.rs"], [("NominalSystem for Box, Rc, Arc", "src/lib.rs:58"), ("Nominal::to_nominal, try_to_nominal", "src/lib.rs:110")], "call-forwarding analysis over the MIR (receiver, argument and result)", NOTE)
p("C22", "Formatting is pure and its types can be shared between threads",
  "Formatting depends on nothing but the system and the number: the library keeps no state between calls and has no effects outside of the string it returns. All of its public types can be sent to and shared between threads.",
  "every call of every function, every schedule", "Tests cannot show the absence of state or of races.", ALL, [("no statics but digit tables, no cells, no foreign calls", "src/")], "effect analysis: statics, interior mutability, foreign calls, callees and auto traits of the type-checked crate", "Exact for the crate's own code as compiled; user-written collections and systems are outside.", over=("schedules", "histories"), level="other")
p("C23", "no_std, and no hidden allocation",
  "The library never links std, and without the alloc feature it links nothing but core. With it, formatting allocates only through the string, that is, only for text that does not fit inline.",
  "every function of the crate in both feature settings, every call path from a formatting entry point", "The tests always have std, and do not count allocations.", ["src/lib.rs", "src/nominalstring.rs"], [("#![no_std], cfg(feature = \"alloc\")", "src/lib.rs")], "linked-crate query and call-graph reachability on the MIR", "Decides who may call an allocating function of alloc; that the string itself only allocates beyond 62 bytes is decided with its contents.", over=("programs", "configurations"), level="other")
p("C24", "The integer type does not matter",
  "The same number gives the same text, or the same kind of error, whichever of the six unsigned integer types it is passed as.",
  "every number, every pair of integer types that can hold it, every system and collection", "Nearly all tests use u32.", ALL, [("generic formatting over Nominal", "src/lib.rs")], AI + " for each integer type, compared on the numbers that two types share", NOTE + " Chinese is compared for u8, u16 and u32 (simplified) in the quick tier.")

p("C29", "Equality, clones and defaults are by value",
  "Two values of the same system, combinator, option set or error type are equal exactly when they agree in everything they were made from: the options of a Chinese system, the limit and the collection of a restricted one, both parts of a chain, the collection under a one-based one, the kind of an error and its number. Being unequal is the opposite of being equal, a clone equals its original, and default values equal the documented ones (a restriction to no digits, a chain of the defaults).",
  "every pair of options of each Chinese system, every limit, every pair of errors over every number of each integer type, every built-in unit type", "The tests compare two errors.", ["src/chinese.rs", "src/digital.rs", "src/lib.rs", "src/enumerated.rs"], [("derived PartialEq, Clone, Default of ChineseOptions and of the systems", "src/chinese.rs:119"), ("Chain, Restrict, OneBased", "src/digital.rs"), ("Error", "src/lib.rs:194")], AI + " of the comparison, clone and default functions", NOTE)

p("C28", "The sample numerals in the documentation are what the code writes",
  "Every numeral that the documentation shows for a number, in the table of samples of each system, in the list of all systems and in the examples of the documentation, is the text that the code writes for that number, and the documentation of each system shows the samples of that system.",
  "every sample of every table, list and example of the documentation (about 3,200)", "The example program regenerates the samples; nothing compares them with the code.", ["src/previews", "src/.crate-docs.md", "README.md", "examples/previews.rs"], [("include_str! of previews", "src/digital.rs"), ("doc attributes", "src/additive.rs")], "constant propagation by abstract interpretation of the MIR: each sample is an obligation on the entry point of its system, with the number known", "The samples are read from the documentation's Markdown and from what rustdoc resolves for each type and for the crate; the numeral is what every path of the interpreted code ends with.", over=("inputs",), level="proof")

NA = [
 ("C25", "Texts are unambiguous",
  "Two different numbers never get the same text from one system.",
  "every pair of numbers of every system", "No test compares two texts.", ["src/digital.rs", "src/additive.rs", "src/chinese.rs"], [("distinct digits", "src/digital.rs")],
  "A relation between two runs over unbounded values: for the positional and enumerated systems it follows on paper from the expansion and the digit tables that are decided separately, but for the greedy and Chinese systems a sound static argument would need injectivity of the numeral grammar, which none of the analyses here can express."),
 ("C26", "Cost is proportional to the length of the text",
  "Formatting takes time and stack proportional to the number of symbols it writes.",
  "every number and system", "The tests do not measure.", ["src/nominalstring.rs", "src/additive.rs"], [("push_front on a reversed buffer", "src/nominalstring.rs")],
  "A quantitative bound: termination is decided, but the number of steps depends on the values (a large Hebrew or Ethiopic number repeats a symbol value/400 times), and cost counting over symbolic loop bounds is beyond the domain used here."),
 ("C27", "Numerals are the ones that readers of each script expect",
  "The numerals agree with the conventions of their languages as a competent reader would judge.",
  "every system", "A matter of linguistic judgement.", ["src/additive.rs", "src/chinese.rs", "src/hebrew.rs"], [("symbol tables", "src/")],
  "Not decidable from the source: the tables the checks use write down the documented conventions (previews, module documentation, Unicode names); whether these suit every reader is outside of the program."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "hook_needed": None}}, ensure_ascii=False) + "\n")
        for id, title, st, text, why, files, mech, reason in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": text}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": x[0], "reason": x[-1]} for x in NA],
         "notes": "No hooks: /repo is analysed as it is. Every check compiles /repo's working tree to MIR with a rustc driver, twice (with and without alloc), and decides the property on that; nothing of it is ever run."}
    for x in P:
        m["checks"].append({"property": x["id"], "quick_cmd": "./check.sh %s quick" % x["id"], "thorough_cmd": "./check.sh %s thorough" % x["id"], "evidence_file": "evidence/%s.json" % x["id"], "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
