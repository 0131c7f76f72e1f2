#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
L = "nanvm-lib/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": [L + f for f in files],
         "mechanism": [{"name": n, "where": L + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": L + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T = "tokenizer/mod.rs"
p("C01", "Tokenizer implements the JSON/DJS lexical grammar on every input",
  "For every input text the tokenizer yields exactly the token sequence of the JSON/DJS lexical grammar: operators, identifiers, strings with every escape decoded (surrogate pairs included), numbers, bigints, one new-line token per run of line ends that is followed by something, and nothing for blanks and comments. Every lexical error appears as an error token at its place, with the documented kind, and tokenization resumes right behind it, so that the tokens after an error are those of the remaining text. No input makes it crash, and two tokens compare equal exactly if they are of one kind with equal contents.",
  ["inputs", "histories"], "every character sequence, i.e. every path through the tokenizer automaton from every one of its states on every character",
  "Tests pin about 100 short inputs; the automaton has 20 states x the whole character set and every pair of states can be adjacent in some input.",
  [T, "range_map.rs"], [("transition tables", T + ":create_transition_maps"), ("state hand-over between tokens", T + ":transfer_state"), ("end of input", T + ":TokenizerState::end")],
  ["tokenize", "TokenizerStateIterator", "TokenizerState::push_mut"],
  state=[("TokenizerState", "current lexical state with its accumulated lexeme", T)])
p("C02", "Decimal literals become the nearest double, ties to even",
  "Every number literal of the grammar, whatever its length, position of the point or exponent, denotes the IEEE double nearest to its exact decimal value (ties to even), with gradual underflow, overflow to infinity and the sign of zero kept. The result depends on the exact value only, not on how the literal spells it.",
  ["inputs"], "every literal [-]digits[.digits][e[+-]digits]",
  "Tests compare a dozen literals, none subnormal, none a halfway case below one ulp, none with a negative exponent beyond a few digits.",
  [T, "big_numbers/big_float.rs", "js/js_bigint.rs"], [("digit accumulation", T + ":JsBigintMutRef::add_digit"), ("decimal to binary with sticky remainder", "big_numbers/big_float.rs:to_bin"), ("rounding to f64", "big_numbers/big_float.rs:to_f64")],
  ["tokenize", "bigfloat_to_f64"])
p("C03", "Bigint literals keep their exact value",
  "Every bigint literal [-]digits'n' of any length denotes exactly its integer value, in canonical form (no superfluous high limbs, a single zero), and writing that value back gives the same digits. Malformed bigints (fraction, exponent, letters after n) are errors.",
  ["inputs"], "every digit string", "Tests use four literals below 2^31.",
  [T, "js/js_bigint.rs", "serializer/to_json.rs"], [("digit accumulation", T + ":JsBigintMutRef::add_digit"), ("sign", T + ":into_bigint_state")],
  ["tokenize", "parse", "to_json"])
p("C04", "A value text is accepted iff it is in the grammar, with the right value",
  "For every token sequence the parser accepts exactly the value grammar of the format (scalars, nested arrays and objects, one optional trailing comma, string keys, in DJS also identifier keys and const references), and rejects everything else. An accepted sequence yields the value it denotes: array elements in order, each object key once with its last value, keys ordered, nesting preserved.",
  ["inputs", "programs"], "all token sequences", "Tests list about 30 sequences of at most 9 tokens; acceptance is a property of the pushdown language.",
  ["parser/any_state.rs", "parser/shared.rs", "parser/parser.rs"], [("push-down automaton over values", "parser/any_state.rs:AnyState::parse"), ("container completion", "parser/any_state.rs:end_array/end_object/push_value")],
  ["parse_with_tokens", "parse"], state=[("status,current,stack", "position in the value and its open containers", "parser/any_state.rs:AnyState")])
p("C05", "Module statements: const, import, export follow the DJS grammar",
  "A document is accepted iff it is a sequence of const and import statements, each closed by a line end or a semicolon, followed by one exported value (bare, ES-module export or CommonJS exports assignment), without mixing ES-module and CommonJS statements; the reported module kind is the one used. A const or imported name denotes its value in every later statement and nothing before its own statement is complete. Each violation is reported as the error kind of the statement it occurs in, and no token sequence crashes the parser.",
  ["programs", "inputs"], "all token sequences over the statement vocabulary",
  "Tests cover seven documents; the statement automaton has ten states, each with its own error edge and a module-kind flag carried across statements.",
  ["parser/root_state.rs", "parser/const_state.rs", "parser/json_state.rs", "parser/parser.rs"], [("statement automaton", "parser/root_state.rs:RootState::parse"), ("module kind", "parser/shared.rs:DataType"), ("scope", "parser/const_state.rs")],
  ["parse_with_tokens", "parse"], state=[("status,new_line,data_type,consts", "where in the statement sequence, and the scope", "parser/root_state.rs:RootState")])
p("C06", "Import graphs are resolved, shared, cycle-checked and fault-safe",
  "For every graph of modules and every way of spelling the relative paths between them, an import is resolved against the directory of the importing module, each distinct file is read and evaluated exactly once, and all importers share the one value it exports. A chain of imports that returns to a module still being loaded is reported as a circular dependency, and nothing else is. A file that cannot be read, or that does not parse, makes the whole parse fail with that error, at whatever depth it sits, and leaves nothing behind that changes a later parse.",
  ["programs", "configurations", "fault_sequences"], "all import graphs, path spellings and read faults",
  "Tests use graphs of at most three modules in a single directory; no diamond beyond one, no subdirectory, no read fault below the root.",
  ["parser/parser.rs", "parser/path.rs", "parser/shared.rs"], [("cache and in-progress set", "parser/shared.rs:ModuleCache"), ("import resolution", "parser/parser.rs:root_state_parse, any_state_parse_import_value"), ("path algebra", "parser/path.rs")],
  ["parse", "Io::read_to_string"], state=[("complete, progress", "modules evaluated / being evaluated", "parser/shared.rs:ModuleCache")])
p("C07", "JSON output is valid and denotes the serialized value",
  "For every value (any nesting and sharing, every string of UTF-16 units, every double, every bigint) JSON serialization succeeds and its text, read by an independent JSON reader, denotes that value: strings unit for unit, doubles bit for bit, elements and members in order. Infinities and bigints are written in the extended number forms the format documents, and the text is pure ASCII.",
  ["inputs"], "every value", "One test with one value; strings have 65536 code units with nine escape classes, doubles 2^64 values.",
  ["serializer/to_json.rs", "js/visitor.rs"], [("string escaping", "serializer/to_json.rs:write_js_string"), ("number writing", "serializer/to_json.rs:write_json")], ["to_json"])
p("C08", "DJS output defines each shared container once, before use",
  "For every value graph, the DJS text (in both module flavours) denotes the same value with the same sharing: every object or array referenced more than once is defined by exactly one const before its first use, nothing else is, and the exported expression rebuilds the graph. The text is a function of the graph alone: serializing the same graph twice gives the same text, and its length is linear in the graph.",
  ["inputs"], "every rooted DAG of arrays and objects", "One test with a two-const chain; definition order depends on hash order, so one run does not even settle one graph.",
  ["serializer/to_djs.rs"], [("sharing detection", "serializer/to_djs.rs:ConstTracker"), ("definition order", "serializer/to_djs.rs:write_consts")], ["to_djs"])
p("C09", "Reading what nanvm wrote gives back the same value",
  "For every value, the JSON and both DJS texts that nanvm writes are accepted by nanvm's own parser and denote the same value, down to sharing in DJS; writing that value again gives the same text. This holds across formats: JSON to DJS to JSON is the identity on text.",
  ["inputs", "histories"], "every value expressible in the input language, every chain of conversions", "No test feeds output back in.",
  ["serializer/to_json.rs", "serializer/to_djs.rs", "parser/parser.rs", T], [("writer", "serializer/to_djs.rs:write_djs"), ("reader", "parser/parser.rs:parse")], ["to_json", "to_djs", "parse", "run"])
p("C10", "A conversion writes its output iff everything succeeded",
  "For every command line, every set of files and every read or write fault, a conversion either succeeds, having written exactly one file (the requested output, in the format its extension names, with the value of the input), or reports an error; every file other than the requested output stays untouched, and unless writing the output itself is what failed, so does an existing output. An unknown output extension, a missing argument, an unreadable input, an unreadable import, a parse error and a write fault each are errors, never crashes.",
  ["inputs", "fault_sequences", "configurations"], "all argument lists, file systems and single I/O faults", "Tests cover four successful conversions, no fault.",
  ["app/mod.rs"], [("sequencing of read, parse, serialize, write", "app/mod.rs:run"), ("format choice", "app/mod.rs:file_to_data_type")], ["run", "Io::write", "Io::read_to_string"])
p("C11", "No input text crashes or hangs the pipeline",
  "For every input text, and every set of module files, the whole pipeline (read, tokenize, parse, serialize to each format) terminates with either an output or an error, within the resources the input length justifies. It neither panics, nor overflows, nor loops, whatever the exponent, escape, nesting, digit count or statement mix, and every memory block it allocated is released afterwards.",
  ["inputs", "programs"], "every text", "Tests feed about 120 texts, almost all well formed.",
  [T, "parser/parser.rs", "app/mod.rs", "serializer/to_json.rs", "serializer/to_djs.rs"], [("total transition functions", T + ":get_next_state"), ("total statement automaton", "parser/parser.rs:json_state_push")], ["run", "parse", "to_json", "to_djs"])
p("C12", "Boxing keeps type and value of every JavaScript value",
  "Every value put into a boxed value is reported with its own type, exactly one of the seven, and comes back unchanged: all 2^64 doubles (every not-a-number pattern reads back as a not-a-number and never as another type), both booleans, null, strings, objects, arrays, bigints. Asking for another type fails and leaves the value intact for every other reference to it, and two boxes are equal exactly if they hold the same scalar or the same heap object.",
  ["inputs"], "every double bit pattern class, every boolean, null, every heap type, every pair", "Tests box about ten values; the encoding hides types in NaN payloads, so every payload matters.",
  ["js/any.rs", "js/any_internal.rs", "js/bitset.rs", "js/number.rs", "js/any_cast.rs", "js/ref_cast.rs", "js/visitor.rs", "common/bit_subset64.rs"], [("NaN boxing", "js/bitset.rs"), ("type dispatch", "js/any.rs:get_type"), ("checked extraction", "js/any.rs:try_move/try_ref")], ["Any::move_from", "Any::get_type", "Any::try_move", "Any::is", "to_visitor"])
p("C13", "A heap object lives exactly as long as it is referenced",
  "For every history of creating, cloning, dropping, nesting, freezing, extracting and matching references, a heap object is released exactly once, exactly when its last reference goes away, together with everything it alone kept alive, and is never touched after that. While any reference lives its contents are unchanged and reachable through it; a mutable view is handed out only when no other reference exists, and otherwise the request returns the reference intact.",
  ["histories"], "every sequence of reference operations over objects of every heap type", "Tests exercise single create/clone/drop chains of one type.",
  ["mem/ref_.rs", "mem/mut_ref.rs", "mem/optional_ref.rs", "mem/optional_block.rs", "mem/block.rs", "mem/block_header.rs", "mem/local.rs", "mem/global.rs", "js/any.rs", "js/any_internal.rs"], [("reference counting", "mem/optional_ref.rs, mem/block_header.rs"), ("destruction", "mem/block.rs:delete, js/any_internal.rs:delete")],
  ["Ref::clone/drop", "Ref::try_to_mut_ref", "MutRef::to_ref", "Any::clone/drop", "Local::size"], state=[("counter", "references beyond the first", "mem/local.rs, mem/global.rs")])
p("C14", "Every heap block has the right layout and is accounted for",
  "For every element type, header and length (0 included), a heap object's header and items lie inside its allocation, do not overlap, are correctly aligned, hold exactly the constructed contents in order, and are released with the layout they were allocated with. Every element is dropped exactly once, and a manager's live count equals the number of live objects at every moment. A constructor that is given fewer or more elements than announced, or a length no memory can hold, never exposes uninitialized or foreign memory.",
  ["inputs", "histories"], "every (element layout, header, length)", "Tests use five layouts.",
  ["mem/block.rs", "mem/object.rs", "mem/fixed.rs", "mem/field_layout.rs", "mem/flexible_array/mod.rs", "mem/flexible_array/constructor.rs", "mem/flexible_array/header.rs", "mem/manager.rs", "mem/local.rs", "mem/global.rs"], [("layout computation", "mem/field_layout.rs, mem/block.rs"), ("construction", "mem/flexible_array/constructor.rs"), ("accounting", "mem/local.rs")], ["Manager::fixed_new", "Manager::flexible_array_new", "Local::size"])
p("C15", "Arena allocations never overlap and stay inside the buffer",
  "For every buffer (any size and alignment) and every sequence of object allocations, each allocation of the arena lies inside the buffer, is aligned for its header and contents, overlaps no earlier one, and leaves the contents of earlier ones unchanged. An allocation is refused exactly if it does not fit behind the earlier ones, and then leaves the arena as it was.",
  ["histories", "inputs"], "every sequence of (size, alignment) requests on every buffer", "Tests allocate two objects in one buffer.",
  ["mem/arena.rs"], [("bump allocation", "mem/arena.rs:alloc")], ["Manager::alloc on an arena"], hook="Arena is a private module: a cfg-guarded re-export is needed")
B = "js/js_bigint.rs"
p("C16", "JavaScript bigint +, -, *, negation are exact and canonical",
  "For every pair of integers of any size and sign, sum, difference, product and negation of JavaScript bigints are the exact integers, delivered in canonical form (no high zero limb, zero unsigned) and usable as operands of every further operation. The operands are unchanged.",
  ["inputs", "histories"], "all integers, and all chains of operations on results", "Tests add and multiply about 30 pairs; carries and borrows across limbs depend on limb values and lengths.",
  [B, "big_numbers/big_int.rs"], [("carry/borrow chains", B + ":add_vec/sub_vec"), ("product", B + ":mul"), ("normalization", B + ":normalize_vec/new_bigint")], ["js_bigint::add", "sub", "mul", "negative", "new_bigint", "from_u64", "zero"])
p("C17", "JavaScript bigint division gives quotient and remainder",
  "For every dividend and every non-zero divisor, division yields a quotient truncated towards zero and a remainder smaller in magnitude than the divisor, such that quotient times divisor plus remainder is the dividend and the remainder is zero or has the dividend's sign; both are canonical. Division terminates for all operands; only division by zero panics.",
  ["inputs"], "all dividend/divisor pairs", "Tests divide about ten pairs, most with a single-limb divisor; digit estimation errors need particular limb patterns.",
  [B], [("long division", B + ":div_mod")], ["js_bigint::div_mod"])
p("C18", "JavaScript bigint bitwise and shift operations are two's complement",
  "For every pair of integers, and, or, xor and not act on their infinite two's-complement representations, left shift multiplies by a power of two and right shift divides rounding down, with a negative shift count shifting the other way; results are exact and canonical. A right shift of any length terminates at 0 or -1.",
  ["inputs"], "all operand pairs, all shift counts up to memory", "Tests use about 40 pairs and a handful of shift counts; wrong masks show only for multi-limb values with particular low bits.",
  [B], [("two's complement conversion", B + ":to_twos_complement/from_twos_complement"), ("shifts", B + ":shl/shr/shl_on_u64/shr_on_u64")], ["js_bigint::and", "or", "xor", "not", "shl", "shr", "shl_on_u64", "shr_on_u64"])
p("C19", "JavaScript bigint comparison and power agree with the integers",
  "For every pair of integers, equality and ordering are those of the integers, for either sign and any length, and ordering is antisymmetric and transitive; power by any non-negative exponent is the exact power. Sign, length and last-bit queries describe the value.",
  ["inputs"], "all pairs; all (base, exponent)", "Tests compare no pair of negatives of equal length and raise five bases.",
  [B], [("comparison", B + ":JsBigint::compare/equals"), ("power", B + ":pow/pow_u64")], ["js_bigint::equals", "JsBigint::compare", "pow", "pow_u64"])
p("C20", "Unsigned big integers compute exactly",
  "For all unsigned big integers, sum, product, difference (where defined), quotient and remainder, power, both shifts and comparison are exact, and the results are normalized so that equal numbers are equal values. Subtracting the larger from the smaller saturates at zero; only division by zero and a shift count beyond one limb panic.",
  ["inputs", "histories"], "all operand pairs and operation chains", "Tests use about 60 pairs, mostly of one or two limbs.",
  ["big_numbers/big_uint.rs"], [("arithmetic", "big_numbers/big_uint.rs"), ("normalization", "big_numbers/big_uint.rs:normalize")], ["BigUint operators", "BigUint::pow", "BigUint::div_mod"])
p("C21", "Signed big integers compute exactly",
  "For all signed big integers, sum, difference, product, quotient, remainder, negation, absolute value and ordering are exact, with a single representation per number (zero is unsigned). Quotient times divisor plus remainder is the dividend.",
  ["inputs", "histories"], "all operand pairs and operation chains", "Tests use about 40 pairs.",
  ["big_numbers/big_int.rs"], [("sign handling", "big_numbers/big_int.rs"), ("normalization", "big_numbers/big_int.rs:normalize")], ["BigInt operators", "BigInt::div_mod", "Ord"])
p("C22", "Big floats convert and round correctly",
  "For every significand, exponent and sticky flag, conversion of a big decimal float to binary at a given precision keeps at least that precision and records exactly whether anything was lost, and conversion to a double rounds the exact value to nearest, ties to even, through normal, subnormal, zero and infinite results. Equal exact values convert to equal doubles.",
  ["inputs"], "all (significand, exponent, sign, sticky)", "Tests sample powers of two around the bounds.",
  ["big_numbers/big_float.rs", "big_numbers/float_zero.rs"], [("precision", "big_numbers/big_float.rs:to_bin, increase_significand, decrease_significand"), ("double assembly", "big_numbers/big_float.rs:to_f64")], ["BigFloat::to_bin", "BigFloat::to_f64"])
p("C23", "Bit subsets partition the 64-bit space as specified",
  "For every subset of 64-bit words given by a mask and a tag, membership, the combination of two subsets, the split by a sub-mask and the conversion of payloads to words and back are exact: a word belongs to the subset iff its masked bits equal the tag, converting a payload and back is the identity, the intersection holds exactly the common words (and is refused when there are none), and the two halves of a split are disjoint subsets of the parent that cover it when one bit is split.",
  ["inputs"], "every (mask, tag) and every word", "Tests check constants of one layout.",
  ["common/bit_subset64.rs"], [("mask algebra", "common/bit_subset64.rs")], ["BitSubset64"])
p("C24", "Range maps answer lookups and merge like maps of points",
  "For every pair of range maps, merging yields a map whose answer at every key is the combination of the two answers at that key, with strictly increasing bounds, and merging is independent of order and grouping as far as combination is. A map made from one key or one range answers there, and nowhere else, for every key including the least and greatest.",
  ["inputs", "histories"], "every pair of maps over every key set, every key", "Tests merge four pairs.",
  ["range_map.rs"], [("merge", "range_map.rs:merge"), ("lookup", "range_map.rs:RangeMap::get"), ("construction", "range_map.rs:from_one/from_range")], ["RangeMap::get", "merge", "merge_list", "from_one", "from_range"])
p("C25", "Path normalization and joining denote the right file",
  "For every path, its normal form denotes the same file from the same directory, is shortest (no empty, no '.' segment, '..' only at the front), keeps absolute paths absolute, and is reached in one step; joining a directory and a relative path denotes the path walked from that directory, and splitting a path into directory and name and joining them again gives the path's normal form.",
  ["inputs"], "every sequence of path segments", "Tests normalize five paths.",
  ["parser/path.rs"], [("normalization", "parser/path.rs:normalize"), ("joining", "parser/path.rs:concat"), ("splitting", "parser/path.rs:split")], ["path::normalize", "path::concat", "path::split"])
p("C26", "Streaming tokenization equals batch tokenization",
  "For every text and every way of consuming it, pushing characters one at a time, iterating lazily and tokenizing the whole text give the same token sequence; a token once delivered is never revised by later characters, the iterator stays exhausted once exhausted, and tokenizers running alternately do not influence one another.",
  ["inputs", "histories", "schedules"], "every text, every prefix, every interleaving of several tokenizers", "No test drives the tokenizer incrementally.",
  [T], [("incremental state", T + ":TokenizerState::push_mut"), ("lazy iterator", T + ":TokenizerStateIterator::next")], ["TokenizerState::push_mut", "TokenizerStateIterator", "tokenize"])
p("C27", "Panics in caller-supplied code corrupt or duplicate nothing",
  "Whenever code supplied by the caller (an element iterator, a closure over a value, an element's own destructor) panics at any step of building, changing or traversing a heap value, no element is destroyed twice, no uninitialized memory is read, and every object not involved stays intact and is released as usual. A partially built object is never reachable.",
  ["fault_sequences", "histories"], "every operation that calls back, every call at which the callback panics", "No test injects a panic.",
  ["common/ref_mut.rs", "mem/flexible_array/constructor.rs", "mem/manager.rs", "js/any.rs"], [("in-place update", "common/ref_mut.rs:modify"), ("construction", "mem/flexible_array/constructor.rs")], ["RefMut::modify", "Manager::flexible_array_new", "Any::for_each"])

p("C28", "Traversal and writing are complete, in order, and pass on the first error",
  "For every value, traversing it calls the visitor once per child, in order, with the index (arrays) or the key string (objects), never for other types, and stops at the visitor's first error, which it returns; every serializer gives any writer the same text as a string, and when the writer refuses at any point it reports an error, leaving in the writer a prefix of that text, and does not call it again. Neither changes the value nor leaves memory behind.",
  ["inputs", "fault_sequences"], "every value, every child and every write at which the callee fails", "No test has a visitor or a writer that fails, and one test traverses one array.",
  ["js/any.rs", "serializer/to_json.rs", "serializer/to_djs.rs"], [("traversal", "js/any.rs:for_each"), ("error propagation", "serializer/to_json.rs:WriteJson"), ("error propagation in DJS", "serializer/to_djs.rs:write_djs")], ["Any::for_each", "WriteJson::write_json", "WriteDjs::write_djs"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
