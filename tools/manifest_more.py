c("C20", BIG.replace("integers", "BigUint values", 1), BIGN.format("5, thorough 6"))
c("C21", BIG.replace("integers", "BigInt values", 1), BIGN.format("4"))
c("C22", "exhaustive exploration of (significand, exponent, sign, sticky, precision) grids against exact integer rounding and the Rust standard parser", "Exhaustive over boundary significands (all low-bit patterns around 53 bits, powers of two and neighbours, limb words) and whole exponent windows around the normal, subnormal and infinite borders (thorough: every exponent from -1300 to 1100, decimal exponents -400..400).")
c("C23", "explicit-state exploration of all pairs of ternary bit patterns on every bit, every pair of bits and windows of bits, against the set of words", "Exhaustive within windows of up to four bits at (quick: a grid of, thorough: nearly all) positions and for every pair of bits, other bits 0, 1 or S. Assumes bits interact at most within such windows.")
c("C24", "explicit-state exploration of all pairs and triples of small range maps and all characters, against pointwise combination", "Exhaustive over all maps on 4 (thorough 5) keys with 3 values, all triples on 3 (4) keys, all 1,112,064 characters, all ranges between 20 boundary characters, lookups in maps of up to 70 (300) entries.")
c("C01", "explicit-state exploration of all texts up to a length over an alphabet of character classes, against an independent reference lexer; each text is fed to the real tokenizer", "Exhaustive over all words up to length 4 (thorough 5) of an alphabet with one or more representatives of every character class and lexer state, plus all words over operator, escape, number and comment sub-alphabets to greater depth, and every Unicode scalar in every lexer context. Longer interactions are not covered.")
c("C02", "exhaustive exploration of the literal grid around every explored double, its midpoint and both nearest neighbours, against exact integer rounding", "Exhaustive over a grid of doubles (boundary mantissas times exponents), for each the double, the midpoint to the next one and its two neighbours at 20 more digits, in five spellings; short decimals at every exponent in [-345,315] (thorough +-420); extreme exponents.")
c("C03", "exhaustive exploration of bigint literals (all digit counts, limb borders, signs, all short digit words) against an independent big integer", "Exhaustive over all digit words up to length 5 and boundary values around every power of 2^64 and of 10 in the bound, each with both signs, with tokenize, print and read back compared.")
c("C26", "explicit-state exploration of all pairs of texts joined by every separator; comment and newline insertion at every token border, on the real tokenizer", "Exhaustive over all pairs and triples of the token texts in the set and all separators; deeper compositions follow by induction only if the tokenizer state at a border is the initial one, which the check establishes for the explored texts.")
c("C04", "explicit-state exploration of the tree of all viable token sequences in every context, on the real parser, against a recursive-descent reference", "Exhaustive over token sequences up to length 6 (thorough 8) over 22 token kinds and up to 9 (11) over the nesting tokens in five document contexts, each extended by every token that ends it; all key sequences up to 3 (4) over 12 keys; sizes and nesting depths up to 1000 and beyond on a grid.")
c("C05", "explicit-state exploration of the tree of all viable token sequences of module statements and of all sequences of whole statements, on the real parser with and without IO, against a recursive-descent reference", "Exhaustive over token sequences up to length 7 (thorough 9) over 27 token kinds, up to 6 (8) more tokens in ten contexts, and up to 6 (8) whole statements out of 28. Longer documents are not covered.")
c("C06", "exhaustive exploration of all import graphs up to a size in every layout, flavour and spelling, all short histories of parses with one cache and every fault at every IO operation, against a reference module loader", "Exhaustive over graphs of up to 3 (thorough 4) modules with up to 2 (3) imports each, 5 directory layouts, 4 flavours, 6 spellings, faults at every operation, plus chains of up to 60 (100) modules with two imports each. Path identity is lexical; relative and absolute paths to one file are not mixed in one parse.")
c("C25", "exhaustive enumeration of all short paths and pairs of paths, against a walk over directories", "Exhaustive over strings up to length 8 (thorough 11) over {a b . /} and lists of up to 5 (6) segments, all pairs up to length 4 (5). Longer paths follow only as far as normalization treats segments uniformly.")
c("C07", "exhaustive enumeration of value graphs, strings, doubles and bigints up to bounds; the real serializer's text is read by an independent JSON reader", "Exhaustive over all 65536 units, all words up to 3 (thorough 4) over 34 boundary units, all upper-16-bit patterns of a double times 8 (56) lower patterns, decimals at every exponent, bigints of up to 6 (8) boundary limbs and around powers, all graphs of up to 4 containers within the listed bounds. NaN (no literal) is left out.")
c("C08", "exhaustive enumeration of all value graphs up to a size (with every sharing), both flavours; the real text is read by a reference parser that keeps sharing", "Exhaustive over graphs of 1 to 4 (thorough 5) containers with up to 4 children and the leaf sets listed, ladders of up to 60 (250) levels, wide and deep values. NaN and lone surrogates are left out.")
c("C09", "exhaustive enumeration of values and value graphs up to a size, each driven through every history of writing, reading, converting between the three formats and writing again on the real code", "Exhaustive over characters (quick: a sixteenth of the upper planes), words of up to 2 (3) boundary units, doubles by bit pattern, decimals, bigints and value graphs within the listed bounds. Strings with lone surrogates are a known finding. NaN is left out.")
c("C10", "exhaustive exploration of command lines, inputs, outputs and module graphs with every fault at every IO operation, on the real application over a recording file system and on the built program in a directory, against a reference conversion", "Exhaustive over command lines of up to 4 (thorough 5) words, 210 input/output pairs and 1176 module graphs with every single fault (failure, half transfer, interruption) at every operation, output names of up to 5 (6) parts. One fault per run.")
c("C11", "exhaustive enumeration of texts up to a length over six alphabets, of every single mutation of sample texts and of growing texts, through the whole real pipeline with counted memory", "Exhaustive over texts of up to 3 (thorough 4) characters or tokens, 4 (5) statements, number or string parts, byte strings, every one-place mutation of 12 samples, 40 growing families up to 10000 (30000) repetitions, nesting to 3000. Nesting a million deep is a known finding (stack overflow). Limits on memory and work are generous constants per byte.")
c("C12", "exhaustive enumeration of the double bit patterns that touch the boxing, of all heap types and of all pairs of boxes, through the real boxing, extraction and visitor code", "Exhaustive over all 2^16 upper halves times boundary lower halves (thorough: more), both booleans, null, every heap type, every pair of boxes of a set; the lower 48 bits are covered by boundary patterns, not all of them.")
c("C13", "explicit-state exploration of all histories of reference operations up to a depth on the real heap against an ownership model, natively with a counting manager and under the Miri interpreter", "Exhaustive over operation sequences up to the depth in the evidence for objects of every heap type and up to three slots; the number of references to one object is followed to beyond 2^32 in the thorough tier. Counters are single-threaded types.")
c("C14", "exhaustive enumeration of element layouts, headers, lengths and iterator behaviours on the real allocator path with a checking allocator, and under Miri", "Exhaustive over the element and header types listed (sizes 0 to 48, alignments 1 to 64), all lengths up to the bound and a grid of huge announced lengths. Types outside the list follow only as far as the layout code is uniform.")
c("C27", "exhaustive exploration of panic points: every operation that calls back times every call at which the callback panics, natively and under Miri", "Exhaustive over the operations listed, every element type, every length and every index of the panicking call within the bounds; one panic per history. A leaked partially built object is allowed.")
c("C15", "explicit-state exploration of all reachable states of an arena and of all sequences of raw and object allocations up to a depth on the real arena, natively with guard zones and under the Miri interpreter", "Exhaustive over all sequences of up to 3 (thorough 4) of 26 requests on buffers of 16 lengths and 4 (11) addresses, every state of every buffer of up to 100 (200) bytes at 16 (all 128) addresses with every request, all sequences of up to 3 objects. Reached through a guarded hook.")
c("C28", "exhaustive exploration of values and value graphs up to a size, each with a failing visitor at every child and a failing writer at every byte and every call, on the real traversal and serializers", "Exhaustive over units, bigints, decimals, all graphs of up to 3 (thorough 4) containers within the listed bounds and wide, deep and shared values; in texts longer than 300 bytes and arrays longer than 80 items only the first and last places of failure. One failure per run.")
