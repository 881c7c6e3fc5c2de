"""The properties: their statements, and the bounds and assumptions of the check that decides each.

`tool/describe.py` writes properties.jsonl and MANIFEST.json from this table.
"""
SET, DER = "enumset/src/set.rs", "enumset_derive/src/lib.rs"
PRIM, ARR = "enumset/src/repr/primitive.rs", "enumset/src/repr/array.rs"
MAC, TR = "enumset/src/macros.rs", "enumset/src/traits.rs"

SETS = "every set content (all 2^n sets of a shape's variants) is symbolic"
SHAPES = ("enum shapes: a fixed list covering every storage (u8 to u128, word arrays of 1 to 8 words), dense and "
          "sparse, ordered and unordered discriminants, and both sides of every word and storage boundary; other "
          "enum definitions lie outside")
A_SHAPES = "the guarantee for enums outside the listed shapes is by similarity: the code is generic in the storage type"
A_TARGET = "64-bit little-endian target (usize is 64 bits)"
A_MODEL = "rustc's `as` casts give the discriminants of the reference model"
COMMON = [A_SHAPES, A_TARGET, A_MODEL]


def P(pid, title, statement, over, text, why, files, mech, observe, bounds, assumptions=(), **kw):
    own = kw.get("own_shapes")
    return pid, dict(feature=pid.lower(), title=title, statement=statement, over=over, text=text, why=why, files=files,
                     mech=mech, observe=observe, bounds=list(bounds) + ([] if own else [SHAPES]),
                     assumptions=([] if own else COMMON) + list(assumptions), **kw)


PROPS = dict([
    P("C01", "Set algebra is exact",
      "For any two sets of one enum, union, intersection, difference, symmetric difference and complement, whether "
      "called as methods, operators or assigning operators, contain exactly the variants the mathematical operation "
      "gives. Complement and negation are relative to the declared variants, and single elements may stand in for "
      "sets as operands. Operands are never changed.",
      ["inputs"], "every pair of sets and every variant, for each storage layout",
      "The tests combine a few hand-picked sets; a wrong word or bit shows only for particular contents.",
      [SET, ARR, PRIM], [("operators", SET), ("word-wise bit operations", ARR), ("integer bit operations", PRIM)],
      ["EnumSet's operators and named operations"],
      [SETS, "both operands fully symbolic", "loops unrolled to the storage's word count"]),
    P("C02", "Mutation affects exactly the named elements",
      "From any set, inserting or removing an element, adding or removing a whole set, or clearing changes exactly the "
      "membership it names. The returned flag of an insertion says whether the element was absent, and that of a "
      "removal whether it was present. Repeating the step changes nothing, and copies taken before are unaffected.",
      ["inputs"], "every starting set, every variant, every second set, for each storage layout",
      "Tests walk a handful of short scripts; an aliasing bit or a wrong flag needs a particular set and element.",
      [SET, ARR, PRIM], [("insert, remove, insert_all, remove_all, clear", SET), ("bit setting and clearing", ARR)],
      ["return values", "membership of every variant afterwards"],
      [SETS, "one step from an arbitrary set, which is inductive over histories (see also C24)"]),
    P("C03", "A set holds only declared variants",
      "No safe operation yields a set holding a bit without a variant: every constructor, conversion, operator and "
      "deserialization either refuses such bits or drops them. The full set holds every declared variant and nothing "
      "else, and every iterated element is a declared variant, so iteration can never produce an invalid enum value.",
      ["inputs"], "every input of every constructor and operation, for each storage layout",
      "A stray bit only shows for enums with gaps and for specific inputs, and the resulting invalid enum value is "
      "undefined behaviour that a passing test may not notice.",
      [SET, DER, ARR, PRIM], [("masking with the set of valid bits", SET), ("the mask of all variants", DER),
                              ("conversion of a bit to a variant", DER)],
      ["the words of the resulting set", "iterated elements"],
      [SETS, "integer and array inputs fully symbolic", "array inputs of at most 6 words"]),
    P("C04", "Queries agree with membership",
      "For any sets and variant, membership, length, emptiness, subset, superset and disjointness answer exactly as "
      "the set of members implies. An empty set is a subset of and disjoint from every set; every set is a subset and "
      "superset of itself.",
      ["inputs"], "every pair of sets and every variant, for each storage layout",
      "Tests query a few sets; a comparison that skips a word or a bit needs sets that differ only there.",
      [SET, ARR, PRIM], [("contains, len, is_empty, is_subset, is_superset, is_disjoint", SET)],
      ["query results"], [SETS, "both operands fully symbolic"]),
    P("C05", "Iteration is complete, ordered and free of repetition",
      "Iterating a set yields every member exactly once in ascending order of discriminant; from the back, in "
      "descending order. Any interleaving of the two ends yields every member exactly once and then nothing, however "
      "often it is asked again.",
      ["inputs", "histories"], "every set, and every interleaving of steps from the two ends",
      "Interleavings of the two ends on sets spanning several words are far too many to list, and the tests run a few.",
      [SET, ARR, PRIM], [("front and back iteration over words", ARR), ("iteration by lowest and highest bit", PRIM)],
      ["elements yielded, in order"],
      [SETS, "exhausted (variants + 2 steps) for shapes of at most 8 variants; the first 3 steps (thorough: 5) for "
       "larger ones"]),
    P("C06", "Iterators know their length and keep the iterator contract",
      "At any point of any traversal, an iterator's reported length is exactly the number of elements it will still "
      "yield. A clone continues independently of the original and the set itself is not affected. Skipping, counting, "
      "searching, folding, reversing and taking the last element agree with stepping one by one.",
      ["inputs", "histories"], "every set, and every interleaving of steps before the length is asked or a clone taken",
      "Lengths are tested for fresh iterators and a few partly consumed ones, not for every traversal of every set.",
      [SET, ARR, PRIM], [("size_hint", ARR), ("size_hint", PRIM), ("ExactSizeIterator", SET)],
      ["size_hint and len", "results of iterator adaptors"],
      [SETS, "traversals to exhaustion for shapes of at most 5 variants, one or two steps for larger ones",
       "adaptors from the start or after one step; skips of at most 2"]),
    P("C07", "Conversion to an integer is exact or refused",
      "A set's numeric value has exactly the bit of each member's discriminant. For every integer width the exact "
      "conversion returns that value if it fits and otherwise reports failure (or panics, in the panicking form); the "
      "truncating conversion returns its low bits.",
      ["inputs"], "every set and every integer width, for each storage layout",
      "Whether a value fits depends on the highest member; the tests try few sets per width and layout.",
      [SET, ARR, PRIM], [("integer conversions", SET), ("narrowing of words", ARR), ("narrowing of integers", PRIM)],
      ["integer results", "panics"], [SETS, "widths 8 to 128 and usize"]),
    P("C08", "Construction from an integer accepts exactly valid bits",
      "For every integer width, the checked constructor accepts a value exactly when each of its bits belongs to a "
      "variant and then gives exactly those variants; the panicking form panics exactly when it is refused. The "
      "truncating constructor keeps exactly the bits that belong to a variant. Converting a set to an integer it fits "
      "and back gives the same set.",
      ["inputs"], "every value of every integer width, for each storage layout",
      "Tests pass a few valid and invalid values; a bit lost or accepted at a storage boundary needs that exact value.",
      [SET, ARR, PRIM], [("validation against the mask of variants", SET), ("widening and narrowing", ARR)],
      ["resulting sets", "refusals and panics"], ["integers fully symbolic, widths 8 to 128 and usize"]),
    P("C09", "Conversion to words is exact or refused",
      "Converting a set to an array, slice or vector of 64-bit words puts the member with discriminant d in bit d mod "
      "64 of word d div 64 and fills the rest with zeros. If the target is too short for the members the exact forms "
      "fail, leaving a slice untouched, or panic; the truncating forms write the leading words. Memory beyond the "
      "given slice is never written.",
      ["inputs"], "every set, every target length, every prior content of the target",
      "Too-short targets matter only for sets with high members; tests try few lengths and fresh zeroed buffers.",
      [SET, ARR, PRIM], [("array and slice conversions", SET), ("word copying", ARR), ("splitting into words", PRIM)],
      ["words written", "words beyond", "refusals and panics"],
      [SETS, "target lengths 0, 1, 2, 3, 4 and 6 words", "prior buffer contents symbolic"]),
    P("C10", "Construction from words accepts exactly valid bits",
      "Building a set from an array or slice of words of any length succeeds exactly when every set bit, including "
      "those in words beyond the enum's own, belongs to a variant, and gives exactly those variants; missing words "
      "count as zero. The panicking forms panic exactly when the checked forms refuse, and the truncating forms drop "
      "exactly the bits without a variant. Converting a set to words and back gives the same set.",
      ["inputs"], "every word content and length, for each storage layout",
      "Overlong or short inputs with bits in unusual words are inputs the tests do not enumerate.",
      [SET, ARR, PRIM], [("array and slice constructors", SET), ("word validation", ARR), ("joining words", PRIM)],
      ["resulting sets", "refusals and panics"], ["words fully symbolic", "lengths 0, 1, 2, 3, 4 and 6 words"]),
    P("C11", "A declared integer representation is the set in memory",
      "For an enum whose set representation is declared as an integer type, the set has that type's size and "
      "alignment, and its memory is exactly its numeric value, so it may be passed as that integer. Converting to the "
      "representation is exact; from it, the checked form accepts exactly values of declared bits, the panicking form "
      "panics on all others, and the truncating form keeps exactly the declared bits.",
      ["inputs"], "every set and every value of the declared representation",
      "Tests check a few values; foreign code may pass any.",
      [SET, DER, TR], [("transparent layout", SET), ("choice of the representation", DER)],
      ["bytes of the set", "conversion results and panics"],
      [SETS, "representation values fully symbolic, u8 to u128"], definitions=True),
    P("C12", "Equality, ordering and hashing are coherent",
      "Two sets are equal exactly when they have the same members, equal sets hash equally, and a set equals an "
      "element exactly when it holds just that element. The ordering is total: reflexive, antisymmetric, transitive, "
      "consistent with equality, and the partial order always agrees with it.",
      ["inputs"], "every pair and triple of sets, for each storage layout",
      "Transitivity and consistency quantify over triples of sets; no test covers them.",
      [SET, ARR, PRIM], [("derived equality", SET), ("order and hash of the storage", ARR)],
      ["comparison results", "values fed to a hasher"],
      [SETS, "triples fully symbolic", "hashing observed through the bytes fed to an arbitrary hasher"]),
    P("C13", "Derived sets agree with the enum's definition",
      "For every enum definition the documentation allows, with implicit or explicit discriminants in any order, any "
      "integer representation attribute, or no variants at all, whatever identifiers name its variants and whatever "
      "name the crate is imported under, the derive compiles and each variant occupies exactly the bit of its "
      "discriminant. The bit width is the highest discriminant plus one (zero without variants), the variant count is "
      "the number of variants, and the storage holds them all. Operators on elements agree with those on one-element "
      "sets.",
      ["programs", "inputs"], "enum definitions on both sides of every boundary, and every variant and set of each",
      "Tests define a few enums; the storage choice and bit layout change at boundaries they do not straddle.",
      [DER, SET], [("parsing of discriminants", DER), ("choice of storage", DER), ("mask of all variants", DER),
                   ("conversion between variants and bits", DER), ("operators on the enum", DER)],
      ["words and integers of one-element sets", "bit width and variant count", "element operators"],
      ["definitions: a fixed list straddling each boundary (discriminants 7/8, 15/16, 31/32, 63/64, 127/128, 191/192, "
       "254/255, 319), enums and variants named like what generated code names, and a crate that imports enumset under "
       "another name; variants and sets symbolic", "not covered: enums named like a primitive type or a crate"],
      definitions=True),
    P("C14", "Constant set macros agree with the operators",
      "The macros that build sets in constant expressions give, for any operands, elements or sets, the same sets as "
      "the corresponding operators: listing, union, intersection, difference, symmetric difference and complement. "
      "This holds for any number of operands, for every storage layout, and by whatever path the macros are named.",
      ["inputs", "programs"], "every operand value, one to three operands, for each storage layout",
      "The constant forms are separate code from the operators, and tests compare a few constants only.",
      [MAC, DER], [("macro folding", MAC), ("generated constant operations", DER)],
      ["sets built by the macros"], [SETS, "zero to three operands, elements and sets mixed",
                                     "run-time evaluation of the same const functions"], definitions=True),
    P("C15", "Integer serialization is exact and round-trips",
      "By default a set whose enum's discriminants are below 128 is serialized as one integer, of the smallest width "
      "that fits every variant or of the width requested, holding its numeric value. Deserializing any integer of that "
      "width gives exactly the variants of its known bits, ignoring unknown ones; an integer too large for the width "
      "is an error. A serialized set deserializes to itself.",
      ["inputs"], "every set, and every integer the input may hold, presented as a binary or a self-describing format "
      "would",
      "Tests serialize nine sets per enum; stored data may hold any integer.",
      [DER, SET], [("generated integer serialization", DER), ("widening and narrowing", ARR)],
      ["what a serializer is given", "what deserializing any input yields"],
      [SETS, "integers fully symbolic", "formats: exactly-typed integers, or 64-bit ones as in JSON"],
      ["the data format is a model: it passes integers through unchanged"], definitions=True),
    P("C16", "Word-array serialization is exact and round-trips",
      "A set serialized as an array of words, as requested or because a discriminant is 128 or more, is its array "
      "representation, possibly without trailing zero words, and announces the right length. Deserializing any "
      "sequence of words, shorter or longer, gives exactly the variants of its known bits and ignores unknown bits "
      "and further words. A serialized set deserializes to itself.",
      ["inputs"], "every set, and every sequence of words the input may hold",
      "Tests deserialize what they serialized; data from another version of the enum holds other lengths and bits.",
      [DER, ARR], [("trimming of trailing zeros", DER), ("accumulation of words", DER)],
      ["what a serializer is given", "what deserializing any input yields"],
      [SETS, "sequences of up to two words more than the enum's own, fully symbolic"],
      ["the data format is a model: it hands over words unchanged"], definitions=True, timeout=200),
    P("C17", "List serialization is exact and round-trips",
      "A set serialized as a list has one element per member, in ascending order, and announces the right length. "
      "Deserializing a list of variants in any order and with repetitions gives the set of those variants; an element "
      "that is no variant is an error. A serialized set deserializes to itself.",
      ["inputs"], "every set, and every list the input may hold",
      "Tests read lists they wrote; hand-written data may be unordered, repeated or wrong.",
      [DER, SET], [("generated list serialization", DER), ("iteration", SET)],
      ["what a serializer is given", "what deserializing any input yields"],
      [SETS + " (1 to 3 variants)", "lists of at most 4 elements (thorough: 6)"],
      ["the data format is a model; variants are written as their discriminants"], definitions=True),
    P("C18", "Map serialization is exact and round-trips",
      "A set serialized as a map has one entry per member, in ascending order, with the value true, and announces the "
      "right length. Deserializing a map of variants to booleans in any order gives exactly the variants mapped to "
      "true, and those mapped to false are absent; a key that is no variant is an error. A serialized set "
      "deserializes to itself.",
      ["inputs"], "every set, and every map the input may hold",
      "Tests read maps they wrote and one with false entries.",
      [DER, SET], [("generated map serialization", DER), ("iteration", SET)],
      ["what a serializer is given", "what deserializing any input yields"],
      [SETS + " (1 to 3 variants)", "maps of at most 4 entries (thorough: 6)"],
      ["the data format is a model; variants are written as their discriminants",
       "of a repeated key, one true entry suffices (as on the current tree)"], definitions=True),
    P("C19", "Denying unknown bits refuses exactly those",
      "An enum set to deny unknown bits can be combined with every serialized representation and storage. Its sets "
      "then deserialize from an integer or sequence of words exactly when every set bit belongs to a variant, "
      "including bits in further words, and give exactly those variants. Any other input is an error, never a panic.",
      ["inputs", "configurations"], "every integer and sequence of words, for each representation and storage",
      "One test denies one value for one enum; each representation is separate generated code.",
      [DER], [("generated checks for unknown bits", DER)],
      ["what deserializing any input yields"],
      ["integers and words fully symbolic", "sequences of up to two words more than the enum's own"],
      ["the data format is a model: it passes integers and words through unchanged"], definitions=True, timeout=200),
    P("C20", "Serialization failures are reported, never hidden or fatal",
      "If the output fails at any point while a set is serialized, serializing reports that failure and writes nothing "
      "after it; it reports success only once everything was written. If the input fails at any point or is of another "
      "kind than expected, deserializing is an error; it succeeds only once the whole input was read. No input makes "
      "it panic or yields anything but a set of declared variants.",
      ["fault_sequences", "inputs"], "a failure at every call of the format, every kind of input, for each "
      "serialized representation",
      "No test injects a failing writer or reader.",
      [DER, SET], [("error propagation in generated code", DER)],
      ["results of serializing and deserializing against a failing format"],
      ["the failing call is symbolic", "sequences and maps of at most 4 entries, or two words more than the enum's own"],
      ["the data format is a model; a sequence that ended may be asked again and says so again"], definitions=True),
    P("C21", "Formatted text names exactly the members, in order",
      "The debug form of a set is `EnumSet(`, the members' own debug forms in ascending order separated by ` | `, and "
      "`)`, on one line also in the alternate form. The display form is the members' display forms separated in the "
      "same way, and is empty for the empty set; both show the members with the format options given for the set. A "
      "writer's failure at any point is reported.",
      ["inputs", "fault_sequences"], "every set of the shapes, and a failure at every write",
      "Tests format two sets.",
      [SET], [("Debug and Display", SET)], ["text written, byte by byte"],
      [SETS + " (1 to 3 variants, and 9)"], ["the variants' own text is at most 5 bytes"]),
    P("C22", "Collecting, extending and summing give the union",
      "Collecting or summing any sequence of variants or of sets, owned or borrowed, gives exactly the union of its "
      "items, whatever their order and repetitions. Extending a set adds exactly those and keeps its members. "
      "Collecting a set's own iterator, in either direction, gives that set.",
      ["inputs"], "every sequence of items and every set extended, for each storage layout",
      "Tests collect a few fixed sequences.",
      [SET], [("FromIterator, Extend and Sum", SET)], ["resulting sets"],
      [SETS, "sequences of at most 4 items (thorough: 6)"]),
    P("C23", "The derive accepts exactly the valid definitions, and lays them out as asked",
      "The derive macro accepts a definition exactly when it is an enum without type parameters or fields, whose "
      "discriminants are absent or literal numbers below 0xFFFFFFC0, whose own representation is `C`, `Rust` or an "
      "integer, and all of whose discriminants fit the storage and the serialized representation that were asked for. "
      "Anything else is reported as an error; the macro never panics. An accepted enum's variants are numbered as Rust "
      "numbers them, its storage and serialized form are those asked for, or the smallest that fit, and exactly the "
      "declared bits are valid.",
      ["inputs"], "every definition of a few variants: each one's discriminant, kind, name and fields, and the requested "
      "representations",
      "Tests compile a few dozen definitions; each boundary of a discriminant against each representation is another.",
      [DER], [("push_variant, validate", DER), ("internal_repr, serde_repr, variant_map", DER),
              ("derive_enum_set_type", DER)],
      ["error or generated code", "the storage type, masks, counts and conversion the generated code contains"],
      ["definitions of at most 3 variants (thorough: 4)",
       "literals up to 2^64-1; for layouts, discriminants below 192 (thorough: 256)",
       "one representation asked for at a time, but for `repr = \"array\"` with `serialize_repr = \"u128\"`",
       "the tokens of the generated code other than those that fix the layout are covered by C01 to C22"],
      ["syn, quote, darling and hash sets are models; a counterexample is confirmed with the real ones through rustc",
       "definitions that rustc itself rejects (equal names or discriminants) may be accepted or rejected"],
      own_shapes=True, timeout=300),
    P("C24", "After any history of operations a set is what the history says",
      "Starting from the empty or any other set, after any sequence of insertions, removals, assignments with set "
      "operators, complements, extensions and conversions to words and back, the set holds exactly the members the "
      "sequence implies. Each step's returned flag, and afterwards length, emptiness and both ends of iteration, agree "
      "with that.",
      ["histories", "inputs"], "every sequence of steps with every operand, for each storage layout",
      "The space of histories is exponential; tests run a few scripts.",
      [SET, ARR, PRIM], [("all mutating operations", SET)], ["results of each step", "the set afterwards"],
      [SETS, "histories of 3 steps (thorough: 6) out of 15 kinds, from any set"]),
])

NOT_CLAIMED = []
