"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from here."""

B = "bitcoin-cash-base/src/"
M = "bitcoin-cash/src/"
PROPS = []
NA = []
NOTE = ("Sound up to the models of std/byteorder/Arc in sa/models.py: every path of every analysed function is summarised and compared; "
        "obligations the analysis cannot settle are listed in the evidence as inconclusive and do not fail the check.")


def P(id, title, statement, over, text, why, files, mech, state=(), note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, note=note))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))


P("C01", "Fixed-width values have one fixed wire form, both ways",
  "Every fixed-width value with a wire codec (the integers, booleans, digests and fixed-length byte arrays) is written as exactly its "
  "protocol bytes (little-endian, one byte per boolean, raw digest bytes), and reading takes exactly those bytes and returns the rest untouched.  "
  "Reading fails, without panicking, if and only if there are too few bytes.",
  ["inputs"], "every value of every fixed-width type, and every byte string read as one",
  "The tests encode a few sample transactions; they never decode truncated input of most widths, nor values beyond the samples.",
  [M + "bitcoin_code.rs", M + "hash.rs"],
  [("codec implementations of the integers, booleans and fixed arrays", M + "bitcoin_code.rs"), ("digest codecs", M + "hash.rs")])
P("C02", "Lengths are compact-size integers, minimal when written, exact when read",
  "The length of every byte string and list is written in the shortest of the four compact-size forms, followed by exactly the contents in order.  "
  "Reading accepts exactly the four forms, reads that many elements in order, returns the remaining bytes untouched, and fails without panicking "
  "when the input is too short.",
  ["inputs"], "all lengths and all byte strings read",
  "The tests reach only short lists and one or two prefix forms; the boundaries at 0xfc/0xfd, 2^16 and 2^32 and truncated inputs are never sampled.",
  [M + "bitcoin_code.rs", B + "encoding_utils.rs"],
  [("compact-size reader and writer", B + "encoding_utils.rs"), ("list and byte-string codecs", M + "bitcoin_code.rs")])
P("C03", "Transactions and their parts have the network wire form, both ways",
  "Outpoints, inputs, outputs, transactions and signature preimages are written as the concatenation of the protocol's fields in protocol order and "
  "width, and nothing else; reading consumes exactly these bytes, puts each into the field it was written from, and fails if any part is missing.  "
  "A transaction read from bytes keeps exactly the bytes it was read from and their double SHA-256 as its hash.",
  ["inputs"], "every transaction and every byte string decoded as one",
  "The tests compare a handful of sample transactions; swapped fields with equal sample values, lost trailing bytes or missing length checks would pass.",
  [M + "tx.rs", M + "tx_preimage.rs", "bitcoin-cash-code/src/lib.rs"],
  [("derived codecs", "bitcoin-cash-code/src/lib.rs"), ("codec of the hashed transaction", M + "tx.rs")])
P("C04", "Decoding a whole value uses up every byte; lists of values are concatenations",
  "Decoding a complete value succeeds only if no byte is left over.  A list of values without a length is the plain concatenation of its elements, and "
  "decoding such a list yields exactly the elements until the input is used up, failing if any element fails to decode.",
  ["inputs"], "every byte string, for every type with a wire form",
  "Tests decode only well-formed inputs without trailing garbage for one or two types.",
  [M + "bitcoin_code.rs"], [("provided whole-value and list codecs", M + "bitcoin_code.rs")])
P("C05", "Every script operation has its consensus byte form",
  "Writing a script operation yields exactly its consensus bytes: the opcode byte, the small-integer opcodes where an integer or minimally-pushed "
  "single byte has one, otherwise the data behind the direct-push, PUSHDATA1, PUSHDATA2 or PUSHDATA4 prefix its length prescribes.  A script's bytes are "
  "the in-order concatenation of its operations, prefixed by their total length on the wire.",
  ["inputs"], "every operation and every data length",
  "The tests push a few short strings; prefix boundaries (75/76, 255/256, 65535/65536) and the minimal forms are barely sampled.",
  [M + "script.rs"], [("operation serialiser", M + "script.rs"), ("script concatenation", M + "script.rs")])
P("C06", "Both script parsers follow the consensus grammar, and agree",
  "Each of the two ways of parsing a script reads, at every position, exactly the operation the consensus grammar prescribes for the bytes there and "
  "continues right behind it, until nothing remains.  Truncated pushes are errors, no input makes parsing panic, and both parsers yield the same operations.",
  ["inputs"], "every byte string",
  "Tests parse a few well-formed scripts with one of the two parsers; truncation points, the PUSHDATA forms and unknown opcodes are not covered.",
  [M + "script.rs"], [("deserialisers of operations", M + "script.rs")])
P("C07", "Re-serialising a parsed script reproduces its bytes",
  "Serialising the operations parsed from a script gives back exactly the bytes that were parsed, whichever parser read them.",
  ["inputs"], "every byte string that parses as a script",
  "Round-trip tests use a few scripts; non-minimal and boundary pushes are not among them.",
  [M + "script.rs"], [("parser and serialiser of operations", M + "script.rs")])
P("C08", "Signature preimages are exactly the replay-protected (BIP143) ones",
  "For every transaction, there is one signature preimage per input and requested flag set, in order, and each has the fields the replay-protected "
  "signature hash prescribes for its flags: the outpoint, value, sequence and lock script of that input, the version and lock time, and the hashes of all "
  "outpoints, sequences and outputs, zeroed or restricted to the matching output exactly where ANYONECANPAY, NONE and SINGLE say so.",
  ["inputs"], "every transaction, input index, output count and flag combination",
  "The tests sign a few sample inputs with the default flags; SINGLE with a missing output, NONE and ANYONECANPAY combinations are hardly sampled.",
  [M + "tx_preimage.rs", M + "tx.rs"],
  [("construction of preimages", M + "tx_preimage.rs"), ("accessors of plain transactions", M + "tx.rs")])
P("C09", "Digests are the named hash compositions; text forms reverse bytes both ways",
  "Each digest type is the hash composition it is named after (hash160 = ripemd160 of sha256, sha256d = sha256 twice) of exactly the given message.  A digest or "
  "fixed-length byte array is built only from exactly as many bytes as it has, keeping them in order; its little-endian hex, display and serde forms reverse the "
  "bytes in both directions and the big-endian form in neither, and no input makes reading them panic.",
  ["inputs"], "every message, byte string and text",
  "The tests hash a few known vectors; wrong lengths, the reading direction of each text form and the binary serde form are not sampled.",
  [M + "hash.rs", B + "byte_array.rs"],
  [("digest functions", M + "hash.rs"), ("fixed-length byte arrays", B + "byte_array.rs")])
P("C10", "Byte arrays keep their bytes, and their recorded history reproduces them",
  "Making, naming, joining, splitting and hashing byte arrays treats their bytes exactly as specified, and the parts recorded for a joined array, also after further "
  "joins and splits, always concatenate to its bytes; a part cut through a computed value is marked as such.  Splitting beyond the end is an error, equality and hashing "
  "depend on the bytes alone, and an integer is encoded into n bytes (NUM2BIN) exactly if it fits, as sign and magnitude.  None of this panics.",
  ["inputs", "histories"], "every byte string, nesting of joined parts, split position, and sequence of operations",
  "Tests join and split a few arrays at a few positions; deep nestings and boundary positions are not sampled.",
  [B + "byte_array.rs"], [("joining and splitting", B + "byte_array.rs"), ("integers to bytes", B + "byte_array.rs")])
P("C12", "Cash addresses are encoded and decoded exactly as specified",
  "The text of an address is the prefix, a colon, and the specified base-32 letters of version, 20-byte hash and 40-bit checksum, for every prefix, type and hash.  "
  "A text decodes, ignoring case and with the default prefix if it has none, exactly if its letters are in the alphabet, its checksum, padding, length and version "
  "are right, and then to exactly the encoded type, hash and prefix; no text makes decoding panic.  Keys and scripts become addresses by their hash160.",
  ["inputs"], "every hash, type, prefix and every text",
  "The tests encode and decode a few fixed addresses; single-letter errors, wrong lengths, bad padding, other versions and missing prefixes are hardly sampled.",
  [M + "address.rs"],
  [("checksum polynomial", M + "address.rs"), ("regrouping of bits", M + "address.rs"), ("decoding", M + "address.rs")],
  note=NOTE + "  Error-detection strength of the code itself is mathematics about the specified polynomial, not about this code.")
P("C13", "Standard scripts are recognised and built exactly; keys are 33 bytes",
  "Script recognition yields a P2PKH or P2SH address, a P2PK key or OP_RETURN data exactly for scripts of exactly that form, with the hash or data the script holds, "
  "and unknown otherwise; a P2PKH spend is recognised exactly by signature, valid flag byte and 33-byte key.  The lock script of an address and the P2PKH unlocking "
  "script are exactly the standard operations with exactly its hash, key, signature and flag byte.  An operation pushes the number or bytes its script meaning says, and "
  "public keys are accepted with exactly 33 bytes.  None of this panics.",
  ["inputs"], "every script, address, key and signature",
  "Tests recognise one script of each form; near misses (other lengths, other opcodes, extra operations) and error paths are hardly sampled.",
  [M + "destination.rs", M + "scripts.rs", M + "pubkey.rs", B + "op.rs"],
  [("recognition", M + "destination.rs"), ("standard scripts", M + "scripts.rs"), ("views of operations", B + "op.rs")])
P("C11", "Script integers stay in range; their arithmetic is exact or an error",
  "A script integer is always within -(2^31-1)..2^31-1, however it is made; converting a number outside is an error.  Each operator on script integers, fallible results and "
  "native numbers yields exactly the 32-bit result when that is in range and otherwise the error that applies first, left to right; errors carry through.  Results compare "
  "and order by value, and never with an error.  None of this panics.",
  ["inputs"], "every pair of operands, of every operand type",
  "Tests add and multiply a few numbers; the extreme values, the mixed operand types and the precedence of errors are not sampled.",
  [B + "integer.rs"], [("operators of script integers", B + "integer.rs")])
P("C14", "Built transactions: outputs never exceed inputs, leftovers bounded, fee paid",
  "A build fails, naming the missing amount, exactly if the known outputs ask for more than the inputs hold.  Otherwise the outputs are the added ones in order of addition, and "
  "leftover outputs, visited by ascending precedence, get min(upper bound, remaining - fee) where the fee is rate x estimated size / 1000, or are left out if that is not above "
  "their lower bound or the fee cannot be paid; so outputs never exceed inputs and what remains pays the fee of the last one given.  Builders made and changed in any way hold "
  "exactly what was added, the estimate is the length of the transaction with placeholder signatures, and an exact build refuses leftovers.",
  ["inputs", "histories"], "every set of inputs, outputs, bounds, precedences and fee rates whose sums and fees fit in 64 bits",
  "Tests build with one or two leftovers; bounds that meet amounts exactly, several precedences, and fees above the remainder are not sampled.",
  [M + "tx_builder.rs"], [("distribution of leftovers", M + "tx_builder.rs"), ("size estimate", M + "tx_builder.rs"), ("adding outputs", M + "tx_builder.rs")],
  note=NOTE + "  That the estimate is at least the size of the signed transaction depends on the signatory's placeholders and is not claimed.")
P("C15", "Signing fills one input once, in place; finishing keeps what was built",
  "Signing an input, by reference, index or signatory, fails if it is signed already and otherwise puts exactly there an input with the outpoint, sequence, value, flags and "
  "locking script it was added with, and the script its signatory builds from its own preimages, the estimated size, the signatures, its locking script and the "
  "outputs, followed, if the signatory is P2SH, by a push of the serialised locking script; nothing else changes.  Size estimates use the same function with "
  "placeholder signatures.  Finishing keeps version, lock time, outputs and the order of inputs; a builder made from a transaction has all of its parts.",
  ["inputs", "histories"], "every signatory, script, builder, and order of signing",
  "Tests sign one or two inputs in order; repeated signing, other orders, partial transactions and inputs without locking script are not sampled.",
  [M + "tx_builder.rs", M + "scripts.rs"], [("signing", M + "tx_builder.rs"), ("script functions of inputs", M + "tx_builder.rs"), ("finishing", M + "tx_builder.rs")])
P("C16", "Opcodes have the bytes, names and status of the script language",
  "Every opcode has exactly its consensus byte, and no others exist but the marker of the first unassigned byte.  Its displayed and debugged name and its text form are its consensus "
  "name; a number becomes an opcode exactly if it is the byte of one, and then that one.  Exactly the disabled opcodes are reported as disabled, and exactly those that leave their "
  "input as retaining it.  The map from names to opcodes holds every opcode that is no push prefix under its own name, and none under another's.",
  ["inputs"], "every opcode and every byte",
  "Tests touch a handful of the 116 opcodes; swapped bytes, a name that maps to a neighbour or a wrong range bound stay unnoticed.",
  [B + "opcode.rs"], [("opcode table", B + "opcode.rs"), ("map of names", B + "opcode.rs")])
P("C17", "Opcodes have the stack effect of the script language",
  "For every opcode a script may use, the declared number and types of the items it takes and leaves, the change in stack height (main and alternative stack) and which "
  "outputs are inputs, in which order, are those of the script language, and each output is declared left, observed, moved, changed or new accordingly.  The function a use of the opcode is type checked with takes items of these types and gives items of "
  "these types, and each item the opcode passes through is the very input the script language says.",
  ["inputs"], "every opcode, and every item on the stack",
  "Tests compile scripts with a few opcodes; swapped outputs of equal type, or a wrong delta of a rarely used opcode, are not sampled.",
  [B + "opcode.rs"], [("declared behaviour", B + "opcode.rs"), ("opcode functions", B + "opcode.rs")])
P("C18", "The script macro tracks the stacks of every variant exactly",
  "Compiling a script, the macro keeps a main and an alternative stack for every variant.  An operation changes exactly the stacks of the variants whose condition holds under the branch "
  "conditions in force: a push adds one item on top, an opcode takes the items the script language says, checks them against the names given for them, and leaves its outputs in their order, "
  "each passed-through item under its own name; picking, rolling and finding reach exactly the depth asked for.  An operation is refused if an affected variant lacks the item, or two "
  "affected variants disagree about its name or depth, or names are missing, too many or wrong.  After a conditional, a variant that takes one branch has the stacks of that branch.",
  ["inputs", "histories"], "every script, variant, condition and order of statements",
  "Tests compile a few scripts; rarely used opcodes, several variants, `__` placeholders and names that mismatch are hardly sampled.",
  ["bitcoin-cash-script-macro/src/state.rs", "bitcoin-cash-script-macro/src/generate.rs", "bitcoin-cash-script-macro/src/ir.rs"],
  [("stacks of the variants", "bitcoin-cash-script-macro/src/state.rs"), ("statements", "bitcoin-cash-script-macro/src/generate.rs"), ("conditions", "bitcoin-cash-script-macro/src/ir.rs")],
  note=NOTE + "  Nothing is claimed of a variant whose condition does not determine the branch, nor of the depth OP_PICK and OP_ROLL reach when it is not known to the macro.")
SM = "bitcoin-cash-script-macro/src/"
P("C19", "The script macro emits the operations as written, in order",
  "Every statement of a script becomes what it says: one operation, its own, of opcode or pushed value, or none for a cast; anything else is refused.  OP_IF/OP_NOTIF, OP_ELSE and OP_ENDIF "
  "are grouped into branches exactly as they nest, and refused if they do not.  The compiled script pushes, in source order, exactly these operations, with the names of the items each "
  "leaves, source line and position; each is type checked on the items it takes, bound to identifiers given out once.  The inputs are declared, bound and pushed in their order, for each variant "
  "exactly those it has, and the stacks start from them.",
  ["inputs"], "every statement; sequences of up to six (thorough: eight) statements for nesting; branches and scripts of a few statements, inputs and variants",
  "Tests compile a few scripts; a dropped, duplicated or reordered operation in a rarely used form of statement or branch, or a swapped argument, is not sampled.",
  [SM + "parse.rs", SM + "generate.rs", SM + "state.rs", SM + "ir.rs"],
  [("statements as parsed", SM + "parse.rs"), ("nesting of branches", SM + "parse.rs"), ("emitted operations", SM + "generate.rs"), ("inputs and variants", SM + "generate.rs")],
  note=NOTE + "  Generated tokens that are neither the specified ones nor a rearrangement of them are reported as undecided.")
P("C20", "SLP outputs are laid out as the token protocol prescribes",
  "The output for a token genesis or a send has value 0 and a script of OP_RETURN followed by pushes, none in the short form of small numbers, of exactly: \"SLP\\0\"; the token type byte (1, 0x41 or "
  "0x81); the transaction type in capitals; then for a genesis ticker, name, document URL and hash, decimals (one byte), mint baton output (one byte, or nothing without one) and quantity, and for a "
  "send the token id in display order and every amount in order; quantities are eight bytes, big end first.  Token ids keep their bytes both ways and must be 32 bytes, and unwrapping an SLP "
  "transaction keeps version, inputs, outputs and lock time.",
  ["inputs"], "every token type, text, amount, number of amounts and token id",
  "No test of the workspace builds an SLP output.",
  ["bitcoin-cash-slp/src/lib.rs"], [("genesis and send outputs", "bitcoin-cash-slp/src/lib.rs"), ("token ids", "bitcoin-cash-slp/src/lib.rs")])
P("C21", "A transaction survives its JSON form",
  "Writing an unhashed transaction as JSON and reading it back yields an equal transaction: version, lock time, every input and output in order with its values, sequence, scripts, lock script, "
  "signature hash flags, every operation with its source position, source code and item names, and every byte array with its bytes, name, function and preimages.  Reading JSON whose "
  "references lie outside its tables, or whose byte arrays refer to themselves or later ones, ends with an error, never a panic or endless recursion.",
  ["inputs"], "every unhashed transaction; every JSON value of the right shape",
  "The tests round-trip two transactions; rare operations, unnamed items, shared strings and data, optional fields and inconsistent documents are not sampled.",
  ["bitcoin-cash/src/serialize_json.rs", B + "byte_array.rs"],
  [("writer", "bitcoin-cash/src/serialize_json.rs: from_tx, from_tagged_op, insert_*"), ("reader", "bitcoin-cash/src/serialize_json.rs: make_tx, to_tagged_op, get_*"), ("serde forms", "bitcoin-cash/src/serialize_json.rs: derived and hand-written impls")])
P("C22", "derive(BitcoinCode) codes each unskipped field once, in declaration order",
  "The implementation derived for a struct with named fields writes, in the order of declaration, every field not marked #[bitcoin_code(skip)] exactly once and under its own name, and reads the "
  "same fields in the same order each as its own type from what the one before left; skipped fields get their default and neither write nor read anything.  Only bitcoin_code(skip) marks a field, "
  "whichever other attributes surround it; the code refers to the crate named with bitcoin_code(crate = \"...\"), else bitcoin_cash; other shapes of data and unknown attributes are an error.",
  ["inputs"], "every struct of up to five fields (and every number of skips), field names, types and attributes",
  "Tests derive for a few structs; other attributes, several attributes on a field, and the order of skipped fields are not sampled.",
  ["bitcoin-cash-code/src/lib.rs"], [("generated implementation", "bitcoin-cash-code/src/lib.rs: generate"), ("entry", "bitcoin-cash-code/src/lib.rs: serialize_macro")])
P("C23", "Script numbers and their bytes correspond, minimally, both ways",
  "The bytes of a script number are its magnitude little end first with the sign in the top bit of the last byte, in the fewest bytes (none for 0; one more when the top bit is taken).  Reading bytes "
  "gives back the number they stand for, leading zeros and a lone sign byte included, and an error when the magnitude does not fit 31 bits; no array makes it overflow or panic.  True is the byte 1, "
  "false no bytes.",
  ["inputs"], "every number but the lowest 32-bit one; every array of up to five bytes (longer ones are read by the same loop)",
  "The tests sample a handful of numbers; the boundaries of each byte length and both signs, and non-minimal or overlong arrays, are not all sampled.",
  [B + "encoding_utils.rs"], [("writer", B + "encoding_utils.rs: encode_int, encode_minimally"), ("reader", B + "encoding_utils.rs: vec_to_int, try_shl")])
P("C24", "Values reach scripts unchanged; operations are equal by kind and content",
  "Every value that can be put into a script (numbers, booleans, byte strings, digests, keys, preimages) becomes stack data and a push of exactly its number, truth value or bytes, in the shortest form, "
  "and its declared kind is that of the data (the exact length where it is fixed, else none); a number that is no script number never becomes data.  Operations convert to stack items and patterns of the "
  "same kind and content, wrapping or naming operations, digests and scripts changes nothing but the name, scripts keep their operations in order, and two operations are equal exactly when they are of the "
  "same kind with the same content.",
  ["inputs"], "every value of every such type; every pair of operations (opcodes: 300 pairs)",
  "Tests build a few scripts; most types, kinds and pairs of operations are never compared.",
  [B + "data_type.rs", B + "op.rs", M + "tagged_op.rs", M + "ops.rs", M + "script.rs", M + "hash.rs", M + "pubkey.rs"],
  [("data of values", B + "data_type.rs, " + M + "hash.rs, pubkey.rs, tx_preimage.rs: impl BitcoinDataType"), ("operations", B + "op.rs: conversions, PartialEq"), ("wrappers", M + "tagged_op.rs, ops.rs, script.rs")])
P("C25", "Relative lock times, limits and default values are those of the protocol",
  "The sequence number of a relative lock time is the number of blocks, or the number of 512-second units with the type flag (bit 22), for every 16-bit number; the final sequence is 0xffffffff, the "
  "longest signature with its flag byte 72 bytes, the dust amount 546, the default fee rate 1000 per 1000 bytes, script numbers reach from -(2^31-1) to 2^31-1.  The default transaction has version 1, no "
  "inputs or outputs and lock time 0; default digests, keys and outpoints are zero, default scripts and byte strings empty.",
  ["inputs"], "all 65536 numbers of each kind of lock time; each constant and default",
  "No test looks at relative lock times or defaults.",
  [M + "sequence.rs", M + "tx.rs"], [("lock times", M + "sequence.rs: CsvTimedelta::sequence"), ("defaults", M + "tx.rs, hash.rs, pubkey.rs, script.rs: Default"), ("limits", M + "tx.rs, tx_builder.rs, " + B + "integer.rs: constants")])
P("C26", "Signature back ends use exactly the given key, message and signature",
  "With either back end, signing yields the DER form of the curve library's signature with low S of exactly the given message under exactly the given key; verifying answers true exactly when the library "
  "finds the given signature (strict DER) valid for the given message and key, false or an error otherwise, and never true for a message, signature or key that cannot be read; deriving yields the compressed "
  "public key of the given secret key; normalising yields the same signature with low S.  Keys, messages and signatures that cannot be read are errors, never panics.",
  ["inputs"], "every key, message and signature, relative to the functions of the curve libraries",
  "The Rust back end is not built by the tests at all, and the C one is used with few keys and no malformed input.",
  ["bitcoin-cash-ecc/src/c_ecc.rs", "bitcoin-cash-ecc/src/rust_ecc.rs"], [("C back end", "bitcoin-cash-ecc/src/c_ecc.rs: impl ECC"), ("Rust back end", "bitcoin-cash-ecc/src/rust_ecc.rs: impl ECC")])
P("C27", "Scripts and operations have one text form each",
  "A script is written as the hex (in binary formats, the bytes) of its wire encoding and read back by decoding exactly that, an error when the text is no hex, the bytes are no script or go on after it; "
  "an operation is shown as the name of its opcode, the decimal number, OP_TRUE or OP_FALSE, or 0x and the hex of its bytes.",
  ["inputs"], "every script and operation; every text or byte string read",
  "Tests serialise a few scripts as part of transactions and never read malformed ones.",
  [M + "script.rs", B + "op.rs"], [("serde forms", M + "script.rs: Serialize, Deserialize"), ("text", B + "op.rs: Display")])
P("C28", "Macro attributes become the variants, conditions and inputs they say",
  "The first attribute of the script macro names the input struct; of the others, in any order, `crate` and `debug` set the crate and debugging (on unless given) and every other one is a variant, in source "
  "order, under its name with its condition: alternatives separated by `||`, each a conjunction separated by `&&` of words, negated exactly when they start with `!`.  The first parameter's type is the type of the constructor "
  "parameters; the others are the inputs in their order, each with its own name and type, the variants its `variant` attribute lists (all without one) and its other attributes kept.  Anything of another form is refused.",
  ["inputs"], "up to three (thorough: four) further attributes, three attributes of an input and seven (thorough: fifteen) parameters, each of any content; every condition",
  "Tests compile a few scripts; attribute order, alternatives in conditions, negations and several variant attributes are not sampled.",
  [SM + "parse.rs"], [("attributes and conditions", SM + "parse.rs: parse_attrs, parse_predicate"), ("parameters", SM + "parse.rs: parse_script_inputs, parse_script_input"), ("assembly", SM + "parse.rs: parse_script")])
