#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and meta.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = "src/transaction/"
TY = "src/transaction/types/"
UNIT = "The tests sample randomly generated or hand-written values; "

def p(id, title, statement, over, text, why, files, mech, bounds="", assumptions=(), note="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, assumptions=list(assumptions), note=note, state=state))
P = []

p("P01", "Inputs, outputs and leaf types survive encoding, in the specified layout",
  "Every input, output, UTXO id, transaction pointer, storage slot and witness encodes to the big-endian, word-aligned layout of the specification, and decoding that encoding, also with arbitrary bytes behind it, yields the same value and consumes exactly the encoding.",
  ["inputs"], "every value of every field, all kinds, byte strings of every length within the bound (lengths 0..=17 and selected longer ones)",
  UNIT + "the layout and the round trip have to hold for every field value, length and padding.",
  [TY+"input.rs", TY+"output.rs", TY+"utxo_id.rs", "src/tx_pointer.rs", TY+"storage.rs", TY+"witness.rs"],
  [("io::Read / io::Write of each type", "src/transaction/types/*.rs"), ("TryFrom<Word> for the representations", TY+"input/repr.rs")],
  "byte strings of up to 17 bytes (quick), up to 65 (thorough) in every length class modulo the word, selected lengths up to 300; all field values symbolic")

p("P02", "Transactions survive encoding, in the specified layout",
  "Encoding a Script, Create or Mint transaction and decoding the result yields the same transaction, for any counts and order of inputs, outputs, witnesses and storage slots, and the bytes are exactly the specified layout: discriminant, fixed fields, lengths, receipts root or salt, script, script data, slots, inputs, outputs, witnesses.",
  ["inputs"], "every field value; any kinds and counts of elements within the bound",
  UNIT + "field order, counts and element boundaries must be right for every combination.",
  [TY+"script.rs", TY+"create.rs", TY+"mint.rs", T+"txio.rs", "src/transaction.rs"],
  [("io::Read / io::Write", TY+"script.rs"), ("Transaction::try_from_bytes", T+"txio.rs")],
  "up to 3 inputs, 3 outputs, 3 witnesses, 3 slots of every kind with symbolic fields; counts around 255/256; short byte strings in every length class")

p("P03", "Receipts survive encoding, in the specified layout",
  "Every receipt encodes to the specified layout and decodes to the same receipt, the announced data included; a receipt encoding decodes the same with bytes behind it. The contract id that a panic receipt may carry is not part of the encoding.",
  ["inputs"], "every receipt kind and field value, data of every length within the bound",
  UNIT + "every kind has its own encoder and decoder with hand-written offsets.",
  ["src/receipt.rs", "src/receipt/receipt_std.rs", "src/receipt/receipt_repr.rs", "src/receipt/script_result.rs"],
  [("io::Read / io::Write for Receipt", "src/receipt/receipt_std.rs")],
  "data of up to 17 bytes (quick) / 65 (thorough)")

p("P04", "Announced sizes are exact and encodings depend on the value only",
  "The serialized size of any input, output, witness, leaf, receipt or transaction is the number of bytes its encoding has, a buffer that is too short is refused without a panic, and a large enough buffer receives exactly the same bytes whatever it contained before, with the bytes behind untouched.",
  ["inputs"], "every value as for P01-P03, every smaller buffer, every previous content of the buffer",
  "No test encodes into a dirty or undersized buffer.",
  ["src/receipt/receipt_std.rs", TY+"input.rs", TY+"output.rs", TY+"script.rs", TY+"create.rs", TY+"mint.rs"],
  [("SizedBytes::serialized_size", "src/transaction/types/*.rs"), ("buffer length checks in io::Read", "src/transaction/types/*.rs")],
  "as P01-P03; prior buffer content fully symbolic")

p("P05", "Decoding arbitrary bytes is safe and yields re-encodable values",
  "Decoding any byte string as an input, output, leaf, receipt or transaction either fails with an error or yields a value; it never panics, never reads outside the string, never consumes more than was given and never allocates more than is proportional to the string, whatever lengths and counts the bytes announce. A value obtained that way encodes to bytes that decode to the same value again.",
  ["inputs"], "every byte string of the lengths within the bound; announced lengths and counts are arbitrary 64-bit words",
  "The tests decode their own encodings and truncations of them; announced lengths close to the word size and absurd counts are never tried.",
  [TY+"script.rs", TY+"create.rs", TY+"mint.rs", TY+"input.rs", TY+"output.rs", TY+"witness.rs", "src/receipt/receipt_std.rs", "src/restore.rs"],
  [("length checks before unchecked reads", "src/transaction/types/*.rs"), ("restore_items / restore_bytes", "src/restore.rs")],
  "wholly arbitrary buffers up to 168 bytes (inputs), 90 (outputs), 240 (receipts); arbitrary announced lengths with tails of up to 34 bytes; up to 2 (quick) or 3 (thorough) elements with arbitrary counts; one step may allocate 64 KiB")

p("P06", "Field offsets point at the fields",
  "For every transaction, each offset it reports - of script, script data, receipts root, salt, slots, inputs, outputs, witnesses, outputs root, pointer, predicates and their lengths, input and output members - is where the encoding holds exactly that field, for existing and absent elements alike, with or without precomputed metadata.",
  ["inputs"], "every transaction within the bound, every index",
  UNIT + "an offset is wrong only for particular combinations of lengths, kinds and positions.",
  ["src/transaction.rs", TY+"script.rs", TY+"create.rs", TY+"mint.rs", TY+"input.rs", TY+"output.rs", T+"metadata.rs"],
  [("field::*::*_offset", TY+"script.rs"), ("CommonMetadata::compute", T+"metadata.rs")],
  "up to 3 elements of every kind and byte strings in every length class modulo the word, all fields symbolic; also 255 to 258 inputs, outputs, witnesses or slots; byte strings of 255 to 65537 bytes, seen at the ends, in the middle and around index 256")

p("P07", "The transaction id commits to exactly the non-malleable content",
  "The id of a Script or Create is the SHA-256 of its encoding without witnesses and with the malleable parts cleared: receipts root, coin pointers, UTXO id, roots and pointer of contract inputs, roots of contract outputs, recipient and amount of message outputs, change amounts, and owner, amount and asset of variable outputs; the id of a Mint is the hash of its whole encoding. Everything else counts, predicates and data included, and computing the id does not change the transaction.",
  ["inputs"], "every transaction within the bound, every field value",
  "The tests flip a few fields of a few transactions; a commitment has to cover every field of every kind.",
  [T+"id.rs", TY+"input.rs", TY+"output.rs", TY+"script.rs", TY+"create.rs", TY+"mint.rs"],
  [("UniqueIdentifier::id", TY+"script.rs"), ("prepare_sign", TY+"input.rs")],
  "SHA-256 compression is an injective uninterpreted function; up to 2 (quick) / 3 elements of every kind with all fields symbolic; also 255 to 258 inputs, outputs, witnesses or slots; byte strings of 255 to 65537 bytes")

p("P08", "Precomputed metadata is transparent",
  "After precomputing, a transaction reports the same id, offsets, sizes and encoding as without, compares equal to and hashes like its uncached self, and precomputing again after a change brings everything up to date.",
  ["inputs", "histories"], "every transaction within the bound; precompute before or after any change of its fields",
  "The tests compare a few cached values on a few random transactions.",
  [T+"metadata.rs", TY+"script.rs", TY+"create.rs", TY+"mint.rs"],
  [("Cacheable::precompute", TY+"script.rs"), ("CommonMetadata", T+"metadata.rs")],
  "up to 3 elements of every kind with all fields symbolic; also 255 to 258 inputs, outputs, witnesses or slots; byte strings of 255 to 65537 bytes")

p("P09", "Fees are exact, overflow-safe and consistently rounded",
  "With a positive price factor, the fee of a transaction is ceil((gas per byte x metered bytes + gas limit) x gas price / factor), its bytes part is the same without the gas limit and never exceeds the total, and metered bytes are those in front of the witnesses; if the gas, or gas times price, does not fit 64 bits no fee is given. A refund is floor(remaining gas x price / factor), and a transaction's fee is that of its own price, limit and size.",
  ["inputs"], "all 64-bit parameters, prices, limits, sizes and amounts of used gas",
  "The tests check a handful of numbers; rounding and overflow are wrong only for particular ones.",
  [T+"fee.rs", T+"consensus_parameters.rs", TY+"script.rs", TY+"create.rs"],
  [("TransactionFee::checked_from_values / gas_refund_value", T+"fee.rs"), ("Chargeable", T+"fee.rs")],
  "all 64-bit values of every parameter, the factor included (decided in integer arithmetic); in the transaction-level entry transactions up to the P02 bounds")

p("P10", "Free balances conserve value",
  "Checking a transaction yields, for each asset, the sum of its coin inputs (messages counting as the base asset) minus the coin outputs of that asset and, for the base asset, minus the whole fee; it is refused if inputs or fee overflow, if the base asset cannot cover the fee, if any asset cannot cover its outputs, or if a coin output spends an asset no input provides. The refusal names a rule that is broken, with the asset and amounts concerned.",
  ["inputs"], "all amounts, assets and fee parameters; any mix of inputs and outputs within the bound",
  "The tests use a few fixed amounts with distinct random assets.",
  ["src/checked_transaction.rs", T+"fee.rs"],
  [("initial_free_balances", "src/checked_transaction.rs")],
  "up to 3 inputs and 2 outputs of every kind, up to 3 different assets; also 255 inputs and 254 or 255 outputs of 3 assets, the last amounts symbolic")

p("P11", "Script transactions are accepted exactly when valid",
  "A Script is accepted exactly if it obeys the rules: gas limit, maturity, element counts, script and data lengths within limits; no output creates a contract; inputs are well-formed (predicate present and within limits, witness index in range, message data within limits, contract input named by exactly one contract output), no coin UTXO, contract or message is spent twice, a contract output names a contract input, and there is at most one change output per asset that comes in, change and coin outputs being of such assets only. Each refusal names a rule and an element that is broken.",
  ["inputs"], "all field values, limits and heights; any mix of elements within the bound",
  "The tests build one transaction per rule; interactions of rules, boundaries and positions are not covered.",
  [T+"checkable.rs", TY+"script.rs", T+"checkable/error.rs"],
  [("check_common_part", T+"checkable.rs"), ("Checkable for Script", TY+"script.rs")],
  "up to 3 inputs, 3 outputs, 2 witnesses with symbolic fields and limits; also 254 to 258 elements against symbolic limits, one symbolic identifier among 257 others, indices around 255, byte strings of 255 to 131072 bytes against symbolic limits")

p("P12", "Create and Mint transactions are accepted exactly when valid",
  "A Create is accepted exactly if it obeys the common rules and: its bytecode witness exists and is within the size limit, slots are within the limit and in ascending order, it has no contract input, contract output or variable output, change is in the base asset, and there is at most one created contract; a Mint exactly if its pointer has the current height, its outputs are coins of pairwise different assets and within the count limit. Each refusal names a rule and an element that is broken.",
  ["inputs"], "all field values, limits and heights; any mix of elements within the bound",
  "The tests build one transaction per rule.",
  [TY+"create.rs", TY+"mint.rs", T+"checkable.rs"],
  [("Checkable for Create", TY+"create.rs"), ("Checkable for Mint", TY+"mint.rs")],
  "up to 3 slots, 2 inputs, 3 outputs, 2 witnesses with symbolic fields and limits; also 254 to 258 elements against symbolic limits, one symbolic identifier, asset or slot key among 256 to 300 others, bytecode and other byte strings of 255 to 131072 bytes")

p("P13", "Signatures and predicate owners are enforced for every input",
  "A transaction passes the signature check exactly if for every signed coin and message input the witness it names holds a signature from which, over the transaction id, the owner's or recipient's public key is recovered, and every predicate input's owner is the root of its predicate; a refusal names an offending input and what is wrong with it. A witness that is no signature never passes and never panics.",
  ["inputs"], "all witnesses, owners, predicates and ids; any mix of inputs within the bound",
  "The tests sign with a few random keys and corrupt them in a few ways.",
  [T+"checkable.rs", TY+"input.rs", TY+"script.rs", TY+"create.rs"],
  [("Input::check_signature", T+"checkable.rs"), ("check_predicate_owner", TY+"input.rs")],
  "up to 2 inputs; also one input among 258 that may not be authorised, and 255 to 257 witnesses; signature recovery is an uninterpreted function of signature and message",
  ["secp256k1 is replaced by uninterpreted functions: what a key signs recovers to its public key"])

p("P14", "A checked transaction keeps what was checked",
  "Checking returns the transaction itself with the flags of exactly the checks that were made: basic checks only, or also signatures; checking signatures later adds that flag or fails, and conversions between the concrete and the general checked forms, in any direction, keep transaction, metadata and flags.",
  ["inputs", "histories"], "every transaction within the bound, every order of checks and conversions",
  "The tests walk through one order on one transaction.",
  ["src/checked_transaction.rs"],
  [("Checked / CheckedTransaction / CheckedMetadata", "src/checked_transaction.rs")],
  "up to 2 inputs of every kind, 1 output; amounts, gas limit, maturity and height symbolic; price factor 1, no gas per byte",
  ["secp256k1 is replaced by uninterpreted functions: what a key signs recovers to its public key"])

p("P15", "Signing inputs is sound and touches nothing else",
  "Signing with a key puts a valid signature over the transaction id into the witness of every signed input the key owns and changes no other witness and no other part of the transaction; inputs of other owners and predicate inputs are left alone.",
  ["inputs"], "all owners, witness indices (in range or not) and witnesses; any mix of inputs within the bound",
  "The tests sign a few random transactions.",
  [T+"id.rs"],
  [("Signable::sign_inputs", T+"id.rs")],
  "up to 2 inputs and 2 (quick) / 3 (thorough) witnesses; also 255 to 258 inputs with 255 to 257 witnesses; signing and recovery are uninterpreted functions",
  ["secp256k1 is replaced by uninterpreted functions: what a key signs recovers to its public key"])

p("P16", "Preparing for script or predicate execution clears exactly the specified fields",
  "Preparing a transaction for script execution zeroes recipient and amount of message outputs, the amount of change outputs and owner, amount and asset of variable outputs, and nothing else; preparing it for predicates also zeroes the roots of contract outputs, the pointers of coin and contract inputs and UTXO id and roots of contract inputs, and nothing else. Preparing twice is preparing once, precomputed metadata stays, and the id does not change.",
  ["inputs"], "every transaction within the bound, every field value, either preparation in any order",
  "The tests look at the fields that are cleared in a few transactions, never at those that must stay.",
  ["src/transaction.rs", TY+"input.rs", TY+"output.rs"],
  [("Executable::prepare_init_script / prepare_init_predicate", "src/transaction.rs"), ("prepare_init_* / prepare_sign of the elements", TY+"output.rs")],
  "up to 2 inputs and 2 outputs of every kind with symbolic fields, and mixed transactions with witnesses, scripts and slots; also 255 to 257 inputs or outputs")

p("P17", "Text formats round trip and never panic",
  "Formatting a UTXO id or transaction pointer in lower or upper case hexadecimal gives the specified digits, and parsing them yields the same value; parsing any string yields a value or an error, never a panic; a text of one or two digits is an output index of the zero transaction, a text that ends early or has characters that are no digits is refused. Nothing is promised for signs, repeated 0x prefixes and texts longer than an id.",
  ["inputs"], "all values; all strings of the lengths within the bound",
  "The tests parse a few well-formed strings.",
  [TY+"utxo_id.rs", "src/tx_pointer.rs"],
  [("FromStr / LowerHex / UpperHex", TY+"utxo_id.rs")],
  "text of all pointers; UTXO ids with 2 adjacent symbolic bytes at any position; arbitrary strings of up to 4 (quick) / 5 bytes; full-length texts, also one digit longer or shorter, with 3 (pointer) or 2 (id) adjacent arbitrary bytes (one more in thorough) at any position")

p("P18", "Discriminants and result codes map one to one",
  "Each kind of transaction, input, output, receipt and script result has its own specified code, decoding a code yields exactly the kind that has it, and any other word is refused (script results: kept as a generic failure).",
  ["inputs"], "all 64-bit words",
  "The tests never try words outside the valid ones.",
  [T+"repr.rs", TY+"input/repr.rs", TY+"output/repr.rs", "src/receipt/receipt_repr.rs", "src/receipt/script_result.rs"],
  [("TryFrom<Word>", T+"repr.rs")], "none: all 64-bit words")

p("P19", "Constructors and accessors agree",
  "What a constructor was given is what the accessors of the resulting input, output, receipt or transaction return, absent where the kind has no such field; setters through the mutable accessors change that field only.",
  ["inputs"], "all kinds and field values",
  "Most accessors are untested or tested with one value.",
  [TY+"input.rs", TY+"output.rs", "src/receipt.rs", "src/transaction.rs"],
  [("accessors", TY+"input.rs")], "byte strings of up to 9 bytes, all field values; one element more through each list accessor")

p("P20", "Consensus parameters are independent of each other",
  "Setting one consensus parameter changes that one only, and the offset of a transaction in memory is that of a 32-byte id followed by one word and one word-and-id pair per allowed input.",
  ["inputs", "configurations"], "all parameter values",
  "No test.",
  [T+"consensus_parameters.rs"], [("with_* / tx_offset", T+"consensus_parameters.rs")], "all 64-bit values of every parameter; max_inputs below 2^58 in the offset, so that the sum fits")

p("P21", "Contract ids, code roots and state roots are canonical",
  "The code root of a bytecode is the binary Merkle root of its 8-byte leaves, the state root the sparse Merkle root of its slots and independent of their order, and a contract id the hash of the seed, salt, code root and state root; the same bytecode gives the same root however it is obtained.",
  ["inputs"], "all bytecodes, slots and salts within the bound",
  "The tests pin a few snapshots.",
  ["src/contract.rs", TY+"create.rs", TY+"input.rs"],
  [("Contract::root / id / initial_state_root", "src/contract.rs")], "bytecode of up to 140 bytes (quick) / 520 (thorough), every content, and of 1016 to 1025 bytes with any one leaf; up to 3 (quick) / 4 (thorough) slots with any values and keys out of 7 that share prefixes of different lengths; SHA-256 compression is an injective uninterpreted function",
  ["no digest of the trees is one of the slot keys (fuel-merkle 0.4.1 keeps leaves and nodes in one map)"])

p("P22", "Message ids and nonces commit to their content",
  "A message id is the hash of sender, recipient, nonce, amount and data, a message output's nonce the hash of transaction id and output index, and the receipt and the output made for the same message agree.",
  ["inputs"], "all field values, data within the bound",
  "The tests compute a few ids with the code under test itself.",
  [TY+"input.rs", TY+"output.rs", "src/receipt.rs"],
  [("compute_message_id / message_nonce / message_out_from_tx_output", TY+"input.rs")], "data of every length up to 70 (quick) / 200 (thorough) bytes in the ids, up to 9 / 15 in the receipt; output indexes below 256; SHA-256 compression is an injective uninterpreted function")

p("P23", "The builder builds what it was told",
  "A transaction from the builder has exactly the parts that were added, in order, with every unsigned input followed by an empty witness of its own that it names, unless finishing without signatures, signatures of every key given in the witnesses of all signed inputs that key owns, the outputs prepared for script execution (scripts by default) or predicates if asked for, its metadata precomputed and everything else at its default; the builder is empty afterwards, and finishing with checks is finishing, then checking.",
  ["inputs", "histories"], "all field values; sequences of builder calls within the bound",
  "The tests use the builder but never check it.",
  ["src/builder.rs", "src/transaction.rs", T+"id.rs"],
  [("TransactionBuilder", "src/builder.rs"), ("Executable::add_unsigned_*", "src/transaction.rs")],
  "every sequence of up to 2 (quick) / 3 (thorough) calls, selected ones of 5, before every way to finish; fewer than 256 witnesses",
  ["secp256k1 is replaced by uninterpreted functions: what a key signs recovers to its public key"])

p("P24", "Transaction-level queries reflect the inputs",
  "The asset ids of a transaction's inputs are those of its coins, and the base asset for each message, in order, or each once in the order of first use; the contracts are those of its contract inputs, each once in the order of first use; the predicate owners are valid exactly if each predicate input's owner is the root of its predicate; and adding an unsigned coin or message appends exactly that input, with the right owner and message id, and one empty witness which it names.",
  ["inputs"], "any mix of inputs within the bound, all field values",
  "The tests use these queries on one or two transactions, if at all.",
  ["src/transaction.rs"], [("Executable", "src/transaction.rs")], "up to 4 (quick) / 5 (thorough) inputs with every pattern of equal ids out of three, up to 2 / 3 inputs with any ids; also one id among 24 / 60 others and one predicate owner among 258 inputs; up to 255 witnesses")

p("P25", "Values survive JSON and other serde formats",
  "Serialising any transaction, receipt or parameter set through serde and deserialising it yields the same value.",
  ["inputs"], "all values and formats", "The tests try a few values with a few formats.",
  ["src/transaction.rs", "src/receipt.rs"], [("derived Serialize / Deserialize", "src/*.rs")])

p("P26", "Values are equal exactly when all their fields are",
  "Two inputs, outputs, receipts, leaves or transactions are equal exactly if they are of the same kind and all their fields are equal, and equal values hash alike; precomputed metadata and the contract id a panic receipt may carry do not count. Transaction pointers are ordered by block height, then by index.",
  ["inputs"], "every pair of values within the bound",
  "Collections, mempools and deduplication rely on it; the tests compare values with themselves or with very different ones.",
  [TY+"input.rs", TY+"output.rs", "src/receipt.rs", TY+"script.rs", TY+"create.rs", TY+"mint.rs", "src/tx_pointer.rs"],
  [("PartialEq / Hash / Ord, derived and hand-written", "src/receipt.rs")], "byte strings of up to 2 bytes, all field values, all pairs of kinds of neighbouring codes; transactions with one element of each sort that differ in at most one place")

NA = {
 "P25": "The behaviour lives in derive-generated visitors and third-party formatters (serde_json, bincode) with string formatting and dynamic dispatch over parser state; there is no serialisation code of fuel-tx to encode, and executing a JSON parser symbolically over arbitrary text explodes beyond any useful bound.",
}

CLAIMED = json.load(open(os.path.join(V, "claimed.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in q["state"]], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))) + "\n")
json.dump({q["id"]: dict(bounds=q["bounds"], assumptions=q["assumptions"]) for q in P}, open(os.path.join(V, "meta.json"), "w"), indent=1)
checks = []
for q in P:
    if q["id"] in CLAIMED:
        checks.append(dict(property=q["id"], quick_cmd="./check.py " + q["id"], thorough_cmd="VERIF_TIER=thorough ./check.py " + q["id"],
            technique="symbolic execution of the compiled code (LLVM IR) with SMT (z3)", level="model_checking",
            level_note="Holds for every value within the bounds: " + (q["bounds"] or "all") + ". Trusted: rustc's IR, the executor in /verif/symex (cross-checked by replaying solver models natively), z3, the expected behaviour written in /verif/harness."))
na = [dict(property=q["id"], reason=NA.get(q["id"], "check not built yet")) for q in P if q["id"] not in CLAIMED]
json.dump(dict(version=1, setup_cmd="./check.py setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
