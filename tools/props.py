import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    P.append(d)
p("C01","Hex text parses to exactly the bytes it spells",
 "Parsing 0x-prefixed hex text into any byte-valued type (address, hash, data, bytes, signature, private or public key) accepts exactly the well-formed texts of the right length and then leaves exactly the spelled bytes in the target, whatever the target held before; an odd digit count means an implicit leading zero nibble, digits are case-insensitive, and no input makes it panic. Printing such a value gives lower-case 0x text that parses back to the same value.",
 ["inputs"],"every byte string as input text, every prior content of the target, every value to print",
 "the tests parse a handful of literals into zeroed targets",
 ["hex.go","seth.go","signature.go"],[("hex decoding and printing","hex.go"),("text methods of the byte-valued types","seth.go, signature.go")],
 ["UnmarshalText/FromString/MarshalText/String of Address, Hash, Data, Bytes, Signature, PrivateKey, PublicKey"])
p("C02","Quantities keep their value through text, JSON and binary form",
 "A non-negative integer printed in the library's hex form parses back to the same integer, with no superfluous leading zero digit; parsing accepts hex and decimal forms with their exact value; and parsing into the 64-bit quantity type fails, leaving the target unchanged, exactly when the text is malformed or the value does not fit.",
 ["inputs"],"every integer and every input text",
 "tests sample a few integers; leading-nibble, overflow-boundary and stale-target cases are unbounded",
 ["seth.go","hex.go"],[("Int and Uint64 text/JSON methods","seth.go"),("nibble truncation","hex.go hexstring")],
 ["Int/Uint64 MarshalText, UnmarshalText, UnmarshalJSON, String, MarshalMsg/UnmarshalMsg"])
p("C03","ABI call data has the canonical Solidity layout",
 "Encoding a call produces the first four bytes of the Keccak-256 hash of the signature, then one 32-byte head word per argument in order, then the tails: static arguments appear as their left- or right-aligned word, dynamic arguments as the byte offset of their tail from the start of the head area, and each tail is the element count followed by the elements (byte strings zero-padded to a multiple of 32). Integers are encoded as 256-bit two's complement.",
 ["inputs"],"every signature and every list of arguments, of any number, size and mix of static and dynamic kinds",
 "tests compare a few fixed call encodings; offsets depend on the sum of all previous tails",
 ["send.go"],[("ABIEncode head/tail assembly","send.go"),("EncodeABI methods","send.go")],["ABIEncode, CallOpts.EncodeCall"])
p("C04","Decoding hostile ABI data never panics or reads outside it",
 "Decoding any byte string as ABI return data into any list of supported targets returns, with either an error or values taken from inside that byte string; it never panics, never allocates more than the data can justify, and never reads outside the given bytes.",
 ["inputs"],"every byte string, including truncated, unaligned and adversarial offsets and lengths, with every list of target types",
 "tests decode well-formed data only; the failing inputs are offsets/lengths near or beyond the data size or 2^63",
 ["send.go"],[("offset and length validation","send.go DecodeABI")],["DecodeABI, ABIDecoder.UnmarshalText"])
p("C05","ABI decoding yields the value encoded at each position",
 "When decoding succeeds, target number i holds the value encoded by head word i of the data: big integers the unsigned big-endian value, native Go integers that value reduced to their width, booleans whether it is nonzero, addresses the low 20 bytes, fixed data the 32-byte word, and strings, byte strings and lists exactly the declared number of bytes or elements found at the declared offset, including values that end exactly at the end of the data. Every canonical encoding produced by this library's encoder decodes back to the encoded values.",
 ["inputs"],"every list of targets and every data string that decodes",
 "tests decode one value of most kinds at position zero",
 ["send.go"],[("per-type decoding","send.go DecodeABI")],["DecodeABI"])
p("C06","Transactions are encoded and hashed canonically for signing",
 "The hash offered for signing is the Keccak-256 hash of the canonical RLP list of nonce, gas price, gas limit, recipient, value, input, chain id 1, 0, 0, and a signed transaction is the canonical RLP list of the same six fields, 37 plus the signature's parity, r and s; integers are minimal big-endian and each string and list carries the shortest valid length header, for payloads of every size.",
 ["inputs"],"every transaction and signature, with fields and input data of any length",
 "tests cover a few transactions whose lengths do not reach every header form",
 ["transaction.go"],[("RLP encoder","transaction.go"),("HashToSign","transaction.go")],["Transaction.Encode, HashToSign, SignTransaction"])
p("C07","Only canonical low-s signatures are built or accepted",
 "Building a signature from r, s and parity always yields the equivalent form whose s is at most half the group order, with the parity flipped when s is negated and r, s left-padded to 32 bytes; a signature is reported valid exactly when r is in [1, order-1] and s in [1, order/2], and recovery refuses every signature that is not valid or whose r is not the x-coordinate of a curve point.",
 ["inputs"],"every 65-byte signature and every r, s, parity triple in range",
 "tests sign random keys; out-of-range components and non-curve r values are never sampled",
 ["signature.go"],[("NewSignature normalisation","signature.go"),("component validation","signature.go parts"),("CurvePoint","signature.go")],["NewSignature, Valid, Parts, Recover"])
p("C08","A recovered key is the signer's key",
 "For every private key in range and every hash, the signature produced verifies and recovering the public key from it and the hash gives exactly the signer's public key, hence the signer's address.",
 ["inputs"],"every private key in [1, order-1], every 32-byte hash, and every nonce the signer could derive",
 "tests sample random keys; the low-s parity flip and zero/overflow nonce paths are rare",
 ["signature.go","ec/btcec.go"],[("Sign","signature.go"),("Recover","signature.go")],["PrivateKey.Sign, Signature.Recover, PrivateKey.Address"])
p("C09","Field arithmetic is exact modulo the curve prime",
 "For all operands within the documented magnitude bounds, every field operation (set, bytes, add, negate, multiply, square, small multiple, inverse, normalise, compare) gives the exact result modulo the secp256k1 prime without any intermediate overflow, respects the documented output magnitude, and normalisation gives the unique representative below the prime.",
 ["inputs"],"all 2^256 residues in all admissible unnormalised limb representations",
 "tests use a few hundred vectors; carry and final-subtraction cases occur with probability near 2^-22 or less",
 ["ec/field.go"],[("limb arithmetic","ec/field.go")],["curve operations built on the field"],
 [("limbs","ten 26-bit limbs with spare bits","ec/field.go fieldVal")])
p("C10","Curve operations agree with the secp256k1 group law",
 "Adding, doubling and scalar multiplication (of any point and of the base point, for scalars of any length) return the affine coordinates of the point the elliptic-curve group law defines, including the point at infinity, equal or opposite operands, and operands sharing storage with the result.",
 ["inputs"],"all pairs of curve points in all projective representations, and all scalars",
 "tests check fixed vectors and random scalars; exceptional cases inside the multiplication loop are never hit by chance",
 ["ec/btcec.go","ec/precompute.go","ec/secp256k1.go"],[("Jacobian formulas","ec/btcec.go"),("endomorphism split and NAF","ec/btcec.go"),("precomputed table","ec/secp256k1.go")],["Add, Double, ScalarMult, ScalarBaseMult, IsOnCurve"])
p("C11","Keccak digests depend only on the concatenated input",
 "Writing a message to a hash in any sequence of pieces gives the same digest as hashing it whole; taking a digest appends to the given prefix, does not disturb the hash state, and reset returns to the empty message; and the digest equals the Keccak sponge (multi-rate padding with the original Keccak domain byte) for every message length.",
 ["inputs","histories"],"every message, every split into writes, every interleaving of writes, digests and resets",
 "tests hash a few short strings; block-boundary and split effects are unbounded",
 ["keccak/sha3.go","keccak/hashes.go","keccak/xor_unaligned.go"],[("sponge buffering, padding, squeeze, clone","keccak/sha3.go")],["New256/New512 Write, Sum, Reset; Sum256/Sum512"],
 [("sponge","200-byte state, partial block and direction","keccak/sha3.go state")])
p("C12","A key file releases its key only after authentication",
 "Unlocking a key file returns a key only when the MAC over the derived key and ciphertext matches and, when an address is recorded, the key has that address; otherwise it returns an error, and no malformed key file (wrong lengths of derived key, IV, ciphertext, MAC) makes it panic. A key file produced by the library unlocks with its passphrase to the original key.",
 ["inputs"],"every key file content and passphrase",
 "tests unlock three fixed files; malformed lengths are never tried",
 ["keyfile.go"],[("MAC check before decryption","keyfile.go"),("parameter parsing","keyfile.go")],["Keyfile.Private, PrivateKey.ToKeyfile"])
p("C13","Decimal amounts and rates parse and print without loss",
 "Parsing a decimal text with at most the supported number of fraction digits gives exactly that value in the smallest unit, independently of the target's previous value; texts with more fraction digits or malformed syntax are rejected; and printing a value and parsing it again gives the same value and currency.",
 ["inputs"],"every text, every registered number of digits, every integer amount including negative ones",
 "tests use a dozen literals",
 ["cc/currency.go"],[("parseDigits","cc/currency.go"),("widestring","cc/currency.go")],["ParseRate, ParseAmount, Amount.String, Rate.String, JSON/text methods"])
p("C14","Currency conversion and arithmetic are exact up to one unit",
 "Adding, subtracting, negating and comparing amounts of one currency is exact integer arithmetic that refuses mixed currencies; converting an amount at a rate gives the exact product scaled between the two currencies' digits, rounded down by less than one smallest unit; and inverting a rate gives the rounded-down reciprocal at the rate's precision.",
 ["inputs"],"all amounts, rates and digit combinations",
 "tests convert a few pairs",
 ["cc/currency.go"],[("Convert, pow10","cc/currency.go"),("Rate.Inverse","cc/currency.go"),("Amount arithmetic","cc/currency.go")],["Convert, Pair.Convert, Rate.Inverse, Amount.Add/Sub/Cmp"])
p("C15","The state tree behaves as a map from byte keys to values",
 "After any sequence of insertions and deletions a lookup returns the value most recently inserted under that key and nothing if it was never inserted or was deleted since; insertion and deletion of one key never affect another; deletion reports whether the key was present; and iteration visits each present key exactly once in one consistent sorted order.",
 ["inputs","histories"],"every sequence of operations over every set of keys and every tree shape",
 "one test inserts random keys; two-child deletion and shared-node copying depend on shape and history",
 ["tevm/tree.go"],[("search-tree ordering","tevm/tree.go insertat, deleteat, Get"),("copy on write","tevm/tree.go setLeft, setRight, setPair")],["Tree.Insert, Delete, Get, Iterate"],
 [("node array","append-only copy-on-write nodes with epochs","tevm/tree.go")])
p("C16","Tree snapshots and copies are immutable",
 "Rolling back to a snapshot restores exactly the contents at the time it was taken, however many insertions, deletions, snapshots and rollbacks happened in between, and a copy made at a snapshot has exactly those contents and is independent of the original: no later change to either is visible in the other.",
 ["histories"],"every history of inserts, deletes, snapshots, copies and rollbacks on the original and its copies",
 "the test takes one snapshot sequence; sharing of backing storage shows only in particular orders of copy, rollback and insert",
 ["tevm/tree.go"],[("epochs and allocation limits","tevm/tree.go Snapshot, CopyAt, Rollback")],["Tree.Snapshot, CopyAt, Rollback"])
p("C17","Account state reads return the last write and ether is conserved",
 "Each balance, nonce, code, storage and self-destruct read returns the last value written for that account (and storage slot) and no operation on one account or slot changes another; transferring ether between any two accounts, including an account and itself, leaves the total unchanged, and creating or destroying an account neither loses nor duplicates unrelated state.",
 ["inputs","histories"],"every sequence of state operations on every set of accounts",
 "tests run an ERC-20 scenario; self-transfers, pre-funded creation and destruction with balance are not exercised",
 ["tevm/evm.go"],[("account encoding","tevm/evm.go Account"),("state accessors","tevm/evm.go gethState"),("transfer","tevm/evm.go dotransfer")],["State.StateDB, Chain.BalanceOf, Send"])
p("C18","Reverting restores the complete earlier state",
 "Reverting to a state snapshot restores balances, nonces, code, storage, self-destruct marks, gas refund and emitted logs exactly as they were when the snapshot was taken, and invalidates that snapshot and all later ones; state viewed at an earlier block is exactly what it was when that block was sealed and is independent of later changes.",
 ["histories"],"every nesting of snapshots, state changes and reverts",
 "tests revert only implicitly through contract failures",
 ["tevm/evm.go","tevm/tree.go"],[("Snapshot, RevertToSnapshot, atSnap","tevm/evm.go")],["vm.StateDB Snapshot/RevertToSnapshot, Chain.Copy, Chain.AtBlock"])
p("C19","Mined transactions, receipts and blocks stay consistent",
 "Every mined transaction is retrievable afterwards by its hash with its original fields, block and index; after sealing its receipt is retrievable with the right status, gas, logs, block hash and number, the sealed block lists exactly its transactions in order with the summed gas, and the next block has the next number with the sealed block as parent.",
 ["histories"],"every sequence of transactions, failures, seals and copies",
 "tests mine one transaction per block",
 ["tevm/evm.go","tevm/transport.go"],[("Mine and Seal","tevm/evm.go"),("lookup methods","tevm/transport.go")],["eth_getTransactionByHash, eth_getTransactionReceipt, eth_getBlockByHash/Number"])
p("C20","Read-only requests never change the chain",
 "Calls, gas estimates, balance, block, transaction, receipt and log queries, successful or failing, leave every account, nonce, storage slot, log, transaction and block of the chain exactly as it was.",
 ["inputs","histories"],"every request, parameter and reachable chain state, including requests that fail part-way",
 "tests never compare the state around failing estimates or calls",
 ["tevm/transport.go","tevm/evm.go"],[("snapshot and revert around estimation","tevm/transport.go estimate"),("static calls","tevm/transport.go staticCall")],["Chain.Execute"])
p("C21","Log filters return exactly the matching logs, each once",
 "A filter matches a log exactly when the log's block is in the requested range, its address equals the requested address if one was given, and every given topic equals the log's topic at that position; a full query returns all matching logs in order and polling returns each matching log exactly once across any number of polls.",
 ["inputs","histories"],"every filter, every log sequence and every interleaving of polls and new logs",
 "one test filters one event",
 ["tevm/evm.go","tevm/transport.go"],[("matches","tevm/evm.go filter.matches"),("poll cursor","tevm/transport.go filterChanges")],["eth_newFilter, eth_getFilterLogs, eth_getFilterChanges"])
p("C22","Requests name the block, account and data the caller asked for",
 "Every client query sends the method and parameters its documentation names: the pending, latest and earliest specifiers and every explicit block number are sent as such, in every method that takes a block, and logs recognised as token transfers are reported with exactly the sender, recipient, amount and token of the log.",
 ["inputs"],"every block number and specifier, every address and every log",
 "tests against a simulated chain never inspect the request; wrong specifiers still return some block",
 ["seth.go","send.go","filter.go"],[("block specifiers","seth.go itobs"),("number formatting","filter.go itox"),("ParseTransfer","seth.go")],["JSON-RPC requests sent by Client"])
p("C23","A sender submits exactly the call it was asked to sign",
 "With a signer configured, the submitted raw transaction carries exactly the requested recipient, value, input, gas, gas price and nonce (defaults filled in only where the caller left a field out), signed over the hash of those same fields, and is submitted only if the recovered signer is the stated sender; cancellation replaces the same nonce at a strictly higher gas price and draining waits for every pending transaction of the account.",
 ["inputs","configurations"],"every combination of given and omitted options, gas estimates, prices and signers",
 "tests send only through a simulated chain with all defaults and no signer",
 ["sender.go","send.go"],[("Call","sender.go"),("pad, Cancel, Drain","sender.go")],["Sender.Call, Send, Cancel, Create, Drain"])
p("C24","Bytecode offsets map to the instruction and source they belong to",
 "For every bytecode, each program counter maps to the number of the instruction it lies in, counting a push and its immediate bytes as one instruction; source-map entries inherit omitted fields from the previous entry; and stripping metadata removes exactly a trailing well-formed metadata section and nothing otherwise.",
 ["inputs"],"every bytecode and every source map",
 "tests parse one compiled contract's map",
 ["compile.go"],[("compilePos","compile.go"),("compileSourcemap","compile.go"),("MetadataHash, StripBytecode","compile.go")],["CompiledBundle.SourceOf, MetadataHash, StripBytecode"])
p("C25","Different source sets never share a compilation cache entry",
 "The cache entry consulted for a set of source files is determined by the set's file names and contents alone, in any order, and two different sets are assigned the same entry only if the underlying hash collides.",
 ["inputs"],"every pair of source sets, including ones whose names or bodies have equal concatenations",
 "no test computes a cache name",
 ["compile.go"],[("cachename","compile.go")],["Compile"])
p("C26","Binary serialisation round-trips every stored value",
 "Serialising any block, transaction, receipt, log, token transfer or compiled contract to its binary form and reading it back, in either the buffer or the stream interface, gives an equal value and consumes exactly the bytes written.",
 ["inputs"],"every value of every serialisable type, including nil and empty members",
 "the generated tests round-trip only zero values",
 ["seth_gen.go","compile_gen.go","seth.go"],[("generated codecs","seth_gen.go, compile_gen.go"),("Int codec","seth.go")],["MarshalMsg/UnmarshalMsg, EncodeMsg/DecodeMsg"])
p("C27","Command-line call arguments keep their value or are refused",
 "A command-line argument for a declared parameter type is encoded with exactly the value written when that value lies in the type's range (two's complement for signed types), and refused otherwise; arrays encode exactly their elements in order.",
 ["inputs"],"every declared type and argument text",
 "the command has no tests",
 ["cmd/eth/call.go"],[("parsearg and helpers","cmd/eth/call.go")],["eth call"])
p("C28","Jump-table listing reports each selector with its own target",
 "For every contract code that starts its dispatch with a recognised preamble, the listed selectors are exactly the consecutive dispatch entries in order, each with the target of its own jump, and no code makes the listing read outside the code.",
 ["inputs"],"every bytecode",
 "the command has no tests",
 ["cmd/eth/jumptab.go"],[("jumpentries","cmd/eth/jumptab.go")],["eth jumptab"])
p("C29","Concurrent RPC calls receive their own response exactly once",
 "With any number of concurrent calls on one connection, each call returns the response or error carrying its own request identifier, exactly once, including across responses in any order, connection failures and reconnection.",
 ["schedules","fault_sequences"],"every interleaving of callers, responses and connection failures",
 "no test uses the connection transport",
 ["client.go"],[("pending table and reader goroutine","client.go RPCTransport")],["RPCTransport.Execute"])
p("C30","Block iteration and log filters deliver everything in order until closed",
 "A block iterator delivers every block from its start in number order without gaps or duplicates until stopped, and a log filter delivers every log the node reports in order, then closes its channel exactly once.",
 ["schedules","histories","fault_sequences"],"every interleaving of delivery, errors and stopping",
 "no test stops an iterator or filter while it is delivering",
 ["seth.go","filter.go"],[("getLoop","seth.go"),("frecv","filter.go")],["BlockIterator.Next, Filter.Out"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
