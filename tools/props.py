"""Properties of philhofer/seth. Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  over=list(over), observe=observe, na=na, note=note))

p("C01", "Hex text codec for bytes, addresses and hashes is exact",
  "Every byte string, address, hash, key and signature is written as 0x followed by two lower-case hex digits per byte, and reading that text back gives the same value whatever the destination held before. Text is accepted exactly when it is 0x followed by hex digits of either case that fit the destination (an odd number of digits meaning a leading zero nibble) and otherwise rejected with an error, never a panic.",
  "every value and every previous destination content; every text up to the stated length",
  "tests decode a handful of literals into fresh destinations",
  ["hex.go", "seth.go", "signature.go"], [("hexdecode / hexstring / hexparse", "hex.go"), ("MarshalText/UnmarshalText/FromString of Data, Bytes, Address, Hash", "seth.go")])
p("C02", "Quantities survive text, JSON and overflow checks",
  "A non-negative integer quantity written as JSON or text is 0x plus its minimal hex digits (zero is 0x0) and reads back as the same number. Quantities are read from 0x-hex of either case or from decimal, quoted or bare, and a 64-bit quantity rejects anything outside 0..2^64-1 instead of truncating it.",
  "every integer up to 256 bits and every 64-bit integer; every text up to the stated length",
  "tests sample a few constants", ["seth.go", "hex.go"],
  [("Int and Uint64 text and JSON methods", "seth.go"), ("itox", "filter.go")])
p("C03", "Call data follows the contract ABI layout",
  "Call data is the first four bytes of the Keccak-256 of the signature followed by one 32-byte word per argument: integers and addresses right-aligned big-endian, short fixed data left-aligned, and for each dynamic argument the byte offset of its tail counted from the start of the argument area, where the tail is the element count followed by the elements (bytes padded with zeros to a multiple of 32). This holds for every mix, order and size of arguments, and encoding does not modify the arguments.",
  "every argument list up to the stated size, with every argument value",
  "tests encode three fixed calls", ["send.go"],
  [("ABIEncode and the EncodeABI methods", "send.go"), ("padint, padright", "send.go")])
p("C04", "Mismatched call arguments are refused, not encoded",
  "Encoding a call panics, rather than producing call data, when the signature string is malformed or contains illegal characters, when the number of arguments differs from the number of types listed, or when an address, (u)int, (u)int256 or bytes32 type is given an argument of another kind or an array type one that is not a list; a matching call never panics. This holds for signatures with any number of arguments, including none and one.",
  "every signature over the supported types up to the stated number of arguments and every argument kind; every short signature string",
  "tests try one correct signature and no wrong ones", ["send.go"], [("typecheck", "send.go")])
p("C05", "ABI decoding returns exactly the encoded values",
  "Decoding return data that follows the ABI layout gives each destination exactly the value at its own position, for every mix and order of integers, booleans, addresses, 32-byte data, strings, byte strings and arrays of them, including empty ones and ones whose content ends at the end of the data. Decoded slices do not alias the input or each other.",
  "every argument list up to the stated size, with every value and every dynamic length up to the bound",
  "tests decode two fixed buffers", ["send.go"], [("DecodeABI", "send.go"), ("ABIDecoder.UnmarshalText", "send.go")])
p("C06", "ABI decoding of hostile data returns an error, never panics",
  "Decoding arbitrary return data, truncated or with any offsets, lengths and element counts, into any supported destination either succeeds or returns an error: it never panics and never allocates more than the data could justify. An offset, length or count pointing outside the data, or a head shorter than its words, is an error.",
  "every byte string up to the stated length, every destination type at every position up to the bound",
  "tests never decode malformed data", ["send.go"], [("DecodeABI", "send.go")])
p("C07", "Transactions are serialised as canonical RLP",
  "The serialised signed transaction is the canonical RLP list of nonce, gas price, gas, recipient (empty for contract creation), value, input, v, r and s, with minimal integers and correct short and long length headers, and decodes back to the same fields. The hash to sign is the Keccak-256 of the canonical list of the six fields followed by chain id 1 and two empty items, and the serialised v is 37 plus the parity.",
  "every field value; input data of every length up to the bound including the header boundaries at 55/56 and 255/256",
  "tests compare two fixed transactions", ["transaction.go"], [("rlpEncoder", "transaction.go"), ("HashToSign, Encode", "transaction.go")])
p("C08", "Signatures are stored in canonical low-s form",
  "A signature built from non-zero r and s and a parity stores r and the low representative of s as 32-byte big-endian numbers, flipping the parity exactly when s had to be negated, and its parts read back as stored. A signature is valid exactly when r and s are non-zero, r is below the group order and s is at most half of it; recovery refuses invalid signatures and those whose r is the x coordinate of no curve point.",
  "every r and s below the group order, every 65-byte signature",
  "tests sign a few random messages", ["signature.go"], [("NewSignature, Parts, Valid, Recover", "signature.go")])
p("C09", "Signing then recovering yields the signer",
  "For every private key and hash, the produced signature is valid, verifies under the key's public key, and recovering from it gives exactly that public key; recovering from any other signature gives a key under which it verifies, or an error. Signing never returns a signature with a zero part or with high s, however the candidate nonces fall, and different keys or hashes never share a stream of nonces.",
  "every key, signature and nonce, and hashes with up to ten free bytes, over small groups of prime order put in the place of the curve",
  "tests sign random messages with one nonce stream", ["signature.go"], [("PrivateKey.Sign", "signature.go"), ("Signature.Recover", "signature.go")])
p("C10", "Field arithmetic is arithmetic modulo the curve prime",
  "Every field operation (load and store, add, negate, add small, multiply by small, multiply, square, normalise, compare, odd/zero tests) gives the mathematically correct residue modulo the secp256k1 prime for all operands within the documented magnitude limits, and normalising always gives the unique representative below the prime. Storing and loading 32-byte values are inverse.",
  "all field elements within the documented magnitude limits",
  "tests use a few dozen fixed vectors", ["ec/field.go"], [("fieldVal methods", "ec/field.go")])
p("C11", "Point arithmetic implements the curve group law",
  "Adding and doubling points, in affine or projective form, gives the chord-and-tangent result for every pair of curve points including equal points, opposite points, the point at infinity and operands with different or unit denominators. Doubling a point equals adding it to itself and the result never depends on the denominators chosen. Multiplying any point, or the base point, by a scalar gives the multiple that the scalar says.",
  "polynomial identities over all coordinates and denominators; scalars of the bounded lengths in an abstract group",
  "tests use fixed vectors", ["ec/btcec.go"], [("addJacobian, addZ*, doubleJacobian", "ec/btcec.go")])
p("C12", "Scalar recoding preserves the scalar",
  "The signed-digit recoding used by scalar multiplication represents exactly the input scalar, with non-adjacent digits, for every byte string; the endomorphism split of a scalar recombines to the scalar modulo the group order with halves of at most 129 bits plus sign. Reducing an oversized scalar keeps its value modulo the group order.",
  "every scalar up to 256 bits (split), every byte string up to the bound (recoding)",
  "tests use fixed and random scalars", ["ec/btcec.go"], [("NAF, splitK, moduloReduce", "ec/btcec.go")])
p("C13", "Keccak hashing is independent of how data is fed",
  "Hashing is the Keccak sponge with the original 0x01 padding: absorbing a message in any split into writes gives the same digest as one write, asking for the digest does not change the running state, and resetting or copying a hash starts from or continues exactly that state. The portable permutation equals the Keccak-f[1600] definition.",
  "every message up to beyond two blocks, every split into writes up to the bound, with the permutation uninterpreted; every 1600-bit state for the permutation",
  "tests hash a fixed set of messages", ["keccak/sha3.go", "keccak/keccakf.go"], [("state.Write/Sum/Read/padAndPermute", "keccak/sha3.go"), ("keccakF1600", "keccak/keccakf.go")])
p("C14", "Key files open only with the right passphrase and never crash",
  "A key file created from a private key and passphrase opens with that passphrase to the same key; with a wrong message authentication code it is refused before any key is returned. A malformed key file (missing, negative or short derived-key length, bad derivation parameters, initialisation vector or ciphertext of the wrong length, unknown cipher or derivation function) gives an error, never a panic or a wrong key.",
  "every key and passphrase with the hash, cipher and key derivation uninterpreted; every parameter value within the bounds",
  "tests open two valid files", ["keyfile.go"], [("Keyfile.Private, PrivateKey.ToKeyfile", "keyfile.go")])
p("C15", "Concurrent RPC calls each get their own reply",
  "Over the stream transport, each call returns the reply carrying its own request number, its own server error, or the connection error, for every interleaving of concurrent calls, out-of-order, duplicate or unsolicited replies, and connection failures followed by reconnection. No call hangs once the connection has failed, and none is completed twice.",
  "every interleaving of up to the stated number of callers, replies and faults",
  "tests run one schedule against one server", ["client.go"], [("RPCTransport.Execute/background/abort", "client.go")],
  over=("schedules", "fault_sequences"))
p("C16", "Call results, server errors and missing results are told apart",
  "A client call delivers the result when the server returns one, an error carrying the server's code and message when the server reports an error, the not-found error for a null result, and the transport's error otherwise. The caller's output is written only from a returned result, and consecutive calls use distinct request numbers.",
  "every reply shape and every error code", "tests see one success and one error", ["client.go"],
  [("Client.Do", "client.go")], over=("inputs", "fault_sequences"))
p("C17", "Sending fills defaults, pads gas and signs what it sends",
  "Sending a call uses the sender's address, gas price and padded gas estimate for exactly the fields the caller left unset, pads the estimate to floor(estimate*num/den), and stops on the first failing step. With a signer, the raw transaction sent is the encoding of those fields with the pending nonce (unless one is given) and the signer's signature over its hash, and nothing is sent when the signature recovers to a different address; cancelling re-uses the nonce with a strictly higher gas price and refuses mined transactions.",
  "every combination of set and unset fields, values, replies and failures",
  "tests send a few plain transfers", ["sender.go"], [("Sender.Call, pad, Cancel, Send", "sender.go")], over=("inputs", "fault_sequences"))
p("C18", "Block specifiers select the intended block",
  "Each client request that takes a block number sends \"pending\", \"latest\" or \"earliest\" for the three special values and the exact minimal hex quantity for every other non-negative number (block zero may be sent as \"earliest\" or as \"0x0\"). The pending-transaction query asks for the pending block.",
  "every non-negative 64-bit block number and the special values", "tests use two numbers", ["seth.go", "filter.go", "send.go"],
  [("itobs, itox", "seth.go, filter.go")])
p("C19", "ERC20 transfer logs are parsed faithfully",
  "A log is reported as a token transfer exactly when its first topic is the ERC20 transfer event and it has both address topics, and then sender, recipient, token and amount are those of the log. The transfer filter asks for exactly that event, restricted to the given token and parties.",
  "every log with up to four topics and data up to the bound", "tests parse one recorded log", ["filter.go"],
  [("Log.ERC20Transfer / TokenTransfers", "filter.go")])
p("C20", "Log filters deliver every log once, in order, and close",
  "A log filter delivers every log returned by the node exactly once and in order to a reader who keeps reading, then closes its output, with an error set exactly when fetching failed. Closing it from any goroutine, at any time and any number of times, uninstalls it once and makes the output channel close without a panic.",
  "every interleaving of the poller, reader and closers; every sequence of poll results within the bound",
  "tests run one schedule", ["filter.go"], [("Filter, frecv, Close", "filter.go")], over=("schedules", "fault_sequences"))
p("C21", "Block iteration yields consecutive blocks exactly once",
  "Iterating over blocks from a number, or from the latest or pending block, yields consecutive blocks from there in order, each exactly once, waiting for blocks that do not exist yet and retrying after failed calls. After a stop the sequence ends for a reader that keeps draining it, without gaps or repeats before its end.",
  "every range and node head position within the bound, every interleaving with stop and faults",
  "tests iterate one fixed range", ["filter.go"], [("BlockIterator", "filter.go")], over=("schedules", "fault_sequences"))
p("C22", "Currency amounts and rates parse and print exactly",
  "Parsing a decimal amount in a currency gives exactly the number of smallest units it denotes, and an amount with more fraction digits than the currency has is not silently accepted with a different value. Printing an amount or rate and parsing it again gives the same value, and malformed text gives an error, never a panic.",
  "every text up to the bound, every amount up to the bound", "tests parse a table of literals", ["cc/currency.go"],
  [("Parse, parseDigits, Format, Rate text methods", "cc/currency.go")])
p("C23", "Currency conversion is exact up to rounding",
  "Converting an amount by a rate gives the exact rational product rounded to the target currency's smallest unit as documented, taking both currencies' decimals into account, and the inverse of a rate is the exact reciprocal with its currencies swapped.",
  "every amount and rate up to the bound", "tests convert a few literals", ["cc/currency.go"], [("Rate.Convert, Inverse", "cc/currency.go")])
p("C24", "Amounts of different currencies never mix",
  "Adding, subtracting or comparing amounts is exact integer arithmetic on the smallest unit and is refused when the currencies differ. Arithmetic never changes its operands.",
  "every pair of amounts up to the bound and every pair of currencies", "tests add two literals", ["cc/currency.go"], [("Amount arithmetic", "cc/currency.go")])
p("C25", "The key-value tree behaves as a map",
  "After any sequence of insertions, overwrites and deletions the tree returns for every key exactly the last value stored, or nothing if it was deleted or never stored, and reports the matching number of entries where it exposes one. Iteration visits each stored key exactly once in order.",
  "every sequence of operations over arbitrary keys up to the bound", "tests insert random keys from one seed", ["tevm/tree.go"],
  [("Tree.Insert/Get/Delete", "tevm/tree.go")], over=("histories",))
p("C26", "Rolling the tree back restores the snapshot exactly",
  "Rolling back to a snapshot restores exactly the contents at the time it was taken, for every history of insertions, deletions, nested snapshots and earlier rollbacks, including snapshots of an empty tree. Snapshots older than the one rolled back to remain usable.",
  "every history of operations up to the bound", "tests roll back one linear history", ["tevm/tree.go"],
  [("Tree.Snapshot/Rollback", "tevm/tree.go")], over=("histories",))
p("C27", "Tree copies are isolated from each other",
  "A copy of the tree, of its current contents or of a snapshot, has exactly those contents, and no later insertion, deletion, snapshot or rollback on either one is visible in the other.",
  "every history of operations on the original and its copy up to the bound", "tests never mutate after a copy and rollback", ["tevm/tree.go"],
  [("Tree.Copy / CopyAt", "tevm/tree.go")], over=("histories",))
p("C28", "Simulated transfers conserve balances",
  "In the simulated chain a value transfer subtracts the amount from the sender and adds it to the recipient, leaving every other account and the total unchanged, including transfers to oneself and of zero. A transfer that is not affordable changes nothing.",
  "every balance, amount and address pair", "tests transfer once between fresh accounts", ["tevm/evm.go"],
  [("dotransfer, canTransfer, AddBalance/SubBalance", "tevm/evm.go")])
p("C29", "Reverting simulated state undoes everything since the snapshot",
  "Reverting to a state snapshot restores every balance, nonce, code, storage slot, refund counter and the log list to what they were when it was taken, for nested snapshots in any order; without a revert nothing is undone. A failed call leaves nothing behind, and gas estimates and static calls leave the state as it was whether they succeed or fail.",
  "every history of state operations and snapshots up to the bound", "tests execute contracts that revert once", ["tevm/evm.go"],
  [("gethState.Snapshot/RevertToSnapshot", "tevm/evm.go")], over=("histories",))
p("C30", "Simulated accounts and storage keep what was written",
  "What is written to an account's balance, nonce, code or storage slot is what is read back, and writing one of them changes no other field, slot or account. A new account starts empty, keeps the balance the address already had, and stays distinct from accounts that do not exist.",
  "every value, address and slot; every pair of operations", "tests use a few addresses", ["tevm/evm.go"],
  [("gethState accessors, acct codec", "tevm/evm.go")], over=("inputs", "histories"))
p("C31", "Mined blocks form a chain with faithful history",
  "Sealing a block makes its transactions, receipts and state visible under consecutive numbers whose parent hashes chain together, and state read at an earlier block is the state as of that block whatever is mined later. Copies and forks of the chain keep working and do not affect the original.",
  "every history of transactions, seals, copies and historic reads up to the bound", "tests mine one or two blocks", ["tevm/evm.go"],
  [("Chain.Mine, Seal, AtBlock, Copy", "tevm/evm.go")], over=("histories",))
p("C32", "Simulated log filters return exactly the matching logs",
  "A filter over the simulated chain returns exactly the logs in its block range whose address and topics match, where an absent address or topic matches anything and topics match by position. Each matching log is returned once, in order.",
  "every filter and every list of logs up to the bound", "tests query one event", ["tevm/transport.go"],
  [("filter matching", "tevm/transport.go")])
p("C33", "The simulated node understands the client's own requests",
  "Every block specifier, address, hash, quantity and call object that the client library sends is decoded by the simulated node to the same value, and malformed or missing parameters give an error reply, never a panic and never the answer to a different question.",
  "every parameter value; every malformed parameter up to the bound", "tests issue one well-formed request per method", ["tevm/transport.go"],
  [("Chain.Execute and parameter decoding", "tevm/transport.go")])
p("C34", "Binary records round-trip and reject truncation",
  "Every address, hash, data, non-negative integer, receipt and compiled record written in the binary encoding reads back equal with nothing left over, and any truncated or mistyped encoding gives an error, never a panic.",
  "every value up to the bound, every truncation point", "generated tests round-trip zero values only", ["seth_gen.go", "compile_gen.go", "tevm/evm_gen.go"],
  [("generated codec methods", "seth_gen.go")])
p("C35", "Bytecode comparison ignores exactly the metadata trailer",
  "Stripping compiler metadata removes exactly a trailing well-formed metadata section and nothing else; code without one is returned unchanged whatever bytes it ends with, with no out-of-range access.",
  "every byte string up to the bound", "tests strip one contract", ["compile.go"], [("StripBytecode", "compile.go")])
p("C36", "Source positions map to the right instruction",
  "For every program counter that starts an instruction, the source position reported is the one the compiler's map gives for that instruction, counting a push and its immediate bytes as one; counters inside a push give the position of the push, and counters outside the code or entries that are not within a source file give none, never a panic. Compressed source maps are expanded by repeating omitted fields from the previous entry.",
  "every bytecode and source map up to the bound", "tests look up two positions", ["compile.go"], [("compilePos, SourceOf, source map parsing", "compile.go")])
p("C37", "The compile cache never serves the wrong bundle",
  "Two different sets of sources never share a cache entry, a cached bundle is returned only for identical sources, and pruning stale entries removes only older entries of the same bundle name. Compiler output is turned into a bundle faithfully or refused with an error.",
  "every set of short source names and contents", "tests compile nothing (no compiler present)", ["compile.go"], [("cachename, cachedBundle", "compile.go")])
p("C38", "Command-line arguments become the right ABI values",
  "Each command-line argument is turned into the ABI value its declared type denotes: integers (decimal, or hexadecimal after 0x) within the type's range are accepted and those outside rejected, and addresses, booleans, texts, byte strings of the declared width and bracketed lists are parsed by their type. Malformed arguments, unknown types and signatures with misplaced parentheses give an error rather than a panic or a wrong value. `eth call` refuses any number of arguments but that of the signature without sending anything, and otherwise sends one transaction with exactly this call, the gas price and the nonce that were given.",
  "every integer up to 300 bits against every declared width; every short argument text", "cmd/eth has no tests", ["cmd/eth"], [("etherint, etherarr, parsefn", "cmd/eth")])
p("C39", "Jump tables are recovered from contract code",
  "Disassembling contract code to find its dispatch table reports exactly the selectors compared and jumped on, at their true offsets, and never reads outside the code, whatever bytes follow.",
  "every byte string up to the bound", "tests look at one contract", ["cmd/eth"], [("jump-table parser", "cmd/eth")])
p("C40", "The requested signing key is the one used",
  "The key specification (a regular expression that is looked for in the identifiers, names and addresses of the keys in files and on a device) selects exactly the key that matches: its address is the one reported and it is the one that signs. When no key or several keys match, or the specification is malformed, the command ends with an error.",
  "every list of keys up to the bound and every selector", "cmd/eth has no tests", ["cmd/eth"], [("signer selection", "cmd/eth")])
p("C41", "Generated Go bindings call what the contract declares",
  "For every function of a contract bindgen generates a method under its name that takes the declared arguments, in the declared order and with types that are encoded as the declared ones, and calls exactly this function: a constant function without a transaction, with the results decoded as their declared types and returned in order; any other with a transaction whose hash is returned. This holds for integers of every width, booleans, addresses, fixed and variable byte strings, texts and the slices that have a type (tuples, fixed arrays and overloaded functions are not covered). Exactly the contracts that were asked for are generated from exactly the given source files, with their code when it was asked for, and a missing contract or a failed compilation is an error without output.",
  "every contract interface within the bound", "the one golden test needs the compiler", ["bindgen"], [("generate, typeconv, rettype, main", "bindgen/main.go")])
p("C42", "The HSM signer produces the same signatures as a software key",
  "A key held in the hardware module yields signatures that are valid, low-s and recover to that key's address.",
  "every key and hash", "needs the device", ["yubihsm", "hsm.go"], [("yubihsm signer", "yubihsm")],
  na="yubihsm needs cgo bindings and a device that are not installed; it does not build here")
p("C45", "The commands of eth ask and print what they were told",
  "The commands that look at the chain or send raw transactions ask the node about exactly the addresses, blocks, functions and transactions of their arguments, each once and in their order, and print exactly what it answered. Signing and recovering print what belongs to the given input and the selected key; a malformed argument or a failed request ends the command with an error, and malformed transactions are found before anything is sent.",
  "every address, value, block range and node answer within the bound", "cmd/eth has no tests", ["cmd/eth"], [("balance, block, code, post, read, recover, sign", "cmd/eth")])
p("C46", "A fork reads through to the node under local changes",
  "In a simulated chain that forks a live one, every balance, nonce, code and storage slot that was not changed locally is what the node reports at the block of the fork, an account that has any of balance, nonce or code there exists, and its contracts run, whatever instructions they use. What was changed locally takes precedence over the node, also in copies, and reverting a change brings the node's value back.",
  "every content of the node's accounts and every pair of local changes within the bound", "the one test of forks needs a live node", ["tevm/evm.go"],
  [("gethState.getAccount/getCode/GetState/SetState, NewFork", "tevm/evm.go")], over=("inputs", "histories"))
p("C43", "Waiting for transactions and draining an account are truthful",
  "Waiting for a transaction succeeds only once the node reports it as mined (a pending one is asked for again) and otherwise returns the error of the failing call. Draining an account returns success only when the pending block of the node holds no transaction from that account, whatever block sequence the node goes through in between.",
  "every sequence of node answers within the bound", "no test covers them", ["sender.go"], [("Sender.Wait, Sender.Drain", "sender.go")],
  over=("fault_sequences", "inputs"))

def main():
    built = {}
    hd = os.path.join(V, "harness")
    for d in sorted(os.listdir(hd)):
        if d == "zzsym": continue
        for f in sorted(os.listdir(os.path.join(hd, d))):
            if f.startswith("c") and f[1:3].isdigit():
                built.setdefault(f[:3].upper(), []).append(d + "/" + f)
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for q in P:
            r = dict(id=q["id"], title=q["title"], statement=q["statement"],
                     quantifier=dict(over=q["over"], text=q["text"]),
                     why_tests_cant=q["why"],
                     anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))
            fh.write(json.dumps(r) + "\n")
            assert len(q["title"]) <= 80, q["id"]
    checks, na = [], []
    for q in P:
        if q["id"] in built and not q["na"]:
            checks.append(dict(property=q["id"],
                quick_cmd="bash check.sh %s quick" % q["id"],
                thorough_cmd="bash check.sh %s thorough" % q["id"],
                technique="bounded symbolic execution of Go SSA with SMT (z3), native replay",
                level="model_checking",
                level_note=q["note"] or "Every path within the stated bounds, for all values of the symbolic inputs; trusts the SSA executor, its models (listed in DESIGN.md) and z3. Bounds are in the evidence file."))
        else:
            na.append(dict(property=q["id"], reason=q["na"] or "no check built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="All checks run gosym (in /verif/gosym): it loads /repo's current source with harnesses from /verif/harness laid over it, executes the SSA symbolically and decides assertions with z3; see DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1); fh.write("\n")
    print(len(P), "properties", len(checks), "checks")
main()
