prop("C01", "Keccak hashing matches the standard for every message and call sequence",
     "For every message, the Keccak digests (224, 256, 384 and 512 bits, one-shot, streamed, and the library's hash-of-bytes and hash-of-string helpers) equal the reference Keccak digest, however the message is split into writes, wherever its buffer lies in memory, and whatever intermediate digests were taken or resets done. Taking a digest does not disturb the hash state, and hashing never reads outside the input, never modifies it, and shares nothing between hash objects.",
     ["inputs", "histories", "configurations"], "all messages, all sequences of write/digest/reset, all buffer alignments, assembly and portable implementations",
     "The repository has no tests of the keccak package beyond two event-hash constants, so block-boundary lengths, chunkings, intermediate digests and memory placement are not sampled at all.",
     ["keccak/sha3.go", "keccak/hashes.go", "keccak/keccakf.go", "keccak/keccakf_amd64.s", "keccak/xor_unaligned.go", "keccak/xor_generic.go", "seth.go"],
     [("sponge absorb/pad/squeeze", "keccak/sha3.go"), ("permutation", "keccak/keccakf.go, keccakf_amd64.s"), ("block xor", "keccak/xor_unaligned.go")],
     ["digest bytes returned", "faults on guard pages", "checkptr and race reports"],
     check="c01", technique="reference-model monitor over generated call histories, guard pages, race detector and checkptr",
     note="Held on the executions run: generated messages and call histories on the amd64 assembly, portable and 32-bit builds; trusts the reference sponge in harness/ref.",
     race=True, variants=[dict(name="generic", race=False, build=["-tags", "appengine"], scale=0.5),
                          dict(name="386", race=False, GOARCH="386", CGO_ENABLED="0", scale=0.5)])

prop("C02", "secp256k1 curve arithmetic obeys the group law",
     "Point addition, doubling, multiplication by any scalar (of any length, zero and above the group order included) and base-point multiplication return the same affine point as the textbook group law on secp256k1, including for equal points, inverse points, the point at infinity and degenerate scalars; the curve-membership test accepts exactly the points that satisfy the curve equation. Results never depend on previous calls, and inputs are never modified.",
     ["inputs", "histories"], "all pairs of curve points and all scalars",
     "The existing tests use fixed vectors and a few random scalars; exceptional cases (equal, opposite, infinity, endomorphism split edges, long scalars) and field-element magnitudes that need a carry are sampled at a handful of points.",
     ["ec/btcec.go", "ec/field.go", "ec/precompute.go", "ec/secp256k1.go"],
     [("Jacobian addition and doubling", "ec/btcec.go"), ("endomorphism split and NAF", "ec/btcec.go"), ("field arithmetic", "ec/field.go")],
     ["affine coordinates returned by the curve's public methods"],
     check="c02", technique="reference-model monitor over generated operands, race detector variant",
     note="Held on the generated operands: compared with an independent affine implementation and libsecp256k1; not a proof over all field elements.",
     race=False, variants=[dict(name="race", race=True, scale=0.05)])

prop("C03", "Signatures are deterministic, low-s, verify and recover the signer",
     "For every private key and digest, signing yields an ECDSA signature with r and s in range, s at most half the group order, that verifies independently and whose recovery id recovers exactly the signer's public key and address. Signing the same digest again yields the same bytes, different digests or keys never share a nonce, and concurrent signers do not influence each other. A signature assembled from parts with a high s is normalised to its equivalent low-s form.",
     ["inputs", "schedules"], "all keys in [1, n-1] and all 32-byte digests, concurrent signers",
     "TestSign samples 100 random keys, never reaching edge keys or digests (near 0, near the order, digest above the order), and does not check determinism.",
     ["signature.go", "ec/btcec.go"],
     [("nonce derivation and signing", "signature.go"), ("recovery", "signature.go")],
     ["signature bytes", "recovered key", "independent verification"],
     check="c03", technique="reference-model monitor over generated keys and digests, race detector",
     note="Held on the generated (key, digest) pairs and the interleavings of 8 concurrent signers that occurred; trusts libsecp256k1 and harness/ref.",
     race=True)

prop("C04", "Public key recovery never returns a wrong or invalid key",
     "For a well-formed signature (r and s in range, s at most half the group order, recovery id 0 or 1, r the abscissa of a curve point) and any digest, recovery returns exactly the key that textbook secp256k1 recovery gives. For every other 65-byte signature, and when the result would be the point at infinity, it returns an error: it never panics and never returns a key that is not a valid curve point. Signatures whose components are out of range are reported invalid.",
     ["inputs"], "all 65-byte signatures and digests, malformed ones included",
     "Existing tests only recover from signatures that were produced by signing; no test feeds a malformed or adversarial signature.",
     ["signature.go", "ec/btcec.go"],
     [("public key recovery", "signature.go"), ("validity checks", "signature.go")],
     ["recovered key or error"],
     check="c04", technique="reference-model monitor over adversarial signatures",
     note="Held on the generated signatures, both well-formed and malformed; trusts harness/ref and libsecp256k1, which are compared with each other.",
     race=False)

prop("C05", "Signed transactions are canonical EIP-155 and bind every field",
     "Signing a transaction yields the canonical RLP encoding whose decoded nonce, gas price, gas, recipient, value, input and signature are exactly the given ones (contract creation as an empty recipient), and the sender that an independent Ethereum implementation recovers from it is the signing key's address. The hash given to the signer is the EIP-155 signing hash, which depends on every field. Integers of any size up to 256 bits and inputs of any length, zero and length-boundary cases included, are encoded with minimal length prefixes.",
     ["inputs"], "all transactions (nonce, price, gas, recipient or none, value, input length) and keys",
     "The fixtures are some hundred mainnet transactions; length-boundary inputs (55/56, 255/256, 65535/65536 bytes), maximal integers and signature parts with leading zeros are not reached systematically.",
     ["transaction.go", "signature.go"],
     [("RLP encoder", "transaction.go"), ("signing hash", "transaction.go")],
     ["raw transaction bytes", "independent decode and sender recovery"],
     check="c05", technique="differential monitor: independent decoder and sender recovery on generated transactions, race detector",
     note="Held on the generated transactions (all integer bit lengths, all input lengths over the length-prefix boundaries); trusts go-ethereum's decoder and signer.",
     race=True)

prop("C06", "Keyfiles round-trip and reject wrong passwords, tampering and malformed data",
     "A private key saved to a keyfile under any password decrypts to the same key with that password, also through JSON and in an independent implementation of the format, and a standard keyfile written by another implementation (scrypt or pbkdf2) opens here. With any other password, or after any change to the ciphertext, MAC, salt, or KDF cost parameters (or, if the file names its address, to the IV or address), opening fails with an error. A malformed keyfile is an error: never a panic, exhausted memory or a wrong key.",
     ["inputs", "configurations"], "all keys, passwords, KDF parameters, and corruptions of a keyfile",
     "TestKeyfile opens two fixed vectors and one round trip; no corrupted or malformed file is tried.",
     ["keyfile.go"],
     [("MAC check before decryption", "keyfile.go"), ("KDF parameter validation", "keyfile.go")],
     ["decrypted key or error"],
     check="c06", technique="differential monitor against an independent keyfile implementation, corruption and malformed-input injection",
     note="Held on the generated keyfiles, passwords and corruptions; trusts x/crypto's KDFs.",
     race=False)

prop("C07", "Calls and arguments are ABI-encoded exactly as the Solidity ABI specifies",
     "For every function signature over the supported types and matching argument values, the encoded call data is the 4-byte Keccak selector followed by the ABI specification's encoding: head words in order with correct offsets, integers as 32-byte two's complement, dynamic values with length and zero padding. A call whose arguments do not match the signature in number or type is refused rather than silently mis-encoded.",
     ["inputs", "programs"], "all signatures over supported types, all values and argument lists",
     "Five fixed vectors exist; multi-argument mixes of static and dynamic values, empty and 32-byte-multiple values, negative numbers and mismatched arguments are not exercised.",
     ["abi.go", "client.go", "send.go"],
     [("ABI encoder", "abi.go"), ("signature type check", "abi.go")],
     ["call data bytes", "refusal"],
     check="c07", technique="reference-model monitor over generated signatures and arguments, mismatch injection",
     note="Held on the generated signatures and arguments; trusts the reference encoder, cross-checked with go-ethereum's.",
     race=False)

prop("C08", "ABI decoding returns exactly the values that were encoded",
     "Decoding the canonical ABI encoding of any list of supported values into matching destinations returns exactly those values, at every argument position, for empty, 32-byte-multiple and long dynamic values, and regardless of what the destinations held before. A bare 4-byte-selector-stripped return value, a JSON-quoted hex return value, and an event's data decode the same way.",
     ["inputs"], "all lists of supported values and all prior destination contents",
     "Existing tests decode two fixed encodings; positions, empty values, exact multiples of the word size and reused destinations are not sampled.",
     ["abi.go", "hex.go"],
     [("ABI decoder", "abi.go")],
     ["decoded values"],
     check="c08", technique="reference-model monitor over generated encodings, destinations and prior contents",
     note="Held on the generated encodings and destinations; trusts the reference encoder.",
     race=False)

prop("C09", "Malformed contract return data is an error, never a panic or huge allocation",
     "Decoding arbitrary bytes (truncated, with offsets or lengths out of range or overflowing) into any list of destinations returns normally or with an error; it never panics, never reads outside the data, and never allocates more than a small multiple of the data's size. Data returned from a shorter buffer is never padded with bytes that are not in it.",
     ["inputs"], "all byte strings and destination lists",
     "No test decodes malformed data.",
     ["abi.go"],
     [("bounds checks in the decoder", "abi.go")],
     ["panic, error, allocation volume"],
     check="c09", technique="fault injection with bounds, buffer-capacity and allocation monitors",
     note="Held on the generated malformed data; allocation is measured on runs with one worker.",
     race=False)

prop("C10", "Hex and JSON encodings of values round-trip exactly",
     "For every address, hash, signature, key, byte string, integer and log/transaction/block/receipt record, encoding as text or JSON and decoding returns the same value, whatever the destination held before, and the encoding is the Ethereum JSON-RPC one (0x prefix, fixed width for data, minimal for quantities). Decimal, hex-string and bare-number forms decode to the same integer, and text that is not hex, has the wrong length for a fixed-width value, or overflows is refused.",
     ["inputs", "histories"], "all values, destinations in any prior state, and malformed texts",
     "The tests decode a handful of constants into fresh variables.",
     ["hex.go", "seth.go", "transaction.go", "signature.go", "keyfile.go"],
     [("hex codec", "hex.go"), ("text marshalers", "seth.go")],
     ["encoded text", "decoded values or error"],
     check="c10", technique="round-trip and format monitor over generated values, prior contents and malformed texts",
     note="Held on the generated values and texts; hex texts with an odd number of digits are outside the property.",
     race=False)

prop("C11", "MessagePack encodings round-trip and reject truncation",
     "Every value of the library's serialisable record types encodes to MessagePack and decodes, through both the buffer and the stream interface, to an equal value, consuming exactly its own bytes, whatever follows it and whatever the destination held before. Any strict prefix of an encoding is an error, never a panic, and unknown fields are skipped.",
     ["inputs"], "all record values, all truncation points, all garbage tails",
     "The generated tests only encode and decode zero values.",
     ["seth_gen.go", "compile_gen.go", "seth.go"],
     [("generated codecs", "seth_gen.go, compile_gen.go"), ("hand-written integer codec", "seth.go")],
     ["decoded values, remaining bytes, errors"],
     check="c11", technique="round-trip monitor over generated records with truncation, garbage and unknown-field injection",
     note="Held on the generated records; integers are non-negative.",
     race=False)

prop("C12", "Concurrent RPC calls each get exactly their own response",
     "On one shared connection, any number of concurrent calls each complete exactly once with the response the server sent for that very call, in whatever order and chunking the server replies; server errors reach only the caller they belong to. Unsolicited or duplicate responses disturb no call, and the client is free of data races.",
     ["schedules", "histories"], "all interleavings of callers, response orders, delays and fragmentations",
     "No test uses the stream transport at all.",
     ["client.go", "dial.go"],
     [("request id to waiter table", "client.go"), ("background reader", "client.go")],
     ["per-call request/response pairs", "race reports"],
     check="c12", technique="online monitor of call/response pairs under a scripted reordering server, race detector",
     note="In-memory, net.Pipe and unix-socket connections; replies reordered, chunked, duplicated and mixed with noise; every call checked against the reply computed for it.",
     race=True)

prop("C13", "A failing connection fails its pending calls and the next call reconnects",
     "When the connection breaks (dial error, write error, close or garbage at any byte of the exchange) every call that is pending on it returns an error instead of hanging or receiving another call's result, and a call made afterwards dials a fresh connection and succeeds if the server is back. No interleaving of failures, reconnects and calls deadlocks, panics, races or mixes responses of different connections.",
     ["fault_sequences", "schedules", "histories"], "all fault points (dial, write, read, partial message) in all interleavings with concurrent calls",
     "No test uses the stream transport or injects a fault.",
     ["client.go", "dial.go"],
     [("failure broadcast to waiters", "client.go"), ("redial on next call", "client.go")],
     ["call outcomes per connection", "virtual-time deadlock detection", "race reports"],
     check="c13", technique="fault-injection monitor over scripted connections, race detector",
     note="Dial errors, read and write failures at every offset, server closes, garbage, truncated replies, stalls and late replies on closed connections, under concurrent callers.",
     race=True)

prop("C14", "Client calls send the right request and map replies to values and errors",
     "Every client query sends exactly one JSON-RPC request with the documented method, the given arguments and the block specifier asked for (number in hex, latest, pending or earliest), and returns the decoded result; the pending-transaction query asks for the pending block. A null result is reported as not-found, a JSON-RPC error or a failing HTTP status as an error carrying it, identically over HTTP and stream transports.",
     ["inputs", "fault_sequences"], "all query kinds, arguments, block specifiers and server replies",
     "The tests of these calls need public servers on the network and are not run reliably; none inspects the request.",
     ["seth.go", "client.go", "send.go", "personal.go", "dial.go"],
     [("request construction", "seth.go"), ("error mapping", "client.go")],
     ["request bodies seen by a fake server", "returned values and errors"],
     check="c14", technique="monitor of requests and outcomes against a scripted server on three transports",
     note="Every client operation over stream, HTTP (real loopback server) and Infura transports; replies include null, errors, bad types, statuses, truncation and resets.",
     race=False)

prop("C15", "Block iteration yields every block once, in order, and stops cleanly",
     "A block iterator started at block n delivers blocks n, n+1, n+2, ... each exactly once and in order, however the chain grows and whatever transient errors or not-found replies the server gives in between. After it is stopped, its channel is closed within a bounded number of polls, whether or not the consumer is still reading, and it makes no further requests.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of block arrival, server errors, consumer speed and stop time",
     "No test iterates blocks.",
     ["seth.go"],
     [("iteration loop", "seth.go")],
     ["delivered block numbers in virtual time", "channel close, requests after stop"],
     check="c15", technique="trace monitor in virtual time (testing/synctest) against a scripted chain, race detector",
     note="Growing chains with latencies and faults; eager, slow, bursty and absent consumers; stop at any time; every delivery, close and request after stop is judged.",
     race=True)

prop("C16", "Log filters deliver every matching log once, in order, until closed",
     "A log filter delivers each log the server reports exactly once and in the server's order; after it is closed its channel is closed, nothing that was not fetched before is delivered and it stops polling, even if the consumer has stopped reading. If the server fails permanently the channel closes and the error is reported; errors never silently lose logs.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of log arrival, polling, consumer speed, server errors and close",
     "The one filter test needs the solidity compiler, so it does not run here, and checks two sequential logs.",
     ["filter.go", "tevm/transport.go"],
     [("polling loop", "filter.go"), ("filter registration", "tevm/transport.go")],
     ["delivered logs, polls, close and error in virtual time"],
     check="c16", technique="trace monitor in virtual time (testing/synctest) against a scripted server, race detector",
     note="Log arrivals, latencies, transient and permanent failures, five kinds of consumer, close at any time from several goroutines.",
     race=True)

prop("C17", "Senders submit exactly the transaction asked for, with the right nonce",
     "Each send, contract creation or cancellation submits exactly one transaction whose sender, recipient, value, call data and nonce are the requested ones, with the nonce the server reports for pending state (or the cancelled transaction's own nonce), a gas limit not below the estimate, and, when signing locally, a signature that recovers to the sending address. If a signer's signature does not belong to the sender, or any preparatory query fails, nothing is submitted and an error is returned. A contract creation returns the address of the contract that was created, and an error if, once mined, it created none.",
     ["inputs", "fault_sequences"], "all senders, targets, values, arguments, signer behaviours and server failures",
     "The existing tests need a network server or the compiler; none inspects the submitted bytes or injects failures.",
     ["sender.go", "send.go", "transaction.go"],
     [("transaction construction", "sender.go, send.go"), ("signature/sender check", "sender.go")],
     ["raw transactions received by a fake server"],
     check="c17", technique="monitor of submissions at a scripted server, independent transaction decoder",
     note="Send, Call, Create and Cancel with all combinations of given fields, signers (right, wrong, failing, corrupt) and faults in each query.",
     race=False)

prop("C18", "Waiting for transactions reports their true outcome",
     "Waiting for a transaction returns success only once the server reports that transaction as mined (with an index in a block), keeps polling while it is reported as pending, and returns every query error, including not-found, to the caller. Draining returns success only when the pending block holds no transaction of the sender, and does return once that is so; it tells the caller about a transaction it waits for, and returns query errors.",
     ["schedules", "fault_sequences"], "all sequences of not-found, receipt, pending-block contents and errors",
     "Only run against the in-process chain, which mines instantly.",
     ["sender.go"],
     [("receipt polling", "sender.go"), ("pending-block polling", "sender.go")],
     ["return value and time in virtual time against a scripted server"],
     check="c18", technique="trace monitor in virtual time (testing/synctest) against a scripted server",
     note="Own and foreign transactions that arrive, are mined and are dropped on a timeline; latencies and query failures; every return is judged against the replies.",
     race=False)

prop("C19", "Currency amounts parse and print exactly",
     "Parsing a decimal amount of any currency and printing it are exact inverses: the integer stored is the written value times ten to the currency's decimals, for any number of integer digits and up to that many fractional digits, and printing gives the canonical decimal. Amounts with too many fractional digits, unknown currencies or malformed text are refused and leave the destination as it was.",
     ["inputs", "histories"], "all amounts, currencies, texts, and destinations in any prior state",
     "A few fixed amounts are scanned.",
     ["cc/currency.go"],
     [("digit parser", "cc/currency.go"), ("formatter", "cc/currency.go")],
     ["stored integer and printed text against exact arithmetic"],
     check="c19", technique="reference-model monitor over generated texts, amounts and destinations", note="Held on the generated amounts, texts and destinations, compared with exact integer arithmetic; the registry is compared with a recorded table.", race=False)

prop("C20", "Currency conversion is accurate and rejects mismatched units",
     "Converting an amount at a rate, applying inverses, and adding, subtracting or comparing amounts equals exact rational arithmetic to within one unit of the result's precision (that of the inverse rate, where one is applied), with rates nearest to the given number and surviving JSON and text round trips; operations on amounts or rates of the wrong currency are refused rather than computed. No operation changes its operands, other than the receiver that is documented to hold the result.",
     ["inputs"], "all amounts, rates and pairs of currencies",
     "A few fixed conversions are checked.",
     ["cc/currency.go"],
     [("fixed-point rate arithmetic", "cc/currency.go")],
     ["results against exact rationals"],
     check="c20", technique="reference-model monitor: exact rational arithmetic over generated operations", note="Held on the generated operations; the direction of rounding is left open.", race=False)

prop("C21", "The state tree is a persistent ordered map with exact snapshots",
     "Under any sequence of inserts, deletes, lookups, iterations, snapshots, rollbacks and copies, the state tree behaves as an ordered map: lookups and iteration return exactly the live entries, in ascending key order, a rollback or a copy taken at a snapshot shows exactly the contents at that snapshot, and trees and their copies never affect one another. The same holds after serialising and deserialising the tree.",
     ["histories", "inputs"], "all operation sequences over all keys and values, across copies and snapshots",
     "The one test inserts 500 random keys, deletes half and rolls back once; copies, nested snapshots, overwrite sharing and interleavings with rollback are not exercised.",
     ["tevm/tree.go"],
     [("copy-on-write nodes", "tevm/tree.go"), ("snapshot stack", "tevm/tree.go")],
     ["lookups and iteration against a model map"],
     check="c21", technique="model-based monitor: generated histories over forests of trees, every tree compared with its model map after every operation", note="Held on the generated histories (up to 7 trees, 40 keys, 320 operations each).", race=False)

prop("C22", "EVM execution against the simulated state matches a reference EVM state",
     "Executing any contract code and sequence of transactions on the simulated chain gives the same success or failure, return data, execution gas, logs, balances, nonces, code and storage as the same execution over the reference Ethereum state implementation (go-ethereum's), including nested calls, reverts at any depth, contract creation and self-destruction. A failed call leaves no trace other than those the reference leaves, and constant calls and gas estimates at any sealed or the pending block give the reference's answer for the state of that block.",
     ["programs", "inputs", "histories"], "all contract programs, call trees and transaction sequences",
     "Tests execute a couple of trivial contracts (others need the compiler, absent here).",
     ["tevm/evm.go", "tevm/tree.go"],
     [("state journal over tree snapshots", "tevm/evm.go"), ("value transfer", "tevm/evm.go")],
     ["outcomes and full state against a reference implementation"],
     check="c22", technique="differential monitor: generated programs, transactions and state-journal operations executed in lockstep on the chain and on go-ethereum's own state, all results and the whole world state compared after every operation", note="Held on the generated scenarios; what remains of a destroyed contract after its transaction is a known finding.", race=False)

prop("C23", "Ether is conserved and transactions are atomic on the simulated chain",
     "Over any history of account creation, transfers, contract calls, contract creations and their failures, the sum of all balances changes only by explicitly minted (or subtracted) amounts and by the ether of a contract that destroys itself as its own heir; no balance is ever negative or more than there is; a transfer moves exactly its value; and a transaction that fails has no effect on balances, code, storage or logs. Each mined transaction, failing ones included, raises the nonce of its sender by exactly one. The same holds on a fork.",
     ["histories", "programs"], "all histories of chain operations, failing ones included",
     "Tests send one balance back and forth.",
     ["tevm/evm.go", "tevm/transport.go"],
     [("transfer and snapshot/rollback around execution", "tevm/evm.go")],
     ["sum of balances over all accounts after each step"],
     check="c23", technique="conservation and atomicity monitor: balances, nonces, code, storage and logs of the whole chain recorded before and after every operation of generated histories, on fresh chains and forks, plus a ledger of transfers through every interface", note="Held on the generated histories.", race=False)

prop("C24", "Sealed blocks are immutable and read-only requests change nothing",
     "Once a block is sealed, every query at that block (balance, nonce, code, storage, constant call, block and receipt contents) keeps returning the same answer, whatever happens on the chain afterwards, including views opened at older blocks and activity on those views. Read-only requests (constant calls, gas estimates, balance and storage queries, views of older blocks) change nothing observable on the chain, even when they fail.",
     ["histories", "inputs"], "all histories of sealed blocks, queries at any block, and activity on views",
     "One test opens one view of the previous block.",
     ["tevm/evm.go", "tevm/transport.go", "tevm/tree.go"],
     [("block-to-snapshot table", "tevm/evm.go"), ("view at a block", "tevm/evm.go")],
     ["answers recorded at seal time against later answers"],
     check="c24", technique="history monitor: answers about every block recorded when it is sealed and asked again after later activity on the chain, on views of it and on copies; and everything observable compared before and after each read-only request", note="Held on the generated histories.", race=False)

prop("C25", "Copies and serialised chains are equivalent to and isolated from the original",
     "A copy of a chain, and a chain restored from its JSON form, answers every query like the original did at that moment and accepts the same further operations with the same results. Nothing done to either one afterwards is visible in the other. Filters belong to the chain that made them and are not copied. A fork of an upstream node can be copied but not restored, since its connection is not part of its JSON form.",
     ["histories"], "all chains reachable by operation histories, and all later operations on either side",
     "One test serialises a chain with one contract; one test copies a forked chain but needs the network.",
     ["tevm/evm.go", "tevm/tree.go"],
     [("deep copy of trees and blocks", "tevm/evm.go, tevm/tree.go"), ("JSON codec", "tevm/evm.go")],
     ["query answers on both sides against each other"],
     check="c25", technique="lockstep monitor and race detector: copies and JSON round trips are compared with the original in everything observable, then driven jointly (results and observations must agree) and one-sidedly (every other chain must not change)", note="histories of generated EVM programs over original, copy, copy of copy, restored and replaced chains; forks of a fake upstream are copied; original, copies and views used at the same time (race detector variant)", variants=[dict(name="race", race=True)])

prop("C26", "The simulated chain's JSON-RPC view is consistent and never loses a transaction",
     "Each transaction accepted through JSON-RPC, and each mined in process, appears exactly once: it is found by its hash with its sender, recipient, nonce, value, gas, input, block and index; once its block is sealed it has a receipt with its status, gas used and logs; it is listed in exactly one block, the one its receipt names; and its logs are returned once by log queries and once by the changes of every matching filter, restricted to the requested blocks, address and topics. Block numbers and parent hashes form an unbroken chain, block specifiers (number, hexadecimal number, latest, pending) select the block they name, and an unknown block is an error. A request with malformed parameters is answered with an error and has no effect; a transaction of negative value is refused. A transaction that fails while it is executed may be answered with an error, and is then listed as a failed one in the pending block.",
     ["histories", "inputs"], "all request histories, block specifiers and filters",
     "Tests query a fresh chain once; filter tests need the compiler.",
     ["tevm/transport.go", "tevm/evm.go"],
     [("request dispatch", "tevm/transport.go"), ("sealing", "tevm/evm.go")],
     ["receipts, transactions, blocks and logs cross-checked against submitted transactions"],
     check="c26", technique="online checker: a model of the submitted transactions and the logs they must emit is compared after every step with every answer of the JSON-RPC interface (blocks, transactions, receipts, filters), in process and over HTTP", note="contracts whose logs follow from their input, so that expected logs are known without executing the code; hostile requests; the library's client, iterators and filters on virtual time")

prop("C27", "The simulated chain is safe for concurrent use",
     "Clients that use one simulated chain concurrently through its JSON-RPC interface and its exported operations see the effects of some sequential order of their operations consistent with real time: no update is lost, no nonce is used twice, every transaction gets its own receipt. No interleaving races, deadlocks or panics.",
     ["schedules"], "all interleavings of concurrent requests and operations",
     "All tests are sequential per chain.",
     ["tevm/evm.go", "tevm/transport.go"],
     [("chain lock", "tevm/evm.go, tevm/transport.go")],
     ["operation histories checked for linearizability", "race reports"],
     check="c27", technique="linearizability checking of recorded concurrent histories (porcupine) against a sequential model, conservation and exactly-once monitors over stress rounds, race detector",
     note="Operations in process and over JSON-RPC and HTTP, with yields injected inside the critical sections through State.Trace; copies and views are used concurrently with the original; filters polled by several clients; requests that panic because of a failing upstream.",
     race=True)

prop("C28", "A forked chain reads through to the pinned block and survives upstream faults",
     "A chain forked from an upstream node at block n answers queries about untouched accounts with the upstream's state at block n exactly (balance, nonce, code, storage), whatever the upstream's later blocks, and local changes always take precedence over it, including deletions, zeroing and rollbacks. An upstream failure surfaces as an error or panic of that one request: it has no effect on the state of the fork, is not cached as an answer, and does not block later requests.",
     ["inputs", "histories", "fault_sequences"], "all upstream states, local histories and upstream failures",
     "The only fork test needs a public server and cannot run here.",
     ["tevm/evm.go", "tevm/transport.go"],
     [("fallback lookup", "tevm/evm.go")],
     ["answers against a fake upstream with scripted faults"],
     check="c28", technique="differential monitor: a fork of a fake upstream against a chain that holds the upstream's state itself, with the upstream failing at every request of an operation in turn",
     note="The upstream's other blocks hold another state; failures are transport errors, error responses and malformed answers; after each the fork must be as before, and the repeated operation must agree with the chain that never failed.")

prop("C29", "Compilation caching is transparent and touches only its own files",
     "Compiling the same sources always yields the bundle the compiler would produce: a cached result equals a fresh one in every field, any change to file names, contents or the boundaries between them, or to the compiler's version, leads to a fresh compilation, and a damaged cache entry is never returned as a valid bundle. Cache maintenance creates and removes only cache entries of this library inside the temporary directory.",
     ["inputs", "histories", "fault_sequences"], "all source sets, edits, compiler versions and corrupted cache files",
     "Compile tests need the solidity compiler, so none runs here; none looks at the cache.",
     ["compile.go", "compile_gen.go"],
     [("cache key", "compile.go"), ("cache read/write", "compile.go")],
     ["bundles and file-system effects with a recording stand-in compiler"],
     check="c29", technique="runtime monitoring: histories of edits, compiler versions, damaged cache entries and failed writes against a stand-in compiler; oracle = the stand-in's own answer and snapshots of every other file",
     note="The solidity compiler is a stand-in (none is installed). The code under test runs as an unprivileged user with a scratch directory.")

prop("C30", "Source maps attribute each instruction to the right source range",
     "For any compiled contract, the source range reported for a program counter is the one the compiler's source map assigns to the instruction at that counter, for every opcode including those with immediate data, with compressed source-map entries inheriting the previous fields; positions without a source are reported as such without failing.",
     ["inputs", "programs"], "all bytecode and source-map pairs",
     "Compile tests need the solidity compiler; none checks positions after multi-byte pushes.",
     ["compile.go"],
     [("source map expansion", "compile.go")],
     ["positions against a direct interpretation of the source-map format"],
     check="c30", technique="runtime monitoring: SourceOf for every program counter of generated bytecode and source maps; oracle = a direct reading of the source-map format",
     note="Bundles are built directly and through a stand-in compiler.")

prop("C31", "Generated bindings compile and perform the call they are named after",
     "For any contract ABI over the types the generator supports, the generated Go code compiles and each method sends a call or transaction to the bound address with the selector and argument encoding of that ABI function, and decodes its results into the returned values in order. An ABI it cannot support is refused with an error instead of producing code that miscompiles or calls something else, and so are contracts that are missing or named twice, sources that cannot be read or compiled and outputs that cannot be written; a refusal leaves no partial output.",
     ["programs", "inputs"], "all contract ABIs",
     "The only test of the generator needs the solidity compiler.",
     ["bindgen/main.go"],
     [("code template", "bindgen/main.go"), ("type mapping", "bindgen/main.go")],
     ["compilation of the output, and calls it makes against a fake server"],
     check="c31", tools=["bindgen"], technique="runtime monitoring: the built generator runs on random ABIs through a stand-in compiler; its output is compiled and every method called by reflection against a recording server; oracle = independent ABI encoder and the answers given",
     note="The solidity compiler is a stand-in (none is installed).")

prop("C32", "The command line signs with the key it was told to use",
     "With any set of keys in the key directories (and whatever other files are there), a command whose key specification (a regular expression over the lowercase 0x-prefixed addresses and the listed names of the keys; a key is listed under its name, or its id if it has none) fits exactly one key signs with that key and no other and prints a signature of the exact input that recovers to that key's address; it refuses, with a failure status and without a signature, when the specification fits no key or several, or the password is wrong or cannot be asked for. Recovering prints the address or key that made a signature and refuses invalid signatures. Generating a key writes a keyfile that is readable only by the owner, opens with the chosen password and no other, is a fresh key, and never replaces an existing file.",
     ["inputs", "configurations", "histories"], "all key directories, key selections and passwords",
     "The command line tools have no tests.",
     ["cmd/eth/keys.go", "cmd/eth/keygen.go", "cmd/eth/sign.go", "cmd/eth/recover.go"],
     [("key lookup", "cmd/eth/keys.go")],
     ["output of the built tool, recovered signer"],
     check="c32", tools=["cmd/eth"], technique="runtime monitoring: the built tool runs as an unprivileged user at a pseudo-terminal on generated key directories, key specs, passwords and inputs; oracle = independent spec matcher and reference-curve recovery of every signature, an independent key file reader and file-system state for generated keys",
     note="Hardware keys are not exercised (no device or library).")

prop("C33", "Command-line arguments reach the contract as written",
     "A call or transaction made from the command line carries exactly the typed arguments given, encoded per the ABI with each integer's full range (signed and unsigned, any width), booleans, addresses, byte strings and arrays, and prints the returned values exactly. The transaction goes to the address given, is signed by the key selected, has the nonce and gas price of the options (or the node's pending nonce) and carries no value. Arguments that do not fit their type or do not match the signature in number, unsupported types, malformed signatures, functions that are not in the contract's jump table (unless forced) and failures of the node or of the key are refused with a failure status before anything is sent, and answers that do not fit the return types are refused without printing a value.",
     ["inputs"], "all signatures and argument strings",
     "The command line tools have no tests.",
     ["cmd/eth/call.go", "cmd/eth/read.go", "cmd/eth/jumptab.go"],
     [("argument parser", "cmd/eth/call.go")],
     ["requests seen by a fake server, printed output"],
     check="c33", tools=["cmd/eth"], technique="runtime monitoring: the built tool runs against a recording node with generated signatures, arguments, contract code and answers; oracle = independent ABI encoder, transaction decoder and sender recovery over the recorded requests, and the printed output",
     note="The empty signature () (the fallback function) and addresses one digit short are not judged.")

prop("C34", "Hardware-module keys and signatures are used exactly, and failures reported",
     "Unlocking a hardware module succeeds exactly if the module authenticates the session, and a locked module gives neither keys nor signers. The keys listed are exactly the secp256k1 keys on the module that may sign, each with its own identifier and public key, also after earlier failures. A signer has the module sign exactly the given digest with exactly the key asked for, and returns a canonical low-s signature that recovers to that key, or an error when the module answers anything else; nothing the module or the user gives makes it panic. Sessions and buffers shared with the vendor's library stay valid while it uses them and sessions are released once. The command line lists and signs with module keys alike.",
     ["inputs", "histories", "fault_sequences"], "all passwords, key sets, digests, module answers and failures, in every order, and collections at any point",
     "The one test needs a module and is not even compiled without the vendor's library.",
     ["yubihsm/yubihsm.go", "yubihsm.go", "hsm.go", "cmd/eth/hsm.go", "cmd/eth/keys.go"],
     [("bindings to the vendor library", "yubihsm/yubihsm.go"), ("keys and signers", "yubihsm.go")],
     ["calls seen by a stand-in for the vendor's library, AddressSanitizer"],
     check="c34", tools=["cmd/eth"], yubisim=True, asan=True, build=["-asan", "-tags", "yubihsm"],
     technique="runtime monitoring and AddressSanitizer: the real bindings run against an instrumented stand-in for the vendor's C library with scripted answers, failures, delays and forced collections; oracle = its call log and reference ECDSA",
     note="The vendor's library and the module are a stand-in with the same calling contract; the encryption of the session is the vendor's and not judged.")


prop("C35", "The command line shows and relays exactly what the chain holds",
     "Balances are printed exactly for every amount (as decimal ether, or as an integer or hex on request), contract code and jump tables are printed as they are, block arguments (numbers, named blocks, and forward and backward ranges of them) print every field of exactly the blocks they name, in order, and posted raw transactions reach the node byte for byte, in order, once. Malformed arguments, ranges that leave the chain, and failures of the node end in a failure status, without output that is not the chain's and, for posting, before anything is sent if an input is malformed.",
     ["inputs", "fault_sequences"], "all balances, codes, chains, block arguments and raw transactions",
     "The command line tools have no tests.",
     ["cmd/eth/balance.go", "cmd/eth/block.go", "cmd/eth/code.go", "cmd/eth/jumptab.go", "cmd/eth/post.go", "cmd/eth/client.go", "dial.go"],
     [("block ranges", "cmd/eth/block.go"), ("jump table scan", "cmd/eth/jumptab.go")],
     ["output of the built tool and requests seen by a fake node"],
     check="c35", tools=["cmd/eth"], technique="runtime monitoring: the built tool runs against a node with a generated chain over HTTP, a socket and the default socket; oracle = the node's data compared with the output, and the recorded requests",
     note="Jump tables are those of the forms the tool documents; a printed block's quantities are compared as numbers.")


prop("C36", "Logs, functions, bytecode and modules are told apart exactly",
     "A log is reported as a token transfer exactly if it is one - its topics are the hash of Transfer(address,address,uint256) and two one-word arguments, and its data is one word - and then with the block, transaction index, token, parties and full amount of the receipt and log. A function or event is found by exactly its canonical signature (tuples written as the list of their components, overloads told apart) and never by less. Compiler metadata is found and stripped exactly if the code ends in it, code without it is left unchanged. A hardware module is found by exactly the name it was registered under, and asked once, with the hints given.",
     ["inputs", "histories"], "all logs, ABIs, bytecodes and registries",
     "Tests strip one bytecode (and need the compiler for it); no test parses a transfer or looks anything up that is nearly right.",
     ["seth.go", "abi.go", "compile.go", "hsm.go"],
     [("transfer parsing", "seth.go"), ("signatures", "abi.go"), ("metadata", "compile.go"), ("module registry", "hsm.go")],
     ["return values of ParseTransfer, Find, Signature, MetadataHash, StripBytecode, FindHSM"],
     check="c36", technique="runtime monitoring: generated logs (alone and in receipts from a node), ABIs, bytecodes and registry histories, each well-formed or wrong in one way; oracle = independent recognisers and signature builder",
     note="Whether the padding of address topics is zero is not judged.")


prop("C37", "A currency denotes what was registered under its name, for good",
     "A registered currency's name and token address denote that currency, with its decimals, for good: every lookup by name or address (address written in any letter case) finds exactly what was registered, and names and addresses that were not registered are never found or parsed. Registering the same currency again changes nothing; a registration with an empty name, a malformed address, or a name or address that belongs to another currency is refused and changes nothing. What lookups return can be changed by the caller without effect on the registry, and lookups may run concurrently.",
     ["histories", "inputs", "schedules"], "all histories of registrations and all sets of concurrent lookups",
     "No test registers a currency.",
     ["cc/currency.go"],
     [("registration", "cc/currency.go"), ("lookup by name and address", "cc/currency.go")],
     ["return values and panics of NewCurrency, NewToken, CurrencyByName, TokenByAddress, UnmarshalText, ParseAmount and the methods of Currency"],
     check="c37", race=True, technique="runtime monitoring: generated histories of registrations (new, repeated, conflicting, malformed) and changes of returned addresses against a model of the registry, all names and addresses looked up after every step; concurrent readers under the race detector",
     note="Registration is documented not to be safe for concurrent use and is not run concurrently.")

prop("C38", "An operation ends and leaves nothing behind",
     "Every operation ends once its peer (node, connection, compiler) has answered, failed or gone away. Once it has ended, with success or failure, nothing of it stays behind: every HTTP response body is closed, a client has at most one open connection (none once the peer closed it and the pending calls failed), and every goroutine, file and compiler process it started is gone; a closed filter is uninstalled from the node, and the goroutine of a closed or failed filter or of a stopped block iterator ends whether or not anyone reads from it.",
     ["histories", "fault_sequences", "schedules"], "all histories of calls, filters, compilations and chain operations and all ways their peers can answer, fail or go away",
     "Tests never count anything after a call, and use peers that answer.",
     ["client.go", "dial.go", "filter.go", "compile.go", "tevm/transport.go"],
     [("response bodies", "client.go"), ("connections", "dial.go"), ("filter goroutines", "filter.go"), ("compiler processes", "compile.go")],
     ["counts of response bodies, connections, open files, child processes and goroutines of a worker process after every operation"],
     check="c38", technique="runtime monitoring: worker processes of an unprivileged user run histories of operations against hostile HTTP servers, connections, filters and compilers and count response bodies, connections, files, processes and goroutines after each; watchdog for operations that do not end")
prop("C39", "tevmd serves the chain that its command line names",
     "tevmd without arguments serves a new chain; 'tevmd fork N' serves the source's chain as of block N, and 'tevmd fork' as of the source's latest block at that time; the source is the URL or socket given with -e, or main net at Infura without it. It listens where -a says and tells the address of a default account, which has at least one ether. Clients, many at once, see one chain: balances, contract code and storage are those of the source at that block, until transactions sent to the daemon change them, and every accepted transaction has a distinct hash, a receipt and took effect exactly once. The source is only read, and only at that block; while it fails, what depends on it is an error. Malformed requests are answered with errors and do no harm. Any other command line (unknown arguments, bad or negative block numbers, too many arguments), a source that is missing or fails to name its latest block, and an unusable address make it end with an error, without a panic and without serving any chain.",
     ["configurations", "inputs", "histories", "schedules", "fault_sequences"], "all command lines, sources and their failures, and all histories of requests of any number of clients",
     "No test runs the daemon.",
     ["tevm/tevmd/main.go", "tevm/transport.go", "tevm/evm.go", "client.go"],
     [("command line", "tevm/tevmd/main.go:main"), ("serving requests", "tevm/transport.go:ServeHTTP"), ("forks", "tevm/evm.go:NewFork")],
     ["exit status, standard error and HTTP answers of the running daemon; requests that reach its source"],
     check="c39", technique="runtime monitoring: the daemon is built with the race detector and run as an unprivileged user against generated sources (HTTP, socket, and Infura through an intercepting TLS proxy); a ledger model checks its answers, a recorder checks the requests that reach the source, and bad command lines must end with an error",
     tools=["tevm/tevmd"], tools_race=True)

prop("C40", "The ERC-20 compliance test passes compliant tokens and fails others",
     "For every token contract on a simulated chain, whatever happened on the chain before and whether or not the token has an owner or can be burned: erc20.TestCompliance passes if the token is compliant, whether its failing transfers throw or return false, and fails, without a panic, if in what its scenario exercises the token breaks a rule: a mint, transfer, transferFrom or burn that changes a balance by another amount than asked (compared exactly), a call that reverts or does not return true, no event, more than one or a wrong one (topic, parties, indexed arguments, emitting contract), an approval that is not recorded, a transferFrom beyond the allowance that succeeds, moves tokens or emits events, a burn that does not lower the supply by its amount, or a Mint that returns an error. erc20.TestABICompliance fails exactly if one of the required functions and events is missing, has another kind or other parameters, or if a function's constancy or an event's indexed arguments differ.",
     ["programs", "inputs"], "all token contracts, interfaces and chains",
     "The one test has one compliant token, which needs a compiler.",
     ["tevm/erc20/compliance.go"],
     [("scenario", "tevm/erc20/compliance.go:TestCompliance"), ("interface", "tevm/erc20/compliance.go:TestABICompliance")],
     ["outcome of the test functions: pass, fail or panic"],
     check="c40", technique="runtime monitoring: the test functions are run on assembled tokens that comply or break one rule, and an oracle that knows the rule watches for the verdict and for panics",
     note="What the scenario does not exercise (amounts in events, remaining allowances, other accounts) is not judged.")
