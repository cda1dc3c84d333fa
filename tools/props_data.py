prop("C01", "Account deltas apply only to the state they were made for and undo exactly",
 """Applying a recorded change to an account value succeeds only when the change's old value equals the current value, and then yields exactly its new value; a balance change yields exactly the
 sum or an error. Merging changes of the same item keeps the first old value and the last new one, merges every element or reports an error, and drops balances that became zero; a refused balance change leaves the balances as they were, and the undo
 data returned by a merge is exactly the inverse change.""",
 "inputs histories", "every pair of current value and change, every sequence of merges and undos",
 "The tests merge a few hand-written deltas; the cases are products of current value, old and new value and the numeric range.",
 "accounting/src/delta/combine.rs accounting/src/delta/delta_data_collection/mod.rs accounting/src/delta/delta_amount_collection.rs",
 [("combination of value and change", "accounting/src/delta/combine.rs"), ("merge and undo of data changes", "accounting/src/delta/delta_data_collection/mod.rs"), ("merge and undo of balances", "accounting/src/delta/delta_amount_collection.rs")])

prop("C02", "Amounts, heights and times never wrap around",
 """Every arithmetic operator, sum and conversion offered on coin amounts, signed amounts, block heights, distances and counts, and times yields the mathematically exact result, or
 reports failure, which it does only when the exact result does not fit; the operators documented as saturating saturate.""",
 "inputs", "all operand values of the 64- and 128-bit types",
 "Unit tests sample a handful of operands; the boundary cases differ per operator.",
 "common/src/primitives/amount/mod.rs common/src/primitives/amount/signed.rs common/src/primitives/height.rs common/src/primitives/time.rs",
 [("checked operators", "common/src/primitives/amount/mod.rs"), ("mixed height/distance arithmetic", "common/src/primitives/height.rs"), ("time arithmetic", "common/src/primitives/time.rs")])

prop("C03", "Range-restricted values cannot be built out of range",
 """No code path builds a per-mille ratio above 1000, a 31-bit derivation index with its top bit set, or a user agent that is empty, longer than 24 bytes or contains other than printable
 ASCII characters; exactly the values within range are accepted.""",
 "inputs programs", "every construction site in the program and every input reaching it",
 "Tests check that some bad values are refused by one constructor; they cannot show that no other construction path exists.",
 "common/src/primitives/per_thousand.rs crypto/src/key/hdkd/u31.rs common/src/primitives/user_agent.rs",
 [("validated constructors and private fields", "common/src/primitives/per_thousand.rs"), ("validated constructors and private fields", "crypto/src/key/hdkd/u31.rs")],
 technique="construction-site enumeration over typed MIR + path-sensitive range analysis")

prop("C11", "Signatures verify exactly the given message under the given key",
 """Signature verification accepts exactly when the signature scheme accepts the given signature for the hash of the whole message under the given public key, and refuses every malformed
 signature or key; signing signs that same hash with the own key, with nonces from the given source.""",
 "inputs", "all messages, keys and signature bytes",
 "Tests check a few round trips and a few corrupted signatures.",
 "crypto/src/key/mod.rs crypto/src/key/signature/mod.rs crypto/src/key/secp256k1/mod.rs",
 [("verification entry points", "crypto/src/key/mod.rs"), ("scheme calls", "crypto/src/key/secp256k1/mod.rs")])

prop("C12", "Encrypted data has a fresh nonce and opens only after authentication",
 """Every encryption draws its whole nonce from the random generator of that call and outputs the nonce followed by the ciphertext under the holder's key, authenticating the associated data
 given. Plaintext is returned only when the authenticated decryption of the entire input under that key, nonce and associated data succeeded; input of any content or length gives an error, never a panic.
 A key agreement is refused exactly with one's own public key.""",
 "inputs histories", "all messages, ciphertexts, associated data and sequences of encryptions",
 "Tests decrypt a few ciphertexts; nonce reuse and skipped authentication never show in a round trip.",
 "crypto/src/symkey/mod.rs crypto/src/symkey/chacha20poly1305/mod.rs crypto/src/ephemeral_e2e/mod.rs",
 [("AEAD calls", "crypto/src/symkey/chacha20poly1305/mod.rs"), ("end-to-end keys", "crypto/src/ephemeral_e2e/mod.rs")])

prop("C13", "Password hashes are salted and secrets are compared in full, in constant time",
 """A stored password hash is the memory-hard hash of the password under a salt drawn from the given generator, and verification recomputes it with the stored salt and parameters and accepts
 exactly on equality. The timing-resistant comparison is true exactly for equal byte strings and does not branch on the compared bytes.""",
 "inputs", "all passwords, salts, parameters and byte strings",
 "Tests compare a few strings and cannot observe timing or the salt's origin.",
 "crypto/src/kdf/mod.rs crypto/src/kdf/argon2.rs crypto/src/util/eq.rs",
 [("hash and verify", "crypto/src/kdf/mod.rs"), ("comparison", "crypto/src/util/eq.rs")])

prop("C14", "Secrets come from the operating system's cryptographic randomness",
 """The generator used for secrets is a cryptographic one seeded by the operating system, functions of the cryptography code that draw randomness accept only cryptographic generators,
 and every newly generated key is drawn in full from such a generator; no seeded or non-cryptographic source is used there.""",
 "inputs programs", "every key generation path of the cryptography code",
 "Randomness of output cannot be judged from a handful of samples: a key of 24 random bytes and 8 zero bytes passes every round-trip test.",
 "randomness/src/lib.rs randomness/src/adapters.rs crypto/src/key/secp256k1/mod.rs crypto/src/key/secp256k1/extended_keys.rs crypto/src/symkey/mod.rs crypto/src/vrf/mod.rs crypto/src/ephemeral_e2e/mod.rs",
 [("secure generator", "randomness/src/lib.rs"), ("forwarding adapters", "randomness/src/adapters.rs"), ("key generation", "crypto/src/key/mod.rs")],
 technique="value provenance over path summaries + trait-bound and reachability queries on the typed program")

prop("C15", "Derived keys depend on parent, chain code and index as standardised",
 """Deriving a child key hashes the parent key material the standard prescribes for hardened and normal indices under the parent's chain code and combines the result with the parent as
 prescribed, public derivation mirroring private derivation and refusing hardened indices. Absolute derivation extends the own path step by step and is refused when the path does not extend it;
 textual paths and indices parse to exactly what they denote or are refused, and are written, as text and as bytes, as what reads back as the same.""",
 "inputs", "all keys, chain codes, indices and paths",
 "Test vectors cover a few seeds and paths; derivation differs per kind of index and key.",
 "crypto/src/key/extended.rs crypto/src/key/secp256k1/extended_keys.rs crypto/src/key/hdkd/derivation_path.rs crypto/src/key/hdkd/child_number.rs crypto/src/vrf/schnorrkel/mod.rs",
 [("child derivation", "crypto/src/key/secp256k1/extended_keys.rs"), ("paths", "crypto/src/key/hdkd/derivation_path.rs"), ("VRF keys", "crypto/src/vrf/mod.rs")])

prop("C16", "VRF output is accepted only with a proof for this key and transcript",
 """Verification of VRF data succeeds exactly when the scheme verifies the output and proof for the given key over the given transcript, and fails with an error otherwise. VRF data is produced with the
 own key over the given transcript, the extracted output is that of the verified pre-output and the same transcript, and a transcript is exactly its label followed by the attached items in order.""",
 "inputs", "all keys, transcripts and proofs",
 "Tests verify one or two honest proofs.",
 "crypto/src/vrf/mod.rs crypto/src/vrf/primitives.rs crypto/src/vrf/schnorrkel/mod.rs crypto/src/vrf/transcript/mod.rs",
 [("verification and production", "crypto/src/vrf/schnorrkel/mod.rs"), ("transcripts", "crypto/src/vrf/transcript/mod.rs")])

prop("C17", "Streamed hashing equals hashing the concatenation of what was written",
 """A hash stream accumulates exactly the bytes written to it, in order, in the same hash function as the one-shot hash of that kind; finalising returns that digest and leaves a fresh stream; composed hashes are
 the composition of their parts.""",
 "inputs histories", "all sequences of writes and finalisations, all hash kinds",
 "Tests hash a few fixed strings.",
 "crypto/src/hash/mod.rs",
 [("hash kinds and streams", "crypto/src/hash/mod.rs")])

prop("C22", "SQLite store: transactions, statements and errors",
 """The first read-only transaction of the SQLite store begins a transaction of the database and the last one dropped rolls it back, so that any number of them share one snapshot; a write transaction begins its own,
 commits only through commit, and is rolled back when dropped uncommitted. Every lookup, write, deletion and iteration uses the statement of its own map with exactly the key and value given; iteration yields in key order
 every row with the prefix (or with a key not below the given one); a lookup yields nothing only when there is no row. Every error of SQLite is reported to the caller, and commit succeeds only when SQLite's does.
 The database is opened at the configured path in exclusive mode, creates each missing table and no other, and syncs to disk unless the options turn that off.""",
 "histories schedules crashes inputs", "all sequences of transactions and operations on all maps, keys and values, every point where SQLite may fail",
 "Tests run short scripts against a healthy database; failing statements, overlapping read-only transactions and the settings that matter at a crash are not exercised.",
 "storage/sqlite/src/lib.rs storage/sqlite/src/queries.rs storage/sqlite/src/error.rs",
 [("transactions and operations", "storage/sqlite/src/lib.rs"), ("statement texts", "storage/sqlite/src/queries.rs"), ("errors", "storage/sqlite/src/error.rs")])

prop("C24", "The RPC server lets nobody in without the configured credentials",
 """When credentials are configured, a request reaches the server's methods only when its Basic authorization header decodes to exactly the configured user name and password;
 both are always compared, and requests with the right credentials are let through. The authentication layer is installed whenever credentials are configured.""",
 "inputs configurations", "all request headers and configurations",
 "Tests try a handful of headers.",
 "rpc/src/rpc_auth/mod.rs rpc/src/lib.rs",
 [("header validation", "rpc/src/rpc_auth/mod.rs"), ("server construction", "rpc/src/lib.rs")])

prop("C25", "The RPC cookie is private, fresh, complete when visible, and removed",
 """Without explicit credentials the server generates a random password and publishes it in a cookie file that is created readable only by its owner, completely written before it appears under its final name, and
 removed when the server's credentials are dropped; explicit user and password must be given together and exclude a cookie file. Clients send exactly the credentials they were configured with.""",
 "configurations crash_points", "all credential configurations, a crash at any step of creating the cookie",
 "Tests create one cookie and read it back; the file's mode at creation and what a crash leaves behind are not observed.",
 "rpc/src/rpc_creds.rs rpc/src/lib.rs rpc/src/lib.rs utils/src/cookie.rs",
 [("credentials and cookie life cycle", "rpc/src/rpc_creds.rs"), ("clients", "rpc/src/lib.rs")])

prop("C38", "Decimal amounts denote exactly the value written",
 """Parsing a decimal amount, scaling it to a number of decimals, removing padding and subtracting two of them yields exactly the value denoted or is refused; scaling down is refused unless the dropped digits are
 zero; no text makes parsing panic. Amounts, signed amounts and per-mille ratios are written as the digits they stand for, with at least one digit before the point, and amounts in RPC requests and replies are the amount
 named, in atoms or decimal.""",
 "inputs", "all texts and all 128-bit mantissas with up to 255 decimals",
 "Tests sample formats; digit counts, overflow and padding interact.",
 "common/src/primitives/amount/decimal.rs common/src/primitives/amount/signed.rs common/src/primitives/amount/rpc.rs common/src/primitives/per_thousand.rs",
 [("parsing, scaling, padding, subtraction", "common/src/primitives/amount/decimal.rs")])

prop("C21", "In-memory store: transactions see their own writes and publish them on commit",
 """Within a read-write transaction of the locking in-memory store, lookups and ordered iteration show the stored data overlaid with exactly the transaction's own writes and deletions; nothing it wrote is
 visible outside before commit, and a successful commit has applied every one of its changes. A read-only transaction holds the store's shared lock and a read-write one its exclusive lock for
 as long as it lives; iteration by prefix yields exactly the entries whose key starts with it, in key order.""",
 "histories schedules inputs", "all sequences of reads, writes, deletions, aborts and commits, all keys and prefixes, all interleavings of transactions",
 "The backend tests run a fixed set of short transaction scripts; the overlay has a case per combination of stored and changed entry.",
 "storage/core/src/adaptor/locking.rs storage/core/src/util.rs storage/core/src/types.rs storage/inmemory/src/lib.rs",
 [("overlay, buffering and commit", "storage/core/src/adaptor/locking.rs"), ("prefix iteration", "storage/core/src/util.rs"), ("maps", "storage/inmemory/src/lib.rs")])

prop("C04", "Wide integers report every result that does not fit",
 """The checked operations of the 128-, 256- and 512-bit integers report failure exactly when addition leaves a carry, the subtrahend is greater, the upper half of a product is nonzero, or the divisor is zero;
 the plain operators panic in exactly those cases and never wrap. Narrowing to fewer bits fails exactly when a dropped word is nonzero, widening keeps every word, and comparison is decided by the most significant
 differing word. A reported sum, difference, product, quotient or remainder is exact.""",
 "inputs", "all operand values",
 "Unit tests use a few operands; overflow is a vanishing fraction of the operand space.",
 "common/src/uint/impls.rs common/src/uint/internal_macros.rs common/src/uint/mod.rs",
 [("operators and comparison", "common/src/uint/internal_macros.rs"), ("conversions", "common/src/uint/impls.rs")],
 note="Sums are followed limb by limb at 128 and 256 bits and differences at 128 bits (the macro body is shared by all widths). The numerical result of multiplication and division is taken as given: only which results are reported and the guards are decided.")

prop("C05", "Text addresses name one kind of object on one chain and are checksummed",
 """Address text is decoded only with the bech32m checksum, and yields an object only if its prefix equals the prefix of that kind of object on that chain and the whole payload decodes to the object;
 encoding uses the same prefix and checksum. Different kinds of objects have different prefixes on the same chain, and the same kind has different prefixes on different chains.""",
 "inputs", "all texts, object kinds and chains",
 "Tests decode a few addresses; a prefix collision or a laxer checksum shows only for texts they do not contain.",
 "common/src/address/mod.rs common/src/address/traits.rs common/src/primitives/bech32_encoding/mod.rs common/src/chain/config/mod.rs",
 [("encoding and decoding", "common/src/primitives/bech32_encoding/mod.rs"), ("prefixes", "common/src/chain/config/mod.rs"), ("addresses", "common/src/address/mod.rs")],
 technique="path-sensitive symbolic summaries of typed MIR + enumeration of the prefix constants")

prop("C30", "Wallet secrets are stored only under the wallet's key",
 """In a wallet with a password every root key, seed phrase and standalone private key is stored only encrypted, with the wallet's key and a nonce from the secure generator, and read only after authenticated
 decryption with it. Changing the password re-encrypts every stored secret in one transaction, and the new key takes effect only after the commit succeeded; unlocking succeeds only with a key that decrypts every
 stored root key; locking drops the key; the key comes from a salted memory-hard hash of the password.""",
 "inputs histories crash-points", "every stored secret, password change, unlock and lock, at every point of failure",
 "Tests encrypt and unlock one wallet; a secret left in plain text or a state changed before commit stays invisible to them.",
 "utils/src/maybe_encrypted.rs wallet/storage/src/internal/mod.rs wallet/storage/src/internal/store_tx.rs wallet/storage/src/internal/password.rs",
 [("encrypted values", "utils/src/maybe_encrypted.rs"), ("wallet store state", "wallet/storage/src/internal/mod.rs"), ("stored secrets", "wallet/storage/src/internal/store_tx.rs"), ("password", "wallet/storage/src/internal/password.rs")])

prop("C06", "Script execution stays within its limits",
 """A script longer than the limit is refused before it runs; data longer than the element limit is refused whether or not its branch is executed; after every instruction the main and the alternate stack together hold no
 more elements than the limit; numeric operands have at most four bytes and lock times at most five; a multisignature check takes between zero and the maximum number of keys and at most as many signatures as keys.
 Nothing within these limits is refused on their account.""",
 "inputs", "all scripts and stacks",
 "Tests probe single limits with scripts of their own; an instruction or branch that escapes a limit is seen only by a script made for it.",
 "script/src/interpreter.rs script/src/script.rs script/src/context.rs",
 [("limits while running a script", "script/src/interpreter.rs"), ("numbers", "script/src/script.rs"), ("defaults", "script/src/context.rs")])

prop("C07", "Script operations do exactly what their opcode stands for",
 """Every opcode byte has its defined class. Disabled opcodes fail a script wherever they appear; other operations act only in executed branches; conditionals nest, open a branch that is executed exactly if it is reached and its condition
 is met, and must be balanced at the end; a code separator takes effect exactly when executed. Every stack, arithmetic, comparison, hash and flow operation has its defined effect on the stack, its
 verifying variant fails exactly if the result is false, and no operation fails otherwise than for missing or malformed operands.""",
 "inputs", "all scripts, stacks and opcodes",
 "Tests run a sample of scripts; opcodes, nesting of conditionals and operand values combine without bound.",
 "script/src/interpreter.rs script/src/opcodes.rs script/src/util.rs",
 [("interpreter", "script/src/interpreter.rs"), ("opcode classes", "script/src/opcodes.rs"), ("hashes", "script/src/util.rs")],
 note="The numerical encoding of results (build_scriptint, read_scriptint) and the hash functions themselves are taken as given; overflow panics of 64-bit arithmetic on 32-bit operands are excluded by the operand size decided in C06.")

prop("C08", "A witness opens a lock only by pushing data that makes it true",
 """A witness script may only push data and small numbers, in order, onto an empty stack; the lock then runs on that stack, and is satisfied exactly if this leaves exactly one element and it is true. An element is false
 exactly if it is empty or all its bits other than the sign are zero.""",
 "inputs", "all witnesses and locks",
 "Tests check a few witness and lock pairs.",
 "script/src/interpreter.rs script/src/script.rs",
 [("acceptance", "script/src/interpreter.rs"), ("truth values", "script/src/script.rs")])

prop("C09", "Script signature checks accept only enough valid signatures in key order",
 """A signature operation checks the signatures found below the keys on the stack against those keys and the script part since the last executed code separator. Signatures are matched to keys in order, each key being used
 once; a check succeeds exactly if every signature was matched, and fails as soon as fewer keys than signatures remain; a malformed key fails the script and a reserved kind of key is accepted. The operands are replaced
 by the result, the extra element of a multisignature must be empty, and the verifying variants fail the script if the result is false.""",
 "inputs", "all stacks, numbers of keys and signatures, and outcomes of the single checks",
 "Tests use a test context with few keys; matching depends on the position of every failing signature.",
 "script/src/interpreter.rs",
 [("signature operations and matching", "script/src/interpreter.rs")])

prop("C10", "Scripts are read and written without loss",
 """Reading a script yields, in order, every operation and exactly the data of every push, within the bounds of the script; a push that is cut short, or not minimal where that is enforced, is an error after which nothing
 more is read. Building writes data behind the shortest push operation holding its length, small numbers and single bytes as their opcode where minimal encoding is asked for, and replaces exactly the last operation
 by its verifying variant. The text form shows the same instructions and data.""",
 "inputs", "all scripts, data lengths and operations",
 "Tests cover a few lengths; boundaries between push operations and truncated scripts are many.",
 "script/src/script.rs script/src/opcodes.rs",
 [("instruction iterator, builder and text form", "script/src/script.rs"), ("push operations", "script/src/opcodes.rs")])

prop("C18", "Wide integers, bytes and bits correspond position by position",
 """Reading a 16-, 32-, 64-, 128-, 256- or 512-bit integer from bytes and writing it to bytes, in either byte order, keeps every byte in its place and accepts only the exact length; widening, splitting and low-part
 conversions keep every bit; shifting by any amount, masking and testing any bit act on exactly those bits; a compact target denotes its mantissa in place, is refused exactly when negative or over 256 bits, and a
 256-bit number is stored as the canonical compact target.""",
 "inputs", "every value of every width, every shift distance, every mask width and every compact size byte",
 "The tests use a few constants; an error in one word, shift distance or byte position shows only for inputs that reach it.",
 "common/src/uint/endian.rs common/src/uint/impls.rs common/src/uint/internal_macros.rs common/src/primitives/compact.rs",
 [("byte order helpers", "common/src/uint/endian.rs"), ("wide integer conversions and shifts", "common/src/uint/impls.rs"), ("compact targets", "common/src/primitives/compact.rs")],
 technique="bit-provenance dataflow: loops of constant bounds are followed over symbolic words, and each result bit is traced to the input bit it copies",
 note="bit_slice is decided for nine start/end pairs per width; Debug and hexadecimal text are not covered.")

prop("C19", "Encoded texts are read whole or not at all",
 """An object is read from a hexadecimal text, a raw encoding or the data of an address exactly if all of the bytes together are the encoding of an object of its type: anything left over, missing or malformed is
 an error, never a value. The text written is the hexadecimal of the object's own encoding; the JSON form is the object's own.""",
 "inputs", "all texts and types",
 "Tests decode well-formed texts of a few types; trailing bytes and other types stay untested.",
 "serialization/src/hex.rs serialization/src/hex_encoded.rs serialization/src/encoded.rs serialization/src/json_encoded.rs common/src/address/traits.rs",
 [("hexadecimal texts", "serialization/src/hex.rs"), ("wrappers", "serialization/src/hex_encoded.rs"), ("address data", "common/src/address/traits.rs")])

prop("C20", "A tag selects exactly one variant and is never lost or read twice",
 """Tagged types are encoded with their tag as first byte. Decoding a directly encoded enumeration picks the variant whose tag is the first byte and decodes its fields from the same bytes, tag included; any other byte is an
 error, and nothing panics. Looking at a tag leaves the input unchanged for all later reads of any size. An input given up with a tag looked at but not read stops the program. Variants with equal tags do not compile. A possibly absent list is encoded as the list alone and read back as absent
 exactly if it is empty, so a present list is never empty.""",
 "inputs", "all encoded inputs, enumerations, and sizes of reads",
 "Tests decode a few types from slices read in one fixed pattern; reads of other sizes and malformed tags are not met.",
 "serialization/tagged/src/lib.rs serialization/tagged/src/derive_support.rs serialization/tagged/derive/src/direct.rs serialization/tagged/derive/src/tagged.rs serialization/src/extras/non_empty_vec.rs",
 [("peeking input", "serialization/tagged/src/derive_support.rs"), ("tags", "serialization/tagged/src/lib.rs"), ("derive macros", "serialization/tagged/derive/src/direct.rs"), ("possibly absent list", "serialization/src/extras/non_empty_vec.rs")],
 technique="path-sensitive symbolic summaries of typed MIR, also of witness types expanded by the derive macros")

prop("C23", "Each typed map reads and writes only its own entries under its own keys",
 """Every operation of a typed map goes to the map at its own place in the schema, under the encoded key, within its transaction; a value read is the value stored under that key, an absent key reads as absent, and iteration
 yields each entry of this map from the given key or prefix on, its own key with its own value. Errors of the store are reported. Declared prefixes begin the encoding of their keys, ordered values encode most significant
 byte first, loading a dump writes every entry to its own map and commits, and per-map data of a backend is kept in schema order under unique names.""",
 "inputs", "all schemas, maps, keys and values",
 "Tests use one small schema and a few keys; a wrong index or prefix shows only with other maps or keys present.",
 "storage/src/database/mod.rs storage/src/database/raw.rs storage/src/schema.rs storage/src/order_preserving_value.rs storage/core/src/types.rs wallet/types/src/account_id.rs",
 [("typed maps", "storage/src/database/mod.rs"), ("schema", "storage/src/schema.rs"), ("per-map data", "storage/core/src/types.rs")],
 technique="path-sensitive symbolic summaries of typed MIR, also of a witness schema expanded by the schema macro; prefix relation between types")

prop("C26", "RPC texts are read and written without loss, results become replies",
 """A hexadecimal string of the RPC interface holds exactly the bytes of its text and is written as all of them; a binary string is read from a bare text, a text or hexadecimal data, both only if they agree and never from
 neither, and is written as all of its bytes with the text exactly if they are UTF-8. A nested result becomes the innermost value, or an execution error with the message of the failure at whatever depth.""",
 "inputs", "all strings and results",
 "Tests read a few values; disagreeing, empty and non-UTF-8 data are rarely met.",
 "rpc/types/src/string.rs rpc/src/error.rs",
 [("string types", "rpc/types/src/string.rs"), ("results", "rpc/src/error.rs")])

prop("C29", "Every event reaches every subscriber once and in order",
 """Broadcasting sends the value exactly once to every subscriber, whatever happened to the others; a subscriber is only dropped when it is closed, and gets the other end of its own channel. The event controller hands
 every event to every handler, one call at a time in order, and waiting for all events returns only after every handler called so far has returned, seeing its effects. An RPC subscription passes on every event it
 keeps before taking the next, until there are no more or a failure is reported.""",
 "schedules", "all subscribers, closings, event sequences and interleavings of handlers",
 "Tests broadcast a few values to live subscribers; a closed subscriber between live ones, or a handler still running, needs a particular order of events.",
 "utils/networking/src/broadcaster.rs utils/src/eventhandler.rs utils/src/blockuntilzero.rs utils/src/counttracker.rs rpc/src/subscription.rs",
 [("broadcaster", "utils/networking/src/broadcaster.rs"), ("event controller", "utils/src/eventhandler.rs"), ("counting", "utils/src/blockuntilzero.rs"), ("RPC subscriptions", "rpc/src/subscription.rs")],
 note="The channel of tokio and the single worker thread of slave_pool are taken to keep order.")

prop("C31", "Atomic types do the operation named with the orderings of their kind",
 """Every operation of the atomic traits and of the simplified atomic types is the operation it is named for, applied to the wrapped atomic with the given values, in the given order, and with the memory orderings of the type's
 kind: relaxed, acquire-release or sequentially consistent, for every named type. A one-way flag can only be set and tells what it was; an action to be done once is done exactly when dropped, on every way out.""",
 "schedules", "all types, operations and interleavings",
 "Tests run single threads on strongly ordered machines, where a weaker ordering or a weak exchange never shows.",
 "utils/src/atomics/atomic_traits.rs utils/src/atomics/simple_atomic.rs utils/src/set_flag.rs utils/src/once_destructor.rs",
 [("traits", "utils/src/atomics/atomic_traits.rs"), ("simplified types", "utils/src/atomics/simple_atomic.rs"), ("flags", "utils/src/set_flag.rs")],
 technique="path-sensitive symbolic summaries of typed MIR, also of witness signatures naming every type")

prop("C27", "Subsystems shut down completely, one by one, last registered first",
 """The manager starts every registered subsystem. A signal, a trigger, or the end of any subsystem - by failing to start, a panic, or otherwise - shuts all down: the shutdown flag is set first, then each subsystem is told, in
 reverse order of registration, and awaited (up to the configured time) before the next one is told; the manager does not wait for itself. A subsystem told to shut down takes up nothing more, lets its running calls end, then
 runs its own shutdown once to its end, and only then, or whenever else it ends, says that it is gone. A panic in a task is not swallowed, and a manager handle dropped without joining panics.""",
 "schedules", "all subsystems, orders of events, failures and panics",
 "Tests shut down a few well-behaved subsystems; a missed task, a wrong order or a lost notification shows only for a particular interleaving or failure.",
 "subsystem/src/manager/manager_impl.rs subsystem/src/manager/shutdown_signal.rs subsystem/src/task.rs utils/src/once_destructor.rs",
 [("manager", "subsystem/src/manager/manager_impl.rs"), ("task of a subsystem", "subsystem/src/task.rs")],
 note="tokio's channels, tasks and biased select are taken to do what they document; timeouts are not measured.")

prop("C28", "A mutating subsystem call runs alone and every call is answered",
 """Every call made through a handle is handed to its own subsystem exactly once, and the caller gets the result of the procedure, or an error if the call could not be submitted or will not be answered. The subsystem takes calls from
 its channel one by one: a mutating call and background work run to their end under the write lock of its only state before anything else is taken up; a read-only call runs in a task of its own under the read lock. Blocking
 handles do the same and wait for the answer.""",
 "schedules", "all calls, handles and interleavings",
 "Tests make a few calls at a time; two calls overlapping, or a subsystem gone while a call is under way, needs a particular schedule.",
 "subsystem/src/task.rs subsystem/src/calls/mod.rs subsystem/src/calls/handle.rs subsystem/src/calls/blocking.rs subsystem/src/wrappers.rs",
 [("task of a subsystem", "subsystem/src/task.rs"), ("handles", "subsystem/src/calls/handle.rs"), ("results", "subsystem/src/calls/mod.rs"), ("blocking handles", "subsystem/src/calls/blocking.rs")])

prop("C32", "Logging an error leaves it and the run of the program unchanged",
 """Logging a result passes it on as it is and reports exactly the errors, once, with their text and prefix, at the level named. A function marked to log its errors returns what its body returns, on every early return too, plain or
 async, and logs exactly the errors returned, at its level. A task spawned under a name runs exactly the future given, once.""",
 "inputs", "all results, levels and bodies",
 "Logging is off in tests: an error swallowed, changed or reported as a success by the logging around it is not seen.",
 "utils/src/tap_log.rs utils/log_error/src/lib.rs utils/src/log_utils.rs utils/src/tokio_utils.rs",
 [("results", "utils/src/tap_log.rs"), ("marked functions", "utils/log_error/src/lib.rs"), ("tasks", "utils/src/tokio_utils.rs")],
 technique="path-sensitive symbolic summaries of typed MIR, also of witness functions expanded by the macro")

prop("C33", "Programs refuse root, and use a data directory only as its one owner",
 """Unless forced, a program run as root is refused, before node and wallet daemon do anything else. A missing data directory is created where that is asked for, else for the default place only; one that is there is used as it is. The
 node locks its directory before touching anything else in it, goes no further if it cannot, holds the lock until its main task has ended, and cleans the directory only on request, sparing the lock.""",
 "inputs", "all options, users and states of the directory",
 "Tests never run as another user's node, nor two nodes in one directory.",
 "utils/src/root_user.rs utils/src/default_data_dir.rs node-lib/src/runner.rs wallet/wallet-rpc-lib/src/cmdline.rs",
 [("root user", "utils/src/root_user.rs"), ("directories", "utils/src/default_data_dir.rs"), ("node", "node-lib/src/runner.rs"), ("wallet daemon", "wallet/wallet-rpc-lib/src/cmdline.rs")])

prop("C34", "The rolling bloom filter never forgets the items last inserted",
 """A bloom filter has the size and rate asked for and seeds of its own from the random number generator. The rolling filter inserts an item into its newest part; a full part is followed by an emptied one in place of the oldest; an
 item is found if any part has it; so the last `size` items inserted are always found. Clearing empties every part.""",
 "inputs", "all sizes and histories of insertions",
 "Tests roll one filter over a few times; an item lost just around a roll, or at odd sizes, needs a particular history.",
 "utils/src/bloom_filters/bloom_filter.rs utils/src/bloom_filters/rolling_bloom_filter/mod.rs",
 [("bloom filter", "utils/src/bloom_filters/bloom_filter.rs"), ("rolling filter", "utils/src/bloom_filters/rolling_bloom_filter/mod.rs")],
 note="That an inserted item is found in one plain filter is that of the library.")

prop("C35", "Fractions and versions are ordered by value, versions read and written alike",
 """Two fractions are ordered as the numbers they stand for, without loss at any width. Versions are ordered by major, then minor, then patch number. The text of a version is its three numbers separated by dots, and exactly a text of
 three numbers that fit, separated by dots, is read, as the version with these numbers.""",
 "inputs", "all numerators, denominators, versions and texts",
 "Tests order a few small fractions; products beyond 128 bits, zero numerators and numbers just out of range are missed.",
 "common/src/primitives/rational.rs common/src/primitives/semver.rs",
 [("fractions", "common/src/primitives/rational.rs"), ("versions", "common/src/primitives/semver.rs")],
 note="The products of 512 bits are those of C29.")

prop("C36", "The clock is the time set, on regtest only, else that of the system",
 """The current time is the time last set, in milliseconds since the epoch, and, with none set, that of the system clock; a time that does not fit is refused. Time getters tell what the function they were made with tells; the default
 ones tell the current time and that of the monotonic clock. A node's time can be set on regtest only. Conversions between times, seconds and calendar dates keep the moment or fail.""",
 "inputs histories", "all times, getters, chain types and histories of setting the time",
 "Tests replace the clock; the default getters and the guard against setting the time of a real chain are not exercised.",
 "common/src/primitives/time.rs common/src/time_getter.rs node-lib/src/mock_time.rs node-lib/src/runner.rs",
 [("clock", "common/src/primitives/time.rs"), ("getters", "common/src/time_getter.rs"), ("guard", "node-lib/src/mock_time.rs")])

prop("C37", "Network addresses are read, written and resolved as what they denote",
 """An IP address text is read as that IP address, with a port as that socket address, else what precedes the last colon as a domain name with the port following it; what is none of these, or lacks a required port, is refused. An
 address is written as it is read. A domain name resolves to every address found for it and to nothing else, an IP address to itself, each with the port if there is one; lists resolve each of their entries, and a failed lookup is an
 error.""",
 "inputs", "all texts, addresses, names and results of lookups",
 "Tests parse a handful of texts and cannot look up names.",
 "utils/networking/src/network_address.rs utils/networking/src/ip_or_socket_address.rs utils/networking/src/resolvable_name.rs",
 [("reading and writing", "utils/networking/src/network_address.rs"), ("IP or socket", "utils/networking/src/ip_or_socket_address.rs"), ("resolution", "utils/networking/src/resolvable_name.rs")],
 note="Parsing of IP addresses, numbers and domain names is that of the libraries.")

prop("C39", "Traversals yield all that is reachable once, children first; helpers keep items",
 """A traversal of a directed acyclic graph yields every item reachable from the given roots exactly once, after all items reachable from it. Sorting and shuffling keep the items of a list, and sorting keeps equal ones in their order.
 The rows of a matrix are distinct and consist of all its cells. A message sent with an id arrives with both, or is given back. An environment variable is absent, its text, or an error; a flag is true for 1, yes, true and false for 0, no,
 false, in any case. An optional or constant value is shown and compared as itself.""",
 "inputs", "all graphs, lists, matrices and values",
 "Tests traverse a few graphs with unrelated roots; a root reachable from a later root, or a child met twice, needs a particular shape.",
 "utils/src/graph_traversals.rs utils/src/array_2d.rs utils/src/sorted.rs utils/src/shuffled.rs utils/src/sender_with_id.rs utils/src/env_utils.rs utils/src/displayable_option.rs utils/src/const_value.rs logging/src/utils.rs",
 [("traversal", "utils/src/graph_traversals.rs"), ("lists", "utils/src/sorted.rs"), ("environment", "utils/src/env_utils.rs")])

prop("C40", "Token operations change exactly what they name, where allowed, and can be undone",
 """Issuing, minting, unminting, locking, freezing, unfreezing, and changing the authority or metadata of a token succeed exactly in the states that allow them: the token exists (for issuing: does not), minting is within the supply limit
 and not of a locked or frozen token, unminting is of no more than circulates, and so on. A successful operation changes the one datum or supply it names and nothing else, a refused one changes nothing, and undoing applies the inverse.
 What is read is the changes on top of the parent. Writing changes to the store combines each with the stored value, fails instead of panicking, and yields the inverse changes.""",
 "inputs histories", "all operations, token states and sequences of changes",
 "Tests run particular sequences of operations on small amounts; states such as frozen and locked at once, or net changes at the limits of the amount type, are not combined.",
 "tokens-accounting/src/cache.rs tokens-accounting/src/data.rs tokens-accounting/src/storage/db.rs",
 [("operations", "tokens-accounting/src/cache.rs"), ("token states", "tokens-accounting/src/data.rs"), ("writing to the store", "tokens-accounting/src/storage/db.rs")],
 note="The collections of changes are those of C01 and its neighbours.")

prop("C41", "Orders give what their price says, never more than they hold, and can be undone",
 """An order is created once, with positive amounts; filled only while it exists and is not frozen, by no more than is still asked, giving the fill times what was given over what was asked, rounded down, at the original price (orders V1, where
 it must be positive) or on the remaining balances (V0); frozen once; concluded while it exists, emptying both balances. Each operation changes the balances and data it names and nothing else, a refused one changes nothing, and undoing
 applies the inverse, after checking that what it undoes is still there. What is read is the changes on top of the parent, and writing changes to the store combines each with the stored value and yields the inverses.""",
 "inputs histories", "all orders, amounts, versions and histories of operations",
 "Tests fill a few orders with random amounts; a wrong balance in one undo branch or one version of the price shows only in particular sequences.",
 "orders-accounting/src/cache.rs orders-accounting/src/price_calculation.rs orders-accounting/src/storage/db.rs orders-accounting/src/data.rs",
 [("operations", "orders-accounting/src/cache.rs"), ("price", "orders-accounting/src/price_calculation.rs"), ("writing to the store", "orders-accounting/src/storage/db.rs")],
 note="A net change of -2^127 would panic in the store; order amounts cannot reach it.")

prop("C42", "Pools and delegations keep balances and shares in step and can be undone",
 """A pool is created once and decommissioned while it exists, with all of its balance; rewards increase the balance of an existing pool and its recorded rewards alike. A delegation is created once, to an existing pool; delegating and
 spending move the delegation's balance, its share of the pool and the pool's balance by the same amount (when spending, the pool's only while it exists); a delegation is deleted only when both are empty and the pool is gone. A refused
 operation has no effect on what it checks, undoing applies the inverse to the same things. What is read is the changes on top of the parent; merging changes and writing them to the store, and undoing either, treats every collection alike.""",
 "inputs histories", "all pools, delegations, amounts and histories of operations",
 "Tests check chosen sequences of operations; a collection left out of merging or undoing is only seen with data in that collection.",
 "pos-accounting/src/pool/delta/operator_impls.rs pos-accounting/src/pool/delta/mod.rs pos-accounting/src/pool/delta/data.rs pos-accounting/src/pool/delta/view_impl.rs pos-accounting/src/pool/storage/mod.rs pos-accounting/src/pool/pool_data.rs",
 [("operations and undoing", "pos-accounting/src/pool/delta/operator_impls.rs"), ("merging", "pos-accounting/src/pool/delta/data.rs"), ("writing to the store", "pos-accounting/src/pool/storage/mod.rs")],
 note="The listing of all shares of a pool is not covered.")

prop("C43", "Connecting a transaction or reward applies every effect once, and keeps the undo",
"""Connecting a transaction checks it, its value balance and the right to spend each input before anything is changed; then pools, delegations, tokens, orders and unspent outputs are changed, each input and output kind having exactly its
own effect (with the account's nonce spent where the kind has one), and the undo data of every change is kept under the transaction. Connecting a block reward spends its inputs, adds its outputs, and under proof of stake distributes
subsidy plus fees, keeping the undo data. A failure anywhere is reported.""",
"inputs histories", "all transactions, rewards and verifier states",
"Tests connect chosen transactions; an effect without its undo shows only when that kind of block is later disconnected.",
"chainstate/tx-verifier/src/transaction_verifier/mod.rs",
[("connecting", "chainstate/tx-verifier/src/transaction_verifier/mod.rs")],
note="The individual checks (policy, timelocks, signatures) are only required to have been made, not judged here.")

prop("C44", "Disconnecting undoes what connecting did; account nonces step by one",
"""Disconnecting a transaction or reward takes its kept undo data and applies the undo of every change: pool, token and order changes last first, unspent outputs, token registrations, and one nonce step down for each account spent from.
An account is spent from only with the nonce after its last one (0 the first time), which then becomes the last; stepping down from 0 removes it. The last nonce is what this verifier recorded, else what its storage says. Every kind of
account spending and command belongs to the account it names.""",
"inputs histories", "all transactions, nonces and verifier states",
"Tests disconnect chosen blocks; an order of undoing or a nonce off by one matters only for particular sequences of spendings.",
"chainstate/tx-verifier/src/transaction_verifier/mod.rs chainstate/tx-verifier/src/transaction_verifier/hierarchy.rs common/src/chain/transaction/account_outpoint.rs common/src/chain/transaction/account_nonce.rs",
[("disconnecting and nonces", "chainstate/tx-verifier/src/transaction_verifier/mod.rs"), ("reading the last nonce", "chainstate/tx-verifier/src/transaction_verifier/hierarchy.rs"), ("account names", "common/src/chain/transaction/account_outpoint.rs")],
note="That the undo data of a kind inverts its change is C40-C42; undo of the reward distribution is applied in order (its changes commute).")

prop("C45", "Scripts are taken for an output of a kind exactly if they have its form",
"""A script is recognised as a pay-to-script-hash, pay-to-key-hash, pay-to-key, witness program (any version, or version 0 script or key hash) or data output exactly if its whole length and the operations in their places are
those of that kind; it is called unspendable exactly if it starts with an operation that always fails. The scripts built for a key, key hash, script hash or data have the form of their kind, with that data.""",
"inputs", "all scripts",
"Tests recognise a few valid scripts; a script one byte longer, or with one operation different, is not tried.",
"script/src/script.rs script/src/opcodes.rs",
[("recognising and building", "script/src/script.rs"), ("classes of operations", "script/src/opcodes.rs")],
technique="path-sensitive symbolic summaries of typed MIR, decided at every point of a finite partition of lengths and bytes")

prop("C46", "Script numbers and conditions are read and written by one rule",
"""A script number is its magnitude, lowest byte first, with the sign in the top bit of the last byte. Reading gives exactly that number, empty data being 0, and refuses data longer than allowed. Writing any 64-bit integer
uses the fewest bytes that hold magnitude and sign, nothing for 0, and never fails. Data is true as a condition exactly if it is neither zero nor negative zero, of any length.""",
"inputs", "all integers and all data (as conditions: of up to nine bytes)",
"Tests use a few numbers; the sign bit, padding and length limits meet only at certain magnitudes.",
"script/src/script.rs",
[("numbers and conditions", "script/src/script.rs")],
technique="path-sensitive symbolic summaries of typed MIR with loops unrolled over the bytes, bit by bit; the writing loop by its step")

prop("C47", "Every value decodes from its own encoding to itself, in the format in use",
"""Decoding what a value was encoded to gives that value: every field of every kind is written, each kind under its own tag, and read back at its place; input that ends early, has an unknown tag or is no
key or signature is refused with an error, as are transactions without one witness per input. Tags and the order of fields are those data on disk and on the wire already have. Keys and signatures are made
from raw bytes exactly if the scheme accepts these bytes.""",
"inputs", "all values of all types with an encoder, and all input",
"Round-trip tests exist for some types and values; a skipped field, an exchanged tag or a format changed on both sides passes them.",
"crypto/src/key/signature/mod.rs crypto/src/key/secp256k1/mod.rs crypto/src/key/key_holder.rs crypto/src/vrf/schnorrkel/mod.rs crypto/src/vrf/schnorrkel/data.rs crypto/src/symkey/chacha20poly1305/mod.rs crypto/src/ephemeral_e2e/mod.rs common/src/chain/transaction/signed_transaction.rs common/src/chain/transaction/output/mod.rs p2p/src/net/default_backend/types.rs",
[("key encodings", "crypto/src/key/key_holder.rs"), ("signatures", "crypto/src/key/signature/mod.rs"), ("VRF data", "crypto/src/vrf/schnorrkel/data.rs"), ("transactions", "common/src/chain/transaction/signed_transaction.rs")],
technique="symbolic summaries of typed MIR of every encoder and decoder (derived ones included), composed: each item read is replaced by the item written at its place and the result compared with the value; formats compared with the table of formats in use",
note="the scheme libraries' own byte conversions (from_slice and serialize, from_bytes and to_bytes) are taken to be inverse to each other; types of items are those the compiler checked")

prop("C48", "The RPC server serves the registered methods; subscribers hear every event",
"""The server is started on the configured address with exactly the methods registered, plus, if asked for, one listing the names of all of them and its own; names that clash are never dropped silently. The address
reported is the bound one, and shutting down stops the server and waits for it. A subscription is accepted or reported; then every event received is transformed once and sent once, in order, unless filtered, until
the events end, sending fails or an event cannot be encoded, which is reported.""",
"inputs histories", "all sets of methods and all event streams, filters and client failures",
"Tests register a handful of methods and read a few events; losing one after a filtered event or a failure shows in none.",
"rpc/src/lib.rs rpc/src/subscription.rs",
[("methods, list and life cycle", "rpc/src/lib.rs"), ("subscriptions", "rpc/src/subscription.rs")],
note="what jsonrpsee does with methods and messages handed to it is taken as documented; that the receiver yields every event is C34's")

prop("C49", "Hand-written comparisons obey the laws of equality and order",
 """Wherever the code compares values by its own rules rather than field by field (identifiers, fractions, displayed amounts, extended keys, storage map ids, constant wrappers, best-chain candidates, mempool entries,
 coin selection groups), exchanging the operands reverses the answer, the same part of both operands is looked at, == holds exactly where the order says Equal, partial_cmp is cmp, and equal values hash alike; candidates for the best chain are equal only if they are one block.""",
 "inputs", "every pair of operands, by the outcomes of the comparisons made between them",
 "Ordered collections silently lose or duplicate entries when a comparison is unlawful; tests compare a few pairs, most of them different in the first part compared.",
 "common/src/primitives/id/mod.rs common/src/primitives/rational.rs common/src/primitives/amount/decimal.rs crypto/src/key/secp256k1/extended_keys.rs storage/src/database/raw.rs utils/src/const_value.rs chainstate/src/detail/block_invalidation/best_chain_candidates.rs mempool/src/pool/tx_pool/collect_txs.rs wallet/src/account/utxo_selector/mod.rs",
 [("order of identifiers", "common/src/primitives/id/mod.rs"), ("order of fractions", "common/src/primitives/rational.rs"), ("order of extended keys", "crypto/src/key/secp256k1/extended_keys.rs"), ("ids of storage maps", "storage/src/database/raw.rs"), ("candidates for the best chain", "chainstate/src/detail/block_invalidation/best_chain_candidates.rs")],
 technique="path summaries of every hand-written comparison over typed MIR, evaluated for all combinations of the outcomes of the comparisons made")

prop("C50", "A block or header is accepted only after every check of it",
"""A header passes only if its parent is known and not invalid, it is no larger than allowed, agrees with every checkpoint at or below its height (unless mismatches are allowed), forks no deeper than allowed, satisfies consensus in the
state after its parent, and is no earlier than the median of past times and no later than the allowed offset into the future. A block passes only if also its merkle roots are right, each part of it is within its size limit, the reward is of
a form its kind of consensus allows and locked long enough, each transaction passes for its height, and no input but one that fills an order occurs twice. What was checked before is not checked again; what was found invalid stays so.""",
"inputs histories", "all headers, blocks and block trees",
"Tests break one condition at a time near the tip; that each check is made on every path, with this block's height and parent, shows only for unusual forks.",
"chainstate/src/detail/chainstateref/mod.rs",
[("header checks", "chainstate/src/detail/chainstateref/mod.rs"), ("block checks", "chainstate/src/detail/chainstateref/mod.rs")],
note="Consensus validation itself and the checks of a single transaction are only required to have been made here, for the right arguments.")

prop("C51", "An input is spent only when the condition of what it spends is met",
"""Each input of a transaction or reward is translated to the condition for its kind: who must sign (owner, decommissioning or staking key, delegation owner, token authority, order owner), the output's time lock, and for a hashed
contract the secret and spender's signature or the refund lock and refunder's; what cannot be spent is refused. Conditions are then evaluated in full: all parts of a conjunction, locks against the height and time of spending and of
the block the output is in, secrets by their hash, signatures over this transaction and input with its own witness. A block reward locked for less than required is refused.""",
"inputs", "all inputs, outputs, witnesses and time locks",
"Tests spend each kind a few times; a wrong key for one kind, or a lock compared with the wrong height, needs the particular combination.",
"mintscript/src/translate.rs mintscript/src/checker/mod.rs mintscript/src/checker/timelock.rs mintscript/src/checker/hashlock.rs mintscript/src/script/mod.rs mintscript/src/script/verify.rs chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs chainstate/tx-verifier/src/transaction_verifier/input_check/signature_only_check.rs chainstate/tx-verifier/src/transaction_verifier/timelock_check.rs",
[("conditions by kind", "mintscript/src/translate.rs"), ("evaluation", "mintscript/src/script/verify.rs"), ("time locks", "mintscript/src/checker/timelock.rs"), ("what is evaluated against", "chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs")],
note="verify_signature itself and what is signed belong to other checks; so does finding the ancestor of the tip at a height.")

prop("C52", "A signature authorises only the transaction it was made for",
"""The hash that is signed covers exactly: the signature's type, version and flags, all inputs and what is committed to for each (or only the signed input's own, if the type says so), and all outputs, none, or the one at the input's index,
which must exist. A witness is accepted only if it is the destination's signature of that hash: by the key, by a key of that hash, or by exactly the required number of the challenge's keys; none only where anyone can spend. Signatures are made
only with the destination's key. Messages are signed between fixed marks; an intent needs every destination's signature. For each kind of input the output spent, and for pools and orders their balances, are committed to.""",
"inputs", "all transactions, destinations, witnesses, signature types and commitment versions",
"Tests alter one field of a few transactions; a field left out of the hash for one signature type and one kind of input shows only when that combination is attacked.",
"common/src/chain/transaction/signature/mod.rs common/src/chain/transaction/signature/sighash/mod.rs common/src/chain/transaction/signature/sighash/hashable.rs common/src/chain/transaction/signature/sighash/sighashtype.rs common/src/chain/transaction/signature/sighash/input_commitments/mod.rs common/src/chain/transaction/signature/inputsig/standard_signature.rs common/src/chain/transaction/signature/inputsig/classical_multisig/multisig_partial_signature.rs common/src/chain/transaction/signature/inputsig/classical_multisig/authorize_classical_multisig.rs common/src/chain/transaction/signature/inputsig/arbitrary_message/mod.rs common/src/chain/transaction/signed_transaction_intent.rs common/src/chain/transaction/output/classic_multisig.rs",
[("what is signed", "common/src/chain/transaction/signature/sighash/mod.rs"), ("who has signed", "common/src/chain/transaction/signature/inputsig/standard_signature.rs"), ("multisig", "common/src/chain/transaction/signature/inputsig/classical_multisig/multisig_partial_signature.rs"), ("commitments", "common/src/chain/transaction/signature/sighash/input_commitments/mod.rs"), ("intents", "common/src/chain/transaction/signed_transaction_intent.rs")],
note="The signature schemes themselves are C11's; the encoding of what is hashed is taken to be injective, and a transaction's own accessors to return its fields.")

prop("C53", "The tip moves block by block, in one storage transaction, with all it implies",
"""Connecting a block requires that it was not found invalid, its data is there, it was checked and its parent is the tip; its transactions are applied, it becomes the best block and the block at its height, is marked as fully checked, and
the epoch's data follow. Disconnecting takes exactly that back. A reorganisation goes down to where the new branch leaves the main chain and connects the branch in order; it happens exactly if the new tip's trust is greater. All of it is
committed if and only if it succeeded, and tried again only after a passing storage failure. A known block is not processed again; a block is marked bad only if the failure shows that it is.""",
"histories faults", "all block trees and arrivals, and storage failures at every point",
"Tests run a few short reorganisations without storage failures; a step left out or done for the wrong block or height shows only later, in another reorganisation.",
"chainstate/src/detail/chainstateref/mod.rs chainstate/src/detail/mod.rs",
[("moving the tip", "chainstate/src/detail/chainstateref/mod.rs"), ("transactions, integration, marking", "chainstate/src/detail/mod.rs")],
note="Connecting the transactions is C43's, disconnecting them C44's, the checks C50's; the epoch seal and invalidation of branches are only required to be carried out here.")
prop("C54", "A block's proof is right for its place in the chain",
"""A block carries the kind of proof the network requires at its height. A block of work passes only if its target is the one the chain's history dictates (the initial one after an upgrade, the limit after genesis, changed only at the end of an
interval by the time it took within the allowed factor) and its hash is at most that target. A staked block passes only if its target is the one dictated, it is later than its parent, its single kernel is a stake, of the named pool where that is
enforced, the staker's key signed its header, and the verified VRF output over seed, time and epoch is at most the target times the (effective) balance.""",
"inputs histories", "all headers, chains, pools and configurations",
"Tests mine or stake a few easy blocks; a check left out, a neighbouring height or a swapped amount gives the same answer for those.",
"consensus/src chainstate/types/src/vrf_tools.rs chainstate/types/src/pos_randomness.rs",
[("kind of proof", "consensus/src/validator.rs"), ("work", "consensus/src/pow/work.rs consensus/src/pow/helpers.rs"), ("stake", "consensus/src/pos/mod.rs consensus/src/pos/target.rs consensus/src/pos/effective_pool_balance.rs")],
note="Block production (searching for a nonce or a timestamp) is not judged; the verification of VRF data is C16's.")

prop("C55", "No value from nothing: outputs take no more than inputs give",
"""What a transaction gains is, per currency, exactly what its inputs hold as recorded in the accounts, in the order of the inputs (a mint counts for its token, a concluded order for what is left in it); what it needs is exactly what its outputs
hold, burn or cost. Every output is paid from its own currency; an output that locks coins may be paid with locked ones only if it locks them at least as long. All sums are checked. What is left over is the fee, of the locked coins only what
unlocks by then. A reward makes no more than the subsidy and fees, or moves one stake on; an input or output of a kind that is not allowed in its place, or more often than allowed, is refused.""",
"inputs", "all transactions, rewards, currencies, amounts and time locks",
"Tests balance a few transactions of common kinds; a kind counted twice, a missing fee, or a lock ignored shows only for a particular combination of inputs and outputs.",
"chainstate/constraints-value-accumulator/src/constraints_accumulator.rs chainstate/constraints-value-accumulator/src/accumulated_fee.rs chainstate/tx-verifier/src/transaction_verifier/input_output_policy/mod.rs chainstate/tx-verifier/src/transaction_verifier/input_output_policy/purposes_check.rs chainstate/src/detail/tx_verification_strategy/default_strategy.rs",
[("gains and needs", "chainstate/constraints-value-accumulator/src/constraints_accumulator.rs"), ("fees", "chainstate/constraints-value-accumulator/src/accumulated_fee.rs"), ("policy", "chainstate/tx-verifier/src/transaction_verifier/input_output_policy/mod.rs chainstate/tx-verifier/src/transaction_verifier/input_output_policy/purposes_check.rs")],
note="What the accounts themselves record is judged by the checks of orders, pools and tokens (C40 to C42); the amounts' own arithmetic by C02's.")

prop("C56", "An output can be spent exactly once, through whatever layers it is seen",
"""Whatever is known of an output in a layer of the set of unspent outputs and in the layer below: spending it gives it and makes it gone, or fails if it is not there; adding makes it be there, or is refused if it is; looking changes nothing. Writing
a layer down makes the one below show what the upper one showed, best block included, for every combination that can occur; the database then holds what is not spent. A transaction or reward spends all inputs and adds all outputs that can be
spent, at their place, keeps what was spent by input, and disconnecting gives exactly that back.""",
"histories", "all states of the layers, and all transactions and rewards",
"Tests simulate random layers for a while; a wrong mark on one combination of two layers shows only when that output is spent, flushed and reorganised in one particular order.",
"utxo/src",
[("layers", "utxo/src/cache.rs utxo/src/utxo_entry.rs"), ("database", "utxo/src/storage/view_impls.rs utxo/src/storage/mod.rs"), ("undo", "utxo/src/undo.rs")],
note="What is known is decided over all its states (absent; spent or not, new or not, changed or not), which is finite; that no transaction id occurs twice is taken as given.")

prop("C57", "A block's ancestors are the blocks it descends from, its record its own",
"""The walk from a block to a height follows parents and recorded ancestors (recorded at the height the bits of its own dictate) and never passes the height asked for; the common ancestor of two blocks is found in lockstep from the same height.
A new block's record tells its own id and header, its parent's height plus one, its parent's trust and count of transactions with its own added, the greatest time so far, and its ancestor; the record of genesis has fixed values. The history of a
block iterates its parents down to genesis, and the median time is that of the last eleven. The marks of a status are distinct; setting one leaves all others, the stage only advances by one, and a block is fine exactly if it has no mark.""",
"inputs histories", "all block trees, heights and histories of marks",
"Tests walk a few short chains; one wrong bit in a skip height or mark shows only at certain heights or combinations, and then in every node's choice of chain.",
"chainstate/types/src/ancestor.rs chainstate/types/src/height_skip.rs chainstate/types/src/block_index.rs chainstate/types/src/gen_block_index.rs chainstate/types/src/block_index_history_iter.rs chainstate/types/src/block_status.rs chainstate/src/detail/chainstateref/mod.rs chainstate/src/detail/median_time.rs",
[("ancestors", "chainstate/types/src/ancestor.rs chainstate/types/src/height_skip.rs"), ("records", "chainstate/types/src/block_index.rs chainstate/types/src/gen_block_index.rs"), ("history", "chainstate/types/src/block_index_history_iter.rs chainstate/src/detail/median_time.rs"), ("marks", "chainstate/types/src/block_status.rs")],
note="The proof a block adds to the trust is computed by C54's code; that blocks are stored under their ids is C37's.")

prop("C58", "The sealed accounting trails the tip by whole epochs, and can go back",
"""The accounting changes of a block are merged into those of its epoch. Connecting the last block of an epoch applies the changes of the epoch that now lies the configured distance back to the sealed state, and keeps what undoes them under that
epoch; disconnecting that block applies exactly this and forgets it. Only the sealed state is sealed, and everything else works on the tip's. An epoch's randomness comes from its last block (the key of the pool it makes or stakes, seeded by the
sealed epoch) and is kept under that epoch, and forgotten as the next epoch's first block goes. Changes of epoch data not yet written are seen and written as noted.""",
"histories", "all chains, heights, reorganisations and epoch settings",
"Tests seal a few short epochs; a neighbouring epoch or a missing undo gives the same stakes for all short chains, and different ones only after a reorganisation across an epoch's end.",
"chainstate/src/detail/chainstateref/epoch_seal.rs chainstate/src/detail/chainstateref/tx_verifier_storage.rs chainstate/types/src/epoch_data_cache.rs chainstate/types/src/epoch_data.rs common/src/chain/config/mod.rs",
[("sealing", "chainstate/src/detail/chainstateref/epoch_seal.rs"), ("gathering", "chainstate/src/detail/chainstateref/tx_verifier_storage.rs"), ("epoch data", "chainstate/types/src/epoch_data_cache.rs"), ("epochs", "common/src/chain/config/mod.rs")],
note="That these are called for each block connected or disconnected is C53's; what a delta is and how it is undone C42's; that randomness is verified C54's.")

prop("C59", "An invalid block takes its descendants along, and the best valid chain wins",
"""Invalidating a block of the main chain first disconnects the chain down to its parent (refused if that is deeper than a reorganisation may go), then marks it (as told to, or as failed) and all its descendants (as having an invalid parent),
drops its orphans, and moves to the best chain that remains. The chains considered are all tips without any mark, with more trust than the current one, that leave the main chain no deeper than allowed, the most trust first. A block that cannot be
connected loses its candidates with all its descendants, is invalidated if the fault is its own, and its parent is considered in its place if it has the trust. Taking marks back clears the whole branch (or forgets blocks never kept), and tries again.""",
"histories", "all block trees, and all choices of block to invalidate or to take back",
"Tests invalidate blocks in a few drawn trees; a descendant left unmarked or a candidate left out matters only for one shape of tree and one order of trust.",
"chainstate/src/detail/block_invalidation/mod.rs chainstate/src/detail/block_invalidation/best_chain_candidates.rs chainstate/src/detail/chainstateref/mod.rs",
[("invalidating", "chainstate/src/detail/block_invalidation/mod.rs"), ("candidates", "chainstate/src/detail/block_invalidation/best_chain_candidates.rs"), ("branches", "chainstate/src/detail/chainstateref/mod.rs")],
note="What a reorganisation does is C53's, what the marks are C57's. A failed storage transaction is retried by with_rw_tx (C53).")
prop("C60", "What a verifier gathered is written down completely, and reads as the state",
"""Flushing what a transaction verifier gathered writes every part of it once, under its own key: UTXO changes, the best block, each kind of undo of each source (written when it is data, deleted when it is erased), token auxiliary data and issuance ids, account nonces, token, pool-per-source and order changes; anything failing is told. A verifier read as a state answers from its own overlay first and then from its parent, an erased entry being nothing; written to as a state it takes each kind of change into its own. The database as a state reads and writes each kind under its own storage call, and stores undo data only for blocks. What several blocks change in proof-of-stake accounting is kept per source and also together.""",
"histories", "all contents of a verifier, all depths of verifiers on verifiers, and all three states that may lie below them",
"Tests flush small verifiers into a mocked state; a kind of change left out of one layer, or read from the wrong one, shows only with that kind of transaction and that depth.",
"chainstate/tx-verifier/src/transaction_verifier/flush.rs chainstate/tx-verifier/src/transaction_verifier/hierarchy.rs chainstate/tx-verifier/src/transaction_verifier/pos_accounting_delta_adapter.rs chainstate/tx-verifier/src/transaction_verifier/mod.rs chainstate/src/detail/chainstateref/tx_verifier_storage.rs",
[("flushing", "chainstate/tx-verifier/src/transaction_verifier/flush.rs"), ("overlay", "chainstate/tx-verifier/src/transaction_verifier/hierarchy.rs"), ("database", "chainstate/src/detail/chainstateref/tx_verifier_storage.rs"), ("both", "chainstate/tx-verifier/src/transaction_verifier/pos_accounting_delta_adapter.rs")],
note="How the database takes an accounting delta is C58's; what the caches themselves do is C40's to C42's and C56's.")
prop("C61", "Undo data and issued ids are kept per transaction until taken out, once",
"""While blocks or mempool transactions are verified, the undo data of each transaction and reward (UTXO and accounting) and the ids of issued NFTs are kept per source: added once (a second one for the same transaction or reward is refused), taken out whole and once, fetched from the state below if not yet known, and the source's entry is erased exactly when nothing is left in it. A transaction's UTXO undo can be taken only while no transaction in the same source that spends it still has its own; both directions of that dependency are recorded and erased together. Combining the data of two verifiers lets the later one win, never lets a read follow a change, and refuses two different rewards. What is stored holds exactly what was not erased. An NFT is registered only under the id its inputs give, if nothing is known of it here or below, with its transaction's id; undoing erases both.""",
"histories", "all orders of connecting and disconnecting transactions, in all depths of verifiers",
"Tests walk a few orders on small blocks; an entry erased too early, a dependency recorded one way only or a stale undo kept matters only in one order of disconnecting.",
"chainstate/tx-verifier/src/transaction_verifier/cached_operation.rs chainstate/tx-verifier/src/transaction_verifier/accounting_undo_cache/mod.rs chainstate/tx-verifier/src/transaction_verifier/accounting_undo_cache/cached_block_undo.rs chainstate/tx-verifier/src/transaction_verifier/utxos_undo_cache/mod.rs chainstate/tx-verifier/src/transaction_verifier/utxos_undo_cache/cached_utxo_block_undo.rs chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs",
[("operations", "chainstate/tx-verifier/src/transaction_verifier/cached_operation.rs"), ("accounting", "chainstate/tx-verifier/src/transaction_verifier/accounting_undo_cache/cached_block_undo.rs"), ("utxos", "chainstate/tx-verifier/src/transaction_verifier/utxos_undo_cache/cached_utxo_block_undo.rs"), ("issuance", "chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs")],
note="What is flushed of it is C60's; who adds and takes is C43's and C44's.")
prop("C62", "All of a block's reward is given out, by the stated division",
"""Of a proof-of-stake block's reward the staker is given the pool's cost per block (or everything, if the reward is less) and, of the rest, under V0 the pool's margin ratio; under V1 first the part that the staker's balance has in the pool's, then the margin ratio of what remains after that. What is left is shared among the pool's delegations by their balances, each rounded down, and what cannot be shared (no delegations, no balance, roundings) goes to the staker, so that all is given out and no more. Each delegation with a share is credited once, the staker once; the undo of each is kept, the staker's last. Under V1 a staker with more than the pool, or an empty pool, is refused; any failure is told.""",
"inputs", "all rewards, pools, margins, sets of delegations and balances, and both versions",
"Tests distribute a few rewards among a few delegations; an atom lost or made in one rounding, or a case where nobody is paid, needs particular numbers.",
"chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs",
[("division", "chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs")],
note="What crediting does to the balances is C42's; when it is done is C43's.")
prop("C63", "Orphan transactions are indexed exactly, kept within limits and retried",
"""Every transaction waiting in the mempool's orphan pool is found by its id, its time, its origin and each thing it needs, at the place it is kept at, and by nothing once it is taken out, whichever entry is moved to its place. Adding tells whether it is in after the limits were kept: the expired go first, then random ones as long as there are too many, and all of one origin can be removed. Only transactions from peers wait, and only for a missing output or a nonce up to two too high, within the size limit and without conflicts. What a transaction needs and provides follows from each of its inputs and outputs as stated (an account's first use needs its creation, a nonce provides the next). After a transaction is added, all waiting ones that need any of its outputs, or anything else it provides, are queued for their peers, and one is retried once no waiting transaction makes an output it spends.""",
"histories", "all sequences of adding, removing, expiring and evicting orphans of any transactions",
"Tests insert and remove a few random orphans; an index left behind after one particular move, or a kind of dependency not indexed, leaves an orphan stuck, or panics, much later.",
"mempool/src/pool/orphans/mod.rs mempool/src/pool/orphans/detect.rs mempool/src/pool/dependency.rs mempool/src/pool/mod.rs mempool/src/pool/work_queue/mod.rs",
[("indexes", "mempool/src/pool/orphans/mod.rs"), ("kinds", "mempool/src/pool/orphans/detect.rs"), ("dependencies", "mempool/src/pool/dependency.rs"), ("policy", "mempool/src/pool/mod.rs"), ("queue", "mempool/src/pool/work_queue/mod.rs")],
note="The order in which peers take turns in the work queue is not decided.")
