# The properties decided in the six crates that build with their own manifests.
P = []

def prop(id, crate, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None):
    P.append(dict(id=id, crate=crate, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state or [], hook=hook))

prop("C01", "core", "All Merkle tree constructions agree with the defined tree",
     "For every list of hashes, the root computed in one go, the root of the incremental tree after each addition, and the root and inner nodes of the full tree are those of the tree in which a lone last node moves up unchanged; an empty list has the hash of the empty string as its root.",
     ["inputs", "histories"], "every list of 32-byte leaves, any length, any repetition; every prefix of pushes",
     "The tests use a dozen fixed lists of up to a few leaves; the shape of the tree depends on the binary expansion of the length.",
     ["crypto/src/merkle.rs", "crypto/src/hash.rs"],
     [("recursive root", "crypto/src/merkle.rs: merkle_tree_root"), ("progressive tree", "crypto/src/merkle.rs: ProgressiveMerkleTree"), ("full tree", "crypto/src/merkle.rs: FullMerkleTree")],
     ["roots and nodes returned by the public functions"],
     "property-based testing: differential against a layer-by-layer reference tree",
     "Search over generated leaf lists of up to 1200 leaves with lengths concentrated around powers of two; every prefix of short lists.")

prop("C02", "core", "Merkle inclusion proofs are complete, sound and always evaluated",
     "Every leaf of every tree has an inclusion proof that verifies against the root, also after being taken apart into index and path; no index outside the tree has one. A proof does not verify for another element, another root, or with any step altered, removed or added. Any index and path received from outside, of any length, is evaluated to the root it defines without a crash.",
     ["inputs"], "every tree, leaf, tampering, and every (index, path, element) triple",
     "The tests check proofs of a few small trees; adversarial proofs (unrelated index, long paths) are not tried.",
     ["crypto/src/merkle.rs"],
     [("proof construction", "crypto/src/merkle.rs: inclusion_proof"), ("proof evaluation", "crypto/src/merkle.rs: InclusionProof::root")],
     ["verdict and root of a proof"],
     "property-based testing: completeness, tampering and differential evaluation against a reference",
     "Search; assumes no SHA-256 collision. Paths of up to 139 steps, trees of up to 300 leaves.")

prop("C03", "core", "HD key derivation is BIP-32 and composes along paths",
     "For every seed of an admitted length, every key and every path, the derived secret, chain code and public key are those BIP-32 defines. Deriving a path in one go, index by index, or in two parts gives the same key. Seeds of other lengths are refused.",
     ["inputs"], "every seed, HMAC key, parent key and path of hardened and normal indices",
     "The tests check a handful of published vectors; the arithmetic modulo the curve order and the index boundaries are for every key.",
     ["crypto/src/key.rs"],
     [("master key", "crypto/src/key.rs: MasterKeyGen::generate"), ("child key", "crypto/src/key.rs: ExtendedSK::child"), ("path", "crypto/src/key.rs: KeyPath")],
     ["secret, chain code, public key, text of the path"],
     "property-based testing: differential against an independent BIP-32 with its own curve arithmetic, plus path composition",
     "Search over random keys and keys at the edges of the valid range; keys for which BIP-32 itself skips an index (probability 2^-127) are not reached.")

prop("C04", "core", "Exported extended keys import back, and nothing else imports",
     "An extended key with a path of up to 255 levels exports to the SLIP-32 text its parts define, and importing that text gives back the same key and path; deeper paths are refused. Any other text - damaged, truncated, with a wrong prefix, padding or secret - is refused with an error, never a crash.",
     ["inputs"], "every key, chain code and path; every text, including texts with a valid checksum and malformed contents",
     "The tests export two keys of small depth; long paths and malformed but checksummed texts are not tried.",
     ["crypto/src/key.rs"],
     [("export", "crypto/src/key.rs: to_slip32"), ("import", "crypto/src/key.rs: from_slip32")],
     ["exported text, imported key and path, error"],
     "property-based testing: round trip, differential encoding, structure-aware fuzzing of the importer",
     "Search; the Bech32 encoder of the oracle is the harness's own. Depths 0..262.")

prop("C05", "core", "Mnemonic phrases are valid, unpredictable and give the BIP-39 seed",
     "Every generated phrase has the requested number of words, a correct checksum and fresh entropy in every byte. A phrase is accepted exactly when its words are on the list, its length is one of the five and its checksum is right. The seed of an accepted phrase and passphrase is the one BIP-39 defines.",
     ["inputs"], "every entropy of the five lengths, every passphrase, every alteration of words, every generated batch",
     "The tests use published vectors and check word counts; randomness and rejection are for all phrases.",
     ["crypto/src/mnemonic.rs"],
     [("generation", "crypto/src/mnemonic.rs: MnemonicGenerator::generate"), ("seed", "crypto/src/mnemonic.rs: Mnemonic::seed"), ("import", "crypto/src/mnemonic.rs: Mnemonic::from_phrase")],
     ["words, seed bytes, acceptance"],
     "property-based testing: differential against an independent BIP-39, statistical freshness of generated entropy",
     "Search; the word list is pinned by its published hash. Freshness is judged over batches of 40 phrases (false alarm probability below 2^-300). Passphrases are printable ASCII.")

prop("C06", "core", "Signatures verify exactly for their own key and message",
     "A signature made with a key over a 32-byte digest verifies under that key's public key and satisfies the ECDSA equation, and signing is deterministic. It does not verify for another digest, under another key, with any bit changed, or in its malleated form. Data that is not 32 bytes long is neither signed nor verified.",
     ["inputs"], "every key, digest, other key, bit flip; data of any length",
     "The tests sign one message with one key.",
     ["crypto/src/signature.rs"],
     [("sign", "crypto/src/signature.rs: sign"), ("verify", "crypto/src/signature.rs: verify")],
     ["signature, verdict"],
     "property-based testing: round trip, forgeries, differential against a textbook ECDSA verifier",
     "Search; trusts the harness's own curve arithmetic (pinned by vectors).")

prop("C07", "core", "Wallet encryption and key derivation are AES-256-CBC and PBKDF2",
     "For every 32-byte key and 16-byte vector, encryption gives the AES-256-CBC ciphertext with PKCS#7 padding and decryption gives back the plaintext; other key or vector lengths are refused. Decryption of any damaged ciphertext gives exactly what the standard defines or an error, never a crash. Password-derived keys are PBKDF2-HMAC-SHA256 for every password, salt and iteration count, and random bytes have the requested length and vary in every position.",
     ["inputs"], "every key, vector, plaintext, ciphertext, password, salt, iteration count",
     "The tests have one round trip; padding edge cases and damaged data are not tried.",
     ["crypto/src/cipher.rs", "crypto/src/pbkdf2.rs"],
     [("cipher", "crypto/src/cipher.rs: encrypt_aes_cbc / decrypt_aes_cbc"), ("key derivation", "crypto/src/pbkdf2.rs: pbkdf2_sha256")],
     ["ciphertext, plaintext or error, derived key"],
     "property-based testing: differential against an independent AES-256-CBC and PBKDF2",
     "Search; up to 600 bytes of plaintext, 600 iterations.")

prop("C08", "core", "Protected secrets are wiped when dropped and never printed",
     "Whatever happens to a protected secret - cloning, mutation, conversion, storing and loading - its bytes stay those of the secret, its debug form shows none of them, and when it is dropped its memory holds only zeros at the moment it is given back to the allocator.",
     ["inputs", "histories"], "every secret and every sequence of operations on it",
     "The existing tests look at fixed values; what is left in freed memory is not looked at by any test.",
     ["protected/src/lib.rs", "protected/src/serde.rs", "crypto/src/key.rs"],
     [("wiping", "protected/src/lib.rs: Protected(Memzero)"), ("redaction", "protected/src/lib.rs: Debug"), ("storage form", "protected/src/serde.rs")],
     ["debug text, bytes, contents of the block at deallocation"],
     "property-based testing with an allocator that inspects the freed block",
     "Search; the bytes of the final buffer are inspected, not copies made by callers or by reallocation before the secret was protected.")

prop("C09", "core", "Reputation is conserved packet by packet over every history",
     "After any sequence of gains, expirations and penalties, every identity's reputation is the sum of its unexpired packets, penalties having been taken from the packets that expire last; totals, sums and the list of identities agree with that. Expirations and penalties report exactly the amount they removed, and once everything has expired nothing is left.",
     ["histories"], "every sequence of gain, expire, penalize (one or many), clear, rebuild and store/load",
     "The tests are short fixed histories; the two internal views (per identity and per packet) can drift apart only over longer ones.",
     ["reputation/src/trs.rs"],
     [("gain", "reputation/src/trs.rs: gain"), ("expiration", "reputation/src/trs.rs: expire"), ("penalties", "reputation/src/trs.rs: penalize_many")],
     ["reputation per identity, totals, packets, returned amounts"],
     "stateful property-based testing against a packet-list model",
     "Search over histories of up to 24 operations on 6 identities and batches of up to 150 penalties; amounts far from overflow.",
     state=[dict(name="identity cache", meaning="total per identity", where="reputation/src/trs.rs: map"), dict(name="packet queue", meaning="packets by expiration", where="reputation/src/trs.rs: queue")])

prop("C10", "core", "Rejected reputation operations leave no trace",
     "When a penalty would raise someone's reputation, or a gain or activity update comes out of order, the operation is rejected and nothing observable changes: neither anybody's reputation or activity nor the behaviour of any later operation.",
     ["histories", "fault_sequences"], "every history with rejected operations anywhere in it, including batches in which only one penalty is illegal",
     "The tests check that the errors are returned, not the state after them.",
     ["reputation/src/trs.rs", "reputation/src/ars.rs"],
     [("batch of penalties", "reputation/src/trs.rs: penalize_many"), ("ordered gains", "reputation/src/trs.rs: gain"), ("monotonic updates", "reputation/src/ars.rs: update")],
     ["all queries after a rejected operation, and to the end of the history"],
     "stateful property-based testing with injected illegal operations against a model",
     "Search over histories of up to 20 operations of which about a third can be illegal.")

prop("C11", "core", "An identity is active exactly within the activity window",
     "After any sequence of updates, an identity is active if and only if it took part in an update within the last epochs, as many as the activity period says; skipped epochs count as epochs without activity. The number and list of active identities agree with that, and stale updates are refused.",
     ["histories", "configurations"], "every activity period and every sequence of updates with gaps, repeats and stale epochs",
     "The tests use small fixed sequences; the interplay of gaps and repeated activity is over all histories.",
     ["reputation/src/ars.rs"],
     [("window", "reputation/src/ars.rs: update"), ("eviction", "reputation/src/ars.rs: push_activity")],
     ["activity of every identity, counts"],
     "stateful property-based testing against a sliding-window model; metamorphic relation between gaps and empty epochs",
     "Search; activity periods 1..11 and 100, up to 30 operations.")

prop("C12", "core", "Stored reputation behaves like the original after loading",
     "A total or active reputation set that is stored and loaded, in either of two formats, equals the original and behaves identically under every later sequence of operations.",
     ["histories"], "every history before and after the store/load",
     "No test continues a history after loading.",
     ["reputation/src/trs.rs", "reputation/src/ars.rs"],
     [("serialization", "reputation/src/trs.rs, reputation/src/ars.rs: Serialize/Deserialize")],
     ["equality and all queries along two parallel histories"],
     "stateful property-based testing: lock-step of original and reloaded copy",
     "Search; JSON and bincode.")

prop("C13", "storage", "The in-memory store behaves like a map, and batches are atomic",
     "After any sequence of puts, deletes and batches, reading a key gives the last value written to it, and reading a prefix gives every entry whose key starts with it, once, and no other. A batch takes effect in order and as a whole: no reader ever sees part of it. The store that keeps nothing refuses every operation.",
     ["histories", "schedules"], "every sequence of operations over overlapping keys and prefixes; concurrent readers and writers",
     "The test does one put, get and delete; prefix reads and batches are not tested.",
     ["storage/src/backends/hashmap.rs", "storage/src/backends/nobackend.rs", "storage/src/storage.rs"],
     [("map backend", "storage/src/backends/hashmap.rs"), ("prefix iterator", "storage/src/backends/hashmap.rs: DBIterator"), ("batch", "storage/src/storage.rs: WriteBatch")],
     ["results of reads and prefix reads"],
     "stateful property-based testing against an ordered map; multi-threaded stress for atomicity",
     "Search; thread schedules are whatever the machine produces (sampled, not controlled).")

prop("C14", "storage", "The database driver passes every operation and error through",
     "Driving the persistent store gives the same results as a map for every sequence of operations, including prefix reads in a database with keys beyond the prefix. A failure of the database is reported for exactly the operation that failed, and that operation has no effect.",
     ["histories", "fault_sequences"], "every sequence of operations with database failures injected anywhere",
     "No test reaches this code: it is not built by default.",
     ["storage/src/backends/rocks.rs"],
     [("driver", "storage/src/backends/rocks.rs")],
     ["results of operations, contents of the database"],
     "stateful property-based testing with fault injection against a model of the database",
     "Search; RocksDB is replaced by a model with its documented semantics.")

prop("C15", "core", "Flattening a nested future result changes only the nesting",
     "A future of a nested result, once flattened, is ready at the same poll as the original, polls it no more often, passes its wake-ups on, and yields the same value or the error of whichever level failed.",
     ["schedules", "inputs"], "every number of pending polls, every wake-up pattern, every outcome",
     "There is no test of it.",
     ["futures_utils/src/lib.rs"],
     [("flattening", "futures_utils/src/lib.rs: flatten_err")],
     ["poll results, wake-ups"],
     "property-based testing over generated poll schedules",
     "Search; the harness owns the executor.")

prop("C16", "partial", "Derived partial configuration structures have exactly the asked shape",
     "For every structure, the derived partial one has the same fields, each optional unless it is marked to be kept or replaced, and carries the requested attributes. Reading it from a document with any subset of the fields sets exactly those fields; fields kept as they are stay required unless given a default.",
     ["programs", "inputs"], "every structure with named, positional or no fields, generics, nesting and every combination of field options; every subset of fields in the document",
     "The tests are a few hand-written structures.",
     ["partial_struct/src/lib.rs"],
     [("derive", "partial_struct/src/lib.rs: get_partial, get_attributes, get_data")],
     ["compilation of programs that pin every field type; parsed values"],
     "property-based testing over generated programs, compiled and run",
     "Search over 12 generated programs of 40 structures (quick), each read from 4 documents.")
