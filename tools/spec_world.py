# The properties of the crates that build only against the stubs and shims of harness/world.
P, NA = [], []

def prop(id, crate, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None):
    P.append(dict(id=id, crate=crate, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state or [], hook=hook))

W = " The crate under test is /repo's, compiled against the stand-ins of harness/world for dependencies that are not available here."

prop("C17", "chain", "Wire encodings follow the schema and decode to what was sent",
     "Every message, transaction and block is encoded byte for byte as the protocol buffers schema prescribes and decodes to an equal value. Under each protocol version the versioned forms of blocks, messages and transactions carry exactly the fields of that version: forms of 1.7 and before have no staking fields, later ones keep all of them, and what a version can express decodes back to the same value.",
     ["inputs"], "every message, block and transaction of every kind; every protocol version",
     "The tests encode a few fixed messages; options, empty lists, long fields and the versioned forms of blocks with staking transactions are not tried.",
     ["data_structures/src/proto/mod.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/types.rs", "schemas/witnet/witnet.proto"],
     [("conversions", "data_structures/src/proto/mod.rs: ProtobufConvert"), ("versioned forms", "data_structures/src/proto/versioning.rs: Versioned, VersionedHashable, From/TryFrom of Legacy types")],
     ["encoded bytes, decoded values"],
     "property-based testing: round trip, differential against an independent schema encoder",
     "Search over structures drawn from choice tapes of up to a few kilobytes." + W)

prop("C18", "chain", "Decoding whatever a peer sends ends in a value or an error",
     "Decoding any bytes as a message, block or transaction, in the current or any earlier form, gives a value or an error and never a crash; a value that was decoded can be encoded, hashed and decoded again to the same value.",
     ["inputs", "adversary"], "every byte string: damaged encodings, schema-shaped nonsense, arbitrary bytes",
     "The tests decode well-formed messages only.",
     ["data_structures/src/proto/mod.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/types.rs"],
     [("decoding", "data_structures/src/proto/mod.rs: from_pb_bytes"), ("versioned decoding", "data_structures/src/proto/versioning.rs: from_versioned_pb_bytes")],
     ["value, error, panic"],
     "fuzzing: mutation of valid encodings and schema-aware generation, totality and re-encoding oracle",
     "Search; the protocol buffers runtime is a stand-in, so crashes inside the real runtime are out of reach." + W)

prop("C19", "chain", "Hashes, pointers and Merkle proofs commit to the whole content",
     "The hash of a transaction, block or superblock is the SHA-256 of the canonical encoding of the part that is signed, and does not depend on signatures or on cached values. The roots in a block header are those of its transactions, any change of a transaction makes the block's roots wrong, and the proofs of inclusion made for data requests and tallies verify against the root of their block and superblock and for nothing else.",
     ["inputs"], "every transaction, block and superblock; every alteration of a transaction",
     "The tests pin a few hashes; that every field is covered is not tested.",
     ["data_structures/src/chain/mod.rs", "data_structures/src/transaction.rs", "data_structures/src/superblock.rs", "data_structures/src/proto/versioning.rs"],
     [("hashes", "data_structures/src/chain/mod.rs: Hashable, VersionedHashable, BlockMerkleRoots"), ("data request proofs", "data_structures/src/transaction.rs: DRTransaction::proof_of_inclusion, TallyTransaction::proof_of_inclusion"), ("superblock proofs", "data_structures/src/chain/mod.rs: SuperBlock::dr_proof_of_inclusion, tally_proof_of_inclusion")],
     ["hashes, roots, proofs"],
     "property-based testing: differential against reference encodings, trees and proofs; metamorphic alteration",
     "Search; assumes no SHA-256 collision." + W)

prop("C20", "chain", "The stake tracker follows the protocol's staking rules over any history",
     "After any history of stake, unstake, commission, reward, slashing and age-reset operations the tracker holds exactly what the protocol's rules give: an entry exists only while its stake is at least the minimum, no operation wraps around or creates or loses stake, a rejected operation changes nothing, powers are coins times the age of the capability under the protocol version in force, rankings are ordered by power, and queries, totals and the serialized form agree with the entries.",
     ["histories"], "every sequence of staking operations over several validators and withdrawers, capabilities, epochs and protocol versions",
     "The tests walk a few fixed sequences; the tracker keeps three structures that must stay in step over any of them.",
     ["data_structures/src/staking/stakes.rs", "data_structures/src/staking/stake.rs", "data_structures/src/staking/helpers.rs", "data_structures/src/capabilities.rs"],
     [("tracker", "data_structures/src/staking/stakes.rs: StakesTracker"), ("entry", "data_structures/src/staking/stake.rs: Stake"), ("shared entries", "data_structures/src/staking/helpers.rs: SyncStakeEntry, StakeKey")],
     ["results, errors, queries, rankings, sampled stakes, serialized form"],
     "stateful property-based testing against a reference model", "Search over histories drawn from choice tapes." + W)

prop("C21", "chain", "The set of unspent outputs is exactly what the blocks left unspent",
     "After any history of blocks applied, undone, written to the database and reloaded, the set of unspent outputs is exactly those created and not yet spent, each with its value, owner, time lock and block number, whichever way it is asked for: by pointer, by address, by iteration, confirmed or not. A block's difference lists exactly what it creates and spends, the node's own outputs and balance are those of its address, and moving or clearing the database loses or keeps nothing else.",
     ["histories", "crashes"], "every sequence of blocks, in-block spends, superblock confirmations, rollbacks, restarts and migrations",
     "The tests apply one or two blocks to a small pool; the in-memory difference, the database and the address cache must stay in step over any history.",
     ["data_structures/src/utxo_pool.rs", "data_structures/src/utxo_pool/utxo_db.rs"],
     [("pool", "data_structures/src/utxo_pool.rs: UnspentOutputsPool, UtxoDiff, Diff"), ("own outputs", "data_structures/src/utxo_pool.rs: OwnUnspentOutputsPool, NodeUtxos, get_utxo_info"), ("database", "data_structures/src/utxo_pool/utxo_db.rs: UtxoDbWrapStorage, CacheUtxosByPkh")],
     ["lookups, iteration, visits, differences, database contents"],
     "stateful property-based testing against a reference model", "Search over histories drawn from choice tapes, on the in-memory storage backend." + W)

prop("C22", "val", "A transaction spends only what its signers own, and creates no value",
     "A value transfer or data request is accepted exactly if its inputs exist, are unspent, unlocked and distinct, each is signed by its owner over this transaction, and the outputs, fee and, for a data request, the rewards of its witnesses and commits add up to the inputs without wrapping; its outputs and its request are within the protocol's limits at that epoch. The fee reported is the difference, and applying the transaction spends exactly its inputs and creates exactly its outputs.",
     ["inputs", "adversary"], "every transaction over every set of outputs: missing, spent, repeated, locked, created in the same block; tampered signatures; amounts up to 2^64-1",
     "The tests try one flaw at a time on one fixed transaction with small amounts.",
     ["validations/src/validations.rs", "data_structures/src/transaction.rs", "data_structures/src/utxo_pool.rs"],
     [("value transfers", "validations/src/validations.rs: validate_vt_transaction, validate_vt_transaction_signatures, vt_transaction_fee"), ("data requests", "validations/src/validations.rs: validate_dr_transaction, validate_data_request_output, dr_transaction_fee"), ("signatures", "validations/src/validations.rs: verify_signatures, validate_transaction_signature"), ("application", "validations/src/validations.rs: update_utxo_diff")],
     ["accepted or rejected, fee, change of the set of outputs"],
     "property-based testing against a reference in unbounded arithmetic", "Search over transactions drawn from choice tapes." + W)

prop("C23", "val", "Staking moves exactly the coins its rules allow",
     "A stake is accepted exactly if staking is active, its inputs are its signers' to spend, the amount is between the minimum and what keeps the validator at or below the maximum, and the validator has no other withdrawer; an unstake exactly if the staked coins, the withdrawer's signature, the nonce, the time lock and the remainder satisfy the rules. Amounts never wrap around, fees are what is left over, and applying it changes the stakes and the outputs by exactly those amounts.",
     ["inputs", "adversary"], "every stake and unstake over every tracker: amounts up to 2^64-1, tampered signatures, wrong nonces, locks and owners, before and after activation",
     "The tests try a few fixed amounts.",
     ["validations/src/validations.rs", "data_structures/src/staking/stakes.rs", "data_structures/src/transaction.rs"],
     [("stakes", "validations/src/validations.rs: validate_stake_transaction, st_transaction_fee"), ("unstakes", "validations/src/validations.rs: validate_unstake_transaction, ut_transaction_fee"), ("application", "data_structures/src/staking/stakes.rs: process_stake_transactions, process_unstake_transactions")],
     ["accepted or rejected, fee, tracker and outputs afterwards"],
     "property-based testing against a reference in unbounded arithmetic", "Search over transactions drawn from choice tapes." + W)

prop("C24", "val", "Only those drawn may commit, and a reveal opens its commitment",
     "A commit is accepted exactly if its request waits for commits, its author proved eligibility with a valid VRF proof under the threshold of the protocol in force (reputation before wit/2, stake rank after), its collateral is the request's and taken from what the author owns, old enough and unspent or staked, and it is signed by its author; eligibility thresholds follow the published formulas. A reveal is accepted exactly if its author committed, has not revealed yet, and it hashes to that commitment. Neither ever creates or destroys coins.",
     ["inputs", "adversary"], "every commit and reveal over every state of the request, the stakes, the reputation and the outputs, in each protocol era; tampered proofs, signatures, collateral",
     "The tests try one flaw at a time on one fixed commit.",
     ["validations/src/validations.rs", "validations/src/eligibility/legacy.rs", "validations/src/eligibility/current.rs", "data_structures/src/vrf.rs"],
     [("commits", "validations/src/validations.rs: validate_commit_transaction, validate_commit_collateral, validate_commit_reveal_signature"), ("reveals", "validations/src/validations.rs: validate_reveal_transaction"), ("eligibility", "validations/src/eligibility/legacy.rs: calculate_reppoe_threshold; validations/src/eligibility/current.rs: witnessing_eligibility"), ("vrf messages", "data_structures/src/vrf.rs: DataRequestVrfMessage, BlockVrfMessage")],
     ["accepted or rejected, fee, thresholds, signed bytes"],
     "property-based testing against a reference in unbounded arithmetic", "Search over commits and reveals drawn from choice tapes; elliptic-curve VRF stand-in with real curve arithmetic." + W)

prop("C25", "val", "The tally follows from the reveals and pays everyone what is due",
     "The tally a node creates for a data request follows from the reveals alone, whatever their order: its result, who is in error and who is out of consensus are those of the protocol's consensus rules, every honest witness gets reward and collateral, liars and the silent lose theirs, and the requester's change goes to the requester, so that what goes out is what came in. That tally, and no altered one, is accepted by validation.",
     ["inputs", "adversary"], "every request, set of committers and reveals (values, errors, malformed bytes), protocol era; every alteration of a tally",
     "The tests tally a handful of fixed reveal sets.",
     ["data_structures/src/data_request.rs", "validations/src/validations.rs", "rad/src/conditions.rs"],
     [("creation", "data_structures/src/data_request.rs: create_tally"), ("validation", "validations/src/validations.rs: validate_tally_transaction, run_tally"), ("conditions", "rad/src/conditions.rs: evaluate_tally_precondition_clause, evaluate_tally_postcondition_clause")],
     ["tally bytes, outputs, accepted or rejected"],
     "property-based testing against a reference consensus; metamorphic alteration", "Search over requests and reveals drawn from choice tapes." + W)

prop("C26", "val", "A block made by the rules is accepted, and with any rule broken it is not",
     "A block is accepted exactly if its transactions are, in order, against the state its predecessors left: nothing is spent twice or before it exists, every commit, reveal and tally comes in its request's turn and once, every tally that is due is there, every validator stakes or unstakes once, the miner gets the reward and the fees and nothing else, weights stay within the limits, and the header commits to all of it. Checking a block changes nothing. Whatever chain such blocks form, requests advance through their stages, a further block is always possible, and no coins appear or vanish.",
     ["histories", "adversary"], "every chain of blocks over the protocol eras and across their activation; every block that breaks one rule; every genesis block",
     "The tests validate hand-made blocks of one or two transactions against fixed pools.",
     ["validations/src/validations.rs", "data_structures/src/data_request.rs", "data_structures/src/staking/stakes.rs", "data_structures/src/utxo_pool.rs"],
     [("blocks", "validations/src/validations.rs: validate_block_transactions, validate_genesis_block, validate_mint_transaction, validate_commit_reveal_signature, merkle roots"), ("requests", "data_structures/src/data_request.rs: DataRequestPool, DataRequestState::update_stage"), ("application", "data_structures/src/staking/stakes.rs: process_stake_transactions, process_unstake_transactions; data_structures/src/utxo_pool.rs: Diff::apply")],
     ["accepted or rejected, outputs, requests and their stages, sum of all coins"],
     "stateful property-based testing: a simulated chain against a reference model, metamorphic rule breaking", "Search over chains drawn from choice tapes." + W)

prop("C27", "val", "Only those drawn may propose a block, and every node prefers the same proposal",
     "A block is taken as a candidate exactly if it extends the tip at an epoch that is neither past nor in the future, and its signer proved to be drawn: before wit/2 with a VRF proof below the published threshold, since then by being among the validators with the greatest power, as many as the replication factor and the stakes allow. Proof, signature and header belong together. Of any set of candidates every node prefers the same one, whatever the order of arrival and the order in which its stakes came about, and the preference is the published one. Rewards halve on schedule and the protocol's parameters take their published values from the epoch at which they are activated.",
     ["inputs", "adversary"], "every proposal over every set of identities and stakes, in each protocol era; every set of candidates",
     "The tests compare a few candidates and validate one hand-made header.",
     ["validations/src/validations.rs", "validations/src/eligibility/legacy.rs", "validations/src/eligibility/current.rs", "data_structures/src/chain/mod.rs"],
     [("headers", "validations/src/validations.rs: validate_block, validate_block_signature, verify_signatures, add_block_vrf_signature_to_verify"), ("eligibility", "validations/src/eligibility/legacy.rs: calculate_randpoe_threshold, VrfSlots; validations/src/eligibility/current.rs: mining_eligibility"), ("preference", "validations/src/validations.rs: compare_block_candidates"), ("parameters", "data_structures/src/chain/mod.rs: ConsensusConstantsWit2; validations/src/validations.rs: block_reward, total_block_reward")],
     ["accepted or rejected, thresholds, slots, order, rewards"],
     "property-based testing against a reference in unbounded arithmetic; order-independence as a metamorphic relation", "Search over proposals drawn from choice tapes; elliptic-curve VRF stand-in with real curve arithmetic." + W)

prop("C28", "val", "No two superblocks are both confirmed, and no vote breaks the count",
     "The committee that signs a superblock follows from its index, the previous superblock and the identities in order: it has the announced size, is the published one in emergencies, and nobody outside it counts. Whatever votes arrive, in whatever order, early, twice or contradictory, each member counts for at most one superblock and one who votes for two for none; consensus is reached exactly at the quorum, which two different superblocks can never both have; a node never fails over a vote. The superblock commits to its blocks, data requests, tallies and keys, and votes with broken keys or signatures are refused.",
     ["histories", "adversary", "schedules"], "every committee, every sequence of votes, clock steps and superblocks; every subset of votes seen by several nodes",
     "The tests replay a few votes of three or four identities.",
     ["data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs", "validations/src/validations.rs"],
     [("committee", "data_structures/src/superblock.rs: calculate_superblock_signing_committee, magic_partition, magic_partition_2"), ("votes", "data_structures/src/superblock.rs: SuperBlockState, SuperBlockVotesMempool, two_thirds_consensus"), ("contents", "data_structures/src/superblock.rs: mining_build_superblock, hash_key_leaves"), ("signatures", "validations/src/validations.rs: verify_signatures, add_superblock_vote_signatures_to_verify")],
     ["committee, outcome of every vote, consensus, superblock hash"],
     "stateful property-based testing against a reference model", "Search over histories drawn from choice tapes; toy BLS scheme in place of the real one." + W)

prop("C29", "val", "Reputation, time and protocol changes follow the published formulas",
     "Who is active, their reputation, its ranking and the eligibility derived from it follow from what happened, not from the order of queries or from caches, and a stored and reloaded engine answers the same. Reputation is issued only for work within the limit of issuance and taken by the published factor. Epochs and timestamps convert into each other across the change of the block period. A proposal is activated exactly if enough blocks of its period signal it, and each epoch has exactly one protocol version.",
     ["inputs", "histories"], "every sequence of gains, expirations, penalties and activity; every epoch and timestamp; every sequence of signalling blocks; every schedule of versions",
     "The tests query a few identities once.",
     ["data_structures/src/chain/mod.rs", "data_structures/src/chain/tapi.rs", "data_structures/src/proto/versioning.rs"],
     [("reputation", "data_structures/src/chain/mod.rs: ReputationEngine, ReputationThresholdCache; reputation issuance, penalize_factor"), ("clock", "data_structures/src/chain/mod.rs: EpochConstants"), ("signals", "data_structures/src/chain/tapi.rs: TapiEngine, ActiveWips"), ("versions", "data_structures/src/proto/versioning.rs: ProtocolInfo, VersionsMap, ProtocolVersion")],
     ["answers of the engine, epochs, activations, versions"],
     "stateful property-based testing against a reference model", "Search over histories drawn from choice tapes." + W)

prop("C30", "val", "The transaction pool holds what was sent and not yet mined, within its limit",
     "A transaction enters the pool unless it pays too little, is found and listed there by priority, and leaves only when it or one spending the same output is mined, when it is invalid, sent again after a reorganisation, or, once the pool exceeds its weight limit, as the one of its kind that pays least. The weight counted is that of what is there. The commits taken for a block are exactly as many per request as it wants, by different authors and without spending an output twice, and the reveals are all there are; the fees are the requests'. No history makes the pool fail.",
     ["histories"], "every sequence of transactions, mined blocks, limits, reorganisations and clearings",
     "The tests insert a few transactions into a fresh pool.",
     ["data_structures/src/chain/mod.rs", "data_structures/src/data_request.rs"],
     [("pool", "data_structures/src/chain/mod.rs: TransactionsPool, UnconfirmedTransactions"), ("request limits", "data_structures/src/data_request.rs: calculate_reward_collateral_ratio, DataRequestPool::get_dr_output")],
     ["contents and order of the pool, transactions thrown out, commits and reveals for a block, fees"],
     "stateful property-based testing against a reference model", "Search over histories drawn from choice tapes." + W)

prop("C31", "rad", "RADON scripts do what their operators say, or fail; they never crash",
     "A script gives, on every value and under all rules (WIPs, protocol version), the result that the specification of its operators gives call by call, or the error of the first call that fails, and never a crash, whatever bytes the script or its arguments are. What a report tells about the run (partial results, subscripts, timings, the rules in force) is what happened. JSON and XML documents turn into the values that they stand for.",
     ["inputs", "adversary"], "every script (typed, malformed, any bytes), every value, each combination of WIPs and protocol version",
     "The tests call each operator on one or two values.",
     ["rad/src/script.rs", "rad/src/operators/mod.rs", "rad/src/operators/array.rs", "rad/src/operators/string.rs", "rad/src/types/mod.rs"],
     [("scripts", "rad/src/script.rs: unpack_radon_script, unpack_radon_call, execute_radon_script, execute_contextfree_radon_script"), ("operators", "rad/src/operators/mod.rs: operate, operate_in_context, RadonOpCodes; rad/src/operators/array.rs, string.rs, map.rs, bytes.rs, integer.rs, float.rs"), ("reports", "data_structures/src/radon_report.rs: RadonReport, ReportContext")],
     ["result, partial results, report of the run, panic"],
     "property-based testing: differential against a reference interpreter; fuzzing of packed scripts", "Search over scripts drawn from choice tapes, typed call by call. The JSONPath, regex and XML libraries are shared with the code under test." + W)

prop("C32", "rad", "Aggregation and tally turn many values into the one that the rules say",
     "Filters and reducers give what they are defined as: the mean, median, mode, deviation and hash of what is there; a filter keeps exactly the values within its limits and marks who is out. Which scripts an aggregation or a tally may have depends on the rules in force, and those rules also apply when they run. The outcome of a set of reveals is a value only if enough witnesses agree on its type, and the order of reveals and one more reveal like the result do not overturn it.",
     ["inputs"], "every list of values of every type, up to hundreds; every filter and reducer with any argument; every share of consensus",
     "The tests aggregate three or four fixed numbers.",
     ["rad/src/lib.rs", "rad/src/script.rs", "rad/src/conditions.rs", "rad/src/filters/mod.rs", "rad/src/reducers/mod.rs"],
     [("aggregation", "rad/src/lib.rs: run_aggregation_report, run_tally_report"), ("composition", "rad/src/script.rs: create_radon_script_from_filters_and_reducer"), ("conditions", "rad/src/conditions.rs: evaluate_tally_precondition_clause, evaluate_tally_postcondition_clause"), ("filters and reducers", "rad/src/filters/: deviation, mode; rad/src/reducers/: average, median, mode, deviation, hash_concatenate")],
     ["result, who is out of consensus, share of consensus, scripts refused"],
     "property-based testing: differential against a reference; metamorphic relations between sets of reveals", "Search over lists of values drawn from choice tapes." + W)

prop("C33", "rad", "Values and errors are encoded in one way and survive the round trip",
     "A value is encoded as canonical CBOR, byte for byte, and decodes to an equal value; errors are encoded with their code and arguments under tag 39 and decode to the error that they stand for. Values are equal exactly if their encodings are, equal ones hash alike, and every value equals itself. Whatever bytes witnesses reveal, and whatever arguments a request has its errors carry, decoding and encoding end in a value or an error, never a crash; a reveal that cannot be decoded counts as malformed or not at all.",
     ["inputs", "adversary"], "every value, every error with every argument, every CBOR document and any bytes",
     "The tests encode a few fixed values and errors.",
     ["rad/src/types/mod.rs", "rad/src/error.rs", "data_structures/src/radon_error.rs", "data_structures/src/serialization_helpers.rs"],
     [("values", "rad/src/types/mod.rs: RadonTypes encode, TryFrom<&[u8]>, Hash, PartialEq, serial_iter_decode"), ("errors", "rad/src/error.rs: RadError::try_from_cbor_array, try_into_cbor_array, try_into_error_code"), ("tagged errors", "data_structures/src/radon_error.rs: RadonError::encode_tagged_value, try_from_cbor_value_for_serde_cbor_value")],
     ["encoded bytes, decoded values, equality, hashes, JSON"],
     "property-based testing: round trip, differential against an independent CBOR encoder; fuzzing of documents and bytes", "Search; the two CBOR libraries are stand-ins with the limits of the real ones." + W)

prop("C34", "rad", "A data source is asked as the request says, and its answer read as such",
     "A retrieval sends exactly one request per transport, with the method, address, headers and body that the data request gives and nothing that tells who asks, through the proxy of that transport, and following redirects only as the rules say; nothing is sent for a malformed address, script or header. The answer (body, bytes, header fields) is what the script is run on; failures, late answers and statuses become the errors they stand for. Values from several transports count only if they are consistent. A data request run as a whole gives the aggregation and the tally of what its sources gave.",
     ["inputs", "adversary"], "every data request, every answer or failure of a source, every set of transports and threshold",
     "The tests need the network for most of this and try one thing at a time.",
     ["rad/src/lib.rs", "net/src/client/http/mod.rs", "data_structures/src/witnessing.rs"],
     [("retrieval", "rad/src/lib.rs: http_response, run_retrieval_report, headers_response_with_data_report, validate_header, rng_response"), ("transports", "rad/src/lib.rs: run_paranoid_retrieval, evaluate_paranoid_retrieval; net/src/client/http/mod.rs: WitnetHttpClient"), ("whole requests", "rad/src/lib.rs: try_data_request")],
     ["requests sent, results, errors"],
     "property-based testing against a reference, with a simulated network", "Search over requests and answers drawn from choice tapes; reqwest is a stand-in that records requests, so what the real one puts on the wire is out of reach." + W)

prop("C35", "p2p", "Sessions with peers keep their limits, and no network takes the inbound ones",
     "A session is in exactly one of the collections that its type and state call for, from when it is opened to when it is closed; there are never more consolidated sessions than configured, inbound or outbound, and only consolidated outbound sessions are ever in consensus. A network (address range of the configured size) counts as taken exactly while an inbound session from it is open, whatever becomes of the sessions. An address can be connected to unless there is an outbound session to it or it is the node's own. Broadcasts reach every consolidated session and anycasts one of the right ones, each with a chance.",
     ["histories", "adversary"], "every history of sessions opened, consolidated, refused, put in consensus and closed",
     "The tests open one or two sessions of each kind and never close one of several from a network.",
     ["p2p/src/sessions/mod.rs", "p2p/src/sessions/bounded_sessions.rs", "p2p/src/peers/mod.rs"],
     [("sessions", "p2p/src/sessions/mod.rs: Sessions; p2p/src/sessions/bounded_sessions.rs: BoundedSessions"), ("networks", "p2p/src/sessions/mod.rs: NetworkRangesCollection; p2p/src/peers/mod.rs: get_range_address")],
     ["collections of sessions, refusals, networks taken, sessions picked"],
     "stateful property-based testing against a reference model", "Search over histories drawn from choice tapes." + W)

prop("C36", "p2p", "The book of peers keeps good addresses and cannot be flooded from one network",
     "An address that is announced, tried, lost or put on ice is found in the buckets exactly as the rules say: unspecified addresses, the node's own and those on ice are never taken in, a tried address is not taken for new, and one on ice comes back exactly when its period ends. Addresses of one network, or announced by one source, only ever reach a few of the buckets, at the slot that the node's secret gives them. Random picks give as many as wanted, none twice, with a chance for each. The book survives a restart.",
     ["histories", "adversary"], "every history of announcements, tries, losses and ice periods, any secret",
     "The tests try a handful of fixed addresses one call at a time.",
     ["p2p/src/peers/mod.rs"],
     [("book", "p2p/src/peers/mod.rs: Peers"), ("slots", "p2p/src/peers/mod.rs: calculate_index_for_new, calculate_index_for_tried, split_socket_addresses"), ("ice", "p2p/src/peers/mod.rs: ice_bucket_contains_pure, extract_melted_peers_from_ice_bucket")],
     ["buckets, addresses replaced, picked or let off the ice"],
     "stateful property-based testing against a reference model; invariants over many addresses", "Search over histories drawn from choice tapes." + W)

prop("C37", "val", "The transactions that a node builds are funded, in limits, and accepted",
     "A transaction that is built spends outputs of the node that are unlocked, old enough and not set aside, each once, no more of them than needed and in the order asked for; it pays exactly what was wanted, the fee asked for (absolute, or per unit of its weight) and the rest back to the node, within the weight allowed, and the validation accepts it with that fee. Where none is built, the reason given is true, and nothing is set aside; what is set aside for a transaction is free again after the time given. Balances are the sums of the outputs concerned.",
     ["histories"], "every set of outputs, wanted outputs, fee, strategy, limit and sequence of transactions built",
     "The tests build from a few equal outputs with absolute fees, and do not validate the result.",
     ["data_structures/src/transaction_factory.rs", "data_structures/src/utxo_pool.rs", "data_structures/src/fee.rs"],
     [("builders", "data_structures/src/transaction_factory.rs: build_vtt, build_drt, build_st, build_commit_collateral, check_commit_collateral"), ("selection", "data_structures/src/transaction_factory.rs: OutputsCollection; data_structures/src/utxo_pool.rs: OwnUnspentOutputsPool"), ("sums", "data_structures/src/transaction_factory.rs: transaction_inputs_sum, transaction_outputs_sum, get_total_balance, get_utxos_balance")],
     ["transactions built, errors, outputs set aside, balances"],
     "stateful property-based testing against a reference model, with the validation as second oracle", "Search over histories drawn from choice tapes." + W)

prop("C38", "chain", "Fees mean the same everywhere, and the suggested ones follow the blocks",
     "What a block says about fees are the highest and lowest price per unit of weight paid in it, of each kind of transaction; the last blocks are kept, up to the capacity. A suggestion for a time to block follows from the share of the blocks of that time whose lowest fee was beaten, does not depend on the order of the blocks or on the other kinds of transactions, never falls as the wait gets shorter and stays within what was seen. A fee given in any of its textual forms is read as just that fee or refused, and prices turn into fees and back without loss.",
     ["inputs", "histories"], "every chain of blocks and transactions, any target, every form of a fee",
     "The tests of the estimation fix a handful of distributions and compare with recorded numbers.",
     ["data_structures/src/chain/priority.rs", "data_structures/src/fee.rs", "data_structures/src/wit.rs"],
     [("estimation", "data_structures/src/chain/priority.rs: PriorityEngine, strategies"), ("digest of a block", "data_structures/src/chain/priority.rs: PriorityVisitor"), ("fees", "data_structures/src/fee.rs: Fee, AbsoluteFee, RelativeFee, deserialize_fee_backwards_compatible")],
     ["digests, estimates, fees read"],
     "property-based testing: reference model, metamorphic relations, round trip", "Search over histories drawn from choice tapes." + W)

prop("C39", "wallet", "A wallet's view of the chain is what its blocks say, whatever happens meanwhile",
     "Whatever blocks, superblocks, reorganizations, restarts, resynchronizations, failures of the database and transactions of its own a wallet goes through: its outputs, stakes and balances (confirmed, pending, local, locked), its movements (amount, kind, fee, state of data requests, newest first, in any page) and its addresses with their totals are those that its own blocks imply, and nothing else. What was confirmed survives restarts and failures of the database; what was pending leaves nothing behind once dropped; every payment to an address within the gap of the last one used is found by a resynchronization.",
     ["histories", "crash-points"], "every history of blocks, superblocks, reorganizations, restarts, resynchronizations, database failures and transactions sent",
     "The tests index one or two transactions into a wallet with a mocked database.",
     ["wallet/src/repository/wallet/mod.rs", "wallet/src/repository/wallet/state.rs", "wallet/src/actors/worker/methods.rs", "wallet/src/model.rs", "wallet/src/db/encrypted/mod.rs"],
     [("indexing", "wallet/src/repository/wallet/mod.rs: index_block_transactions, _get_account_mutation, build_balance_movement"), ("confirmation", "wallet/src/repository/wallet/mod.rs: handle_superblock, _persist_block_txns, update_sync_state"), ("recovery", "wallet/src/repository/wallet/mod.rs: unlock, clear_pending_state, clear_chain_data"), ("addresses", "wallet/src/repository/wallet/mod.rs: _sync_address_generation, initialize_transient_addresses"), ("listing", "wallet/src/repository/wallet/mod.rs: transactions, balance, utxos"), ("following the chain", "wallet/src/actors/worker/methods.rs: handle_block, sync_inner, handle_superblock, handle_node_status, extend_transactions_data")],
     ["balances, movements, outputs, addresses, what a reopened wallet knows"],
     "stateful property-based testing against a reference model, with fault injection into the database", "Search over histories drawn from choice tapes; the worker is the real one, while actix, the node and RocksDB are in-memory stand-ins." + W)

prop("C40", "wallet", "A wallet's transactions spend only what it may, and the network accepts them",
     "A value transfer or data request that a wallet makes spends only outputs of its own that it may choose from: unlocked, not set aside for what was sent before, confirmed if so configured, selected, from the address wanted; no more of them than needed and in the order asked for. It pays what was wanted, the fee, and the change to the next address of its own, within the weight allowed, signed so that the network accepts it; its description (inputs, outputs, fee, weight, bytes) is true. A preview leaves no trace. Where none is made, the reason given is true. What was sent is set aside until it is included or dropped.",
     ["histories"], "every history of blocks and transactions made, previewed and sent, any fee, strategy and selection",
     "The tests make one transaction out of two or three outputs, and no test has the network's rules judge it.",
     ["wallet/src/repository/wallet/mod.rs", "data_structures/src/transaction_factory.rs"],
     [("making", "wallet/src/repository/wallet/mod.rs: create_vtt, create_data_req, build_inputs_outputs_wallet"), ("choosing", "wallet/src/repository/wallet/mod.rs: WalletUtxos, sort_utxo_set"), ("signing", "wallet/src/repository/wallet/mod.rs: create_signatures_from_inputs"), ("sending", "wallet/src/repository/wallet/mod.rs: add_local_movement")],
     ["transactions, metadata, errors, contents of the database"],
     "stateful property-based testing against a reference model, with the validation as second oracle", "Search over histories drawn from choice tapes." + W)

prop("C41", "wallet", "A wallet server serves only those who may, keeps its secrets, and loses nothing",
     "Whatever clients ask of the wallet server, it answers, and goes on. A wallet opens with its password only, and is used in an unexpired session in which it was unlocked only; locking, closing, expiring and deleting end what they should and nothing else. The wallet restored from words or from an exported key is the same wallet: same identity, master key, addresses, funds; keys are exported to who gives the password, encrypted with it. Neither what is stored in plain nor what is logged holds passwords, words or keys. A request that reads changes nothing stored; what was stored is there after a restart. Subscribers hear of each block, superblock and movement of their wallets. What is sent follows the wallet's funds, and the node gets what the wallet made.",
     ["histories", "inputs"], "every history of requests, well formed or not, of several clients, along with blocks, restarts and failures of the node",
     "No test runs the server: those there are call single functions of the crate with a mocked database.",
     ["wallet/src/actors/app/methods.rs", "wallet/src/actors/app/routes.rs", "wallet/src/actors/app/state.rs", "wallet/src/actors/app/handlers", "wallet/src/actors/worker/methods.rs", "wallet/src/repository/wallets.rs", "wallet/src/crypto.rs", "wallet/src/types.rs"],
     [("sessions", "wallet/src/actors/app/state.rs: State; wallet/src/actors/app/methods.rs: App"), ("methods", "wallet/src/actors/app/handlers; wallet/src/actors/app/routes.rs: connect_routes"), ("wallets", "wallet/src/actors/worker/methods.rs: create_wallet, unlock_wallet, update_wallet_info, export_master_key; wallet/src/repository/wallets.rs: Wallets"), ("keys", "wallet/src/crypto.rs: gen_master_key, hash_password, encrypt, decrypt")],
     ["answers, notifications, contents of the database, log, requests to the node"],
     "stateful property-based testing against a reference model, and structured fuzzing of requests", "Search over histories drawn from choice tapes; App, handlers and worker are the real ones, run one message after another by in-memory stand-ins for actix, jsonrpc, the node and RocksDB." + W)

prop("C42", "chain", "What is written for people, in JSON or on disk reads back as the same value",
     "An amount, hash, address, output pointer, way to choose outputs or number has the textual form documented (decimal wits, hex, Bech32 with the prefix of the network, hash:index), which reads back as the same value. Any other text is refused with an error and never taken for a value: addresses of another network or with a digit changed, hashes that are too short or long, pointers with something after them, numbers out of range. Every transaction, block, superblock, vote and request survives its JSON and its stored form unchanged. Arithmetic on amounts and hashes is that of integers.",
     ["inputs"], "every value; every text near a valid one; every structure of the protocol",
     "The tests read one pointer, a few addresses and print a few amounts; texts near valid ones and the forms of whole structures are not tried.",
     ["data_structures/src/chain/mod.rs", "data_structures/src/serialization_helpers.rs", "data_structures/src/wit.rs", "data_structures/src/transaction.rs"],
     [("text forms", "data_structures/src/chain/mod.rs: Display and FromStr of Hash, PublicKeyHash, OutputPointer; bech32, from_bech32, to_hex, from_hex"), ("JSON and stored forms", "data_structures/src/serialization_helpers.rs: Serialize, Deserialize, number_from_string"), ("amounts", "data_structures/src/wit.rs: Wit, PrecisionLoss")],
     ["texts, JSON documents, stored bytes, values, errors"],
     "property-based testing: round trip, differential against parsers written from the standards, mutation of valid texts",
     "Search over values and texts drawn from choice tapes." + W)

prop("C43", "p2p", "A node runs with what its configuration says over its environment's defaults",
     "Every setting of a configuration file, under its documented name or an alias, in any order and in any combination with others, is the one the node runs with, and no other setting changes because of it; every setting that is not there has the published default of the environment named (mainnet if none is). The constants of the consensus are those of the environment whatever the file says, except in development. What a node shows as its configuration, loaded again, is the same configuration, without the wallet's secrets. A value of another type or out of its range, an unknown environment and text that is not TOML are refused. The transports of retrievals are the plain one, if allowed, and then the proxies in their order; having none is refused.",
     ["inputs"], "every subset of settings with any values, in every environment; every value of the wrong type",
     "The tests load a few documents with one or two settings each and check those only.",
     ["config/src/config.rs", "config/src/defaults.rs", "config/src/loaders/toml.rs"],
     [("settings over defaults", "config/src/config.rs: from_partial of each section, consensus_constants_from_partial"), ("defaults", "config/src/defaults.rs: Defaults, Mainnet, Testnet, Development"), ("reading", "config/src/loaders/toml.rs; config/src/config.rs: serde attributes, from_secs, as_log_filter, deserialize_one_or_many"), ("showing", "config/src/config.rs: to_partial"), ("transports", "config/src/config.rs: Witnessing::into_config")],
     ["settings of the total configuration, documents shown, errors"],
     "property-based testing: reference table of settings, round trip, mutation of documents", "Search over documents drawn from choice tapes; the table of settings and defaults is written by hand in the harness." + W)

prop("C44", "node", "Every block a node makes is valid, and leaves nothing out without a reason",
     "Whatever is waiting in the pool of transactions of a node at any state of the chain, including transactions that exclude each other, that do not fit or that depend on what is not there any more, the block made of it passes the validation of every other node and of the one that made it. It contains nothing that was not waiting; a transfer, request, stake or unstake that was waiting is left out only if something it spends is spent by another of the block, if it does not fit or if its validator has one already; of two transfers that exclude each other the better paid goes first; a request gets all the commits it needs or none; every reveal that is due and every tally that is ready is in it, and so is the tally of every request with too many witnesses.",
     ["inputs", "history"], "every state of a chain from before 1.8 to 2.0; everything valid on its own, up to four blocks' worth at once",
     "The tests of build_block put up to a few transactions of one kind into a block and look at the roots and the mint; none validates the block.",
     ["node/src/actors/chain_manager/mining.rs", "data_structures/src/chain/mod.rs", "validations/src/validations.rs"],
     [("making", "node/src/actors/chain_manager/mining.rs: build_block"), ("pool", "data_structures/src/chain/mod.rs: TransactionsPool"), ("validation", "validations/src/validations.rs: validate_block_transactions")],
     ["block and pool of build_block", "result of validate_block_transactions"],
     "stateful property-based testing: model chain, differential check of mining against validation, reasons for what is left out", "Search over chains drawn from choice tapes. The function is taken out of the node's source file when the check is built, because the node itself cannot be built offline." + W)
prop("C45", "node", "A final block changes stakes, requests, outputs and reputation as owed",
     "When a block becomes final, the node's state changes by exactly what the block says. From 2.0 on, the miner gets the block reward, the fees of all transactions and those for the commits and reveals it included; the collateral of everybody who commits is set aside; at the tally it returns to those who revealed an error, returns with the reward to those in consensus, and is lost for the others; no other stake changes, and only the miner (and those ranked before), those who committed and those who lied start their age again. The unspent outputs, those of the node's own wallet, the requests in progress and the finished ones are those of the block; what was mined, and what spends something that the block spends, waits no longer, and everything else still waits. Before 2.0, reputation is issued per reveal up to the limit, expires, is taken from those out of consensus and shared equally among the honest; none appears or disappears. No valid block makes the node panic.",
     ["inputs", "history"], "every chain of valid blocks from before 1.8 to 2.0, with validators that leave at any time",
     "The tests of these functions apply single hand-made blocks with one or two validators; none has a witness that withdraws its stake before the tally.",
     ["node/src/actors/chain_manager/mod.rs", "data_structures/src/staking/stakes.rs", "data_structures/src/data_request.rs", "reputation/src/trs.rs"],
     [("stakes", "node/src/actors/chain_manager/mod.rs: process_wit2_stakes_changes"), ("pools", "node/src/actors/chain_manager/mod.rs: update_pools"), ("reputation", "node/src/actors/chain_manager/mod.rs: update_reputation")],
     ["stakes, pools and reputation engine after each block"],
     "stateful property-based testing: model chain with its own ledger of stakes, requests and reputation", "Search over chains drawn from choice tapes. The functions are taken out of the node's source files when the check is built, because the node itself cannot be built offline." + W)
prop("C46", "node", "The node follows the chain of most of its peers and splits blocks correctly",
     "Whatever the peers of a node tell, it takes for the network's state what at least the required share of them says and nothing else, in whatever order they answer, and it drops exactly the peers on another chain. A peer that lags behind, is on another chain, is ahead of time or whose clock is too far off is told so in the handshake, and no other peer is refused. The blocks received while synchronizing are split, without losing or reordering any, into those that are final, those whose superblock is to be agreed on and those yet to come. The size of the committee that must agree grows and shrinks within its bounds. Messages between peers arrive as they were sent, however the connection cuts them up.",
     ["inputs", "history"], "every set of up to 40 answers, every pair of beacons, clocks over all of i64, every cut of a stream of messages",
     "The tests check some examples of each of these functions.",
     ["node/src/actors/chain_manager/handlers.rs", "node/src/actors/session/handlers.rs", "node/src/actors/codec.rs", "node/src/utils.rs"],
     [("consensus", "node/src/utils.rs: mode_consensus; node/src/actors/chain_manager/handlers.rs: PeersBeacons"), ("handshake", "node/src/actors/session/handlers.rs: check_beacon_compatibility, check_timestamp_drift"), ("batches", "node/src/actors/chain_manager/handlers.rs: split_blocks_batch_at_target"), ("codec", "node/src/actors/codec.rs: P2PCodec")],
     ["results of the functions"],
     "property-based testing: reference models", "Search over inputs drawn from choice tapes. The functions are taken out of the node's source files when the check is built, because the node itself cannot be built offline." + W)
prop("C47", "node", "A stored node state is read back, whatever version of the node stored it",
     "The state that a node stores is the state that it reads at its next start: the information about the chain, the requests in progress, its blocks and outputs, reputation, statistics, superblocks, signals and stakes. A state that an earlier version of the node stored (0, 2, 3 or 4), with or without information about a chain and whatever protocol versions it had registered, is read with everything that it had, and with nothing where it had nothing. A state of an unknown version and one that is cut off are refused, without a panic.",
     ["inputs", "crash points"], "every state of a chain from before 1.8 to 2.0, every version of the format, every cut",
     "The tests migrate an empty state and a structure with one field.",
     ["node/src/storage_mngr/node_migrations.rs", "data_structures/src/chain/mod.rs"],
     [("migrations", "node/src/storage_mngr/node_migrations.rs: migrate_chain_state, put_versioned_to_batch")],
     ["result of migrate_chain_state", "what is put into the batch"],
     "property-based testing: round trip, and an independent writer of every earlier format", "Search over states drawn from choice tapes. The functions are taken out of the node's source files when the check is built, because the node itself cannot be built offline." + W)
prop("C48", "node", "The bridge serves every query, and relays no request that it must not",
     "The bridge's database says of every query the state it was last put in, by lists, counts and the last known query, also after a restart. However many queries the contract gets between two readings, and whatever the size of a batch, each of them that is not to be skipped is known after the next reading: posted ones as new with their request, reported and finalized ones as finished, unavailable ones as dismissed; nothing else changes. New requests are sent to the Witnet node once while they are pending, with the collateral and the reward of the request (raised to the least collateral in the same proportion where it is below) and a fee that is neither over the reward nor over the allowed one, and only when they are well-formed, keep the rules of the network and cost no more than allowed; the others are reported with the error that fits. When the node refuses one or cannot be reached, nothing is lost. A pending request that has its tally and whose block is known is reported once per reading, with its result, its transactions and the time of the epoch that it was resolved in; one without a tally is new again when it has been pending for too long, and stays pending before.",
     ["inputs", "history", "faults"], "histories of up to 30 messages, up to 160 queries in batches of any size, all kinds of requests; restarts, failing calls, a node that refuses or cannot be reached",
     "The tests of the bridge check some single requests; none runs an actor.",
     ["bridges/centralized-ethereum/src/actors/dr_database.rs", "bridges/centralized-ethereum/src/actors/eth_poller.rs", "bridges/centralized-ethereum/src/actors/dr_sender.rs", "bridges/centralized-ethereum/src/actors/wit_poller.rs"],
     [("database", "bridges/centralized-ethereum/src/actors/dr_database.rs: DrDatabase"), ("polling", "bridges/centralized-ethereum/src/actors/eth_poller.rs: EthPoller"), ("relaying", "bridges/centralized-ethereum/src/actors/dr_sender.rs: DrSender, deserialize_and_validate_dr_bytes"), ("resolving", "bridges/centralized-ethereum/src/actors/wit_poller.rs: WitPoller")],
     ["answers of the database", "requests to the contract", "requests to the node", "reports"],
     "stateful property-based testing: a reference model of the queries, with simulated contract, node and restarts", "Search over histories drawn from choice tapes. The actors' source files are compiled against a miniature of the actor system and of web3, because neither is installed; messages run in order, so interleavings within one actor's turn are not explored." + W)
