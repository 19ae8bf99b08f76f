SVC = EX + "lib.rs"
ACC = EX + "native_contract/account.rs"
BNK = EX + "native_contract/bank.rs"
ADP = EX + "adapter/contract.rs"
CYC = EX + "cycles.rs"
TRI = EX + "trie/mod.rs"

prop("E01", "Failed transactions leave no trace; successful ones are kept whole",
     """A transaction whose execution fails leaves balances, assets and every other contract state exactly as they were before it
     (apart from the sender's nonce and its receipt); a transaction reported successful keeps all of its state changes. No change of one
     transaction is attributed to, or undone together with, another transaction of the block.""",
     "inputs histories", "every block, every mix and order of succeeding and failing transactions, every failure point inside a contract call",
     """The tests execute one or two succeeding transfers; no test contains a transaction that fails half way through its state changes,
     let alone all positions of it in a block.""",
     SVC + " " + ADP, [("per-transaction cache, stashed on success and reverted on failure", SVC), ("cache / stash / trie layers", ADP)],
     ["receipts", "state root", "contract reads after the block"])

prop("E02", "Transfers conserve balances and never overdraw",
     """A successful transfer takes exactly the carried amount of the carried asset from the signer's account and adds exactly that amount to the
     receiver's, also when both are the same account or the receiver did not exist; no other balance changes. No account can be debited below zero, and
     a transfer runs only for an asset that is registered. What is credited to anyone as a fee is debited from someone.""",
     "inputs histories", "all amounts, asset ids, account kinds (user and contract), existing and missing accounts, self transfers",
     "Tests transfer one fixed amount between two fixed fresh accounts.",
     ACC + " " + SVC, [("balance update of user and contract accounts", ACC), ("arguments taken from the signed transaction", SVC)],
     ["account balances", "error of the transfer"])

prop("E03", "Asset registration is unique and immutable",
     """An asset id is registered at most once: a registration whose id is taken fails and leaves the registered asset unchanged. The stored asset carries
     exactly the name, symbol, supply and managing contract of the registration; only an asset contract can manage one, and nothing but registration
     writes an asset.""",
     "inputs histories", "all registrations and their order, including ids derived from equal code or addresses",
     "One registration of one asset is tested; a second registration of the same id never is.",
     BNK + " " + SVC, [("lookup before insertion of the asset", BNK)], ["asset query", "deploy receipt"])

prop("E04", "Every action is metered and bounded by the transaction's cycle limit",
     """Every contract action that succeeds has charged its positive cost to the cycles used of its transaction, exactly once, and fails instead of
     exceeding the limit the transaction states. The receipt of a transaction charges the cycles used times the price, in the fee asset the transaction names,
     and the fees of a block are summed per asset over all of its transactions.""",
     "inputs histories", "all actions, limits, prices and mixes of fee assets in a block",
     "Tests use a limit far above the cost and one fee asset.",
     CYC + " " + ACC + " " + BNK + " " + SVC, [("cost table and limit comparison", CYC), ("fee of the receipt and its aggregation", SVC)],
     ["receipts", "all_cycles_used of the execution result"])

prop("E05", "Block execution is deterministic",
     """Executing the same block on the same state gives the same receipts, fees, logs bloom and state root on every node and every run. Nothing that execution
     reads depends on the clock, on randomness, on the environment, on thread scheduling or on the iteration order of a hash map.""",
     "inputs schedules configurations", "all blocks; every hash seed, scheduling and environment of the executing process",
     "A test runs once, in one process with one hash seed, and compares with itself.",
     "core/executor/src/ protocol/src/fixed_codec/", [("ordered collections and pure contract code", EX)], ["state root", "receipts"],
     technique="effect analysis over the call graph plus an order-dependence analysis of loops over hash collections")

prop("E06", "The returned state root commits exactly the executed state",
     """The state root an execution returns is the root after all state changes of the block's successful transactions, and of genesis, have been written and
     committed; no change is committed that the block did not make and none it made is missing. Opening an executor at that root reads the committed state back.""",
     "inputs histories crash_points", "all blocks, all contracts, any number of changed keys",
     "Tests compare one balance after one block and never reopen an executor at the returned root with all contracts changed.",
     SVC + " " + ADP + " " + TRI, [("stash, commit of each contract trie, commit of the top trie", SVC), ("batch insertion into the trie", ADP)],
     ["state root", "reads at the root"])

prop("E07", "No transaction can stop block execution",
     """Executing a block never panics and never returns an error because of what a transaction contains: a transaction that cannot be executed yields a failed
     receipt and the rest of the block is executed. Only a failure of the storage underneath aborts a block.""",
     "inputs", "all transactions: unknown or unfunded senders, unsupported actions, unregistered assets, extreme amounts and limits",
     "Tests execute supported actions of funded accounts.",
     SVC + " " + ACC + " " + BNK, [("contract errors turned into failed receipts", SVC)], ["result of execution"])

prop("E08", "Contract reads return the latest write",
     """A read of contract state returns the value most recently written under that key: by the same transaction, else by an earlier transaction of the block, else by
     the committed state; a key never written is reported absent and a failing read is reported as failing.""",
     "inputs histories", "all keys and all sequences of writes, transaction ends, reverts and commits",
     "One insert / read pair per layer is tested.",
     ADP, [("lookup in cache, then stash, then trie", ADP)], ["value read by a contract"])

prop("E09", "One receipt and one nonce step per transaction, in order",
     """Executing a block returns exactly one receipt per transaction, in transaction order, carrying that transaction's hash and the block's epoch; each executed
     transaction, successful or not, raises the nonce of its sender by exactly one and of nobody else.""",
     "inputs histories", "all blocks and all mixes of succeeding and failing transactions and senders",
     "Tests execute one-transaction blocks.",
     SVC + " " + ACC, [("receipt pushed per loop iteration", SVC), ("nonce increment", ACC)], ["receipts", "account nonce"])

prop("E10", "Trie store keeps every historical node and writes batches whole",
     """The store under the state trie never deletes or overwrites what an earlier state root refers to: removal is a no-op and every old root stays readable. A batch is
     written whole or reported as failed, keys stay paired with their values, and a read returns what was written or reports its failure.""",
     "inputs histories fault_sequences", "all keys, batches (also of unequal length) and failing lower stores",
     "Tests insert and read a handful of fixed keys with a store that never fails.",
     EX + "trie/trie_db.rs " + TRI, [("database adapter of the trie", EX + "trie/trie_db.rs")], ["trie reads at an old root", "error of an insertion"])

prop("E11", "Genesis state is exactly the configured one",
     """Creating genesis registers exactly the configured system token, credits every configured account with exactly its configured amount once, and returns the root of that
     committed state; any malformed part of the configuration makes it fail instead of producing a partial state.""",
     "inputs configurations", "all genesis configurations: any number of accounts, malformed hex, short or long amounts",
     "One valid genesis file is executed.",
     SVC + " protocol/src/types/genesis.rs", [("registration and credits of create_genesis", SVC)], ["state root of genesis", "balances"])

STO = "core/storage/src/"
prop("S01", "Key spaces of stored items are isolated",
     """Writing, reading, checking or removing an item under a key of one kind (epochs, transactions, receipts, signed transactions, wals and so on) never
     touches an item of another kind, even when the keys are equal; every storage backend keeps every kind in its own space, and every kind a schema names
     has one.""",
     "inputs histories", "all keys, all kinds of items and every pair of them, in every backend",
     "The tests of an adapter use one kind of item; equal keys of two kinds are never stored together.",
     STO + "adapter/memory.rs " + STO + "adapter/rocks.rs " + STO + "lib.rs",
     [("column family of a category", STO + "adapter/rocks.rs"), ("key space of a category", STO + "adapter/memory.rs"), ("schema table", STO + "lib.rs")],
     ["items read back"])

prop("S02", "Batch modifications are positional and all or nothing",
     """A batch pairs the i-th key with the i-th modification, inserting its value or removing the key, and is refused if the lengths differ; it becomes visible as a
     whole or, when it fails, not at all, and no reader sees half of it. A failing write is reported.""",
     "inputs schedules crash_points fault_sequences", "all batches (also of unequal length), all backends, all interleavings with readers, every failing write",
     "One batch of equal length is written with a backend that never fails and no concurrent reader.",
     STO + "adapter/memory.rs " + STO + "adapter/rocks.rs",
     [("write batch", STO + "adapter/rocks.rs"), ("lock held over the batch", STO + "adapter/memory.rs")], ["contents after the batch", "error of the batch"])

prop("S03", "Epoch indexes agree and the latest pointer moves last",
     """An epoch stored is found both by its number and by its hash; the pointer to the latest epoch and the latest proof names an item that has already been stored, so that a
     crash between two writes never leaves it dangling.""",
     "histories crash_points fault_sequences", "all epochs, a crash or failing write between any two writes",
     "The tests store one epoch with a backend that never fails.",
     STO + "lib.rs", [("insertion of an epoch with its indexes", STO + "lib.rs")], ["lookup by number, by hash, latest"])

prop("S04", "Stored items are found again, missing and failing lookups are reported",
     """What is stored under a key is what a lookup of that key returns, decoded by the codec it was encoded with and stored under the identity of the item itself (a transaction
     under its own hash). A batch lookup returns, in request order, exactly the entries that exist; a missing item is reported absent, and a failing backend or
     undecodable value is reported as an error, never as absence.""",
     "inputs histories fault_sequences", "all items and keys, missing entries and failing backends",
     "The tests look up what they just stored, in a memory backend that never fails.",
     STO + "lib.rs " + STO + "adapter/memory.rs " + STO + "adapter/rocks.rs",
     [("schema-typed insertion and lookup", STO + "lib.rs"), ("key and value codec of the adapters", STO + "adapter/rocks.rs")],
     ["items read back", "errors"])

PT = "protocol/src/types/"
PC = "protocol/src/codec/"
PF = "protocol/src/fixed_codec/"

prop("P01", "Wire and storage encoding gives back the value that was encoded",
     """Every chain value that is stored or sent with the protobuf codec (transactions, receipts, epochs, proofs, validators, genesis, assets, accounts, contract and address
     values) decodes to exactly the value that was encoded: no field is lost, swapped with another, defaulted or changed in kind, for every variant and every
     list length. The schema gives each field and each variant a tag of its own that is read back under the same tag.""",
     "inputs", "all values of all types with a protobuf codec, all variants, empty and long lists, present and absent optional parts",
     "The tests round-trip one value of each message, built by one generator, so two fields of equal type filled with one value or a variant never generated goes unnoticed.",
     PC + " " + PF + " protocol/src/codec/primitive.rs",
     [("conversions between chain types and protobuf messages", PC), ("prost schema and its field tags", PC)],
     ["decode(encode(v)) of every codec type"],
     technique="symbolic composition of encoder and decoder by interprocedural dataflow over MIR (field provenance), plus a read-back of the expanded prost schema")

prop("P02", "Fixed encoding is reversible, so hashes bind every field",
     """The fixed (RLP) encoding of every chain value decodes to the same value: each field of each variant is written once and read back at its own position. Two values
     that differ in any field therefore have different encodings, so a transaction hash, epoch hash or receipt leaf computed over the encoding covers every field.""",
     "inputs", "all values of all types with a fixed encoding, all variants of transactions, receipts, accounts and contract addresses",
     "The tests round-trip one value of most types and skip several variants.",
     PF, [("RLP encoders and decoders", PF)], ["decode_fixed(encode_fixed(v))", "hashes of transactions and epochs"],
     technique="symbolic composition of encoder and decoder by interprocedural dataflow over MIR (position and field provenance)")

prop("P03", "Decoding hostile bytes fails with an error, never a panic or a guess",
     """Decoding arbitrary bytes with any codec of the protocol either returns a value or an error: it never panics, indexes past the end, or aborts the process; a missing part
     is an error rather than a default; a number that does not fit its target is not silently truncated.""",
     "inputs", "all byte strings given to the wire, storage and fixed decoders, with every field missing, repeated, of wrong length or out of range",
     "The tests decode only bytes they have just encoded.",
     PC + " " + PF + " " + PT + "primitive.rs", [("length and presence checks of the decoders", PC), ("length-checked byte types", PT + "primitive.rs")],
     ["decode errors on malformed bytes"],
     technique="reachability of partial operations over guarded paths (MIR), narrowing-cast audit on decoded numbers, schema read-back")

prop("P05", "Hashes and addresses accept exactly well-formed bytes and keep all of them",
     """A hash is built from exactly 32 bytes and an address from exactly 21 with a known type byte: user addresses, and each kind of contract address, only from bytes of their
     own kind. Everything else is rejected. The bytes and the hex text of a value are exactly those it was built from, and parsing them gives the value back.""",
     "inputs", "all byte strings and hex texts, of every length and every leading byte",
     "Tests parse one or two well-formed addresses.",
     PT + "primitive.rs", [("from_bytes / from_hex / as_bytes / as_hex of hash and address types", PT + "primitive.rs")], ["address and hash parsing"],
     technique="path enumeration over MIR with the branch conditions evaluated for each byte length and leading byte class")

prop("P06", "Derived hashes and addresses cover their whole input",
     """The digest of bytes covers all of them. The address of a user is the user type byte followed by the first 20 bytes of the digest of the whole public key; the address of a
     deployed contract is the type byte of its contract type followed by the first 20 bytes of the digest of the code and the full nonce, and every code and nonce has an
     address.""",
     "inputs", "all public keys, codes, nonces and contract types", "Tests derive one address per kind and never vary the high bytes of the nonce.",
     PT + "primitive.rs", [("from_pubkey_bytes and from_code", PT + "primitive.rs")], ["addresses of accounts, assets and contracts"],
     technique="byte-provenance dataflow over MIR")

NW = "core/network/src/"
NTECH = "interprocedural path-partitioned dataflow over MIR: pairing of table updates on all paths, value provenance, guarded reachability"

prop("N01", "An RPC answer reaches exactly the call that asked",
     """Every RPC call gets a request id of its own. Its pending entry exists before the request leaves and is removed when the request cannot be sent, so it is never leaked;
     the request carries the endpoint, the id and the encoded message. A response resolves exactly the pending call of the same session and the same id, once; a response
     from another session, with an unknown id or a second time is an error and resolves nothing. The answer a handler gives carries the id of the request it answers and goes
     to the session that asked.""",
     "inputs histories schedules", "all interleavings of calls, responses, duplicates and foreign responses over all sessions, and sends that fail",
     "The network crate has no test of rpc at all; its tests exercise single helper types.",
     NW + "rpc_map.rs " + NW + "outbound/rpc.rs " + NW + "reactor/mod.rs", [("pending calls by (session, id)", NW + "rpc_map.rs"), ("call and response", NW + "outbound/rpc.rs"),
     ("resolution of a response", NW + "reactor/mod.rs")], ["result of a call", "messages on the wire"], technique=NTECH)

prop("N02", "Bytes of a peer cannot abort or stall the network tasks",
     """Whatever bytes, endpoints, addresses and protocol events a remote peer sends, no network task panics: undecodable messages, endpoints with too few components or an unknown
     scheme, numbers that do not parse, short addresses are errors of that message only. The router and the reactors keep serving: every message is handled in a task of its
     own, a failed message ends nothing else, and the loops end only with their channel.""",
     "inputs", "all byte strings, endpoint texts, multiaddresses and connection events a peer can cause",
     "The tests parse a few endpoint texts and never feed raw peer bytes to the router.",
     NW + "reactor " + NW + "endpoint.rs " + NW + "message " + NW + "connection/keeper.rs " + NW + "common.rs",
     [("router and reactors", NW + "reactor/router.rs"), ("endpoint parsing", NW + "endpoint.rs"), ("service events", NW + "connection/keeper.rs")],
     ["the node keeps processing messages"], technique="reachability of partial operations over guarded paths (MIR) from every entry point a peer can reach")

prop("N03", "A message reaches the reactor registered under its endpoint",
     """A raw message is decompressed, decoded and given, with its session and unchanged, to the reactor registered under its endpoint (equality over the first three components);
     without such a reactor it is an error. The reactor hands the decoded content with the session (and request id for calls) to the handler it was registered with; an
     answer resolves a pending call. Registration files each handler under the endpoint it was registered for, and response types under theirs.""",
     "inputs", "all endpoints, sessions and contents; all registrations",
     "Tests check endpoint parsing of a few texts, not the way of a message.",
     NW + "reactor " + NW + "endpoint.rs " + NW + "service.rs", [("routing by endpoint", NW + "reactor/router.rs"), ("dispatch by scheme", NW + "reactor/mod.rs"),
     ("registration", NW + "service.rs")], ["handler invocations"], technique=NTECH)

prop("N04", "The peer tables agree with each other",
     """After any sequence of connection, discovery and failure events, the tables of the peer manager agree: every peer of the pool is reachable by its user address and by each of
     its addresses; an address or user address never leads to a peer that is gone; the session of a peer and the peer of a session are inverse; a peer with a session
     counts as connected and not as being dialed; a removed peer leaves no entry behind.""",
     "histories inputs", "all sequences of peer manager events, with peers, sessions and addresses that exist or not",
     "No test drives the peer manager.",
     NW + "peer_manager/mod.rs " + NW + "peer_manager/peer.rs", [("peer pool and its indexes", NW + "peer_manager/mod.rs"), ("addresses of a peer", NW + "peer_manager/peer.rs")],
     ["routing of messages to users", "dial candidates"], technique=NTECH)

prop("N05", "Dials are bounded, backed off and always end",
     """The node dials only below its connection limit and at most as many peers as connections are free, only peers of the pool that are not connected, not being dialed, have an
     address and whose back-off is over, and marks them as being dialed. Whatever the outcome of a dial, the mark ends, so the peer can be dialed again. Each failure increases
     the retry count and the back-off grows with it; a peer or address that reaches its limit of retries is given up, a success resets the count.""",
     "histories inputs", "all sequences of dial outcomes, limits and retry counts",
     "No test drives the peer manager.",
     NW + "peer_manager/mod.rs " + NW + "peer_manager/peer.rs", [("dial candidates and connection limit", NW + "peer_manager/mod.rs"), ("retry count and back-off", NW + "peer_manager/peer.rs")],
     ["dial commands", "peers given up"], technique=NTECH)

prop("N06", "Outbound messages and commands leave complete, once and in order",
     """A broadcast is encoded and compressed once and sent to all peers at the priority asked for; a multicast is sent to the sessions of exactly the users asked for, and every user
     without a session is reported missing by name. Commands to the connection service (dial, disconnect, send) are carried out as given; when the service is busy the
     command is kept at the end of the queue and tried again before later ones, never dropped, duplicated, reordered or downgraded, until the service is closed. Every
     failure is reported to the caller. Messages travel on the protocol they are received on, and every dial opens every registered protocol.""",
     "inputs histories fault_sequences", "all messages, priorities and user lists, with users online, offline and unknown; a busy or closing service at any command",
     "No test sends a message or fills the service queue.",
     NW + "outbound/gossip.rs " + NW + "connection " + NW + "peer_manager/mod.rs " + NW + "protocols/core.rs",
     [("command queue", NW + "connection/mod.rs"), ("gossip", NW + "outbound/gossip.rs"), ("multicast routing", NW + "peer_manager/mod.rs")],
     ["messages on the wire", "result of broadcast and users_cast"], technique=NTECH)

prop("N09", "What happens on a connection is reported to the peer manager as it happened",
     """Every error and event the connection service, the ping, the identify and the discovery protocol observe is passed to the peer manager (and to the other subscribed
     receiver) as the event that stands for it, with the address, session, peer and reason it was observed with: a failed dial with its address, a dropped connection with its
     session, a timed out or cheating peer with its identity, a new session with its context, a discovered or listened address with exactly that address. No such observation
     is lost while its receiver lives; reporting stops only after the receiver is gone.""",
     "inputs histories fault_sequences", "all service errors and events, session contexts, addresses and misbehaviours, in every order",
     "No test drives the keeper or the behaviour callbacks.",
     NW + "connection/keeper.rs " + NW + "protocols/ping.rs " + NW + "peer_manager/disc.rs " + NW + "peer_manager/ident.rs",
     [("service errors and events", NW + "connection/keeper.rs"), ("ping reports", NW + "protocols/ping.rs"), ("discovered addresses", NW + "peer_manager/disc.rs"), ("listen addresses and misbehaviour", NW + "peer_manager/ident.rs")],
     ["events the peer manager receives"], technique="path enumeration over the cases of an observation and value provenance over MIR")

prop("N10", "The peers a node knows survive its restart",
     """When the peer manager ends with persistence configured, every peer of its pool is written with its key, addresses and lasting state to the configured file, completely; when it
     starts, every peer of that file is entered in the pool with the same key, addresses and state. A file that cannot be written, read or decoded is
     reported, and decoding reverses encoding for every peer.""",
     "inputs histories crash_points", "all pools of peers, with and without addresses, connected or not, in any retry state",
     "No test saves or loads peers.",
     NW + "peer_manager/mod.rs " + NW + "peer_manager/persist.rs " + NW + "peer_manager/peer.rs",
     [("save on drop", NW + "peer_manager/mod.rs"), ("save and load", NW + "peer_manager/persist.rs"), ("stored form of a peer", NW + "peer_manager/peer.rs")],
     ["peers known after a restart"], technique="value provenance, completeness of loops over a collection, and the derived (de)serialisers, over MIR",
     note="The file format is bincode's; the disk keeping what was written is outside.")

prop("N11", "Values carried in messages come back unchanged",
     """The encoding of a value is the whole serialisation of it, and decoding is of exactly the bytes given. Inside a message, a single value is written as its whole
     encoding and a list as the encoding of every one of its values in their order; reading decodes exactly those bytes and gives back every value, in
     order. What cannot be encoded or decoded is an error of that message and never a different value.""",
     "inputs", "all values and lists of values, of any length, and all byte strings received",
     "No test encodes or decodes a value in a message.",
     NW + "message/serde.rs " + NW + "message/serde_multi.rs protocol/src/traits/network.rs",
     [("one value", NW + "message/serde.rs"), ("list of values", NW + "message/serde_multi.rs"), ("codec", "protocol/src/traits/network.rs")],
     ["values received against values sent"],
     technique="value provenance, completeness and order of loops over a list, over MIR",
     note="Bincode and the codec of each type are outside.")

prop("N12", "The network node runs as configured",
     """Every setting of the network configuration takes the value given and changes no other; an invalid key is an error and no peer given is left out. The node's parts run with
     the configured key, limits, intervals, bootstrap peers and file, share one peer state, one table of pending calls and one connection service, and
     every event one part sends reaches the part that receives it. Known peers are loaded, bootstrap peers connected. Before the connection
     service starts it listens, on the address asked for or the configured one, which the peer manager is told; a failure to listen is
     reported and changes nothing. Every part is started, and every heart beat wakes its owner after each interval.""",
     "inputs schedules", "all configurations, all orders of configuring, listening and polling, and all failures to listen",
     "No test makes, configures or polls a network service.",
     NW + "config.rs " + NW + "service.rs " + NW + "common.rs " + NW + "connection/mod.rs " + NW + "protocols/core.rs " + NW + "peer_manager/mod.rs",
     [("settings", NW + "config.rs"), ("service", NW + "service.rs"), ("heart beat", NW + "common.rs"), ("connection service", NW + "connection/mod.rs")],
     ["values the parts are given", "addresses listened on", "tasks spawned"],
     technique="value provenance through all constructors, channel ownership, and must-pass paths of the start-up, over MIR",
     note="What tentacle and the runtime do with the values they are given is outside.")

MP = "core/mempool/src/"
MPNOTE = "core/mempool is not built or tested by the sandbox's build; it is analysed from the compiler's MIR all the same."

prop("M02", "Only verified transactions enter the pool",
     """A transaction enters the pool, whether sent to this node, gossiped or pulled from another node, only if its signature is valid for its hash and key, its hash is that of its
     content, it is for this chain, neither expired nor expiring too late, not committed, and not there yet; one sent or gossiped only if
     there is room. One sent to this node is passed on to the others exactly once, one that was gossiped never again. Whatever is handed to the
     broadcaster leaves in one batch, at the latest when its timer fires.""",
     "inputs schedules", "all transactions, batches and answers of other nodes",
     "No test built here covers the pool.",
     MP + "lib.rs " + MP + "adapter/mod.rs " + MP + "adapter/message.rs " + MP + "context.rs " + MP + "tx_cache.rs",
     [("insertion and pulling", MP + "lib.rs"), ("checks and broadcaster", MP + "adapter/mod.rs"), ("gossip handler", MP + "adapter/message.rs")],
     ["transactions in the pool", "broadcast messages"],
     technique="must-pass guards on every path to an insertion, and batch completeness, over MIR", note=MPNOTE)

prop("M03", "The pool keeps what it accepted and gives back what it is asked for",
     """An entry of the pool's table is never replaced, every operation on a hash works on the same bucket, and looking and entering are one step. An accepted transaction is in the
     table and in one queue, a rejected one in neither. Flushing marks every committed transaction that is there, takes it out of the table and drops
     what was pulled. A list of transactions is given out, here or to another node, only if it holds exactly the requested ones in
     their order; after ordered transactions were ensured every one of them is in the pool.""",
     "inputs histories", "all transactions, hashes and sequences of operations",
     "No test built here covers the pool.",
     MP + "lib.rs " + MP + "map.rs " + MP + "tx_cache.rs " + MP + "adapter/message.rs",
     [("table", MP + "map.rs"), ("queues", MP + "tx_cache.rs"), ("answers", MP + "lib.rs")],
     ["transactions given out", "entries of the table and the queues"],
     technique="value provenance, lock scopes and must-pass paths of the table and its callers over MIR", note=MPNOTE)

prop("M04", "A package respects the cycle limit, expiry and arrival order",
     """The transactions a package orders are the first of the queue that were not removed and have not expired, each once, up to the first with which the sum of their cycles, which
     cannot wrap around, exceeds the limit; none is ordered after it. Only expired transactions leave the pool, all others are kept for the next
     package, including those that arrive while one is made: the queues change roles once, when everything was looked at, and insertions under way are waited
     for. No transaction is both ordered and proposed.""",
     "inputs histories schedules", "all contents of the queue, fees, limits and insertions at any point of a package",
     "No test built here covers the pool.",
     MP + "tx_cache.rs " + MP + "lib.rs",
     [("packaging", MP + "tx_cache.rs"), ("limits", MP + "lib.rs")],
     ["ordered and proposed hashes", "content of the pool after a package"],
     technique="per-round path obligations with the stage as typestate, and queue roles followed through the flag, over MIR", note=MPNOTE + " That the queue itself is first in first out is crossbeam's.")

CO = "core/consensus/src/"
CONOTE = "core/consensus is not built or tested by the sandbox's build; it is analysed from the compiler's MIR all the same, with the external overlord crate represented by a stub of its types."

prop("C04", "A block is proposed, accepted and committed as one chain",
     """A committed block was executed on the state its predecessor left, by itself and completely; its receipts, transactions and block are saved before the status moves to it, the
     status takes over every field from this block in one step, its transactions leave the pool, and other nodes and overlord are told the next number only then. No commit runs while a
     synchronisation does. A proposal is made only on top of the newest block, its header from the current status, with the packaged transactions in order and the hash of the whole; a
     proposal of somebody else is accepted only if its hash is its own and its transactions are known and verified. Failures are reported.""",
     "inputs histories schedules crash_points", "all blocks, contents of the pool and failures of storage, pool or network between any two steps",
     "No test built here covers the consensus.",
     CO + "engine.rs",
     [("commit, propose, check", CO + "engine.rs"), ("adapter", CO + "adapter.rs")],
     ["status after a commit", "content of the storage", "messages to overlord and other nodes"],
     technique="must-pass order of effects, lock scopes and value provenance of every status field over interprocedural MIR", note=CONOTE)

prop("C05", "Catching up takes over only what the chain consists of",
     """A node that is told that others are ahead takes over, in order and without gaps, the blocks it lacks: each has the number that was asked for and names the hash of the one before it
     (block 1 excepted), its proof is valid, its transactions are exactly those it lists, each with its own hash and a valid signature, and it is executed on the state the block before left, before
     it is saved and the status moves to it. Two synchronisations, or one and a commit, never run at once; failures stop it and are reported; overlord is told the new height only when all
     blocks are there.""",
     "inputs histories schedules fault_sequences", "all answers of a peer, right or wrong, and failures at any step",
     "No test built here covers the consensus.",
     CO + "consensus.rs",
     [("synchronisation", CO + "consensus.rs"), ("pulling and execution", CO + "adapter.rs"), ("status", CO + "engine.rs")],
     ["blocks, receipts and state after a synchronisation", "messages to overlord"],
     technique="per-round must-pass guards between an answer and every effect, freshness of loop-carried values (reaching definitions through phis) and lock scopes over interprocedural MIR", note=CONOTE)

prop("C06", "Consensus messages arrive as what they were sent as, and signed",
     """A proposal, vote, aggregated vote or height that arrives is handed to overlord, or to the synchronisation, as what it was sent as, with its context; what overlord sends goes out on the
     endpoint its receivers listen on, a vote only to the node it is for. A node that asks for a block or transactions is answered with exactly these, or with the error, and every answer can be
     decoded as the kind it was encoded as. A signature covers the hash of the message and names the key that made it; it is accepted only if it is valid for that hash, and the signer is the owner
     of that key. No bytes of another node stop the node. Overlord starts with the node's own keys, address, height and interval.""",
     "inputs histories", "all messages and answers, well-formed or not, of other nodes",
     "No test built here covers the consensus.",
     CO + "message.rs " + CO + "util.rs " + CO + "adapter.rs " + CO + "engine.rs " + CO + "consensus.rs",
     [("handlers, encoding of messages and answers", CO + "message.rs"), ("signatures", CO + "util.rs"), ("sending", CO + "adapter.rs"), ("start of overlord", CO + "consensus.rs")],
     ["what overlord receives", "messages to other nodes", "outcome of a verification"],
     technique="value provenance from received message to receiver and from overlord to endpoint, must-pass guards, and partial-operation (abort) analysis over interprocedural MIR", note=CONOTE)

prop("X01", "A node starts from its own chain with all parts connected",
     """All parts of a node share one storage, state, pool, consensus and network; before the network starts, every endpoint other nodes send to has the handler of its messages, and answers to
     calls are awaited. A chain is begun only if there is none: its first block is written last, after the genesis state and the first proof, so that a crash leaves a chain that is not begun or
     one that is complete; a failure to read the chain is not taken for its absence, and a chain that has blocks is left alone. A node that starts again proposes on top of its newest block: next
     number, hash, order root, cycles and latest proof from what it stored, chain, keys, validators, limits and interval from its configuration.""",
     "inputs histories crash_points", "all configurations, stored chains, and crashes between any two writes of the first start",
     "Nothing the sandbox builds contains the start of a node.",
     "src/main.rs src/config.rs",
     [("first start", "src/main.rs handle_init"), ("start", "src/main.rs start"), ("places of the databases", "src/config.rs")],
     ["handlers registered", "status the consensus starts with", "first block, state and proof"],
     technique="value provenance of every wired part and status field, and must-pass order of the writes of the first start, over interprocedural MIR",
     note="The binary is not built or tested by the sandbox's build; it is analysed from the compiler's MIR all the same, with stubs for the external crates.")

AP = "core/api/src/"
prop("A01", "The API sends what the user gave and shows what the chain has",
     """A mutation sends exactly one transaction to the pool of this node; every field of it is the one the user gave (chain, nonce, timeout, fee, receiver, asset, amount, code and contract type,
     hash, public key, signature), read as hexadecimal with or without a leading 0x; the development mutations hash and sign exactly what they send, with the key given. Success is told only if
     the pool took it, with the hash of the transaction. A query for a block shows the block of the asked number, or the newest if none is asked for, field by field and lists in order; a balance
     is that of the asked account and asset in the state of that block, zero only if there is none to read. Malformed input is reported and sends nothing.""",
     "inputs histories", "all arguments of queries and mutations, and all stored blocks and states",
     "No test built here covers the API.",
     AP + "lib.rs " + AP + "schema/mod.rs " + AP + "schema/epoch.rs " + AP + "schema/transaction.rs " + AP + "adapter/mod.rs",
     [("queries and mutations", AP + "lib.rs"), ("conversions", AP + "schema"), ("adapter", AP + "adapter/mod.rs")],
     ["transaction given to the pool", "answer to a query"],
     technique="value provenance of every field from the user's argument to the pool and from storage to the answer, with must-pass guards, over interprocedural MIR",
     note="core/api is not built or tested by the sandbox's build; it is analysed from the compiler's MIR all the same, with stubs for juniper and tide.")

prop("P07", "The root of a list commits to every entry, its position and their number",
     """The Merkle root of a list of hashes is that of the tree over exactly these hashes in their order, where every inner node is the digest of its left child followed by its
     right child. The proof of an entry consists of the tree's steps for exactly that index, in order, each with its hash and its side, so that
     hashing along it leads to the root.""",
     "inputs", "all lists of hashes and all indexes",
     "No test computes a root or a proof.",
     "common/merkle/src/lib.rs", [("tree, root and proof", "common/merkle/src/lib.rs")], ["order, receipt and confirm roots of a block", "proof of an entry"],
     technique="value provenance and symbolic byte composition over MIR", note="The tree itself is the external crate static_merkle_tree.")

prop("N13", "The node makes the right use of every address it is told",
     """Every address the peer manager is told of is used for whom it belongs to. A discovered address, on its own or in a list of any length, is filed for the connected peer
     it belongs to, is known already, or becomes a candidate to dial; every address a peer tells about itself is filed for that peer; an address the node listens at is filed
     for the node until it no longer listens there; the address a peer was dialed at, by a first or a repeated connection, is filed for that peer, and the address an incoming
     connection came from never is. An address nobody can be reached at is forgotten, as a candidate and as a peer's, unless it is a bootstrap address.""",
     "histories inputs", "all histories of peer-manager events, all lists of addresses and all states of the peer tables",
     "The tests send one-element lists of addresses of one kind to a manager with one or two peers.",
     NW + "peer_manager/mod.rs " + NW + "peer_manager/peer.rs",
     [("told addresses", NW + "peer_manager/mod.rs"), ("addresses of a peer", NW + "peer_manager/peer.rs")],
     ["addresses kept", "addresses dialed"],
     technique="must-pass paths per event and exhaustive-loop queries with value provenance of address and peer, over MIR",
     note="Whether an address is reachable, and which entries the hash tables hold, is outside; the pairing of the tables themselves is N04.")

prop("L01", "No task waits for ever on the tables the tasks share",
     """Every access to state that several tasks or calls share behind a lock (the peer tables, the pending rpc calls, the reactor map, the in-memory storage, the consensus
     status, the set of own proposals, the buckets of the pool) ends: nobody asks for a lock it already holds, two tasks that can run at the same time never take two locks in
     opposite orders, nobody waits for another task or awaits anything while it holds a blocking lock, and every lock that was taken is given back.""",
     "schedules inputs", "all interleavings of the node's tasks, all branches and all calls made while a lock is held",
     "A deadlock needs one interleaving, or one branch taken while a guard lives longer than it looks (a temporary in a condition); tests run one thread at a time over the common branches.",
     "core/network/src/peer_manager/mod.rs core/network/src/rpc_map.rs core/network/src/reactor/router.rs core/storage/src/adapter/memory.rs core/consensus/src/engine.rs core/mempool/src/map.rs",
     [("tables of the peer manager", "core/network/src/peer_manager/mod.rs"), ("pending calls", "core/network/src/rpc_map.rs"), ("reactor map", "core/network/src/reactor/router.rs"),
      ("in-memory storage", "core/storage/src/adapter/memory.rs"), ("consensus status", "core/consensus/src/engine.rs"), ("pool buckets", "core/mempool/src/map.rs")],
     ["a call or an event that is answered"],
     technique="interprocedural may-hold lock-set dataflow and lock-order graph over MIR, with task ownership",
     note="A lock is named by the field that holds it, so two values of one type count as one lock; tasks are told apart by the type that owns their state. Library code takes none of these locks.")

prop("C01", "All correct nodes decide the same block of every height",
     """No two correct nodes commit different blocks at the same height, whatever is delayed, lost or forged by fewer than a third of the validators.""",
     "schedules histories fault_sequences", "all message schedules and byzantine behaviours of several nodes",
     "There is no test of the consensus.",
     "core/consensus/src", [("overlord adapter", "core/consensus/src/engine.rs")], ["committed blocks"],
     na="""The agreement argument is about the voting algorithm, which is the external overlord crate whose source is not part of this repository (only a type stub of it is
     available here), and quantifies over schedules of several nodes; a static analysis of the adapter cannot decide it.""")

prop("C02", "The chain keeps growing under partial synchrony",
     """Once messages are delivered in time, every correct node commits further blocks.""",
     "schedules histories", "all schedules after stabilisation",
     "There is no test of the consensus.",
     "core/consensus/src", [("overlord adapter", "core/consensus/src/engine.rs")], ["committed blocks"],
     na="""Liveness over schedules of several nodes with timers; it depends on runtime timing and on the external overlord crate. No sound static argument over this source is in reach.""")

prop("C03", "Signatures and digests cannot be forged or collide",
     """Nobody without the private key produces a signature that verifies, and no two different inputs have the same hash or the same trie root.""",
     "inputs", "all inputs an attacker can compute",
     "Not testable.",
     "protocol/src/types/primitive.rs", [("digest", "protocol/src/types/primitive.rs")], ["accepted transactions"],
     na="""Computational hardness of external cryptographic code (tiny-keccak, ophelia) and of the external cita_trie; not a property of this source that an analysis of its program structure could
     decide. That the whole input reaches the digest is P06 and P07.""")

prop("N07", "A gossiped message eventually reaches every connected peer",
     """A message that was broadcast is received by every correct peer that stays connected, within bounded time.""",
     "schedules fault_sequences", "all delays, losses and back-pressure of the transport",
     "Tests do not open connections.",
     NW + "outbound/gossip.rs", [("gossip", NW + "outbound/gossip.rs")], ["messages received"],
     na="""Delivery depends on run-time quantities (socket buffers, the scheduler, the external tentacle crate) that no static argument over this source bounds. That the node hands every message
     to the transport and never drops it itself is N06.""")

prop("M01", "The transaction queue of the pool is linearizable",
     """Concurrent insertions into and packaging from the pool behave as if executed one after another.""",
     "schedules", "all interleavings of inserters and packagers",
     "core/mempool is not built or tested here.",
     "core/mempool/src/tx_cache.rs", [("transaction queue", "core/mempool/src/tx_cache.rs")], ["packaged transactions"],
     na="""Depends on the memory ordering and progress of the external lock-free crossbeam queue under arbitrary interleavings; deciding linearizability needs exploration of interleavings
     (model checking), which is a different technique.""")

prop("N08", "Compression is reversible",
     """Decompressing a compressed message gives back exactly its bytes, and no hostile input makes decompression allocate without bound.""",
     "inputs", "all byte strings",
     "No test.",
     NW + "compression/snappy.rs", [("snappy wrapper", NW + "compression/snappy.rs")], ["messages received"],
     na="""Both directions are the external snap crate, called through a two line wrapper; the round trip is a property of that crate's algorithm, not of this source. (That every message is compressed and
     decompressed exactly once is N03 and N06.)""")
