#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

p("C01", "Account blocks survive encoding and their hash binds every signed field",
  "Encoding an account block and decoding it again yields an equivalent block with the same hash, for every block type and field value. Changing any consensus-relevant field of a block changes its hash, fields that are not part of the signed content never do, and bytes that are not a well-formed block are rejected with an error instead of being accepted or crashing.",
  ["inputs"], "all block types x field values (including nil/zero/maximal amounts, nested send blocks) and arbitrary or mutated byte strings",
  "The unit tests encode a few hand-written blocks; the property is over all field combinations, all single-field changes and all byte strings.",
  ["interfaces/core/account_block.go", "interfaces/core/vm_log.go", "common/vitepb/account_block.proto"],
  [("AccountBlock.ComputeHash/hashSourceLength", "interfaces/core/account_block.go"), ("AccountBlock.Proto/DeProto/Serialize/Deserialize", "interfaces/core/account_block.go")])
p("C02", "Snapshot blocks survive encoding and their hash binds every signed field",
  "Encoding a snapshot block and decoding it again yields an equivalent block with the same hash, whatever the order in which the snapshot content was inserted. Changing any signed field (previous hash, height, timestamp, seed, seed hash, any snapshot content entry, and the protocol version once it is signed) changes the hash, and malformed bytes never crash the decoder.",
  ["inputs", "configurations"], "all snapshot blocks (0..n content entries, upgrade heights on either side) and arbitrary byte strings",
  "The tests hash one or two fixed snapshot blocks; map order, field tampering and malformed input are not sampled.",
  ["interfaces/core/snapshot_block.go"],
  [("SnapshotBlock.ComputeHash", "interfaces/core/snapshot_block.go"), ("SnapshotContent bytes in sorted address order", "interfaces/core/snapshot_block.go")])
p("C03", "Ed25519 signatures verify exactly for the signed message and key",
  "A signature produced for a message and private key always verifies under the matching public key and matches an independent reference computation of the same scheme. Any change to the message, the signature or the public key makes verification fail, and verification rejects malformed keys and signatures without crashing. Two parties deriving a shared secret from each other's keys agree on it, and authenticated decryption returns the plaintext exactly for untampered input.",
  ["inputs"], "all 32-byte seeds, messages of any length, and tampered/malformed keys and signatures (including non-canonical scalars)",
  "A few vectors are tested; tampering, scalar malleability and odd lengths over the whole input space are not.",
  ["crypto/ed25519/ed25519.go", "crypto/ed25519/internal/edwards25519", "crypto/crypto.go"],
  [("Sign/Verify with blake2b-512", "crypto/ed25519/ed25519.go"), ("VerifySig", "crypto/crypto.go")])
p("C04", "Addresses, hashes, token ids and group ids parse back to themselves only",
  "Formatting an address, hash, token id or consensus group id and parsing the text (or its JSON form) gives back the same value, and a text is accepted exactly when its prefix, length and checksum are right. Hex quantities parse back to the number they print. Derived identifiers are a deterministic function of their inputs, and validity predicates agree with what the parsers accept.",
  ["inputs"], "all identifier values, all single-character corruptions, arbitrary strings and byte strings",
  "Tests parse a handful of literals.",
  ["common/types/address.go", "common/types/hash.go", "common/types/gid.go", "common/types/token_type_id.go", "common/hexutil", "common/math"],
  [("HexToAddress checksum", "common/types/address.go"), ("HexToTokenTypeId checksum", "common/types")])
p("C05", "Contract call data round-trips through the ABI codec and never crashes it",
  "Packing arguments for any ABI signature and unpacking the result yields the same values, and the encoding equals the standard head/tail layout computed independently. Integers wider than 64 bits round-trip modulo 2^256, and elements of slices and arrays are static types. Unpacking arbitrary or truncated data either fails with an error or returns a value, but never panics or reads outside the data.",
  ["inputs", "programs"], "generated ABI type trees x values, and arbitrary/mutated byte strings against generated types",
  "Tests use fixed ABI definitions and values.",
  ["vm/abi/abi.go", "vm/abi/pack.go", "vm/abi/unpack.go", "vm/abi/type.go", "vm/abi/argument.go"],
  [("Arguments.Pack/Unpack", "vm/abi/argument.go"), ("bounds checks on offset/length", "vm/abi/unpack.go")])
p("C06", "Contract arithmetic, stack, memory and hashing follow 256-bit EVM semantics",
  "For every operand combination, each arithmetic, comparison, bitwise, shift, stack, memory, storage, hashing and jump instruction of the contract virtual machine produces the result of the 256-bit reference semantics. A sequence of such instructions leaves the same stack, memory, return data and storage as an independent reference interpreter.",
  ["programs", "inputs"], "generated straight-line and jumping bytecode with boundary operands",
  "Opcode tests use a fixed table of a few operands per instruction and never combinations.",
  ["vm/instructions.go", "vm/interpreter.go", "vm/memory.go", "vm/stack.go", "common/helper", "common/math"],
  [("opcode implementations", "vm/instructions.go"), ("jump destination analysis", "vm/destination.go")])
p("C07", "Contract execution is contained: no panic, quota-bounded, deterministic, atomic",
  "Running any bytecode on any input terminates without a panic, consumes no more quota than was made available, and gives the same result, state changes and generated blocks when repeated from the same state. A call that fails leaves contract storage, balances and logs exactly as before the call apart from the returned funds.",
  ["programs", "inputs", "histories"], "arbitrary and structured bytecode, call data, amounts and quota settings",
  "Tests execute a few compiled contracts; arbitrary bytecode and failing paths are not sampled.",
  ["vm/vm.go", "vm/interpreter.go", "vm/gas_table.go", "vm_db"],
  [("UseQuota checks before execution", "vm/interpreter.go"), ("Reset of unsaved state on error", "vm/vm.go")])
p("C08", "Tokens are conserved across every history of sends, receives and refunds",
  "Over any history of transfers, contract creations, contract calls, contract-triggered sends, refunds and built-in contract calls, the sum of all balances plus amounts in flight plus burned fees of each token stays constant except for explicit token mint and burn operations. No balance ever becomes negative, and a send block whose amount or fee exceeds the balance is rejected without effect.",
  ["histories"], "generated histories over several accounts, tokens, user contracts and built-in contracts",
  "Unit tests check single transactions; conservation is an invariant over every history.",
  ["vm/vm.go", "vm/util/db_helper.go", "vm/contracts", "vm_db"],
  [("AddBalance/SubBalance", "vm/util/db_helper.go"), ("refund path of failed receives", "vm/vm.go")])
p("C09", "Quota is monotone in stake and PoW, bounded, and never over-spent",
  "The quota of an account never decreases when its stake or its proof-of-work difficulty grows, never exceeds the per-block limit, and what its unconfirmed and confirmed blocks used is subtracted from what the last 75 snapshots accumulated, so it can never spend more than that credit. The required-difficulty calculation returns a difficulty that really provides the requested quota and is minimal up to table resolution.",
  ["inputs", "histories"], "all stake amounts, difficulties, usage lists and congestion levels",
  "Tests evaluate fixed table rows.",
  ["vm/quota/quota.go", "vm/quota/params.go", "vm/util/quota.go", "ledger/chain/cache/quota_list.go"],
  [("calcQuotaParam tables and binary search", "vm/quota"), ("usage window subtraction", "vm/quota/quota.go")])
p("C10", "Staked tokens are locked until expiry and returned exactly once to their owner",
  "For every history of staking, delegated staking and cancelling, the quota contract's holdings equal the sum of all live stakes, each beneficiary's stake amount equals the sum of stakes made for it, and each stake is returned to its owner at most once, in full, and only after its lock expired. Requests by non-owners, below minimum amounts or for unknown ids are refused and change nothing.",
  ["histories"], "generated histories of stake/cancel operations by several accounts at increasing snapshot heights",
  "Unit tests walk one fixed scenario.",
  ["vm/contracts/contracts_quota.go", "vm/contracts/abi/abi_quota.go"],
  [("stake info and beneficial amount bookkeeping", "vm/contracts/contracts_quota.go")])
p("C11", "Token supply always matches issuance, re-issuance and burning rules",
  "For every history of issue, re-issue, burn, ownership transfer and disable operations, a token's recorded supply equals what was minted minus what was burned, never exceeds its declared maximum, and only its owner can mint, transfer ownership or disable re-issuance. Minted tokens reach exactly the requested recipient, and operations violating the token's own rules fail and change nothing.",
  ["histories"], "generated histories of asset-contract calls by several accounts with boundary amounts",
  "Unit tests walk one fixed scenario.",
  ["vm/contracts/contracts_asset.go", "vm/contracts/abi/abi_asset.go"],
  [("TokenInfo storage", "vm/contracts/contracts_asset.go")])
p("C12", "Producer registrations, votes, deposits and rewards stay consistent",
  "For every history of registering, updating, revoking, voting and cancelling votes, an active producer's deposit is held by the contract, is returned once and only to its owner after the lock time, names are unique per group, and every account has at most one current vote per group. Producer rewards go to the registered withdrawal address, for exactly the elapsed days not paid before. Calls by non-owners or in the wrong state fail and leave registrations, votes and deposits unchanged.",
  ["histories"], "generated histories of governance calls by several accounts at varying heights/times",
  "Unit tests walk one fixed scenario.",
  ["vm/contracts/contracts_governance.go", "vm/contracts/abi/abi_gonvernance.go"],
  [("registration info and vote info storage", "vm/contracts/contracts_governance.go")])
p("C13", "DEX matching respects price-time priority and never overfills or loses funds",
  "For every sequence of orders, a new order trades only with crossing opposite orders, best price first and earliest first within a price, at the resting order's price, and no order executes more than its quantity or amount. After every step the book is uncrossed, all locked funds of finished orders are settled or refunded exactly, and buyers' payments equal sellers' receipts plus fees. A fill-or-kill order executes completely or not at all, a post-only order never trades on arrival, market and immediate-or-cancel orders never rest, orders with a malformed price or that the user cannot pay for are refused without effect, and only the owner or an agent granted for that market can place or cancel for the owner.",
  ["histories"], "generated order/cancel sequences over price levels, order types, fee rates and token decimals",
  "Unit tests match a few fixed orders.",
  ["vm/contracts/dex/matcher.go", "vm/contracts/dex/leveldb_book.go", "vm/contracts/dex/trade_helper.go"],
  [("Matcher.MatchOrder", "vm/contracts/dex/matcher.go"), ("order id ordering", "vm/contracts/dex/trade_helper.go")])
p("C14", "The exchange owes exactly what it holds and each call moves what it says",
  "For every history of deposits, withdrawals, transfers, orders (also by agents), matches, cancels, stakes, VX locks, market openings and daily jobs on the exchange contracts, whatever the order of the contracts' receives: what the exchange owes (users' available, locked, VX-locked, unlocking and cancelling amounts, collected fees, market owners' fees, VX still to be mined) equals what the exchange contract holds, for each token. Each accepted call moves exactly the amounts it names between the accounts it names, a refused call moves nothing, and a call the user may make and can pay for is not refused. Nobody spends more than is available, no amount becomes negative, orders of an agent need the principal's grant. Daily dividends and mined VX are shared in proportion to what each holder had that day, give out the pot exactly and each pot once; a cancelled stake or unlocked VX comes back once, in full, to who paid it, seven days later.",
  ["histories"], "generated histories of all exchange calls by 2-8 users over three markets and up to some 40 days, with contract receives interleaved at random; small pots shared by many holders",
  "Unit tests exercise isolated helpers.",
  ["vm/contracts/contracts_dex_fund.go", "vm/contracts/contracts_dex_trade.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/fund_storage.go", "vm/contracts/dex/fund_dividend.go", "vm/contracts/dex/fund_mine.go", "vm/contracts/dex/fund_stake.go", "vm/contracts/dex/fund_finish_pendings.go"],
  [("DepositAccount/ReduceAccount/LockFund/Settle", "vm/contracts/dex"), ("daily jobs", "vm/contracts/dex/fund_dividend.go")])
p("C15", "Producer election and slot assignment are deterministic, fair and well-formed",
  "Every node computes the same ordered producer list for the same votes and seed, the list has the configured size with no duplicate unless there are too few candidates, and top-ranked candidates are always represented by the configured quota. Block-production slots tile time without gap or overlap and mapping a time to a slot index and back is exact.",
  ["inputs", "configurations"], "generated vote lists, seeds, group parameters and timestamps",
  "Tests sample a few configurations.",
  ["ledger/consensus/core/vote_algo.go", "ledger/consensus/core/group.go", "ledger/consensus/core/time_index.go", "ledger/consensus/core/consensus.go"],
  [("FilterVotes/ShuffleVotes", "ledger/consensus/core/vote_algo.go"), ("GroupInfo slot arithmetic", "ledger/consensus/core/group.go")])
p("C16", "Ledger queries always reflect exactly the blocks inserted and not rolled back",
  "After any history of inserting account and snapshot blocks, rolling back to an earlier snapshot height and restarting the node, all ledger queries (blocks by hash and height, confirmations, latest blocks, balances, storage, unreceived transactions) return exactly what a simple model of the surviving blocks returns. Rolling back restores the exact earlier state.",
  ["histories", "crash_points"], "generated histories of insert/snapshot/rollback/restart on a real on-disk ledger",
  "The ledger's own tests do not run here and use fixed random mixes without a model oracle.",
  ["ledger/chain/insert.go", "ledger/chain/delete.go", "ledger/chain/state", "ledger/chain/index", "ledger/chain/cache"],
  [("prepare/insert/delete events across index, state and block databases", "ledger/chain")])
p("C17", "The layered key-value store reads as one map across flushes and rollbacks",
  "For every interleaving of writing unconfirmed account-block batches, confirming them with snapshots, rolling back unconfirmed or confirmed writes, flushing and reopening, point reads and range iteration return exactly the contents of a plain sorted map that applied the same operations. A flush persists exactly the confirmed writes.",
  ["histories", "crash_points"], "generated operation histories with a sorted-map model, including crash at each flush phase",
  "Tests run fixed sequences and compare only a few keys.",
  ["ledger/chain/db/store.go", "ledger/chain/db/write.go", "ledger/chain/db/flush.go", "ledger/chain/db/rollback.go", "common/db"],
  [("memDb plus snapshot/flushing batches", "ledger/chain/db"), ("Get2/NewIterator2", "common/db/xleveldb/db.go")])
p("C18", "The block log returns what was appended, in order, after rollback or reopen",
  "Every block written to the block log can be read back unchanged from its location and in written order, across file boundaries, flushes and reopening, and rolling back to a location removes exactly the blocks written at or after it. Damaged or missing bytes never crash the reader and are never returned as a different block whose hash is valid.",
  ["histories", "crash_points"], "generated write/rollback/flush/reopen histories with varying block and file sizes",
  "Tests write one fixed sequence.",
  ["ledger/chain/block", "ledger/chain/file_manager"],
  [("location arithmetic and buffer parsing", "ledger/chain/block/block_parser.go")])
p("C19", "A crash at any point of a flush leaves all stores at one consistent state",
  "Whatever the point at which the process stops during a coordinated flush, reopening brings all participating stores either all to the state before the flush or all to the state after it. A flush interrupted after the decision point is completed on restart; one interrupted earlier has no effect.",
  ["crash_points", "fault_sequences"], "every crash point of the flush protocol x generated pending writes across several stores",
  "Tests run flushes that succeed.",
  ["ledger/chain/flusher/flusher.go", "ledger/chain/db/flush.go"],
  [("redo log and Prepare/Commit/AfterCommit/PatchRedoLog/AfterRecover phases", "ledger/chain/flusher/flusher.go")])
p("C20", "Downloaded ledger chunks are cached and read back intact",
  "Every chunk of blocks written to the sync cache is listed and read back with the same blocks in the same order, across reopening, and deletion or overlap handling never exposes partial or foreign data. A truncated cache file reads as a prefix of its blocks followed by an error or its end, and a corrupted one never crashes the reader or yields a foreign block that would pass as valid.",
  ["histories", "inputs"], "generated chunk write/close/delete/reopen histories and corruptions",
  "Tests use one fixed chunk.",
  ["ledger/chain/sync_cache"],
  [("segment list and verified markers", "ledger/chain/sync_cache")])
p("C21", "The pending-block tree keeps every fork connected and switches forks exactly",
  "For every history of adding blocks, creating forks, switching the main branch and confirming or rolling back root blocks, each branch is a hash-linked chain connected to its parent at the recorded fork point, lookups by height and hash on a branch agree with that chain, and switching forks makes exactly the target chain the main branch. No block is lost by a switch.",
  ["histories"], "generated histories of tree operations with a reference model",
  "Tests run random histories but check only a self-consistency routine.",
  ["ledger/pool/tree"],
  [("tree.SwitchMainToBranch / ForkBranch / RootHeadAdd", "ledger/pool/tree/tree_impl.go")])
p("C22", "Pending blocks are batched in dependency order without loss or duplication",
  "For every set of pending blocks with account-chain, receive and snapshot dependencies, batching places each block exactly once after everything it depends on, keeps each account chain in order, and executing the batches hands over every block exactly once even when buckets run concurrently. Blocks whose dependency is missing are refused and leave the batch unchanged.",
  ["inputs", "schedules"], "generated dependency DAGs over several accounts with snapshot levels",
  "Tests use fixed small DAGs.",
  ["ledger/pool/batch"],
  [("batch levels and ownership buckets", "ledger/pool/batch/batch_impl.go")])
p("C23", "Unreceived transactions of a contract are delivered once, in caller order",
  "For every history of sends to contracts, their receives and rollbacks of both, the pending set of each contract and caller is exactly the sent-but-unreceived transactions; what is offered for receiving is exactly the earliest pending transaction of each caller (by height, then by its position in the sending block), whatever happens to other contracts and callers in the same event. Rolling back a send or receive restores exactly the previous pending set, and a pool rebuilt from the ledger is the same.",
  ["histories"], "generated send/receive/rollback histories over contracts, callers and heights",
  "Tests use fixed lists.",
  ["ledger/onroad"],
  [("onroad storage and contract pool", "ledger/onroad/pool"), ("chain events", "ledger/onroad/chain_events.go")])
p("C24", "Peer messages round-trip and malformed packets are rejected, never crash",
  "Every network message (frames, handshakes, sync requests and responses, block queries and broadcasts, discovery packets) decodes to what was encoded, and peers accept a handshake only from the holder of the announced identity, on the same network and genesis. A discovery packet altered in its version, sender, payload or signature is rejected; block queries are answered with exactly the requested existing blocks and heartbeats update exactly the named neighbors. Arbitrary bytes from a peer produce an error and never a panic or unbounded allocation.",
  ["inputs"], "generated messages, truncations, bit flips and arbitrary bytes",
  "Tests encode single examples.",
  ["net/message.go", "net/codec.go", "net/discovery/message.go", "net/vnode"],
  [("message pack/unpack with signature", "net/discovery/message.go"), ("frame codec", "net/codec.go"), ("handshake", "net/handshaker.go"), ("query handlers", "net/msghandler.go")])
p("C25", "The peer table holds each node once, in its distance bucket, within capacity",
  "For every history of adding, bubbling, removing and resolving peers, the routing table contains each node at most once, stores it in the bucket of its distance to the local node, never exceeds a bucket's capacity, also when peers are added concurrently or a replacement is decided by a later ping, and nearest-node queries return the truly nearest known nodes in order. Endpoints and node identities round-trip through their text and binary forms.",
  ["histories", "inputs"], "generated table operation histories and endpoint values",
  "Tests use fixed nodes.",
  ["net/discovery/table.go", "net/vnode"],
  [("bucket and table operations", "net/discovery/table.go"), ("Distance", "net/vnode/node.go")])
p("C26", "Wallet seeds stay recoverable only with the right password and derive fixed keys",
  "An entropy file stored with a password can be opened with exactly that password and yields the same mnemonic and addresses; a wrong password or altered file is rejected with an error. Over every history of adding, removing, unlocking and locking stores, exactly the unlocked stores can sign without a password, and lock listeners hear of every change. Key derivation is deterministic, agrees with an independent implementation of the derivation scheme, and distinct indexes give distinct keys.",
  ["inputs", "histories"], "generated entropies, passwords, file corruptions, derivation paths",
  "Tests use fixed vectors.",
  ["wallet/entropystore", "wallet/hd-bip/derivation"],
  [("scrypt + AES-GCM entropy file", "wallet/entropystore/crypto_store.go"), ("SLIP-10 derivation", "wallet/hd-bip/derivation")])
p("C27", "The embedded LevelDB never loses, resurrects or reorders keys",
  "For every history of puts, deletes, batches, snapshots, compactions and close-reopen, reads and iterators in both directions return exactly what a sorted map with the same operations would, and a snapshot keeps showing the state at its creation. After a crash that cuts the journal at any byte, reopening shows a prefix of the acknowledged writes with each batch all-or-nothing.",
  ["histories", "crash_points"], "generated histories with tiny table sizes, and journal truncation at every offset class",
  "The forked database has no tests of its own in this repository.",
  ["common/db/xleveldb"],
  [("memdb, journal, sorted tables, version edits", "common/db/xleveldb")])
p("C28", "Proof-of-work nonces are accepted exactly when they meet the difficulty",
  "A nonce is accepted for a difficulty and data hash exactly when the independently computed work value reaches the target, a nonce found by the solver is always accepted, and difficulty and target convert into one another consistently and monotonically.",
  ["inputs"], "all difficulties, nonces and data hashes (small difficulties for solving)",
  "Tests check one or two pairs.",
  ["pow/pow.go"],
  [("CheckPowNonce / DifficultyToTarget", "pow/pow.go")])
p("C29", "Only properly signed, linked and correctly executed blocks are accepted",
  "Block verification accepts every account block that its owner (or, for a contract, the elected producer) made and signed for the head of the account, and refuses every other: changed content, a wrong hash, signature or signer, a wrong height or predecessor, an overdrawn or malformed amount, a missing, foreign, already received or out-of-turn request, a request not confirmed often enough, an invalid proof of work, and any execution result (result data, log hash, fee, new contract address, triggered requests) that re-execution does not reproduce. Verifying yields the same state changes as producing. A snapshot block is accepted only if hash, signature, producer, height, predecessor and time are right and every account block it lists is the one in the ledger. Verification never crashes, whatever the block.",
  ["histories", "inputs"], "generated histories of user and contract blocks and snapshots on the real ledger, verified by the real verifier; several forgeries of every block, and bytes damaged on the wire",
  "The existing tests of the verifier verify single hand-made blocks; the forgeries that matter differ from a valid block in one field and are well signed.",
  ["ledger/verifier", "ledger/generator", "vm/vm.go"],
  [("VerifyNetAccountBlock / VerifyPoolAccountBlock / VerifyRPCAccountBlock", "ledger/verifier/verifier.go"), ("account rules", "ledger/verifier/account_verifier.go"), ("snapshot rules", "ledger/verifier/snapshot_verifier.go"), ("re-execution", "ledger/generator/generator.go"), ("vm.RunV2", "vm/vm.go")])
p("C30", "Uncommitted contract state reads as the base state overlaid with its own writes",
  "While a block executes, reading balances, storage, code, metadata and iterating storage shows the committed state overlaid with exactly the writes of that execution, deletions included, and discarding the execution leaves no trace. The set of changes handed over for commit reproduces exactly that view when applied to the base state.",
  ["histories"], "generated read/write/delete/iterate/reset histories over a committed base",
  "Tests read back single writes.",
  ["vm_db", "common/db/merged_iterator.go"],
  [("Unsaved overlay", "vm_db/unsaved.go"), ("merged iterator", "common/db/merged_iterator.go")])
p("C31", "Protocol upgrades activate exactly at their configured heights",
  "For every upgrade configuration and every height, a protocol version is reported active exactly when the height has reached the configured activation height of that version, later versions imply earlier ones, and configurations with gaps or decreasing heights are refused.",
  ["configurations", "inputs"], "generated upgrade boxes (custom heights, equal heights, latest/mainnet) x heights around every boundary",
  "Tests probe two or three heights of a fixed box.",
  ["common/upgrade/upgrade.go"],
  [("IsXxxUpgrade(height) predicates", "common/upgrade")])
p("C32", "A node adopts the longest valid ledger offered and keeps irreversible blocks",
  "A node whose block pool is offered the blocks of a network in any order, repeated, partly only when it asks for them, mixed with blocks of abandoned branches, second blocks at a height, forged account blocks and branches of invalid snapshot blocks, while its own users and producers add blocks, ends with exactly the network's ledger once that is at least three snapshots longer than every other valid branch (forking above the first snapshot): the same snapshot and account blocks, confirmations and balances. On the way its head is always a valid block, never loses height to a branch that is not longer, no step crashes, and a snapshot on which more than two thirds of the producers have built within a period is reported as irreversible only then and is never undone. Blocks of the node's own users and producers enter its ledger at once and are broadcast.",
  ["histories", "schedules", "inputs"], "generated network histories (users, contracts, producers, forks, invalid branches) x delivery orders, losses, chunks, pool steps in any order",
  "The existing pool tests use mocked ledgers and check single operations of the tree; convergence depends on the order in which blocks of several branches arrive and on what is already inserted.",
  ["ledger/pool"],
  [("fork choice and irreversibility", "ledger/pool/pool_fork_checker.go"), ("snapshot pool", "ledger/pool/snapshot_pool.go"), ("account pools", "ledger/pool/account_pool.go"), ("snippets and branches", "ledger/pool/bc_pool.go"), ("batches", "ledger/pool/pool_batch.go"), ("sync chunks", "ledger/pool/pool_batch_chunk.go")])
p("C33", "The RPC server answers each request once and offers what is configured",
  "On every transport (stream, WebSocket, IPC, HTTP) and for every sequence of messages, a request that names an available method and fits its parameters runs that method exactly once with exactly these arguments and is answered exactly once, under its own id, with the method's result or error; a batch is answered by one list in the order of its requests. Unknown methods, unsuitable arguments and malformed messages are answered with the proper error and run nothing; a method that panics costs only its own request; no input stops the server. A subscriber gets every event published to its subscription from its start to its end, once, in order, under its id and on its connection only. HTTP requests of a wrong kind, size or host and WebSocket connections of a foreign origin are refused, and an endpoint offers exactly the services it is configured to offer. A stopped server closes all its connections. Concurrent callers of one client each get the answers to their own calls.",
  ["inputs", "histories", "schedules", "configurations"], "generated messages, pipelined and batched, over pipes, WebSockets, IPC and HTTP; generated subscription histories on several connections; concurrent clients; generated endpoint configurations",
  "The existing tests send a handful of well-formed requests over one connection each.",
  ["rpc"],
  [("serving requests", "rpc/server.go"), ("messages and arguments", "rpc/json.go"), ("subscriptions", "rpc/subscription.go"), ("HTTP", "rpc/http.go"), ("WebSocket", "rpc/websocket.go"), ("endpoints", "rpc/endpoints.go"), ("client", "rpc/client.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
