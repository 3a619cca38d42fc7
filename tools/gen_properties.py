#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
CH="internal/chain/state.go"; VF="pkg/core/verify.go"; IV="internal/inv/inv.go"
p("C01","Ledger evolves exactly by the blocks on the chain; no double spend",
 "Advancing the ledger over a block succeeds only if every transaction input, taken in block order, is an unspent output at that point, is spent at most once, and the transaction was not included before; afterwards the unspent-output set is exactly the previous set minus the spent outputs plus the new outputs, and each transaction of the block is recorded as included in exactly that block. A block whose transactions satisfy these rules, are pending and have reached their minimum height is accepted.",
 ["inputs","histories"],"every ledger state reachable by any history of advances/rewinds, every block and every list of transactions in it",
 "Tests exercise only key-value helpers and serialisation; no test advances a ledger at all, and the rule is about every block over every history.",
 [CH],[("Advance / VerifyTxIncludable",CH),("Set",'pkg/set/set.go')],[("utxos","unspent outputs at the head",CH),("includedTxBlocks","block in which each tx is included",CH)],["result of advancing","ledger contents after it"])
p("C02","Coin is only created by the block reward; amounts never wrap around",
 "A transaction is accepted only if its inputs are worth strictly more than its outputs (coinbase: no input, exactly one output worth at least the block reward), and a block only if reward plus all input values equals all output values exactly; both comparisons hold for the true (mathematical) sums, so no choice of 64-bit amounts lets a transaction or block create coin beyond the reward and fees. Every accepted non-coinbase input names an existing output with that output's exact value, and names it only once within the transaction.",
 ["inputs"],"every transaction and block content, including amounts near 2^64 and repeated inputs",
 "No test calls the verifier; wraparound needs particular extreme amounts that sampling does not reach.",
 [VF,"pkg/core/transaction.go"],[("VerifyTx / VerifyTxIsolated / VerifyBlock",VF),("InputsValue / OutputsValue / HasSurplus","pkg/core/transaction.go")],(),["verification verdict"])
p("C03","Outputs are spent only by the holder of the matching key",
 "A transaction is accepted into the inventory only if, for each input, the double hash of the supplied public key equals the public-key hash of the output being spent and the supplied signature verifies under that key over the hash committing to the transaction's minimum height and complete output list. A signature made for one output list and minimum height is therefore never accepted for another.",
 ["inputs"],"every transaction, every referenced output, every key and signature byte string",
 "No test verifies a transaction; the claim is about all inputs of all transactions.",
 [VF,"pkg/core/crypto.go","pkg/core/transaction.go"],[("VerifyTx",VF),("VerifyTxIsolated",VF),("TxHashPreSig","pkg/core/transaction.go"),("EcdsaVerify","pkg/core/crypto.go")],(),["verification verdict"])
p("C04","Accepted blocks carry proof of work for the target the rules permit",
 "A block enters the inventory only if its id is below its stated target and the target is permitted: the original target for a first block, the parent's target inside a difficulty period, and at a period boundary a target no harder than a quarter and no easier than four times the parent's (capped by the network maximum). The target the node computes for the next block is always one these rules accept, and equals the parent target scaled by actual over desired time, clamped to those bounds.",
 ["inputs","histories"],"every block, every stored ancestor history, every network parameter set passing its own validation",
 "No test verifies a block or crosses a difficulty boundary; clamping and boundary heights need long specific histories.",
 [VF,"pkg/core/difficulty.go","pkg/core/hasht.go"],[("VerifyBlockIsolated / VerifyBlock",VF),("NextTarget / ExpectedTargetAdjustment","pkg/core/difficulty.go"),("MaxNextTarget / MinNextTarget","pkg/core/hasht.go")],(),["verification verdict","next target"])
p("C05","Block time rules hold and difficulty retargeting never crashes",
 "A block is accepted only if its mined time exceeds the median of up to five preceding blocks' times, is at most one hour ahead of the local clock, and, when it is the last of a difficulty period, exceeds the mined time of the first measured block of that period. Consequently computing the next target on any stored block never fails or crashes the node.",
 ["inputs","histories"],"every block and every stored ancestor history, including heights at period boundaries and very short chains",
 "No test builds ancestor histories; the period-boundary rule only matters at particular heights and times.",
 [VF,"pkg/core/difficulty.go"],[("VerifyBlock time checks",VF),("ExpectedTargetAdjustment / NextTarget","pkg/core/difficulty.go")],(),["verification verdict","absence of panics"])
p("C06","The node moves only to valid chains with strictly more work, atomically",
 "When a candidate head is handled, the node's ledger either stays on its old head with unchanged unspent outputs, balances and inclusion records, or ends exactly at the candidate head; it moves only if the candidate is stored, has strictly greater accumulated work, and every block from the common ancestor applies cleanly. If it fails at any block part-way, nothing of the attempt remains visible and an error is returned; on success (and only then) the new head is announced.",
 ["inputs","histories"],"every candidate event (any blocks, merkle nodes, transactions), every current ledger state, failure at any intermediate block",
 "There is no test of candidate handling; partial failure in the middle of a reorganisation needs specific multi-block histories.",
 ["internal/chain/chain.go",CH],[("handleCandidateHead","internal/chain/chain.go"),("State.Copy",CH)],[("state","current ledger","internal/chain/chain.go")],["head and ledger after handling","returned error","published events"])
p("C07","Reorganisation undoes blocks exactly",
 "Rewinding a block that was validly applied restores exactly the unspent-output set, balances-by-owner and inclusion records that preceded it, returns its transactions to the pending pool, and never fails, whatever transactions the block contains (including ones spending outputs of the same block). Hence the ledger at a head depends only on the chain to that head, not on the path of advances and rewinds taken.",
 ["histories","inputs"],"every ledger reachable by advances, every block content including in-block spends, every depth of rewind",
 "No test rewinds anything.",
 [CH],[("Rewind / RewindUntil",CH)],(),["ledger contents after rewinding"])
p("C08","Balance, unspent-output, rich-list and confirmation answers are exact",
 "At every moment the per-owner index partitions exactly the unspent outputs by the owner recorded in the creating output; a balance answer is the sum of that owner's unspent values, an unspent-output answer lists each of them once with its owner (optionally omitting exactly those spent by pending transactions), and a rich list holds the highest balances up to the requested length. A transaction's confirmations are zero if known but not included, otherwise its depth below the head plus one; unknown transactions are omitted, and the included-block answer names its block.",
 ["inputs","histories"],"every reachable ledger state and every query argument (any key-hash list, any rich-list length)",
 "No test issues these queries.",
 [CH],[("creditBalance / debitBalance",CH),("GetPkhUtxos / GetManyPkhUtxos / GetPkhBalance / GetManyPkhBalances / GetRichList / GetTxConfirms / GetTxIncludedBlock",CH)],[("pkhUtxos","owner to unspent outputs",CH)],["query answers"])
p("C09","The inventory holds only verified entities, once, under their own id",
 "Every block, merkle node and transaction enters the inventory only after passing full verification, is stored under the hash of its own content, is never replaced, and carries a height equal to its parent's plus one, accumulated work equal to its parent's plus that of its target, and a size equal to the sum of its parts. Storing an already known or invalid entity reports an error and changes nothing.",
 ["inputs","histories"],"every sequence of store requests over every content",
 "No test stores anything in an inventory.",
 [IV],[("StoreBlock / StoreMerkle / StoreTx",IV),("NewInv",IV)],[("blocks/merkles/txs","stored records by id",IV)],["has/get answers after storing","returned error"])
p("C10","Ancestry queries return the true ancestors",
 "For stored blocks, the ancestor lists, specific-depth ancestor, ancestor depth, ancestors-until and lowest-common-ancestor queries return exactly what the parent links define (nearest first, stopping at the root, excluding both end points where documented), the common ancestor being the highest block that is an ancestor of both. They terminate and never fail on inputs that satisfy their documented requirements.",
 ["inputs","histories"],"every stored block tree and every pair of blocks, depth and length argument",
 "No test builds a block tree.",
 [IV],[("GetBlockAncestors / GetBlockSpecificAncestor / GetBlockAncestorDepth / GetBlockAncestorsUntil / GetBlockLCA / HasAnyBlock",IV)],(),["query answers"])
p("C11","Merkle verification and block composition rules",
 "A merkle node is accepted only if both children are known, different children share no transaction, and the (single-counted if equal) child sizes total at most the block size limit, with no wraparound. A block is accepted only if its parent and merkle root are known and its transaction list is non-empty, within the count and size limits, begins with the only coinbase transaction, and that coinbase's minimum height equals the block's height; a transaction only if within the transaction size limit.",
 ["inputs","histories"],"every merkle node, block and transaction over every inventory content",
 "No test verifies merkle nodes or blocks.",
 [VF,"pkg/core/block.go","pkg/set/set.go"],[("VerifyMerkle / VerifyBlock / VerifyTxIsolated",VF)],(),["verification verdict"])
p("C12","Wire codec round-trips and rejects what does not match",
 "Every block, merkle node, transaction, number, flag, hash, and string or byte string up to the length limit, once written to a connection is read back equal and consumes exactly the bytes written; longer data is refused with an error instead of being truncated. A received entity whose hash differs from the requested id, or any malformed or truncated input, yields a sticky error and an empty result; no byte sequence from a peer makes reading crash, and after an error no further bytes are transferred.",
 ["inputs","fault_sequences"],"every value, every byte sequence received, every point at which the connection fails",
 "Tests cover a couple of hand-picked values over a loopback pair; hostile byte sequences and boundary lengths are not reached.",
 ["pkg/prot/conn.go","pkg/prot/primitives.go","pkg/prot/core.go"],[("Read*/Write*","pkg/prot/core.go"),("length checks","pkg/prot/conn.go")],(),["bytes on the stream","sticky error","returned value"])
p("C13","Stored records survive the disk round trip",
 "Every block, merkle and transaction record written to its on-disk text form and parsed back yields an equal record, whatever its contents, and parsing arbitrary text either fails with an error or yields a record without crashing. A disk-backed map answers present exactly for keys stored in memory or parseable from disk, and returns the stored value.",
 ["inputs"],"every record value, every file content",
 "Tests round-trip one random record of each kind.",
 ["internal/inv/serialize.go","pkg/disksyncmap/disksyncmap.go"],[("String / *RecordFromString","internal/inv/serialize.go"),("DiskSyncMap","pkg/disksyncmap/disksyncmap.go")],(),["parsed record"])
p("C14","Wallet transactions pay exactly what was asked and conserve value",
 "A transaction built to pay destinations contains each destination once with exactly the requested amount plus one change output to the richest controlled owner, spends only distinct controlled outputs, each signed by its owner's key over the final outputs, and its inputs equal outputs plus the fee for the target rate with no wraparound. It stays within the transaction size limit with worst-case signatures; insufficient or uncontrolled funds give an error, never a wrong transaction or a crash; a consolidation sends everything but the fee to one controlled owner.",
 ["inputs"],"every set of keys, outputs, destinations and amounts (including ones whose sums exceed 64 bits), fee rates and limits",
 "No test builds a wallet transaction.",
 ["pkg/core/txfactory.go"],[("MakeOutboundTx / MakeConsolidateTx / getBalanceAndRichestPkh / getPkkPrivs","pkg/core/txfactory.go")],(),["the built transaction or error"])
p("C15","Mining templates obey every acceptance rule under the node's control",
 "The transaction list offered to miners contains only distinct pending transactions that are includable on the current head, that spend no output twice among themselves, and that with the coinbase fit in the block size limit; it is offered with the current head and the correct next target. The template a miner builds from it has the right parent, a coinbase first paying exactly reward plus fees at the next height, a merkle tree over exactly coinbase plus the offered list in order, and building it does not disturb the shared list.",
 ["inputs","histories"],"every ledger and pending pool, every offered list, any number of miners sharing one offer",
 "No test creates a mining target or template.",
 ["internal/chain/target.go","internal/miner/miner.go","pkg/util/util.go","pkg/core/block.go"],[("CreateMiningTarget","internal/chain/target.go"),("updateTemplate / mine","internal/miner/miner.go"),("MerkleFromTxIds","pkg/core/block.go"),("Prepend","pkg/util/util.go")],(),["published target","template, coinbase and merkle nodes"])
p("C16","Hash ordering, conversion and work arithmetic are exact",
 "Comparing two 256-bit values orders them as big-endian integers; converting to and from big integers, bytes and hex text is lossless, and text that is not 64 hex digits is rejected; the work of a target is the floor of (2^256-1)/target; adding work is exact addition; and the hardest and easiest permitted next targets are a quarter (rounded down) and four times the value capped at the network maximum.",
 ["inputs"],"every 256-bit value and every text",
 "Tests compare a few values.",
 ["pkg/core/hasht.go"],[("Lt / Eq / BigInt / NewHashTFrom* / TargetToWork / WorkAppendTarget / MaxNextTarget / MinNextTarget / TargetsToTotalWork","pkg/core/hasht.go")],(),["returned values"])
p("C17","Peer admission respects the limit and never duplicates a peer",
 "A connection is upgraded to a peer exactly when it has no error, fewer than the maximum number of peers are connected and no peer with the same identity is; otherwise it is closed. The number of connected peers therefore never exceeds the maximum, and a connection to oneself or failing the version handshake is never usable.",
 ["inputs","histories"],"every sequence of connection attempts and handshake messages",
 "No test drives admission.",
 ["internal/peerfactory/peerfactory.go","pkg/prot/conn.go"],[("addConn","internal/peerfactory/peerfactory.go"),("handshake","pkg/prot/conn.go")],[("knownPeers","identities of connected peers","internal/peerfactory/peerfactory.go")],["set of connected peers"])
p("C18","Administrative endpoints demand the admin password",
 "When an admin password is configured, an administrative request reaches its handler only if it presents exactly that password; any other is answered with an authorisation failure and has no other effect. A request with a method the endpoint does not support never reaches a handler.",
 ["inputs","configurations"],"every request header content and server configuration",
 "No test starts the server.",
 ["internal/rest/server.go"],[("mountHandlers","internal/rest/server.go")],(),["response status and handler invocation"])
p("C19","The wallet key ring never loses or mismatches keys",
 "Adding keys to a wallet configuration keeps every key already present in order and adds each new key exactly once per address, never replacing one; a freshly made entry's address is the double hash of its public key. A key ring that passes validation contains only matching address/key pairs, and looking up an address returns its own key or an error.",
 ["inputs","histories"],"every configuration content and list of keys",
 "No test touches the wallet configuration.",
 ["cmd/bcwallet/config.go"],[("AddKeys / VerifyKeys / GetPrivates","cmd/bcwallet/config.go")],(),["configuration after the operation"])
p("C20","Queues deliver every item once, in order; closed queues stay closed",
 "Items leave a queue in exactly the order pushed, each once; peeking does not remove; size equals pushed minus popped. The synchronised queue gives the same behaviour as a sequence of atomic steps under its lock, drops pushes and reports empty after closing, and always releases its lock.",
 ["inputs","histories"],"every sequence of push/pop/peek/close calls",
 "Tests run one short fixed sequence.",
 ["pkg/queue/queue.go","pkg/syncqueue/syncqueue.go"],[("Queue","pkg/queue/queue.go"),("SyncQueue","pkg/syncqueue/syncqueue.go")],(),["returned items"])
p("C21","A peer's chain is pre-checked before its contents are downloaded",
 "Blocks received during a chain sync are accepted for further download only if the first hashes to the announced head, each names the next as its parent, the last attaches to the agreed common block, every block's id is below its target, and the common block's work plus the new blocks' work strictly exceeds the current head's. A chain failing any of these is answered with a refusal and reported as an error, without crashing.",
 ["inputs"],"every list of received blocks and every inventory content",
 "No test runs a sync with a misbehaving peer.",
 ["internal/peer/sync.go"],[("quickVerifyChain / handleInboundSyncChain","internal/peer/sync.go")],(),["verdict"])
p("C22","The pending pool and its spend index stay consistent",
 "A transaction enters the pending pool only after full verification, leaves it exactly when a block including it is applied, and returns when that block is undone; the index of outputs spent by pending transactions lists, for every output, exactly the pending transactions that spend it and no empty entries. A new valid transaction is stored, pooled and announced exactly once; an invalid one leaves everything unchanged and reports an error.",
 ["inputs","histories"],"every history of arrivals, advances and rewinds",
 "No test adds a transaction to a pool.",
 [CH,"internal/chain/chain.go"],[("AddMempoolTx / Advance / Rewind",CH),("handleCandidateTx","internal/chain/chain.go")],[("mempool, mempoolUtxoSpends","pending transactions and what they spend",CH)],["pool contents and index"])
p("C23","Block and transaction ids commit to everything they describe",
 "Two blocks, merkle nodes, transactions, inputs or outputs that differ in any field have different ids (assuming the hash function is collision free), so content received or stored under an id is the only content with that id.",
 ["inputs"],"every pair of entities",
 "Tests cannot quantify over pairs of contents.",
 ["pkg/core/block.go","pkg/core/transaction.go","pkg/core/hasht.go"],[("Hash methods","pkg/core/transaction.go"),("DHashVarious / DHashList","pkg/core/hasht.go")],(),["ids"])
p("C24","Nodes connected long enough converge on the same head",
 "Any set of honest nodes that stay connected and stop receiving new blocks eventually all report the head with the greatest accumulated work among them.",
 ["schedules","fault_sequences"],"every network schedule and delivery order",
 "Convergence is a liveness property of several processes.",
 ["internal/peer/peer.go","internal/peer/sync.go"],[("head announcement and chain sync","internal/peer/sync.go")],(),["heads over time"])
p("C25","A crash at any point leaves a loadable, correct data directory",
 "Whatever instant the process or machine stops, a restarted node loads only complete, correct records from its data directory and reaches a head it had validated.",
 ["crash_points"],"every crash point during record and head writes",
 "Tests never crash the process during a write.",
 ["pkg/disksyncmap/disksyncmap.go","internal/chain/chain.go"],[("saveFile / saveHeadToFile","pkg/disksyncmap/disksyncmap.go")],(),["state after restart"])
p("C26","Shared structures are free of data races",
 "No interleaving of the node's goroutines produces a data race on the inventory, queues, topics or shared event contents.",
 ["schedules"],"every interleaving of goroutines",
 "Tests sample a handful of schedules.",
 ["pkg/topic/topic.go","pkg/syncmap/syncmap.go"],[("sync.Map and mutexes","pkg/syncmap/syncmap.go")],(),["race reports"])
for x in P: print(json.dumps(x))
