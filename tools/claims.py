T = "Contracts on the real functions, discharged for all inputs by SMT; assumed contracts and axioms are listed in the evidence file. "
claimed["C16"] = ("proof", T + "math/big and encoding/hex are assumed by contract.")
na["C24"] = "convergence is a liveness property of several communicating processes; no function contract expresses it"
na["C25"] = "crash points inside file-system writes are below the level of function contracts: the property is about the state between system calls, not about any postcondition"
na["C26"] = "freedom from data races over all interleavings needs a concurrent separation logic with a Go front end; none is available here and the sequential contracts assume it"
claimed["C20"] = ("proof", T + "Locks are modelled sequentially: each method is shown to be one critical section that guards every access to the queue and releases its lock; mutual exclusion itself is sync.Mutex's.")
claimed["C23"] = ("proof", T + "SHA-256 is uninterpreted: the lemmas conclude equality of every field or a SHA-256 collision. Known finding: a block's MinedTime is not part of its id.")
claimed["C10"] = ("proof", T + "The number of iterations of the query loops is bounded by a proved expression; heights are assumed below 2^40.")
claimed["C02"] = ("proof", T + "Amount sums are over mathematical integers with the wrap-around of uint64 made explicit at every addition; big.Int arithmetic is assumed exact.")
claimed["C03"] = ("proof", T + "ECDSA verification and SHA-256 are uninterpreted: acceptance is shown to imply a valid signature, under the key that hashes to the output's lock, over the pre-signature hash, and that hash to commit to every field but the signatures.")
claimed["C04"] = ("proof", T + "The block id is the hash of the exact header bytes (C23 lists the one field left out); work sums are over mathematical integers.")
claimed["C05"] = ("proof", T + "The wall clock is taken not to move during one call; block heights are assumed below 2^40.")
claimed["C09"] = ("proof", T + "Preservation: every store keeps the inventory well-formed, given that it was before; that the files read at start-up hold such an inventory is assumed.")
claimed["C11"] = ("proof", T + "Sizes are compared with the length of the exact encoding; id kinds (transaction or merkle) are told apart by the hash, as SHA-256 collision freedom gives.")
claimed["C01"] = ("proof", T + "The ledger is specified by folds over the block's transactions as stored in the inventory; the invariant ties unspent outputs, inclusion records and balances to the chain to the head.")
claimed["C06"] = ("proof", T + "Topic publication is modelled by a ghost counter per topic; what subscribers do with an announcement is outside.")
claimed["C07"] = ("proof", T + "Rewind's panics are obligations; the state before a rewind is required to be the ledger of the chain to its head, which every advance, rewind and candidate head is shown to keep.")
claimed["C22"] = ("proof", T + "Topic publication is modelled by a ghost counter per topic; full verification before pooling is the inventory's StoreTx (C02, C03, C09).")
claimed["C08"] = ("proof", T + "An owner's balance is a mathematical sum over the finite set of its outputs (axioms total_*, fin_*, bal_def); that it never wraps follows from the proved supply (reward times height) with the reward below 2^24 and heights below 2^40.")
claimed["C15"] = ("proof", T + "The shape of the merkle tree (core.MerkleFromTxIds, floating-point layer count) is an assumed contract, checked only for every list length up to a bound by the harness; that bounded part is not counted as proved. Fee totals are stated modulo 2^64.")
claimed["C21"] = ("proof", T + "What is proved is the quick check of an announced chain (linkage to a known block, every header's proof of work, strictly more work than ours); total work is assumed below 2^256. The connection's reads and writes on either side are outside this property (C12).")
claimed["C12"] = ("proof", T + "The stream is modelled by what has been written and what will be read (ghost state of the connection); io.ReadFull and net.Conn.Write are assumed to transfer what was asked for or to fail, and the two ends of one stream to carry the same bytes.")
claimed["C17"] = ("proof", T + "peer.NewPeer/Loop, CloseIfPossible and the listener are assumed contracts (started goroutines, modelled by ghost sets); the event loop that removes closing peers is exercised by the harness only.")
na["C13"] = "the records are built and parsed by strconv, strings.Split, encoding/json and file I/O: every step of the round trip would be an assumed contract, and the verifier has no theory of strings beyond equality and length; two defects found by reading were repaired"
na["C14"] = "the construction sorts and searches by floating-point fee rates and re-estimates sizes in a loop; floating-point division is unconstrained in the verifier, so no contract within reach decides that the amounts and fee are exactly those asked for; one defect found by reading was repaired"
na["C18"] = "the guarantee lies in how http.ServeMux and handler closures are composed and called by net/http; no function of the repository has it as a postcondition"
na["C19"] = "the guarantee lies in the JSON encoding of the key ring and in replacing a file: both would be assumed contracts, leaving nothing to discharge"
