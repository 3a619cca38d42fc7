From 1443b6ce663f45b22e648b07698473a0b64847b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 01/14] fix: check the last block of a difficulty period, not
 of every height

---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..afff546 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 47d3839b916ae858db7f21868f251ff304c45ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 02/14] fix: reject transactions and blocks whose total values
 overflow

---
 pkg/core/transaction.go | 19 +++++++++++++++++++
 pkg/core/verify.go      |  8 ++++++++
 2 files changed, 27 insertions(+)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 55f01ed..1582310 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -80,6 +80,25 @@ func (tx Tx) OutputsValue() uint64 {
 	return total
 }
 
+// Whether the total value of the inputs or of the outputs exceeds 64 bits.
+func (tx Tx) ValuesOverflow() bool {
+	totalIn := uint64(0)
+	for _, txi := range tx.Inputs {
+		totalIn += txi.Utxo.Value
+		if totalIn < txi.Utxo.Value {
+			return true
+		}
+	}
+	totalOut := uint64(0)
+	for _, txo := range tx.Outputs {
+		totalOut += txo.Value
+		if totalOut < txo.Value {
+			return true
+		}
+	}
+	return false
+}
+
 func (tx Tx) VSize() uint64 {
 	// 8 from MinBlock, 32 each from top-level hash of Inputs and Outputs
 	vSize := uint64(8 + 32 + 32)
diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index afff546..2749b0e 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -140,6 +140,9 @@ func (v Verifier) VerifyBlock(b Block) error {
 		}
 		totalInputs += tx.InputsValue()
 		totalOutputs += tx.OutputsValue()
+		if totalInputs < tx.InputsValue() || totalOutputs < tx.OutputsValue() {
+			return fmt.Errorf("block total value overflows")
+		}
 	}
 
 	// Verify block's total inputs and outputs match
@@ -249,6 +252,11 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify input and output totals don't wrap around, so they can be compared
+	if tx.ValuesOverflow() {
+		return fmt.Errorf("tx total value overflows")
+	}
+
 	if tx.IsCoinbase {
 		// Verify coinbase has no inputs
 		if len(tx.Inputs) > 0 {
-- 
2.43.0


From b58a998dc3a784e75a423703af7fdd729a788728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 03/14] fix: reject transactions that name the same output
 twice

---
 pkg/core/verify.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 2749b0e..c2e71cb 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -247,6 +247,15 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		}
 	}
 
+	// Verify no output is spent twice
+	spent := set.NewSet[Utxo]()
+	for _, txi := range tx.Inputs {
+		if spent.Includes(txi.Utxo) {
+			return fmt.Errorf("tx spends the same utxo twice")
+		}
+		spent.Add(txi.Utxo)
+	}
+
 	// Verify within vSize limit
 	if tx.VSize() > v.params.MaxTxVSize {
 		return fmt.Errorf("tx vSize exceeds limit")
-- 
2.43.0


From 8a59c353f67f9ea289a2b5cb1f3d5cf242c2b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 04/14] fix: rewind a block's transactions in reverse order

---
 internal/chain/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..be3bd46 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,9 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo the last tx first, as it may spend outputs of earlier txs in the block
+	for i := len(rTxs) - 1; i >= 0; i-- {
+		tx := rTxs[i]
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From c0bd6c36f9b618e3013b6a12832381994f683884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 05/14] fix: Prepend must not modify the given slice

---
 pkg/util/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..8c70f3a 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -13,6 +13,8 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 
 // Prepend into slice.
 func Prepend[K any](ls []K, items ...K) []K {
+	// Copy first, so the caller's backing array is never shifted
+	ls = CopyList(ls)
 	for _, item := range items {
 		if len(ls) == 0 {
 			ls = []K{item}
-- 
2.43.0


From dc2d682c758228ebd10e0e28d08781421a858cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 06/14] fix: refuse to write data one byte longer than the size
 prefix can say

---
 pkg/prot/conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..6ff04e9 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -170,8 +170,9 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	// The size prefix is a uint16
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 6e1efbe7689a8d34ad6e2066b1780c10ce01f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 07/14] fix: reading a transaction must not allocate by the
 claimed counts

---
 pkg/prot/core.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..06c0ac1 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,17 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
 	}
+	// Don't allocate by these up front, the peer may claim any number
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
 	if c.err != nil {
 		return core.Tx{}
 	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +119,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From f266bd522601d46f3e6bddd013164cf26c08958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 08/14] fix: reading peer addresses must not allocate or loop
 by the claimed count

---
 internal/peer/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..e78caa1 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,8 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
-- 
2.43.0


From 3cc918cbb296321c0c996694f505303be08dae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 09/14] fix: report why a received chain was refused instead of
 crashing

---
 internal/peer/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..8abfdba 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -139,7 +139,7 @@ func (p *Peer) handleInboundSyncChain() error {
 		if p.conn.HasErr() {
 			return p.conn.Err()
 		}
-		return fmt.Errorf("failed to verify received chain: %s", p.conn.Err().Error())
+		return fmt.Errorf("failed to verify received chain: %s", err.Error())
 	}
 	p.conn.WriteBool(true)
 	if p.conn.HasErr() {
-- 
2.43.0


From 85d12403b9e6220e0cfd3df469b0657d72d40741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 10/14] fix: check proof of work before adding up work, a zero
 target has none

---
 internal/peer/sync.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 8abfdba..7c44102 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -214,6 +214,12 @@ func (p *Peer) quickVerifyChain(
 	if newBlocks[len(newBlocks)-1].PrevBlockId != lcaId {
 		return fmt.Errorf("does not attach to last common ancestor")
 	}
+	// Verify each block actually beats claimed target
+	for _, block := range newBlocks {
+		if !block.Hash().Lt(block.Target) {
+			return fmt.Errorf("block does not beat claimed target")
+		}
+	}
 	// Verify claimed total work beats ours
 	newWork := p.inv.GetBlockTotalWork(lcaId)
 	for _, block := range newBlocks {
@@ -222,11 +228,5 @@ func (p *Peer) quickVerifyChain(
 	if !p.inv.GetBlockTotalWork(p.curHead).Lt(newWork) {
 		return fmt.Errorf("does not have higher proven work than our current chain")
 	}
-	// Verify each block actually beats claimed target
-	for _, block := range newBlocks {
-		if !block.Hash().Lt(block.Target) {
-			return fmt.Errorf("block does not beat claimed target")
-		}
-	}
 	return nil
 }
-- 
2.43.0


From 5355a2e5c79431cdbd923331becafce15685cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 11/14] fix: rich list lengths above the largest int

---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index be3bd46..de286bb 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -384,9 +384,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(outLen) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From cf6cb9a887cec21a4ab3093aaad3246440c6d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 12/14] fix: wallet transactions with wrapping totals,
 unpayable fees or no balance

---
 pkg/core/txfactory.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..d54b9f0 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -39,6 +39,9 @@ func MakeOutboundTx(
 	totalOut := uint64(0)
 	for _, val := range dests {
 		totalOut += val
+		if totalOut < val {
+			return nil, fmt.Errorf("insufficient balance: total outputs overflow")
+		}
 	}
 	if totalOut >= balance {
 		return nil, fmt.Errorf("insufficient balance: %d < %d", balance, totalOut)
@@ -93,7 +96,7 @@ func MakeOutboundTx(
 		}
 
 		// Check if we now have enough inputs to cover outputs + fees
-		if totalIn >= totalOut+tx.FeeFromRate(targetFeeRate) {
+		if totalIn >= totalOut && totalIn-totalOut >= tx.FeeFromRate(targetFeeRate) {
 			break
 		}
 
@@ -200,6 +203,11 @@ func MakeConsolidateTx(
 		tx.Inputs = append(tx.Inputs, txIn)
 	}
 
+	// Check the fees can be paid
+	if totalIn < tx.FeeFromRate(targetFeeRate) {
+		return nil, fmt.Errorf("insufficient balance to pay target fee rate")
+	}
+
 	// Set the output amount
 	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
 
@@ -240,6 +248,9 @@ func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey,
 func getBalanceAndRichestPkh(
 	utxoPkhs map[Utxo]HashT, pkhPrivs map[HashT]*ecdsa.PrivateKey,
 ) (uint64, HashT, error) {
+	if len(utxoPkhs) == 0 {
+		return 0, HashT{}, fmt.Errorf("insufficient balance")
+	}
 	balance := uint64(0)
 	pkhBalances := make(map[HashT]uint64)
 	for utxo, pkh := range utxoPkhs {
@@ -247,6 +258,9 @@ func getBalanceAndRichestPkh(
 			return 0, HashT{}, fmt.Errorf("pkh %s not controlled by private keys", pkh)
 		}
 		balance += utxo.Value
+		if balance < utxo.Value {
+			return 0, HashT{}, fmt.Errorf("total balance overflows")
+		}
 		pkhBalances[pkh] += utxo.Value
 	}
 	pkhs := util.MapKeys(pkhBalances)
-- 
2.43.0


From d8112d53ef3c6c8111f60252ef506f106f6d5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 13/14] fix: parsing a stored transaction with negative counts

---
 internal/inv/serialize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/inv/serialize.go b/internal/inv/serialize.go
index fade6c8..d02630c 100644
--- a/internal/inv/serialize.go
+++ b/internal/inv/serialize.go
@@ -136,6 +136,9 @@ func TxRecordFromString(raw string) (record TxRecord, err error) {
 	if err != nil {
 		return TxRecord{}, fmt.Errorf("failed to parse NumOutputs: %s", err)
 	}
+	if numInputs < 0 || numInputs > len(rows) || numOutputs < 0 || numOutputs > len(rows) {
+		return TxRecord{}, fmt.Errorf("unreasonable number of inputs or outputs")
+	}
 	expectRows := 5 + numInputs*5 + numOutputs*2
 	if len(rows) != expectRows {
 		return TxRecord{}, fmt.Errorf("expected %d rows, got %d", expectRows, len(rows))
-- 
2.43.0


From 472a278d14ddbb4477a1f3babf728fc301d32137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 14/14] fix: a stored transaction whose last row is empty must
 parse

---
 internal/inv/serialize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/inv/serialize.go b/internal/inv/serialize.go
index d02630c..5c4201f 100644
--- a/internal/inv/serialize.go
+++ b/internal/inv/serialize.go
@@ -108,7 +108,8 @@ func (m MerkleRecord) String() string {
 }
 
 func TxRecordFromString(raw string) (record TxRecord, err error) {
-	rows := strings.Split(strings.Trim(raw, "\n"), "\n")
+	// Not trimmed, as the last row may be an empty signature
+	rows := strings.Split(raw, "\n")
 	if len(rows) < 5 {
 		return TxRecord{}, fmt.Errorf("too few rows: %d", len(rows))
 	}
-- 
2.43.0

