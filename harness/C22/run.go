//overlay internal/chain
package chain

import "testing"

func TestVerifTxsC22(t *testing.T) { zTxs(t, "C22", 15, 10, 30) }
func TestVerifWalkC22(t *testing.T) { zWalk(t, "C22", 15, 14, 60) }
func TestVerifHeadsC22(t *testing.T) { zHeads(t, "C22", 6, 14, 40) }
