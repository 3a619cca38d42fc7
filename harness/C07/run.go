//overlay internal/chain
package chain

import "testing"

func TestVerifWalkC07(t *testing.T) { zWalk(t, "C07", 25, 14, 80) }
func TestVerifHeadsC07(t *testing.T) { zHeads(t, "C07", 6, 14, 40) }
