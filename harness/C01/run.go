//overlay internal/chain
package chain

import "testing"

func TestVerifWalkC01(t *testing.T) { zWalk(t, "C01", 25, 14, 80) }
func TestVerifHeadsC01(t *testing.T) { zHeads(t, "C01", 6, 14, 40) }
