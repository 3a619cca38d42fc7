//overlay internal/chain
package chain

import "testing"

func TestVerifHeadsC06(t *testing.T) { zHeads(t, "C06", 25, 14, 60) }
