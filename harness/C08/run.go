//overlay internal/chain
package chain

import "testing"

func TestVerifTxsC08(t *testing.T) { zTxs(t, "C08", 15, 10, 30) }
func TestVerifWalkC08(t *testing.T) { zWalk(t, "C08", 15, 14, 60) }
