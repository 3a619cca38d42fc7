//overlay internal/chain
package chain

import "testing"

func TestVerifTxsC15(t *testing.T) {
	zTxs(t, "C15", 15, 10, 40)
	zBlockMax = 1500
	zTxs(t, "C15", 15, 10, 40)
	zBlockMax = 0
}
