//overlay internal/inv
package inv_test

import (
	"testing"

	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifRulesC05(t *testing.T) { world.RunRules(t, "C05", 12, 60, 60) }
