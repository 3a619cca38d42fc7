//overlay internal/inv
package inv_test

import (
	"testing"

	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifRulesC04(t *testing.T) { world.RunRules(t, "C04", 12, 60, 60) }
