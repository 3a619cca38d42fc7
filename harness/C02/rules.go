//overlay internal/inv
package inv_test

import (
	"testing"

	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifRulesC02(t *testing.T) { world.RunRules(t, "C02", 12, 60, 60) }
