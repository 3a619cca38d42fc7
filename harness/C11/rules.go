//overlay internal/inv
package inv_test

import (
	"testing"

	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifRulesC11(t *testing.T) { world.RunRules(t, "C11", 12, 60, 60) }
