//overlay internal/inv
package inv_test

import (
	"testing"

	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifRulesC09(t *testing.T) { world.RunRules(t, "C09", 12, 60, 60) }
