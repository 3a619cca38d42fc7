//overlay internal/inv
package inv_test

import (
	"testing"

	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifRulesC03(t *testing.T) { world.RunRules(t, "C03", 12, 60, 60) }
