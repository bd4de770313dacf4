package props

import (
	"testing"

	"verif/vt"
)

func TestVerif(t *testing.T) { vt.Main(t) }
