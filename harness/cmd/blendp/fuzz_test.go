package main

import (
	"testing"

	"verif/pbt"
)

// FuzzProp searches the choices of the property VERIF_FUZZ_PROP, guided by
// coverage.
func FuzzProp(f *testing.F) {
	run := pbt.FuzzTarget()
	f.Fuzz(func(t *testing.T, b []byte) {
		if msg := run(b); msg != "" {
			t.Fatal(msg)
		}
	})
}
