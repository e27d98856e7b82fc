package main

import (
	"os"
	"testing"
)

// FuzzProp drives one property (VERIF_PROP) from bytes chosen by the
// coverage-guided engine, which sees the coverage of the library. It is the last
// stage of the thorough tier (bin/check.sh).
func FuzzProp(f *testing.F) {
	p := props[os.Getenv("VERIF_PROP")]
	if p == nil {
		f.Skip("VERIF_PROP is not set")
	}
	loadKnown(p.ID)
	loadDict()
	src := newSrc(envSeed(), "fuzz"+p.ID, 0)
	for i := 0; i < 200; i++ {
		b := make([]byte, src.R(8, 300))
		for j := range b {
			b[j] = byte(src.N(256))
		}
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) > 2000 {
			data = data[:2000]
		}
		if _, fail := fuzzCase(p, data); fail != nil {
			t.Fatal(fail.Msg)
		}
	})
}
