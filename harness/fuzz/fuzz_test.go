// Package fuzz drives the oracles of the checks with the coverage-guided native
// fuzzer (thorough tier only; check.py builds and bounds it).
package fuzz

import (
	"encoding/json"
	"os"
	"testing"

	"pgregory.net/rapid"

	"vlverif/checks"
	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
)

func sub(tb testing.TB, withGen bool) (*prop.Def, *prop.Sub) {
	id, name := os.Getenv("VLFUZZ_PROP"), os.Getenv("VLFUZZ_SUB")
	d := checks.Find(id)
	if d == nil {
		tb.Skip("no property given")
	}
	for _, s := range d.Subs {
		if s.Name == name && (s.Gen != nil || !withGen) {
			return d, s
		}
	}
	tb.Skip("no such sub-check")
	return nil, nil
}

func judge(tb interface{ Fatalf(string, ...any) }, d *prop.Def, s *prop.Sub, c interface{}) {
	if err := prop.SafeCheck(s, c, &prop.Ctx{}); err != nil {
		js, _ := json.Marshal(c)
		b, _ := json.Marshal(prop.Failure{Property: d.ID, Sub: s.Name, Error: err.Error(), Case: js})
		tb.Fatalf("REPLAY %s", b)
	}
}

// FuzzWire mutates bytes directly; the seeds are well-formed packets of every
// type and version in every wire form.
func FuzzWire(f *testing.F) {
	d, s := sub(f, false)
	g := rapid.Custom(func(t *rapid.T) *gen.Wire {
		p := gen.Packet(t, gen.Opt{})
		return &gen.Wire{Ver: p.Ver, B: p.Encode(ref.Form{})}
	})
	for i := 0; i < 400; i++ {
		if w := g.Example(i); len(w.B) < 2000 {
			f.Add(w.Ver, w.B)
		}
	}
	f.Fuzz(func(t *testing.T, v byte, b []byte) {
		if len(b) > 100000 {
			return
		}
		judge(t, d, s, &gen.Wire{Ver: 3 + v%3, B: b, How: "fuzzer"})
	})
}

// FuzzRapid mutates the choice sequence of a generator.
func FuzzRapid(f *testing.F) {
	d, s := sub(f, true)
	seed := make([]byte, 4096)
	for i := 0; i < 24; i++ {
		x := uint64(i)*0x9E3779B97F4A7C15 + 1
		for j := range seed {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			seed[j] = byte(x >> 11)
		}
		f.Add(append([]byte(nil), seed...))
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) { judge(t, d, s, s.Gen(t)) }))
}
