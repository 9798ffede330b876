// Package checks holds, per property, the generators and the oracle.
package checks

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// Thorough is set in the thorough tier.
var Thorough bool

var defs []*prop.Def

func register(d *prop.Def) { defs = append(defs, d) }

// All properties.
func All() []*prop.Def { return defs }

// Find a property.
func Find(id string) *prop.Def {
	for _, d := range defs {
		if d.ID == id {
			return d
		}
	}
	return nil
}

// genRep sometimes turns a short history into a long one: the calls are made
// again and again, several hundred in all.
func genRep(t *rapid.T, c interface{}, n int) int {
	if n == 0 || !gen.OneIn(t, 200, "long") {
		return 0
	}
	rep := gen.Pick(t, []int{100, 300, 600}, "calls") / n
	if b, err := json.Marshal(c); err != nil || len(b) > 4000 {
		return 0
	}
	return rep
}

// repeat makes the history out of it.
func repeat[T any](ops []T, rep int, x *prop.Ctx) []T {
	if rep < 2 {
		return ops
	}
	x.Class("long history")
	var r []T
	for ; rep > 0; rep-- {
		r = append(r, ops...)
	}
	return r
}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func hx(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func verOf(v int) mqttp.ProtocolVersion { return mqttp.ProtocolVersion(v) }

// className labels a packet by type and version.
func className(p *ref.Packet) string { return fmt.Sprintf("%s v%d", ref.TypeNames[p.Type], p.Ver) }

func sizeClass(n int) string {
	switch {
	case n < 128:
		return "remaining length < 128"
	case n < 16384:
		return "remaining length 128..16383"
	case n < 2097152:
		return "remaining length 16384..2097151"
	}
	return "remaining length >= 2097152"
}

// Shorts lists the short forms that are unambiguous for a packet.
func drawForm(t *rapid.T, p *ref.Packet) ref.Form {
	if p.Ver != 5 || len(p.Props) > 0 {
		return ref.Form{}
	}
	switch p.Type {
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.AUTH:
		return ref.Form{Short: gen.Int(t, 0, 2, "short")}
	case ref.DISCONNECT:
		if p.Code == 0 {
			return ref.Form{Short: 2 * gen.Int(t, 0, 1, "short")}
		}
	}
	return ref.Form{}
}

// mustValid asserts that the reference judges its own encoding valid.
func mustValid(p *ref.Packet, b []byte) {
	q, v, why := ref.Decode(p.Ver, b)
	if v != ref.Valid {
		prop.Harness("the reference encoder produced a packet the reference decoder finds %v (%s): %s %s", v, why, className(p), hx(b))
	}
	if d := ref.Diff(p, q); d != "" {
		prop.Harness("reference encoder and decoder disagree: %s", d)
	}
}

// decodeOK decodes and requires success with the exact content want (nil: any).
func decodeOK(ver byte, b []byte) (mqttp.IFace, error) {
	d, pn := sut.Decode(ver, b)
	if pn != nil {
		return nil, pn
	}
	if d.Err != nil {
		return nil, errf("decoding %s fails: %v", hx(b), d.Err)
	}
	if d.M == nil {
		return nil, errf("decoding %s returns neither packet nor error", hx(b))
	}
	if d.N != len(b) {
		return nil, errf("decoding %s consumed %d of %d bytes", hx(b), d.N, len(b))
	}
	return d.M, nil
}

// isNil tells whether an IFace holds no packet.
func isNil(m mqttp.IFace) bool { return m == nil }

// guarded returns b inside a larger array: n guard bytes follow within the capacity.
func guarded(b []byte) (full []byte, in []byte) {
	full = make([]byte, len(b)+64)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = byte(0xA0 + i%13)
	}
	return full, full[:len(b)]
}

func checkGuard(full, b []byte) error {
	if !bytes.Equal(full[:len(b)], b) {
		return errf("decoding modified its input")
	}
	for i := len(b); i < len(full); i++ {
		if full[i] != byte(0xA0+i%13) {
			return errf("decoding wrote behind its input")
		}
	}
	return nil
}

// lender hands out copies, watches bytes it was given, and can tell whether any of
// them was written to since.
type lender struct{ b, was [][]byte }

func (l *lender) give(b []byte) []byte {
	c := append([]byte{}, b...)
	l.b, l.was = append(l.b, c), append(l.was, b)
	return c
}

// keep watches bytes the packet handed out.
func (l *lender) keep(bs ...[]byte) {
	for _, b := range bs {
		if len(b) > 0 && len(b) < 4096 {
			l.b, l.was = append(l.b, b), append(l.was, append([]byte{}, b...))
		}
	}
}

func (l *lender) intact(step int, by string) error {
	for i := range l.b {
		if !bytes.Equal(l.b[i], l.was[i]) {
			return errf("step %d (%s): bytes the caller passed or was given earlier were overwritten: %s became %s", step, by, hx(l.was[i]), hx(l.b[i]))
		}
	}
	return nil
}
