package checks

import (
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C29 -------------------------------------------------------------------

// complete tells whether b is exactly one frame by its own remaining length.
func complete(b []byte) bool {
	n, k := 0, uint(0)
	for i := 1; i < len(b) && i <= 4; i++ {
		n |= int(b[i]&0x7f) << k
		k += 7
		if b[i]&0x80 == 0 {
			return n == len(b)-i-1
		}
	}
	return false
}

// ownError requires an error of the library that describes itself.
func ownError(e error) error {
	var le mqttp.Error
	var rc mqttp.ReasonCode
	switch {
	case errors.As(e, &le):
	case errors.As(e, &rc):
		if rc == 0 || rc > 5 && rc < 0x80 {
			return errf("refused with %d (%v), which is no failure", byte(rc), e)
		}
		if !rc.IsValid() {
			return errf("refused with the undefined reason code 0x%02x", byte(rc))
		}
	default:
		return errf("refused with a foreign error %T: %v", e, e)
	}
	if s := e.Error(); s == "" || s == "Unknown error" {
		return errf("refused with an error that is not described: %#v", e)
	}
	return nil
}

func refusal(ver byte, b []byte) (error, error) {
	d, pn := sut.Decode(ver, b)
	if pn != nil {
		return nil, pn
	}
	return d.Err, nil
}

func checkWhy(c *gen.Wire, x *prop.Ctx) error {
	e, bad := refusal(c.Ver, c.B)
	if bad != nil {
		return bad
	}
	if e == nil {
		x.Class("accepted")
		return nil
	}
	if err := ownError(e); err != nil {
		return errf("%s: %v: %s", c.How, err, hx(c.B))
	}
	if !complete(c.B) {
		x.Class("not one complete frame")
		return nil
	}
	x.NonTrivial()
	x.Class("refused " + ref.TypeNames[int(c.B[0]>>4)])
	if e == error(mqttp.ErrInsufficientDataSize) || e == error(mqttp.ErrInsufficientBufferSize) {
		return errf("%s: a complete packet is refused as if more bytes had to come (%v): %s", c.How, e, hx(c.B))
	}
	if rc, ok := e.(mqttp.ReasonCode); ok && c.Ver == 5 && c.B[0]>>4 != ref.CONNECT && rc < 0x80 {
		return errf("%s: a 5.0 packet is refused with the 3.x code %d: %s", c.How, byte(rc), hx(c.B))
	}
	return nil
}

func genWhy(t *rapid.T) *gen.Wire {
	switch gen.Int(t, 0, 3, "src") {
	case 0:
		return gen.WireAny(t, 3)
	case 1:
		// cut short, with a length that agrees
		p := gen.Packet(t, gen.Opt{NoPad: true})
		b, _ := p.Body(drawForm(t, p))
		k := gen.Int(t, 0, len(b), "cut")
		if gen.Flip(t, "early") {
			k = gen.Int(t, 0, min(8, len(b)), "cut8")
		}
		return &gen.Wire{Ver: p.Ver, B: gen.Refit(byte(p.Type)<<4|p.Flags(), b[:k]), How: fmt.Sprintf("cut to %d", k)}
	case 2:
		// the last length prefix promises more than there is
		p := gen.Packet(t, gen.Opt{NoPad: true})
		b, ms := p.Body(drawForm(t, p))
		var at []int
		for _, m := range ms {
			if m.Kind == "lp" {
				at = append(at, m.Off)
			}
		}
		if len(at) == 0 {
			return &gen.Wire{Ver: p.Ver, B: gen.Refit(byte(p.Type)<<4|p.Flags(), b), How: "valid"}
		}
		o := gen.Pick(t, at, "at")
		b = append([]byte{}, b[:o]...)
		b = append(b, byte(gen.Int(t, 0, 1, "hi")), byte(gen.Int(t, 1, 255, "lo")))
		return &gen.Wire{Ver: p.Ver, B: gen.Refit(byte(p.Type)<<4|p.Flags(), b), How: "a length prefix at the end"}
	}
	return genBroken(t)
}

type whyCase struct {
	flagCase
	P    *ref.Packet `json:"p,omitempty"`
	Lvl  int         `json:"lvl,omitempty"`  // replaces the level when not 0
	Xor  byte        `json:"xor,omitempty"`  // changes the flags
	What string      `json:"what,omitempty"` // of the generated ones
}

const (
	whyVersion = 1 << iota
	whyFlags
	whyCid
	whyUser
	whyOther
)

func protoOK(level byte, name []byte) bool {
	return level >= 3 && level <= 5 && ref.ProtoName(level) == string(name)
}

func goodCid(ver byte, s []byte, clean bool) bool {
	return ref.ClientIDOK(s) && (len(s) > 0 || ver == 5 || clean)
}

func genConnWhy(t *rapid.T) *whyCase {
	p := gen.Packet(t, gen.Opt{Type: ref.CONNECT, NoPad: gen.Flip(t, "nopad")})
	c := &whyCase{P: p, flagCase: flagCase{Caller: byte(gen.Int(t, 3, 5, "caller"))}}
	for i := gen.Pick(t, []int{1, 1, 1, 2}, "n"); i > 0; i-- {
		k := gen.Pick(t, []string{"level", "flags", "client id", "empty client id", "user name", "password only"}, "what")
		c.What += k + " "
		switch k {
		case "level":
			c.Lvl = gen.Pick(t, []int{1, 2, 3, 4, 5, 6, 7, 0x83, 0x84, 255}, "lvl")
		case "flags":
			c.Xor ^= gen.Pick(t, []byte{1, 8, 16, 32, 24}, "xor")
		case "client id":
			p.ClientID = append(append([]byte{}, p.ClientID[:min(len(p.ClientID), 20)]...), gen.Pick(t, []string{"!", "+", "#", "\x00", "\xff", "\n", "é", " "}, "ch")...)
		case "empty client id":
			p.ClientID, p.Clean = nil, false
		case "user name":
			p.HasUser, p.User = true, padded(t, gen.Pick(t, badTexts, "bt"))
		case "password only":
			p.HasUser, p.User, p.HasPass, p.Pass = false, nil, true, []byte("pw")
		}
	}
	return c
}

func (c *whyCase) build() (b []byte, faults int) {
	if c.P == nil {
		b = c.wire()
		f := c.Flags
		if !protoOK(c.Level, c.Name) {
			return b, whyVersion
		}
		if c.Shape != 5 && c.Level == 5 || c.Shape == 5 && c.Level != 5 {
			return b, whyOther
		}
		if f&1 != 0 || f>>3&3 == 3 || f&4 == 0 && f&0x38 != 0 {
			faults |= whyFlags
		}
		if c.Level != 5 && f&0x80 == 0 && f&0x40 != 0 {
			faults |= whyUser
		}
		if f&0x80 != 0 && !ref.TextOK(c.User) {
			faults |= whyUser
		}
		if f&4 != 0 && (!ref.TopicNameOK(c.Topic) || len(c.Topic) == 0) {
			faults |= whyOther
		}
		cid, clean := c.Cid, f&2 != 0
		if !goodCid(c.Level, cid, clean) {
			faults |= whyCid
		}
		return b, faults
	}
	p := c.P
	b = p.Encode(ref.Form{})
	at := 1
	for b[at]&0x80 != 0 {
		at++
	}
	at += 1 + 2 + len(ref.ProtoName(p.Ver))
	if c.Lvl != 0 {
		b[at] = byte(c.Lvl)
		if !protoOK(byte(c.Lvl), []byte(ref.ProtoName(p.Ver))) {
			return b, whyVersion
		}
		if byte(c.Lvl) != p.Ver {
			return b, whyOther
		}
	}
	b[at+1] ^= c.Xor
	f := b[at+1]
	if f&1 != 0 || f>>3&3 == 3 || f&4 == 0 && f&0x38 != 0 {
		faults |= whyFlags
	}
	if p.Ver != 5 && p.HasPass && !p.HasUser {
		faults |= whyUser
	}
	if p.HasUser && !ref.TextOK(p.User) {
		faults |= whyUser
	}
	if !goodCid(p.Ver, p.ClientID, p.Clean) {
		faults |= whyCid
	}
	return b, faults
}

func checkConnWhy(c *whyCase, x *prop.Ctx) error {
	b, faults := c.build()
	name, level := c.Name, c.Level
	if c.P != nil {
		name, level = []byte(ref.ProtoName(c.P.Ver)), c.P.Ver
	}
	e, bad := refusal(c.Caller, b)
	if bad != nil {
		return bad
	}
	if e == nil {
		x.Class("accepted")
		return nil
	}
	if err := ownError(e); err != nil {
		return errf("%v: %s", err, hx(b))
	}
	if e == error(mqttp.ErrInsufficientDataSize) || e == error(mqttp.ErrInsufficientBufferSize) {
		return errf("a complete CONNECT is refused as if more bytes had to come (%v): %s", e, hx(b))
	}
	if faults&whyOther != 0 || faults == 0 {
		x.Class("other fault")
		return nil
	}
	x.NonTrivial()
	pick := func(v3, v5 mqttp.ReasonCode) error {
		if level == 5 {
			return v5
		}
		return v3
	}
	var want []error
	if faults&whyVersion != 0 {
		x.Class("protocol name or level")
		want = append(want, mqttp.ErrInvalidProtocolVersion)
		if !utf8.Valid(name) {
			want = append(want, mqttp.ErrProtocolInvalidName)
		}
	}
	if faults&whyFlags != 0 {
		x.Class("connect flags")
		want = append(want, pick(mqttp.CodeRefusedServerUnavailable, mqttp.CodeMalformedPacket))
	}
	if faults&whyCid != 0 {
		x.Class("client identifier")
		want = append(want, pick(mqttp.CodeRefusedIdentifierRejected, mqttp.CodeInvalidClientID))
	}
	if faults&whyUser != 0 {
		x.Class("credentials")
		want = append(want, pick(mqttp.CodeRefusedBadUsernameOrPassword, mqttp.CodeBadUserOrPassword))
	}
	for _, w := range want {
		if e == w {
			return nil
		}
	}
	return errf("a CONNECT (level %d) is refused with %#v (%v), want %#v: %s", level, e, e, want, hx(b))
}

func enumConnWhy(yield func(*whyCase)) {
	enumConnFlags(func(f *flagCase) { yield(&whyCase{flagCase: *f}) })
}

func init() {
	register(&prop.Def{ID: "C29", Quick: 60000, Thoro: 900000,
		Rule: "frames with one fault; non-trivial: a complete frame is refused (CONNECT: for a reason the property names)",
		Subs: []*prop.Sub{
			prop.Enum("connect-enum", enumConnWhy, checkConnWhy),
			prop.Gen("connect", 1, genConnWhy, checkConnWhy),
			prop.Gen("frames", 2, genWhy, checkWhy)}})
}
