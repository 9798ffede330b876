package gen

import (
	"encoding/binary"

	"pgregory.net/rapid"

	"vlverif/ref"
)

// Wire is a byte-level case.
type Wire struct {
	Ver  byte   `json:"ver"` // version passed to Decode
	B    []byte `json:"b"`
	How  string `json:"how"`
	Full int    `json:"full,omitempty"`
}

// Refit recomputes the remaining length of (first byte, body).
func Refit(first byte, body []byte) []byte { return ref.Frame(first, body) }

// RawBytes draws unstructured input: a plausible first byte, then noise.
func RawBytes(t *rapid.T) []byte {
	first := byte(Int(t, 0, 15, "rtype")) << 4
	if Int(t, 0, 3, "rflagsK") == 0 {
		first |= byte(Int(t, 0, 15, "rflags"))
	} else {
		first |= ref.FixedFlags(int(first >> 4))
	}
	n := Int(t, 0, 40, "rlen")
	body := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "rbody")
	switch Int(t, 0, 5, "rframe") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "rall")
	case 1:
		return append([]byte{first}, body...)
	}
	return Refit(first, body)
}

// Mutate applies k random structured mutations to a packet and returns the bytes.
func Mutate(t *rapid.T, p *ref.Packet, k int) ([]byte, string) {
	body, marks := p.Body(ref.Form{Short: Int(t, 0, 2, "mform")})
	body = append([]byte{}, body...)
	first := byte(p.Type)<<4 | p.Flags()
	how := ""
	refit := true
	pos := func() int {
		// near the structured part
		m := len(body)
		if m == 0 {
			return 0
		}
		if len(marks) > 0 && Flip(t, "atMark") {
			mk := Pick(t, marks, "mark")
			if mk.Off < m {
				return mk.Off
			}
		}
		return Int(t, 0, m-1, "pos")
	}
	for i := 0; i < k; i++ {
		op := Int(t, 0, 13, "mut")
		switch op {
		case 0: // flip a bit
			if len(body) > 0 {
				q := pos()
				body[q] ^= 1 << uint(Int(t, 0, 7, "bit"))
			}
			how += "flip "
		case 1: // set a byte
			if len(body) > 0 {
				body[pos()] = Pick(t, []byte{0, 1, 2, 3, 4, 5, 0x20, 0x23, 0x2b, 0x2f, 0x7f, 0x80, 0x81, 0xc0, 0xed, 0xff}, "byte")
			}
			how += "set "
		case 2: // truncate
			if len(body) > 0 {
				body = body[:pos()]
			}
			how += "trunc "
		case 3: // delete one byte
			if len(body) > 0 {
				q := pos()
				body = append(body[:q:q], body[q+1:]...)
			}
			how += "del "
		case 4: // insert a byte
			q := 0
			if len(body) > 0 {
				q = pos()
			}
			body = append(body[:q:q], append([]byte{byte(Int(t, 0, 255, "ins"))}, body[q:]...)...)
			how += "ins "
		case 5: // append
			n := Int(t, 1, 4, "app")
			body = append(body, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "appB")...)
			how += "app "
		case 6, 7: // disturb a length prefix
			var lps []ref.Mark
			for _, m := range marks {
				if m.Kind == "lp" && m.Off+2 <= len(body) {
					lps = append(lps, m)
				}
			}
			if len(lps) > 0 {
				m := Pick(t, lps, "lpm")
				v := int(binary.BigEndian.Uint16(body[m.Off:]))
				switch Int(t, 0, 4, "lpk") {
				case 0:
					v++
				case 1:
					v--
				case 2:
					v = len(body) - m.Off - 2 + Int(t, -1, 1, "lpe")
				case 3:
					v = 0xffff
				case 4:
					v = 0
				}
				binary.BigEndian.PutUint16(body[m.Off:], uint16(v))
			}
			how += "lp "
		case 8: // disturb a property length
			for _, m := range marks {
				if m.Kind == "plen" && m.Off < len(body) {
					body[m.Off] += byte(Pick(t, []int{1, 255, 2, 254, 127, 128}, "pld"))
					break
				}
			}
			how += "plen "
		case 9: // other first byte
			if Flip(t, "fb") {
				first ^= 1 << uint(Int(t, 0, 3, "fbit"))
			} else {
				first = byte(Int(t, 0, 255, "first"))
			}
			how += "first "
		case 10: // wrong remaining length
			refit = false
			how += "remlen "
		case 11: // duplicate a slice of the body
			if len(body) > 1 {
				a := pos()
				b := Int(t, a, len(body), "dupE")
				if b-a < 300 {
					ins := append([]byte{}, body[a:b]...)
					body = append(body[:b:b], append(ins, body[b:]...)...)
				}
			}
			how += "dup "
		case 12: // replace a property identifier
			var ids []ref.Mark
			for _, m := range marks {
				if m.Kind == "pid" && m.Off < len(body) {
					ids = append(ids, m)
				}
			}
			if len(ids) > 0 {
				body[Pick(t, ids, "pidm").Off] = byte(Int(t, 0, 0x30, "pidv"))
			}
			how += "pid "
		case 13: // replace a code, flag or option byte
			var cs []ref.Mark
			for _, m := range marks {
				if (m.Kind == "code" || m.Kind == "flags" || m.Kind == "ops" || m.Kind == "level") && m.Off < len(body) {
					cs = append(cs, m)
				}
			}
			if len(cs) > 0 {
				body[Pick(t, cs, "cm").Off] = byte(Int(t, 0, 255, "cv"))
			}
			how += "code "
		}
	}
	if how == "" {
		how = "none"
	}
	if refit {
		return Refit(first, body), how
	}
	rl := Pick(t, []uint32{0, 1, uint32(len(body)) + 1, uint32(len(body)) - 1, 127, 128, 16384, 2097152, 268435455}, "rl") & 0x0fffffff
	b := append([]byte{first}, ref.VBI(rl)...)
	if OneIn(t, 3, "rlRaw") {
		b = append([]byte{first}, Pick(t, [][]byte{{0x80, 0x00}, {0x80}, {0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x00}, {0x80, 0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0x80}}, "rlB")...)
	}
	return append(b, body...), how
}

// WireAny draws raw noise or a mutated packet.
func WireAny(t *rapid.T, maxMut int) *Wire {
	if Int(t, 0, 6, "wk") == 0 {
		return &Wire{Ver: byte(Int(t, 3, 5, "dv")), B: RawBytes(t), How: "raw"}
	}
	p := Packet(t, Opt{NoPad: Int(t, 0, 3, "np") > 0})
	k := Int(t, 0, maxMut, "nmut")
	b, how := Mutate(t, p, k)
	v := p.Ver
	if OneIn(t, 10, "otherVer") {
		v = byte(Int(t, 3, 5, "dv"))
		how += "+ver"
	}
	return &Wire{Ver: v, B: b, How: how}
}
