package ref

import (
	"bytes"
	"strings"
	"unicode/utf8"
)

// Verdict of the strict decoder.
type Verdict int

// Verdicts. DontCare marks inputs on which MQTT's texts, the library's
// documented leniency or its own tests leave the answer open.
const (
	Invalid Verdict = iota
	Valid
	DontCare
)

func (v Verdict) String() string { return [...]string{"invalid", "valid", "dontcare"}[v] }

type bad struct{ why string }

type rd struct {
	b    []byte
	care string
}

func fail(why string) { panic(bad{why}) }

func (r *rd) dc(why string) {
	if r.care == "" {
		r.care = why
	}
}
func (r *rd) take(n int, what string) []byte {
	if n > len(r.b) {
		fail("truncated " + what)
	}
	x := r.b[:n:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8(what string) byte    { return r.take(1, what)[0] }
func (r *rd) u16(what string) uint16 { x := r.take(2, what); return uint16(x[0])<<8 | uint16(x[1]) }
func (r *rd) u32(what string) uint32 {
	x := r.take(4, what)
	return uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])
}
func (r *rd) lp(what string) []byte {
	n := int(r.u16(what + " length"))
	return r.take(n, what)
}
func (r *rd) vbi(what string, strict bool) uint32 {
	var v uint32
	for i := 0; i < 4; i++ {
		c := r.u8(what)
		v |= uint32(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			if i > 0 && c == 0 {
				// not the minimum number of bytes [MQTT-1.5.5-1]
				if strict {
					fail("non-minimal " + what)
				}
				r.dc("non-minimal " + what)
			}
			return v
		}
	}
	fail(what + " longer than four bytes")
	return 0
}

// HasControl reports C0/C1 control characters (incl. NUL and DEL).
func HasControl(b []byte) bool {
	for _, c := range string(b) {
		if c < 0x20 || (c >= 0x7f && c <= 0x9f) {
			return true
		}
	}
	return false
}

// TextOK: well-formed UTF-8 without control characters.
func TextOK(b []byte) bool { return utf8.Valid(b) && !HasControl(b) }

// TopicNameOK judges a topic name (the empty one included, which 5.0 allows with an alias).
func TopicNameOK(b []byte) bool { return TextOK(b) && !bytes.ContainsAny(b, "+#") }

// FilterParts is the split of an accepted filter.
type FilterParts struct{ Dollar, Share, Filter string }

// PlainFilterOK judges the wildcard grammar of a filter.
func PlainFilterOK(s string) bool {
	if s == "" {
		return false
	}
	levels := strings.Split(s, "/")
	for i, l := range levels {
		if strings.Contains(l, "#") && (l != "#" || i != len(levels)-1) {
			return false
		}
		if strings.Contains(l, "+") && l != "+" {
			return false
		}
	}
	return true
}

// SplitFilter judges a topic filter and splits it.
func SplitFilter(b []byte) (FilterParts, bool) {
	s := string(b)
	if s == "" || !TextOK(b) {
		return FilterParts{}, false
	}
	r := FilterParts{Filter: s}
	if s[0] == '$' {
		i := strings.IndexByte(s, '/')
		if i < 0 {
			return FilterParts{}, false
		}
		r.Dollar = s[:i]
		if r.Dollar == "$share" {
			rest := s[i+1:]
			j := strings.IndexByte(rest, '/')
			if j <= 0 || strings.ContainsAny(rest[:j], "+#") || rest[j+1:] == "" {
				return FilterParts{}, false
			}
			r.Share, r.Filter = rest[:j], rest[j+1:]
		}
	}
	if !PlainFilterOK(r.Filter) {
		return FilterParts{}, false
	}
	return r, true
}

// ClientIDOK: the character set the library documents.
func ClientIDOK(b []byte) bool {
	for _, c := range b {
		switch {
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		case strings.IndexByte(" -_,.|/", c) >= 0:
		default:
			return false
		}
	}
	return true
}

func (r *rd) props(t int) []PV {
	n := int(r.vbi("property length", true))
	in := &rd{b: r.take(n, "property block")}
	var out []PV
	seen := map[uint32]bool{}
	for len(in.b) > 0 {
		id := in.vbi("property identifier", true)
		d, ok := PropDef(id)
		if !ok {
			fail("unknown property")
		}
		if !d.Has(t) {
			fail("property not allowed in this packet")
		}
		if seen[id] && !d.Rep(t) {
			fail("repeated property")
		}
		seen[id] = true
		v := PV{ID: id}
		switch d.T {
		case TByte:
			v.N = uint32(in.u8("property byte"))
		case TU16:
			v.N = uint32(in.u16("property short"))
		case TU32:
			v.N = in.u32("property int")
		case TVar:
			v.N = in.vbi("property varint", true)
		case TBin:
			v.S = in.lp("property binary")
		case TStr:
			v.S = in.lp("property string")
			in.text(v.S)
		case TPair:
			v.S = in.lp("user property name")
			v.V = in.lp("user property value")
			in.text(v.S)
			in.text(v.V)
		}
		if in.rangeOpen(v) {
			in.dc("property value range")
		}
		out = append(out, v)
	}
	if in.care != "" {
		r.dc(in.care)
	}
	return out
}

func (r *rd) text(b []byte) {
	if !utf8.Valid(b) {
		fail("string not UTF-8")
	}
	if HasControl(b) {
		r.dc("control characters in a property string")
	}
}

// rangeOpen: values MQTT excludes but whose judgement the library leaves to the caller.
func (r *rd) rangeOpen(v PV) bool {
	switch v.ID {
	case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
		return v.N > 1
	case 0x0B, 0x21, 0x23, 0x27:
		return v.N == 0
	case 0x08:
		return len(v.S) == 0 || bytes.ContainsAny(v.S, "+#")
	}
	return false
}

func hasProp(ps []PV, id uint32) (PV, bool) {
	for _, v := range ps {
		if v.ID == id {
			return v, true
		}
	}
	return PV{}, false
}

func (r *rd) code(p *Packet, c byte) {
	v := Code5(p.Type, c)
	if p.Ver != 5 {
		v = Code3(p.Type, c)
	}
	switch v {
	case CodeNo:
		fail("undefined code")
	case CodeAny:
		r.dc("code the texts disagree about")
	}
}

// Decode judges and reads a complete packet. ver is the version the caller
// expects; a CONNECT carries its own.
func Decode(ver byte, b []byte) (p *Packet, v Verdict, why string) {
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(bad)
			if !ok {
				panic(e)
			}
			p, v, why = nil, Invalid, f.why
		}
	}()
	r := &rd{b: b}
	first := r.u8("fixed header")
	n := int(r.vbi("remaining length", false))
	p = &Packet{Ver: ver, Type: int(first >> 4)}
	if p.Type == 0 || (p.Type == AUTH && ver != 5) {
		fail("reserved packet type")
	}
	fl := first & 15
	if p.Type == PUBLISH {
		p.QoS, p.Dup, p.Retain = fl>>1&3, fl&8 != 0, fl&1 != 0
		if p.QoS == 3 {
			fail("QoS 3")
		}
		if p.QoS == 0 && p.Dup {
			fail("DUP with QoS 0")
		}
	} else if fl != FixedFlags(p.Type) {
		if ver == 3 && FixedFlags(p.Type) == 2 && fl == 0x0A {
			r.dc("3.1 DUP flag")
		} else {
			fail("fixed header flags")
		}
	}
	if n != len(r.b) {
		if n > len(r.b) {
			fail("truncated packet")
		}
		fail("bytes after the packet")
	}
	id := func() {
		p.ID = r.u16("packet identifier")
		if p.ID == 0 {
			r.dc("packet identifier 0")
		}
	}
	v5 := ver == 5
	switch p.Type {
	case CONNECT:
		name := r.lp("protocol name")
		p.Ver = r.u8("protocol level")
		if p.Ver < 3 || p.Ver > 5 || string(name) != ProtoName(p.Ver) {
			fail("protocol name or level")
		}
		v5 = p.Ver == 5
		cf := r.u8("connect flags")
		p.KeepAlive = r.u16("keep alive")
		if cf&1 != 0 {
			fail("reserved connect flag")
		}
		p.HasUser, p.HasPass, p.Clean = cf&0x80 != 0, cf&0x40 != 0, cf&2 != 0
		wq, wr, wf := cf>>3&3, cf&0x20 != 0, cf&4 != 0
		if wq == 3 {
			fail("will QoS 3")
		}
		if !wf && (wq != 0 || wr) {
			fail("will QoS/retain without a will")
		}
		if p.HasPass && !p.HasUser && !v5 {
			fail("password without user name")
		}
		if v5 {
			p.Props = r.props(CONNECT)
		}
		p.ClientID = r.lp("client id")
		if !ClientIDOK(p.ClientID) {
			fail("client id characters")
		}
		if len(p.ClientID) == 0 && !p.Clean && !v5 {
			fail("empty client id without clean session")
		}
		if wf {
			p.Will = &Will{QoS: wq, Retain: wr}
			if v5 {
				p.Will.Props = r.props(WILL)
			}
			p.Will.Topic = r.lp("will topic")
			if !TopicNameOK(p.Will.Topic) {
				fail("will topic")
			}
			if len(p.Will.Topic) == 0 {
				if v5 {
					r.dc("empty will topic")
				} else {
					fail("empty will topic")
				}
			}
			p.Will.Payload = r.lp("will payload")
		}
		if p.HasUser {
			p.User = r.lp("user name")
			if !TextOK(p.User) {
				fail("user name")
			}
		}
		if p.HasPass {
			p.Pass = r.lp("password")
		}
	case CONNACK:
		s := r.u8("acknowledge flags")
		if s > 1 {
			fail("reserved acknowledge flags")
		}
		p.Session = s == 1
		p.Code = r.u8("code")
		r.code(p, p.Code)
		if v5 {
			p.Props = r.props(CONNACK)
		}
	case PUBLISH:
		p.Topic = r.lp("topic")
		if !TopicNameOK(p.Topic) {
			fail("topic name")
		}
		if p.QoS > 0 {
			id()
		}
		if v5 {
			p.Props = r.props(PUBLISH)
		}
		if len(p.Topic) == 0 {
			if !v5 {
				fail("empty topic")
			}
			if a, ok := hasProp(p.Props, 0x23); !ok || a.N == 0 {
				fail("neither topic nor alias")
			}
		}
		p.Payload = r.take(len(r.b), "payload")
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		id()
		if v5 {
			r.tail(p)
		}
	case SUBSCRIBE, UNSUBSCRIBE:
		id()
		if v5 {
			p.Props = r.props(p.Type)
		}
		for len(r.b) > 0 {
			s := Sub{Topic: r.lp("topic filter")}
			fp, ok := SplitFilter(s.Topic)
			if !ok {
				fail("topic filter")
			}
			if p.Type == SUBSCRIBE {
				s.Ops = r.u8("subscription options")
				if s.Ops&3 == 3 {
					fail("subscription QoS 3")
				}
				if v5 {
					if s.Ops&0xC0 != 0 {
						fail("reserved subscription options")
					}
					if s.Ops&0x30 == 0x30 {
						fail("retain handling 3")
					}
					if fp.Share != "" && s.Ops&4 != 0 {
						r.dc("no local on a shared subscription")
					}
				} else if s.Ops&0xFC != 0 {
					fail("reserved subscription options")
				}
			}
			p.Subs = append(p.Subs, s)
		}
		if len(p.Subs) == 0 {
			fail("no topics")
		}
	case SUBACK:
		id()
		if v5 {
			p.Props = r.props(SUBACK)
		}
		if len(r.b) == 0 {
			r.dc("no return codes")
		}
		p.Codes = r.take(len(r.b), "codes")
		for _, c := range p.Codes {
			r.code(p, c)
		}
	case UNSUBACK:
		id()
		if v5 {
			if len(r.b) == 0 {
				r.dc("UNSUBACK without property length")
				break
			}
			p.Props = r.props(UNSUBACK)
			if len(r.b) == 0 {
				r.dc("no return codes")
			}
			p.Codes = r.take(len(r.b), "codes")
			for _, c := range p.Codes {
				r.code(p, c)
			}
		}
	case DISCONNECT, AUTH:
		if v5 {
			if p.Type == DISCONNECT && len(r.b) == 1 {
				r.dc("DISCONNECT of remaining length 1")
			}
			r.tail(p)
		}
	}
	if len(r.b) != 0 {
		fail("surplus bytes")
	}
	if r.care != "" {
		return p, DontCare, r.care
	}
	return p, Valid, ""
}

func (r *rd) tail(p *Packet) {
	if len(r.b) == 0 {
		return
	}
	p.Code = r.u8("reason code")
	r.code(p, p.Code)
	if len(r.b) == 0 {
		return
	}
	p.Props = r.props(p.Type)
}
