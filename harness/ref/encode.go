package ref

import "encoding/binary"

// Mark records where an interesting field lies in a body.
type Mark struct {
	Off  int
	Len  int
	Kind string // lp (2-byte length prefix), plen (property length), pid (property identifier), id (packet id), ops, code, flags, name, level
}

// Form selects among the wire encodings MQTT permits.
type Form struct {
	// Short: 0 writes everything, 1 omits the property length when there are no
	// properties, 2 also omits the reason code when it is success (5.0 acks,
	// DISCONNECT, AUTH).
	Short int `json:"short,omitempty"`
}

type wr struct {
	b     []byte
	marks []Mark
}

func (w *wr) mark(kind string, n int) { w.marks = append(w.marks, Mark{len(w.b), n, kind}) }
func (w *wr) u8(kind string, v byte) {
	if kind != "" {
		w.mark(kind, 1)
	}
	w.b = append(w.b, v)
}
func (w *wr) u16(kind string, v uint16) {
	if kind != "" {
		w.mark(kind, 2)
	}
	w.b = append(w.b, byte(v>>8), byte(v))
}
func (w *wr) u32(v uint32) { w.b = binary.BigEndian.AppendUint32(w.b, v) }
func (w *wr) lp(v []byte) {
	w.u16("lp", uint16(len(v)))
	w.b = append(w.b, v...)
}
func (w *wr) vbi(kind string, v uint32) {
	e := VBI(v)
	if kind != "" {
		w.mark(kind, len(e))
	}
	w.b = append(w.b, e...)
}

// VBI encodes a variable byte integer minimally.
func VBI(v uint32) []byte {
	var r []byte
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			r = append(r, c|0x80)
			continue
		}
		return append(r, c)
	}
}

// PVLen is the encoded size of one property occurrence.
func PVLen(v PV) int {
	d, _ := PropDef(v.ID)
	switch d.T {
	case TByte:
		return 2
	case TU16:
		return 3
	case TU32:
		return 5
	case TVar:
		return 1 + len(VBI(v.N))
	case TStr, TBin:
		return 3 + len(v.S)
	case TPair:
		return 5 + len(v.S) + len(v.V)
	}
	return 0
}

// PropsLen is the encoded size of a property list without its length field.
func PropsLen(ps []PV) int {
	n := 0
	for _, v := range ps {
		n += PVLen(v)
	}
	return n
}

func (w *wr) props(ps []PV) {
	w.vbi("plen", uint32(PropsLen(ps)))
	for _, v := range ps {
		w.prop(v)
	}
}

func (w *wr) prop(v PV) {
	d, ok := PropDef(v.ID)
	w.vbi("pid", v.ID)
	if !ok {
		return
	}
	switch d.T {
	case TByte:
		w.u8("", byte(v.N))
	case TU16:
		w.u16("", uint16(v.N))
	case TU32:
		w.u32(v.N)
	case TVar:
		w.vbi("pvar", v.N)
	case TStr, TBin:
		w.lp(v.S)
	case TPair:
		w.lp(v.S)
		w.lp(v.V)
	}
}

// EncodeProps encodes a property list with its length.
func EncodeProps(ps []PV) []byte {
	w := &wr{}
	w.props(ps)
	return w.b
}

// EncodeProp encodes one property occurrence.
func EncodeProp(v PV) []byte {
	w := &wr{}
	w.prop(v)
	return w.b
}

// ProtoName by version.
func ProtoName(v byte) string {
	if v == 3 {
		return "MQIsdp"
	}
	return "MQTT"
}

// ConnectFlags computes the connect flag byte.
func (p *Packet) ConnectFlags() byte {
	var f byte
	if p.HasUser {
		f |= 0x80
	}
	if p.HasPass {
		f |= 0x40
	}
	if p.Will != nil {
		f |= 0x04 | p.Will.QoS<<3
		if p.Will.Retain {
			f |= 0x20
		}
	}
	if p.Clean {
		f |= 0x02
	}
	return f
}

// Body encodes everything after the fixed header.
func (p *Packet) Body(f Form) ([]byte, []Mark) {
	w := &wr{}
	v5 := p.Ver == 5
	switch p.Type {
	case CONNECT:
		w.lp([]byte(ProtoName(p.Ver)))
		w.u8("level", p.Ver)
		w.u8("flags", p.ConnectFlags())
		w.u16("", p.KeepAlive)
		if v5 {
			w.props(p.Props)
		}
		w.lp(p.ClientID)
		if p.Will != nil {
			if v5 {
				w.props(p.Will.Props)
			}
			w.lp(p.Will.Topic)
			w.lp(p.Will.Payload)
		}
		if p.HasUser {
			w.lp(p.User)
		}
		if p.HasPass {
			w.lp(p.Pass)
		}
	case CONNACK:
		var s byte
		if p.Session {
			s = 1
		}
		w.u8("flags", s)
		w.u8("code", p.Code)
		if v5 {
			w.props(p.Props)
		}
	case PUBLISH:
		w.lp(p.Topic)
		if p.QoS > 0 {
			w.u16("id", p.ID)
		}
		if v5 {
			w.props(p.Props)
		}
		w.b = append(w.b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		w.u16("id", p.ID)
		if v5 {
			w.tail(p, f)
		}
	case SUBSCRIBE:
		w.u16("id", p.ID)
		if v5 {
			w.props(p.Props)
		}
		for _, s := range p.Subs {
			w.lp(s.Topic)
			w.u8("ops", s.Ops)
		}
	case UNSUBSCRIBE:
		w.u16("id", p.ID)
		if v5 {
			w.props(p.Props)
		}
		for _, s := range p.Subs {
			w.lp(s.Topic)
		}
	case SUBACK:
		w.u16("id", p.ID)
		if v5 {
			w.props(p.Props)
		}
		for _, c := range p.Codes {
			w.u8("code", c)
		}
	case UNSUBACK:
		w.u16("id", p.ID)
		if v5 {
			w.props(p.Props)
			for _, c := range p.Codes {
				w.u8("code", c)
			}
		}
	case DISCONNECT, AUTH:
		if v5 {
			w.tail(p, f)
		}
	}
	return w.b, w.marks
}

func (w *wr) tail(p *Packet, f Form) {
	if len(p.Props) == 0 {
		if f.Short >= 2 && p.Code == 0 {
			return
		}
		if f.Short >= 1 {
			w.u8("code", p.Code)
			return
		}
	}
	w.u8("code", p.Code)
	w.props(p.Props)
}

// FixedFlags are the fixed-header flags MQTT mandates for a type other than PUBLISH.
func FixedFlags(t int) byte {
	switch t {
	case PUBREL, SUBSCRIBE, UNSUBSCRIBE:
		return 2
	}
	return 0
}

// Flags of the fixed header.
func (p *Packet) Flags() byte {
	if p.Type != PUBLISH {
		return FixedFlags(p.Type)
	}
	f := p.QoS << 1
	if p.Dup {
		f |= 8
	}
	if p.Retain {
		f |= 1
	}
	return f
}

// Frame prepends a fixed header to a body.
func Frame(first byte, body []byte) []byte {
	r := append([]byte{first}, VBI(uint32(len(body)))...)
	return append(r, body...)
}

// Encode the packet.
func (p *Packet) Encode(f Form) []byte {
	b, _ := p.Body(f)
	return Frame(byte(p.Type)<<4|p.Flags(), b)
}
