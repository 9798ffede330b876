package checks

import (
	"bytes"
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C08 -------------------------------------------------------------------

// mustRefuse requires both encode entry points to fail without a panic.
func mustRefuse(m mqttp.IFace, why string) (err error) {
	if pn := sut.Safe("Encode", func() {
		sz, e := m.Size()
		if e != nil {
			sz = 4096
		}
		n, e2 := m.Encode(make([]byte, sz+64))
		if e2 == nil {
			err = errf("%s: Encode succeeds with %d bytes", why, n)
			return
		}
		if e != nil && sz == 4096 {
			return // Size refuses, so does Encode
		}
		if _, e = mqttp.Encode(m); e == nil {
			err = errf("%s: mqttp.Encode succeeds", why)
		}
	}); pn != nil {
		return errf("%s: %v", why, pn)
	}
	return err
}

type guardCase struct {
	Kind string      `json:"kind"` // id, dup, topics, version
	P    *ref.Packet `json:"p"`
	V    byte        `json:"v"`
	How  int         `json:"how"`
}

func genGuard(t *rapid.T) *guardCase {
	c := &guardCase{Kind: gen.Pick(t, []string{"id", "id", "dup", "topics", "version"}, "kind"), How: gen.Int(t, 0, 3, "how")}
	o := gen.Opt{Build: true, NoPad: true}
	switch c.Kind {
	case "id":
		o.Type = gen.Pick(t, []int{ref.PUBLISH, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK}, "idt")
		c.P = gen.Packet(t, o)
		if o.Type == ref.PUBLISH {
			c.P.QoS = byte(gen.Int(t, 1, 2, "q"))
			if len(c.P.Topic) == 0 {
				c.P.Topic = []byte("a")
			}
		}
	case "dup":
		o.Type = ref.PUBLISH
		c.P = gen.Packet(t, o)
		c.P.QoS, c.P.Dup, c.P.ID = 0, true, 0
	case "topics":
		o.Type = ref.UNSUBSCRIBE
		c.P = gen.Packet(t, o)
		c.P.Subs = nil
	case "version":
		o.Type = ref.CONNECT
		c.P = gen.Packet(t, o)
		c.V = byte(gen.Int(t, 0, 255, "v"))
		if c.V >= 3 && c.V <= 5 {
			c.V = 6
		}
	}
	return c
}

// buildNoID builds without a packet identifier.
func buildNoID(p *ref.Packet) (mqttp.IFace, error) {
	q := p.Clone()
	if p.Type == ref.PUBLISH { // QoS is set afterwards so that no identifier is given
		q.QoS, q.Dup = 0, false
		m, err := sut.Build(q)
		if err != nil {
			return nil, err
		}
		x := m.(*mqttp.Publish)
		x.SetDup(p.Dup)
		return m, x.SetQoS(mqttp.QosType(p.QoS))
	}
	v := verOf(int(p.Ver))
	m, err := sut.Make(v, p)
	if err != nil {
		return nil, err
	}
	switch x := m.(type) {
	case *mqttp.Ack:
		x.SetReason(mqttp.ReasonCode(p.Code))
	case *mqttp.Subscribe:
		for _, s := range p.Subs {
			tp, e := mqttp.NewSubscribeTopic(s.Topic, mqttp.SubscriptionOptions(s.Ops))
			if e != nil {
				return nil, e
			}
			_ = x.AddTopic(tp)
		}
	case *mqttp.UnSubscribe:
		for _, s := range p.Subs {
			tp, e := mqttp.NewTopic(s.Topic)
			if e != nil {
				return nil, e
			}
			_ = x.AddTopic(tp)
		}
	case *mqttp.SubAck:
		for _, k := range p.Codes {
			if e := x.AddReturnCode(mqttp.ReasonCode(k)); e != nil {
				return nil, e
			}
		}
	case *mqttp.UnSubAck:
		for _, k := range p.Codes {
			if e := x.AddReturnCode(mqttp.ReasonCode(k)); e != nil {
				return nil, e
			}
		}
	}
	if p.Ver == 5 {
		err = sut.SetProps(m, p.Props)
	}
	return m, err
}

func checkGuards(c *guardCase, x *prop.Ctx) error {
	x.Class(c.Kind + " " + className(c.P))
	x.NonTrivial()
	var m mqttp.IFace
	var err error
	ok := func(want *ref.Packet) error {
		b, e := sut.EncodeBoth(m)
		if e != nil {
			return errf("%s made valid: %v", className(c.P), e)
		}
		q, v, why := ref.Decode(want.Ver, b)
		if v == ref.Invalid {
			return errf("%s made valid encodes to a malformed packet (%s): %s", className(c.P), why, hx(b))
		}
		if d := ref.Diff(want, q); d != "" {
			return errf("%s made valid: %s", className(c.P), d)
		}
		return nil
	}
	switch c.Kind {
	case "id":
		if m, err = buildNoID(c.P); err != nil {
			return errf("building: %v", err)
		}
		if id, e := m.ID(); e == nil {
			return errf("%s without identifier reports %d", className(c.P), id)
		}
		if err = mustRefuse(m, className(c.P)+" without packet identifier"); err != nil {
			return err
		}
		m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(c.P.ID | 1))
		want := c.P.Clone()
		want.ID |= 1
		return ok(want)
	case "dup":
		if m, err = sut.Build(c.P); err != nil {
			return errf("building: %v", err)
		}
		p := m.(*mqttp.Publish)
		if c.How&1 != 0 { // reach the state through the single setters
			p.SetDup(false)
			_ = p.SetQoS(2)
			p.SetDup(true)
			_ = p.SetQoS(0)
		}
		if c.How&2 != 0 {
			p.SetPacketID(7)
		}
		if err = mustRefuse(m, "PUBLISH with DUP and QoS 0"); err != nil {
			return err
		}
		p.SetDup(false)
		want := c.P.Clone()
		want.Dup = false
		return ok(want)
	case "topics":
		if m, err = sut.Build(c.P); err != nil {
			return errf("building: %v", err)
		}
		if err = mustRefuse(m, "UNSUBSCRIBE without topics"); err != nil {
			return err
		}
		tp, e := mqttp.NewTopic([]byte("a/#"))
		if e != nil {
			return e
		}
		_ = m.(*mqttp.UnSubscribe).AddTopic(tp)
		want := c.P.Clone()
		want.Subs = []ref.Sub{{Topic: []byte("a/#")}}
		return ok(want)
	case "version":
		if c.How&1 == 0 {
			m = mqttp.NewConnect(mqttp.ProtocolVersion(c.V))
			_ = m.(*mqttp.Connect).SetClientID(c.P.ClientID)
		} else {
			if m, err = sut.Build(c.P); err != nil {
				return errf("building: %v", err)
			}
			m.SetVersion(mqttp.ProtocolVersion(c.V))
		}
		if err = mustRefuse(m, fmt.Sprintf("CONNECT of protocol version %d", c.V)); err != nil {
			return err
		}
		if c.How&1 != 0 {
			m.SetVersion(verOf(int(c.P.Ver)))
			return ok(c.P)
		}
	}
	return nil
}

// lpCase puts n bytes into one length-prefixed field.
type lpCase struct {
	Field string `json:"field"`
	Prop  uint32 `json:"prop,omitempty"`
	N     int    `json:"n"`
	Ver   byte   `json:"ver"`
	Type  int    `json:"type,omitempty"`
	Pos   int    `json:"pos"`
	QoS   byte   `json:"qos"`
}

var lpFields = []string{"topic", "set topic", "will topic", "will payload", "client id", "user", "password", "filter", "unsubscribe filter", "prop", "prop", "prop", "prop", "pair key", "pair value", "will prop", "will pair key", "will pair value"}

func genLP(t *rapid.T) *lpCase {
	c := &lpCase{Field: gen.Pick(t, lpFields, "field"), Ver: byte(gen.Int(t, 3, 5, "ver")), Pos: gen.Int(t, 0, 3, "pos"), QoS: byte(gen.Int(t, 0, 2, "qos"))}
	c.N = gen.Pick(t, []int{65533, 65534, 65535, 65535, 65536, 65536, 65537, 65538, 65541, 65663, 65664, 70000, 98304, 131071, 131072, 131073, 200000, 1 << 20}, "n")
	pick := func(pt int, kinds ...ref.PT) {
		var ids []uint32
		for _, d := range ref.PropsFor(pt) {
			for _, k := range kinds {
				if d.T == k {
					ids = append(ids, d.ID)
				}
			}
		}
		c.Prop = gen.Pick(t, ids, "propID")
	}
	switch c.Field {
	case "prop", "pair key", "pair value":
		c.Ver = 5
		types := []int{ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}
		if c.Field != "prop" {
			types = append(types, ref.SUBSCRIBE, ref.UNSUBSCRIBE)
			c.Prop = 0x26
		}
		c.Type = gen.Pick(t, types, "type")
		if c.Field == "prop" {
			pick(c.Type, ref.TStr, ref.TBin)
		}
	case "will prop":
		c.Ver = 5
		pick(ref.WILL, ref.TStr, ref.TBin)
	case "will pair key", "will pair value":
		c.Ver = 5
		c.Prop = 0x26
	}
	return c
}

func (c *lpCase) pv(data []byte) []ref.PV {
	v := ref.PV{ID: c.Prop, S: data}
	if c.Prop != 0x26 {
		return []ref.PV{v}
	}
	if c.Field == "pair value" || c.Field == "will pair value" {
		v.S, v.V = []byte("k"), data
	} else {
		v.V = []byte("v")
	}
	var r []ref.PV
	for i := 0; i < c.Pos; i++ {
		r = append(r, ref.PV{ID: 0x26, S: []byte{'a' + byte(i)}, V: []byte("x")})
	}
	r = append(r, v)
	if c.Pos == 2 {
		r = append(r, ref.PV{ID: 0x26, S: []byte("z"), V: []byte("z")})
	}
	return r
}

// minimal is the smallest valid packet of a type.
func minimal(ver byte, typ int) *ref.Packet {
	p := &ref.Packet{Ver: ver, Type: typ, ID: 9}
	switch typ {
	case ref.CONNECT:
		p.ID, p.Clean, p.ClientID = 0, true, []byte("c")
	case ref.CONNACK, ref.DISCONNECT, ref.AUTH, ref.PINGREQ, ref.PINGRESP:
		p.ID = 0
	case ref.PUBLISH:
		p.Topic, p.Payload, p.ID = []byte("t"), []byte("payload"), 0
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.Subs = []ref.Sub{{Topic: []byte("a")}}
	case ref.SUBACK:
		p.Codes = []byte{0}
	case ref.UNSUBACK:
		if ver == 5 {
			p.Codes = []byte{0}
		}
	}
	return p
}

func checkLP(c *lpCase, x *prop.Ctx) error {
	data := gen.PadText(c.N)
	var p *ref.Packet
	set := func(typ int) {
		p = minimal(c.Ver, typ)
	}
	will := func() {
		set(ref.CONNECT)
		p.Will = &ref.Will{Topic: []byte("w"), Payload: []byte("wp"), QoS: c.QoS}
	}
	switch c.Field {
	case "topic", "set topic":
		set(ref.PUBLISH)
		p.Topic, p.QoS = data, c.QoS
		if c.QoS > 0 {
			p.ID = 77
		}
	case "will topic":
		will()
		p.Will.Topic = data
	case "will payload":
		will()
		p.Will.Payload = data
	case "client id":
		set(ref.CONNECT)
		p.ClientID = data
	case "user":
		set(ref.CONNECT)
		p.HasUser, p.User = true, data
		if c.Pos&1 != 0 {
			p.HasPass, p.Pass = true, []byte("p")
		}
	case "password":
		set(ref.CONNECT)
		p.HasUser, p.User, p.HasPass, p.Pass = true, []byte("u"), true, data
	case "filter", "unsubscribe filter":
		set(ref.SUBSCRIBE)
		if c.Field != "filter" {
			set(ref.UNSUBSCRIBE)
		}
		for i := 1; i < c.Pos; i++ {
			p.Subs = append(p.Subs, ref.Sub{Topic: []byte("b/+")})
		}
		p.Subs = append(p.Subs, ref.Sub{Topic: data})
		if c.Pos == 3 {
			p.Subs = append(p.Subs, ref.Sub{Topic: []byte("z")})
		}
	case "will prop", "will pair key", "will pair value":
		will()
		p.Will.Props = c.pv(data)
	case "prop", "pair key", "pair value":
		set(c.Type)
		p.Props = c.pv(data)
		if c.Prop == 0x16 {
			p.Props = append(p.Props, ref.PV{ID: 0x15, S: []byte("m")})
		}
	default:
		prop.Harness("field %q", c.Field)
	}
	m, err := sut.Build(p)
	if c.N > 65535 {
		x.Class(c.Field + ": too long")
	} else {
		x.Class(c.Field + ": fits")
	}
	x.NonTrivial()
	if err != nil {
		if c.N > 65535 {
			return nil // refused when set
		}
		return errf("%d bytes of %s: %v", c.N, c.Field, err)
	}
	if c.N > 65535 {
		return mustRefuse(m, fmt.Sprintf("%d bytes of %s in %s", c.N, c.Field, className(p)))
	}
	b, err := sut.EncodeBoth(m)
	if err != nil {
		return errf("%d bytes of %s in %s: %v", c.N, c.Field, className(p), err)
	}
	q, v, why := ref.Decode(p.Ver, b)
	if v == ref.Invalid {
		return errf("%d bytes of %s in %s: malformed encoding (%s)", c.N, c.Field, className(p), why)
	}
	if d := ref.Diff(p, q); d != "" {
		return errf("%d bytes of %s in %s: %s", c.N, c.Field, className(p), d)
	}
	return nil
}

// ---- remaining length limit

const maxRem = 268435455

type remCase struct {
	Kind string `json:"kind"` // payload, topics, unsub topics, properties
	Over int64  `json:"over"` // remaining length minus the limit
	Ver  byte   `json:"ver"`
	QoS  byte   `json:"qos"`
	Enc  bool   `json:"enc"` // really encode (limit 256 MB)
}

var slab []byte

func bigSlab() []byte {
	if slab == nil {
		slab = make([]byte, 1<<32+4096) // never written: costs address space only
	}
	return slab
}

func enumRem(yield func(*remCase)) {
	for _, kind := range []string{"payload", "topics", "unsub topics", "properties"} {
		for _, ver := range []byte{3, 4, 5} {
			if kind == "properties" && ver != 5 {
				continue
			}
			overs := []int64{-1, 0, 1, 2, 3, 100, 1 << 20}
			if kind == "payload" {
				overs = append(overs, -127, -2, maxRem, 1<<31-maxRem-2, 1<<31-maxRem-1, 1<<31-maxRem, 1<<31-maxRem+5, 1<<32-maxRem-1, 1<<32-maxRem, 1<<32-maxRem+1, 1<<32-maxRem+7, 1<<32-maxRem+130, 1<<32-maxRem+2000)
			}
			for _, over := range overs {
				for q := byte(0); q < 3; q++ {
					if kind != "payload" && q > 0 {
						continue
					}
					yield(&remCase{kind, over, ver, q, false})
				}
			}
		}
	}
	yield(&remCase{"payload", 0, 4, 1, true})
	yield(&remCase{"payload", 1, 5, 0, true})
	if Thorough {
		yield(&remCase{"payload", 0, 5, 2, true})
		yield(&remCase{"payload", -1, 3, 0, true})
		yield(&remCase{"topics", 0, 5, 0, true})
		yield(&remCase{"topics", 1, 4, 0, true})
		yield(&remCase{"properties", 0, 5, 0, true})
	}
}

func checkRem(c *remCase, x *prop.Ctx) error {
	x.NonTrivial()
	want := maxRem + c.Over
	var m mqttp.IFace
	switch c.Kind {
	case "payload":
		p := mqttp.NewPublish(verOf(int(c.Ver)))
		if err := p.Set("t", nil, mqttp.QosType(c.QoS), false, false); err != nil {
			return err
		}
		n := int64(3)
		if c.QoS > 0 {
			p.SetPacketID(1)
			n += 2
		}
		if c.Ver == 5 {
			n++
		}
		p.SetPayload(bigSlab()[: want-n : want-n])
		m = p
	case "topics", "unsub topics":
		m = mqttp.NewSubscribe(verOf(int(c.Ver)))
		per := int64(3)
		if c.Kind != "topics" {
			m = mqttp.NewUnSubscribe(verOf(int(c.Ver)))
			per = 2
		}
		m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(1)
		left := want - 2
		if c.Ver == 5 {
			left--
		}
		big := gen.PadText(65535)
		topics := map[int64]*mqttp.Topic{}
		for left > 0 {
			n := int64(65535)
			if left < n+per {
				n = left - per
			} else if r := left - n - per; r > 0 && r <= per {
				n -= per
			}
			tp := topics[n]
			if tp == nil {
				var err error
				if tp, err = mqttp.NewTopic(big[:n]); err != nil {
					return err
				}
				topics[n] = tp
			}
			_ = m.(interface{ AddTopic(*mqttp.Topic) error }).AddTopic(tp)
			left -= n + per
		}
	case "properties":
		p := mqttp.NewPublish(mqttp.ProtocolV50)
		if err := p.Set("t", []byte("p"), 0, false, false); err != nil {
			return err
		}
		left := want - 3 - 1 - 4 // topic, payload, property length
		big := string(gen.PadText(65535))
		var ps []mqttp.StringPair
		for left > 0 {
			k, v := int64(65535), int64(65535)
			switch {
			case left < 5+k+v:
				d := left - 5
				k, v = d/2, d-d/2
			case left-(5+k+v) < 5 && left-(5+k+v) > 0:
				k -= 10
			}
			ps = append(ps, mqttp.StringPair{K: big[:k], V: big[:v]})
			left -= 5 + k + v
		}
		if err := p.PropertySet(mqttp.PropertyUserProperty, ps); err != nil {
			if c.Over > 0 {
				return nil
			}
			return err
		}
		m = p
	}
	sz, err := m.Size()
	if c.Over <= 0 {
		x.Class("within the limit")
		if err != nil || int64(sz) != want+5 {
			return errf("%s with remaining length %d: Size %d, %v", m.Type().Name(), want, sz, err)
		}
		if c.Enc {
			b := make([]byte, sz)
			n, e := m.Encode(b)
			if e != nil || n != sz {
				return errf("%s with remaining length %d: Encode %d, %v", m.Type().Name(), want, n, e)
			}
			if !bytes.HasPrefix(b[1:], ref.VBI(uint32(want))) {
				return errf("%s with remaining length %d: header %x", m.Type().Name(), want, b[:6])
			}
			d, pn := sut.Decode(c.Ver, b)
			if pn != nil {
				return pn
			}
			if d.Err != nil || d.N != sz {
				return errf("%s with remaining length %d cannot be decoded: %d %v", m.Type().Name(), want, d.N, d.Err)
			}
		}
		return nil
	}
	x.Class("over the limit")
	if err == nil {
		return errf("%s with remaining length %d: Size accepts it as %d", m.Type().Name(), want, sz)
	}
	buf := make([]byte, 1<<16)
	if c.Enc {
		buf = make([]byte, want+16)
	}
	if n, e := m.Encode(buf); e == nil {
		return errf("%s with remaining length %d: Encode succeeds with %d", m.Type().Name(), want, n)
	}
	for i, b := range buf[:1<<12] {
		if b != 0 && c.Enc {
			return errf("%s with remaining length %d: Encode wrote byte %d", m.Type().Name(), want, i)
		}
	}
	if b, e := mqttp.Encode(m); e == nil {
		return errf("%s with remaining length %d: mqttp.Encode succeeds with %d bytes", m.Type().Name(), want, len(b))
	}
	return nil
}

// ---- C09 -------------------------------------------------------------------

// propVal is a Go value of some kind, as data.
type propVal struct {
	Kind string   `json:"kind"`
	N    uint64   `json:"n,omitempty"`
	S    [][]byte `json:"s,omitempty"`
	PVs  []ref.PV `json:"pvs,omitempty"` // kind "good"
}

type bagOp struct {
	Op  string   `json:"op"` // set, discard, read, encode
	ID  uint32   `json:"id,omitempty"`
	Val *propVal `json:"val,omitempty"`
}

type bagCase struct {
	P    *ref.Packet `json:"p"`
	Dec  bool        `json:"dec"`
	Will bool        `json:"will"`
	Ops  []bagOp     `json:"ops"`
	Rep  int         `json:"rep,omitempty"`
}

var valKinds = []string{"nil", "int", "int64", "uint", "uint64", "bool", "byte", "uint16", "uint32", "string", "bytes", "pair", "pairs", "strings", "bytess", "uint16s", "uint32s", "float", "ppair", "int32", "rune", "int16"}

func (v *propVal) value() interface{} {
	s := func(i int) []byte {
		if i < len(v.S) {
			return v.S[i]
		}
		return []byte("q")
	}
	switch v.Kind {
	case "good":
		return sut.Value(v.PVs)
	case "list": // the list form, whatever the number
		if d, _ := ref.PropDef(v.PVs[0].ID); d.T == ref.TPair {
			var r []mqttp.StringPair
			for _, p := range v.PVs {
				r = append(r, mqttp.StringPair{K: string(p.S), V: string(p.V)})
			}
			return r
		}
		var r []uint32
		for _, p := range v.PVs {
			r = append(r, p.N)
		}
		return r
	case "int":
		return int(v.N & 0x7fff)
	case "int64":
		return int64(v.N & 0x7fff)
	case "uint":
		return uint(v.N)
	case "uint64":
		return v.N
	case "bool":
		return v.N&1 != 0
	case "byte":
		return byte(v.N)
	case "uint16":
		return uint16(v.N)
	case "uint32":
		return uint32(v.N)
	case "string":
		return string(s(0))
	case "bytes":
		return append([]byte("ab"), s(0)...)
	case "pair":
		return mqttp.StringPair{K: string(s(0)), V: string(s(1))}
	case "pairs":
		return []mqttp.StringPair{{K: string(s(0)), V: "1"}, {K: "k", V: string(s(1))}}
	case "empty":
		return []mqttp.StringPair{}
	case "none":
		return []mqttp.StringPair(nil)
	case "emptys":
		return []uint32{}
	case "nones":
		return []uint32(nil)
	case "longs":
		return string(gen.PadText(int(v.N)))
	case "longb":
		return gen.PadBytes(int(v.N), 7)
	case "longp":
		if v.N&1 != 0 {
			return mqttp.StringPair{K: string(gen.PadText(int(v.N))), V: "v"}
		}
		return mqttp.StringPair{K: "k", V: string(gen.PadText(int(v.N)))}
	case "longl":
		return []mqttp.StringPair{{K: "k", V: "1"}, {K: string(gen.PadText(int(v.N))), V: "2"}, {K: "k", V: "3"}}
	case "ppair":
		return &mqttp.StringPair{K: "k", V: "v"}
	case "strings":
		return []string{string(s(0)), string(s(1))}
	case "bytess":
		return [][]byte{s(0), s(1)}
	case "uint16s":
		return []uint16{uint16(v.N), 2}
	case "uint32s":
		if v.N>>28&1 != 0 {
			return []uint32{3, uint32(v.N)}
		}
		return []uint32{uint32(v.N&0xffff) + 1, 2}
	case "float":
		return 1.5
	case "int32":
		return int32(v.N & 0x7fff)
	case "rune":
		return 'x'
	case "int16":
		return int16(v.N & 0x7f)
	}
	return nil
}

var kindOf = map[ref.PT]string{ref.TByte: "byte", ref.TU16: "uint16", ref.TU32: "uint32", ref.TVar: "uint32", ref.TStr: "string", ref.TBin: "bytes", ref.TPair: "pair"}

// propHostOf tells the pseudo packet type of the property bag.
func (c *bagCase) pt() int {
	if c.Will {
		return ref.WILL
	}
	return c.P.Type
}

func genBag(t *rapid.T) *bagCase {
	c := &bagCase{}
	types := []int{ref.CONNECT, ref.CONNACK, ref.CONNACK, ref.PUBLISH, ref.PUBLISH, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH, ref.WILL, ref.WILL, ref.PINGREQ, ref.PINGRESP}
	typ := gen.Pick(t, types, "bagType")
	ver := 5
	if typ != ref.AUTH && gen.OneIn(t, 8, "v3") {
		ver = gen.Int(t, 3, 4, "ver3")
	}
	if typ == ref.WILL {
		c.Will = true
		typ = ref.CONNECT
	}
	c.Dec = gen.OneIn(t, 3, "dec")
	c.P = minimal(byte(ver), typ)
	if gen.Flip(t, "rich") {
		c.P = gen.Packet(t, gen.Opt{Ver: ver, Type: typ, NoPad: true, Build: true})
	}
	c.P.Props = nil
	if c.P.Type == ref.PUBLISH && len(c.P.Topic) == 0 {
		c.P.Topic = []byte("t")
	}
	if c.Will && c.P.Will == nil {
		c.P.Will = &ref.Will{Topic: []byte("w"), Payload: []byte("p")}
	}
	if c.P.Will != nil {
		c.P.Will.Props = nil
	}
	pt := c.pt()
	if ver == 5 && c.Dec {
		ps := gen.Props(t, pt, false)
		if c.Will {
			c.P.Will.Props = ps
		} else {
			c.P.Props = ps
		}
	}
	defs := ref.PropsFor(pt)
	n := gen.Int(t, 1, 9, "nops")
	for i := 0; i < n; i++ {
		op := bagOp{Op: "set"}
		k := gen.Int(t, 0, 19, "opk")
		if len(defs) == 0 && k < 12 {
			k = 12
		}
		pickDef := func() ref.PDef {
			// few identifiers, so that overwriting is common
			return gen.Pick(t, defs, "opid")
		}
		switch {
		case k < 10: // valid
			d := pickDef()
			op.ID = d.ID
			m := 1
			kind := "good"
			if d.Rep(pt) {
				m = gen.Int(t, 1, 3, "opn")
				if gen.OneIn(t, 3, "list") {
					kind = "list"
				}
			}
			op.Val = &propVal{Kind: kind}
			for j := 0; j < m; j++ {
				op.Val.PVs = append(op.Val.PVs, gen.PropValue(t, d))
			}
			if d.Rep(pt) && gen.OneIn(t, 8, "extreme") { // no occurrence at all, or very many
				op.Val = &propVal{Kind: gen.Pick(t, []string{"empty", "none"}, "ek")}
				if d.T == ref.TVar {
					op.Val.Kind += "s"
				}
				if gen.Flip(t, "many") {
					op.Val.Kind, op.Val.PVs = "list", gen.ManyProps(t, d.ID)
				}
				break
			}
			if gen.OneIn(t, 30, "over") { // longer than MQTT can write
				long := map[ref.PT]string{ref.TStr: "longs", ref.TBin: "longb", ref.TPair: gen.Pick(t, []string{"longp", "longl"}, "lk")}[d.T]
				if long != "" {
					op.Val = &propVal{Kind: long, N: uint64(gen.Pick(t, []int{65536, 65537, 65540, 70000, 131071, 131072, 131073}, "ln"))}
					break
				}
			}
			if gen.OneIn(t, 12, "bound") && d.T == ref.TPair { // push the block over a length-field boundary
				op.Val.PVs = append(op.Val.PVs, ref.PV{ID: d.ID, S: gen.PadText(gen.Pick(t, []int{90, 110, 118, 119, 120, 121, 122, 123, 124, 128, 16370, 16380}, "bn"))})
			}
		case k < 12: // wrong Go type
			d := pickDef()
			op.ID = d.ID
			op.Val = &propVal{Kind: gen.Pick(t, valKinds, "wk"), N: uint64(gen.U32(t, "wn"))}
			if gen.Flip(t, "ws") {
				op.Val.S = [][]byte{[]byte("longer text"), []byte("")}
			}
			if d.T == ref.TVar && gen.OneIn(t, 3, "vbi") { // around the largest variable byte integer
				op.Val = &propVal{Kind: gen.Pick(t, []string{"uint32", "uint32s"}, "vk"), N: uint64(gen.Pick(t, []uint32{1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<28 | 1<<30, 1<<32 - 1}, "vn"))}
			}
		case k < 15: // wrong identifier
			op.ID = gen.Pick(t, []uint32{0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0, 4, 0x0a, 0x14, 0x2b, 0x7f, 0x80, 0x126, 1 << 31, 0xffffffff}, "wid")
			if d, ok := ref.PropDef(op.ID); ok {
				op.Val = &propVal{Kind: "good", PVs: []ref.PV{gen.PropValue(t, d)}}
			} else {
				op.Val = &propVal{Kind: gen.Pick(t, []string{"byte", "uint16", "uint32", "string", "bytes", "pair"}, "wk2"), N: 1}
			}
		case k == 15 || k == 16:
			op = bagOp{Op: "discard"}
			if gen.Flip(t, "noDiscard") {
				op = bagOp{Op: "read"}
			}
		default:
			op = bagOp{Op: "encode"}
		}
		c.Ops = append(c.Ops, op)
	}
	c.Rep = genRep(t, c, len(c.Ops))
	return c
}

// accepts tells whether setting must succeed; for a PUBLISH object the
// properties of a will are settable too (it doubles as the will of a CONNECT).
func (c *bagCase) accepts(op bagOp) (ok, open bool) {
	if c.P.Ver != 5 {
		return false, false
	}
	d, known := ref.PropDef(op.ID)
	if !known {
		return false, false
	}
	pt := c.pt()
	in := d.Has(pt)
	if pt == ref.PUBLISH && !in && d.Has(ref.WILL) || pt == ref.WILL && !in && d.Has(ref.PUBLISH) {
		return false, true
	}
	if !in {
		return false, false
	}
	switch op.Val.Kind {
	case "good":
		return true, false
	case "list":
		return d.Rep(pt), false
	case "empty", "none", "emptys", "nones": // a list that shows nothing
		return true, true
	case "longs", "longb", "longp", "longl": // cannot be encoded
		return true, true
	}
	if d.T == ref.TVar {
		// no variable byte integer holds more
		switch v := op.Val.value().(type) {
		case uint32:
			if v > maxRem {
				return false, false
			}
		case []uint32:
			if v[0] > maxRem || v[1] > maxRem {
				return false, false
			}
		}
	}
	if op.Val.Kind == kindOf[d.T] {
		return true, true // right type, possibly a value MQTT excludes
	}
	if d.Rep(pt) && (d.T == ref.TPair && op.Val.Kind == "pairs" || d.T == ref.TVar && op.Val.Kind == "uint32s") {
		return true, true
	}
	return false, false
}

func checkBag(c *bagCase, x *prop.Ctx) error {
	return beside(c.P.Ver, c.P.Type, func() error { return checkBagAlone(c, x) })
}

func checkBagAlone(c *bagCase, x *prop.Ctx) error {
	var m mqttp.IFace
	var err error
	if c.Dec {
		m, err = decodeOK(c.P.Ver, c.P.Encode(ref.Form{}))
	} else {
		m, err = sut.Build(c.P)
	}
	if err != nil {
		return errf("making the packet: %v", err)
	}
	cur := c.P.Clone()
	var bag mqttp.IFace = m
	props := &cur.Props
	if c.Will {
		w := m.(*mqttp.Connect).Will()
		if w == nil {
			return errf("the will is missing")
		}
		bag = w
		props = &cur.Will.Props
	}
	nset := 0
	verify := func(i int, what string, enc bool) error {
		got, e := sut.ReadProps(bag)
		if e != nil {
			return errf("after op %d (%s): %v", i, what, e)
		}
		if d := ref.DiffProps(*props, got); d != "" {
			return errf("after op %d (%s): %s", i, what, d)
		}
		if !enc {
			return nil
		}
		for _, p := range *props {
			if len(p.S) > 65535 || len(p.V) > 65535 {
				x.Class("too long to encode")
				if e := mustRefuse(m, fmt.Sprintf("property 0x%02x holding %d and %d bytes", p.ID, len(p.S), len(p.V))); e != nil {
					return errf("after op %d (%s): %v", i, what, e)
				}
				return nil
			}
		}
		b, e := sut.EncodeBoth(m)
		if e != nil {
			return errf("after op %d (%s): %v", i, what, e)
		}
		q, v, why := ref.Decode(cur.Ver, b)
		if v == ref.Invalid {
			return errf("after op %d (%s): malformed encoding (%s): %s", i, what, why, hx(b))
		}
		if d := ref.Diff(cur, q); d != "" {
			return errf("after op %d (%s): encoding shows other content: %s; %s", i, what, d, hx(b))
		}
		return nil
	}
	if err = verify(-1, "start", true); err != nil {
		return err
	}
	ops := repeat(c.Ops, c.Rep, x)
	for i, op := range ops {
		var e error
		what := op.Op
		switch op.Op {
		case "set":
			val := op.Val.value()
			want, open := c.accepts(op)
			what = fmt.Sprintf("set 0x%02x to %s", op.ID, trunc(val))
			if pn := sut.Safe("PropertySet", func() { e = bag.PropertySet(mqttp.PropertyID(op.ID), val) }); pn != nil {
				return errf("op %d (%s) on %s: %v", i, what, className(c.P), pn)
			}
			if !want && open {
				// a property of the other role of a PUBLISH object: if it is taken,
				// it must show, and we take it back by discarding everything
				if e == nil {
					if bag.PropertyGet(mqttp.PropertyID(op.ID)) == nil {
						return errf("op %d (%s): accepted but not visible", i, what)
					}
					bag.PropertiesDiscard()
					*props = nil
				}
				break
			}
			if !want && e == nil {
				return errf("op %d (%s) on %s: accepted", i, what, className(c.P))
			}
			if want && e != nil {
				if open {
					break
				}
				return errf("op %d (%s) on %s: refused: %v", i, what, className(c.P), e)
			}
			if e == nil {
				nset++
				var rest []ref.PV
				for _, v := range *props {
					if v.ID != op.ID {
						rest = append(rest, v)
					} else {
						x.Class("overwrite")
					}
				}
				*props = append(rest, op.asPVs()...)
			} else {
				x.Class("rejected set")
			}
		case "discard":
			bag.PropertiesDiscard()
			*props = nil
		}
		if err = verify(i, what, op.Op == "encode" || i == len(ops)-1 || i%2 == 0); err != nil {
			return err
		}
	}
	if nset > 0 {
		x.NonTrivial()
	}
	x.Class(className(c.P))
	return nil
}

// asPVs is the model of an accepted value.
func (op bagOp) asPVs() []ref.PV {
	if op.Val.Kind == "good" || op.Val.Kind == "list" {
		return op.Val.PVs
	}
	switch v := op.Val.value().(type) {
	case byte:
		return []ref.PV{{ID: op.ID, N: uint32(v)}}
	case uint16:
		return []ref.PV{{ID: op.ID, N: uint32(v)}}
	case uint32:
		return []ref.PV{{ID: op.ID, N: v}}
	case string:
		return []ref.PV{{ID: op.ID, S: []byte(v)}}
	case []byte:
		return []ref.PV{{ID: op.ID, S: v}}
	case mqttp.StringPair:
		return []ref.PV{{ID: op.ID, S: []byte(v.K), V: []byte(v.V)}}
	case []mqttp.StringPair:
		var r []ref.PV
		for _, p := range v {
			r = append(r, ref.PV{ID: op.ID, S: []byte(p.K), V: []byte(p.V)})
		}
		return r
	case []uint32:
		var r []ref.PV
		for _, p := range v {
			r = append(r, ref.PV{ID: op.ID, N: p})
		}
		return r
	}
	prop.Harness("accepted value of kind %s", op.Val.Kind)
	return nil
}

func trunc(v interface{}) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return s
}

// ---- C10 -------------------------------------------------------------------

type permCase struct {
	ID   uint32 `json:"id"`
	Type int    `json:"type"` // packet type, or WILL
	Kind string `json:"kind"` // predicates, set, decode, twice, cut
	N    uint32 `json:"n"`
}

func enumPerm(yield func(*permCase)) {
	ids := []uint32{}
	for id := uint32(0); id <= 0x40; id++ {
		ids = append(ids, id)
	}
	ids = append(ids, 0x7f, 0x80, 0x81, 0xa6, 0xff, 0x100, 0x101, 0x126, 0x3fff, 0x4001, 0x10026, 0x200003, 0x0fffffff, 0x10000001, 1<<31+1, 0xffffffff)
	for _, id := range ids {
		for typ := 0; typ < 256; typ++ {
			yield(&permCase{ID: id, Type: typ, Kind: "predicates"})
		}
		for typ := 1; typ <= ref.WILL; typ++ {
			yield(&permCase{ID: id, Type: typ, Kind: "set"})
			if id > 0x0fffffff || typ == ref.PINGREQ || typ == ref.PINGRESP {
				continue
			}
			yield(&permCase{ID: id, Type: typ, Kind: "decode"})
			yield(&permCase{ID: id, Type: typ, Kind: "twice"})
			yield(&permCase{ID: id, Type: typ, Kind: "cut"})
		}
	}
}

// sample values of a property that MQTT allows.
func sampleValue(d ref.PDef, i int) ref.PV {
	v := ref.PV{ID: d.ID}
	switch d.T {
	case ref.TByte:
		v.N = uint32(i & 1)
	case ref.TU16:
		v.N = []uint32{7, 1, 65535, 256}[i&3]
	case ref.TU32:
		v.N = []uint32{7, 1, 0xffffffff, 65536}[i&3]
	case ref.TVar:
		v.N = []uint32{7, 1, 268435455, 16384}[i&3]
	case ref.TStr:
		v.S = [][]byte{[]byte("abc"), []byte("x"), []byte("a/b"), []byte("é")}[i&3]
	case ref.TBin:
		v.S = [][]byte{{1, 2}, {}, {255}, {0, 0, 0}}[i&3]
	case ref.TPair:
		v.S, v.V = []byte("k"), [][]byte{[]byte("v"), {}, []byte("kk"), []byte("é")}[i&3]
	}
	return v
}

// hostFor builds a minimal packet whose property block (or will's block) holds raw bytes.
func hostFor(typ int, blk []byte) []byte {
	pt := typ
	if typ == ref.WILL {
		pt = ref.CONNECT
	}
	p := minimal(5, pt)
	if typ == ref.WILL {
		p.Will = &ref.Will{Topic: []byte("w"), Payload: []byte("p")}
	}
	if pt == ref.PUBLISH {
		p.QoS, p.ID = 1, 3
	}
	b, ms := p.Body(ref.Form{})
	var pl []ref.Mark
	for _, m := range ms {
		if m.Kind == "plen" {
			pl = append(pl, m)
		}
	}
	m := pl[len(pl)-1]
	nb := append([]byte{}, b[:m.Off]...)
	nb = append(nb, ref.VBI(uint32(len(blk)))...)
	nb = append(nb, blk...)
	nb = append(nb, b[m.Off+m.Len:]...)
	return gen.Refit(byte(pt)<<4|p.Flags(), nb)
}

func judge(ver byte, b []byte, what string) error {
	p, v, why := ref.Decode(ver, b)
	d, pn := sut.Decode(ver, b)
	if pn != nil {
		return errf("%s: %v", what, pn)
	}
	switch v {
	case ref.Valid:
		if d.Err != nil || isNil(d.M) {
			return errf("%s: well-formed packet refused (%v): %s", what, d.Err, hx(b))
		}
		q, err := sut.Extract(d.M)
		if err != nil {
			return errf("%s: %v", what, err)
		}
		if df := ref.Diff(sut.Expect(p), q); df != "" {
			return errf("%s: %s reads back as other content: %s", what, hx(b), df)
		}
	case ref.Invalid:
		if d.Err == nil || !isNil(d.M) {
			return errf("%s: malformed packet accepted (%s): %s", what, why, hx(b))
		}
	}
	return nil
}

func checkPerm(c *permCase, x *prop.Ctx) error {
	d, known := ref.PropDef(c.ID)
	id := mqttp.PropertyID(c.ID)
	x.Class(c.Kind)
	x.NonTrivial()
	what := fmt.Sprintf("property 0x%02x in packet type %d", c.ID, c.Type)
	switch c.Kind {
	case "predicates":
		if id.IsValid() != known {
			return errf("PropertyID(0x%x).IsValid() is %v", c.ID, id.IsValid())
		}
		in, rep := false, false
		if known && c.Type <= 15 {
			in, rep = d.Has(c.Type), d.Rep(c.Type)
			if c.Type == ref.PUBLISH && d.Has(ref.WILL) {
				in = true
			}
		}
		if g := id.IsValidPacketType(mqttp.Type(c.Type)); g != in {
			return errf("PropertyID(0x%x).IsValidPacketType(%d) is %v", c.ID, c.Type, g)
		}
		if g := id.DupAllowed(mqttp.Type(c.Type)); g != rep {
			return errf("PropertyID(0x%x).DupAllowed(%d) is %v", c.ID, c.Type, g)
		}
		return nil
	case "set":
		// every value kind, on a packet of its own
		kinds := append([]string{"good"}, valKinds...)
		for _, k := range kinds {
			pt := c.Type
			if pt == ref.WILL {
				pt = ref.PUBLISH
			}
			p := minimal(5, pt)
			m, err := sut.Build(p)
			if err != nil {
				return errf("building: %v", err)
			}
			val := &propVal{Kind: k, N: 1, S: [][]byte{[]byte("s"), []byte("t")}}
			right := false
			open := false
			if k == "good" {
				if !known {
					continue
				}
				val.PVs = []ref.PV{sampleValue(d, 0)}
				right = true
			} else if known {
				right = k == kindOf[d.T]
				if d.Rep(pt) && (d.T == ref.TPair && k == "pairs" || d.T == ref.TVar && k == "uint32s") {
					right = true
				}
			}
			in := known && d.Has(c.Type)
			if known && !in && (c.Type == ref.PUBLISH && d.Has(ref.WILL) || c.Type == ref.WILL && d.Has(ref.PUBLISH)) {
				in, open = true, true
			}
			var e error
			if pn := sut.Safe("PropertySet", func() { e = m.PropertySet(id, val.value()) }); pn != nil {
				return errf("%s set to a %s: %v", what, k, pn)
			}
			if want := in && right; want != (e == nil) && !(want && open) {
				return errf("%s set to a %s (%s): %v", what, k, trunc(val.value()), e)
			}
		}
		return nil
	}
	// decode checks
	enc := func(i int) []byte {
		if known {
			return ref.EncodeProp(sampleValue(d, i))
		}
		return append(ref.VBI(c.ID), []byte{0, 1, 'x', 0, 1}[:i&3]...)
	}
	switch c.Kind {
	case "decode":
		for i := 0; i < 4; i++ {
			if err := judge(5, hostFor(c.Type, enc(i)), what); err != nil {
				return err
			}
		}
	case "twice":
		for i := 0; i < 4; i++ {
			blk := append(enc(i), enc(i+1)...)
			up := ref.EncodeProp(ref.PV{ID: 0x26, S: []byte("k"), V: []byte("v")})
			for _, b := range [][]byte{blk, append(append([]byte{}, blk...), up...), append(append(append([]byte{}, enc(i)...), up...), enc(i)...)} {
				if err := judge(5, hostFor(c.Type, b), what+" twice"); err != nil {
					return err
				}
			}
		}
	case "cut":
		for i := 0; i < 4; i++ {
			e := enc(i)
			for n := 0; n < len(e); n++ {
				for _, tail := range [][]byte{nil, {0, 0, 0, 0, 0, 0, 0, 0}} {
					b := hostFor(c.Type, e[:n])
					_ = tail
					if err := judge(5, b, what+" cut"); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

type permRand struct {
	Type int      `json:"type"`
	PVs  []ref.PV `json:"pvs"`
}

func genPermRand(t *rapid.T) *permRand {
	c := &permRand{Type: gen.Pick(t, []int{1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, 16}, "pt")}
	n := gen.Int(t, 1, 5, "n")
	own := ref.PropsFor(c.Type)
	for i := 0; i < n; i++ {
		d := gen.Pick(t, own, "own")
		if gen.OneIn(t, 6, "foreign") {
			d = gen.Pick(t, ref.Props, "any")
		}
		c.PVs = append(c.PVs, gen.PropValue(t, d))
	}
	return c
}

func checkPermRand(c *permRand, x *prop.Ctx) error {
	var blk []byte
	for _, v := range c.PVs {
		blk = append(blk, ref.EncodeProp(v)...)
	}
	b := hostFor(c.Type, blk)
	_, v, _ := ref.Decode(5, b)
	x.Class(v.String())
	if len(c.PVs) > 1 {
		x.NonTrivial()
	}
	return judge(5, b, "property block")
}

func init() {
	register(&prop.Def{ID: "C08", Quick: 12000, Thoro: 220000,
		Rule: "packets missing one encode precondition (and the same packet made valid again), every length-prefixed field at lengths around 65535, remaining lengths around 268435455 and around the 32-bit boundaries; non-trivial: all",
		Subs: []*prop.Sub{
			prop.Enum("remaining length", enumRem, checkRem),
			prop.Gen("guards", 1, genGuard, checkGuards),
			prop.Gen("fields", 0.12, genLP, checkLP),
		}})
	register(&prop.Def{ID: "C09", Quick: 90000, Thoro: 1000000,
		Rule: "operation sequences on the property set of built or decoded packets and wills, checked against a map model through reads, iteration and the encoding after the operations; non-trivial: at least one accepted set",
		Subs: []*prop.Sub{prop.Gen("bag", 1, genBag, checkBag)}})
	register(&prop.Def{ID: "C10", Quick: 96000, Thoro: 1500000,
		Rule: "every (property id 0..0x40 and some larger, packet type or will): predicates for all 256 type values, setting with each Go value type, decoding once, twice and cut at every byte; plus random property blocks; non-trivial: all enumerated, random blocks of two or more properties",
		Subs: []*prop.Sub{
			prop.Enum("table", enumPerm, checkPerm),
			prop.Gen("blocks", 1, genPermRand, checkPermRand),
		}})
}
