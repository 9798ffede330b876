// Package sut connects the reference model with the library under test, through
// the library's public API only.
package sut

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"vlverif/ref"
)

// Safe runs fn and turns a panic into an error.
func Safe(what string, fn func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic in %s: %v", what, r)
		}
	}()
	fn()
	return nil
}

// Value converts property occurrences of one identifier to the value PropertySet takes.
func Value(vs []ref.PV) interface{} {
	d, _ := ref.PropDef(vs[0].ID)
	switch d.T {
	case ref.TByte:
		return byte(vs[0].N)
	case ref.TU16:
		return uint16(vs[0].N)
	case ref.TU32:
		return vs[0].N
	case ref.TVar:
		if len(vs) == 1 {
			return vs[0].N
		}
		var r []uint32
		for _, v := range vs {
			r = append(r, v.N)
		}
		return r
	case ref.TStr:
		return string(vs[0].S)
	case ref.TBin:
		return append([]byte{}, vs[0].S...)
	case ref.TPair:
		if len(vs) == 1 {
			return mqttp.StringPair{K: string(vs[0].S), V: string(vs[0].V)}
		}
		var r []mqttp.StringPair
		for _, v := range vs {
			r = append(r, mqttp.StringPair{K: string(v.S), V: string(v.V)})
		}
		return r
	}
	panic("unknown property type")
}

// Group collects the occurrences per identifier, in order of first occurrence.
func Group(ps []ref.PV) [][]ref.PV {
	var r [][]ref.PV
	at := map[uint32]int{}
	for _, v := range ps {
		i, ok := at[v.ID]
		if !ok {
			i = len(r)
			at[v.ID] = i
			r = append(r, nil)
		}
		r[i] = append(r[i], v)
	}
	return r
}

// SetProps sets a property list on a packet.
func SetProps(m mqttp.IFace, ps []ref.PV) error {
	for _, g := range Group(ps) {
		if err := m.PropertySet(mqttp.PropertyID(g[0].ID), Value(g)); err != nil {
			return fmt.Errorf("PropertySet(0x%02x, %v) on %s: %v", g[0].ID, short(Value(g)), m.Type().Name(), err)
		}
	}
	return nil
}

func short(v interface{}) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

type idSetter interface{ SetPacketID(mqttp.IDType) }

// Build makes a packet through the public constructors and setters.
func Build(p *ref.Packet) (m mqttp.IFace, err error) {
	v := mqttp.ProtocolVersion(p.Ver)
	if e := Safe("setters", func() { m, err = build(v, p) }); e != nil {
		return nil, e
	}
	if err != nil {
		return nil, err
	}
	if p.Ver == 5 {
		if e := Safe("PropertySet", func() { err = SetProps(m, p.Props) }); e != nil {
			return nil, e
		}
	}
	return m, err
}

// BuildWill makes the PUBLISH that serves as a will.
func BuildWill(v mqttp.ProtocolVersion, w *ref.Will) (*mqttp.Publish, error) {
	m := mqttp.NewPublish(v)
	if err := m.Set(string(w.Topic), append([]byte{}, w.Payload...), mqttp.QosType(w.QoS), w.Retain, false); err != nil {
		return nil, fmt.Errorf("will Set: %v", err)
	}
	if v == mqttp.ProtocolV50 {
		if err := SetProps(m, w.Props); err != nil {
			return nil, fmt.Errorf("will: %v", err)
		}
	}
	return m, nil
}

// Typed makes an empty packet through its own constructor.
func Typed(v mqttp.ProtocolVersion, typ int) mqttp.IFace {
	switch typ {
	case ref.CONNECT:
		return mqttp.NewConnect(v)
	case ref.CONNACK:
		return mqttp.NewConnAck(v)
	case ref.PUBLISH:
		return mqttp.NewPublish(v)
	case ref.PUBACK:
		return mqttp.NewPubAck(v)
	case ref.PUBREC:
		return mqttp.NewPubRec(v)
	case ref.PUBREL:
		return mqttp.NewPubRel(v)
	case ref.PUBCOMP:
		return mqttp.NewPubComp(v)
	case ref.SUBSCRIBE:
		return mqttp.NewSubscribe(v)
	case ref.SUBACK:
		return mqttp.NewSubAck(v)
	case ref.UNSUBSCRIBE:
		return mqttp.NewUnSubscribe(v)
	case ref.UNSUBACK:
		return mqttp.NewUnSubAck(v)
	case ref.PINGREQ:
		return mqttp.NewPingReq(v)
	case ref.PINGRESP:
		return mqttp.NewPingResp(v)
	case ref.DISCONNECT:
		return mqttp.NewDisconnect(v)
	case ref.AUTH:
		return mqttp.NewAuth(v)
	}
	return nil
}

// Make makes an empty packet through the factory or, for about half of the
// packets, through the constructor of its type.
func Make(v mqttp.ProtocolVersion, p *ref.Packet) (mqttp.IFace, error) {
	if h := int(p.ID) + len(p.Props) + len(p.Topic) + len(p.Payload) + len(p.ClientID) + int(p.Code) + len(p.Codes) + len(p.Subs) + int(p.KeepAlive); h&1 == 0 && p.Type != ref.PINGREQ && p.Type != ref.PINGRESP {
		if m := Typed(v, p.Type); m != nil {
			return m, nil
		}
	}
	return mqttp.New(v, mqttp.Type(p.Type))
}

func build(v mqttp.ProtocolVersion, p *ref.Packet) (mqttp.IFace, error) {
	m, err := Make(v, p)
	if err != nil {
		return nil, fmt.Errorf("New(%d,%d): %v", v, p.Type, err)
	}
	if p.HasID() {
		m.(idSetter).SetPacketID(mqttp.IDType(p.ID))
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		x.SetClean(p.Clean)
		x.SetKeepAlive(p.KeepAlive)
		if err = x.SetClientID(p.ClientID); err != nil {
			return nil, fmt.Errorf("SetClientID(%q): %v", p.ClientID, err)
		}
		if p.Will != nil {
			w, e := BuildWill(v, p.Will)
			if e != nil {
				return nil, e
			}
			if err = x.SetWill(w); err != nil {
				return nil, fmt.Errorf("SetWill: %v", err)
			}
		}
		if p.HasUser || p.HasPass {
			if err = x.SetCredentials(p.User, p.Pass); err != nil {
				return nil, fmt.Errorf("SetCredentials(%q,%q): %v", p.User, p.Pass, err)
			}
		}
	case *mqttp.ConnAck:
		x.SetSessionPresent(p.Session)
		if err = x.SetReturnCode(mqttp.ReasonCode(p.Code)); err != nil {
			return nil, fmt.Errorf("SetReturnCode(0x%02x): %v", p.Code, err)
		}
	case *mqttp.Publish:
		if err = x.Set(string(p.Topic), p.Payload, mqttp.QosType(p.QoS), p.Retain, p.Dup); err != nil {
			return nil, fmt.Errorf("Publish.Set(%q): %v", short(string(p.Topic)), err)
		}
	case *mqttp.Ack:
		x.SetReason(mqttp.ReasonCode(p.Code))
	case *mqttp.Subscribe:
		for _, s := range p.Subs {
			t, e := mqttp.NewSubscribeTopic(s.Topic, mqttp.SubscriptionOptions(s.Ops))
			if e != nil {
				return nil, fmt.Errorf("NewSubscribeTopic(%q,0x%02x): %v", short(string(s.Topic)), s.Ops, e)
			}
			if err = x.AddTopic(t); err != nil {
				return nil, err
			}
		}
	case *mqttp.UnSubscribe:
		for _, s := range p.Subs {
			t, e := mqttp.NewTopic(s.Topic)
			if e != nil {
				return nil, fmt.Errorf("NewTopic(%q): %v", short(string(s.Topic)), e)
			}
			if err = x.AddTopic(t); err != nil {
				return nil, err
			}
		}
	case *mqttp.SubAck:
		if err = x.AddReturnCodes(codes(p.Codes)); err != nil {
			return nil, fmt.Errorf("SubAck.AddReturnCodes(%v): %v", p.Codes, err)
		}
	case *mqttp.UnSubAck:
		if p.Ver == 5 {
			if err = x.AddReturnCodes(codes(p.Codes)); err != nil {
				return nil, fmt.Errorf("UnSubAck.AddReturnCodes(%v): %v", p.Codes, err)
			}
		}
	case *mqttp.Disconnect:
		x.SetReasonCode(mqttp.ReasonCode(p.Code))
	case *mqttp.Auth:
		if err = x.SetReasonCode(mqttp.ReasonCode(p.Code)); err != nil {
			return nil, fmt.Errorf("Auth.SetReasonCode(0x%02x): %v", p.Code, err)
		}
	case *mqttp.PingReq, *mqttp.PingResp:
	default:
		return nil, fmt.Errorf("New(%d,%d) returned %T", v, p.Type, m)
	}
	return m, nil
}

func codes(b []byte) []mqttp.ReasonCode {
	var r []mqttp.ReasonCode
	for _, c := range b {
		r = append(r, mqttp.ReasonCode(c))
	}
	return r
}

// PropValue reads a property value through the typed accessors, checking that
// exactly the accessors of its own type deliver it.
func PropValue(id uint32, v mqttp.PropertyToType) ([]ref.PV, error) {
	d, ok := ref.PropDef(id)
	if !ok {
		return nil, fmt.Errorf("property 0x%02x does not exist", id)
	}
	b, eb := v.AsByte()
	u16, e16 := v.AsShort()
	u32, e32 := v.AsInt()
	s, es := v.AsString()
	sp, esp := v.AsStringPair()
	sps, esps := v.AsStringPairs()
	bin, ebin := v.AsBinary()
	var u32s []uint32
	e32s := errors.New("no AsInts")
	if x, ok := v.(interface{ AsInts() ([]uint32, error) }); ok {
		u32s, e32s = x.AsInts()
	}
	own := map[ref.PT][]int{ref.TByte: {0}, ref.TU16: {1}, ref.TU32: {2}, ref.TVar: {2, 7}, ref.TStr: {3}, ref.TPair: {4, 5}, ref.TBin: {6}}
	kind := map[ref.PT]mqttp.PropertyType{ref.TByte: mqttp.PropertyTypeByte, ref.TU16: mqttp.PropertyTypeShort, ref.TU32: mqttp.PropertyTypeInt,
		ref.TVar: mqttp.PropertyTypeVarInt, ref.TStr: mqttp.PropertyTypeString, ref.TPair: mqttp.PropertyTypeStringPair, ref.TBin: mqttp.PropertyTypeBinary}
	if v.Type() != kind[d.T] {
		return nil, fmt.Errorf("property 0x%02x reports type %d, want %d", id, v.Type(), kind[d.T])
	}
	names := []string{"AsByte", "AsShort", "AsInt", "AsString", "AsStringPair", "AsStringPairs", "AsBinary", "AsInts"}
	errs := []error{eb, e16, e32, es, esp, esps, ebin, e32s}
	mine := map[int]bool{}
	for _, i := range own[d.T] {
		mine[i] = true
	}
	delivered := false
	for i, e := range errs {
		if e == nil && !mine[i] {
			return nil, fmt.Errorf("property 0x%02x delivered by %s, which is not its type", id, names[i])
		}
		if e == nil {
			delivered = true
		}
	}
	if !delivered {
		return nil, fmt.Errorf("property 0x%02x delivered by no accessor of its type", id)
	}
	switch d.T {
	case ref.TByte:
		return []ref.PV{{ID: id, N: uint32(b)}}, nil
	case ref.TU16:
		return []ref.PV{{ID: id, N: uint32(u16)}}, nil
	case ref.TU32:
		return []ref.PV{{ID: id, N: u32}}, nil
	case ref.TVar:
		if e32s == nil {
			var r []ref.PV
			for _, n := range u32s {
				r = append(r, ref.PV{ID: id, N: n})
			}
			if e32 == nil {
				return nil, fmt.Errorf("property 0x%02x is delivered as one integer (%d) and as a list (%v)", id, u32, u32s)
			}
			return r, nil
		}
		return []ref.PV{{ID: id, N: u32}}, nil
	case ref.TStr:
		return []ref.PV{{ID: id, S: []byte(s)}}, nil
	case ref.TBin:
		return []ref.PV{{ID: id, S: append([]byte(nil), bin...)}}, nil
	case ref.TPair:
		if esp == nil {
			if esps == nil {
				return nil, fmt.Errorf("property 0x%02x is delivered as one pair (%v) and as a list (%v)", id, sp, sps)
			}
			return []ref.PV{{ID: id, S: []byte(sp.K), V: []byte(sp.V)}}, nil
		}
		var r []ref.PV
		for _, x := range sps {
			r = append(r, ref.PV{ID: id, S: []byte(x.K), V: []byte(x.V)})
		}
		return r, nil
	}
	return nil, nil
}

// ReadProps reads the whole property set by iteration and cross-checks it with lookups.
func ReadProps(m mqttp.IFace) ([]ref.PV, error) {
	var out []ref.PV
	var err error
	seen := map[uint32]bool{}
	type hold struct {
		id   uint32
		v, g mqttp.PropertyToType
		l    []ref.PV
	}
	var held []hold
	e := m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
		if err != nil {
			return
		}
		i := uint32(id)
		if seen[i] {
			err = fmt.Errorf("iteration visits property 0x%02x twice", i)
			return
		}
		seen[i] = true
		var l, l2 []ref.PV
		if l, err = PropValue(i, v); err != nil {
			return
		}
		g := m.PropertyGet(id)
		if g == nil {
			err = fmt.Errorf("iteration shows property 0x%02x, lookup does not", i)
			return
		}
		if l2, err = PropValue(i, g); err != nil {
			return
		}
		if d := ref.DiffProps(l, l2); d != "" {
			err = fmt.Errorf("iteration and lookup disagree: %s", d)
			return
		}
		out = append(out, l...)
		held = append(held, hold{i, v, g, l})
	})
	// values handed out keep showing what they showed, whatever was read after them
	for _, h := range held {
		for k, v := range []mqttp.PropertyToType{h.v, h.g} {
			l, e2 := PropValue(h.id, v)
			if e2 == nil {
				if d := ref.DiffProps(h.l, l); d != "" {
					e2 = errors.New(d)
				}
			}
			if e2 != nil && err == nil {
				err = fmt.Errorf("the value of property 0x%02x obtained from %s changed when others were read: %v", h.id, []string{"iteration", "lookup"}[k], e2)
			}
		}
	}
	if m.Version() != mqttp.ProtocolV50 {
		if e == nil || err != nil || len(out) != 0 {
			return nil, fmt.Errorf("iterating properties of a %d packet: error %v, %d properties", m.Version(), e, len(out))
		}
	} else if e != nil {
		return nil, fmt.Errorf("PropertyForEach: %v", e)
	}
	if err != nil {
		return nil, err
	}
	for _, d := range ref.Props {
		if !seen[d.ID] && m.PropertyGet(mqttp.PropertyID(d.ID)) != nil {
			return nil, fmt.Errorf("lookup shows property 0x%02x, iteration does not", d.ID)
		}
	}
	return out, nil
}

func cp(b []byte) []byte { return append([]byte(nil), b...) }

// Extract reads everything observable of a packet through the public accessors.
func Extract(m mqttp.IFace) (p *ref.Packet, err error) {
	if e := Safe("accessors", func() { p, err = extract(m) }); e != nil {
		return nil, e
	}
	return p, err
}

func extract(m mqttp.IFace) (*ref.Packet, error) {
	p := &ref.Packet{Ver: byte(m.Version()), Type: int(m.Type())}
	want := func(t int) error {
		if p.Type != t {
			return fmt.Errorf("%T reports packet type %d", m, p.Type)
		}
		return nil
	}
	var err error
	hasID := false
	switch x := m.(type) {
	case *mqttp.Connect:
		if err = want(ref.CONNECT); err != nil {
			return nil, err
		}
		p.Clean, p.KeepAlive, p.ClientID = x.IsClean(), x.KeepAlive(), cp(x.ClientID())
		u, pw := x.Credentials()
		p.User, p.Pass = cp(u), cp(pw)
		p.HasUser, p.HasPass = len(u) > 0, len(pw) > 0
		if w := x.Will(); w != nil {
			p.Will = &ref.Will{Topic: []byte(w.Topic()), Payload: cp(w.Payload()), QoS: byte(w.QoS()), Retain: w.Retain()}
			if w.Version() == mqttp.ProtocolV50 {
				if p.Will.Props, err = ReadProps(w); err != nil {
					return nil, fmt.Errorf("will: %v", err)
				}
			}
		}
	case *mqttp.ConnAck:
		err = want(ref.CONNACK)
		p.Session, p.Code = x.SessionPresent(), byte(x.ReturnCode())
	case *mqttp.Publish:
		err = want(ref.PUBLISH)
		p.Dup, p.QoS, p.Retain = x.Dup(), byte(x.QoS()), x.Retain()
		p.Topic, p.Payload = []byte(x.Topic()), cp(x.Payload())
		if fl := x.Flags(); fl != p.Flags() {
			return nil, fmt.Errorf("PUBLISH Flags() 0x%x but DUP %v QoS %d RETAIN %v", fl, p.Dup, p.QoS, p.Retain)
		}
		hasID = p.QoS > 0
	case *mqttp.Ack:
		if p.Type < ref.PUBACK || p.Type > ref.PUBCOMP {
			err = fmt.Errorf("%T reports packet type %d", m, p.Type)
		}
		p.Code, hasID = byte(x.Reason()), true
	case *mqttp.Subscribe:
		err = want(ref.SUBSCRIBE)
		hasID = true
		if e := x.ForEachTopic(func(t *mqttp.Topic) error {
			p.Subs = append(p.Subs, ref.Sub{Topic: []byte(t.Full()), Ops: byte(t.Ops())})
			return CheckTopic(t, []byte(t.Full()), byte(t.Ops()))
		}); e != nil {
			return nil, e
		}
	case *mqttp.UnSubscribe:
		err = want(ref.UNSUBSCRIBE)
		hasID = true
		if e := x.ForEachTopic(func(t *mqttp.Topic) error {
			p.Subs = append(p.Subs, ref.Sub{Topic: []byte(t.Full()), Ops: byte(t.Ops())})
			return CheckTopic(t, []byte(t.Full()), byte(t.Ops()))
		}); e != nil {
			return nil, e
		}
	case *mqttp.SubAck:
		err = want(ref.SUBACK)
		hasID = true
		for _, c := range x.ReturnCodes() {
			p.Codes = append(p.Codes, byte(c))
		}
	case *mqttp.UnSubAck:
		err = want(ref.UNSUBACK)
		hasID = true
		for _, c := range x.ReturnCodes() {
			p.Codes = append(p.Codes, byte(c))
		}
	case *mqttp.Disconnect:
		err = want(ref.DISCONNECT)
		p.Code = byte(x.ReasonCode())
	case *mqttp.Auth:
		err = want(ref.AUTH)
		p.Code = byte(x.ReasonCode())
	case *mqttp.PingReq:
		err = want(ref.PINGREQ)
	case *mqttp.PingResp:
		err = want(ref.PINGRESP)
	default:
		return nil, fmt.Errorf("unexpected packet %T", m)
	}
	if err != nil {
		return nil, err
	}
	if f, ok := m.(interface{ Flags() byte }); ok && p.Type != ref.PUBLISH && f.Flags() != ref.FixedFlags(p.Type) {
		return nil, fmt.Errorf("%s Flags() is 0x%x", ref.TypeNames[p.Type], f.Flags())
	}
	if hasID {
		if id, e := m.ID(); e == nil {
			p.ID = uint16(id)
		}
	}
	p.Props, err = ReadProps(m)
	return p, err
}

// CheckTopic compares every view of a topic entry with the reference split.
func CheckTopic(t *mqttp.Topic, full []byte, ops byte) error {
	fp, ok := ref.SplitFilter(full)
	if !ok {
		return fmt.Errorf("topic entry %q is not a valid filter", short(string(full)))
	}
	tf, to := t.Topic()
	for _, c := range []struct{ n, g, w string }{{"Full", t.Full(), string(full)}, {"Filter", t.Filter(), fp.Filter}, {"Topic", tf, fp.Filter},
		{"DollarPrefix", t.DollarPrefix(), fp.Dollar}, {"ShareName", t.ShareName(), fp.Share}} {
		if c.g != c.w {
			return fmt.Errorf("%s() of %q is %q, want %q", c.n, short(string(full)), short(c.g), short(c.w))
		}
	}
	if byte(t.Ops()) != ops || byte(to) != ops {
		return fmt.Errorf("options of %q are 0x%02x/0x%02x, want 0x%02x", short(string(full)), t.Ops(), to, ops)
	}
	return CheckOps(mqttp.SubscriptionOptions(ops), ops)
}

// CheckOps compares the option views with the option byte.
func CheckOps(o mqttp.SubscriptionOptions, b byte) error {
	if o.Raw() != b || byte(o.QoS()) != b&3 || o.NL() != (b&4 != 0) || o.RAP() != (b&8 != 0) || byte(o.RetainHandling()) != b>>4&3 {
		return fmt.Errorf("options 0x%02x read as raw 0x%02x QoS %d NL %v RAP %v RH %d", b, o.Raw(), o.QoS(), o.NL(), o.RAP(), o.RetainHandling())
	}
	return nil
}

// Expect adapts a wire-level packet to what the accessors can show: presence of
// empty credentials is not observable.
func Expect(p *ref.Packet) *ref.Packet {
	q := *p
	q.HasUser, q.HasPass = len(p.User) > 0, len(p.Pass) > 0
	return &q
}

// Dec is the outcome of a decode.
type Dec struct {
	M   mqttp.IFace
	N   int
	Err error
}

// Decode calls the library, turning a panic into an error value of its own.
func Decode(v byte, b []byte) (d Dec, panicked error) {
	panicked = Safe("Decode", func() { d.M, d.N, d.Err = mqttp.Decode(mqttp.ProtocolVersion(v), b) })
	return
}

// EncodeBoth sizes and encodes a packet through both entry points, checking
// that they agree, and returns the bytes of the method entry point.
func EncodeBoth(m mqttp.IFace) (out []byte, err error) {
	e := Safe("Encode", func() {
		var sz int
		if sz, err = m.Size(); err != nil {
			err = fmt.Errorf("Size: %v", err)
			return
		}
		buf := make([]byte, sz)
		var n int
		if n, err = m.Encode(buf); err != nil {
			err = fmt.Errorf("Encode: %v", err)
			return
		}
		if n != sz {
			err = fmt.Errorf("Encode wrote %d bytes, Size said %d", n, sz)
			return
		}
		var b2 []byte
		if b2, err = mqttp.Encode(m); err != nil {
			err = fmt.Errorf("mqttp.Encode: %v", err)
			return
		}
		if len(b2) != sz {
			err = fmt.Errorf("mqttp.Encode returned %d bytes, Size said %d", len(b2), sz)
			return
		}
		if !bytes.Equal(b2, buf) {
			// the order of properties may differ; the content may not
			p1, v1, w1 := ref.Decode(byte(m.Version()), buf)
			p2, v2, w2 := ref.Decode(byte(m.Version()), b2)
			if v1 != v2 {
				err = fmt.Errorf("the two encode entry points disagree: %v %s / %v %s", v1, w1, v2, w2)
				return
			}
			if p1 != nil {
				if d := ref.Diff(p1, p2); d != "" {
					err = fmt.Errorf("the two encode entry points disagree: %s", d)
					return
				}
			}
		}
		out = buf
	})
	if e != nil {
		return nil, e
	}
	return out, err
}
