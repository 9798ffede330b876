package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C16 -------------------------------------------------------------------

type cloneOp struct {
	OnClone bool     `json:"on_clone"`
	K       string   `json:"k"`
	S       []byte   `json:"s,omitempty"`
	N       uint64   `json:"n,omitempty"`
	B       bool     `json:"b,omitempty"`
	Props   []ref.PV `json:"props,omitempty"`
}

type cloneCase struct {
	P       *ref.Packet `json:"p"`
	Decoded bool        `json:"decoded"`
	Will    bool        `json:"will,omitempty"` // the source is the will of a decoded CONNECT
	Delay   uint32      `json:"delay,omitempty"`
	Dup     bool        `json:"dup"` // set DUP on the source whatever its QoS
	PubID   uint64      `json:"pubid"`
	Expire  int64       `json:"expire"`        // seconds from now, 0: none
	Dst     []byte      `json:"dst"`           // chain of session versions
	Fan     []byte      `json:"fan,omitempty"` // versions of further subscribers served from the same source
	Later   []cloneOp   `json:"later"`
}

var forwarded = map[uint32]bool{0x01: true, 0x03: true, 0x08: true, 0x09: true, 0x26: true}

func genClone(t *rapid.T) *cloneCase {
	c := &cloneCase{P: gen.Packet(t, gen.Opt{Type: ref.PUBLISH}), Decoded: gen.Flip(t, "decoded"), Dup: gen.Flip(t, "dup")}
	if len(c.P.Topic) == 0 && !gen.OneIn(t, 3, "unresolved") {
		c.P.Topic = []byte("t/u")
	}
	if len(c.P.Topic) > 0 && len(c.P.Payload) < 1<<16 && gen.OneIn(t, 4, "will") {
		c.Will, c.P.Dup, c.P.ID = true, false, 0
		var keep []ref.PV
		for _, pv := range c.P.Props {
			if forwarded[pv.ID] || pv.ID == 0x02 {
				keep = append(keep, pv)
			}
		}
		c.P.Props = keep
		if c.P.Ver == 5 && gen.Flip(t, "delayed") {
			c.Delay = uint32(gen.Int(t, 1, 1<<20, "delay"))
		}
	}
	if gen.Flip(t, "expires") {
		c.Expire = int64(gen.Pick(t, []int{-100000, -5, 3600, 100000, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33}, "expire"))
	}
	if gen.Flip(t, "pid") {
		c.PubID = rapid.Uint64().Draw(t, "pubid")
	}
	for i := gen.Int(t, 1, 3, "chain"); i > 0; i-- {
		c.Dst = append(c.Dst, byte(gen.Pick(t, gen.Versions, "dst")))
	}
	if gen.Flip(t, "fans") {
		n := gen.Int(t, 1, 4, "fan")
		if gen.OneIn(t, 4, "wide") {
			n = gen.Int(t, 5, 40, "fan")
			if gen.OneIn(t, 4, "wider") {
				n = gen.Int(t, 41, 300, "fan")
			}
		}
		for ; n > 0; n-- {
			c.Fan = append(c.Fan, byte(gen.Pick(t, gen.Versions, "to")))
		}
	}
	for i := gen.Int(t, 0, 5, "later"); i > 0; i-- {
		op := cloneOp{OnClone: gen.Flip(t, "who"), K: gen.Pick(t, []string{"set", "topic", "payload", "qos", "dup", "retain", "id", "pubid", "props", "props", "discard", "expire", "version"}, "k")}
		switch op.K {
		case "set", "topic":
			op.S, op.N, op.B = gen.TopicName(t), uint64(gen.Int(t, 0, 2, "q")), gen.Flip(t, "b")
		case "payload":
			op.S = gen.Bytes(t, 200, "pl")
		case "qos":
			op.N = uint64(gen.Int(t, 0, 2, "q"))
		case "dup", "retain":
			op.B = gen.Flip(t, "b")
		case "id":
			op.N = uint64(gen.PacketID(t))
		case "pubid":
			op.N = rapid.Uint64().Draw(t, "pid")
		case "props":
			op.Props = gen.Props(t, ref.PUBLISH, false)
		case "expire":
			op.N = uint64(gen.Int(t, 0, 100000, "secs"))
		case "version":
			op.N = uint64(gen.Int(t, 3, 5, "v"))
		}
		c.Later = append(c.Later, op)
	}
	return c
}

// pubState is everything one PUBLISH shows.
type pubState struct {
	p        *ref.Packet
	id       uint16
	hasID    bool
	pubID    uint64
	deadline time.Time
	wire     []byte
	wireErr  bool
}

func stateOf(m *mqttp.Publish) (*pubState, error) {
	p, err := sut.Extract(m)
	if err != nil {
		return nil, err
	}
	s := &pubState{p: p, pubID: uint64(m.PublishID())}
	id, e := m.ID()
	s.id, s.hasID = uint16(id), e == nil
	s.deadline, _, _ = m.Expired()
	b, e := mqttp.Encode(m)
	s.wire, s.wireErr = append([]byte{}, b...), e != nil
	return s, nil
}

func (s *pubState) diff(n *pubState) error {
	if d := ref.Diff(s.p, n.p); d != "" {
		return errors.New(d)
	}
	if s.id != n.id || s.hasID != n.hasID {
		return errf("packet identifier %d/%v became %d/%v", s.id, s.hasID, n.id, n.hasID)
	}
	if s.pubID != n.pubID {
		return errf("publish id %d became %d", s.pubID, n.pubID)
	}
	if !s.deadline.Equal(n.deadline) {
		return errf("deadline %v became %v", s.deadline, n.deadline)
	}
	if s.wireErr != n.wireErr {
		return errf("encodable %v became %v", !s.wireErr, !n.wireErr)
	}
	if !s.wireErr && !bytes.Equal(s.wire, n.wire) {
		a, va, _ := ref.Decode(s.p.Ver, s.wire)
		b, vb, _ := ref.Decode(n.p.Ver, n.wire)
		if va != vb {
			return errf("wire image changed from %s to %s", hx(s.wire), hx(n.wire))
		}
		if a != nil {
			if d := ref.Diff(a, b); d != "" {
				return errf("wire image changed: %s", d)
			}
		}
	}
	return nil
}

func checkClone(c *cloneCase, x *prop.Ctx) error {
	var m *mqttp.Publish
	if c.Will {
		w := &ref.Will{Topic: c.P.Topic, Payload: c.P.Payload, QoS: c.P.QoS, Retain: c.P.Retain, Props: append([]ref.PV{}, c.P.Props...)}
		if c.Delay > 0 {
			w.Props = append(w.Props, ref.PV{ID: 0x18, N: c.Delay})
		}
		d, err := decodeOK(c.P.Ver, (&ref.Packet{Type: ref.CONNECT, Ver: c.P.Ver, Clean: true, ClientID: []byte("c"), Will: w}).Encode(ref.Form{}))
		if err != nil {
			return err
		}
		if m = d.(*mqttp.Connect).Will(); m == nil {
			return errf("the decoded CONNECT has no will")
		}
		x.Class("from a will")
	} else if c.Decoded {
		d, err := decodeOK(c.P.Ver, c.P.Encode(ref.Form{}))
		if err != nil {
			return err
		}
		m = d.(*mqttp.Publish)
	} else {
		d, err := sut.Build(c.P)
		if err != nil {
			return errf("building: %v", err)
		}
		m = d.(*mqttp.Publish)
	}
	if c.Dup {
		m.SetDup(true)
	}
	m.SetPublishID(uintptr(c.PubID))
	now := time.Now()
	deadline := time.Time{}
	if c.Expire != 0 {
		deadline = now.Add(time.Duration(c.Expire) * time.Second)
		m.SetExpireAt(deadline)
	}
	before, err := stateOf(m)
	if err != nil {
		return err
	}
	want := c.P.Clone()
	want.Dup, want.ID = false, 0
	first := want.Clone()
	src := m
	var cl *mqttp.Publish
	for i, v := range c.Dst {
		x.Class(className(c.P) + " -> v" + string('0'+rune(v)))
		if cl, err = src.Clone(verOf(int(v))); err != nil {
			if len(c.P.Topic) == 0 {
				x.Class("an unresolved alias is not cloned")
				return nil
			}
			return errf("clone %d for v%d: %v", i, v, err)
		}
		if cl == nil {
			return errf("clone %d for v%d: neither packet nor error", i, v)
		}
		want = forward(want, v)
		if e := isClone(cl, want, deadline, c); e != nil {
			return e
		}
		after, e := stateOf(m)
		if e != nil {
			return e
		}
		if e = before.diff(after); e != nil {
			return errf("cloning changed the original: %v", e)
		}
		src = cl
	}
	if len(c.P.Props) > 0 || c.Dup || len(c.Dst) > 1 || c.Expire != 0 || len(c.Later) > 0 {
		x.NonTrivial()
	}
	if want.QoS > 0 {
		cl.SetPacketID(4711)
		want.ID = 4711
	}
	if len(c.P.Topic) > 0 { // the alias is not forwarded: without a topic there is nothing to send
		b, err := sut.EncodeBoth(cl)
		if err != nil {
			return errf("encoding the clone: %v", err)
		}
		q, v, why := ref.Decode(want.Ver, b)
		if v == ref.Invalid {
			return errf("the clone encodes to a malformed packet (%s): %s", why, hx(b))
		}
		if d := ref.Diff(want, q); d != "" {
			return errf("the clone's wire image: %s", d)
		}
		d, err := decodeOK(want.Ver, b)
		if err != nil {
			return errf("the session cannot decode the clone: %v", err)
		}
		if q, err = sut.Extract(d); err != nil {
			return err
		}
		if df := ref.Diff(sut.Expect(want), q); df != "" {
			return errf("the session decodes another message: %s", df)
		}
	} else {
		x.Class("without topic")
	}
	after, err := stateOf(m)
	if err != nil {
		return err
	}
	if err = before.diff(after); err != nil {
		return errf("numbering the clone changed the original: %v", err)
	}
	// further subscribers of the same message
	family := []*mqttp.Publish{m, cl}
	seen := map[*mqttp.Publish]bool{m: true, cl: true}
	if len(c.Fan) > 0 {
		x.Class("several subscribers")
	}
	for i, v := range c.Fan {
		s, err := m.Clone(verOf(int(v)))
		if err != nil || s == nil {
			return errf("clone %d of the same message, for v%d: %v, %v", i+2, v, s != nil, err)
		}
		if seen[s] {
			return errf("clone %d of the same message, for v%d, is a packet handed out before", i+2, v)
		}
		seen[s] = true
		w := forward(first, v)
		if err = isClone(s, w, deadline, c); err != nil {
			return errf("clone %d of the same message: %v", i+2, err)
		}
		if i < 4 || i == len(c.Fan)-1 {
			family = append(family, s)
		}
		if w.QoS > 0 {
			s.SetPacketID(mqttp.IDType(i + 1))
		}
	}
	if after, err = stateOf(m); err != nil {
		return err
	}
	if err = before.diff(after); err != nil {
		return errf("%d more clones changed the original: %v", len(c.Fan), err)
	}
	if want.QoS > 0 {
		if id, err := cl.ID(); err != nil || id != 4711 {
			return errf("after %d more clones the first one has packet identifier %d, %v", len(c.Fan), id, err)
		}
	}
	// independence
	for i, op := range c.Later {
		target := m
		if op.OnClone {
			target = family[1+i%(len(family)-1)]
		}
		var was []*pubState
		for _, other := range family {
			b, err := stateOf(other)
			if err != nil {
				return err
			}
			was = append(was, b)
		}
		switch op.K {
		case "set":
			err = target.Set(string(op.S), []byte("later"), mqttp.QosType(op.N), op.B, !op.B)
		case "topic":
			err = target.SetTopic(string(op.S))
		case "payload":
			target.SetPayload(append([]byte{}, op.S...))
		case "qos":
			err = target.SetQoS(mqttp.QosType(op.N))
		case "dup":
			target.SetDup(op.B)
		case "retain":
			target.SetRetain(op.B)
		case "id":
			target.SetPacketID(mqttp.IDType(op.N))
		case "pubid":
			target.SetPublishID(uintptr(op.N))
		case "props":
			if target.Version() == mqttp.ProtocolV50 {
				if err = sut.SetProps(target, op.Props); err == nil {
					// a single value for a repeatable property is stored next to the forwarded ones
					_ = target.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "k", V: "later"})
				}
			}
		case "discard":
			target.PropertiesDiscard()
		case "expire":
			target.SetExpireAt(now.Add(time.Duration(op.N) * time.Second))
		case "version":
			target.SetVersion(verOf(int(op.N)))
		}
		if err != nil {
			return errf("later call %d (%s): %v", i, op.K, err)
		}
		for j, other := range family {
			if other == target {
				continue
			}
			a, err := stateOf(other)
			if err != nil {
				return err
			}
			if err = was[j].diff(a); err != nil {
				return errf("%s on one packet changed another (on clone: %v, other: %d): %v", op.K, op.OnClone, j, err)
			}
		}
	}
	return nil
}

// forward is the message p as a session of version v gets it.
func forward(p *ref.Packet, v byte) *ref.Packet {
	w := p.Clone()
	w.Props = nil
	if p.Ver == 5 && v == 5 {
		for _, pv := range p.Props {
			if forwarded[pv.ID] {
				w.Props = append(w.Props, pv)
			}
		}
	}
	w.Ver = v
	return w
}

// isClone compares one clone with the message it must carry.
func isClone(cl *mqttp.Publish, want *ref.Packet, deadline time.Time, c *cloneCase) error {
	if cl.Version() != verOf(int(want.Ver)) {
		return errf("the clone for v%d has version %d", want.Ver, cl.Version())
	}
	q, e := sut.Extract(cl)
	if e != nil {
		return errf("clone: %v", e)
	}
	q.ID = 0
	if d := ref.Diff(want, q); d != "" {
		return errf("clone of v%d for v%d: %s", c.P.Ver, want.Ver, d)
	}
	dl, secs, expired := cl.Expired()
	if !dl.Equal(deadline) {
		return errf("the clone's deadline is %v, the original's %v", dl, deadline)
	}
	if expired != (c.Expire < 0) || expired && secs != 0 {
		return errf("deadline %d s from now: the clone is expired %v, %d s left", c.Expire, expired, secs)
	}
	return nil
}

// ---- C17 -------------------------------------------------------------------

type verOp struct {
	K     string   `json:"k"` // version, set, discard, code, encode, look
	V     byte     `json:"v,omitempty"`
	Props []ref.PV `json:"props,omitempty"`
	Code  byte     `json:"code,omitempty"`
}

type verCase struct {
	P       *ref.Packet `json:"p"`
	Decoded bool        `json:"decoded"`
	Ops     []verOp     `json:"ops"`
}

func genVer(t *rapid.T) *verCase {
	ver := gen.Int(t, 3, 5, "ver")
	typ := gen.Pick(t, typesShared, "type")
	c := &verCase{Decoded: gen.Flip(t, "decoded")}
	p := gen.Packet(t, gen.Opt{Ver: ver, Type: typ, Build: true, NoPad: !gen.OneIn(t, 5, "pad")})
	// mostly what the versions share; content only 5.0 has must survive a stay in 3.x
	only5 := ver == 5 && gen.OneIn(t, 3, "only5")
	if typ == ref.PUBLISH && len(p.Topic) == 0 {
		p.Topic = []byte("a") // operations may drop the alias it needs
	}
	if !only5 {
		switch typ {
		case ref.CONNECT:
			if len(p.ClientID) == 0 {
				p.ClientID = []byte("c")
			}
			if p.HasPass && !p.HasUser {
				p.HasUser, p.User = true, []byte("u")
			}
		case ref.CONNACK:
			p.Code = byte(gen.Int(t, 0, 5, "cc"))
		case ref.SUBSCRIBE:
			for i := range p.Subs {
				p.Subs[i].Ops &= 3
			}
		case ref.SUBACK:
			for i := range p.Codes {
				p.Codes[i] = []byte{0, 1, 2, 0x80}[p.Codes[i]&3]
			}
		}
	}
	c.P = p
	for i := gen.Int(t, 1, 10, "n"); i > 0; i-- {
		op := verOp{K: gen.Pick(t, []string{"version", "version", "version", "set", "set", "discard", "code", "look"}, "k")}
		switch op.K {
		case "version":
			op.V = byte(gen.Int(t, 3, 5, "v"))
		case "set":
			op.Props = gen.Props(t, typ, false)
		case "code":
			switch typ {
			case ref.CONNACK:
				op.Code = byte(gen.Int(t, 0, 5, "cc2"))
				if only5 && op.Code != 0 {
					op.Code = gen.Code(t, 5, typ)
				}
			case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.UNSUBACK, ref.DISCONNECT:
				op.Code = gen.Code(t, 5, typ)
			default:
				op.K, op.V = "version", byte(gen.Int(t, 3, 5, "v"))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

var typesShared = []int{ref.CONNECT, ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.UNSUBACK, ref.PINGREQ, ref.PINGRESP, ref.DISCONNECT}

// determined says whether MQTT determines the 3.x image of a packet: whether
// all it holds, the parts left out of 3.x packets aside, exists in 3.x.
func determined(p *ref.Packet) bool {
	switch p.Type {
	case ref.CONNECT:
		return (len(p.ClientID) > 0 || p.Clean) && (p.HasUser || !p.HasPass)
	case ref.CONNACK:
		return p.Code <= 5
	case ref.PUBLISH:
		return len(p.Topic) > 0
	case ref.SUBSCRIBE:
		for _, s := range p.Subs {
			if s.Ops > 2 {
				return false
			}
		}
	case ref.SUBACK:
		for _, c := range p.Codes {
			if c > 2 && c != 0x80 {
				return false
			}
		}
	}
	return true
}

// project is the model packet as a version shows it.
func project(p *ref.Packet, v byte) *ref.Packet {
	q := p.Clone()
	q.Ver = v
	if v == 5 {
		return q
	}
	q.Props = nil
	if q.Will != nil {
		q.Will.Props = nil
	}
	switch q.Type {
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT:
		q.Code = 0
	case ref.UNSUBACK:
		q.Codes = nil
	}
	return q
}

func checkVer(c *verCase, x *prop.Ctx) error {
	return beside(c.P.Ver, c.P.Type, func() error { return checkVerAlone(c, x) })
}

func checkVerAlone(c *verCase, x *prop.Ctx) error {
	x.Class(className(c.P))
	var m mqttp.IFace
	var err error
	if c.Decoded {
		m, err = decodeOK(c.P.Ver, c.P.Encode(ref.Form{}))
	} else {
		m, err = sut.Build(c.P)
	}
	if err != nil {
		return err
	}
	model, cur := c.P.Clone(), c.P.Ver
	look := func(step int) error {
		if byte(m.Version()) != cur {
			return errf("step %d: Version() is %d, want %d", step, m.Version(), cur)
		}
		if cur != 5 && !determined(model) {
			// what it encodes to is not said, but that is all
			_, _ = sut.EncodeBoth(m)
			x.Class("5.0 only content in 3.x")
			return nil
		}
		want := project(model, cur)
		b, e := sut.EncodeBoth(m)
		if e != nil {
			return errf("step %d, v%d: %v", step, cur, e)
		}
		q, v, why := ref.Decode(cur, b)
		if v == ref.Invalid {
			return errf("step %d, v%d: malformed packet (%s): %s", step, cur, why, hx(b))
		}
		if d := ref.Diff(want, q); d != "" {
			return errf("step %d, v%d: wire image: %s", step, cur, d)
		}
		got, e := sut.ReadProps(m)
		if e != nil {
			return errf("step %d: %v", step, e)
		}
		if cur == 5 {
			if d := ref.DiffProps(model.Props, got); d != "" {
				return errf("step %d: %s", step, d)
			}
		}
		return nil
	}
	if err = look(0); err != nil {
		return err
	}
	switches, inter := 0, 0
	for i, op := range c.Ops {
		step := i + 1
		switch op.K {
		case "version":
			if op.V != cur && (op.V == 5 || cur == 5) {
				switches++
			}
			m.SetVersion(verOf(int(op.V)))
			cur = op.V
		case "set":
			for _, g := range sut.Group(op.Props) {
				id := mqttp.PropertyID(g[0].ID)
				e := m.PropertySet(id, sut.Value(g))
				if cur != 5 {
					if e == nil {
						return errf("step %d: PropertySet succeeds on a %s of version %d", step, ref.TypeNames[c.P.Type], cur)
					}
					continue
				}
				inter++
				d, _ := ref.PropDef(g[0].ID)
				if _, have := findPV(model.Props, g[0].ID); have && d.Rep(c.P.Type) {
					// whether a second call replaces or extends is decided by the bag check; follow it
					if e != nil {
						return errf("step %d: PropertySet(0x%02x): %v", step, id, e)
					}
					all, e := sut.ReadProps(m)
					if e != nil {
						return e
					}
					model.Props = all
					continue
				}
				if e != nil {
					return errf("step %d: PropertySet(0x%02x): %v", step, id, e)
				}
				var keep []ref.PV
				for _, pv := range model.Props {
					if pv.ID != g[0].ID {
						keep = append(keep, pv)
					}
				}
				model.Props = append(keep, g...)
			}
		case "discard":
			m.PropertiesDiscard()
			model.Props = nil
			inter++
		case "code":
			switch p := m.(type) {
			case *mqttp.Ack:
				p.SetReason(mqttp.ReasonCode(op.Code))
				if cur == 5 {
					model.Code = op.Code
				} else {
					// a 3.x acknowledgement has no code: whether it is remembered is not said
					p.SetVersion(mqttp.ProtocolV50)
					if got := byte(p.Reason()); got != model.Code && got != op.Code {
						return errf("step %d: SetReason(0x%02x) in version %d turns reason 0x%02x into 0x%02x", step, op.Code, cur, model.Code, got)
					}
					p.SetReason(mqttp.ReasonCode(op.Code))
					p.SetVersion(verOf(int(cur)))
					model.Code = op.Code
				}
			case *mqttp.Disconnect:
				p.SetReasonCode(mqttp.ReasonCode(op.Code))
				model.Code = op.Code
			case *mqttp.ConnAck:
				if e := p.SetReturnCode(mqttp.ReasonCode(op.Code)); e != nil {
					return errf("step %d: SetReturnCode(0x%02x): %v", step, op.Code, e)
				}
				model.Code = op.Code
			case *mqttp.UnSubAck:
				if cur == 5 {
					if e := p.AddReturnCode(mqttp.ReasonCode(op.Code)); e != nil {
						return errf("step %d: AddReturnCode(0x%02x): %v", step, op.Code, e)
					}
					model.Codes = append(model.Codes, op.Code)
				}
			}
		case "look":
		}
		if err = look(step); err != nil {
			return errf("%v (after %s)", err, op.K)
		}
	}
	if switches > 0 {
		x.NonTrivial()
	}
	if switches > 1 && inter > 0 {
		x.Class("switches back with property operations between")
	}
	return nil
}

// ---- C18 -------------------------------------------------------------------

type expiry struct {
	Off   int64 `json:"off"` // nanoseconds from now
	Form  int   `json:"form"`
	Zero  bool  `json:"zero"`
	Flags byte  `json:"flags"` // of the message meanwhile: DUP, QoS, RETAIN as on the wire
}

type expiryCase struct {
	P     *ref.Packet `json:"p"`
	Steps []expiry    `json:"steps"`
}

func genExpiry(t *rapid.T) *expiryCase {
	c := &expiryCase{P: gen.Packet(t, gen.Opt{Type: ref.PUBLISH, NoPad: true})}
	if len(c.P.Topic) == 0 {
		c.P.Topic = []byte("a")
	}
	if c.P.Ver == 5 && gen.Flip(t, "interval") {
		if _, ok := findPV(c.P.Props, 0x02); !ok {
			c.P.Props = append(c.P.Props, ref.PV{ID: 0x02, N: uint32(gen.Int(t, 0, 2, "iv"))})
		}
	}
	for i := gen.Int(t, 1, 6, "n"); i > 0; i-- {
		s := expiry{Form: gen.Int(t, 0, 3, "form"), Flags: byte(gen.Int(t, 0, 15, "flags"))}
		var secs int64
		switch gen.Int(t, 0, 5, "mag") {
		case 0:
			secs = int64(gen.Int(t, -3, 3, "s"))
		case 1:
			secs = int64(gen.Int(t, 0, 70000, "s"))
		case 2:
			secs = int64(gen.Pick(t, []int{255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 77, 1 << 33}, "s"))
		case 3:
			secs = -int64(gen.Pick(t, []int{1, 2, 60, 3600, 86400, 1 << 31, 1 << 32}, "s"))
		case 4:
			secs = int64(gen.U32(t, "s"))
		case 5:
			s.Zero = true
		}
		frac := int64(gen.Pick(t, []int{0, 1, -1, 1000, -1000, 50_000, -50_000, 1_000_000, 400_000_000, 499_999_999, 500_000_000, 600_000_000, 900_000_000, 999_000_000, 999_900_000, 999_990_000}, "frac"))
		s.Off = secs*1e9 + frac
		c.Steps = append(c.Steps, s)
	}
	return c
}

func floorSecs(d time.Duration) uint32 {
	if d <= 0 {
		return 0
	}
	if d/time.Second >= 1<<32 {
		return 1<<32 - 1
	}
	return uint32(d / time.Second)
}

func checkExpiry(c *expiryCase, x *prop.Ctx) error {
	d, err := decodeOK(c.P.Ver, c.P.Encode(ref.Form{}))
	if err != nil {
		return err
	}
	m := d.(*mqttp.Publish)
	never := func(m *mqttp.Publish, what string) error {
		dl, secs, expired := m.Expired()
		if expired || secs != 0 || !dl.IsZero() {
			return errf("%s: a PUBLISH without a deadline reports %v, %d s, expired %v", what, dl, secs, expired)
		}
		return nil
	}
	if err = never(m, "decoded"); err != nil {
		return err
	}
	if err = never(mqttp.NewPublish(verOf(int(c.P.Ver))), "fresh"); err != nil {
		return err
	}
	for i, s := range c.Steps {
		if q := s.Flags >> 1 & 3; q < 3 {
			m.SetDup(s.Flags&8 != 0)
			m.SetRetain(s.Flags&1 != 0)
			if err = m.SetQoS(mqttp.QosType(q)); err != nil {
				return errf("SetQoS: %v", err)
			}
		}
		if s.Zero {
			m.SetExpireAt(time.Time{})
			if err = never(m, "cleared"); err != nil {
				return err
			}
			x.Class("cleared")
			continue
		}
		base := time.Now()
		dl := base.Add(time.Duration(s.Off))
		switch s.Form {
		case 1:
			dl = dl.Round(0)
		case 2:
			dl = dl.UTC().Round(0)
		case 3:
			dl = dl.In(time.FixedZone("x", 5*3600+1800))
		}
		cl := m
		m.SetExpireAt(dl)
		for round := 0; round < 3; round++ {
			if round == 1 {
				if cl, err = m.Clone(verOf(3 + i%3)); err != nil {
					return errf("Clone: %v", err)
				}
			}
			t0 := time.Now()
			got, secs, expired := cl.Expired()
			t1 := time.Now()
			// a stepped clock invalidates the bracket
			if w := t1.Round(0).Sub(t0.Round(0)) - t1.Sub(t0); w > 100*time.Microsecond || w < -100*time.Microsecond {
				x.Class("clock stepped")
				continue
			}
			const slack = 200 * time.Microsecond // wall clock and monotonic readings may differ
			lo, hi := floorSecs(dl.Sub(t1)-slack), floorSecs(dl.Sub(t0)+slack)
			if secs < lo || secs > hi {
				return errf("deadline in %v: %d whole seconds remain, reported %d (clone: %v)", dl.Sub(t0), hi, secs, round > 0)
			}
			if expired != (secs == 0) {
				return errf("deadline in %v: reported %d s and expired %v (clone: %v)", dl.Sub(t0), secs, expired, round > 0)
			}
			if !got.Equal(dl) {
				return errf("deadline %v reported as %v (clone: %v)", dl, got, round > 0)
			}
			if lo == hi {
				x.NonTrivial()
			}
		}
		switch {
		case s.Off < 0:
			x.Class("past")
		case s.Off < 1e9:
			x.Class("less than a second")
		case s.Off < 4e9:
			x.Class("seconds")
		case s.Off >= 1<<32*1e9:
			x.Class("beyond 2^32 s")
		case s.Off >= 1<<31*1e9:
			x.Class("beyond 2^31 s")
		default:
			x.Class("future")
		}
	}
	return nil
}

// elapse: the answer follows the clock, it is not settled when the deadline is set.
type elapseCase struct {
	P     *ref.Packet `json:"p"`
	Past  int         `json:"past"`  // microseconds the deadline lies beyond the whole second
	Secs  int         `json:"secs"`  // whole seconds
	Clone int         `json:"clone"` // 0 none, 1 before the first reading, 2 after it
	Enc   bool        `json:"enc"`
	Form  int         `json:"form"`
}

func genElapse(t *rapid.T) *elapseCase {
	c := &elapseCase{P: gen.Packet(t, gen.Opt{Type: ref.PUBLISH, NoPad: true}), Past: gen.Int(t, 400, 4000, "past"), Secs: gen.Int(t, 1, 3, "secs"),
		Clone: gen.Int(t, 0, 2, "clone"), Enc: gen.Flip(t, "enc"), Form: gen.Int(t, 0, 2, "form")}
	if len(c.P.Topic) == 0 {
		c.P.Topic = []byte("a")
	}
	return c
}

func checkElapse(c *elapseCase, x *prop.Ctx) error {
	d, err := decodeOK(c.P.Ver, c.P.Encode(ref.Form{}))
	if err != nil {
		return err
	}
	m := d.(*mqttp.Publish)
	dl := time.Now().Add(time.Duration(c.Secs)*time.Second + time.Duration(c.Past)*time.Microsecond)
	switch c.Form {
	case 1:
		dl = dl.Round(0)
	case 2:
		dl = dl.UTC()
	}
	m.SetExpireAt(dl)
	look := func(what string) error {
		t0 := time.Now()
		got, secs, expired := m.Expired()
		t1 := time.Now()
		const slack = 200 * time.Microsecond
		if w := t1.Round(0).Sub(t0.Round(0)) - t1.Sub(t0); w > 100*time.Microsecond || w < -100*time.Microsecond {
			x.Class("clock stepped")
			return nil
		}
		lo, hi := floorSecs(dl.Sub(t1)-slack), floorSecs(dl.Sub(t0)+slack)
		if secs < lo || secs > hi || expired != (secs == 0) || !got.Equal(dl) {
			return errf("%s, deadline in %v: reported %v, %d s, expired %v", what, dl.Sub(t0), got, secs, expired)
		}
		if lo == hi {
			x.Class(what)
		}
		return nil
	}
	if c.Clone == 1 {
		if m, err = m.Clone(m.Version()); err != nil {
			return errf("Clone: %v", err)
		}
	}
	if err = look("before"); err != nil {
		return err
	}
	if c.Clone == 2 {
		if m, err = m.Clone(m.Version()); err != nil {
			return errf("Clone: %v", err)
		}
	}
	if c.Enc {
		if c.P.QoS > 0 {
			m.SetPacketID(7)
		}
		if _, err = sut.EncodeBoth(m); err != nil {
			return err
		}
	}
	time.Sleep(time.Duration(c.Past+500) * time.Microsecond)
	if err = look("a second boundary later"); err != nil {
		return err
	}
	x.NonTrivial()
	m.SetExpireAt(dl.Add(time.Hour))
	dl = dl.Add(time.Hour)
	if err = look("extended"); err != nil {
		return err
	}
	dl = dl.Add(-2 * time.Hour)
	m.SetExpireAt(dl)
	return look("moved to the past")
}

// ---- C19 -------------------------------------------------------------------

type lpCase19 struct {
	N     int    `json:"n"`     // value length
	Head  []byte `json:"head"`  // first bytes of the value
	Room  int    `json:"room"`  // buffer length minus needed length
	Cap   int    `json:"cap"`   // spare capacity behind the buffer
	Extra int    `json:"extra"` // bytes following when read
	Cut   int    `json:"cut"`   // bytes missing when read
	Fill  byte   `json:"fill"`
}

func genLP19(t *rapid.T) *lpCase19 {
	c := &lpCase19{Fill: byte(gen.Int(t, 0, 255, "fill"))}
	switch gen.Int(t, 0, 9, "nk") {
	case 0, 1, 2, 3:
		c.N = gen.Int(t, 0, 12, "n")
	case 4, 5:
		c.N = gen.Pick(t, []int{0, 1, 2, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768}, "n")
	case 6:
		c.N = gen.Int(t, 0, 3000, "n")
	case 7:
		c.N = gen.Pick(t, []int{32767, 32768, 65279, 65280, 65533, 65534, 65535}, "n")
	case 8:
		c.N = gen.Pick(t, []int{65536, 65537, 65538, 65791, 65792, 70000, 131070, 131071, 131072, 131073, 200000}, "n")
	case 9:
		c.N = gen.Int(t, 0, 70000, "n")
	}
	c.Head = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "head")
	switch gen.Int(t, 0, 5, "rk") {
	case 0:
		c.Room = 0
	case 1:
		c.Room = gen.Int(t, 1, 9, "room")
	case 2:
		c.Room = -gen.Int(t, 1, 4, "room")
	case 3:
		c.Room = -c.N - 2 // empty buffer
	case 4:
		c.Room = -gen.Int(t, 0, c.N+2, "room")
	case 5:
		c.Room = -c.N + gen.Int(t, -2, 1, "room")
	}
	if gen.Flip(t, "spare") {
		c.Cap = gen.Pick(t, []int{1, 2, 3, 16, 70000}, "cap")
	}
	c.Extra = gen.Pick(t, []int{0, 0, 1, 2, 5, 100}, "extra")
	switch gen.Int(t, 0, 3, "ck") {
	case 1:
		c.Cut = 1
	case 2:
		c.Cut = gen.Int(t, 0, c.N+2, "cut")
	case 3:
		c.Cut = c.N + gen.Int(t, 0, 2, "cut")
	}
	return c
}

func checkLP19(c *lpCase19, x *prop.Ctx) error {
	v := gen.PadBytes(c.N, int(c.Fill))
	copy(v, c.Head)
	need := 2 + c.N
	ln := need + c.Room
	if ln < 0 {
		ln = 0
	}
	full := bytes.Repeat([]byte{c.Fill}, ln+c.Cap)
	buf := full[:ln]
	orig := append([]byte{}, v...)
	n, err := mqttp.WriteLPBytes(buf, v)
	if !bytes.Equal(v, orig) {
		return errf("writing changed the value")
	}
	untouched := func(from int) error {
		for i := from; i < len(full); i++ {
			if full[i] != c.Fill {
				return errf("WriteLPBytes of %d bytes into %d (capacity %d) changed byte %d", c.N, ln, len(full), i)
			}
		}
		return nil
	}
	x.NonTrivial()
	switch {
	case c.N > 65535:
		x.Class("write: over the limit")
		if err == nil {
			return errf("WriteLPBytes of %d bytes succeeds", c.N)
		}
		if err != mqttp.ErrInvalidLPStringSize && !(ln < need && err == mqttp.ErrInsufficientBufferSize) {
			return errf("WriteLPBytes of %d bytes: %v", c.N, err)
		}
		if err := untouched(0); err != nil {
			return err
		}
	case ln < need:
		x.Class("write: buffer too small")
		if err != mqttp.ErrInsufficientBufferSize {
			return errf("WriteLPBytes of %d bytes into %d: %d, %v", c.N, ln, n, err)
		}
		if err := untouched(0); err != nil {
			return err
		}
	default:
		x.Class("write: fits")
		if err != nil || n != need {
			return errf("WriteLPBytes of %d bytes into %d: %d, %v", c.N, ln, n, err)
		}
		if full[0] != byte(c.N>>8) || full[1] != byte(c.N) || !bytes.Equal(full[2:need], v) {
			return errf("WriteLPBytes of %d bytes wrote %s", c.N, hx(full[:need]))
		}
		if err := untouched(need); err != nil {
			return err
		}
	}
	// reading
	k := c.N & 0xffff
	src := append([]byte{byte(k >> 8), byte(k)}, v[:k]...)
	keep := len(src)
	if c.Cut > 0 {
		keep -= c.Cut
		if keep < 0 {
			keep = 0
		}
	}
	whole := append([]byte{}, src...) // the missing bytes lie behind the input, within its capacity
	in := whole[:keep]
	if c.Cut == 0 {
		whole = append(whole, bytes.Repeat([]byte{c.Fill}, c.Extra+c.Cap)...)
		in = whole[:len(src)+c.Extra]
	}
	snap := append([]byte{}, whole...)
	got, m, err := mqttp.ReadLPBytes(in)
	if !bytes.Equal(snap, whole) {
		return errf("reading changed the input")
	}
	if len(in) < len(src) {
		x.Class("read: short input")
		if err != mqttp.ErrInsufficientDataSize || len(got) != 0 {
			return errf("ReadLPBytes of %d bytes declaring %d: %d bytes, %v", len(in), k, len(got), err)
		}
		return nil
	}
	x.Class("read: complete")
	if err != nil || m != k+2 || !bytes.Equal(got, src[2:]) {
		return errf("ReadLPBytes of %d bytes declaring %d: %d bytes, consumed %d, %v", len(in), k, len(got), m, err)
	}
	return nil
}

func enumLP19(yield func(*lpCase19)) {
	// every declared length with every short input, and every small value with every buffer size
	for n := 0; n <= 40; n++ {
		for cut := 0; cut <= n+2; cut++ {
			yield(&lpCase19{N: n, Cut: cut, Fill: 0xEE, Cap: 7})
		}
		for ln := 0; ln <= n+6; ln++ {
			yield(&lpCase19{N: n, Room: ln - n - 2, Fill: 0x5A, Cap: ln % 3 * 20, Extra: ln % 4})
		}
	}
	step := 997
	if Thorough {
		step = 41
	}
	for n := 0; n <= 65540; n += step {
		yield(&lpCase19{N: n, Cut: 1})
		yield(&lpCase19{N: n, Extra: 1})
	}
	for n := 65530; n <= 65545; n++ {
		yield(&lpCase19{N: n})
	}
}

// ---- C20 -------------------------------------------------------------------

type listCase struct {
	P      *ref.Packet `json:"p"`
	Keep   int         `json:"keep"` // how many entries come by decoding (-1: none, built from scratch)
	Stop   int         `json:"stop"`
	Chunks []int       `json:"chunks"`
	Reuse  bool        `json:"reuse,omitempty"` // equal topics are added as one and the same object
}

func genList(t *rapid.T) *listCase {
	c := &listCase{Keep: -1}
	typ := gen.Pick(t, []int{ref.SUBSCRIBE, ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.UNSUBSCRIBE, ref.SUBACK, ref.UNSUBACK}, "type")
	ver := gen.Int(t, 3, 5, "ver")
	if typ == ref.UNSUBACK {
		ver = 5
	}
	c.P = gen.Packet(t, gen.Opt{Type: typ, Ver: ver})
	if len(c.P.Subs) > 1 && gen.Flip(t, "repeat") {
		// repeated topics with different options
		for i := gen.Int(t, 1, len(c.P.Subs), "reps"); i > 0; i-- {
			a, b := gen.Int(t, 0, len(c.P.Subs)-1, "a"), gen.Int(t, 0, len(c.P.Subs)-1, "b")
			ops := c.P.Subs[b].Ops
			if fp, _ := ref.SplitFilter(c.P.Subs[a].Topic); fp.Share != "" {
				ops &^= 4
			}
			if gen.OneIn(t, 3, "same") {
				ops = c.P.Subs[a].Ops
			}
			c.P.Subs[b] = ref.Sub{Topic: c.P.Subs[a].Topic, Ops: ops}
		}
	}
	c.Reuse = gen.Flip(t, "reuse")
	n := max(len(c.P.Subs), len(c.P.Codes))
	if gen.Flip(t, "decoded") {
		c.Keep = gen.Int(t, 1, n, "keep")
		if gen.Flip(t, "all") {
			c.Keep = n
		}
	}
	c.Stop = gen.Int(t, 0, n, "stop")
	for i := gen.Int(t, 0, 4, "chunks"); i > 0; i-- {
		c.Chunks = append(c.Chunks, gen.Int(t, 1, 8, "chunk"))
	}
	return c
}

type topicLister interface {
	ForEachTopic(func(*mqttp.Topic) error) error
	AddTopic(*mqttp.Topic) error
}

type codeLister interface {
	ReturnCodes() []mqttp.ReasonCode
	AddReturnCodes([]mqttp.ReasonCode) error
	AddReturnCode(mqttp.ReasonCode) error
}

// stops are the errors a callback may return: any error stops the iteration.
var stops = []error{errors.New("stop here"), mqttp.ErrNotSet, io.EOF, mqttp.CodeSuccess, mqttp.ErrInvalidUnSubscribe, mqttp.CodeUnspecifiedError,
	mqttp.CodeProtocolError, mqttp.ErrInvalidTopic, mqttp.CodeInvalidTopicFilter, mqttp.ErrPanicDetected, fmt.Errorf("wrapped: %w", mqttp.CodeMalformedPacket),
	mqttp.ErrInsufficientDataSize, mqttp.ErrUnimplemented, mqttp.CodeNoSubscriptionExisted, context.Canceled}

func checkList(c *listCase, x *prop.Ctx) error {
	return beside(c.P.Ver, c.P.Type, func() error { return checkListAlone(c, x) })
}

func checkListAlone(c *listCase, x *prop.Ctx) error {
	n := max(len(c.P.Subs), len(c.P.Codes))
	x.Class(className(c.P))
	if n > 1 {
		x.NonTrivial()
	}
	if n > 100 {
		x.Class("more than 100 entries")
	}
	var m mqttp.IFace
	var err error
	at := 0
	if c.Keep > 0 {
		head := c.P.Clone()
		if len(head.Subs) > 0 {
			head.Subs = head.Subs[:c.Keep]
		} else {
			head.Codes = head.Codes[:c.Keep]
		}
		if m, err = decodeOK(head.Ver, head.Encode(ref.Form{})); err != nil {
			return err
		}
		at = c.Keep
	} else {
		head := c.P.Clone()
		head.Subs, head.Codes = nil, nil
		if m, err = sut.Build(head); err != nil {
			return errf("building: %v", err)
		}
	}
	switch l := m.(type) {
	case topicLister:
		made := map[string]*mqttp.Topic{}
		for _, s := range c.P.Subs[at:] {
			tp, e := mqttp.NewSubscribeTopic(append([]byte{}, s.Topic...), mqttp.SubscriptionOptions(s.Ops))
			if e != nil {
				return errf("NewSubscribeTopic(%q,0x%02x): %v", trunc(string(s.Topic)), s.Ops, e)
			}
			if c.Reuse {
				key := string(append([]byte{s.Ops}, s.Topic...))
				if had := made[key]; had != nil {
					tp = had
					x.Class("one topic object added twice")
				}
				made[key] = tp
			}
			if e = l.AddTopic(tp); e != nil {
				return errf("AddTopic: %v", e)
			}
		}
		walk := func(stop int) (int, error) {
			i := 0
			sentinel := stops[(stop+at)%len(stops)]
			var bad error
			var held []*mqttp.Topic
			e := l.ForEachTopic(func(tp *mqttp.Topic) error {
				held = append(held, tp)
				if bad == nil {
					if i >= n {
						bad = errf("iteration visits more than %d topics", n)
					} else {
						bad = sut.CheckTopic(tp, c.P.Subs[i].Topic, c.P.Subs[i].Ops)
						if bad != nil {
							bad = errf("topic %d: %v", i, bad)
						}
					}
				}
				if i == stop%7 && n < 100 && bad == nil {
					// asked in the middle of an iteration
					inner := 0
					e2 := l.ForEachTopic(func(tp *mqttp.Topic) error {
						if inner++; inner == 2*n {
							return sentinel
						}
						return nil
					})
					b2, e3 := mqttp.Encode(m)
					if e2 != nil || inner != n || e3 != nil || len(b2) < 3*n {
						bad = errf("within an iteration: another makes %d calls, want %d (error %v); encoding gives %d bytes, error %v", inner, n, e2, len(b2), e3)
					}
				}
				i++
				if i == stop {
					return sentinel
				}
				return nil
			})
			if bad != nil {
				return i, bad
			}
			// topics handed out stay what they were
			for j, tp := range held {
				if e2 := sut.CheckTopic(tp, c.P.Subs[j].Topic, c.P.Subs[j].Ops); e2 != nil {
					return i, errf("topic %d, looked at after the iteration: %v", j, e2)
				}
			}
			if stop > 0 && stop <= n {
				if e == nil || e != sentinel {
					return i, errf("a callback error at topic %d of %d is returned as %v", stop, n, e)
				}
			} else if e != nil {
				return i, errf("iteration returns %v", e)
			}
			return i, nil
		}
		for _, stop := range []int{0, c.Stop, 1, n, 0} {
			got, e := walk(stop)
			if e != nil {
				return e
			}
			want := n
			if stop > 0 {
				want = stop
			}
			if got != want {
				return errf("iteration made %d calls, want %d of %d topics", got, want, n)
			}
		}
	case codeLister:
		var in []mqttp.ReasonCode
		for _, k := range c.P.Codes[at:] {
			in = append(in, mqttp.ReasonCode(k))
		}
		for _, ch := range c.Chunks {
			ch = min(ch, len(in))
			if ch == 1 {
				err = l.AddReturnCode(in[0])
			} else {
				arg := append([]mqttp.ReasonCode{}, in[:ch]...)
				err = l.AddReturnCodes(arg)
				for i := range arg {
					arg[i] = 0xEE // the caller's slice is the caller's
				}
			}
			if err != nil {
				return errf("adding %v: %v", in[:ch], err)
			}
			in = in[ch:]
		}
		arg := append(make([]mqttp.ReasonCode, 0, len(in)+3), in...)
		if err = l.AddReturnCodes(arg); err != nil {
			return errf("adding %v: %v", in, err)
		}
		for i := range arg {
			arg[i] = 0xEE
		}
		got := l.ReturnCodes()
		if len(got) != n {
			return errf("%d return codes, want %d", len(got), n)
		}
		for i, k := range got {
			if byte(k) != c.P.Codes[i] {
				return errf("return code %d is 0x%02x, want 0x%02x", i, byte(k), c.P.Codes[i])
			}
		}
	default:
		return errf("%T has no list", m)
	}
	b, err := sut.EncodeBoth(m)
	if err != nil {
		return err
	}
	q, v, why := ref.Decode(c.P.Ver, b)
	if v == ref.Invalid {
		return errf("malformed packet (%s): %s", why, hx(b))
	}
	if d := ref.Diff(c.P, q); d != "" {
		return errf("wire image: %s", d)
	}
	r, err := decodeOK(c.P.Ver, b)
	if err != nil {
		return err
	}
	e, err := sut.Extract(r)
	if err != nil {
		return err
	}
	if d := ref.Diff(c.P, e); d != "" {
		return errf("after encoding and decoding: %s", d)
	}
	return nil
}

type optCase struct {
	Ops byte `json:"ops"`
	Ver byte `json:"ver"`
	Pos int  `json:"pos"`
	N   int  `json:"n"`
}

func enumOpts(yield func(*optCase)) {
	for o := 0; o < 256; o++ {
		for v := byte(3); v <= 5; v++ {
			for n := 1; n <= 3; n++ {
				for pos := 0; pos < n; pos++ {
					yield(&optCase{Ops: byte(o), Ver: v, Pos: pos, N: n})
				}
			}
		}
	}
}

func checkOpt(c *optCase, x *prop.Ctx) error {
	x.NonTrivial()
	if err := sut.CheckOps(mqttp.SubscriptionOptions(c.Ops), c.Ops); err != nil {
		return err
	}
	p := minimal(c.Ver, ref.SUBSCRIBE)
	p.Subs = nil
	for i := 0; i < c.N; i++ {
		s := ref.Sub{Topic: []byte("t/" + string('a'+rune(i))), Ops: byte(i)}
		if i == c.Pos {
			s.Ops = c.Ops
		}
		p.Subs = append(p.Subs, s)
	}
	b := p.Encode(ref.Form{})
	_, v, _ := ref.Decode(c.Ver, b)
	x.Class(v.String())
	if err := judge(c.Ver, b, "SUBSCRIBE options"); err != nil {
		return err
	}
	if v != ref.Valid {
		return nil
	}
	m, err := sut.Build(p)
	if err != nil {
		return err
	}
	if b, err = sut.EncodeBoth(m); err != nil {
		return err
	}
	q, _, why := ref.Decode(c.Ver, b)
	if q == nil {
		return errf("options 0x%02x encode to a malformed SUBSCRIBE: %s", c.Ops, why)
	}
	if d := ref.Diff(p, q); d != "" {
		return errf("options 0x%02x: %s", c.Ops, d)
	}
	return nil
}

func init() {
	register(&prop.Def{ID: "C16", Quick: 20000, Thoro: 400000,
		Rule: "PUBLISH packets built or decoded, cloned along chains of session versions, then 0..5 setter calls on source or clone; non-trivial: properties, DUP, a deadline, a chain or later changes are present",
		Subs: []*prop.Sub{prop.Gen("clone", 1, genClone, checkClone)}})
	register(&prop.Def{ID: "C17", Quick: 48000, Thoro: 700000,
		Rule: "packets of every type shared by the versions, built or decoded, under 1..10 version switches, property and reason-code operations, wire image judged after every step; non-trivial: a switch between 3.x and 5.0",
		Subs: []*prop.Sub{prop.Gen("switch", 1, genVer, checkVer)}})
	register(&prop.Def{ID: "C18", Quick: 30000, Thoro: 700000,
		Rule: "deadlines from far past to 2^32-1 s ahead with sub-second offsets, different time representations, replaced, cleared and cloned; the verdict must fit the bracket of two clock reads; non-trivial: the bracket admits exactly one answer",
		Subs: []*prop.Sub{
			prop.Gen("elapse", 0.02, genElapse, checkElapse),
			prop.Gen("deadline", 1, genExpiry, checkExpiry)}})
	register(&prop.Def{ID: "C19", Quick: 48000, Thoro: 1000000,
		Rule: "values of 0..200000 bytes written to and read from buffers of every relation to the needed size, with guard bytes behind; small sizes enumerated; non-trivial: all",
		Subs: []*prop.Sub{
			prop.Enum("small", enumLP19, checkLP19),
			prop.Gen("random", 1, genLP19, checkLP19)}})
	register(&prop.Def{ID: "C20", Quick: 8000, Thoro: 250000,
		Rule: "topic and code lists of 1..400 entries with repeats, decoded, built or appended to after decoding, with stop positions; all option bytes x versions x positions enumerated; non-trivial: more than one entry",
		Subs: []*prop.Sub{
			prop.Enum("options", enumOpts, checkOpt),
			prop.Gen("lists", 1, genList, checkList)}})
}
