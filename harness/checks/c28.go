package checks

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C28 -------------------------------------------------------------------

type setOp struct {
	K     string   `json:"k"` // id, code, codes, session, topic, props, discard, encode, reload, size
	ID    uint16   `json:"id,omitempty"`
	Code  byte     `json:"code,omitempty"`
	Codes []byte   `json:"codes,omitempty"`
	B     bool     `json:"b,omitempty"`
	Sub   *ref.Sub `json:"sub,omitempty"`
	Props []ref.PV `json:"props,omitempty"`
}

type setCase struct {
	Ver  byte        `json:"ver"`
	Type int         `json:"type"`
	From *ref.Packet `json:"from,omitempty"` // start from this decoded packet
	Ops  []setOp     `json:"ops"`
	Rep  int         `json:"rep,omitempty"`
}

var setTypes = []int{ref.CONNACK, ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBSCRIBE, ref.SUBACK, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}

func genSetters(t *rapid.T) *setCase {
	c := &setCase{Type: gen.Pick(t, setTypes, "type"), Ver: 5}
	if c.Type != ref.AUTH && gen.OneIn(t, 3, "v3") {
		c.Ver = byte(gen.Int(t, 3, 4, "ver"))
	}
	if gen.OneIn(t, 3, "decoded") {
		c.From = gen.Packet(t, gen.Opt{Ver: int(c.Ver), Type: c.Type, NoPad: true})
	}
	kinds := []string{"encode", "size", "reload"}
	hasID := (&ref.Packet{Type: c.Type}).HasID()
	if hasID {
		kinds = append(kinds, "id", "id")
	}
	switch c.Type {
	case ref.CONNACK:
		kinds = append(kinds, "code", "code", "code", "session", "session")
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT, ref.AUTH:
		kinds = append(kinds, "code", "code", "code")
	case ref.SUBACK, ref.UNSUBACK:
		kinds = append(kinds, "codes", "codes", "codes")
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		kinds = append(kinds, "topic", "topic", "topic")
	}
	if c.Ver == 5 {
		kinds = append(kinds, "props", "discard")
	}
	for i := gen.Int(t, 1, 12, "n"); i > 0; i-- {
		o := setOp{K: gen.Pick(t, kinds, "k")}
		if i == 1 && hasID && gen.Flip(t, "lastID") {
			o.K = "id"
		}
		code := func() byte {
			if gen.OneIn(t, 3, "anyCode") {
				return byte(gen.Int(t, 0, 255, "code"))
			}
			l := ref.Codes5[c.Type]
			if c.Ver != 5 || len(l) == 0 {
				return gen.Pick(t, []byte{0, 1, 2, 3, 4, 5, 0x80}, "code3")
			}
			return gen.Pick(t, l, "code5")
		}
		switch o.K {
		case "id":
			o.ID = gen.PacketID(t)
		case "code":
			o.Code = code()
		case "codes":
			for j := gen.Int(t, 1, 4, "m"); j > 0; j-- {
				o.Codes = append(o.Codes, code())
			}
		case "session":
			o.B = gen.Flip(t, "sp")
		case "topic":
			s := gen.Sub(t, int(c.Ver), c.Type)
			if gen.OneIn(t, 4, "spoil") {
				s.Topic = append(s.Topic, gen.Pick(t, []string{"#", "+", "/#/", "\x00", "\xff", "##"}, "junk")...)
			}
			o.Sub = &s
			for _, had := range c.Ops {
				if had.K == "topic" && gen.OneIn(t, 4, "repeat") {
					o.Sub = had.Sub
				}
			}
		case "props":
			o.Props = gen.Props(t, c.Type, false)
		}
		c.Ops = append(c.Ops, o)
	}
	c.Rep = genRep(t, c, len(c.Ops))
	return c
}

func checkSetters(c *setCase, x *prop.Ctx) error {
	return beside(c.Ver, c.Type, func() error { return checkSettersAlone(c, x) })
}

func checkSettersAlone(c *setCase, x *prop.Ctx) error {
	var m mqttp.IFace
	var err error
	cur := &ref.Packet{Ver: c.Ver, Type: c.Type}
	if c.From != nil {
		cur = c.From.Clone()
		if m, err = decodeOK(c.Ver, cur.Encode(ref.Form{})); err != nil {
			return err
		}
	} else if m, err = sut.Make(verOf(int(c.Ver)), &ref.Packet{Type: c.Type, ID: uint16(len(c.Ops))}); err != nil {
		return errf("New: %v", err)
	}
	x.Class(className(cur))
	codeOK := func(k byte) int {
		if c.Ver == 5 {
			return ref.Code5(c.Type, k)
		}
		return ref.Code3(c.Type, k)
	}
	made := map[string]*mqttp.Topic{}
	look := func(m mqttp.IFace) error {
		got, e := sut.Extract(m)
		if e != nil {
			return e
		}
		want := cur.Clone()
		if c.Ver != 5 && c.Type >= ref.PUBACK && c.Type <= ref.PUBCOMP || c.Ver != 5 && c.Type == ref.DISCONNECT || c.Ver != 5 && c.Type == ref.UNSUBACK {
			got.Code, want.Code, got.Codes, want.Codes = 0, 0, nil, nil // not part of a 3.x packet
		}
		if d := ref.Diff(want, got); d != "" {
			return errf("accessors: %s", d)
		}
		id, e := m.ID()
		if cur.ID == 0 && e == nil || cur.ID != 0 && (e != nil || uint16(id) != cur.ID) {
			return errf("packet identifier %d (%v), want %d", id, e, cur.ID)
		}
		return nil
	}
	wire := func() ([]byte, error) {
		switch {
		case cur.HasID() && cur.ID == 0, c.Type == ref.UNSUBSCRIBE && len(cur.Subs) == 0:
			b, e := mqttp.Encode(m)
			if e == nil {
				return nil, errf("a packet without its mandatory parts encodes to %s", hx(b))
			}
			return nil, nil
		case c.Type == ref.SUBSCRIBE && len(cur.Subs) == 0, c.Type == ref.SUBACK && len(cur.Codes) == 0, c.Type == ref.UNSUBACK && c.Ver == 5 && len(cur.Codes) == 0:
			_, _ = mqttp.Encode(m)
			return nil, nil
		}
		b, e := sut.EncodeBoth(m)
		if e != nil {
			return nil, e
		}
		q, v, why := ref.Decode(c.Ver, b)
		if v == ref.Invalid {
			return nil, errf("malformed encoding (%s): %s", why, hx(b))
		}
		if d := ref.Diff(cur, q); d != "" {
			return nil, errf("wire image: %s; %s", d, hx(b))
		}
		return b, nil
	}
	accepted, refused := 0, 0
	for i, o := range repeat(c.Ops, c.Rep, x) {
		var e error
		want := ref.CodeYes // must be accepted
		take := func() {}
		err = nil
		pn := sut.Safe(o.K, func() {
			switch o.K {
			case "id":
				m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(o.ID))
				take = func() { cur.ID = o.ID }
			case "session":
				m.(*mqttp.ConnAck).SetSessionPresent(o.B)
				take = func() { cur.Session = o.B }
			case "code":
				want = codeOK(o.Code)
				take = func() { cur.Code = o.Code }
				switch p := m.(type) {
				case *mqttp.ConnAck:
					if want == ref.CodeAny {
						return // a 5.0 code in a 3.x CONNACK
					}
					e = p.SetReturnCode(mqttp.ReasonCode(o.Code))
				case *mqttp.Auth:
					e = p.SetReasonCode(mqttp.ReasonCode(o.Code))
				case *mqttp.Ack:
					if c.Ver != 5 {
						p.SetReason(mqttp.ReasonCode(o.Code)) // shows nowhere
						take = func() {}
					} else if want == ref.CodeYes {
						p.SetReason(mqttp.ReasonCode(o.Code))
					}
				case *mqttp.Disconnect:
					if c.Ver != 5 {
						p.SetReasonCode(mqttp.ReasonCode(o.Code))
						take = func() {}
					} else if want == ref.CodeYes {
						p.SetReasonCode(mqttp.ReasonCode(o.Code))
					}
				}
				switch m.(type) {
				case *mqttp.Ack, *mqttp.Disconnect: // no error to report
					if want != ref.CodeYes {
						take = func() {}
					}
					want = ref.CodeYes
				}
			case "codes":
				if c.Ver != 5 && c.Type == ref.UNSUBACK {
					return
				}
				l := m.(codeLister)
				good := 0
				for good < len(o.Codes) && codeOK(o.Codes[good]) == ref.CodeYes {
					good++
				}
				if good < len(o.Codes) {
					want = ref.CodeNo
				}
				var arg []mqttp.ReasonCode
				for _, k := range o.Codes {
					arg = append(arg, mqttp.ReasonCode(k))
				}
				old := len(cur.Codes)
				if len(arg) == 1 {
					e = l.AddReturnCode(arg[0])
					take = func() { cur.Codes = append(cur.Codes, o.Codes...) }
					break
				}
				e = l.AddReturnCodes(arg)
				take = func() { cur.Codes = append(cur.Codes, o.Codes...) }
				if e != nil {
					// how many of the codes before the bad one stay is open
					if kept := len(l.ReturnCodes()) - old; kept > 0 && kept <= good {
						cur.Codes = append(cur.Codes, o.Codes[:kept]...)
					}
				}
			case "topic":
				_, ok := ref.SplitFilter(o.Sub.Topic)
				if !ok {
					want = ref.CodeNo
				}
				var tp *mqttp.Topic
				if c.Type == ref.SUBSCRIBE {
					tp, e = mqttp.NewSubscribeTopic(append([]byte{}, o.Sub.Topic...), mqttp.SubscriptionOptions(o.Sub.Ops))
				} else {
					tp, e = mqttp.NewTopic(append([]byte{}, o.Sub.Topic...))
				}
				if had := made[string(o.Sub.Topic)+string(rune(o.Sub.Ops))]; had != nil && len(c.Ops)%2 == 0 {
					tp, e = had, nil // the very same object once more
				} else if e == nil {
					made[string(o.Sub.Topic)+string(rune(o.Sub.Ops))] = tp
				}
				if e == nil {
					e = m.(topicLister).AddTopic(tp)
				}
				s := *o.Sub
				if fp, ok := ref.SplitFilter(s.Topic); ok && fp.Share != "" && s.Ops&4 != 0 {
					s.Ops &^= 4
					want = ref.CodeAny
				}
				take = func() { cur.Subs = append(cur.Subs, *o.Sub) }
			case "props":
				err = sut.SetProps(m, o.Props)
				take = func() {
					drop := map[uint32]bool{}
					for _, pv := range o.Props {
						drop[pv.ID] = true
					}
					var keep []ref.PV
					for _, pv := range cur.Props {
						if !drop[pv.ID] {
							keep = append(keep, pv)
						}
					}
					cur.Props = append(keep, o.Props...)
				}
			case "discard":
				m.PropertiesDiscard()
				take = func() { cur.Props = nil }
			case "size":
				_, _ = m.Size()
			case "encode", "reload":
				var b []byte
				if b, err = wire(); err == nil && b != nil && o.K == "reload" {
					m, err = decodeOK(c.Ver, b)
					x.Class("continued on the decoded copy")
				}
			}
		})
		if pn != nil {
			return errf("op %d: %v", i, pn)
		}
		if err != nil {
			return errf("op %d (%s) on %s: %v", i, o.K, className(cur), err)
		}
		if want == ref.CodeYes && e != nil || want == ref.CodeNo && e == nil {
			return errf("op %d (%s 0x%02x %v) on %s: error %v", i, o.K, o.Code, o.Codes, className(cur), e)
		}
		if e == nil && want != ref.CodeAny {
			take()
			accepted++
		} else if e == nil && o.K == "topic" {
			take()
			accepted++
		} else {
			refused++
			x.Class("rejected call")
		}
		if err = look(m); err != nil {
			return errf("after op %d (%s) on %s: %v", i, o.K, className(cur), err)
		}
	}
	if len(c.Ops) > 1 {
		x.NonTrivial()
	}
	if _, err = wire(); err != nil {
		return errf("at the end: %v", err)
	}
	return look(m)
}

func init() {
	register(&prop.Def{ID: "C28", Quick: 56000, Thoro: 1000000,
		Rule: "1-12 calls on a fresh or decoded acknowledgement, subscription, DISCONNECT or AUTH packet; non-trivial: at least two calls",
		Subs: []*prop.Sub{prop.Gen("setters", 1, genSetters, checkSetters)}})
}
