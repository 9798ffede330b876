package checks

import (
	"github.com/VolantMQ/vlapi/mqttp"

	"vlverif/ref"
	"vlverif/sut"
)

// standBy is the content of the packets that stand beside a history.
func standBy(ver byte, typ int) *ref.Packet {
	p := &ref.Packet{Ver: ver, Type: typ}
	switch typ {
	case ref.CONNECT:
		p.Clean, p.KeepAlive, p.ClientID = true, 0x2b1c, []byte("stand-by")
		p.HasUser, p.HasPass, p.User, p.Pass = true, true, []byte("by-user"), []byte("by-pass")
		p.Will = &ref.Will{QoS: 2, Retain: true, Topic: []byte("by/will"), Payload: []byte("by-will-payload")}
	case ref.PUBLISH:
		p.QoS, p.Dup, p.Retain, p.Topic, p.Payload = 2, true, true, []byte("by/topic"), []byte("by-payload")
	case ref.CONNACK:
		p.Session = true
	case ref.SUBSCRIBE:
		p.Subs = []ref.Sub{{Topic: []byte("by/+"), Ops: 1}, {Topic: []byte("$share/by/filter/#"), Ops: 2}}
	case ref.UNSUBSCRIBE:
		p.Subs = []ref.Sub{{Topic: []byte("by/+")}, {Topic: []byte("$share/by/filter/#")}}
	case ref.SUBACK:
		p.Codes = []byte{1, 0x80, 2}
	case ref.UNSUBACK:
		if ver == 5 {
			p.Codes = []byte{0x11, 0x00}
		}
	case ref.PUBACK, ref.PUBREC:
		if ver == 5 {
			p.Code = 0x10
		}
	case ref.PUBREL, ref.PUBCOMP:
		if ver == 5 {
			p.Code = 0x92
		}
	case ref.DISCONNECT:
		if ver == 5 {
			p.Code = 0x04
		}
	case ref.AUTH:
		p.Code = 0x18
	}
	if p.HasID() {
		p.ID = 0x2b1c
	}
	if ver == 5 && typ != ref.PINGREQ && typ != ref.PINGRESP {
		p.Props = []ref.PV{{ID: 0x26, S: []byte("by-key"), V: []byte("by-value")}}
	}
	return p
}

// beside runs a history on a packet while two other packets of its kind, one
// built and one decoded, stand by. Nobody touches them: they must be what they
// were.
func beside(ver byte, typ int, history func() error) error {
	p := standBy(ver, typ)
	var by [2]mqttp.IFace
	var err error
	if by[0], err = sut.Build(p); err != nil {
		return errf("packet standing by: %v", err)
	}
	if by[1], err = decodeOK(ver, p.Encode(ref.Form{})); err != nil {
		return errf("packet standing by: %v", err)
	}
	if err = history(); err != nil {
		return err
	}
	for i, m := range by {
		what := [...]string{"built", "decoded"}[i]
		got, err := sut.Extract(m)
		if err != nil {
			return errf("the %s packet standing by: %v", what, err)
		}
		if d := ref.Diff(p, got); d != "" {
			return errf("the %s packet standing by changed: %s", what, d)
		}
		b, err := sut.EncodeBoth(m)
		if err != nil {
			return errf("the %s packet standing by: %v", what, err)
		}
		q, v, why := ref.Decode(ver, b)
		if v == ref.Invalid {
			return errf("the %s packet standing by encodes to a malformed packet (%s): %s", what, why, hx(b))
		}
		if d := ref.Diff(p, q); d != "" {
			return errf("the %s packet standing by encodes differently: %s", what, d)
		}
	}
	return nil
}
