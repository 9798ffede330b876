// Package ref is an independent reference model of the MQTT 3.1, 3.1.1 and 5.0
// control packets, written from the specifications.  It shares no code with the
// library under test: it is the oracle the generated checks compare against.
package ref

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
)

// Packet types.
const (
	CONNECT = iota + 1
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
)

// TypeNames by packet type.
var TypeNames = []string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
	"SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

// PT is the wire type of a property.
type PT int

// Property wire types.
const (
	TByte PT = iota
	TU16
	TU32
	TVar
	TStr
	TPair
	TBin
)

// WILL is the pseudo packet type of will properties.
const WILL = 16

func mask(ts ...int) uint32 {
	var m uint32
	for _, t := range ts {
		m |= 1 << uint(t)
	}
	return m
}

// PDef is one row of the MQTT 5.0 property table (2.2.2.2).
type PDef struct {
	ID    uint32
	T     PT
	In    uint32 // packet types (and WILL)
	Multi uint32 // packet types in which the property may be repeated
}

// Has tells whether the property is listed for packet type t.
func (d PDef) Has(t int) bool { return d.In&(1<<uint(t)) != 0 }

// Rep tells whether the property may be repeated in packet type t.
func (d PDef) Rep(t int) bool { return d.Multi&(1<<uint(t)) != 0 }

var userIn = mask(CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH)

// Props is the MQTT 5.0 property table.
var Props = []PDef{
	{0x01, TByte, mask(PUBLISH, WILL), 0},
	{0x02, TU32, mask(PUBLISH, WILL), 0},
	{0x03, TStr, mask(PUBLISH, WILL), 0},
	{0x08, TStr, mask(PUBLISH, WILL), 0},
	{0x09, TBin, mask(PUBLISH, WILL), 0},
	{0x0B, TVar, mask(PUBLISH, SUBSCRIBE), mask(PUBLISH)},
	{0x11, TU32, mask(CONNECT, CONNACK, DISCONNECT), 0},
	{0x12, TStr, mask(CONNACK), 0},
	{0x13, TU16, mask(CONNACK), 0},
	{0x15, TStr, mask(CONNECT, CONNACK, AUTH), 0},
	{0x16, TBin, mask(CONNECT, CONNACK, AUTH), 0},
	{0x17, TByte, mask(CONNECT), 0},
	{0x18, TU32, mask(WILL), 0},
	{0x19, TByte, mask(CONNECT), 0},
	{0x1A, TStr, mask(CONNACK), 0},
	{0x1C, TStr, mask(CONNACK, DISCONNECT), 0},
	{0x1F, TStr, mask(CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH), 0},
	{0x21, TU16, mask(CONNECT, CONNACK), 0},
	{0x22, TU16, mask(CONNECT, CONNACK), 0},
	{0x23, TU16, mask(PUBLISH), 0},
	{0x24, TByte, mask(CONNACK), 0},
	{0x25, TByte, mask(CONNACK), 0},
	{0x26, TPair, userIn, userIn},
	{0x27, TU32, mask(CONNECT, CONNACK), 0},
	{0x28, TByte, mask(CONNACK), 0},
	{0x29, TByte, mask(CONNACK), 0},
	{0x2A, TByte, mask(CONNACK), 0},
}

var propByID = func() map[uint32]PDef {
	m := map[uint32]PDef{}
	for _, d := range Props {
		m[d.ID] = d
	}
	return m
}()

// PropDef looks a property up.
func PropDef(id uint32) (PDef, bool) {
	d, ok := propByID[id]
	return d, ok
}

// PropsFor lists the properties of a packet type (or WILL).
func PropsFor(t int) []PDef {
	var r []PDef
	for _, d := range Props {
		if d.Has(t) {
			r = append(r, d)
		}
	}
	return r
}

// Codes5 lists the MQTT 5.0 reason codes per packet type (table 2-6 and the
// per-packet tables of chapter 3).
var Codes5 = map[int][]byte{
	CONNACK:    {0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F},
	PUBACK:     {0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
	PUBREC:     {0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
	PUBREL:     {0x00, 0x92},
	PUBCOMP:    {0x00, 0x92},
	SUBACK:     {0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2},
	UNSUBACK:   {0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91},
	DISCONNECT: {0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2},
	AUTH:       {0x00, 0x18, 0x19},
}

// CodeTypes lists the packet types that carry a reason or return code.
var CodeTypes = []int{CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}

// Code verdicts.
const (
	CodeNo = iota
	CodeYes
	CodeAny // the specification texts disagree or the library documents leniency
)

// Code5 tells whether code c is defined by MQTT 5.0 for packet type t.
func Code5(t int, c byte) int {
	if bytes.IndexByte(Codes5[t], c) >= 0 {
		return CodeYes
	}
	if t == CONNACK && c >= 1 && c <= 5 {
		return CodeYes // documented: 3.x codes are accepted too
	}
	if t == DISCONNECT && c == 0x8C {
		return CodeAny // table 2-6 lists it, table 3-10 does not
	}
	return CodeNo
}

// DefinedCode tells whether a code exists anywhere in MQTT 3.x/5.0.
func DefinedCode(c byte) bool {
	if c <= 5 {
		return true
	}
	for _, l := range Codes5 {
		if bytes.IndexByte(l, c) >= 0 {
			return true
		}
	}
	return false
}

// DefinedCode5 tells whether a code exists anywhere in MQTT 5.0.
func DefinedCode5(c byte) bool {
	for _, l := range Codes5 {
		if bytes.IndexByte(l, c) >= 0 {
			return true
		}
	}
	return false
}

// Code3 tells whether code c is acceptable in a 3.x packet of type t.
func Code3(t int, c byte) int {
	switch t {
	case CONNACK:
		if c <= 5 {
			return CodeYes
		}
		if Code5(CONNACK, c) == CodeYes {
			return CodeAny
		}
		return CodeNo
	case SUBACK:
		if c <= 2 || c == 0x80 {
			return CodeYes
		}
		return CodeNo
	}
	return CodeAny
}

// PV is one property occurrence.
type PV struct {
	ID uint32 `json:"id"`
	N  uint32 `json:"n,omitempty"`
	S  []byte `json:"s,omitempty"` // string, binary or pair key
	V  []byte `json:"v,omitempty"` // pair value
}

// Sub is one SUBSCRIBE/UNSUBSCRIBE entry.
type Sub struct {
	Topic []byte `json:"t"`
	Ops   byte   `json:"o,omitempty"`
}

// Will of a CONNECT.
type Will struct {
	Topic   []byte `json:"topic"`
	Payload []byte `json:"payload"`
	QoS     byte   `json:"qos"`
	Retain  bool   `json:"retain"`
	Props   []PV   `json:"props,omitempty"`
}

// Packet is the abstract content of a control packet.
type Packet struct {
	Ver  byte `json:"ver"`
	Type int  `json:"type"`

	Dup    bool   `json:"dup,omitempty"`
	QoS    byte   `json:"qos,omitempty"`
	Retain bool   `json:"retain,omitempty"`
	ID     uint16 `json:"pid,omitempty"`

	Topic   []byte `json:"topic,omitempty"`
	Payload []byte `json:"payload,omitempty"`

	Clean     bool   `json:"clean,omitempty"`
	KeepAlive uint16 `json:"keepalive,omitempty"`
	ClientID  []byte `json:"cid,omitempty"`
	HasUser   bool   `json:"hasuser,omitempty"`
	HasPass   bool   `json:"haspass,omitempty"`
	User      []byte `json:"user,omitempty"`
	Pass      []byte `json:"pass,omitempty"`
	Will      *Will  `json:"will,omitempty"`

	Session bool   `json:"session,omitempty"`
	Code    byte   `json:"code,omitempty"`
	Codes   []byte `json:"codes,omitempty"`
	Subs    []Sub  `json:"subs,omitempty"`
	Props   []PV   `json:"props,omitempty"`
}

// HasID tells whether the packet carries a packet identifier.
func (p *Packet) HasID() bool {
	switch p.Type {
	case PUBLISH:
		return p.QoS > 0
	case PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK:
		return true
	}
	return false
}

// Clone is a deep copy.
func (p *Packet) Clone() *Packet {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Packet{}
	if err = json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func nz(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return b
}

// CanonProps orders properties by identifier, keeping the order of repeats.
func CanonProps(in []PV) []PV {
	if len(in) == 0 {
		return nil
	}
	r := make([]PV, len(in))
	for i, v := range in {
		v.S, v.V = nz(v.S), nz(v.V)
		r[i] = v
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Canon returns the canonical form used for comparisons.
func (p *Packet) Canon() *Packet {
	q := *p
	q.Topic, q.Payload, q.ClientID, q.User, q.Pass, q.Codes = nz(q.Topic), nz(q.Payload), nz(q.ClientID), nz(q.User), nz(q.Pass), nz(q.Codes)
	q.Props = CanonProps(q.Props)
	if len(q.Subs) == 0 {
		q.Subs = nil
	} else {
		q.Subs = append([]Sub(nil), q.Subs...)
		for i := range q.Subs {
			q.Subs[i].Topic = nz(q.Subs[i].Topic)
		}
	}
	if q.Will != nil {
		w := *q.Will
		w.Topic, w.Payload, w.Props = nz(w.Topic), nz(w.Payload), CanonProps(w.Props)
		q.Will = &w
	}
	return &q
}

func short(v interface{}) string {
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		return fmt.Sprintf("%s...(%d bytes)", b[:300], len(b))
	}
	return string(b)
}

func diffProps(where string, a, b []PV) string {
	a, b = CanonProps(a), CanonProps(b)
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d properties %s, want %d %s", where, len(b), short(b), len(a), short(a))
	}
	for i := range a {
		if !a[i].Eq(b[i]) {
			return fmt.Sprintf("%s: property %s, want %s", where, short(b[i]), short(a[i]))
		}
	}
	return ""
}

// Eq compares two property occurrences.
func (v PV) Eq(w PV) bool {
	return v.ID == w.ID && v.N == w.N && bytes.Equal(v.S, w.S) && bytes.Equal(v.V, w.V)
}

// DiffProps describes the first difference between property sets ("" if equal).
func DiffProps(want, got []PV) string { return diffProps("properties", want, got) }

// Diff describes the first difference between two packets ("" if equal).
func Diff(want, got *Packet) string {
	a, b := want.Canon(), got.Canon()
	chk := func(name string, x, y interface{}) string {
		if x != y {
			return fmt.Sprintf("%s is %v, want %v", name, y, x)
		}
		return ""
	}
	chb := func(name string, x, y []byte) string {
		if !bytes.Equal(x, y) {
			return fmt.Sprintf("%s is %s, want %s", name, short(y), short(x))
		}
		return ""
	}
	for _, s := range []string{
		chk("version", a.Ver, b.Ver), chk("type", a.Type, b.Type), chk("DUP", a.Dup, b.Dup), chk("QoS", a.QoS, b.QoS),
		chk("RETAIN", a.Retain, b.Retain), chk("packet id", a.ID, b.ID), chb("topic", a.Topic, b.Topic), chb("payload", a.Payload, b.Payload),
		chk("clean", a.Clean, b.Clean), chk("keep alive", a.KeepAlive, b.KeepAlive), chb("client id", a.ClientID, b.ClientID),
		chk("has user", a.HasUser, b.HasUser), chk("has password", a.HasPass, b.HasPass), chb("user", a.User, b.User), chb("password", a.Pass, b.Pass),
		chk("session present", a.Session, b.Session), chk("code", a.Code, b.Code), chb("codes", a.Codes, b.Codes),
		chk("number of topics", len(a.Subs), len(b.Subs)), diffProps("properties", a.Props, b.Props),
		chk("has will", a.Will != nil, b.Will != nil),
	} {
		if s != "" {
			return s
		}
	}
	for i := range a.Subs {
		if !bytes.Equal(a.Subs[i].Topic, b.Subs[i].Topic) || a.Subs[i].Ops != b.Subs[i].Ops {
			return fmt.Sprintf("topic %d is %s, want %s", i, short(b.Subs[i]), short(a.Subs[i]))
		}
	}
	if a.Will != nil {
		for _, s := range []string{chb("will topic", a.Will.Topic, b.Will.Topic), chb("will payload", a.Will.Payload, b.Will.Payload),
			chk("will QoS", a.Will.QoS, b.Will.QoS), chk("will retain", a.Will.Retain, b.Will.Retain), diffProps("will properties", a.Will.Props, b.Will.Props)} {
			if s != "" {
				return s
			}
		}
	}
	return ""
}
