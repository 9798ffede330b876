package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C11 -------------------------------------------------------------------

type codeCase struct {
	Kind string `json:"kind"` // decode, set, predicates
	Type int    `json:"type"`
	Ver  byte   `json:"ver"`
	Code byte   `json:"code"`
}

func codeVerdict(ver byte, typ int, c byte) int {
	if ver == 5 {
		return ref.Code5(typ, c)
	}
	return ref.Code3(typ, c)
}

func enumCodes(yield func(*codeCase)) {
	for c := 0; c < 256; c++ {
		for t := 0; t < 256; t++ {
			yield(&codeCase{"predicates", t, 0, byte(c)})
		}
		for _, v := range []byte{3, 4, 5} {
			for _, t := range ref.CodeTypes {
				if v != 5 && t != ref.CONNACK && t != ref.SUBACK {
					continue
				}
				yield(&codeCase{"decode", t, v, byte(c)})
				yield(&codeCase{"set", t, v, byte(c)})
			}
		}
	}
}

// issuers where the MQTT tables are unambiguous.
func issuer(t int, c byte) (mqttp.CodeIssuer, bool) {
	in := func(s ...byte) bool {
		for _, x := range s {
			if x == c {
				return true
			}
		}
		return false
	}
	switch t {
	case ref.CONNACK:
		return mqttp.CodeIssuerServer, true
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		return mqttp.CodeIssuerBoth, true
	case ref.DISCONNECT:
		switch {
		case in(0x00, 0x04):
			return mqttp.CodeIssuerClient, true
		case in(0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2):
			return mqttp.CodeIssuerServer, true
		}
		return mqttp.CodeIssuerBoth, true
	case ref.AUTH:
		switch c {
		case 0x00:
			return mqttp.CodeIssuerServer, true
		case 0x18:
			return mqttp.CodeIssuerBoth, true
		}
		return mqttp.CodeIssuerClient, true
	}
	return 0, false
}

func withCode(ver byte, typ int, c byte) *ref.Packet {
	p := minimal(ver, typ)
	if typ == ref.SUBACK || typ == ref.UNSUBACK {
		p.Codes = []byte{c}
	} else {
		p.Code = c
	}
	return p
}

func firstValid(ver byte, typ int, not byte) byte {
	for c := 0; c < 256; c++ {
		if byte(c) != not && byte(c) != 0 && codeVerdict(ver, typ, byte(c)) == ref.CodeYes {
			return byte(c)
		}
	}
	return 0
}

func checkCode(c *codeCase, x *prop.Ctx) error {
	x.Class(c.Kind)
	x.NonTrivial()
	rc := mqttp.ReasonCode(c.Code)
	if c.Kind == "predicates" {
		if rc.IsValid() != ref.DefinedCode(c.Code) {
			return errf("ReasonCode(0x%02x).IsValid() is %v", c.Code, rc.IsValid())
		}
		if rc.IsValidV3() != (c.Code <= 5) {
			return errf("ReasonCode(0x%02x).IsValidV3() is %v", c.Code, rc.IsValidV3())
		}
		if !(c.Code >= 1 && c.Code <= 5) && rc.IsValidV5() != ref.DefinedCode5(c.Code) {
			return errf("ReasonCode(0x%02x).IsValidV5() is %v", c.Code, rc.IsValidV5())
		}
		if rc.Value() != c.Code {
			return errf("ReasonCode(0x%02x).Value() is 0x%02x", c.Code, rc.Value())
		}
		want := ref.CodeNo
		for _, t := range ref.CodeTypes {
			if t == c.Type {
				want = ref.Code5(t, c.Code)
			}
		}
		t := mqttp.Type(c.Type)
		g := rc.IsValidForType(t)
		if want != ref.CodeAny && g != (want == ref.CodeYes) {
			return errf("ReasonCode(0x%02x).IsValidForType(%d) is %v", c.Code, c.Type, g)
		}
		iss, err := rc.PacketTypeDir(t)
		if (err == nil) != g {
			return errf("ReasonCode(0x%02x).PacketTypeDir(%d): error %v, but IsValidForType is %v", c.Code, c.Type, err, g)
		}
		if err != nil && iss != mqttp.CodeIssuerInvalid {
			return errf("ReasonCode(0x%02x).PacketTypeDir(%d) fails with issuer %d", c.Code, c.Type, iss)
		}
		if err == nil {
			if iss == mqttp.CodeIssuerInvalid && mqttp.CodeIssuerInvalid != mqttp.CodeIssuerServer {
				return errf("ReasonCode(0x%02x).PacketTypeDir(%d) names no issuer", c.Code, c.Type)
			}
			if w, ok := issuer(c.Type, c.Code); ok && iss != w {
				return errf("ReasonCode(0x%02x).PacketTypeDir(%d) is issuer %d, want %d", c.Code, c.Type, iss, w)
			}
		}
		return nil
	}
	p := withCode(c.Ver, c.Type, c.Code)
	verdict := codeVerdict(c.Ver, c.Type, c.Code)
	what := fmt.Sprintf("code 0x%02x in %s", c.Code, className(p))
	if c.Kind == "decode" {
		for _, props := range [][]ref.PV{nil, {{ID: 0x26, S: []byte("k"), V: []byte("v")}}} {
			if props != nil && c.Ver != 5 {
				continue
			}
			q := p.Clone()
			q.Props = props
			if c.Type == ref.AUTH && props != nil {
				q.Props = append(q.Props, ref.PV{ID: 0x15, S: []byte("m")})
			}
			b := q.Encode(ref.Form{})
			d, pn := sut.Decode(c.Ver, b)
			if pn != nil {
				return errf("%s: %v", what, pn)
			}
			ok := d.Err == nil && !isNil(d.M)
			if verdict != ref.CodeAny && ok != (verdict == ref.CodeYes) {
				return errf("decoding %s (%s): accepted %v (%v)", what, hx(b), ok, d.Err)
			}
			if ok {
				g, err := sut.Extract(d.M)
				if err != nil {
					return errf("%s: %v", what, err)
				}
				if df := ref.Diff(q, g); df != "" {
					return errf("%s reads back as other content: %s", what, df)
				}
			}
		}
		return nil
	}
	// set
	m, err := mqttp.New(verOf(int(c.Ver)), mqttp.Type(c.Type))
	if err != nil {
		return errf("New: %v", err)
	}
	if s, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
		s.SetPacketID(5)
	}
	old := firstValid(c.Ver, c.Type, c.Code)
	judgeSet := func(e error, get func() []byte, before, after []byte) error {
		if verdict != ref.CodeAny && (e == nil) != (verdict == ref.CodeYes) {
			return errf("setting %s: error %v", what, e)
		}
		want := after
		if e != nil {
			want = before
		}
		if string(get()) != string(want) {
			return errf("setting %s (error %v): the packet now shows %x, want %x", what, e, get(), want)
		}
		if _, err := sut.EncodeBoth(m); err != nil {
			return errf("after setting %s: %v", what, err)
		}
		return nil
	}
	lst := func(f func() []mqttp.ReasonCode) func() []byte {
		return func() []byte {
			var r []byte
			for _, k := range f() {
				r = append(r, byte(k))
			}
			return r
		}
	}
	switch s := m.(type) {
	case *mqttp.ConnAck:
		if err = s.SetReturnCode(mqttp.ReasonCode(old)); err != nil {
			return errf("SetReturnCode(0x%02x): %v", old, err)
		}
		return judgeSet(s.SetReturnCode(rc), func() []byte { return []byte{byte(s.ReturnCode())} }, []byte{old}, []byte{c.Code})
	case *mqttp.Auth:
		if err = s.SetReasonCode(mqttp.ReasonCode(old)); err != nil {
			return errf("SetReasonCode(0x%02x): %v", old, err)
		}
		return judgeSet(s.SetReasonCode(rc), func() []byte { return []byte{byte(s.ReasonCode())} }, []byte{old}, []byte{c.Code})
	case *mqttp.SubAck:
		if err = s.AddReturnCode(mqttp.ReasonCode(old)); err != nil {
			return errf("AddReturnCode(0x%02x): %v", old, err)
		}
		if err = judgeSet(s.AddReturnCode(rc), lst(s.ReturnCodes), []byte{old}, []byte{old, c.Code}); err != nil {
			return err
		}
	case *mqttp.UnSubAck:
		if err = s.AddReturnCode(mqttp.ReasonCode(old)); err != nil {
			return errf("AddReturnCode(0x%02x): %v", old, err)
		}
		if err = judgeSet(s.AddReturnCode(rc), lst(s.ReturnCodes), []byte{old}, []byte{old, c.Code}); err != nil {
			return err
		}
	}
	return nil
}

type codeList struct {
	Type  int    `json:"type"`
	Ver   byte   `json:"ver"`
	Codes []byte `json:"codes"`
}

func genCodeList(t *rapid.T) *codeList {
	c := &codeList{Type: gen.Pick(t, []int{ref.SUBACK, ref.SUBACK, ref.UNSUBACK}, "t"), Ver: byte(gen.Pick(t, gen.Versions, "v"))}
	if c.Type == ref.UNSUBACK {
		c.Ver = 5
	}
	n := gen.Count(t, "n")
	for i := 0; i < n; i++ {
		if i < 30 {
			c.Codes = append(c.Codes, gen.Code(t, int(c.Ver), c.Type))
		} else {
			c.Codes = append(c.Codes, c.Codes[i%30])
		}
	}
	if gen.Int(t, 0, 2, "bad") > 0 {
		c.Codes[gen.Int(t, 0, n-1, "badAt")] = rapid.Byte().Draw(t, "badCode")
	}
	return c
}

func checkCodeList(c *codeList, x *prop.Ctx) error {
	p := minimal(c.Ver, c.Type)
	p.Codes = c.Codes
	bad := -1
	for i, k := range c.Codes {
		if codeVerdict(c.Ver, c.Type, k) != ref.CodeYes {
			bad = i
			break
		}
	}
	if bad >= 0 {
		x.Class("list with an undefined code, " + className(p))
	} else {
		x.Class("valid list, " + className(p))
	}
	if len(c.Codes) > 1 {
		x.NonTrivial()
	}
	if err := judge(c.Ver, p.Encode(ref.Form{}), "code list"); err != nil {
		return err
	}
	var l []mqttp.ReasonCode
	for _, k := range c.Codes {
		l = append(l, mqttp.ReasonCode(k))
	}
	var err error
	var get func() []mqttp.ReasonCode
	m, e := mqttp.New(verOf(int(c.Ver)), mqttp.Type(c.Type))
	if e != nil {
		return e
	}
	switch s := m.(type) {
	case *mqttp.SubAck:
		s.SetPacketID(9)
		err, get = s.AddReturnCodes(l), s.ReturnCodes
	case *mqttp.UnSubAck:
		s.SetPacketID(9)
		err, get = s.AddReturnCodes(l), s.ReturnCodes
	}
	if (err == nil) != (bad < 0) {
		return errf("AddReturnCodes(%x) on %s: error %v", c.Codes, className(p), err)
	}
	g := get()
	if err == nil && len(g) != len(l) {
		return errf("AddReturnCodes(%x): %d codes", c.Codes, len(g))
	}
	for i, k := range g {
		if i >= len(l) || bad >= 0 && i >= bad || k != l[i] {
			return errf("AddReturnCodes(%x): the packet shows %x", c.Codes, g)
		}
	}
	if err == nil {
		b, e := sut.EncodeBoth(m)
		if e != nil {
			return e
		}
		q, v, why := ref.Decode(c.Ver, b)
		if v == ref.Invalid {
			return errf("code list %x encodes to a malformed packet (%s)", c.Codes, why)
		}
		if df := ref.Diff(p, q); df != "" {
			return errf("code list %x: %s", c.Codes, df)
		}
	}
	return nil
}

// ---- C21 -------------------------------------------------------------------

type typeCase struct {
	Kind string `json:"kind"` // factory, type, version, qos
	Type int    `json:"type"`
	Ver  int    `json:"ver"`
}

func enumTypes(yield func(*typeCase)) {
	for t := 0; t < 256; t++ {
		yield(&typeCase{"type", t, 0})
		yield(&typeCase{"qos", t, 0})
		yield(&typeCase{"version", t, 0})
		for _, v := range []int{3, 4, 5} {
			yield(&typeCase{"factory", t, v})
		}
		for v := 0; v < 256; v++ {
			yield(&typeCase{"valid", t, v})
		}
	}
}

var typeDescWords = []string{"reserved", "connect", "accept|connect", "publish", "publish ack|puback", "received|part 1", "release|part 2", "complete|part 3",
	"client subscribe|subscribe request", "subscribe ack", "unsubscribe request", "unsubscribe ack", "ping request", "ping response", "disconnect", "auth"}

func hasWords(s, words string) bool {
	s = strings.ToLower(s)
	for _, w := range strings.Split(words, "|") {
		if strings.Contains(s, w) {
			return true
		}
	}
	return false
}

func checkType(c *typeCase, x *prop.Ctx) error {
	x.Class(c.Kind)
	x.NonTrivial()
	t := mqttp.Type(c.Type)
	v := verOf(c.Ver)
	switch c.Kind {
	case "type":
		if c.Type <= 15 {
			if t.Name() != ref.TypeNames[c.Type] {
				return errf("Type(%d).Name() is %q", c.Type, t.Name())
			}
			if !hasWords(t.Desc(), typeDescWords[c.Type]) {
				return errf("Type(%d).Desc() is %q", c.Type, t.Desc())
			}
			if c.Type != ref.PUBLISH && t.DefaultFlags() != ref.FixedFlags(c.Type) || c.Type == ref.PUBLISH && t.DefaultFlags() != 0 {
				return errf("Type(%d).DefaultFlags() is %d", c.Type, t.DefaultFlags())
			}
			for o := 0; o < 16; o++ {
				if o != c.Type && (mqttp.Type(o).Desc() == t.Desc() || mqttp.Type(o).Name() == t.Name()) {
					return errf("types %d and %d share a description", o, c.Type)
				}
			}
			return nil
		}
		last := mqttp.Type(255)
		if t.Name() != last.Name() || t.Desc() != last.Desc() {
			return errf("Type(%d) is named %q/%q, Type(255) %q/%q", c.Type, t.Name(), t.Desc(), last.Name(), last.Desc())
		}
		for o := 0; o < 16; o++ {
			if mqttp.Type(o).Name() == t.Name() || mqttp.Type(o).Desc() == t.Desc() {
				return errf("undefined type %d shares the description of type %d", c.Type, o)
			}
		}
		if t.DefaultFlags() != 0 {
			return errf("Type(%d).DefaultFlags() is %d", c.Type, t.DefaultFlags())
		}
	case "qos":
		q := mqttp.QosType(c.Type)
		if q.IsValid() != (c.Type <= 2) {
			return errf("QosType(%d).IsValid() is %v", c.Type, q.IsValid())
		}
		if q.IsValidFull() != (c.Type <= 2 || c.Type == 0x80) {
			return errf("QosType(%d).IsValidFull() is %v", c.Type, q.IsValidFull())
		}
		fb := mqttp.QosType(3).Desc()
		if c.Type <= 2 {
			if q.Desc() != fmt.Sprintf("QoS%d", c.Type) {
				return errf("QosType(%d).Desc() is %q", c.Type, q.Desc())
			}
		} else if q.Desc() != fb || fb == "QoS0" || fb == "QoS1" || fb == "QoS2" {
			return errf("QosType(%d).Desc() is %q", c.Type, q.Desc())
		}
	case "version":
		p := verOf(c.Type)
		if p.IsValid() != (c.Type >= 3 && c.Type <= 5) {
			return errf("ProtocolVersion(%d).IsValid() is %v", c.Type, p.IsValid())
		}
		if n, ok := mqttp.SupportedVersions[p]; ok != p.IsValid() || ok && n != ref.ProtoName(byte(c.Type)) {
			return errf("SupportedVersions[%d] is %q", c.Type, n)
		}
	case "valid":
		ok, err := t.Valid(v)
		sup := c.Ver >= 3 && c.Ver <= 5
		if sup != (err == nil) {
			return errf("Type(%d).Valid(%d): error %v", c.Type, c.Ver, err)
		}
		want := sup && c.Type >= 1 && (c.Type <= 14 || c.Type == 15 && c.Ver == 5)
		if ok != want {
			return errf("Type(%d).Valid(%d) is %v", c.Type, c.Ver, ok)
		}
	case "factory":
		var m mqttp.IFace
		var err error
		if pn := sut.Safe("New", func() { m, err = mqttp.New(v, t) }); pn != nil {
			return pn
		}
		want, _ := t.Valid(v)
		if want != (err == nil) || want != !isNil(m) {
			return errf("New(%d,%d): %T, %v; Type.Valid says %v", c.Ver, c.Type, m, err, want)
		}
		if !want {
			return nil
		}
		if err = checkFresh(m, c.Ver, c.Type); err != nil {
			return err
		}
		tm := sut.Typed(v, c.Type)
		if err = checkFresh(tm, c.Ver, c.Type); err != nil {
			return errf("by its own constructor: %v", err)
		}
		// what both encode to, or refuse to
		for i, f := range []mqttp.IFace{m, tm} {
			if f, ok := f.(interface{ SetPacketID(mqttp.IDType) }); ok {
				f.SetPacketID(0x1234)
			}
			if s, ok := f.(*mqttp.Connect); ok {
				if err = s.SetClientID([]byte("c")); err != nil {
					return errf("SetClientID: %v", err)
				}
			}
			if s, ok := f.(*mqttp.Publish); ok {
				if err = s.SetTopic("t"); err != nil {
					return errf("SetTopic: %v", err)
				}
			}
			if s, ok := f.(topicLister); ok {
				tp, e := mqttp.NewTopic([]byte("t"))
				if e != nil {
					return errf("NewTopic: %v", e)
				}
				_ = s.AddTopic(tp)
			}
			if s, ok := f.(codeLister); ok {
				_ = s.AddReturnCode(0)
			}
			b, e := sut.EncodeBoth(f)
			if e != nil {
				return errf("nearly fresh %s v%d (maker %d): %v", ref.TypeNames[c.Type], c.Ver, i, e)
			}
			q, verdict, why := ref.Decode(byte(c.Ver), b)
			if verdict == ref.Invalid || q == nil {
				return errf("nearly fresh %s v%d (maker %d) encodes to %s: %s", ref.TypeNames[c.Type], c.Ver, i, hx(b), why)
			}
			if q.Type != c.Type || (q.HasID() && q.ID != 0x1234) || len(q.Props) != 0 || q.Code != 0 {
				return errf("nearly fresh %s v%d (maker %d) encodes to %s", ref.TypeNames[c.Type], c.Ver, i, hx(b))
			}
		}
		return nil
	}
	return nil
}

// checkFresh checks a packet that nothing was set on.
func checkFresh(m mqttp.IFace, ver, typ int) error {
	what := fmt.Sprintf("fresh %s v%d", ref.TypeNames[typ], ver)
	if reflect.ValueOf(m).IsNil() {
		return errf("%s is nil", what)
	}
	if int(m.Type()) != typ || int(m.Version()) != ver {
		return errf("%s reports type %d version %d", what, m.Type(), m.Version())
	}
	if m.Desc() != mqttp.Type(typ).Desc() {
		return errf("%s Desc() is %q", what, m.Desc())
	}
	if n, ok := m.(interface{ Name() string }); ok && n.Name() != ref.TypeNames[typ] {
		return errf("%s Name() is %q", what, n.Name())
	}
	if id, err := m.ID(); err == nil || id != 0 {
		return errf("%s has packet id %d (error %v)", what, id, err)
	}
	p, err := sut.Extract(m)
	if err != nil {
		return errf("%s: %v", what, err)
	}
	if d := ref.Diff(&ref.Packet{Ver: byte(ver), Type: typ}, p); d != "" {
		return errf("%s: %s", what, d)
	}
	for id := 0; id < 256; id++ {
		if m.PropertyGet(mqttp.PropertyID(id)) != nil {
			return errf("%s has property 0x%02x", what, id)
		}
	}
	if x, ok := m.(*mqttp.Publish); ok {
		if _, _, exp := x.Expired(); exp || x.PublishID() != 0 {
			return errf("%s is expired or has a publish id", what)
		}
	}
	return nil
}

// ---- C25 -------------------------------------------------------------------

type namedErr struct {
	name  string
	v     int
	words string
}

type errFamily struct {
	name     string
	text     func(int) string
	vals     []namedErr
	fallback string // words of the fallback text
	byteWide bool
}

var families = func() []*errFamily {
	mq := func(n string, e mqttp.Error, w string) namedErr { return namedErr{n, int(e), w} }
	fs := []*errFamily{
		{name: "mqttp.Error", byteWide: true, fallback: "unknown", text: func(i int) string { return mqttp.Error(i).Error() }, vals: []namedErr{
			mq("ErrInvalidUnSubscribe", mqttp.ErrInvalidUnSubscribe, "unsubscribe"),
			mq("ErrInvalidUnSubAck", mqttp.ErrInvalidUnSubAck, "unsuback"),
			mq("ErrDupViolation", mqttp.ErrDupViolation, "dup"),
			mq("ErrPackedIDNotMatched", mqttp.ErrPackedIDNotMatched, "match"),
			mq("ErrInvalid", mqttp.ErrInvalid, "invalid"),
			mq("ErrPackedIDZero", mqttp.ErrPackedIDZero, "0|zero"),
			mq("ErrOnPublishNil", mqttp.ErrOnPublishNil, "nil"),
			mq("ErrInvalidMessageType", mqttp.ErrInvalidMessageType, "type"),
			mq("ErrInvalidMessageTypeFlags", mqttp.ErrInvalidMessageTypeFlags, "flags"),
			mq("ErrInvalidQoS", mqttp.ErrInvalidQoS, "qos"),
			mq("ErrInvalidLength", mqttp.ErrInvalidLength, "length"),
			mq("ErrProtocolViolation", mqttp.ErrProtocolViolation, "violation"),
			mq("ErrInsufficientBufferSize", mqttp.ErrInsufficientBufferSize, "buffer"),
			mq("ErrInsufficientDataSize", mqttp.ErrInsufficientDataSize, "data"),
			mq("ErrInvalidTopic", mqttp.ErrInvalidTopic, "topic"),
			mq("ErrEmptyPayload", mqttp.ErrEmptyPayload, "payload"),
			mq("ErrInvalidReturnCode", mqttp.ErrInvalidReturnCode, "return code"),
			mq("ErrUnimplemented", mqttp.ErrUnimplemented, "implemented"),
			mq("ErrInvalidLPStringSize", mqttp.ErrInvalidLPStringSize, "string size"),
			mq("ErrMalformedTopic", mqttp.ErrMalformedTopic, "malformed topic"),
			mq("ErrMalformedStream", mqttp.ErrMalformedStream, "stream"),
			mq("ErrInvalidProtocolVersion", mqttp.ErrInvalidProtocolVersion, "version"),
			mq("ErrNotSet", mqttp.ErrNotSet, "not set"),
			mq("ErrPanicDetected", mqttp.ErrPanicDetected, "panic"),
			mq("ErrInvalidArgs", mqttp.ErrInvalidArgs, "argument"),
			mq("ErrInvalidUtf8", mqttp.ErrInvalidUtf8, "utf"),
			mq("ErrNotSupported", mqttp.ErrNotSupported, "not supported"),
			mq("ErrProtocolInvalidName", mqttp.ErrProtocolInvalidName, "name"),
		}},
		{name: "vlauth.Error", fallback: "unknown error", text: func(i int) string { return vlauth.Error(i).Error() }, vals: []namedErr{
			{"ErrInvalidArgs", int(vlauth.ErrInvalidArgs), "argument"},
			{"ErrUnknownProvider", int(vlauth.ErrUnknownProvider), "unknown provider"},
			{"ErrAlreadyExists", int(vlauth.ErrAlreadyExists), "exists"},
			{"ErrNotFound", int(vlauth.ErrNotFound), "not found"},
			{"ErrNotOpen", int(vlauth.ErrNotOpen), "not open"},
			{"ErrInternal", int(vlauth.ErrInternal), "internal"},
		}},
		{name: "vlauth.Status", fallback: "unknown status", text: func(i int) string { return vlauth.Status(i).Error() }, vals: []namedErr{
			{"StatusAllow", int(vlauth.StatusAllow), "granted|allow"},
			{"StatusDeny", int(vlauth.StatusDeny), "denied|deny"},
		}},
		{name: "vlpersistence.Errors", fallback: "unknown error", text: func(i int) string { return vlpersistence.Errors(i).Error() }, vals: []namedErr{
			{"ErrInvalidArgs", int(vlpersistence.ErrInvalidArgs), "argument"},
			{"ErrUnknownProvider", int(vlpersistence.ErrUnknownProvider), "unknown provider"},
			{"ErrInvalidConfig", int(vlpersistence.ErrInvalidConfig), "config"},
			{"ErrAlreadyExists", int(vlpersistence.ErrAlreadyExists), "exists"},
			{"ErrNotInitialized", int(vlpersistence.ErrNotInitialized), "not initialized"},
			{"ErrNotFound", int(vlpersistence.ErrNotFound), "not found"},
			{"ErrNotOpen", int(vlpersistence.ErrNotOpen), "not open"},
			{"ErrBrokenEntry", int(vlpersistence.ErrBrokenEntry), "broken"},
		}},
		{name: "mqttp.PropertyError", fallback: "unknown", text: func(i int) string { return mqttp.PropertyError(i).Error() }, vals: []namedErr{
			{"ErrPropertyNotFound", int(mqttp.ErrPropertyNotFound), "not found"},
			{"ErrPropertyInvalidID", int(mqttp.ErrPropertyInvalidID), "invalid"},
			{"ErrPropertyPacketTypeMismatch", int(mqttp.ErrPropertyPacketTypeMismatch), "packet type"},
			{"ErrPropertyTypeMismatch", int(mqttp.ErrPropertyTypeMismatch), "value type"},
			{"ErrPropertyDuplicate", int(mqttp.ErrPropertyDuplicate), "duplicate"},
			{"ErrPropertyUnsupported", int(mqttp.ErrPropertyUnsupported), "unsupported"},
			{"ErrPropertyWrongType", int(mqttp.ErrPropertyWrongType), "type"},
		}},
	}
	rc := &errFamily{name: "mqttp.ReasonCode", byteWide: true, fallback: "unknown", text: func(i int) string { return mqttp.ReasonCode(i).Error() }}
	for c, w := range map[byte]string{
		0x00: "success", 0x01: "protocol", 0x02: "identifier", 0x03: "unavailable|refused", 0x04: "user name or password", 0x05: "not authorized",
		0x10: "no subscribers|matching", 0x11: "subscription existed", 0x18: "continue", 0x19: "re-auth", 0x80: "not specified|unspecified", 0x81: "malformed",
		0x82: "protocol error", 0x83: "implementation", 0x84: "unsupported protocol", 0x85: "client identifier", 0x86: "user name or password", 0x87: "not authorized",
		0x88: "unavailable", 0x89: "busy", 0x8A: "banned", 0x8B: "shutting", 0x8C: "authentication method", 0x8D: "keep alive", 0x8E: "taken over", 0x8F: "topic filter",
		0x90: "topic name", 0x91: "in use", 0x92: "identifier not found", 0x93: "receive maximum", 0x94: "topic alias", 0x95: "too large", 0x96: "rate too high", 0x97: "quota",
		0x98: "administrative", 0x99: "payload format", 0x9A: "retain", 0x9B: "qos", 0x9C: "another server", 0x9D: "moved", 0x9E: "shared", 0x9F: "connection rate",
		0xA0: "maximum connect", 0xA1: "subscription identifiers", 0xA2: "wildcard",
	} {
		rc.vals = append(rc.vals, namedErr{fmt.Sprintf("0x%02x", c), int(c), w})
	}
	return append(fs, rc)
}()

type descCase struct {
	Family int `json:"family"`
	V      int `json:"v"`
}

func enumDesc(yield func(*descCase)) {
	for f, fam := range families {
		if fam.byteWide {
			for v := 0; v < 256; v++ {
				yield(&descCase{f, v})
			}
			continue
		}
		for v := -300; v <= 300; v++ {
			yield(&descCase{f, v})
		}
		for _, v := range []int{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1 << 16, 1<<16 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 2} {
			yield(&descCase{f, v})
		}
	}
}

func genDesc(t *rapid.T) *descCase {
	c := &descCase{Family: gen.Int(t, 0, len(families)-1, "f"), V: rapid.Int().Draw(t, "v")}
	if families[c.Family].byteWide {
		c.V &= 255
	}
	return c
}

func checkDesc(c *descCase, x *prop.Ctx) error {
	f := families[c.Family]
	x.Class(f.name)
	x.NonTrivial()
	var s string
	if pn := sut.Safe(f.name, func() { s = f.text(c.V) }); pn != nil {
		return errf("%s(%d): %v", f.name, c.V, pn)
	}
	if strings.TrimSpace(s) == "" {
		return errf("%s(%d) has an empty description", f.name, c.V)
	}
	known := map[int]bool{}
	fb := ""
	for _, n := range f.vals {
		known[n.v] = true
	}
	for v := 255; v >= 0; v-- {
		if !known[v] {
			fb = f.text(v)
			break
		}
	}
	for _, n := range f.vals {
		if n.v != c.V {
			continue
		}
		if s == fb {
			return errf("%s %s (%d) is described by the fallback text %q", f.name, n.name, c.V, s)
		}
		if !hasWords(s, n.words) {
			return errf("%s %s (%d) is described as %q, which does not mention %q", f.name, n.name, c.V, s, n.words)
		}
		for _, o := range f.vals {
			if o.v != n.v && f.text(o.v) == s {
				return errf("%s %s and %s share the description %q", f.name, n.name, o.name, s)
			}
		}
	}
	if !known[c.V] {
		if s != fb || !hasWords(s, f.fallback) {
			return errf("%s(%d) is described as %q, the fallback is %q", f.name, c.V, s, fb)
		}
	}
	switch c.Family {
	case 2:
		if d := vlauth.Status(c.V).Desc(); (d == "allow") != (c.V == int(vlauth.StatusAllow)) || d != "allow" && d != "deny" {
			return errf("vlauth.Status(%d).Desc() is %q", c.V, d)
		}
		want := ""
		switch vlauth.AccessType(c.V) {
		case vlauth.AccessRead:
			want = "read"
		case vlauth.AccessWrite:
			want = "write"
		}
		if g := vlauth.AccessType(c.V).Type(); g != want && !(want == "" && g != "read" && g != "write") {
			return errf("vlauth.AccessType(%d).Type() is %q", c.V, g)
		}
	case len(families) - 1:
		r := mqttp.ReasonCode(c.V)
		if r.Desc() != r.Error() {
			return errf("ReasonCode(0x%02x): Desc %q, Error %q", c.V, r.Desc(), r.Error())
		}
	}
	return nil
}

func init() {
	register(&prop.Def{ID: "C11", Quick: 96000, Thoro: 1000000,
		Rule: "all 256 codes x all types carrying one x versions through decoding and the setters, all 256 codes x 256 type values through the predicates and the issuer lookup, plus random code lists; non-trivial: all enumerated, lists of two or more codes",
		Subs: []*prop.Sub{
			prop.Enum("codes", enumCodes, checkCode),
			prop.Gen("lists", 1, genCodeList, checkCodeList),
		}})
	register(&prop.Def{ID: "C21", Quick: 16000, Thoro: 400000,
		Rule: "all 256 type values x versions through the factory, all 256 x 256 (type, version) pairs, all 256 QoS and version values; plus packets created after other packets of the same kind were filled; non-trivial: all",
		Subs: []*prop.Sub{
			prop.Enum("metadata", enumTypes, checkType),
			prop.Gen("fresh", 1, genFresh, checkFreshAfter),
		}})
	register(&prop.Def{ID: "C25", Quick: 20000, Thoro: 1000000,
		Rule: "every value of the byte-wide kinds, -300..300 and extremes of the others, plus random values; non-trivial: all",
		Subs: []*prop.Sub{
			prop.Enum("values", enumDesc, checkDesc),
			prop.Gen("random", 1, genDesc, checkDesc),
		}})
}

// genFresh: a filled packet, after which a new one of the same type must be empty.
func genFresh(t *rapid.T) *wireCase {
	return &wireCase{P: gen.Packet(t, gen.Opt{Build: true, NoPad: true})}
}

// disturb changes everything any packet lets its owner change.
func disturb(m mqttp.IFace) {
	was := m.Version()
	for _, v := range gen.Versions {
		m.SetVersion(verOf(int(v)))
		_ = m.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "k", V: "v"})
		if s, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
			s.SetPacketID(0x1234)
		}
		_, _ = mqttp.Encode(m)
	}
	if was == mqttp.ProtocolV50 {
		m.SetVersion(mqttp.ProtocolV311)
	}
}

func checkFreshAfter(c *wireCase, x *prop.Ctx) error {
	x.Class(className(c.P))
	x.NonTrivial()
	if _, err := sut.Build(c.P); err != nil {
		return errf("building: %v", err)
	}
	if _, err := decodeOK(c.P.Ver, c.P.Encode(ref.Form{})); err != nil {
		return err
	}
	for _, v := range []int{3, 4, 5} {
		if v != 5 && c.P.Type == ref.AUTH {
			continue
		}
		// packets made one after another, by the factory and by the type's own
		// constructor, do not share anything: what is done to one of them shows
		// in no other
		var made []mqttp.IFace
		for i := 0; i < 2; i++ {
			m, err := mqttp.New(verOf(v), mqttp.Type(c.P.Type))
			if err != nil {
				return errf("New: %v", err)
			}
			made = append(made, m)
			if m = sut.Typed(verOf(v), c.P.Type); m != nil {
				made = append(made, m)
			}
		}
		for i, m := range made {
			if err := checkFresh(m, v, c.P.Type); err != nil {
				return errf("packet %d of %d: %v", i, len(made), err)
			}
			disturb(m)
		}
		if m, err := mqttp.New(verOf(v), mqttp.Type(c.P.Type)); err != nil {
			return errf("New: %v", err)
		} else if err = checkFresh(m, v, c.P.Type); err != nil {
			return errf("made last: %v", err)
		}
	}
	return nil
}
