// Package gen holds the rapid generators.  Every random choice is drawn through
// rapid, so that a case is a pure function of the seed and shrinks.
package gen

import (
	"bytes"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"vlverif/ref"
)

// Int draws lo..hi.
func Int(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// Flip draws a boolean.
func Flip(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// OneIn is true about once in n draws (and shrinks to false).
func OneIn(t *rapid.T, n int, label string) bool {
	return rapid.Uint32Range(0, uint32(n-1)).Draw(t, label) == uint32(n-1)
}

// Pick draws one element.
func Pick[T any](t *rapid.T, xs []T, label string) T { return rapid.SampledFrom(xs).Draw(t, label) }

var runesPlain = []rune("abcdefgxyzABZ0189")
var runesWide = []rune("éß漢字€😀\u00a0\ufeff\ufffd\U0010ffff\ud7ff\ue000ñ~!\"'\\ .,:;=&%@*?|<>[]{}()^`_-")

// Rune draws a character that is legal in MQTT text and is neither a wildcard nor a separator.
func Rune(t *rapid.T) rune {
	if Int(t, 0, 3, "wide") == 3 {
		return Pick(t, runesWide, "wr")
	}
	return Pick(t, runesPlain, "r")
}

// PadText is deterministic filler text of n bytes.
func PadText(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i+i/36)%36]
	}
	return b
}

// PadBytes is deterministic binary filler of n bytes.
func PadBytes(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + seed)
	}
	return b
}

// Boundary lengths of length-prefixed fields.
var lpBound = []int{1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 16383, 16384, 32767, 32768, 65534, 65535}

// Len draws a field length: mostly tiny, sometimes on a boundary.
func Len(t *rapid.T, max int, label string) int {
	k := Int(t, 0, 39, label+"K")
	switch {
	case k < 31:
		return min(Int(t, 0, 8, label), max)
	case k < 36:
		return min(Int(t, 0, 300, label), max)
	case k < 38:
		return min(Pick(t, lpBound[:12], label), max)
	case k == 38:
		return min(Pick(t, lpBound, label), max)
	}
	return min(Int(t, 0, 5000, label), max)
}

// Contents that code written for text, files or frames treats specially.
var talesBin = [][]byte{
	[]byte("\xef\xbb\xbf"), []byte("\xef\xbb\xbfabc"), []byte("\xff\xfeab"), []byte("\x00"), []byte("a\x00"), []byte("abc\x00\x00\x00"),
	[]byte("\x00\x00\x00\x00"), []byte("\xff\xff\xff\xff"), []byte("\r\n"), []byte("line\r\n"), []byte("line\n"), []byte("\n"), []byte(" "), []byte("  a  "), []byte("\t"),
	[]byte(`{"a":1,"b":[null,"\u00e9"]}`), []byte("null"), []byte("0"), []byte("true"), []byte("\x1f\x8b\x08\x00"), []byte("\xc0\x80"), []byte("\xed\xa0\x80"), []byte("\xc3"), []byte("a\xc3"), []byte("\x80"),
	{0x30, 3, 0, 1, 'a'}, {0xd0, 0}, {0x10, 0xff, 0xff, 0xff, 0x7f}, {0, 4, 'M', 'Q', 'T', 'T'}, {0, 1}, {0, 0}, {0x26, 0, 1, 'k', 0, 1, 'v'},
	bytes.Repeat([]byte{0}, 64), bytes.Repeat([]byte{0xff}, 130), bytes.Repeat([]byte(" "), 16), []byte("caf\u00e9 na\u00efve \u65e5\u672c\u8a9e"),
}

var tales = []string{
	"\ufeff", "\ufeffabc", "abc\ufeff", " ", "  ", " a", "a ", "  a  ", "e\u0301", "\u00e9", "\u0301", "\u200d", "\u200b", "\u202e", "\u2028", "\u00ad", "\u00a0", "\u3000",
	"A", "a", "Abc", "ABC", "\u0130", "\u00df", "\u1e9e", "\ufb01", "\u212a", "\uff21", ".", "..", "../..", "\\", "\\u0000", "%00", "%2f", "%s%d%n", "&amp;", "\"", "'", "`", "''", "\"\"", ";", ":", ",", "=", "k=v", "a:b",
	"user:pass", "user@example.com", "http://example.com/a?b=c", "null", "nil", "<nil>", "true", "0", "-1", "1e9", "NaN", "{}", "[]", "${a}", "$", "$SYS", "$share", "*", "?", "~", "-", "--", "_", "|", "^", "MQTT", "MQIsdp",
	"\U0001f600", "\U0001f468\u200d\U0001f469", "\u65e5\u672c\u8a9e", "\u05d0\u05d1", "\u0e01\u0e33", "\U00010000", "\U0010fffd", "\ud7ff", "\ue000", "\ufffd", "caf\u00e9 na\u00efve",
}

// Tale draws a short text that naive code mistreats.
func Tale(t *rapid.T) string { return Pick(t, tales, "tale") }

// WideText is deterministic filler text of n bytes with characters of all lengths.
func WideText(n, seed int) []byte {
	all := append(append([]rune{}, runesWide...), runesPlain...)
	b := make([]byte, 0, n)
	for i := seed; len(b) < n; i++ {
		if c := string(all[(i*7+i/len(all))%len(all)]); len(b)+len(c) <= n {
			b = append(b, c...)
		} else {
			b = append(b, 'x')
		}
	}
	return b
}

// Bytes draws binary data.
func Bytes(t *rapid.T, max int, label string) []byte {
	if OneIn(t, 8, label+"T") {
		if b := Pick(t, talesBin, label+"t"); len(b) <= max {
			return append([]byte{}, b...)
		}
	}
	n := Len(t, max, label)
	if n <= 8 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label+"B")
	}
	return PadBytes(n, Int(t, 0, 255, label+"S"))
}

// Payload draws an application message, now and then longer than any length-prefixed field.
func Payload(t *rapid.T, label string) []byte {
	if OneIn(t, 150, label+"L") {
		return PadBytes(Pick(t, []int{65536, 65537, 65540, 66000, 70001, 131072, 200000}, label+"LN"), Int(t, 0, 255, label+"LS"))
	}
	return Bytes(t, 65535, label)
}

// Text draws MQTT text without control characters (may contain separators and wildcards).
func Text(t *rapid.T, max int, label string) []byte {
	if OneIn(t, 8, label+"T") {
		if b := Pick(t, tales, label+"t"); len(b) <= max {
			return []byte(b)
		}
	}
	n := Len(t, max, label)
	if n > 8 {
		if Flip(t, label+"W") {
			return WideText(n, Int(t, 0, 60, label+"w"))
		}
		return PadText(n)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if Int(t, 0, 9, "sep") == 9 {
			sb.WriteByte("/+#$ "[Int(t, 0, 4, "sepc")])
		} else {
			sb.WriteRune(Rune(t))
		}
	}
	if sb.Len() > max {
		return PadText(max)
	}
	return []byte(sb.String())
}

func level(t *rapid.T) string {
	if OneIn(t, 12, "lvlT") {
		if s := Pick(t, tales, "lvlt"); !strings.ContainsAny(s, "/+#") {
			return s
		}
	}
	n := Int(t, 0, 4, "lvl")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(Rune(t))
	}
	return sb.String()
}

// TopicName draws a non-empty valid topic name.
func TopicName(t *rapid.T) []byte {
	switch Int(t, 0, 19, "tn") {
	case 19:
		return PadText(Pick(t, lpBound, "tnLen"))
	case 18:
		return []byte("$SYS/" + level(t))
	case 17:
		return []byte("/" + level(t) + "/")
	case 16:
		return []byte("$share/g/" + level(t))
	}
	n := Int(t, 1, 4, "tnL")
	ls := make([]string, n)
	for i := range ls {
		ls[i] = level(t)
	}
	s := strings.Join(ls, "/")
	if s == "" {
		s = string(Rune(t))
	}
	return []byte(s)
}

// Filter draws a valid topic filter.
func Filter(t *rapid.T) []byte {
	k := Int(t, 0, 29, "fk")
	switch {
	case k == 29:
		return PadText(Pick(t, lpBound, "fLen"))
	case k >= 26:
		sh := level(t)
		if sh == "" {
			sh = "g"
		}
		return []byte("$share/" + sh + "/" + plainFilter(t))
	case k == 25:
		return []byte("$" + level(t) + "/" + plainFilter(t))
	case k == 24:
		return []byte(Pick(t, []string{"$SYS/#", "$share/g/#", "$share/g/+", "$share/g//", "$share/$x/y", "$share/a/$share/b/c", "$share2/a", "$/a", "$//", "$sharex/y/z"}, "fs"))
	case k < 8: // the shortest ones, in numbers
		return []byte(Pick(t, []string{"a", "b", "+", "#", "/", "c", "ab", "a/", "/a", "+/", "/#", "é"}, "f1"))
	}
	return []byte(plainFilter(t))
}

func plainFilter(t *rapid.T) string {
	n := Int(t, 1, 5, "pf")
	ls := make([]string, n)
	for i := range ls {
		switch k := Int(t, 0, 9, "pfk"); {
		case k >= 7:
			ls[i] = "+"
		case k == 6 && i == n-1:
			ls[i] = "#"
		default:
			ls[i] = level(t)
		}
	}
	s := strings.Join(ls, "/")
	if s == "" {
		s = "a"
	}
	if s[0] == '$' {
		s = "a" + s
	}
	return s
}

const cidChars = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ -_,.|/"

// ClientID draws a client identifier of the supported character set.
func ClientID(t *rapid.T) []byte {
	n := Len(t, 65535, "cid")
	b := make([]byte, n)
	off := Int(t, 0, len(cidChars)-1, "cidOff")
	for i := range b {
		if n <= 8 {
			b[i] = cidChars[Int(t, 0, len(cidChars)-1, "cidC")]
		} else {
			b[i] = cidChars[(i+off)%len(cidChars)]
		}
	}
	return b
}

var idBound = []uint16{1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff}

// PacketID draws a non-zero packet identifier.
func PacketID(t *rapid.T) uint16 {
	if Flip(t, "idB") {
		return Pick(t, idBound, "idb")
	}
	return uint16(Int(t, 1, 65535, "id"))
}

var u32Bound = []uint32{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435454, 268435455, 268435456, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}

// U32 draws a boundary-biased 32-bit value.
func U32(t *rapid.T, label string) uint32 {
	if Flip(t, label+"B") {
		return Pick(t, u32Bound, label+"b")
	}
	return rapid.Uint32().Draw(t, label)
}

// PropValue draws a value MQTT allows for property d.
func PropValue(t *rapid.T, d ref.PDef) ref.PV {
	v := ref.PV{ID: d.ID}
	switch d.T {
	case ref.TByte:
		v.N = uint32(Int(t, 0, 1, "pb"))
	case ref.TU16:
		v.N = U32(t, "p16") & 0xffff
		if (d.ID == 0x21 || d.ID == 0x23) && v.N == 0 {
			v.N = 1
		}
	case ref.TU32:
		v.N = U32(t, "p32")
		if d.ID == 0x27 && v.N == 0 {
			v.N = 1
		}
	case ref.TVar:
		v.N = U32(t, "pvar") & 0x0fffffff
		if v.N == 0 {
			v.N = 1
		}
	case ref.TStr:
		if d.ID == 0x08 {
			v.S = TopicName(t)
		} else {
			v.S = Text(t, 65535, "ps")
		}
	case ref.TBin:
		v.S = Bytes(t, 65535, "pbin")
	case ref.TPair:
		v.S = Text(t, 65535, "pk")
		v.V = Text(t, 65535, "pv")
	}
	return v
}

// PadProps grows the last user property so that the block is exactly target bytes long (if it can).
func PadProps(ps []ref.PV, target int) []ref.PV {
	for {
		d := target - ref.PropsLen(ps)
		if d < 5 {
			return ps
		}
		n := d - 5
		v := ref.PV{ID: 0x26}
		if n > 131070 {
			n = 131070 - 5
		}
		k := n / 2
		if k > 65535 {
			k = 65535
		}
		if n-k > 65535 {
			k = n - 65535
		}
		v.S, v.V = PadText(k), PadText(n-k)
		ps = append(ps, v)
	}
}

// Props draws a property list for packet type pt (or ref.WILL), in wire order.
func Props(t *rapid.T, pt int, huge bool) []ref.PV {
	k := Int(t, 0, 9, "propsK")
	if k < 2 {
		return nil
	}
	defs := ref.PropsFor(pt)
	if len(defs) == 0 {
		return nil
	}
	var ps []ref.PV
	want := Int(t, 1, 4, "nprops")
	if k == 9 {
		want = len(defs)
	}
	idx := rapid.Permutation(seq(len(defs))).Draw(t, "pidx")
	have := map[uint32]bool{}
	for _, i := range idx {
		if want == 0 {
			break
		}
		d := defs[i]
		want--
		have[d.ID] = true
		n := 1
		if d.Rep(pt) {
			n = Int(t, 1, 4, "rep")
			if OneIn(t, 30, "repMany") {
				n = Int(t, 5, 60, "repN")
			}
		}
		for j := 0; j < n; j++ {
			ps = append(ps, PropValue(t, d))
		}
	}
	if have[0x16] && !have[0x15] {
		ps = append(ps, ref.PV{ID: 0x15, S: []byte("m")})
	}
	if OneIn(t, 40, "veryMany") {
		id := uint32(0x26)
		if pt == ref.PUBLISH && Flip(t, "manySub") {
			id = 0x0b
		}
		ps = append(ps, ManyProps(t, id)...)
	}
	if OneIn(t, 8, "propsBound") {
		targets := []int{126, 127, 128, 129, 126, 127, 128, 129, 16382, 16383, 16384, 16385}
		if huge {
			targets = append(targets, 2097151, 2097152)
		}
		ps = PadProps(ps, Pick(t, targets, "propsTarget"))
	}
	if len(ps) > 1 && len(ps) <= 64 && Flip(t, "shuffle") {
		perm := rapid.Permutation(seq(len(ps))).Draw(t, "perm")
		q := make([]ref.PV, len(ps))
		for i, j := range perm {
			q[i] = ps[j]
		}
		ps = q
	}
	return ps
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// Opt restricts Packet.
type Opt struct {
	Ver   int // 0: any
	Type  int // 0: any
	Build bool
	Huge  bool // allow multi-megabyte packets (rarely)
	NoPad bool // never pad to large boundaries
}

// Versions, 5.0 more often as it has more to it.
var Versions = []int{3, 4, 5, 5, 5}

var typesV3 = []int{ref.CONNECT, ref.CONNECT, ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBLISH, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP,
	ref.SUBSCRIBE, ref.SUBSCRIBE, ref.SUBSCRIBE, ref.SUBACK, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.PINGREQ, ref.PINGRESP, ref.DISCONNECT}
var typesV5 = append(append([]int{}, typesV3...), ref.AUTH, ref.AUTH, ref.DISCONNECT, ref.UNSUBACK, ref.CONNACK)

// Sub draws one subscription.
func Sub(t *rapid.T, ver, typ int) ref.Sub {
	s := ref.Sub{Topic: Filter(t)}
	if typ == ref.SUBSCRIBE {
		s.Ops = byte(Int(t, 0, 2, "qos"))
		if ver == 5 {
			s.Ops |= byte(Int(t, 0, 2, "rh"))<<4 | byte(Int(t, 0, 3, "nlrap"))<<2
			if fp, ok := ref.SplitFilter(s.Topic); ok && fp.Share != "" {
				s.Ops &^= 4
			}
		}
	}
	return s
}

// Code draws a code valid for packet type pt and version.
func Code(t *rapid.T, ver, pt int) byte {
	if ver != 5 {
		switch pt {
		case ref.CONNACK:
			return byte(Int(t, 0, 5, "code"))
		case ref.SUBACK:
			return Pick(t, []byte{0, 1, 2, 0x80}, "code")
		}
		return 0
	}
	return Pick(t, ref.Codes5[pt], "code")
}

// Count draws a list length of at least one, sometimes large.
func Count(t *rapid.T, label string) int {
	switch k := Int(t, 0, 19, label+"K"); {
	case k < 14:
		return Int(t, 1, 5, label)
	case k < 19:
		return Int(t, 4, 24, label)
	}
	if Int(t, 0, 3, label+"C") == 3 {
		return ManyCount(t, label)
	}
	return Int(t, 25, 400, label)
}

// ManyCount draws a large list length, mostly about a boundary.
func ManyCount(t *rapid.T, label string) int {
	if Flip(t, label+"B") {
		return Pick(t, []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4097}, label+"M")
	}
	return Int(t, 40, 1300, label+"N")
}

// ManyProps draws a long run of one repeatable property, each occurrence telling its place.
func ManyProps(t *rapid.T, id uint32) []ref.PV {
	n := ManyCount(t, "many")
	if id == 0x0b {
		base, step := Int(t, 1, 20000, "manyBase"), Int(t, 0, 7, "manyStep")
		r := make([]ref.PV, n)
		for i := range r {
			r[i] = ref.PV{ID: 0x0b, N: uint32(base + i*step)}
		}
		return r
	}
	mod := Pick(t, []int{1, 2, 10, 1 << 30}, "manyMod")
	r := make([]ref.PV, n)
	for i := range r {
		r[i] = ref.PV{ID: 0x26, S: strconv.AppendInt(nil, int64(i%mod), 36), V: strconv.AppendInt(nil, int64(i), 36)}
		if mod == 1 {
			r[i].S, r[i].V = []byte("k"), []byte("v")
		}
	}
	return r
}

// Packet draws a well-formed packet.
func Packet(t *rapid.T, o Opt) *ref.Packet {
	ver := o.Ver
	if ver == 0 {
		ver = Pick(t, Versions, "ver")
	}
	typ := o.Type
	if typ == 0 {
		if ver == 5 {
			typ = Pick(t, typesV5, "type")
		} else {
			typ = Pick(t, typesV3, "type")
		}
	}
	p := &ref.Packet{Ver: byte(ver), Type: typ}
	v5 := ver == 5
	if v5 {
		p.Props = Props(t, typ, o.Huge)
	}
	switch typ {
	case ref.CONNECT:
		p.Clean, p.KeepAlive = Flip(t, "clean"), uint16(U32(t, "ka"))
		p.ClientID = ClientID(t)
		if len(p.ClientID) == 0 && !v5 {
			p.Clean = true
		}
		if Int(t, 0, 2, "will") > 0 {
			p.Will = &ref.Will{Topic: TopicName(t), Payload: Bytes(t, 65535, "wp"), QoS: byte(Int(t, 0, 2, "wq")), Retain: Flip(t, "wr")}
			if v5 {
				p.Will.Props = Props(t, ref.WILL, o.Huge)
			}
			if o.Build && len(p.Will.Payload) == 0 {
				p.Will.Payload = []byte{0}
			}
		}
		p.HasUser, p.HasPass = Flip(t, "hu"), Flip(t, "hp")
		if p.HasPass && !v5 {
			p.HasUser = true
		}
		if p.HasUser {
			p.User = Text(t, 65535, "user")
			if o.Build && len(p.User) == 0 {
				p.User = []byte("u")
			}
		}
		if p.HasPass {
			p.Pass = Bytes(t, 65535, "pass")
			if o.Build && len(p.Pass) == 0 {
				p.Pass = []byte{0}
			}
		}
	case ref.CONNACK:
		p.Code = Code(t, ver, typ)
		if v5 && OneIn(t, 12, "code3") {
			p.Code = byte(Int(t, 1, 5, "c3"))
		}
		p.Session = Flip(t, "sp")
	case ref.PUBLISH:
		p.QoS = byte(Int(t, 0, 2, "qos"))
		p.Retain = Flip(t, "retain")
		if p.QoS > 0 {
			p.Dup = Flip(t, "dup")
			p.ID = PacketID(t)
		}
		p.Topic = TopicName(t)
		if v5 {
			if _, ok := find(p.Props, 0x23); ok && Flip(t, "aliasOnly") {
				p.Topic = nil
			}
		}
		if Int(t, 0, 5, "nopl") > 0 {
			if o.NoPad {
				p.Payload = Bytes(t, 1<<20, "pl")
			} else {
				p.Payload = Payload(t, "pl")
			}
			if _, ok := find(p.Props, 0x01); ok {
				p.Payload = PadText(len(p.Payload))
			}
		}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		p.ID, p.Code = PacketID(t), Code(t, ver, typ)
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.ID = PacketID(t)
		n := Count(t, "nsubs")
		var ss []ref.Sub
		for i := 0; i < min(n, 24); i++ {
			ss = append(ss, Sub(t, ver, typ))
		}
		for i := 24; i < n; i++ {
			s := ss[i%24]
			if len(s.Topic) > 300 {
				s.Topic = []byte("x")
			}
			ss = append(ss, s)
		}
		p.Subs = ss
	case ref.SUBACK, ref.UNSUBACK:
		p.ID = PacketID(t)
		if v5 || typ == ref.SUBACK {
			n := Count(t, "ncodes")
			for i := 0; i < n; i++ {
				if i < 24 {
					p.Codes = append(p.Codes, Code(t, ver, typ))
				} else {
					p.Codes = append(p.Codes, p.Codes[i%24])
				}
			}
		}
	case ref.DISCONNECT, ref.AUTH:
		p.Code = Code(t, ver, typ)
		if typ == ref.AUTH && p.Code != 0 {
			if _, ok := find(p.Props, 0x15); !ok {
				p.Props = append(p.Props, ref.PV{ID: 0x15, S: []byte("method")})
			}
		}
	}
	if !o.NoPad && OneIn(t, 6, "padTotal") {
		targets := []int{126, 127, 128, 129, 130, 127, 128, 16382, 16383, 16384, 16385, 65535, 65536}
		tg := Pick(t, targets, "padTarget")
		if o.Huge && OneIn(t, 60, "padHuge") {
			tg = Pick(t, []int{2097150, 2097151, 2097152, 2097153}, "padHugeT")
		}
		PadTotal(p, tg)
	}
	return p
}

func find(ps []ref.PV, id uint32) (ref.PV, bool) {
	for _, v := range ps {
		if v.ID == id {
			return v, true
		}
	}
	return ref.PV{}, false
}

// PadTotal grows the packet so that its remaining length becomes target (as near as its fields allow).
func PadTotal(p *ref.Packet, target int) {
	size := func() int { b, _ := p.Body(ref.Form{}); return len(b) }
	d := target - size()
	if d <= 0 {
		return
	}
	switch p.Type {
	case ref.PUBLISH:
		p.Payload = append(append([]byte{}, p.Payload...), PadText(d)...)
		return
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		over := 2
		if p.Type == ref.SUBSCRIBE {
			over = 3
		}
		for d > over {
			n := min(d-over, 60000)
			if r := d - over - n; r > 0 && r <= over {
				n -= over + 1
			}
			p.Subs = append(p.Subs, ref.Sub{Topic: PadText(n)})
			d -= over + n
		}
		return
	case ref.SUBACK:
		p.Codes = append(p.Codes, make([]byte, d)...)
		return
	case ref.CONNECT:
		if p.Ver != 5 && p.HasPass {
			p.Pass = append(append([]byte{}, p.Pass...), PadBytes(min(d, 65535-len(p.Pass)), 1)...)
			return
		}
	}
	if p.Ver != 5 || p.Type == ref.PINGREQ || p.Type == ref.PINGRESP {
		return
	}
	for extra := 0; extra < 4; extra++ {
		old := p.Props
		p.Props = PadProps(old, ref.PropsLen(old)+d-extra)
		if size() == target {
			return
		}
		if extra < 3 {
			p.Props = old
		}
	}
}
