package checks

import (
	"bytes"
	"errors"
	"fmt"
	"runtime/metrics"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

func allocBytes() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// ---- C01 -------------------------------------------------------------------

func checkTotal(c *gen.Wire, x *prop.Ctx) error {
	full, in := guarded(c.B)
	before := allocBytes()
	d, pn := sut.Decode(c.Ver, in)
	after := allocBytes()
	if pn != nil {
		return errf("%v on %s", pn, hx(c.B))
	}
	// a single reading of the allocation counter is off by up to about 1 MB, the
	// mean over many decodes is not
	if limit := uint64(128<<10 + len(c.B)*400); after > before+limit {
		const n = 32
		before = allocBytes()
		for i := 0; i < n; i++ {
			_, _ = sut.Decode(c.Ver, in)
		}
		if mean := (allocBytes() - before) / n; mean > limit {
			return errf("decoding %d bytes allocates %d bytes: %s", len(c.B), mean, hx(c.B))
		}
	}
	if err := checkGuard(full, c.B); err != nil {
		return errf("%v: %s", err, hx(c.B))
	}
	if d.Err == error(mqttp.ErrPanicDetected) {
		return errf("decoding %s panics (and recovers)", hx(c.B))
	}
	if (d.Err == nil) == isNil(d.M) {
		return errf("decoding %s returns packet %v with error %v", hx(c.B), d.M, d.Err)
	}
	if d.Err == nil && d.N != len(c.B) {
		return errf("decoding %s succeeds with count %d of %d", hx(c.B), d.N, len(c.B))
	}
	if d.N < 0 {
		return errf("decoding %s returns count %d", hx(c.B), d.N)
	}
	var d2 sut.Dec
	again := 1
	if len(c.B) < 4096 {
		again = 4 // an outcome that hangs on the order of a map walk differs sooner or later
	}
	for i := 0; i < again; i++ {
		if d2, pn = sut.Decode(c.Ver, in); pn != nil {
			return pn
		}
		if errText(d.Err) != errText(d2.Err) || d.N != d2.N {
			return errf("decoding %s again: (%d, %v) then (%d, %v)", hx(c.B), d.N, d.Err, d2.N, d2.Err)
		}
	}
	if len(c.B) > 1 {
		x.NonTrivial()
	}
	if d.Err != nil {
		x.Class("rejected")
		return nil
	}
	x.Class("accepted")
	p1, e1 := sut.Extract(d.M)
	p2, e2 := sut.Extract(d2.M)
	if errText(e1) != errText(e2) {
		return errf("decoding %s twice reads back as %v and %v", hx(c.B), e1, e2)
	}
	if e1 == nil {
		if df := ref.Diff(p1, p2); df != "" {
			return errf("decoding %s twice gives different content: %s", hx(c.B), df)
		}
	}
	return nil
}

func genHostile(t *rapid.T) *gen.Wire {
	p := gen.Packet(t, gen.Opt{NoPad: true})
	body, _ := p.Body(ref.Form{})
	first := byte(p.Type)<<4 | p.Flags()
	rl := gen.Pick(t, []uint32{0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435454, 268435455}, "hrl")
	b := append([]byte{first}, ref.VBI(rl)...)
	how := "declared length"
	if gen.Flip(t, "hbody") {
		b = append(b, body...)
	}
	switch gen.Int(t, 0, 4, "hk") {
	case 1: // property length far beyond the packet
		how = "hostile property length"
		pre := gen.Pick(t, [][]byte{{0, 1}, {0, 0}, {0, 1, 'a'}, {0}, {}, {0, 4, 'M', 'Q', 'T', 'T', 5, 2, 0, 9}}, "hpre")
		bd := append(append([]byte{}, pre...), ref.VBI(rl)...)
		bd = append(bd, gen.Pick(t, [][]byte{{}, {0x26, 0xff, 0xff}, {0x0b, 1, 0x0b, 2}, {0x01, 0}, {0x1f, 0, 1, 'x'}, {0x26, 0, 0, 0, 0, 0x26, 0, 0, 0, 0}}, "hprop")...)
		b = gen.Refit(first, bd)
	case 2:
		how = "every byte 0xff"
		b = append([]byte{first}, bytes.Repeat([]byte{0xff}, gen.Int(t, 0, 300, "hff"))...)
	case 3:
		how = "body of one repeated byte"
		b = gen.Refit(first, bytes.Repeat([]byte{byte(gen.Int(t, 0, 255, "hb"))}, gen.Len(t, 70000, "hn")))
	case 4:
		how = "many tiny properties"
		n := gen.Int(t, 0, 3000, "hnp")
		ps := bytes.Repeat([]byte{0x26, 0, 0, 0, 0}, n)
		if gen.Flip(t, "hsub") {
			ps = bytes.Repeat([]byte{0x0b, 1}, n)
		}
		bd := []byte{0, 1, 'a'}
		if p.Type != ref.PUBLISH || p.QoS > 0 {
			bd = []byte{0, 1}
		}
		bd = append(bd, ref.VBI(uint32(len(ps)))...)
		b = gen.Refit(first, append(bd, ps...))
	}
	return &gen.Wire{Ver: byte(gen.Int(t, 3, 5, "hv")), B: b, How: how}
}

// Truncation points of a valid packet with a matching remaining length.
func genCut(t *rapid.T) *gen.Wire {
	p := gen.Packet(t, gen.Opt{NoPad: true})
	body, _ := p.Body(ref.Form{})
	n := gen.Int(t, 0, len(body), "cut")
	return &gen.Wire{Ver: p.Ver, B: gen.Refit(byte(p.Type)<<4|p.Flags(), body[:n]), How: "cut"}
}

// ---- C02 -------------------------------------------------------------------

type framing struct {
	P     *ref.Packet `json:"p"`
	Lib   bool        `json:"lib"` // bytes come from the library's encoder
	Short int         `json:"short"`
	Extra []byte      `json:"extra"`
	Cuts  []int       `json:"cuts"`
}

func checkFraming(c *framing, x *prop.Ctx) error {
	var b []byte
	if c.Lib {
		m, err := sut.Build(c.P)
		if err != nil {
			return errf("building: %v", err)
		}
		if b, err = sut.EncodeBoth(m); err != nil {
			return err
		}
	} else {
		b = c.P.Encode(ref.Form{Short: c.Short})
		mustValid(c.P, b)
	}
	hdr := 1
	for hdr < len(b) && b[hdr]&0x80 != 0 {
		hdr++
	}
	hdr++
	one := func(k int) error {
		if k < 0 || k >= len(b) {
			return nil
		}
		full, in := guarded(b[:k])
		d, pn := sut.Decode(c.P.Ver, in)
		if pn != nil {
			return pn
		}
		if e := checkGuard(full, b[:k]); e != nil {
			return e
		}
		if d.Err == nil || !isNil(d.M) {
			return errf("a %d-byte prefix of the %d-byte packet %s is accepted", k, len(b), hx(b))
		}
		if k == 0 {
			if d.Err != error(mqttp.ErrInsufficientBufferSize) {
				return errf("empty buffer: %v", d.Err)
			}
			return nil
		}
		if d.Err != error(mqttp.ErrInsufficientDataSize) {
			return errf("a %d-byte prefix of the %d-byte packet %s fails with %v instead of insufficient data", k, len(b), hx(b), d.Err)
		}
		if k >= hdr && d.N != len(b) {
			return errf("a %d-byte prefix of the %d-byte packet %s announces a packet of %d bytes", k, len(b), hx(b), d.N)
		}
		return nil
	}
	if len(b) <= 300 {
		for k := 0; k < len(b); k++ {
			if err := one(k); err != nil {
				return err
			}
		}
	} else {
		for _, k := range append([]int{0, 1, 2, 3, 4, 5, 6, len(b) / 2, len(b) - 3, len(b) - 2, len(b) - 1}, c.Cuts...) {
			if err := one(k % len(b)); err != nil {
				return err
			}
		}
	}
	for n := 1; n <= len(c.Extra); n++ {
		if n > 6 && n != len(c.Extra) {
			continue
		}
		long := append(append([]byte{}, b...), c.Extra[:n]...)
		d, pn := sut.Decode(c.P.Ver, long)
		if pn != nil {
			return pn
		}
		if d.Err == nil || !isNil(d.M) {
			return errf("packet %s followed by %s is accepted", hx(b), hx(c.Extra[:n]))
		}
		if d.Err == error(mqttp.ErrInsufficientDataSize) || d.Err == error(mqttp.ErrInsufficientBufferSize) {
			return errf("packet %s followed by %s is reported as partial", hx(b), hx(c.Extra[:n]))
		}
		if d.N != len(b) {
			return errf("packet of %d bytes followed by %d more: count %d", len(b), n, d.N)
		}
	}
	x.Class(sizeClass(len(b)))
	if len(b) > 2 {
		x.NonTrivial()
	}
	return nil
}

func genFraming(t *rapid.T) *framing {
	lib := gen.Flip(t, "lib")
	p := gen.Packet(t, gen.Opt{Build: lib, Huge: true})
	c := &framing{P: p, Lib: lib}
	if !lib {
		c.Short = drawForm(t, p).Short
	}
	n := gen.Int(t, 1, 9, "nx")
	c.Extra = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "extra")
	if gen.OneIn(t, 4, "second") {
		c.Extra = gen.Packet(t, gen.Opt{Ver: int(p.Ver), NoPad: true}).Encode(ref.Form{})
	}
	for i := 0; i < 4; i++ {
		c.Cuts = append(c.Cuts, gen.Int(t, 0, 1<<22, "cutAt"))
	}
	return c
}

// stream is a connection: packets back to back, arriving in pieces.
type stream struct {
	Ver byte          `json:"ver"`
	Ps  []*ref.Packet `json:"ps"`
	Cut []int         `json:"cut"` // sizes of the pieces, repeated
}

func genStream(t *rapid.T) *stream {
	c := &stream{Ver: byte(gen.Pick(t, gen.Versions, "ver"))}
	for i := gen.Int(t, 1, 9, "packets"); i > 0; i-- {
		c.Ps = append(c.Ps, gen.Packet(t, gen.Opt{Ver: int(c.Ver), NoPad: !gen.OneIn(t, 8, "pad")}))
	}
	for i := gen.Int(t, 1, 6, "pieces"); i > 0; i-- {
		c.Cut = append(c.Cut, gen.Pick(t, []int{1, 1, 2, 3, 5, 17, 100, 1000, 70000}, "piece"))
	}
	return c
}

// checkStream reads the stream the way a connection does: what a failed decoding
// counts is where the packet ends.
func checkStream(c *stream, x *prop.Ctx) error {
	var wire []byte
	for _, p := range c.Ps {
		wire = append(wire, p.Encode(ref.Form{})...)
	}
	if len(c.Ps) > 1 {
		x.NonTrivial()
	}
	piece := func(i int) int {
		return max(c.Cut[i%len(c.Cut)], len(wire)/500) // keeps the number of decodings in bounds
	}
	got, at, have := 0, 0, 0
	need := 0 // announced length of the packet at the front
	for n := 0; at < len(wire); {
		buf := wire[at:have]
		if len(buf) == 0 || len(buf) < need {
			if have == len(wire) {
				return errf("packet %d of %d: %d bytes announced, the stream has %d left", got, len(c.Ps), need, len(buf))
			}
			have = min(len(wire), have+piece(n))
			n++
			continue
		}
		d, pn := sut.Decode(c.Ver, buf)
		if pn != nil {
			return pn
		}
		if d.Err != nil && d.N > 0 && d.N < len(buf) && d.Err != error(mqttp.ErrInsufficientDataSize) {
			// more than one packet has arrived
			need = d.N
			buf = buf[:d.N]
			if d, pn = sut.Decode(c.Ver, buf); pn != nil {
				return pn
			}
		} else if d.Err == error(mqttp.ErrInsufficientDataSize) {
			if d.N > len(buf) {
				need = d.N
			} else {
				need = len(buf) + 1
			}
			x.Class("waited for the rest")
			continue
		}
		if d.Err != nil || d.M == nil || d.N != len(buf) {
			return errf("packet %d of %d (%s): error %v, count %d, after %d of %d bytes arrived", got, len(c.Ps), className(c.Ps[min(got, len(c.Ps)-1)]), d.Err, d.N, have, len(wire))
		}
		if got >= len(c.Ps) {
			return errf("more packets read than sent")
		}
		q, e := sut.Extract(d.M)
		if e != nil {
			return e
		}
		if df := ref.Diff(sut.Expect(c.Ps[got]), q); df != "" {
			return errf("packet %d of %d: %s", got, len(c.Ps), df)
		}
		got++
		at += d.N
		need = 0
	}
	if got != len(c.Ps) {
		return errf("%d packets sent, %d read", len(c.Ps), got)
	}
	return nil
}

// large is the beginning of a packet much longer than what has arrived of it.
type large struct {
	P    *ref.Packet `json:"p"`
	R    int         `json:"r"`    // remaining length of the whole packet
	More []byte      `json:"more"` // payload, topics or codes behind what P has
	Full bool        `json:"full"` // let all of it arrive, and a byte more
}

var largeEdges = []int{127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 2097151, 2097152, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1 << 27, 1<<28 - 2, 1<<28 - 1}

func genLarge(t *rapid.T) *large {
	c := &large{P: gen.Packet(t, gen.Opt{Ver: gen.Pick(t, gen.Versions, "ver"), Type: gen.Pick(t, []int{ref.PUBLISH, ref.PUBLISH, ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.SUBACK}, "type")})}
	switch gen.Int(t, 0, 3, "r") {
	case 0:
		c.R = gen.Pick(t, largeEdges, "edge") - gen.Int(t, 0, 6, "off")
	case 1:
		c.R = gen.Int(t, 0, 1<<28-1, "any")
	case 2:
		c.R = gen.Int(t, 0, 1<<21, "mid")
	default:
		c.R = 1 << uint(gen.Int(t, 7, 27, "bit"))
	}
	n := gen.Int(t, 0, 12, "more")
	c.More = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "moreBytes")
	c.Full = gen.OneIn(t, 4, "full") && (c.R < 1<<18 || gen.OneIn(t, 60, "fullLarge"))
	return c
}

// checkLarge: a declared length needs no bytes to be announced exactly.
func checkLarge(c *large, x *prop.Ctx) error {
	b := c.P.Encode(ref.Form{})
	hdr := 1
	for b[hdr]&0x80 != 0 {
		hdr++
	}
	body := b[hdr+1:]
	r := min(max(c.R, len(body)+16), 1<<28-1) // room for whatever completes the packet
	pre := append(refHeader(b[0], r), body...)
	total := len(pre) - len(body) + r
	hlen := len(pre) - len(body)
	if c.P.Type == ref.PUBLISH {
		pre = append(pre, c.More...)
	}
	x.Class(fmt.Sprintf("length of %d bytes", hlen-1))
	if r > 1<<21 {
		x.NonTrivial()
	}
	for _, k := range []int{hlen, hlen + 1, hlen + 2, hlen + 3, hlen + len(body)/2, len(pre) - 1, len(pre)} {
		if k > len(pre) || k < hlen {
			continue
		}
		full, in := guarded(pre[:k])
		d, pn := sut.Decode(c.P.Ver, in)
		if pn != nil {
			return pn
		}
		if e := checkGuard(full, pre[:k]); e != nil {
			return e
		}
		if d.Err != error(mqttp.ErrInsufficientDataSize) || !isNil(d.M) {
			return errf("%d bytes of a packet of %d, %s: error %v instead of insufficient data", k, total, hx(pre[:k]), d.Err)
		}
		if d.N != total {
			return errf("%d bytes of a packet of %d, %s, announce %d", k, total, hx(pre[:k]), d.N)
		}
	}
	if !c.Full || c.P.Type != ref.PUBLISH {
		return nil
	}
	x.Class("all of it")
	all := make([]byte, total+1)
	copy(all, pre)
	d, pn := sut.Decode(c.P.Ver, all)
	if pn != nil {
		return pn
	}
	if d.Err == nil || d.Err == error(mqttp.ErrInsufficientDataSize) || d.Err == error(mqttp.ErrInsufficientBufferSize) || d.N != total {
		return errf("a packet of %d bytes and one more: error %v, count %d", total, d.Err, d.N)
	}
	if d, pn = sut.Decode(c.P.Ver, all[:total-1]); pn != nil {
		return pn
	}
	if d.Err != error(mqttp.ErrInsufficientDataSize) || d.N != total {
		return errf("a packet of %d bytes without its last: error %v, count %d", total, d.Err, d.N)
	}
	if d, pn = sut.Decode(c.P.Ver, all[:total]); pn != nil {
		return pn
	}
	if d.Err != nil || d.N != total {
		return errf("a packet of %d bytes: error %v, count %d", total, d.Err, d.N)
	}
	m, ok := d.M.(*mqttp.Publish)
	if !ok {
		return errf("a PUBLISH of %d bytes decodes to %T", total, d.M)
	}
	if want := all[total-len(m.Payload()) : total]; len(m.Payload()) != len(c.P.Payload)+r-len(body) || !bytes.Equal(m.Payload(), want) {
		return errf("a PUBLISH of %d bytes has a payload of %d, want %d, or other bytes", total, len(m.Payload()), len(c.P.Payload)+r-len(body))
	}
	return nil
}

// refHeader is a fixed header with remaining length r.
func refHeader(first byte, r int) []byte {
	h := []byte{first}
	for ; r >= 128; r >>= 7 {
		h = append(h, byte(r)|0x80)
	}
	return append(h, byte(r))
}

// ---- C03 -------------------------------------------------------------------

func checkEncode(p *ref.Packet, x *prop.Ctx) error {
	m, err := sut.Build(p)
	if err != nil {
		return errf("a packet with valid fields cannot be built: %v", err)
	}
	// several encodings: the property order is free and may vary
	for i := 0; i < 3; i++ {
		b, err := sut.EncodeBoth(m)
		if err != nil {
			return errf("%s: %v", className(p), err)
		}
		q, v, why := ref.Decode(p.Ver, b)
		if v == ref.Invalid {
			return errf("%s encodes to a malformed packet (%s): %s", className(p), why, hx(b))
		}
		if d := ref.Diff(p, q); d != "" {
			return errf("%s encodes to other content: %s; bytes %s", className(p), d, hx(b))
		}
		if rl, ok := m.(interface{ RemainingLength() int32 }); ok && len(b) > 1 {
			h := len(ref.VBI(uint32(rl.RemainingLength()))) + 1
			if int(rl.RemainingLength())+h != len(b) {
				return errf("%s: remaining length %d but %d bytes encoded", className(p), rl.RemainingLength(), len(b))
			}
		}
		if len(b) > 1<<16 || len(p.Props) < 2 {
			break
		}
	}
	x.Class(className(p))
	x.NonTrivial()
	return nil
}

// ---- C04 -------------------------------------------------------------------

type wireCase struct {
	P     *ref.Packet `json:"p"`
	Short int         `json:"short"`
	Ver   byte        `json:"ver"` // version passed to Decode (a CONNECT brings its own)
}

func genWireCase(huge bool) func(t *rapid.T) *wireCase {
	return func(t *rapid.T) *wireCase {
		p := gen.Packet(t, gen.Opt{Huge: huge})
		c := &wireCase{P: p, Short: drawForm(t, p).Short, Ver: p.Ver}
		if p.Type == ref.CONNECT {
			c.Ver = byte(gen.Int(t, 3, 5, "dv"))
		}
		return c
	}
}

func checkAccept(c *wireCase, x *prop.Ctx) error {
	b := c.P.Encode(ref.Form{Short: c.Short})
	mustValid(c.P, b)
	m, err := decodeOK(c.Ver, b)
	if err != nil {
		return errf("%s: %v", className(c.P), err)
	}
	q, err := sut.Extract(m)
	if err != nil {
		return errf("%s %s: %v", className(c.P), hx(b), err)
	}
	if d := ref.Diff(sut.Expect(c.P), q); d != "" {
		return errf("%s %s reads back with other content: %s", className(c.P), hx(b), d)
	}
	id, e := m.ID()
	if c.P.HasID() != (e == nil) {
		return errf("%s: ID() = %d, %v", className(c.P), id, e)
	}
	body, _ := c.P.Body(ref.Form{Short: c.Short})
	if rl, ok := m.(interface{ RemainingLength() int32 }); ok && int(rl.RemainingLength()) != len(body) {
		return errf("%s: RemainingLength() %d, want %d", className(c.P), rl.RemainingLength(), len(body))
	}
	x.Class(className(c.P))
	x.Class(sizeClass(len(body)))
	if c.Short > 0 {
		x.Class("short form")
	}
	x.NonTrivial()
	return nil
}

// ---- C05 -------------------------------------------------------------------

func checkStable(c *gen.Wire, x *prop.Ctx) error {
	d, pn := sut.Decode(c.Ver, c.B)
	if pn != nil {
		return pn
	}
	if d.Err != nil {
		x.Class("rejected")
		return nil
	}
	x.Class("accepted " + d.M.Type().Name())
	x.NonTrivial()
	p1, err := sut.Extract(d.M)
	if err != nil {
		return errf("decoded %s: %v", hx(c.B), err)
	}
	r1, v1, _ := ref.Decode(c.Ver, c.B)
	if v1 != ref.Invalid {
		// the content the packet is compared to is what was on the wire
		if df := ref.Diff(sut.Expect(r1), p1); df != "" {
			return errf("decoded %s reads back with other content: %s", hx(c.B), df)
		}
	}
	for i := 0; i < 2; i++ {
		e, err := sut.EncodeBoth(d.M)
		if err != nil {
			return errf("re-encoding decoded %s: %v", hx(c.B), err)
		}
		m2, err := decodeOK(byte(d.M.Version()), e)
		if err != nil {
			return errf("decoded %s re-encodes to %s: %v", hx(c.B), hx(e), err)
		}
		p2, err := sut.Extract(m2)
		if err != nil {
			return errf("decoded %s re-encodes to %s: %v", hx(c.B), hx(e), err)
		}
		if df := ref.Diff(p1, p2); df != "" {
			return errf("decoded %s re-encodes to %s with other content: %s", hx(c.B), hx(e), df)
		}
		if v1 != ref.Invalid {
			r2, v2, why := ref.Decode(byte(d.M.Version()), e)
			if v2 == ref.Invalid {
				return errf("decoded %s re-encodes to the malformed %s (%s)", hx(c.B), hx(e), why)
			}
			if df := ref.Diff(r1, r2); df != "" {
				return errf("decoded %s re-encodes to %s with other content: %s", hx(c.B), hx(e), df)
			}
		}
		if len(p1.Props) < 2 {
			break
		}
	}
	return nil
}

func genStable(t *rapid.T) *gen.Wire {
	switch gen.Int(t, 0, 9, "sk") {
	case 0, 1, 2:
		c := genWireCase(true)(t)
		return &gen.Wire{Ver: c.Ver, B: c.P.Encode(ref.Form{Short: c.Short}), How: "well-formed"}
	case 3, 4, 5:
		return genLax(t)
	}
	return gen.WireAny(t, 2)
}

// genLax draws packets around the lenient edges of the decoder.
func genLax(t *rapid.T) *gen.Wire {
	p := gen.Packet(t, gen.Opt{NoPad: true})
	w := &gen.Wire{Ver: p.Ver}
	switch gen.Int(t, 0, 6, "lax") {
	case 0:
		w.How = "packet id 0"
		p.ID = 0
		w.B = p.Encode(ref.Form{})
	case 1:
		w.How = "non-minimal remaining length"
		body, _ := p.Body(ref.Form{})
		n := uint32(len(body))
		first := byte(p.Type)<<4 | p.Flags()
		switch {
		case n < 128:
			w.B = []byte{first, byte(n) | 0x80, 0}
			if gen.Flip(t, "nm3") {
				w.B = []byte{first, byte(n) | 0x80, 0x80, 0}
			}
		case n < 16384:
			w.B = []byte{first, byte(n&0x7f) | 0x80, byte(n>>7) | 0x80, 0}
		default:
			w.B = append([]byte{first}, ref.VBI(n)...)
		}
		w.B = append(w.B, body...)
	case 2:
		w.How = "non-minimal integers inside the properties"
		p = gen.Packet(t, gen.Opt{NoPad: true, Ver: 5, Type: gen.Pick(t, []int{ref.PUBLISH, ref.SUBSCRIBE, ref.CONNACK, ref.UNSUBSCRIBE}, "nmt")})
		w.Ver = 5
		if _, has := findPV(p.Props, 0x0b); !has && gen.Flip(t, "addSub") && (p.Type == ref.PUBLISH || p.Type == ref.SUBSCRIBE) {
			p.Props = append(p.Props, ref.PV{ID: 0x0b, N: uint32(gen.Int(t, 1, 300, "sid"))})
		}
		w.B = nonMinimal(t, p)
	case 3:
		w.How = "repeated subscription identifiers"
		p = gen.Packet(t, gen.Opt{NoPad: true, Ver: 5, Type: ref.PUBLISH})
		w.Ver = 5
		n := gen.Int(t, 1, 5, "nsid")
		for i := 0; i < n; i++ {
			p.Props = append(p.Props, ref.PV{ID: 0x0b, N: gen.U32(t, "sid") & 0x0fffffff})
		}
		w.B = p.Encode(ref.Form{})
	case 4:
		w.How = "UNSUBACK without property length"
		w.Ver = 5
		w.B = gen.Refit(0xB0, []byte{byte(gen.Int(t, 0, 255, "a")), byte(gen.Int(t, 0, 255, "b"))})
	case 5:
		w.How = "empty code list or empty will"
		p = gen.Packet(t, gen.Opt{NoPad: true, Type: gen.Pick(t, []int{ref.SUBACK, ref.UNSUBACK, ref.CONNECT}, "et")})
		w.Ver = p.Ver
		p.Codes = nil
		if p.Will != nil {
			p.Will.Payload = nil
			if p.Ver == 5 {
				p.Will.Topic = nil
			}
		}
		p.User, p.Pass = nil, nil
		w.B = p.Encode(ref.Form{})
	case 6:
		w.How = "control characters in property strings"
		p = gen.Packet(t, gen.Opt{NoPad: true, Ver: 5})
		w.Ver = 5
		for i := range p.Props {
			if d, _ := ref.PropDef(p.Props[i].ID); (d.T == ref.TPair || d.T == ref.TStr) && len(p.Props[i].S) < 100 {
				p.Props[i].S = append(append([]byte{}, p.Props[i].S...), byte(gen.Int(t, 0, 31, "ctl")))
			}
		}
		w.B = p.Encode(ref.Form{})
	}
	return w
}

func findPV(ps []ref.PV, id uint32) (ref.PV, bool) {
	for _, v := range ps {
		if v.ID == id {
			return v, true
		}
	}
	return ref.PV{}, false
}

// nonMinimal encodes a 5.0 packet with an overlong integer somewhere in its property block.
func nonMinimal(t *rapid.T, p *ref.Packet) []byte {
	body, marks := p.Body(ref.Form{})
	var cand []ref.Mark
	for _, m := range marks {
		if m.Kind == "plen" || m.Kind == "pid" || m.Kind == "pvar" {
			cand = append(cand, m)
		}
	}
	if len(cand) == 0 {
		return p.Encode(ref.Form{})
	}
	m := gen.Pick(t, cand, "nmAt")
	e := append([]byte{}, body[m.Off:m.Off+m.Len]...)
	e[len(e)-1] |= 0x80
	if len(e) < 3 && gen.Flip(t, "nm2") {
		e = append(e, 0x80)
	}
	e = append(e, 0)
	grown := len(e) - m.Len
	out := append([]byte{}, body[:m.Off]...)
	out = append(out, e...)
	out = append(out, body[m.Off+m.Len:]...)
	if m.Kind != "plen" {
		// fix the property length
		for _, pm := range marks {
			if pm.Kind == "plen" {
				n := uint32(ref.PropsLen(p.Props) + grown)
				fixed := append([]byte{}, out[:pm.Off]...)
				fixed = append(fixed, ref.VBI(n)...)
				out = append(fixed, out[pm.Off+pm.Len:]...)
				break
			}
		}
	}
	return gen.Refit(byte(p.Type)<<4|p.Flags(), out)
}

// ---- C06 -------------------------------------------------------------------

func checkReject(c *gen.Wire, x *prop.Ctx) error {
	_, v, why := ref.Decode(c.Ver, c.B)
	if v != ref.Invalid {
		x.Class("not malformed: " + v.String())
		return nil
	}
	x.Class(why)
	x.NonTrivial()
	d, pn := sut.Decode(c.Ver, c.B)
	if pn != nil {
		return pn
	}
	if d.Err == nil || !isNil(d.M) {
		return errf("malformed packet (%s; made by: %s) accepted by version %d: %s", why, c.How, c.Ver, hx(c.B))
	}
	return nil
}

// ---- C07 -------------------------------------------------------------------

type bufCase struct {
	P     *ref.Packet `json:"p"`
	Fill  byte        `json:"fill"`
	Slack int         `json:"slack"`
	Small []int       `json:"small"`
	Dec   bool        `json:"dec"`  // packet obtained by decoding
	Side  bool        `json:"side"` // set the fields of a PUBLISH that are not on the wire
}

// offWire shows what a packet tells besides its wire image.
func offWire(m mqttp.IFace) string {
	id, e := m.ID()
	s := fmt.Sprintf("type %d version %d id %d %v", m.Type(), m.Version(), id, e)
	if p, ok := m.(*mqttp.Publish); ok {
		dl, _, _ := p.Expired()
		s += fmt.Sprintf(" publish id %d deadline %d", p.PublishID(), dl.UnixNano())
	}
	return s
}

func genBuf(t *rapid.T) *bufCase {
	dec := gen.OneIn(t, 3, "dec")
	c := &bufCase{P: gen.Packet(t, gen.Opt{Build: !dec}), Dec: dec, Fill: byte(gen.Pick(t, []int{0xff, 0x5a, 0x01, 0x80, 0x26}, "fill")), Slack: gen.Int(t, 0, 40, "slack")}
	c.Side = gen.Flip(t, "side")
	for i := 0; i < 4; i++ {
		c.Small = append(c.Small, gen.Int(t, 0, 1<<20, "small"))
	}
	return c
}

func checkBuffer(c *bufCase, x *prop.Ctx) error {
	var m mqttp.IFace
	var err error
	if c.Dec {
		if m, err = decodeOK(c.P.Ver, c.P.Encode(ref.Form{})); err != nil {
			return err
		}
	} else if m, err = sut.Build(c.P); err != nil {
		return errf("building: %v", err)
	}
	if pub, ok := m.(*mqttp.Publish); ok && c.Side {
		if c.P.QoS == 0 {
			pub.SetPacketID(4242) // not on the wire, yet a field of the packet
		}
		pub.SetPublishID(987654321)
		pub.SetExpireAt(time.Now().Add(time.Hour))
	}
	before, err := sut.Extract(m)
	if err != nil {
		return err
	}
	side := offWire(m)
	sz, err := m.Size()
	if err != nil {
		return errf("Size: %v", err)
	}
	for i := 0; i < 2; i++ {
		if s2, e := m.Size(); e != nil || s2 != sz {
			return errf("Size is %d, then %d (%v)", sz, s2, e)
		}
	}
	enc := func(fill byte, slack int) error {
		buf := bytes.Repeat([]byte{fill}, sz+slack)
		n, e := m.Encode(buf)
		if e != nil {
			return errf("%s: Encode into %d bytes (size %d): %v", className(c.P), len(buf), sz, e)
		}
		if n != sz {
			return errf("%s: Encode wrote %d bytes, size %d", className(c.P), n, sz)
		}
		for i := sz; i < len(buf); i++ {
			if buf[i] != fill {
				return errf("%s: Encode touched byte %d behind the %d-byte packet", className(c.P), i, sz)
			}
		}
		q, v, why := ref.Decode(c.P.Ver, buf[:sz])
		if v == ref.Invalid {
			return errf("%s encoded into a buffer full of 0x%02x is malformed (%s): %s", className(c.P), fill, why, hx(buf[:sz]))
		}
		if d := ref.Diff(c.P, q); d != "" {
			return errf("%s encoded into a buffer full of 0x%02x: %s; %s", className(c.P), fill, d, hx(buf[:sz]))
		}
		return nil
	}
	for _, e := range []error{enc(c.Fill, c.Slack), enc(0, 0), enc(^c.Fill, 1), enc(c.Fill, 0)} {
		if e != nil {
			return e
		}
	}
	sizes := []int{0, 1, 2, sz - 1, sz - 2, sz / 2}
	if sz <= 40 {
		for k := 0; k < sz; k++ {
			sizes = append(sizes, k)
		}
	}
	for _, s := range c.Small {
		sizes = append(sizes, s%sz)
	}
	for _, k := range sizes {
		if k < 0 || k >= sz {
			continue
		}
		arr := bytes.Repeat([]byte{c.Fill}, sz+8) // the capacity would suffice, the length does not
		n, e := m.Encode(arr[:k])
		if !errors.Is(e, mqttp.ErrInsufficientBufferSize) {
			return errf("%s: Encode of %d bytes into %d: error %v", className(c.P), sz, k, e)
		}
		if n != sz {
			return errf("%s: Encode of %d bytes into %d says %d are needed", className(c.P), sz, k, n)
		}
		if !bytes.Equal(arr, bytes.Repeat([]byte{c.Fill}, len(arr))) {
			return errf("%s: Encode into a too small buffer of %d wrote something", className(c.P), k)
		}
	}
	if s3, e := m.Size(); e != nil || s3 != sz {
		return errf("Size is %d, then %d (%v)", sz, s3, e)
	}
	if now := offWire(m); now != side {
		return errf("%s: sizing and encoding changed the packet from %s to %s", className(c.P), side, now)
	}
	after, err := sut.Extract(m)
	if err != nil {
		return err
	}
	if d := ref.Diff(before, after); d != "" {
		return errf("sizing and encoding changed the packet: %s", d)
	}
	x.Class(className(c.P))
	x.NonTrivial()
	return nil
}

func init() {
	register(&prop.Def{ID: "C01", Quick: 104000, Thoro: 1200000,
		Rule: "byte strings: noise with plausible first bytes, valid packets with 0..4 structured mutations, hostile declared lengths and property blocks, valid packets cut at every offset with a matching remaining length; non-trivial: more than one byte long",
		Subs: []*prop.Sub{
			prop.Gen("mutated", 0.6, func(t *rapid.T) *gen.Wire { return gen.WireAny(t, 4) }, checkTotal),
			prop.Gen("noise", 0.8, func(t *rapid.T) *gen.Wire {
				return &gen.Wire{Ver: byte(gen.Int(t, 3, 5, "dv")), B: gen.RawBytes(t), How: "raw"}
			}, checkTotal),
			prop.Gen("hostile", 0.3, genHostile, checkTotal),
			prop.Gen("cut", 0.4, genCut, checkTotal),
		}})
	register(&prop.Def{ID: "C02", Quick: 9000, Thoro: 220000,
		Rule: "well-formed packets (half encoded by the library, half by the reference encoder, all permitted short forms), every strict prefix (sampled above 300 bytes) and 1..n trailing bytes or a second packet; streams of 1-9 packets arriving in generated pieces, read by a connection loop; the beginnings of packets of up to 268435455 bytes; non-trivial: longer than two bytes, more than one packet, longer than 2 MB",
		Subs: []*prop.Sub{
			prop.Gen("framing", 1, genFraming, checkFraming),
			prop.Gen("stream", 0.4, genStream, checkStream),
			prop.Gen("large", 0.6, genLarge, checkLarge)}})
	register(&prop.Def{ID: "C03", Quick: 20000, Thoro: 500000,
		Rule: "packets of every type and version built through the public setters with fields MQTT allows, encoded through both entry points and read by the strict reference decoder; non-trivial: all",
		Subs: []*prop.Sub{prop.Gen("encode", 1, func(t *rapid.T) *ref.Packet { return gen.Packet(t, gen.Opt{Build: true, Huge: true}) }, checkEncode)}})
	register(&prop.Def{ID: "C04", Quick: 25000, Thoro: 450000,
		Rule: "well-formed packets written by the reference encoder in every permitted wire form, decoded by the library and read through every accessor; non-trivial: all",
		Subs: []*prop.Sub{prop.Gen("accept", 1, genWireCase(true), checkAccept)}})
	register(&prop.Def{ID: "C05", Quick: 25000, Thoro: 600000,
		Rule: "byte strings: well-formed packets, packets at the lenient edges of the decoder, mutated packets; non-trivial: accepted by decoding",
		Subs: []*prop.Sub{prop.Gen("stable", 1, genStable, checkStable)}})
	register(&prop.Def{ID: "C06", Quick: 180000, Thoro: 1500000,
		Rule: "well-formed packets broken by one named rule violation or by 1..3 random mutations; non-trivial: the strict reference decoder finds the bytes malformed",
		Subs: []*prop.Sub{
			prop.Gen("broken", 0.7, genBroken, checkReject),
			prop.Gen("mutated", 0.5, func(t *rapid.T) *gen.Wire { return gen.WireAny(t, 3) }, checkReject),
			prop.Gen("cut", 0.3, genCut, checkReject),
		}})
	register(&prop.Def{ID: "C07", Quick: 48000, Thoro: 700000,
		Rule: "valid packets, built or decoded, encoded into dirty buffers of exact and larger size and into every (sampled above 40 bytes) smaller one; non-trivial: all",
		Subs: []*prop.Sub{prop.Gen("buffer", 1, genBuf, checkBuffer)}})
}
