package checks

import (
	"encoding/binary"

	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/ref"
)

// build frames a possibly malformed packet.
func frameOf(p *ref.Packet) []byte { return p.Encode(ref.Form{}) }

var badTexts = [][]byte{{0x00}, {'a', 0x00, 'b'}, {0x1f}, {0x7f}, {0xc2, 0x80}, {'x', 0xc2, 0x9f}, {0xff}, {0xc0, 0x80}, {0xed, 0xa0, 0x80}, {0xed, 0xbf, 0xbf},
	{0xf4, 0x90, 0x80, 0x80}, {'a', 0xc3}, {0xe2, 0x82}, {0x80}, {'t', '/', 0xfe}, {0xf5, 0x80, 0x80, 0x80}, {0x09}, {'l', '\n'}}

var notUTF8 = [][]byte{{0xff}, {0xc0, 0x80}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {'a', 0xc3}, {0xe2, 0x82}, {0x80, 'z'}, {0xf0, 0x82, 0x82, 0xac}}

var badNames = [][]byte{[]byte("+"), []byte("#"), []byte("a/+"), []byte("a/#"), []byte("a+b"), []byte("#/a"), []byte("/+/b"), []byte("abc#"), []byte("$SYS/#")}

var badFilters = [][]byte{{}, []byte("a+"), []byte("+a"), []byte("a/+b"), []byte("a/b+/c"), []byte("##"), []byte("#/"), []byte("#/a"), []byte("a#"), []byte("a/#/b"),
	[]byte("a/b#"), []byte("++"), []byte("+#"), []byte("#+"), []byte("/a#"), []byte("+/#/"), []byte("$"), []byte("$SYS"), []byte("$share"), []byte("$share/"), []byte("$share/g"),
	[]byte("$share/g/"), []byte("$share//a"), []byte("$share/+/a"), []byte("$share/#/a"), []byte("$share/g+/a"), []byte("$share/a#/b"), []byte("$share/g/a+"), []byte("$share/g/#/a"),
	[]byte("$SYS/a#"), []byte("$x/+a"), []byte("$#"), []byte("$share/g/##"), []byte("$+")}

func padded(t *rapid.T, b []byte) []byte {
	switch gen.Int(t, 0, 4, "padded") {
	case 3:
		return append([]byte("lvl/"), b...)
	case 4:
		return append(append(gen.PadText(gen.Pick(t, []int{10, 120, 500}, "padN")), '/'), b...)
	}
	return append([]byte{}, b...)
}

// genBroken draws a well-formed packet and breaks one named rule.
func genBroken(t *rapid.T) *gen.Wire {
	type rule struct {
		how string
		f   func() (byte, []byte)
	}
	pk := func(ver, typ int) *ref.Packet { return gen.Packet(t, gen.Opt{NoPad: true, Ver: ver, Type: typ}) }
	any := func() *ref.Packet { return pk(0, 0) }
	ver := func() int { return gen.Pick(t, gen.Versions, "bver") }
	first := func(p *ref.Packet) byte { return byte(p.Type)<<4 | p.Flags() }
	out := func(p *ref.Packet) (byte, []byte) { return p.Ver, frameOf(p) }
	body := func(p *ref.Packet) ([]byte, []ref.Mark) {
		b, m := p.Body(drawForm(t, p))
		return append([]byte{}, b...), m
	}
	marks := func(ms []ref.Mark, kinds ...string) []ref.Mark {
		var r []ref.Mark
		for _, m := range ms {
			for _, k := range kinds {
				if m.Kind == k {
					r = append(r, m)
				}
			}
		}
		return r
	}
	withIDTypes := []int{ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK}
	propTypes := []int{ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}
	// a packet type or WILL with a place to put properties
	propHost := func() (*ref.Packet, *[]ref.PV, int) {
		pt := gen.Pick(t, append(append([]int{}, propTypes...), ref.WILL, ref.PUBLISH), "pt")
		if pt == ref.WILL {
			p := pk(5, ref.CONNECT)
			if p.Will == nil {
				p.Will = &ref.Will{Topic: []byte("w"), Payload: []byte{1}}
			}
			return p, &p.Will.Props, pt
		}
		p := pk(5, pt)
		return p, &p.Props, pt
	}
	insert := func(ps []ref.PV, v ref.PV) []ref.PV {
		i := gen.Int(t, 0, len(ps), "insAt")
		r := append([]ref.PV{}, ps[:i]...)
		r = append(r, v)
		return append(r, ps[i:]...)
	}
	rules := []rule{
		{"reserved packet type", func() (byte, []byte) {
			p := any()
			b := frameOf(p)
			if gen.Flip(t, "auth3") {
				b[0] = 0xF0
				return byte(gen.Int(t, 3, 4, "v34")), b
			}
			b[0] &= 15
			return p.Ver, b
		}},
		{"fixed header flags", func() (byte, []byte) {
			p := any()
			b := frameOf(p)
			f := byte(gen.Int(t, 0, 15, "flags"))
			if p.Type == ref.PUBLISH {
				f = gen.Pick(t, []byte{6, 7, 14, 15, 8, 9}, "pflags")
			}
			b[0] = b[0]&0xf0 | f
			return p.Ver, b
		}},
		{"one flag bit flipped", func() (byte, []byte) {
			p := any()
			b := frameOf(p)
			b[0] ^= 1 << uint(gen.Int(t, 0, 3, "fbit"))
			return p.Ver, b
		}},
		{"length prefix beyond its container", func() (byte, []byte) {
			p := any()
			b, ms := body(p)
			lps := marks(ms, "lp")
			if len(lps) == 0 {
				return out(p)
			}
			m := gen.Pick(t, lps, "lpm")
			room := len(b) - m.Off - 2
			v := room + gen.Pick(t, []int{1, 1, 2, 3, 255, 256}, "over")
			if gen.OneIn(t, 5, "max") || v > 0xffff {
				v = 0xffff
			}
			binary.BigEndian.PutUint16(b[m.Off:], uint16(v))
			return p.Ver, gen.Refit(first(p), b)
		}},
		{"bare length prefix", func() (byte, []byte) {
			// a field of which only a prefix is there that promises more than
			// the packet holds; a decoder that passes over it finds the rest in order
			p := any()
			if gen.Flip(t, "connect") {
				p = pk(0, ref.CONNECT)
			}
			b, ms := body(p)
			lps := marks(ms, "lp")
			if len(lps) == 0 {
				return out(p)
			}
			m := gen.Pick(t, lps, "lpm")
			n := int(binary.BigEndian.Uint16(b[m.Off:]))
			r := append([]byte{}, b[:m.Off]...)
			v := len(b) - m.Off - 2 - n + gen.Pick(t, []int{1, 2, 200, 0xffff}, "over")
			if v > 0xffff {
				v = 0xffff
			}
			r = append(r, byte(v>>8), byte(v))
			r = append(r, b[m.Off+2+n:]...)
			return p.Ver, gen.Refit(first(p), r)
		}},
		{"length prefix off by a little", func() (byte, []byte) {
			p := any()
			b, ms := body(p)
			lps := marks(ms, "lp")
			if len(lps) == 0 {
				return out(p)
			}
			m := gen.Pick(t, lps, "lpm")
			v := int(binary.BigEndian.Uint16(b[m.Off:])) + gen.Pick(t, []int{-2, -1, 1, 2}, "off")
			binary.BigEndian.PutUint16(b[m.Off:], uint16(v))
			return p.Ver, gen.Refit(first(p), b)
		}},
		{"property length wrong", func() (byte, []byte) {
			p, _, _ := propHost()
			b, ms := p.Body(ref.Form{})
			pl := marks(ms, "plen")
			if len(pl) == 0 {
				return out(p)
			}
			m := gen.Pick(t, pl, "plm")
			n, k := uint32(0), uint(0)
			for _, c := range b[m.Off : m.Off+m.Len] {
				n |= uint32(c&0x7f) << k
				k += 7
			}
			d := gen.Pick(t, []int{1, -1, 2, -2, 3, -3, 5, 127, 128, 100000}, "pld")
			nv := uint32(int64(n) + int64(d))
			if gen.OneIn(t, 4, "toEnd") {
				nv = uint32(len(b)-m.Off-m.Len) + uint32(gen.Int(t, 0, 2, "beyond"))
			}
			nb := append([]byte{}, b[:m.Off]...)
			nb = append(nb, ref.VBI(nv&0x0fffffff)...)
			nb = append(nb, b[m.Off+m.Len:]...)
			return p.Ver, gen.Refit(first(p), nb)
		}},
		{"cut with matching remaining length", func() (byte, []byte) {
			p := any()
			b, _ := body(p)
			k := gen.Int(t, 0, len(b), "cutAt")
			if gen.Flip(t, "cutEarly") {
				k = gen.Int(t, 0, min(4, len(b)), "cutAt4")
			}
			return p.Ver, gen.Refit(first(p), b[:k])
		}},
		{"truncated packet identifier", func() (byte, []byte) {
			p := pk(0, gen.Pick(t, withIDTypes, "idt"))
			if p.Type == ref.PUBLISH {
				p.QoS, p.Dup = byte(gen.Int(t, 1, 2, "q12")), false
			}
			b, ms := p.Body(ref.Form{})
			for _, m := range ms {
				if m.Kind == "id" {
					return p.Ver, gen.Refit(first(p), b[:m.Off+gen.Int(t, 0, 1, "idn")])
				}
			}
			return out(p)
		}},
		{"surplus bytes", func() (byte, []byte) {
			p := any()
			b, _ := body(p)
			n := gen.Int(t, 1, 3, "sn")
			b = append(b, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "surplus")...)
			return p.Ver, gen.Refit(first(p), b)
		}},
		{"surplus in packets of fixed size", func() (byte, []byte) {
			v := ver()
			typ := gen.Pick(t, []int{ref.PINGREQ, ref.PINGRESP, ref.DISCONNECT, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.UNSUBACK, ref.CONNACK}, "fixt")
			p := pk(v, typ)
			b, _ := p.Body(ref.Form{})
			n := gen.Int(t, 1, 4, "sn")
			extra := gen.Pick(t, [][]byte{{0, 0, 0, 0}, {1, 2, 3, 4}, {0x80, 0, 0, 0}}, "fx")
			return p.Ver, gen.Refit(first(p), append(append([]byte{}, b...), extra[:n]...))
		}},
		{"forbidden topic name", func() (byte, []byte) {
			p := pk(0, ref.PUBLISH)
			p.Topic = padded(t, gen.Pick(t, append(append([][]byte{}, badTexts...), badNames...), "bn"))
			return out(p)
		}},
		{"forbidden filter", func() (byte, []byte) {
			p := pk(0, gen.Pick(t, []int{ref.SUBSCRIBE, ref.UNSUBSCRIBE}, "st"))
			if len(p.Subs) > 6 {
				p.Subs = p.Subs[:6]
			}
			i := gen.Int(t, 0, len(p.Subs)-1, "si")
			p.Subs[i].Topic = append([]byte{}, gen.Pick(t, badFilters, "bf")...)
			if gen.OneIn(t, 3, "badText") {
				p.Subs[i].Topic = padded(t, gen.Pick(t, badTexts, "bt"))
			}
			p.Subs[i].Ops &^= 4
			return out(p)
		}},
		{"forbidden subscription options", func() (byte, []byte) {
			p := pk(0, ref.SUBSCRIBE)
			i := gen.Int(t, 0, len(p.Subs)-1, "si")
			switch gen.Int(t, 0, 4, "so") {
			case 0:
				p.Subs[i].Ops |= 3
			case 1:
				p.Subs[i].Ops |= gen.Pick(t, []byte{0x40, 0x80, 0xC0}, "sr")
			case 2:
				p.Subs[i].Ops |= 0x30
			case 3:
				p.Subs[i].Ops |= gen.Pick(t, []byte{4, 8, 16, 32}, "sv")
			case 4:
				p.Subs[i].Ops = byte(gen.Int(t, 0, 255, "sx"))
			}
			return out(p)
		}},
		{"acknowledge flags", func() (byte, []byte) {
			p := pk(0, ref.CONNACK)
			b, _ := p.Body(ref.Form{})
			b = append([]byte{}, b...)
			b[0] = byte(gen.Int(t, 2, 255, "af"))
			return p.Ver, gen.Refit(first(p), b)
		}},
		{"undefined code", func() (byte, []byte) {
			p := pk(0, gen.Pick(t, ref.CodeTypes, "ct"))
			b, ms := p.Body(ref.Form{})
			cs := marks(ms, "code")
			if len(cs) == 0 {
				return out(p)
			}
			b = append([]byte{}, b...)
			c := byte(gen.Int(t, 0, 255, "uc"))
			if gen.Flip(t, "ucOther") {
				c = gen.Pick(t, ref.Codes5[gen.Pick(t, ref.CodeTypes, "oct")], "oc")
			}
			b[gen.Pick(t, cs, "cm").Off] = c
			return p.Ver, gen.Refit(first(p), b)
		}},
		{"empty topic list", func() (byte, []byte) {
			p := pk(0, gen.Pick(t, []int{ref.SUBSCRIBE, ref.UNSUBSCRIBE}, "st"))
			p.Subs = nil
			return out(p)
		}},
		{"neither topic nor alias", func() (byte, []byte) {
			p := pk(0, ref.PUBLISH)
			p.Topic = nil
			var ps []ref.PV
			for _, v := range p.Props {
				if v.ID != 0x23 {
					ps = append(ps, v)
				}
			}
			if p.Ver == 5 && gen.OneIn(t, 3, "alias0") {
				ps = insert(ps, ref.PV{ID: 0x23, N: 0})
			}
			p.Props = ps
			return out(p)
		}},
		{"repeated property", func() (byte, []byte) {
			p, ps, pt := propHost()
			var can []ref.PDef
			for _, d := range ref.PropsFor(pt) {
				if !d.Rep(pt) {
					can = append(can, d)
				}
			}
			if len(can) == 0 {
				return out(p)
			}
			d := gen.Pick(t, can, "rp")
			*ps = insert(*ps, gen.PropValue(t, d))
			if gen.Flip(t, "same") {
				*ps = insert(*ps, (*ps)[0])
			}
			*ps = insert(*ps, gen.PropValue(t, d))
			return out(p)
		}},
		{"property of another packet", func() (byte, []byte) {
			p, ps, pt := propHost()
			var can []ref.PDef
			for _, d := range ref.Props {
				if !d.Has(pt) {
					can = append(can, d)
				}
			}
			*ps = insert(*ps, gen.PropValue(t, gen.Pick(t, can, "op")))
			return out(p)
		}},
		{"unknown property", func() (byte, []byte) {
			p, ps, _ := propHost()
			*ps = nil
			id := gen.Pick(t, []uint32{0, 4, 5, 6, 7, 0x0a, 0x0c, 0x0d, 0x10, 0x14, 0x1b, 0x1d, 0x1e, 0x20, 0x2b, 0x2c, 0x7f, 0x80, 0x81, 0xa6, 0x126, 0x2126, 0x8b, 0x3fff, 0x200026, 0x0fffffff}, "uid")
			blk := ref.VBI(id)
			n := gen.Int(t, 0, 5, "un")
			blk = append(blk, []byte{0, 1, 'x', 0, 1}[:n]...)
			b, ms := p.Body(ref.Form{})
			pl := marks(ms, "plen")
			if len(pl) == 0 {
				return out(p)
			}
			// the emptied list is the one with a single zero byte
			m := pl[len(pl)-1]
			if len(pl) > 1 && ps == &p.Props {
				m = pl[0]
			}
			nb := append([]byte{}, b[:m.Off]...)
			nb = append(nb, ref.VBI(uint32(len(blk)))...)
			nb = append(nb, blk...)
			nb = append(nb, b[m.Off+m.Len:]...)
			return p.Ver, gen.Refit(first(p), nb)
		}},
		{"property string not UTF-8", func() (byte, []byte) {
			p, ps, pt := propHost()
			var can []ref.PDef
			for _, d := range ref.PropsFor(pt) {
				if d.T == ref.TStr || d.T == ref.TPair {
					can = append(can, d)
				}
			}
			d := gen.Pick(t, can, "np")
			v := gen.PropValue(t, d)
			if d.T == ref.TPair && gen.Flip(t, "npv") {
				v.V = padded(t, gen.Pick(t, notUTF8, "nu"))
			} else {
				v.S = padded(t, gen.Pick(t, notUTF8, "nu"))
			}
			*ps = insert(*ps, v)
			return out(p)
		}},
		{"property value past the block", func() (byte, []byte) {
			// the block ends inside its last value while the packet goes on
			p, ps, pt := propHost()
			d := gen.Pick(t, ref.PropsFor(pt), "lp")
			v := gen.PropValue(t, d)
			*ps = append(*ps, v)
			if !d.Rep(pt) {
				var q []ref.PV
				for _, w := range (*ps)[:len(*ps)-1] {
					if w.ID != d.ID {
						q = append(q, w)
					}
				}
				*ps = append(q, v)
			}
			b, ms := p.Body(ref.Form{})
			pl := marks(ms, "plen")
			if len(pl) == 0 {
				return out(p)
			}
			m := pl[0]
			if pt == ref.WILL {
				m = pl[len(pl)-1]
			}
			full := ref.PropsLen(*ps)
			cut := gen.Int(t, 1, min(ref.PVLen(v), 40)-1, "vcut")
			nb := append([]byte{}, b[:m.Off]...)
			nb = append(nb, ref.VBI(uint32(full-cut))...)
			nb = append(nb, b[m.Off+m.Len:]...)
			return p.Ver, gen.Refit(first(p), nb)
		}},
		{"overlong integer in properties", func() (byte, []byte) {
			p, _, _ := propHost()
			return 5, nonMinimal(t, p)
		}},
		{"CONNECT flags", func() (byte, []byte) {
			p := pk(0, ref.CONNECT)
			b, ms := p.Body(ref.Form{})
			b = append([]byte{}, b...)
			m := marks(ms, "flags")[0]
			if gen.Flip(t, "cfAny") {
				b[m.Off] = byte(gen.Int(t, 0, 255, "cf"))
			} else {
				b[m.Off] ^= 1 << uint(gen.Int(t, 0, 7, "cfb"))
			}
			return p.Ver, gen.Refit(first(p), b)
		}},
		{"CONNECT name or level", func() (byte, []byte) {
			p := pk(0, ref.CONNECT)
			b, _ := p.Body(ref.Form{})
			rest := b[2+len(ref.ProtoName(p.Ver))+1:]
			name := gen.Pick(t, [][]byte{[]byte("MQTT"), []byte("MQIsdp"), []byte("mqtt"), []byte("MQT"), []byte("MQTTT"), {}, []byte("MQTT\x00"), []byte("HTTP"), []byte("MQIsd"), {0xff, 0xfe}}, "pn")
			lvl := gen.Pick(t, []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x83, 0x84, 0x85, 255}, "pl")
			nb := []byte{0, byte(len(name))}
			nb = append(nb, name...)
			nb = append(nb, lvl)
			nb = append(nb, rest...)
			return byte(gen.Int(t, 3, 5, "dv")), gen.Refit(0x10, nb)
		}},
		{"CONNECT client id", func() (byte, []byte) {
			p := pk(0, ref.CONNECT)
			p.ClientID = padded(t, gen.Pick(t, append([][]byte{[]byte("a!"), []byte("x#"), []byte("a+b"), []byte("é"), []byte("a:b"), []byte("a\n"), []byte("\n"), []byte("a@b"), []byte("(x)"), []byte("*"), []byte("a;b")}, badTexts...), "bc"))
			if gen.OneIn(t, 4, "emptyCid") {
				p.ClientID, p.Clean = nil, false
			}
			return out(p)
		}},
		{"CONNECT password without user", func() (byte, []byte) {
			p := pk(gen.Int(t, 3, 4, "v34"), ref.CONNECT)
			p.HasUser, p.User, p.HasPass, p.Pass = false, nil, true, []byte("secret")
			return out(p)
		}},
		{"CONNECT user name", func() (byte, []byte) {
			p := pk(0, ref.CONNECT)
			p.HasUser, p.User = true, padded(t, gen.Pick(t, badTexts, "bu"))
			return out(p)
		}},
		{"CONNECT will topic", func() (byte, []byte) {
			p := pk(0, ref.CONNECT)
			if p.Will == nil {
				p.Will = &ref.Will{Payload: []byte("x")}
			}
			p.Will.Topic = padded(t, gen.Pick(t, append(append([][]byte{}, badTexts...), badNames...), "bw"))
			if p.Ver != 5 && gen.OneIn(t, 4, "emptyW") {
				p.Will.Topic = nil
			}
			return out(p)
		}},
		{"remaining length of five bytes", func() (byte, []byte) {
			p := any()
			b, _ := p.Body(ref.Form{})
			n := uint32(len(b))
			rl := []byte{byte(n&0x7f) | 0x80, byte(n>>7&0x7f) | 0x80, byte(n>>14&0x7f) | 0x80, byte(n>>21&0x7f) | 0x80, byte(n >> 28)}
			return p.Ver, append(append([]byte{first(p)}, rl...), b...)
		}},
		{"remaining length wrong", func() (byte, []byte) {
			p := any()
			b, _ := p.Body(ref.Form{})
			d := gen.Pick(t, []int{1, -1, 2, -2, 128, -128}, "rld")
			n := len(b) + d
			if n < 0 {
				n = 0
			}
			return p.Ver, append(append([]byte{first(p)}, ref.VBI(uint32(n))...), b...)
		}},
		{"property length omitted before more fields", func() (byte, []byte) {
			p := pk(5, gen.Pick(t, []int{ref.CONNECT, ref.CONNACK, ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.SUBACK, ref.PUBLISH}, "opt"))
			p.Props = nil
			b, ms := p.Body(ref.Form{})
			m := marks(ms, "plen")[0]
			nb := append([]byte{}, b[:m.Off]...)
			return p.Ver, gen.Refit(first(p), append(nb, b[m.Off+m.Len:]...))
		}},
	}
	r := gen.Pick(t, rules, "rule")
	v, b := r.f()
	return &gen.Wire{Ver: v, B: b, How: r.how}
}
