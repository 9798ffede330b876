package checks

import (
	"bytes"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C12 -------------------------------------------------------------------

type topicCase struct {
	S   []byte `json:"s"`
	Ops byte   `json:"ops"`
	// neighbours before and after the text in topic lists
	Pre  int `json:"pre"`
	Post int `json:"post"`
}

var topicAlphabet = []byte("a/+#$")

func enumTopics(yield func(*topicCase)) {
	max := 6
	if Thorough {
		max = 8
	}
	k := 0
	var rec func(s []byte, pre string, left int)
	rec = func(s []byte, pre string, left int) {
		k++
		yield(&topicCase{S: append([]byte(pre), s...), Ops: byte(k * 7), Pre: k % 3, Post: k / 3 % 2})
		if left == 0 {
			return
		}
		for _, c := range topicAlphabet {
			rec(append(s, c), pre, left-1)
		}
	}
	rec(nil, "", max)
	for _, pre := range []string{"$share/", "$share/g/", "$share/g/a/", "$SYS/", "$share", "$shar/", "$sharee/", "$Share/", "x$share/", "/$share/", "$share//"} {
		rec(nil, pre, max-2)
	}
	// every single byte and every pair with it, in an otherwise good text
	for i := 0; i < 256; i++ {
		for j, f := range []string{"%", "%/a", "a/%", "a%b", "$share/%/a", "$share/g/%", "$%/a"} {
			yield(&topicCase{S: bytes.Replace([]byte(f), []byte("%"), []byte{byte(i)}, 1), Pre: j % 2})
		}
	}
	// every code point of the Basic Multilingual Plane's control areas, surrogates, boundaries
	for _, r := range [][2]int{{0x80, 0xa0}, {0x7fe, 0x802}, {0xfff, 0x1001}, {0x2028, 0x2029}, {0xd7fd, 0xd7ff}, {0xe000, 0xe002}, {0xfdd0, 0xfdd2}, {0xfffd, 0xffff}, {0x10000, 0x10001}, {0x10fffe, 0x10ffff}} {
		for c := r[0]; c <= r[1]; c++ {
			yield(&topicCase{S: []byte(string(rune(c))), Ops: 1})
			yield(&topicCase{S: []byte("a/" + string(rune(c)) + "/+"), Ops: 2})
		}
	}
	// three-byte sequences around the surrogates and overlong forms
	for _, b := range []byte{0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff} {
		for _, c := range []byte{0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0} {
			for _, rest := range []string{"", "\x80", "\x80\x80", "\xbf\xbf", "a"} {
				yield(&topicCase{S: append([]byte{b, c}, rest...)})
				yield(&topicCase{S: append([]byte{'t', '/', b, c}, rest...)})
			}
		}
	}
}

func genTopicText(t *rapid.T) *topicCase {
	c := &topicCase{Ops: byte(gen.Int(t, 0, 255, "ops")), Pre: gen.Int(t, 0, 2, "pre"), Post: gen.Int(t, 0, 2, "post")}
	switch k := gen.Int(t, 0, 9, "kind"); {
	case k < 3:
		c.S = gen.Filter(t)
	case k < 5:
		c.S = gen.TopicName(t)
	case k == 5:
		c.S = gen.Pick(t, append(append(append([][]byte{}, badTexts...), badNames...), badFilters...), "bad")
	case k == 6:
		n := gen.Int(t, 0, 12, "n")
		for i := 0; i < n; i++ {
			c.S = append(c.S, gen.Pick(t, []byte("aab//++##$\x00\x1f\x7f\xc2\x80\xe2\x82\xac\xed\xff \n"), "c"))
		}
		return c
	case k == 7:
		c.S = padded(t, gen.Pick(t, append(append(append([][]byte{}, badTexts...), badNames...), badFilters...), "bad"))
	case k == 8:
		// deep and long ones
		n := gen.Pick(t, []int{10, 50, 200, 1000, 5000}, "levels")
		lv := gen.Pick(t, [][]byte{[]byte("+"), []byte("a"), {}, []byte("ab"), []byte("é")}, "level")
		c.S = bytes.Repeat(append(append([]byte{}, lv...), '/'), n)
		if gen.Flip(t, "tail") {
			c.S = append(c.S, gen.Pick(t, []string{"#", "+", "a", "a+", "##", "#/"}, "tl")...)
		}
		if gen.OneIn(t, 4, "share") {
			c.S = append([]byte("$share/g/"), c.S...)
		}
	case k == 9:
		c.S = append([]byte("$share/"), gen.Filter(t)...)
	}
	c.S = append([]byte{}, c.S...)
	// near misses
	for i := gen.Int(t, 0, 4, "edits") - 2; i > 0; i-- {
		at := gen.Int(t, 0, len(c.S), "at")
		ch := gen.Pick(t, []string{"+", "#", "/", "$", "a", "é", "\x00", "\xff", "\x7f", "\xc2\x85", "\x80", "\n", "+/", "/#", "//", "\xed\xa0\x80"}, "ch")
		if at < len(c.S) && gen.Flip(t, "repl") {
			c.S = append(c.S[:at:at], append([]byte(ch), c.S[at+1:]...)...)
		} else {
			c.S = append(c.S[:at:at], append([]byte(ch), c.S[at:]...)...)
		}
	}
	if len(c.S) > 65535 {
		c.S = c.S[:65535]
	}
	return c
}

var neighbours = []string{"n", "+/nb", "$share/grp/nb/#"}

func checkTopicText(c *topicCase, x *prop.Ctx) error {
	full, s := guarded(c.S)
	nameOK, textOK := ref.TopicNameOK(c.S), ref.TextOK(c.S)
	parts, filterOK := ref.SplitFilter(c.S)
	switch {
	case filterOK && parts.Share != "":
		x.Class("valid shared filter")
	case filterOK && nameOK:
		x.Class("valid filter and name")
	case filterOK:
		x.Class("valid wildcard filter")
	case nameOK:
		x.Class("valid name, no filter")
	case textOK:
		x.Class("text, neither name nor filter")
	default:
		x.Class("no MQTT text")
	}
	x.NonTrivial()
	if g := mqttp.ValidTopic(s); g != nameOK {
		return errf("ValidTopic(%q) is %v", trunc(string(c.S)), g)
	}
	if g := mqttp.IsValidUTF(s); g != textOK {
		return errf("IsValidUTF(%q) is %v", trunc(string(c.S)), g)
	}
	t, err := mqttp.NewTopic(s)
	if (err == nil) != filterOK || (t != nil) != filterOK {
		return errf("NewTopic(%q): topic %v, error %v, want accepted %v", trunc(string(c.S)), t != nil, err, filterOK)
	}
	if filterOK {
		if err = sut.CheckTopic(t, c.S, 0); err != nil {
			return err
		}
	}
	wantSub := filterOK && c.Ops&3 != 3
	t, err = mqttp.NewSubscribeTopic(s, mqttp.SubscriptionOptions(c.Ops))
	if (err == nil) != wantSub || (t != nil) != wantSub {
		return errf("NewSubscribeTopic(%q, 0x%02x): topic %v, error %v, want accepted %v", trunc(string(c.S)), c.Ops, t != nil, err, wantSub)
	}
	if wantSub {
		if err = sut.CheckTopic(t, c.S, c.Ops); err != nil {
			return err
		}
	}
	if err = checkGuard(full, c.S); err != nil {
		return err
	}
	ver := byte(3 + (len(c.S)+int(c.Ops))%3)
	for _, v := range []byte{ver, 5} {
		m := mqttp.NewPublish(verOf(int(v)))
		if e := m.Set("keep/this", []byte("p"), 1, true, true); e != nil {
			return errf("Set: %v", e)
		}
		if len(c.S) == 0 {
			// an empty topic is meaningful only with an alias: before 5.0 it must be refused when set alone
			if e := m.SetTopic(""); e == nil && v < 5 {
				return errf("SetTopic(\"\") on a 3.x PUBLISH succeeds")
			}
			continue
		}
		e := m.SetTopic(string(c.S))
		if (e == nil) != nameOK {
			return errf("SetTopic(%q) v%d: error %v, want accepted %v", trunc(string(c.S)), v, e, nameOK)
		}
		want := "keep/this"
		if nameOK {
			want = string(c.S)
		}
		if m.Topic() != want {
			return errf("after SetTopic(%q) v%d the topic is %q", trunc(string(c.S)), v, trunc(m.Topic()))
		}
		m = mqttp.NewPublish(verOf(int(v)))
		if e = m.Set("keep/this", []byte("p"), 1, true, true); e != nil {
			return errf("Set: %v", e)
		}
		e = m.Set(string(c.S), []byte("q"), 2, false, false)
		if (e == nil) != nameOK {
			return errf("Set(%q) v%d: error %v, want accepted %v", trunc(string(c.S)), v, e, nameOK)
		}
		if m.Topic() != want {
			return errf("after Set(%q) v%d the topic is %q", trunc(string(c.S)), v, trunc(m.Topic()))
		}
	}
	if len(c.S) > 65535 {
		return nil
	}
	for _, v := range []byte{ver, 5} {
		p := &ref.Packet{Ver: v, Type: ref.PUBLISH, Topic: c.S, Payload: []byte("pay"), QoS: c.Ops & 1}
		if p.QoS > 0 {
			p.ID = 77
		}
		if err = judge(v, p.Encode(ref.Form{}), "PUBLISH topic"); err != nil {
			return err
		}
		p = minimal(v, ref.CONNECT)
		p.Will = &ref.Will{Topic: c.S, Payload: []byte("w"), QoS: 1}
		if err = judge(v, p.Encode(ref.Form{}), "will topic"); err != nil {
			return err
		}
		for _, typ := range []int{ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
			p = &ref.Packet{Ver: v, Type: typ, ID: 9}
			for i := 0; i < c.Pre; i++ {
				p.Subs = append(p.Subs, ref.Sub{Topic: []byte(neighbours[i])})
			}
			p.Subs = append(p.Subs, ref.Sub{Topic: c.S})
			if typ == ref.SUBSCRIBE {
				p.Subs[c.Pre].Ops = c.Ops & 2
			}
			for i := 0; i < c.Post; i++ {
				p.Subs = append(p.Subs, ref.Sub{Topic: []byte(neighbours[2-i])})
			}
			if err = judge(v, p.Encode(ref.Form{}), "topic filter"); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- C13 -------------------------------------------------------------------

type connOp struct {
	K    string    `json:"k"`
	B    bool      `json:"b,omitempty"`
	N    uint16    `json:"n,omitempty"`
	S    []byte    `json:"s,omitempty"`
	P    []byte    `json:"p,omitempty"`
	Will *ref.Will `json:"will,omitempty"`
	WVer byte      `json:"wver,omitempty"`
	WDup bool      `json:"wdup,omitempty"` // what a message brings along that a will does not have
	WID  uint16    `json:"wid,omitempty"`
	Nil  bool      `json:"nil,omitempty"`
}

type connCase struct {
	Ver   byte        `json:"ver"`
	Start *ref.Packet `json:"start,omitempty"` // decoded, if given
	Ops   []connOp    `json:"ops"`
	Rep   int         `json:"rep,omitempty"`
}

func genConnOps(t *rapid.T) *connCase {
	c := &connCase{Ver: byte(gen.Int(t, 3, 5, "ver"))}
	if gen.Flip(t, "decoded") {
		c.Start = gen.Packet(t, gen.Opt{Ver: int(c.Ver), Type: ref.CONNECT, NoPad: true})
	}
	n := gen.Int(t, 1, 12, "n")
	for i := 0; i < n; i++ {
		op := connOp{K: gen.Pick(t, []string{"clean", "ka", "cid", "cid", "will", "will", "will", "rewill", "reset", "cred", "cred", "cred", "encode"}, "k")}
		switch op.K {
		case "rewill":
			op.S, op.P, op.N, op.B = gen.TopicName(t), append([]byte("w"), gen.Bytes(t, 60, "rwp")...), uint16(gen.Int(t, 0, 2, "rwq")), gen.Flip(t, "rwr")
			if len(op.S) == 0 {
				op.S = []byte("w")
			}
		case "clean":
			op.B = gen.Flip(t, "b")
		case "ka":
			op.N = uint16(gen.U32(t, "ka"))
		case "cid":
			op.S = gen.ClientID(t)
			op.Nil = gen.Flip(t, "nil")
			if gen.OneIn(t, 3, "badCid") {
				op.S = padded(t, gen.Pick(t, append([][]byte{[]byte("a!"), []byte("x#"), []byte("a+b"), []byte("é"), []byte("a:b"), []byte("$c"), []byte("(")}, badTexts...), "bc"))
				if ref.ClientIDOK(op.S) {
					prop.Harness("bad client id %q is good", op.S)
				}
			}
		case "will":
			switch gen.Int(t, 0, 9, "wk") {
			case 0:
				op.Nil = true
			default:
				op.WVer = c.Ver
				if gen.OneIn(t, 5, "wver") {
					op.WVer = byte(gen.Int(t, 3, 5, "wv"))
				}
				op.Will = &ref.Will{Topic: gen.TopicName(t), Payload: gen.Bytes(t, gen.Pick(t, []int{3000, 3000, 3000, 3000, 3000, 65535}, "wmost"), "wp"), QoS: byte(gen.Int(t, 0, 2, "wq")), Retain: gen.Flip(t, "wr")}
				if len(op.Will.Payload) == 0 {
					op.Will.Payload = []byte{1}
				}
				if gen.OneIn(t, 8, "noTopic") {
					op.Will.Topic = nil
				}
				if gen.OneIn(t, 3, "used") {
					op.WDup = gen.Flip(t, "wdup")
					op.WID = uint16(gen.Int(t, 0, 65535, "wid"))
				}
				if op.WVer == 5 && gen.Flip(t, "wprops") {
					op.Will.Props = gen.Props(t, ref.WILL, false)
				}
			}
		case "cred":
			op.Nil = gen.Flip(t, "nil")
			most := gen.Pick(t, []int{500, 500, 500, 500, 500, 65535}, "most")
			switch gen.Int(t, 0, 9, "ck") {
			case 0: // clear both
			case 1, 2, 3:
				op.S, op.P = gen.Text(t, most, "u"), gen.Bytes(t, most, "p")
				if len(op.S) == 0 {
					op.S = []byte("u")
				}
				if len(op.P) == 0 {
					op.P = []byte("p")
				}
			case 4, 5, 6:
				op.S = gen.Text(t, most, "u")
			case 7, 8:
				op.P = gen.Bytes(t, most, "p")
			case 9:
				op.S = append([]byte{}, gen.Pick(t, notUTF8, "nu")...)
				if gen.Flip(t, "padU") {
					op.S = append([]byte("user"), op.S...)
				}
				if gen.Flip(t, "withP") {
					op.P = []byte("secret")
				}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	c.Rep = genRep(t, c, len(c.Ops))
	return c
}

func checkConnOps(c *connCase, x *prop.Ctx) error {
	return beside(c.Ver, ref.CONNECT, func() error { return checkConnOpsAlone(c, x) })
}

func checkConnOpsAlone(c *connCase, x *prop.Ctx) error {
	ver := verOf(int(c.Ver))
	model := &ref.Packet{Ver: c.Ver, Type: ref.CONNECT}
	var m *mqttp.Connect
	var lent lender
	if c.Start != nil {
		d, err := decodeOK(c.Ver, lent.give(c.Start.Encode(ref.Form{})))
		if err != nil {
			return err
		}
		var ok bool
		if m, ok = d.(*mqttp.Connect); !ok {
			return errf("CONNECT decodes to %T", d)
		}
		model = c.Start.Clone()
		x.Class("decoded")
	} else {
		m = mqttp.NewConnect(ver)
		x.Class("fresh")
	}
	failed, overwrote := false, map[string]int{}
	wire := func(step int) error {
		if len(model.ClientID) == 0 && !model.Clean && c.Ver < 5 {
			return nil // 3.x requires clean session then; the setters do not enforce it
		}
		b, err := sut.EncodeBoth(m)
		if err != nil {
			return errf("step %d: %v", step, err)
		}
		q, v, why := ref.Decode(c.Ver, b)
		if v == ref.Invalid {
			return errf("step %d: malformed CONNECT (%s): %s", step, why, hx(b))
		}
		if d := ref.Diff(project(model, c.Ver), q); d != "" {
			return errf("step %d: wire image: %s", step, d)
		}
		return nil
	}
	look := func(step int) error {
		q, err := sut.Extract(m)
		if err != nil {
			return errf("step %d: %v", step, err)
		}
		if d := ref.Diff(sut.Expect(model), q); d != "" {
			return errf("step %d: accessors: %s", step, d)
		}
		u, p := m.Credentials()
		lent.keep(m.ClientID(), u, p)
		if w := m.Will(); w != nil {
			lent.keep(w.Payload())
		}
		return nil
	}
	if err := look(0); err != nil {
		return err
	}
	ops := repeat(c.Ops, c.Rep, x)
	for i, op := range ops {
		step := i + 1
		overwrote[op.K]++
		switch op.K {
		case "clean":
			m.SetClean(op.B)
			model.Clean = op.B
		case "ka":
			m.SetKeepAlive(op.N)
			model.KeepAlive = op.N
		case "cid":
			id := lent.give(op.S)
			if op.Nil && len(id) == 0 {
				id = nil
			}
			err := m.SetClientID(id)
			if (err == nil) != ref.ClientIDOK(op.S) {
				return errf("step %d: SetClientID(%q): %v", step, trunc(string(op.S)), err)
			}
			if err == nil {
				model.ClientID = op.S
			} else {
				failed = true
			}
		case "will":
			if op.Nil {
				if m.SetWill(nil) == nil {
					return errf("step %d: SetWill(nil) succeeds", step)
				}
				failed = true
				break
			}
			w, err := sut.BuildWill(verOf(int(op.WVer)), op.Will)
			if err != nil {
				return errf("step %d: %v", step, err)
			}
			if op.WDup {
				w.SetDup(true)
			}
			if op.WID != 0 {
				w.SetPacketID(mqttp.IDType(op.WID))
				w.SetPublishID(uintptr(op.WID))
				w.SetExpireAt(time.Unix(int64(op.WID), 0))
			}
			err = m.SetWill(w)
			if w.Dup() != op.WDup {
				return errf("step %d: SetWill changes DUP of the message passed to it", step)
			}
			// the caller's message is not touched
			if w.Topic() != string(op.Will.Topic) || !bytes.Equal(w.Payload(), op.Will.Payload) || byte(w.QoS()) != op.Will.QoS || w.Retain() != op.Will.Retain || byte(w.Version()) != op.WVer {
				return errf("step %d: SetWill changes the message passed to it", step)
			}
			if op.WVer == 5 {
				ps, e := sut.ReadProps(w)
				if e != nil {
					return errf("step %d: will: %v", step, e)
				}
				if d := ref.DiffProps(op.Will.Props, ps); d != "" {
					return errf("step %d: SetWill changes the message passed to it: %s", step, d)
				}
			}
			if err == nil && len(op.Will.Topic) == 0 {
				return errf("step %d: SetWill without a topic succeeds", step)
			}
			if err != nil && len(op.Will.Topic) != 0 {
				return errf("step %d: SetWill: %v", step, err)
			}
			if err == nil {
				model.Will = op.Will
			} else {
				failed = true
			}
		case "rewill": // the will is changed and set again
			w := m.Will()
			if w == nil {
				break
			}
			x.Class("will changed and set again")
			nw := *model.Will
			nw.Topic, nw.Payload, nw.QoS, nw.Retain = op.S, op.P, byte(op.N), op.B
			if err := w.Set(string(op.S), append([]byte{}, op.P...), mqttp.QosType(op.N), op.B, false); err != nil {
				return errf("step %d: %v", step, err)
			}
			if err := m.SetWill(w); err != nil {
				return errf("step %d: SetWill: %v", step, err)
			}
			model.Will = &nw
		case "reset":
			m.ResetWill()
			model.Will = nil
		case "cred":
			u, pw := lent.give(op.S), lent.give(op.P)
			if op.Nil && len(u) == 0 {
				u = nil
			}
			if op.Nil && len(pw) == 0 {
				pw = nil
			}
			err := m.SetCredentials(u, pw)
			refuse := c.Ver < 5 && len(op.S) == 0 && len(op.P) > 0 || !ref.TextOK(op.S)
			if (err != nil) != refuse {
				return errf("step %d: SetCredentials(%q, %q): %v", step, trunc(string(op.S)), trunc(string(op.P)), err)
			}
			if err == nil {
				model.User, model.Pass = op.S, op.P
				model.HasUser, model.HasPass = len(op.S) > 0, len(op.P) > 0
			} else {
				failed = true
			}
		case "encode":
			if err := wire(step); err != nil {
				return err
			}
		}
		if err := look(step); err != nil {
			return errf("%v (after %s)", err, op.K)
		}
		if err := lent.intact(step, op.K); err != nil {
			return err
		}
	}
	if failed || overwrote["cred"] > 1 || overwrote["will"] > 1 || overwrote["cid"] > 1 {
		x.NonTrivial()
		x.Class("overwrites or refusals")
	}
	return wire(len(ops))
}

// ---- C14 -------------------------------------------------------------------

type flagCase struct {
	Kind   string `json:"kind"`
	Flags  byte   `json:"flags"`
	Name   []byte `json:"name"`
	Level  byte   `json:"level"`
	Shape  byte   `json:"shape"` // the version the body is laid out for
	Caller byte   `json:"caller"`
	Cid    []byte `json:"cid"`
	User   []byte `json:"user"`
	Topic  []byte `json:"topic"`
}

func (c *flagCase) wire() []byte {
	var b []byte
	lp := func(s []byte) {
		b = append(b, byte(len(s)>>8), byte(len(s)))
		b = append(b, s...)
	}
	lp(c.Name)
	b = append(b, c.Level, c.Flags, 0, 60)
	if c.Shape == 5 {
		b = append(b, 0)
	}
	lp(c.Cid)
	if c.Flags&4 != 0 {
		if c.Shape == 5 {
			b = append(b, 0)
		}
		lp(c.Topic)
		lp([]byte("will payload"))
	}
	if c.Flags&0x80 != 0 {
		lp(c.User)
	}
	if c.Flags&0x40 != 0 {
		lp([]byte("password"))
	}
	return gen.Refit(0x10, b)
}

func enumConnFlags(yield func(*flagCase)) {
	for f := 0; f < 256; f++ {
		for v := byte(3); v <= 5; v++ {
			for caller := byte(3); caller <= 5; caller++ {
				for _, cid := range []string{"", "c"} {
					yield(&flagCase{Kind: "flags", Flags: byte(f), Name: []byte(ref.ProtoName(v)), Level: v, Shape: v, Caller: caller, Cid: []byte(cid), User: []byte("user"), Topic: []byte("w/t")})
				}
			}
		}
	}
	names := []string{"MQTT", "MQIsdp", "", "M", "MQT", "MQTTX", "mqtt", "MQIsd", "MQIsdpp", "MQISDP", "mqisdp", "\xff\xfe", "MQTT\x00", " MQTT", "MQTT ", "QMTT", "MQTt", "MQIsDp", "MQTTMQTT", "HTTP", "MQ\xc3\x89T"}
	for _, n := range names {
		for l := 0; l < 256; l++ {
			for _, shape := range []byte{4, 5} {
				for caller := byte(3); caller <= 5; caller++ {
					yield(&flagCase{Kind: "protocol", Flags: 2, Name: []byte(n), Level: byte(l), Shape: shape, Caller: caller, Cid: []byte("c")})
				}
			}
		}
	}
	for ch := 0; ch < 256; ch++ {
		for pos, f := range []string{"%", "%bc", "a%c", "ab%", "%%"} {
			for v := byte(3); v <= 5; v++ {
				cid := bytes.ReplaceAll([]byte(f), []byte("%"), []byte{byte(ch)})
				yield(&flagCase{Kind: "client id", Flags: 2 * byte(pos&1), Name: []byte(ref.ProtoName(v)), Level: v, Shape: v, Caller: v, Cid: cid})
				yield(&flagCase{Kind: "user name", Flags: 0x82, Name: []byte(ref.ProtoName(v)), Level: v, Shape: v, Caller: v, Cid: []byte("c"), User: cid})
				yield(&flagCase{Kind: "will topic", Flags: 0x06, Name: []byte(ref.ProtoName(v)), Level: v, Shape: v, Caller: v, Cid: []byte("c"), Topic: cid})
			}
		}
	}
}

func checkConnFlags(c *flagCase, x *prop.Ctx) error {
	x.Class(c.Kind)
	x.NonTrivial()
	b := c.wire()
	if err := judge(c.Caller, b, "CONNECT "+c.Kind); err != nil {
		return err
	}
	return sameForCallers(b)
}

// sameForCallers: the outcome does not depend on the version the caller expected.
func sameForCallers(b []byte) error {
	var first sut.Dec
	for i, v := range []byte{3, 4, 5} {
		d, pn := sut.Decode(v, b)
		if pn != nil {
			return pn
		}
		if i == 0 {
			first = d
			continue
		}
		if (d.Err == nil) != (first.Err == nil) {
			return errf("a CONNECT is judged by the version the caller expected: %v for 3.1, %v for %d: %s", first.Err, d.Err, v, hx(b))
		}
		if d.Err == nil && d.M.Version() != first.M.Version() {
			return errf("a CONNECT gets the version the caller expected: %d and %d", first.M.Version(), d.M.Version())
		}
	}
	return nil
}

type connWire struct {
	B   []byte `json:"b"`
	Ver byte   `json:"ver"` // of the caller
	How string `json:"how"`
}

func genConnWire(t *rapid.T) *connWire {
	p := gen.Packet(t, gen.Opt{Type: ref.CONNECT})
	c := &connWire{Ver: byte(gen.Int(t, 3, 5, "caller")), How: "valid"}
	k := gen.Int(t, 0, 9, "k")
	switch k {
	case 0:
		c.How = "client id"
		p.ClientID = append([]byte{}, p.ClientID...)
		at := gen.Int(t, 0, len(p.ClientID), "at")
		p.ClientID = append(p.ClientID[:at:at], append(gen.Pick(t, [][]byte{{'!'}, {'+'}, {'#'}, {0}, {0xff}, {'\n'}, {':'}, {0xc3, 0xa9}, {'@'}, {'a'}, {'/'}}, "ch"), p.ClientID[at:]...)...)
		if len(p.ClientID) > 65535 {
			p.ClientID = p.ClientID[:65535]
		}
	case 1:
		c.How = "user name"
		p.HasUser, p.User = true, padded(t, gen.Pick(t, badTexts, "bt"))
	case 2:
		c.How = "will topic"
		if p.Will == nil {
			p.Will = &ref.Will{Payload: []byte("x")}
		}
		p.Will.Topic = padded(t, gen.Pick(t, append(append([][]byte{{}}, badTexts...), badNames...), "bn"))
	case 3:
		c.How = "empty client id"
		p.ClientID, p.Clean = nil, gen.Flip(t, "cl")
	case 4:
		c.How = "password only"
		p.HasUser, p.User, p.HasPass = false, nil, true
	case 5:
		c.How = "empty credentials"
		p.HasUser, p.HasPass, p.User, p.Pass = true, gen.Flip(t, "hp"), nil, nil
	}
	c.B = p.Encode(ref.Form{})
	if k >= 8 {
		// flip bits of the connect flags or replace the level
		at := 1
		for c.B[at]&0x80 != 0 {
			at++
		}
		at += 1 + 2 + len(ref.ProtoName(p.Ver))
		if k == 8 {
			c.How = "flag flip"
			c.B[at+1] ^= 1 << gen.Int(t, 0, 7, "bit")
		} else {
			c.How = "level"
			c.B[at] = byte(gen.Int(t, 0, 7, "lvl"))
		}
	}
	return c
}

func checkConnWire(c *connWire, x *prop.Ctx) error {
	_, v, _ := ref.Decode(c.Ver, c.B)
	x.Class(c.How + ", " + v.String())
	if v != ref.DontCare {
		x.NonTrivial()
	}
	if err := judge(c.Ver, c.B, "CONNECT"); err != nil {
		return err
	}
	if v == ref.DontCare {
		return nil
	}
	return sameForCallers(c.B)
}

// ---- C15 -------------------------------------------------------------------

type pubOp struct {
	K string `json:"k"`
	S []byte `json:"s,omitempty"`
	P []byte `json:"p,omitempty"`
	N uint64 `json:"n,omitempty"`
	R bool   `json:"r,omitempty"`
	D bool   `json:"d,omitempty"`
}

type pubCase struct {
	Ver   byte        `json:"ver"`
	From  string      `json:"from"` // fresh, decoded, cloned, will
	Start *ref.Packet `json:"start,omitempty"`
	Ops   []pubOp     `json:"ops"`
	Rep   int         `json:"rep,omitempty"`
}

func genPubOps(t *rapid.T) *pubCase {
	c := &pubCase{Ver: byte(gen.Pick(t, gen.Versions, "ver")), From: gen.Pick(t, []string{"fresh", "fresh", "decoded", "cloned", "will"}, "from")}
	switch c.From {
	case "decoded", "cloned":
		c.Start = gen.Packet(t, gen.Opt{Ver: int(c.Ver), Type: ref.PUBLISH, NoPad: true})
		if len(c.Start.Topic) == 0 {
			c.Start.Topic = []byte("a")
		}
	case "will":
		c.Start = gen.Packet(t, gen.Opt{Ver: int(c.Ver), Type: ref.CONNECT, NoPad: true})
		if c.Start.Will == nil {
			c.Start.Will = &ref.Will{Topic: []byte("w"), Payload: []byte("p"), QoS: 1, Retain: true}
		}
	}
	n := gen.Int(t, 1, 14, "n")
	for i := 0; i < n; i++ {
		op := pubOp{K: gen.Pick(t, []string{"set", "set", "dup", "retain", "qos", "qos", "topic", "topic", "payload", "id", "pubid", "size", "encode"}, "k")}
		name := func() []byte {
			if gen.OneIn(t, 3, "badTopic") {
				return padded(t, gen.Pick(t, append(append([][]byte{}, badTexts...), badNames...), "bn"))
			}
			if gen.OneIn(t, 12, "noTopic") {
				return nil
			}
			return gen.TopicName(t)
		}
		qos := func() uint64 {
			if gen.OneIn(t, 4, "badQ") {
				return uint64(gen.Int(t, 3, 255, "bq"))
			}
			return uint64(gen.Int(t, 0, 2, "q"))
		}
		switch op.K {
		case "set":
			op.S, op.P, op.N, op.R, op.D = name(), gen.Payload(t, "pl"), qos(), gen.Flip(t, "r"), gen.Flip(t, "d")
		case "dup", "retain":
			op.D = gen.Flip(t, "b")
		case "qos":
			op.N = qos()
		case "topic":
			op.S = name()
		case "payload":
			op.P = gen.Payload(t, "pl")
		case "id":
			op.N = uint64(gen.PacketID(t))
		case "pubid":
			op.N = uint64(rapid.Uint64().Draw(t, "pubid"))
		}
		c.Ops = append(c.Ops, op)
	}
	c.Rep = genRep(t, c, len(c.Ops))
	return c
}

func checkPubOps(c *pubCase, x *prop.Ctx) error {
	return beside(c.Ver, ref.PUBLISH, func() error { return checkPubOpsAlone(c, x) })
}

func checkPubOpsAlone(c *pubCase, x *prop.Ctx) error {
	x.Class(c.From)
	model := &ref.Packet{Ver: c.Ver, Type: ref.PUBLISH}
	var m *mqttp.Publish
	var lent lender
	hasID := false
	var id uint16
	var pubID uint64
	switch c.From {
	case "fresh":
		m = mqttp.NewPublish(verOf(int(c.Ver)))
	case "decoded", "cloned":
		d, err := decodeOK(c.Ver, lent.give(c.Start.Encode(ref.Form{})))
		if err != nil {
			return err
		}
		m = d.(*mqttp.Publish)
		model = c.Start.Clone()
		id, hasID = c.Start.ID, c.Start.QoS > 0
		if c.From == "cloned" {
			if m, err = m.Clone(verOf(int(c.Ver))); err != nil {
				return errf("Clone: %v", err)
			}
			model.Dup = false
			q, e := sut.Extract(m)
			if e != nil {
				return e
			}
			model.Props, model.ID = q.Props, q.ID // what a clone carries is the matter of another property
			id, hasID = q.ID, q.ID != 0
		}
	case "will":
		d, err := decodeOK(c.Ver, lent.give(c.Start.Encode(ref.Form{})))
		if err != nil {
			return err
		}
		m = d.(*mqttp.Connect).Will()
		if m == nil {
			return errf("the will is missing")
		}
		w := c.Start.Will
		// will delay belongs to the CONNECT, not to the message
		model.Topic, model.Payload, model.QoS, model.Retain, model.Props = w.Topic, w.Payload, w.QoS, w.Retain, w.Props
	}
	unknownID := c.From == "cloned" && model.QoS == 0 // an identifier may or may not be there
	look := func(step int, after string) error {
		q, err := sut.Extract(m)
		if err != nil {
			return errf("step %d (%s): %v", step, after, err)
		}
		want := *model
		want.ID = 0
		q.ID = 0
		if d := ref.Diff(&want, q); d != "" {
			return errf("step %d (%s): accessors: %s", step, after, d)
		}
		if !unknownID {
			g, e := m.ID()
			if (e == nil) != hasID || hasID && uint16(g) != id {
				return errf("step %d (%s): ID() is %d, %v, want %d, %v", step, after, g, e, id, hasID)
			}
		}
		if uint64(m.PublishID()) != pubID {
			return errf("step %d (%s): PublishID() is %d, want %d", step, after, m.PublishID(), pubID)
		}
		lent.keep(m.Payload())
		return nil
	}
	wire := func(step int) error {
		if len(model.Topic) == 0 || unknownID {
			return nil
		}
		if _, ok := findPV(model.Props, 0x18); ok {
			return nil // a will's delay is not a PUBLISH property
		}
		if model.QoS == 0 && model.Dup || model.QoS > 0 && !hasID {
			return mustRefuse(m, "PUBLISH with DUP at QoS 0 or without identifier")
		}
		b, err := sut.EncodeBoth(m)
		if err != nil {
			return errf("step %d: %v", step, err)
		}
		q, v, why := ref.Decode(c.Ver, b)
		if v == ref.Invalid {
			return errf("step %d: malformed PUBLISH (%s): %s", step, why, hx(b))
		}
		want := *model
		want.ID = 0
		if want.QoS > 0 {
			want.ID = id
		}
		if d := ref.Diff(&want, q); d != "" {
			return errf("step %d: wire image: %s", step, d)
		}
		return nil
	}
	if err := look(0, "start"); err != nil {
		return err
	}
	seen := map[string]int{}
	failed := false
	ops := repeat(c.Ops, c.Rep, x)
	for i, op := range ops {
		step := i + 1
		seen[op.K]++
		switch op.K {
		case "set":
			err := m.Set(string(op.S), lent.give(op.P), mqttp.QosType(op.N), op.R, op.D)
			ok := ref.TopicNameOK(op.S) && op.N <= 2
			if len(op.S) == 0 && op.N <= 2 {
				ok = err == nil
			}
			if (err == nil) != ok {
				return errf("step %d: Set(%q, QoS %d): %v", step, trunc(string(op.S)), op.N, err)
			}
			if ok {
				model.Topic, model.Payload, model.QoS, model.Retain, model.Dup = op.S, op.P, byte(op.N), op.R, op.D
			} else {
				failed = true
			}
		case "dup":
			m.SetDup(op.D)
			model.Dup = op.D
		case "retain":
			m.SetRetain(op.D)
			model.Retain = op.D
		case "qos":
			err := m.SetQoS(mqttp.QosType(op.N))
			if (err == nil) != (op.N <= 2) {
				return errf("step %d: SetQoS(%d): %v", step, op.N, err)
			}
			if err == nil {
				model.QoS = byte(op.N)
			} else {
				failed = true
			}
		case "topic":
			err := m.SetTopic(string(op.S))
			ok := ref.TopicNameOK(op.S)
			if len(op.S) == 0 {
				ok = err == nil && c.Ver == 5
			}
			if (err == nil) != ok {
				return errf("step %d: SetTopic(%q): %v", step, trunc(string(op.S)), err)
			}
			if ok {
				model.Topic = op.S
			} else {
				failed = true
			}
		case "payload":
			m.SetPayload(lent.give(op.P))
			model.Payload = op.P
		case "id":
			m.SetPacketID(mqttp.IDType(op.N))
			id, hasID, unknownID = uint16(op.N), true, false
		case "pubid":
			pubID = uint64(uintptr(op.N))
			m.SetPublishID(uintptr(op.N))
		case "size":
			if _, err := m.Size(); err != nil {
				return errf("step %d: Size: %v", step, err)
			}
		case "encode":
			if err := wire(step); err != nil {
				return err
			}
		}
		if err := look(step, op.K); err != nil {
			return err
		}
		if err := lent.intact(step, op.K); err != nil {
			return err
		}
	}
	if failed || seen["set"]+seen["qos"]+seen["dup"] > 1 {
		x.NonTrivial()
	}
	return wire(len(ops))
}

func init() {
	register(&prop.Def{ID: "C12", Quick: 24000, Thoro: 400000,
		Rule: "every string up to a bounded length over {a / + # $} alone and behind shared-subscription prefixes, every byte and boundary code points in several positions, and generated names, filters, near misses and broken text; each goes through the validators, the topic constructors, the PUBLISH setters and decoding of PUBLISH, will, SUBSCRIBE and UNSUBSCRIBE; non-trivial: all",
		Subs: []*prop.Sub{
			prop.Enum("bounded", enumTopics, checkTopicText),
			prop.Gen("text", 1, genTopicText, checkTopicText)}})
	register(&prop.Def{ID: "C13", Quick: 60000, Thoro: 1000000,
		Rule: "sequences of 1..12 CONNECT setter calls, valid and invalid, on a fresh or decoded CONNECT, checked after every call against a model and through the wire image; non-trivial: a field is overwritten or a call refused",
		Subs: []*prop.Sub{prop.Gen("setters", 1, genConnOps, checkConnOps)}})
	register(&prop.Def{ID: "C14", Quick: 48000, Thoro: 1000000,
		Rule: "all 256 connect flag bytes x versions x caller versions, all levels x protocol names, all bytes as client-id, user-name and will-topic characters (enumerated), and generated CONNECTs with one rule touched; non-trivial: the verdict is determined by MQTT",
		Subs: []*prop.Sub{
			prop.Enum("flags", enumConnFlags, checkConnFlags),
			prop.Gen("connect", 1, genConnWire, checkConnWire)}})
	register(&prop.Def{ID: "C15", Quick: 60000, Thoro: 1000000,
		Rule: "sequences of 1..14 PUBLISH setter calls, valid and invalid, on a fresh, decoded or cloned PUBLISH or a decoded will, checked after every call against a model and through the wire image; non-trivial: a call is refused or flags are set repeatedly",
		Subs: []*prop.Sub{prop.Gen("setters", 1, genPubOps, checkPubOps)}})
}
