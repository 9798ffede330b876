package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vltypes"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
	"vlverif/ref"
	"vlverif/sut"
)

// ---- C24 -------------------------------------------------------------------

// node describes a configuration value.
type node struct {
	K    string  `json:"k"`
	S    string  `json:"s,omitempty"`
	N    int     `json:"n,omitempty"`
	Keys []*node `json:"keys,omitempty"`
	Vals []*node `json:"vals,omitempty"`
}

type cfgCase struct {
	Root *node `json:"root"`
	Many int   `json:"many,omitempty"` // further entries of a map
}

func (c *cfgCase) build() interface{} {
	v := c.Root.build()
	for i := 0; i < c.Many; i++ {
		k, e := fmt.Sprintf("many %d", i), (&node{K: leafKinds[i%len(leafKinds)], N: i, S: "s"}).build()
		switch m := v.(type) {
		case map[string]interface{}:
			if m != nil {
				m[k] = e
			}
		case map[interface{}]interface{}:
			if m != nil {
				m[k] = e
			}
		}
	}
	return v
}

var leafKinds = []string{"string", "string", "int", "bool", "float", "nan", "nil", "int64", "uint8", "struct", "ptr", "err"}
var keyKinds = []string{"int", "int", "nil", "bool", "float", "nan", "int64", "uint8", "struct", "ptr", "array", "err"}
var oddKinds = []string{"bytes", "slice", "mapsi", "mapis", "mapss", "mapii", "namedif", "func", "chan", "ptrmap", "ptrmap2", "map"}

func genNode(t *rapid.T, depth int) *node {
	n := &node{}
	switch {
	case depth > 0 && gen.OneIn(t, 3, "inner"):
		n.K = gen.Pick(t, []string{"gmap", "smap", "list"}, "k")
		if n.K == "list" {
			for i := gen.Int(t, 0, 3, "n"); i > 0; i-- {
				n.Vals = append(n.Vals, genNode(t, depth-1))
			}
			return n
		}
		genEntries(t, n, depth-1, 4, gen.OneIn(t, 3, "odd"))
	case gen.OneIn(t, 6, "strange"):
		n.K, n.N = gen.Pick(t, oddKinds, "k"), gen.Int(t, 0, 3, "n")
	default:
		n.K, n.N = gen.Pick(t, leafKinds, "k"), gen.Int(t, -3, 70000, "n")
		n.S = rapid.StringN(0, 8, -1).Draw(t, "s")
		if gen.OneIn(t, 4, "tales") {
			n.S = gen.Tale(t)
		}
	}
	return n
}

func genEntries(t *rapid.T, n *node, depth, max int, odd bool) {
	cnt := gen.Int(t, 0, max, "cnt")
	seen := map[string]bool{}
	for i := 0; i < cnt; i++ {
		s := gen.Pick(t, []string{"", "a", "key", "Key", "KEY", "1", "true", "nil", "host.port", "é", "<nil>", " a"}, "ks")
		if gen.OneIn(t, 4, "tales") {
			s = gen.Tale(t)
		} else if gen.OneIn(t, 20, "long") {
			// long names that differ in their last letter only
			s = string(gen.PadText(gen.Pick(t, []int{31, 63, 64, 127, 128, 255, 256, 1023, 65535, 65536}, "kl"))) + gen.Pick(t, []string{"a", "b", "c"}, "ke")
		} else if gen.Flip(t, "free") {
			s = rapid.StringN(0, 6, -1).Draw(t, "ks2")
		}
		if seen[s] {
			continue
		}
		seen[s] = true
		n.Keys = append(n.Keys, &node{K: "string", S: s})
		n.Vals = append(n.Vals, genNode(t, depth))
	}
	if odd && n.K == "gmap" {
		for j := gen.Int(t, 1, 2, "odds"); j > 0; j-- {
			k := &node{K: gen.Pick(t, keyKinds, "ok"), N: gen.Int(t, 0, 2, "on"), S: "a"}
			n.Keys = append(n.Keys, k)
			n.Vals = append(n.Vals, genNode(t, 0))
		}
	}
}

func genCfg(t *rapid.T) *cfgCase {
	n := &node{}
	switch gen.Int(t, 0, 9, "root") {
	case 0:
		n = genNode(t, 1)
	case 1:
		n.K = gen.Pick(t, []string{"nilsmap", "nilgmap"}, "k")
	case 2, 3:
		n.K = "smap"
		genEntries(t, n, 2, gen.Pick(t, []int{3, 8, 20}, "max"), false)
	default:
		n.K = "gmap"
		genEntries(t, n, 2, gen.Pick(t, []int{1, 3, 8, 20}, "max"), gen.Flip(t, "odd"))
	}
	c := &cfgCase{Root: n}
	if gen.OneIn(t, 60, "many") {
		c.Many = gen.ManyCount(t, "manyN")
	}
	return c
}

type cfgStruct struct {
	A string
	B int
}

func (n *node) build() interface{} {
	switch n.K {
	case "string":
		return n.S
	case "int":
		return n.N
	case "bool":
		return n.N%2 == 0
	case "float":
		return float64(n.N) + 0.5
	case "nan":
		return math.NaN()
	case "nil":
		return nil
	case "int64":
		return int64(n.N)
	case "uint8":
		return uint8(n.N)
	case "struct":
		return cfgStruct{n.S, n.N}
	case "ptr":
		return &cfgStruct{n.S, n.N}
	case "array":
		return [1]string{n.S}
	case "err":
		return fmt.Errorf("%s", n.S)
	case "bytes":
		return []byte(n.S)
	case "slice", "list":
		l := make([]interface{}, 0)
		for _, v := range n.Vals {
			l = append(l, v.build())
		}
		return l
	case "mapsi":
		return map[string]int{"a": n.N}
	case "mapss":
		return map[string]string{"a": "b"}
	case "mapis":
		return map[int]string{n.N: "a"}
	case "mapii":
		return map[interface{}]string{"a": "b"}
	case "map":
		return map[interface{}]int{"a": n.N}
	case "namedif":
		return map[fmt.Stringer]interface{}{}
	case "func":
		return func() {}
	case "chan":
		return make(chan int)
	case "ptrmap":
		return &map[string]interface{}{"a": 1}
	case "ptrmap2":
		return &map[interface{}]interface{}{"a": 1}
	case "nilsmap":
		return map[string]interface{}(nil)
	case "nilgmap":
		return map[interface{}]interface{}(nil)
	case "smap":
		m := map[string]interface{}{}
		for i, k := range n.Keys {
			m[k.S] = n.Vals[i].build()
		}
		return m
	case "gmap":
		m := map[interface{}]interface{}{}
		for i, k := range n.Keys {
			m[k.build()] = n.Vals[i].build()
		}
		return m
	}
	prop.Harness("node kind %q", n.K)
	return nil
}

// identical: the same type and the same value (the same object for references).
func identical(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Map, reflect.Chan, reflect.Func, reflect.Ptr:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len() && va.Cap() == vb.Cap()
	case reflect.Float64:
		return math.Float64bits(va.Float()) == math.Float64bits(vb.Float())
	}
	return a == b
}

// snap records a value and everything inside it.
type snapEntry struct {
	m    interface{}
	keys []interface{}
	vals []interface{}
}

func snapshot(v interface{}, out *[]snapEntry) {
	switch m := v.(type) {
	case map[string]interface{}:
		e := snapEntry{m: m}
		for k, x := range m {
			e.keys, e.vals = append(e.keys, k), append(e.vals, x)
			snapshot(x, out)
		}
		*out = append(*out, e)
	case map[interface{}]interface{}:
		e := snapEntry{m: m}
		for k, x := range m {
			e.keys, e.vals = append(e.keys, k), append(e.vals, x)
			snapshot(x, out)
		}
		*out = append(*out, e)
	case []interface{}:
		e := snapEntry{m: m}
		for i, x := range m {
			e.keys, e.vals = append(e.keys, i), append(e.vals, x)
			snapshot(x, out)
		}
		*out = append(*out, e)
	}
}

func unchanged(ss []snapEntry) error {
	for _, e := range ss {
		switch m := e.m.(type) {
		case map[string]interface{}:
			if len(m) != len(e.keys) {
				return errf("a map of the input has %d entries, had %d", len(m), len(e.keys))
			}
			for i, k := range e.keys {
				if v, ok := m[k.(string)]; !ok || !identical(v, e.vals[i]) {
					return errf("entry %q of a map of the input changed", k)
				}
			}
		case map[interface{}]interface{}:
			if len(m) != len(e.keys) {
				return errf("a map of the input has %d entries, had %d", len(m), len(e.keys))
			}
			for i, k := range e.keys {
				if k != k { //nolint: NaN keys cannot be looked up
					continue
				}
				if v, ok := m[k]; !ok || !identical(v, e.vals[i]) {
					return errf("entry %v of a map of the input changed", k)
				}
			}
		case []interface{}:
			for i := range m {
				if !identical(m[i], e.vals[i]) {
					return errf("element %d of a list of the input changed", i)
				}
			}
		}
	}
	return nil
}

func checkCfg(c *cfgCase, x *prop.Ctx) error {
	in := c.build()
	var ss []snapEntry
	snapshot(in, &ss)
	want := map[string]interface{}{}
	ok := false
	switch m := in.(type) {
	case map[string]interface{}:
		ok = true
		for k, v := range m {
			want[k] = v
		}
		x.Class("string-keyed")
	case map[interface{}]interface{}:
		ok = true
		for k, v := range m {
			s, is := k.(string)
			if !is {
				ok = false
			}
			want[s] = v
		}
		if ok {
			x.Class("generic, all keys strings")
		} else {
			x.Class("generic, other keys among them")
		}
		if len(m) > 0 {
			x.NonTrivial()
		}
	default:
		x.Class("not a configuration map")
		x.NonTrivial()
	}
	for round := 0; round < 6; round++ { // map order varies
		out, err := vltypes.NormalizeConfig(in)
		if e := unchanged(ss); e != nil {
			return e
		}
		if !ok {
			if err != vltypes.ErrInvalidConfigType {
				return errf("normalising %T: error %v, want the configuration-type error", in, err)
			}
			if out != nil {
				return errf("normalising %T is refused, yet a result with %d entries is returned", in, len(out))
			}
			continue
		}
		if err != nil {
			return errf("normalising %T with %d string keys: %v", in, len(want), err)
		}
		if len(out) != len(want) {
			return errf("normalising %T: %d entries, the input has %d", in, len(out), len(want))
		}
		for k, v := range want {
			g, have := out[k]
			if !have {
				return errf("normalising %T lost the key %q", in, k)
			}
			if !identical(g, v) {
				return errf("normalising %T: value of %q is another one: %v (%T), want %v (%T)", in, k, g, g, v, v)
			}
		}
		// feeding the result again changes nothing
		again, err := vltypes.NormalizeConfig(out)
		if err != nil || len(again) != len(want) {
			return errf("normalising the result again: %d entries, error %v", len(again), err)
		}
		for k, v := range want {
			if g, have := again[k]; !have || !identical(g, v) {
				return errf("normalising the result again changed %q", k)
			}
		}
	}
	return nil
}

// ---- C26 -------------------------------------------------------------------

type task struct {
	K    string      `json:"k"` // wire, build, clone, text, lp
	P    *ref.Packet `json:"p,omitempty"`
	Ver  byte        `json:"ver,omitempty"`
	B    []byte      `json:"b,omitempty"`
	Dst  byte        `json:"dst,omitempty"`
	wire []byte
}

type concCase struct {
	Tasks  []*task     `json:"tasks"`
	Shared *ref.Packet `json:"shared"`
	Via    byte        `json:"via"`   // version the shared PUBLISH is created at
	Built  bool        `json:"built"` // shared PUBLISH made by the setters
	Expire bool        `json:"expire"`
	G      int         `json:"g"`
	Rounds int         `json:"rounds"`
}

func genConc(t *rapid.T) *concCase {
	c := &concCase{G: gen.Int(t, 2, 8, "g"), Rounds: gen.Pick(t, []int{1, 2, 4}, "rounds"), Expire: gen.Flip(t, "expire")}
	for i := gen.Int(t, 1, 6, "tasks"); i > 0; i-- {
		k := &task{K: gen.Pick(t, []string{"wire", "wire", "wire", "build", "build", "clone", "text", "lp"}, "k")}
		switch k.K {
		case "wire":
			w := gen.WireAny(t, 2)
			k.Ver, k.B = w.Ver, w.B
			if gen.Flip(t, "good") {
				p := gen.Packet(t, gen.Opt{})
				k.Ver, k.B = p.Ver, p.Encode(drawForm(t, p))
			}
		case "build":
			k.P = gen.Packet(t, gen.Opt{Build: true})
		case "clone":
			k.P = gen.Packet(t, gen.Opt{Type: ref.PUBLISH})
			if len(k.P.Topic) == 0 {
				k.P.Topic = []byte("a/b")
			}
			k.Dst = byte(gen.Pick(t, gen.Versions, "dst"))
		case "text":
			k.B = gen.Filter(t)
			if gen.Flip(t, "name") {
				k.B = gen.TopicName(t)
			}
			if gen.OneIn(t, 3, "bad") {
				k.B = append(k.B, gen.Bytes(t, 3, "junk")...)
			}
		case "lp":
			k.B = gen.Bytes(t, 300, "lp")
		}
		c.Tasks = append(c.Tasks, k)
	}
	c.Shared = gen.Packet(t, gen.Opt{Type: ref.PUBLISH, NoPad: !gen.OneIn(t, 6, "pad")})
	if len(c.Shared.Topic) == 0 {
		c.Shared.Topic = []byte("shared")
	}
	c.Built = gen.Flip(t, "built")
	c.Via = c.Shared.Ver
	if gen.Flip(t, "switch") {
		c.Via = byte(gen.Pick(t, gen.Versions, "via"))
	}
	return c
}

// outcome of one task.
type outcome struct {
	text string // error or scalar results
	ps   []*ref.Packet
	keep mqttp.IFace // to look at again later
}

func (o *outcome) same(p *outcome) error {
	if o.text != p.text {
		return errf("%q alone, %q among others", trunc(o.text), trunc(p.text))
	}
	if len(o.ps) != len(p.ps) {
		return errf("%d results alone, %d among others", len(o.ps), len(p.ps))
	}
	for i := range o.ps {
		if (o.ps[i] == nil) != (p.ps[i] == nil) {
			return errf("result %d alone %v, among others %v", i, o.ps[i] != nil, p.ps[i] != nil)
		}
		if o.ps[i] == nil {
			continue
		}
		if d := ref.Diff(o.ps[i], p.ps[i]); d != "" {
			return errf("result %d: %s", i, d)
		}
	}
	return nil
}

func (o *outcome) err(what string, e error) *outcome {
	o.text += fmt.Sprintf("|%s: %v", what, e)
	return o
}

// encoded adds the wire image of m as the reference reads it.
func (o *outcome) encoded(m mqttp.IFace) {
	b, e := sut.EncodeBoth(m)
	if e != nil {
		// properties leave in any order, so which of several faults is met first is open
		o.text += "|not encoded"
		return
	}
	p, v, _ := ref.Decode(byte(m.Version()), b)
	o.text += fmt.Sprintf("|%d bytes %v", len(b), v)
	if p != nil {
		o.ps = append(o.ps, p)
	}
}

func (k *task) run() *outcome {
	o := &outcome{}
	switch k.K {
	case "wire":
		d, pn := sut.Decode(k.Ver, k.B)
		if pn != nil {
			return o.err("decode", pn)
		}
		o.text = fmt.Sprintf("%d %v", d.N, d.Err)
		if d.Err != nil || d.M == nil {
			return o
		}
		p, e := sut.Extract(d.M)
		if e != nil {
			return o.err("accessors", e)
		}
		o.ps = append(o.ps, p)
		o.encoded(d.M)
		o.keep = d.M
	case "build":
		m, e := sut.Build(k.P)
		if e != nil {
			return o.err("build", e)
		}
		p, e := sut.Extract(m)
		if e != nil {
			return o.err("accessors", e)
		}
		o.ps = append(o.ps, p)
		o.encoded(m)
		o.keep = m
	case "clone":
		d, pn := sut.Decode(k.P.Ver, k.wire)
		if pn != nil || d.M == nil {
			return o.err("decode", d.Err)
		}
		cl, e := d.M.(*mqttp.Publish).Clone(verOf(int(k.Dst)))
		if e != nil {
			return o.err("clone", e)
		}
		cl.SetPacketID(77)
		p, e := sut.Extract(cl)
		if e != nil {
			return o.err("accessors", e)
		}
		o.ps = append(o.ps, p)
		o.encoded(cl)
		o.keep = cl
	case "text":
		t, e := mqttp.NewTopic(k.B)
		o.text = fmt.Sprintf("%v %v %v", e, mqttp.ValidTopic(k.B), mqttp.IsValidUTF(k.B))
		if e == nil {
			o.text += fmt.Sprintf("|%q %q %q %q", t.Full(), t.Filter(), t.DollarPrefix(), t.ShareName())
		}
		for i := 0; i < 256; i++ {
			rc := mqttp.ReasonCode(i)
			is, ie := rc.PacketTypeDir(mqttp.Type(i & 15))
			o.text += fmt.Sprint(rc.IsValid(), rc.IsValidV3(), rc.IsValidV5(), rc.IsValidForType(mqttp.Type(i&15)), is, ie, rc.Desc(),
				mqttp.Error(i).Error(), mqttp.Type(i).Name(), mqttp.Type(i).Desc(), mqttp.PropertyID(i).IsValid(),
				mqttp.PropertyID(i).IsValidPacketType(mqttp.Type(i>>4)), mqttp.PropertyID(i).DupAllowed(mqttp.PUBLISH), mqttp.QosType(i).Desc())
		}
	case "lp":
		buf := make([]byte, len(k.B)+2)
		n, e := mqttp.WriteLPBytes(buf, k.B)
		r, n2, e2 := mqttp.ReadLPBytes(buf)
		o.text = fmt.Sprintf("%d %v %x %d %v %x", n, e, buf, n2, e2, r)
	}
	return o
}

// runShared reads and clones the shared PUBLISH.
func runShared(m *mqttp.Publish, n int) *outcome {
	o := &outcome{}
	p, e := sut.Extract(m)
	if e != nil {
		return o.err("accessors", e)
	}
	o.ps = append(o.ps, p)
	id, ie := m.ID()
	dl, _, ex := m.Expired()
	o.text = fmt.Sprintf("%d %v %v %v %d", id, ie, dl.UnixNano(), ex, m.PublishID())
	for i := 0; i < n; i++ {
		cl, e := m.Clone(verOf(3 + i%3))
		if e != nil {
			return o.err("clone", e)
		}
		if m.QoS() > 0 {
			cl.SetPacketID(9)
		}
		if p, e = sut.Extract(cl); e != nil {
			return o.err("accessors of the clone", e)
		}
		o.ps = append(o.ps, p)
		o.encoded(cl)
		// the clone is this goroutine's own
		_ = cl.SetTopic("own")
		cl.SetPayload([]byte("own"))
		cl.SetDup(cl.QoS() > 0)
		if cl.Version() == mqttp.ProtocolV50 {
			_ = cl.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "own", V: "own"})
			_ = cl.PropertySet(mqttp.PropertyContentType, "own")
		}
		o.encoded(cl)
		o.keep = cl
	}
	return o
}

func checkConc(c *concCase, x *prop.Ctx) error {
	for _, k := range c.Tasks {
		if k.K == "clone" {
			k.wire = k.P.Encode(ref.Form{})
		}
	}
	deadline := time.Now().Add(100000 * time.Second)
	mk := func() (*mqttp.Publish, error) {
		p := c.Shared.Clone()
		p.Ver = c.Via
		if p.Ver != 5 {
			p.Props = nil
		}
		var d mqttp.IFace
		var err error
		if c.Built {
			d, err = sut.Build(p)
		} else {
			d, err = decodeOK(p.Ver, p.Encode(ref.Form{}))
		}
		if err != nil {
			return nil, err
		}
		m := d.(*mqttp.Publish)
		if c.Via != c.Shared.Ver {
			m.SetVersion(verOf(int(c.Shared.Ver)))
			x.Class("shared after a version switch")
		}
		if c.Expire {
			m.SetExpireAt(deadline)
		}
		return m, nil
	}
	sh, err := mk() // first touched by the goroutines
	if err != nil {
		return err
	}
	twin, err := mk()
	if err != nil {
		return err
	}
	alone := make([]*outcome, len(c.Tasks))
	for i, k := range c.Tasks {
		alone[i] = k.run()
		x.Class(k.K)
	}
	aloneSh := runShared(twin, 3)
	type got struct {
		task, g int
		o       *outcome
	}
	results := make([][]got, c.G)
	gt := newGate(c.G)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var perr error
	for g := 0; g < c.G; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					perr = errf("panic in goroutine %d: %v", g, r)
					pmu.Unlock()
				}
			}()
			gt.wait()
			for r := 0; r < c.Rounds; r++ {
				for i := range c.Tasks {
					if i == g%len(c.Tasks) || i == (g+r)%len(c.Tasks) {
						results[g] = append(results[g], got{-1, g, runShared(sh, 3)})
					}
					j := (i + g + r) % len(c.Tasks)
					results[g] = append(results[g], got{j, g, c.Tasks[j].run()})
				}
			}
		}()
	}
	wg.Wait()
	if perr != nil {
		return perr
	}
	for _, rs := range results {
		for _, r := range rs {
			want := aloneSh
			what := "shared PUBLISH"
			if r.task >= 0 {
				want, what = alone[r.task], "task "+c.Tasks[r.task].K
			}
			if e := want.same(r.o); e != nil {
				return errf("%s in goroutine %d: %v", what, r.g, e)
			}
			if r.task >= 0 && r.o.keep != nil {
				// nothing that happened since changed this packet
				p, e := sut.Extract(r.o.keep)
				if e != nil {
					return errf("%s: afterwards: %v", what, e)
				}
				if df := ref.Diff(r.o.ps[0], p); df != "" {
					return errf("%s: packet changed after it was finished: %s", what, df)
				}
			}
		}
	}
	x.NonTrivial()
	return nil
}

// ---- C26, from a cold start ------------------------------------------------

// coldCase is what a process does first: everything the library prepares when it is
// first needed is prepared by several goroutines at once.
type coldCase struct {
	Tasks []*task `json:"tasks"`
	G     int     `json:"g"`
}

// coldResult is what a process reports about one of its tasks.
type coldResult struct {
	Text string        `json:"text"`
	Ps   []*ref.Packet `json:"ps"`
}

func genCold(t *rapid.T) *coldCase {
	c := &coldCase{G: gen.Int(t, 2, 8, "g")}
	typ := gen.Pick(t, []int{ref.CONNECT, ref.PUBLISH, ref.SUBSCRIBE, ref.CONNACK, ref.UNSUBSCRIBE, ref.SUBACK, ref.PUBREL, ref.DISCONNECT}, "type")
	p := gen.Packet(t, gen.Opt{Type: typ, Ver: gen.Pick(t, gen.Versions, "ver"), NoPad: true})
	c.Tasks = append(c.Tasks, &task{K: "wire", Ver: p.Ver, B: p.Encode(ref.Form{})})
	typ = gen.Pick(t, []int{ref.CONNECT, ref.PUBLISH, ref.SUBSCRIBE, ref.AUTH}, "type2")
	c.Tasks = append(c.Tasks, &task{K: "build", P: gen.Packet(t, gen.Opt{Type: typ, Ver: 5, Build: true, NoPad: true})})
	c.Tasks = append(c.Tasks, genConc(t).Tasks...)
	if gen.Flip(t, "text") {
		c.Tasks = append([]*task{{K: "text", B: gen.Filter(t)}}, c.Tasks...)
	}
	return c
}

func (c *coldCase) prepare() {
	for _, k := range c.Tasks {
		if k.K == "clone" {
			k.wire = k.P.Encode(ref.Form{})
		}
	}
}

// ColdRun is the life of the process checkCold starts.
func ColdRun(in io.Reader, out io.Writer) error {
	c := &coldCase{}
	if err := json.NewDecoder(in).Decode(c); err != nil {
		return err
	}
	c.prepare()
	res := make([][]*outcome, c.G)
	gt := newGate(c.G)
	var wg sync.WaitGroup
	for g := range res {
		g := g
		res[g] = make([]*outcome, len(c.Tasks))
		wg.Add(1)
		go func() {
			defer wg.Done()
			gt.wait()
			for i := range c.Tasks {
				j := (i + g/2) % len(c.Tasks)
				res[g][j] = c.Tasks[j].run()
			}
		}()
	}
	wg.Wait()
	var all [][]coldResult
	for _, r := range res {
		var l []coldResult
		for _, o := range r {
			l = append(l, coldResult{o.text, o.ps})
		}
		all = append(all, l)
	}
	return json.NewEncoder(out).Encode(all)
}

func checkCold(c *coldCase, x *prop.Ctx) error {
	exe, err := os.Executable()
	if err != nil {
		prop.Harness("%v", err)
	}
	js, err := json.Marshal(c)
	if err != nil {
		prop.Harness("%v", err)
	}
	cmd := exec.Command(exe, "-cold")
	cmd.Stdin = bytes.NewReader(js)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	// the thread that starts the process must live as long as the process (Pdeathsig)
	runtime.LockOSThread()
	err = cmd.Run()
	runtime.UnlockOSThread()
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok || ee.ExitCode() == 3 || ee.ExitCode() < 0 {
			prop.Harness("cold process: %v: %s", err, trunc(msg.String()))
		}
		text := msg.String()
		if len(text) > 3000 {
			text = text[:3000]
		}
		return errf("a process that starts with %d goroutines at work ends with %v: %s", c.G, err, text)
	}
	var all [][]coldResult
	if err = json.Unmarshal(out.Bytes(), &all); err != nil || len(all) != c.G {
		prop.Harness("cold process: %v, output %s", err, trunc(out.String()))
	}
	c.prepare()
	for i, k := range c.Tasks {
		x.Class("cold " + k.K)
		want := k.run()
		wj, _ := json.Marshal(coldResult{want.text, want.ps})
		var w coldResult
		_ = json.Unmarshal(wj, &w)
		for g := range all {
			r := all[g][i]
			if e := (&outcome{text: w.Text, ps: w.Ps}).same(&outcome{text: r.Text, ps: r.Ps}); e != nil {
				return errf("task %s in goroutine %d of a process that starts with it: %v", k.K, g, e)
			}
		}
	}
	x.NonTrivial()
	return nil
}

// ---- C27 -------------------------------------------------------------------

type ownCase struct {
	P     *ref.Packet `json:"p"`
	Fill  int         `json:"fill"` // 0..255: constant, 256: complement, 257: another packet of the same length
	From  int         `json:"from"`
	Spare int         `json:"spare"` // bytes of the buffer around the packet
	Used  bool        `json:"used"`  // read everything before overwriting
	Again bool        `json:"again"` // decode a second packet from the same buffer
	Burst int         `json:"burst"` // and that many more
}

func genOwn(t *rapid.T) *ownCase {
	typ := gen.Pick(t, []int{ref.PUBLISH, ref.PUBLISH, ref.CONNECT}, "type")
	c := &ownCase{P: gen.Packet(t, gen.Opt{Type: typ})}
	if typ == ref.CONNECT && c.P.Will == nil {
		w := gen.Packet(t, gen.Opt{Type: ref.PUBLISH, Ver: int(c.P.Ver), NoPad: true})
		c.P.Will = &ref.Will{Topic: gen.TopicName(t), Payload: w.Payload, QoS: w.QoS, Retain: w.Retain}
		if c.P.Ver == 5 {
			c.P.Will.Props = gen.Props(t, ref.WILL, false)
		}
	}
	c.Fill = gen.Int(t, 0, 256, "fill")
	if gen.OneIn(t, 3, "cpl") {
		c.Fill = 256
	}
	if gen.OneIn(t, 4, "part") {
		c.From = gen.Int(t, 0, 40, "from")
	}
	c.Spare = gen.Pick(t, []int{0, 0, 1, 64}, "spare")
	c.Used, c.Again = gen.Flip(t, "used"), gen.Flip(t, "again")
	if c.Again && gen.OneIn(t, 3, "many") {
		c.Burst = gen.Pick(t, []int{1, 3, 17, 300, 300, 5000}, "burst")
	}
	return c
}

func scribble(b []byte, fill int) {
	for i := range b {
		if fill > 255 {
			b[i] = ^b[i]
		} else {
			b[i] = byte(fill)
		}
	}
}

// grow writes into the room behind the payload of a decoded packet, as append does.
func grow(m mqttp.IFace) {
	p, _ := m.(*mqttp.Publish)
	if cn, ok := m.(*mqttp.Connect); ok {
		p = cn.Will()
	}
	if p == nil {
		return
	}
	b := p.Payload()
	room := b[len(b):cap(b)]
	if len(room) > 1<<12 {
		room = room[:1<<12]
	}
	scribble(room, 0xee)
}

// owned is the part of a decoded packet that must be its own.
func owned(p *ref.Packet) *ref.Packet {
	if p.Type == ref.PUBLISH {
		return p
	}
	return &ref.Packet{Ver: p.Ver, Type: p.Type, Will: p.Will}
}

func checkOwn(c *ownCase, x *prop.Ctx) error {
	img := c.P.Encode(ref.Form{})
	mustValid(c.P, img)
	buf := make([]byte, len(img)+2*c.Spare)
	in := buf[c.Spare : c.Spare+len(img)]
	copy(in, img)
	m, err := decodeOK(c.P.Ver, in)
	if err != nil {
		return err
	}
	want := owned(sut.Expect(c.P))
	if c.Used {
		p, e := sut.Extract(m)
		if e != nil {
			return e
		}
		if d := ref.Diff(want, owned(p)); d != "" {
			return errf("decoded: %s", d)
		}
	}
	if c.Again {
		// the read loop puts the next packet into the same buffer
		q := c.P.Clone()
		if q.Will != nil {
			q.Will.Payload = bytes.Repeat([]byte{'z'}, len(q.Will.Payload))
			q.Will.Topic = bytes.Repeat([]byte{'z'}, len(q.Will.Topic))
		} else {
			q.Payload = bytes.Repeat([]byte{'z'}, len(q.Payload))
			if len(q.Topic) > 0 {
				q.Topic = bytes.Repeat([]byte{'z'}, len(q.Topic))
			}
		}
		copy(in, q.Encode(ref.Form{}))
		next, err := decodeOK(q.Ver, in)
		if err != nil {
			return errf("second packet: %v", err)
		}
		var last mqttp.IFace
		for i := 0; i < c.Burst && i*len(img) < 1<<19; i++ {
			if last, err = decodeOK(q.Ver, in); err != nil {
				return errf("packet %d: %v", i+3, err)
			}
		}
		// appending to the payload of one does not reach another
		others := owned(sut.Expect(q))
		for i, one := range []mqttp.IFace{m, next, last} {
			if one == nil {
				continue
			}
			grow(one)
			for j, other := range []mqttp.IFace{m, next, last} {
				if other == nil || i == j {
					continue
				}
				p, e := sut.Extract(other)
				if e != nil {
					return e
				}
				w := others
				if j == 0 {
					w = want
				}
				if d := ref.Diff(w, owned(p)); d != "" {
					return errf("appending to the payload of one decoded packet (%d) changes another (%d): %s", i, j, d)
				}
			}
		}
		if c.Burst > 17 {
			x.Class("many packets later")
		}
	}
	if c.From < len(buf) {
		scribble(buf[c.From:], c.Fill)
	}
	for round := 0; round < 2; round++ {
		p, e := sut.Extract(m)
		if e != nil {
			return errf("after overwriting the input buffer: %v", e)
		}
		if d := ref.Diff(want, owned(p)); d != "" {
			return errf("after overwriting the input buffer: %s", d)
		}
		if c.P.Type == ref.PUBLISH {
			b, e := sut.EncodeBoth(m)
			if e != nil {
				return errf("after overwriting the input buffer: %v", e)
			}
			q, v, why := ref.Decode(c.P.Ver, b)
			if v != ref.Valid {
				return errf("after overwriting the input buffer the packet encodes to something malformed (%s): %s", why, hx(b))
			}
			if d := ref.Diff(c.P, q); d != "" {
				return errf("after overwriting the input buffer: wire image: %s", d)
			}
			cl, e := m.(*mqttp.Publish).Clone(verOf(int(c.P.Ver)))
			if e != nil {
				return errf("Clone: %v", e)
			}
			if cl.Topic() != string(c.P.Topic) || !bytes.Equal(cl.Payload(), c.P.Payload) {
				return errf("after overwriting the input buffer the clone has another topic or payload")
			}
		}
	}
	if len(c.P.Payload) > 0 || c.P.Will != nil || len(c.P.Props) > 0 {
		x.NonTrivial()
	}
	x.Class(className(c.P))
	return nil
}

type outCase struct {
	P       *ref.Packet `json:"p"`
	Decoded bool        `json:"decoded"`
	Fill    int         `json:"fill"`
	Rounds  int         `json:"rounds"`
	Burst   int         `json:"burst"` // encodings of another packet in between
}

func genOut(t *rapid.T) *outCase {
	c := &outCase{P: gen.Packet(t, gen.Opt{Build: true}), Decoded: gen.Flip(t, "dec"), Fill: gen.Int(t, 0, 256, "fill"), Rounds: gen.Int(t, 1, 3, "rounds")}
	if gen.OneIn(t, 6, "many") {
		c.Burst = gen.Pick(t, []int{1, 3, 17, 300, 5000}, "burst")
	}
	return c
}

func checkOut(c *outCase, x *prop.Ctx) error {
	var m mqttp.IFace
	var err error
	if c.Decoded {
		m, err = decodeOK(c.P.Ver, c.P.Encode(ref.Form{}))
	} else {
		m, err = sut.Build(c.P)
	}
	if err != nil {
		return err
	}
	x.Class(className(c.P))
	if len(c.P.Props) > 0 || c.P.Type == ref.PUBLISH || c.P.Type == ref.CONNECT || len(c.P.Subs) > 0 {
		x.NonTrivial()
	}
	before, err := sut.Extract(m)
	if err != nil {
		return err
	}
	sz, err := m.Size()
	if err != nil {
		return errf("Size: %v", err)
	}
	read := func(b []byte) error {
		q, v, why := ref.Decode(c.P.Ver, b)
		if v != ref.Valid {
			return errf("malformed (%s): %s", why, hx(b))
		}
		if d := ref.Diff(c.P, q); d != "" {
			return errf("%s", d)
		}
		return nil
	}
	var kept [][2][]byte
	var b []byte
	other, err := sut.Build(c.P)
	if err != nil {
		return err
	}
	for round := 0; round < c.Rounds; round++ {
		b1 := make([]byte, sz)
		n, e := m.Encode(b1)
		if e != nil || n != sz {
			return errf("round %d: Encode: %d of %d bytes, %v", round, n, sz, e)
		}
		b2, e := mqttp.Encode(m)
		if e != nil {
			return errf("round %d: mqttp.Encode: %v", round, e)
		}
		for i, b := range [][]byte{b1, b2} {
			if e = read(b); e != nil {
				return errf("round %d, entry point %d: %v", round, i, e)
			}
		}
		b3, e := mqttp.Encode(m)
		if e != nil {
			return errf("round %d: mqttp.Encode: %v", round, e)
		}
		kept = append(kept, [2][]byte{b3, append([]byte{}, b3...)})
		scribble(b1, c.Fill)
		scribble(b2, c.Fill)
		for i := 0; i < c.Burst && i*sz < 1<<19; i++ {
			if b, e = mqttp.Encode(other); e != nil {
				return errf("round %d: Encode of another packet: %v", round, e)
			}
			scribble(b, c.Fill)
		}
		after, e := sut.Extract(m)
		if e != nil {
			return errf("round %d: after overwriting the output: %v", round, e)
		}
		if d := ref.Diff(before, after); d != "" {
			return errf("round %d: overwriting the encoded bytes changed the packet: %s", round, d)
		}
		for i, k := range kept {
			if !bytes.Equal(k[0], k[1]) {
				return errf("round %d: bytes handed out in round %d changed afterwards", round, i)
			}
		}
	}
	return nil
}

func init() {
	register(&prop.Def{ID: "C24", Quick: 36000, Thoro: 1000000,
		Rule: "the input is a non-empty generic map, or not a configuration map at all",
		Subs: []*prop.Sub{prop.Gen("normalise", 1, genCfg, checkCfg)}})
	register(&prop.Def{ID: "C26", Quick: 700, Thoro: 12000, Race: true,
		Rule: "at least two goroutines ran the tasks and used the shared PUBLISH at the same time, or were the first to use the library in a process",
		Subs: []*prop.Sub{
			prop.Gen("goroutines", 1, genConc, checkConc),
			prop.Gen("cold start", 0.15, genCold, checkCold),
		}})
	register(&prop.Def{ID: "C27", Quick: 12000, Thoro: 400000,
		Rule: "the packet has a payload, a will or properties (input side); a PUBLISH, CONNECT, topic list or properties (output side)",
		Subs: []*prop.Sub{
			prop.Gen("input buffer", 1, genOwn, checkOwn),
			prop.Gen("output buffer", 1, genOut, checkOut),
		}})
}
