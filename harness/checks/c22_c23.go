package checks

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/VolantMQ/vlapi/vlmonitoring"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
)

// handle is one counter of the statistics tree as its user reaches it.
type handle struct {
	name string
	add  func(s *vlmonitoring.Stats, n uint64) uint64
	c    func(s *vlmonitoring.Stats) *vlmonitoring.Counter
	// diff of the flow counter (both directions) the counter belongs to, or of the counter itself
	flow func(s *vlmonitoring.Stats) *vlmonitoring.FlowCounter
	sent bool
}

// gauge is one gauge of the tree.
type gauge struct {
	name string
	m    func(s *vlmonitoring.Stats) *vlmonitoring.Max
}

var (
	handles []handle
	flows   []func(s *vlmonitoring.Stats) *vlmonitoring.FlowCounter
	gauges  []gauge
)

func init() {
	at := func(idx []int) func(s *vlmonitoring.Stats) interface{} {
		idx = append([]int{}, idx...)
		return func(s *vlmonitoring.Stats) interface{} {
			return reflect.ValueOf(s).Elem().FieldByIndex(idx).Addr().Interface()
		}
	}
	var walk func(t reflect.Type, idx []int, name string)
	walk = func(t reflect.Type, idx []int, name string) {
		get := at(idx)
		switch t {
		case reflect.TypeOf(vlmonitoring.Counter{}):
			c := func(s *vlmonitoring.Stats) *vlmonitoring.Counter { return get(s).(*vlmonitoring.Counter) }
			handles = append(handles, handle{name: name, c: c, add: func(s *vlmonitoring.Stats, n uint64) uint64 { return c(s).AddU64(n) }})
			return
		case reflect.TypeOf(vlmonitoring.FlowCounter{}):
			f := func(s *vlmonitoring.Stats) *vlmonitoring.FlowCounter { return get(s).(*vlmonitoring.FlowCounter) }
			flows = append(flows, f)
			handles = append(handles,
				handle{name: name + ".Sent", flow: f, sent: true, c: func(s *vlmonitoring.Stats) *vlmonitoring.Counter { return &f(s).Sent },
					add: func(s *vlmonitoring.Stats, n uint64) uint64 { return f(s).SentAddU64(n) }},
				handle{name: name + ".Recv", flow: f, c: func(s *vlmonitoring.Stats) *vlmonitoring.Counter { return &f(s).Recv },
					add: func(s *vlmonitoring.Stats, n uint64) uint64 { return f(s).RecvAddU64(n) }})
			return
		case reflect.TypeOf(vlmonitoring.Max{}):
			gauges = append(gauges, gauge{name, func(s *vlmonitoring.Stats) *vlmonitoring.Max { return get(s).(*vlmonitoring.Max) }})
			return
		}
		if t.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.IsExported() {
				walk(f.Type, append(idx, i), name+"."+f.Name)
			}
		}
	}
	walk(reflect.TypeOf(vlmonitoring.Stats{}), nil, "Stats")
}

// diff takes the difference of the counter h (and, for a flow counter, of its
// sibling, which is returned in other).
func (h *handle) diff(s, prev *vlmonitoring.Stats) (own, other uint64) {
	if h.flow == nil {
		d := h.c(s).Diff(h.c(prev))
		return d.Load(), 0
	}
	d := h.flow(s).Diff(h.flow(prev))
	if h.sent {
		return d.Sent.Load(), d.Recv.Load()
	}
	return d.Recv.Load(), d.Sent.Load()
}

func (h *handle) sibling() int {
	for i := range handles {
		if h.flow != nil && handles[i].flow != nil && &handles[i] != h && handles[i].name[:len(handles[i].name)-5] == h.name[:len(h.name)-5] {
			return i
		}
	}
	return -1
}

// allExcept checks that every counter and gauge outside the map is zero and the
// others have their value.
func checkTree(s *vlmonitoring.Stats, want map[int]uint64, wantG map[int][2]uint64) error {
	return checkTreeDip(s, want, wantG, nil)
}

// checkTreeDip leaves the maximum of the gauges in dipped alone: they have been
// decremented ahead of their increments, and only the level (modulo 2^64) of
// such a history is determined.
func checkTreeDip(s *vlmonitoring.Stats, want map[int]uint64, wantG map[int][2]uint64, dipped map[int]bool) error {
	for i := range handles {
		h := &handles[i]
		if g := h.c(s).Load(); g != want[i] {
			return errf("%s loads %d, added were %d", h.name, g, want[i])
		}
		if g := h.c(s).Get(); g != want[i] {
			return errf("%s gets %d, added were %d", h.name, g, want[i])
		}
	}
	for i := range gauges {
		g := &gauges[i]
		l := g.m(s).Load()
		if v := l.State.Load(); v != wantG[i][0] {
			return errf("%s: level %d, want %d", g.name, v, wantG[i][0])
		}
		if l.Max != wantG[i][1] && !dipped[i] {
			return errf("%s: maximum %d, want %d", g.name, l.Max, wantG[i][1])
		}
	}
	return nil
}

type statOp struct {
	K string `json:"k"`
	I int    `json:"i"`
	N uint64 `json:"n"`
}

type statSeq struct {
	Ops []statOp `json:"ops"`
}

func statAmount(t *rapid.T) uint64 {
	switch gen.Int(t, 0, 5, "amk") {
	case 0:
		return uint64(gen.Int(t, 0, 2, "n"))
	case 1:
		return uint64(gen.Int(t, 0, 100000, "n"))
	case 2:
		return gen.Pick(t, []uint64{1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 53, 1<<63 - 1, 1 << 63, 1<<64 - 1}, "n")
	case 3:
		return rapid.Uint64().Draw(t, "n")
	}
	return 1
}

func genStatSeq(t *rapid.T) *statSeq {
	c := &statSeq{}
	some := make([]int, gen.Int(t, 1, 4, "some"))
	for i := range some {
		some[i] = gen.Int(t, 0, len(handles)-1, "h")
	}
	for i := gen.Int(t, 1, 25, "n"); i > 0; i-- {
		o := statOp{K: gen.Pick(t, []string{"add", "add", "add", "diff", "diff", "raw"}, "k")}
		o.I = gen.Pick(t, some, "i")
		if gen.OneIn(t, 6, "far") {
			o.I = gen.Int(t, 0, len(handles)-1, "h")
		}
		if o.K == "add" {
			o.N = statAmount(t)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkStatSeq(c *statSeq, x *prop.Ctx) error {
	s, prev := &vlmonitoring.Stats{}, &vlmonitoring.Stats{}
	total, seen := map[int]uint64{}, map[int]uint64{}
	raw := map[int]*uint64{}
	diffs := 0
	for step, o := range c.Ops {
		h := &handles[o.I]
		switch o.K {
		case "add":
			total[o.I] += o.N
			if r := h.add(s, o.N); r != total[o.I] {
				return errf("step %d: adding %d to %s returned %d, the total is %d", step, o.N, h.name, r, total[o.I])
			}
		case "diff":
			own, other := h.diff(s, prev)
			if want := total[o.I] - seen[o.I]; own != want {
				return errf("step %d: difference of %s is %d, added since the last one were %d", step, h.name, own, want)
			}
			if own > 0 {
				diffs++
			}
			seen[o.I] = total[o.I]
			if j := h.sibling(); j >= 0 {
				if want := total[j] - seen[j]; other != want {
					return errf("step %d: difference of %s is %d, added since the last one were %d", step, handles[j].name, other, want)
				}
				seen[j] = total[j]
			}
			if err := checkTree(prev, seen, nil); err != nil {
				return errf("step %d: reference values after a difference of %s: %v", step, h.name, err)
			}
		case "raw":
			// the exported helper on a plain value
			v, ok := raw[o.I]
			if !ok {
				v = new(uint64)
				raw[o.I] = v
			}
			src := total[o.I]
			if d := vlmonitoring.LoadStore(&src, v); d != src-(src-d) || *v != src || src != total[o.I] {
				return errf("step %d: LoadStore: difference %d, reference %d, source %d", step, d, *v, src)
			}
			old := *v
			if d := vlmonitoring.LoadStore(&src, v); d != 0 || *v != old {
				return errf("step %d: a second LoadStore returns %d", step, d)
			}
		}
		if err := checkTree(s, total, nil); err != nil {
			return errf("step %d (%s %s): %v", step, o.K, h.name, err)
		}
	}
	if diffs > 0 {
		x.NonTrivial()
	}
	return nil
}

type statConc struct {
	Writers [][]statOp `json:"writers"`
	Rounds  int        `json:"rounds"`
	Reps    int        `json:"reps"` // how often a writer repeats its list
	Yield   int        `json:"yield"`
}

func genStatConc(t *rapid.T) *statConc {
	c := &statConc{Rounds: gen.Int(t, 1, 4, "rounds"), Reps: gen.Pick(t, []int{1, 3, 20, 100}, "reps"), Yield: gen.Pick(t, []int{0, 0, 1, 3, 7}, "yield")}
	some := make([]int, gen.Int(t, 1, 3, "some"))
	for i := range some {
		some[i] = gen.Int(t, 0, len(handles)-1, "h")
		if j := handles[some[i]].sibling(); j >= 0 && i+1 < len(some) && gen.Flip(t, "both") {
			some[i+1] = j
			break
		}
	}
	for w := gen.Int(t, 2, 6, "writers"); w > 0; w-- {
		var ops []statOp
		for i := gen.Int(t, 1, 6, "n"); i > 0; i-- {
			o := statOp{K: "add", I: gen.Pick(t, some, "i"), N: uint64(gen.Int(t, 1, 3, "amt"))}
			if gen.OneIn(t, 4, "big") {
				o.N = uint64(gen.Int(t, 1, 1<<40, "amt"))
			}
			ops = append(ops, o)
		}
		c.Writers = append(c.Writers, ops)
	}
	return c
}

// gate releases goroutines as simultaneously as the machine allows.
type gate struct{ n, need int32 }

func newGate(need int) *gate { return &gate{need: int32(need)} }

func (g *gate) wait() {
	atomic.AddInt32(&g.n, 1)
	for i := 0; atomic.LoadInt32(&g.n) < g.need; i++ {
		if i > 20000 {
			time.Sleep(20 * time.Microsecond) // a busy machine
		} else if i > 2000 {
			runtime.Gosched()
		}
	}
}

func checkStatConc(c *statConc, x *prop.Ctx) error {
	for round := 0; round < c.Rounds; round++ {
		s, prev := &vlmonitoring.Stats{}, &vlmonitoring.Stats{}
		total := map[int]uint64{}
		touched := map[int]bool{}
		for _, w := range c.Writers {
			for _, o := range w {
				total[o.I] += o.N * uint64(c.Reps)
				touched[o.I] = true
			}
		}
		var idx []int
		for i := range touched {
			idx = append(idx, i)
			if j := handles[i].sibling(); j >= 0 && !touched[j] {
				// its differences come with the sibling's
				total[j] = 0
			}
		}
		sort.Ints(idx)
		g := newGate(len(c.Writers) + 2)
		var wg sync.WaitGroup
		returns := make([]map[int][]uint64, len(c.Writers))
		for wi, ops := range c.Writers {
			wi, ops := wi, ops
			returns[wi] = map[int][]uint64{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.wait()
				for r := 0; r < c.Reps; r++ {
					for k, o := range ops {
						returns[wi][o.I] = append(returns[wi][o.I], handles[o.I].add(s, o.N))
						if c.Yield > 0 && (r+k)%c.Yield == 0 {
							runtime.Gosched()
						}
					}
				}
			}()
		}
		var stop int32
		sums := map[int]uint64{}
		var rerr, oerr error
		take := func() {
			done := map[int]bool{}
			for _, i := range idx {
				if done[i] {
					continue
				}
				own, other := handles[i].diff(s, prev)
				sums[i] += own
				done[i] = true
				if j := handles[i].sibling(); j >= 0 {
					sums[j] += other
					done[j] = true
				}
			}
		}
		var rd sync.WaitGroup
		rd.Add(2)
		diffs := 0
		go func() {
			defer rd.Done()
			g.wait()
			for atomic.LoadInt32(&stop) == 0 {
				take()
				diffs++
				for _, i := range idx {
					if sums[i] > total[i] {
						rerr = errf("the differences of %s sum up to %d while only %d are added", handles[i].name, sums[i], total[i])
						return
					}
				}
				if diffs%64 == 0 {
					runtime.Gosched()
				}
			}
		}()
		go func() {
			defer rd.Done()
			g.wait()
			last := map[int]uint64{}
			for n := 0; atomic.LoadInt32(&stop) == 0; n++ {
				for _, i := range idx {
					v := handles[i].c(s).Load()
					if v < last[i] || v > total[i] {
						oerr = errf("%s loads %d after %d (total added: %d)", handles[i].name, v, last[i], total[i])
						return
					}
					last[i] = v
				}
				if n%64 == 0 {
					runtime.Gosched()
				}
			}
		}()
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		rd.Wait()
		if rerr != nil {
			return rerr
		}
		if oerr != nil {
			return oerr
		}
		take()
		for _, i := range idx {
			if sums[i] != total[i] {
				return errf("the differences of %s sum up to %d, %d were added", handles[i].name, sums[i], total[i])
			}
			seen := map[uint64]bool{}
			var max uint64
			for _, r := range returns {
				var last uint64
				for _, v := range r[i] {
					if seen[v] {
						return errf("two additions to %s returned the same total %d", handles[i].name, v)
					}
					seen[v] = true
					if v <= last {
						return errf("successive additions to %s returned %d, then %d", handles[i].name, last, v)
					}
					last = v
					if v > max {
						max = v
					}
				}
			}
			if max != total[i] {
				return errf("the last addition to %s returned %d, %d were added", handles[i].name, max, total[i])
			}
		}
		if err := checkTree(s, total, nil); err != nil {
			return err
		}
		if diffs > 1 {
			x.NonTrivial()
		}
	}
	x.Class(fmt.Sprintf("%d writers", len(c.Writers)))
	return nil
}

// ---- C23 -------------------------------------------------------------------

type gaugeSeq struct {
	Ops []statOp `json:"ops"`
	Dip bool     `json:"dip,omitempty"` // decrements may come before their increments
}

func genGaugeSeq(t *rapid.T) *gaugeSeq {
	c := &gaugeSeq{Dip: gen.OneIn(t, 5, "dip")}
	level := map[int]uint64{}
	few := []int{gen.Int(t, 0, len(gauges)-1, "g"), gen.Int(t, 0, len(gauges)-1, "g2")}
	for i := gen.Int(t, 1, 30, "n"); i > 0; i-- {
		o := statOp{I: gen.Pick(t, few, "i")}
		if gen.OneIn(t, 8, "far") {
			o.I = gen.Int(t, 0, len(gauges)-1, "g")
		}
		if c.Dip && gen.Flip(t, "early") {
			o.K = "sub"
			o.N = statAmount(t)
		} else if l := level[o.I]; l > 0 && gen.Flip(t, "sub") {
			o.K = "sub"
			switch gen.Int(t, 0, 3, "sk") {
			case 0:
				o.N = l
			case 1:
				o.N = 1
			case 2:
				o.N = rapid.Uint64Range(0, l).Draw(t, "n")
			}
			level[o.I] -= o.N
		} else {
			o.K = "add"
			o.N = statAmount(t)
			if o.N > ^uint64(0)-level[o.I] {
				o.N = ^uint64(0) - level[o.I]
			}
			level[o.I] += o.N
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkGaugeSeq(c *gaugeSeq, x *prop.Ctx) error {
	s := &vlmonitoring.Stats{}
	want := map[int][2]uint64{}
	below := false
	dipped := map[int]bool{}
	for step, o := range c.Ops {
		g := &gauges[o.I]
		w := want[o.I]
		if o.K == "add" {
			g.m(s).AddU64(o.N)
			if o.N > ^w[0] && c.Dip {
				dipped[o.I] = true // back above zero
			}
			w[0] += o.N
		} else {
			if o.N > w[0] {
				dipped[o.I] = true
			}
			g.m(s).SubU64(o.N)
			w[0] -= o.N
		}
		if w[0] > w[1] {
			w[1] = w[0]
		} else if w[0] < w[1] {
			below = true
		}
		want[o.I] = w
		if err := checkTreeDip(s, nil, want, dipped); err != nil {
			return errf("step %d (%s %d %s): %v", step, o.K, o.N, g.name, err)
		}
		if l := g.m(s); l.Get() != w[0] || l.State.Load() != w[0] {
			return errf("step %d: %s gets %d, want %d", step, g.name, l.Get(), w[0])
		}
	}
	if len(dipped) > 0 {
		x.Class("decrement ahead of its increment")
	}
	if below {
		x.NonTrivial()
	}
	return nil
}

// gaugeConc is a short concurrent history on one gauge; Sub amounts never
// exceed what the same goroutine added before.
type gaugeConc struct {
	G      int        `json:"g"`
	Ops    [][]statOp `json:"ops"`
	Rounds int        `json:"rounds"`
	Pre    uint64     `json:"pre"`
}

func genGaugeConc(t *rapid.T) *gaugeConc {
	c := &gaugeConc{G: gen.Int(t, 0, len(gauges)-1, "g"), Rounds: gen.Pick(t, []int{20, 60}, "rounds")}
	if gen.OneIn(t, 4, "pre") {
		c.Pre = uint64(gen.Int(t, 1, 1<<40, "pre"))
	}
	n := gen.Int(t, 2, 4, "workers")
	most := []int{0, 0, 7, 4, 3}[n]
	incOnly := gen.OneIn(t, 3, "inc")
	for w := 0; w < n; w++ {
		var ops []statOp
		var own uint64
		for i := gen.Int(t, 1, most, "n"); i > 0; i-- {
			if !incOnly && own > 0 && gen.Flip(t, "sub") {
				v := own
				if gen.Flip(t, "part") {
					v = uint64(gen.Int(t, 1, int(own), "sub"))
				}
				own -= v
				ops = append(ops, statOp{K: "sub", N: v})
				continue
			}
			v := uint64(1)
			if gen.Flip(t, "odd") {
				v = gen.Pick(t, []uint64{2, 5, 10, 100, 1000, 1 << 33}, "amt")
			}
			own += v
			ops = append(ops, statOp{K: "add", N: v})
		}
		c.Ops = append(c.Ops, ops)
	}
	return c
}

type stamp struct{ from, to int64 }

// peaks returns the maxima some order of the operations can reach that respects
// each goroutine's order and the real-time order of non-overlapping operations.
func peaks(ops [][]statOp, at [][]stamp, pre uint64) map[uint64]bool {
	n := len(ops)
	type node map[uint64]bool
	key := func(pos []int) string { return fmt.Sprint(pos) }
	layer := map[string]node{}
	poss := map[string][]int{}
	start := make([]int, n)
	layer[key(start)] = node{pre: true}
	poss[key(start)] = start
	total := 0
	for _, o := range ops {
		total += len(o)
	}
	for step := 0; step < total; step++ {
		nl, np := map[string]node{}, map[string][]int{}
		for k, vals := range layer {
			pos := poss[k]
			level := pre
			for g, p := range pos {
				for _, o := range ops[g][:p] {
					if o.K == "add" {
						level += o.N
					} else {
						level -= o.N
					}
				}
			}
			for g := range ops {
				if pos[g] == len(ops[g]) {
					continue
				}
				// no pending operation of another goroutine may have ended before this one began
				ok := true
				for h := range ops {
					if h != g && pos[h] < len(ops[h]) && at[h][pos[h]].to < at[g][pos[g]].from {
						ok = false
					}
				}
				if !ok {
					continue
				}
				o := ops[g][pos[g]]
				l := level
				if o.K == "add" {
					l += o.N
				} else {
					l -= o.N
				}
				q := append([]int{}, pos...)
				q[g]++
				qk := key(q)
				if nl[qk] == nil {
					nl[qk] = node{}
					np[qk] = q
				}
				for v := range vals {
					if l > v {
						v = l
					}
					nl[qk][v] = true
				}
			}
		}
		layer, poss = nl, np
	}
	out := map[uint64]bool{}
	for _, v := range layer {
		for p := range v {
			out[p] = true
		}
	}
	return out
}

func checkGaugeConc(c *gaugeConc, x *prop.Ctx) error {
	g := &gauges[c.G]
	incOnly, final := true, c.Pre
	for _, w := range c.Ops {
		for _, o := range w {
			if o.K == "sub" {
				incOnly = false
				final -= o.N
			} else {
				final += o.N
			}
		}
	}
	cache := map[string]map[uint64]bool{}
	for round := 0; round < c.Rounds; round++ {
		s := &vlmonitoring.Stats{}
		m := g.m(s)
		m.AddU64(c.Pre)
		var clock int64
		at := make([][]stamp, len(c.Ops))
		gt := newGate(len(c.Ops) + 1)
		var wg, ob sync.WaitGroup
		errs := make([]error, len(c.Ops)+1)
		for w := range c.Ops {
			w := w
			at[w] = make([]stamp, len(c.Ops[w]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				own := uint64(0)
				gt.wait()
				for i, o := range c.Ops[w] {
					at[w][i].from = atomic.AddInt64(&clock, 1)
					if o.K == "add" {
						m.AddU64(o.N)
						own += o.N
						at[w][i].to = atomic.AddInt64(&clock, 1)
						if l := m.Load(); l.Max < own+c.Pre && errs[w] == nil {
							errs[w] = errf("%s: this goroutine alone holds %d of the level (%d before), yet the maximum is %d", g.name, own, c.Pre, l.Max)
						}
					} else {
						m.SubU64(o.N)
						own -= o.N
						at[w][i].to = atomic.AddInt64(&clock, 1)
					}
				}
			}()
		}
		var stop int32
		ob.Add(1)
		go func() {
			defer ob.Done()
			gt.wait()
			last := uint64(0)
			for n := 0; n == 0 || atomic.LoadInt32(&stop) == 0; n++ {
				l := m.Load()
				if l.Max < last {
					errs[len(c.Ops)] = errf("%s: the maximum fell from %d to %d", g.name, last, l.Max)
					return
				}
				last = l.Max
				if n%32 == 31 {
					runtime.Gosched()
				}
			}
		}()
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		ob.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		l := m.Load()
		if v := l.State.Load(); v != final {
			return errf("%s: level %d after all operations, want %d", g.name, v, final)
		}
		if incOnly {
			if l.Max != final {
				return errf("%s: increments only, maximum %d, want %d", g.name, l.Max, final)
			}
		} else {
			// the real-time order as a key
			k := fmt.Sprint(at)
			ps, ok := cache[k]
			if !ok {
				ps = peaks(c.Ops, at, c.Pre)
				cache[k] = ps
			}
			if !ps[l.Max] {
				var all []uint64
				for p := range ps {
					all = append(all, p)
				}
				sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
				return errf("%s: maximum %d; the orders the history allows peak at %v", g.name, l.Max, all)
			}
		}
		overlap := false
		for a := range at {
			for b := range at {
				if a != b && len(at[a]) > 0 && len(at[b]) > 0 && at[a][0].from < at[b][len(at[b])-1].to && at[b][0].from < at[a][len(at[a])-1].to {
					overlap = true
				}
			}
		}
		if overlap {
			x.NonTrivial()
			x.Class("overlapping rounds")
		}
		others := map[int][2]uint64{c.G: {final, l.Max}}
		if err := checkTree(s, nil, others); err != nil {
			return err
		}
	}
	return nil
}

// gaugeLoad hammers one gauge for longer.
type gaugeLoad struct {
	G       int      `json:"g"`
	Amounts []uint64 `json:"amounts"` // per goroutine
	Reps    int      `json:"reps"`
	Pairs   bool     `json:"pairs"` // each increment is taken back at once
}

func genGaugeLoad(t *rapid.T) *gaugeLoad {
	c := &gaugeLoad{G: gen.Int(t, 0, len(gauges)-1, "g"), Reps: gen.Pick(t, []int{50, 300, 2000}, "reps"), Pairs: gen.Flip(t, "pairs")}
	for i := gen.Int(t, 2, 8, "n"); i > 0; i-- {
		c.Amounts = append(c.Amounts, uint64(gen.Int(t, 1, 9, "amt")))
	}
	return c
}

func checkGaugeLoad(c *gaugeLoad, x *prop.Ctx) error {
	g := &gauges[c.G]
	s := &vlmonitoring.Stats{}
	m := g.m(s)
	gt := newGate(len(c.Amounts))
	errs := make([]error, len(c.Amounts))
	var wg, mid sync.WaitGroup
	mid.Add(len(c.Amounts))
	var sum, atMid uint64
	for _, a := range c.Amounts {
		sum += a
	}
	release := make(chan struct{})
	for w, a := range c.Amounts {
		w, a := w, a
		wg.Add(1)
		go func() {
			defer wg.Done()
			gt.wait()
			last := uint64(0)
			see := func(min uint64) {
				v := m.Load().Max
				if v < last && errs[w] == nil {
					errs[w] = errf("%s: the maximum fell from %d to %d", g.name, last, v)
				}
				if v < min && errs[w] == nil {
					errs[w] = errf("%s: the maximum is %d while this goroutine alone holds %d", g.name, v, min)
				}
				last = v
			}
			for i := 0; i < c.Reps; i++ {
				m.AddU64(a)
				if c.Pairs {
					see(a)
					m.SubU64(a)
				} else {
					see(a * uint64(i+1))
				}
			}
			if !c.Pairs {
				mid.Done()
				<-release
				for i := 0; i < c.Reps; i++ {
					m.SubU64(a)
					if i%16 == 0 {
						see(a * uint64(c.Reps))
					}
				}
			}
		}()
	}
	if !c.Pairs {
		mid.Wait()
		atMid = m.Load().Max
		if l := m.Load(); l.State.Load() != sum*uint64(c.Reps) || l.Max != sum*uint64(c.Reps) {
			close(release)
			wg.Wait()
			return errf("%s: after incrementing to %d: level %d, maximum %d", g.name, sum*uint64(c.Reps), l.State.Load(), l.Max)
		}
		close(release)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	x.NonTrivial()
	l := m.Load()
	if l.State.Load() != 0 {
		return errf("%s: level %d after as many decrements as increments", g.name, l.State.Load())
	}
	if c.Pairs {
		if l.Max > sum {
			return errf("%s: maximum %d, the level was never above %d", g.name, l.Max, sum)
		}
		return nil
	}
	if l.Max != atMid {
		return errf("%s: decrements changed the maximum from %d to %d", g.name, atMid, l.Max)
	}
	return nil
}

// gaugeRounds repeats a tiny history many times, all goroutines starting each
// round together.
type gaugeRounds struct {
	Scripts [][]statOp `json:"scripts"`
	Rounds  int        `json:"rounds"`
}

func genGaugeRounds(t *rapid.T) *gaugeRounds {
	c := &gaugeRounds{Rounds: 1500}
	inc := gen.Flip(t, "inc")
	n := gen.Pick(t, []int{2, 3, 4, 4, 6, 8}, "workers")
	for w := 0; w < n; w++ {
		var ops []statOp
		own := uint64(0)
		for i := gen.Int(t, 1, 3, "n"); i > 0; i-- {
			switch {
			case !inc && own > 0 && gen.Flip(t, "sub"):
				v := uint64(gen.Int(t, 1, int(own), "sub"))
				if gen.Flip(t, "all") {
					v = own
				}
				own -= v
				ops = append(ops, statOp{K: "sub", N: v})
			case gen.OneIn(t, 4, "look"):
				ops = append(ops, statOp{K: "look"})
			default:
				v := uint64(gen.Pick(t, []int{1, 1, 1, 2, 3, 1000}, "amt"))
				own += v
				ops = append(ops, statOp{K: "add", N: v})
			}
		}
		c.Scripts = append(c.Scripts, ops)
	}
	return c
}

func checkGaugeRounds(c *gaugeRounds, x *prop.Ctx) error {
	ms := make([]vlmonitoring.Max, c.Rounds)
	g := len(c.Scripts)
	adds := true
	var final, ceil uint64
	for _, sc := range c.Scripts {
		own, top := uint64(0), uint64(0)
		for _, o := range sc {
			switch o.K {
			case "add":
				own += o.N
				if own > top {
					top = own
				}
			case "sub":
				own -= o.N
				adds = false
			}
		}
		final += own
		ceil += top
	}
	// seen[w][r] is the highest level goroutine w saw in round r
	seen := make([][]uint64, g)
	errs := make([]error, g)
	var arrived int64
	stop := int64(c.Rounds) // the round not played any more: on a busy machine there are fewer
	began := time.Now()
	var wg sync.WaitGroup
	for w := range c.Scripts {
		w := w
		seen[w] = make([]uint64, c.Rounds)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < c.Rounds; r++ {
				if w == 0 && r%16 == 0 && time.Since(began) > time.Second {
					atomic.StoreInt64(&stop, int64(r))
				}
				atomic.AddInt64(&arrived, 1)
				for i := 0; atomic.LoadInt64(&arrived) < int64(g*(r+1)); i++ {
					if i > 3000 {
						time.Sleep(20 * time.Microsecond)
					} else if i > 500 {
						runtime.Gosched()
					}
				}
				if int64(r) >= atomic.LoadInt64(&stop) {
					return
				}
				m := &ms[r]
				own, last := uint64(0), uint64(0)
				for _, o := range c.Scripts[w] {
					switch o.K {
					case "add":
						m.AddU64(o.N)
						own += o.N
						if own > seen[w][r] {
							seen[w][r] = own
						}
					case "sub":
						m.SubU64(o.N)
						own -= o.N
					case "look":
						l := m.Load()
						if v := l.State.Load(); v > seen[w][r] {
							seen[w][r] = v
						}
						if l.Max < last || l.Max < own {
							if errs[w] == nil {
								errs[w] = errf("round %d: maximum %d after %d, this goroutine alone holds %d", r, l.Max, last, own)
							}
						}
						last = l.Max
					}
				}
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for r := range ms[:stop] {
		level, max := ms[r].State.Load(), ms[r].Max
		if level != final {
			return errf("round %d: level %d after all operations, want %d", r, level, final)
		}
		if adds && max != final {
			return errf("round %d: increments only, maximum %d, want %d", r, max, final)
		}
		if max > ceil {
			return errf("round %d: maximum %d, the level cannot have been above %d", r, max, ceil)
		}
		for w := range seen {
			if seen[w][r] > max {
				return errf("round %d: maximum %d, yet a level of %d was seen", r, max, seen[w][r])
			}
		}
	}
	x.NonTrivial()
	if adds {
		x.Class("rounds of increments")
	} else {
		x.Class("rounds with decrements")
	}
	return nil
}

func init() {
	register(&prop.Def{ID: "C22", Quick: 4000, Thoro: 40000, Race: true,
		Rule: "a sequential history is non-trivial when a difference is taken after an addition; a concurrent case when the difference reader took at least two differences while the writers ran",
		Subs: []*prop.Sub{
			prop.Gen("sequential", 1.5, genStatSeq, checkStatSeq),
			prop.Gen("concurrent", 1, genStatConc, checkStatConc),
		}})
	register(&prop.Def{ID: "C23", Quick: 5000, Thoro: 20000, Race: true,
		Rule: "a sequential history is non-trivial when the level falls below its maximum; a concurrent one when operations of two goroutines overlapped in time",
		Subs: []*prop.Sub{
			prop.Gen("sequential", 2, genGaugeSeq, checkGaugeSeq),
			prop.Gen("short histories", 1, genGaugeConc, checkGaugeConc),
			prop.Gen("load", 0.5, genGaugeLoad, checkGaugeLoad),
			prop.Gen("rounds", 0.05, genGaugeRounds, checkGaugeRounds),
		}})
}
