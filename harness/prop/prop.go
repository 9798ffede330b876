// Package prop is the small framework around rapid: it runs the generated cases
// of a property, keeps the statistics the evidence reports, and turns the last
// (smallest) failing case into a replay file that needs no generator.
package prop

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// HarnessError marks a defect of the harness itself (never a violation).
type HarnessError struct{ Msg string }

func (e HarnessError) Error() string { return "harness: " + e.Msg }

// Harness raises a harness error.
func Harness(format string, a ...interface{}) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

// Ctx collects what a case turned out to be.
type Ctx struct {
	nontrivial bool
	classes    []string
	Replay     bool
}

// NonTrivial marks the case.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Class labels the case.
func (c *Ctx) Class(s string) { c.classes = append(c.classes, s) }

// Sub is one generator/oracle pair of a property.
type Sub struct {
	Name   string
	Weight float64
	Gen    func(t *rapid.T) interface{}
	Enum   func(yield func(interface{}))
	New    func() interface{}
	Check  func(c interface{}, x *Ctx) error
	// MaxQuick caps the number of cases per shard in the quick tier (0: none).
	MaxQuick int
	// OneShard runs the sub-check in shard 0 only.
	OneShard bool
}

// Def is a property.
type Def struct {
	ID    string
	Rule  string
	Quick int // generated cases per shard, multiplied by the sub-check's weight
	Thoro int
	Race  bool // also run under the race detector
	Subs  []*Sub
}

// Gen makes a generated sub-check.
func Gen[C any](name string, weight float64, gen func(t *rapid.T) *C, check func(c *C, x *Ctx) error) *Sub {
	return &Sub{Name: name, Weight: weight,
		Gen:   func(t *rapid.T) interface{} { return gen(t) },
		New:   func() interface{} { return new(C) },
		Check: func(c interface{}, x *Ctx) error { return check(c.(*C), x) }}
}

// Enum makes an exhaustively enumerated sub-check.
func Enum[C any](name string, enum func(yield func(*C)), check func(c *C, x *Ctx) error) *Sub {
	return &Sub{Name: name,
		Enum:  func(y func(interface{})) { enum(func(c *C) { y(c) }) },
		New:   func() interface{} { return new(C) },
		Check: func(c interface{}, x *Ctx) error { return check(c.(*C), x) }}
}

// Failure is a violation found.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Race     bool            `json:"race,omitempty"`
}

// Result is what a shard reports.
type Result struct {
	Property   string            `json:"property"`
	Evals      int               `json:"evals"`
	SubEvals   map[string]int    `json:"sub_evals"`
	Classes    map[string]int    `json:"classes"`
	NonTrivial int               `json:"nontrivial"`
	Hashes     []uint64          `json:"hashes"`
	Samples    []json.RawMessage `json:"samples"`
	Failure    *Failure          `json:"failure,omitempty"`
	Harness    string            `json:"harness,omitempty"`
	Done       bool              `json:"done"`
}

// Runner runs one shard of one property.
type Runner struct {
	Def     *Def
	Thor    bool
	Shard   int
	Shards  int
	Seed    uint64
	Scale   float64
	CurPath string
	CPUCap  time.Duration
	Budget  time.Duration // generate no more cases after this time

	res     Result
	hashes  map[uint64]struct{}
	failed  bool
	cur     *os.File
	caseCPU int64 // process CPU time at the start of the current case
	inCase  int32
	caseNo  int64
	sampled map[string]int
	OnHang  func(f *Failure)
	lastSub string
	start   time.Time
}

type caseFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func cpuNow() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// SafeCheck runs one case; a panic of the code under test is a violation, a
// harness error is passed on.
func SafeCheck(s *Sub, c interface{}, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				panic(h)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trim(string(debug.Stack()), 2500))
		}
	}()
	return s.Check(c, x)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *Runner) one(s *Sub, c interface{}) error {
	js, err := json.Marshal(c)
	if err != nil {
		Harness("marshal: %v", err)
	}
	if r.cur != nil && len(js) < 1<<20 {
		b, _ := json.Marshal(caseFile{r.Def.ID, s.Name, "the process died while checking this case", js})
		if _, err = r.cur.WriteAt(append(b, '\n'), 0); err == nil {
			_ = r.cur.Truncate(int64(len(b) + 1))
		}
	}
	atomic.StoreInt64(&r.caseCPU, cpuNow())
	atomic.AddInt64(&r.caseNo, 1)
	atomic.StoreInt32(&r.inCase, 1)
	x := &Ctx{}
	err = SafeCheck(s, c, x)
	atomic.StoreInt32(&r.inCase, 0)
	if err != nil {
		r.failed = true
		r.res.Failure = &Failure{Property: r.Def.ID, Sub: s.Name, Error: err.Error(), Case: js}
		return err
	}
	if r.failed {
		return nil // shrinking
	}
	r.res.Evals++
	r.res.SubEvals[s.Name]++
	for _, k := range x.classes {
		r.res.Classes[s.Name+": "+k]++
	}
	if x.nontrivial {
		r.res.NonTrivial++
		h := fnv.New64a()
		_, _ = h.Write([]byte(s.Name))
		_, _ = h.Write(js)
		if len(r.hashes) < 1500000 {
			r.hashes[h.Sum64()] = struct{}{}
		}
		key := s.Name
		if len(x.classes) > 0 {
			key += x.classes[0]
		}
		if r.sampled[key] < 1 && r.sampled[s.Name] < 4 && len(js) < 700 && (r.res.SubEvals[s.Name]%17 == 3 || s.Enum != nil) {
			r.sampled[key]++
			r.sampled[s.Name]++
			b, _ := json.Marshal(map[string]interface{}{"sub": s.Name, "classes": x.classes, "case": json.RawMessage(js)})
			r.res.Samples = append(r.res.Samples, b)
		}
	}
	return nil
}

type stop struct{}

type tbT struct{ failed bool }

func (t *tbT) Helper()                   {}
func (t *tbT) Name() string              { return "prop" }
func (t *tbT) Logf(string, ...any)       {}
func (t *tbT) Log(...any)                {}
func (t *tbT) Skipf(f string, a ...any)  { panic(stop{}) }
func (t *tbT) Skip(...any)               { panic(stop{}) }
func (t *tbT) SkipNow()                  { panic(stop{}) }
func (t *tbT) Errorf(f string, a ...any) { t.failed = true; t.msg(fmt.Sprintf(f, a...)) }
func (t *tbT) Error(a ...any)            { t.failed = true; t.msg(fmt.Sprint(a...)) }
func (t *tbT) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stop{}) }
func (t *tbT) Fatal(a ...any)            { t.Error(a...); panic(stop{}) }
func (t *tbT) FailNow()                  { t.failed = true; panic(stop{}) }
func (t *tbT) Fail()                     { t.failed = true }
func (t *tbT) Failed() bool              { return t.failed }
func (t *tbT) msg(s string)              { fmt.Fprintln(os.Stderr, trim(s, 3000)) }

// Run the shard.
func (r *Runner) Run() *Result {
	r.res = Result{Property: r.Def.ID, SubEvals: map[string]int{}, Classes: map[string]int{}}
	r.start = time.Now()
	r.hashes = map[uint64]struct{}{}
	r.sampled = map[string]int{}
	if r.CurPath != "" {
		r.cur, _ = os.Create(r.CurPath)
	}
	go r.watchdog()
	defer func() {
		for h := range r.hashes {
			r.res.Hashes = append(r.res.Hashes, h)
		}
	}()
	for i, s := range r.Def.Subs {
		r.lastSub = s.Name
		if (s.OneShard && r.Shard != 0) || r.failed {
			continue
		}
		if err := r.sub(i, s); err != nil {
			r.res.Harness = err.Error()
			break
		}
	}
	r.res.Done = r.res.Harness == ""
	return &r.res
}

func (r *Runner) sub(i int, s *Sub) (err error) {
	var harness error
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if h, ok := e.(HarnessError); ok {
			err = h
			return
		}
		if _, ok := e.(stop); ok {
			if !r.failed {
				err = errors.New("rapid stopped without a failing case (see stderr)")
			}
			if harness != nil {
				err = harness
			}
			return
		}
		panic(e)
	}()
	if s.Enum != nil {
		n := 0
		s.Enum(func(c interface{}) {
			n++
			if n%r.Shards != r.Shard || r.failed {
				return
			}
			_ = r.one(s, c)
		})
		return nil
	}
	checks := float64(r.Def.Quick)
	if r.Thor {
		checks = float64(r.Def.Thoro)
	}
	n := int(checks * s.Weight * r.Scale)
	if !r.Thor && s.MaxQuick > 0 && n > s.MaxQuick {
		n = s.MaxQuick
	}
	if n < 1 {
		n = 1
	}
	// a sub-check gets its share of the time that is left
	var end time.Time
	if r.Budget > 0 {
		rest := 0.0
		for _, q := range r.Def.Subs[i:] {
			rest += q.Weight
		}
		left := r.Budget - time.Since(r.start)
		share := time.Duration(float64(left) * s.Weight / rest)
		if least := r.Budget / 20; share < least {
			share = least
		}
		end = time.Now().Add(share)
	}
	set := func(k, v string) {
		if e := flag.Set(k, v); e != nil {
			Harness("flag %s: %v", k, e)
		}
	}
	seed := mix(r.Seed, uint64(i)*1000+uint64(r.Shard)) | 1
	set("rapid.seed", fmt.Sprint(seed))
	set("rapid.checks", fmt.Sprint(n))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "12s")
	rapid.Check(&tbT{}, func(t *rapid.T) {
		defer func() {
			// rapid treats every panic as a failure: keep harness errors apart
			if e := recover(); e != nil {
				if h, ok := e.(HarnessError); ok {
					harness = h
				}
				panic(e)
			}
		}()
		if harness != nil {
			panic(harness)
		}
		if !r.failed && !end.IsZero() && time.Now().After(end) {
			r.res.Classes[s.Name+": not run, out of time"]++
			return
		}
		c := s.Gen(t)
		if e := r.one(s, c); e != nil {
			t.Fatalf("%s", trim(e.Error(), 1500))
		}
	})
	return harness
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x & 0x7fffffffffffffff
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	if n, _ := fmt.Sscan(string(b), &size, &res); n < 2 {
		return 0
	}
	return res * int64(os.Getpagesize())
}

// watchdog: a single case that burns more CPU time than any case can
// legitimately need, or more memory, is a violation (non-termination or
// unbounded memory), reported with the case as replay.
func (r *Runner) watchdog() {
	if r.CPUCap == 0 || r.OnHang == nil {
		return
	}
	var last int64
	ticks := 0
	for {
		time.Sleep(300 * time.Millisecond)
		if atomic.LoadInt32(&r.inCase) == 0 {
			continue
		}
		start := atomic.LoadInt64(&r.caseCPU)
		no := atomic.LoadInt64(&r.caseNo)
		if no != last {
			last, ticks = no, 0
		}
		ticks++
		what := ""
		if d := time.Duration(cpuNow() - start); d > r.CPUCap {
			what = fmt.Sprintf("the case used more than %v of CPU time without finishing", r.CPUCap)
		} else if rss() > 3500<<20 {
			what = "the process grew beyond 3.5 GB during the case"
		}
		if what == "" && ticks > 500 {
			// 500 periods during which this very process was scheduled: it is blocked
			what = "the case makes no progress"
		}
		if what == "" || atomic.LoadInt64(&r.caseNo) != no || atomic.LoadInt32(&r.inCase) == 0 {
			continue
		}
		b, err := os.ReadFile(r.CurPath)
		var cf caseFile
		if err != nil || json.Unmarshal(b, &cf) != nil {
			cf = caseFile{Property: r.Def.ID, Sub: r.lastSub}
		}
		r.OnHang(&Failure{Property: r.Def.ID, Sub: cf.Sub, Error: what, Case: cf.Case})
	}
}
