// Command check runs one shard of one property, or replays one case.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"testing"
	"time"

	"vlverif/checks"
	"vlverif/gen"
	"vlverif/prop"
)

func main() {
	testing.Init()
	id := flag.String("prop", "", "property id")
	out := flag.String("out", "", "result file")
	cur := flag.String("cur", "", "file holding the current case")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	seed := flag.Uint64("seed", 1, "seed")
	thor := flag.Bool("thorough", false, "thorough tier")
	scale := flag.Float64("scale", 1, "scale the number of cases")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list the properties")
	shrink := flag.Bool("shrink", false, "with -replay: reduce the case and rewrite the file")
	only := flag.String("sub", "", "only this sub-check")
	budget := flag.Duration("budget", 0, "generate no more cases after this time")
	cold := flag.Bool("cold", false, "run the tasks read from the standard input (for C26)")
	flag.Parse()
	if *cold {
		if err := checks.ColdRun(os.Stdin, os.Stdout); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	if *list {
		type row struct {
			ID   string `json:"id"`
			Rule string `json:"rule"`
			Race bool   `json:"race"`
		}
		var rows []row
		for _, d := range checks.All() {
			rows = append(rows, row{d.ID, d.Rule, d.Race})
		}
		_ = json.NewEncoder(os.Stdout).Encode(rows)
		return
	}
	def := checks.Find(*id)
	if def == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	if *only != "" {
		var keep []*prop.Sub
		for _, s := range def.Subs {
			if s.Name == *only {
				keep = append(keep, s)
			}
		}
		def.Subs = keep
	}
	if *replay != "" {
		os.Exit(doReplay(def, *replay, *shrink))
	}
	checks.Thorough = *thor
	write := func(res *prop.Result) {
		b, err := json.Marshal(res)
		if err == nil && *out != "" {
			if err = os.WriteFile(*out+".tmp", b, 0o644); err == nil {
				err = os.Rename(*out+".tmp", *out)
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	r := &prop.Runner{Def: def, Thor: *thor, Shard: *shard, Shards: *shards, Seed: *seed, Scale: *scale, CurPath: *cur, CPUCap: 90 * time.Second, Budget: *budget}
	r.OnHang = func(f *prop.Failure) {
		write(&prop.Result{Property: def.ID, Failure: f, Done: true})
		os.Exit(1)
	}
	start := time.Now()
	res := r.Run()
	write(res)
	switch {
	case res.Harness != "":
		fmt.Fprintln(os.Stderr, res.Harness)
		os.Exit(2)
	case res.Failure != nil:
		fmt.Fprintf(os.Stderr, "FAILED %s/%s: %s\ncase: %.3000s\n", def.ID, res.Failure.Sub, res.Failure.Error, res.Failure.Case)
		os.Exit(1)
	}
	if *out == "" {
		fmt.Fprintf(os.Stderr, "%s ok: %d cases, %d non-trivial (%d distinct), %v, %.1fs\n", def.ID, res.Evals, res.NonTrivial, len(res.Hashes), res.SubEvals, time.Since(start).Seconds())
		b, _ := json.MarshalIndent(res.Classes, "", " ")
		fmt.Fprintln(os.Stderr, string(b))
	}
}

func doReplay(def *prop.Def, path string, shrink bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f prop.Failure
	if err = json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range def.Subs {
		if s.Name != f.Sub {
			continue
		}
		c := s.New()
		if err = json.Unmarshal(f.Case, c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for i := 0; i < 60; i++ {
			if err = prop.SafeCheck(s, c, &prop.Ctx{Replay: true}); err != nil {
				if w, ok := c.(*gen.Wire); ok && shrink {
					f.Case, f.Error = reduce(s, w, err)
					js, _ := json.Marshal(f)
					_ = os.WriteFile(path, js, 0o644)
				}
				fmt.Fprintf(os.Stderr, "reproduced at attempt %d: %v\n", i+1, err)
				return 1
			}
		}
		fmt.Fprintln(os.Stderr, "not reproduced")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such sub-check:", f.Sub)
	return 2
}

// reduce removes and simplifies bytes while the case still fails.
func reduce(s *prop.Sub, w *gen.Wire, err error) (json.RawMessage, string) {
	stop := time.Now().Add(20 * time.Second)
	for again := true; again && time.Now().Before(stop); {
		again = false
		for n := len(w.B) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(w.B) && time.Now().Before(stop); i++ {
				// without n bytes, as it is or with the one-byte remaining length corrected
				cut := append(append([]byte(nil), w.B[:i]...), w.B[i+n:]...)
				fit := append([]byte(nil), cut...)
				if len(fit) > 1 && len(fit) < 130 {
					fit[1] = byte(len(fit) - 2)
				}
				for _, b := range [][]byte{fit, cut} {
					t := &gen.Wire{Ver: w.Ver, B: b, How: w.How}
					if e := prop.SafeCheck(s, t, &prop.Ctx{Replay: true}); e != nil {
						*w, err, again = *t, e, true
						break
					}
				}
			}
		}
		for i := range w.B {
			for _, v := range []byte{0, 1, 'a'} {
				if w.B[i] == v || w.B[i] < v {
					continue
				}
				t := &gen.Wire{Ver: w.Ver, B: append([]byte(nil), w.B...), How: w.How}
				t.B[i] = v
				if e := prop.SafeCheck(s, t, &prop.Ctx{Replay: true}); e != nil {
					*w, err = *t, e
					break
				}
			}
		}
	}
	js, _ := json.Marshal(w)
	return js, err.Error()
}
