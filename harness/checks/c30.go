package checks

import (
	"strconv"
	"strings"

	"github.com/VolantMQ/vlapi/vlplugin"
	"pgregory.net/rapid"

	"vlverif/gen"
	"vlverif/prop"
)

// ---- C30 -------------------------------------------------------------------

type pluginOp struct {
	K string `json:"k"` // ask, set
	I int    `json:"i"`
	F int    `json:"f,omitempty"`
	S string `json:"s,omitempty"`
}

type pluginCase struct {
	D   []vlplugin.Descriptor `json:"d"`
	Ops []pluginOp            `json:"ops"`
}

func genPlugin(t *rapid.T) *pluginCase {
	c := &pluginCase{}
	text := func() string {
		switch gen.Int(t, 0, 5, "txk") {
		case 0:
			return ""
		case 5:
			return gen.Tale(t)
		case 1:
			return gen.Pick(t, []string{"1.0.0", "0.0.1", "v1.2.3-rc+5", "mongodb", "auth", "persistence", "monitoring", "debug", "prometheus", " "}, "tx")
		case 2:
			return strings.Repeat("x", gen.Int(t, 1, 5000, "n"))
		}
		return rapid.StringN(0, 12, 48).Draw(t, "text")
	}
	for i := gen.Int(t, 1, 4, "n"); i > 0; i-- {
		c.D = append(c.D, vlplugin.Descriptor{V: text(), N: text(), D: text(), T: text()})
	}
	for i := gen.Int(t, 0, 12, "ops"); i > 0; i-- {
		o := pluginOp{K: "ask", I: gen.Int(t, 0, len(c.D)-1, "i")}
		if gen.OneIn(t, 3, "set") {
			o.K, o.F, o.S = "set", gen.Int(t, 0, 3, "f"), text()
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkPlugin(c *pluginCase, x *prop.Ctx) error {
	want := append([]vlplugin.Descriptor{}, c.D...)
	in := append([]vlplugin.Descriptor{}, c.D...)
	ask := func(i int) error {
		var d vlplugin.Info = &in[i]
		w := want[i]
		api, v := d.Version()
		for _, q := range []struct{ what, got, want string }{
			{"version", v, w.V}, {"API version", api, vlplugin.APIVersion}, {"name", d.Name(), w.N}, {"description", d.Desc(), w.D}, {"type", d.Type(), w.T},
		} {
			if q.got != q.want {
				return errf("the %s of plugin %d %+q is reported as %q", q.what, i, w, q.got)
			}
		}
		if in[i] != w {
			return errf("asking changed the descriptor from %+q to %+q", w, in[i])
		}
		return nil
	}
	for step, o := range c.Ops {
		if o.K == "set" {
			for _, l := range [][]vlplugin.Descriptor{in, want} {
				*[]*string{&l[o.I].V, &l[o.I].N, &l[o.I].D, &l[o.I].T}[o.F] = o.S
			}
			continue
		}
		if err := ask(o.I); err != nil {
			return errf("step %d: %v", step, err)
		}
	}
	for i := range in {
		if err := ask(i); err != nil {
			return err
		}
	}
	p := strings.Split(vlplugin.APIVersion, ".")
	if len(p) != 3 {
		return errf("the API version %q is not major.minor.patch", vlplugin.APIVersion)
	}
	for _, s := range p {
		if n, err := strconv.ParseUint(s, 10, 32); err != nil || strconv.FormatUint(n, 10) != s {
			return errf("the API version %q is not major.minor.patch", vlplugin.APIVersion)
		}
	}
	if len(c.D) > 1 && len(c.Ops) > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register(&prop.Def{ID: "C30", Quick: 4000, Thoro: 300000,
		Rule: "1-4 descriptors, asked and refilled up to 12 times; non-trivial: several descriptors and at least one step before the last look",
		Subs: []*prop.Sub{prop.Gen("descriptors", 1, genPlugin, checkPlugin)}})
}
