package c03

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

type entry struct {
	ip   *intern.Pattern
	p    *rgen.P
	dump string
	how  string
}

// dump shows everything that a pattern is made of, including the identity of its parts.
func dump(p *intern.Pattern) string {
	var b strings.Builder
	var rec func(p *intern.Pattern)
	rec = func(p *intern.Pattern) {
		fmt.Fprintf(&b, "%p{%d %q %v", p, p.Type, p.Ref, p.Nullable())
		if p.Func != nil {
			b.WriteString(p.Func.String())
		}
		for _, k := range p.Patterns {
			rec(k)
		}
		b.WriteString("}")
	}
	rec(p)
	return b.String()
}

type world struct {
	t    *testing.T
	g    *rgen.G
	c    intern.Construct
	pool []entry
	r    *rand.Rand
	bad  bool
	rec  bool
}

func (w *world) fail(key, f string, a ...interface{}) {
	w.bad = true
	vh.Fail(w.t, key, "%s: %s", w.g, fmt.Sprintf(f, a...))
}

// add records a new pattern, checks it against its meaning, and checks that the older ones are as they were.
func (w *world) add(ip *intern.Pattern, p *rgen.P, how string) {
	for _, e := range w.pool {
		if dump(e.ip) != e.dump {
			w.fail("changed", "%s changed the pattern %s from %s to %s", how, e.how, e.dump, dump(e.ip))
			return
		}
	}
	q := rgen.FromIntern(ip)
	if got, want := ip.Nullable(), rgen.Match(w.g.Lookup, p, nil); got != want {
		w.fail("nullable", "%s = %s: nullable %v, want %v", how, ip, got, want)
		return
	}
	for j := 0; j < 4; j++ {
		ts := (&rgen.G{Main: p, Defs: w.defs()}).Forest(w.r)
		if w.rec && !rgen.Unique(ts) {
			continue
		}
		var got, want bool
		if vh.Try(func() {
			want = rgen.Match(w.g.Lookup, p, ts)
			got = rgen.Match(w.g.Lookup, q, ts)
		}) != "" {
			continue
		}
		if got != want {
			w.fail("meaning", "%s = %s: %v on [%s], want %v", how, ip, got, rgen.Show(ts), want)
			return
		}
	}
	if len(w.pool) < 40 {
		w.pool = append(w.pool, entry{ip, p, dump(ip), how})
	}
}

func (w *world) defs() map[string]*rgen.P {
	m := map[string]*rgen.P{"main": w.g.Main}
	for n, p := range w.g.Defs {
		m[n] = p
	}
	return m
}

func (w *world) pick() entry { return w.pool[w.r.Intn(len(w.pool))] }

func (w *world) step() {
	r := w.r
	n := 1 + r.Intn(4)
	es := make([]entry, n)
	kids := make([]*rgen.P, n)
	ips := make([]*intern.Pattern, n, n+r.Intn(2))
	names := make([]string, n)
	for i := range es {
		es[i] = w.pick()
		if i > 0 && r.Intn(4) == 0 {
			es[i] = es[i-1]
		}
		kids[i], ips[i] = es[i].p, es[i].ip
		names[i] = es[i].ip.String()
	}
	arg := strings.Join(names, " , ")
	var ip *intern.Pattern
	var p *rgen.P
	var err error
	var how string
	switch r.Intn(7) {
	case 0:
		how = "NewConcat(" + arg + ")"
		ip, err = w.c.NewConcat(ips)
		p = rgen.Mk(rgen.Cat, kids...)
	case 1:
		how = "NewOr(" + arg + ")"
		ip, err = w.c.NewOr(ips)
		p = rgen.Mk(rgen.Or, kids...)
	case 2:
		how = "NewAnd(" + arg + ")"
		ip, err = w.c.NewAnd(ips)
		p = rgen.Mk(rgen.And, kids...)
	case 3:
		how = "NewInterleave(" + arg + ")"
		ip, err = w.c.NewInterleave(ips)
		p = rgen.Mk(rgen.Ilv, kids...)
	case 4:
		how = "NewNot(" + names[0] + ")"
		ip, err = w.c.NewNot(ips[0])
		p = rgen.Mk(rgen.Not, kids[0])
	case 5:
		how = "NewZeroOrMore(" + names[0] + ")"
		ip, err = w.c.NewZeroOrMore(ips[0])
		p = rgen.Mk(rgen.Star, kids[0])
	case 6:
		how = "NewConcat(*, " + names[0] + ", *)"
		ip, err = w.c.NewConcat([]*intern.Pattern{w.c.NewZAny(), ips[0], w.c.NewZAny()})
		p = rgen.Mk(rgen.Contains, kids[0])
	}
	if err != nil {
		w.fail("error", "%s: %v", how, err)
		return
	}
	w.add(ip, p, how)
}

// pattern interns a whole pattern.
func (w *world) pattern(p *rgen.P) {
	ip, err := w.c.NewPattern(p.Ast())
	if err != nil {
		w.fail("error", "NewPattern(%s): %v", p.Ast(), err)
		return
	}
	w.add(ip, p, "NewPattern("+p.Ast().String()+")")
}

func TestVerifConstruct(t *testing.T) {
	r := vh.Rand(3)
	n := 0
	for i := 0; i < vh.N(2500, 30000) && !vh.TooMany(); i++ {
		g := rgen.Grammar(r, 3)
		w := &world{t: t, g: g, r: r}
		w.c = intern.NewConstructor()
		gen := rgen.Gen{R: r, Open: append([]string{"main"}, g.Names...)}
		switch i % 4 {
		case 0:
			g = rgen.Record(r, 3)
			w.g, w.rec = g, true
			gen = rgen.Gen{R: r, Names: true}
			w.c = intern.NewConstructorOptimizedForRecords()
		case 1:
			g = rgen.CollideGrammar(r, 2)
			w.g = g
			gen = rgen.Gen{R: r, Open: append([]string{"main"}, g.Names...), Collide: true}
		}
		vh.Current("%s", g)
		if m := vh.Try(func() {
			main, err := w.c.AddGrammar(g.Ast())
			if err != nil {
				w.fail("error", "AddGrammar: %v", err)
				return
			}
			w.add(main, g.Main, "main")
			for _, name := range g.Names {
				w.add(w.c.Deref(name), g.Defs[name], name)
			}
			w.add(w.c.NewEmpty(), rgen.Mk(rgen.Empty), "empty")
			w.add(w.c.NewZAny(), rgen.Mk(rgen.Any), "zany")
			w.add(w.c.NewNotZAny(), rgen.Mk(rgen.Not, rgen.Mk(rgen.Any)), "notzany")
			for j := 0; j < 4 && !w.bad; j++ {
				w.pattern(gen.Pattern(r.Intn(3)))
			}
			for j := 0; j < 24 && !w.bad; j++ {
				w.step()
				n++
			}
		}); m != "" {
			w.fail("panic", "%s", m)
		}
		if i < 3 {
			for _, e := range w.pool[len(w.pool)-2:] {
				vh.Sample("%s", e.how)
			}
		}
	}
	_ = ast.NewEmpty
	vh.Stat("constructions", n)
	vh.Done()
}
