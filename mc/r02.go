package main

import (
	"context"
	"fmt"
	"slices"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	"verif.local/shim/vctx"
)

func init() {
	register("R02", check{run: runR02, level: "model_checking",
		rule: "every universe of the resolver families (versions, virtuals, install_if, deep graphs, mixtures, several repositories with equal candidates) and every world; each is resolved in every order in which the maps the resolver visits can be visited, up to a bounded number of maps visited out of order, by a fresh resolver, by one that resolved the other worlds before (in both directions) and again; " +
			"outcomes must be equal, and the indexes and the request unchanged; non-trivial when a map of at least two elements was visited",
		assumptions: []string{"texts of errors are not part of the outcome", "maps of more than three elements are visited sorted, reversed, and with one element moved to either end"}})
}

// mapOrders lists the orders tried for a map of n elements, the sorted one first.
func mapOrders(n int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 3 {
		return perms(n)
	}
	rev := slices.Clone(id)
	slices.Reverse(rev)
	out := [][]int{id, rev}
	for i := 0; i < n; i++ {
		rest := append(slices.Clone(id[:i]), id[i+1:]...)
		if i > 0 {
			out = append(out, append([]int{i}, rest...))
		}
		if i < n-1 {
			out = append(out, append(rest, i))
		}
	}
	return out
}

var orderCache = func() [][][]int {
	var l [][][]int
	for n := 0; n < 40; n++ {
		l = append(l, mapOrders(n))
	}
	return l
}()

// mapExec is an execution that visits maps in the orders given by a chooser.
func mapExec(ch *Chooser, visited *int) *vctx.Exec {
	return &vctx.Exec{Map: func(n int, _ func() []string) []int {
		*visited++
		if n >= len(orderCache) {
			id := make([]int, n)
			for i := range id {
				id[i] = i
			}
			if ch.Choose(2, 1, "map") == 1 {
				slices.Reverse(id)
			}
			return id
		}
		o := orderCache[n]
		return o[ch.Choose(len(o), 1, "map")]
	}}
}

func r02outcome(r *apk.PkgResolver, w []string) string {
	got, conf, err := r.GetPackagesWithDependencies(context.Background(), w)
	if err != nil {
		return "error"
	}
	var b strings.Builder
	for _, p := range got {
		fmt.Fprintf(&b, "%s-%s@%s ", p.Name, p.Version, p.Repository().URI)
	}
	return b.String() + "conflicts:" + strings.Join(conf, ",")
}

func r02dump(idx []apk.NamedIndex) string {
	var b strings.Builder
	for _, x := range idx {
		for _, p := range x.Packages() {
			q := *p.Package
			fmt.Fprintf(&b, "%p %+v %d %d %d\n", p.Package, q, len(q.Dependencies), len(q.Provides), len(q.InstallIf))
			// what lies behind the end of the lists belongs to the index, too
			for _, l := range [][]string{q.Dependencies, q.Provides, q.InstallIf} {
				fmt.Fprintf(&b, "%q", l[:cap(l)])
			}
		}
	}
	return b.String()
}

// r02ties: names and repositories with candidates that are equal in all that is ranked.
func r02ties(th bool) universeGen {
	absent := pkgSpec{}
	g := universeGen{label: "tie", worlds: [][]string{{"v"}, {"a"}, {"v", "w"}, {"a", "v"}, {"p"}, {"a", "p"}, {"v@t"}, {"p", "v", "a"}, {"v=1"}, {"w", "a"}}}
	prov := func(name string) []pkgSpec {
		l := []pkgSpec{absent}
		for _, r := range []int{0, 1, 2} {
			l = append(l, pkgSpec{name: name, ver: "1", provides: []string{"v=1"}, repo: r}, pkgSpec{name: name, ver: "1", provides: []string{"v", "w"}, repo: r})
		}
		return append(l, pkgSpec{name: name, ver: "1", provides: []string{"w=1", "v=1"}, deps: []string{"!q"}}, pkgSpec{name: name, ver: "2", provides: []string{"v=1"}, prio: 2, installIf: []string{"a"}})
	}
	g.slots = [][]pkgSpec{
		{{name: "a", ver: "1", deps: []string{"v"}}, {name: "a", ver: "1", deps: []string{"w", "v"}}, {name: "a", ver: "1", deps: []string{"v=1", "p", "!z"}}, {name: "a", ver: "1", deps: []string{"p", "q", "v", "w"}}},
		prov("p"), prov("p"), prov("q"),
		{absent, {name: "z", ver: "1", provides: []string{"v=1", "w"}}, {name: "z", ver: "1", provides: []string{"v", "w"}, repo: 1}},
	}
	if th {
		g.slots = append(g.slots, prov("q"))
	}
	return g
}

func runR02(c *C) {
	ctx := context.Background()
	bound := c.Pick(1, 2)
	fams := append([]universeGen{r02ties(c.Thorough())}, resolverFamilies(false)...)
	c.Note("map_orders_controlled", fmt.Sprint(vctx.Instrumented))
	c.Sample("p-1 in two repositories, both providing v=1; q-1 providing v and w; worlds [v], [v w], [a v], ...; each map visited in every order")
	for _, g := range fams {
		g := g
		if !c.Thorough() { // fewer worlds, the first map orders matter at every step
			g.worlds = g.worlds[:min(len(g.worlds), 6)]
		}
		c.Run(func(emit func(string, func(*T))) {
			g.cases(emit, func(t *T, ps []pkgSpec) {
				roomy := slices.Clone(ps)
				for i, p := range roomy {
					for _, l := range []*[]string{&p.deps, &p.provides, &p.installIf} {
						*l = append(make([]string, 0, len(*l)+2), *l...)
					}
					roomy[i] = p
				}
				idx := buildIndexes([]string{"", "", "t"}, roomy)
				if g.label != "tie" {
					idx = buildIndexes([]string{""}, roomy)
				}
				before := r02dump(idx)
				shared := apk.NewPkgResolver(ctx, idx)
				base := make([]string, len(g.worlds))
				for i, w := range g.worlds {
					key := g.label + ":" + uniString(ps) + ":" + worldStr(w)
					first := ""
					visits := 0
					run := func(ch *Chooser) bool {
						got := ""
						req := append(make([]string, 0, len(w)+2), w...)
						n := 0
						vctx.With(mapExec(ch, &n), func() { got = r02outcome(apk.NewPkgResolver(ctx, idx), req) })
						visits += n
						t.Trans(1)
						if strings.Join(req, " ") != strings.Join(w, " ") || req[:cap(req)][len(w)] != "" {
							t.Fail("request:"+key, "world %v over {%s}: the request is %q afterwards", w, uniString(ps), req[:cap(req)])
						}
						if first == "" {
							first = got
						} else if got != first {
							t.Fail(key, "world %v over {%s}: %s, and with other map orders (choices %v): %s", w, uniString(ps), first, ch.Choices, got)
							return false
						}
						return true
					}
					if vctx.Instrumented {
						ex, _, _ := Explore(bound, 0, nil, run)
						t.NoteAdd("executions", int64(ex))
					} else {
						for k := 0; k < 12; k++ {
							run(&Chooser{})
						}
					}
					base[i] = first
					// with the order of the runtime, and with what the resolver has seen
					if got := r02outcome(shared, w); got != first {
						t.Fail("again:"+key, "world %v over {%s}: %s, and after resolving %v: %s", w, uniString(ps), first, g.worlds[:i], got)
					}
					t.Eval(visits > 0)
				}
				for i := len(g.worlds) - 1; i >= 0; i-- {
					if got := r02outcome(shared, g.worlds[i]); got != base[i] {
						t.Fail("back:"+g.label+":"+uniString(ps)+":"+worldStr(g.worlds[i]), "world %v over {%s}: %s, and after resolving other worlds: %s", g.worlds[i], uniString(ps), base[i], got)
					}
				}
				if after := r02dump(idx); after != before {
					t.Fail("index:"+g.label+":"+uniString(ps), "resolving changes the indexes from\n%s\nto\n%s", before, after)
				}
				t.State(g.label + uniString(ps))
				t.Trace(1)
			})
		})
	}
}
