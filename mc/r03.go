package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

// sccOf computes reachability-based cycle membership on a small graph.
func reach(n int, adj [][]int) [][]bool {
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		for _, j := range adj[i] {
			r[i][j] = true
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if r[i][k] {
				for j := 0; j < n; j++ {
					if r[k][j] {
						r[i][j] = true
					}
				}
			}
		}
	}
	return r
}

func checkOrder(world []string, got []*apk.RepositoryPackage) string {
	for i := range got {
		for j := 0; j < i; j++ {
			if got[i].Name == got[j].Name {
				return fmt.Sprintf("%s is in the list twice (%s at %d, %s at %d)", got[i].Name, got[j].Version, j, got[i].Version, i)
			}
		}
	}
	for _, w := range world {
		ok := false
		for _, p := range got {
			ok = ok || pkgSatisfies(p.Package, w)
		}
		if !ok && !strings.HasPrefix(w, "!") {
			return fmt.Sprintf("requested %s is not in the list", w)
		}
	}
	adj := make([][]int, len(got))
	for i, p := range got {
		for _, d := range p.Dependencies {
			if strings.HasPrefix(d, "!") {
				continue
			}
			for j, q := range got {
				if j != i && pkgSatisfies(q.Package, d) {
					adj[i] = append(adj[i], j)
				}
			}
		}
	}
	r := reach(len(got), adj)
	for i, p := range got {
		for _, d := range p.Dependencies {
			if strings.HasPrefix(d, "!") || pkgSatisfies(p.Package, d) {
				continue
			}
			ok, any := false, -1
			for j, q := range got {
				if j == i || !pkgSatisfies(q.Package, d) {
					continue
				}
				any = j
				if j < i || r[j][i] {
					ok = true
				}
			}
			if any >= 0 && !ok {
				return fmt.Sprintf("%s-%s is listed before %s-%s, which satisfies its dependency %s (no cycle)", p.Name, p.Version, got[any].Name, got[any].Version, d)
			}
		}
	}
	return ""
}

func init() {
	register("R03", check{run: runR03, level: "model_checking",
		rule:        "every dependency graph over 4 packages (every subset of up to 3 dependencies per package, in both orders for pairs; full digraphs in the thorough tier), virtual dependencies, and every world of 1-2 packages; non-trivial when at least three packages are selected",
		assumptions: []string{"graphs of more than 4 (thorough: 5) packages behave alike"}})
}

func runR03(c *C) {
	ctx := context.Background()
	test := func(t *T, label string, ps []pkgSpec, worlds [][]string) {
		idx := buildIndexes([]string{""}, ps)
		for _, w := range worlds {
			got, _, err := apk.NewPkgResolver(ctx, idx).GetPackagesWithDependencies(ctx, w)
			t.Eval(len(got) >= 3)
			t.Trans(1)
			if err != nil {
				if label == "graph" {
					t.Fail("err:"+uniString(ps)+":"+worldStr(w), "world %v over {%s} (every dependency exists, one version each): %v", w, uniString(ps), err)
				}
				continue
			}
			if why := checkOrder(w, got); why != "" {
				t.Fail(label+":"+uniString(ps)+":"+worldStr(w), "world %v over {%s} resolved to %v: %s", w, uniString(ps), orderedNames(got), why)
			}
		}
		t.State(uniString(ps))
		t.Trace(1)
	}
	names := []string{"a", "b", "c", "d"}
	var worlds [][]string
	for _, x := range names {
		worlds = append(worlds, []string{x})
		for _, y := range names {
			if x != y {
				worlds = append(worlds, []string{x, y})
			}
		}
	}
	worlds = append(worlds, []string{"a", "a"}, []string{"b", "a", "d"})
	// all digraphs on 4 nodes; dependency lists of length >=2 also in reversed order (thorough)
	depLists := func(self int) [][]string {
		var o []string
		for i, n := range names {
			if i != self {
				o = append(o, n)
			}
		}
		ls := [][]string{nil, {o[0]}, {o[1]}, {o[2]}, {o[0], o[1]}, {o[0], o[2]}, {o[1], o[2]}, {o[0], o[1], o[2]}}
		if c.Thorough() || self == 0 {
			ls = append(ls, []string{o[1], o[0]}, []string{o[2], o[0]}, []string{o[2], o[1]}, []string{o[2], o[1], o[0]})
		}
		return ls
	}
	g := universeGen{label: "graph"}
	for i := range names {
		var slot []pkgSpec
		for _, d := range depLists(i) {
			slot = append(slot, pkgSpec{name: names[i], ver: "1", deps: d})
		}
		g.slots = append(g.slots, slot)
	}
	c.Sample("a:{b,c} b:{a} c:{d} d:{} worlds a, b, [b a], ...")
	c.Run(func(emit func(string, func(*T))) {
		g.cases(emit, func(t *T, ps []pkgSpec) { test(t, "graph", ps, worlds) })
	})
	// the versioned / provides / install_if families of R01
	for _, f := range resolverFamilies(c.Thorough()) {
		f := f
		c.Run(func(emit func(string, func(*T))) {
			f.cases(emit, func(t *T, ps []pkgSpec) { test(t, f.label, ps, f.worlds) })
		})
	}
}
