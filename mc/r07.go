package main

import (
	"context"
	"slices"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("R07", check{run: runR07, level: "model_checking",
		rule:        "every universe of the families (a small dependency graph, two versions of a package, up to three packages with install_if over names, exact versions and ranges, chained install_if, their own dependencies) and every world of them; on every successful answer both directions are judged: a package nobody requires has all its conditions met, and a package all of whose conditions are met by the dependencies of one requested package is there, unless it cannot be; non-trivial when some package is due",
		assumptions: []string{"universes outside the families behave like some universe inside them", "install_if is judged among the dependencies of one request, as the resolver documents it: conditions met only by several requests together, or by the requested package itself, are not judged for completeness"}})
}

// iifDue returns the packages with install_if that must be in the answer, or nil.
func iifDue(world []string, pkgs []*apk.Package, got []*apk.RepositoryPackage) (due []*apk.Package) {
	only := func(cons string) *apk.Package {
		var r *apk.Package
		for _, p := range got {
			if pkgSatisfies(p.Package, cons) {
				if r != nil {
					return nil
				}
				r = p.Package
			}
		}
		return r
	}
	in := map[*apk.Package]bool{}
	for _, p := range got {
		in[p.Package] = true
	}
	// what would rule a package out: any constraint or claim around that concerns one of its names
	free := func(q *apk.Package) bool {
		if len(q.Provides) > 0 {
			return false
		}
		rules := append([]string(nil), world...)
		for _, p := range got {
			if p.Package == q {
				continue
			}
			if p.Name == q.Name {
				return false
			}
			rules = append(rules, p.Dependencies...)
			for _, pr := range p.Provides {
				if _, n, _, _, _ := splitConstraint(pr); n == q.Name {
					return false
				}
			}
		}
		for _, r := range rules {
			if _, n, op, _, _ := splitConstraint(r); n == q.Name && (op != "" || strings.HasPrefix(r, "!")) {
				return false
			}
		}
		return true
	}
	// can it be installed along with the rest, without a choice?
	var fits func(q *apk.Package, path map[*apk.Package]bool) bool
	fits = func(q *apk.Package, path map[*apk.Package]bool) bool {
		if in[q] || path[q] {
			return true
		}
		if !free(q) {
			return false
		}
		path[q] = true
		for _, d := range q.Dependencies {
			if strings.HasPrefix(d, "!") {
				return false
			}
			n := 0
			for _, p := range pkgs {
				_, name, _, _, _ := splitConstraint(d)
				if p.Name == name || pkgSatisfies(p, name) {
					n++
					if !pkgSatisfies(p, d) || !fits(p, path) {
						return false
					}
				}
			}
			if n != 1 {
				return false
			}
		}
		return true
	}
	for _, w := range world {
		root := only(w)
		if root == nil {
			continue
		}
		// its dependencies in the answer
		members := map[*apk.Package]bool{}
		clear := true
		var walk func(p *apk.Package)
		walk = func(p *apk.Package) {
			for _, d := range p.Dependencies {
				if strings.HasPrefix(d, "!") {
					continue
				}
				q := only(d)
				if q == nil {
					if !pkgSatisfies(p, d) {
						clear = false
					}
					continue
				}
				if q != root && !members[q] {
					members[q] = true
					walk(q)
				}
			}
		}
		walk(root)
		if !clear {
			continue
		}
		for again := true; again; {
			again = false
			for _, q := range pkgs {
				if len(q.InstallIf) == 0 || members[q] || q == root || q.Name == root.Name {
					continue
				}
				trigger, met := false, true
				for _, c := range q.InstallIf {
					one := false
					_, n, op, v, _ := splitConstraint(c)
					for m := range members {
						if m.Name == n && (op == "" || verSatisfies(m.Version, op, v)) {
							one = true
							trigger = trigger || op == "" || op == "=" && m.Version == v
						}
						_ = v
					}
					met = met && one
				}
				if !met || !trigger || !fits(q, map[*apk.Package]bool{}) {
					continue
				}
				due = append(due, q)
				members[q] = true
				again = true
			}
		}
	}
	return due
}

func r07families(th bool) []universeGen {
	none := [][]string{nil}
	absent := pkgSpec{}
	iif := [][]string{{"b"}, {"c"}, {"b", "c"}, {"c", "b"}, {"b=1"}, {"b=2"}, {"c=1"}, {"c=2"}, {"b=1", "c=2"}, {"c=1", "b"}, {"b", "c>1"}, {"b", "c<2"}, {"c", "b>1"}, {"c", "b~1"}, {"b", "d"}, {"zz", "b"}, {"b", "zz"}}
	f := universeGen{label: "cond", worlds: [][]string{{"a"}, {"a", "b"}, {"b"}, {"d", "a"}, {"a", "c<2"}, {"c=1", "a"}, {"b", "d"}}}
	f.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, [][]string{nil, {"b"}, {"c"}, {"b", "c"}, {"c", "b"}, {"c<2", "b"}, {"b", "c", "d"}}, none, none),
		entryPool("x", []string{"1"}, [][]string{nil, {"d"}}, none, iif),
		entryPool("b", []string{"1"}, [][]string{nil, {"c"}, {"d"}}, none, none),
		{{name: "c", ver: "1"}, {name: "c", ver: "1", deps: []string{"d"}}, {name: "c", ver: "1", provides: []string{"d=1"}}},
		{absent, {name: "c", ver: "2"}, {name: "b", ver: "2"}},
		{absent, {name: "d", ver: "1"}, {name: "d", ver: "1", deps: []string{"e"}}},
		{absent, {name: "y", ver: "1", installIf: []string{"x"}}, {name: "y", ver: "1", installIf: []string{"x", "b"}}, {name: "y", ver: "1", installIf: []string{"b=1"}}, {name: "y", ver: "1", installIf: []string{"b"}},
			{name: "y", ver: "1", installIf: []string{"c=2"}}, {name: "y", ver: "1", installIf: []string{"c"}, deps: []string{"b"}}, {name: "x", ver: "2", installIf: []string{"b"}}, {name: "y", ver: "1", installIf: []string{"x=1"}, deps: []string{"c"}}},
	}
	if th {
		f.slots = append(f.slots, append([]pkgSpec{absent}, entryPool("w", []string{"1"}, [][]string{nil, {"y"}}, none, [][]string{{"b"}, {"y"}, {"y=1", "x=1"}, {"c=1"}, {"d"}})...))
	}
	return []universeGen{f}
}

func runR07(c *C) {
	ctx := context.Background()
	for _, g := range r07families(c.Thorough()) {
		g := g
		c.Run(func(emit func(string, func(*T))) {
			g.cases(emit, func(t *T, ps []pkgSpec) {
				idx := buildIndexes([]string{""}, ps)
				sp := slices.Clone(ps)
				slices.Reverse(sp)
				back := buildIndexes([]string{""}, sp)
				var pkgs []*apk.Package
				for _, p := range idx[0].Packages() {
					pkgs = append(pkgs, p.Package)
				}
				for _, w := range g.worlds {
					got, _, err := apk.NewPkgResolver(ctx, idx).GetPackagesWithDependencies(ctx, w)
					t.Trans(1)
					if err != nil {
						t.Eval(false)
						continue
					}
					due := iifDue(w, pkgs, got)
					t.Eval(len(due) > 0)
					id := g.label + ":" + uniString(ps) + ":" + worldStr(w)
					for _, q := range due {
						have := false
						for _, p := range got {
							have = have || p.Package == q
						}
						if !have {
							t.Fail(id, "world %v over {%s} resolved to %v, without %s-%s, whose install_if %v is met", w, uniString(ps), orderedNames(got), q.Name, q.Version, q.InstallIf)
						}
					}
					if len(due) > 0 {
						rev, _, err := apk.NewPkgResolver(ctx, back).GetPackagesWithDependencies(ctx, w)
						if a, b := sortedNames(got), sortedNames(rev); err != nil || a != b {
							t.Fail("order:"+id, "world %v over {%s} resolved to %s, with the index listed backwards to %s (%v)", w, uniString(ps), a, b, err)
						}
					}
					for _, p := range got {
						if len(p.InstallIf) == 0 {
							continue
						}
						called := false
						for _, r := range w {
							called = called || pkgSatisfies(p.Package, r)
						}
						for _, q := range got {
							for _, d := range q.Dependencies {
								called = called || q != p && pkgSatisfies(p.Package, d)
							}
						}
						for _, cond := range p.InstallIf {
							met := false
							for _, q := range got {
								met = met || pkgSatisfies(q.Package, cond)
							}
							if !called && !met {
								t.Fail(id, "world %v over {%s} resolved to %v, with %s-%s, whose install_if condition %s is not met", w, uniString(ps), orderedNames(got), p.Name, p.Version, cond)
							}
						}
					}
				}
				t.State(uniString(ps))
				t.Trace(1)
			})
		})
	}
}

func sortedNames(ps []*apk.RepositoryPackage) string {
	l := orderedNames(ps)
	slices.Sort(l)
	return strings.Join(l, " ")
}
