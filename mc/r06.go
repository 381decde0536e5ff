package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("R06", check{run: runR06, level: "model_checking",
		rule:        "every universe of the families (version constraints, provided names, deeper graphs, mixtures, negative and sibling constraints, packages that provide what they need) and every world of them; a reference that only ever takes a package when it is the one possible candidate decides which worlds are forced; on each of those the resolver must succeed with exactly the forced packages; non-trivial when a world is forced and some candidate was ruled out on the way",
		assumptions: []string{"universes outside the families behave like some universe inside them", "a world in which there ever is a choice is judged by R01, R04 only"}})
}

// r06forced follows the requests of the world, and then the dependencies of what they select. A candidate is
// out if it does not meet a constraint of the world or of a package on the way from there, or if it provides a
// name in another version than a package of the world. The result is nil if there is ever a choice, or none left.
func r06forced(world []string, pkgs []*apk.Package) (sel map[*apk.Package]bool, ruledOut bool) {
	sel = map[*apk.Package]bool{}
	// whether a conflict with some versions of a name concerns a provider without a version is not judged
	unclear := false
	// does the package violate one of the constraints?
	violates := func(p *apk.Package, known []string) bool {
		for _, k := range known {
			if strings.HasPrefix(k, "!") {
				_, name, op, _, _ := splitConstraint(k[1:])
				for _, pr := range p.Provides {
					if _, pn, _, pv, _ := splitConstraint(pr); op != "" && pn == name && pv == "" {
						unclear = true
					}
				}
				if pkgSatisfies(p, k[1:]) {
					return true
				}
				continue
			}
			_, name, op, ver, _ := splitConstraint(k)
			if op == "" {
				continue
			}
			if p.Name == name && !verSatisfies(p.Version, op, ver) {
				return true
			}
			for _, pr := range p.Provides {
				if _, pn, _, pv, _ := splitConstraint(pr); p.Name != name && pn == name && (pv == "" || !verSatisfies(pv, op, ver)) {
					return true
				}
			}
		}
		return false
	}
	cands := func(cons string, known []string, with map[*apk.Package]bool) []*apk.Package {
		var out []*apk.Package
		for _, p := range pkgs {
			if !pkgSatisfies(p, cons) {
				continue
			}
			bad := violates(p, known)
			for s := range with {
				bad = bad || r06clash(s, p)
			}
			if bad {
				ruledOut = true
				continue
			}
			out = append(out, p)
		}
		return out
	}
	// the world: whatever is forced first
	todo := append([]string(nil), world...)
	var direct []*apk.Package
	for len(todo) > 0 {
		at := -1
		for i, w := range todo {
			if len(cands(w, world, sel)) == 1 {
				at = i
				break
			}
		}
		if at < 0 {
			return nil, ruledOut
		}
		p := cands(todo[at], world, sel)[0]
		sel[p] = true
		direct = append(direct, p)
		todo = append(todo[:at], todo[at+1:]...)
	}
	// what the siblings of a package bring in must not be needed to see that it is the only candidate: they
	// may come later
	chosen := map[*apk.Package]bool{}
	for _, p := range direct {
		chosen[p] = true
	}
	var walk func(p *apk.Package, known []string, path map[*apk.Package]bool) bool
	walk = func(p *apk.Package, known []string, path map[*apk.Package]bool) bool {
		known = append(known[:len(known):len(known)], p.Dependencies...)
		path[p] = true
		defer delete(path, p)
		with := map[*apk.Package]bool{}
		for q := range chosen {
			with[q] = true
		}
		for q := range path {
			with[q] = true
		}
		for _, d := range p.Dependencies {
			if strings.HasPrefix(d, "!") || pkgSatisfies(p, d) {
				continue
			}
			cs := cands(d, known, with)
			if len(cs) != 1 {
				return false
			}
			sel[cs[0]] = true
			if !path[cs[0]] && !walk(cs[0], known, path) {
				return false
			}
		}
		return true
	}
	for _, p := range direct {
		if !walk(p, world, map[*apk.Package]bool{}) {
			return nil, ruledOut
		}
	}
	// is it a solution at all?
	var got []*apk.Package
	for p := range sel {
		got = append(got, p)
	}
	for _, p := range got {
		if violates(p, world) {
			return nil, ruledOut
		}
		for _, q := range got {
			if p != q && (p.Name == q.Name || r06clash(p, q) || violates(q, p.Dependencies)) {
				return nil, ruledOut
			}
		}
	}
	if unclear {
		return nil, ruledOut
	}
	return sel, ruledOut
}

// r06clash: p provides a name that q is called or provides in another version.
func r06clash(p, q *apk.Package) bool {
	if p == q {
		return false
	}
	for _, pr := range p.Provides {
		_, n, _, v, _ := splitConstraint(pr)
		if q.Name == n {
			return true
		}
		for _, qr := range q.Provides {
			if _, qn, _, qv, _ := splitConstraint(qr); qn == n && (v != "" || qv != v) {
				return true
			}
		}
	}
	return false
}

func r06families(th bool) []universeGen {
	var fams []universeGen
	for _, g := range resolverFamilies(th) {
		if g.label != "iif" {
			fams = append(fams, g)
		}
	}
	none := [][]string{nil}
	absent := pkgSpec{}
	// siblings: what one dependency says must hold for what the others bring in
	s1 := universeGen{label: "sib", worlds: [][]string{{"a"}, {"a", "b"}, {"b", "a"}, {"c<2", "a"}, {"a", "c=1"}, {"a", "d~1"}, {"d<2", "c", "a"}, {"b", "c<2"}, {"v<2", "a"}, {"a", "v=1"}}}
	s1.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, [][]string{{"b", "c<2"}, {"c<2", "b"}, {"!x", "b", "c<2"}, {"b", "!x", "c~1"}, {"!c>1", "b"}, {"b", "!c=2"}, {"b", "v<2"}, {"v~1", "b"}, {"b", "!v>1"}, {"!x", "v=1", "b", "c"}, {"b", "c", "d<2"}, {"d=1", "!v=2", "b"}, {"b"}}, none, none),
		entryPool("b", []string{"1"}, [][]string{nil, {"c"}, {"v"}, {"d"}, {"c", "d"}, {"d", "v"}, {"c>0"}, {"c~1", "d"}, {"v", "!d>1", "d"}}, none, none),
		entryPool("c", []string{"1"}, [][]string{nil, {"d"}, {"d<2"}, {"v<2"}}, none, none),
		entryPool("c", []string{"2"}, [][]string{nil, {"d>1"}, {"zz"}}, none, none),
		{absent, {name: "d", ver: "1", provides: []string{"v=1"}}, {name: "d", ver: "1"}},
		{absent, {name: "d", ver: "2", provides: []string{"v=2"}}, {name: "d", ver: "2"}},
		{absent, {name: "e", ver: "1", provides: []string{"v=2"}}, {name: "e", ver: "2", provides: []string{"v=1"}}, {name: "v", ver: "2"}, {name: "v", ver: "1"}},
	}
	if th {
		s1.slots = append(s1.slots, []pkgSpec{absent, {name: "c", ver: "1.5", deps: []string{"d"}}, {name: "f", ver: "1", provides: []string{"c=1", "v"}}})
	}
	fams = append(fams, s1)
	// packages that provide what they need themselves
	f := universeGen{label: "own", worlds: [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "c"}, {"a", "v"}, {"v=1", "a"}, {"d", "a"}, {"d"}}}
	own := [][]string{nil, {"v"}, {"v>0"}, {"v=1"}, {"v<2"}, {"v~1"}, {"v>1"}, {"w", "v<2"}, {"v", "c"}, {"c", "v>0"}}
	f.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, own, [][]string{nil, {"v"}, {"v=1"}, {"v=2"}, {"v=1", "w"}, {"w=3", "v"}}, none),
		append([]pkgSpec{absent}, entryPool("b", []string{"1"}, [][]string{nil, {"a"}, {"v"}}, [][]string{nil, {"v"}, {"v=1"}, {"v=2"}}, none)...),
		append([]pkgSpec{absent}, entryPool("c", []string{"3"}, [][]string{nil, {"v=1"}, {"v>1", "w"}}, [][]string{nil, {"v=1"}, {"w", "v=2"}}, none)...),
		{absent, {name: "v", ver: "1"}, {name: "v", ver: "2", deps: []string{"a"}}, {name: "d", ver: "1", deps: []string{"v", "a"}}, {name: "d", ver: "1", deps: []string{"a"}}, {name: "d", ver: "1", provides: []string{"v=1"}, deps: []string{"v=1"}}},
	}
	return append(fams, f)
}

func runR06(c *C) {
	ctx := context.Background()
	for _, g := range r06families(c.Thorough()) {
		g := g
		c.Run(func(emit func(string, func(*T))) {
			g.cases(emit, func(t *T, ps []pkgSpec) {
				idx := buildIndexes([]string{""}, ps)
				var pkgs []*apk.Package
				for _, p := range idx[0].Packages() {
					if len(p.InstallIf) > 0 {
						return // what is installed besides the dependencies is judged by R01
					}
					pkgs = append(pkgs, p.Package)
				}
				for _, w := range g.worlds {
					sel, ruled := r06forced(w, pkgs)
					if sel == nil {
						continue
					}
					t.Eval(ruled)
					t.NoteAdd("forced_"+g.label, 1)
					if ruled {
						t.NoteAdd("forced_with_ruled_out_"+g.label, 1)
					}
					t.Trans(1)
					var want []string
					for p := range sel {
						want = append(want, p.Name+"-"+p.Version)
					}
					sort.Strings(want)
					got, _, err := apk.NewPkgResolver(ctx, idx).GetPackagesWithDependencies(ctx, w)
					names := nameVer(got)
					if err != nil || strings.Join(names, " ") != strings.Join(want, " ") {
						t.Fail(g.label+":"+uniString(ps)+":"+worldStr(w), "world %v over {%s}: the only possible answer is %v, got %v err=%v", w, uniString(ps), want, names, fmt.Sprint(err))
					}
				}
				t.State(uniString(ps))
				t.Trace(1)
			})
		})
	}
}
