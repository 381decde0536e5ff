package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

// ---- reference notions shared by R01..R05 ----

// splitConstraint is a hand-written parser of [!]name[op version][@pin].
func splitConstraint(s string) (neg bool, name, op, ver, pin string) {
	if strings.HasPrefix(s, "!") {
		neg = true
		s = s[1:]
	}
	if i := strings.IndexByte(s, '@'); i >= 0 {
		pin = s[i+1:]
		s = s[:i]
	}
	i := strings.IndexAny(s, "=<>~")
	if i < 0 {
		return neg, s, "", "", pin
	}
	j := i
	for j < len(s) && strings.IndexByte("=<>~", s[j]) >= 0 {
		j++
	}
	return neg, s[:i], s[i:j], s[j:], pin
}

// pkgSatisfies: does the package (name, version, provides) meet the positive constraint?
func pkgSatisfies(p *apk.Package, cons string) bool {
	_, name, op, ver, _ := splitConstraint(cons)
	if p.Name == name && verSatisfies(p.Version, op, ver) {
		return true
	}
	for _, pr := range p.Provides {
		_, pn, _, pv, _ := splitConstraint(pr)
		if pn != name {
			continue
		}
		if op == "" {
			return true
		}
		if pv != "" && verSatisfies(pv, op, ver) {
			return true
		}
	}
	return false
}

func verSatisfies(have, op, want string) bool {
	if op == "" {
		return true
	}
	h, ok := refVersion(have)
	if !ok {
		return false
	}
	w, ok := refVersion(want)
	if !ok {
		return false
	}
	return refSatisfies(op, h, w)
}

// checkSound returns a description of the first way the result breaks soundness, or "".
func checkSound(world []string, all map[*apk.Package]bool, got []*apk.RepositoryPackage, conflicts []string) string {
	sat := func(cons string) bool {
		for _, p := range got {
			if pkgSatisfies(p.Package, cons) {
				return true
			}
		}
		return false
	}
	byName := map[string]*apk.RepositoryPackage{}
	for _, p := range got {
		if !all[p.Package] {
			return fmt.Sprintf("selected %s is not in the indexes", p)
		}
		if o, ok := byName[p.Name]; ok && o.Version != p.Version {
			return fmt.Sprintf("two versions of %s selected: %s and %s", p.Name, o.Version, p.Version)
		}
		byName[p.Name] = p
	}
	for _, w := range world {
		if strings.HasPrefix(w, "!") {
			for _, p := range got {
				if pkgSatisfies(p.Package, w[1:]) {
					return fmt.Sprintf("selected %s-%s is ruled out by %s", p.Name, p.Version, w)
				}
			}
			continue
		}
		if !sat(w) {
			return fmt.Sprintf("requested %s is not satisfied", w)
		}
	}
	for _, p := range got {
		for _, d := range p.Dependencies {
			if strings.HasPrefix(d, "!") {
				for _, q := range got {
					if q != p && q.Name != p.Name && pkgSatisfies(q.Package, d[1:]) {
						rep := false
						for _, c := range conflicts {
							if c == d[1:] {
								rep = true
							}
						}
						if !rep {
							return fmt.Sprintf("%s-%s has conflict %s with selected %s-%s, not reported", p.Name, p.Version, d, q.Name, q.Version)
						}
					}
				}
				continue
			}
			if !sat(d) {
				return fmt.Sprintf("dependency %s of selected %s-%s is not satisfied", d, p.Name, p.Version)
			}
		}
	}
	for i, p := range got {
		for _, q := range got[:i] {
			if provideClash(p.Package, q.Package) {
				return fmt.Sprintf("%s-%s and %s-%s provide the same name in different versions", p.Name, p.Version, q.Name, q.Version)
			}
		}
	}
	// justification
	for _, p := range got {
		ok := false
		for _, w := range world {
			if pkgSatisfies(p.Package, w) {
				ok = true
			}
		}
		for _, q := range got {
			if q == p {
				continue
			}
			for _, d := range q.Dependencies {
				if !strings.HasPrefix(d, "!") && pkgSatisfies(p.Package, d) {
					ok = true
				}
			}
		}
		if len(p.InstallIf) > 0 {
			met := true
			for _, c := range p.InstallIf {
				if !sat(c) {
					met = false
				}
			}
			if met {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("selected %s-%s is called for by nothing", p.Name, p.Version)
		}
	}
	return ""
}

func allOf(idx []apk.NamedIndex) map[*apk.Package]bool {
	m := map[*apk.Package]bool{}
	for _, i := range idx {
		for _, p := range i.Packages() {
			m[p.Package] = true
		}
	}
	return m
}

func init() {
	register("R01", check{run: runR01, level: "model_checking",
		rule:        "every universe of up to N packages over a pool of (name, version, dependencies, provides, install_if) entries and every world of up to 2 constraints; each successful resolution is checked against an independent soundness definition; non-trivial when the resolution succeeds with at least two packages",
		assumptions: []string{"universes outside the pool behave like some universe inside it", "the resolver is allowed to fail on solvable worlds (it does not backtrack): only successful answers are judged"}})
}

// entryPool enumerates entries for one package name: versions x deps x provides x install_if.
func entryPool(name string, vers []string, deps [][]string, provs [][]string, iifs [][]string) []pkgSpec {
	var out []pkgSpec
	for _, i := range iifs {
		for _, p := range provs {
			for _, d := range deps {
				for _, v := range vers {
					self := false
					for _, x := range i {
						_, n, _, _, _ := splitConstraint(x)
						self = self || n == name
					}
					if self {
						continue
					}
					out = append(out, pkgSpec{name: name, ver: v, deps: d, provides: p, installIf: i})
				}
			}
		}
	}
	return out
}

type universeGen struct {
	label  string
	slots  [][]pkgSpec // one choice per slot (an entry with empty name means "absent")
	worlds [][]string
}

// each calls f with every universe of the family; outer is called at the granularity of the first two slots.
func (g universeGen) cases(emit func(id string, f func(t *T)), body func(t *T, ps []pkgSpec)) {
	n1 := 1
	if len(g.slots) > 1 {
		n1 = len(g.slots[1])
	}
	for i0 := range g.slots[0] {
		for i1 := 0; i1 < n1; i1++ {
			i0, i1 := i0, i1
			emit(fmt.Sprintf("%s:%d:%d", g.label, i0, i1), func(t *T) {
				var rec func(k int, ps []pkgSpec)
				rec = func(k int, ps []pkgSpec) {
					if t.stop.Load() {
						return
					}
					if k == len(g.slots) {
						t.Tick()
						body(t, ps)
						return
					}
					switch k {
					case 0:
						rec(1, addSpec(ps, g.slots[0][i0]))
					case 1:
						rec(2, addSpec(ps, g.slots[1][i1]))
					default:
						for _, s := range g.slots[k] {
							rec(k+1, addSpec(ps, s))
						}
					}
				}
				rec(0, nil)
			})
		}
	}
}

func addSpec(ps []pkgSpec, s pkgSpec) []pkgSpec {
	if s.name == "" {
		return ps
	}
	return append(ps[:len(ps):len(ps)], s)
}

func depSets(single []string, pairs [][]string) [][]string {
	out := [][]string{nil}
	for _, s := range single {
		out = append(out, []string{s})
	}
	return append(out, pairs...)
}

// resolverFamilies are the universe families used by R01 (and, reduced, by R02).
func resolverFamilies(th bool) []universeGen {
	none := [][]string{nil}
	var fams []universeGen
	absent := pkgSpec{}
	// F1: diamonds with version constraints on c: a -> ..., b -> ..., c-1, c-2 (with their own deps)
	cd := depSets([]string{"b", "c", "c=1", "c<2", "c>1", "c~1", "!c", "!b"}, [][]string{{"b", "c"}, {"c", "b"}, {"c<2", "b"}, {"b", "c>1"}, {"!c", "b"}})
	cdb := depSets([]string{"a", "c", "c=1", "c<2", "c>1", "c~1", "!c", "!a"}, [][]string{{"a", "c"}, {"c", "a"}, {"c<2", "a"}, {"a", "c>1"}})
	cdc := depSets([]string{"a", "b", "!a", "b<2"}, nil)
	f1 := universeGen{label: "ver", worlds: [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "c"}, {"c", "b"}, {"a", "c<2"}, {"c=1", "a"}, {"a", "b", "c"}, {"a<2", "b"}, {"b", "c>1"}}}
	f1.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, cd, none, none),
		entryPool("b", []string{"1"}, cdb, none, none),
		entryPool("c", []string{"1"}, cdc, none, none),
		entryPool("c", []string{"2"}, cdc, none, none),
	}
	if th {
		f1.slots = append(f1.slots, append([]pkgSpec{absent}, entryPool("a", []string{"2"}, depSets([]string{"b", "c<2", "c>1"}, nil), none, none)...))
		f1.slots = append(f1.slots, append([]pkgSpec{absent}, entryPool("b", []string{"2"}, depSets([]string{"c", "c<2"}, nil), none, none)...))
	} else {
		f1.slots = append(f1.slots, []pkgSpec{absent, {name: "a", ver: "2"}, {name: "a", ver: "2", deps: []string{"c>1"}}})
	}
	fams = append(fams, f1)
	// F2: provides/virtuals
	pv := [][]string{nil, {"v"}, {"v=1"}, {"v=2"}, {"v=1", "w=3"}, {"b=9"}}
	f2 := universeGen{label: "prov", worlds: [][]string{{"a"}, {"v"}, {"a", "v"}, {"v=1", "a"}, {"a", "b"}, {"b", "v>1"}, {"v", "w"}, {"v<2", "c"}, {"c", "a"}}}
	f2.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, depSets([]string{"v", "v=1", "v>1", "b", "b>5", "w", "!v", "!v<2"}, [][]string{{"v", "w"}, {"b", "v=1"}, {"!v=1", "v"}}), none, none),
		append([]pkgSpec{absent}, entryPool("b", []string{"1", "2"}, depSets([]string{"v", "!v", "c"}, nil), [][]string{nil, {"v"}, {"v=1"}, {"v=2"}, {"v=1", "w=3"}}, none)...),
		append([]pkgSpec{absent}, entryPool("c", []string{"1"}, depSets([]string{"v=2", "b"}, nil), pv, none)...),
		{absent, {name: "d", ver: "1", provides: []string{"v=3"}}, {name: "d", ver: "7", provides: []string{"v"}}, {name: "v", ver: "2"}, {name: "v", ver: "1", deps: []string{"c"}}},
	}
	if th {
		f2.slots = append(f2.slots, append([]pkgSpec{absent}, entryPool("c", []string{"2"}, depSets([]string{"a"}, nil), pv, none)...))
	}
	fams = append(fams, f2)
	// F3: install_if
	f3 := universeGen{label: "iif", worlds: [][]string{{"a"}, {"a", "b"}, {"b"}, {"b", "a"}, {"c", "a"}}}
	iif := [][]string{{"b"}, {"b=1"}, {"b=2"}, {"b", "c"}, {"c", "b=1"}, {"a"}, {"a", "b"}, {"x"}, {"b=1", "x"}}
	f3.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, depSets([]string{"b", "c"}, [][]string{{"b", "c"}, {"c", "b"}}), none, none),
		entryPool("b", []string{"1", "2"}, depSets([]string{"c", "a"}, nil), none, none),
		entryPool("c", []string{"1"}, depSets([]string{"b"}, nil), [][]string{nil, {"v=1"}}, append([][]string{nil}, iif[:3]...)),
		entryPool("x", []string{"1"}, depSets([]string{"c"}, nil), none, iif[:7]),
		append([]pkgSpec{absent}, entryPool("y", []string{"1"}, none, none, iif[7:])...),
	}
	fams = append(fams, f3)
	// F4: deeper graphs over four names
	f4 := universeGen{label: "deep", worlds: [][]string{{"a"}, {"a", "d"}, {"d", "a"}, {"b", "c"}, {"c", "b"}, {"c", "a"}, {"a", "d=1"}, {"d<2", "b"}}}
	f4.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, depSets([]string{"b", "d<2"}, [][]string{{"b", "c"}, {"c", "b"}, {"d", "b"}, {"b", "d>1"}, {"c", "d=1"}}), none, none),
		entryPool("b", []string{"1"}, depSets([]string{"d", "d<2", "d=2", "c", "a", "!c"}, [][]string{{"c", "d"}, {"d<2", "c"}}), none, none),
		entryPool("c", []string{"1"}, depSets([]string{"d", "d>1", "d=1", "d~1", "b"}, nil), none, none),
		entryPool("d", []string{"1"}, depSets([]string{"b", "a", "c"}, nil), none, none),
		entryPool("d", []string{"2"}, depSets([]string{"b", "a", "c", "!b"}, nil), none, none),
	}
	if th {
		f4.slots = append(f4.slots, append([]pkgSpec{absent}, entryPool("c", []string{"2"}, depSets([]string{"d>1", "d<2", "a"}, nil), none, none)...))
	}
	fams = append(fams, f4)
	// F5: versions of providers, origins, install_if and provides mixed
	f5 := universeGen{label: "mix", worlds: [][]string{{"a"}, {"a", "p"}, {"p", "a"}, {"v", "a"}, {"q", "a"}, {"a", "q"}, {"v<2", "b"}, {"b", "v=2"}, {"p<2", "b", "a"}}}
	f5.slots = [][]pkgSpec{
		entryPool("a", []string{"1"}, depSets([]string{"v", "v=1", "v>1", "p", "p<2"}, [][]string{{"v", "b"}, {"b", "v<2"}, {"v", "q"}}), none, none),
		entryPool("b", []string{"1"}, depSets([]string{"v", "v=2", "p=1", "!q", "q"}, nil), none, none),
		{{name: "p", ver: "1", provides: []string{"v=1"}}, {name: "p", ver: "1", provides: []string{"v"}}, {name: "p", ver: "1", provides: []string{"v=1"}, deps: []string{"q"}}},
		{absent, {name: "p", ver: "2", provides: []string{"v=2"}}, {name: "p", ver: "2", provides: []string{"v=1"}}, {name: "p", ver: "2"}, {name: "p", ver: "2", provides: []string{"v=2"}, deps: []string{"b"}}},
		{absent, {name: "q", ver: "1", provides: []string{"v=2"}, origin: "o"}, {name: "q", ver: "1", provides: []string{"v=1"}, prio: 5}, {name: "q", ver: "3", provides: []string{"v"}, deps: []string{"!p"}}, {name: "q", ver: "1", provides: []string{"v=1"}, installIf: []string{"b"}}},
		{absent, {name: "x", ver: "1", installIf: []string{"p=2"}, deps: []string{"q"}}, {name: "x", ver: "1", installIf: []string{"b", "p"}, provides: []string{"w"}}},
	}
	fams = append(fams, f5)
	return fams
}

func worldStr(w []string) string { return "[" + strings.Join(w, " ") + "]" }

func runR01(c *C) {
	ctx := context.Background()
	for _, g := range resolverFamilies(c.Thorough()) {
		g := g
		c.Run(func(emit func(string, func(*T))) {
			g.cases(emit, func(t *T, ps []pkgSpec) {
				idx := buildIndexes([]string{""}, ps)
				all := allOf(idx)
				for _, w := range g.worlds {
					got, conf, err := apk.NewPkgResolver(ctx, idx).GetPackagesWithDependencies(ctx, w)
					t.Eval(err == nil && len(got) > 1)
					t.Trans(1)
					if err != nil {
						continue
					}
					if why := checkSound(w, all, got, conf); why != "" {
						t.Fail(g.label+":"+uniString(ps)+":"+worldStr(w), "world %v over {%s} resolved to %v (conflicts %v): %s", w, uniString(ps), orderedNames(got), conf, why)
						t.NoteAdd("unsound_"+g.label, 1)
					}
				}
				t.Trace(1)
			})
		})
	}
}

func orderedNames(ps []*apk.RepositoryPackage) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.Name+"-"+p.Version)
	}
	return out
}

// provideClash: both say they provide a name, in different versions.
func provideClash(p, q *apk.Package) bool {
	for _, a := range p.Provides {
		_, an, _, av, _ := splitConstraint(a)
		for _, b := range q.Provides {
			if _, bn, _, bv, _ := splitConstraint(b); an == bn && av != bv {
				return true
			}
		}
	}
	return false
}
