package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("R04", check{run: runR04, level: "model_checking",
		rule:        "every subset (size up to 3, thorough 4) and every listing order of a pool of candidates varying repository tag, provider priority, version, provided version, name and origin, and every pair over the full product of tag, priority, version, name and provided version, requested with and without a tag, as a world constraint and as a dependency; the candidate list and the chosen package are compared with a reference ranking; non-trivial when at least two candidates are allowed",
		assumptions: []string{"rankings compare two candidates at a time, so subsets of 3 expose non-transitivity"}})
	register("R05", check{run: runR05, level: "model_checking",
		rule:        "every placement of 2 versions of 2 packages over an untagged and two tagged repositories, with and without a dependency between them, and every world of a tag alphabet; non-trivial when a tagged repository holds something relevant",
		assumptions: []string{"three repositories with two tags expose every tag rule"}})
}

var r04tags = []string{"", "edge", "edgeX2"}

// askedVersion is the version of what was asked for.
func askedVersion(p pkgSpec, name string) string {
	if p.name == name {
		return p.ver
	}
	for _, pr := range p.provides {
		_, n, _, v, _ := splitConstraint(pr)
		if n == name {
			if v == "" {
				return p.ver
			}
			return v
		}
	}
	return ""
}

// refRank compares two candidates: negative when a is preferred.
func refRank(a, b pkgSpec, name, pin string, origins map[string]bool) int {
	if x, y := a.origin != "" && origins[a.origin], b.origin != "" && origins[b.origin]; x != y {
		if x {
			return -1
		}
		return 1
	}
	if x, y := r04tags[a.repo] == pin, r04tags[b.repo] == pin; x != y {
		if x {
			return -1
		}
		return 1
	}
	if a.prio != b.prio {
		if a.prio > b.prio {
			return -1
		}
		return 1
	}
	va, _ := refVersion(askedVersion(a, name))
	vb, _ := refVersion(askedVersion(b, name))
	if c := refCompare(va, vb); c != 0 {
		return -c
	}
	va, _ = refVersion(a.ver)
	vb, _ = refVersion(b.ver)
	if c := refCompare(va, vb); c != 0 {
		return -c
	}
	return strings.Compare(a.name, b.name)
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func runR04(c *C) {
	ctx := context.Background()
	var pool []pkgSpec
	for _, repo := range []int{0, 1} {
		for _, prio := range []uint64{0, 5, 10} {
			pool = append(pool,
				pkgSpec{name: "x", ver: "1", repo: repo, prio: prio},
				pkgSpec{name: "x", ver: "1.10", repo: repo, prio: prio},
				pkgSpec{name: "p", ver: "3", provides: []string{"x=1.10"}, repo: repo, prio: prio},
				pkgSpec{name: "q", ver: "4", provides: []string{"x=1.9"}, repo: repo, prio: prio},
				pkgSpec{name: "w", ver: "1.10", provides: []string{"other=9", "x"}, repo: repo, prio: prio},
			)
		}
	}
	pool = append(pool, pkgSpec{name: "p", ver: "4", provides: []string{"x=1.10"}}, pkgSpec{name: "o", ver: "3", provides: []string{"x=1.10"}},
		pkgSpec{name: "x", ver: "0.9", origin: "org"}, pkgSpec{name: "x", ver: "9", origin: "other"}, pkgSpec{name: "r", ver: "1", provides: []string{"x=0.1"}, origin: "org", prio: 1})
	max := c.Pick(3, 4)
	var subsets [][]int
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		if len(cur) > 0 {
			subsets = append(subsets, append([]int{}, cur...))
		}
		if len(cur) == max {
			return
		}
		for i := start; i < len(pool); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	// every pair of the full product
	first := len(pool)
	for _, repo := range []int{0, 1} {
		for _, prio := range []uint64{0, 9, 10} {
			for _, ver := range []string{"1.9", "1.10", "2_rc1"} {
				pool = append(pool, pkgSpec{name: "x", ver: ver, repo: repo, prio: prio})
				for _, name := range []string{"a", "z"} {
					for _, pr := range []string{"x", "x=1.9", "x=1.10"} {
						pool = append(pool, pkgSpec{name: name, ver: ver, provides: []string{pr}, repo: repo, prio: prio})
					}
				}
			}
		}
	}
	for i := first; i < len(pool); i++ {
		for j := i + 1; j < len(pool); j++ {
			if pool[i].name == pool[j].name && pool[i].ver == pool[j].ver && pool[i].repo == pool[j].repo && len(pool[i].provides) == len(pool[j].provides) {
				continue // the same package twice
			}
			subsets = append(subsets, []int{i, j})
		}
	}
	sort.SliceStable(subsets, func(i, j int) bool { return len(subsets[i]) < len(subsets[j]) })
	c.Note("subsets", len(subsets))
	c.Sample(uniString([]pkgSpec{pool[1], pool[12], pool[3]}) + " requested as x, x@edge, and as dependency")
	c.Run(func(emit func(string, func(*T))) {
		const chunk = 64
		for lo := 0; lo < len(subsets); lo += chunk {
			lo := lo
			emit(fmt.Sprintf("chunk:%d", lo), func(t *T) {
				for si := lo; si < lo+chunk && si < len(subsets); si++ {
					sub := subsets[si]
					for _, pm := range perms(len(sub)) {
						var ps []pkgSpec
						for _, i := range pm {
							ps = append(ps, pool[sub[i]])
						}
						r04one(t, ctx, ps)
					}
				}
				t.Trace(1)
			})
		}
	})
}

func specOf(ps []pkgSpec, p *apk.RepositoryPackage) (pkgSpec, bool) {
	for _, s := range ps {
		if s.name == p.Name && s.ver == p.Version && s.prio == p.ProviderPriority && s.origin == p.Origin && strings.Join(s.provides, ",") == strings.Join(p.Provides, ",") &&
			strings.Contains(p.Repository().URI, fmt.Sprintf("repo%d.", s.repo)) {
			return s, true
		}
	}
	return pkgSpec{}, false
}

func r04one(t *T, ctx context.Context, ps []pkgSpec) {
	idx := buildIndexes(r04tags[:2], ps)
	for _, pin := range []string{"", "edge"} {
		q := "x"
		if pin != "" {
			q += "@" + pin
		}
		var allowed []pkgSpec
		for _, p := range ps {
			if r04tags[p.repo] == "" || r04tags[p.repo] == pin {
				allowed = append(allowed, p)
			}
		}
		got, err := apk.NewPkgResolver(ctx, idx).ResolvePackage(q, map[*apk.RepositoryPackage]string{})
		t.Eval(len(allowed) > 1)
		t.Trans(1)
		key := q + ":" + uniString(ps)
		if (err != nil) != (len(allowed) == 0) || len(got) != len(allowed) {
			t.Fail(key, "request %s over {%s}: got %v err=%v, expected %d candidates", q, uniString(ps), orderedNames(got), err, len(allowed))
			return
		}
		for i := 1; i < len(got); i++ {
			a, ok1 := specOf(ps, got[i-1])
			b, ok2 := specOf(ps, got[i])
			if !ok1 || !ok2 {
				t.Fail(key, "request %s over {%s}: candidate not from the index", q, uniString(ps))
				return
			}
			if refRank(a, b, "x", pin, nil) > 0 {
				t.Fail(key, "request %s over {%s}: {%s} listed before the preferred {%s}", q, uniString(ps), a, b)
				return
			}
		}
		if len(allowed) == 0 {
			continue
		}
		best := func(origins map[string]bool, pin string) pkgSpec {
			b := allowed[0]
			for _, p := range allowed[1:] {
				if refRank(p, b, "x", pin, origins) < 0 {
					b = p
				}
			}
			return b
		}
		// chosen for a world constraint
		sel, _, err := apk.NewPkgResolver(ctx, idx).GetPackagesWithDependencies(ctx, []string{q})
		if err != nil || len(sel) != 1 {
			t.Fail("sel:"+key, "world [%s] over {%s}: %v err=%v", q, uniString(ps), orderedNames(sel), err)
			return
		}
		if s, _ := specOf(ps, sel[0]); refRank(s, best(nil, pin), "x", pin, nil) != 0 {
			t.Fail("sel:"+key, "world [%s] over {%s}: selected {%s}, the preferred candidate is {%s}", q, uniString(ps), s, best(nil, pin))
			return
		}
		// chosen for a dependency when a package is already selected: one of the candidates, or another version of one
		for i := 0; pin == "" && i <= len(ps); i++ {
			ps2 := append([]pkgSpec{{name: "top", ver: "1", deps: []string{"x"}}}, ps...)
			idx2 := buildIndexes(r04tags[:2], ps2)
			res := apk.NewPkgResolver(ctx, idx2)
			ex := map[string]*apk.RepositoryPackage{}
			origins := map[string]bool{}
			cand := func(p pkgSpec) bool { return p.repo == 0 }
			desc := "another version of all candidates"
			if i == len(ps) {
				for _, p := range ps {
					old := buildIndexes([]string{""}, []pkgSpec{{name: p.name, ver: "77"}})[0].Packages()[0]
					ex[p.name] = old
				}
			} else {
				s := ps[i]
				desc = s.String()
				for _, ix := range idx2 {
					for _, p := range ix.Packages() {
						if got, ok := specOf(ps, p); ok && got.String() == s.String() && got.repo == s.repo {
							ex[s.name] = p
						}
					}
				}
				origins[s.origin] = s.origin != ""
				if s.repo == 0 || s.name == "x" {
					cand = func(p pkgSpec) bool {
						return p.name == s.name && p.ver == s.ver && (p.repo == 0 || p.name == "x" && p.repo == s.repo)
					}
				} else {
					// of a tagged repository and not under the name asked for: not allowed, but others of its name and version count
					same := false
					for _, p := range ps {
						same = same || p.repo == 0 && p.name == s.name && p.ver == s.ver
					}
					if same {
						cand = func(p pkgSpec) bool { return p.repo == 0 && p.name == s.name && p.ver == s.ver }
					}
				}
			}
			var want *pkgSpec
			for k := range ps {
				if cand(ps[k]) && (want == nil || refRank(ps[k], *want, "x", "", origins) < 0) {
					want = &ps[k]
				}
			}
			top, deps, _, err := res.GetPackageWithDependencies("top", ex, map[*apk.RepositoryPackage]string{})
			t.Trans(1)
			if want == nil {
				if err == nil {
					t.Fail("have:"+key, "top needs x over {%s} with %s selected: got %v, nothing is allowed", uniString(ps2), desc, orderedNames(deps))
					return
				}
				continue
			}
			if err != nil || top == nil || len(deps) != 1 {
				t.Fail("have:"+key, "top needs x over {%s} with %s selected: %v err=%v", uniString(ps2), desc, orderedNames(deps), err)
				return
			}
			if s, ok := specOf(ps, deps[0]); !ok || refRank(s, *want, "x", "", origins) != 0 {
				t.Fail("have:"+key, "top needs x over {%s} with %s already selected: got {%s}, the preferred candidate is {%s}", uniString(ps2), desc, s, *want)
				return
			}
		}
		// chosen for a dependency, without and with an origin already selected
		for _, org := range []string{"", "org"} {
			ps2 := append([]pkgSpec{{name: "top", ver: "1", deps: []string{"x"}, origin: org}}, ps...)
			w := "top"
			if pin != "" {
				w += "@" + pin
				ps2[0].repo = 1
			}
			idx2 := buildIndexes(r04tags[:2], ps2)
			sel, _, err := apk.NewPkgResolver(ctx, idx2).GetPackagesWithDependencies(ctx, []string{w})
			if err != nil || len(sel) != 2 {
				t.Fail("dep:"+w+org+":"+key, "world [%s] over {%s}: %v err=%v", w, uniString(ps2), orderedNames(sel), err)
				return
			}
			want := best(map[string]bool{org: org != ""}, "")
			s, _ := specOf(ps, sel[0])
			if refRank(s, want, "x", "", map[string]bool{org: org != ""}) != 0 {
				t.Fail("dep:"+w+org+":"+key, "world [%s] over {%s}: dependency x resolved to {%s}, the preferred candidate is {%s}", w, uniString(ps2), s, want)
				return
			}
		}
	}
}

func runR05(c *C) {
	ctx := context.Background()
	// placement masks over {untagged, edge, edgeX2}
	type ent struct{ name, ver string }
	ents := []ent{{"x", "1"}, {"x", "2"}, {"y", "1"}, {"y", "2"}}
	depOpts := [][]string{nil, {"y"}, {"y=2"}, {"y>1"}}
	worlds := [][]string{{"x"}, {"x@edge"}, {"x@edgeX2"}, {"x", "y@edge"}, {"x@edge", "y"}, {"x@edge", "y@edgeX2"}, {"y@edgeX2", "x"}, {"x=1@edge"}, {"x=2@edge"}, {"x<2@edgeX2", "y"}, {"top"}, {"top@edge"}, {"top", "x@edge"}, {"y", "x@edge"}}
	iifWorlds := [][]string{{"x"}, {"x@edge"}, {"x@edgeX2"}, {"top"}, {"top@edge"}, {"x", "z@edge"}}
	c.Sample("x-1 in untagged, x-2 in edge (deps y), y-1 untagged, y-2 edgeX2; world [x@edge y]")
	c.Run(func(emit func(string, func(*T))) {
		for m0 := 0; m0 < 8; m0++ {
			for m1 := 0; m1 < 8; m1++ {
				m0, m1 := m0, m1
				emit(fmt.Sprintf("place:%d:%d", m0, m1), func(t *T) {
					for m2 := 0; m2 < 8; m2++ {
						for m3 := 0; m3 < 8; m3++ {
							ms := []int{m0, m1, m2, m3}
							for _, dep := range depOpts {
								var ps []pkgSpec
								for i, e := range ents {
									for r := 0; r < 3; r++ {
										if ms[i]&(1<<r) != 0 {
											s := pkgSpec{name: e.name, ver: e.ver, repo: r}
											if e.name == "x" {
												s.deps = dep
											}
											ps = append(ps, s)
										}
									}
								}
								ps = append(ps, pkgSpec{name: "top", ver: "1", repo: 0, deps: []string{"x"}}, pkgSpec{name: "top", ver: "1", repo: 1, deps: []string{"x", "y"}})
								for _, w := range worlds {
									r05one(t, ctx, ps, w)
								}
								if (m1+m2)%3 != 0 && !c.Thorough() {
									continue
								}
								for mz := 1; mz < 8; mz++ {
									ps2 := ps[:len(ps):len(ps)]
									for r := 0; r < 3; r++ {
										if mz&(1<<r) != 0 {
											ps2 = append(ps2, pkgSpec{name: "z", ver: fmt.Sprint(r + 1), repo: r, installIf: []string{"y"}})
										}
									}
									for _, w := range iifWorlds {
										r05one(t, ctx, ps2, w)
									}
								}
							}
						}
					}
					t.Trace(1)
				})
			}
		}
	})
}

func repoOf(p *apk.RepositoryPackage) int {
	for i := range r04tags {
		if strings.Contains(p.Repository().URI, fmt.Sprintf("repo%d.", i)) {
			return i
		}
	}
	return -1
}

func r05one(t *T, ctx context.Context, ps []pkgSpec, w []string) {
	idx := buildIndexes(r04tags, ps)
	got, _, err := apk.NewPkgResolver(ctx, idx).GetPackagesWithDependencies(ctx, w)
	t.Trans(1)
	t.Eval(len(ps) > 3)
	key := worldStr(w) + ":" + uniString(ps)
	// names reachable from each tagged request
	allowed := map[string]map[string]bool{"": {}, "edge": {}, "edgeX2": {}}
	pinned := map[string]string{}
	asked := map[string]bool{}
	for _, q := range w {
		_, n, _, _, pin := splitConstraint(q)
		asked[n] = true
		if pin == "" {
			continue
		}
		pinned[n] = pin
		todo := []string{n}
		for len(todo) > 0 {
			n := todo[0]
			todo = todo[1:]
			if allowed[pin][n] {
				continue
			}
			allowed[pin][n] = true
			for _, p := range ps {
				if p.name == n {
					for _, d := range p.deps {
						_, dn, _, _, _ := splitConstraint(d)
						todo = append(todo, dn)
					}
				}
			}
		}
	}
	// what a package brings in through install_if comes from where its conditions come from
	for _, names := range allowed {
		for _, p := range ps {
			met := len(p.installIf) > 0
			for _, cond := range p.installIf {
				met = met && names[cond]
			}
			if met {
				names[p.name] = true
			}
		}
	}
	if err != nil {
		// a request that is satisfiable from the allowed repositories on its own must resolve
		if len(w) == 1 {
			_, n, op, v, pin := splitConstraint(w[0])
			if n == "x" || n == "top" {
				// search: some allowed x (and y for its dep) exists
				can := func(name, op, v string) bool {
					for _, p := range ps {
						if p.name == name && verSatisfies(p.ver, op, v) && (p.repo == 0 || r04tags[p.repo] == pin) {
							okd := true
							for _, d := range p.deps {
								_, dn, dop, dv, _ := splitConstraint(d)
								found := false
								for _, q := range ps {
									if q.name == dn && verSatisfies(q.ver, dop, dv) && (q.repo == 0 || r04tags[q.repo] == pin) && len(q.deps) == 0 {
										found = true
									}
								}
								okd = okd && found
							}
							if okd {
								return true
							}
						}
					}
					return false
				}
				if n == "x" && can(n, op, v) {
					t.Fail("err:"+key, "world %v over {%s} is satisfiable within its tags but failed: %v", w, uniString(ps), err)
				}
			}
		}
		return
	}
	for _, p := range got {
		r := repoOf(p)
		if r < 0 {
			t.Fail(key, "world %v over {%s}: %s is from no repository", w, uniString(ps), p.Name)
			return
		}
		tag := r04tags[r]
		if tag != "" && !allowed[tag][p.Name] {
			t.Fail("tag:"+key, "world %v over {%s}: selected %s-%s from @%s although nothing asked for that tag", w, uniString(ps), p.Name, p.Version, tag)
			return
		}
		// preference for the requested tag
		if pin := pinned[p.Name]; pin != "" {
			var q string
			for _, x := range w {
				if _, n, _, _, _ := splitConstraint(x); n == p.Name {
					q = x
				}
			}
			_, _, op, v, _ := splitConstraint(q)
			has := false
			for _, s := range ps {
				if s.name == p.Name && r04tags[s.repo] == pin && verSatisfies(s.ver, op, v) {
					has = true
				}
			}
			if has && tag != pin && !othersConstrain(got, p.Name) {
				t.Fail("pref:"+key, "world %v over {%s}: %s requested from @%s, which has it, but %s-%s of repository %q was selected", w, uniString(ps), p.Name, pin, p.Name, p.Version, tag)
				return
			}
		} else if tag != "" && !asked[p.Name] {
			// a dependency: untagged preferred when one satisfies every constraint on it
			has := false
			for _, s := range ps {
				if s.name != p.Name || s.repo != 0 {
					continue
				}
				ok := true
				for _, g := range got {
					for _, d := range g.Dependencies {
						if _, n, op, v, _ := splitConstraint(d); n == s.name && !verSatisfies(s.ver, op, v) {
							ok = false
						}
					}
				}
				if ok {
					has = true
				}
			}
			if has {
				t.Fail("untag:"+key, "world %v over {%s}: dependency %s taken from @%s although an untagged repository satisfies it", w, uniString(ps), p.Name, tag)
				return
			}
		}
	}
}

// othersConstrain: some selected package depends on name (its choice may come first).
func othersConstrain(got []*apk.RepositoryPackage, name string) bool {
	for _, g := range got {
		for _, d := range g.Dependencies {
			if _, n, _, _, _ := splitConstraint(d); n == name {
				return true
			}
		}
	}
	return false
}
