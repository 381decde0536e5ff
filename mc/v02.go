package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

// ---- helpers to build universes ----

type pkgSpec struct {
	name, ver string
	deps      []string
	provides  []string
	installIf []string
	origin    string
	prio      uint64
	repo      int // index of the repository
}

func (p pkgSpec) String() string {
	s := p.name + "-" + p.ver
	if len(p.deps) > 0 {
		s += " D:" + strings.Join(p.deps, ",")
	}
	if len(p.provides) > 0 {
		s += " p:" + strings.Join(p.provides, ",")
	}
	if len(p.installIf) > 0 {
		s += " i:" + strings.Join(p.installIf, ",")
	}
	if p.origin != "" {
		s += " o:" + p.origin
	}
	if p.prio != 0 {
		s += fmt.Sprintf(" k:%d", p.prio)
	}
	if p.repo != 0 {
		s += fmt.Sprintf(" @%d", p.repo)
	}
	return s
}

func uniString(ps []pkgSpec) string {
	var l []string
	for _, p := range ps {
		l = append(l, p.String())
	}
	return strings.Join(l, "; ")
}

// buildIndexes makes one named index per entry of names ("" = untagged) from the specs.
func buildIndexes(names []string, ps []pkgSpec) []apk.NamedIndex {
	byRepo := make([][]*apk.Package, len(names))
	for _, s := range ps {
		byRepo[s.repo] = append(byRepo[s.repo], &apk.Package{Name: s.name, Version: s.ver, Arch: "x86_64",
			Dependencies: s.deps, Provides: s.provides, InstallIf: s.installIf, Origin: s.origin, ProviderPriority: s.prio})
	}
	var out []apk.NamedIndex
	for i, n := range names {
		r := apk.Repository{URI: fmt.Sprintf("https://repo%d.example/x86_64", i)}
		out = append(out, apk.NewNamedRepositoryWithIndex(n, r.WithIndex(&apk.APKIndex{Packages: byRepo[i]})))
	}
	return out
}

// ---- V02 ----

var ops = []string{"", "=", "<", "<=", ">", ">=", "~"}

// refSatisfies is the reference meaning of "have op want".
func refSatisfies(op string, have, want rver) bool {
	c := refCompare(have, want)
	switch op {
	case "":
		return true
	case "=":
		return c == 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	case "~":
		// want's components are a prefix of have's
		if len(have.nums) < len(want.nums) {
			return false
		}
		for i := range want.nums {
			if have.nums[i].Cmp(want.nums[i]) != 0 {
				return false
			}
		}
		if len(have.nums) > len(want.nums) {
			return true
		}
		if want.letter != 0 && have.letter != want.letter {
			return false
		}
		if want.pre != 5 && have.pre != want.pre {
			return false
		}
		if want.preN.Sign() != 0 && have.preN.Cmp(want.preN) != 0 {
			return false
		}
		if want.post != 0 && have.post != want.post {
			return false
		}
		if want.postN.Sign() != 0 && have.postN.Cmp(want.postN) != 0 {
			return false
		}
		if want.rev.Sign() != 0 && have.rev.Cmp(want.rev) != 0 {
			return false
		}
		return true
	}
	return false
}

func init() {
	register("V02", check{run: runV02, level: "model_checking",
		rule:        "every (operator, required version) against an index holding every version of the alphabet, for real packages and for packages providing the name in that version, with every single candidate excluded in turn; candidate sets compared with the reference order; non-trivial when the expected set is neither empty nor everything",
		assumptions: []string{"versions within the component alphabet of V01 (reduced)"}})
}

func v02Alphabet(th bool) []string {
	nums := []string{"1", "1.0", "1.1", "1.10", "1.1.1", "10"}
	letters := []string{"", "a", "b"}
	sfx := []string{"", "_alpha", "_alpha1", "_beta2", "_rc1", "_p", "_p1", "_git2", "_rc1_p1", "_alpha1_git2"}
	revs := []string{"", "-r0", "-r2", "-r10"}
	if th {
		sfx = append(sfx, "_pre", "_pre1", "_rc", "_rc2", "_beta", "_cvs", "_cvs1", "_svn", "_hg1", "_p10", "_pre1_hg1")
		nums = append(nums, "0", "2", "1.2", "1.0.0", "1.2.1", "20230101")
	}
	var out []string
	for _, n := range nums {
		for _, l := range letters {
			for _, s := range sfx {
				for _, r := range revs {
					if !th && l == "a" && (n != "1.1" || s != "" && s != "_rc1" && s != "_p1") {
						continue
					}
					out = append(out, n+l+s+r)
				}
			}
		}
	}
	return out
}

func nameVer(ps []*apk.RepositoryPackage) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.Name+"-"+p.Version)
	}
	sort.Strings(out)
	return out
}

func runV02(c *C) {
	vs := v02Alphabet(c.Thorough())
	rv := map[string]rver{}
	for _, v := range vs {
		r, ok := refVersion(v)
		if !ok {
			panic("harness: bad version " + v)
		}
		rv[v] = r
	}
	c.Note("versions", len(vs))
	ctx := context.Background()
	diff := func(t *T, key string, got []string, want map[string]bool) {
		seen := map[string]bool{}
		for _, g := range got {
			if seen[g] {
				t.Fail(key, "%s: candidate %s listed twice", key, g)
				return
			}
			seen[g] = true
			if !want[g] {
				t.Fail(key, "%s: candidate %s does not satisfy the request", key, g)
				return
			}
		}
		for w := range want {
			if !seen[w] {
				t.Fail(key, "%s: %s satisfies the request but is not a candidate", key, w)
				return
			}
		}
	}
	c.Run(func(emit func(string, func(*T))) {
		for _, op := range ops {
			for _, req := range vs {
				op, req := op, req
				if op == "" && req != vs[0] {
					continue
				}
				emit("real:"+op+req, func(t *T) {
					// all versions of package x; package y (other name) must never appear
					var ps []pkgSpec
					for _, v := range vs {
						ps = append(ps, pkgSpec{name: "x", ver: v})
					}
					ps = append(ps, pkgSpec{name: "xy", ver: req}, pkgSpec{name: "y", ver: req})
					idx := buildIndexes([]string{""}, ps)
					q := "x"
					if op != "" {
						q = "x" + op + req
					}
					r := apk.NewPkgResolver(ctx, idx)
					got, err := r.ResolvePackage(q, map[*apk.RepositoryPackage]string{})
					want := map[string]bool{}
					for _, v := range vs {
						if refSatisfies(op, rv[v], rv[req]) {
							want["x-"+v] = true
						}
					}
					t.Eval(len(want) > 0 && len(want) < len(vs))
					t.Trans(len(vs))
					t.Trace(1)
					t.State(q + strings.Join(nameVer(got), ","))
					if (err != nil) != (len(want) == 0) {
						t.Fail("real:"+q, "request %s: error=%v but %d versions satisfy it", q, err, len(want))
					}
					diff(t, "real:"+q, nameVer(got), want)
					// descending preference: a candidate never precedes one of higher version
					for i := 1; i < len(got); i++ {
						if refCompare(rv[got[i-1].Version], rv[got[i].Version]) < 0 {
							t.Fail("order:"+q, "request %s: %s listed before higher %s", q, got[i-1].Version, got[i].Version)
							break
						}
					}
					// exclude each of the first, middle and last expected candidates
					if len(got) > 0 {
						for _, k := range []int{0, len(got) / 2, len(got) - 1} {
							dq := map[*apk.RepositoryPackage]string{got[k]: "excluded by the test"}
							g2, err := r.ResolvePackage(q, dq)
							if len(got) == 1 {
								if err == nil {
									t.Fail("dq:"+q, "request %s: only candidate excluded but no error (got %v)", q, nameVer(g2))
								}
								continue
							}
							w2 := map[string]bool{}
							for w := range want {
								w2[w] = w != "x-"+got[k].Version
							}
							delete(w2, "x-"+got[k].Version)
							diff(t, "dq:"+q, nameVer(g2), w2)
						}
					}
				})
				// through a full resolution: provider of name=version, and world constraint on a real package
				emit("world:"+op+req, func(t *T) {
					q := "x"
					if op != "" {
						q = "x" + op + req
					}
					// sample candidate versions: every version, one at a time, as the only candidate
					for _, v := range vs {
						want := refSatisfies(op, rv[v], rv[req])
						for kind := 0; kind < 2; kind++ {
							var ps []pkgSpec
							if kind == 0 {
								ps = []pkgSpec{{name: "x", ver: v}}
							} else {
								ps = []pkgSpec{{name: "prov", ver: "5", provides: []string{"x=" + v}}}
							}
							r := apk.NewPkgResolver(ctx, buildIndexes([]string{""}, ps))
							got, _, err := r.GetPackagesWithDependencies(ctx, []string{q})
							t.Eval(want)
							if want != (err == nil) || (want && len(got) != 1) {
								t.Fail(fmt.Sprintf("world:%d:%s:%s", kind, q, v), "request %s with only candidate %s (kind %d): expected selectable=%v, got %v err=%v", q, uniString(ps), kind, want, nameVer(got), err)
								return
							}
						}
					}
					t.Trans(2 * len(vs))
					t.Trace(1)
				})
			}
		}
		// dependency and exclusion constraints (reduced alphabet)
		small := []string{"1", "1.0", "1.2", "1.10", "2", "1.2-r1", "1.2-r0", "1.2_rc1", "1.2_p1", "1.2a"}
		for _, op := range ops {
			for _, req := range small {
				op, req := op, req
				emit("dep:"+op+req, func(t *T) {
					rq, _ := refVersion(req)
					q := "x"
					if op != "" {
						q = "x" + op + req
					}
					for _, v := range small {
						hv, _ := refVersion(v)
						want := refSatisfies(op, hv, rq)
						for kind := 0; kind < 4; kind++ {
							// kinds 0/1: top needs q, the only candidate is real/providing;
							// kinds 2/3: top needs x but rules out !q
							var ps []pkgSpec
							world := []string{"top"}
							top := pkgSpec{name: "top", ver: "1", deps: []string{q}}
							cand := pkgSpec{name: "x", ver: v}
							if kind%2 == 1 {
								cand = pkgSpec{name: "prov", ver: req, provides: []string{"other=" + req, "x=" + v, "third=" + req}}
							}
							exp := want
							if kind >= 2 {
								top.deps = []string{"!" + q, "x"}
								exp = !want
							}
							ps = append(ps, top, cand)
							r := apk.NewPkgResolver(ctx, buildIndexes([]string{""}, ps))
							got, _, err := r.GetPackagesWithDependencies(ctx, world)
							t.Eval(exp)
							t.Trans(1)
							if exp != (err == nil) || (exp && len(got) != 2) {
								t.Fail(fmt.Sprintf("dep:%d:%s:%s", kind, q, v), "universe {%s}: expected solvable=%v, got %v err=%v", uniString(ps), exp, nameVer(got), err)
							}
							if kind == 1 {
								rp, rerr := apk.NewPkgResolver(ctx, buildIndexes([]string{""}, ps)).ResolvePackage(q, nil)
								if want != (rerr == nil) || (want && (len(rp) != 1 || rp[0].Name != "prov")) {
									t.Fail(fmt.Sprintf("cand:%s:%s", q, v), "universe {%s}, request %s: expected candidate=%v, got %v err=%v", uniString(ps), q, want, nameVer(rp), rerr)
								}
							}
						}
					}
					t.Trace(1)
				})
			}
		}
	})
	// versions that are none: nothing satisfies a constraint that has one, and nothing provided in one
	// satisfies a constraint with a version
	bad := []string{"abc", "1.", ".1", "1..2", "1_foo", "1-r", "1.2.a", "1 ", "v1", "1-1", "1_alpha_beta", "-r1"}
	c.Run(func(emit func(string, func(*T))) {
		for _, b := range bad {
			b := b
			emit("bad:"+b, func(t *T) {
				for _, op := range ops[1:] {
					for kind, ps := range [][]pkgSpec{
						{{name: "x", ver: "1"}, {name: "prov", ver: "1", provides: []string{"x=1"}}},
						{{name: "x", ver: b}, {name: "prov", ver: "1", provides: []string{"x=" + b}}},
					} {
						for _, req := range []string{b, "1"} {
							if kind == 0 && req == "1" {
								continue
							}
							q := "x" + op + req
							got, err := apk.NewPkgResolver(ctx, buildIndexes([]string{""}, ps)).ResolvePackage(q, nil)
							t.Eval(true)
							if err == nil || len(got) > 0 {
								t.Fail("bad:"+q+":"+uniString(ps), "universe {%s}, request %s: no version satisfies it, got %v err=%v", uniString(ps), q, nameVer(got), err)
							}
							top := append(ps[:len(ps):len(ps)], pkgSpec{name: "top", ver: "1", deps: []string{q}})
							sel, _, err := apk.NewPkgResolver(ctx, buildIndexes([]string{""}, top)).GetPackagesWithDependencies(ctx, []string{"top"})
							t.Eval(true)
							if err == nil {
								t.Fail("baddep:"+q+":"+uniString(ps), "universe {%s}: the dependency %s cannot be satisfied, got %v", uniString(top), q, nameVer(sel))
							}
						}
					}
				}
				// and it does not hide what else is provided
				for i, provs := range [][]string{{"x=" + b, "x=2"}, {"x=2", "x=" + b}, {"y=" + b, "x=2"}, {"x=" + b, "x=" + b, "x=2", "x=1"}} {
					for _, op := range ops {
						q := "x" + op
						if op != "" {
							q += "2"
						}
						want := op != "<" && op != ">"
						if i == 3 && op == "<" {
							want = true
						}
						ps := []pkgSpec{{name: "prov", ver: "5", provides: provs}}
						got, err := apk.NewPkgResolver(ctx, buildIndexes([]string{""}, ps)).ResolvePackage(q, nil)
						t.Eval(want)
						if want != (err == nil && len(got) > 0) {
							t.Fail("hide:"+q+":"+uniString(ps), "universe {%s}, request %s: expected candidate=%v, got %v err=%v", uniString(ps), q, want, nameVer(got), err)
						}
					}
				}
				t.Trace(1)
			})
		}
	})
	c.Sample("x~1.1 over all versions; x provided by prov-5 as x=1.2_rc1")
}
