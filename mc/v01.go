package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

// ---- reference version model (independent of the implementation) ----

type rver struct {
	nums   []*big.Int
	letter byte
	pre    int // 1..4, 5 = none
	preN   *big.Int
	post   int // 0 = none, 1..5
	postN  *big.Int
	rev    *big.Int
	preSet bool
}

var preNames = []string{"_alpha", "_beta", "_pre", "_rc"}
var postNames = []string{"_cvs", "_svn", "_git", "_hg", "_p"}

func digits(s string) (string, string) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return s[:i], s[i:]
}

func bigOf(s string) *big.Int {
	if s == "" {
		return new(big.Int)
	}
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

// refVersion is a hand-written recursive-descent recogniser of
// num{.num}[letter][pre[num]][post[num]][-rnum]
func refVersion(s string) (rver, bool) {
	var v rver
	v.pre = 5
	v.preN, v.postN, v.rev = new(big.Int), new(big.Int), new(big.Int)
	d, r := digits(s)
	if d == "" {
		return v, false
	}
	v.nums = append(v.nums, bigOf(d))
	for strings.HasPrefix(r, ".") {
		d, rest := digits(r[1:])
		if d == "" {
			return v, false
		}
		v.nums = append(v.nums, bigOf(d))
		r = rest
	}
	if r != "" && r[0] >= 'a' && r[0] <= 'z' {
		v.letter = r[0]
		r = r[1:]
	}
	for i, p := range preNames {
		// "_p" is a prefix of "_pre": pre-suffixes are tried first
		if strings.HasPrefix(r, p) {
			v.pre, v.preSet = i+1, true
			d, rest := digits(r[len(p):])
			v.preN = bigOf(d)
			r = rest
			break
		}
	}
	for i, p := range postNames {
		if strings.HasPrefix(r, p) {
			v.post = i + 1
			d, rest := digits(r[len(p):])
			v.postN = bigOf(d)
			r = rest
			break
		}
	}
	if strings.HasPrefix(r, "-r") {
		d, rest := digits(r[2:])
		if d == "" {
			return v, false
		}
		v.rev = bigOf(d)
		r = rest
	}
	return v, r == ""
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func refCompare(a, b rver) int {
	for i := 0; i < len(a.nums) && i < len(b.nums); i++ {
		if c := a.nums[i].Cmp(b.nums[i]); c != 0 {
			return c
		}
	}
	if c := cmpInt(len(a.nums), len(b.nums)); c != 0 {
		return c
	}
	if c := cmpInt(int(a.letter), int(b.letter)); c != 0 {
		return c
	}
	if c := cmpInt(a.pre, b.pre); c != 0 {
		return c
	}
	if c := a.preN.Cmp(b.preN); c != 0 {
		return c
	}
	if c := cmpInt(a.post, b.post); c != 0 {
		return c
	}
	if c := a.postN.Cmp(b.postN); c != 0 {
		return c
	}
	return a.rev.Cmp(b.rev)
}

// versionAlphabet builds all versions from per-component values.
func versionAlphabet(big bool) []string {
	nums := []string{"0", "1", "2", "9", "10", "1.0", "1.1", "1.2", "1.9", "1.10", "1.1.1", "1.0.0", "20230101", "4294967296"}
	letters := []string{"", "a", "b", "z"}
	pres := []string{"", "_alpha", "_alpha1", "_alpha2", "_alpha10", "_beta", "_beta1", "_pre", "_pre2", "_rc", "_rc1", "_rc2"}
	posts := []string{"", "_cvs", "_svn3", "_git", "_git2", "_git20230101", "_hg", "_hg1", "_p", "_p1", "_p2", "_p10"}
	revs := []string{"", "-r0", "-r1", "-r2", "-r10"}
	if !big {
		nums = []string{"0", "1", "2", "10", "1.0", "1.2", "1.10", "1.1.1"}
		letters = []string{"", "a", "b"}
	}
	var out []string
	for _, n := range nums {
		for _, l := range letters {
			for _, p := range pres {
				for _, q := range posts {
					for _, r := range revs {
						out = append(out, n+l+p+q+r)
					}
				}
			}
		}
	}
	// long versions, trailing zeros and large numbers everywhere
	for k := 3; k <= 7; k++ {
		for m := 0; m < 1<<k; m++ {
			n := "1"
			for b := 0; b < k; b++ {
				n += fmt.Sprintf(".%d", m>>b&1)
			}
			for _, r := range []string{"", "a", "_rc1", "-r1"} {
				if r != "" && !big && k > 5 {
					continue
				}
				out = append(out, n+r)
			}
		}
	}
	const large = "20230101120000"
	for _, n := range []string{large, large + "1", "1." + large, "1." + large + ".1", "1.1." + large} {
		out = append(out, n, n+"b", n+"-r1")
	}
	for _, x := range []string{"_alpha", "_beta", "_pre", "_rc", "_cvs", "_svn", "_git", "_hg", "_p", "_rc1_p", "-r", "_p1-r", "_rc2-r", "_hg1-r", "_cvs2-r", "_svn1-r", "_git1-r", "_beta1_hg2-r", "b_pre1_svn2-r"} {
		out = append(out, "1.2"+x+large, "1.2"+x+large+"1", "1.2"+x+"3", "1.2"+x+"4", "1.2"+x+"007", "1.2"+x+"08")
	}
	seen := map[string]bool{}
	uniq := out[:0]
	for _, v := range out {
		if !seen[v] {
			seen[v] = true
			uniq = append(uniq, v)
		}
	}
	return uniq
}

func init() {
	register("V01", check{run: runV01, level: "model_checking",
		rule:        "all pairs of versions built from a per-component value alphabet (every pair compared with an independent reference order given as integer ranks, which makes the order total on all triples), and every string of up to N tokens over the version character set classified against a hand-written recogniser; a pair is non-trivial when the two strings differ",
		assumptions: []string{"numbers below 2^63", "values outside the component alphabet behave like some value in it"}})
}

func runV01(c *C) {
	vs := versionAlphabet(c.Thorough())
	type ent struct {
		s  string
		r  rver
		rk int
		v  apk.Version
	}
	es := make([]ent, len(vs))
	for i, s := range vs {
		r, ok := refVersion(s)
		if !ok {
			panic("harness: alphabet not in grammar: " + s)
		}
		es[i] = ent{s: s, r: r}
	}
	sort.SliceStable(es, func(i, j int) bool { return refCompare(es[i].r, es[j].r) < 0 })
	rk := 0
	for i := range es {
		if i > 0 && refCompare(es[i-1].r, es[i].r) != 0 {
			rk++
		}
		es[i].rk = rk
	}
	bad := false
	c.RunN(1, func(emit func(string, func(*T))) {
		emit("parse", func(t *T) {
			for i := range es {
				v, err := apk.ParseVersion(es[i].s)
				if err != nil {
					t.Fail("parse:"+es[i].s, "valid version %q rejected: %v", es[i].s, err)
					bad = true
				}
				es[i].v = v
				t.State(es[i].s)
			}
		})
	})
	if c.only == "parse" {
		return
	}
	_ = bad
	if c.only != "" {
		for i := range es {
			es[i].v, _ = apk.ParseVersion(es[i].s)
		}
	}
	c.Sample(fmt.Sprintf("compare %s vs %s: expected %d", es[1].s, es[len(es)/2].s, cmpInt(es[1].rk, es[len(es)/2].rk)))
	c.Note("versions", len(es))
	c.Note("distinct_ranks", rk+1)
	// simple versions first so that the reported counterexample is short
	c.Run(func(emit func(string, func(*T))) {
		for i := range es {
			i := i
			emit("row:"+es[i].s, func(t *T) {
				a := es[i]
				n := 0
				for j := range es {
					b := &es[j]
					want := cmpInt(a.rk, b.rk)
					if got := apk.CompareVersions(a.v, b.v); got != want {
						n++
						if n <= 3 {
							t.Fail("cmp:"+a.s+":"+b.s, "compare(%s, %s) = %d, the documented order gives %d", a.s, b.s, got, want)
						}
					}
				}
				t.evals.Add(int64(len(es)))
				t.nontriv.Add(int64(len(es) - 1))
				t.Trans(len(es))
				t.Trace(1)
			})
		}
	})
	// grammar: every token string up to length L
	toks := []string{"1", "0", ".", "a", "b", "_alpha", "_p", "_rc", "_git", "_hg", "-r", "_", "-", " ", "\n", "A", "é", "r", "_foo", "12"}
	L := c.Pick(5, 6)
	c.Run(func(emit func(string, func(*T))) {
		for i1 := range toks {
			for i2 := range toks {
				pre := toks[i1] + toks[i2]
				emit("gram:"+pre, func(t *T) {
					var rec func(s string, depth int)
					fails := 0
					rec = func(s string, depth int) {
						_, ok := refVersion(s)
						_, err := apk.ParseVersion(s)
						t.evals.Add(1)
						if ok {
							t.nontriv.Add(1)
						}
						if ok != (err == nil) {
							fails++
							if fails < 4 {
								t.Fail("gram:"+s, "version string %q: in the grammar=%v, accepted=%v (%v)", s, ok, err == nil, err)
							}
						}
						if depth == 0 || fails > 20 {
							return
						}
						for _, k := range toks {
							rec(s+k, depth-1)
						}
					}
					rec(pre, L-2)
					t.Trace(1)
				})
			}
		}
		emit("gram:short", func(t *T) {
			for _, s := range append([]string{""}, toks...) {
				_, ok := refVersion(s)
				_, err := apk.ParseVersion(s)
				if ok != (err == nil) {
					t.Fail("gram:"+s, "version string %q: in the grammar=%v, accepted=%v", s, ok, err == nil)
				}
			}
		})
	})
}
