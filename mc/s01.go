package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("S01", check{run: runS01, level: "model_checking",
		rule:        "all histories of up to 3 (4) operations SetWorld/SetRepositories/read with lists of up to 3 entries (duplicates, every order, prefixes of one another, constraints, tags, very long entries) from every previous content of the files, on both filesystems, against a reference pair of lists; then all pairs (world, repository lines) over local repositories resolved for real; non-trivial when something is set twice or over a previous content",
		assumptions: []string{"entries are non-empty and hold no white space (repository lines: '@tag url')", "setting an empty repository list is the invalid setting"}})
}

// mkFS gives an empty filesystem with the named implementation.
func mkFS(t *T, kind string, sub string) apkfs.FullFS {
	if kind == "mem" {
		return apkfs.NewMemFS()
	}
	d := filepath.Join(t.Dir(), sub)
	f := apkfs.DirFS(d, apkfs.WithCreateDir(), apkfs.DirFSWithCaseSensitive(kind != "dirci"))
	if f == nil {
		panic("harness: DirFS")
	}
	return f
}

func runS01(c *C) {
	ctx := context.Background()
	long := strings.Repeat("x", 70000)
	lists := [][]string{{}, {"a"}, {"b", "a"}, {"a", "b"}, {"a", "a"}, {"b>1", "a@t", "b"}, {"aa", "a=1-r0", "!c"}, {"c", "b", "a"}, {long, "a"}, {"so:x.1", "cmd:y~1.2"}}
	repos := [][]string{{}, {"/r1"}, {"/r2", "/r1"}, {"/r1", "/r2"}, {"@t /r2", "/r1"}, {"/r1", "/r1"}, {"https://h/" + long, "/r1"}, {"@e https://e.example/x", "@e /y", "/z"}}
	// operations: 0..len(lists)-1 SetWorld, then SetRepositories
	nops := len(lists) + len(repos)
	prevs := []string{"", "\n", "zz\n", "zz\nyy x\n\n  q", strings.Repeat("longer previous content\n", 20)}
	depth := c.Pick(2, 3)
	c.Sample("previous world 'zz', SetWorld([b a]), SetRepositories([]) fails, SetWorld([a])")
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range []string{"mem", "dir"} {
			for pi, prev := range prevs {
				kind, pi, prev := kind, pi, prev
				emit(fmt.Sprintf("hist:%s:%d", kind, pi), func(t *T) {
					seq := make([]int, 0, depth)
					var rec func()
					rec = func() {
						if len(seq) > 0 {
							s01hist(t, ctx, kind, prev, seq, lists, repos)
						}
						if len(seq) == depth || t.Expired() {
							return
						}
						for o := 0; o < nops; o++ {
							if len(seq) == depth-1 && len(seq) > 1 && kind == "dir" && o%2 == 1 {
								continue
							}
							seq = append(seq, o)
							rec()
							seq = seq[:len(seq)-1]
						}
					}
					rec()
				})
			}
		}
		emit("resolve", func(t *T) { s01resolve(t, ctx) })
	})
}

func s01hist(t *T, ctx context.Context, kind, prev string, seq []int, lists, repos [][]string) {
	t.Tick()
	t.Eval(len(seq) > 1 || prev != "")
	sub := "s"
	f := mkFS(t, kind, sub)
	defer os.RemoveAll(filepath.Join(t.Dir(), sub))
	must(f.MkdirAll("etc/apk", 0o755))
	must(f.WriteFile("etc/apk/world", []byte(prev), 0o644))
	must(f.WriteFile("etc/apk/repositories", []byte(prev), 0o644))
	a := newAPK(apk.WithFS(f))
	var world, rep []string
	world = strings.Fields(prev)
	wset, rset := false, false
	_ = wset
	for i, o := range seq {
		t.Trans(1)
		key := fmt.Sprintf("%s:%q:%v", kind, short(prev), seq[:i+1])
		if o < len(lists) {
			in := slices.Clone(lists[o])
			if err := a.SetWorld(ctx, in); err != nil {
				t.Fail(key, "SetWorld(%v): %v", in, err)
			}
			if !slices.Equal(in, lists[o]) {
				t.Fail(key, "SetWorld modified its argument: %v", in)
			}
			world = slices.Clone(lists[o])
			sort.Strings(world)
		} else {
			in := slices.Clone(repos[o-len(lists)])
			err := a.SetRepositories(ctx, in)
			if len(in) == 0 {
				if err == nil {
					t.Fail(key, "SetRepositories with an empty list succeeded")
				}
			} else {
				if err != nil {
					t.Fail(key, "SetRepositories(%d): %v", len(in), err)
				}
				rep, rset = in, true
			}
		}
		got, err := a.GetWorld()
		if err != nil || strings.Join(got, " ") != strings.Join(world, " ") {
			t.Fail(key+":world", "on %s after %v: GetWorld = %s, %v, want %s", kind, seq[:i+1], short(fmt.Sprint(got)), err, short(fmt.Sprint(world)))
		}
		// a second reader on the same filesystem, and the raw content left by failed settings
		gr, err := newAPK(apk.WithFS(f)).GetRepositories()
		if rset {
			if err != nil || !slices.Equal(gr, rep) {
				t.Fail(key+":repos", "on %s after %v: GetRepositories = %d entries %.80q, %v, want %d entries %.80q", kind, seq[:i+1], len(gr), gr, err, len(rep), rep)
			}
		} else if b, err := f.ReadFile("etc/apk/repositories"); err != nil || string(b) != prev {
			t.Fail(key+":repos", "the repositories file changed without a successful SetRepositories: %q", short(string(b)))
		}
	}
	t.Trace(1)
	t.State(fmt.Sprintf("%s|%s|%v|%v", kind, short(prev), len(world), len(rep)) + strings.Join(world, ",") + strings.Join(rep, ","))
}

// s01resolve: what is set is what resolution uses.
func s01resolve(t *T, ctx context.Context) {
	dir := t.Dir()
	mk := func(name string, pkgs ...*apk.Package) string {
		d := filepath.Join(dir, name)
		must(os.MkdirAll(filepath.Join(d, "x86_64"), 0o755))
		r := must1(apk.ArchiveFromIndex(&apk.APKIndex{Packages: pkgs}))
		b := readAll(r)
		must(os.WriteFile(filepath.Join(d, "x86_64", "APKINDEX.tar.gz"), b, 0o644))
		return d
	}
	p := func(n, v string) *apk.Package {
		return &apk.Package{Name: n, Version: v, Checksum: make([]byte, 20)}
	}
	r1 := mk("r1", p("a", "1-r0"), p("b", "1-r0"))
	r2 := mk("r2", p("a", "2-r0"), p("c", "1-r0"))
	content := map[string]map[string]string{r1: {"a": "1-r0", "b": "1-r0"}, r2: {"a": "2-r0", "c": "1-r0"}}
	repoSets := [][]string{{r1}, {r2}, {r1, r2}, {r2, r1}, {r1, "@t " + r2}, {"@t " + r1, r2}, {"@t " + r1, "@u " + r2}}
	worlds := [][]string{{}, {"a"}, {"b"}, {"c"}, {"a", "b"}, {"b", "a"}, {"a", "c"}, {"a@t"}, {"a@u", "b@t"}, {"c", "b", "a"}, {"c@t"}, {"b@t", "c@u"}}
	for ri, rs := range repoSets {
		for wi, w := range worlds {
			for _, twice := range []bool{false, true} {
				key := fmt.Sprintf("resolve:%d:%d:%v", ri, wi, twice)
				f := apkfs.NewMemFS()
				must(f.MkdirAll("etc/apk/keys", 0o755))
				must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
				a := newAPK(apk.WithFS(f), apk.WithNoSignatureIndexes(r1, r2))
				if twice {
					must(a.SetWorld(ctx, []string{"a", "b", "c", "nothere"}))
					must(a.SetRepositories(ctx, []string{r2, r1, "@t /nowhere"}))
				}
				must(a.SetWorld(ctx, w))
				must(a.SetRepositories(ctx, rs))
				// expected: for each wanted name the best version available without a tag or with the requested one
				want := []string{}
				ok := true
				for _, x := range w {
					n, tag, _ := strings.Cut(x, "@")
					best, pinned := "", false
					for _, r := range rs {
						rt, path := "", r
						if strings.HasPrefix(r, "@") {
							rt, path, _ = strings.Cut(r[1:], " ")
						}
						if v, has := content[path][n]; has && (rt == "" || rt == tag) {
							if rt != "" && !pinned {
								best, pinned = v, true
							} else if !pinned || rt != "" {
								best = max(best, v)
							}
						}
					}
					if best == "" {
						ok = false
					}
					want = append(want, n+"-"+best)
				}
				sort.Strings(want)
				got, _, err := a.ResolveWorld(ctx)
				t.Eval(true)
				t.Trace(1)
				t.Trans(1)
				var names []string
				for _, g := range got {
					names = append(names, g.Name+"-"+g.Version)
				}
				sort.Strings(names)
				if (err == nil) != ok {
					t.Fail(key, "world %v from %v: ResolveWorld error %v, resolvable %v", w, rs, err, ok)
				} else if ok && !slices.Equal(slices.Compact(want), names) && len(want)+len(names) > 0 {
					t.Fail(key, "world %v from %v: ResolveWorld selects %v, want %v", w, rs, names, want)
				}
			}
		}
	}
}
