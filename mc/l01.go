package main

import (
	"context"
	"fmt"
	"io/fs"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

// Bringing a root to its world: resolve, refuse conflicts, install what is missing, record it.

func init() {
	register("L01", check{run: runL01, level: "model_checking",
		rule:        "every history of up to two (three) worlds fixed one after the other on one root, over every universe of up to three packages out of a pool (versions, dependencies, virtuals, conflicts with and without version, with virtuals, with oneself, install_if) behind a signed index, the second time (thorough) also with every other universe of up to two packages; before and after every step the root and what is resolved are compared with a reference that knows which packages are installed: what is missing is installed in the order of the resolution, what was there stays, a conflict between what would then be installed is refused, a failure changes nothing, and doing it again changes nothing; non-trivial when something is installed or refused",
		assumptions: []string{"a package installed under some version is not replaced by another version (documented)", "that what is resolved is right is R01's, that files are right N01's matter", "when only packages that are not installed now, because another version is there, have a conflict, either outcome is allowed"}})
}

func l01pool() []pkgSpec {
	s := func(n, v string, deps, prov, iif string) pkgSpec {
		f := func(s string) []string {
			if s == "" {
				return nil
			}
			return strings.Split(s, " ")
		}
		return pkgSpec{name: n, ver: v, deps: f(deps), provides: f(prov), installIf: f(iif)}
	}
	return []pkgSpec{
		s("a", "1", "", "", ""), s("a", "2", "b", "", ""), s("a", "1", "!b", "", ""), s("a", "2", "!b<2", "v", ""), s("a", "1", "v", "", ""),
		s("b", "1", "", "", ""), s("b", "2", "!a", "", ""), s("b", "1", "", "v=1", ""), s("b", "2", "c", "", ""), s("b", "1", "!v", "v", ""), s("b", "1", "!b", "", ""),
		s("c", "1", "", "", "a"), s("c", "1", "!v", "", ""), s("c", "2", "a=1", "v=2", ""), s("c", "1", "!v=1", "", ""), s("c", "1", "!a=2 !b~1", "", ""),
	}
}

var l01built sync.Map

// l01apk is the package of a spec; each has files of its own.
func l01apk(s pkgSpec) *builtApk {
	if b, ok := l01built.Load(s.String()); ok {
		return b.(*builtApk)
	}
	var info []string
	for _, d := range s.deps {
		info = append(info, "depend = "+d)
	}
	for _, p := range s.provides {
		info = append(info, "provides = "+p)
	}
	for _, p := range s.installIf {
		info = append(info, "install_if = "+p)
	}
	b := apkSpec{name: s.name, ver: s.ver, origin: s.name, info: info, data: []tent{dirE("opt/"), reg("opt/"+s.name, s.String())}}.build()
	l01built.Store(s.String(), b)
	return b
}

func l01text(u []pkgSpec) string {
	t := ""
	for _, s := range u {
		b := l01apk(s)
		t += fmt.Sprintf("C:%s\nP:%s\nV:%s\nA:x86_64\nS:%d\nI:1\nT:t\no:%s\n", b.q1, s.name, s.ver, len(b.all), s.name)
		for k, l := range map[string][]string{"D": s.deps, "p": s.provides, "i": s.installIf} {
			if len(l) > 0 {
				t += k + ":" + strings.Join(l, " ") + "\n"
			}
		}
		t += "\n"
	}
	return t
}

type l01uni struct {
	specs []pkgSpec
	host  string
	index []byte
}

var l01seq atomic.Int64

func newL01uni(k sigKey, specs []pkgSpec) *l01uni {
	body := gz(makeTar([]tent{reg("APKINDEX", l01text(specs)), reg("DESCRIPTION", "d")}, true, false))
	sig := gz(makeTar([]tent{reg(".SIGN.RSA."+k.name, string(rsaSign(k, body)))}, false, false))
	return &l01uni{specs: specs, host: fmt.Sprintf("h%d-%d.l01.example", os.Getpid(), l01seq.Add(1)), index: append(sig, body...)}
}

func (u *l01uni) RoundTrip(r *http.Request) (*http.Response, error) {
	n := r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:]
	if n == "APKINDEX.tar.gz" {
		return respond(200, u.index, nil), nil
	}
	for _, s := range u.specs {
		if n == s.name+"-"+s.ver+".apk" {
			return respond(200, l01apk(s).all, nil), nil
		}
	}
	return respond(404, nil, nil), nil
}

// l01conflict says which of the new packages (or whose old ones) cannot be together.
func l01conflict(all []pkgSpec, fresh map[string]bool) string {
	for _, p := range all {
		for _, d := range p.deps {
			if !strings.HasPrefix(d, "!") {
				continue
			}
			for _, q := range all {
				if q.name != p.name && (fresh[p.name] || fresh[q.name]) && pkgSatisfies(&apk.Package{Name: q.name, Version: q.ver, Provides: q.provides}, d[1:]) {
					return fmt.Sprintf("%s has %s, which %s is", p, d, q)
				}
			}
		}
	}
	return ""
}

type l01step struct {
	u     *l01uni
	world []string
}

// l01tree is everything but what resolution reads.
func l01tree(f apkfs.FullFS) string {
	s := ""
	for _, d := range []string{"opt", "lib/apk/db"} {
		_ = fs.WalkDir(f, d, func(p string, e fs.DirEntry, err error) error {
			if err == nil && e.Type().IsRegular() {
				s += fmt.Sprintf("%s %q\n", p, must1(f.ReadFile(p)))
			}
			return nil
		})
	}
	return s
}

// l01run follows a history. It returns false when it failed.
func l01run(t *T, k sigKey, hist []l01step) bool {
	ctx := context.Background()
	f := e03fs()
	must(f.MkdirAll("etc/apk/keys", 0o755))
	must(f.WriteFile("etc/apk/keys/"+k.name, k.pub, 0o644))
	must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	a := newAPK(apk.WithFS(f))
	var have []pkgSpec
	desc := ""
	for i, s := range hist {
		t.Trans(1)
		a.SetClient(&http.Client{Transport: s.u})
		must(f.WriteFile("etc/apk/repositories", []byte("https://"+s.u.host+"/r\n"), 0o644))
		must(f.WriteFile("etc/apk/world", []byte(strings.Join(s.world, "\n")+"\n"), 0o644))
		desc += fmt.Sprintf("step %d: world %v over {%s}; ", i+1, s.world, uniString(s.u.specs))
		key := "last:" + uniString(s.u.specs) + ":" + worldStr(s.world)
		fail := func(format string, args ...any) bool {
			t.Fail(key, "%s%s", desc, fmt.Sprintf(format, args...))
			return false
		}
		res, _, rerr := a.ResolveWorld(ctx)
		before, pdb := l01tree(f), string(must1(f.ReadFile("lib/apk/db/installed")))
		err := a.FixateWorld(ctx, nil)
		after := l01tree(f)
		if rerr != nil {
			t.Eval(false)
			t.Outcome("unresolved")
			if !strings.Contains(rerr.Error(), "solving") && !strings.Contains(rerr.Error(), "resol") && !strings.Contains(rerr.Error(), "could not find") {
				return fail("ResolveWorld: %v", rerr)
			}
			if err == nil || after != before {
				return fail("nothing is resolved (%v), and FixateWorld: %v, changed: %v", rerr, err, after != before)
			}
			continue
		}
		var fresh, all []pkgSpec
		names := map[string]bool{}
		for _, p := range have {
			names[p.name] = true
		}
		all = append(all, have...)
		isNew := map[string]bool{}
		full := append([]pkgSpec{}, have...)
		allNew := map[string]bool{}
		for _, r := range res {
			for _, q := range s.u.specs {
				if q.name == r.Name && q.ver == r.Version {
					full = append(full, q)
					allNew[q.name] = true
					if !names[q.name] {
						names[q.name], isNew[q.name] = true, true
						fresh = append(fresh, q)
						all = append(all, q)
					}
				}
			}
		}
		conf := l01conflict(all, isNew)
		t.Eval(len(fresh) > 0 || conf != "")
		t.State(fmt.Sprint(uniString(have), uniString(s.u.specs), s.world))
		switch {
		case conf != "" && err == nil:
			return fail("FixateWorld succeeded although %s", conf)
		case err != nil && after != before:
			return fail("FixateWorld failed (%v) and changed the root from\n%s\nto\n%s", err, before, after)
		case err != nil:
			if conf == "" && l01conflict(full, allNew) == "" {
				return fail("FixateWorld failed although nothing is in the way: %v", err)
			}
			t.Outcome("refused")
			continue
		}
		db := string(must1(f.ReadFile("lib/apk/db/installed")))
		if !strings.HasPrefix(db, pdb) {
			return fail("earlier records were changed from\n%s\nto\n%s", pdb, db)
		}
		var got, want []string
		for _, l := range strings.Split(db[len(pdb):], "\n") {
			if strings.HasPrefix(l, "P:") || strings.HasPrefix(l, "V:") || strings.HasPrefix(l, "C:") {
				got = append(got, l)
			}
		}
		for _, q := range fresh {
			want = append(want, "C:"+l01apk(q).q1, "P:"+q.name, "V:"+q.ver)
		}
		// the order of the lines of a record is N02's matter
		for i := 0; i+3 <= len(got); i += 3 {
			sort.Strings(got[i : i+3])
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return fail("recorded %v and not %v", got, want)
		}
		have = append(have, fresh...)
		for _, q := range have {
			if b, err := f.ReadFile("opt/" + q.name); err != nil || string(b) != q.String() {
				return fail("file of %s: %q %v", q, b, err)
			}
		}
		if es, err := f.ReadDir("opt"); len(have) > 0 && (err != nil || len(es) != len(have)) {
			return fail("%d files of %d packages (%v)", len(es), len(have), err)
		}
		t.Outcome(fmt.Sprintf("installed %d of %d", len(fresh), len(res)))
		if err := a.FixateWorld(ctx, nil); err != nil || l01tree(f) != after {
			return fail("doing it again: %v, changed: %v", err, l01tree(f) != after)
		}
	}
	t.Trace(1)
	return true
}

// l01damaged: what is installed cannot be told.
func l01damaged(t *T, k sigKey) {
	ctx := context.Background()
	u := newL01uni(k, []pkgSpec{{name: "a", ver: "1"}, {name: "b", ver: "1"}})
	good := "C:Q1MTIzNDU2Nzg5MDEyMzQ1Njc4OTA=\nP:a\nV:1\nF:opt\nM:0:0:0700\nR:x\na:0:0:0600\nZ:Q1MTIzNDU2Nzg5MDEyMzQ1Njc4OTA=\n\n"
	lines := []string{"garbage", "C:Q1***", "S:x", "I:-1", "k:1.5", "t:z", "a:0:0", "a:0:0:9", "M:x:0:0755", "M:0", "R:../../x", "a:0:0:0644\nM:0:0:0755", "x"}
	dbs := map[string]string{"gone": "\x00"}
	for _, l := range lines {
		for at := 0; at <= strings.Count(good, "\n"); at++ {
			p := strings.SplitAfter(good, "\n")
			dbs[fmt.Sprintf("%q at %d", l, at)] = strings.Join(p[:at], "") + l + "\n" + strings.Join(p[at:], "")
		}
	}
	for _, n := range sortedKeys(dbs) {
		for _, w := range []string{"a\n", "b\n", "a\nb\n"} {
			t.Tick()
			f := e03fs()
			must(f.MkdirAll("etc/apk/keys", 0o755))
			must(f.WriteFile("etc/apk/keys/"+k.name, k.pub, 0o644))
			must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
			must(f.WriteFile("etc/apk/repositories", []byte("https://"+u.host+"/r\n"), 0o644))
			must(f.WriteFile("etc/apk/world", []byte(w), 0o644))
			if n == "gone" {
				must(f.Remove("lib/apk/db/installed"))
			} else {
				must(f.WriteFile("lib/apk/db/installed", []byte(dbs[n]), 0o644))
			}
			a := newAPK(apk.WithFS(f))
			a.SetClient(&http.Client{Transport: u})
			before := l01tree(f)
			_, gerr := a.GetInstalled()
			err := a.FixateWorld(ctx, nil)
			t.State("damaged:" + n + w)
			t.Eval(gerr != nil)
			t.Trans(1)
			t.Trace(1)
			if gerr == nil {
				continue
			}
			if after := l01tree(f); err == nil || after != before {
				t.Fail("damaged:"+n, "the list of what is installed is damaged (%s), GetInstalled: %v; FixateWorld for %q: %v, and changes the root from\n%s\nto\n%s", n, gerr, w, err, before, after)
				return
			}
		}
	}
}

// l01once is a filesystem in which one opening of the list of installed packages fails.
type l01once struct {
	apkfs.FullFS
	left *int
}

func (f l01once) fail(name string) error {
	if strings.HasSuffix(name, "db/installed") {
		if *f.left--; *f.left == -1 {
			return &fs.PathError{Op: "open", Path: name, Err: syscall.EIO}
		}
	}
	return nil
}

func (f l01once) Open(name string) (fs.File, error) {
	if err := f.fail(name); err != nil {
		return nil, err
	}
	return f.FullFS.Open(name)
}

func (f l01once) OpenFile(name string, flag int, perm fs.FileMode) (apkfs.File, error) {
	if err := f.fail(name); err != nil {
		return nil, err
	}
	return f.FullFS.OpenFile(name, flag, perm)
}

func (f l01once) ReadFile(name string) ([]byte, error) {
	if err := f.fail(name); err != nil {
		return nil, err
	}
	return f.FullFS.ReadFile(name)
}

// l01unread: something installed is in the way, and the list of what is installed cannot always be read.
func l01unread(t *T, k sigKey) {
	ctx := context.Background()
	for _, specs := range [][]pkgSpec{
		{{name: "a", ver: "1", deps: []string{"!b"}}, {name: "b", ver: "1"}},
		{{name: "a", ver: "1"}, {name: "b", ver: "1", deps: []string{"!a"}}},
		{{name: "a", ver: "1", deps: []string{"!v"}}, {name: "b", ver: "1", provides: []string{"v"}}},
	} {
		u := newL01uni(k, specs)
		for at := 0; at < 8; at++ {
			t.Tick()
			f := e03fs()
			must(f.MkdirAll("etc/apk/keys", 0o755))
			must(f.WriteFile("etc/apk/keys/"+k.name, k.pub, 0o644))
			must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
			must(f.WriteFile("etc/apk/repositories", []byte("https://"+u.host+"/r\n"), 0o644))
			must(f.WriteFile("etc/apk/world", []byte("b\n"), 0o644))
			left := 1 << 30
			a := newAPK(apk.WithFS(l01once{f, &left}))
			a.SetClient(&http.Client{Transport: u})
			key := fmt.Sprintf("unread:%s:%d", uniString(specs), at)
			if err := a.FixateWorld(ctx, nil); err != nil {
				t.Fail(key, "installing b over {%s}: %v", uniString(specs), err)
				return
			}
			must(f.WriteFile("etc/apk/world", []byte("a\n"), 0o644))
			before := l01tree(f)
			left = at
			err := a.FixateWorld(ctx, nil)
			t.State(key)
			t.Eval(left < 0)
			t.Trans(2)
			t.Trace(1)
			if after := l01tree(f); err == nil || after != before {
				t.Fail(key, "b is installed, a must not be beside it {%s}, opening the list of what is installed fails at time %d; FixateWorld: %v, and changes the root from\n%s\nto\n%s", uniString(specs), at+1, err, before, after)
				return
			}
		}
	}
}

func runL01(c *C) {
	k := sigKeys(c.Scratch)[0]
	pool := l01pool()
	names := []string{"a", "b", "c", "v"}
	var one, two [][]string
	for _, n := range names {
		one = append(one, []string{n})
		for _, m := range names {
			if n != m {
				two = append(two, []string{n, m})
			}
		}
	}
	vers := [][]string{{"a=1"}, {"a>1"}, {"b<2"}, {"!b", "a"}, {"a", "!v"}, {"c", "b=1"}}
	worlds := append(append(append([][]string{}, one...), two...), vers...)
	var unis [][]pkgSpec
	var rec func(i int, u []pkgSpec)
	rec = func(i int, u []pkgSpec) {
		if len(u) > 0 {
			unis = append(unis, append([]pkgSpec{}, u...))
		}
		if len(u) == 3 {
			return
		}
		for j := i; j < len(pool); j++ {
			dup := false
			for _, p := range u {
				dup = dup || p.name == pool[j].name && p.ver == pool[j].ver
			}
			if !dup {
				rec(j+1, append(u[:len(u):len(u)], pool[j]))
			}
		}
	}
	rec(0, nil)
	sort.SliceStable(unis, func(i, j int) bool { return len(unis[i]) < len(unis[j]) })
	c.Sample("world [a] over {a-1 D:!b; b-1}, then world [b a]: must be refused and change nothing")
	c.Run(func(emit func(string, func(*T))) {
		const per = 8
		for i := 0; i < len(unis); i += per {
			part := unis[i:min(i+per, len(unis))]
			emit(fmt.Sprintf("universes:%d", i), func(t *T) {
				for _, specs := range part {
					u := newL01uni(k, specs)
					second := worlds
					if !t.Thorough() && len(specs) > 2 {
						second = append(one[:len(one):len(one)], []string{"a", "b"}, []string{"b", "a"}, []string{"c", "a"}, []string{"b", "c"})
					}
					for _, w := range worlds {
						t.Tick()
						for _, w2 := range second {
							if !l01run(t, k, []l01step{{u, w}, {u, w2}}) {
								break
							}
						}
						if t.Expired() {
							return
						}
					}
					if t.Thorough() && len(specs) < 3 {
						for _, w := range worlds {
							for _, w2 := range worlds {
								t.Tick()
								for _, w3 := range one {
									l01run(t, k, []l01step{{u, w}, {u, w2}, {u, w3}})
								}
							}
						}
					}
				}
			})
		}
		emit("damaged", func(t *T) { l01damaged(t, k) })
		emit("unread", func(t *T) { l01unread(t, k) })
		if !c.Thorough() {
			return
		}
		for i, specs := range unis {
			if len(specs) > 2 {
				continue
			}
			emit(fmt.Sprintf("changed:%d", i), func(t *T) {
				for _, specs2 := range unis {
					if len(specs2) > 2 {
						continue
					}
					u, u2 := newL01uni(k, specs), newL01uni(k, specs2)
					for _, w := range one {
						t.Tick()
						for _, w2 := range append(one[:len(one):len(one)], vers...) {
							l01run(t, k, []l01step{{u, w}, {u2, w2}})
						}
						if t.Expired() {
							return
						}
					}
				}
			})
		}
	})
}
