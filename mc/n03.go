package main

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"verif.local/shim/vrace"
	"verif.local/shim/vsched"
)

func init() {
	register("N03", check{run: runN03, level: "model_checking",
		rule: "InstallPackages, and CalculateWorld, of up to three packages (files, shared directories, links, scripts, triggers, overlapping files of one origin, one of them installed before), without a cache and over an empty and a filled one, with one, two or many processors, every subset of them failing in every way (no answer, an error answer, a body that breaks off, a package that ends early, is damaged, or is another one), and with a context that ends at any time; all schedules up to the deviation bound, at the granularity of file operations, locks, channel operations, requests, parts of responses, and accesses to the package database; " +
			"the filesystem with installed database, scripts and triggers must be that of installing one by one, a failure must be reported and leave the installed database as it was, and nobody may wait for ever; a second build runs under the race detector, which is told what the code orders and not what the scheduler does; non-trivial when threads alternate",
		assumptions: []string{"one file operation is atomic, response bodies arrive in two parts", "of files that several packages of a call provide, the database names only the last owner"}})
}

type n03scen struct {
	world  bool // CalculateWorld
	pkgs   string
	pre    string
	cache  string // none, empty, full
	procs  int
	fails  string // of each package, - for none
	cancel bool
	bound  [2]int
	parts  [2]int
}

func (s n03scen) key() string {
	x := "install"
	if s.world {
		x = "world"
	}
	c := ""
	if s.cancel {
		c = ":cancel"
	}
	return fmt.Sprintf("%s:%s:pre=%s:cache=%s:procs=%d:fail=%s%s", x, s.pkgs, s.pre, s.cache, s.procs, s.fails, c)
}

func n03apks() map[byte]*builtApk {
	d := func(l ...tent) []tent { return append([]tent{dirE("opt/"), dirE("opt/s/")}, l...) }
	sc := func(n, b string) tent { return tent{name: n, typ: '0', mode: 0o755, body: b} }
	return map[byte]*builtApk{
		'a': apkSpec{name: "a", ver: "1-r0", origin: "o", signed: true, scripts: []tent{sc(".post-install", "#!a")}, data: d(reg("opt/s/a", "a"), reg("opt/x", "of a"))}.build(),
		'b': apkSpec{name: "b", ver: "2-r0", scripts: []tent{sc(".pre-install", "#!b"), sc(".trigger", "#!t")}, info: []string{"triggers = /opt /b"}, data: d(symE("opt/l", "s/b"), reg("opt/s/b", strings.Repeat("b", 600)), lnkE("opt/s/h", "opt/s/b"))}.build(),
		'c': apkSpec{name: "c", ver: "3-r0", origin: "o", signed: true, info: []string{"triggers = /c"}, data: d(reg("opt/s/c", "c"))}.build(),
		// owns opt/x of a
		'o': apkSpec{name: "ov", ver: "1-r1", origin: "o", data: d(reg("opt/x", "of ov"), reg("opt/s/o", "o"))}.build(),
		'q': apkSpec{name: "q", ver: "3-r0", replaces: []string{"a"}, data: d(reg("opt/x", "of q"))}.build(),
	}
}

var n03seq atomic.Int64

// n03fetch serves packages; those that fail do so as told.
func n03fetch(apks map[byte]*builtApk, fails map[string]byte) rtFunc {
	return func(r *http.Request) (*http.Response, error) {
		vsched.Point(r.Method)
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		name := filepath.Base(r.URL.Path)
		var b *builtApk
		for _, x := range apks {
			if strings.HasPrefix(name, x.name+"-") {
				b = x
			}
		}
		body, brk := b.all, false
		switch fails[b.name] {
		case 'n':
			return nil, errBreak
		case '4':
			return respond(404, nil, nil), nil
		case 'k', 'j':
			brk = true
		case 't': // ends inside of the data section
			body = body[:len(body)-9]
		case 'c': // ends inside of the control section
			body = body[:len(b.sig)+len(b.ctl)/2]
		case 'd':
			body = bytes.Clone(body)
			body[len(body)-12] ^= 0x40
		case 'w':
			for _, x := range apks {
				if x.name == "q" {
					body = x.all
				}
			}
		}
		res := respond(200, nil, nil)
		res.ContentLength = int64(len(body))
		half := len(body) / 2
		if fails[b.name] == 'j' { // inside of the control section
			half = len(b.sig) + len(b.ctl)/2
		}
		res.Body = &c04body{ctx: r.Context(), data: body, half: half, brk: brk}
		return res, nil
	}
}

func n03fs() apkfs.FullFS {
	f := e03fs()
	must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	return f
}

func n03inst(repo string, l string, apks map[byte]*builtApk) []apk.InstallablePackage {
	var r []apk.InstallablePackage
	for i := range l {
		b := apks[l[i]]
		r = append(r, fakePkg{b.name, fmt.Sprintf("%s/x86_64/%s-%s.apk", repo, b.name, b.ver), b.q1})
	}
	return r
}

func n03world(repo string, l string, apks map[byte]*builtApk) []*apk.RepositoryPackage {
	ri := (&apk.Repository{URI: repo + "/x86_64"}).WithIndex(&apk.APKIndex{})
	var r []*apk.RepositoryPackage
	for i := range l {
		b := apks[l[i]]
		r = append(r, apk.NewRepositoryPackage(&apk.Package{Name: b.name, Version: b.ver, Arch: "x86_64", Checksum: b.ctlSum}, ri))
	}
	return r
}

func n03resolved(l []*apk.APKResolved) string {
	s := ""
	for _, r := range l {
		if r == nil {
			s += "nothing\n"
			continue
		}
		n := "nil"
		if r.Package != nil {
			n = r.Package.Name
		}
		s += fmt.Sprintf("%s sig %d %x ctl %d %x data %d %x\n", n, r.SignatureSize, r.SignatureHash, r.ControlSize, r.ControlHash, r.DataSize, r.DataHash)
	}
	return s
}

func n03case(t *T, apks map[byte]*builtApk, s n03scen, part, parts int) {
	key := fmt.Sprintf("%s:%d", s.key(), part)
	bound := s.bound[0]
	if t.Thorough() {
		bound = s.bound[1]
	}
	if vrace.On {
		bound--
	}
	t.maxExec = 4000
	mp := runtime.GOMAXPROCS(s.procs)
	defer runtime.GOMAXPROCS(mp)
	fails := map[string]byte{}
	failed := false
	for i := range s.fails {
		if s.fails[i] != '-' {
			fails[apks[s.pkgs[i]].name] = s.fails[i]
			failed = true
		}
	}
	ctx := context.Background()
	if s.cache == "full" && !s.world {
		failed = false // nothing need be asked for
	}
	setup := func(f apkfs.FullFS, a *apk.APK) {
		if s.pre != "" {
			must(a.InstallPackages(ctx, nil, n03inst(fmt.Sprintf("https://pre%d-%d.n03.example/r", os.Getpid(), n03seq.Add(1)), s.pre, apks)))
		}
	}
	plain := func() (apkfs.FullFS, *apk.APK) {
		f := n03fs()
		a := newAPK(apk.WithFS(f))
		a.SetClient(&http.Client{Transport: n03fetch(apks, nil)})
		return f, a
	}
	// what it should come to: one by one
	want, wantDB, preDB := "", "", ""
	overlap := strings.ContainsAny(s.pkgs, "oq") && strings.Contains(s.pkgs, "a")
	dumpTree := func(f apkfs.FullFS) string { return fsDump(f) }
	if s.world {
		for i := range s.pkgs {
			r := must1(apk.ResolveApk(ctx, bytes.NewReader(apks[s.pkgs[i]].all)))
			r.Package = n03world("x", s.pkgs[i:i+1], apks)[0]
			want += n03resolved([]*apk.APKResolved{r})
		}
	} else {
		f, a := plain()
		setup(f, a)
		preDB = string(must1(f.ReadFile("lib/apk/db/installed")))
		for i := range s.pkgs {
			must(a.InstallPackages(ctx, nil, n03inst(fmt.Sprintf("https://ref%d-%d.n03.example/r", os.Getpid(), n03seq.Add(1)), s.pkgs[i:i+1], apks)))
		}
		if overlap {
			// the records of one call take overwritten files into account
			must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
		} else {
			wantDB = string(must1(f.ReadFile("lib/apk/db/installed")))
		}
		want = dumpTree(f)
	}
	// the cache at the start
	type ent struct{ rel, body string }
	var ents []ent
	tmplHost := fmt.Sprintf("t%d-%d.n03.example", os.Getpid(), n03seq.Add(1))
	if s.cache == "full" {
		tmpl := filepath.Join(t.Dir(), "template")
		must(os.Mkdir(tmpl, 0o755))
		f := n03fs()
		a := newAPK(apk.WithFS(f), apk.WithCache(tmpl, false))
		a.SetClient(&http.Client{Transport: n03fetch(apks, nil)})
		must(a.InstallPackages(ctx, nil, n03inst("https://"+tmplHost+"/r", s.pkgs, apks)))
		must(filepath.WalkDir(tmpl, func(p string, d os.DirEntry, err error) error {
			must(err)
			if !d.IsDir() {
				ents = append(ents, ent{must1(filepath.Rel(tmpl, p)), string(must1(os.ReadFile(p)))})
			}
			return nil
		}))
	}
	n := 0
	mk := func() schedRun {
		n++
		dir := filepath.Join(t.Dir(), fmt.Sprintf("c%d", n))
		must(os.Mkdir(dir, 0o755))
		host := fmt.Sprintf("h%d-%d.n03.example", os.Getpid(), n03seq.Add(1))
		repo := "https://" + host + "/r"
		for _, e := range ents {
			p := filepath.Join(dir, strings.ReplaceAll(e.rel, tmplHost, host))
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(e.body), 0o644))
		}
		base := n03fs()
		var opts []apk.Option
		if s.cache != "none" {
			opts = append(opts, apk.WithCache(dir, false))
		}
		f := quietFS{f: base, at: func(op, p string) bool { return strings.HasPrefix(strings.TrimPrefix(p, "/"), "lib/apk/db/") }}
		a := newAPK(append(opts, apk.WithFS(f))...)
		a.SetClient(&http.Client{Transport: n03fetch(apks, nil)})
		setup(base, a)
		a.SetClient(&http.Client{Transport: n03fetch(apks, fails)})
		ctx, cancel := context.WithCancel(ctx)
		var res []*apk.APKResolved
		var err error
		r := schedRun{delay: true}
		if s.cancel {
			r.bodies = append(r.bodies, func() {
				vsched.Point("give up")
				cancel()
			})
		}
		r.bodies = append(r.bodies, func() {
			if s.world {
				res, err = a.CalculateWorld(ctx, n03world(repo, s.pkgs, apks))
			} else {
				err = a.InstallPackages(ctx, nil, n03inst(repo, s.pkgs, apks))
			}
		})
		r.done = func() { cancel(); must(os.RemoveAll(dir)) }
		r.judge = func(*vsched.Result) (string, string) {
			if err != nil {
				if !failed && !s.cancel {
					return fmt.Sprintf("failed although nothing did: %v", err), "bad"
				}
				if s.world {
					return "", "failed"
				}
				if db := string(must1(base.ReadFile("lib/apk/db/installed"))); db != preDB {
					return fmt.Sprintf("failed (%v) and changed the installed database to\n%s\nfrom\n%s", err, db, preDB), "bad"
				}
				return "", "failed"
			}
			if failed {
				return fmt.Sprintf("packages could not be fetched (%s of %s) and no error was reported", s.fails, s.pkgs), "bad"
			}
			got := ""
			if s.world {
				got = n03resolved(res)
			} else {
				if overlap {
					db := string(must1(base.ReadFile("lib/apk/db/installed")))
					if wantDB == "" {
						wantDB = db
					}
					if db != wantDB {
						return fmt.Sprintf("the installed database\n%s\nis not that of the first schedule\n%s", db, wantDB), "bad"
					}
					must(base.WriteFile("lib/apk/db/installed", nil, 0o644))
				}
				got = dumpTree(base)
			}
			if got != want {
				return fmt.Sprintf("came to\n%s\ninstead of\n%s", got, want), "bad"
			}
			return "", "done"
		}
		return r
	}
	t.schedules(key, s.key(), bound, part, parts, mk)
}

func n03scens() []n03scen {
	var l []n03scen
	add := func(s n03scen) {
		if s.fails == "" {
			s.fails = strings.Repeat("-", len(s.pkgs))
		}
		if s.cache == "" {
			s.cache = "none"
		}
		if s.procs == 0 {
			s.procs = 8
		}
		if s.bound == [2]int{} {
			s.bound = [2]int{1, 2}
		}
		s.parts = [2]int{1, 1}
		if s.bound[0] == 2 {
			s.parts[0] = 8
		}
		if s.bound[1] == 2 {
			s.parts[1] = 32
		}
		if s.bound[1] == 3 {
			s.parts[1] = 64
		}
		l = append(l, s)
	}
	for _, w := range []bool{false, true} {
		for _, c := range []string{"none", "empty", "full"} {
			for _, p := range []int{1, 2, 8} {
				b2 := [2]int{1, 2}
				if p == 1 && c != "full" || p == 8 && c == "none" {
					b2 = [2]int{2, 3}
				}
				add(n03scen{world: w, pkgs: "ab", cache: c, procs: p, bound: b2})
				add(n03scen{world: w, pkgs: "abc", cache: c, procs: p})
			}
			for _, f := range "n4jktcdw" {
				if w && strings.ContainsRune("ktdw", f) {
					continue // CalculateWorld does not look at data sections
				}
				add(n03scen{world: w, pkgs: "ab", cache: c, fails: string(f) + "-"})
				add(n03scen{world: w, pkgs: "ab", cache: c, fails: "-" + string(f), procs: 1})
				if c != "empty" {
					continue
				}
				for _, g := range "n4jktcdw" {
					if g <= f && !(w && strings.ContainsRune("ktdw", g)) {
						add(n03scen{world: w, pkgs: "abc", cache: c, fails: string(f) + "-" + string(g), procs: 1, bound: [2]int{0, 1}})
						add(n03scen{world: w, pkgs: "abc", cache: c, fails: string(f) + string(g) + "-", bound: [2]int{0, 1}})
					}
				}
				add(n03scen{world: w, pkgs: "abc", cache: c, fails: "-" + string(f) + "-", procs: 1})
				add(n03scen{world: w, pkgs: "abc", cache: c, fails: "--" + string(f), procs: 2})
				add(n03scen{world: w, pkgs: "abc", cache: c, fails: string(f) + string(f) + string(f), bound: [2]int{0, 1}})
			}
			add(n03scen{world: w, pkgs: "ab", cache: c, cancel: true})
			add(n03scen{world: w, pkgs: "ab", cache: c, cancel: true, procs: 1})
		}
	}
	for _, c := range []string{"none", "empty"} {
		add(n03scen{pkgs: "ab", pre: "a", cache: c})
		add(n03scen{pkgs: "ab", pre: "b", cache: c, procs: 1})
		add(n03scen{pkgs: "abc", pre: "b", cache: c})
		add(n03scen{pkgs: "ab", pre: "c", cache: c, fails: "-k"})
		add(n03scen{pkgs: "ab", pre: "c", cache: c, cancel: true})
		add(n03scen{pkgs: "ao", cache: c})
		add(n03scen{pkgs: "oa", cache: c})
		add(n03scen{pkgs: "aq", cache: c, procs: 1})
		add(n03scen{pkgs: "baq", cache: c})
		add(n03scen{pkgs: "aboc", cache: c, procs: 2})
	}
	return l
}

func runN03(c *C) {
	if !vsched.Available {
		c.Cap("no scheduler in this build")
		return
	}
	apks := n03apks()
	c.Run(func(emit func(string, func(t *T))) {
		for _, s := range n03scens() {
			parts := s.parts[0]
			if c.Thorough() {
				parts = s.parts[1]
			}
			if vrace.On {
				parts = 1
			}
			for p := 0; p < parts; p++ {
				emit(fmt.Sprintf("%s:%d", s.key(), p), func(t *T) { n03case(t, apks, s, p, parts) })
			}
		}
	})
}
