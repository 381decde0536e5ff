package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("E03", check{run: runE03, level: "model_checking",
		rule: "histories of up to three installations of a package from one place (network or local file; without a cache, with one, as the same and as a later process), each with the checksum of one of two packages and the place holding any combination of signature, control and data sections of both packages, recompressed, shortened at a member, extended or damaged (every byte of the sections flipped, every truncation); also multi-package calls, index-driven installation and resolution, and malformed checksums; " +
			"success must give exactly the vouched-for tree and record, failure must leave tree and database as they were, and the right content must be accepted; non-trivial when the place holds something else than the vouched-for package at some step",
		assumptions: []string{"a control section that gives no data hash vouches for any data section", "a later process is represented by a URL or path spelling with the same cache entry"}})
}

type e03pair struct{ a, b *builtApk }

func e03mk(signed bool) e03pair {
	mk := func(id string) *builtApk {
		return apkSpec{name: "p", ver: "1-r0", signed: signed, info: []string{"url = " + id}, splits: []int{1024},
			scripts: []tent{{name: ".post-install", typ: '0', mode: 0o755, body: "#!/bin/sh\necho " + id + "\n"}},
			data:    []tent{dirE("opt"), reg("opt/"+id, "body of "+id), reg("opt/same", strings.Repeat(id, 40)), symE("opt/l", "same")}}.build()
	}
	return e03pair{mk("A"), mk("B")}
}

// variants of a data section: the index names what changed.
func e03dats(p e03pair) map[string][]byte {
	a, b := p.a, p.b
	m := map[string][]byte{"A": a.dat, "B": b.dat}
	first := a.members[0] - len(a.sig) - len(a.ctl)
	m["A-firstmember"] = a.dat[:first]
	m["A+member"] = append(bytes.Clone(a.dat), gz(makeTar([]tent{reg("opt/extra", "x")}, true, true))...)
	m["A-regz"] = gz(a.datTar)
	m["A+junk"] = append(bytes.Clone(a.dat), "junk"...)
	m["empty"] = gz(makeTar(nil, true, true))
	return m
}

var e03paths = []string{"lib", "lib/apk", "lib/apk/db", "lib/apk/exec", "etc", "etc/apk"}

func e03fs() apkfs.FullFS {
	f := apkfs.NewMemFS()
	for _, p := range e03paths {
		must(f.MkdirAll(p, 0o755))
	}
	for _, p := range []string{"lib/apk/db/installed", "lib/apk/db/scripts.tar", "lib/apk/db/triggers"} {
		must(f.WriteFile(p, nil, 0o644))
	}
	must(f.WriteFile("sentinel", []byte("sentinel"), 0o600))
	return f
}

// fsDump lists everything in a filesystem: kind, mode, target, content.
func fsDump(f apkfs.FullFS) string {
	var out strings.Builder
	var rec func(p string)
	rec = func(p string) {
		es, err := f.ReadDir(p)
		if err != nil {
			fmt.Fprintf(&out, "%s: %v\n", p, err)
			return
		}
		for _, e := range es {
			q := filepath.Join(p, e.Name())
			fi, err := f.Lstat(q)
			if err != nil {
				fmt.Fprintf(&out, "%s: %v\n", q, err)
				continue
			}
			fmt.Fprintf(&out, "%s %v", q, fi.Mode())
			switch {
			case fi.IsDir():
			case fi.Mode()&os.ModeSymlink != 0:
				l, err := f.Readlink(q)
				fmt.Fprintf(&out, " -> %s %v", l, err)
			default:
				b, err := f.ReadFile(q)
				fmt.Fprintf(&out, " %q %v", b, err)
			}
			out.WriteString("\n")
			if fi.IsDir() {
				rec(q)
			}
		}
	}
	rec(".")
	return out.String()
}

// e03want checks that exactly package b is installed.
func e03want(f apkfs.FullFS, b *builtApk) string {
	want := e03fs()
	for _, e := range b.data {
		switch e.typ {
		case '5':
			must(want.MkdirAll(e.name, 0o755))
		case '0':
			must(want.WriteFile(e.name, []byte(e.body), os.FileMode(e.mode)))
		case '2':
			must(want.Symlink(e.link, e.name))
		}
	}
	strip := func(s string) string {
		var l []string
		for _, x := range strings.Split(s, "\n") {
			if !strings.HasPrefix(x, "lib/apk/db/") {
				l = append(l, x)
			}
		}
		return strings.Join(l, "\n")
	}
	if g, w := strip(fsDump(f)), strip(fsDump(want)); g != w {
		return fmt.Sprintf("tree is\n%s\nand not\n%s", g, w)
	}
	db := string(must1(f.ReadFile("lib/apk/db/installed")))
	if n := strings.Count(db, "\nP:") + strings.Count(db[:min(2, len(db))], "P:"); n != 1 || !strings.Contains("\n"+db, "\nC:"+b.q1+"\n") {
		return fmt.Sprintf("installed database does not hold exactly the record with checksum %s: %q", b.q1, db)
	}
	sc := string(must1(f.ReadFile("lib/apk/db/scripts.tar")))
	if !strings.Contains(sc, b.scripts[0].body) {
		return "the script of the vouched-for package is not recorded"
	}
	return ""
}

// e03place is where the package is fetched from.
type e03place struct {
	url  func(variant int) string
	set  func(b []byte)
	cl   *http.Client
	reqs int
}

func e03at(t *T, kind, id string) *e03place {
	p := &e03place{}
	if kind == "file" {
		dir := filepath.Join(t.Dir(), "repo-"+hx(id), "x86_64")
		must(os.MkdirAll(dir, 0o755))
		p.url = func(v int) string { return dir + strings.Repeat("/.", v) + "/p-1-r0.apk" }
		p.set = func(b []byte) { must(os.WriteFile(dir+"/p-1-r0.apk", b, 0o644)) }
		p.cl = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) { p.reqs++; return respond(404, nil, nil), nil })}
		return p
	}
	var cur []byte
	host := "e03-" + hx(id) + ".example"
	p.url = func(v int) string {
		u := "https://" + host + "/r/x86_64/p-1-r0.apk"
		if v > 0 {
			u += fmt.Sprintf("?p=%d", v)
		}
		return u
	}
	p.set = func(b []byte) { cur = b }
	p.cl = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		p.reqs++
		if r.URL.Host != host {
			return respond(404, nil, nil), nil
		}
		return respond(200, cur, nil), nil
	})}
	return p
}

type e03step struct {
	name    string // what the place holds
	body    []byte
	sum     string // "A" or "B"
	variant int
	intact  bool // the place holds all of the vouched-for control and data sections
}

// e03run plays one history.
func e03run(t *T, key, kind, cache string, p e03pair, steps []e03step) {
	id := key + kind + cache
	pl := e03at(t, kind, id)
	dir := ""
	if cache != "" {
		dir = filepath.Join(t.Dir(), "cache-"+hx(id))
		must(os.MkdirAll(dir, 0o755))
	}
	have := map[string]bool{} // packages got before with this cache
	odd := false
	desc := ""
	for i, s := range steps {
		pl.set(s.body)
		f := e03fs()
		before := fsDump(f)
		opts := []apk.Option{apk.WithFS(f)}
		if dir != "" {
			opts = append(opts, apk.WithCache(dir, false))
		}
		a := newAPK(opts...)
		a.SetClient(pl.cl)
		w := p.a
		if s.sum == "B" {
			w = p.b
		}
		desc += fmt.Sprintf("[%d: place holds %s, checksum of %s, process %d] ", i+1, s.name, s.sum, s.variant)
		odd = odd || !s.intact
		err := a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{fakePkg{"p", pl.url(s.variant), w.q1}})
		t.Trans(1)
		if err != nil {
			if s.intact {
				t.Fail(key, "%s %s%sthe vouched-for package is refused: %v", kind, cache, desc, err)
				break
			}
			if g := fsDump(f); g != before {
				t.Fail(key, "%s %s%sinstallation fails (%v) and leaves\n%s\ninstead of\n%s", kind, cache, desc, err, g, before)
				break
			}
			t.Outcome("refused")
			continue
		}
		if bad := e03want(f, w); bad != "" {
			t.Fail(key, "%s %s%sinstallation succeeds but %s", kind, cache, desc, bad)
			break
		}
		if !s.intact && !have[s.sum] {
			t.Fail(key, "%s %s%sinstallation succeeds although the place does not hold the vouched-for package", kind, cache, desc)
			break
		}
		if dir != "" {
			have[s.sum] = true
		}
		t.Outcome("installed")
	}
	t.Eval(odd)
	t.State(id)
	t.Trace(1)
}

func runE03(c *C) {
	c.Sample("cache: [place holds control of A, data of B, checksum of A] [place holds A, checksum of A, later process]")
	pairs := []e03pair{e03mk(true), e03mk(false)}
	order := []string{"A", "B", "A-firstmember", "A+member", "A-regz", "A+junk", "empty"}
	c.Run(func(emit func(string, func(*T))) {
		type place struct{ kind, cache string }
		places := []place{{"http", ""}, {"http", "cache "}, {"file", ""}, {"file", "cache "}}
		for pi, p := range pairs {
			pi, p := pi, p
			dats := e03dats(p)
			// menu of what the place can hold
			var full, core []e03step
			for _, sum := range []string{"A", "B"} {
				for _, cn := range []string{"A", "B"} {
					ctl := p.a.ctl
					if cn == "B" {
						ctl = p.b.ctl
					}
					for _, dn := range order {
						body := append(append(bytes.Clone(p.a.sig), ctl...), dats[dn]...)
						s := e03step{name: "control of " + cn + " and data " + dn, body: body, sum: sum, intact: cn == sum && dn == sum}
						full = append(full, s)
						if dn == "A" || dn == "B" {
							core = append(core, s)
						}
					}
				}
				if pi == 0 {
					full = append(full, e03step{name: "signature of B with control and data of A", body: append(append(bytes.Clone(p.b.sig), p.a.ctl...), p.a.dat...), sum: sum, intact: sum == "A"},
						e03step{name: "control and data of A without signature", body: append(bytes.Clone(p.a.ctl), p.a.dat...), sum: sum, intact: sum == "A"},
						e03step{name: "an unsigned package in front of B", body: append(append(append(bytes.Clone(p.a.sig), p.a.ctl...), p.a.dat...), p.b.all...), sum: sum})
				}
			}
			at := func(s e03step, v int) e03step { s.variant = v; return s }
			for _, pl := range places {
				pl := pl
				for i := range full {
					i := i
					emit(fmt.Sprintf("two:%d:%s%s:%d", pi, pl.kind, pl.cache, i), func(t *T) {
						e03run(t, fmt.Sprintf("one:%d:%s%s:%d", pi, pl.kind, pl.cache, i), pl.kind, pl.cache, p, full[i:i+1])
						for j := range full {
							for v := 0; v < 2; v++ {
								t.Tick()
								e03run(t, fmt.Sprintf("two:%d:%s%s:%d:%d:%d", pi, pl.kind, pl.cache, i, j, v), pl.kind, pl.cache, p, []e03step{full[i], at(full[j], v)})
							}
						}
					})
				}
				if pl.cache == "" {
					continue
				}
				for i := range core {
					i := i
					emit(fmt.Sprintf("three:%d:%s%s:%d", pi, pl.kind, pl.cache, i), func(t *T) {
						for j := range core {
							for k := range core {
								for v := 0; v < 4; v++ {
									t.Tick()
									v1 := v & 1
									v2 := []int{v1, v1 + 1}[v>>1]
									e03run(t, fmt.Sprintf("three:%d:%s%s:%d:%d:%d:%d", pi, pl.kind, pl.cache, i, j, k, v), pl.kind, pl.cache, p, []e03step{core[i], at(core[j], v1), at(core[k], v2)})
								}
							}
						}
					})
				}
			}
			// every byte of the package damaged, and every truncation
			all := p.a.all
			const blk = 32
			for lo := 0; lo < len(all); lo += blk {
				lo := lo
				emit(fmt.Sprintf("bytes:%d:%d", pi, lo), func(t *T) {
					for k := lo; k < min(lo+blk, len(all)); k++ {
						for _, pl := range places[:2] {
							t.Tick()
							flips := []byte{0x01, 0x80}
							if t.Thorough() {
								flips = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff}
							}
							for _, x := range flips {
								b := bytes.Clone(all)
								b[k] ^= x
								e03damaged(t, fmt.Sprintf("flip:%d:%s:%d:%02x", pi, pl.cache, k, x), pl.kind, pl.cache, p, b, k < len(p.a.sig))
							}
							e03damaged(t, fmt.Sprintf("trunc:%d:%s:%d", pi, pl.cache, k), pl.kind, pl.cache, p, all[:k], false)
						}
					}
				})
			}
			emit(fmt.Sprintf("sums:%d", pi), func(t *T) { e03sums(t, pi, p) })
			emit(fmt.Sprintf("multi:%d", pi), func(t *T) { e03multi(t, pi, p) })
			emit(fmt.Sprintf("world:%d", pi), func(t *T) { e03world(t, pi, p) })
		}
	})
}

// e03damaged installs a damaged package A and then the intact one as a later process.
func e03damaged(t *T, key, kind, cache string, p e03pair, body []byte, sigOnly bool) {
	id := key + kind + cache
	pl := e03at(t, kind, id)
	dir := ""
	if cache != "" {
		dir = filepath.Join(t.Dir(), "cache-"+hx(id))
		must(os.MkdirAll(dir, 0o755))
	}
	for i, b := range [][]byte{body, p.a.all} {
		pl.set(b)
		f := e03fs()
		before := fsDump(f)
		opts := []apk.Option{apk.WithFS(f)}
		if dir != "" {
			opts = append(opts, apk.WithCache(dir, false))
		}
		a := newAPK(opts...)
		a.SetClient(pl.cl)
		err := a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{fakePkg{"p", pl.url(i), p.a.q1}})
		t.Trans(1)
		switch {
		case i == 0 && err == nil && !sigOnly:
			t.Fail(key, "%s%s: a package with a damaged control or data section is installed", kind, cache)
			return
		case i == 1 && err != nil:
			t.Fail(key, "%s%s: the intact package is refused after a damaged download: %v", kind, cache, err)
			return
		case err == nil:
			if bad := e03want(f, p.a); bad != "" {
				t.Fail(key, "%s%s: step %d: %s", kind, cache, i+1, bad)
				return
			}
		default:
			if g := fsDump(f); g != before {
				t.Fail(key, "%s%s: installation fails (%v) and leaves\n%s", kind, cache, err, g)
				return
			}
		}
	}
	t.Eval(true)
	t.Trace(1)
	t.State(id)
}

// e03sums installs the right bytes under malformed or foreign checksums.
func e03sums(t *T, pi int, p e03pair) {
	raw := base64.StdEncoding.EncodeToString(p.a.ctlSum)
	for _, s := range []string{"Q1", "Q1" + raw[:12], "Q2" + raw, "Q1" + base64.StdEncoding.EncodeToString(p.a.ctlSum[:10]), p.b.q1,
		"Q1" + base64.StdEncoding.EncodeToString(append(bytes.Clone(p.a.ctlSum), 0)), "Q1" + base64.StdEncoding.EncodeToString(make([]byte, 20)), "Q1!!!!"} {
		for _, cache := range []string{"", "cache "} {
			for _, kind := range []string{"http", "file"} {
				key := fmt.Sprintf("sum:%d:%s:%s:%s", pi, s, cache, kind)
				pl := e03at(t, kind, key)
				pl.set(p.a.all)
				f := e03fs()
				before := fsDump(f)
				opts := []apk.Option{apk.WithFS(f)}
				if cache != "" {
					opts = append(opts, apk.WithCache(filepath.Join(t.Dir(), "cache-"+hx(key)), false))
				}
				a := newAPK(opts...)
				a.SetClient(pl.cl)
				err := a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{fakePkg{"p", pl.url(0), s}})
				if err == nil {
					t.Fail(key, "%s %sa package is installed under the checksum %q, its own being %s", kind, cache, s, p.a.q1)
				} else if g := fsDump(f); g != before {
					t.Fail(key, "%s %schecksum %q: installation fails (%v) and leaves\n%s", kind, cache, s, err, g)
				}
				t.Eval(true)
				t.Trans(1)
				t.Trace(1)
				t.State(key)
			}
		}
	}
}

// e03multi puts the replaced package into a call with good ones: no record may appear.
func e03multi(t *T, pi int, p e03pair) {
	mk := func(n string) *builtApk {
		return apkSpec{name: n, ver: "1-r0", signed: pi == 0, data: []tent{dirE("opt"), reg("opt/"+n, n)}}.build()
	}
	x, y := mk("x"), mk("y")
	bodies := map[string][]byte{
		"control of A and data B": append(append(bytes.Clone(p.a.sig), p.a.ctl...), p.b.dat...),
		"B":                       p.b.all,
	}
	for name, body := range bodies {
		for pos := 0; pos < 3; pos++ {
			for _, cache := range []string{"", "cache "} {
				key := fmt.Sprintf("multi:%d:%s:%d:%s", pi, name, pos, cache)
				host := "e03m-" + hx(key) + ".example"
				m := map[string][]byte{"x": x.all, "y": y.all, "p": body}
				cl := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
					return respond(200, m[strings.TrimSuffix(filepath.Base(r.URL.Path), ".apk")], nil), nil
				})}
				l := []apk.InstallablePackage{fakePkg{"x", "https://" + host + "/r/x86_64/x.apk", x.q1}, fakePkg{"y", "https://" + host + "/r/x86_64/y.apk", y.q1}}
				bad := fakePkg{"p", "https://" + host + "/r/x86_64/p.apk", p.a.q1}
				l = append(l[:pos], append([]apk.InstallablePackage{bad}, l[pos:]...)...)
				f := e03fs()
				opts := []apk.Option{apk.WithFS(f)}
				if cache != "" {
					opts = append(opts, apk.WithCache(filepath.Join(t.Dir(), "cache-"+hx(key)), false))
				}
				a := newAPK(opts...)
				a.SetClient(cl)
				err := a.InstallPackages(context.Background(), nil, l)
				d := fsDump(f)
				if err == nil {
					t.Fail(key, "%s: a call with a replaced package (%s) at position %d succeeds", cache, name, pos)
				} else if db := must1(f.ReadFile("lib/apk/db/installed")); len(db) != 0 {
					t.Fail(key, "%s: failed call records %q", cache, db)
				} else if strings.Contains(d, "opt/A") || strings.Contains(d, "opt/B") {
					t.Fail(key, "%s: failed call leaves files of the refused package: %s", cache, d)
				}
				t.Eval(true)
				t.Trans(1)
				t.Trace(1)
				t.State(key)
			}
		}
	}
}

// e03world goes through a repository: resolve, then install or describe what the index vouches for.
func e03world(t *T, pi int, p e03pair) {
	dats := e03dats(p)
	type hold struct {
		name string
		body []byte
		ok   bool
	}
	var hs []hold
	hs = append(hs, hold{"A", p.a.all, true}, hold{"B", p.b.all, false})
	for _, dn := range []string{"B", "A-firstmember", "A+member", "A-regz", "A+junk", "empty"} {
		hs = append(hs, hold{"control of A and data " + dn, append(append(bytes.Clone(p.a.sig), p.a.ctl...), dats[dn]...), false})
	}
	for _, h := range hs {
		for _, kind := range []string{"http", "file"} {
			for _, cache := range []string{"", "cache "} {
				{
					key := fmt.Sprintf("world:%d:%s:%s:%s", pi, h.name, kind, cache)
					idx := &apk.APKIndex{Packages: []*apk.Package{{Name: "p", Version: "1-r0", Arch: "x86_64", Checksum: p.a.ctlSum}}}
					rd := must1(apk.ArchiveFromIndex(idx))
					ib := readAll(rd)
					base := filepath.Join(t.Dir(), "w-"+hx(key))
					host := "e03w-" + hx(key) + ".example"
					repo := base + "/repo"
					cl := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
						if strings.HasSuffix(r.URL.Path, "APKINDEX.tar.gz") {
							return respond(200, ib, nil), nil
						}
						return respond(200, h.body, nil), nil
					})}
					if kind == "file" {
						must(os.MkdirAll(repo+"/x86_64", 0o755))
						must(os.WriteFile(repo+"/x86_64/APKINDEX.tar.gz", ib, 0o644))
						must(os.WriteFile(repo+"/x86_64/p-1-r0.apk", h.body, 0o644))
					} else {
						repo = "https://" + host + "/r"
					}
					f := e03fs()
					must(f.MkdirAll("etc/apk/keys", 0o755))
					must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
					must(f.WriteFile("etc/apk/world", []byte("p\n"), 0o644))
					must(f.WriteFile("etc/apk/repositories", []byte(repo+"\n"), 0o644))
					before := fsDump(f)
					opts := []apk.Option{apk.WithFS(f), apk.WithNoSignatureIndexes(repo)}
					if cache != "" {
						opts = append(opts, apk.WithCache(base+"/cache", false))
					}
					a := newAPK(opts...)
					a.SetClient(cl)
					err := a.FixateWorld(context.Background(), nil)
					g := fsDump(f)
					if (err == nil) != h.ok {
						t.Fail(key, "%s: err=%v", key, err)
					} else if err != nil && g != before {
						t.Fail(key, "%s: err=%v leaves\n%s", key, err, g)
					}
					t.Eval(!h.ok)
					t.Trans(1)
					t.Trace(1)
					t.State(key)
				}
			}
		}
	}
}

func hx(s string) string { return fmt.Sprintf("%x", hashStr(s)) }
