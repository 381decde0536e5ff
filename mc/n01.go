package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("N01", check{run: runN01, level: "model_checking",
		rule: "real InstallPackages over built packages: all ordered pairs of packages over 17 kinds of entry for one path (absent, regular files of differing content/mode/attributes/checksum record, symlinks, directory, hard link, other spellings) x origins x replaces relations, in one or two calls, all ordered triples over the regular kinds, pre-existing files, directories reached through links, and special modes, sizes and names; in memory and on disk; the resulting tree is compared in full with an overlay computed on a reference tree; " +
			"non-trivial when at least two packages have an entry for the same path",
		assumptions: []string{"packages carry an entry for every parent directory", "packages that replace each other mutually, and directories of one path with different modes, are left open", "ownership of installed files is recorded in the database, not in the tree"}})
}

// instEnv installs prebuilt packages into one filesystem.
type instEnv struct {
	fs   apkfs.FullFS
	a    *apk.APK
	apks map[string]*builtApk
	reqs int
}

// lazyFS receives headers instead of files. It decides about overlaps by the rules of the overlay.
type lazyFS struct {
	apkfs.FullFS
	got   []string
	bad   string
	owner map[string]*apk.Package
}

func (l *lazyFS) WriteHeader(h tar.Header, tfs fs.FS, p *apk.Package) (bool, error) {
	l.got = append(l.got, fmt.Sprintf("%s %s:%c:%o:%s", p.Name, h.Name, h.Typeflag, h.Mode, h.Linkname))
	n := path.Clean(h.Name)
	switch h.Typeflag {
	case tar.TypeDir:
		if err := l.MkdirAll(n, h.FileInfo().Mode()&^fs.ModeDir); err != nil {
			return false, err
		}
		return true, l.setx(n, h)
	case tar.TypeSymlink:
		return true, l.Symlink(h.Linkname, n)
	case tar.TypeLink:
		return true, l.Link(h.Linkname, n)
	}
	f, err := tfs.Open(h.Name)
	if err != nil {
		l.bad = fmt.Sprintf("cannot open %s of the package given along: %v", h.Name, err)
		return false, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		l.bad = fmt.Sprintf("cannot read %s of the package given along: %v", h.Name, err)
		return false, err
	}
	if old, err := l.ReadFile(n); err == nil {
		if bytes.Equal(old, b) {
			return false, nil
		}
		w := l.owner[n]
		if w != nil && hasStr(w.Replaces, p.Name) {
			return false, nil
		}
		if w == nil || !(w.Origin != "" && w.Origin == p.Origin) && !hasStr(p.Replaces, w.Name) {
			return false, fmt.Errorf("overlap at %s", h.Name)
		}
		if err := l.Remove(n); err != nil {
			return false, err
		}
	}
	if err := l.WriteFile(n, b, h.FileInfo().Mode()); err != nil {
		return false, err
	}
	l.owner[n] = p
	return true, l.setx(n, h)
}

func (l *lazyFS) setx(n string, h tar.Header) error {
	for k, v := range h.PAXRecords {
		if strings.HasPrefix(k, "SCHILY.xattr.") {
			if err := l.SetXattr(n, k[len("SCHILY.xattr."):], []byte(v)); err != nil {
				return err
			}
		}
	}
	return nil
}

func newInst(t *T, kind, sub string, ref *refFS) *instEnv {
	e := &instEnv{apks: map[string]*builtApk{}}
	lazy := kind == "lazy"
	if lazy {
		kind = "mem"
	}
	e.fs = mkFS(t, kind, sub)
	for _, p := range []string{"lib", "lib/apk", "lib/apk/db", "lib/apk/exec", "etc", "etc/apk"} {
		must(e.fs.MkdirAll(p, 0o755))
	}
	for _, p := range []string{"lib/apk/db/installed", "lib/apk/db/scripts.tar", "lib/apk/db/triggers"} {
		must(e.fs.WriteFile(p, nil, 0o644))
	}
	must(e.fs.WriteFile("etc/apk/world", []byte("a\n"), 0o644))
	must(e.fs.WriteFile("sentinel", []byte("sentinel"), 0o600))
	if ref != nil {
		for _, p := range []string{"lib", "lib/apk", "lib/apk/exec", "etc", "etc/apk"} {
			must(ref.mkdirAll(p, 0o755))
		}
		must(ref.write("etc/apk/world", "a\n", 0o644, false, false))
		must(ref.write("sentinel", "sentinel", 0o600, false, false))
	}
	f := e.fs
	if lazy {
		f = &lazyFS{FullFS: e.fs, owner: map[string]*apk.Package{}}
		e.fs = f
	}
	e.a = newAPK(apk.WithFS(f))
	e.a.SetClient(mapClient(e))
	return e
}

// mapClient serves the packages of e.
func mapClient(e *instEnv) *http.Client {
	return &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		e.reqs++
		b := e.apks[r.URL.String()]
		if b == nil {
			return respond(404, nil, nil), nil
		}
		return respond(200, b.all, nil), nil
	})}
}

func (e *instEnv) pkg(b *builtApk, n int) apk.InstallablePackage {
	u := fmt.Sprintf("https://inst.example/%d/%s-%s.apk", n, b.name, b.ver)
	e.apks[u] = b
	return fakePkg{b.name, u, b.q1}
}

func (e *instEnv) install(sde *time.Time, bs ...*builtApk) error {
	var l []apk.InstallablePackage
	for i, b := range bs {
		l = append(l, e.pkg(b, i))
	}
	return e.a.InstallPackages(context.Background(), sde, l)
}

// overlay is the reference: which package owns a regular file, and the tree.
type overlay struct {
	ref   *refFS
	owner map[string]*builtApk
	names map[string]bool
	// per package the entries it owns, in order of installation
	rec  []*builtApk
	ents map[*builtApk][]tent
}

func newOverlay(ref *refFS) *overlay {
	return &overlay{ref: ref, owner: map[string]*builtApk{}, names: map[string]bool{}, ents: map[*builtApk][]tent{}}
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// install applies one package; it returns the path at which it must fail.
func (o *overlay) install(b *builtApk) (bad string) {
	if o.names[b.name] {
		return ""
	}
	started := false
	var mine []tent
	for _, e := range b.data {
		if !started && strings.HasPrefix(e.name, ".") && !strings.Contains(e.name, "/") {
			continue
		}
		started = true
		p := path.Clean(e.name)
		mode := fs.FileMode(e.mode & 0o777)
		if e.mode&0o4000 != 0 {
			mode |= fs.ModeSetuid
		}
		if e.mode&0o2000 != 0 {
			mode |= fs.ModeSetgid
		}
		if e.mode&0o1000 != 0 {
			mode |= fs.ModeSticky
		}
		old, err := o.ref.get(p, false)
		if err != nil && err != eNoent {
			return p
		}
		setx := func(n *rnode) {
			for k, v := range e.pax {
				if strings.HasPrefix(k, "SCHILY.xattr.") {
					if n.xattr == nil {
						n.xattr = map[string]string{}
					}
					n.xattr[k[len("SCHILY.xattr."):]] = v
				}
			}
		}
		switch e.typ {
		case tar.TypeDir:
			if old == nil {
				if o.ref.mkdirAll(p, mode) != nil {
					return p
				}
			} else if n, err := o.ref.get(p, true); err != nil || n.kind != 'd' {
				return p
			}
			n, _ := o.ref.get(p, true)
			setx(n)
			mine = append(mine, e)
		case tar.TypeReg:
			if old != nil {
				if old.kind != 'f' {
					return p
				}
				if old.data == e.body {
					if o.owner[p] == nil {
						mine = append(mine, e)
					}
					continue
				}
				w := o.owner[p]
				if w == nil {
					return p
				}
				if hasStr(w.replaces, b.name) {
					continue
				}
				if !(w.origin != "" && w.origin == b.origin) && !hasStr(b.replaces, w.name) {
					return p
				}
				must(o.ref.remove(p))
			}
			if o.ref.write(p, e.body, mode, true, false) != nil {
				return p
			}
			n, _ := o.ref.get(p, false)
			setx(n)
			o.owner[p] = b
			mine = append(mine, e)
		case tar.TypeSymlink:
			if old != nil {
				if old.kind != 'l' || old.target != e.link {
					return p
				}
				continue
			}
			if o.ref.symlink(e.link, p) != nil {
				return p
			}
			mine = append(mine, e)
		case tar.TypeLink:
			if old != nil || o.ref.link(path.Clean(e.link), p) != nil {
				return p
			}
			mine = append(mine, e)
		default:
			return p
		}
	}
	o.names[b.name] = true
	o.rec = append(o.rec, b)
	o.ents[b] = mine
	return ""
}

// treePaths lists all paths of the reference tree.
func treePaths(r *refFS) []string {
	l := []string{"."}
	var rec func(n *rnode, at string)
	rec = func(n *rnode, at string) {
		for _, k := range n.names() {
			p := path.Join(at, k)
			l = append(l, p)
			if n.kids[k].kind == 'd' {
				rec(n.kids[k], p)
			}
		}
	}
	rec(r.root, "")
	return l
}

// instTree compares the tree with the reference, the package database left aside.
func instTree(f apkfs.FullFS, r *refFS) string {
	full := &refFS{root: r.root}
	lib, _ := full.get("lib/apk", true)
	if lib == nil {
		return "harness: no lib/apk"
	}
	fi, err := f.ReadDir("lib/apk/db")
	if err != nil {
		return fmt.Sprintf("lib/apk/db: %v", err)
	}
	for _, e := range fi {
		if n := e.Name(); n != "installed" && n != "scripts.tar" && n != "triggers" {
			return "unexpected lib/apk/db/" + n
		}
	}
	lib.kids["db"] = &rnode{kind: 'd', mode: 0o755, kids: map[string]*rnode{}}
	defer delete(lib.kids, "db")
	return cmpTree(f, full, treePaths(full), obsOpts{xattr: true, skip: func(p string) bool { return p == "lib/apk/db" || strings.HasPrefix(p, "lib/apk/db/") }})
}

type n01kind struct {
	name string
	es   func(p string) []tent
}

func xreg(p, body string, kv ...string) tent {
	e := reg(p, body)
	e.pax = map[string]string{}
	for i := 0; i < len(kv); i += 2 {
		e.pax["SCHILY.xattr."+kv[i]] = kv[i+1]
	}
	return e
}

func modeE(e tent, m int64) tent { e.mode = m; return e }
func noSumE(e tent) tent         { e.noSum = true; return e }
func q1SumE(e tent) tent {
	s := sha1.Sum([]byte(e.body))
	e.sum = "Q1" + base64.StdEncoding.EncodeToString(s[:])
	return e
}

func n01kinds() []n01kind {
	one := func(f func(p string) tent) func(p string) []tent {
		return func(p string) []tent { return []tent{f(p)} }
	}
	return []n01kind{
		{"absent", func(string) []tent { return nil }},
		{"1", one(func(p string) tent { return reg(p, "1") })},
		{"1m755", one(func(p string) tent { return modeE(reg(p, "1"), 0o755) })},
		{"2m600", one(func(p string) tent { return modeE(reg(p, "2"), 0o600) })},
		{"2x", one(func(p string) tent { return xreg(p, "2", "user.k", " v\x00w\n") })},
		{"long", one(func(p string) tent { return reg(p, strings.Repeat("L", 5000)) })},
		{"empty", one(func(p string) tent { return reg(p, "") })},
		{"2nosum", one(func(p string) tent { return noSumE(reg(p, "2")) })},
		{"2q1", one(func(p string) tent { return q1SumE(reg(p, "2")) })},
		{"sym-g", one(func(p string) tent { return symE(p, "g") })},
		{"sym-h", one(func(p string) tent { return symE(p, "h") })},
		{"dir", one(func(p string) tent { return dirE(p + "/") })},
		{"dirx", one(func(p string) tent {
			d := dirE(p + "/")
			d.pax = map[string]string{"SCHILY.xattr.user.k": " v\x00w \n", "SCHILY.xattr.security.capability": "\x01\x00\x00\x02 "}
			return d
		})},
		{"sym-../d/g", one(func(p string) tent { return symE(p, "../d/g") })},
		{"hard-g", one(func(p string) tent { return lnkE(p, "d/g") })},
		{"./1", one(func(p string) tent { return reg("./"+p, "1") })},
		{"./2", one(func(p string) tent { return reg("./"+p, "2") })},
	}
}

// instRun runs one sequence of calls on the code and the reference, up to the first call that is
// expected to fail (bad is the path it fails at) or fails.
func instRun(t *T, kind, key string, calls [][]*builtApk, pre func(f apkfs.FullFS, r *refFS)) (e *instEnv, o *overlay, call int, bad string, err error) {
	ref := newRef()
	e = newInst(t, kind, "n"+fmt.Sprint(hashStr(key)), ref)
	if pre != nil {
		pre(e.fs, ref)
	}
	o = newOverlay(ref)
	for ci, bs := range calls {
		for _, b := range bs {
			if bad = o.install(b); bad != "" {
				break
			}
		}
		err = e.install(nil, bs...)
		t.Trans(len(bs))
		if bad != "" || err != nil {
			return e, o, ci, bad, err
		}
	}
	return e, o, len(calls), "", nil
}

// n01case runs one sequence of calls and compares the outcome and the tree.
func n01case(t *T, kind, key string, calls [][]*builtApk, pre func(f apkfs.FullFS, r *refFS), what string) {
	e, o, ci, bad, err := instRun(t, kind, key, calls, pre)
	if bad != "" {
		t.Outcome("overlap-error")
		if err == nil {
			t.Fail("accepted:"+what, "%s: the overlap at %s must make the installation fail (call %d), but it succeeds", key, bad, ci)
		} else if !strings.Contains(err.Error(), bad) {
			t.Fail("unnamed:"+what, "%s: the error does not name the path %s: %v", key, bad, err)
		}
		if b, err := e.fs.ReadFile("sentinel"); err != nil || string(b) != "sentinel" {
			t.Fail("sentinel", "%s: an unrelated file changed: %q, %v", key, b, err)
		}
		t.Trace(1)
		return
	}
	if err != nil {
		t.Fail("refused:"+what, "%s: the installation fails (call %d): %v", key, ci, err)
		return
	}
	if l, ok := e.fs.(*lazyFS); ok {
		if l.bad != "" {
			t.Fail("lazy", "%s: %s", key, l.bad)
		}
		var want []string
		for _, b := range o.rec {
			started := false
			for _, x := range b.data {
				if !started && strings.HasPrefix(x.name, ".") && !strings.Contains(x.name, "/") {
					continue
				}
				started = true
				want = append(want, fmt.Sprintf("%s %s:%c:%o:%s", b.name, x.name, x.typ, x.mode, x.link))
			}
		}
		if strings.Join(l.got, "\n") != strings.Join(want, "\n") {
			t.Fail("lazy-entries", "%s: the filesystem is given the entries %q, expected %q", key, l.got, want)
		}
	}
	if d := instTree(e.fs, o.ref); d != "" {
		t.Fail("tree:"+what, "%s: %s", key, d)
	}
	t.State(o.ref.dump())
	t.Trace(1)
	t.Outcome("installed")
}

func n01pkg(name, origin string, replaces []string, es []tent) *builtApk {
	data := []tent{dirE("d/"), reg("d/g", "g")}
	return apkSpec{name: name, ver: "1-r0", origin: origin, replaces: replaces, data: append(data, es...)}.build()
}

func runN01(c *C) {
	kinds := n01kinds()
	c.Sample("a ships d/f '1' 0644, b (same origin) ships d/f '2' 0600 with an attribute")
	origins := [][2]string{{"", ""}, {"", "o"}, {"o", ""}, {"o", "o"}, {"o", "p"}, {"ab", "ab"}, {"o", "oo"}}
	reps := []string{"none", "b>a", "a>b", "b>x", "a>x"}
	reg3 := []int{0, 1, 3, 4, 7}
	c.Run(func(emit func(string, func(*T))) {
		// pairs
		for _, kind := range []string{"mem", "dir"} {
			for ka := range kinds {
				kind, ka := kind, ka
				emit(fmt.Sprintf("pair:%s:%s", kind, kinds[ka].name), func(t *T) {
					for kb := range kinds {
						for _, og := range origins {
							for _, rp := range reps {
								t.Tick()
								var ra, rb []string
								switch rp {
								case "b>a":
									rb = []string{"zz", "ab"}
								case "a>b":
									ra = []string{"bb", "q"}
								case "a>x":
									ra = []string{"b", "a", "bbc", "BB", "x", "o", "p", "oo"}
								case "b>x":
									rb = []string{"a", "b", "abc", "AB", "x", "o", "p", "oo"}
								}
								a := n01pkg("ab", og[0], ra, kinds[ka].es("d/f"))
								b := n01pkg("bb", og[1], rb, kinds[kb].es("d/f"))
								for _, two := range []bool{false, true} {
									if two && (kind == "dir" || strings.HasSuffix(rp, "x")) {
										continue
									}
									calls := [][]*builtApk{{a, b}}
									if two {
										calls = [][]*builtApk{{a}, {b}}
									}
									key := fmt.Sprintf("pair:%s:%s/%s:%s/%s:%s:%v", kind, kinds[ka].name, kinds[kb].name, og[0], og[1], rp, two)
									t.Eval(ka != 0 && kb != 0)
									n01case(t, kind, key, calls, nil, kinds[ka].name+"+"+kinds[kb].name)
								}
							}
						}
					}
				})
			}
		}
		// triples over the regular kinds
		og3 := [][3]string{{"o", "o", "o"}, {"o", "p", "o"}, {"o", "o", "p"}, {"p", "o", "o"}, {"", "o", "o"}, {"o", "p", "q"}}
		rep3 := [][3][]string{{}, {nil, nil, {"a"}}, {nil, nil, {"b"}}, {nil, {"a"}, nil}, {nil, {"a"}, {"b"}}, {nil, {"a"}, {"a", "b"}}, {{"b"}, nil, nil}, {{"b", "c"}, nil, nil}, {{"c"}, nil, {"b"}}, {nil, {"c"}, nil}, {nil, {"a", "c"}, nil}, {{"c"}, {"a"}, nil}}
		kinds3 := reg3
		if c.Thorough() {
			kinds3 = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11}
		}
		for oi, og := range og3 {
			for ri, rp := range rep3 {
				for _, ka := range kinds3 {
					oi, og, ri, rp, ka := oi, og, ri, rp, ka
					emit(fmt.Sprintf("triple:%d:%d:%s", oi, ri, kinds[ka].name), func(t *T) {
						for _, kb := range kinds3 {
							for _, kc := range kinds3 {
								t.Tick()
								a := n01pkg("a", og[0], rp[0], kinds[ka].es("d/f"))
								b := n01pkg("b", og[1], rp[1], kinds[kb].es("d/f"))
								cc := n01pkg("c", og[2], rp[2], kinds[kc].es("d/f"))
								key := fmt.Sprintf("triple:%d:%d:%s/%s/%s", oi, ri, kinds[ka].name, kinds[kb].name, kinds[kc].name)
								t.Eval(true)
								n01case(t, "mem", key, [][]*builtApk{{a, b, cc}}, nil, "triple")
							}
						}
					})
				}
			}
		}
		// two contested paths: each is decided for itself
		for ki := 0; ki < 4; ki++ {
			ki := ki
			emit(fmt.Sprintf("two:%d", ki), func(t *T) {
				sel := []int{0, 1, 3, 9}
				for _, k2 := range sel {
					for _, k3 := range sel {
						for _, k4 := range sel {
							for _, rb := range [][]string{nil, {"a"}} {
								a := n01pkg("a", "o", nil, append(kinds[sel[ki]].es("d/f"), kinds[k2].es("d/h")...))
								b := n01pkg("b", "p", rb, append(kinds[k3].es("d/f"), kinds[k4].es("d/h")...))
								for _, kd := range []string{"mem", "dir"} {
									t.Eval(true)
									n01case(t, kd, fmt.Sprintf("two:%d:%d:%d:%d:%v:%s", ki, k2, k3, k4, rb, kd), [][]*builtApk{{a, b}}, nil, "two")
								}
							}
						}
					}
				}
			})
		}
		// files that were there before
		emit("pre", func(t *T) {
			for ka := range kinds {
				for pi, pre := range []func(f apkfs.FullFS, r *refFS){
					func(f apkfs.FullFS, r *refFS) {
						must(f.MkdirAll("d", 0o755))
						must(f.WriteFile("d/f", []byte("1"), 0o640))
						must(r.mkdirAll("d", 0o755))
						must(r.write("d/f", "1", 0o640, true, false))
					},
					func(f apkfs.FullFS, r *refFS) {
						must(f.MkdirAll("d", 0o755))
						must(f.WriteFile("d/f", []byte("other"), 0o640))
						must(r.mkdirAll("d", 0o755))
						must(r.write("d/f", "other", 0o640, true, false))
					},
					func(f apkfs.FullFS, r *refFS) {
						must(f.MkdirAll("d/f", 0o755))
						must(r.mkdirAll("d/f", 0o755))
					},
					func(f apkfs.FullFS, r *refFS) {
						must(f.MkdirAll("d", 0o755))
						must(f.Symlink("g", "d/f"))
						must(r.mkdirAll("d", 0o755))
						must(r.symlink("g", "d/f"))
					},
					func(f apkfs.FullFS, r *refFS) {
						must(f.MkdirAll("e", 0o755))
						must(f.Symlink("e", "d"))
						must(r.mkdirAll("e", 0o755))
						must(r.symlink("e", "d"))
					},
					func(f apkfs.FullFS, r *refFS) {
						must(f.WriteFile("d", []byte("a file"), 0o644))
						must(r.write("d", "a file", 0o644, true, false))
					},
					func(f apkfs.FullFS, r *refFS) {
						must(f.Symlink("nowhere", "d"))
						must(r.symlink("nowhere", "d"))
					},
				} {
					for _, kd := range []string{"mem", "dir"} {
						t.Eval(true)
						n01case(t, kd, fmt.Sprintf("pre:%s:%d:%s", kinds[ka].name, pi, kd), [][]*builtApk{{n01pkg("a", "o", nil, kinds[ka].es("d/f"))}}, pre, fmt.Sprintf("pre%d", pi))
					}
				}
			}
		})
		// special shapes
		lname := strings.Repeat("n", 120)
		shapes := map[string][]tent{
			"modes":      {modeE(dirE("tmp/"), 0o1777), modeE(dirE("s/"), 0o2755), modeE(dirE("priv/"), 0o700), modeE(reg("tmp/su", "s"), 0o4755), modeE(reg("tmp/sg", "g"), 0o2755), modeE(reg("tmp/no", "n"), 0), modeE(reg("tmp/ro", "r"), 0o400), modeE(reg("priv/x", "x"), 0o111)},
			"sizes":      {dirE("z/"), reg("z/0", ""), reg("z/1", "x"), reg("z/511", noise(511)), reg("z/512", noise(512)), reg("z/513", noise(513)), reg("z/64k", noise(65536)), reg("z/300k", noise(300000)), noSumE(reg("z/ns0", "")), noSumE(reg("z/ns", noise(70000)))},
			"names":      {dirE(lname + "/"), dirE(lname + "/" + lname + "/"), reg(lname+"/"+lname+"/"+lname, "deep"), reg("root file", "r"), reg("ünï", "u"), reg("a:b=c;d#e", "p"), reg("-dash", "d"), reg("back\\slash", "b")},
			"hidden":     {reg(".PKGINFO", "skipped"), reg(".pre-install", "skipped"), dirE("d2/"), reg(".later", "kept"), reg("d2/.hid", "kept"), dirE(".hdir/"), reg(".hdir/f", "kept")},
			"hiddendir":  {dirE(".hdir/"), reg(".hdir/f", "kept"), reg(".later", "kept")},
			"hiddenonly": {reg(".x", "skipped")},
			"links":      {dirE("l/"), reg("l/t", "target"), symE("l/rel", "t"), symE("l/abs", "/l/t"), symE("l/dang", "nowhere/at/all"), symE("l/up", "../l/t"), symE("l/self", "self"), lnkE("l/hard", "l/t"), lnkE("l/hard2", "l/hard"), symE("l/dir", "."), lnkE("l/hardsym", "l/rel")},
			"xattrs":     {{name: "x/", typ: tar.TypeDir, mode: 0o755, pax: map[string]string{"SCHILY.xattr.user.d": "dir"}}, xreg("x/f", "1", "security.capability", "\x01\x00\x00\x02\xff", "user.a", "", "user.b", "=x"), noSumE(xreg("x/g", "2", "user.c", "v"))},
			"missingdir": {dirE("m/n/o/"), reg("m/n/o/f", "1")},
			"again":      {dirE("g/"), dirE("g/"), reg("g/f", "1"), dirE("g/"), reg("g/f", "1")},
			"dot":        {dirE("./"), dirE("./q/"), reg("./q/f", "1"), reg("./r", "2"), symE("./q/s", "f"), lnkE("./q/h", "./q/f")},
			"empty":      {},
			"slink":      {dirE("e/"), symE("w", "e"), dirE("w/"), reg("w/f", "through"), reg("e/g", "1")},
			"overown":    {dirE("h/"), reg("h/t", "first"), lnkE("h/u", "h/t"), reg("h/t", "second"), lnkE("h/v", "h/t")},
		}
		var sn []string
		for k := range shapes {
			sn = append(sn, k)
		}
		sort.Strings(sn)
		for _, k := range sn {
			k := k
			emit("shape:"+k, func(t *T) {
				for _, kd := range []string{"mem", "dir", "lazy"} {
					if kd == "lazy" && (k == "again" || k == "overown" || k == "slink" || k == "dot") {
						continue
					}
					for _, og := range []string{"", "o"} {
						if k == "overown" && og == "" {
							continue
						}
						for _, twice := range []bool{false, true} {
							calls := [][]*builtApk{{apkSpec{name: "a", ver: "1-r0", origin: og, data: shapes[k]}.build()}}
							if twice {
								if k == "overown" || kd == "lazy" || k == "links" {
									continue
								}
								// a second package ships exactly the same
								b := append([]tent{}, shapes[k]...)
								calls[0] = append(calls[0], apkSpec{name: "b", ver: "1-r0", data: b}.build())
							}
							if kd == "dir" && k == "names" && twice {
								continue
							}
							t.Eval(twice || len(shapes[k]) > 0)
							t.Tick()
							n01case(t, kd, fmt.Sprintf("shape:%s:%s:%s:%v", k, kd, og, twice), calls, nil, "shape-"+k)
						}
					}
				}
			})
		}
		// entry types that cannot be installed must be an error, not a silent loss
		emit("unsupported", func(t *T) {
			for _, typ := range []byte{tar.TypeChar, tar.TypeBlock, tar.TypeFifo} {
				es := []tent{dirE("d/"), {name: "d/dev", typ: typ, mode: 0o600, major: 1, minor: 3}}
				t.Eval(true)
				n01case(t, "mem", fmt.Sprintf("unsupported:%c", typ), [][]*builtApk{{apkSpec{name: "a", ver: "1-r0", data: es}.build()}}, nil, "type")
			}
		})
		// a directory that is a link in one package and a directory in the other
		emit("dirlink", func(t *T) {
			for _, kd := range []string{"mem", "dir"} {
				for _, same := range []bool{true, false} {
					for _, og := range []string{"o", "p", ""} {
						body := "1"
						if !same {
							body = "2"
						}
						a := apkSpec{name: "a", ver: "1-r0", origin: "o", data: []tent{dirE("e/"), reg("e/f", "1"), symE("l", "e")}}.build()
						b := apkSpec{name: "b", ver: "1-r0", origin: og, data: []tent{dirE("l/"), reg("l/f", body), reg("l/n", "new")}}.build()
						if !same && og == "o" {
							continue // the rule speaks of paths; this one is reached by two
						}
						t.Eval(true)
						n01case(t, kd, fmt.Sprintf("dirlink:%s:%v:%s", kd, same, og), [][]*builtApk{{a, b}}, nil, "dirlink")
						// the other way round the link finds a directory
						t.Eval(true)
						n01case(t, kd, fmt.Sprintf("linkdir:%s:%v:%s", kd, same, og), [][]*builtApk{{b, a}}, nil, "linkdir")
					}
				}
			}
		})
	})
	c.Note("packages", "13+ entry kinds")
}
