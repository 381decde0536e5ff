package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	sign "github.com/chainguard-dev/go-apk/pkg/signature"
	"verif.local/shim/vctx"
	"verif.local/shim/vsched"
)

func init() {
	register("T02", check{run: runT02, level: "model_checking",
		rule: "trees of up to 3 (4) nodes from the pool of T01 with several extended attributes per node, in the in-memory, the disk-backed and a plain directory filesystem: every creation order that has parents first, each at another wall-clock time and with other file times, is written as tarball and compressed archive under a set of configurations with every order of visiting maps up to a bounded number of maps out of order; " +
			"installations of package sequences under map-order policies and clocks; index archives and signed indexes at different times; and all of it again in processes with other environment, time zone, umask, working directory and number of processors; all bytes must be equal; non-trivial when at least two runs are compared",
		assumptions: []string{"the order in which packages are installed is an input, the order in which files of a package appear is part of the package", "maps of more than three elements are visited sorted, reversed, and with one element moved to either end"}})
	children["t02"] = t02child
}

func t02pool() []t01node {
	x := map[string]string{"user.k": "v", "security.capability": "\x01\x00\x00\x02\xff", "user.a": "1", "user.b": ""}
	p := t01pool()
	for i := range p {
		if p[i].xattrs != nil {
			p[i].xattrs = x
		}
	}
	return append(p, t01node{p: "etc", kind: 'd', mode: 0o755}, t01node{p: "a/f2", kind: 'f', mode: 0o640, body: "second", xattrs: x})
}

func t02cfgs() []t01cfg {
	sde := time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)
	return []t01cfg{
		{name: "plain"},
		{name: "full", sde: sde, sums: true, users: true, ru: map[int]int{0: 1000, 5: 2000, 1000: 0}, rg: map[int]int{1000: 2001, 0: 5}, perms: []tar.Header{{Name: "/a/f", Mode: 0o4511, Uid: 9, Gid: 8, Uname: "nine"}, {Name: "a/f", Mode: 0o400, Uid: 3}, {Name: "a/b", Mode: 0o711, Gname: "g"}, {Name: "a/f", Mode: 0o444, Uid: 4}}},
		{name: "over", sde: sde.Add(987654321), over: true, uid: 7, un: "seven", skipClose: true, users: true},
	}
}

// t02orders lists the orders in which the nodes can be created; a hard link made before the file it is
// another name of is made as the file.
func t02orders(nodes []t01node) [][]t01node {
	var out [][]t01node
	for _, p := range perms(len(nodes)) {
		have := map[string]bool{".": true}
		made := map[string]string{} // file group -> first name
		var l []t01node
		ok := true
		for _, i := range p {
			n := nodes[i]
			if !have[path.Dir(n.p)] {
				ok = false
				break
			}
			have[n.p] = true
			grp := n.p
			if n.kind == 'h' {
				grp = n.body
			}
			if n.kind == 'h' || n.kind == 'f' {
				if f, done := made[grp]; done {
					n = t01node{p: n.p, kind: 'h', body: f}
				} else {
					made[grp] = n.p
					for _, o := range nodes {
						if o.p == grp {
							q := n.p
							n = o
							n.p = q
						}
					}
				}
			}
			l = append(l, n)
		}
		if ok {
			out = append(out, l)
		}
	}
	return out
}

// t02tree makes the tree; round changes what must not matter: times of files, files that went away,
// content and attributes that were replaced.
func t02tree(t *T, nodes []t01node, kind, sub string, round int) fs.FS {
	r := t01tree(t, nodes, kind, sub)
	if r == nil {
		return nil
	}
	if kind != "os" && round%2 == 1 {
		f := r.(apkfs.FullFS)
		must(f.WriteFile("zz-gone", []byte("gone"), 0o600))
		must(f.Remove("zz-gone"))
		for _, n := range nodes {
			if n.kind == 'f' {
				must(f.Chmod(n.p, 0o600))
				must(f.WriteFile(n.p, []byte("other content, longer than before perhaps"), 0o600))
				must(f.WriteFile(n.p, []byte(n.body), 0o600))
				must(f.Chmod(n.p, n.mode))
			}
			if n.xattrs != nil {
				must(f.SetXattr(n.p, "user.zz", []byte("x")))
				must(f.RemoveXattr(n.p, "user.zz"))
				for k := range n.xattrs {
					must(f.RemoveXattr(n.p, k))
				}
				for _, k := range sortedKeys(n.xattrs) {
					must(f.SetXattr(n.p, k, []byte(n.xattrs[k])))
				}
			}
		}
	}
	if kind == "dir" || kind == "os" {
		d := filepath.Join(t.Dir(), sub)
		i := 0
		must(filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
			i++
			if err == nil && e.Type()&os.ModeSymlink == 0 {
				tm := time.Unix(int64(1000000*(round+1)+i*round), int64(round*7))
				_ = os.Chtimes(p, tm.Add(time.Hour), tm)
			}
			return nil
		}))
	}
	return r
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// at runs f in the execution x with the clock moved on.
func t02at(round int, x *vctx.Exec, f func()) {
	vsched.AtTime(time.Duration(round)*(37*time.Hour+13*time.Second+123456789), func() {
		if x == nil {
			f()
			return
		}
		vctx.With(x, f)
	})
}

// policies visit every map the same way, whichever goroutine does.
func t02policy(i int) *vctx.Exec {
	return &vctx.Exec{Map: func(n int, _ func() []string) []int {
		l := make([]int, n)
		for k := range l {
			switch i {
			case 1:
				l[k] = n - 1 - k
			case 2:
				l[k] = (k + 1) % n
			case 3:
				l[k] = (k + n/2) % n
			default:
				l[k] = k
			}
		}
		return l
	}}
}

type t02out struct {
	name string
	b    []byte
}

func t02write(src, ui fs.FS, g t01cfg) (out []t02out, err error) {
	ctx := context.Background()
	if !g.users {
		ui = apkfs.NewMemFS()
	}
	var a, b bytes.Buffer
	if err := g.context().WriteTar(ctx, &a, src, ui); err != nil {
		return nil, err
	}
	if err := g.context().WriteTargz(ctx, &b, src, ui); err != nil {
		return nil, err
	}
	return []t02out{{"tar", a.Bytes()}, {"tar.gz", b.Bytes()}}, nil
}

func t02diff(a, b []t02out) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d outputs", len(a), len(b))
	}
	for i := range a {
		if !bytes.Equal(a[i].b, b[i].b) {
			k := 0
			for k < len(a[i].b) && k < len(b[i].b) && a[i].b[k] == b[i].b[k] {
				k++
			}
			cut := func(x []byte) string {
				lo, hi := max(0, k-20), min(len(x), k+40)
				if lo > hi {
					lo = hi
				}
				return fmt.Sprintf("%q", x[lo:hi])
			}
			return fmt.Sprintf("%s: %d and %d bytes, first difference at %d: %s / %s", a[i].name, len(a[i].b), len(b[i].b), k, cut(a[i].b), cut(b[i].b))
		}
	}
	return ""
}

func t02users() apkfs.FullFS {
	f := t01userdb().(apkfs.FullFS)
	must(f.WriteFile("etc/passwd", append(must1(f.ReadFile("etc/passwd")), "again:x:1000:1000:i:/h:/bin/sh\nthird:x:1000:0:i:/h:/bin/sh\n"...), 0o644))
	must(f.WriteFile("etc/group", append(must1(f.ReadFile("etc/group")), "again:x:1000:\nzero:x:0:a,b\n"...), 0o644))
	return f
}

func t02one(t *T, key string, nodes []t01node, kind string, cfgs []t01cfg, users fs.FS, bound int) {
	orders := t02orders(nodes)
	ref := map[string][]t02out{}
	for oi, o := range orders {
		var tree fs.FS
		sub := fmt.Sprintf("t%s%d", kind, oi)
		t.Tick()
		t02at(oi, t02policy(0), func() { tree = t02tree(t, o, kind, sub, oi) })
		if tree == nil {
			return
		}
		for _, g := range cfgs {
			var visited int
			run := func(ch *Chooser) bool {
				var got []t02out
				var err error
				t02at(oi, mapExec(ch, &visited), func() { got, err = t02write(tree, users, g) })
				t.Eval(len(nodes) > 1)
				t.Trans(1)
				t.Trace(1)
				if err != nil {
					t.Fail(key+":err", "archive of %s in a %s filesystem: %v", t01desc(nodes), kind, err)
					return false
				}
				if ref[g.name] == nil {
					ref[g.name] = got
					t.State(fmt.Sprintf("%x", sha256.Sum256(got[0].b)))
					return true
				}
				if d := t02diff(ref[g.name], got); d != "" {
					t.Fail(fmt.Sprintf("%s:%s:%s", key, kind, g.name), "archives of %s in a %s filesystem (settings %s) differ when created in the order %s (%d map orders changed: %v): %s", t01desc(nodes), kind, g.name, t01desc(o), len(ch.Choices), ch.Choices, d)
					return false
				}
				return true
			}
			b := bound
			if oi > 0 {
				b = 0
			}
			n, _, done := Explore(b, t.Pick(3000, 60000), t.Expired, run)
			t.NoteAdd("map_order_executions", int64(n))
			if !done && len(t.viols) == 0 {
				t.Cap("map orders of one archive")
			}
			// with the reversed orders, too
			if oi > 0 {
				for p := 1; p < 3; p++ {
					t02at(oi+p, t02policy(p), func() {
						got, err := t02write(tree, users, g)
						if err != nil {
							t.Fail(key+":err", "%v", err)
						} else if d := t02diff(ref[g.name], got); d != "" {
							t.Fail(fmt.Sprintf("%s:%s:%s", key, kind, g.name), "archives of %s in a %s filesystem (settings %s) differ when created in the order %s and maps are visited otherwise: %s", t01desc(nodes), kind, g.name, t01desc(o), d)
						}
					})
					t.Eval(true)
					t.Trans(1)
					t.Trace(1)
				}
			}
		}
		_ = os.RemoveAll(filepath.Join(t.Dir(), sub))
		if len(t.viols) > 0 {
			return
		}
	}
}

func t02apks() []*builtApk {
	s := func(n, body string, mtime int64) tent {
		e := reg(n, body)
		e.mode, e.mtime = 0o755, mtime
		return e
	}
	x := func(p, body string) tent {
		e := xreg(p, body, "user.one", "1", "user.two", "2", "security.capability", "\x01\x02")
		e.mtime = 77
		return e
	}
	return []*builtApk{
		apkSpec{name: "p", ver: "1-r0", info: []string{"triggers = /a /b", "depend = x", "depend = y", "provides = q=1", "replaces = r"}, scripts: []tent{s(".post-install", "one", 5), s(".trigger", noise(600), 0)},
			data: []tent{dirE("b/"), x("b/z", "z"), x("b/a", "a"), dirE("a/"), symE("a/l", "../b/z"), lnkE("a/h", "b/z"), modeE(reg("a/m", "m"), 0o4755)}}.build(),
		apkSpec{name: "q", ver: "2-r1", scripts: []tent{s(".pre-install", "two", 1<<31)}, info: []string{"triggers = /c"},
			data: []tent{dirE("a/"), dirE("a/d/"), dirE("a/d/e/"), reg("a/d/e/f", "f"), reg("a/d/g", "g"), dirE("c/"), reg("rootfile", "r"), {name: "c/owned", typ: tar.TypeReg, mode: 0o600, body: "o", uid: 1000, gid: 5, uname: "user", gname: "five"}}}.build(),
		apkSpec{name: "s", ver: "3-r1", data: []tent{dirE("etc/"), reg("etc/passwd", "root:x:0:0:root:/root:/bin/sh\nuser:x:1000:1000::/h:/s\nuser2:x:1000:1000::/h:/s\n"), reg("etc/group", "root:x:0:\ngrp:x:1000:\nfive:x:5:user\n")}}.build(),
	}
}

// t02install is what an installation leaves: the database and the tree as archives.
func t02install(t *T, kind, sub string, bs []*builtApk, sde *time.Time) (out []t02out, err error) {
	e := newInst(t, kind, sub, nil)
	if err := e.install(sde, bs...); err != nil {
		return nil, err
	}
	for _, n := range []string{"lib/apk/db/installed", "lib/apk/db/scripts.tar", "lib/apk/db/triggers", "etc/apk/world"} {
		out = append(out, t02out{n, must1(e.fs.ReadFile(n))})
	}
	w, err := t02write(e.fs, e.fs, t01cfg{sums: true, users: true, sde: time.Unix(1234567890, 0)})
	return append(out, w...), err
}

func t02index(t *T, round int) (out []t02out) {
	mk := func(n int) []*apk.Package {
		var l []*apk.Package
		for i := 0; i < n; i++ {
			l = append(l, &apk.Package{Name: fmt.Sprintf("p%d", n-i), Version: "1.2-r3", Arch: "x86_64", Description: "d", License: "MIT", Origin: "o", Maintainer: "m", URL: "u", Checksum: bytes.Repeat([]byte{byte(i)}, 20),
				Dependencies: []string{"z", "a", "m=1"}, Provides: []string{"so:x=1", "cmd:b=2"}, InstallIf: []string{"q", "b"}, Size: 5, InstalledSize: 6, ProviderPriority: 7, BuildTime: time.Unix(1600000000, 0).UTC(), RepoCommit: "c"})
		}
		return l
	}
	kd := t.Scratch
	if t02keys != "" {
		kd = t02keys
	}
	ks := sigKeys(kd)
	for n := 0; n < 4; n++ {
		for _, d := range []string{"", "v1"} {
			x := &apk.APKIndex{Description: d, Packages: mk(n)}
			b := readAll(must1(apk.ArchiveFromIndex(x)))
			out = append(out, t02out{fmt.Sprintf("index of %d packages", n), b})
			y := must1(apk.IndexFromArchive(io.NopCloser(bytes.NewReader(b))))
			out = append(out, t02out{fmt.Sprintf("index of %d packages read back and written", n), readAll(must1(apk.ArchiveFromIndex(y)))})
			f := filepath.Join(t.Dir(), fmt.Sprintf("sign%d%s.%d.tar.gz", n, d, round))
			must(os.WriteFile(f, b, 0o644))
			tm := time.Unix(int64(1e9+round*12345), 0)
			must(os.Chtimes(f, tm, tm))
			must(sign.SignIndex(context.Background(), ks[0].file, f))
			out = append(out, t02out{fmt.Sprintf("signed index of %d packages", n), must1(os.ReadFile(f))})
			must(os.Remove(f))
		}
	}
	return out
}

func t02sdes() map[string]*time.Time {
	m := map[string]*time.Time{"none": nil}
	for k, v := range map[string]int64{"0": 0, "1234567890": 1234567890} {
		tm := time.Unix(v, 0).UTC()
		m[k] = &tm
	}
	return m
}

// t02corpus is a fixed set of outputs that every process must make alike.
func t02corpus(t *T) (out []t02out) {
	pool := t02pool()
	for _, kind := range []string{"mem", "dir", "os"} {
		for ti, ns := range [][]t01node{pool[:11], append(append([]t01node{}, pool[:4]...), pool[11:]...)} {
			tree := t02tree(t, ns, kind, fmt.Sprintf("c%s%d", kind, ti), 0)
			if tree == nil {
				continue
			}
			for _, g := range t02cfgs() {
				l, err := t02write(tree, t02users(), g)
				must(err)
				for _, o := range l {
					out = append(out, t02out{fmt.Sprintf("%s of tree %d in a %s filesystem (settings %s)", o.name, ti, kind, g.name), o.b})
				}
			}
		}
	}
	bs := t02apks()
	for _, kind := range []string{"mem", "dir"} {
		for _, sn := range []string{"none", "0", "1234567890"} {
			l, err := t02install(t, kind, "i"+kind+sn, bs, t02sdes()[sn])
			must(err)
			for _, o := range l {
				out = append(out, t02out{fmt.Sprintf("%s after installation into a %s filesystem, source date %s", o.name, kind, sn), o.b})
			}
		}
	}
	return append(out, t02index(t, 0)...)
}

// t02keys is the directory of the signing keys in a child.
var t02keys string

func t02child(args []string) {
	t02keys = args[2]
	var m int
	must1(fmt.Sscanf(args[1], "%o", &m))
	syscall.Umask(m)
	t := &T{C: &C{Scratch: args[0]}, last: &atomic.Int64{}}
	for _, o := range t02corpus(t) {
		fmt.Printf("%x %s\n", sha256.Sum256(o.b), o.name)
	}
}

func runT02(c *C) {
	pool := t02pool()
	max := c.Pick(3, 4)
	bound := c.Pick(1, 2)
	cfgs := t02cfgs()
	users := t02users()
	c.Sample("a/ a/f (4 attributes) a/h = a/f made in the order a, a/h, a/f at 1970+37h, attributes visited in another order")
	sigKeys(c.Scratch)
	c.Run(func(emit func(string, func(*T))) {
		var masks []int
		for mask := 1; mask < 1<<len(pool); mask++ {
			masks = append(masks, mask)
		}
		for n := 1; n <= max; n++ {
			for _, mask := range masks {
				has := map[string]bool{"": true, ".": true}
				var ns []t01node
				for i, x := range pool {
					if mask>>i&1 == 1 {
						has[x.p] = true
						ns = append(ns, x)
					}
				}
				ok := len(ns) == n
				for _, x := range ns {
					ok = ok && has[path.Dir(x.p)] && (x.kind != 'h' || has[x.body])
				}
				if !ok {
					continue
				}
				emit(fmt.Sprintf("tree:%x", mask), func(t *T) {
					for _, kind := range []string{"mem", "dir", "os"} {
						t02one(t, fmt.Sprintf("tree:%x", mask), ns, kind, cfgs, users, bound)
					}
				})
			}
		}
		// installations
		apks := t02apks()
		for mask := 1; mask < 1<<len(apks); mask++ {
			var ids []int
			for i := range apks {
				if mask>>i&1 == 1 {
					ids = append(ids, i)
				}
			}
			for pi, p := range perms(len(ids)) {
				var bs []*builtApk
				for _, i := range p {
					bs = append(bs, apks[ids[i]])
				}
				for sn, sde := range t02sdes() {
					for _, kind := range []string{"mem", "dir"} {
						key := fmt.Sprintf("inst:%x:%d:%s:%s", mask, pi, sn, kind)
						emit(key, func(t *T) {
							var ref []t02out
							for round := 0; round < 4; round++ {
								t.Tick()
								var got []t02out
								var err error
								t02at(round, t02policy(round), func() { got, err = t02install(t, kind, fmt.Sprint("r", round), bs, sde) })
								t.Eval(round > 0)
								t.Trans(len(bs))
								t.Trace(1)
								if err != nil {
									t.Fail(key, "installing %d packages: %v", len(bs), err)
									return
								}
								if ref == nil {
									ref = got
								} else if d := t02diff(ref, got); d != "" {
									t.Fail(key, "installing %s twice into a %s filesystem (source date %s, run %d with other map orders and time): %s", bsNames(bs), kind, sn, round, d)
								}
							}
						})
					}
				}
			}
		}
		emit("index", func(t *T) {
			var ref []t02out
			for round := 0; round < 6; round++ {
				t.Tick()
				var got []t02out
				t02at(round, t02policy(round%4), func() { got = t02index(t, round) })
				t.Eval(round > 0)
				t.Trans(len(got))
				t.Trace(len(got))
				if ref == nil {
					ref = got
				} else if d := t02diff(ref, got); d != "" {
					t.Fail("index", "writing an index again, at another time: %s", d)
				}
			}
		})
		// the database lists the files of a package the same way whatever order they come in
		emit("database", func(t *T) {
			pool := []tar.Header{{Name: "b/", Typeflag: tar.TypeDir, Mode: 0o755}, {Name: "b/z", Typeflag: tar.TypeReg, Mode: 0o644, PAXRecords: map[string]string{"APK-TOOLS.checksum.SHA1": "00"}}, {Name: "b/c/", Typeflag: tar.TypeDir, Mode: 0o700},
				{Name: "b/c/d", Typeflag: tar.TypeReg, Mode: 0o600, Uid: 5}, {Name: "a", Typeflag: tar.TypeReg, Mode: 0o644}, {Name: "b.x/", Typeflag: tar.TypeDir, Mode: 0o755}, {Name: "b/a", Typeflag: tar.TypeSymlink, Mode: 0o777, Linkname: "z"}}
			for n := 2; n <= t.Pick(5, 6); n++ {
				for mask := 0; mask < 1<<len(pool); mask++ {
					var hs []tar.Header
					have := map[string]bool{".": true}
					ok := true
					for i, h := range pool {
						if mask>>i&1 == 1 {
							hs = append(hs, h)
							ok = ok && have[path.Dir(path.Clean(h.Name))]
							have[path.Clean(h.Name)] = true
						}
					}
					if !ok || len(hs) != n {
						continue
					}
					var ref []t02out
					for pi, p := range perms(n) {
						f := apkfs.NewMemFS()
						must(f.MkdirAll("lib/apk/db", 0o755))
						must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
						a := newAPK(apk.WithFS(f))
						var l []tar.Header
						var names []string
						for _, i := range p {
							l = append(l, hs[i])
							names = append(names, hs[i].Name)
						}
						t.Tick()
						vctx.With(t02policy(pi%4), func() {
							must(a.AddInstalledPackage(&apk.Package{Name: "p", Version: "1", Provides: []string{"b", "a"}}, l))
						})
						t.Eval(pi > 0)
						t.Trans(n)
						t.Trace(1)
						got := []t02out{{"installed", must1(f.ReadFile("lib/apk/db/installed"))}}
						if ref == nil {
							ref = got
						} else if d := t02diff(ref, got); d != "" {
							t.Fail("database:"+strings.Join(names, ","), "the files of a package recorded in the order %v and sorted: %s", names, d)
							return
						}
					}
				}
			}
		})
		// other processes
		envs := [][]string{{"TZ=UTC"}, {"TZ=Asia/Kathmandu", "LANG=de_DE.UTF-8", "GOMAXPROCS=1"}, {"TZ=America/New_York", "GOMAXPROCS=3", "USER=root", "HOME=/", "SOURCE_DATE_EPOCH=12345"}}
		umasks := []string{"22", "77", "0"}
		emit("process", func(t *T) {
			var ref []string
			self := must1(os.Executable())
			for round := 0; round < c.Pick(4, 12); round++ {
				t.Tick()
				d := filepath.Join(t.Dir(), strings.Repeat("deeper/", round%3)+fmt.Sprint("p", round))
				must(os.MkdirAll(d, 0o755))
				cmd := exec.Command(self, "-child", "t02", d, umasks[round%3], c.Scratch)
				cmd.Dir = d
				cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "TMPDIR=" + d, "GODEBUG=asynctimerchan=0"}, envs[(round+round/3)%3]...)
				o, err := cmd.CombinedOutput()
				if err != nil {
					t.Fail("process", "%v: %s", err, o)
					return
				}
				l := strings.Split(strings.TrimSpace(string(o)), "\n")
				t.Eval(round > 0)
				t.Trans(len(l))
				t.Trace(len(l))
				if ref == nil {
					ref = l
					continue
				}
				for i := range l {
					if i >= len(ref) || l[i] != ref[i] {
						t.Fail("process:"+strings.SplitN(l[i], " ", 2)[1], "a process with environment %v and umask %s writes other bytes: %s", envs[(round+round/3)%3], umasks[round%3], strings.SplitN(l[i], " ", 2)[1])
					}
				}
				chmodTree(d)
			}
		})
	})
}

func bsNames(bs []*builtApk) string {
	var l []string
	for _, b := range bs {
		l = append(l, b.name)
	}
	return strings.Join(slices.Clip(l), ",")
}
