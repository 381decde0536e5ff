package main

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/internal/tarfs"
	"github.com/chainguard-dev/go-apk/pkg/expandapk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("A01", check{run: runA01, level: "model_checking",
		rule:        "every parent-closed set of up to 4 (5) entries out of a pool of directories (one-letter names, nested, mode bits), files (empty, setuid, shared prefixes), relative/absolute/dangling symlinks, hard links and devices, in archive orders (sorted, reversed, rotated), with and without leading ./ and trailing / in names; every entry and a set of absent names is looked up, opened, read, listed and walked in both sections and compared with the entry list, handles that can seek also with a plain reader; a package cut at every length or with any byte changed is refused or shows exactly the entries; non-trivial when the set has at least 2 entries",
		assumptions: []string{"archives hold a header for every parent directory and no duplicate path, as apk tools write them"}})
}

// a01View is the abstract filesystem the entries describe.
type a01View map[string]tent // cleaned path -> entry ("" is the root)

func a01Clean(n string) string { return strings.TrimPrefix(path.Clean("/"+n), "/") }

func (v a01View) children(p string) []string {
	var out []string
	for n := range v {
		if n != "" && a01Clean(path.Dir(n)) == p && n != p {
			out = append(out, path.Base(n))
		}
	}
	sort.Strings(out)
	return out
}

// content is what reading the entry yields; ok false when that is not defined (dangling, cyclic, directory).
func (v a01View) content(p string, hops int) (string, bool) {
	e, ok := v[p]
	if !ok || hops > 60 {
		return "", false
	}
	switch e.typ {
	case tar.TypeReg:
		return e.body, true
	case tar.TypeLink:
		return v.content(a01Clean(e.link), hops+1)
	case tar.TypeSymlink:
		if path.IsAbs(e.link) {
			return v.content(a01Clean(e.link), hops+1)
		}
		return v.content(a01Clean(path.Join(path.Dir(p), e.link)), hops+1)
	}
	return "", false
}

func a01Pool() []tent {
	m := func(e tent, mode int64) tent { e.mode = mode; return e }
	own := func(e tent) tent { e.uid, e.gid = 1000, 70000; return e }
	l := []tent{
		dirE("a"), dirE("a/b"), reg("a/b/c", "deep"), reg("a/f", "in a"), own(m(reg("ab", "prefix of a"), 0o4755)),
		own(m(dirE("usr"), 0o1777)), dirE("usr/bin"), m(reg("usr/bin/x", strings.Repeat("x", 700)), 0o755), reg("usr/b", ""), reg("f", "root file"),
		symE("a/rel", "f"), symE("a/up", "../f"), symE("a/over", "../../../f"), symE("abs", "/usr/bin/x"), symE("a/dang", "nowhere"),
		lnkE("a/hl", "a/f"), lnkE("h", "usr/bin/x"), lnkE("h2", "h"),
		{name: "usr/dev", typ: tar.TypeChar, mode: 0o600, major: 1, minor: 3}, {name: "a/fifo", typ: tar.TypeFifo, mode: 0o644},
	}
	for i := range l {
		l[i].mtime = int64(i) * 86401 * 370
	}
	return l
}

func runA01(c *C) {
	pool := a01Pool()
	max := c.Pick(4, 5)
	c.Sample("a/ a/f='in a' a/hl->a/f(hard link) viewed as data section under ./ names")
	closed := func(mask int) bool {
		has := map[string]bool{"": true}
		for i, e := range pool {
			if mask>>i&1 == 1 {
				has[e.name] = true
			}
		}
		for i, e := range pool {
			if mask>>i&1 == 0 {
				continue
			}
			if !has[a01Clean(path.Dir(e.name))] || (e.typ == tar.TypeLink && !has[e.link]) {
				return false
			}
		}
		return true
	}
	c.Run(func(emit func(string, func(*T))) {
		emit("damaged", a01damaged)
		emit("chains", func(t *T) {
			for _, n := range []int{1, 2, 5, 20, 40} {
				for _, where := range []string{"", "d/", "d/e/"} {
					es := []tent{dirE("d"), dirE("d/e"), reg(where+"z", "end")}
					for i := n; i > 0; i-- {
						to := fmt.Sprintf("l%d", i+1)
						if i == n {
							to = "z"
						}
						if i%3 == 0 {
							to = "/" + where + to
						}
						es = append(es, symE(fmt.Sprintf("%sl%d", where, i), to))
					}
					a01one(t, fmt.Sprintf("chain:%d:%s", n, where), es, n%3)
				}
			}
		})
		for mask := 0; mask < 1<<len(pool); mask++ {
			n := 0
			var es []tent
			for i, e := range pool {
				if mask>>i&1 == 1 {
					n++
					es = append(es, e)
				}
			}
			if n > max || !closed(mask) {
				continue
			}
			emit(fmt.Sprintf("%x", mask), func(t *T) {
				orders := [][]tent{es}
				if len(es) > 1 {
					r := append([]tent{}, es...)
					for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
						r[i], r[j] = r[j], r[i]
					}
					orders = append(orders, r, append(append([]tent{}, es[1:]...), es[0]))
				}
				for oi, o := range orders {
					if linkFirst(o) {
						continue // tar has a link after its target
					}
					for style := 0; style < 4; style++ { // plain, trailing slash, leading ./, hard links to ./
						if style > 0 && oi > 0 && !t.Thorough() {
							continue
						}
						a01one(t, fmt.Sprintf("%x:%d:%d", mask, oi, style), o, style)
					}
				}
			})
		}
	})
}

func linkFirst(es []tent) bool {
	seen := map[string]bool{}
	for _, e := range es {
		if e.typ == tar.TypeLink && !seen[e.link] {
			return true
		}
		seen[e.name] = true
	}
	return false
}

func a01Style(es []tent, style int) []tent {
	var out []tent
	if style == 2 {
		out = append(out, tent{name: "./", typ: tar.TypeDir, mode: 0o755})
	}
	for _, e := range es {
		if style == 3 && e.typ == tar.TypeLink {
			e.link = "./" + e.link
		}
		if (style == 1 || style == 2) && e.typ == tar.TypeDir {
			e.name += "/"
		}
		if style == 2 {
			e.name = "./" + e.name
		}
		out = append(out, e)
	}
	return out
}

func a01one(t *T, key string, es []tent, style int) {
	t.Tick()
	t.Eval(len(es) >= 2)
	view := a01View{"": tent{name: "", typ: tar.TypeDir, mode: 0o755}}
	for _, e := range es {
		if style == 3 && e.typ == tar.TypeLink {
			e.link = "./" + e.link
		}
		view[e.name] = e
	}
	t.State(entsString(es))
	desc := fmt.Sprintf("entries [%s] style %d", entsString(es), style)

	// the tar view used by installation
	tb := makeTar(a01Style(es, style), true, false)
	tf, err := tarfs.New(bytes.NewReader(tb), int64(len(tb)))
	t.Trans(1)
	if err != nil {
		t.Fail(key+":tarfs", "%s: tarfs.New: %v", desc, err)
		return
	}
	t.Trace(1)
	if len(tf.Entries()) != len(a01Style(es, style)) {
		t.Fail(key+":tarfs:entries", "%s: Entries() lists %d entries", desc, len(tf.Entries()))
	}
	a01check(t, key+":tarfs", desc+" through the tar view", view, tf, a01opts{path: func(p string) []string { return []string{p} }, root: ".", follow: true, readlink: tf.Readlink})

	// the package view
	dir := t.Dir()
	apkFile := filepath.Join(dir, "p.apk")
	data := a01Style(es, style)
	for _, typ := range []apkfs.APKFSType{apkfs.APKFSPackage, apkfs.APKFSControl} {
		s := apkSpec{name: "p", ver: "1-r0", signed: true, data: data, nosums: style > 0}
		w := view
		what := "data section"
		if typ == apkfs.APKFSControl {
			if style > 0 {
				continue
			}
			what = "control section"
			s.data, s.scripts, s.ctlEOF = []tent{reg("other", "not here")}, data, true
			w = a01View{}
			for k, v := range view {
				w[k] = v
			}
		}
		b := s.build()
		if typ == apkfs.APKFSControl {
			w[".PKGINFO"] = reg(".PKGINFO", b.pkginfo)
		}
		must(os.WriteFile(apkFile, b.all, 0o644))
		f, err := apkfs.NewAPKFS(context.Background(), apkFile, typ)
		t.Trans(1)
		t.Trace(1)
		if err != nil {
			t.Fail(key+":apkfs", "%s: NewAPKFS(%s): %v", desc, what, err)
			continue
		}
		pf := func(p string) []string {
			if p == "" || p == "." {
				return []string{".", "/"}
			}
			return []string{p, "/" + p, "./" + p}
		}
		a01check(t, fmt.Sprintf("%s:apkfs%d", key, typ), desc+" as "+what, w, f, a01opts{path: pf, root: ".", linkSize: true})
		if err := f.Close(); err != nil {
			t.Fail(key+":apkfs:close", "%s: Close: %v", desc, err)
		}
	}
	// the expanded package's own views
	s := apkSpec{name: "p", ver: "1-r0", data: data, nosums: true}
	b := s.build()
	exp, err := expandapk.ExpandApk(context.Background(), bytes.NewReader(b.all), dir)
	if err != nil {
		t.Fail(key+":expand", "%s: ExpandApk: %v", desc, err)
		return
	}
	defer exp.Close()
	a01check(t, key+":exp", desc+" in the expanded package", view, exp.TarFS, a01opts{path: func(p string) []string { return []string{p} }, root: ".", follow: true, readlink: exp.TarFS.Readlink})
}

type a01opts struct {
	path     func(string) []string
	root     string
	follow   bool // Open follows links
	readlink func(string) (string, error)
	linkSize bool // the size of a hard link is that of its content
}

type a01fs interface {
	fs.FS
	fs.StatFS
	fs.ReadDirFS
}

func a01check(t *T, key, desc string, view a01View, f a01fs, o a01opts) {
	mode := func(e tent) fs.FileMode {
		return (&tar.Header{Name: "x", Typeflag: e.typ, Mode: e.mode}).FileInfo().Mode()
	}
	for p, e := range view {
		if p == "" {
			continue
		}
		for _, q := range o.path(p) {
			t.Trans(1)
			fi, err := f.Stat(q)
			if err != nil {
				t.Fail(key+":stat:"+q, "%s: Stat(%q): %v", desc, q, err)
				continue
			}
			if fi.Name() != path.Base(p) || fi.IsDir() != (e.typ == tar.TypeDir) || fi.Mode() != mode(e) {
				t.Fail(key+":stat:"+q, "%s: Stat(%q) = name %q dir %v mode %v, want mode %v", desc, q, fi.Name(), fi.IsDir(), fi.Mode(), mode(e))
			}
			if e.typ == tar.TypeReg && fi.Size() != int64(len(e.body)) {
				t.Fail(key+":size:"+q, "%s: Stat(%q) size %d, want %d", desc, q, fi.Size(), len(e.body))
			}
			if e.typ == tar.TypeLink && o.linkSize {
				if c, _ := view.content(p, 0); fi.Size() != int64(len(c)) {
					t.Fail(key+":size:"+q, "%s: Stat(%q) of a hard link shows size %d, its content has %d", desc, q, fi.Size(), len(c))
				}
			}
			if !fi.ModTime().Equal(time.Unix(e.mtime, 0)) {
				t.Fail(key+":mtime:"+q, "%s: Stat(%q) shows the time %v, want %v", desc, q, fi.ModTime(), time.Unix(e.mtime, 0))
			}
			if h, isHdr := fi.Sys().(*tar.Header); isHdr && (h.Uid != e.uid || h.Gid != e.gid || h.Mode&0o7777 != e.mode) {
				t.Fail(key+":sys:"+q, "%s: Stat(%q) shows owner %d:%d and mode %o, want %d:%d %o", desc, q, h.Uid, h.Gid, h.Mode, e.uid, e.gid, e.mode)
			}
			// open
			want, ok := view.content(p, 0)
			if e.typ == tar.TypeSymlink && !o.follow {
				continue
			}
			h, err := f.Open(q)
			if e.typ == tar.TypeDir || (e.typ != tar.TypeReg && e.typ != tar.TypeLink && e.typ != tar.TypeSymlink) {
				if err != nil {
					t.Fail(key+":open:"+q, "%s: Open(%q): %v", desc, q, err)
				} else {
					if n, err := h.Read(make([]byte, 4)); n != 0 || err == nil {
						t.Fail(key+":open:"+q, "%s: reading %q, which is no file, gives %d bytes (%v)", desc, q, n, err)
					}
					h.Close()
				}
				continue
			}
			if !ok {
				if err == nil {
					d, rerr := io.ReadAll(h)
					h.Close()
					if rerr == nil && len(d) > 0 {
						t.Fail(key+":open:"+q, "%s: Open(%q) of a link without target reads %q", desc, q, short(string(d)))
					}
				}
				continue
			}
			if err != nil {
				t.Fail(key+":open:"+q, "%s: Open(%q): %v", desc, q, err)
				continue
			}
			d, err := io.ReadAll(h)
			if err != nil || string(d) != want {
				t.Fail(key+":read:"+q, "%s: Open(%q) reads %q (%v), want %q", desc, q, short(string(d)), err, short(want))
			}
			a01seek(t, key+":seek:"+q, desc+": "+q, h, want)
			if fi, err := h.Stat(); err != nil || (e.typ == tar.TypeReg && (fi.Name() != path.Base(p) || fi.Size() != int64(len(e.body)) || fi.Mode() != mode(e))) {
				t.Fail(key+":fstat:"+q, "%s: Open(%q).Stat = %v, %v", desc, q, fi, err)
			}
			if err := h.Close(); err != nil {
				t.Fail(key+":close:"+q, "%s: Close(%q): %v", desc, q, err)
			}
		}
		if o.readlink != nil && (e.typ == tar.TypeSymlink || e.typ == tar.TypeLink) {
			if l, err := o.readlink(p); err != nil || l != e.link {
				t.Fail(key+":readlink:"+p, "%s: Readlink(%q) = %q, %v, want %q", desc, p, l, err, e.link)
			}
		}
	}
	for p, e := range view {
		qs := o.path(p)
		if p == "" {
			qs = o.path(".")
		}
		for _, q := range qs {
			t.Trans(1)
			l, err := f.ReadDir(q)
			if e.typ != tar.TypeDir {
				if err == nil && len(l) > 0 {
					t.Fail(key+":readdir:"+q, "%s: ReadDir(%q) of a non-directory lists %d entries", desc, q, len(l))
				}
				continue
			}
			var got []string
			for _, d := range l {
				got = append(got, d.Name())
				c := a01Clean(path.Join(p, d.Name()))
				if ce, ok := view[c]; ok {
					if d.IsDir() != (ce.typ == tar.TypeDir) || d.Type().Type() != mode(ce).Type() {
						t.Fail(key+":direntry:"+c, "%s: ReadDir(%q) shows %q as dir %v type %v", desc, q, d.Name(), d.IsDir(), d.Type())
					}
					if i, err := d.Info(); err != nil || i.Mode() != mode(ce) {
						t.Fail(key+":direntry:"+c, "%s: ReadDir(%q) entry %q: Info %v, %v", desc, q, d.Name(), i, err)
					}
				}
			}
			if want := view.children(p); err != nil || strings.Join(got, " ") != strings.Join(want, " ") {
				t.Fail(key+":readdir:"+q, "%s: ReadDir(%q) = %q, %v, want %q", desc, q, got, err, want)
			}
		}
	}
	seen := map[string]int{}
	steps := 0
	err := fs.WalkDir(f, o.root, func(p string, d fs.DirEntry, err error) error {
		t.Trans(1)
		if steps++; steps > 200 {
			return errors.New("endless walk")
		}
		seen[a01Clean(p)]++
		return err
	})
	if err != nil {
		t.Fail(key+":walk", "%s: walk: %v", desc, err)
	}
	for p := range view {
		if seen[p] != 1 {
			t.Fail(key+":walk:"+p, "%s: walk visits %q %d times", desc, p, seen[p])
		}
	}
	if len(seen) != len(view) && err == nil {
		t.Fail(key+":walk", "%s: walk visits %v", desc, seen)
	}
	for _, p := range []string{"nope", "a/nope", "b", "us", "usr/bi", "a/b/c/d", "etc/passwd", "bin/x"} {
		if _, ok := view[p]; ok {
			continue
		}
		for _, q := range o.path(p) {
			if _, err := f.Stat(q); !errors.Is(err, fs.ErrNotExist) {
				t.Fail(key+":absent:"+q, "%s: Stat(%q) of an absent path: %v", desc, q, err)
			}
			if h, err := f.Open(q); !errors.Is(err, fs.ErrNotExist) {
				t.Fail(key+":absent:"+q, "%s: Open(%q) of an absent path: %v", desc, q, err)
				if h != nil {
					h.Close()
				}
			}
			if l, err := f.ReadDir(q); err == nil {
				t.Fail(key+":absent:"+q, "%s: ReadDir(%q) of an absent path lists %d entries", desc, q, len(l))
			}
		}
	}
}

// a01seek compares a handle that can do more than read with a plain reader.
func a01seek(t *T, key, desc string, h fs.File, want string) {
	if r, ok := h.(io.ReaderAt); ok {
		for _, at := range []int64{-1, 0, 1, int64(len(want)) - 1, int64(len(want)), int64(len(want)) + 1} {
			for _, n := range []int{0, 1, 3, len(want), len(want) + 1} {
				a, b := make([]byte, n), make([]byte, n)
				an, aerr := r.ReadAt(a, at)
				bn, berr := strings.NewReader(want).ReadAt(b, at)
				if an != bn || string(a[:an]) != string(b[:bn]) || (n > 0 && (aerr == nil) != (berr == nil)) || (n > 0 && (aerr == io.EOF) != (berr == io.EOF)) && at >= 0 {
					t.Fail(key, "%s: ReadAt(%d bytes, %d) = %q %v, want %q %v", desc, n, at, a[:an], aerr, b[:bn], berr)
				}
			}
		}
	}
	if s, ok := h.(io.Seeker); ok {
		ref := strings.NewReader(want)
		_, _ = ref.Seek(0, io.SeekEnd)
		for _, w := range []int{io.SeekStart, io.SeekCurrent, io.SeekEnd} {
			for _, off := range []int64{0, 1, -1, int64(len(want)), -int64(len(want)), 5} {
				ap, aerr := s.Seek(off, w)
				bp, berr := ref.Seek(off, w)
				if (aerr == nil) != (berr == nil) || aerr == nil && ap != bp {
					t.Fail(key, "%s: Seek(%d, %d) = %d %v, want %d %v", desc, off, w, ap, aerr, bp, berr)
				}
				a, b := make([]byte, 2), make([]byte, 2)
				an, _ := h.Read(a)
				bn, _ := ref.Read(b)
				if an != bn || string(a[:an]) != string(b[:bn]) {
					t.Fail(key, "%s: after Seek(%d, %d) Read gives %q, want %q", desc, off, w, a[:an], b[:bn])
				}
			}
		}
	}
}

// a01damaged: what is not a whole package is not shown.
func a01damaged(t *T) {
	ctx := context.Background()
	dir := t.Dir()
	for i, s := range []apkSpec{
		{name: "p", ver: "1", data: []tent{dirE("a"), reg("a/f", "content of f"), symE("a/l", "f"), lnkE("h", "a/f")}},
		{name: "p", ver: "1", signed: true, scripts: []tent{reg(".post-install", "script")}, data: []tent{reg("x", strings.Repeat("x", 600)), reg("y", "y")}, splits: []int{512}, nosums: true},
	} {
		b := s.build()
		f := filepath.Join(dir, fmt.Sprintf("d%d.apk", i))
		show := func(typ apkfs.APKFSType) (string, error) {
			v, err := apkfs.NewAPKFS(ctx, f, typ)
			if err != nil {
				return "", err
			}
			defer v.Close()
			out := ""
			err = fs.WalkDir(v, ".", func(p string, e fs.DirEntry, err error) error {
				if err != nil {
					return err
				}
				fi, err := e.Info()
				if err != nil {
					return err
				}
				out += fmt.Sprintf("%s %v %d", p, fi.Mode(), fi.Size())
				if fi.Mode().IsRegular() {
					h, err := v.Open(p)
					if err != nil {
						return err
					}
					defer h.Close()
					d, err := io.ReadAll(h)
					if err != nil {
						return err
					}
					out += fmt.Sprintf(" %q", d)
				}
				out += "\n"
				return nil
			})
			return out, err
		}
		for _, typ := range []apkfs.APKFSType{apkfs.APKFSPackage, apkfs.APKFSControl} {
			must(os.WriteFile(f, b.all, 0o644))
			want, err := show(typ)
			if err != nil {
				t.Fail("damaged:good", "a good package is not shown: %v", err)
				continue
			}
			one := func(key string, x []byte, same bool) {
				t.Tick()
				t.Eval(true)
				t.Trans(1)
				t.Trace(1)
				t.State(key)
				must(os.WriteFile(f, x, 0o644))
				got, err := show(typ)
				if err == nil && (!same || got != want) {
					t.Fail("damaged:"+key, "package %d %s is shown (section %d) as\n%s\nthe whole one is\n%s", i, key, typ, got, want)
				}
				t.Outcome(fmt.Sprint("damaged ", err == nil))
			}
			step := 3
			if t.Thorough() {
				step = 1
			}
			// of several parts of the data section only the data hash can tell whether they are all there
			for n := 0; n < len(b.all); n += step {
				if len(s.splits) == 0 || n < len(b.sig)+len(b.ctl) {
					one(fmt.Sprintf("cut at %d", n), b.all[:n], false)
				}
			}
			for n := 0; n < len(b.all); n += step {
				for _, bit := range []byte{1, 0x80} {
					x := append([]byte{}, b.all...)
					x[n] ^= bit
					one(fmt.Sprintf("with byte %d changed", n), x, true)
				}
			}
		}
		must(os.Remove(f))
		for _, typ := range []apkfs.APKFSType{apkfs.APKFSPackage, apkfs.APKFSControl} {
			if _, err := show(typ); err == nil {
				t.Fail("damaged:missing", "a package that is not there is shown")
			}
		}
	}
}
