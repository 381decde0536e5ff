package main

import (
	"archive/tar"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"golang.org/x/sys/unix"
)

func init() {
	register("F01", check{run: runF01, level: "model_checking",
		rule:        "every sequence of up to 3 (4 in thorough) operations out of the alphabet (mkdir, mkdirall, write, exclusive create, append, symlink, hard link, remove, chmod, chown, xattrs, mknod over names, links, dot and dot-dot spellings, missing and wrong-kind parents), states reached by several sequences expanded once per first operation; after the last operation everything observable is compared; non-trivial when two or more operations succeed",
		assumptions: []string{"permission bits are recorded, not enforced; no umask", "paths have no trailing slash", "opening a directory as a file is not compared"}})
}

// fsop is one operation applied to a FullFS, the reference and (where possible) a real directory.
type fsop struct {
	name string
	do   func(f apkfs.FullFS) error
	ref  func(r *refFS) error
	real func(dir string) error // nil: not applicable to a real unprivileged directory
}

// spoil overwrites a buffer which the caller may use again.
func spoil(b []byte) {
	for i := range b {
		b[i] = '!'
	}
}

func relative(ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(p, "/") {
			return false
		}
	}
	return true
}

func opMkdir(p string, m fs.FileMode) fsop {
	o := fsop{name: fmt.Sprintf("mkdir(%s,%v)", p, m), do: func(f apkfs.FullFS) error { return f.Mkdir(p, m) }, ref: func(r *refFS) error { return r.mkdir(p, m) }}
	if relative(p) {
		o.real = func(d string) error {
			err := os.Mkdir(d+"/"+p, m)
			if err == nil {
				err = os.Chmod(d+"/"+p, m)
			}
			return err
		}
	}
	return o
}

func opMkdirAll(p string, m fs.FileMode) fsop {
	o := fsop{name: fmt.Sprintf("mkdirall(%s,%v)", p, m), do: func(f apkfs.FullFS) error { return f.MkdirAll(p, m) }, ref: func(r *refFS) error { return r.mkdirAll(p, m) }}
	if relative(p) {
		o.real = func(d string) error { return os.MkdirAll(d+"/"+p, m) }
	}
	return o
}

func opWrite(p, data string, m fs.FileMode) fsop {
	o := fsop{name: fmt.Sprintf("write(%s,%q,%v)", p, data, m), do: func(f apkfs.FullFS) error {
		b := []byte(data)
		err := f.WriteFile(p, b, m)
		spoil(b)
		return err
	}, ref: func(r *refFS) error { return r.write(p, data, m, false, false) }}
	if relative(p) {
		o.real = func(d string) error { return os.WriteFile(d+"/"+p, []byte(data), m) }
	}
	return o
}

func opCreate(p string) fsop {
	return fsop{name: fmt.Sprintf("create(%s)", p), do: func(f apkfs.FullFS) error {
		h, err := f.Create(p)
		if err != nil {
			return err
		}
		return h.Close()
	}, ref: func(r *refFS) error { return r.write(p, "", 0o666, false, false) },
		real: func(d string) error {
			h, err := os.Create(d + "/" + p)
			if err != nil {
				return err
			}
			return h.Close()
		}}
}

func opOpenWrite(p, data string, flag int, m fs.FileMode) fsop {
	excl, app := flag&os.O_EXCL != 0, flag&os.O_APPEND != 0
	o := fsop{name: fmt.Sprintf("openwrite(%s,%q,excl=%v,append=%v)", p, data, excl, app), do: func(f apkfs.FullFS) error {
		h, err := f.OpenFile(p, flag|os.O_CREATE|os.O_WRONLY, m)
		if err != nil {
			return err
		}
		b := []byte(data)
		if _, err := h.Write(b); err != nil {
			return err
		}
		spoil(b)
		return h.Close()
	}, ref: func(r *refFS) error { return r.write(p, data, m, excl, app) }}
	if relative(p) {
		o.real = func(d string) error {
			h, err := os.OpenFile(d+"/"+p, flag|os.O_CREATE|os.O_WRONLY, m)
			if err != nil {
				return err
			}
			defer h.Close()
			_, err = h.Write([]byte(data))
			return err
		}
	}
	return o
}

func opSymlink(t, p string) fsop {
	o := fsop{name: fmt.Sprintf("symlink(%s<-%s)", t, p), do: func(f apkfs.FullFS) error { return f.Symlink(t, p) }, ref: func(r *refFS) error { return r.symlink(t, p) }}
	if relative(t, p) {
		o.real = func(d string) error { return os.Symlink(t, d+"/"+p) }
	}
	return o
}

func opLink(a, p string) fsop {
	o := fsop{name: fmt.Sprintf("link(%s<-%s)", a, p), do: func(f apkfs.FullFS) error { return f.Link(a, p) }, ref: func(r *refFS) error { return r.link(a, p) }}
	if relative(a, p) {
		o.real = func(d string) error { return os.Link(d+"/"+a, d+"/"+p) }
	}
	return o
}

func opRemove(p string) fsop {
	o := fsop{name: fmt.Sprintf("remove(%s)", p), do: func(f apkfs.FullFS) error { return f.Remove(p) }, ref: func(r *refFS) error { return r.remove(p) }}
	if relative(p) {
		o.real = func(d string) error {
			err := unix.Unlink(d + "/" + p)
			if err != nil {
				err = unix.Rmdir(d + "/" + p)
			}
			return err
		}
	}
	return o
}

func opChmod(p string, m fs.FileMode) fsop {
	o := fsop{name: fmt.Sprintf("chmod(%s,%v)", p, m), do: func(f apkfs.FullFS) error { return f.Chmod(p, m) }, ref: func(r *refFS) error { return r.on(p, func(n *rnode) { n.mode = m }) }}
	if relative(p) {
		o.real = func(d string) error { return os.Chmod(d+"/"+p, m) }
	}
	return o
}

func opChown(p string, u, g int) fsop {
	return fsop{name: fmt.Sprintf("chown(%s,%d,%d)", p, u, g), do: func(f apkfs.FullFS) error { return f.Chown(p, u, g) }, ref: func(r *refFS) error { return r.on(p, func(n *rnode) { n.uid, n.gid = u, g }) }}
}

func opSetX(p, k, v string) fsop {
	return fsop{name: fmt.Sprintf("setxattr(%s,%s=%s)", p, k, v), do: func(f apkfs.FullFS) error {
		b := []byte(v)
		err := f.SetXattr(p, k, b)
		spoil(b)
		return err
	}, ref: func(r *refFS) error {
		return r.on(p, func(n *rnode) {
			if n.xattr == nil {
				n.xattr = map[string]string{}
			}
			n.xattr[k] = v
		})
	}}
}

func opRmX(p, k string) fsop {
	return fsop{name: fmt.Sprintf("rmxattr(%s,%s)", p, k), do: func(f apkfs.FullFS) error { return f.RemoveXattr(p, k) }, ref: func(r *refFS) error { return r.on(p, func(n *rnode) { delete(n.xattr, k) }) }}
}

func opMknod(p string, m uint32, dev int) fsop {
	return fsop{name: fmt.Sprintf("mknod(%s,%o,%x)", p, m, dev), do: func(f apkfs.FullFS) error { return f.Mknod(p, unix.S_IFCHR|m, dev) }, ref: func(r *refFS) error { return r.mknod(p, fs.FileMode(m), dev) }}
}

func f01ops() []fsop {
	excl, app := os.O_EXCL, os.O_APPEND
	return []fsop{
		opMkdir("d", 0o755), opMkdir("d/e", 0o700|fs.ModeSticky), opMkdir("a", 0o755), opMkdir("l", 0o755), opMkdir("l/e", 0o755), opMkdir("a/x", 0o755), opMkdir("missing/x", 0o755), opMkdir("d/../m", 0o755), opMkdir(".", 0o755), opMkdir("..", 0o755), opMkdir("/d", 0o711),
		opMkdirAll("d/e", 0o750), opMkdirAll("d/e/b", 0o755), opMkdirAll("a", 0o755), opMkdirAll("l/e/f", 0o755), opMkdirAll("./d", 0o755), opMkdirAll(".", 0o755), opMkdirAll("d/../m/n", 0o755), opMkdirAll("/d/e", 0o755), opMkdirAll("/", 0o755), opMkdirAll("d/l/q", 0o755),
		opWrite("a", "1", 0o644), opWrite("a", "two", 0o600), opWrite("b", "bb", 0o705), opWrite("d/a", "da", 0o644), opWrite("l", "L", 0o644), opWrite("d/l", "dl", 0o644), opWrite("l/a", "la", 0o644), opWrite("a/x", "x", 0o644), opWrite("missing/x", "x", 0o644), opWrite("d", "x", 0o644), opWrite("d/../b", "up", 0o644), opWrite("/a", "abs", 0o644), opWrite("d/e/../../a", "far", 0o644),
		opWrite("b", "s", 0o755|fs.ModeSetuid),
		opCreate("a"), opCreate("d/a"), opCreate("l"),
		opOpenWrite("a", "x", excl, 0o644), opOpenWrite("l", "x", excl, 0o644), opOpenWrite("d/a", "x", excl, 0o644), opOpenWrite("a", "+", app, 0o644), opOpenWrite("l", "+", app, 0o644),
		opSymlink("a", "l"), opSymlink("d", "l"), opSymlink("missing", "l"), opSymlink("/d/a", "l"), opSymlink("l", "l"), opSymlink("../a", "d/l"), opSymlink("e", "d/l"), opSymlink("..", "d/l"), opSymlink("d/e", "l"), opSymlink("d/l", "l"), opSymlink("x", "a/x"), opSymlink("/", "l"), opSymlink("../../../b", "l"), opSymlink("d/missing/..", "l"), opSymlink("a/..", "l"), opSymlink(".", "l"),
		opLink("a", "b"), opLink("a", "d/a"), opLink("l", "b"), opLink("d", "b"), opLink("d/a", "a"), opLink("missing", "b"), opLink("a", "a/x"), opLink("d/l", "b"), opLink("a", "l"), opLink("a", "missing/y"), opLink("l/a", "b"),
		opRemove("a"), opRemove("b"), opRemove("d"), opRemove("d/a"), opRemove("d/e"), opRemove("l"), opRemove("d/l"), opRemove("l/a"), opRemove("missing"), opRemove("d/../a"), opRemove("."), opRemove("/"), opRemove("a/x"),
		opChmod("a", 0o711), opChmod("d", 0o777|fs.ModeSticky), opChmod("l", 0o740), opChmod("d/a", 0o755|fs.ModeSetuid|fs.ModeSetgid), opChmod("missing", 0o755), opChmod("c", 0o600),
		opChown("a", 3, 4), opChown("l", 5, 6), opChown("missing", 1, 1), opChown("d", 7, 8),
		opSetX("a", "user.k", "v"), opSetX("l", "user.k", "w"), opSetX("missing", "user.k", "v"), opSetX("d", "user.z", ""), opRmX("a", "user.k"), opRmX("a", "user.none"),
		opMknod("c", 0o666, int(unix.Mkdev(1, 3))), opMknod("d/c", 0o600, int(unix.Mkdev(5, 256))), opMknod("a", 0o600, 0), opMknod("a/x", 0o600, 0),
	}
}

var f01paths = []string{".", "/", "a", "b", "c", "d", "l", "m", "m/n", "x", "q", "missing", "d/a", "d/e", "d/e/b", "d/e/f", "d/c", "d/l", "d/l/a", "d/l/q", "l/a", "l/e", "l/e/f", "a/x", "/a", "/d/a", "./a", "d/../a", "d/e/../a", "l/../a", "d/l/../a", "a/../b", "missing/../a", "..", "../a", "d/./e", "d//a"}

// errKind classifies an error for comparison.
func errKind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrExist):
		return "exists"
	case errors.Is(err, fs.ErrNotExist):
		return "missing"
	}
	return "error"
}

// cmpErr compares an error of the implementation with the reference's; "" if they agree.
func cmpErr(got, want error) string {
	if (got == nil) != (want == nil) {
		return fmt.Sprintf("returned %v, expected %v", got, want)
	}
	if want == eExist && !errors.Is(got, fs.ErrExist) || want == eNoent && !errors.Is(got, fs.ErrNotExist) {
		return fmt.Sprintf("failed with %v, expected: %v", got, want)
	}
	return ""
}

type obsOpts struct {
	owner, xattr, noLink bool
	skip                 func(p string) bool
}

// cmpTree compares everything observable at the paths and in the whole tree; "" if equal.
func cmpTree(f apkfs.FullFS, r *refFS, paths []string, o obsOpts) string {
	info := func(what, p string, fi fs.FileInfo, n *rnode) string {
		if fi.Mode() != n.full() {
			return fmt.Sprintf("%s(%s) shows mode %v (%o), expected %v", what, p, fi.Mode(), uint32(fi.Mode()), n.full())
		}
		if fi.IsDir() != (n.kind == 'd') {
			return fmt.Sprintf("%s(%s).IsDir()=%v", what, p, fi.IsDir())
		}
		if n.kind == 'f' && fi.Size() != int64(len(n.data)) {
			return fmt.Sprintf("%s(%s) shows size %d, expected %d", what, p, fi.Size(), len(n.data))
		}
		if b := filepath.Base(p); b != "." && b != "/" && b != ".." && fi.Name() != b {
			return fmt.Sprintf("%s(%s).Name() is %q", what, p, fi.Name())
		}
		if h, ok := fi.Sys().(*tar.Header); ok && o.owner && (h.Uid != n.uid || h.Gid != n.gid) {
			return fmt.Sprintf("%s(%s) shows owner %d:%d, expected %d:%d", what, p, h.Uid, h.Gid, n.uid, n.gid)
		}
		return ""
	}
	for _, p := range paths {
		if o.skip != nil && o.skip(p) {
			continue
		}
		n, werr := r.get(p, true)
		fi, err := f.Stat(p)
		if d := cmpErr(err, werr); d != "" {
			return fmt.Sprintf("Stat(%s) %s", p, d)
		}
		if err == nil {
			if d := info("Stat", p, fi, n); d != "" {
				return d
			}
		}
		ln, lwerr := r.get(p, false)
		fi, err = f.Lstat(p)
		if d := cmpErr(err, lwerr); d != "" {
			return fmt.Sprintf("Lstat(%s) %s", p, d)
		}
		if err == nil {
			if d := info("Lstat", p, fi, ln); d != "" {
				return d
			}
		}
		to, err := f.Readlink(p)
		if (err == nil) != (lwerr == nil && ln.kind == 'l') || err == nil && to != ln.target {
			return fmt.Sprintf("Readlink(%s) is %q, %v", p, to, err)
		}
		b, err := f.ReadFile(p)
		if werr == nil && n.kind == 'c' {
			// reading a device is not compared
		} else if (err == nil) != (werr == nil && n.kind == 'f') || err == nil && string(b) != n.data {
			return fmt.Sprintf("ReadFile(%s) is %q, %v", p, b, err)
		}
		spoil(b)
		es, err := f.ReadDir(p)
		if (err == nil) != (werr == nil && n.kind == 'd') {
			return fmt.Sprintf("ReadDir(%s) is %v, %v", p, es, err)
		}
		if err == nil {
			var got, want, names []string
			for _, e := range es {
				names = append(names, e.Name())
				got = append(got, e.Name()+":"+e.Type().String())
				i, err := e.Info()
				if err != nil {
					return fmt.Sprintf("ReadDir(%s): Info of %s: %v", p, e.Name(), err)
				}
				if k := n.kids[e.Name()]; k != nil {
					if d := info("ReadDir("+p+")", e.Name(), i, k); d != "" {
						return d
					}
				}
			}
			for _, k := range n.names() {
				want = append(want, k+":"+n.kids[k].full().Type().String())
			}
			if !sort.StringsAreSorted(names) && len(got) == len(want) {
				return fmt.Sprintf("ReadDir(%s) is not sorted: %v", p, got)
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return fmt.Sprintf("ReadDir(%s) lists [%s], expected [%s]", p, strings.Join(got, " "), strings.Join(want, " "))
			}
		}
		if o.xattr {
			x, err := f.ListXattrs(p)
			if d := cmpErr(err, werr); d != "" {
				return fmt.Sprintf("ListXattrs(%s) %s", p, d)
			}
			if err == nil {
				if len(x) != len(n.xattr) {
					return fmt.Sprintf("ListXattrs(%s) is %v, expected %v", p, x, n.xattr)
				}
				for k, v := range n.xattr {
					g, err := f.GetXattr(p, k)
					if string(x[k]) != v || err != nil || string(g) != v {
						return fmt.Sprintf("xattr %s of %s is %q/%q, expected %q", k, p, x[k], g, v)
					}
					spoil(g)
					spoil(x[k])
					if g, err = f.GetXattr(p, k); err != nil || string(g) != v {
						return fmt.Sprintf("xattr %s of %s is %q, %v after the caller changed its copy, expected %q", k, p, g, err, v)
					}
				}
			}
			if _, err := f.GetXattr(p, "user.absent"); err == nil {
				return fmt.Sprintf("GetXattr(%s) of an absent attribute succeeds", p)
			}
		}
		if lwerr != nil || ln.kind != 'l' {
			dev, err := f.Readnod(p)
			if (err == nil) != (lwerr == nil && ln.kind == 'c') || err == nil && dev != ln.dev {
				return fmt.Sprintf("Readnod(%s) is %x, %v", p, dev, err)
			}
		}
	}
	return ""
}

// fsSeq runs one sequence; only the last operation and the state after it are compared.
func opNames(ops []fsop, sel []int) string {
	var l []string
	for _, i := range sel {
		l = append(l, ops[i].name)
	}
	return strings.Join(l, "; ")
}

func f01seq(f apkfs.FullFS, ops []fsop, sel []int, o obsOpts) (r *refFS, succeeded int, diff string) {
	r = newRef()
	for k, i := range sel {
		want := ops[i].ref(r)
		got := ops[i].do(f)
		if want == nil {
			succeeded++
		}
		if k == len(sel)-1 {
			if d := cmpErr(got, want); d != "" {
				return r, succeeded, ops[i].name + " " + d
			}
		}
	}
	return r, succeeded, cmpTree(f, r, f01paths, o)
}

func runF01(c *C) {
	ops := f01ops()
	c.Note("operations", len(ops))
	c.Sample(opNames(ops, []int{0, 49, 27}))
	depth := c.Pick(3, 4)
	c.Run(func(emit func(string, func(*T))) {
		for i := range ops {
			i := i
			emit(fmt.Sprintf("seq:%d", i), func(t *T) {
				seen := map[string]bool{}
				frontier := [][]int{{i}}
				for d := 1; d <= depth; d++ {
					var next [][]int
					for _, sel := range frontier {
						if t.Expired() {
							return
						}
						t.Tick()
						r, ok, diff := f01seq(apkfs.NewMemFS(), ops, sel, obsOpts{owner: true, xattr: true})
						t.Eval(ok > 1)
						t.Trans(1)
						t.Trace(1)
						if diff != "" {
							t.Fail("seq:"+opNames(ops, sel), "after [%s]: %s", opNames(ops, sel), diff)
							continue
						}
						st := r.dump()
						t.State(st)
						if d > 2 && seen[st] || d == depth {
							continue
						}
						seen[st] = true
						for j := range ops {
							next = append(next, append(sel[:len(sel):len(sel)], j))
						}
					}
					frontier = next
				}
			})
			emit(fmt.Sprintf("kernel:%d", i), func(t *T) { f01kernel(t, ops, i) })
			// the same, in a tree that holds more
			emit(fmt.Sprintf("rich:%d", i), func(t *T) {
				for k, prefix := range f01rich() {
					all := append(ops[:len(ops):len(ops)], prefix...)
					var first []int
					for j := range prefix {
						first = append(first, len(ops)+j)
					}
					n := 1 + len(ops)
					for j := 0; j < n; j++ {
						if t.Expired() {
							return
						}
						t.Tick()
						sel := append(first[:len(first):len(first)], i)
						if j > 0 {
							sel = append(sel, j-1)
						}
						r, ok, diff := f01seq(apkfs.NewMemFS(), all, sel, obsOpts{owner: true, xattr: true})
						t.Eval(ok > 1)
						t.Trans(1)
						t.Trace(1)
						t.State(fmt.Sprint(k, r.dump()))
						if diff != "" {
							t.Fail("rich:"+opNames(all, sel), "after [%s]: %s", opNames(all, sel), diff)
						}
					}
				}
			})
		}
		emit("chains", f01chains)
	})
}

// f01kernel checks the reference itself against a real directory.
func f01kernel(t *T, ops []fsop, first int) {
	if ops[first].real == nil {
		return
	}
	n := 0
	max := t.Pick(2, 3)
	var rec func(sel []int)
	rec = func(sel []int) {
		if t.Expired() {
			return
		}
		t.Tick()
		n++
		top := filepath.Join(t.Dir(), fmt.Sprint("k", n))
		dir := filepath.Join(top, "1/2/3/4")
		must(os.MkdirAll(dir, 0o755))
		r := newRef()
		ok := true
		for k, i := range sel {
			w, g := ops[i].ref(r), ops[i].real(dir)
			if !r.climbed && k == len(sel)-1 && (w == nil) != (g == nil) {
				panic(fmt.Sprintf("harness: the reference file system disagrees with the kernel: [%s]: %v instead of %v", opNames(ops, sel), w, g))
			}
		}
		for _, p := range f01paths {
			if strings.HasPrefix(p, "/") || strings.Contains(p, "..") {
				continue
			}
			for _, follow := range []bool{false, true} {
				st := os.Lstat
				if follow {
					st = os.Stat
				}
				fi, err := st(dir + "/" + p)
				w, werr := r.get(p, follow)
				if (err == nil) != (werr == nil) {
					ok = false
				}
				if err == nil && ok {
					if fi.Mode().Type() != w.full().Type() {
						ok = false
					}
					if w.kind == 'f' {
						b := must1(os.ReadFile(dir + "/" + p))
						ok = ok && string(b) == w.data
					}
					if w.kind == 'd' {
						var names []string
						for _, e := range must1(os.ReadDir(dir + "/" + p)) {
							names = append(names, e.Name())
						}
						ok = ok && strings.Join(names, " ") == strings.Join(w.names(), " ")
					}
				}
				if r.climbed {
					ok = true
				}
				if !ok {
					panic(fmt.Sprintf("harness: the reference file system disagrees with the kernel after [%s] at %s: %v/%v %v/%v", opNames(ops, sel), p, fi, err, w, werr))
				}
			}
		}
		t.NoteAdd("reference_validated_against_kernel", 1)
		os.RemoveAll(top)
		if len(sel) == max {
			return
		}
		for j := range ops {
			if ops[j].real != nil && j != first {
				rec(append(sel[:len(sel):len(sel)], j))
			}
		}
	}
	rec([]int{first})
}

// f01rich are trees from which single operations lead to what takes many operations to build.
func f01rich() [][]fsop {
	app := os.O_APPEND
	return [][]fsop{
		{opMkdirAll("d/e", 0o750), opWrite("d/e/a", "deep", 0o640), opSymlink("e", "d/l"), opSymlink("d/l", "l"), opWrite("a", "1", 0o600)},
		{opMkdirAll("d/e", 0o755), opWrite("d/a", "da", 0o644), opLink("d/a", "a"), opLink("a", "d/e/b"), opSymlink("d/e/b", "l"), opSymlink("../l", "d/l")},
		{opMkdir("d", 0o711), opWrite("a", "1", 0o644), opSymlink("a", "b"), opSymlink("b", "l"), opSymlink("/l", "d/l"), opSymlink("../d/l", "d/a"), opSetX("a", "user.k", "v"), opChown("a", 8, 9)},
		{opMkdirAll("d/e/f", 0o755), opSymlink("..", "d/e/f/a"), opSymlink("../..", "d/e/l"), opSymlink("d/e/l/d/e", "l"), opWrite("l/a", "la", 0o644), opOpenWrite("l/a", "+", app, 0o644)},
		{opWrite("a", "1", 0o4755), opLink("a", "b"), opRemove("a"), opWrite("a", "new", 0o644), opMkdir("d", 0o755), opLink("b", "d/a"), opRemove("b"), opMknod("c", 0o600, 259), opLink("c", "d/c")},
	}
}

// f01chains: chains of links, in the last part of a path and before it.
func f01chains(t *T) {
	for n := 1; n <= 20; n++ {
		for _, dir := range []bool{false, true} {
			for _, abs := range []bool{false, true} {
				key := fmt.Sprintf("chain:%d:%v:%v", n, dir, abs)
				f, r := apkfs.NewMemFS(), newRef()
				do := func(o fsop) {
					want, got := o.ref(r), o.do(f)
					if d := cmpErr(got, want); d != "" {
						t.Fail(key, "with a chain of %d links: %s %s", n, o.name, d)
					}
				}
				do(opMkdir("d", 0o755))
				do(opWrite("d/a", "da", 0o644))
				to := "d/a"
				if dir {
					to = "d"
				}
				paths := []string{"d", "d/a"}
				for i := 0; i < n; i++ {
					p := fmt.Sprintf("l%d", i)
					do(opSymlink(to, p))
					to = p
					if abs {
						to = "/" + p
					}
					paths = append(paths, p, p+"/a", p+"/.", p+"/../d")
				}
				if dir {
					do(opWrite(to+"/b", "thru", 0o600))
					do(opMkdirAll(to+"/x/y", 0o700))
					do(opRemove(to + "/a"))
					paths = append(paths, "d/b", "d/x", "d/x/y", to+"/x/y")
				} else {
					do(opWrite(to, "thru", 0o644))
					do(opChmod(to, 0o600))
				}
				if d := cmpTree(f, r, paths, obsOpts{owner: true, xattr: true}); d != "" {
					t.Fail(key, "with a chain of %d links: %s", n, d)
				}
				t.Eval(n > 1)
				t.Trans(1)
				t.Trace(1)
				t.State(key)
			}
		}
	}
}
