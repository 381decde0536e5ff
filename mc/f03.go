package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"golang.org/x/sys/unix"
)

func init() {
	register("F03", check{run: runF03, level: "model_checking",
		rule:        "every operation of the filesystem on every path of an adversarial alphabet (dot-dot chains, absolute paths, prefix siblings, paths through links, odd spellings), after every planting of a symlink (on disk before opening, or through the filesystem; to dot-dot chains, to absolute places, to siblings, chained), on both kinds of disk, and every pair of such operations over a core alphabet; around the base lies a tree of sentinels which must be unchanged and whose contents, names and sizes must not come back; non-trivial when the path or a link leads out of the base",
		assumptions: []string{"nothing else changes the directory while it is open", "what a symlink points to may be reported as text; it must not be followed out of the base"}})
}

const f03secret = "SECRET-OUTSIDE"

// f03world makes scratch/N/1/2/ with sentinels and an empty base in it.
func f03world(top string) (base string) {
	in := filepath.Join(top, "1/2")
	must(os.MkdirAll(filepath.Join(in, "out/sub"), 0o755))
	must(os.MkdirAll(filepath.Join(in, "base-sib"), 0o755))
	must(os.MkdirAll(filepath.Join(in, "base"), 0o755))
	for _, p := range []string{"out/f", "out/zz-hidden", "out/sub/zz-hidden", "base-sib/zz-hidden", "zz-hidden", "base-sib/f", "f", "../f", "../zz-hidden"} {
		must(os.WriteFile(filepath.Join(in, p), []byte(f03secret+strings.Repeat("x", 1000)), 0o641))
	}
	must(os.Symlink("out", filepath.Join(in, "outlink")))
	return filepath.Join(in, "base")
}

func f03snap(top, base string) string {
	var b strings.Builder
	filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s: error\n", p)
			return nil
		}
		if p == base {
			return filepath.SkipDir
		}
		fi := must1(d.Info())
		st := fi.Sys().(*syscall.Stat_t)
		fmt.Fprintf(&b, "%s %v %d %d", strings.TrimPrefix(p, top), fi.Mode(), st.Uid, st.Gid)
		if p != filepath.Dir(base) || d.Type().IsRegular() {
			fmt.Fprintf(&b, " n%d t%v", st.Nlink, st.Mtim)
		}
		if fi.Mode().IsRegular() {
			x, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %x %d", hashStr(string(x)), len(x))
		}
		var buf [256]byte
		if n, err := unix.Llistxattr(p, buf[:]); err == nil && n > 0 {
			fmt.Fprintf(&b, " x%s", buf[:n])
		}
		b.WriteByte('\n')
		return nil
	})
	return b.String()
}

type f03op struct {
	name string
	do   func(f apkfs.FullFS) string // what came back, as text
	out  bool
}

// f03read is everything a read-only operation gives back.
func f03read(h interface{ Read([]byte) (int, error) }, err error) string {
	if err != nil {
		return ""
	}
	b := make([]byte, 4096)
	n, _ := io.ReadFull(h, b)
	return string(b[:n])
}

func f03info(fi fs.FileInfo, err error) string {
	if err != nil {
		return ""
	}
	s := fi.Name()
	if fi.Mode().Perm() == 0o641 || fi.Size() == int64(len(f03secret)+1000) {
		s += f03secret + " (its size or mode)"
	}
	return s
}

func f03ops(paths []string, targets []string) []f03op {
	var l []f03op
	add := func(p, name string, f func(f apkfs.FullFS) string) {
		l = append(l, f03op{name + "(" + p + ")", f, true})
	}
	e := func(err error) string { return "" }
	for _, p := range paths {
		p := p
		add(p, "readfile", func(f apkfs.FullFS) string { b, _ := f.ReadFile(p); return string(b) })
		add(p, "open", func(f apkfs.FullFS) string {
			h, err := f.Open(p)
			if err != nil {
				return ""
			}
			defer h.Close()
			s := f03read(h, nil)
			fi, err := h.Stat()
			s += f03info(fi, err)
			if d, ok := h.(fs.ReadDirFile); ok {
				es, _ := d.ReadDir(-1)
				for _, x := range es {
					s += " " + x.Name()
				}
			}
			return s
		})
		add(p, "openreaderat", func(f apkfs.FullFS) string {
			h, err := f.OpenReaderAt(p)
			if err != nil {
				return ""
			}
			defer h.Close()
			return f03read(h, nil)
		})
		for _, fl := range []int{os.O_RDONLY, os.O_RDWR, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_TRUNC} {
			fl := fl
			add(p, fmt.Sprintf("openfile%x", fl), func(f apkfs.FullFS) string {
				h, err := f.OpenFile(p, fl, 0o600)
				if err != nil {
					return ""
				}
				defer h.Close()
				s := f03read(h, nil)
				if fl != os.O_RDONLY {
					h.Write([]byte("written"))
				}
				return s
			})
		}
		add(p, "create", func(f apkfs.FullFS) string {
			h, err := f.Create(p)
			if err == nil {
				h.Write([]byte("created"))
				h.Close()
			}
			return ""
		})
		add(p, "write", func(f apkfs.FullFS) string { return e(f.WriteFile(p, []byte("w"), 0o644)) })
		add(p, "mkdir", func(f apkfs.FullFS) string { return e(f.Mkdir(p, 0o755)) })
		add(p, "mkdirall", func(f apkfs.FullFS) string { return e(f.MkdirAll(p, 0o755)) })
		add(p, "mkdirall2", func(f apkfs.FullFS) string { return e(f.MkdirAll(p+"/new/er", 0o755)) })
		add(p, "remove", func(f apkfs.FullFS) string { return e(f.Remove(p)) })
		add(p, "chmod", func(f apkfs.FullFS) string { return e(f.Chmod(p, 0o711)) })
		add(p, "chown", func(f apkfs.FullFS) string { return e(f.Chown(p, 65534, 65534)) })
		add(p, "mknod", func(f apkfs.FullFS) string { return e(f.Mknod(p, unix.S_IFCHR|0o644, 259)) })
		add(p, "readnod", func(f apkfs.FullFS) string { f.Readnod(p); return "" })
		add(p, "stat", func(f apkfs.FullFS) string { return f03info(f.Stat(p)) })
		add(p, "lstat", func(f apkfs.FullFS) string { return f03info(f.Lstat(p)) })
		add(p, "readdir", func(f apkfs.FullFS) string {
			es, err := f.ReadDir(p)
			if err != nil {
				return ""
			}
			s := ""
			for _, x := range es {
				s += " " + x.Name() + f03info(x.Info())
			}
			return s
		})
		add(p, "walk", func(f apkfs.FullFS) string {
			s := ""
			fs.WalkDir(f, p, func(q string, d fs.DirEntry, err error) error {
				if strings.Count(s, " ") > 200 {
					return errors.New("too much")
				}
				s += " " + strings.TrimPrefix(q, p)
				return nil
			})
			return s
		})
		add(p, "xattr", func(f apkfs.FullFS) string {
			f.SetXattr(p, "user.t", []byte("v"))
			f.GetXattr(p, "user.t")
			f.ListXattrs(p)
			f.RemoveXattr(p, "user.t")
			return ""
		})
		add(p, "link(f)", func(f apkfs.FullFS) string { return e(f.Link("f", p)) })
		add(p, "linkfrom", func(f apkfs.FullFS) string {
			if f.Link(p, "hard") != nil {
				return ""
			}
			b, _ := f.ReadFile("hard")
			f.Chmod("hard", 0o700)
			f.WriteFile("hard", []byte("through"), 0o600)
			return string(b)
		})
		for _, to := range targets {
			to := to
			add(p, "symlink("+strings.ReplaceAll(to, "/dev/shm", "")+")", func(f apkfs.FullFS) string { return e(f.Symlink(to, p)) })
		}
	}
	return l
}

var f03paths = []string{"..", "../f", "../out", "../out/f", "../out/new", "../base-sib/f", "../base-sib/new", "../base-sib", "/../out/f", "d/../../f", "d/../../out/new", "./../f", "d/./../../base-sib/f", "../base/../f", "../base/f", "../../f", "l", "l/f", "l/new", "l/sub", "l/../f", "l/sub/f", "d/l", "d/l/f", "k", "k/f", "f", "d", "//../f", "..//f", "../new", ".", "/"}

// places to plant links at, and what they point to (@ is the directory above the base)
var f03targets = []string{"..", "../f", "../out", "../base-sib", "../out/f", "../nonexistent", "@/out", "@/out/f", "@/base-sib", "@", "/", "../../f", "d/../..", "../outlink", "@/new"}

func runF03(c *C) {
	syscall.Umask(0)
	c.Sample("link l -> ../out made on disk before opening; WriteFile(l/new)")
	c.Sample("Symlink(../f, l) through the view; Chmod(l, 0711)")
	type plant struct {
		name string
		do   func(base string, f func() apkfs.FullFS) apkfs.FullFS
	}
	var plants []plant
	abs := func(to, base string) string { return strings.Replace(to, "@", filepath.Dir(base), 1) }
	plants = append(plants, plant{"nothing", func(base string, f func() apkfs.FullFS) apkfs.FullFS { return f() }})
	for _, to := range f03targets {
		for _, at := range []string{"l", "d/l", "d"} {
			to, at := to, at
			if at == "d/l" && strings.HasPrefix(to, "..") {
				to = "../" + to
			}
			plants = append(plants,
				plant{"disk:" + at + "->" + to, func(base string, f func() apkfs.FullFS) apkfs.FullFS {
					if at == "d" {
						must(os.Remove(base + "/d"))
					}
					must(os.Symlink(abs(to, base), base+"/"+at))
					return f()
				}},
				plant{"view:" + at + "->" + to, func(base string, f func() apkfs.FullFS) apkfs.FullFS {
					v := f()
					if at == "d" {
						v.Remove("d")
					}
					v.Symlink(abs(to, base), at)
					return v
				}})
		}
	}
	plants = append(plants, plant{"chain", func(base string, f func() apkfs.FullFS) apkfs.FullFS {
		v := f()
		v.Symlink("..", "k")
		v.Symlink("k/out", "l")
		return v
	}}, plant{"diskchain", func(base string, f func() apkfs.FullFS) apkfs.FullFS {
		must(os.Symlink("..", base+"/k"))
		must(os.Symlink("k/out", base+"/l"))
		return f()
	}})
	run := func(t *T, n *int, kind string, pl plant, ops ...f03op) {
		*n++
		top := filepath.Join(t.Dir(), fmt.Sprint(*n))
		base := f03world(top)
		defer func() { chmodTree(top); os.RemoveAll(top) }()
		must(os.Mkdir(base+"/d", 0o755))
		must(os.WriteFile(base+"/f", []byte("inside"), 0o644))
		before := f03snap(top, base)
		v := pl.do(base, func() apkfs.FullFS { return apkfs.DirFS(base, apkfs.DirFSWithCaseSensitive(kind == "dir")) })
		name := kind + ":" + pl.name
		var back string
		for _, o := range ops {
			back = o.do(v)
			name += ";" + o.name
			if strings.Contains(back, f03secret) || strings.Contains(back, "zz-hidden") {
				t.Fail(name, "[%s] read something from outside of the base: %.200q", name, back)
			}
		}
		t.Trans(len(ops))
		t.Trace(1)
		t.Eval(true)
		after := f03snap(top, base)
		if after != before {
			t.Fail(name, "[%s] changed something outside of the base:\nbefore:\n%s\nafter:\n%s", name, before, after)
		}
		t.State(pl.name + back)
	}
	core := f03ops([]string{"../f", "../base-sib/f", "l", "l/f", "l/new", "k", "d/../../f"}, nil)
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range []string{"dir", "dirci"} {
			for pi, pl := range plants {
				kind, pi, pl := kind, pi, pl
				emit(fmt.Sprintf("one:%s:%d", kind, pi), func(t *T) {
					n := 0
					for _, o := range f03ops(f03paths, nil) {
						t.Tick()
						if t.Expired() {
							return
						}
						run(t, &n, kind, pl, o)
					}
				})
			}
			for i, at := range []string{"l", "d/../l", "k", "d/l", "/l"} {
				if i >= c.Pick(2, 5) {
					break
				}
				i, at, kind := i, at, kind
				emit(fmt.Sprintf("two:%s:%d", kind, i), func(t *T) {
					n := 0
					for _, to := range f03targets {
						for _, o := range core {
							t.Tick()
							if t.Expired() {
								return
							}
							for k, o2 := range []f03op{{name: "nothing", do: func(apkfs.FullFS) string { return "" }}, core[5], core[0], core[len(core)-3]} {
								if k >= c.Pick(2, 4) {
									break
								}
								to := to
								sy := f03op{name: "symlink(" + to + "," + at + ")", do: func(f apkfs.FullFS) string {
									f.Symlink(strings.Replace(to, "@", filepath.Join(t.Dir(), fmt.Sprint(n), "1/2"), 1), at)
									return ""
								}}
								run(t, &n, kind, plants[0], sy, o, o2)
							}
						}
					}
				})
			}
			if c.Thorough() {
				for pi, pl := range plants {
					for i := range core {
						kind, pi, pl, i := kind, pi, pl, i
						emit(fmt.Sprintf("pairs:%s:%d:%d", kind, pi, i), func(t *T) {
							n := 0
							for _, o := range core {
								t.Tick()
								if t.Expired() {
									return
								}
								run(t, &n, kind, pl, core[i], o)
							}
						})
					}
				}
			}
		}
	})
}
