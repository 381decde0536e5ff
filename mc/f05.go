package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"verif.local/shim/vsched"
)

func init() {
	register("F05", check{run: runF05, level: "model_checking",
		rule: "all unordered pairs of operations of an alphabet of colliding operations on the tree, on contents, attributes and open handles by two goroutines, all pairs of sequences of two operations of a smaller alphabet, and all triples by three goroutines, each under all schedules (unbounded deviations for pairs of single operations, bounded otherwise) of the lock and file operations of the real code; " +
			"results and final tree must equal those of a sequential order of the calls that respects the order in which calls did not overlap; a second build runs the same under the race detector, which is told what the code orders and not what the scheduler does; non-trivial when threads alternate",
		assumptions: []string{"times of files are not compared", "on-disk filesystem: operations on its tree only, file contents are the operating system's"}})
}

// f05env is what the goroutines of one execution share.
type f05env struct {
	fs   apkfs.FullFS
	h    [3]apkfs.File // handles of each thread on the same file
	app  [3]apkfs.File // opened for appending
	both apkfs.File    // handle shared by all
}

type f05op struct {
	name string
	f    func(e *f05env, th int) string
	disk bool // makes sense on disk too
}

func f05err(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, fs.ErrNotExist):
		return "not exist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	}
	return "error"
}

func f05stat(fi fs.FileInfo, err error) string {
	if err != nil {
		return f05err(err)
	}
	size := fi.Size()
	if fi.IsDir() || fi.Mode()&fs.ModeSymlink != 0 {
		size = 0
	}
	return fmt.Sprint(fi.Name(), fi.Mode(), size)
}

func f05ops() []f05op {
	var l []f05op
	add := func(disk bool, name string, f func(e *f05env, th int) string) { l = append(l, f05op{name, f, disk}) }
	er := func(disk bool, name string, f func(e *f05env) error) {
		add(disk, name, func(e *f05env, _ int) string { return f05err(f(e)) })
	}
	er(true, "mkdir d/n", func(e *f05env) error { return e.fs.Mkdir("d/n", 0o755) })
	er(true, "mkdir d/n/m", func(e *f05env) error { return e.fs.Mkdir("d/n/m", 0o700) })
	er(true, "mkdirall d/n/m", func(e *f05env) error { return e.fs.MkdirAll("d/n/m", 0o711) })
	er(true, "rm d/n", func(e *f05env) error { return e.fs.Remove("d/n") })
	er(true, "rm f", func(e *f05env) error { return e.fs.Remove("f") })
	er(true, "rm d/e", func(e *f05env) error { return e.fs.Remove("d/e") })
	er(true, "symlink d/n", func(e *f05env) error { return e.fs.Symlink("../f", "d/n") })
	er(true, "link f d/n", func(e *f05env) error { return e.fs.Link("f", "d/n") })
	er(true, "link f d/e/x", func(e *f05env) error { return e.fs.Link("f", "d/e/x") })
	er(false, "mknod d/n", func(e *f05env) error { return e.fs.Mknod("d/n", 0o600, 5) })
	er(true, "chmod f", func(e *f05env) error { return e.fs.Chmod("f", 0o640) })
	er(true, "chmod f 600", func(e *f05env) error { return e.fs.Chmod("f", 0o600) })
	er(false, "chown f", func(e *f05env) error { return e.fs.Chown("f", 3, 4) })
	er(true, "setxattr f a=1", func(e *f05env) error { return e.fs.SetXattr("f", "user.a", []byte("1")) })
	er(true, "setxattr f b=2", func(e *f05env) error { return e.fs.SetXattr("f", "user.b", []byte("2")) })
	er(true, "rmxattr f a", func(e *f05env) error { return e.fs.RemoveXattr("f", "user.a") })
	add(true, "getxattr f a", func(e *f05env, _ int) string {
		b, err := e.fs.GetXattr("f", "user.a")
		return fmt.Sprintf("%q %s", b, f05err(err))
	})
	add(true, "listxattrs f", func(e *f05env, _ int) string {
		m, err := e.fs.ListXattrs("f")
		return fmt.Sprint(m, f05err(err))
	})
	add(true, "stat f", func(e *f05env, _ int) string { return f05stat(e.fs.Stat("f")) })
	add(true, "lstat d/n", func(e *f05env, _ int) string { return f05stat(e.fs.Lstat("d/n")) })
	add(true, "readlink d/n", func(e *f05env, _ int) string {
		s, err := e.fs.Readlink("d/n")
		return s + f05err(err)
	})
	add(true, "readdir d", func(e *f05env, _ int) string {
		es, err := e.fs.ReadDir("d")
		s := f05err(err)
		for _, x := range es {
			s += fmt.Sprint(" ", x.Name(), x.Type())
		}
		return s
	})
	add(true, "create excl d/n", func(e *f05env, _ int) string {
		f, err := e.fs.OpenFile("d/n", os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
		if err == nil {
			f.Close()
		}
		return f05err(err)
	})
	add(true, "create d/n", func(e *f05env, _ int) string {
		f, err := e.fs.OpenFile("d/n", os.O_CREATE|os.O_RDWR, 0o600)
		if err == nil {
			f.Close()
		}
		return f05err(err)
	})
	er(false, "writefile f", func(e *f05env) error { return e.fs.WriteFile("f", []byte("WXYZ"), 0o644) })
	er(false, "writefile d/n", func(e *f05env) error { return e.fs.WriteFile("d/n", []byte("new"), 0o644) })
	er(false, "writefile d/n 2", func(e *f05env) error { return e.fs.WriteFile("d/n", []byte("other content"), 0o600) })
	add(false, "readfile f", func(e *f05env, _ int) string {
		b, err := e.fs.ReadFile("f")
		return fmt.Sprintf("%q %s", b, f05err(err))
	})
	add(false, "readfile d/n", func(e *f05env, _ int) string {
		b, err := e.fs.ReadFile("d/n")
		return fmt.Sprintf("%q %s", b, f05err(err))
	})
	add(false, "truncate f", func(e *f05env, _ int) string {
		f, err := e.fs.OpenFile("f", os.O_WRONLY|os.O_TRUNC, 0)
		if err == nil {
			f.Close()
		}
		return f05err(err)
	})
	rw := func(n int, err error) string { return fmt.Sprint(n, f05err(err)) }
	add(false, "h.write", func(e *f05env, th int) string {
		return rw(e.h[th].Write([]byte(strings.Repeat(string(rune('0'+th)), 4))))
	})
	add(false, "h.read", func(e *f05env, th int) string {
		b := make([]byte, 4)
		n, err := e.h[th].Read(b)
		return fmt.Sprintf("%q %s", b[:n], f05err(err))
	})
	add(false, "h.readat", func(e *f05env, th int) string {
		b := make([]byte, 3)
		n, err := e.h[th].ReadAt(b, 2)
		return fmt.Sprintf("%q %s", b[:n], f05err(err))
	})
	add(false, "h.seekend", func(e *f05env, th int) string {
		n, err := e.h[th].Seek(0, io.SeekEnd)
		return fmt.Sprint(n, f05err(err))
	})
	add(false, "h.stat", func(e *f05env, th int) string { return f05stat(e.h[th].Stat()) })
	add(false, "append", func(e *f05env, th int) string {
		return rw(e.app[th].Write([]byte(strings.Repeat(string(rune('a'+th)), 3))))
	})
	return l
}

// f05shared are operations on one handle all goroutines share.
func f05shared() []f05op {
	rw := func(n int, err error) string { return fmt.Sprint(n, f05err(err)) }
	return []f05op{
		{"shared.write", func(e *f05env, th int) string {
			return rw(e.both.Write([]byte(strings.Repeat(string(rune('0'+th)), 3))))
		}, false},
		{"shared.read", func(e *f05env, th int) string {
			b := make([]byte, 2)
			n, err := e.both.Read(b)
			return fmt.Sprintf("%q %s", b[:n], f05err(err))
		}, false},
		{"shared.seek", func(e *f05env, th int) string {
			n, err := e.both.Seek(1, io.SeekStart)
			return fmt.Sprint(n, f05err(err))
		}, false},
		{"shared.readat", func(e *f05env, th int) string {
			b := make([]byte, 2)
			n, err := e.both.ReadAt(b, 1)
			return fmt.Sprintf("%q %s", b[:n], f05err(err))
		}, false},
		{"shared.close", func(e *f05env, th int) string { return f05err(e.both.Close()) }, false},
		{"shared.stat", func(e *f05env, th int) string { return f05stat(e.both.Stat()) }, false},
	}
}

// f05new makes the tree the goroutines start from.
func f05new(disk string) *f05env {
	e := &f05env{}
	if disk != "" {
		e.fs = apkfs.DirFS(disk)
	} else {
		e.fs = apkfs.NewMemFS()
	}
	must(e.fs.MkdirAll("d/e", 0o755))
	must(e.fs.WriteFile("f", []byte("abcdef"), 0o644))
	must(e.fs.SetXattr("f", "user.a", []byte("0")))
	if disk == "" {
		for i := range e.h {
			e.h[i] = must1(e.fs.OpenFile("f", os.O_RDWR, 0))
			e.app[i] = must1(e.fs.OpenFile("f", os.O_WRONLY|os.O_APPEND, 0))
		}
		e.both = must1(e.fs.OpenFile("f", os.O_RDWR, 0))
	}
	return e
}

// tree describes everything but times.
func (e *f05env) tree(disk string) string {
	var out strings.Builder
	var rec func(p string)
	rec = func(p string) {
		es, err := e.fs.ReadDir(p)
		if err != nil {
			fmt.Fprintf(&out, "%s: %v\n", p, err)
			return
		}
		for _, x := range es {
			q := filepath.Join(p, x.Name())
			fi, err := e.fs.Lstat(q)
			fmt.Fprintf(&out, "%s %s", q, f05stat(fi, err))
			if err != nil {
				continue
			}
			if m, err := e.fs.ListXattrs(q); err == nil && len(m) > 0 {
				fmt.Fprint(&out, m)
			}
			switch {
			case fi.IsDir():
				rec(q)
			case fi.Mode()&fs.ModeSymlink != 0:
				l, _ := e.fs.Readlink(q)
				out.WriteString(" -> " + l)
			case fi.Mode().IsRegular():
				b, err := e.fs.ReadFile(q)
				fmt.Fprintf(&out, " %q %s", b, f05err(err))
			}
			out.WriteString("\n")
		}
	}
	rec(".")
	if disk != "" {
		must(filepath.WalkDir(disk, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				fmt.Fprintf(&out, "%s: %s\n", strings.TrimPrefix(p, disk), f05err(err))
				return nil
			}
			fmt.Fprintf(&out, "disk %s %v\n", strings.TrimPrefix(p, disk), d.Type())
			return nil
		}))
	}
	return out.String()
}

// f05case runs the sequences of operations of the threads under all schedules.
func f05case(t *T, key string, threads [][]f05op, onDisk bool, bound int) bool {
	var names []string
	type call struct{ th, i int }
	var calls []call
	for th, s := range threads {
		var l []string
		for i, o := range s {
			l = append(l, o.name)
			calls = append(calls, call{th, i})
		}
		names = append(names, strings.Join(l, ", "))
	}
	desc := strings.Join(names, " || ")
	disks := 0
	newEnv := func() (*f05env, string) {
		if !onDisk {
			return f05new(""), ""
		}
		disks++
		d := filepath.Join(t.Dir(), fmt.Sprintf("f%d", disks))
		must(os.Mkdir(d, 0o755))
		return f05new(d), d
	}
	// what each sequential order gives
	seq := map[string]string{}
	sequential := func(order []int) string {
		k := fmt.Sprint(order)
		if r, ok := seq[k]; ok {
			return r
		}
		e, d := newEnv()
		res := make([]string, len(calls))
		for _, c := range order {
			res[c] = threads[calls[c].th][calls[c].i].f(e, calls[c].th)
		}
		r := strings.Join(res, "\n") + "\n--\n" + e.tree(d)
		if d != "" {
			must(os.RemoveAll(d))
		}
		seq[k] = r
		return r
	}
	mk := func() schedRun {
		e, d := newEnv()
		res := make([]string, len(calls))
		// The order of starts and ends is told by the scheduler's trace: each call starts with a point.
		var s schedRun
		n := 0
		for th := range threads {
			first := n
			n += len(threads[th])
			s.bodies = append(s.bodies, func() {
				for i, o := range threads[th] {
					vsched.Point(fmt.Sprintf("call %d", first+i))
					res[first+i] = o.f(e, th)
					vsched.Point(fmt.Sprintf("return %d", first+i))
				}
			})
		}
		s.done = func() {
			if d != "" {
				must(os.RemoveAll(d))
			}
		}
		s.judge = func(r *vsched.Result) (string, string) {
			at := map[string]int{}
			for i, l := range r.Trace {
				if _, x, ok := strings.Cut(l, ": "); ok && (strings.HasPrefix(x, "call ") || strings.HasPrefix(x, "return ")) {
					at[x] = i
				}
			}
			got := strings.Join(res, "\n") + "\n--\n" + e.tree(d)
			found := false
			var rec func(order []int, used int)
			rec = func(order []int, used int) {
				if found {
					return
				}
				if len(order) == len(calls) {
					found = sequential(order) == got
					return
				}
			next:
				for c := range calls {
					if used&(1<<c) != 0 {
						continue
					}
					for o := range calls {
						if o != c && used&(1<<o) == 0 && at[fmt.Sprintf("return %d", o)] < at[fmt.Sprintf("call %d", c)] {
							continue next // o ended before c started
						}
					}
					rec(append(order[:len(order):len(order)], c), used|1<<c)
				}
			}
			rec(nil, 0)
			if found {
				return "", got
			}
			var all []string
			for k, v := range seq {
				all = append(all, k+":\n"+v)
			}
			sort.Strings(all)
			return fmt.Sprintf("no sequential order explains the results\n%s\nsequentially\n%s", got, strings.Join(all, "\n")), "bad"
		}
		return s
	}
	return t.schedules(key, desc, bound, 0, 1, mk)
}

func runF05(c *C) {
	if !vsched.Available {
		c.Cap("no scheduler in this build")
		return
	}
	ops := f05ops()
	small := func(names ...string) (l []f05op) {
		for _, n := range names {
			for _, o := range ops {
				if o.name == n {
					l = append(l, o)
				}
			}
		}
		return l
	}
	c.Run(func(emit func(string, func(t *T))) {
		for i := range ops {
			emit("pairs:"+ops[i].name, func(t *T) {
				for j := i; j < len(ops); j++ {
					if !f05case(t, "pair:"+ops[i].name+"|"+ops[j].name, [][]f05op{{ops[i]}, {ops[j]}}, false, 20) {
						return
					}
				}
			})
			if !ops[i].disk {
				continue
			}
			emit("disk:"+ops[i].name, func(t *T) {
				for j := i; j < len(ops); j++ {
					if ops[j].disk && !f05case(t, "disk:"+ops[i].name+"|"+ops[j].name, [][]f05op{{ops[i]}, {ops[j]}}, true, t.Pick(2, 20)) {
						return
					}
				}
			})
		}
		sh := f05shared()
		for i := range sh {
			emit("shared:"+sh[i].name, func(t *T) {
				for j := range sh {
					for k := range sh {
						if !f05case(t, "shared:"+sh[i].name+"|"+sh[j].name+"|"+sh[k].name, [][]f05op{{sh[i]}, {sh[j], sh[k]}}, false, t.Pick(2, 20)) {
							return
						}
					}
				}
			})
		}
		// sequences of two
		al := small("mkdir d/n", "rm d/n", "writefile d/n", "readfile d/n", "link f d/n", "lstat d/n", "rm f", "h.write", "append", "readfile f", "chmod f", "mkdirall d/n/m")
		if c.Thorough() {
			al = ops
		}
		for i := range al {
			for j := range al {
				emit("seq:"+al[i].name+","+al[j].name, func(t *T) {
					for k := range al {
						for l := range al {
							if k*len(al)+l < i*len(al)+j {
								continue
							}
							if t.Expired() {
								return
							}
							if !f05case(t, "seq:"+al[i].name+","+al[j].name+"|"+al[k].name+","+al[l].name, [][]f05op{{al[i], al[j]}, {al[k], al[l]}}, false, t.Pick(1, 2)) {
								return
							}
						}
					}
				})
			}
		}
		// three threads
		for i := range al {
			for j := i; j < len(al); j++ {
				emit("three:"+al[i].name+"|"+al[j].name, func(t *T) {
					for k := j; k < len(al); k++ {
						if t.Expired() || !f05case(t, "three:"+al[i].name+"|"+al[j].name+"|"+al[k].name, [][]f05op{{al[i]}, {al[j]}, {al[k]}}, false, t.Pick(1, 2)) {
							return
						}
					}
				})
			}
		}
	})
}
