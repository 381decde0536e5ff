package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("F04", check{run: runF04, level: "model_checking",
		rule:        "every open mode (read, write, read-write x append, truncate, create, exclusive) x initial content x every sequence of up to 3 (4 in thorough) handle operations, and every sequence of up to 3 (4) operations on two handles of one file with removal and rewriting by path between them; each step is compared with the same calls on a real file; non-trivial when the open succeeds and something was written or read",
		assumptions: []string{"the oracle is os.File on this sandbox's Linux", "offsets beyond the size limits of a real file are not used", "zero-length transfers through a handle of the wrong direction, and which error a positioned read of a closed handle gives, are not compared"}})
}

type hop struct {
	name string
	// do returns what the call did as text; wrong marks a zero-length transfer
	do func(h apkfs.File) string
}

func errWord(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	}
	return "error"
}

func hopRead(n int) hop {
	return hop{fmt.Sprintf("read(%d)", n), func(h apkfs.File) string {
		b := make([]byte, n)
		k, err := h.Read(b)
		if k < 0 || k > n {
			return fmt.Sprint("count ", k)
		}
		return fmt.Sprintf("%d %q %s", k, b[:k], errWord(err))
	}}
}

func hopReadAt(n int, off int64) hop {
	return hop{fmt.Sprintf("readat(%d,%d)", n, off), func(h apkfs.File) string {
		b := make([]byte, n)
		k, err := h.ReadAt(b, off)
		if k < 0 || k > n {
			return fmt.Sprint("count ", k)
		}
		return fmt.Sprintf("%d %q %s", k, b[:k], errWord(err))
	}}
}

func hopWrite(s string) hop {
	return hop{fmt.Sprintf("write(%q)", s), func(h apkfs.File) string {
		b := []byte(s)
		k, err := h.Write(b)
		for i := range b {
			b[i] = '!' // the caller may reuse its buffer
		}
		return fmt.Sprintf("%d %s", k, errWord(err))
	}}
}

func hopSeek(off int64, wh int) hop {
	return hop{fmt.Sprintf("seek(%d,%d)", off, wh), func(h apkfs.File) string {
		k, err := h.Seek(off, wh)
		if err != nil {
			return errWord(err)
		}
		return fmt.Sprintf("at %d", k)
	}}
}

var hopStat = hop{"stat", func(h apkfs.File) string {
	fi, err := h.Stat()
	if err != nil {
		return errWord(err)
	}
	return fmt.Sprintf("size %d mode %v name %s", fi.Size(), fi.Mode(), fi.Name())
}}

var hopClose = hop{"close", func(h apkfs.File) string { return errWord(h.Close()) }}

func f04ops() []hop {
	return []hop{hopRead(0), hopRead(1), hopRead(4), hopWrite(""), hopWrite("x"), hopWrite("yzw"), hopSeek(0, 0), hopSeek(2, 0), hopSeek(5, 0), hopSeek(-1, 0), hopSeek(1, 1), hopSeek(-1, 1), hopSeek(0, 2), hopSeek(-2, 2), hopSeek(2, 2), hopSeek(0, 9), hopReadAt(2, 0), hopReadAt(2, 2), hopReadAt(3, 9), hopReadAt(1, -1), hopReadAt(0, 1), hopStat, hopClose}
}

type omode struct {
	flag int
	name string
}

func f04modes() []omode {
	var l []omode
	for _, acc := range []omode{{os.O_RDONLY, "R"}, {os.O_WRONLY, "W"}, {os.O_RDWR, "RW"}} {
		for m := 0; m < 16; m++ {
			o := acc
			for i, x := range []omode{{os.O_APPEND, "+append"}, {os.O_TRUNC, "+trunc"}, {os.O_CREATE, "+create"}, {os.O_EXCL, "+excl"}} {
				if m>>i&1 == 1 {
					o.flag |= x.flag
					o.name += x.name
				}
			}
			if o.flag&os.O_EXCL != 0 && o.flag&os.O_CREATE == 0 || acc.name == "R" && o.flag&os.O_TRUNC != 0 {
				continue // undefined by POSIX
			}
			l = append(l, o)
		}
	}
	return l
}

// f04 runs one sequence of steps, each on handle 0 or 1 or (negative) on the path; it returns the
// first difference.
type f04env struct {
	mem  apkfs.FullFS
	path string
	hs   [2][2]apkfs.File
}

func (e *f04env) open(k int, m omode) (got, want error) {
	g, err := e.mem.OpenFile("f", m.flag, 0o644)
	if err == nil {
		e.hs[k][0] = g
	}
	w, werr := os.OpenFile(e.path, m.flag, 0o644)
	if werr == nil {
		e.hs[k][1] = w
	}
	return err, werr
}

func (e *f04env) content() string {
	b, err := e.mem.ReadFile("f")
	rb, rerr := os.ReadFile(e.path)
	if (err == nil) != (rerr == nil) || string(b) != string(rb) {
		return fmt.Sprintf("the file holds %q, %v, expected %q, %v", b, err, rb, rerr)
	}
	if err == nil {
		fi, err := e.mem.Stat("f")
		if err != nil || fi.Size() != int64(len(rb)) {
			return fmt.Sprintf("Stat shows %v, %v, expected size %d", fi, err, len(rb))
		}
	}
	return ""
}

func (e *f04env) closeReal() {
	for _, h := range e.hs {
		if h[1] != nil {
			h[1].Close()
		}
	}
}

func f04env0(t *T, initial string) *f04env {
	e := &f04env{mem: apkfs.NewMemFS(), path: filepath.Join(t.Dir(), "f")}
	os.Remove(e.path)
	if initial != "-" {
		must(e.mem.WriteFile("f", []byte(initial), 0o644))
		must(os.WriteFile(e.path, []byte(initial), 0o644))
	}
	return e
}

// zero-length transfers in the wrong direction are not compared.
func f04skip(o hop, m omode, closed bool) bool {
	if closed && strings.HasPrefix(o.name, "readat(") {
		return true
	}
	acc := m.flag & (os.O_WRONLY | os.O_RDWR)
	return acc == os.O_WRONLY && (o.name == "read(0)" || o.name == "readat(0,1)") || acc == os.O_RDONLY && o.name == `write("")`
}

func f04one(t *T, id string, m omode, initial string, ops []hop, sel []int) bool {
	e := f04env0(t, initial)
	defer e.closeReal()
	name := func(k int) string {
		l := []string{"open(" + m.name + ") of " + fmt.Sprintf("%q", initial)}
		for _, i := range sel[:k] {
			l = append(l, ops[i].name)
		}
		return strings.Join(l, "; ")
	}
	got, want := e.open(0, m)
	if (got == nil) != (want == nil) || errors.Is(want, fs.ErrExist) && !errors.Is(got, fs.ErrExist) || errors.Is(want, fs.ErrNotExist) && !errors.Is(got, fs.ErrNotExist) {
		t.Fail(id+name(0), "%s: %v, expected %v", name(0), got, want)
		return false
	}
	if d := e.content(); d != "" {
		t.Fail(id+name(0), "%s: %s", name(0), d)
		return false
	}
	if got != nil {
		t.Eval(false)
		return false
	}
	closed := false
	for k, i := range sel {
		g, w := ops[i].do(e.hs[0][0]), ops[i].do(e.hs[0][1])
		t.Trans(1)
		if g != w && !f04skip(ops[i], m, closed) {
			t.Fail(id+name(k+1), "%s: last returned %s, expected %s", name(k+1), g, w)
			return false
		}
		closed = closed || ops[i].name == "close"
	}
	if d := e.content(); d != "" {
		t.Fail(id+name(len(sel)), "%s: %s", name(len(sel)), d)
		return false
	}
	t.Eval(true)
	t.Trace(1)
	return true
}

func runF04(c *C) {
	ops := f04ops()
	modes := f04modes()
	depth := c.Pick(3, 4)
	c.Note("operations", len(ops))
	c.Note("open_modes", len(modes))
	c.Sample("open(RW+append) of \"abc\"; seek(0,0); read(1); write(\"x\")")
	c.Run(func(emit func(string, func(*T))) {
		for _, m := range modes {
			for _, in := range []string{"-", "", "abc"} {
				m, in := m, in
				emit(fmt.Sprintf("one:%s:%s", m.name, in), func(t *T) {
					if !f04one(t, "", m, in, ops, nil) {
						return
					}
					var rec func(sel []int)
					rec = func(sel []int) {
						if t.Expired() {
							return
						}
						t.Tick()
						closed := false
						for _, i := range sel {
							closed = closed || ops[i].name == "close"
						}
						for i := range ops {
							s := append(sel[:len(sel):len(sel)], i)
							// all prefixes are compared on the way, so only full sequences are run
							if len(s) == depth || closed {
								f04one(t, "", m, in, ops, s)
								continue
							}
							rec(s)
						}
					}
					rec(nil)
				})
			}
		}
		// two handles on one file
		two := []hop{hopRead(2), hopWrite("x"), hopWrite("yzwv"), hopSeek(0, 0), hopSeek(5, 0), hopSeek(-1, 2), hopStat, hopClose}
		d2 := c.Pick(3, 4)
		for _, m1 := range modes {
			for _, m2 := range modes {
				if m1.flag&os.O_EXCL != 0 || m2.flag&os.O_EXCL != 0 || m1.flag&os.O_CREATE != 0 || m2.flag&os.O_CREATE != 0 {
					continue
				}
				if m1.flag > m2.flag && !c.Thorough() {
					continue
				}
				m1, m2 := m1, m2
				emit(fmt.Sprintf("two:%s:%s", m1.name, m2.name), func(t *T) {
					f04two(t, m1, m2, two, d2)
				})
			}
		}
	})
}

func f04two(t *T, m1, m2 omode, ops []hop, depth int) {
	// steps: handle operations of either handle, opening the second, and operations by path
	type step struct {
		name string
		do   func(e *f04env) string
	}
	var steps []step
	for k := 0; k < 2; k++ {
		for _, o := range ops {
			k, o := k, o
			steps = append(steps, step{fmt.Sprintf("h%d.%s", k+1, o.name), func(e *f04env) string {
				if e.hs[k][0] == nil {
					return "" // not open yet
				}
				g, w := o.do(e.hs[k][0]), o.do(e.hs[k][1])
				if g != w {
					return fmt.Sprintf("returned %s, expected %s", g, w)
				}
				return ""
			}})
		}
	}
	steps = append(steps,
		step{"open2(" + m2.name + ")", func(e *f04env) string {
			if e.hs[1][0] != nil {
				return ""
			}
			g, w := e.open(1, m2)
			if (g == nil) != (w == nil) {
				return fmt.Sprintf("returned %v, expected %v", g, w)
			}
			return ""
		}},
		step{"remove", func(e *f04env) string {
			g, w := e.mem.Remove("f"), os.Remove(e.path)
			if (g == nil) != (w == nil) {
				return fmt.Sprintf("returned %v, expected %v", g, w)
			}
			return ""
		}},
		step{"writefile", func(e *f04env) string {
			g, w := e.mem.WriteFile("f", []byte("NEWDATA"), 0o644), os.WriteFile(e.path, []byte("NEWDATA"), 0o644)
			if (g == nil) != (w == nil) {
				return fmt.Sprintf("returned %v, expected %v", g, w)
			}
			return ""
		}})
	var rec func(sel []int)
	rec = func(sel []int) {
		if t.Expired() {
			return
		}
		t.Tick()
		for i := range steps {
			s := append(sel[:len(sel):len(sel)], i)
			if len(s) < depth {
				rec(s)
				continue
			}
			e := f04env0(t, "abc")
			l := []string{"open(" + m1.name + ")"}
			g, w := e.open(0, m1)
			ok := (g == nil) == (w == nil)
			if !ok {
				t.Fail("two:"+l[0], "open(%s) of \"abc\": %v, expected %v", m1.name, g, w)
				e.closeReal()
				return
			}
			for _, i := range s {
				l = append(l, steps[i].name)
				d := steps[i].do(e)
				t.Trans(1)
				if d == "" {
					d = e.content()
				}
				if d != "" {
					t.Fail("two:"+strings.Join(l, "; "), "%s: %s", strings.Join(l, "; "), d)
					ok = false
					break
				}
			}
			e.closeReal()
			t.Eval(true)
			if ok {
				t.Trace(1)
			}
		}
	}
	// the first step opens the second handle or uses the first
	rec(nil)
}
