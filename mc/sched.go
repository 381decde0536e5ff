package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"verif.local/shim/vctx"
	"verif.local/shim/vrace"
	"verif.local/shim/vsched"
)

// schedRun is one execution of threads.
type schedRun struct {
	bodies []func()
	exec   vctx.Exec
	max    int
	delay  bool // bound all deviations, not only preemptions
	// judge says what is wrong with the outcome ("" for nothing) and describes it
	judge func(r *vsched.Result) (wrong, outcome string)
	// may block, and what then
	deadlockOK bool
	done       func()
}

// schedules explores all schedules with at most bound deviations, those whose first deviation is in the
// given part. mk makes a fresh execution each time.
func (t *T) schedules(key, desc string, bound, part, parts int, mk func() schedRun) bool {
	ok := true
	run := func(ch *Chooser) bool {
		t.Tick()
		before := vrace.Races()
		s := mk()
		r := vsched.Run(vsched.Options{Choose: ch.Choose, Exec: s.exec, Max: s.max, Trace: true, Delay: s.delay}, s.bodies...)
		wrong, out := "", ""
		switch {
		case len(r.Panics) > 0:
			wrong, out = "panic: "+r.Panics[0], "panic"
		case r.Deadlock != "":
			wrong, out = "no thread can go on: "+r.Deadlock, "deadlock"
		default:
			wrong, out = s.judge(r)
		}
		if n := vrace.Races(); wrong == "" && n > before {
			wrong, out = "data race: "+raceReport(), "race"
		}
		if s.done != nil {
			s.done()
		}
		t.Eval(r.Switches > 0)
		t.Trans(r.Points)
		t.Trace(1)
		t.Outcome(out)
		t.State(fmt.Sprint(key, r.Trace))
		t.NoteMax("max_points", int64(r.Points))
		if wrong != "" {
			ok = false
			t.Fail(key, "%s; schedule %v: %s\n%s", desc, compact(ch.Choices), wrong, strings.Join(tail(r.Trace, 60), "\n"))
			return false
		}
		return true
	}
	n, pts, complete := explorePart(bound, t.maxExec, part, parts, t.Expired, run)
	t.NoteAdd("schedules", int64(n))
	t.NoteMax("max_choice_points", int64(pts))
	if !complete && ok {
		t.C.Cap("schedules of " + desc)
	}
	return ok
}

// compact lists the choices other than the first alternative as position:choice.
func compact(c []int) []string {
	var l []string
	for i, v := range c {
		if v != 0 {
			l = append(l, fmt.Sprintf("%d:%d", i, v))
		}
	}
	return l
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// raceReport returns what the race detector wrote.
func raceReport() string {
	for _, f := range must1(filepath.Glob(filepath.Join(os.Getenv("HOME"), "race.*"))) {
		if b, err := os.ReadFile(f); err == nil {
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			if len(s) > 2500 {
				s = s[:2500]
			}
			return s
		}
	}
	return ""
}

// quietFS is a filesystem whose operations are no scheduling points, except as given by at.
type quietFS struct {
	f  apkfs.FullFS
	at func(op, path string) bool
}

// q runs f outside of the scheduler.
func (q quietFS) q(op, path string, f func()) {
	c := vctx.Get()
	if c == nil {
		f()
		return
	}
	if q.at != nil && q.at(op, path) {
		vsched.Point(op + " " + path)
	}
	vctx.Set(nil)
	defer vctx.Set(c)
	f()
}

func (q quietFS) Mkdir(p string, m fs.FileMode) (err error) {
	q.q("Mkdir", p, func() { err = q.f.Mkdir(p, m) })
	return
}
func (q quietFS) MkdirAll(p string, m fs.FileMode) (err error) {
	q.q("MkdirAll", p, func() { err = q.f.MkdirAll(p, m) })
	return
}
func (q quietFS) Open(p string) (r fs.File, err error) {
	q.q("Open", p, func() {
		if r, err = q.f.Open(p); err == nil {
			if x, ok := r.(apkfs.File); ok {
				r = quietFile{x}
			}
		}
	})
	return
}
func (q quietFS) OpenReaderAt(p string) (r apkfs.File, err error) {
	q.q("OpenReaderAt", p, func() {
		if r, err = q.f.OpenReaderAt(p); err == nil {
			r = quietFile{r}
		}
	})
	return
}
func (q quietFS) OpenFile(p string, fl int, m fs.FileMode) (r apkfs.File, err error) {
	q.q("OpenFile", p, func() {
		if r, err = q.f.OpenFile(p, fl, m); err == nil {
			r = quietFile{r}
		}
	})
	return
}
func (q quietFS) Create(p string) (r apkfs.File, err error) {
	q.q("Create", p, func() {
		if r, err = q.f.Create(p); err == nil {
			r = quietFile{r}
		}
	})
	return
}
func (q quietFS) ReadFile(p string) (b []byte, err error) {
	q.q("ReadFile", p, func() { b, err = q.f.ReadFile(p) })
	return
}
func (q quietFS) WriteFile(p string, b []byte, m fs.FileMode) (err error) {
	q.q("WriteFile", p, func() { err = q.f.WriteFile(p, b, m) })
	return
}
func (q quietFS) ReadDir(p string) (l []fs.DirEntry, err error) {
	q.q("ReadDir", p, func() { l, err = q.f.ReadDir(p) })
	return
}
func (q quietFS) Mknod(p string, m uint32, d int) (err error) {
	q.q("Mknod", p, func() { err = q.f.Mknod(p, m, d) })
	return
}
func (q quietFS) Readnod(p string) (d int, err error) {
	q.q("Readnod", p, func() { d, err = q.f.Readnod(p) })
	return
}
func (q quietFS) Symlink(o, n string) (err error) {
	q.q("Symlink", n, func() { err = q.f.Symlink(o, n) })
	return
}
func (q quietFS) Link(o, n string) (err error) {
	q.q("Link", n, func() { err = q.f.Link(o, n) })
	return
}
func (q quietFS) Readlink(p string) (s string, err error) {
	q.q("Readlink", p, func() { s, err = q.f.Readlink(p) })
	return
}
func (q quietFS) Stat(p string) (i fs.FileInfo, err error) {
	q.q("Stat", p, func() { i, err = q.f.Stat(p) })
	return
}
func (q quietFS) Lstat(p string) (i fs.FileInfo, err error) {
	q.q("Lstat", p, func() { i, err = q.f.Lstat(p) })
	return
}
func (q quietFS) Remove(p string) (err error) {
	q.q("Remove", p, func() { err = q.f.Remove(p) })
	return
}
func (q quietFS) Chmod(p string, m fs.FileMode) (err error) {
	q.q("Chmod", p, func() { err = q.f.Chmod(p, m) })
	return
}
func (q quietFS) Chown(p string, u, g int) (err error) {
	q.q("Chown", p, func() { err = q.f.Chown(p, u, g) })
	return
}
func (q quietFS) SetXattr(p, a string, b []byte) (err error) {
	q.q("SetXattr", p, func() { err = q.f.SetXattr(p, a, b) })
	return
}
func (q quietFS) GetXattr(p, a string) (b []byte, err error) {
	q.q("GetXattr", p, func() { b, err = q.f.GetXattr(p, a) })
	return
}
func (q quietFS) RemoveXattr(p, a string) (err error) {
	q.q("RemoveXattr", p, func() { err = q.f.RemoveXattr(p, a) })
	return
}
func (q quietFS) ListXattrs(p string) (m map[string][]byte, err error) {
	q.q("ListXattrs", p, func() { m, err = q.f.ListXattrs(p) })
	return
}

type quietFile struct{ f apkfs.File }

func quietly(f func()) {
	c := vctx.Get()
	vctx.Set(nil)
	defer vctx.Set(c)
	f()
}

func (q quietFile) Read(p []byte) (n int, err error) {
	quietly(func() { n, err = q.f.Read(p) })
	return
}
func (q quietFile) ReadAt(p []byte, o int64) (n int, err error) {
	quietly(func() { n, err = q.f.ReadAt(p, o) })
	return
}
func (q quietFile) Write(p []byte) (n int, err error) {
	quietly(func() { n, err = q.f.Write(p) })
	return
}
func (q quietFile) Seek(o int64, w int) (n int64, err error) {
	quietly(func() { n, err = q.f.Seek(o, w) })
	return
}
func (q quietFile) Stat() (i fs.FileInfo, err error) {
	quietly(func() { i, err = q.f.Stat() })
	return
}
func (q quietFile) Close() (err error) {
	quietly(func() { err = q.f.Close() })
	return
}
