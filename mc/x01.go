package main

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	"github.com/chainguard-dev/go-apk/pkg/expandapk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"github.com/chainguard-dev/go-apk/pkg/passwd"
	"github.com/chainguard-dev/go-apk/pkg/signature"
	"github.com/chainguard-dev/go-apk/pkg/tarball"
	"verif.local/shim/vctx"
	"verif.local/shim/vsched"
)

func init() {
	register("X01", check{run: runX01, level: "model_checking",
		rule: "every exported operation that uses the disk or a filesystem (installing in memory and on disk over every state of the cache, describing a world, loading indexes, keys and release lists, initialising, fixing a world, lists, databases, user and group files, expanding and viewing packages, writing archives, operations of the on-disk filesystem), executed once for every operation of the disk, and once for every operation of the given filesystem and its files, and once for every request, with that operation failing (thorough: every pair), once for every response that breaks off (and once more with the next request refused) or has a status of an error, once with the context ending before each of these operations, and once for every size of file at which the disk is full; " +
			"an execution that reports success must have exactly the result of an undisturbed one, one that fails must leave the installed database alone, and afterwards the same and later processes must get correct results with the same cache; non-trivial when an operation failed",
		assumptions: []string{"a failing operation does nothing (a failing write: the first half; a failing close of a written file: what was written last is lost)", "operations that only look (a failing stat or read) fail with an I/O error, not as if nothing was there", "files opened by the library on the disk fail when written, not when read"}})
	register("Z01", check{run: runZ01, level: "model_checking",
		rule: "every exported operation that uses the disk, a filesystem or the network (the uses of X01), executed undisturbed, once for every operation of the disk, of the given filesystem, and every request with that operation failing, once for every response that breaks off (and once more with the next request refused) or has a status of an error, once for every operation with the context ending just before it, and once for every size of file at which the disk is full (thorough: pairs); " +
			"when the operation has returned, every file it opened on the disk and in the given filesystem and every response body is closed, all goroutines have ended, and the temporary files and directories it made are gone; non-trivial when an operation failed",
		assumptions: []string{"data of expanded packages may stay open, as filesystems may go on reading it (not when expanding fails)", "what could not be removed because removing failed may stay"}})
}

var errIO = &fs.PathError{Op: "fault", Path: "injected", Err: syscall.EIO}

// x01fault says which operation fails.
type x01fault struct {
	kind string // os, fs, size
	at   []int
}

func (f x01fault) String() string { return fmt.Sprint(f.kind, f.at) }

func (f x01fault) hits(kind string, n int) bool {
	if f.kind != kind {
		return false
	}
	for _, a := range f.at {
		if a == n {
			return true
		}
	}
	return false
}

// faultFS counts operations and makes some fail.
type faultFS struct {
	f   apkfs.FullFS
	e   *x01env
	off *bool
}

func (q faultFS) q(op, path string, f func() error) error {
	if *q.off {
		return f()
	}
	if q.e.op("fs", op, path) {
		return errIO
	}
	c := vctx.Get()
	vctx.Set(nil)
	defer vctx.Set(c)
	return f()
}

func (q faultFS) Mkdir(p string, m fs.FileMode) error {
	return q.q("Mkdir", p, func() error { return q.f.Mkdir(p, m) })
}
func (q faultFS) MkdirAll(p string, m fs.FileMode) error {
	return q.q("MkdirAll", p, func() error { return q.f.MkdirAll(p, m) })
}
func (q faultFS) Open(p string) (r fs.File, err error) {
	err = q.q("Open", p, func() error {
		r, err = q.f.Open(p)
		if x, ok := r.(apkfs.File); ok && err == nil {
			h := &faultFile{File: x, q: q, p: p}
			q.e.fsOpen = append(q.e.fsOpen, h)
			r = h
		}
		return err
	})
	return
}
func (q faultFS) file(op, p string, f func() (apkfs.File, error)) (r apkfs.File, err error) {
	err = q.q(op, p, func() error {
		x, err := f()
		if err == nil {
			h := &faultFile{File: x, q: q, p: p}
			q.e.fsOpen = append(q.e.fsOpen, h)
			r = h
		}
		return err
	})
	return
}
func (q faultFS) OpenReaderAt(p string) (apkfs.File, error) {
	return q.file("OpenReaderAt", p, func() (apkfs.File, error) { return q.f.OpenReaderAt(p) })
}
func (q faultFS) OpenFile(p string, fl int, m fs.FileMode) (apkfs.File, error) {
	return q.file("OpenFile", p, func() (apkfs.File, error) { return q.f.OpenFile(p, fl, m) })
}
func (q faultFS) Create(p string) (apkfs.File, error) {
	return q.file("Create", p, func() (apkfs.File, error) { return q.f.Create(p) })
}
func (q faultFS) ReadFile(p string) (b []byte, err error) {
	err = q.q("ReadFile", p, func() error { b, err = q.f.ReadFile(p); return err })
	return
}
func (q faultFS) WriteFile(p string, b []byte, m fs.FileMode) error {
	return q.q("WriteFile", p, func() error { return q.f.WriteFile(p, b, m) })
}
func (q faultFS) ReadDir(p string) (l []fs.DirEntry, err error) {
	err = q.q("ReadDir", p, func() error { l, err = q.f.ReadDir(p); return err })
	return
}
func (q faultFS) Mknod(p string, m uint32, d int) error {
	return q.q("Mknod", p, func() error { return q.f.Mknod(p, m, d) })
}
func (q faultFS) Readnod(p string) (d int, err error) {
	err = q.q("Readnod", p, func() error { d, err = q.f.Readnod(p); return err })
	return
}
func (q faultFS) Symlink(o, n string) error {
	return q.q("Symlink", n, func() error { return q.f.Symlink(o, n) })
}
func (q faultFS) Link(o, n string) error {
	return q.q("Link", n, func() error { return q.f.Link(o, n) })
}
func (q faultFS) Readlink(p string) (s string, err error) {
	err = q.q("Readlink", p, func() error { s, err = q.f.Readlink(p); return err })
	return
}
func (q faultFS) Stat(p string) (i fs.FileInfo, err error) {
	err = q.q("Stat", p, func() error { i, err = q.f.Stat(p); return err })
	return
}
func (q faultFS) Lstat(p string) (i fs.FileInfo, err error) {
	err = q.q("Lstat", p, func() error { i, err = q.f.Lstat(p); return err })
	return
}
func (q faultFS) Remove(p string) error {
	return q.q("Remove", p, func() error { return q.f.Remove(p) })
}
func (q faultFS) Chmod(p string, m fs.FileMode) error {
	return q.q("Chmod", p, func() error { return q.f.Chmod(p, m) })
}
func (q faultFS) Chown(p string, u, g int) error {
	return q.q("Chown", p, func() error { return q.f.Chown(p, u, g) })
}
func (q faultFS) SetXattr(p, a string, b []byte) error {
	return q.q("SetXattr", p, func() error { return q.f.SetXattr(p, a, b) })
}
func (q faultFS) GetXattr(p, a string) (b []byte, err error) {
	err = q.q("GetXattr", p, func() error { b, err = q.f.GetXattr(p, a); return err })
	return
}
func (q faultFS) RemoveXattr(p, a string) error {
	return q.q("RemoveXattr", p, func() error { return q.f.RemoveXattr(p, a) })
}
func (q faultFS) ListXattrs(p string) (m map[string][]byte, err error) {
	err = q.q("ListXattrs", p, func() error { m, err = q.f.ListXattrs(p); return err })
	return
}

type faultFile struct {
	apkfs.File
	q    faultFS
	p    string
	last int // bytes written last
	shut bool
}

func (f *faultFile) Read(p []byte) (n int, err error) {
	err = f.q.q("Read", f.p, func() error { n, err = f.File.Read(p); return err })
	return
}
func (f *faultFile) ReadAt(p []byte, o int64) (n int, err error) {
	err = f.q.q("ReadAt", f.p, func() error { n, err = f.File.ReadAt(p, o); return err })
	return
}
func (f *faultFile) Write(p []byte) (n int, err error) {
	done := false
	err = f.q.q("Write", f.p, func() error { done = true; n, err = f.File.Write(p); return err })
	f.last = n
	if !done {
		n, _ = f.File.Write(p[:len(p)/2])
	}
	return
}
func (f *faultFile) Seek(o int64, w int) (n int64, err error) {
	err = f.q.q("Seek", f.p, func() error { n, err = f.File.Seek(o, w); return err })
	return
}
func (f *faultFile) Stat() (i fs.FileInfo, err error) {
	err = f.q.q("file Stat", f.p, func() error { i, err = f.File.Stat(); return err })
	return
}
func (f *faultFile) Close() error {
	if f.shut { // closed before: nothing is left to be lost
		return f.File.Close()
	}
	f.shut = true
	done := false
	err := f.q.q("Close", f.p, func() error { done = true; return f.File.Close() })
	if !done {
		_ = f.File.Close()
		if f.last > 0 { // lost
			if b, err := f.q.f.ReadFile(f.p); err == nil && len(b) >= f.last {
				must(f.q.f.WriteFile(f.p, b[:len(b)-f.last], 0o644))
			}
		}
	}
	return err
}

// x01env is what one execution works on.
type x01env struct {
	fault  x01fault
	ops    map[string][]string // what was done, by kind
	onDB   bool                // the failing operation was on the database of installed packages
	dir    string
	cache  string
	host   string
	proc   int
	off    bool // offline
	fsoff  bool
	base   apkfs.FullFS
	f      apkfs.FullFS
	preDB  string
	apks   map[byte]*builtApk
	keys   []sigKey
	change bool // the server has something new
	ctx    context.Context
	cancel func()
	mu     sync.Mutex
	// what was opened and made
	files  []*os.File
	made   []string
	fsOpen []*faultFile
	bodies []*x01body
	broken int  // a response broke off
	none   bool // there is no data that may be read
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errIO }

type x01body struct {
	io.ReadCloser
	what string
	shut bool
}

func (b *x01body) Close() error {
	b.shut = true
	return b.ReadCloser.Close()
}

// open lists what is still open or there. Filesystems may go on reading the data of packages.
func (e *x01env) open(data bool) (l []string) {
	for _, f := range e.files {
		if !data && x01data.MatchString(f.Name()) {
			continue
		}
		if _, err := f.Stat(); !errors.Is(err, os.ErrClosed) {
			l = append(l, "file "+f.Name())
		}
	}
	for _, f := range e.fsOpen {
		if !f.shut {
			l = append(l, "file of the filesystem "+f.p)
		}
	}
	for _, b := range e.bodies {
		if !b.shut {
			l = append(l, "response to "+b.what)
		}
	}
	for _, p := range e.made {
		if _, err := os.Lstat(p); err == nil {
			l = append(l, "temporary "+p)
		}
	}
	for i := range l {
		l[i] = strings.ReplaceAll(strings.ReplaceAll(l[i], e.dir, "DIR"), e.host, "HOST")
	}
	return
}

// op counts an operation and says if it fails.
func (e *x01env) op(kind, op string, paths ...string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fault.hits("ctx", len(e.ops["ctx"])) {
		e.cancel()
	}
	n := len(e.ops[kind])
	what := op
	for _, p := range paths {
		what += " " + strings.ReplaceAll(p, e.dir, "DIR")
	}
	e.ops[kind] = append(e.ops[kind], what)
	e.ops["ctx"] = append(e.ops["ctx"], what)
	if !e.fault.hits(kind, n) {
		return false
	}
	for _, p := range paths {
		e.onDB = e.onDB || strings.HasSuffix(p, "lib/apk/db/installed")
	}
	return true
}

func (e *x01env) repo() string { return "https://" + e.host + "/r" + strings.Repeat("/.", e.proc) }

func (e *x01env) serve(r *http.Request) (*http.Response, error) {
	p := r.URL.Path
	etag := ""
	var body []byte
	switch {
	case strings.HasSuffix(p, ".apk"):
		for _, x := range e.apks {
			if strings.HasPrefix(filepath.Base(p), x.name+"-") {
				body = x.all
			}
		}
	case strings.HasSuffix(p, "APKINDEX.tar.gz"):
		body, etag = e.index(), `"i-1"`
		if e.change {
			etag = `"i-2"`
		}
	case strings.HasSuffix(p, "releases.json"):
		body = must1(json.Marshal(map[string]any{"latest_stable": "v3.18", "architectures": []string{"x86_64"}, "release_branches": []any{
			map[string]any{"rel_branch": "v3.18", "arches": []string{"x86_64"}, "keys": map[string]any{"x86_64": []any{map[string]any{"url": "https://alpinelinux.org/keys/rel-1.rsa.pub"}, map[string]any{"url": "https://alpinelinux.org/keys/rel-2.rsa.pub"}}}},
		}}))
		etag = `"rel"`
	case strings.HasSuffix(p, ".pub"):
		body = []byte("key at " + filepath.Base(p) + strings.Repeat(" x", 600))
		etag = `"k"`
		if e.change {
			body = append(body, "new"...)
			etag = `"k2"`
		}
	}
	if body == nil {
		return respond(404, nil, nil), nil
	}
	h := map[string]string{}
	if etag != "" {
		h["Etag"] = etag
	}
	if r.Method == http.MethodHead {
		return respond(200, nil, h), nil
	}
	return respond(200, body, h), nil
}

// index is signed with the first key.
func (e *x01env) index() []byte {
	var es []tent
	txt := ""
	desc := "d"
	if e.change {
		desc = "changed"
	}
	for _, c := range "abc" {
		b := e.apks[byte(c)]
		dep := ""
		if c == 'b' {
			dep = "D:a>0\n"
		}
		txt += fmt.Sprintf("C:%s\nP:%s\nV:%s\nA:x86_64\nS:%d\nI:1\nT:%s\n%s\n", b.q1, b.name, b.ver, len(b.all), desc, dep)
	}
	es = append(es, reg("DESCRIPTION", "x"), reg("APKINDEX", txt))
	body := gz(makeTar(es, true, false))
	sig := rsaSign(e.keys[0], body)
	return append(gz(makeTar([]tent{reg(".SIGN.RSA."+e.keys[0].name, string(sig))}, false, false)), body...)
}

func (e *x01env) apk(opts ...apk.Option) *apk.APK {
	opts = append([]apk.Option{apk.WithFS(e.f), apk.WithArch("x86_64")}, opts...)
	if e.cache != "" {
		opts = append(opts, apk.WithCache(e.cache, e.off))
	}
	a := newAPK(opts...)
	a.SetClient(&http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		if e.op("net", r.Method, r.URL.Path) {
			return nil, errIO
		}
		res, err := e.serve(r)
		if e.op("status", r.Method, r.URL.Path) || (e.broken > 0 && e.fault.kind == "drop") {
			res = respond(503, []byte("come back later"), nil)
		}
		if r.Method == http.MethodGet && e.op("partial", r.URL.Path) {
			res.StatusCode = 206
		}
		e.broken = 0
		if err == nil {
			if r.Method == http.MethodGet && res.StatusCode == 200 && (e.op("body", r.URL.Path) || e.op("drop", r.URL.Path)) {
				all := must1(io.ReadAll(res.Body))
				e.broken = 1
				res.Body = io.NopCloser(io.MultiReader(bytes.NewReader(all[:len(all)/2]), errReader{}))
			}
			b := &x01body{ReadCloser: res.Body, what: r.Method + " " + r.URL.String()}
			e.bodies = append(e.bodies, b)
			res.Body = b
		}
		return res, err
	})})
	return a
}

// x01op is one operation of the library.
type x01op struct {
	name  string
	fs    string // kind of filesystem
	cache string // "", empty, full, changed (the server has something new), strip
	prep  func(e *x01env)
	do    func(e *x01env) (string, error)
	local bool   // the result does not depend on the network: nothing to retry
	check string // a further check: step (view and disk agree)
}

func x01ops() []x01op {
	var l []x01op
	inst := func(pkgs string) func(e *x01env) (string, error) {
		return func(e *x01env) (string, error) {
			repo := "https://" + e.host + "/r"
			ps := n03inst(repo, pkgs, e.apks)
			if e.proc > 0 {
				for i, p := range ps {
					f := p.(fakePkg)
					f.url += fmt.Sprintf("?p=%d", e.proc)
					ps[i] = f
				}
			}
			return "", e.apk().InstallPackages(e.ctx, nil, ps)
		}
	}
	for _, k := range []string{"mem", "dir"} {
		for _, c := range []string{"", "empty", "full", "strip"} {
			l = append(l, x01op{name: "install:x", fs: k, cache: c, do: inst("x")})
		}
		l = append(l, x01op{name: "install:ao", fs: k, cache: "", do: inst("ao")}, x01op{name: "install:ab", fs: k, cache: "empty", do: inst("ab")},
			x01op{name: "install:pre", fs: k, cache: "", prep: func(e *x01env) { must1(inst("a")(e)) }, do: inst("axc")})
	}
	for _, c := range []string{"", "empty", "full"} {
		l = append(l, x01op{name: "world:ab", fs: "mem", cache: c, local: true, do: func(e *x01env) (string, error) {
			r, err := e.apk().CalculateWorld(e.ctx, n03world(e.repo(), "ab", e.apks))
			return n03resolved(r), err
		}})
	}
	for _, c := range []string{"", "empty", "full", "changed"} {
		ix := func(e *x01env) {
			must(e.base.WriteFile("etc/apk/repositories", []byte(e.repo()+"\n@tag "+e.repo()+"/t\n"), 0o644))
			must(e.base.MkdirAll("etc/apk/keys", 0o755))
			must(e.base.WriteFile("etc/apk/keys/"+e.keys[0].name, e.keys[0].pub, 0o644))
			must(e.base.WriteFile("etc/apk/keys/"+e.keys[1].name, e.keys[1].pub, 0o644))
		}
		l = append(l, x01op{name: "index", fs: "mem", cache: c, prep: ix, do: func(e *x01env) (string, error) {
			x, err := e.apk().GetRepositoryIndexes(e.ctx, false)
			if err != nil {
				return "", err
			}
			s := ""
			for _, i := range x {
				s += i.Name() + " " + strings.ReplaceAll(i.Source(), "/.", "") + "\n"
				for _, p := range i.Packages() {
					s += fmt.Sprintf("%s %s %s %x %d\n", p.Name, p.Version, p.Description, p.Checksum, p.Size)
				}
			}
			return strings.ReplaceAll(s, e.host, "HOST"), nil
		}})
		l = append(l, x01op{name: "fixate", fs: "mem", cache: c, prep: func(e *x01env) {
			ix(e)
			must(e.base.WriteFile("etc/apk/world", []byte("b\nc\n"), 0o644))
		}, do: func(e *x01env) (string, error) { return "", e.apk().FixateWorld(e.ctx, nil) }})
		l = append(l, x01op{name: "fixate-more", fs: "mem", cache: c, prep: func(e *x01env) {
			ix(e)
			must(e.base.WriteFile("etc/apk/world", []byte("b\nc\n"), 0o644))
			must(e.base.WriteFile("lib/apk/db/installed", []byte("C:Q1MTIzNDU2Nzg5MDEyMzQ1Njc4OTA=\nP:b\nV:0\n\n"), 0o644))
		}, do: func(e *x01env) (string, error) { return "", e.apk().FixateWorld(e.ctx, nil) }})
		l = append(l, x01op{name: "keys", fs: "mem", cache: c, prep: func(e *x01env) {
			must(os.WriteFile(filepath.Join(e.dir, "local.rsa.pub"), []byte("local key"), 0o644))
		}, do: func(e *x01env) (string, error) {
			f := filepath.Join(e.dir, "local.rsa.pub")
			q := ""
			if e.proc > 0 {
				q = fmt.Sprintf("?p=%d", e.proc)
			}
			if err := e.apk().InitKeyring(e.ctx, []string{"https://" + e.host + "/keys/one.rsa.pub" + q, f}, []string{"https://" + e.host + "/keys/two.rsa.pub" + q}); err != nil {
				return "", err
			}
			// names of this process
			for _, n := range []string{"one", "two"} {
				if q != "" {
					o, w := "etc/apk/keys/"+n+".rsa.pub"+q, "etc/apk/keys/"+n+".rsa.pub"
					b, err := e.base.ReadFile(o)
					if err == nil {
						must(e.base.WriteFile(w, b, 0o644))
						must(e.base.Remove(o))
					}
				}
			}
			return "", nil
		}})
	}
	for _, k := range []string{"mem", "dir"} {
		l = append(l, x01op{name: "init", fs: k + "-empty", local: true, do: func(e *x01env) (string, error) { return "", e.apk().InitDB(e.ctx) }},
			x01op{name: "init:again", fs: k, local: true, do: func(e *x01env) (string, error) { return "", e.apk().InitDB(e.ctx) }},
			x01op{name: "lists", fs: k, local: true, do: func(e *x01env) (string, error) {
				a := e.apk()
				if err := a.SetRepositories(e.ctx, []string{"https://r.example/a", "/b"}); err != nil {
					return "", err
				}
				if err := a.SetWorld(e.ctx, []string{"b", "a>1", "c"}); err != nil {
					return "", err
				}
				w, err := a.GetWorld()
				if err != nil {
					return "", err
				}
				r, err := a.GetRepositories()
				return fmt.Sprint(w, r), err
			}},
			x01op{name: "installed", fs: k, local: true, prep: func(e *x01env) { must1(inst("ab")(e)) }, do: func(e *x01env) (string, error) {
				l, err := e.apk().GetInstalled()
				if err != nil {
					return "", err
				}
				s := ""
				for _, p := range l {
					s += fmt.Sprintf("%s %s", p.Name, p.Version)
					for _, f := range p.Files {
						s += fmt.Sprintf(" %s:%d:%o", f.Name, f.Typeflag, f.Mode)
					}
				}
				return s, nil
			}},
			x01op{name: "tar", fs: k, local: true, prep: x01tree, do: func(e *x01env) (string, error) {
				c := must1(tarball.NewContext(tarball.WithUseChecksums(true)))
				var b bytes.Buffer
				if err := c.WriteTar(e.ctx, &b, e.f, e.f); err != nil {
					return "", err
				}
				return x01untar(b.Bytes()), nil
			}},
			x01op{name: "targz", fs: k, local: true, prep: x01tree, do: func(e *x01env) (string, error) {
				c := must1(tarball.NewContext())
				var b bytes.Buffer
				if err := c.WriteTargz(e.ctx, &b, e.f, e.f); err != nil {
					return "", err
				}
				return x01untar(must1(gunzipAll(b.Bytes()))), nil
			}},
			x01op{name: "passwd", fs: k, local: true, prep: x01tree, do: func(e *x01env) (string, error) {
				u, err := passwd.ReadOrCreateUserFile(e.f, "etc/passwd")
				if err != nil {
					return "", err
				}
				g, err := passwd.ReadOrCreateGroupFile(e.f, "etc/group")
				if err != nil {
					return "", err
				}
				u.Entries = append(u.Entries, passwd.UserEntry{UserName: "new", UID: 7, GID: 8, HomeDir: "/h", Shell: "/s"})
				g.Entries = append(g.Entries, passwd.GroupEntry{GroupName: "new", GID: 8})
				if err := u.WriteFile("a/passwd.out"); err != nil {
					return "", err
				}
				if err := g.WriteFile(e.f, "etc/group"); err != nil {
					return "", err
				}
				return "", nil
			}},
			x01op{name: "passwd:new", fs: k, local: true, prep: func(e *x01env) { must(e.base.MkdirAll("etc", 0o755)) }, do: func(e *x01env) (string, error) {
				u, err := passwd.ReadOrCreateUserFile(e.f, "etc/passwd")
				if err != nil {
					return "", err
				}
				g, err := passwd.ReadOrCreateGroupFile(e.f, "etc/group")
				return fmt.Sprint(u.Entries, g.Entries), err
			}})
	}
	alp := func(e *x01env) (string, error) { return "", e.apk().InitDB(e.ctx, "v3.18") }
	l = append(l, x01op{name: "init:alpine", fs: "mem-empty", local: true, do: alp}, x01op{name: "init:alpine", fs: "mem-empty", local: true, cache: "empty", do: alp}, x01op{name: "init:alpine", fs: "mem-empty", local: true, cache: "full", do: alp})
	l = append(l, x01op{name: "index:local", fs: "mem", local: true, prep: func(e *x01env) {
		must(os.MkdirAll(filepath.Join(e.dir, "repo/x86_64"), 0o755))
		must(os.WriteFile(filepath.Join(e.dir, "repo/x86_64/APKINDEX.tar.gz"), e.index(), 0o644))
		must(e.base.WriteFile("etc/apk/repositories", []byte(filepath.Join(e.dir, "repo")+"\n"), 0o644))
		must(e.base.MkdirAll("etc/apk/keys", 0o755))
		must(e.base.WriteFile("etc/apk/keys/"+e.keys[0].name, e.keys[0].pub, 0o644))
	}, do: func(e *x01env) (string, error) {
		x, err := e.apk().GetRepositoryIndexes(e.ctx, false)
		if err != nil {
			return "", err
		}
		return pkgNamesOf(x), nil
	}})
	for _, b := range "ax" {
		l = append(l, x01op{name: "expand:" + string(b), fs: "mem", local: true, do: func(e *x01env) (string, error) {
			x, err := expandapk.ExpandApk(e.ctx, bytes.NewReader(e.apks[byte(b)].all), e.dir)
			if err != nil {
				e.none = true
				return "", err
			}
			defer x.Close()
			r, err := x.APK()
			if err != nil {
				return "", err
			}
			all, err := io.ReadAll(r)
			r.Close()
			if err != nil {
				return "", err
			}
			d, err := x.PackageData()
			if err != nil {
				return "", err
			}
			data, err := io.ReadAll(d)
			d.Close()
			if err != nil {
				return "", err
			}
			ctl, err := x.ControlData()
			return fmt.Sprintf("%x %x %x %x %x %d", all, data, ctl, x.ControlHash, x.PackageHash, x.Size), err
		}},
			x01op{name: "apkfs:" + string(b), fs: "mem", local: true, prep: func(e *x01env) { must(os.WriteFile(filepath.Join(e.dir, "p.apk"), e.apks[byte(b)].all, 0o644)) }, do: func(e *x01env) (string, error) {
				s := ""
				for _, k := range []apkfs.APKFSType{apkfs.APKFSPackage, apkfs.APKFSControl} {
					f, err := apkfs.NewAPKFS(e.ctx, filepath.Join(e.dir, "p.apk"), k)
					if err != nil {
						return "", err
					}
					defer f.Close()
					if err := fs.WalkDir(f, "/", func(p string, d fs.DirEntry, err error) error {
						if err != nil {
							return err
						}
						s += fmt.Sprintf("%s %v", p, d.Type())
						if d.Type().IsRegular() {
							b, err := fs.ReadFile(f, p)
							if err != nil {
								return err
							}
							s += fmt.Sprintf(" %q", b)
						}
						s += "\n"
						return nil
					}); err != nil {
						return "", err
					}
				}
				return s, nil
			}})
	}
	for _, b := range "ax" {
		l = append(l, x01op{name: "parse:" + string(b), fs: "mem", local: true, do: func(e *x01env) (string, error) {
			p, err := apk.ParsePackage(e.ctx, bytes.NewReader(e.apks[byte(b)].all))
			if err != nil {
				e.none = true
				return "", err
			}
			return fmt.Sprintf("%+v", *p), nil
		}})
	}
	l = append(l, x01op{name: "sign", fs: "mem", local: true, prep: func(e *x01env) {
		must(os.WriteFile(filepath.Join(e.dir, "APKINDEX.tar.gz"), gz(makeTar([]tent{reg("APKINDEX", "C:Q1\n"), reg("DESCRIPTION", "x")}, true, false)), 0o644))
	}, do: func(e *x01env) (string, error) {
		err := signature.SignIndex(e.ctx, e.keys[0].file, filepath.Join(e.dir, "APKINDEX.tar.gz"))
		if err != nil {
			return "", err
		}
		return x01untar(must1(gunzipAll(must1(os.ReadFile(filepath.Join(e.dir, "APKINDEX.tar.gz")))))), nil
	}})
	for _, c := range []string{"", "empty", "full"} {
		l = append(l, x01op{name: "install:again", fs: "mem", cache: c, prep: func(e *x01env) { must1(inst("x")(e)) }, do: inst("x")})
	}
	// single operations of the on-disk filesystem
	for n, do := range map[string]func(f apkfs.FullFS) error{
		"mkdirall":  func(f apkfs.FullFS) error { return f.MkdirAll("n1/n2/n3", 0o750) },
		"mkdir":     func(f apkfs.FullFS) error { return f.Mkdir("n1", 0o750) },
		"write":     func(f apkfs.FullFS) error { return f.WriteFile("d/new", []byte("content"), 0o640) },
		"overwrite": func(f apkfs.FullFS) error { return f.WriteFile("d/file", []byte("content"), 0o640) },
		"create": func(f apkfs.FullFS) error {
			h, err := f.Create("d/file")
			if err != nil {
				return err
			}
			defer h.Close()
			if _, err := h.Write([]byte("abc")); err != nil {
				return err
			}
			if _, err := h.Write([]byte("def")); err != nil {
				return err
			}
			return h.Close()
		},
		"append": func(f apkfs.FullFS) error {
			h, err := f.OpenFile("d/file", os.O_APPEND|os.O_WRONLY, 0)
			if err != nil {
				return err
			}
			defer h.Close()
			if _, err := h.Write([]byte("abc")); err != nil {
				return err
			}
			return h.Close()
		},
		"symlink": func(f apkfs.FullFS) error { return f.Symlink("file", "d/newlink") },
		"link":    func(f apkfs.FullFS) error { return f.Link("d/file", "d/hard") },
		"remove":  func(f apkfs.FullFS) error { return f.Remove("d/file") },
		"rmdir":   func(f apkfs.FullFS) error { return f.Remove("empty") },
		"chmod":   func(f apkfs.FullFS) error { return f.Chmod("d/file", 0o600) },
		"chown":   func(f apkfs.FullFS) error { return f.Chown("d/file", 3, 4) },
		"mknod":   func(f apkfs.FullFS) error { return f.Mknod("d/nod", 0o20600, 259) },
		"xattr":   func(f apkfs.FullFS) error { return f.SetXattr("d/file", "user.x", []byte("v")) },
		"readdir": func(f apkfs.FullFS) error {
			l, err := f.ReadDir("d")
			if err == nil && len(l) != 3 {
				return fmt.Errorf("only %d entries", len(l))
			}
			return err
		},
	} {
		check := "step"
		switch n {
		case "chmod", "chown", "mknod", "xattr": // kept in memory when the disk cannot
			check = ""
		}
		l = append(l, x01op{name: "dirfs:" + n, fs: "dir", local: true, check: check, prep: func(e *x01env) {
			must(e.base.MkdirAll("d", 0o755))
			must(e.base.MkdirAll("empty", 0o755))
			must(e.base.WriteFile("d/file", []byte("old content"), 0o644))
			must(e.base.WriteFile("d/other", []byte("other"), 0o644))
			must(e.base.Symlink("file", "d/l"))
		}, do: func(e *x01env) (string, error) { return "", do(e.base) }})
	}
	l = append(l, x01op{name: "dirfs:open", fs: "dir", local: true, check: "step", prep: x01plainTree, do: func(e *x01env) (string, error) {
		f := apkfs.DirFS(filepath.Join(e.dir, "root"), apkfs.DirFSWithCaseSensitive(true))
		if f == nil {
			return "", errors.New("nothing")
		}
		var s string
		quietly(func() { s = x01dump(f) })
		return s, nil
	}})
	sort.SliceStable(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

func x01tree(e *x01env) {
	x01plainTree(e)
	must(e.base.SetXattr("a/f", "user.x", []byte("v")))
	must(e.base.SetXattr("a/b", "user.d", []byte("w")))
	_ = e.base.Mknod("a/nod", 0o20600, 259)
}

func x01plainTree(e *x01env) {
	must(e.base.MkdirAll("etc", 0o755))
	must(e.base.WriteFile("etc/passwd", []byte("root:x:0:0:root:/root:/bin/sh\nu:x:1:1:U:/u:/bin/sh\n"), 0o644))
	must(e.base.WriteFile("etc/group", []byte("root:x:0:\ng:x:1:u\n"), 0o644))
	must(e.base.MkdirAll("a/b", 0o750))
	must(e.base.WriteFile("a/f", []byte(strings.Repeat("content ", 200)), 0o600))
	must(e.base.WriteFile("a/b/empty", nil, 0o644))
	must(e.base.Symlink("f", "a/l"))
	must(e.base.Link("a/f", "a/hard"))
}

// x01untar lists what is in an archive.
func x01untar(b []byte) string {
	s := ""
	r := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := r.Next()
		if err == io.EOF {
			return s
		}
		must(err)
		var ks []string
		for k, v := range h.PAXRecords {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		s += fmt.Sprintf("%s %c %o %d:%d %s:%s %s %q %q\n", h.Name, h.Typeflag, h.Mode, h.Uid, h.Gid, h.Uname, h.Gname, h.Linkname, ks, must1(io.ReadAll(r)))
	}
}

// x01dump is fsDump with attributes.
func x01dump(f apkfs.FullFS) string {
	s := fsDump(f)
	for _, l := range strings.Split(s, "\n") {
		p, _, _ := strings.Cut(l, " ")
		if strings.Contains(l, " L") {
			continue
		}
		if m, err := f.ListXattrs(p); err == nil && len(m) > 0 {
			var ks []string
			for k := range m {
				ks = append(ks, fmt.Sprintf("%s=%q", k, m[k]))
			}
			sort.Strings(ks)
			s += p + " " + strings.Join(ks, " ") + "\n"
		}
	}
	return s
}

var x01seq atomic.Int64

type x01case struct {
	t     *T
	op    x01op
	apks  map[byte]*builtApk
	keys  []sigKey
	tmpl  []c01file
	host  string // of the template
	n     int
	leaks bool // judge what is left, not the result
}

func (c *x01case) env() *x01env {
	c.n++
	e := &x01env{ops: map[string][]string{}, apks: c.apks, keys: c.keys}
	e.dir = filepath.Join(c.t.Dir(), fmt.Sprintf("e%d", c.n))
	must(os.MkdirAll(e.dir, 0o755))
	e.host = fmt.Sprintf("h%d-%d.x01.example", os.Getpid(), x01seq.Add(1))
	if c.op.cache != "" {
		e.cache = filepath.Join(e.dir, "cache")
		must(os.MkdirAll(e.cache, 0o755))
		for _, f := range c.tmpl {
			p := filepath.Join(e.cache, strings.ReplaceAll(f.rel, c.host, e.host))
			if f.dir {
				must(os.MkdirAll(p, 0o755))
				continue
			}
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(f.body), 0o644))
			must(os.Chtimes(p, f.mt, f.mt))
		}
		e.change = c.op.cache == "changed"
	}
	c.newFS(e)
	return e
}

// newFS makes the filesystem of e as it is before the operation.
func (c *x01case) newFS(e *x01env) {
	e.fsoff = true
	e.fault, e.ctx = x01fault{}, context.Background()
	kind, empty := strings.CutSuffix(c.op.fs, "-empty")
	if kind == "mem" {
		e.base = apkfs.NewMemFS()
	} else {
		d := filepath.Join(e.dir, "root")
		e.base = apkfs.DirFS(d, apkfs.WithCreateDir(), apkfs.DirFSWithCaseSensitive(true))
	}
	if !empty {
		for _, p := range e03paths {
			must(e.base.MkdirAll(p, 0o755))
		}
		for _, p := range []string{"lib/apk/db/installed", "lib/apk/db/scripts.tar", "lib/apk/db/triggers"} {
			must(e.base.WriteFile(p, nil, 0o644))
		}
		must(e.base.MkdirAll("etc/apk", 0o755))
		must(e.base.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	}
	e.f = e.base
	if kind == "mem" {
		e.f = faultFS{f: e.base, e: e, off: &e.fsoff}
	}
	if c.op.prep != nil {
		cache := e.cache
		e.cache = ""
		c.op.prep(e)
		e.cache = cache
	}
	if b, err := e.base.ReadFile("lib/apk/db/installed"); err == nil {
		e.preDB = string(b)
	}
	e.fsoff = false
}

// exec runs the operation in e under the fault.
func (c *x01case) exec(e *x01env, f x01fault) (out string, err error, r *vsched.Result) {
	e.fault, e.ops, e.onDB = f, map[string][]string{}, false
	if f.kind == "size" {
		var lim syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
		cut := lim
		cut.Cur = uint64(f.at[0])
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &cut))
		defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)) }()
	}
	x := vctx.Exec{OS: func(op string, ps ...string) error {
		if e.op("os", op, ps...) {
			return &fs.PathError{Op: op, Path: ps[0], Err: syscall.EIO}
		}
		return nil
	}}
	e.ctx, e.cancel = context.WithCancel(context.Background())
	defer e.cancel()
	e.files, e.made, e.fsOpen, e.bodies, e.none, e.broken = nil, nil, nil, nil, false, 0
	x.Opened = func(f *os.File) { e.files = append(e.files, f) }
	x.Made = func(p string) { e.made = append(e.made, p) }
	x.Map = func(n int, _ func() []string) []int {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		return o
	}
	r = vsched.Run(vsched.Options{Choose: func(int, int, string) int { return 0 }, Exec: x, Trace: true}, func() { out, err = c.op.do(e) })
	return out, err, r
}

func (c *x01case) result(e *x01env, out string) string {
	e.fsoff = true
	defer func() { e.fsoff = false }()
	d := x01dump(e.base)
	return strings.ReplaceAll(strings.ReplaceAll(out+"\n"+d, e.dir, "DIR"), e.host, "HOST")
}

// try runs the operation under the fault and judges.
func (c *x01case) try(f x01fault, ref string) bool {
	t := c.t
	t.Tick()
	if c.n%64 == 0 {
		runtime.GC() // closes what failed operations left open
	}
	e := c.env()
	defer func() { chmodTree(e.dir); must(os.RemoveAll(e.dir)) }()
	out, err, r := c.exec(e, f)
	did := ""
	for _, a := range f.at {
		if f.kind != "size" && a < len(e.ops[f.kind]) {
			if f.kind == "ctx" {
				did += fmt.Sprintf(" the context ends before operation %d (%s);", a, e.ops[f.kind][a])
			} else {
				did += fmt.Sprintf(" %s operation %d (%s) fails;", f.kind, a, e.ops[f.kind][a])
			}
		}
	}
	if f.kind == "size" {
		did = fmt.Sprintf(" the disk is full for files of more than %d bytes;", f.at[0])
	}
	t.Trans(len(e.ops["os"]) + len(e.ops["fs"]))
	t.Trace(1)
	t.Eval(did != "")
	desc := fmt.Sprintf("%s on %s, cache %q:%s", c.op.name, c.op.fs, c.op.cache, did)
	key := x01norm(fmt.Sprintf("%s:%s:%s:%s", c.op.name, c.op.fs, c.op.cache, did))
	t.State(key + fmt.Sprint(f))
	fail := func(format string, args ...any) bool {
		t.Fail(key, "%s %s", desc, fmt.Sprintf(format, args...))
		return false
	}
	if len(r.Panics) > 0 {
		return fail("panic: %s", r.Panics[0])
	}
	if r.Deadlock != "" {
		return fail("nobody can go on: %s", r.Deadlock)
	}
	if c.leaks {
		l := e.open(e.none)
		if strings.Contains(did, "RemoveAll") || strings.Contains(did, "(Remove ") {
			l = slices.DeleteFunc(l, func(s string) bool { return strings.HasPrefix(s, "temporary") })
		}
		if len(l) > 0 {
			return fail("is over (%v) and leaves %q", err, l)
		}
		if err == nil {
			t.Outcome("done")
		} else {
			t.Outcome("failed")
		}
		return true
	}
	got := c.result(e, out)
	if err == nil && strings.HasPrefix(c.op.name, "tar") {
		// names of users and groups, and attributes, are added to an archive when they can be had
		if strings.Contains(did, " etc/passwd") || strings.Contains(did, " etc/group") || strings.Contains(did, "/etc/passwd") || strings.Contains(did, "/etc/group") {
			got, ref = x01names.ReplaceAllString(got, " $1 :"), x01names.ReplaceAllString(ref, " $1 :")
		}
		if strings.Contains(did, "ListXattrs") {
			got, ref = x01attrs.ReplaceAllString(got, ""), x01attrs.ReplaceAllString(ref, "")
		}
	}
	switch {
	case err == nil && got != ref:
		t.Outcome("wrong")
		return fail("success is reported, with\n%s\nand not\n%s", x01diff(got, ref), x01diff(ref, got))
	case err == nil:
		t.Outcome("tolerated")
	default:
		t.Outcome("reported")
		db, _ := e.base.ReadFile("lib/apk/db/installed")
		if string(db) != e.preDB && !e.onDB && !(f.kind == "size" && strings.HasPrefix(c.op.fs, "dir")) && !strings.HasPrefix(c.op.name, "init") {
			return fail("failed (%v) and changed the installed database to\n%s\nfrom\n%s", err, db, e.preDB)
		}
	}
	if c.op.check == "step" {
		a, b := x01dump(e.base), x01dump(apkfs.DirFS(filepath.Join(e.dir, "root"), apkfs.DirFSWithCaseSensitive(true)))
		if x01plain(a) != x01plain(b) {
			return fail("(%v) and then the filesystem shows\n%s\nwhile on the disk is\n%s", err, x01diff(a, b), x01diff(b, a))
		}
	}
	if c.op.local || c.op.cache == "" {
		return true
	}
	// the same process again, and another one, online and offline
	for i, what := range []string{"the same process again", "another process", "another process offline"} {
		e.proc, e.off = 0, false
		if i > 0 {
			e.proc = i
			if i == 1 {
				old := e.cache
				e.cache += "-later"
				must(os.Rename(old, e.cache))
			}
			e.off = i == 2
		}
		if strings.HasPrefix(c.op.fs, "dir") {
			old := filepath.Join(e.dir, "root")
			chmodTree(old)
			must(os.RemoveAll(old))
		}
		c.newFS(e)
		out, err2, r := c.exec(e, x01fault{})
		if len(r.Panics) > 0 || r.Deadlock != "" {
			return fail("%s: %v %s", what, r.Panics, r.Deadlock)
		}
		if err2 != nil {
			return fail("(%v); then %s: fails: %v", err, what, err2)
		}
		if got := c.result(e, out); x01host(got) != x01host(ref) {
			return fail("(%v); then %s: gives\n%s\nand not\n%s", err, what, x01diff(got, ref), x01diff(ref, got))
		}
	}
	return true
}

var (
	x01names = regexp.MustCompile(` (\d+:\d+) \w*:\w*`)
	x01attrs = regexp.MustCompile(` ?"SCHILY\.xattr\.[^"]*"`)
)

var x01data = regexp.MustCompile(`/(stream-[12]|[0-9a-f]{64}\.dat)\.tar$`)

var x01slash = regexp.MustCompile(`HOST/r(/\.)*`)

func x01host(s string) string { return x01slash.ReplaceAllString(s, "HOST/r") }

// x01plain leaves out attributes and device files, which the disk need not have.
func x01plain(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if !strings.Contains(x, " D") && !strings.Contains(x, " user.") {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

var x01num = regexp.MustCompile(`[0-9]{5,}|fs operation [0-9]+|os operation [0-9]+`)

func x01norm(s string) string { return x01num.ReplaceAllString(s, "*") }

// x01diff lists the lines of a which b has not.
func x01diff(a, b string) string {
	have := map[string]bool{}
	for _, l := range strings.Split(b, "\n") {
		have[l] = true
	}
	var o []string
	for _, l := range strings.Split(a, "\n") {
		if !have[l] {
			if len(l) > 400 {
				l = l[:400] + "..."
			}
			o = append(o, l)
		}
	}
	if len(o) == 0 {
		return "(nothing else)"
	}
	return strings.Join(o, "\n")
}

// x01start prepares the cache and gives the result without faults.
func (c *x01case) start() (ref string, ops map[string]int, max int, ok bool) {
	c.host = fmt.Sprintf("t%d-%d.x01.example", os.Getpid(), x01seq.Add(1))
	if c.op.cache != "" && c.op.cache != "empty" {
		cc := *c
		cc.op.cache = "empty"
		cc.host = ""
		e := cc.env()
		c.host = e.host
		if _, err, _ := cc.exec(e, x01fault{}); err != nil {
			panic(fmt.Sprintf("harness: %s: %v", c.op.name, err))
		}
		for _, f := range c01take(e.cache).files {
			if c.op.cache == "strip" && strings.HasSuffix(f.rel, ".dat.tar") {
				continue
			}
			c.tmpl = append(c.tmpl, f)
		}
		c.n = cc.n
	}
	e := c.env()
	out, err, r := c.exec(e, x01fault{})
	if err != nil || len(r.Panics) > 0 || r.Deadlock != "" {
		c.t.Fail("undisturbed:"+c.op.name, "%s on %s, cache %q, without any fault: %v %v %s", c.op.name, c.op.fs, c.op.cache, err, r.Panics, r.Deadlock)
		return "", nil, 0, false
	}
	ref = c.result(e, out)
	ops = map[string]int{}
	for k := range e.ops {
		ops[k] = len(e.ops[k])
	}
	must(filepath.WalkDir(c.t.Dir(), func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			if fi, err := d.Info(); err == nil && int(fi.Size()) > max {
				max = int(fi.Size())
			}
		}
		return nil
	}))
	for _, b := range c.apks { // temporary files are gone by now
		if n := len(b.datTar); n > max {
			max = n
		}
	}
	return ref, ops, max, true
}

func runX01(c *C) { x01(c, false) }

func runZ01(c *C) { x01(c, true) }

func x01(c *C, leaks bool) {
	if !vsched.Available {
		c.Cap("no scheduler in this build")
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	apks := n03apks()
	sc := func(n, b string) tent { return modeE(reg(n, b), 0o755) }
	xa := reg("opt/s/attr", "with attributes")
	xa.pax = map[string]string{"SCHILY.xattr.user.x": "v"}
	xd := dirE("opt/d/")
	xd.pax = map[string]string{"SCHILY.xattr.user.d": "w"}
	apks['x'] = apkSpec{name: "x", ver: "9-r0", signed: true, origin: "x", info: []string{"triggers = /opt"}, scripts: []tent{sc(".post-install", "#!x"), sc(".trigger", "#!t")},
		data: []tent{dirE("opt/"), dirE("opt/s/"), xd, xa, modeE(reg("opt/s/big", strings.Repeat("0123456789", 120)), 0o4755), reg("opt/s/empty", ""), symE("opt/sl", "s/attr"), lnkE("opt/s/hl", "opt/s/attr")}}.build()
	keys := sigKeys(c.Scratch)
	ops := x01ops()
	c.Sample("install:x on mem, cache \"empty\": os operation 17 (Rename ... CACHE/...) fails; then the same process again, another process, another process offline")
	c.Run(func(emit func(string, func(*T))) {
		for _, op := range ops {
			parts := c.Pick(4, 24)
			for part := 0; part < parts; part++ {
				emit(fmt.Sprintf("%s:%s:%s:%d", op.name, op.fs, op.cache, part), func(t *T) {
					x := &x01case{t: t, op: op, apks: apks, keys: keys, leaks: leaks}
					ref, ops, max, ok := x.start()
					if !ok {
						return
					}
					n := 0
					for _, kind := range []string{"os", "fs", "net", "status", "partial", "body", "drop", "ctx"} {
						t.NoteMax("max_"+kind+"_operations", int64(ops[kind]))
						for k := 0; k < ops[kind]+2 && !t.Expired(); k++ {
							if n++; n%parts == part {
								x.try(x01fault{kind, []int{k}}, ref)
								t.NoteAdd("single_faults", 1)
							}
						}
						if !t.Thorough() || kind == "ctx" {
							continue
						}
						for k := 0; k < ops[kind] && !t.Expired(); k++ {
							for j := k + 1; j < ops[kind]+3; j++ {
								if n++; n%parts == part {
									x.try(x01fault{kind, []int{k, j}}, ref)
									t.NoteAdd("double_faults", 1)
								}
							}
						}
					}
					if ops["os"] == 0 {
						return
					}
					step := t.Pick(97, 7)
					for s := 0; s <= max+step && !t.Expired(); s += step {
						if n++; n%parts == part {
							x.try(x01fault{"size", []int{s}}, ref)
							t.NoteAdd("full_disks", 1)
						}
					}
					for s := 0; s <= max && !t.Expired(); s += 512 {
						if n++; n%parts == part {
							x.try(x01fault{"size", []int{s}}, ref)
							t.NoteAdd("full_disks", 1)
						}
					}
				})
			}
		}
	})
}
