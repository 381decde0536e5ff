package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"verif.local/shim/vctx"
)

func init() {
	register("C01", check{run: runC01, level: "model_checking",
		rule: "cache fills of packages (signed, unsigned, sharing their data section with another one, local, in an empty cache, over another version, in a cache without decompressed data), indexes and keys (first and updated): the cache directory is captured before every file operation of the library and while a response arrives, and between captures every file being written is cut at every block; each of these crash states (thorough: also each crash state of a second fill on top of it) is restored and used by later processes online and offline in several orders; " +
			"results must equal those with an empty cache, offline use of what was completely cached must work; captured states are compared with those real killed processes leave; non-trivial when the crash state differs from the states before and after the fill",
		assumptions: []string{"the death of the process loses nothing that was written (no power failure)", "blocks of 512 bytes; a write of less is not torn", "a later process is represented by a copy of the cache directory under another name"}})
	children["c01"] = c01child
}

type c01file struct {
	rel  string
	ino  uint64
	mt   time.Time
	dir  bool
	body string
}

type c01snap struct {
	files []c01file
	label string
	torn  bool
}

func c01take(dir string) (s c01snap) {
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		fi, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		f := c01file{rel: must1(filepath.Rel(dir, p)), ino: fi.Sys().(*syscall.Stat_t).Ino, mt: fi.ModTime(), dir: fi.IsDir()}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			f.body = string(b)
		}
		s.files = append(s.files, f)
		return nil
	})
	return s
}

func (s c01snap) restore(dir string) {
	must(os.MkdirAll(dir, 0o755))
	for _, f := range s.files {
		p := filepath.Join(dir, f.rel)
		if f.dir {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.WriteFile(p, []byte(f.body), 0o644))
		must(os.Chtimes(p, f.mt, f.mt))
	}
}

var c01tmp = regexp.MustCompile(`[0-9]{5,}`)

// id identifies the state up to the names of temporary files.
// names returns the contents, without times.
func (s c01snap) names() string {
	id := s.id()
	return id[:strings.LastIndexByte(id, '[')]
}

func (s c01snap) id() string {
	var l []string
	type tf struct {
		n string
		t time.Time
	}
	var ts []tf
	for _, f := range s.files {
		n := f.rel
		if strings.Contains(n, "expand-apk") || strings.HasSuffix(n, ".tmp") {
			n = c01tmp.ReplaceAllString(n, "*")
		} else if !f.dir {
			ts = append(ts, tf{n, f.mt})
		}
		l = append(l, fmt.Sprintf("%s %v %x", n, f.dir, hashStr(f.body)))
	}
	sort.Strings(l)
	sort.Slice(ts, func(i, j int) bool {
		return ts[i].t.Before(ts[j].t) || ts[i].t.Equal(ts[j].t) && ts[i].n < ts[j].n
	})
	return strings.Join(l, "\n") + fmt.Sprint(func() (o []string) {
		for _, x := range ts {
			o = append(o, x.n)
		}
		return
	}())
}

func (s c01snap) String() string {
	var l []string
	for _, f := range s.files {
		if !f.dir {
			l = append(l, fmt.Sprintf("%s (%d bytes)", f.rel, len(f.body)))
		}
	}
	return s.label + ": " + strings.Join(l, ", ")
}

// c01states adds to the captured states those with a file cut between two captures.
func c01states(snaps []c01snap) []c01snap {
	var out []c01snap
	seen := map[string]bool{}
	add := func(s c01snap) {
		if k := s.id(); !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	for i, s := range snaps {
		if i > 0 {
			prev := map[string]c01file{}
			inos := map[uint64]c01file{}
			for _, f := range snaps[i-1].files {
				prev[f.rel] = f
				inos[f.ino] = f
			}
			var changed []int
			for j, f := range s.files {
				if f.dir {
					continue
				}
				o, ok := prev[f.rel]
				if ok && o.ino == f.ino && o.body == f.body {
					continue
				}
				if ok && o.ino != f.ino {
					continue // replaced as a whole
				}
				if q, was := inos[f.ino]; !ok && was && q.body == f.body {
					continue // renamed
				}
				changed = append(changed, j)
			}
			if len(changed) == 1 {
				j := changed[0]
				f := s.files[j]
				from := 0
				if o, ok := prev[f.rel]; ok && strings.HasPrefix(f.body, o.body) {
					from = (len(o.body) + 511) / 512 * 512
				}
				for n := from; n < len(f.body); n += 512 {
					q := c01snap{label: fmt.Sprintf("%s, with %d of %d bytes of %s written", s.label, n, len(f.body), f.rel), torn: true}
					q.files = append(q.files, s.files...)
					q.files[j].body = f.body[:n]
					add(q)
				}
			}
		}
		add(s)
	}
	return out
}

// c01op is one use of the cache.
type c01op struct {
	id      string // content asked for
	offline bool
}

type c01kind struct {
	name string
	ids  []string
	pkg  map[string]*builtApk
	body func(id string) string
	url  string // of the resource or the repository
	res  string // pkg, file, index, key
}

func c01kinds(th bool) []c01kind {
	mk := func(signed bool, n int) map[string]*builtApk {
		data := func(s string) []tent {
			return []tent{dirE("opt/"), reg("opt/one", s+noise(n)), reg("opt/two", noise(n/2)), symE("opt/l", "two")}
		}
		b := func(ver, d string) *builtApk {
			return apkSpec{name: "p", ver: "1-r0", signed: signed, info: []string{"url = " + ver}, scripts: []tent{modeE(reg(".post-install", "#!/bin/sh\n"+ver+noise(700)), 0o755)}, data: data(d), splits: []int{2048}}.build()
		}
		return map[string]*builtApk{"a": b("a", "x"), "b": b("b", "x"), "c": b("c", "y")} // a and b share their data
	}
	long := func(id string) string {
		var ps []*apk.Package
		for i := 0; i < 30; i++ {
			ps = append(ps, &apk.Package{Name: fmt.Sprintf("%s-%d", id, i), Version: "1", Arch: "x86_64", Checksum: make([]byte, 20), Description: fmt.Sprintf("%x", noise(40))})
		}
		return string(readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Packages: ps}))))
	}
	ks := []c01kind{
		{name: "signed", ids: []string{"a", "b", "c"}, pkg: mk(true, 1500), res: "pkg"},
		{name: "unsigned", ids: []string{"a", "b", "c"}, pkg: mk(false, 900), res: "pkg"},
		{name: "local", ids: []string{"a", "b"}, pkg: mk(true, 600), res: "file"},
		{name: "index", ids: []string{"a", "b", "c"}, body: long, url: "https://c01.example/r", res: "index"},
		{name: "key", ids: []string{"a", "b", "c"}, body: func(id string) string { return "content " + id + noise(1200) }, url: "https://c01.example/r/keys/k.rsa.pub", res: "key"},
	}
	return ks
}

// c01body tells about its progress.
type c01body struct {
	io.Reader
	n    int
	hook func()
}

func (b *c01body) Read(p []byte) (int, error) {
	if len(p) > 512 {
		p = p[:512]
	}
	n, err := b.Reader.Read(p)
	b.n += n
	if b.n >= 512 {
		b.n = 0
		b.hook()
	}
	return n, err
}
func (b *c01body) Close() error { return nil }

// c01do uses the cache in dir ("": none) and returns what it gives.
func c01do(k c01kind, dir string, op c01op, local string, hook func()) (string, error) {
	var opts []apk.Option
	if dir != "" {
		opts = append(opts, apk.WithCache(dir, op.offline))
	}
	reqs := 0
	answer := func(r *http.Request, body, tag string) *http.Response {
		reqs++
		h := map[string]string{}
		if tag != "" {
			h["Etag"] = tag
		}
		if r.Method == http.MethodHead {
			return respond(200, nil, h)
		}
		res := respond(200, []byte(body), h)
		if hook != nil {
			res.Body = &c01body{Reader: bytes.NewReader([]byte(body)), hook: hook}
		}
		return res
	}
	switch k.res {
	case "pkg", "file":
		f := e03fs()
		a := newAPK(append(opts, apk.WithFS(f))...)
		b := k.pkg[op.id]
		u := "https://c01.example/r/x86_64/p-1-r0.apk"
		if k.res == "file" {
			u = filepath.Join(local, op.id, "x86_64", "p-1-r0.apk")
			if !op.offline {
				must(os.MkdirAll(filepath.Dir(u), 0o755))
				must(os.WriteFile(u, b.all, 0o644))
			}
		}
		a.SetClient(&http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) { return answer(r, string(b.all), ""), nil })})
		if err := a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{fakePkg{"p", u, b.q1}}); err != nil {
			return "", err
		}
		if op.offline && reqs > 0 {
			return "requests in offline mode", nil
		}
		return fsDump(f), nil
	}
	f := apkfs.NewMemFS()
	must(f.MkdirAll("etc/apk/keys", 0o755))
	must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	a := newAPK(append(opts, apk.WithFS(f))...)
	a.SetClient(&http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		return answer(r, k.body(op.id), `"tag-`+op.id+`"`), nil
	})})
	if k.res == "key" {
		if err := a.InitKeyring(context.Background(), []string{k.url}, nil); err != nil {
			return "", err
		}
		b, err := f.ReadFile("etc/apk/keys/k.rsa.pub")
		return string(b), err
	}
	must(f.WriteFile("etc/apk/repositories", []byte(k.url+"\n"), 0o644))
	ix, err := a.GetRepositoryIndexes(context.Background(), true)
	if err != nil {
		return "", err
	}
	return pkgNamesOf(ix), nil
}

// c01scen is a history that ends in a fill.
type c01scen struct {
	kind  int
	pre   []string // contents completely cached before, in order
	strip bool     // the decompressed data was removed (as older versions left it)
	fill  string
}

func c01scens(ks []c01kind) []c01scen {
	var l []c01scen
	for i, k := range ks {
		l = append(l, c01scen{kind: i, fill: "a"}, c01scen{kind: i, pre: []string{"a"}, fill: "b"}, c01scen{kind: i, pre: []string{"a"}, fill: "a"})
		if len(k.ids) > 2 {
			l = append(l, c01scen{kind: i, pre: []string{"a"}, fill: "c"}, c01scen{kind: i, pre: []string{"a", "b"}, fill: "c"})
		}
		if k.pkg != nil {
			l = append(l, c01scen{kind: i, pre: []string{"a"}, strip: true, fill: "a"}, c01scen{kind: i, pre: []string{"a"}, strip: true, fill: "b"})
		}
	}
	return l
}

func (s c01scen) String(ks []c01kind) string {
	st := ""
	if s.strip {
		st = " without decompressed data"
	}
	return fmt.Sprintf("%s: cached %v%s, filling %s", ks[s.kind].name, s.pre, st, s.fill)
}

var c01seq atomic.Int64

// c01base makes the cache as it is before the fill.
func (s c01scen) base(k c01kind, root string) string {
	dir := filepath.Join(root, fmt.Sprintf("cache%d", c01seq.Add(1)))
	must(os.MkdirAll(dir, 0o755))
	for i, id := range s.pre {
		// every fill happens in a process of its own: move the directory
		next := filepath.Join(root, fmt.Sprintf("cache%d", c01seq.Add(1)))
		must(os.Rename(dir, next))
		dir = next
		must1(c01do(k, dir, c01op{id: id}, filepath.Join(root, "local"), nil))
		at := time.Unix(1600000000+int64(i)*1000, 0)
		must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
			if fi, err := os.Stat(p); err == nil && !fi.IsDir() && fi.ModTime().After(time.Unix(1650000000, 0)) {
				must(os.Chtimes(p, at, at))
			}
			if s.strip && strings.HasSuffix(p, ".dat.tar") {
				must(os.Remove(p))
			}
			return nil
		}))
	}
	next := filepath.Join(root, fmt.Sprintf("cache%d", c01seq.Add(1)))
	must(os.Rename(dir, next))
	return next
}

// c01record captures the states of a fill in dir.
func c01record(k c01kind, dir, local string, op c01op) (snaps []c01snap, res string, err error) {
	var mu sync.Mutex
	n := 0
	take := func(label string) {
		mu.Lock()
		defer mu.Unlock()
		n++
		s := c01take(dir)
		s.label = fmt.Sprintf("step %d, before %s", n, label)
		snaps = append(snaps, s)
	}
	x := &vctx.Exec{OS: func(o string, ps ...string) error {
		var l []string
		for _, p := range ps {
			if r, err := filepath.Rel(dir, p); err == nil && filepath.IsLocal(r) {
				l = append(l, r)
			}
		}
		take(strings.TrimSpace(o + " " + strings.Join(l, " to ")))
		return nil
	}}
	vctx.With(x, func() { res, err = c01do(k, dir, op, local, func() { take("reading more of the response") }) })
	take("the end")
	return snaps, res, err
}

type c01check struct {
	t    *T
	ks   []c01kind
	refs map[string]string
	root string
}

func (c *c01check) ref(k c01kind, id string) string {
	if c.refs[k.name+id] == "" {
		c.refs[k.name+id] = must1(c01do(k, "", c01op{id: id}, filepath.Join(c.root, "reflocal"), nil))
	}
	return c.refs[k.name+id]
}

// recover uses the crash state in several ways; complete lists what was completely cached before.
func (c *c01check) recover(k c01kind, st c01snap, complete []string, served []string, desc, key string) bool {
	t := c.t
	var seqs [][]c01op
	on := func(id string) c01op { return c01op{id: id} }
	off := func(id string) c01op { return c01op{id: id, offline: true} }
	for _, id := range k.ids {
		seqs = append(seqs, []c01op{on(id), off(id)})
		if k.pkg != nil {
			seqs = append(seqs, []c01op{off(id), on(id)})
			for _, o := range k.ids {
				if o != id {
					seqs = append(seqs, []c01op{on(o), on(id), off(o), off(id)})
				}
			}
		}
	}
	if k.pkg == nil {
		seqs = append(seqs, []c01op{off("a"), on("b"), off("b"), on("a"), off("a")}, []c01op{off("a"), on("c"), off("b")})
	}
	for si, seq := range seqs {
		t.Tick()
		dir := filepath.Join(c.root, fmt.Sprintf("rec%d", c01seq.Add(1)))
		st.restore(dir)
		have := map[string]bool{}
		for _, id := range complete {
			have[id] = true
		}
		may := append([]string{}, served...)
		last := ""
		ok := true
		for i, op := range seq {
			got, err := c01do(k, dir, op, filepath.Join(c.root, "local"), nil)
			t.Trans(1)
			what := fmt.Sprintf("%s; crash at %s; then %s", desc, st, c01ops(seq[:i+1]))
			if !op.offline {
				switch {
				case err != nil:
					t.Fail(key, "%s: fails: %v", what, err)
					ok = false
				case got != c.ref(k, op.id):
					t.Fail(key, "%s: gives\n%s\nand not\n%s", what, short(got), short(c.ref(k, op.id)))
					ok = false
				}
				last = op.id
				for _, id := range may {
					if id == op.id {
						last = "" // served again: any may count as most recent
					}
				}
				have[op.id] = true
				may = append(may, op.id)
			} else if k.pkg != nil {
				switch {
				case err != nil && have[op.id]:
					t.Fail(key, "%s: fails although the package was completely cached: %v", what, err)
					ok = false
				case err == nil && got != c.ref(k, op.id):
					t.Fail(key, "%s: gives\n%s\nand not\n%s", what, short(got), short(c.ref(k, op.id)))
					ok = false
				}
			} else {
				allowed := may
				if last != "" {
					allowed = []string{last}
				}
				good := false
				for _, id := range allowed {
					good = good || err == nil && got == c.ref(k, id)
				}
				switch {
				case err != nil && len(have) > 0:
					t.Fail(key, "%s: fails although a response was completely cached: %v", what, err)
					ok = false
				case err == nil && !good:
					t.Fail(key, "%s: gives %s, which is none of what was cached (%v)", what, short(got), allowed)
					ok = false
				}
			}
			if !ok {
				break
			}
			// as another process
			next := filepath.Join(c.root, fmt.Sprintf("rec%d", c01seq.Add(1)))
			must(os.Rename(dir, next))
			dir = next
			if k.pkg == nil && !op.offline {
				// what is written later is newer
				at := time.Now().Add(time.Duration(i+1) * time.Hour)
				_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
					if fi, err := os.Stat(p); err == nil && !fi.IsDir() && fi.ModTime().After(time.Unix(1650000000, 0)) && strings.Contains(filepath.Base(p), "tag-"+op.id) {
						must(os.Chtimes(p, at, at))
					}
					return nil
				})
			}
		}
		t.Eval(st.torn || strings.Contains(st.label, "before"))
		t.Trace(1)
		must(os.RemoveAll(dir))
		_ = si
		if !ok {
			return false
		}
	}
	return true
}

func c01ops(l []c01op) string {
	var o []string
	for _, x := range l {
		m := "online"
		if x.offline {
			m = "offline"
		}
		o = append(o, m+" "+x.id)
	}
	return strings.Join(o, ", ")
}

func runC01(c *C) {
	if !vctx.Instrumented {
		c.Cap("the packages could not be instrumented")
		return
	}
	ks := c01kinds(c.Thorough())
	scens := c01scens(ks)
	c.Sample("signed: cached [a], filling b; crash at step 31, before Rename of the signature; then online b, offline b")
	const parts = 8
	c.Run(func(emit func(string, func(*T))) {
		for si, s := range scens {
			for part := 0; part < parts; part++ {
				emit(fmt.Sprintf("crash:%d:%d", si, part), func(t *T) { c01scenario(t, ks, s, si, part, parts) })
			}
		}
		for si, s := range scens {
			emit(fmt.Sprintf("kill:%d", si), func(t *T) { c01kill(t, ks, s, si) })
		}
	})
}

func c01scenario(t *T, ks []c01kind, s c01scen, si, part, parts int) {
	k := ks[s.kind]
	chk := &c01check{t: t, ks: ks, refs: map[string]string{}, root: t.Dir()}
	local := filepath.Join(t.Dir(), "local")
	dir := s.base(k, t.Dir())
	snaps, res, err := c01record(k, dir, local, c01op{id: s.fill})
	if err != nil || res != chk.ref(k, s.fill) {
		t.Fail(fmt.Sprintf("fill:%d", si), "%s: %v\n%s", s.String(ks), err, short(res))
		return
	}
	states := c01states(snaps)
	if part == 0 {
		t.NoteAdd("captures", int64(len(snaps)))
		t.NoteAdd("crash_states", int64(len(states)))
	}
	served := append(append([]string{}, s.pre...), s.fill)
	nested := map[string]bool{}
	for i, st := range states {
		if i%parts != part {
			continue
		}
		if t.Expired() {
			return
		}
		t.State(fmt.Sprint(si, st.id()))
		key := fmt.Sprintf("crash:%d:%s", si, c01norm(st.label))
		if !chk.recover(k, st, s.pre, served, s.String(ks), key) {
			return
		}
		if i%16 != part && !t.Thorough() {
			continue
		}
		// crash again
		d2 := filepath.Join(t.Dir(), fmt.Sprintf("nest%d", c01seq.Add(1)))
		again := k.ids
		if !t.Thorough() {
			again = []string{s.fill}
		}
		for _, id := range again {
			d2 = filepath.Join(t.Dir(), fmt.Sprintf("nest%d", c01seq.Add(1)))
			st.restore(d2)
			sn2, _, err := c01record(k, d2, local, c01op{id: id})
			must(os.RemoveAll(d2))
			if err != nil {
				t.Fail(key, "%s; crash at %s; filling with %s again: %v", s.String(ks), st, id, err)
				return
			}
			for _, st2 := range c01states(sn2) {
				t.State(fmt.Sprint(si, st2.id()))
				if nested[st2.id()] {
					continue
				}
				nested[st2.id()] = true
				t.NoteAdd("crash_states_after_two_crashes", 1)
				if !chk.recover(k, st2, s.pre, append(served, id), s.String(ks)+"; crash at "+st.label+"; filling with "+id, key+"+"+id+":"+c01norm(st2.label)) {
					return
				}
				if t.Expired() {
					return
				}
			}
		}
	}
}

func c01norm(s string) string { return c01tmp.ReplaceAllString(s, "*") }

// c01child does the fill and is killed before a given file operation.
func c01child(args []string) {
	root, dir := args[0], args[1]
	si := must1(strconv.Atoi(args[2]))
	at := must1(strconv.Atoi(args[3]))
	ks := c01kinds(false)
	s := c01scens(ks)[si]
	n := 0
	step := func() {
		if n++; n == at {
			_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
	}
	vctx.With(&vctx.Exec{OS: func(string, ...string) error { step(); return nil }}, func() {
		must1(c01do(ks[s.kind], dir, c01op{id: s.fill}, filepath.Join(root, "local"), step))
	})
	os.Exit(0)
}

// c01kill compares captured states with what killed processes leave behind.
func c01kill(t *T, ks []c01kind, s c01scen, si int) {
	k := ks[s.kind]
	dir := s.base(k, t.Dir())
	base := c01take(dir)
	snaps, _, err := c01record(k, dir, filepath.Join(t.Dir(), "local"), c01op{id: s.fill})
	if err != nil {
		return // reported elsewhere
	}
	self := must1(os.Executable())
	every := t.Pick(3, 1)
	for i := si % every; i < len(snaps)-1; i += every {
		t.Tick()
		d := filepath.Join(t.Dir(), fmt.Sprintf("k%d", i))
		base.restore(d)
		cmd := exec.Command(self, "-child", "c01", t.Dir(), d, fmt.Sprint(si), fmt.Sprint(i+1))
		o, err := cmd.CombinedOutput()
		ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if !ok || !ws.Signaled() || ws.Signal() != syscall.SIGKILL {
			t.C.Cap(fmt.Sprintf("process was not killed at step %d of %s: %v %s", i+1, s.String(ks), err, short(string(o))))
			return
		}
		got := c01take(d)
		// the order of times within one clock tick is left out
		if g, w := got.names(), snaps[i].names(); g != w {
			t.NoteAdd("killed_process_differs", 1)
			t.C.Cap(fmt.Sprintf("a process killed at %s left another state than captured", snaps[i].label))
			if t.verbose {
				fmt.Fprintln(os.Stderr, s.String(ks), snaps[i].label, "\n", g, "\n---\n", w)
			}
		} else {
			t.NoteAdd("killed_processes_compared", 1)
			t.Trace(1)
		}
		must(os.RemoveAll(d))
	}
}
