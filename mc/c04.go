package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"verif.local/shim/vrace"
	"verif.local/shim/vsched"
)

func init() {
	register("C04", check{run: runC04, level: "model_checking",
		rule: "two or three users (goroutines of one process and of other processes) install packages, or load indexes or keys, through one cache directory: same and colliding entries, empty and filled caches, caches without decompressed data, users online, offline and giving up, failing answers; all schedules up to the deviation bound, at the granularity of file operations, locks, channel operations, requests and parts of responses; " +
			"every user must get the complete result of an uncontended run (an error only if its own context or a request failed), a resource must be fetched once per process, nobody may wait for ever, and a later offline user must be served; a second build runs under the race detector, which is told what the code orders and not what the scheduler does; non-trivial when threads alternate",
		assumptions: []string{"another process is represented by a spelling of the URL with the same cache entry", "the users of one process are alike (the failure of an attempt is reported to all who wait for it)", "one file operation is atomic, response bodies arrive in two parts"}})
}

// c04user is one user of the cache.
type c04user struct {
	id      string // content asked for
	proc    int
	offline bool
	cancels bool // its context ends at some time
	fail    string
}

type c04scen struct {
	name  string
	kind  int
	pre   []string
	strip bool
	users []c04user
	bound [2]int // quick, thorough
	parts [2]int
}

func (s c04scen) String(ks []c01kind) string {
	var l []string
	for _, u := range s.users {
		x := fmt.Sprintf("%s in process %d", u.id, u.proc)
		if u.offline {
			x += " offline"
		}
		if u.cancels {
			x += " giving up"
		}
		if u.fail != "" {
			x += " (" + u.fail + ")"
		}
		l = append(l, x)
	}
	st := ""
	if s.strip {
		st = " without decompressed data"
	}
	return fmt.Sprintf("%s: cached %v%s; %s", ks[s.kind].name, s.pre, st, strings.Join(l, " || "))
}

// c04body is a response body in two parts.
type c04body struct {
	ctx  context.Context
	data []byte
	half int
	pos  int
	brk  bool
}

func (b *c04body) Read(p []byte) (int, error) {
	if b.pos == 0 || b.pos == b.half {
		vsched.Point("body")
	}
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	if b.pos >= b.half && b.brk {
		return 0, io.ErrUnexpectedEOF
	}
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	end := len(b.data)
	if b.pos < b.half {
		end = b.half
	}
	n := copy(p, b.data[b.pos:end])
	b.pos += n
	return n, nil
}
func (b *c04body) Close() error { return nil }

// c04do uses the cache as user u; gets counts complete bodies asked for by process and content.
func c04do(k c01kind, dir, repo string, u c04user, ctx context.Context, gets *[4][4]atomic.Int64) (string, error) {
	var opts []apk.Option
	if dir != "" {
		opts = append(opts, apk.WithCache(dir, u.offline))
	}
	idn := int(u.id[0] - 'a')
	rt := func(body []byte, tag string) rtFunc {
		return func(r *http.Request) (*http.Response, error) {
			vsched.Point(r.Method)
			if err := r.Context().Err(); err != nil {
				return nil, err
			}
			h := map[string]string{}
			if tag != "" {
				h["Etag"] = tag
			}
			if r.Method == http.MethodHead {
				if u.fail == "head" {
					return nil, errBreak
				}
				return respond(200, nil, h), nil
			}
			if gets != nil {
				gets[u.proc][idn].Add(1)
			}
			if u.fail == "get" {
				return respond(404, nil, nil), nil
			}
			res := respond(200, nil, h)
			res.ContentLength = int64(len(body))
			res.Body = &c04body{ctx: r.Context(), data: body, half: len(body) / 2, brk: u.fail == "break"}
			return res, nil
		}
	}
	switch k.res {
	case "pkg":
		var f apkfs.FullFS
		quietly(func() { f = quietFS{f: e03fs()} })
		q := ""
		if u.proc > 0 {
			q = fmt.Sprintf("?p=%d", u.proc)
		}
		a := newAPK(append(opts, apk.WithFS(f))...)
		b := k.pkg[u.id]
		a.SetClient(&http.Client{Transport: rt(b.all, "")})
		if err := a.InstallPackages(ctx, nil, []apk.InstallablePackage{fakePkg{"p", repo + "/x86_64/p-1-r0.apk" + q, b.q1}}); err != nil {
			return "", err
		}
		return fsDump(f), nil
	}
	f := quietFS{f: apkfs.NewMemFS()}
	must(f.MkdirAll("etc/apk/keys", 0o755))
	must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	a := newAPK(append(opts, apk.WithFS(f))...)
	a.SetClient(&http.Client{Transport: rt([]byte(k.body(u.id)), `"tag-`+u.id+`"`)})
	if k.res == "key" {
		url := repo + "/keys/k.rsa.pub"
		if u.proc > 0 {
			url += fmt.Sprintf("?p=%d", u.proc)
		}
		if err := a.InitKeyring(ctx, []string{url}, nil); err != nil {
			return "", err
		}
		b, err := f.ReadFile("etc/apk/keys/" + filepath.Base(url))
		return string(b), err
	}
	must(f.WriteFile("etc/apk/repositories", []byte(repo+strings.Repeat("/.", u.proc)+"\n"), 0o644))
	ix, err := a.GetRepositoryIndexes(ctx, true)
	if err != nil {
		return "", err
	}
	return pkgNamesOf(ix), nil
}

func c04kinds() []c01kind {
	mk := func(signed bool) map[string]*builtApk {
		b := func(ver, d string) *builtApk {
			return apkSpec{name: "p", ver: "1-r0", signed: signed, info: []string{"url = " + ver}, data: []tent{dirE("opt/"), reg("opt/one", d), symE("opt/l", "one")}}.build()
		}
		return map[string]*builtApk{"a": b("a", "x"), "b": b("b", "x"), "c": b("c", "y")}
	}
	short := func(id string) string {
		return string(readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Packages: []*apk.Package{{Name: id, Version: "1", Arch: "x86_64", Checksum: make([]byte, 20)}}}))))
	}
	return []c01kind{
		{name: "signed", ids: []string{"a", "b", "c"}, pkg: mk(true), res: "pkg"},
		{name: "unsigned", ids: []string{"a", "b", "c"}, pkg: mk(false), res: "pkg"},
		{name: "index", ids: []string{"a", "b", "c"}, body: short, res: "index"},
		{name: "local", ids: []string{"a"}, body: short, res: "lindex"},
		{name: "key", ids: []string{"a", "b", "c"}, body: func(id string) string { return "content " + id }, res: "key"},
	}
}

func c04scens(ks []c01kind) []c04scen {
	var l []c04scen
	us := func(s string) (us []c04user) {
		for _, w := range strings.Fields(s) {
			u := c04user{id: w[:1]}
			for _, c := range w[1:] {
				switch c {
				case '1', '2':
					u.proc = int(c - '0')
				case 'o':
					u.offline = true
				case 'x':
					u.cancels = true
				case 'h':
					u.fail = "head"
				case 'g':
					u.fail = "get"
				case 'k':
					u.fail = "break"
				}
			}
			us = append(us, u)
		}
		return us
	}
	add := func(kind int, pre, users string, q, th, pq, pt int) {
		s := c04scen{kind: kind, users: us(users), bound: [2]int{q, th}, parts: [2]int{pq, pt}}
		for _, w := range strings.Fields(pre) {
			if w == "strip" {
				s.strip = true
			} else {
				s.pre = append(s.pre, w)
			}
		}
		if ks[kind].res == "pkg" && th > 2 {
			s.bound[1] = 2
		}
		if ks[kind].res != "pkg" && len(s.users) == 2 {
			s.bound = [2]int{2, 3}
		}
		if kind == 0 && (users == "a a1" || users == "a ao1" || users == "a b") {
			s.bound[0], s.parts[0] = 2, 4
		}
		if s.bound[1] >= 2 {
			s.parts[1] = 64
		}
		s.name = fmt.Sprintf("%s:%s:%s", ks[kind].name, strings.ReplaceAll(pre, " ", "+"), strings.ReplaceAll(users, " ", "|"))
		l = append(l, s)
	}
	for k := range ks {
		if ks[k].res == "lindex" {
			add(k, "", "a a", 3, 4, 1, 4)
			add(k, "", "a a1", 2, 3, 1, 4)
			add(k, "", "a a a", 1, 2, 1, 4)
			continue
		}
		pkg := ks[k].pkg != nil
		th := 2
		add(k, "", "a a", 2, 3, 2, 16)     // one process
		add(k, "", "a a1", 1, th, 2, 16)   // two processes
		add(k, "", "a b1", 1, th, 2, 16)   // other contents
		add(k, "b", "a a1", 1, th, 2, 16)  // over an earlier entry
		add(k, "a", "a a1", 1, th, 1, 8)   // cached
		add(k, "", "ax a", 2, 3, 2, 16)    // one gives up
		add(k, "", "ax a a", 1, 2, 2, 16)  // and two wait
		add(k, "", "ak a", 1, 2, 1, 8)     // one has a bad connection
		add(k, "", "a a a1", 1, 1, 2, 8)   // three
		add(k, "a", "a1 ao2", 1, th, 1, 8) // one offline
		if pkg {
			add(k, "a strip", "a a1", 1, th, 2, 16)
			add(k, "a strip", "a ao1", 1, th, 2, 16)
			add(k, "a strip", "a b", 1, th, 2, 16) // decompressed by one, replaced by the other
			add(k, "a", "b c1", 1, th, 2, 8)
		} else {
			add(k, "a", "b1 ao2", 1, th, 1, 8) // the offline user gets one or the other
			add(k, "", "ah a", 1, 2, 1, 8)
			add(k, "", "ag a", 1, 2, 1, 8)
		}
	}
	return l
}

var c04seq atomic.Int64

func c04case(t *T, ks []c01kind, s c04scen, part, parts int) {
	k := ks[s.kind]
	n := 0
	t.maxExec = 4000 // packages stay open
	key := fmt.Sprintf("%s:%d", s.name, part)
	bound := s.bound[0]
	if t.Thorough() {
		bound = s.bound[1]
	}
	if vrace.On {
		bound-- // what the code orders hardly depends on the schedule
	}
	refs := map[string]string{}
	for _, id := range k.ids {
		if k.res == "lindex" {
			refs[id] = must1(c04do(ks[s.kind-1], "", "https://refl"+id+".c04.example/r", c04user{id: id}, context.Background(), nil))
			continue
		}
		refs[id] = must1(c04do(k, "", "https://ref"+id+".c04.example/r", c04user{id: id}, context.Background(), nil))
	}
	// what is in the cache at the start
	tmpl := filepath.Join(t.Dir(), "template")
	must(os.Mkdir(tmpl, 0o755))
	tmplHost := fmt.Sprintf("t%d-%d.c04.example", os.Getpid(), c04seq.Add(1))
	for _, id := range s.pre {
		// each by a process of its own
		old := tmpl
		tmpl += "x"
		must(os.Rename(old, tmpl))
		must1(c04do(k, tmpl, "https://"+tmplHost+"/r", c04user{id: id, proc: 3}, context.Background(), nil))
	}
	type ent struct{ rel, body string }
	var ents []ent
	must(filepath.WalkDir(tmpl, func(p string, d os.DirEntry, err error) error {
		must(err)
		if !d.IsDir() && !(s.strip && strings.HasSuffix(p, ".dat.tar")) {
			ents = append(ents, ent{must1(filepath.Rel(tmpl, p)), string(must1(os.ReadFile(p)))})
		}
		return nil
	}))
	seen := map[string]bool{}
	mk := func() schedRun {
		n++
		dir := filepath.Join(t.Dir(), fmt.Sprintf("c%d", n))
		must(os.Mkdir(dir, 0o755))
		// The cache of the process knows URLs for ever: each execution has its own.
		host := fmt.Sprintf("h%d-%d.c04.example", os.Getpid(), c04seq.Add(1))
		repo := "https://" + host + "/r"
		for _, e := range ents {
			p := filepath.Join(dir, strings.ReplaceAll(e.rel, tmplHost, host))
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(e.body), 0o644))
			old := time.Now().Add(-time.Hour)
			must(os.Chtimes(p, old, old))
		}
		if k.res == "lindex" {
			repo = filepath.Join(dir, "local")
			must(os.MkdirAll(repo+"/x86_64", 0o755))
			must(os.WriteFile(repo+"/x86_64/APKINDEX.tar.gz", []byte(k.body("a")), 0o644))
		}
		var gets [4][4]atomic.Int64
		res := make([]string, len(s.users))
		errs := make([]error, len(s.users))
		r := schedRun{delay: true}
		for i, u := range s.users {
			ctx := context.Background()
			if u.cancels {
				c, cancel := context.WithCancel(ctx)
				ctx = c
				r.bodies = append(r.bodies, func() {
					vsched.Point("give up")
					cancel()
				})
			}
			r.bodies = append(r.bodies, func() { res[i], errs[i] = c04do(k, dir, repo, u, ctx, &gets) })
		}
		r.done = func() { must(os.RemoveAll(dir)) }
		r.judge = func(*vsched.Result) (string, string) {
			out := ""
			failed := false // a request of some user failed
			for _, u := range s.users {
				failed = failed || u.fail != ""
			}
			anyCancel := false
			for i, u := range s.users {
				anyCancel = anyCancel || u.cancels
				if errs[i] != nil {
					// the failure of a request is reported to all who waited for it
					if u.cancels || u.fail != "" || failed && u.proc == 0 {
						out += " failed"
						continue
					}
					return fmt.Sprintf("user %d (%s) failed although nothing it needs did: %v", i+1, u.id, errs[i]), "bad"
				}
				ok := res[i] == refs[u.id]
				if k.res == "index" || k.res == "key" {
					// a resource: any of the contents served is right for processes that share it
					for j, v := range s.users {
						if v.proc == u.proc || u.offline {
							ok = ok || res[i] == refs[s.users[j].id]
						}
					}
					if u.offline {
						for _, id := range s.pre {
							ok = ok || res[i] == refs[id]
						}
					}
				}
				if !ok {
					return fmt.Sprintf("user %d asked for %s and got\n%s\ninstead of\n%s", i+1, u.id, short(res[i]), short(refs[u.id])), "bad"
				}
				out += " ok"
			}
			for p := range gets {
				for id := range gets[p] {
					g := gets[p][id].Load()
					out += fmt.Sprint(" ", g)
					if g > 1 && !failed && !anyCancel {
						return fmt.Sprintf("process %d fetched %c %d times", p, 'a'+id, g), "bad"
					}
				}
			}
			if failed || anyCancel {
				return "", out
			}
			// later: everything is cached
			var files []string
			must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
				must(err)
				if !d.IsDir() {
					files = append(files, strings.ReplaceAll(must1(filepath.Rel(dir, p)), host, "")+fmt.Sprint(hashStr(string(must1(os.ReadFile(p))))))
				}
				return nil
			}))
			if x := strings.Join(files, " "); seen[x] {
				return "", out
			} else {
				seen[x] = true
				t.State(key + x)
			}
			may := ""
			for i, u := range s.users {
				if u.offline {
					continue
				}
				late, err := c04do(k, dir, repo, c04user{id: u.id, proc: 3, offline: true}, context.Background(), &gets)
				if err != nil {
					return fmt.Sprintf("offline afterwards, what user %d got is not there: %v", i+1, err), "bad"
				}
				ok := late == refs[u.id]
				if !ok && k.pkg == nil {
					for _, v := range s.users {
						ok = ok || late == refs[v.id]
					}
				}
				if !ok {
					return fmt.Sprintf("offline afterwards %s is\n%s\ninstead of\n%s", u.id, short(late), short(refs[u.id])), "bad"
				}
				may += fmt.Sprint(hashStr(late) % 97)
			}
			return "", out + may
		}
		return r
	}
	t.schedules(key, s.String(ks), bound, part, parts, mk)
}

func runC04(c *C) {
	if !vsched.Available {
		c.Cap("no scheduler in this build")
		return
	}
	ks := c04kinds()
	c.Run(func(emit func(string, func(t *T))) {
		for _, s := range c04scens(ks) {
			parts := s.parts[0]
			if c.Thorough() {
				parts = s.parts[1]
			}
			if vrace.On {
				parts = 1
			}
			for p := 0; p < parts; p++ {
				emit(fmt.Sprintf("%s:%d", s.name, p), func(t *T) { c04case(t, ks, s, p, parts) })
			}
		}
	})
}
