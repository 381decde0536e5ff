package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("C02", check{run: runC02, level: "model_checking",
		rule: "all histories of index and key loads through one cache directory up to the depth, by the same and by later processes, with one server event before each load: nothing, new content and tag, new tag, an earlier state again, new content under the same tag, no tag, and failures of the HEAD or the GET request (status, no answer, broken body, no tag on GET, content changed between the two); all ordered pairs and triples of entity tags over a list of legal spellings; all ordered pairs of URLs over a list of near equal ones under one tag; " +
			"each body is compared with the set the protocol allows, an error is accepted only when a request of that load failed, and everything around the cache directory must stay untouched; non-trivial when the server state changed or failed at least once",
		assumptions: []string{"within one process a resource is validated once (documented), later loads may return what that process got", "URLs that differ only in the query or in percent-encoding name one resource", "a later process is represented by a spelling of the URL with the same cache entry"}})
	register("C03", check{run: runC03, level: "model_checking",
		rule: "all histories of online loads of C02 up to the depth, then leftovers of every kind planted in every directory of the cache (unfinished downloads newer than all entries, directories, foreign files), then an offline load by a later process of that resource, of a neighbour and of one never loaded; packages installed online completely, not at all or with a broken download and then installed offline; offline initialisation with key discovery; every request in offline mode is a violation; " +
			"non-trivial when the cache holds several entries or a leftover",
		assumptions: []string{"when an earlier state is served again, both it and the last one written count as most recent"}})
}

// c02state is what the server holds for one resource.
type c02state struct {
	body string
	tag  string // raw header value, "" for none
}

type c02srv struct {
	now   map[string]c02state // by host/path
	after *c02state           // if set: served from the first GET on (changed after HEAD)
	headF string              // "", "500", "405", "err"
	getF  string              // "", "500", "err", "break", "notag"

	served  []string // complete bodies served by GET in this load
	headTag string
	failed  bool
	reqs    int
	gets    map[string][]string // per resource and tag: bodies served by GET
}

func c02name(r *http.Request) string {
	s := ""
	if r.URL.User != nil {
		s = r.URL.User.Username() + "@"
	}
	return r.URL.Scheme + "://" + s + r.URL.Host + path.Clean(r.URL.Path)
}

func (s *c02srv) client() *http.Client {
	return &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		s.reqs++
		name := c02name(r)
		st, ok := s.now[name]
		if !ok {
			return respond(404, nil, nil), nil
		}
		hdr := func(st c02state) map[string]string {
			if st.tag == "" {
				return nil
			}
			return map[string]string{"Etag": st.tag}
		}
		if r.Method == http.MethodHead {
			switch s.headF {
			case "500":
				return respond(500, nil, nil), nil
			case "405":
				return respond(405, nil, nil), nil
			case "err":
				s.failed = true
				return nil, errBreak
			}
			s.headTag = st.tag
			h := respond(200, nil, hdr(st))
			h.ContentLength = int64(len(st.body))
			return h, nil
		}
		if s.after != nil {
			st = *s.after
			s.now[name] = st
		}
		switch s.getF {
		case "500":
			s.failed = true
			return respond(500, []byte("oops"), hdr(st)), nil
		case "err":
			s.failed = true
			return nil, errBreak
		case "break":
			s.failed = true
			res := respond(200, []byte(st.body), hdr(st))
			res.Body = &fakeBody{data: []byte(st.body)[:len(st.body)/2], end: io.ErrUnexpectedEOF, chunk: 7}
			return res, nil
		case "notag":
			s.served = append(s.served, st.body)
			return respond(200, []byte(st.body), nil), nil
		}
		s.served = append(s.served, st.body)
		if st.tag != "" {
			s.gets[name+" "+st.tag] = append(s.gets[name+" "+st.tag], st.body)
		}
		return respond(200, []byte(st.body), hdr(st)), nil
	})}
}

// c02index makes an index that holds one package of the given name.
func c02index(name string) string {
	return string(readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Packages: []*apk.Package{{Name: name, Version: "1", Arch: "x86_64", Checksum: make([]byte, 20)}}}))))
}

type c02res struct {
	kind string // key, index
	url  string // key: URL, index: repository URL
}

func (r c02res) name() string {
	if r.kind == "index" {
		return r.url + "/x86_64/APKINDEX.tar.gz"
	}
	return r.url
}

// body turns the content id into a body, and back.
func (r c02res) body(id string) string {
	if r.kind == "index" {
		return c02index(id)
	}
	return "content " + id
}

// c02load loads the resource as process proc and returns the content id.
func c02load(t *T, dir string, offline bool, cl *http.Client, r c02res, proc int) (string, error) {
	f := apkfs.NewMemFS()
	must(f.MkdirAll("etc/apk/keys", 0o755))
	must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	opts := []apk.Option{apk.WithFS(f)}
	if dir != "" {
		opts = append(opts, apk.WithCache(dir, offline))
	}
	a := newAPK(opts...)
	a.SetClient(cl)
	if r.kind == "key" {
		u := r.url
		if proc > 0 {
			u += fmt.Sprintf("?p=%d", proc)
		}
		if err := a.InitKeyring(context.Background(), []string{u}, nil); err != nil {
			return "", err
		}
		b, err := f.ReadFile("etc/apk/keys/" + filepath.Base(u))
		if err != nil {
			return "", fmt.Errorf("after InitKeyring: %w", err)
		}
		s := string(b)
		if !strings.HasPrefix(s, "content ") {
			return "damaged: " + s, nil
		}
		return s[len("content "):], nil
	}
	must(f.WriteFile("etc/apk/repositories", []byte(r.url+strings.Repeat("/.", proc)+"\n"), 0o644))
	ix, err := a.GetRepositoryIndexes(context.Background(), true)
	if err != nil {
		return "", err
	}
	if len(ix) != 1 || len(ix[0].Packages()) != 1 {
		return fmt.Sprintf("damaged: %d indexes", len(ix)), nil
	}
	return ix[0].Packages()[0].Name, nil
}

// events before a load
const (
	evNone = iota
	evNew
	evTag
	evBack
	evSameTag
	evNoTag
	evHead500
	evHead405
	evHeadErr
	evGet500
	evGetErr
	evBreak
	evGetNoTag
	evRace
	evCount
)

var evNames = []string{"unchanged", "new content", "new tag", "first state again", "new content, same tag", "new content, no tag", "HEAD 500", "HEAD 405", "HEAD fails", "new content, GET 500", "new content, GET fails", "new content, GET breaks off", "new content, GET without tag", "content changes after HEAD"}

type c02hist struct {
	t     *T
	key   string
	dir   string
	box   string
	srv   *c02srv
	res   c02res
	first c02state
	n     int
	desc  string
	got   map[int]map[string]bool // per process: content it had
	every []string                // contents cached (written), oldest first
	base  time.Time
	seen  map[string]time.Time
	bad   bool
	tick  time.Duration // between two writes, a minute by default
}

func newC02(t *T, key string, res c02res) *c02hist {
	box := filepath.Join(t.Dir(), "box-"+hx(key))
	h := &c02hist{t: t, key: key, box: box, dir: filepath.Join(box, "top", "cache"), res: res, got: map[int]map[string]bool{}, base: time.Unix(1700000000, 0), seen: map[string]time.Time{}}
	must(os.MkdirAll(h.dir, 0o755))
	must(os.WriteFile(filepath.Join(box, "top", "sibling"), []byte("s"), 0o644))
	h.srv = &c02srv{now: map[string]c02state{}, gets: map[string][]string{}}
	h.first = c02state{res.body("c0"), `"t0"`}
	h.srv.now[res.name()] = h.first
	return h
}

func (h *c02hist) done() { must(os.RemoveAll(h.box)) }

// step applies one event and loads as process proc.
func (h *c02hist) step(ev, proc int) {
	if h.bad {
		return
	}
	h.n++
	s := h.srv
	s.after, s.headF, s.getF, s.served, s.headTag, s.failed = nil, "", "", nil, "", false
	nm := h.res.name()
	cur := s.now[nm]
	fresh := c02state{h.res.body(fmt.Sprintf("c%d", h.n)), fmt.Sprintf(`"t%d"`, h.n)}
	switch ev {
	case evNew:
		s.now[nm] = fresh
	case evTag:
		s.now[nm] = c02state{cur.body, fresh.tag}
	case evBack:
		s.now[nm] = h.first
	case evSameTag:
		s.now[nm] = c02state{fresh.body, cur.tag}
	case evNoTag:
		s.now[nm] = c02state{fresh.body, ""}
	case evHead500:
		s.headF = "500"
	case evHead405:
		s.headF = "405"
	case evHeadErr:
		s.headF = "err"
	case evGet500:
		s.now[nm], s.getF = fresh, "500"
	case evGetErr:
		s.now[nm], s.getF = fresh, "err"
	case evBreak:
		s.now[nm], s.getF = fresh, "break"
	case evGetNoTag:
		s.now[nm], s.getF = fresh, "notag"
	case evRace:
		s.after = &fresh
	}
	prior := map[string][]string{}
	for k, v := range s.gets {
		prior[k] = append([]string{}, v...)
	}
	h.desc += fmt.Sprintf("[%s, load by process %d] ", evNames[ev], proc)
	h.load(proc, prior)
	h.stamp()
}

func (h *c02hist) load(proc int, prior map[string][]string) {
	s := h.srv
	got, err := c02load(h.t, h.dir, false, s.client(), h.res, proc)
	h.t.Trans(1)
	had := h.got[proc]
	if err != nil {
		if !s.failed {
			h.fail("%sfails although no request failed: %v", h.desc, err)
		}
		if errors.Is(err, fs.ErrPermission) {
			h.fail("%s: %v", h.desc, err)
		}
		h.t.Outcome("error")
		return
	}
	ok := map[string]bool{}
	for _, b := range s.served {
		ok[b] = true
	}
	for _, b := range prior[h.res.name()+" "+s.headTag] {
		ok[b] = true
	}
	for b := range had {
		ok[b] = true
	}
	b := h.res.body(got)
	if !ok[b] {
		h.fail("%sgives %q, which is neither what the server serves nor what it served under this tag", h.desc, got)
		return
	}
	if had == nil {
		had = map[string]bool{}
		h.got[proc] = had
	}
	had[b] = true
	h.t.Outcome("loaded")
}

func (h *c02hist) fail(f string, args ...any) {
	h.bad = true
	h.t.Fail(h.key, h.res.kind+": "+f, args...)
}

// stamp gives what was written in this step a modification time of its own, and checks the surroundings.
func (h *c02hist) stamp() {
	tick := h.tick
	if tick == 0 {
		tick = time.Minute
	}
	at := h.base.Add(time.Duration(h.n) * tick)
	must(filepath.WalkDir(h.box, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel := must1(filepath.Rel(h.box, p))
		switch {
		case rel == "." || rel == "top" || rel == "top/cache" || rel == "top/sibling":
			return nil
		case !strings.HasPrefix(rel, "top/cache/"):
			h.fail("%swrites %s, outside the cache directory top/cache", h.desc, rel)
			return nil
		}
		if d.IsDir() {
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		if m, ok := h.seen[p]; !ok || !m.Equal(fi.ModTime()) {
			if !ok {
				h.every = append(h.every, p)
			}
			must(os.Chtimes(p, at, at))
			h.seen[p] = at
		}
		return nil
	}))
}

var c02tags = []string{`"abc"`, `W/"abc"`, `"ABC"`, `"abd"`, `"a/b"`, `"a%2Fb"`, `"a%252Fb"`, `"../abc"`, `"../../../abc"`, `"/abc"`, `"."`, `".."`, `"a b"`, `"a+b"`, `"abc.tmp"`, `"abc.tar.gz"`, `"abc.etag"`, `"*"`, `"abc,def"`, "\"\xff\xfe\"",
	`"` + strings.Repeat("x", 300) + `"`, `"` + strings.Repeat("x", 300) + `y"`, `"` + strings.Repeat("x", 180) + `"`, `"` + strings.Repeat("/", 90) + `"`, `"a\b"`, `"a?b"`, `"a&b=c"`, `"abc;gzip"`, `"2d-432a5e4a73a80"`, `"abc="`, `"abc:1"`, `"abc:2"`, `"abc#1"`, `"abc;2"`, `"1.2"`, `"1.3"`, `"~abc"`, `"abc'"`, `"abc''"`}

func c02urls(kind, host string) []string {
	u := []string{"https://" + host + "/a", "http://" + host + "/a", "https://" + host + ":8443/a", "https://" + host + "/b", "https://" + host + "/a/a", "https://" + host + "/a/b", "https://" + host + "/b/a", "https://x" + host + "/a",
		"https://" + host + "x/a", "https://" + host, "https://" + host + "/A", "https://" + host + "/a%20b", "https://" + host + "/a+b", "https://" + host + "/a_b", "https://" + host + "/a/x86_64", "https://" + host + "/x86_64/a"}
	if kind == "key" {
		for i := range u {
			u[i] += "/keys/k.rsa.pub"
		}
		u = append(u, "https://"+host+"/a/keys/k2.rsa.pub", "https://"+host+"/a/keys/k.rsa", "https://"+host+"/a/k.rsa.pub", "https://"+host+"/a/keys2/k.rsa.pub", "https://"+host+"/k.rsa.pub", "https://"+host+"/a/keys/k.rsa.pub/k.rsa.pub",
			"https://"+host+"/a/keys/APKINDEX.tar.gz", "https://"+host+"/a/keys/xAPKINDEX.tar.gz", "https://"+host+"/a/keys/APKINDEX", "https://"+host+"/a/Keys/k.rsa.pub", "https://"+host+"/a/keys/K.rsa.pub")
	}
	sort.Strings(u)
	return u
}

func runC02(c *C) {
	c.Sample("key: [unchanged, load by process 0] [new content, GET breaks off, load by process 1] [unchanged, load by process 1]")
	depth := c.Pick(3, 4)
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range []string{"key", "index"} {
			kind := kind
			resFor := func(key string) c02res {
				host := "c02-" + hx(key) + ".example"
				if kind == "key" {
					return c02res{kind, "https://" + host + "/a/keys/k.rsa.pub"}
				}
				return c02res{kind, "https://" + host + "/a"}
			}
			for e0 := 0; e0 < evCount; e0++ {
				for e1 := 0; e1 < evCount; e1++ {
					e0, e1 := e0, e1
					emit(fmt.Sprintf("hist:%s:%d:%d", kind, e0, e1), func(t *T) {
						seq := make([]int, depth)
						prc := make([]int, depth)
						seq[0], seq[1] = e0, e1
						var rec func(i int)
						rec = func(i int) {
							if i == depth {
								t.Tick()
								key := fmt.Sprintf("hist:%s:%v:%v", kind, seq, prc)
								h := newC02(t, key, resFor(key))
								defer h.done()
								nt := false
								for k := range seq {
									h.step(seq[k], prc[k])
									nt = nt || seq[k] != evNone
								}
								t.Eval(nt)
								t.State(key)
								t.Trace(1)
								return
							}
							hi := evCount
							lo := 0
							if i == 1 {
								lo, hi = e1, e1+1
							}
							for ev := lo; ev < hi; ev++ {
								for d := 0; d < 2; d++ {
									seq[i], prc[i] = ev, prc[i-1]+d
									rec(i + 1)
								}
							}
						}
						rec(1)
					})
				}
			}
			for i, t1 := range c02tags {
				t1, i := t1, i
				emit(fmt.Sprintf("tags:%s:%d", kind, i), func(t *T) {
					for j, t2 := range c02tags {
						if i == j {
							continue
						}
						t.Tick()
						key := fmt.Sprintf("tags:%s:%d:%d", kind, i, j)
						h := newC02(t, key, resFor(key))
						nm := h.res.name()
						for p, st := range []c02state{{h.res.body("c1"), t1}, {h.res.body("c2"), t2}, {h.res.body("c1"), t1}, {h.res.body("c2"), t2}, {h.res.body("c3"), t1 + "z"}} {
							h.desc += fmt.Sprintf("[content %d with tag %s, load] ", p+1, short(st.tag))
							prior := map[string][]string{}
							for k, v := range h.srv.gets {
								prior[k] = append([]string{}, v...)
							}
							h.n++
							h.srv.served, h.srv.headTag = nil, ""
							h.srv.now[nm] = st
							if !h.bad {
								h.load(p, prior)
								h.stamp()
							}
						}
						h.done()
						t.Eval(true)
						t.State(key)
						t.Trace(1)
					}
				})
			}
			n := len(c02urls(kind, "h"))
			for i := 0; i < n; i++ {
				i := i
				emit(fmt.Sprintf("urls:%s:%d", kind, i), func(t *T) {
					for j := 0; j < n; j++ {
						if i == j {
							continue
						}
						t.Tick()
						key := fmt.Sprintf("urls:%s:%d:%d", kind, i, j)
						us := c02urls(kind, "c02u-"+hx(key)+".example")
						ra, rb := c02res{kind, us[i]}, c02res{kind, us[j]}
						h := newC02(t, key, ra)
						h.srv.now = map[string]c02state{}
						for _, u := range us {
							r := c02res{kind, u}
							h.srv.now[r.nameRaw()] = c02state{r.body("other"), `"same"`}
						}
						h.srv.now[ra.nameRaw()] = c02state{ra.body("ca"), `"same"`}
						h.srv.now[rb.nameRaw()] = c02state{rb.body("cb"), `"same"`}
						cl := h.srv.client()
						for _, s := range []struct {
							r       c02res
							want    string
							proc    int
							offline bool
						}{{ra, "ca", 0, false}, {rb, "cb", 0, false}, {ra, "ca", 1, false}, {rb, "cb", 1, false}, {ra, "ca", 2, true}, {rb, "cb", 2, true}} {
							got, err := c02load(t, h.dir, s.offline, cl, s.r, s.proc)
							t.Trans(1)
							if err != nil || got != s.want {
								t.Fail(key, "%s %s and %s under one tag: process %d (offline %v) gets %q (%v) for %s and not %q", kind, ra.url, rb.url, s.proc, s.offline, got, err, s.r.url, s.want)
								break
							}
						}
						h.stamp()
						h.done()
						t.Eval(true)
						t.State(key)
						t.Trace(1)
					}
				})
			}
		}
	})
}

// nameRaw is the name under which the server sees the resource.
func (r c02res) nameRaw() string {
	req := must1(http.NewRequest("GET", r.name(), nil))
	return c02name(req)
}

func runC03(c *C) {
	c.Sample("key: [unchanged, load by process 0] [new content, GET breaks off, load by process 1], a newer unfinished download planted, offline load by process 2")
	depth := c.Pick(3, 4)
	evs := []int{evNone, evNew, evTag, evBack, evNoTag, evHead500, evGet500, evGetErr, evBreak, evGetNoTag, evRace}
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range []string{"key", "index"} {
			kind := kind
			for d := 0; d <= depth; d++ {
				total := 1
				for i := 0; i < d; i++ {
					total *= len(evs)
				}
				d := d
				const blk = 40
				for lo := 0; lo < total; lo += blk {
					lo := lo
					emit(fmt.Sprintf("hist:%s:%d:%d", kind, d, lo), func(t *T) {
						for x := lo; x < min(total, lo+blk); x++ {
							for plant := 0; plant < 3; plant++ {
								t.Tick()
								c03hist(t, fmt.Sprintf("hist:%s:%d:%d:%d", kind, d, x, plant), kind, evs, d, x, plant)
							}
						}
					})
				}
			}
		}
		emit("packages", c03packages)
		emit("unreadable", c03unreadable)
		emit("init", c03init)
	})
}

func c03net(t *T, reqs *[]string) *http.Client {
	return &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		*reqs = append(*reqs, r.Method+" "+r.URL.String())
		return nil, errors.New("no network")
	})}
}

func c03hist(t *T, key, kind string, evs []int, d, x, plant int) {
	host := "c03-" + hx(key) + ".example"
	res, near, never := c02res{kind, "https://" + host + "/a"}, c02res{kind, "https://" + host + "/b"}, c02res{kind, "https://" + host + "/c"}
	if kind == "key" {
		res.url += "/keys/k.rsa.pub"
		near.url = "https://" + host + "/a/keys/k2.rsa.pub" // same directory
		never.url = "https://" + host + "/a/keys/k3.rsa.pub"
	}
	h := newC02(t, key, res)
	if plant == 1 {
		h.tick = time.Millisecond
	}
	defer h.done()
	// contents cached, oldest first; the tag tells whether a load stores something
	type ent struct{ tag, id string }
	var stored []ent
	last := ""
	valid := func() {
		s := h.srv
		tag := s.now[res.name()].tag
		if s.headF != "" || s.failed {
			return
		}
		if s.headTag == "" {
			return
		}
		for _, e := range stored {
			if e.tag == s.headTag {
				last = e.id
				return
			}
		}
		if s.getF != "" || len(s.served) == 0 || tag == "" {
			return
		}
		id := ""
		for i := 0; i <= h.n; i++ {
			if res.body(fmt.Sprintf("c%d", i)) == s.served[0] {
				id = fmt.Sprintf("c%d", i)
			}
		}
		for _, e := range stored {
			if e.tag == tag {
				last = e.id
				// the entry is written again
				stored = append(stored, ent{tag, id})
				return
			}
		}
		stored = append(stored, ent{tag, id})
		last = id
	}
	for i := 0; i < d; i++ {
		h.step(evs[x%len(evs)], i)
		x /= len(evs)
		valid()
	}
	if h.bad {
		return
	}
	// a neighbour with an older entry
	h.srv.headF, h.srv.getF, h.srv.after, h.srv.failed = "", "", nil, false
	h.srv.now[near.name()] = c02state{near.body("near"), `"t0"`}
	h.n++
	got, err := c02load(t, h.dir, false, h.srv.client(), near, 0)
	if err != nil || got != "near" {
		t.Fail(key, "%s: loading a neighbour gives %q, %v", h.desc, got, err)
		return
	}
	h.stamp()
	what := "no leftovers"
	if plant > 0 {
		what = "a newer unfinished download, directory and foreign file in every directory"
		var dirs []string
		must(filepath.WalkDir(h.dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				dirs = append(dirs, p)
			}
			return err
		}))
		late := h.base.Add(time.Hour)
		body := []byte(res.body("leftover"))
		for _, p := range dirs {
			l := filepath.Join(p, "123456.tmp")
			if plant == 2 {
				must(os.WriteFile(l, body[:len(body)/2], 0o600))
				must(os.Mkdir(filepath.Join(p, "expand-apk123"), 0o755))
				must(os.WriteFile(filepath.Join(p, "expand-apk123", "x.tar.gz"), body[:5], 0o600))
			} else {
				must(os.WriteFile(l, body, 0o600))
			}
			must(os.Chtimes(l, late, late))
		}
	}
	var reqs []string
	cl := c03net(t, &reqs)
	got, err = c02load(t, h.dir, true, cl, res, 50)
	t.Trans(1)
	var want []string
	if len(stored) > 0 {
		want = []string{stored[len(stored)-1].id, last}
	}
	switch {
	case len(reqs) > 0:
		t.Fail(key, "%s %s%s: offline load sends %v", kind, h.desc, what, reqs)
	case len(want) == 0 && err == nil:
		t.Fail(key, "%s %s%s: offline load gives %q although nothing is cached for the URL", kind, h.desc, what, got)
	case len(want) > 0 && err != nil:
		t.Fail(key, "%s %s%s: offline load fails although %q is cached: %v", kind, h.desc, what, want[0], err)
	case len(want) > 0 && got != want[0] && got != want[1]:
		t.Fail(key, "%s %s%s: offline load gives %q and not %q", kind, h.desc, what, got, want[0])
	}
	got, err = c02load(t, h.dir, true, cl, near, 50)
	if len(reqs) > 0 || err != nil || got != "near" {
		t.Fail(key, "%s %s%s: offline load of the neighbour gives %q, %v, requests %v", kind, h.desc, what, got, err, reqs)
	}
	got, err = c02load(t, h.dir, true, cl, never, 50)
	if len(reqs) > 0 || err == nil {
		t.Fail(key, "%s %s%s: offline load of a resource never loaded gives %q, %v, requests %v", kind, h.desc, what, got, err, reqs)
	}
	t.Eval(len(stored) > 1 || plant > 0)
	t.State(key)
	t.Trace(1)
}

// c03packages: packages got online in several ways, then asked for offline.
func c03packages(t *T) {
	p := e03mk(true)
	broken := func(b []byte) *http.Response {
		res := respond(200, b, nil)
		res.Body = &fakeBody{data: b[:len(b)*2/3], end: io.ErrUnexpectedEOF, chunk: 100}
		return res
	}
	hows := []string{"never", "installed", "broken", "404", "wrong", "broken+installed", "installed+wrong", "prepopulated", "tarless"}
	for _, how := range hows {
		for _, sum := range []string{"A", "B"} {
			for _, plant := range []bool{false, true} {
				for same := 0; same < 2; same++ {
					key := fmt.Sprintf("pkg:%s:%s:%v:%d", how, sum, plant, same)
					dir := filepath.Join(t.Dir(), "c-"+hx(key))
					must(os.MkdirAll(dir, 0o755))
					u := "https://c03p-" + hx(key) + ".example/r/x86_64/p-1-r0.apk"
					proc := 0
					online := func(mode string) {
						f := e03fs()
						a := newAPK(apk.WithFS(f), apk.WithCache(dir, false))
						a.SetClient(&http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
							switch mode {
							case "broken":
								if r.Header.Get("Range") != "" {
									return nil, errBreak
								}
								return broken(p.a.all), nil
							case "404":
								return respond(404, nil, nil), nil
							case "wrong":
								return respond(200, append(append([]byte{}, p.a.ctl...), p.b.dat...), nil), nil
							}
							return respond(200, p.a.all, nil), nil
						})})
						err := a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{fakePkg{"p", fmt.Sprintf("%s?p=%d", u, proc), p.a.q1}})
						if (err == nil) != (mode == "installed" || how == "installed+wrong") {
							t.Fail(key, "online %s: err=%v", mode, err)
						}
						proc++
					}
					cached := false
					switch how {
					case "never":
					case "prepopulated", "tarless":
						online("installed")
						cached = true
						n := 0
						must(filepath.WalkDir(dir, func(q string, d fs.DirEntry, err error) error {
							if err == nil && strings.HasSuffix(q, ".dat.tar") {
								n++
								return os.Remove(q)
							}
							return err
						}))
						if how == "prepopulated" {
							must(os.RemoveAll(dir))
							sub := filepath.Join(dir, strings.ReplaceAll(strings.ReplaceAll(strings.TrimSuffix(u, "/x86_64/p-1-r0.apk"), ":", "%3A"), "/", "%2F"), "x86_64")
							must(os.MkdirAll(sub, 0o755))
							must(os.WriteFile(sub+"/p-1-r0.apk", p.a.all, 0o644))
						}
					default:
						for _, m := range strings.Split(how, "+") {
							online(m)
							cached = cached || m == "installed"
						}
					}
					if plant {
						must(filepath.WalkDir(dir, func(q string, d fs.DirEntry, err error) error {
							if err == nil && d.IsDir() && !strings.HasPrefix(d.Name(), "expand-") {
								must(os.MkdirAll(q+"/expand-apk99", 0o755))
								must(os.WriteFile(q+"/expand-apk99/1.tar.gz", p.a.ctl[:20], 0o644))
								must(os.WriteFile(q+"/77.tmp", p.a.dat[:20], 0o644))
							}
							return err
						}))
					}
					var reqs []string
					f := e03fs()
					before := fsDump(f)
					a := newAPK(apk.WithFS(f), apk.WithCache(dir, true))
					a.SetClient(c03net(t, &reqs))
					w := p.a
					if sum == "B" {
						w = p.b
					}
					if same == 1 {
						proc = max(proc-1, 0)
					}
					err := a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{fakePkg{"p", fmt.Sprintf("%s?p=%d", u, proc), w.q1}})
					should := cached && sum == "A"
					if how == "prepopulated" && same == 1 {
						should = err == nil // the entry went away under a process that knew it
					}
					switch {
					case len(reqs) > 0:
						t.Fail(key, "package %s online, then offline: sends %v", how, reqs)
					case (err == nil) != should:
						t.Fail(key, "package A %s online, then %s offline (leftovers %v): err=%v", how, sum, plant, err)
					case err == nil:
						if bad := e03want(f, p.a); bad != "" {
							t.Fail(key, "package %s online, then offline: %s", how, bad)
						}
					case fsDump(f) != before:
						t.Fail(key, "package %s online, then offline: failure (%v) changes the filesystem", how, err)
					}
					t.Eval(how != "never" || plant)
					t.State(key)
					t.Trans(1)
					t.Trace(1)
				}
			}
		}
	}
}

// c03init: initialising a database and its keys with an offline cache.
func c03init(t *T) {
	for _, vers := range [][]string{nil, {"v3.18"}, {"latest-stable"}, {"v3.17", "v3.18"}} {
		for _, arch := range []string{"x86_64", "aarch64"} {
			key := fmt.Sprintf("init:%v:%s", vers, arch)
			dir := filepath.Join(t.Dir(), "i-"+hx(key))
			must(os.MkdirAll(dir, 0o755))
			var reqs []string
			a := newAPK(apk.WithFS(apkfs.NewMemFS()), apk.WithArch(arch), apk.WithCache(dir, true), apk.WithIgnoreMknodErrors(true))
			a.SetClient(c03net(t, &reqs))
			err := a.InitDB(context.Background(), vers...)
			if len(reqs) > 0 {
				t.Fail(key, "InitDB(%v) for %s with an empty offline cache sends %v", vers, arch, reqs)
			} else if len(vers) == 0 && err != nil {
				t.Fail(key, "InitDB without versions fails: %v", err)
			}
			t.Eval(len(vers) > 0)
			t.State(key)
			t.Trans(1)
			t.Trace(1)
		}
	}
}

// c03unreadable: a cache in which something cannot be read, or is of the wrong kind, is no reason to ask the network.
func c03unreadable(t *T) {
	p := e03mk(true)
	for _, kind := range []string{"key", "index", "package", "whole package"} {
		for at := 0; at < 4; at++ {
			for _, how := range []string{"mode 0", "file", "directory", "dangling link", "link loop", "removed"} {
				key := fmt.Sprintf("unreadable:%s:%d:%s", kind, at, how)
				dir := filepath.Join(t.Dir(), "u-"+hx(key))
				must(os.MkdirAll(dir, 0o755))
				host := "https://c03x-" + hx(key) + ".example"
				load := func(proc int, offline bool, cl *http.Client) error {
					if strings.HasSuffix(kind, "package") {
						a := newAPK(apk.WithFS(e03fs()), apk.WithCache(dir, offline))
						a.SetClient(cl)
						pkg := fakePkg{"p", fmt.Sprintf("%s/r/x86_64/p-1-r0.apk?p=%d", host, proc), p.a.q1}
						if offline {
							if rc, err := a.FetchPackage(context.Background(), pkg); err == nil {
								_, _ = io.ReadAll(rc)
								rc.Close()
							}
						}
						return a.InstallPackages(context.Background(), nil, []apk.InstallablePackage{pkg})
					}
					r := c02res{kind, host + "/a"}
					if kind == "key" {
						r.url += "/keys/k.rsa.pub"
					}
					_, err := c02load(t, dir, offline, cl, r, proc)
					return err
				}
				body := p.a.all
				switch kind {
				case "key":
					body = []byte("content c")
				case "index":
					body = []byte(c02index("c"))
				}
				err := load(0, false, &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
					return respond(200, body, map[string]string{"Etag": `"t"`}), nil
				})})
				if err != nil {
					t.Fail(key, "%s: online load fails: %v", kind, err)
					continue
				}
				if kind == "whole package" {
					arch := filepath.Join(dir, must1(os.ReadDir(dir))[0].Name(), "x86_64")
					must(os.RemoveAll(filepath.Join(arch, "p-1-r0")))
					must(os.WriteFile(filepath.Join(arch, "p-1-r0.apk"), body, 0o644))
				}
				// the at-th level of the way to the entry, 0 is the cache directory itself
				victim := dir
				for i := 0; i < at; i++ {
					es := must1(os.ReadDir(victim))
					if len(es) == 0 {
						break
					}
					victim = filepath.Join(victim, es[0].Name())
					if fi := must1(os.Lstat(victim)); !fi.IsDir() {
						break
					}
				}
				if how == "mode 0" {
					must(os.Chmod(victim, 0))
				} else {
					must(os.RemoveAll(victim))
					switch how {
					case "file":
						must(os.WriteFile(victim, nil, 0o644))
					case "directory":
						must(os.Mkdir(victim, 0o755))
					case "dangling link":
						must(os.Symlink("nowhere", victim))
					case "link loop":
						must(os.Symlink(filepath.Base(victim), victim))
					}
				}
				var reqs []string
				err = load(1, true, c03net(t, &reqs))
				if len(reqs) > 0 {
					t.Fail(key, "%s with a damaged entry (level %d of its place: %s): offline load sends %v", kind, at, how, reqs)
				}
				t.Outcome(fmt.Sprint(err == nil))
				chmodTree(dir)
				t.Eval(true)
				t.State(key)
				t.Trans(1)
				t.Trace(1)
			}
		}
	}
}
