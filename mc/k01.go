package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("K01", check{run: runK01, level: "model_checking",
		rule:        "every list of up to 3 key sources out of local files (contents, missing, a directory) and remote keys (good, error statuses, no answer, broken body), split over both arguments, over an empty or filled keyring on both filesystems; and every release list built from branches x architectures x up to 3 keys (validity, name spelling incl. escaped separators, answer) x requested releases; non-trivial when more than one source is involved",
		assumptions: []string{"key sources of one call have distinct base names", "the release list itself is trusted for which keys exist"}})
}

type k01src struct {
	name  string // base name
	loc   string // what is passed
	body  string
	ok    bool
	mkErr string
}

// keyBody is served for remote keys by kind.
func k01serve(kind, body string) (*http.Response, error) {
	mk := func(code int, b io.Reader) *http.Response {
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(b), ContentLength: -1}
	}
	switch kind {
	case "ok":
		return mk(200, strings.NewReader(body)), nil
	case "err":
		return nil, errBreak
	case "break":
		return mk(200, &chunkReader{b: []byte(body)[:len(body)/2], n: 5, end: io.ErrUnexpectedEOF}), nil
	default:
		var code int
		fmt.Sscan(kind, &code)
		return mk(code, strings.NewReader("<html>error page</html>")), nil
	}
}

func runK01(c *C) {
	big := strings.Repeat("key bytes ", 5000)
	c.Sample("InitKeyring([/dir/a.rsa.pub], [https://h.example/404/k.rsa.pub])")
	c.Run(func(emit func(string, func(*T))) {
		for _, fk := range []string{"mem", "dir"} {
			for _, pre := range []int{0, 1, 2} {
				fk, pre := fk, pre
				emit(fmt.Sprintf("init:%s:%d", fk, pre), func(t *T) { k01init(t, fk, pre, big) })
			}
		}
		names := []string{"a@x-1.rsa.pub", "b%20x-2.rsa.pub", "c.rsa.pub", "%2e%2e%2fescaped.pub", "..%2f..%2fworld", "d%2fe.rsa.pub", "%2e%2e", "f+g@x-3.rsa.pub", "h%2Bi.rsa.pub"}
		for ni, n := range names {
			ni, n := ni, n
			emit(fmt.Sprintf("releases:%d", ni), func(t *T) {
				for nj := ni; nj < len(names); nj++ {
					k01releases(t, ni, nj, n, names[nj])
				}
			})
		}
		emit("releases:list", k01list)
		emit("releases:near", k01near)
	})
}

func k01init(t *T, fk string, pre int, big string) {
	ctx := context.Background()
	dir := t.Dir()
	local := func(name, body string, ok bool) k01src {
		p := filepath.Join(dir, "src", name)
		if ok {
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(body), 0o600))
		}
		return k01src{name: name, loc: p, body: body, ok: ok}
	}
	must(os.MkdirAll(filepath.Join(dir, "src/adir.pub"), 0o755))
	remote := func(name, kind, body string) k01src {
		return k01src{name: name, loc: "https://keys.example/" + kind + "/" + name, body: body, ok: kind == "ok"}
	}
	pool := []k01src{
		local("l1.rsa.pub", "local one\n", true), local("l2@x.pub", "", true), local("missing.pub", "", false),
		local("l 3+x%2B?y=z#w.pub", "odd name", true), remote("r3+x.rsa.pub", "ok", "with a plus"),
		{name: "adir.pub", loc: filepath.Join(dir, "src/adir.pub")}, {name: "odd.pub", loc: "ftp://keys.example/odd.pub"},
		remote("r1.rsa.pub", "ok", "remote one"), remote("r2.pub", "ok", big), remote("r404.pub", "404", "x"), remote("r500.pub", "500", "x"),
		remote("r403.pub", "403", "x"), remote("rerr.pub", "err", "x"), remote("rbreak.pub", "break", big), remote("r304.pub", "304", "x"),
	}
	bodies := map[string]string{}
	for _, s := range pool {
		bodies[s.name] = s.body
	}
	client := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
		return k01serve(parts[0], bodies[parts[1]])
	})}
	n := 0
	max := t.Pick(2, 3)
	var rec func(sel []int)
	rec = func(sel []int) {
		if t.Expired() {
			return
		}
		for split := 0; split <= len(sel); split++ {
			t.Tick()
			t.Eval(len(sel) > 1)
			t.Trace(1)
			t.Trans(1)
			n++
			sub := fmt.Sprint("k", n)
			f := mkFS(t, fk, sub)
			have := map[string]string{}
			must(f.MkdirAll("etc/apk", 0o755))
			if pre > 0 {
				must(f.MkdirAll("etc/apk/keys", 0o755))
				must(f.WriteFile("etc/apk/keys/present.pub", []byte("present"), 0o644))
				have["present.pub"] = "present"
			}
			if pre > 1 {
				for _, i := range sel {
					old := strings.Repeat("older and longer content ", 4000)
					must(f.WriteFile("etc/apk/keys/"+pool[i].name, []byte(old), 0o644))
					have[pool[i].name] = old
				}
			}
			var a1, a2 []string
			ok := true
			var names []string
			for k, i := range sel {
				if k < split {
					a1 = append(a1, pool[i].loc)
				} else {
					a2 = append(a2, pool[i].loc)
				}
				ok = ok && pool[i].ok
				names = append(names, pool[i].name)
			}
			key := fmt.Sprintf("%s:%d:%v:%d", fk, pre, sel, split)
			t.State(key)
			a := newAPK(apk.WithFS(f))
			a.SetClient(client)
			err := a.InitKeyring(ctx, a1, a2)
			t.Outcome(fmt.Sprint(err == nil))
			if (err == nil) != ok {
				t.Fail(key, "on %s: InitKeyring(%v) error %v, want success %v", fk, names, err, ok)
			}
			got := k01read(f)
			for name, b := range got {
				found := false
				for _, i := range sel {
					if pool[i].name == name && pool[i].ok && pool[i].body == b {
						found = true
					}
				}
				if o, old := have[name]; !found && !(old && o == b && (!ok || name == "present.pub")) {
					t.Fail(key+":"+name, "on %s: after InitKeyring(%v) (%v) key %s holds %d bytes %q", fk, names, err, name, len(b), short(b))
				}
			}
			if err == nil && ok {
				for _, i := range sel {
					if b, there := got[pool[i].name]; !there || b != pool[i].body {
						t.Fail(key+":"+pool[i].name, "on %s: after InitKeyring(%v) key %s holds %q (present %v), want %q", fk, names, pool[i].name, short(b), there, short(pool[i].body))
					}
				}
			}
			for name := range have {
				if _, there := got[name]; !there {
					t.Fail(key+":gone:"+name, "on %s: InitKeyring(%v) removed key %s", fk, names, name)
				}
			}
			os.RemoveAll(filepath.Join(dir, sub))
		}
		if len(sel) == max {
			return
		}
		for i := range pool {
			used := false
			for _, j := range sel {
				used = used || i == j
			}
			if !used {
				rec(append(append([]int{}, sel...), i))
			}
		}
	}
	rec(nil)
}

func k01read(f apkfs.FullFS) map[string]string {
	out := map[string]string{}
	es, err := f.ReadDir("etc/apk/keys")
	if err != nil {
		return out
	}
	for _, e := range es {
		if e.IsDir() {
			out[e.Name()] = "<dir>"
			continue
		}
		b, err := f.ReadFile("etc/apk/keys/" + e.Name())
		if err != nil {
			out[e.Name()] = "<" + err.Error() + ">"
			continue
		}
		out[e.Name()] = string(b)
	}
	return out
}

// k01decoded is the base name a release-list URL stands for, "" when it is not a plain file name.
func k01decoded(n string) string {
	n = strings.ReplaceAll(n, "%20", "@")
	n = strings.ReplaceAll(strings.ReplaceAll(n, "%2e", "."), "%2f", "/")
	n = strings.ReplaceAll(n, "%2B", "+")
	return n
}

type k01key struct {
	name, body, kind, dep string
}

// k01past tells if a key deprecated on that day is not valid any more.
func k01past(day string) bool {
	return day != "" && day != "null" && day <= time.Now().UTC().Format("2006-01-02")
}

func k01releases(t *T, ni, nj int, n1, n2 string) {
	kinds := []string{"ok", "404", "500", "err", "break", "304", "302", "100"}
	day := func(n int) string { return time.Now().UTC().AddDate(0, 0, n).Format("2006-01-02") }
	// the last two are near enough to tell days from hours
	deps := []string{"", "null", "2001-02-03", "2999-01-01", day(0), day(2)}
	for _, k1 := range kinds {
		for _, k2 := range kinds {
			if n1 == n2 && k1 != k2 {
				continue
			}
			for _, d1 := range deps {
				for _, d2 := range deps {
					if (k1 != "ok" || k2 != "ok") && !t.Thorough() && (d1 == "null" || d2 == "null" || d1 == deps[4] || d2 == deps[4] || d1 == deps[5] || d2 == deps[5]) {
						continue
					}
					keys := []k01key{{n1, "body one of " + n1, k1, d1}}
					if n1 != n2 {
						keys = append(keys, k01key{n2, "body two", k2, d2})
					} else if d1 != d2 {
						continue
					}
					for pre := 0; pre < 2; pre++ {
						k01fetch(t, fmt.Sprintf("%d:%d:%s:%s:%s:%s:%d", ni, nj, k1, k2, d1, d2, pre), map[string]map[string][]k01key{"v3.18": {"x86_64": keys}}, []string{"v3.18"}, "x86_64", pre == 1, "ok")
					}
				}
			}
		}
	}
}

func k01list(t *T) {
	mk := func(n string) k01key { return k01key{n + ".rsa.pub", "body of " + n, "ok", ""} }
	rel := map[string]map[string][]k01key{
		"v3.17": {"x86_64": {mk("a"), mk("b")}, "aarch64": {mk("c")}},
		"v3.18": {"x86_64": {mk("a"), mk("d")}, "armv7": {}},
		"edge":  {"x86_64": {mk("e")}, "aarch64": {mk("f")}},
	}
	vs := []string{"v3.17", "v3.18", "edge", "v9.9"}
	for mask := 1; mask < 16; mask++ {
		var req []string
		for i, v := range vs {
			if mask>>i&1 == 1 {
				req = append(req, v)
			}
		}
		for _, arch := range []string{"x86_64", "aarch64", "armv7", "mips"} {
			for _, lk := range []string{"ok", "404", "500", "err", "break", "junk", "304", "300"} {
				for pre := 0; pre < 2; pre++ {
					k01fetch(t, fmt.Sprintf("list:%d:%s:%s:%d", mask, arch, lk, pre), rel, req, arch, pre == 1, lk)
				}
			}
		}
	}
}

// k01near: requests that are almost the name of a branch or architecture.
func k01near(t *T) {
	mk := func(n string) k01key { return k01key{n + ".rsa.pub", "body of " + n, "ok", ""} }
	rel := map[string]map[string][]k01key{
		"v3.17":  {"x86_64": {mk("a")}, "x86": {mk("b")}},
		"v3.18":  {"x86_64": {mk("c")}, "x86": {mk("d")}, "arm": {mk("g")}, "armv7": {mk("h")}},
		"v3.180": {"x86_64": {mk("e")}},
		"edge":   {"x86_64": {mk("f")}},
	}
	vs := []string{"v3.1", "v3", "3.18", "v3.180", "v3.18", "V3.18", "", "v3.18 ", "edge-x", "latest-stable", "v3_18", "main"}
	for i := range vs {
		for j := -1; j < len(vs); j++ {
			req := []string{vs[i]}
			if j >= 0 {
				req = append(req, vs[j])
			}
			for _, arch := range []string{"x86_64", "x86", "arm", "armv7", "x86_6"} {
				k01fetch(t, fmt.Sprintf("near:%d:%d:%s", i, j, arch), rel, req, arch, false, "ok")
			}
		}
	}
}

func k01fetch(t *T, key string, rel map[string]map[string][]k01key, req []string, arch string, pre bool, listKind string) {
	t.Tick()
	t.Eval(true)
	t.Trace(1)
	t.Trans(1)
	t.State(key)
	type jk struct {
		URL string  `json:"url"`
		Dep *string `json:"deprecated_since,omitempty"`
	}
	var branches []map[string]any
	byURL := map[string]k01key{}
	names := make([]string, 0)
	for b := range rel {
		names = append(names, b)
	}
	sort.Strings(names)
	want := map[string]string{}
	ok := true
	expectNone := true
	for _, b := range names {
		km := map[string][]jk{}
		for a, ks := range rel[b] {
			km[a] = []jk{}
			for _, k := range ks {
				j := jk{URL: "https://alpinelinux.org/keys/" + k.name}
				if k.dep != "" && k.dep != "null" {
					d := k.dep
					j.Dep = &d
				}
				km[a] = append(km[a], j)
				byURL["/keys/"+strings.ReplaceAll(k.name, "%20", "@")] = k
				requested := false
				for _, r := range req {
					requested = requested || r == b
				}
				if requested && a == arch && !k01past(k.dep) {
					expectNone = false
					if k.kind != "ok" {
						ok = false
					}
					d := k01decoded(k.name)
					if strings.Contains(d, "/") || d == ".." || d == "." {
						want[filepath.Base(d)] = "?" + k.body // if it is stored at all, then under its base name
						continue
					}
					want[d] = k.body
				}
			}
		}
		branches = append(branches, map[string]any{"rel_branch": b, "keys": km, "arches": []string{"x86_64"}, "git_branch": b})
	}
	js := must1(json.Marshal(map[string]any{"latest_stable": "v3.18", "architectures": []string{"x86_64"}, "release_branches": branches}))
	if listKind == "junk" {
		js = append([]byte("<html>"), js...)
	}
	client := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		if strings.HasSuffix(r.URL.Path, "releases.json") {
			k := listKind
			if k == "junk" {
				k = "ok"
			}
			return k01serve(k, string(js))
		}
		k, found := byURL[r.URL.EscapedPath()]
		if !found {
			return k01serve("404", "")
		}
		return k01serve(k.kind, k.body)
	})}
	f := apkfs.NewMemFS()
	before := map[string]string{}
	old := strings.Repeat("older, longer content ", 100)
	if pre {
		must(f.MkdirAll("etc/apk/keys", 0o755))
		for n := range want {
			if n != ".." && n != "." {
				must(f.WriteFile("etc/apk/keys/"+n, []byte(old), 0o644))
				before[n] = old
			}
		}
	}
	a := newAPK(apk.WithFS(f), apk.WithArch(arch))
	a.SetClient(client)
	err := a.InitDB(context.Background(), req...)
	t.Outcome(fmt.Sprint(err == nil))
	desc := fmt.Sprintf("release list %s, requested %v for %s", bytes.TrimSpace(js), req, arch)
	if len(desc) > 700 {
		desc = desc[:700]
	}
	odd := false
	for _, b := range want {
		odd = odd || strings.HasPrefix(b, "?")
	}
	good := ok && listKind == "ok"
	if err == nil && !good {
		t.Fail(key, "%s: no error (list %s)", desc, listKind)
	}
	if err != nil && good && !odd {
		t.Fail(key, "%s: %v", desc, err)
	}
	got := k01read(f)
	for n, b := range got {
		w, exp := want[n]
		if exp && (strings.TrimPrefix(w, "?") == b) && listKind == "ok" {
			continue
		}
		if o, was := before[n]; was && o == b && !(good && exp && !odd) {
			continue
		}
		t.Fail(key+":"+n, "%s: key %s holds %q (err %v)", desc, n, short(b), err)
	}
	if err == nil && good && listKind == "ok" && !expectNone {
		for n, b := range want {
			if strings.HasPrefix(b, "?") {
				continue
			}
			if got[n] != b {
				t.Fail(key+":"+n, "%s: key %s holds %q, want %q", desc, n, short(got[n]), b)
			}
		}
	}
	// nothing outside the keys directory: the rest of the tree is what initialisation without keys creates
	g := apkfs.NewMemFS()
	must(newAPK(apk.WithFS(g), apk.WithArch(arch)).InitDB(context.Background()))
	for _, fs2 := range [][2]apkfs.FullFS{{f, g}} {
		a, b := treeList(fs2[0], "etc/apk/keys"), treeList(fs2[1], "etc/apk/keys")
		if err == nil && a != b {
			t.Fail(key+":outside", "%s: outside the keys directory the tree is\n%s\nwant\n%s", desc, a, b)
		} else if err != nil {
			for _, l := range strings.Split(a, "\n") {
				if !strings.Contains("\n"+b+"\n", "\n"+l+"\n") {
					t.Fail(key+":outside", "%s: outside the keys directory there is %s", desc, l)
				}
			}
		}
	}
}

// treeList renders a tree (without what is below skip).
func treeList(f apkfs.FullFS, skip string) string {
	var out []string
	var rec func(p string)
	rec = func(p string) {
		es, err := f.ReadDir(p)
		if err != nil {
			out = append(out, p+": "+err.Error())
			return
		}
		for _, e := range es {
			q := strings.TrimPrefix(filepath.Join(p, e.Name()), "/")
			l := q + " " + e.Type().String()
			if !e.IsDir() && e.Type().IsRegular() {
				b, _ := f.ReadFile(q)
				l += fmt.Sprintf(" %q", short(string(b)))
			}
			out = append(out, l)
			if e.IsDir() && q != skip {
				rec(q)
			}
		}
	}
	rec(".")
	return strings.Join(out, "\n")
}
