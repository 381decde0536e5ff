package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("U01", check{run: runU01, level: "model_checking",
		rule: "all combinations of requester (index, key, package, whole world; with and without cache, first and later process), credentials configured (user and password, user only, password only, for the host, for near equal hosts, for both), credentials in the URL (plain, with special characters, without password, absent), URL host (the host, other port, prefix, suffix, sub- and superdomain), redirect (none, same host, other host, near equal host, over two hops, and back) and server answer (good, refusal, failure, broken body followed by a range request, damaged content); every request that leaves is inspected, and every error message and source for the password in plain, escaped and header form; " +
			"non-trivial when a request goes to a host other than the configured one or the answer is not good",
		assumptions: []string{"forwarding to a subdomain or another port of the same host name on redirect is the http client's documented decision", "with credentials both configured and in the URL either may be sent"}})
}

type u01req struct{ method, scheme, host, auth, user, referer, path string }

type u01creds struct{ user, pass string }

func (c u01creds) header() string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(c.user+":"+c.pass))
}

type u01conf struct {
	name string
	m    map[string]u01creds
}

func runU01(c *C) {
	c.Sample("package with cache, credentials for repo.example only, URL host xrepo.example, redirect to repo.example.evil, 404")
	const h = "repo.example"
	cr := u01creds{"aladdin", "open:ses/ame%1"}
	near := u01creds{"nearuser", "nearsecret"}
	confs := []u01conf{
		{"none", nil},
		{"host", map[string]u01creds{h: cr}},
		{"user only", map[string]u01creds{h: {"aladdintoken", ""}}},
		{"password only", map[string]u01creds{h: {"", "onlypassword"}}},
		{"host and near", map[string]u01creds{h: cr, "x" + h: near, h + ".evil": {"e", "evilsecret"}, h + ":8443": {"port", "portsecret"}}},
		{"near only", map[string]u01creds{"x" + h: near, "www." + h: near, "sub." + h: near, "example": near, h + ".evil": near, ".example": near, "": near, "https://" + h: near}},
		{"empty", map[string]u01creds{h: {}}},
	}
	hosts := []string{h, "www." + h, h + ":8443", "x" + h, h + ".evil", "sub." + h, "example", "REPO.example.org"}
	urlCreds := []*u01creds{nil, {"inurl", "urlpass"}, {"inurl", "p@ss/w%rd:+ x"}, {"inurl", ""}}
	kinds := []string{"index", "index+cache", "key", "key+cache", "package", "package+cache", "world", "world+cache"}
	redirs := []string{"", "other", "same", "near", "two", "back"}
	answers := []string{"good", "401", "404", "500", "err", "broken", "junk", "norange", "204", "206"}
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range kinds {
			for ci, conf := range confs {
				for hi, host := range hosts {
					kind, ci, conf, hi, host := kind, ci, conf, hi, host
					emit(fmt.Sprintf("%s:%d:%d", kind, ci, hi), func(t *T) {
						for ui, uc := range urlCreds {
							for _, scheme := range []string{"https", "http"} {
								for ri, rd := range redirs {
									for ai, ans := range answers {
										if !t.Thorough() && (ri > 1 && ans != "good" && ans != "404" && ans != "broken" || scheme == "http" && (ai > 0 || ri > 2)) {
											continue
										}
										t.Tick()
										u01one(t, fmt.Sprintf("%s:%d:%d:%d:%s:%s:%s", kind, ci, hi, ui, scheme, rd, ans), kind, conf, host, uc, scheme, rd, ans, h)
									}
								}
							}
						}
					})
				}
			}
		}
		emit("malformed", u01malformed)
	})
}

var (
	u01once  sync.Once
	u01pk    *builtApk
	u01index []byte
)

func u01one(t *T, key, kind string, conf u01conf, host string, uc *u01creds, scheme, rd, ans, mainHost string) {
	// process-wide results are kept by URL: every case has its own path
	seg := "r" + hx(key)
	var reqs []u01req
	u01once.Do(func() {
		u01pk = apkSpec{name: "p", ver: "1-r0", data: []tent{dirE("opt"), reg("opt/p", "p")}}.build()
		u01index = readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Packages: []*apk.Package{{Name: "p", Version: "1-r0", Arch: "x86_64", Checksum: u01pk.ctlSum}}})))
	})
	pk, index := u01pk, u01index
	body := func(p string) []byte {
		switch {
		case strings.HasSuffix(p, ".apk"):
			return pk.all
		case strings.HasSuffix(p, "APKINDEX.tar.gz"):
			return index
		}
		return []byte("key")
	}
	cl := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		q := u01req{r.Method, r.URL.Scheme, r.URL.Host, r.Header.Get("Authorization"), "", r.Header.Get("Referer"), r.URL.Path}
		if r.URL.User != nil {
			q.user = r.URL.User.String()
		}
		reqs = append(reqs, q)
		to := ""
		hop := strings.Count(r.URL.RawQuery, "hop")
		switch {
		case hop == 0 && rd == "same":
			to = r.URL.Path + "?hop"
		case hop == 0 && (rd == "other" || rd == "two" || rd == "back"):
			to = "https://cdn.example.net" + r.URL.Path + "?hop"
		case hop == 0 && rd == "near":
			to = "https://y" + r.URL.Host + r.URL.Path + "?hop"
		case hop == 1 && rd == "two":
			to = "https://x" + mainHost + ".evil" + r.URL.Path + "?hop&hop"
		case hop == 1 && rd == "back":
			to = scheme + "://" + host + r.URL.Path + "?hop&hop"
		}
		if to != "" {
			return respond(302, nil, map[string]string{"Location": to}), nil
		}
		hdr := map[string]string{"Etag": `"e"`}
		b := body(r.URL.Path)
		switch ans {
		case "401":
			return respond(401, nil, nil), nil
		case "404":
			return respond(404, nil, nil), nil
		case "500":
			return respond(500, nil, nil), nil
		case "204":
			return respond(204, nil, nil), nil
		case "206":
			return respond(206, b, hdr), nil
		case "err":
			return nil, errBreak
		case "junk":
			return respond(200, []byte("junk"), hdr), nil
		case "broken", "norange":
			if r.Method == http.MethodHead {
				return respond(200, nil, hdr), nil
			}
			if rg := r.Header.Get("Range"); rg != "" {
				if ans == "norange" {
					return respond(416, nil, nil), nil
				}
				var at int
				fmt.Sscanf(rg, "bytes=%d-", &at)
				at = min(at, len(b))
				return respond(206, b[at:], map[string]string{"Content-Range": fmt.Sprintf("bytes %d-%d/%d", at, len(b)-1, len(b))}), nil
			}
			res := respond(200, b, hdr)
			res.Body = &fakeBody{data: b[:len(b)/2], end: io.ErrUnexpectedEOF, chunk: 50}
			return res, nil
		}
		if r.Method == http.MethodHead {
			b = nil
		}
		return respond(200, b, hdr), nil
	})}
	f := e03fs()
	must(f.MkdirAll("etc/apk/keys", 0o755))
	must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
	must(f.WriteFile("etc/apk/world", []byte("p\n"), 0o644))
	opts := []apk.Option{apk.WithFS(f)}
	for dom, c := range conf.m {
		opts = append(opts, apk.WithAuth(dom, c.user, c.pass))
	}
	if strings.HasSuffix(kind, "+cache") {
		opts = append(opts, apk.WithCache(filepath.Join(t.Dir(), "cache-"+seg), false))
		defer os.RemoveAll(filepath.Join(t.Dir(), "cache-"+seg))
	}
	base := &url.URL{Scheme: scheme, Host: host, Path: "/" + seg}
	if uc != nil {
		base.User = url.UserPassword(uc.user, uc.pass)
	}
	repo := base.String()
	opts = append(opts, apk.WithNoSignatureIndexes(repo))
	a := newAPK(opts...)
	a.SetClient(cl)
	ctx := context.Background()
	var err error
	var sources []string
	switch strings.TrimSuffix(kind, "+cache") {
	case "index":
		must(f.WriteFile("etc/apk/repositories", []byte(repo+"\n"), 0o644))
		var ix []apk.NamedIndex
		ix, err = a.GetRepositoryIndexes(ctx, true)
		for _, x := range ix {
			sources = append(sources, x.Source(), x.Name())
			for _, p := range x.Packages() {
				sources = append(sources, p.String(), p.Filename())
			}
		}
	case "key":
		err = a.InitKeyring(ctx, []string{repo + "/keys/k.rsa.pub"}, nil)
	case "package":
		err = a.InstallPackages(ctx, nil, []apk.InstallablePackage{fakePkg{"p", repo + "/x86_64/p-1-r0.apk", pk.q1}})
	case "world":
		must(f.WriteFile("etc/apk/repositories", []byte("@tag "+repo+"\n"), 0o644))
		must(f.WriteFile("etc/apk/world", []byte("p@tag\n"), 0o644))
		err = a.FixateWorld(ctx, nil)
	}
	t.Trans(len(reqs))
	t.State(key)
	t.Trace(1)
	t.Eval(host != mainHost || ans != "good" || rd != "")
	desc := fmt.Sprintf("%s, credentials for %s, %s, redirect %q, answer %s", kind, conf.name, base.Redacted(), rd, ans)
	if len(reqs) == 0 {
		t.Fail(key, "%s: no request at all: %v", desc, err)
		return
	}
	if ans == "good" && err != nil {
		t.Fail(key, "%s: fails: %v", desc, err)
		return
	}
	allowed := map[string]bool{}
	if uc != nil {
		allowed[uc.header()] = true
	}
	if c, ok := conf.m[host]; ok && (c.user != "" || c.pass != "") {
		allowed[c.header()] = true
	}
	for i, q := range reqs {
		switch {
		case q.host == host && i > 0 && rd == "back" && q.auth == "":
			// coming back from another host without credentials
		case q.host == host && len(allowed) > 0 && !allowed[q.auth]:
			t.Fail(key, "%s: request %d (%s %s) to the host goes without its credentials (%q)", desc, i+1, q.method, q.path, q.auth)
			return
		case q.host == host && len(allowed) == 0 && q.auth != "":
			t.Fail(key, "%s: request %d to a host without configured credentials carries %q", desc, i+1, q.auth)
			return
		case q.host != host && (q.auth != "" || q.user != ""):
			t.Fail(key, "%s: request %d to %s carries credentials %q %q", desc, i+1, q.host, q.auth, q.user)
			return
		}
		if s := u01secret(q.referer, conf, uc); s != "" {
			t.Fail(key, "%s: request %d tells the password in the Referer header", desc, i+1)
			return
		}
	}
	if err != nil {
		t.Outcome("error")
		if s := u01secret(err.Error(), conf, uc); s != "" {
			t.Fail(key, "%s: the error tells %q: %v", desc, s, err)
		}
	}
	for _, x := range sources {
		if s := u01secret(x, conf, uc); s != "" {
			t.Fail(key, "%s: the source %q tells %q", desc, x, s)
		}
	}
	if strings.HasSuffix(kind, "+cache") {
		_ = filepath.WalkDir(filepath.Join(t.Dir(), "cache-"+seg), func(p string, _ fs.DirEntry, _ error) error {
			if s := u01secret(strings.TrimPrefix(p, t.Dir()), conf, uc); s != "" {
				t.Fail(key, "%s: the name %q in the cache tells %q", desc, p, s)
			}
			return nil
		})
	}
	db := string(must1(f.ReadFile("lib/apk/db/installed")))
	if s := u01secret(db, conf, uc); s != "" {
		t.Fail(key, "%s: the installed database tells %q", desc, s)
	}
}

// u01secret finds a password in a text.
func u01secret(text string, conf u01conf, uc *u01creds) string {
	var l []u01creds
	for _, c := range conf.m {
		l = append(l, c)
	}
	if uc != nil {
		l = append(l, *uc)
	}
	for _, c := range l {
		if c.pass == "" {
			continue
		}
		esc := strings.SplitN(url.UserPassword("", c.pass).String(), ":", 2)[1]
		for _, s := range []string{c.pass, esc, url.QueryEscape(c.pass), url.QueryEscape(esc), url.PathEscape(c.pass), strings.TrimPrefix(c.header(), "Basic ")} {
			if strings.Contains(text, s) {
				return s
			}
		}
	}
	return ""
}

// u01malformed: repositories, keys and packages whose URL cannot be used at all.
func u01malformed(t *T) {
	const secret = "s3cr3t"
	urls := []string{"https://user:" + secret + "%zz@h.example/r", "https://user:" + secret + "/x@h.example/r", "https://user:x" + secret + " y@h.example/r", "https://user:" + secret + "@h.example:port/r", "https://user:" + secret + "@[::1/r",
		"https://user:" + secret + "@h.example/%zz", "http://user:" + secret + "@h.example/a\x7fb", "https://user:" + secret + "#frag@h.example/r", "https://user:" + secret + "@", "https://user:" + secret + "@h.example/r\x01"}
	cl := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) { return respond(404, nil, nil), nil })}
	for i, u := range urls {
		for _, cache := range []bool{false, true} {
			for _, kind := range []string{"index", "tagged", "tag only", "key", "package", "fetch"} {
				key := fmt.Sprintf("bad:%d:%v:%s", i, cache, kind)
				f := apkfs.NewMemFS()
				must(f.MkdirAll("etc/apk/keys", 0o755))
				must(f.MkdirAll("lib/apk/db", 0o755))
				must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
				must(f.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644))
				opts := []apk.Option{apk.WithFS(f)}
				if cache {
					opts = append(opts, apk.WithCache(filepath.Join(t.Dir(), "c"+hx(key)), false))
				}
				a := newAPK(opts...)
				a.SetClient(cl)
				ctx := context.Background()
				var err error
				p := fakePkg{"p", u + "/x86_64/p-1-r0.apk", "Q1"}
				switch kind {
				case "index", "tagged", "tag only":
					line := map[string]string{"index": u, "tagged": "@tag " + u, "tag only": "@tag" + u}[kind]
					if strings.ContainsAny(u, "\n") {
						continue
					}
					must(f.WriteFile("etc/apk/repositories", []byte(line+"\n"), 0o644))
					_, err = a.GetRepositoryIndexes(ctx, true)
				case "key":
					err = a.InitKeyring(ctx, []string{u + "/k.rsa.pub"}, nil)
				case "package":
					err = a.InstallPackages(ctx, nil, []apk.InstallablePackage{p})
				case "fetch":
					var rc io.ReadCloser
					rc, err = a.FetchPackage(ctx, p)
					if err == nil {
						rc.Close()
					}
				}
				if err == nil && kind != "tag only" {
					t.Fail(key, "%s %q: no error", kind, u)
				} else if err != nil && strings.Contains(err.Error(), secret) {
					t.Fail(key, "%s %q: the error tells the password: %v", kind, u, err)
				}
				t.Eval(true)
				t.State(key)
				t.Trace(1)
				t.Trans(1)
			}
		}
	}
}
