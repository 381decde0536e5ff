package main

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("I03", check{run: runI03, level: "model_checking",
		rule: "all histories up to the depth of changes to the index file of a local repository (new content with newer, equal or older time, damaged, unreadable, replaced by a directory, removed) with a load after each, by loaders with equal and different keys and signature policy; all lists of up to three repository lines over local (good, missing, damaged, unreadable) and remote (good, 404, 500, no answer, damaged) repositories, tagged and untagged, repeated or not; remote loads by several loaders in sequence and at the same time with the first answer held back, good or failing; " +
			"results and requests are compared with a reference that only knows the files and answers; non-trivial when something changed or failed",
		assumptions: []string{"a change that leaves the modification time as it was or sets it back may go unnoticed", "a failed remote load may be tried again by a later loader"}})
}

// events on the local file
const (
	lfNewer = iota
	lfEqual
	lfOlder
	lfDamagedNewer
	lfDamagedEqual
	lfUnreadable
	lfDirectory
	lfRemove
	lfNothing
	lfCount
)

var lfNames = []string{"new content, newer", "new content, same time", "new content, older", "damaged, newer", "damaged, same time", "unreadable", "a directory in its place", "removed", "nothing"}

func i03load(repos []string, keys map[string][]byte, cl *http.Client, opts ...apk.IndexOption) ([]string, error) {
	if cl == nil {
		cl = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) { return respond(404, nil, nil), nil })}
	}
	ix, err := apk.GetRepositoryIndexes(context.Background(), repos, keys, "x86_64", append([]apk.IndexOption{apk.WithHTTPClient(cl)}, opts...)...)
	if err != nil {
		return nil, err
	}
	out := []string{}
	for _, x := range ix {
		var names []string
		for _, p := range x.Packages() {
			names = append(names, p.Name)
		}
		if x.Count() != len(names) {
			names = append(names, fmt.Sprintf("(count %d)", x.Count()))
		}
		out = append(out, x.Name()+"="+strings.Join(names, ","))
	}
	return out, nil
}

func runI03(c *C) {
	c.Sample("local index: new content newer; damaged, same time; removed; loads by loaders with keys K1, K1, K2")
	depth := c.Pick(4, 5)
	c.Run(func(emit func(string, func(*T))) {
		for a := 0; a < lfCount; a++ {
			for b := 0; b < lfCount; b++ {
				a, b := a, b
				emit(fmt.Sprintf("local:%d:%d", a, b), func(t *T) {
					seq := make([]int, depth)
					ld := make([]int, depth)
					seq[0], seq[1] = a, b
					var rec func(i int)
					rec = func(i int) {
						if i == depth {
							t.Tick()
							i03local(t, fmt.Sprintf("local:%v:%v", seq, ld), seq, ld)
							return
						}
						for ev := 0; ev < lfCount; ev++ {
							if i >= 2 {
								seq[i] = ev
							}
							for l := 0; l < 2; l++ {
								ld[i] = l
								rec(i + 1)
							}
							if i < 2 {
								break
							}
						}
					}
					rec(0)
				})
			}
		}
		kinds := []string{"local", "local missing", "local damaged", "local unreadable", "local file in the way", "remote", "remote 404", "remote 500", "remote none", "remote damaged"}
		for n := 0; n <= 3; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(kinds)
			}
			for x := 0; x < total; x++ {
				n, x := n, x
				emit(fmt.Sprintf("lines:%d:%d", n, x), func(t *T) {
					for tags := 0; tags < 1<<n; tags++ {
						for dup := 0; dup < 2; dup++ {
							t.Tick()
							i03lines(t, fmt.Sprintf("lines:%d:%d:%d:%d", n, x, tags, dup), kinds, n, x, tags, dup == 1)
						}
					}
				})
			}
		}
		for _, first := range []string{"good", "404", "500", "none", "damaged"} {
			for _, mode := range []string{"seq", "par"} {
				for n := 2; n <= 4; n++ {
					for pol := 0; pol < 1<<(n-1); pol++ {
						first, mode, n, pol := first, mode, n, pol
						emit(fmt.Sprintf("remote:%s:%s:%d:%d", first, mode, n, pol), func(t *T) {
							i03remote(t, fmt.Sprintf("remote:%s:%s:%d:%d", first, mode, n, pol), first, mode, n, pol)
						})
					}
				}
			}
		}
	})
}

// the index of generation g holds packages g1 and g2.
func i03index(g string) []byte {
	return readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Packages: []*apk.Package{
		{Name: g + "a", Version: "1", Arch: "x86_64", Checksum: make([]byte, 20)}, {Name: g + "b", Version: "1", Arch: "x86_64", Checksum: make([]byte, 20)}}})))
}

func i03local(t *T, key string, seq, ld []int) {
	repo := filepath.Join(t.Dir(), "l-"+hx(key))
	file := filepath.Join(repo, "x86_64", "APKINDEX.tar.gz")
	must(os.MkdirAll(filepath.Dir(file), 0o755))
	defer func() {
		chmodTree(repo)
		must(os.RemoveAll(repo))
	}()
	mt := time.Unix(1700000000, 0)
	step := time.Minute
	if (seq[0]+ld[0]+ld[len(ld)-1])%2 == 1 {
		step = time.Millisecond
	}
	cur := ""                                          // content now: generation, "damaged", "unreadable", "dir" or "" for none
	put := func(what string, b []byte, at time.Time) { // a new file takes the place
		chmodTree(repo)
		must(os.RemoveAll(file))
		must(os.WriteFile(file+".new", b, 0o644))
		must(os.Chtimes(file+".new", at, at))
		must(os.Rename(file+".new", file))
		cur = what
	}
	type seen struct {
		content string
		at      time.Time
	}
	last := map[int]*seen{} // per loader: what it remembers, and the time of the file it read it from
	desc := ""
	changed := false
	for i, ev := range seq {
		g := fmt.Sprintf("g%d", i)
		switch ev {
		case lfNewer:
			mt = mt.Add(step)
			put(g, i03index(g), mt)
		case lfEqual:
			put(g, i03index(g), mt)
		case lfOlder:
			mt = mt.Add(-step)
			put(g, i03index(g), mt)
		case lfDamagedNewer:
			mt = mt.Add(step)
			put("damaged", []byte("no index"), mt)
		case lfDamagedEqual:
			put("damaged", i03index(g)[:30], mt)
		case lfUnreadable:
			mt = mt.Add(step)
			put("unreadable", i03index(g), mt)
			must(os.Chmod(file, 0))
		case lfDirectory:
			chmodTree(repo)
			must(os.RemoveAll(file))
			must(os.Mkdir(file, 0o755))
			mt = mt.Add(step)
			must(os.Chtimes(file, mt, mt))
			cur = "dir"
		case lfRemove:
			must(os.RemoveAll(file))
			cur = ""
		}
		changed = changed || ev != lfNothing
		desc += fmt.Sprintf("[%s, loader %d] ", lfNames[ev], ld[i])
		// the loaders differ in whether they verify: loader 1 names the repository as unsigned, loader 0 ignores signatures altogether
		var keys map[string][]byte
		opt := apk.WithIgnoreSignatures(true)
		if ld[i] == 1 {
			keys = map[string][]byte{"k": []byte("k")}
			opt = apk.WithIgnoreSignatureForIndexes(repo)
		}
		got, err := i03load([]string{repo}, keys, nil, opt)
		t.Trans(1)
		// what any loader has seen may be shared
		var sure []string // acceptable results; "error" for a failure
		noticed := true
		for _, s := range last {
			if s != nil && !mt.After(s.at) {
				noticed = false
				sure = append(sure, s.content)
			}
		}
		switch cur {
		case "":
			sure, noticed = []string{""}, true
		case "damaged", "unreadable", "dir":
			sure = append(sure, "error")
		default:
			sure = append(sure, "="+cur+"a,"+cur+"b")
		}
		res := strings.Join(got, " ")
		if err != nil {
			res = "error"
		}
		ok := false
		for _, s := range sure {
			ok = ok || s == res
		}
		if !ok {
			t.Fail(key, "%sgives %q (%v), acceptable is %q (change noticeable: %v)", desc, res, err, sure, noticed)
			return
		}
		if err == nil && cur != "" {
			if res == "="+cur+"a,"+cur+"b" {
				last[ld[i]] = &seen{res, mt}
			} else if last[ld[i]] == nil {
				last[ld[i]] = last[1-ld[i]]
			}
		}
		t.Outcome(res[:min(len(res), 1)])
	}
	t.Eval(changed)
	t.State(key)
	t.Trace(1)
}

func i03lines(t *T, key string, kinds []string, n, x, tags int, dup bool) {
	host := "i03-" + hx(key) + ".example"
	root := filepath.Join(t.Dir(), "n-"+hx(key))
	must(os.MkdirAll(root, 0o755))
	defer func() { chmodTree(root); must(os.RemoveAll(root)) }()
	var lines []string
	want := []string{}
	fails := false
	kindOf := map[string]string{}
	desc := ""
	for i := 0; i < n; i++ {
		k := kinds[x%len(kinds)]
		x /= len(kinds)
		id := fmt.Sprint(i)
		if dup {
			id = strings.ReplaceAll(k, " ", "-") // equal kinds name one repository
		}
		g := "r" + id
		var repo string
		if strings.HasPrefix(k, "local") {
			repo = root + "/" + id
			file := repo + "/x86_64/APKINDEX.tar.gz"
			switch k {
			case "local missing":
				if i%2 == 0 {
					must(os.MkdirAll(repo+"/x86_64", 0o755))
				}
			case "local file in the way":
				if _, err := os.Stat(repo); err != nil {
					must(os.WriteFile(repo, []byte("x"), 0o644))
				}
				fails = true
			default:
				if _, err := os.Stat(file); err != nil {
					must(os.MkdirAll(repo+"/x86_64", 0o755))
					b := i03index(g)
					if k == "local damaged" {
						b = b[:len(b)/2]
					}
					must(os.WriteFile(file, b, 0o644))
				}
				switch k {
				case "local damaged":
					fails = true
				case "local unreadable":
					must(os.Chmod(file, 0))
					fails = true
				}
			}
		} else {
			repo = "https://" + host + "/" + id
			kindOf["/"+id+"/x86_64/APKINDEX.tar.gz"] = k + " " + g
			fails = fails || k != "remote"
		}
		tag := ""
		line := repo
		if tags&(1<<i) != 0 {
			tag = fmt.Sprintf("t%d", i)
			line = "@" + tag + " " + repo
		}
		lines = append(lines, line)
		if k != "local missing" {
			want = append(want, tag+"="+g+"a,"+g+"b")
		}
		desc += "[" + tag + " " + k + "]"
	}
	cl := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		kg := kindOf[r.URL.Path]
		k, g := kg[:max(strings.LastIndex(kg, " "), 0)], kg[strings.LastIndex(kg, " ")+1:]
		switch k {
		case "remote":
			return respond(200, i03index(g), nil), nil
		case "remote 500":
			return respond(500, nil, nil), nil
		case "remote none":
			return nil, errBreak
		case "remote damaged":
			return respond(200, []byte("no index"), nil), nil
		}
		return respond(404, nil, nil), nil
	})}
	for round := 0; round < 2; round++ {
		got, err := i03load(lines, nil, cl, apk.WithIgnoreSignatures(true))
		t.Trans(1)
		switch {
		case fails && err == nil:
			t.Fail(key, "lines %s: load %d succeeds with %q although an index cannot be loaded", desc, round+1, got)
		case !fails && err != nil:
			t.Fail(key, "lines %s: load %d fails: %v", desc, round+1, err)
		case err == nil && strings.Join(got, " ") != strings.Join(want, " "):
			t.Fail(key, "lines %s: load %d gives %q and not %q", desc, round+1, got, want)
		}
	}
	t.Eval(n > 1)
	t.State(key)
	t.Trace(1)
}

// i03remote: n loaders of one remote index; those in pol use another policy than the first.
func i03remote(t *T, key, first, mode string, n, pol int) {
	repo := "https://i03r-" + hx(key) + ".example/r"
	var mu sync.Mutex
	reqs := 0
	gate := make(chan struct{})
	entered := make(chan struct{}, 100)
	body := i03index("g")
	cl := &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		mu.Lock()
		reqs++
		k := reqs
		mu.Unlock()
		entered <- struct{}{}
		if mode == "par" {
			<-gate
		}
		if k == 1 {
			switch first {
			case "404":
				return respond(404, nil, nil), nil
			case "500":
				return respond(500, nil, nil), nil
			case "none":
				return nil, errBreak
			case "damaged":
				return respond(200, body[:40], nil), nil
			}
		}
		return respond(200, body, nil), nil
	})}
	type res struct {
		got []string
		err error
	}
	out := make([]res, n)
	one := func(i int) {
		opt := apk.WithIgnoreSignatures(true)
		if i > 0 && pol&(1<<(i-1)) != 0 {
			opt = apk.WithIgnoreSignatureForIndexes(repo)
		}
		out[i].got, out[i].err = i03load([]string{repo}, nil, cl, opt)
	}
	if mode == "seq" {
		for i := 0; i < n; i++ {
			one(i)
		}
	} else {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); one(i) }()
			if i == 0 {
				<-entered
			}
		}
		time.Sleep(2 * time.Millisecond)
		close(gate)
		wg.Wait()
	}
	t.Trans(n)
	good := 0
	for i, r := range out {
		if r.err == nil {
			good++
			if strings.Join(r.got, " ") != "=ga,gb" {
				t.Fail(key, "first answer %s, %s: loader %d gets %q", first, mode, i+1, r.got)
			}
		} else if first == "good" {
			t.Fail(key, "first answer %s, %s: loader %d fails: %v", first, mode, i+1, r.err)
		}
	}
	if first == "good" && reqs != 1 {
		t.Fail(key, "%s: %d loaders make %d requests", mode, n, reqs)
	}
	if first != "good" && mode == "seq" && (out[0].err == nil || good != n-1) {
		t.Fail(key, "first answer %s: %d of the later loaders succeed", first, good)
	}
	t.Eval(true)
	t.State(key)
	t.Trace(1)
}
