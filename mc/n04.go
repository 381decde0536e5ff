package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("N04", check{run: runN04, level: "model_checking",
		rule:        "real InstallPackages over all sequences of up to three packages whose control sections are drawn from an alphabet of script sets (none, empty, block-aligned and large sizes, modes, times, long package names) and trigger lines, in every split into calls, with no / equal / different source dates, in memory and on disk; the scripts archive is decoded with archive/tar and compared entry by entry, its end checked to be exactly the end-of-archive blocks, and the triggers file compared line by line; after every call what earlier calls recorded is compared again; non-trivial when at least two packages have scripts or triggers",
		assumptions: []string{"control entries other than .PKGINFO are regular files"}})
}

type n04set struct {
	name     string
	pkg, ver string
	scripts  []tent
	info     []string
}

func runN04(c *C) {
	s := func(n, body string, mode, mtime int64) tent {
		e := reg(n, body)
		e.mode, e.mtime = mode, mtime
		return e
	}
	sets := []n04set{
		{"none", "p-none", "1-r0", nil, nil},
		{"empty", "p-empty", "1-r0", []tent{s(".pre-install", "", 0o755, 5)}, nil},
		{"one", "p.one_x+y", "1.2_rc3-r4", []tent{s(".post-install", "#!/bin/sh\necho x\n", 0o755, 1700000000)}, []string{"triggers = /usr/bin"}},
		{"b511", "b511", "1-r0", []tent{s(".trigger", noise(511), 0o700, 7), s(".post-upgrade", noise(512), 0o644, 7), s(".pre-upgrade", noise(513), 0o755, 0)}, []string{"triggers = /a /b/c", "triggers = /d=e /f"}},
		{"b1024", "b1024", "1-r0", []tent{s(".post-deinstall", noise(1024), 0o600, 1<<31), s(".pre-deinstall", strings.Repeat("\x00", 1024), 0o755, 1)}, []string{"triggers = /usr/share/*"}},
		{"big", "big", "1-r0", []tent{s(".post-install", noise(70000), 0o755, 3)}, nil},
		{"long", strings.Repeat("verylongname-", 9) + "x", "1.2.3.4.5.6.7.8.9-r10", []tent{s(".post-install", "long", 0o755, 9), s(".post-upgrade", "", 0o755, 9)}, []string{"triggers = /long"}},
		{"xlong", strings.Repeat("n", 280), "1-r0", []tent{s(".pre-install", "xl", 0o755, 9)}, []string{"triggers = a=b=c", "triggers = # x ; y"}},
		{"trigonly", "trigonly", "1-r0", nil, []string{"triggers = /t1", "triggers = /t2", "triggersx = /no", "xtriggers = /no"}},
		{"other", "other", "1-r0", []tent{s(".dummy", "d", 0o644, 2), s("plain", "no dot", 0o644, 2), s("dir.PKGINFO", "not metadata", 0o644, 2)}, nil},
		{"own", "own", "1-r0", []tent{{name: ".post-install", typ: tar.TypeReg, mode: 0o755, body: "o", uid: 1000, gid: 1000, uname: "build", gname: "build", mtime: 12}}, nil},
	}
	c.Sample("[b511 empty long] in two calls with a source date")
	var built []*builtApk
	for _, x := range sets {
		built = append(built, apkSpec{name: x.pkg, ver: x.ver, info: x.info, scripts: x.scripts, data: []tent{dirE("d/"), reg("d/"+x.name, x.name)}}.build())
	}
	sdes := map[string]*time.Time{"none": nil}
	for k, v := range map[string]int64{"0": 0, "1234567890": 1234567890} {
		tm := time.Unix(v, 0).UTC()
		sdes[k] = &tm
	}
	c.Run(func(emit func(string, func(*T))) {
		n := len(sets)
		for i := 0; i < n; i++ {
			i := i
			emit("first:"+sets[i].name, func(t *T) {
				for j := -1; j < n; j++ {
					for k := -1; k < n; k++ {
						if j == i || k >= 0 && (k == i || k == j || j < 0) {
							continue
						}
						seq := []int{i}
						if j >= 0 {
							seq = append(seq, j)
						}
						if k >= 0 {
							seq = append(seq, k)
						}
						for cut := 0; cut < 1<<(len(seq)-1); cut++ {
							for si, sn := range []string{"none", "0", "1234567890"} {
								if k >= 0 && !t.Thorough() && (i+2*j+k+cut)%3 != si {
									continue
								}
								for _, kind := range []string{"mem", "dir"} {
									if kind == "dir" && !t.Thorough() && (i+j+k+cut)%4 != 0 {
										continue
									}
									t.Tick()
									n04one(t, fmt.Sprintf("%s:%v:%d:%s", kind, seq, cut, sn), kind, sets, built, seq, cut, sdes[sn])
								}
							}
						}
					}
				}
			})
		}
		// an archive that somebody else wrote
		emit("foreign", func(t *T) {
			for _, fe := range [][]tent{{}, {reg("old-1.Q1x=.post-install", "old")}, {reg("old-1.Q1x=.post-install", noise(511)), reg("old-1.Q1x=.trigger", "")}, {reg("old-1.Q1x=.post-install", noise(1024))}} {
				for _, old := range []string{"", "b2xk /x\n", "b2xk /x\nb2xk /y z\n"} {
					for i := range sets {
						f := apkfs.NewMemFS()
						must(f.MkdirAll("lib/apk/db", 0o755))
						var raw []byte
						if len(fe) > 0 {
							raw = makeTar(fe, true, false)
						}
						must(f.WriteFile("lib/apk/db/scripts.tar", raw, 0o644))
						must(f.WriteFile("lib/apk/db/triggers", []byte(old), 0o644))
						must(f.WriteFile("lib/apk/db/installed", nil, 0o644))
						e := newInst(t, "mem", "x", nil)
						e.fs = f
						e.a = newAPK(apk.WithFS(f))
						e.a.SetClient(mapClient(e))
						t.Eval(len(fe) > 0)
						key := fmt.Sprintf("foreign:%d:%q:%s", len(fe), old, sets[i].name)
						if err := e.install(nil, built[i]); err != nil {
							t.Fail("foreign-err", "%s: %v", key, err)
							continue
						}
						var want []tent
						want = append(want, fe...)
						want = append(want, n04want(sets[i], built[i], nil)...)
						n04tar(t, key, f, want)
						n04trig(t, key, f, old+n04lines(sets[i], built[i]))
					}
				}
			}
		})
	})
}

func n04want(s n04set, b *builtApk, sde *time.Time) []tent {
	var out []tent
	for _, e := range s.scripts {
		e.name = fmt.Sprintf("%s-%s.%s%s", s.pkg, s.ver, b.q1, e.name)
		if sde != nil {
			e.mtime = sde.Unix()
		}
		out = append(out, e)
	}
	return out
}

func n04lines(s n04set, b *builtApk) string {
	var l strings.Builder
	for _, x := range s.info {
		if strings.HasPrefix(x, "triggers = ") {
			fmt.Fprintf(&l, "%s %s\n", base64.StdEncoding.EncodeToString(b.ctlSum), x[len("triggers = "):])
		}
	}
	return l.String()
}

func n04tar(t *T, key string, f apkfs.FullFS, want []tent) {
	raw := must1(f.ReadFile("lib/apk/db/scripts.tar"))
	hs, bodies, err := listTar(raw)
	if err != nil {
		t.Fail("tar", "%s: the scripts archive does not read: %v after %d entries", key, err, len(hs))
		return
	}
	if len(hs) != len(want) {
		t.Fail("tar-count", "%s: the scripts archive has %d entries, expected %d", key, len(hs), len(want))
		return
	}
	for i, w := range want {
		h := hs[i]
		if h.Name != w.name || string(bodies[i]) != w.body || h.Mode != w.mode || h.ModTime.Unix() != w.mtime || h.Typeflag != tar.TypeReg {
			t.Fail("tar-entry", "%s: entry %d of the scripts archive is %s %c %o %d %q, expected %s %o %d %q", key, i, h.Name, h.Typeflag, h.Mode, h.ModTime.Unix(), short(string(bodies[i])), w.name, w.mode, w.mtime, short(w.body))
			return
		}
	}
	// nothing but the two end blocks follows the last entry, and they are there
	if len(want) > 0 {
		if len(raw)%512 != 0 || len(raw) < 1024 || !bytes.Equal(raw[len(raw)-1024:], make([]byte, 1024)) {
			t.Fail("tar-end", "%s: the scripts archive of %d bytes does not end in two zero blocks", key, len(raw))
			return
		}
		// without the end blocks all entries are still complete, one block less and one is not
		r := bytes.NewReader(raw[:len(raw)-1024])
		tr := tar.NewReader(r)
		n := 0
		for {
			if _, err := tr.Next(); err != nil {
				break
			}
			n++
		}
		if n != len(want) {
			t.Fail("tar-end", "%s: the end blocks of the scripts archive cut an entry", key)
		}
	}
}

func n04trig(t *T, key string, f apkfs.FullFS, want string) {
	if got := string(must1(f.ReadFile("lib/apk/db/triggers"))); got != want {
		t.Fail("triggers", "%s: the triggers file is %q, expected %q", key, short2(got), short2(want))
	}
}

func n04one(t *T, key, kind string, sets []n04set, built []*builtApk, seq []int, cut int, sde *time.Time) {
	e := newInst(t, kind, "n"+fmt.Sprint(hashStr(key)), nil)
	var calls [][]int
	for k, i := range seq {
		if k == 0 || cut&(1<<(k-1)) != 0 {
			calls = append(calls, nil)
		}
		calls[len(calls)-1] = append(calls[len(calls)-1], i)
	}
	var want []tent
	lines := ""
	withScripts := 0
	for _, cl := range calls {
		var bs []*builtApk
		for _, i := range cl {
			bs = append(bs, built[i])
			want = append(want, n04want(sets[i], built[i], sde)...)
			lines += n04lines(sets[i], built[i])
			if len(sets[i].scripts)+len(sets[i].info) > 0 {
				withScripts++
			}
		}
		t.Trans(len(bs))
		if err := e.install(sde, bs...); err != nil {
			t.Fail("install", "%s: %v", key, err)
			return
		}
		n04tar(t, key, e.fs, want)
		n04trig(t, key, e.fs, lines)
	}
	t.Eval(withScripts > 1)
	t.Trace(1)
	t.State(fmt.Sprint(seq))
}
