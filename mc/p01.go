package main

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("P01", check{run: runP01, level: "model_checking",
		rule:        "real ParsePackage and InstallPackages+GetInstalled over built packages: every metadata field x every value of an alphabet of awkward values, all lists of up to three values per list field, every placement of comments, blank lines and foreign keys, all well- and ill-formed numbers; each read value is compared with the one written; non-trivial when a value contains a character that some configuration syntax gives a meaning to",
		assumptions: []string{"values are single lines without surrounding blanks", "one value per list line", "a key given twice that is not a list, and lines without '=', are left open"}})
}

func runP01(c *C) {
	ctx := context.Background()
	vals := []string{"plain", "x # y", "# x", "x#y", "x ; y", "; x", "x;y", `"quoted"`, `"half`, `half"`, `a "b" c`, "'q'", "it's", "`bq`", "`bq` rest", "`", `"""t"""`, `"""t`, `trail\`, `a\b`, `\n`, `\\`, "%(pkgname)s", "%(pkgver)s x", "%(nope)s", "100%", "%", "a=b", "a = b", "=", "= b", "a:b", ":", "a,b", ",", "a,b,c", "[x]", "[", "]", "ünï©日本", "$HOME", "${x}", "a\tb", "a  b", "{{.Name}}", "<a&b>", "-", "--", "0", "true", "null", "!x", "@x", "x<y>z~1", "key = value # c ; d", strings.Repeat("v", 5000), strings.Repeat("w", 100000), strings.Repeat("word ", 20000) + "x"}
	single := []string{"pkgdesc", "license", "maintainer", "url", "commit", "origin", "arch"}
	get := map[string]func(p *apk.Package) string{
		"pkgdesc": func(p *apk.Package) string { return p.Description }, "license": func(p *apk.Package) string { return p.License },
		"maintainer": func(p *apk.Package) string { return p.Maintainer }, "url": func(p *apk.Package) string { return p.URL },
		"commit": func(p *apk.Package) string { return p.RepoCommit }, "origin": func(p *apk.Package) string { return p.Origin }, "arch": func(p *apk.Package) string { return p.Arch },
	}
	list := map[string]func(p *apk.Package) []string{
		"depend": func(p *apk.Package) []string { return p.Dependencies }, "provides": func(p *apk.Package) []string { return p.Provides }, "replaces": func(p *apk.Package) []string { return p.Replaces },
	}
	lvals := []string{"b", "so:libx.so.1=1.2", "!c", "d~2", "e>=1-r0", "f<2", "pc:x.y#z", "cmd:[=1", "cmd:;", "g@edge", `h"i`, "`j`", `k\`, "%(pkgname)s", "l:m=n"}
	c.Sample("pkgdesc = '`bq` rest' with depend = [so:libx.so.1=1.2 cmd:[=1]")
	// parse returns what both readers make of the lines
	parse := func(t *T, key string, info []string, installed bool) (*apk.Package, error) {
		b := apkSpec{name: "a", ver: "1-r0", info: info, data: []tent{dirE("d/"), reg("d/f", "1")}}.build()
		t.Trans(1)
		p, err := apk.ParsePackage(ctx, bytes.NewReader(b.all))
		if err == nil {
			if p.Name != "a" || p.Version != "1-r0" || p.ChecksumString() != b.q1 || p.Size != uint64(len(b.all)) {
				t.Fail("identity", "%s: ParsePackage gives %s %s %s %d", key, p.Name, p.Version, p.ChecksumString(), p.Size)
			}
			if want := strings.Join(infoVals(b.pkginfo, "datahash"), ""); p.DataHash != want {
				t.Fail("datahash", "%s: DataHash is %q", key, p.DataHash)
			}
		}
		if installed {
			e := newInst(t, "mem", "x", nil)
			ierr := e.install(nil, b)
			if (ierr == nil) != (err == nil) {
				t.Fail("installed-err", "%s: ParsePackage returns %v, installing %v", key, err, ierr)
				return p, err
			}
			if ierr == nil {
				got, err := e.a.GetInstalled()
				if err != nil || len(got) != 1 {
					t.Fail("installed", "%s: %d installed, %v", key, len(got), err)
					return p, err
				}
				g := got[0].Package
				q := *p
				g.DataHash, q.DataHash = "", ""
				g.BuildDate, q.BuildDate = 0, 0 // shown as BuildTime
				for _, l := range []*[]string{&g.Dependencies, &g.Provides, &g.Replaces, &g.InstallIf, &q.Dependencies, &q.Provides, &q.Replaces, &q.InstallIf} {
					if len(*l) == 0 {
						*l = nil
					}
				}
				if !reflect.DeepEqual(g, q) {
					t.Fail("installed-diff", "%s: the installed package reads back as %s, the file as %s", key, short2(fmt.Sprintf("%+v", g)), short2(fmt.Sprintf("%+v", q)))
				}
			}
		}
		t.Trace(1)
		return p, err
	}
	c.Run(func(emit func(string, func(*T))) {
		for _, k := range single {
			k := k
			emit("single:"+k, func(t *T) {
				for i, v := range vals {
					if k == "arch" && strings.ContainsAny(v, "/") {
						continue
					}
					for pos := 0; pos < 3; pos++ {
						t.Tick()
						info := []string{k + " = " + v, "depend = z", "builddate = 7"}
						if pos == 1 {
							info = []string{"depend = z", "builddate = 7", k + " = " + v}
						}
						if pos == 2 {
							info = []string{"# comment " + v, "", k + "x = foreign", "x" + k + " = foreign", k + " = " + v, "; = x", "depend = z", "builddate = 7"}
							if strings.Contains(v, "\n") {
								continue
							}
						}
						if k == "arch" {
							// the builder writes one already
							info = append([]string{}, info...)
						}
						key := fmt.Sprintf("single:%s:%d:%d", k, i, pos)
						t.Eval(strings.ContainsAny(v, "#;\"'`\\%=:,[]"))
						t.State(k + "|" + v)
						if k == "arch" {
							continue
						}
						p, err := parse(t, key, info, pos == 0 && len(v) < 200 || i%7 == 0)
						if err != nil {
							t.Fail("single-err:"+k, "%s: value %q: %v", key, short2(v), err)
							continue
						}
						if got := get[k](p); got != v {
							t.Fail(fmt.Sprintf("single:%s", k), "%s: %s = %q is read as %q", key, k, short2(v), short2(got))
						}
						if len(p.Dependencies) != 1 || p.Dependencies[0] != "z" || p.BuildDate != 7 || p.BuildTime.Unix() != 7 {
							t.Fail("neighbour:"+k, "%s: with %s = %q the other fields are %q %d", key, k, short2(v), p.Dependencies, p.BuildDate)
						}
					}
				}
			})
		}
		for k := range list {
			k := k
			emit("list:"+k, func(t *T) {
				chk := func(key string, l []string, extra ...string) {
					var info []string
					for _, v := range l {
						info = append(info, k+" = "+v)
						info = append(info, extra...)
					}
					t.Eval(len(l) > 0)
					p, err := parse(t, key, info, len(l) == 2)
					if err != nil {
						t.Fail("list-err:"+k, "%s: %q: %v", key, l, err)
						return
					}
					if got := list[k](p); len(got) != len(l) || strings.Join(got, "\n") != strings.Join(l, "\n") {
						t.Fail("list:"+k, "%s: %s = %q is read as %q", key, k, l, got)
					}
					for k2, g := range list {
						if k2 != k && len(g(p)) != 0 {
							t.Fail("list-other:"+k, "%s: %s appear as %s", key, k, k2)
						}
					}
				}
				chk("list:"+k+":0", nil)
				for i, a := range lvals {
					chk(fmt.Sprintf("list:%s:%d", k, i), []string{a}, "# c", "", "x"+k+" = other", k+"s = other")
					for j, b := range lvals {
						if i == j {
							continue
						}
						t.Tick()
						chk(fmt.Sprintf("list:%s:%d:%d", k, i, j), []string{a, b})
						for m, d := range lvals {
							if m == i || m == j || !t.Thorough() && (i+j+m)%5 != 0 {
								continue
							}
							chk(fmt.Sprintf("list:%s:%d:%d:%d", k, i, j, m), []string{a, b, d})
						}
					}
				}
				var many []string
				for i := 0; i < 5000; i++ {
					many = append(many, fmt.Sprintf("so:lib%d.so.1=%d", i, i))
				}
				chk("list:"+k+":many", many)
			})
		}
		emit("installif", func(t *T) {
			for i, l := range [][]string{{"b"}, {"b", "c=1"}, {"b>1", "!c", "d"}} {
				t.Eval(true)
				p, err := parse(t, fmt.Sprintf("installif:%d", i), []string{"install_if = " + strings.Join(l, " ")}, true)
				if err != nil || strings.Join(p.InstallIf, "|") != strings.Join(l, "|") {
					t.Fail("installif", "installif:%d: %q is read as %+v, %v", i, l, p, err)
				}
			}
		})
		emit("numbers", func(t *T) {
			for _, k := range []string{"builddate", "provider_priority"} {
				for _, v := range []string{"0", "1", "9", "12345678901", "9223372036854775807"} {
					t.Eval(false)
					p, err := parse(t, "num:"+k+":"+v, []string{k + " = " + v}, true)
					if err != nil {
						t.Fail("number-refused", "%s = %s: %v", k, v, err)
						continue
					}
					got := fmt.Sprint(p.ProviderPriority)
					if k == "builddate" {
						got = fmt.Sprint(p.BuildDate)
						if fmt.Sprint(p.BuildTime.Unix()) != v {
							t.Fail("buildtime", "builddate = %s gives the time %v", v, p.BuildTime)
						}
					}
					if got != v {
						t.Fail("number", "%s = %s is read as %s", k, v, got)
					}
				}
				for _, v := range []string{"x", "1.5", "1x", "x1", "1 2", "--1", "99999999999999999999", "1e3", "1;2", "1#2", "1,2"} {
					t.Eval(true)
					if p, err := parse(t, "bad:"+k+":"+v, []string{k + " = " + v}, true); err == nil {
						t.Fail("bad-number", "%s = %s is accepted as %d/%d", k, v, p.BuildDate, p.ProviderPriority)
					}
				}
			}
			for _, v := range []int{0, 1, 4096, 1 << 40} {
				b := apkSpec{name: "a", ver: "1", size: v}.build()
				p, err := apk.ParsePackage(ctx, bytes.NewReader(b.all))
				t.Eval(true)
				if err != nil || p.InstalledSize != uint64(v) || p.Size != uint64(len(b.all)) {
					t.Fail("size", "size = %d is read as %+v, %v", v, p, err)
				}
			}
		})
		emit("shape", func(t *T) {
			// the file itself: without final newline, leading blank and comment lines, identifying fields of any value
			for _, nm := range []string{"a", "a.b+c_d-e", "A", "0", "x-1.2-r3", "ünï"} {
				for _, vr := range []string{"1-r0", "0", "1.2.3_alpha4_git5-r67", "weird#version;x"} {
					for form := 0; form < 4; form++ {
						lines := []string{"pkgname = " + nm, "pkgver = " + vr, "arch = x86_64", "pkgdesc = end"}
						txt := strings.Join(lines, "\n")
						switch form {
						case 1:
							txt += "\n\n\n"
						case 2:
							txt = "# a\n\n#b = c\n# pkgname = other\n" + txt + "\n# pkgver = 9\n"
						case 3:
							txt = strings.Join([]string{lines[3], lines[2], lines[1], lines[0]}, "\n") + "\n"
						}
						t.Eval(form == 2)
						ctl := gz(makeTar([]tent{reg(".PKGINFO", txt), reg(".post-install", "pkgname = script\n")}, false, false))
						dat := gz(makeTar(nil, true, false))
						p, err := apk.ParsePackage(ctx, bytes.NewReader(append(ctl, dat...)))
						if err != nil || p.Name != nm || p.Version != vr || p.Arch != "x86_64" || p.Description != "end" {
							t.Fail("shape", "shape %d: %q %q is read as %+v, %v", form, nm, vr, p, err)
						}
						t.Trace(1)
					}
				}
			}
		})
	})
}
