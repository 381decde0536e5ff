package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("I02", check{run: runI02, level: "model_checking",
		rule:        "packages with every combination of one, two (three in thorough) fields taken from pools of values (empty, special characters, long, extreme numbers), in index lists of up to 3 packages; an archive of an index cut after every byte (at 97 places, 1009 in thorough, of large ones), ending there or failing there; and every APKINDEX text of up to 5 lines from a pool of well-formed and malformed lines with both line endings of the file; non-trivial when a field beyond name and version is set",
		assumptions: []string{"field values hold no line breaks, list elements no spaces", "lines are shorter than the documented limit of 1 MB", "a field is given once per entry and every entry has a name"}})
}

type i02field struct {
	name string
	n    int
	set  func(p *apk.Package, i int)
}

func i02fields() []i02field {
	long := strings.Repeat("dependency-name-", 6000)
	var many []string
	for i := 0; i < 9000; i++ {
		many = append(many, fmt.Sprintf("so:lib%d.so.1=1.%d", i, i))
	}
	texts := []string{"", "x", "two words", "key = value: #1; <&> \"q\" 'q' {{.Name}}", " lead and trail ", "ünïcode ✓", "C:Q1abc", "[a b]", long}
	lists := [][]string{nil, {"a"}, {"b", "a"}, {"!c", "so:x.so.1=1.2", "cmd:y~1", "d@t"}, {"a", "a"}, {"[a", "b]"}, many, {long}}
	nums := []uint64{0, 1, 10, 1<<63 - 1, 1 << 63, ^uint64(0)}
	text := func(name string, f func(p *apk.Package) *string) i02field {
		return i02field{name, len(texts), func(p *apk.Package, i int) { *f(p) = texts[i] }}
	}
	list := func(name string, f func(p *apk.Package) *[]string) i02field {
		return i02field{name, len(lists), func(p *apk.Package, i int) { *f(p) = lists[i] }}
	}
	num := func(name string, f func(p *apk.Package) *uint64) i02field {
		return i02field{name, len(nums), func(p *apk.Package, i int) { *f(p) = nums[i] }}
	}
	sums := [][]byte{nil, bytes.Repeat([]byte{0}, 20), bytes.Repeat([]byte{0xff}, 20), []byte("12345678901234567890")}
	dates := []int64{0, 1, -1, 1700000000, 1 << 40}
	return []i02field{
		{"Name", 4, func(p *apk.Package, i int) { p.Name = []string{"a", "so:x", "P:", long}[i] }},
		text("Version", func(p *apk.Package) *string { return &p.Version }),
		text("Arch", func(p *apk.Package) *string { return &p.Arch }),
		text("Description", func(p *apk.Package) *string { return &p.Description }),
		text("License", func(p *apk.Package) *string { return &p.License }),
		text("Origin", func(p *apk.Package) *string { return &p.Origin }),
		text("Maintainer", func(p *apk.Package) *string { return &p.Maintainer }),
		text("URL", func(p *apk.Package) *string { return &p.URL }),
		text("RepoCommit", func(p *apk.Package) *string { return &p.RepoCommit }),
		list("Dependencies", func(p *apk.Package) *[]string { return &p.Dependencies }),
		list("Provides", func(p *apk.Package) *[]string { return &p.Provides }),
		list("InstallIf", func(p *apk.Package) *[]string { return &p.InstallIf }),
		num("Size", func(p *apk.Package) *uint64 { return &p.Size }),
		num("InstalledSize", func(p *apk.Package) *uint64 { return &p.InstalledSize }),
		num("ProviderPriority", func(p *apk.Package) *uint64 { return &p.ProviderPriority }),
		{"Checksum", len(sums), func(p *apk.Package, i int) { p.Checksum = sums[i] }},
		{"BuildTime", len(dates) + 1, func(p *apk.Package, i int) {
			if i > 0 {
				p.BuildDate = dates[i-1]
				p.BuildTime = time.Unix(p.BuildDate, 0).UTC()
			}
		}},
	}
}

// samePkg compares two packages field by field (nil and empty lists are equal) and names the difference.
func samePkg(got, want *apk.Package, skip ...string) string {
	g, w := reflect.ValueOf(*got), reflect.ValueOf(*want)
next:
	for i := 0; i < g.NumField(); i++ {
		n := g.Type().Field(i).Name
		for _, s := range skip {
			if s == n {
				continue next
			}
		}
		a, b := g.Field(i), w.Field(i)
		if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
			continue
		}
		if ta, ok := a.Interface().(time.Time); ok {
			if !ta.Equal(b.Interface().(time.Time)) {
				return fmt.Sprintf("%s is %v instead of %v", n, a.Interface(), b.Interface())
			}
			continue
		}
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s is %s instead of %s", n, short(fmt.Sprintf("%q", a.Interface())), short(fmt.Sprintf("%q", b.Interface())))
		}
	}
	return ""
}

func i02trip(t *T, key string, desc string, pkgs []*apk.Package) {
	t.Tick()
	t.Trans(1)
	t.Trace(1)
	r, err := apk.ArchiveFromIndex(&apk.APKIndex{Description: desc, Packages: pkgs})
	if err != nil {
		t.Fail(key, "writing the index of %s: %v", key, err)
		return
	}
	b := readAll(r)
	got, err := apk.IndexFromArchive(readCloser{bytes.NewReader(b)})
	if err != nil {
		t.Fail(key, "reading back the written index of %s: %v", key, err)
		return
	}
	if got.Description != desc {
		t.Fail(key, "index description %q is read back as %q", desc, got.Description)
	}
	if len(got.Packages) != len(pkgs) {
		t.Fail(key, "index of %d packages (%s) is read back with %d", len(pkgs), key, len(got.Packages))
		return
	}
	for i := range pkgs {
		if d := samePkg(got.Packages[i], pkgs[i], "Replaces", "DataHash"); d != "" {
			t.Fail(key, "package %d of the index (%s) read back: %s", i, key, d)
			return
		}
	}
}

func runI02(c *C) {
	fields := i02fields()
	base := func() *apk.Package { return &apk.Package{Name: "base", Version: "1.2-r3"} }
	c.Sample("InstallIf={a b} x Size=max")
	c.Run(func(emit func(string, func(*T))) {
		for fi := range fields {
			for fj := fi; fj < len(fields); fj++ {
				fi, fj := fi, fj
				emit(fmt.Sprintf("fields:%d:%d", fi, fj), func(t *T) {
					for i := 0; i < fields[fi].n; i++ {
						for j := 0; j < fields[fj].n; j++ {
							if fi == fj && i != j {
								continue
							}
							p := base()
							fields[fi].set(p, i)
							fields[fj].set(p, j)
							key := fmt.Sprintf("%s#%d,%s#%d", fields[fi].name, i, fields[fj].name, j)
							t.State(key)
							t.Eval(true)
							i02trip(t, key, "", []*apk.Package{p})
							if t.Thorough() {
								for fk := fj + 1; fk < len(fields); fk++ {
									for k := 0; k < fields[fk].n; k++ {
										if t.Expired() {
											return
										}
										q := *p
										fields[fk].set(&q, k)
										t.Eval(true)
										kk := key + fmt.Sprintf(",%s#%d", fields[fk].name, k)
										t.State(kk)
										i02trip(t, kk, "", []*apk.Package{&q})
									}
								}
							}
						}
					}
				})
			}
		}
		emit("lists", func(t *T) {
			// every list of up to 3 packages out of packages with one field set each
			var pool []*apk.Package
			for fi := range fields {
				for i := 0; i < fields[fi].n && i < 5; i++ {
					p := base()
					p.Name = fmt.Sprintf("p%d.%d", fi, i)
					if fi > 0 {
						fields[fi].set(p, i)
					}
					pool = append(pool, p)
				}
			}
			for _, desc := range []string{"", "d", "multi\nline\n\nP:x\n", strings.Repeat("long ", 20000)} {
				t.Eval(false)
				i02trip(t, "empty,"+short(desc), desc, nil)
				for i := range pool {
					for j := range pool {
						if desc != "" && (i+j)%7 != 0 {
							continue
						}
						t.Eval(true)
						i02trip(t, fmt.Sprintf("list:%d,%d,%s", i, j, short(desc)), desc, []*apk.Package{pool[i], pool[j]})
						if t.Thorough() || (i*j)%11 == 0 {
							t.Eval(true)
							i02trip(t, fmt.Sprintf("list:%d,%d,%d", i, j, i), desc, []*apk.Package{pool[i], pool[j], pool[i]})
						}
					}
				}
			}
		})
		for _, big := range []int{0, 40_000, 300_000} {
			for _, how := range []string{"short", "error"} {
				big, how := big, how
				emit(fmt.Sprintf("cut:%d:%s", big, how), func(t *T) { i02cut(t, big, how == "error") })
			}
		}
		lines := i02lines()
		for l0 := range lines {
			l0 := l0
			emit(fmt.Sprintf("text:%d", l0), func(t *T) {
				max := t.Pick(4, 5)
				var rec func(sel []int)
				rec = func(sel []int) {
					if t.Expired() {
						return
					}
					i02text(t, lines, sel)
					if len(sel) == max {
						return
					}
					for i := range lines {
						rec(append(sel[:len(sel):len(sel)], i))
					}
				}
				rec([]int{l0})
			})
		}
	})
}

// i02cut reads an index archive of which only the first bytes arrive: it is an error, or, when all
// that matters has been read by then, the index that was written.
func i02cut(t *T, big int, fail bool) {
	noise := func(n int, seed uint32) string {
		b := make([]byte, n)
		for i := range b {
			seed = seed*1664525 + 1013904223
			b[i] = 'a' + byte(seed>>24)%26
		}
		return string(b)
	}
	want := &apk.APKIndex{Description: "d" + noise(big, 1)}
	for i := 0; i < 3; i++ {
		want.Packages = append(want.Packages, &apk.Package{Name: fmt.Sprintf("p%d", i), Version: "1", Description: "d" + noise(big/3, uint32(i+2))})
	}
	r, err := apk.ArchiveFromIndex(want)
	if err != nil {
		t.Fail("cut", "writing an index: %v", err)
		return
	}
	b := readAll(r)
	step := 1
	if len(b) > 2000 {
		step = len(b) / t.Pick(97, 1009)
	}
	for n := 0; n < len(b) && !t.Expired(); n += step {
		key := fmt.Sprintf("cut:%d:%v:%d", big, fail, n)
		t.Tick()
		t.Trans(1)
		t.State(key)
		t.Eval(true)
		var src io.Reader = bytes.NewReader(b[:n])
		if fail {
			src = io.MultiReader(src, iotest.ErrReader(errors.New("connection reset")))
		}
		got, err := apk.IndexFromArchive(io.NopCloser(src))
		if err != nil {
			continue
		}
		if got == nil {
			t.Fail(key, "IndexFromArchive returns neither an index nor an error for the first %d of %d bytes of an archive", n, len(b))
			return
		}
		same := got.Description == want.Description && len(got.Packages) == len(want.Packages)
		for i := 0; same && i < len(want.Packages); i++ {
			same = samePkg(got.Packages[i], want.Packages[i], "Replaces", "DataHash") == ""
		}
		if !same {
			t.Fail(key, "the first %d of %d bytes of an archive are read as an index of %d packages, without an error", n, len(b), len(got.Packages))
			return
		}
	}
}

func i02lines() []string {
	return []string{"", "P:one", "P:two", "V:1", "S:12", "S:x", "S:-1", "k:99999999999999999999", "t:7", "t:", "C:Q1MTIzNDU2Nzg5MDEyMzQ1Njc4OTA=", "C:Q1***", "D:a b", "D:", "i:q r", "F", "T:P:x", "X:unknown", "nocolon"}
}

// i02ref is an independent reading of an index text; ok=false when it must be rejected, skip when
// the text is outside the assumptions.
func i02ref(text string) (pkgs []*apk.Package, ok, skip bool) {
	ok = true
	for _, block := range strings.Split(text, "\n\n") {
		p := &apk.Package{}
		seen := map[byte]bool{}
		any := false
		for _, l := range strings.Split(block, "\n") {
			if l == "" {
				continue
			}
			any = true
			if len(l) < 2 || l[1] != ':' {
				ok = false
				continue
			}
			if seen[l[0]] {
				skip = true
			}
			seen[l[0]] = true
			v := l[2:]
			var err error
			switch l[0] {
			case 'P':
				p.Name = v
			case 'V':
				p.Version = v
			case 'S':
				p.Size, err = strconv.ParseUint(v, 10, 64)
			case 'k':
				p.ProviderPriority, err = strconv.ParseUint(v, 10, 64)
			case 't':
				p.BuildDate, err = strconv.ParseInt(v, 10, 64)
				p.BuildTime = time.Unix(p.BuildDate, 0).UTC()
			case 'C':
				p.Checksum, err = base64.StdEncoding.DecodeString(v[2:])
			case 'D':
				p.Dependencies = strings.Fields(v)
			case 'i':
				p.InstallIf = strings.Fields(v)
			case 'T':
				p.Description = v
			}
			if err != nil {
				ok = false
			}
		}
		if any && p.Name == "" {
			skip = true
		}
		if any {
			pkgs = append(pkgs, p)
		}
	}
	return
}

func i02text(t *T, lines []string, sel []int) {
	var ls []string
	for _, i := range sel {
		ls = append(ls, lines[i])
	}
	for _, end := range []string{"", "\n", "\n\n"} {
		text := strings.Join(ls, "\n") + end
		want, ok, skip := i02ref(text)
		if skip {
			continue
		}
		t.Tick()
		t.Eval(len(sel) > 1)
		t.Trans(1)
		t.Trace(1)
		got, err := apk.ParsePackageIndex(strings.NewReader(text))
		key := fmt.Sprintf("text:%v:%d", sel, len(end))
		switch {
		case err == nil && !ok:
			t.Fail(key, "malformed index text %q is accepted", text)
		case err != nil && ok:
			t.Fail(key, "index text %q is rejected: %v", text, err)
		case err == nil:
			if len(got) != len(want) {
				t.Fail(key, "index text %q: %d packages read, it has %d", text, len(got), len(want))
				return
			}
			for i := range got {
				if d := samePkg(got[i], want[i]); d != "" {
					t.Fail(key, "index text %q, package %d: %s", text, i, d)
					return
				}
			}
		}
	}
}
