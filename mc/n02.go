package main

import (
	"archive/tar"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("N02", check{run: runN02, level: "model_checking",
		rule: "real InstallPackages / AddInstalledPackage / GetInstalled: all trees over a pool of entries (root files, nested and empty directories, modes, owners, links, other spellings) in three entry orders, all ordered package pairs of N01, metadata values, records of up to 100 kB and thousands of entries, and all histories of installing and re-installing packages with similar names; the database text is read by an independent parser and compared with what the overlay reference says each package owns, then what the code reads back with the same; " +
			"non-trivial when the package has at least one file or the history at least two installations",
		assumptions: []string{"packages carry an entry for every parent directory", "a missing line equals an empty value", "links that were there before are not required to be recorded"}})
}

// dbFile is one owned path of a record.
type dbFile struct {
	dir  bool
	mode int64
	uid  int
	gid  int
	sum  string
}

func (f dbFile) String() string {
	return fmt.Sprintf("dir=%v %d:%d:%o %s", f.dir, f.uid, f.gid, f.mode, f.sum)
}

type dbRec struct {
	f     map[string]string
	files map[string]dbFile
}

// dbParse reads an installed database; it is written from the format, not from the code.
func dbParse(b string) ([]dbRec, error) {
	var out []dbRec
	if b == "" {
		return nil, nil
	}
	if !strings.HasSuffix(b, "\n\n") {
		return nil, fmt.Errorf("the last record is not closed by an empty line")
	}
	for _, block := range strings.Split(strings.TrimSuffix(b, "\n\n"), "\n\n") {
		r := dbRec{f: map[string]string{}, files: map[string]dbFile{}}
		dir, cur, haveDir := "", "", false
		for _, l := range strings.Split(block, "\n") {
			if len(l) < 2 || l[1] != ':' {
				return nil, fmt.Errorf("line %q", l)
			}
			v := l[2:]
			switch l[0] {
			case 'F':
				dir, haveDir, cur = v, true, v
				if v == "" {
					continue
				}
				if _, ok := r.files[v]; ok {
					return nil, fmt.Errorf("%s is listed twice", v)
				}
				if v != path.Clean(v) || strings.HasPrefix(v, "/") {
					return nil, fmt.Errorf("directory name %q", v)
				}
				r.files[v] = dbFile{dir: true, mode: 0o755}
			case 'R':
				if !haveDir {
					return nil, fmt.Errorf("file %s before any directory", v)
				}
				if strings.Contains(v, "/") {
					return nil, fmt.Errorf("file name %q", v)
				}
				cur = path.Join(dir, v)
				if _, ok := r.files[cur]; ok {
					return nil, fmt.Errorf("%s is listed twice", cur)
				}
				r.files[cur] = dbFile{mode: 0o644}
			case 'M', 'a':
				e, ok := r.files[cur]
				if !ok || e.dir != (l[0] == 'M') {
					return nil, fmt.Errorf("line %q does not follow its entry", l)
				}
				if n, err := fmt.Sscanf(v, "%d:%d:%o", &e.uid, &e.gid, &e.mode); n != 3 || err != nil {
					return nil, fmt.Errorf("line %q", l)
				}
				r.files[cur] = e
			case 'Z':
				e, ok := r.files[cur]
				if !ok || e.dir {
					return nil, fmt.Errorf("line %q does not follow a file", l)
				}
				e.sum = v
				r.files[cur] = e
			default:
				if _, ok := r.f[l[:1]]; ok {
					return nil, fmt.Errorf("field %c is given twice", l[0])
				}
				r.f[l[:1]] = v
			}
		}
		out = append(out, r)
	}
	return out, nil
}

func q1(b string) string {
	s := sha1.Sum([]byte(b))
	return "Q1" + base64.StdEncoding.EncodeToString(s[:])
}

// wantFiles is what the record of a package must own.
func wantFiles(es []tent) map[string]dbFile {
	m := map[string]dbFile{}
	for _, e := range es {
		p := strings.TrimPrefix(path.Clean("/"+e.name), "/")
		if p == "" {
			continue
		}
		f := dbFile{mode: e.mode & 0o7777, uid: e.uid, gid: e.gid}
		switch e.typ {
		case tar.TypeDir:
			f.dir = true
		case tar.TypeReg:
			f.sum = q1(e.body)
		case tar.TypeSymlink:
			f.sum = q1(e.link)
		}
		m[p] = f
	}
	return m
}

func cmpFiles(got, want map[string]dbFile) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		w, ok := want[k]
		if !ok {
			return fmt.Sprintf("%s is listed", k)
		}
		if g != w {
			return fmt.Sprintf("%s is recorded as %v, expected %v", k, g, w)
		}
	}
	return ""
}

// infoVal collects the values of a PKGINFO key.
func infoVals(info, key string) []string {
	var l []string
	for _, x := range strings.Split(info, "\n") {
		if strings.HasPrefix(x, key+" = ") {
			l = append(l, x[len(key)+3:])
		}
	}
	return l
}

var n02keys = [][2]string{{"P", "pkgname"}, {"V", "pkgver"}, {"A", "arch"}, {"L", "license"}, {"T", "pkgdesc"}, {"o", "origin"}, {"m", "maintainer"}, {"U", "url"}, {"D", "depend"}, {"p", "provides"}, {"r", "replaces"}, {"c", "commit"}, {"t", "builddate"}, {"I", "size"}, {"k", "provider_priority"}, {"i", "install_if"}}

// dbCheck compares the database of e with the packages of the overlay.
func dbCheck(e *instEnv, o *overlay) string {
	raw, err := e.fs.ReadFile("lib/apk/db/installed")
	if err != nil {
		return err.Error()
	}
	recs, err := dbParse(string(raw))
	if err != nil {
		return "the database is not well-formed: " + err.Error()
	}
	if len(recs) != len(o.rec) {
		var l []string
		for _, r := range recs {
			l = append(l, r.f["P"])
		}
		return fmt.Sprintf("the database has %d records %v, expected %d", len(recs), l, len(o.rec))
	}
	back, err := e.a.GetInstalled()
	if err != nil {
		return "GetInstalled: " + err.Error()
	}
	back2, err := apk.ParseInstalled(bytes.NewReader(raw))
	if err != nil {
		return "ParseInstalled: " + err.Error()
	}
	if !reflect.DeepEqual(back, back2) {
		return "GetInstalled and ParseInstalled differ"
	}
	if len(back) != len(o.rec) {
		return fmt.Sprintf("GetInstalled returns %d packages, expected %d", len(back), len(o.rec))
	}
	for i, b := range o.rec {
		r := recs[i]
		for _, k := range n02keys {
			want := strings.Join(infoVals(b.pkginfo, k[1]), " ")
			got := r.f[k[0]]
			if want == "" && got == "0" && strings.Contains("tIk", k[0]) {
				got = ""
			}
			if got != want {
				return fmt.Sprintf("record %d (%s): field %s is %q, expected %q", i, b.name, k[0], short2(got), short2(want))
			}
		}
		if r.f["C"] != b.q1 {
			return fmt.Sprintf("record %d (%s): checksum %s, expected %s", i, b.name, r.f["C"], b.q1)
		}
		if r.f["S"] != fmt.Sprint(len(b.all)) {
			return fmt.Sprintf("record %d (%s): size %s, expected %d", i, b.name, r.f["S"], len(b.all))
		}
		mine := o.ents[b]
		// what another package took over is no longer listed
		var own []tent
		for _, x := range mine {
			p := path.Clean(x.name)
			if x.typ == tar.TypeReg && o.owner[p] != nil && o.owner[p] != b {
				continue
			}
			own = append(own, x)
		}
		want := wantFiles(own)
		if _, ok := e.fs.(*lazyFS); ok {
			// a checksum is only recorded if the package has one
			for _, x := range own {
				if x.noSum {
					p := path.Clean(x.name)
					f := want[p]
					f.sum = ""
					want[p] = f
				}
			}
		}
		if d := cmpFiles(r.files, want); d != "" {
			return fmt.Sprintf("record %d (%s): %s", i, b.name, d)
		}
		// and read back
		g := back[i]
		gotFiles, d := hdrFiles(g.Files)
		if d == "" {
			d = cmpFiles(gotFiles, want)
		}
		if d != "" {
			return fmt.Sprintf("reading record %d (%s) back: %s", i, b.name, d)
		}
		if d := cmpInstalled(&g.Package, b); d != "" {
			return fmt.Sprintf("reading record %d (%s) back: %s", i, b.name, d)
		}
	}
	return ""
}

func short2(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s..(%d)", s[:50], len(s))
	}
	return s
}

func hdrFiles(hs []tar.Header) (map[string]dbFile, string) {
	m := map[string]dbFile{}
	for _, h := range hs {
		f := dbFile{dir: h.Typeflag == tar.TypeDir, mode: h.Mode, uid: h.Uid, gid: h.Gid}
		for _, v := range h.PAXRecords {
			f.sum = v
		}
		if _, ok := m[h.Name]; ok {
			return m, h.Name + " is listed twice"
		}
		m[h.Name] = f
	}
	return m, ""
}

func cmpInstalled(p *apk.Package, b *builtApk) string {
	one := func(k string) string { return strings.Join(infoVals(b.pkginfo, k), " ") }
	for _, x := range [][3]string{{"name", p.Name, one("pkgname")}, {"version", p.Version, one("pkgver")}, {"arch", p.Arch, one("arch")}, {"license", p.License, one("license")},
		{"description", p.Description, one("pkgdesc")}, {"origin", p.Origin, one("origin")}, {"maintainer", p.Maintainer, one("maintainer")}, {"url", p.URL, one("url")}, {"commit", p.RepoCommit, one("commit")},
		{"checksum", p.ChecksumString(), b.q1}} {
		if x[1] != x[2] {
			return fmt.Sprintf("%s is %q, expected %q", x[0], short2(x[1]), short2(x[2]))
		}
	}
	for _, x := range []struct {
		n    string
		g, w []string
	}{{"dependencies", p.Dependencies, infoVals(b.pkginfo, "depend")}, {"provides", p.Provides, infoVals(b.pkginfo, "provides")}, {"replaces", p.Replaces, infoVals(b.pkginfo, "replaces")}, {"install_if", p.InstallIf, strings.Fields(one("install_if"))}} {
		if len(x.g) != len(x.w) || strings.Join(x.g, "|") != strings.Join(x.w, "|") {
			return fmt.Sprintf("%s are %q, expected %q", x.n, x.g, x.w)
		}
	}
	num := func(k string) string {
		if v := one(k); v != "" {
			return v
		}
		return "0"
	}
	if fmt.Sprint(p.InstalledSize) != num("size") || p.Size != uint64(len(b.all)) || fmt.Sprint(p.ProviderPriority) != num("provider_priority") || fmt.Sprint(p.BuildTime.Unix()) != num("builddate") {
		return fmt.Sprintf("numbers are %d/%d/%d/%d", p.InstalledSize, p.Size, p.ProviderPriority, p.BuildTime.Unix())
	}
	return ""
}

func n02case(t *T, kind, key string, calls [][]*builtApk, what string) (*instEnv, *overlay) {
	e, o, ci, bad, err := instRun(t, kind, key, calls, nil)
	if bad != "" {
		raw, rerr := e.fs.ReadFile("lib/apk/db/installed")
		recs, perr := dbParse(string(raw))
		n := 0
		for k := 0; k < ci; k++ {
			n += len(calls[k])
		}
		if err != nil && (rerr != nil || perr != nil || len(recs) != n) {
			t.Fail("failed:"+what, "%s: after the failed installation the database holds %d records, expected %d (%v %v)", key, len(recs), n, rerr, perr)
		}
		t.Outcome("overlap-error")
		return nil, nil
	}
	if err != nil {
		t.Fail("refused:"+what, "%s: the installation fails (call %d): %v", key, ci, err)
		return nil, nil
	}
	if d := dbCheck(e, o); d != "" {
		t.Fail("db:"+what, "%s: %s", key, d)
	}
	t.Outcome("installed")
	t.Trace(1)
	return e, o
}

func ownE(e tent, u, g int) tent { e.uid, e.gid = u, g; return e }

func runN02(c *C) {
	pool := []struct {
		parents []int
		e       tent
	}{
		{nil, dirE("u/")},
		{[]int{0}, modeE(dirE("u/b/"), 0o700)},
		{[]int{0, 1}, reg("u/b/f", "1")},
		{[]int{0}, modeE(ownE(reg("u/f", "2"), 7, 8), 0o4755)},
		{[]int{0}, symE("u/l", "f")},
		{nil, reg("root", "r")},
		{nil, modeE(dirE("tmp/"), 0o1777)},
		{[]int{0, 1}, ownE(dirE("u/b/e/"), 5, 0)},
		{nil, ownE(dirE("u.d/"), 0, 6)},
		{[]int{8}, noSumE(reg("u.d/f", "3"))},
		{[]int{0}, dirE("u/b.x/")},
		{nil, modeE(reg("a", "first"), 0o600)},
		{nil, symE("u-l", "u")},
	}
	nb := len(pool)
	if !c.Thorough() {
		nb = 11
	}
	c.Sample("files: u/ u/b/(0700) u/b/f root tmp/(1777), entries in reverse order, recorded by AddInstalledPackage")
	c.Run(func(emit func(string, func(*T))) {
		// all trees over the pool
		step := 32
		for lo := 0; lo < 1<<nb; lo += step {
			lo := lo
			emit(fmt.Sprintf("tree:%x", lo), func(t *T) {
				for m := lo; m < lo+step && m < 1<<nb; m++ {
					ok := true
					var es []tent
					for i := 0; i < nb; i++ {
						if m&(1<<i) == 0 {
							continue
						}
						for _, p := range pool[i].parents {
							ok = ok && m&(1<<p) != 0
						}
						es = append(es, pool[i].e)
					}
					if !ok {
						continue
					}
					t.Tick()
					t.Eval(len(es) > 0)
					key := fmt.Sprintf("tree:%x", m)
					b := apkSpec{name: "a", ver: "1-r0", data: es}.build()
					n02case(t, "mem", key, [][]*builtApk{{b}}, "tree")
					if m%8 == 0 || t.Thorough() {
						n02case(t, "lazy", key+":lazy", [][]*builtApk{{b}}, "tree-lazy")
					}
					t.State(entsString(es))
					// direct recording, in other entry orders and spellings
					for ord := 0; ord < 3; ord++ {
						n02add(t, fmt.Sprintf("%s:add%d", key, ord), es, ord)
					}
				}
			})
		}
		// what overlaps do to the records
		kinds := n01kinds()
		// the kinds of regular files
		lz := func(k int) bool { return k < 9 || k > 14 }
		for ka := range kinds {
			ka := ka
			emit("pair:"+kinds[ka].name, func(t *T) {
				for kb := range kinds {
					for _, og := range [][2]string{{"o", "o"}, {"o", "p"}, {"", ""}} {
						for ri, rp := range [][2][]string{{nil, nil}, {nil, {"a"}}, {{"b"}, nil}} {
							t.Tick()
							a := n01pkg("a", og[0], rp[0], kinds[ka].es("d/f"))
							b := n01pkg("b", og[1], rp[1], kinds[kb].es("d/f"))
							t.Eval(true)
							n02case(t, "mem", fmt.Sprintf("pair:%s/%s:%s%s:%d", kinds[ka].name, kinds[kb].name, og[0], og[1], ri), [][]*builtApk{{a, b}}, "pair")
							if lz(ka) && lz(kb) {
								n02case(t, "lazy", fmt.Sprintf("pair:%s/%s:%s%s:%d:lazy", kinds[ka].name, kinds[kb].name, og[0], og[1], ri), [][]*builtApk{{a, b}}, "pair-lazy")
							}
						}
					}
				}
			})
		}
		r3 := []int{0, 1, 3, 4}
		for i := 0; i < 64; i++ {
			i := i
			emit(fmt.Sprintf("triple:%d", i), func(t *T) {
				for ri, rp := range [][3][]string{{}, {nil, nil, {"a"}}, {{"c"}, nil, nil}, {nil, {"a"}, {"b"}}} {
					for _, og := range [][3]string{{"o", "o", "o"}, {"o", "p", "o"}, {"o", "p", "q"}} {
						t.Tick()
						t.Eval(true)
						a := n01pkg("a", og[0], rp[0], kinds[r3[i&3]].es("d/f"))
						b := n01pkg("b", og[1], rp[1], kinds[r3[i>>2&3]].es("d/f"))
						cc := n01pkg("c", og[2], rp[2], kinds[r3[i>>4&3]].es("d/f"))
						n02case(t, "mem", fmt.Sprintf("triple:%d:%d:%v", i, ri, og), [][]*builtApk{{a, b, cc}}, "triple")
						n02case(t, "lazy", fmt.Sprintf("triple:%d:%d:%v:lazy", i, ri, og), [][]*builtApk{{a, b, cc}}, "triple-lazy")
					}
				}
			})
		}
		// modes and owners of a file and a directory
		for _, m := range []int64{0o644, 0o755, 0o600, 0o1755, 0o2755, 0o1644, 0o4644, 0o4755, 0o777, 0o7777, 0} {
			m := m
			emit(fmt.Sprintf("mode:%o", m), func(t *T) {
				for _, m2 := range []int64{0o644, 0o755, 0o1755} {
					for _, u := range []int{0, 7, 65534} {
						for _, g := range []int{0, 8, 100000} {
							t.Tick()
							t.Eval(true)
							es := []tent{dirE("d/"), ownE(modeE(dirE("d/e/"), m), u, g), ownE(modeE(reg("d/e/f", "1"), m2), g, u), ownE(modeE(reg("g", "2"), m), u, g), ownE(modeE(dirE("h/"), m2), g, u)}
							key := fmt.Sprintf("mode:%o:%o:%d:%d", m, m2, u, g)
							n02case(t, "mem", key, [][]*builtApk{{apkSpec{name: "a", ver: "1-r0", data: es}.build()}}, "mode")
							n02add(t, key+":add", es, 0)
						}
					}
				}
			})
		}
		// metadata
		emit("meta", func(t *T) {
			long := strings.Repeat("so:libverylongname.so.1=1.2.3-r0 ", 3000)
			infos := [][]string{
				{},
				{"pkgdesc = A thing, with: punctuation & (more)", "license = MIT AND Apache-2.0", "maintainer = A B <a@b.example>", "url = https://x.example/a?b=c&d=e", "commit = 0123abc", "builddate = 1700000000", "provider_priority = 10"},
				{"depend = so:libc.so.6", "depend = b>=1.2", "depend = !c", "depend = d~2", "provides = cmd:x=1-r0", "provides = y", "replaces = z", "replaces = q"},
				{"install_if = b c=1"},
				{"provides = " + strings.TrimSpace(strings.ReplaceAll(long[:200], " ", "/")), "builddate = 0", "provider_priority = 18446744073709551615"},
				{"pkgdesc = "},
				{"pkgdesc = " + strings.Repeat("x", 70000)},
				{"pkgdesc = " + strings.Repeat("y", 200000), "depend = z"},
			}
			var many []string
			for i := 0; i < 4000; i++ {
				many = append(many, fmt.Sprintf("provides = so:libthenumber%d.so.1=1.%d", i, i))
			}
			infos = append(infos, many)
			var prev []*builtApk
			for i, info := range infos {
				sz := 0
				if i%2 == 1 {
					sz = 123456789
				}
				b := apkSpec{name: fmt.Sprintf("m%d", i), ver: "1.2_rc3-r4", origin: []string{"", "src"}[i%2], info: info, size: sz, data: []tent{dirE("d/"), reg(fmt.Sprintf("d/%d", i), "1")}}.build()
				t.Eval(true)
				n02case(t, "mem", fmt.Sprintf("meta:%d", i), [][]*builtApk{{b}}, fmt.Sprintf("meta%d", i))
				prev = append(prev, b)
			}
			// all in one and in separate calls
			n02case(t, "mem", "meta:all", [][]*builtApk{prev}, "meta")
			var calls [][]*builtApk
			for _, b := range prev {
				calls = append(calls, []*builtApk{b})
			}
			n02case(t, "dir", "meta:calls", calls, "meta")
		})
		// size
		emit("large", func(t *T) {
			es := []tent{dirE("d/")}
			n := t.Pick(3000, 20000)
			for i := 0; i < n; i++ {
				es = append(es, reg(fmt.Sprintf("d/file-%d", i), ""))
			}
			for i := 0; i < n/10; i++ {
				es = append(es, dirE(fmt.Sprintf("d/dir-%d/", i)), reg(fmt.Sprintf("d/dir-%d/f", i), "x"))
			}
			t.Eval(true)
			n02case(t, "mem", "large", [][]*builtApk{{apkSpec{name: "big", ver: "1-r0", data: es}.build()}}, "large")
			deep := []tent{}
			p := ""
			for i := 0; i < 60; i++ {
				p += fmt.Sprintf("dir%d/", i)
				deep = append(deep, dirE(p), reg(p+"f", fmt.Sprint(i)))
			}
			n02case(t, "mem", "deep", [][]*builtApk{{apkSpec{name: "deep", ver: "1-r0", data: deep}.build()}}, "large")
		})
		emit("many", func(t *T) {
			var bs []*builtApk
			for i := 0; i < t.Pick(100, 300); i++ {
				bs = append(bs, apkSpec{name: fmt.Sprintf("p%d", i), ver: "1-r0", data: []tent{dirE("d/"), reg(fmt.Sprintf("d/%d", i), fmt.Sprint(i))}}.build())
			}
			t.Eval(true)
			n02case(t, "mem", "many", [][]*builtApk{bs}, "many")
		})
		// histories of installations of packages with similar names
		names := []struct{ n, v string }{{"a", "1-r0"}, {"ab", "1-r0"}, {"a", "2-r0"}, {"b", "1-r0"}, {"a-b", "1-r0"}, {"A", "1-r0"}}
		pk := make([]*builtApk, len(names))
		for i, x := range names {
			pk[i] = apkSpec{name: x.n, ver: x.v, info: []string{"provides = b", "provides = ab=1"}, data: []tent{dirE("d/"), reg(fmt.Sprintf("d/%d", i), fmt.Sprint(i))}, scripts: []tent{reg(".post-install", fmt.Sprint(i))}}.build()
		}
		depth := c.Pick(3, 4)
		n := len(names)
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		for lo := 0; lo < total; lo += 36 {
			lo := lo
			emit(fmt.Sprintf("hist:%d", lo), func(t *T) {
				for x := lo; x < lo+36 && x < total; x++ {
					for cut := 0; cut < 1<<(depth-1); cut++ {
						t.Tick()
						var calls [][]*builtApk
						v := x
						for k := 0; k < depth; k++ {
							b := pk[v%n]
							v /= n
							if k == 0 || cut&(1<<(k-1)) != 0 {
								calls = append(calls, nil)
							}
							calls[len(calls)-1] = append(calls[len(calls)-1], b)
						}
						// one package twice within one call is not a list of packages
						dup := false
						for _, bs := range calls {
							seen := map[string]bool{}
							for _, b := range bs {
								dup = dup || seen[b.name]
								seen[b.name] = true
							}
						}
						if dup {
							continue
						}
						t.Eval(true)
						e, o := n02case(t, "mem", fmt.Sprintf("hist:%d:%d", x, cut), calls, "hist")
						if e == nil {
							continue
						}
						t.State(fmt.Sprint(len(o.rec), o.rec[len(o.rec)-1].name))
						// once more: nothing changes
						before := map[string]string{}
						for _, f := range []string{"installed", "scripts.tar", "triggers"} {
							before[f] = string(must1(e.fs.ReadFile("lib/apk/db/" + f)))
						}
						if err := e.install(nil, o.rec...); err != nil {
							t.Fail("again", "hist:%d:%d: installing the installed packages again fails: %v", x, cut, err)
						}
						for f, v := range before {
							if string(must1(e.fs.ReadFile("lib/apk/db/"+f))) != v {
								t.Fail("again-"+f, "hist:%d:%d: installing the installed packages again changes %s", x, cut, f)
							}
						}
						if d := instTree(e.fs, o.ref); d != "" {
							t.Fail("again-tree", "hist:%d:%d: %s", x, cut, d)
						}
					}
				}
			})
		}
		// reading databases written by others
		emit("read", func(t *T) { n02read(t) })
	})
}

// n02add records entries directly, in a given order and spelling, and compares.
func n02add(t *T, key string, es []tent, ord int) {
	f := apkfs.NewMemFS()
	must(f.MkdirAll("lib/apk/db", 0o755))
	pre := "P:old\nV:1\nF:x\nR:y\n\n"
	must(f.WriteFile("lib/apk/db/installed", []byte(pre), 0o644))
	a := newAPK(apk.WithFS(f))
	var hs []tar.Header
	for i := range es {
		e := es[i]
		if ord == 1 {
			e = es[len(es)-1-i]
		}
		if ord == 2 {
			e = es[(i+len(es)/2)%len(es)]
		}
		h := tar.Header{Name: e.name, Typeflag: e.typ, Mode: e.mode, Uid: e.uid, Gid: e.gid, Linkname: e.link}
		switch {
		case ord == 1:
			h.Name = strings.TrimSuffix(h.Name, "/")
		case ord == 2:
			h.Name = "./" + h.Name
		}
		if e.typ == tar.TypeReg {
			h.PAXRecords = map[string]string{"APK-TOOLS.checksum.SHA1": q1(e.body)}
		}
		if e.typ == tar.TypeSymlink {
			h.PAXRecords = map[string]string{"APK-TOOLS.checksum.SHA1": fmt.Sprintf("%x", sha1.Sum([]byte(e.link)))}
		}
		hs = append(hs, h)
	}
	if ord == 2 {
		hs = append(hs, tar.Header{Name: "./", Typeflag: tar.TypeDir, Mode: 0o755})
	}
	p := &apk.Package{Name: "new", Version: "2", Checksum: []byte{1, 2, 3}, BuildTime: time.Unix(77, 0), InstallIf: []string{"q", "r"}}
	if err := a.AddInstalledPackage(p, hs); err != nil {
		t.Fail("add", "%s: AddInstalledPackage: %v", key, err)
		return
	}
	raw := string(must1(f.ReadFile("lib/apk/db/installed")))
	if !strings.HasPrefix(raw, pre) {
		t.Fail("add-prefix", "%s: the earlier records changed", key)
		return
	}
	recs, err := dbParse(raw)
	if err != nil || len(recs) != 2 {
		t.Fail("add-form", "%s: %d records, %v", key, len(recs), err)
		return
	}
	want := wantFiles(es)
	if d := cmpFiles(recs[1].files, want); d != "" {
		t.Fail("add-files", "%s: %s (%s)", key, d, entsString(es))
	}
	if recs[1].f["P"] != "new" || recs[1].f["t"] != "77" || recs[1].f["i"] != "q r" {
		t.Fail("add-fields", "%s: fields %v", key, recs[1].f)
	}
	back, err := a.GetInstalled()
	if err != nil || len(back) != 2 {
		t.Fail("add-read", "%s: GetInstalled: %d, %v", key, len(back), err)
		return
	}
	got, d := hdrFiles(back[1].Files)
	if d == "" {
		d = cmpFiles(got, want)
	}
	if d != "" {
		t.Fail("add-back", "%s: read back: %s (%s)", key, d, entsString(es))
	}
	t.Trans(1)
}

func n02read(t *T) {
	type rd struct {
		text  string
		names string // "error" if it must fail
		files string
	}
	big := strings.Repeat("p", 100000)
	huge := strings.Repeat("so:x ", 300000)
	for i, r := range []rd{
		{"", "", ""},
		{"\n\n\n", "", ""},
		{"P:a\nV:1\n\n", "a", ""},
		{"P:a\nV:1\n", "a", ""},
		{"P:a\nV:1", "a", ""},
		{"P:a\nV:1\n\nP:b\nV:1", "a b", ""},
		{"P:a\n\n\n\nP:b\n\n", "a b", ""},
		{"P:a\nT:" + big + "\n\nP:b\n\n", "a b", ""},
		{"P:a\np:" + huge + "\n\nP:b\n\n", "a b", ""},
		{"P:a\nF:\nR:f\nF:d\nM:1:2:0700\nR:g\na:3:4:0600\nZ:Q1xyz\n\n", "a", "f/0/0/644/ d/1/2/700/ d/g/3/4/600/Q1xyz"},
		{"P:a\nF:\nM:0:0:1777\nR:f\n\n", "a", "f/0/0/644/"},
		{"P:a\nF:d\nR:g\n\nP:b\nF:e\nR:g\n\n", "a b", "d/0/0/755/ d/g/0/0/644/ e/0/0/755/ e/g/0/0/644/"},
		{"P:a\nF:d\nR:g\n\nP:b\nR:g\n\n", "a b", "d/0/0/755/ d/g/0/0/644/ g/0/0/644/"},
		{"P:a\nF:d\nR:..g\n\n", "a", "d/0/0/755/ d/..g/0/0/644/"},
		{"P:a\nx\n\n", "error", ""},
		{"P:a\nxy\n\n", "error", ""},
		{"P:a\nM:1:2:0700\n\n", "error", ""},
		{"P:a\na:1:2:0700\n\n", "error", ""},
		{"P:a\nF:d\nM:1:2\n\n", "error", ""},
		{"P:a\nF:d\nM:x:2:0700\n\n", "error", ""},
		{"P:a\nF:d\nM:1:y:0700\n\n", "error", ""},
		{"P:a\nF:d\nM:1:2:0900\n\n", "error", ""},
		{"P:a\nF:d\na:1:2:0700\n\n", "error", ""},
		{"P:a\nS:x\n\n", "error", ""},
		{"P:a\nI:-1\n\n", "error", ""},
		{"P:a\nk:1.5\n\n", "error", ""},
		{"P:a\nt:now\n\n", "error", ""},
		{"P:a\nC:Q1!!!\n\n", "error", ""},
		{"P:a\nq:unknown\ns:known to others\n\n", "a", ""},
	} {
		t.Eval(true)
		t.Trace(1)
		ps, err := apk.ParseInstalled(strings.NewReader(r.text))
		if r.names == "error" {
			if err == nil {
				t.Fail(fmt.Sprintf("read%d", i), "read:%d: %q is accepted", i, short2(r.text))
			}
			continue
		}
		var names, files []string
		for _, p := range ps {
			names = append(names, p.Name)
			for _, l := range [][]string{p.Dependencies, p.Replaces, p.InstallIf} {
				if len(l) != 0 {
					t.Fail("read-lists", "read:%d: %q has %q", i, short2(r.text), l)
				}
			}
			for _, f := range p.Files {
				files = append(files, fmt.Sprintf("%s/%d/%d/%o/%s", f.Name, f.Uid, f.Gid, f.Mode, f.PAXRecords["APK-TOOLS.checksum.SHA1"]))
			}
		}
		if err != nil || strings.Join(names, " ") != r.names || strings.Join(files, " ") != r.files {
			t.Fail(fmt.Sprintf("read%d", i), "read:%d: %q gives %v %v, %v; expected %s %s", i, short2(r.text), names, files, err, r.names, r.files)
		}
	}
	// empty lists read back as empty
	ps, err := apk.ParseInstalled(strings.NewReader("P:a\nD:\np:\nr:\ni:\n\n"))
	if err != nil || len(ps) != 1 || len(ps[0].Dependencies)+len(ps[0].Provides)+len(ps[0].Replaces)+len(ps[0].InstallIf) != 0 {
		t.Fail("read-empty", "read: empty lists give %+v, %v", ps, err)
	}
}
