package main

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"golang.org/x/sys/unix"
)

func init() {
	register("D01", check{run: runD01, level: "model_checking",
		rule:        "initialisation from every state in which up to two (three) of the announced objects or base directories already exist (right kind, wrong kind, other permissions, earlier content), for one to three initialisations in a row, several architectures and both filesystems, compared with the announced list; non-trivial when something already exists or initialisation is repeated",
		assumptions: []string{"an announced directory or file that already exists keeps its permissions", "on the disk-backed filesystem devices may be kept in memory only (no privilege)"}})
}

type d01obj struct {
	path string
	kind byte // d f c
	mode fs.FileMode
	body string
	dev  int
	base bool
}

func d01want(arch string) []d01obj {
	return []d01obj{
		{path: "tmp", kind: 'd', mode: 0o777 | fs.ModeSticky, base: true}, {path: "dev", kind: 'd', mode: 0o755, base: true},
		{path: "etc", kind: 'd', mode: 0o755, base: true}, {path: "lib", kind: 'd', mode: 0o755, base: true},
		{path: "proc", kind: 'd', mode: 0o555, base: true}, {path: "var", kind: 'd', mode: 0o755, base: true},
	}
}

// what the library announces, in the same form
func d01announced(a *apk.APK) []d01obj {
	var out []d01obj
	for _, h := range a.ListInitFiles() {
		k := byte('f')
		switch h.Typeflag {
		case tar.TypeDir:
			k = 'd'
		case tar.TypeChar:
			k = 'c'
		}
		out = append(out, d01obj{path: strings.Trim(h.Name, "/"), kind: k, mode: fs.FileMode(h.Mode).Perm()})
	}
	return out
}

var d01devs = map[string][2]uint32{"dev/zero": {1, 5}, "dev/urandom": {1, 9}, "dev/null": {1, 3}, "dev/random": {1, 8}, "dev/console": {5, 1}}

func runD01(c *C) {
	probe := newAPK()
	all := append(d01want("x86_64"), d01announced(probe)...)
	c.Sample("etc/apk exists, etc/apk/world exists with 'x', initialised twice")
	// deviations: object index × state
	type dev struct {
		i    int
		what string
	}
	var devs []dev
	for i, o := range all {
		devs = append(devs, dev{i, "same"}, dev{i, "otherkind"})
		if o.kind == 'd' {
			devs = append(devs, dev{i, "perm"})
			if o.mode.Perm()|0o222 != o.mode.Perm() {
				devs = append(devs, dev{i, "permore"})
			}
		} else if o.kind == 'f' {
			devs = append(devs, dev{i, "content"})
		} else {
			devs = append(devs, dev{i, "otherdev"})
		}
	}
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range []string{"mem", "dir"} {
			for _, ign := range []bool{false, true} {
				kind, ign := kind, ign
				emit(fmt.Sprintf("%s:%v:fresh", kind, ign), func(t *T) {
					for _, arch := range []string{"x86_64", "aarch64", "riscv64"} {
						for n := 1; n <= 3; n++ {
							d01one(t, fmt.Sprintf("%s:%v:%s:%d", kind, ign, arch, n), kind, ign, arch, all, nil, n)
						}
					}
				})
				for di, d := range devs {
					di, d := di, d
					emit(fmt.Sprintf("%s:%v:%s:%s", kind, ign, all[d.i].path, d.what), func(t *T) {
						base := fmt.Sprintf("%s:%v:%s=%s", kind, ign, all[d.i].path, d.what)
						for n := 1; n <= 2; n++ {
							d01one(t, base+fmt.Sprint(":", n), kind, ign, "x86_64", all, map[int]string{d.i: d.what}, n)
						}
						if kind == "dir" && !t.Thorough() {
							return
						}
						for _, e := range devs[di+1:] {
							if e.i == d.i {
								continue
							}
							d01one(t, base+":"+all[e.i].path+"="+e.what, kind, ign, "x86_64", all, map[int]string{d.i: d.what, e.i: e.what}, 1)
						}
					})
				}
			}
		}
	})
}

func d01one(t *T, key, kind string, ign bool, arch string, all []d01obj, pre map[int]string, times int) {
	t.Tick()
	t.Eval(times > 1 || len(pre) > 0)
	t.Trace(1)
	ctx := context.Background()
	f := mkFS(t, kind, "d")
	defer func() {
		chmodTree(filepath.Join(t.Dir(), "d"))
		os.RemoveAll(filepath.Join(t.Dir(), "d"))
	}()
	wantErr := false
	exists := map[string]string{}
	mkparents := func(p string) bool {
		d := filepath.Dir(p)
		if d == "." {
			return true
		}
		parts := strings.Split(d, "/")
		for i := range parts {
			q := strings.Join(parts[:i+1], "/")
			if st, ok := exists[q]; ok {
				if st == "otherkind" {
					return false // a file is in the way
				}
				continue
			}
			mode := fs.FileMode(0o755)
			for _, o := range all {
				if o.path == q {
					mode = o.mode
				}
			}
			must(f.Mkdir(q, mode))
			exists[q] = "same"
		}
		return true
	}
	idx := []int{}
	for i := range pre {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		o, what := all[i], pre[i]
		if _, ok := exists[o.path]; ok || !mkparents(o.path) {
			return // not a reachable state
		}
		exists[o.path] = what
		var err error
		switch {
		case what == "otherkind" && o.kind == 'd':
			err = f.WriteFile(o.path, []byte("x"), 0o644)
			wantErr = true
		case what == "otherkind":
			err = f.Mkdir(o.path, 0o755)
			wantErr = wantErr || o.kind == 'f' || !ign
		case o.kind == 'd' && what == "same":
			err = f.Mkdir(o.path, o.mode)
		case what == "perm":
			err = f.Mkdir(o.path, o.mode^0o011)
			wantErr = wantErr || o.base
		case what == "permore":
			err = f.Mkdir(o.path, o.mode)
			must(f.Chmod(o.path, o.mode|0o222))
			wantErr = wantErr || o.base
		case o.kind == 'f':
			b := []byte("earlier content, longer than what is written; " + strings.Repeat("z", 2000))
			if what == "same" {
				b = nil
			}
			err = f.WriteFile(o.path, b, o.mode)
		case what == "same":
			d := d01devs[o.path]
			err = f.Mknod(o.path, unix.S_IFCHR|uint32(o.mode), int(unix.Mkdev(d[0], d[1])))
		case what == "otherdev":
			err = f.Mknod(o.path, unix.S_IFCHR|uint32(o.mode), int(unix.Mkdev(9, 9)))
			wantErr = wantErr || !ign
		}
		must(err)
	}
	must(f.MkdirAll("other/dir", 0o700))
	must(f.WriteFile("other/dir/file", []byte("untouched"), 0o640))
	opts := []apk.Option{apk.WithFS(f), apk.WithArch(arch), apk.WithIgnoreMknodErrors(ign)}
	var err error
	for i := 0; i < times; i++ {
		t.Trans(1)
		err = must1(apk.New(opts...)).InitDB(ctx)
		if err != nil {
			break
		}
	}
	desc := fmt.Sprintf("on %s with %v existing, %d initialisation(s)", kind, d01desc(all, pre), times)
	t.State(fmt.Sprint(kind, ign, arch, d01desc(all, pre), times))
	t.Outcome(fmt.Sprint(err == nil))
	if wantErr {
		if err == nil {
			t.Fail(key, "%s: no error", desc)
		}
		return
	}
	if err != nil {
		t.Fail(key, "%s: %v", desc, err)
		return
	}
	// the resulting tree
	want := map[string]d01obj{"other": {kind: 'd', mode: 0o700}, "other/dir": {kind: 'd', mode: 0o700}, "other/dir/file": {kind: 'f', mode: 0o640, body: "untouched"}}
	for i, o := range all {
		if pre[i] == "perm" {
			o.mode ^= 0o011
		}
		if pre[i] == "permore" {
			o.mode |= 0o222
		}
		if o.kind == 'c' && (pre[i] == "otherkind" || pre[i] == "otherdev") {
			continue // left as it is
		}
		switch o.path {
		case "etc/apk/world", "etc/apk/repositories":
			o.body = "\n"
		case "etc/apk/arch":
			o.body = arch + "\n"
		}
		want[o.path] = o
	}
	seen := map[string]bool{}
	werr := fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		p = strings.Trim(p, "/")
		if p == "" || p == "." {
			return nil
		}
		seen[p] = true
		o, ok := want[p]
		if !ok {
			for i, x := range all {
				if x.path == p && (pre[i] == "otherkind" || pre[i] == "otherdev") {
					return nil
				}
			}
			t.Fail(key+":extra:"+p, "%s: %s exists but is not announced", desc, p)
			return nil
		}
		fi, err := f.Stat(p)
		if err != nil {
			return err
		}
		k := byte('f')
		if fi.IsDir() {
			k = 'd'
		} else if fi.Mode()&fs.ModeCharDevice != 0 {
			k = 'c'
		}
		if k != o.kind || fi.Mode().Perm() != o.mode.Perm() || (o.kind == 'd' && fi.Mode()&fs.ModeSticky != o.mode&fs.ModeSticky) {
			t.Fail(key+":mode:"+p, "%s: %s is %c with mode %v, want %c %v", desc, p, k, fi.Mode(), o.kind, o.mode)
		}
		if k == 'c' {
			dv := d01devs[p]
			if got, err := f.Readnod(p); err != nil || got != int(unix.Mkdev(dv[0], dv[1])) {
				t.Fail(key+":dev:"+p, "%s: device %s is %d:%d (%v)", desc, p, unix.Major(uint64(got)), unix.Minor(uint64(got)), err)
			}
		}
		if k == 'f' {
			b, err := f.ReadFile(p)
			if p == "lib/apk/db/scripts.tar" {
				_, terr := tar.NewReader(bytes.NewReader(b)).Next()
				if err != nil || len(b)%512 != 0 || !errors.Is(terr, io.EOF) || len(bytes.Trim(b, "\x00")) > 0 {
					t.Fail(key+":scripts", "%s: scripts.tar is not an empty archive: %d bytes, %v", desc, len(b), err)
				}
			} else if err != nil || string(b) != o.body {
				t.Fail(key+":content:"+p, "%s: %s holds %q, want %q", desc, p, short(string(b)), o.body)
			}
		}
		return nil
	})
	if werr != nil {
		t.Fail(key+":walk", "%s: walk: %v", desc, werr)
	}
	for p := range want {
		if !seen[p] {
			t.Fail(key+":missing:"+p, "%s: %s is missing", desc, p)
		}
	}
	if kind == "dir" {
		// the disk holds the same names
		must(filepath.WalkDir(filepath.Join(t.Dir(), "d"), func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			r, _ := filepath.Rel(filepath.Join(t.Dir(), "d"), p)
			if r != "." && !seen[r] {
				t.Fail(key+":disk:"+r, "%s: %s exists on disk only", desc, r)
			}
			return nil
		}))
	}
	_ = apkfs.NewMemFS
}

func d01desc(all []d01obj, pre map[int]string) string {
	var l []string
	for i, w := range pre {
		l = append(l, all[i].path+"="+w)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
