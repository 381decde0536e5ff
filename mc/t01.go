package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/user"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"github.com/chainguard-dev/go-apk/pkg/tarball"
	"golang.org/x/sys/unix"
)

func init() {
	register("T01", check{run: runT01, level: "model_checking",
		rule:        "every parent-closed tree of up to 3 (4) nodes from a pool (directories, files empty/multi-block/setuid, symlinks, devices, xattrs, owners, passwd and group files) in the in-memory and the disk-backed filesystem and as plain directory with hard links, under a set of configurations; then all combinations of configuration options over fixed trees; then every failure point of the output; every archive is decoded with the standard reader and compared entry by entry; non-trivial when the tree has 2 or more nodes",
		assumptions: []string{"the in-memory filesystem has no inode numbers, so hard-linked names are written as separate files", "precedence of the owner settings is: remap, name lookup in the given user database, uid/gid override, name override, per-path override"}})
}

type t01node struct {
	p      string
	kind   byte // d f l c h
	mode   fs.FileMode
	body   string
	uid    int
	gid    int
	dev    [2]uint32
	xattrs map[string]string
}

func t01pool() []t01node {
	x := map[string]string{"user.k": "v", "security.capability": "\x01\x00\x00\x02\xff"}
	return []t01node{
		{p: "a", kind: 'd', mode: 0o755}, {p: "a/b", kind: 'd', mode: 0o700 | fs.ModeSticky, uid: 5, gid: 6, xattrs: x},
		{p: "a/b/c", kind: 'f', mode: 0o644, body: "deep"}, {p: "a/f", kind: 'f', mode: 0o4755 &^ 0o4000, body: strings.Repeat("0123456789abcdef", 70), uid: 1000, gid: 1000, xattrs: x},
		{p: "ab", kind: 'f', mode: 0o600 | fs.ModeSetuid, body: "", xattrs: map[string]string{"user.empty": ""}}, {p: "a.x", kind: 'f', mode: 0o444, body: "z", uid: 70000, gid: 3},
		{p: "l", kind: 'l', body: "a/f"}, {p: "a/l", kind: 'l', body: "/nowhere/x"}, {p: "a/d", kind: 'l', body: "b"},
		{p: "null", kind: 'c', mode: 0o666, dev: [2]uint32{1, 3}}, {p: "a/tty", kind: 'c', mode: 0o620, dev: [2]uint32{4, 300}, uid: 1000, gid: 5},
		{p: "h", kind: 'h', body: "a/f"}, {p: "a/h", kind: 'h', body: "a/f"},
	}
}

type t01cfg struct {
	name      string
	sde       time.Time
	over      bool
	uid, gid  int
	ru, rg    map[int]int
	un, gn    string
	perms     []tar.Header
	sums      bool
	skipClose bool
	users     bool // a user database is given
}

var t01users = map[int]string{0: "root", 1000: "user", 5: "five", 2000: "remapped"}
var t01groups = map[int]string{0: "root", 1000: "grp", 5: "tty", 2001: "rgrp"}

// the owner of what is on disk has another name in the image
func init() {
	if _, ok := t01users[os.Getuid()]; !ok {
		t01users[os.Getuid()] = "image"
	}
	if _, ok := t01groups[os.Getgid()]; !ok {
		t01groups[os.Getgid()] = "images"
	}
}

func (g t01cfg) context() *tarball.Context {
	o := []tarball.Option{tarball.WithSourceDateEpoch(g.sde), tarball.WithUseChecksums(g.sums), tarball.WithSkipClose(g.skipClose)}
	if g.over {
		o = append(o, tarball.WithOverrideUIDGID(g.uid, g.gid))
	}
	if g.ru != nil {
		o = append(o, tarball.WithRemapUIDs(g.ru))
	}
	if g.rg != nil {
		o = append(o, tarball.WithRemapGIDs(g.rg))
	}
	if g.un != "" {
		o = append(o, tarball.WithOverrideUname(g.un))
	}
	if g.gn != "" {
		o = append(o, tarball.WithOverrideGname(g.gn))
	}
	if g.perms != nil {
		o = append(o, tarball.WithOverridePerms(g.perms))
	}
	return must1(tarball.NewContext(o...))
}

// t01want is the list of entries the archive must hold.
func t01want(nodes []t01node, g t01cfg, kind string) []*tar.Header {
	byPath := map[string]t01node{}
	var paths []string
	for _, n := range nodes {
		byPath[n.p] = n
		paths = append(paths, n.p)
	}
	// parents first, then the order of a depth-first walk by name
	sort.Slice(paths, func(i, j int) bool {
		return strings.Join(strings.Split(paths[i], "/"), "\x00") < strings.Join(strings.Split(paths[j], "/"), "\x00")
	})
	var out []*tar.Header
	first := map[string]string{} // hard link group -> first path
	for _, p := range paths {
		n := byPath[p]
		h := &tar.Header{Name: p, Uid: n.uid, Gid: n.gid, PAXRecords: map[string]string{}}
		grp := ""
		if n.kind == 'h' {
			grp = n.body
			t := byPath[n.body]
			h.Uid, h.Gid = t.uid, t.gid
			n.kind, n.mode, n.body, n.xattrs = 'f', t.mode, t.body, t.xattrs
		} else if n.kind == 'f' {
			grp = n.p
		}
		h.Mode = int64(n.mode.Perm())
		if n.mode&fs.ModeSetuid != 0 {
			h.Mode |= 0o4000
		}
		if n.mode&fs.ModeSticky != 0 {
			h.Mode |= 0o1000
		}
		switch n.kind {
		case 'd':
			h.Typeflag = tar.TypeDir
		case 'f':
			h.Typeflag, h.Size = tar.TypeReg, int64(len(n.body))
			if kind == "os" {
				if f, ok := first[grp]; ok {
					h.Typeflag, h.Size, h.Linkname = tar.TypeLink, 0, f
				} else {
					first[grp] = p
				}
			}
		case 'l':
			h.Typeflag, h.Linkname, h.Mode = tar.TypeSymlink, n.body, 0o777
		case 'c':
			h.Typeflag, h.Devmajor, h.Devminor = tar.TypeChar, int64(n.dev[0]), int64(n.dev[1])
		}
		if v, ok := g.ru[h.Uid]; ok {
			h.Uid = v
		}
		if v, ok := g.rg[h.Gid]; ok {
			h.Gid = v
		}
		if kind == "os" { // the standard library names the owner of a file on disk
			if u, err := user.LookupId(fmt.Sprint(os.Getuid())); err == nil {
				h.Uname = u.Username
			}
			if g, err := user.LookupGroupId(fmt.Sprint(os.Getgid())); err == nil {
				h.Gname = g.Name
			}
		}
		if g.users {
			if n, ok := t01users[h.Uid]; ok {
				h.Uname = n
			}
			if n, ok := t01groups[h.Gid]; ok {
				h.Gname = n
			}
		}
		if g.over {
			h.Uid, h.Gid = g.uid, g.gid
		}
		if g.un != "" {
			h.Uname = g.un
		}
		if g.gn != "" {
			h.Gname = g.gn
		}
		for _, o := range g.perms {
			if strings.TrimPrefix(o.Name, "/") == p {
				h.Mode, h.Uid, h.Gid, h.Uname, h.Gname = o.Mode, o.Uid, o.Gid, o.Uname, o.Gname
			}
		}
		if g.sums && n.kind == 'f' || g.sums && n.kind == 'l' {
			s := sha1.Sum([]byte(n.body))
			h.PAXRecords["APK-TOOLS.checksum.SHA1"] = hex.EncodeToString(s[:])
		}
		if n.kind == 'f' || n.kind == 'd' {
			for k, v := range n.xattrs {
				h.PAXRecords["SCHILY.xattr."+k] = v
			}
		}
		out = append(out, h)
	}
	return out
}

// t01tree builds the nodes; kind is mem, dir or os. Returns nil when kind cannot hold them.
func t01tree(t *T, nodes []t01node, kind, sub string) fs.FS {
	if kind == "os" {
		d := filepath.Join(t.Dir(), sub)
		must(os.MkdirAll(d, 0o755))
		for _, n := range nodes {
			p := filepath.Join(d, n.p)
			switch n.kind {
			case 'd':
				must(os.Mkdir(p, 0o755))
			case 'f':
				must(os.WriteFile(p, []byte(n.body), 0o600))
				must(os.Chmod(p, n.mode))
			case 'h':
				must(os.Link(filepath.Join(d, n.body), p))
			default:
				return nil
			}
		}
		for _, n := range nodes {
			if n.kind == 'd' {
				must(os.Chmod(filepath.Join(d, n.p), n.mode))
			}
		}
		return os.DirFS(d)
	}
	f := mkFS(t, kind, sub)
	for _, n := range nodes {
		switch n.kind {
		case 'd':
			must(f.Mkdir(n.p, 0o755))
		case 'f':
			must(f.WriteFile(n.p, []byte(n.body), 0o600))
		case 'l':
			must(f.Symlink(n.body, n.p))
			continue
		case 'c':
			must(f.Mknod(n.p, unix.S_IFCHR|uint32(n.mode), int(unix.Mkdev(n.dev[0], n.dev[1]))))
		case 'h':
			must(f.Link(n.body, n.p))
			continue
		}
		must(f.Chmod(n.p, n.mode))
		must(f.Chown(n.p, n.uid, n.gid))
		for k, v := range n.xattrs {
			must(f.SetXattr(n.p, k, []byte(v)))
		}
	}
	return f
}

func sortedInts(m map[int]string) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func t01userdb() fs.FS {
	f := apkfs.NewMemFS()
	must(f.MkdirAll("etc", 0o755))
	var u, g strings.Builder
	for _, id := range sortedInts(t01users) {
		fmt.Fprintf(&u, "%s:x:%d:%d:i:/h:/bin/sh\n", t01users[id], id, id)
	}
	for _, id := range sortedInts(t01groups) {
		fmt.Fprintf(&g, "%s:x:%d:\n", t01groups[id], id)
	}
	must(f.WriteFile("etc/passwd", []byte(u.String()), 0o644))
	must(f.WriteFile("etc/group", []byte(g.String()), 0o644))
	return f
}

func runT01(c *C) {
	pool := t01pool()
	max := c.Pick(3, 4)
	sde := time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)
	basic := []t01cfg{
		{name: "plain"},
		{name: "full", sde: sde, sums: true, users: true, ru: map[int]int{0: 1000, 5: 2000}, rg: map[int]int{1000: 2001}, perms: []tar.Header{{Name: "/a/f", Mode: 0o4511, Uid: 9, Gid: 8, Uname: "nine"}, {Name: "a/b", Mode: 0o711, Gname: "g"}}},
		{name: "over", sde: sde, over: true, uid: 7, gid: 0, un: "seven", gn: "root", skipClose: true, sums: true},
	}
	c.Sample("memory filesystem with a/ a/f (uid 1000, xattrs) l -> a/f, checksums, remapped owners, override for /a/f")
	users := t01userdb()
	c.Run(func(emit func(string, func(*T))) {
		for mask := 0; mask < 1<<len(pool); mask++ {
			has := map[string]bool{"": true, ".": true}
			var ns []t01node
			for i, n := range pool {
				if mask>>i&1 == 1 {
					has[n.p] = true
					ns = append(ns, n)
				}
			}
			ok := len(ns) <= max
			for _, n := range ns {
				ok = ok && has[path.Dir(n.p)] && (n.kind != 'h' || has[n.body])
			}
			if !ok {
				continue
			}
			emit(fmt.Sprintf("tree:%x", mask), func(t *T) {
				for _, kind := range []string{"mem", "dir", "os"} {
					// every creation order must do; take the given and the reversed one where parents allow
					f := t01tree(t, ns, kind, "t"+kind)
					if f == nil {
						continue
					}
					for _, g := range basic {
						t01one(t, fmt.Sprintf("tree:%x:%s:%s", mask, kind, g.name), f, users, ns, g, kind)
					}
				}
			})
		}
		// all option combinations on fixed trees
		fixed := [][]t01node{pool[:11], append(append([]t01node{}, pool[:4]...), pool[11], pool[12])}
		for fi, ns := range fixed {
			fi, ns := fi, ns
			for _, kind := range []string{"mem", "dir", "os"} {
				kind := kind
				emit(fmt.Sprintf("opts:%d:%s", fi, kind), func(t *T) {
					f := t01tree(t, ns, kind, "t")
					if f == nil {
						return
					}
					perms := [][]tar.Header{nil, {{Name: "a/f", Mode: 0o4511, Uid: 9, Gid: 8, Uname: "nine", Gname: "eight"}}, {{Name: "/a", Mode: 0o500}, {Name: "l", Uid: 3}}, {{Name: "nothere", Mode: 1}}}
					for bits := 0; bits < 1<<7; bits++ {
						for pi, p := range perms {
							g := t01cfg{name: fmt.Sprint(bits, "/", pi), perms: p}
							if bits&1 != 0 {
								g.sde = sde
							}
							if bits&2 != 0 {
								g.over, g.uid, g.gid = true, 70001, 0
							}
							if bits&4 != 0 {
								g.ru, g.rg = map[int]int{0: 5, 5: 0, 1000: 2000}, map[int]int{0: 1000, 1000: 2001}
							}
							if bits&8 != 0 {
								g.un = "un"
							}
							if bits&16 != 0 {
								g.gn = "gn"
							}
							g.sums = bits&32 != 0
							g.users = bits&64 != 0
							g.skipClose = bits&3 == 3
							t01one(t, fmt.Sprintf("opts:%d:%s:%s", fi, kind, g.name), f, users, ns, g, kind)
						}
					}
				})
			}
		}
		emit("odd", t01odd)
		emit("writefail", func(t *T) { t01fail(t, pool[:11], users) })
	})
}

func t01one(t *T, key string, f, users fs.FS, nodes []t01node, g t01cfg, kind string) {
	t.Tick()
	t.Eval(len(nodes) > 1)
	t.Trace(1)
	t.Trans(len(nodes))
	t.State(key)
	if kind == "os" {
		for i := range nodes { // owners on disk are ours, no xattrs
			nodes = append([]t01node{}, nodes...)
			nodes[i].uid, nodes[i].gid, nodes[i].xattrs = os.Getuid(), os.Getgid(), nil
		}
	}
	var ui fs.FS = apkfs.NewMemFS()
	if g.users {
		ui = users
	}
	cx := g.context()
	var plain, zipped bytes.Buffer
	ctx := context.Background()
	if err := cx.WriteTar(ctx, &plain, f, ui); err != nil {
		t.Fail(key, "WriteTar of %s from %s: %v", t01desc(nodes), kind, err)
		return
	}
	if err := g.context().WriteTargz(ctx, &zipped, f, ui); err != nil {
		t.Fail(key, "WriteTargz of %s from %s: %v", t01desc(nodes), kind, err)
		return
	}
	un, err := gunzipAll(zipped.Bytes())
	if err != nil || !bytes.Equal(un, plain.Bytes()) {
		t.Fail(key+":gz", "the compressed archive of %s from %s does not hold the plain one: %v", t01desc(nodes), kind, err)
	}
	b := plain.Bytes()
	trailer := len(b) >= 1024 && len(bytes.Trim(b[len(b)-1024:], "\x00")) == 0
	if !g.skipClose && !trailer {
		t.Fail(key+":eof", "the archive of %s from %s has no end marker", t01desc(nodes), kind)
	}
	if len(b)%512 != 0 {
		t.Fail(key+":pad", "the archive of %s from %s is not block aligned: %d bytes", t01desc(nodes), kind, len(b))
	}
	if g.skipClose {
		b = append(append([]byte{}, b...), make([]byte, 1024)...)
	}
	hs, bodies, err := listTar(b)
	if err != nil {
		t.Fail(key+":read", "the archive of %s from %s is unreadable: %v", t01desc(nodes), kind, err)
		return
	}
	want := t01want(nodes, g, kind)
	bodyOf := map[string]string{}
	for _, n := range nodes {
		if n.kind == 'f' {
			bodyOf[n.p] = n.body
		}
	}
	for _, n := range nodes {
		if n.kind == 'h' {
			bodyOf[n.p] = bodyOf[n.body]
		}
	}
	render := func(h *tar.Header, body string) string {
		var px []string
		for k, v := range h.PAXRecords {
			if strings.HasPrefix(k, "SCHILY.") || strings.HasPrefix(k, "APK-") {
				px = append(px, fmt.Sprintf("%s=%q", k, v))
			}
		}
		sort.Strings(px)
		return fmt.Sprintf("%s %c %o %d:%d %q:%q link=%q dev=%d:%d size=%d %v body=%s", strings.TrimSuffix(h.Name, "/"), h.Typeflag, h.Mode&0o7777, h.Uid, h.Gid, h.Uname, h.Gname, h.Linkname, h.Devmajor, h.Devminor, h.Size, px, short(body)+fmt.Sprint(hashStr(body)))
	}
	var got, exp []string
	for i, h := range hs {
		got = append(got, render(h, string(bodies[i])))
		wt := g.sde
		if wt.IsZero() {
			wt = time.Unix(0, 0)
		}
		if !h.ModTime.Equal(wt) {
			t.Fail(key+":time", "entry %s of %s from %s has time %v, want %v", h.Name, t01desc(nodes), kind, h.ModTime, wt)
		}
	}
	for _, h := range want {
		body := ""
		if h.Typeflag == tar.TypeReg {
			body = bodyOf[h.Name]
		}
		exp = append(exp, render(h, body))
	}
	if strings.Join(got, "\n") != strings.Join(exp, "\n") {
		// the order only has to put parents and link targets first; compare as sets then
		gs, es := append([]string{}, got...), append([]string{}, exp...)
		sort.Strings(gs)
		sort.Strings(es)
		if strings.Join(gs, "\n") != strings.Join(es, "\n") {
			t.Fail(key+":entries", "archive of %s from %s with %s:\n%s\nwant\n%s", t01desc(nodes), kind, g.name, strings.Join(got, "\n"), strings.Join(exp, "\n"))
			return
		}
		seen := map[string]bool{".": true}
		for _, h := range hs {
			n := strings.TrimSuffix(h.Name, "/")
			if !seen[path.Dir(n)] || (h.Typeflag == tar.TypeLink && !seen[h.Linkname]) {
				t.Fail(key+":order", "archive of %s from %s lists %s before its directory or link target", t01desc(nodes), kind, n)
			}
			seen[n] = true
		}
	}
}

func t01desc(ns []t01node) string {
	var l []string
	for _, n := range ns {
		l = append(l, fmt.Sprintf("%s(%c)", n.p, n.kind))
	}
	return "[" + strings.Join(l, " ") + "]"
}

// failWriter accepts k bytes and then fails.
type failWriter struct {
	left int
	err  error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return len(p), nil
}

// t01fail: an archive that could not be written completely is an error.
func t01fail(t *T, nodes []t01node, users fs.FS) {
	f := t01tree(t, nodes, "mem", "w")
	ctx := context.Background()
	errFull := errors.New("no space left")
	for _, g := range []t01cfg{{name: "plain"}, {name: "skip", skipClose: true}} {
		for _, zip := range []bool{false, true} {
			var b bytes.Buffer
			write := func(w interface{ Write([]byte) (int, error) }) error {
				if zip {
					return g.context().WriteTargz(ctx, w, f, users)
				}
				return g.context().WriteTar(ctx, w, f, users)
			}
			must(write(&b))
			step := 1
			if !zip {
				step = 64
			}
			for k := 0; k < b.Len(); k += step {
				t.Tick()
				t.Eval(true)
				t.Trans(1)
				t.Trace(1)
				if err := write(&failWriter{k, errFull}); err == nil {
					t.Fail(fmt.Sprintf("writefail:%s:%v:%d", g.name, zip, k), "the output failed after %d of %d bytes (compressed %v, %s) but no error is returned", k, b.Len(), zip, g.name)
				}
			}
		}
	}
	// cancellation
	cctx, cancel := context.WithCancel(ctx)
	cancel()
	if err := (t01cfg{}).context().WriteTar(cctx, &bytes.Buffer{}, f, users); err == nil {
		t.Fail("cancel", "a cancelled write reports success")
	}
}

// t01odd: what an archive cannot hold is an error, never left out.
func t01odd(t *T) {
	ctx := context.Background()
	for _, name := range []string{"0", "d/a", "d/f", "d/z", "z"} {
		for _, kind := range []uint32{syscall.S_IFSOCK, syscall.S_IFIFO} {
			d := filepath.Join(t.Dir(), fmt.Sprintf("odd%d", hashStr(name+fmt.Sprint(kind))))
			must(os.MkdirAll(d+"/d", 0o755))
			must(os.WriteFile(d+"/d/e", []byte("1"), 0o644))
			must(os.WriteFile(d+"/d/g", []byte("2"), 0o644))
			must(os.WriteFile(d+"/y", []byte("3"), 0o644))
			must(syscall.Mknod(filepath.Join(d, name), kind|0o644, 0))
			want := []string{".", "d", "d/e", "d/g", "y", name}
			sort.Strings(want)
			for fk, f := range map[string]fs.FS{"os": os.DirFS(d), "dir": apkfs.DirFS(d)} {
				for _, g := range []t01cfg{{name: "plain"}, {name: "sums", sums: true}} {
					t.Tick()
					t.Eval(true)
					t.Trans(1)
					t.Trace(1)
					t.State(name + fmt.Sprint(kind) + fk + g.name)
					var b bytes.Buffer
					if err := g.context().WriteTar(ctx, &b, f, apkfs.NewMemFS()); err != nil {
						t.Outcome("refused")
						continue
					}
					t.Outcome("written")
					hs, _, err := listTar(b.Bytes())
					got := []string{}
					good := err == nil
					for _, h := range hs {
						n := path.Clean(h.Name)
						got = append(got, n)
						good = good && (n != name || h.Typeflag == tar.TypeFifo && kind == syscall.S_IFIFO)
					}
					if len(got) == len(want)-1 {
						got = append(got, ".") // the top need not be an entry
					}
					sort.Strings(got)
					if !good || strings.Join(got, " ") != strings.Join(want, " ") {
						t.Fail("odd:"+name, "the archive of a tree %v with a special file (%o) at %s from %s holds %v (%v)", want, kind, name, fk, got, err)
					}
				}
			}
			must(os.RemoveAll(d))
		}
	}
}
