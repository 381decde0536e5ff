package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("F02", check{run: runF02, level: "model_checking",
		rule:        "every sequence of 2 operations of the full alphabet (the one of F01 plus names that differ only in case), and of 3 of a core alphabet (thorough: 3 of the full and 4 of the core one), on a disk-backed filesystem on a case-sensitive disk and on one treated as case-insensitive; after the last operation its result, everything observable through the view, the directory on disk, and a freshly opened view of it are compared with a reference POSIX tree; non-trivial when two or more operations succeed",
		assumptions: []string{"the disk underneath is a case-sensitive Linux tmpfs/ext4; case-insensitivity is requested by option, so that entries which would collide there must not be written to disk", "unprivileged: devices cannot be created on disk, owners not changed there", "nothing else changes the directory while it is open"}})
}

func f02ops() []fsop {
	var ops []fsop
	for _, o := range f01ops() {
		// devices are not opened here, that depends on the disk
		if !strings.HasPrefix(o.name, "mknod(a") {
			ops = append(ops, o)
		}
	}
	return append(ops,
		opWrite("A", "upper", 0o644), opWrite("d/A", "dA", 0o600), opWrite("D", "D", 0o644), opMkdir("D", 0o755), opMkdir("d/E", 0o755), opMkdirAll("D/e", 0o755), opMkdirAll("D/E/B", 0o755), opWrite("D/a", "Da", 0o644), opWrite("D/A", "DA", 0o644),
		opSymlink("A", "L"), opSymlink("D", "L"), opLink("a", "A"), opLink("A", "b"), opLink("A", "a"), opLink("d/a", "d/A"), opRemove("A"), opRemove("D"), opRemove("D/a"), opRemove("d/A"), opRemove("L"), opCreate("A"), opChmod("A", 0o700), opMknod("C", 0o644, 5), opWrite("L", "thru", 0o644), opOpenWrite("A", "+", os.O_APPEND, 0o644))
}

func f02core() []fsop {
	app := os.O_APPEND
	return []fsop{
		opMkdir("d", 0o755), opMkdirAll("d/e", 0o750), opMkdirAll("D/e", 0o755), opMkdirAll("l/f", 0o755), opMkdir("D", 0o755),
		opWrite("a", "1", 0o644), opWrite("A", "upper", 0o644), opWrite("d/a", "da", 0o644), opWrite("D/a", "Da", 0o644), opWrite("l", "L", 0o644), opWrite("l/a", "la", 0o644), opWrite("b", "s", 0o755|fs.ModeSetuid),
		opOpenWrite("a", "+", app, 0o644), opOpenWrite("A", "+", app, 0o644), opOpenWrite("b", "+", app, 0o644),
		opSymlink("a", "l"), opSymlink("d", "l"), opSymlink("/d/a", "l"), opSymlink("D", "l"), opSymlink("A", "l"), opSymlink("d", "D"),
		opLink("a", "b"), opLink("a", "A"), opLink("A", "a"), opLink("A", "b"), opLink("a", "d/A"), opLink("l", "b"),
		opRemove("a"), opRemove("A"), opRemove("b"), opRemove("d"), opRemove("D"), opRemove("/d/a"), opRemove("l"), opRemove("/a"), opRemove("D/a"),
		opChmod("a", 0o711), opChmod("l", 0o740), opChmod("d", 0o1777&0o777|fs.ModeSticky), opMknod("c", 0o666, 259), opChown("a", 3, 4), opSetX("a", "user.k", "v"),
	}
}

var f02paths = append([]string{"A", "D", "L", "C", "d/A", "D/a", "D/A", "d/E", "D/e", "D/E/B", "L/a", "l/f", "d/f", "d/e/f"}, f01paths...)

// diskDiff compares what is on disk with the reference; "" if it agrees.
func diskDiff(dir string, n *rnode, at string, ci bool, inode map[*rnode]uint64) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return fmt.Sprintf("the disk cannot list %s: %v", at, err)
	}
	seen := map[string]string{}
	onDisk := map[string]bool{}
	for _, e := range es {
		p := at + "/" + e.Name()
		onDisk[e.Name()] = true
		k := n.kids[e.Name()]
		if k == nil {
			return fmt.Sprintf("the disk has %s, which is not in the tree", p)
		}
		if o := seen[strings.ToLower(e.Name())]; ci && o != "" {
			return fmt.Sprintf("both %s and %s are on a case-insensitive disk", o, p)
		}
		seen[strings.ToLower(e.Name())] = p
		fi, err := e.Info()
		if err != nil {
			return fmt.Sprintf("the disk cannot stat %s: %v", p, err)
		}
		if k.kind == 'c' {
			continue
		}
		if fi.Mode().Type() != k.full().Type() {
			return fmt.Sprintf("on disk %s is a %v, expected %v", p, fi.Mode(), k.full())
		}
		switch k.kind {
		case 'f':
			b, err := os.ReadFile(dir + "/" + e.Name())
			if err != nil || string(b) != k.data {
				return fmt.Sprintf("on disk %s holds %q (%v), expected %q", p, b, err, k.data)
			}
			if fi.Mode().Perm() != k.full().Perm() { // the kernel clears setuid on writing
				return fmt.Sprintf("on disk %s has mode %v, expected %v", p, fi.Mode(), k.full())
			}
			ino := fi.Sys().(*syscall.Stat_t).Ino
			if o, ok := inode[k]; ok && o != ino {
				return fmt.Sprintf("on disk %s is not the same file as its other hard link", p)
			}
			inode[k] = ino
		case 'l':
			to, err := os.Readlink(dir + "/" + e.Name())
			if err != nil || to != k.target {
				return fmt.Sprintf("on disk %s points to %q (%v), expected %q", p, to, err, k.target)
			}
		case 'd':
			if fi.Mode() != k.full() {
				return fmt.Sprintf("on disk %s has mode %v, expected %v", p, fi.Mode(), k.full())
			}
			if d := diskDiff(dir+"/"+e.Name(), k, p, ci, inode); d != "" {
				return d
			}
		}
	}
	for _, name := range n.names() {
		if onDisk[name] {
			continue
		}
		if !ci {
			return fmt.Sprintf("%s/%s is missing on disk", at, name)
		}
	}
	return ""
}

// caseClash tells if names in one directory differ only in case.
func caseClash(n *rnode) bool {
	seen := map[string]bool{}
	for name, k := range n.kids {
		if l := strings.ToLower(name); seen[l] || caseClash(k) {
			return true
		} else {
			seen[l] = true
		}
	}
	return false
}

// hasDev tells if the tree has something the disk of an unprivileged user cannot hold.
func hasDev(n *rnode) bool {
	if n.kind == 'c' || n.kind == 'f' && n.mode&(fs.ModeSetuid|fs.ModeSetgid) != 0 {
		return true
	}
	for _, k := range n.kids {
		if hasDev(k) {
			return true
		}
	}
	return false
}

func f02one(t *T, kind string, ops []fsop, sel []int, n *int) (r *refFS, ok int, diff string) {
	*n++
	d := filepath.Join(t.Dir(), fmt.Sprint(*n), "base")
	must(os.MkdirAll(d, 0o755))
	defer func() {
		chmodTree(filepath.Dir(d))
		os.RemoveAll(filepath.Dir(d))
	}()
	f := apkfs.DirFS(d, apkfs.DirFSWithCaseSensitive(kind != "dirci"))
	r = newRef()
	clash := false
	for k, i := range sel {
		want := ops[i].ref(r)
		clash = clash || caseClash(r.root)
		got := ops[i].do(f)
		if want == nil {
			ok++
		}
		if k == len(sel)-1 {
			if d := cmpErr(got, want); d != "" {
				return r, ok, ops[i].name + " " + d
			}
		}
	}
	if diff = cmpTree(f, r, f02paths, obsOpts{owner: true, xattr: true}); diff != "" {
		return
	}
	// on a case-insensitive disk something may be missing once two names were alike
	if diff = diskDiff(d, r.root, "", kind == "dirci" && clash, map[*rnode]uint64{}); diff != "" {
		return
	}
	// everything that was set without a case conflict is on disk, and shown by a fresh view
	// (the mode of the root is that of its own)
	if kind == "dir" && !hasDev(r.root) && r.root.mode == 0o755 {
		g := apkfs.DirFS(d)
		if g == nil {
			return r, ok, "the directory cannot be opened again"
		}
		if diff = cmpTree(g, r, f02paths, obsOpts{}); diff != "" {
			diff = "reopened: " + diff
		}
	}
	return
}

func runF02(c *C) {
	syscall.Umask(0)
	full, core := f02ops(), f02core()
	c.Note("operations", len(full))
	c.Sample(opNames(core, []int{5, 6, 27}))
	c.Run(func(emit func(string, func(*T))) {
		emit("unreadable", f02unreadable)
		for _, kind := range []string{"dir", "dirci"} {
			for _, set := range []string{"core", "full"} {
				ops, depth := core, c.Pick(3, 4)
				if set == "full" {
					ops, depth = full, c.Pick(2, 3)
				}
				for i := range ops {
					kind, set, i := kind, set, i
					emit(fmt.Sprintf("%s:%s:%d", kind, set, i), func(t *T) {
						seen := map[string]bool{}
						frontier := [][]int{{i}}
						num := 0
						for d := 1; d <= depth; d++ {
							var next [][]int
							for _, sel := range frontier {
								if t.Expired() {
									return
								}
								t.Tick()
								r, ok, diff := f02one(t, kind, ops, sel, &num)
								t.Eval(ok > 1)
								t.Trans(1)
								t.Trace(1)
								if diff != "" {
									t.Fail(kind+":"+opNames(ops, sel), "%s: after [%s]: %s", kind, opNames(ops, sel), diff)
									continue
								}
								st := r.dump()
								t.State(kind + st)
								if d > 2 && seen[st] || d == depth {
									continue
								}
								seen[st] = true
								for j := range ops {
									next = append(next, append(sel[:len(sel):len(sel)], j))
								}
							}
							frontier = next
						}
					})
				}
			}
		}
	})
}

// f02unreadable: the owner can read a file whatever its mode, and that does not change the mode.
func f02unreadable(t *T) {
	n := 0
	for _, m := range []fs.FileMode{0, 0o200, 0o400, 0o044, 0o111, 0o644, fs.ModeSticky} {
		for how := 0; how < 3; how++ {
			for _, reopen := range []bool{false, true} {
				n++
				d := filepath.Join(t.Dir(), fmt.Sprint(n))
				must(os.Mkdir(d, 0o755))
				f := apkfs.DirFS(d)
				key := fmt.Sprintf("unreadable:%v:%d:%v", m, how, reopen)
				must(f.Mkdir("d", 0o755))
				must(f.WriteFile("d/x", []byte("content"), 0o600))
				must(f.Chmod("d/x", m))
				if reopen {
					f = apkfs.DirFS(d)
				}
				var b []byte
				var err error
				switch how {
				case 0:
					b, err = f.ReadFile("d/x")
				case 1:
					var h fs.File
					if h, err = f.Open("d/x"); err == nil {
						b = make([]byte, 7)
						_, err = h.Read(b)
						if err := h.Close(); err != nil {
							t.Fail(key, "closing a file of mode %v: %v", m, err)
						}
					}
				case 2:
					var h apkfs.File
					if h, err = f.OpenReaderAt("d/x"); err == nil {
						b = make([]byte, 7)
						_, err = h.ReadAt(b, 0)
						if err := h.Close(); err != nil {
							t.Fail(key, "closing a file of mode %v: %v", m, err)
						}
					}
				}
				t.Eval(m&0o400 == 0)
				t.Trans(1)
				t.Trace(1)
				if err != nil || string(b) != "content" {
					t.Fail(key, "a file of mode %v is read as %q, %v", m, b, err)
				}
				fi, err := f.Stat("d/x")
				di := must1(os.Stat(d + "/d/x"))
				if err != nil || fi.Mode() != m || di.Mode() != m {
					t.Fail(key, "reading a file of mode %v leaves it as %v (disk %v), %v", m, fi, di.Mode(), err)
				}
			}
		}
	}
}
