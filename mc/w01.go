package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
	"github.com/chainguard-dev/go-apk/pkg/passwd"
)

func init() {
	register("W01", check{run: runW01, level: "model_checking",
		rule:        "every passwd/group file of up to 3 lines over a line alphabet (names, passwords, boundary and malformed ids, member lists, missing/extra fields, blank and comment lines), read, edited (append, remove, change) and written back over every kind of previous content, on the in-memory and on the disk filesystem; non-trivial when all lines are well-formed",
		assumptions: []string{"white space around a line and a sign or leading zeros in an id are not significant", "a line longer than the reader's buffer may be refused with an error"}})
}

// refID is a 32-bit unsigned decimal number.
func refID(s string) (uint32, bool) {
	t := strings.TrimPrefix(s, "+")
	if t == "-0" {
		t = "0"
	}
	n, err := strconv.ParseUint(t, 10, 32)
	return uint32(n), err == nil
}

// signed: whether it is accepted is left open
func openID(s string) bool { return strings.HasPrefix(s, "+") || s == "-0" }

type wfile struct {
	ok   bool // every line valid
	open bool
	rows [][]string
}

func refRows(content string, nf int, idx []int) wfile {
	w := wfile{ok: true}
	lines := strings.Split(content, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for _, l := range lines {
		l = strings.TrimSpace(l)
		f := strings.Split(l, ":")
		if len(f) != nf {
			w.ok = false
			continue
		}
		for _, i := range idx {
			if openID(f[i]) {
				w.open = true
			}
			n, ok := refID(f[i])
			if !ok {
				w.ok = false
				continue
			}
			f[i] = strconv.FormatUint(uint64(n), 10)
		}
		w.rows = append(w.rows, f)
	}
	return w
}

func joinRows(rows [][]string) string {
	var b strings.Builder
	for _, r := range rows {
		b.WriteString(strings.Join(r, ":") + "\n")
	}
	return b.String()
}

func userRow(u passwd.UserEntry) []string {
	return []string{u.UserName, u.Password, fmt.Sprint(u.UID), fmt.Sprint(u.GID), u.Info, u.HomeDir, u.Shell}
}
func groupRow(g passwd.GroupEntry) []string {
	return []string{g.GroupName, g.Password, fmt.Sprint(g.GID), strings.Join(g.Members, ",")}
}

func runW01(c *C) {
	ids := []string{"0", "1000", "65534", "2147483647", "2147483648", "4294967295", "4294967296", "-1", "-0", "+7", "007", "", "x", "1 ", " 1", "0x10", "1e3", "9223372036854775807", "18446744073709551616", "-4294967296", "１"}
	var ul, gl []string
	for _, a := range ids {
		for _, b := range ids {
			ul = append(ul, "u:x:"+a+":"+b+":Info, x:/home/u:/bin/sh")
		}
		gl = append(gl, "g:x:"+a+":", "g:x:"+a+":m", "g::"+a+":a,b,c")
	}
	ul = append(ul, "root:x:0:0::/:", "::1:1:::", "nobody:*:65534:65534:Nobody # not a comment:/:/bin/false", "ünï:x:5:6:gecos é:/h:/s")
	gl = append(gl, "root:x:0:root,,x", "::1:", "wheel:x:10:a b,c", "g:x:10:a#b")
	bad := []string{"", "#c", "# u:x:1:1:i:h:s", "u:x:1:1:i:h", "u:x:1:1:i:h:s:extra", "g:x", "g:x:1", "g:x:1:a:b", "u", ":", ":::::::::", "  "}
	ul = append(ul, bad...)
	gl = append(gl, bad...)
	// reduced line alphabet for longer files
	pick := func(all []string, n int) []string {
		step := len(all)/n + 1
		var o []string
		for i := 0; i < len(all); i += step {
			o = append(o, all[i])
		}
		return append(o, all[len(all)-8:]...)
	}
	us, gs := pick(ul, c.Pick(24, 60)), pick(gl, c.Pick(24, 60))
	us = append(us, "u:x:1:2:i:/h:/s", "root:x:0:0:root:/root:/bin/ash", "w:x:33:33::/var/www:/sbin/nologin")
	gs = append(gs, "a:x:1:u", "b:x:2:", "root:x:0:root", "users:x:100:games,x")
	c.Sample(us[0])
	c.Sample(gs[:3])
	ends := []string{"\n", "", "\r\n"}
	c.Run(func(emit func(string, func(*T))) {
		for _, kind := range []string{"u", "g"} {
			full, small := ul, us
			if kind == "g" {
				full, small = gl, gs
			}
			kind := kind
			for i := range full {
				i := i
				emit(fmt.Sprintf("%s1:%d", kind, i), func(t *T) {
					for _, e := range ends {
						w01one(t, kind, full[i]+e)
					}
				})
			}
			for i := range small {
				i := i
				emit(fmt.Sprintf("%s3:%d", kind, i), func(t *T) {
					for j := range small {
						t.Tick()
						for _, e := range ends {
							w01one(t, kind, small[i]+"\n"+small[j]+e)
						}
						for k := range small {
							w01one(t, kind, small[i]+"\n"+small[j]+"\n"+small[k]+"\n")
						}
					}
				})
			}
			for n := 65530; n <= 65540; n++ {
				n := n
				emit(fmt.Sprintf("%slong:%d", kind, n), func(t *T) {
					l := "u:x:1:2:" + strings.Repeat("i", n) + ":/:/s"
					if kind == "g" {
						l = "g:x:1:" + strings.Repeat("m,", n/2) + "m"
					}
					w01long(t, kind, l)
				})
			}
			for _, disk := range []bool{false, true} {
				disk := disk
				emit(fmt.Sprintf("%sfs:%v", kind, disk), func(t *T) { w01fs(t, kind, disk) })
			}
		}
	})
}

func w01parse(kind, content string) (rows [][]string, write func() string, err error) {
	if kind == "u" {
		var uf passwd.UserFile
		err = uf.Load(strings.NewReader(content))
		for _, e := range uf.Entries {
			rows = append(rows, userRow(e))
		}
		return rows, func() string { var b bytes.Buffer; must(uf.Write(&b)); return b.String() }, err
	}
	var gf passwd.GroupFile
	err = gf.Load(strings.NewReader(content))
	for _, e := range gf.Entries {
		rows = append(rows, groupRow(e))
	}
	return rows, func() string { var b bytes.Buffer; must(gf.Write(&b)); return b.String() }, err
}

func w01ref(kind, content string) wfile {
	if kind == "u" {
		return refRows(content, 7, []int{2, 3})
	}
	return refRows(content, 4, []int{2})
}

func w01one(t *T, kind, content string) {
	ref := w01ref(kind, content)
	rows, write, err := w01parse(kind, content)
	t.Trans(1)
	t.Trace(1)
	t.Eval(ref.ok)
	key := kind + ":" + content
	if err != nil {
		if ref.ok && !ref.open {
			t.Fail("reject:"+key, "valid file %q rejected: %v", content, err)
		}
		return
	}
	if !ref.ok {
		t.Fail("accept:"+key, "invalid file %q accepted as %v", content, rows)
		return
	}
	if joinRows(rows) != joinRows(ref.rows) {
		t.Fail("fields:"+key, "file %q read as %v, want %v", content, rows, ref.rows)
		return
	}
	if got, want := write(), joinRows(ref.rows); got != want {
		t.Fail("write:"+key, "file %q written back as %q, want %q", content, got, want)
	}
}

func w01long(t *T, kind, l string) {
	content := "" + l + "\n" + l + "\n"
	ref := w01ref(kind, content)
	rows, _, err := w01parse(kind, content)
	t.Eval(true)
	if err == nil && joinRows(rows) != joinRows(ref.rows) {
		t.Fail(fmt.Sprintf("long:%s:%d", kind, len(l)), "file with lines of %d bytes read wrongly (%d rows)", len(l), len(rows))
	}
}

// w01fs: read-modify-write through the path-based functions over every previous content.
func w01fs(t *T, kind string, disk bool) {
	contents := []string{"", "a:x:1:2:i:/h:/s\n", "a:x:1:2:i:/h:/s\nb:x:3:4:info info:/home:/bin/sh\n", "a:x:1:2:i:/h:/s\nb:x:3:4:info info:/home:/bin/sh\nc:x:5:6::/:/\n"}
	if kind == "g" {
		contents = []string{"", "a:x:1:\n", "a:x:1:u,v\nb:x:3:\n", "a:x:1:\nb:x:3:w\nlongname:x:77:a,b,c\n"}
	}
	n := 0
	for _, prev := range append([]string{"-absent-"}, contents...) {
		for _, edit := range []string{"none", "append", "dropfirst", "change", "clear"} {
			for _, create := range []bool{true, false} {
				t.Tick()
				n++
				var fsys apkfs.FullFS
				if disk {
					d := fmt.Sprintf("%s/f%d", t.Dir(), n)
					must(os.MkdirAll(d, 0o755))
					fsys = apkfs.DirFS(d)
				} else {
					fsys = apkfs.NewMemFS()
				}
				must(fsys.MkdirAll("etc", 0o755))
				path := "etc/passwd"
				if prev != "-absent-" {
					must(fsys.WriteFile(path, []byte(prev), 0o644))
				}
				key := fmt.Sprintf("fs:%s:%v:%s:%v:%q", kind, disk, edit, create, prev)
				var rows [][]string
				if prev != "-absent-" {
					rows = w01ref(kind, prev).rows
				}
				app := []string{"new", "x", "9", "9", "", "/", "/bin/x"}
				if kind == "g" {
					app = []string{"new", "x", "9", "p,q"}
				}
				switch edit {
				case "append":
					rows = append(rows, app)
				case "dropfirst":
					if len(rows) > 0 {
						rows = rows[1:]
					}
				case "change":
					if len(rows) > 0 {
						rows[0][2] = "12345"
					}
				case "clear":
					rows = nil
				}
				var err error
				if kind == "u" {
					var uf passwd.UserFile
					if create {
						uf, err = passwd.ReadOrCreateUserFile(fsys, path)
					} else {
						uf, err = passwd.ReadUserFile(fsys, path)
					}
					if err == nil {
						switch edit {
						case "append":
							uf.Entries = append(uf.Entries, passwd.UserEntry{UserName: "new", Password: "x", UID: 9, GID: 9, HomeDir: "/", Shell: "/bin/x"})
						case "dropfirst":
							if len(uf.Entries) > 0 {
								uf.Entries = uf.Entries[1:]
							}
						case "change":
							if len(uf.Entries) > 0 {
								uf.Entries[0].UID = 12345
							}
						case "clear":
							uf.Entries = nil
						}
						if create {
							err = uf.WriteFile(path)
							if err != nil {
								t.Fail(key, "WriteFile: %v", err)
								continue
							}
						}
					}
				} else {
					var gf passwd.GroupFile
					if create {
						gf, err = passwd.ReadOrCreateGroupFile(fsys, path)
					} else {
						gf, err = passwd.ReadGroupFile(fsys, path)
					}
					if err == nil {
						switch edit {
						case "append":
							gf.Entries = append(gf.Entries, passwd.GroupEntry{GroupName: "new", Password: "x", GID: 9, Members: []string{"p", "q"}})
						case "dropfirst":
							if len(gf.Entries) > 0 {
								gf.Entries = gf.Entries[1:]
							}
						case "change":
							if len(gf.Entries) > 0 {
								gf.Entries[0].GID = 12345
							}
						case "clear":
							gf.Entries = nil
						}
						err = gf.WriteFile(fsys, path)
						if err != nil {
							t.Fail(key, "WriteFile: %v", err)
							continue
						}
					}
				}
				t.Eval(true)
				t.Trans(1)
				if prev == "-absent-" && !create {
					if err == nil {
						t.Fail(key, "reading an absent file succeeded")
					}
					continue
				}
				if err != nil {
					t.Fail(key, "read: %v", err)
					continue
				}
				if kind == "u" && !create {
					continue // nothing to write back through
				}
				b, err := fsys.ReadFile(path)
				if err != nil || string(b) != joinRows(rows) {
					t.Fail(key, "after edit %s of %q the file holds %q (err %v), want %q", edit, prev, b, err, joinRows(rows))
				}
			}
		}
	}
}
