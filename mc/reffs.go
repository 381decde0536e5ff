package main

import (
	"fmt"
	"io/fs"
	"sort"
	"strings"
)

// refFS is the reference: a POSIX directory tree without permission checks, rooted (".." at the
// root stays there, absolute links start at the root).
type rnode struct {
	kind     byte // d f l c
	mode     fs.FileMode
	uid, gid int
	data     string
	target   string
	dev      int
	xattr    map[string]string
	kids     map[string]*rnode
}

type refFS struct {
	root    *rnode
	climbed bool // a ".." was taken at the root (differs on a real directory)
}

type rerr string

func (e rerr) Error() string { return string(e) }

const (
	eExist = rerr("exists")
	eNoent = rerr("does not exist")
	eOther = rerr("invalid")
)

func newRef() *refFS {
	return &refFS{root: &rnode{kind: 'd', mode: 0o755, kids: map[string]*rnode{}}}
}

func (r *refFS) walk(chain []*rnode, path string, follow bool, links *int) ([]*rnode, error) {
	if strings.HasPrefix(path, "/") {
		chain = []*rnode{r.root}
	}
	parts := strings.Split(path, "/")
	for i, p := range parts {
		if p == "" {
			continue
		}
		top := chain[len(chain)-1]
		if top.kind != 'd' {
			return nil, eOther
		}
		if p == "." {
			continue
		}
		if p == ".." {
			if len(chain) > 1 {
				chain = chain[:len(chain)-1]
			} else {
				r.climbed = true
			}
			continue
		}
		k := top.kids[p]
		if k == nil {
			return nil, eNoent
		}
		last := i == len(parts)-1
		if k.kind == 'l' && (follow || !last) {
			*links++
			if *links > 40 {
				return nil, eOther
			}
			var err error
			chain, err = r.walk(append([]*rnode{}, chain...), k.target, true, links)
			if err != nil {
				return nil, err
			}
			continue
		}
		chain = append(append([]*rnode{}, chain...), k)
	}
	return chain, nil
}

func (r *refFS) get(path string, follow bool) (*rnode, error) {
	n := 0
	c, err := r.walk([]*rnode{r.root}, path, follow, &n)
	if err != nil {
		return nil, err
	}
	return c[len(c)-1], nil
}

func splitPath(p string) (string, string) {
	i := strings.LastIndex(p, "/")
	return p[:i+1], p[i+1:]
}

// slot finds the directory and name of a path for an operation on the name itself.
func (r *refFS) slot(path string) (*rnode, string, error) {
	d, b := splitPath(path)
	n, err := r.get(d, true)
	if err != nil {
		return nil, "", err
	}
	if n.kind != 'd' {
		return nil, "", eOther
	}
	return n, b, nil
}

func special(b string) bool { return b == "" || b == "." || b == ".." }

func (r *refFS) add(path string, n *rnode) error {
	d, b, err := r.slot(path)
	if err != nil {
		return err
	}
	if special(b) || d.kids[b] != nil {
		return eExist
	}
	d.kids[b] = n
	return nil
}

func (r *refFS) mkdir(path string, m fs.FileMode) error {
	return r.add(path, &rnode{kind: 'd', mode: m, kids: map[string]*rnode{}})
}

func (r *refFS) mkdirAll(path string, m fs.FileMode) error {
	n, err := r.get(path, true)
	if err == nil {
		if n.kind != 'd' {
			return eOther
		}
		return nil
	}
	d, _ := splitPath(strings.TrimRight(path, "/"))
	if d != "" && d != "/" {
		if err := r.mkdirAll(strings.TrimRight(d, "/"), m); err != nil {
			return err
		}
	}
	if err := r.mkdir(path, m); err != nil {
		if n, e := r.get(path, true); e == nil && n.kind == 'd' {
			return nil
		}
		return eOther
	}
	return nil
}

// open finds (or creates) the file a path names, following links.
func (r *refFS) open(path string, create, excl bool, m fs.FileMode) (*rnode, error) {
	chain := []*rnode{r.root}
	for links := 0; ; links++ {
		if links > 40 {
			return nil, eOther
		}
		d, b := splitPath(path)
		n := links
		c, err := r.walk(chain, d, true, &n)
		if err != nil {
			return nil, err
		}
		dir := c[len(c)-1]
		if dir.kind != 'd' {
			return nil, eOther
		}
		if special(b) {
			return nil, eOther
		}
		k := dir.kids[b]
		if k != nil && create && excl {
			return nil, eExist
		}
		if k == nil {
			if !create {
				return nil, eNoent
			}
			k = &rnode{kind: 'f', mode: m}
			dir.kids[b] = k
			return k, nil
		}
		if k.kind == 'l' {
			chain, path = c, k.target
			continue
		}
		if k.kind == 'd' {
			return nil, eOther
		}
		return k, nil
	}
}

func (r *refFS) write(path, data string, m fs.FileMode, excl, app bool) error {
	n, err := r.open(path, true, excl, m)
	if err != nil {
		return err
	}
	if app {
		n.data += data
	} else {
		n.data = data
	}
	return nil
}

func (r *refFS) symlink(target, path string) error {
	return r.add(path, &rnode{kind: 'l', mode: 0o777, target: target})
}

func (r *refFS) link(old, path string) error {
	n, err := r.get(old, false)
	if err != nil {
		return err
	}
	d, b, err := r.slot(path)
	if err != nil {
		return err
	}
	if special(b) || d.kids[b] != nil {
		return eExist
	}
	if n.kind == 'd' {
		return eOther
	}
	d.kids[b] = n
	return nil
}

func (r *refFS) remove(path string) error {
	d, b, err := r.slot(path)
	if err != nil {
		return err
	}
	if special(b) {
		return eOther
	}
	k := d.kids[b]
	if k == nil {
		return eNoent
	}
	if k.kind == 'd' && len(k.kids) > 0 {
		return eOther
	}
	delete(d.kids, b)
	return nil
}

func (r *refFS) mknod(path string, m fs.FileMode, dev int) error {
	return r.add(path, &rnode{kind: 'c', mode: m, dev: dev})
}

func (r *refFS) on(path string, f func(*rnode)) error {
	n, err := r.get(path, true)
	if err == nil {
		f(n)
	}
	return err
}

// dump renders the tree with inode identities, for state hashing.
func (r *refFS) dump() string {
	ids := map[*rnode]int{}
	var b strings.Builder
	var rec func(n *rnode)
	rec = func(n *rnode) {
		if id, ok := ids[n]; ok {
			fmt.Fprintf(&b, "#%d;", id)
			return
		}
		ids[n] = len(ids)
		fmt.Fprintf(&b, "%c%o,%d,%d,%q,%q,%d,", n.kind, n.mode, n.uid, n.gid, n.data, n.target, n.dev)
		var xs []string
		for k, v := range n.xattr {
			xs = append(xs, k+"="+v)
		}
		sort.Strings(xs)
		fmt.Fprintf(&b, "%v{", xs)
		for _, k := range n.names() {
			fmt.Fprintf(&b, "%s:", k)
			rec(n.kids[k])
		}
		b.WriteString("}")
	}
	rec(r.root)
	return b.String()
}

func (n *rnode) names() []string {
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// mode as fs.FileMode including the type.
func (n *rnode) full() fs.FileMode {
	switch n.kind {
	case 'd':
		return n.mode | fs.ModeDir
	case 'l':
		return n.mode | fs.ModeSymlink
	case 'c':
		return n.mode | fs.ModeDevice | fs.ModeCharDevice
	}
	return n.mode
}
