ID="t01-uname-before-remap"
PROP="T01"
NEEDS="an ownership remap together with a passwd file that names the old and the new id"
BREAKS="the user name of an entry is looked up before its id is remapped, so name and id disagree"
EDITS=[("pkg/tarball/write.go","""		if uid, ok := c.remapUIDs[header.Uid]; ok {
			header.Uid = uid
		}

		if gid, ok := c.remapGIDs[header.Gid]; ok {
			header.Gid = gid
		}

		if name, ok := users[header.Uid]; ok {
			header.Uname = name
		}
""","""		if name, ok := users[header.Uid]; ok {
			header.Uname = name
		}
		if uid, ok := c.remapUIDs[header.Uid]; ok {
			header.Uid = uid
		}

		if gid, ok := c.remapGIDs[header.Gid]; ok {
			header.Gid = gid
		}

""")]
PKG="pkg/tarball"
TEST='''package tarball

import (
	"archive/tar"
	"bytes"
	"context"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func TestDemo(t *testing.T) {
	f := apkfs.NewMemFS()
	if err := f.Mkdir("etc", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := f.WriteFile("etc/passwd", []byte("old:x:7:7::/:/bin/sh\\nnew:x:8:8::/:/bin/sh\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := f.WriteFile("x", []byte("1"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := f.Chown("x", 7, 7); err != nil {
		t.Fatal(err)
	}
	c, err := NewContext(WithRemapUIDs(map[int]int{7: 8}))
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := c.WriteTar(context.Background(), &b, f, f); err != nil {
		t.Fatal(err)
	}
	tr := tar.NewReader(&b)
	for {
		h, err := tr.Next()
		if err != nil {
			t.Fatal(err)
		}
		if h.Name == "x" {
			if h.Uid != 8 || h.Uname != "new" {
				t.Errorf("%d %q", h.Uid, h.Uname)
			}
			return
		}
	}
}
'''
