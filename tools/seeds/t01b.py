ID="t01-empty-file-xattr"
PROP="T01"
NEEDS="a file without content that has an extended attribute"
BREAKS="the attribute of an empty file is missing from the archive"
EDITS=[("pkg/tarball/write.go","""		if header.Typeflag == tar.TypeReg || header.Typeflag == tar.TypeDir {
			xfs""","""		if header.Typeflag == tar.TypeReg && header.Size > 0 || header.Typeflag == tar.TypeDir {
			xfs""")]
PKG="pkg/tarball"
TEST='''package tarball

import (
	"archive/tar"
	"bytes"
	"context"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func TestDemo(t *testing.T) {
	f := apkfs.NewMemFS()
	if err := f.WriteFile("empty", nil, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := f.SetXattr("empty", "user.k", []byte("v")); err != nil {
		t.Fatal(err)
	}
	c, err := NewContext()
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := c.WriteTar(context.Background(), &b, f, f); err != nil {
		t.Fatal(err)
	}
	h, err := tar.NewReader(&b).Next()
	if err != nil {
		t.Fatal(err)
	}
	if got := h.PAXRecords["SCHILY.xattr.user.k"]; got != "v" {
		t.Errorf("attribute is %q", got)
	}
}
'''
