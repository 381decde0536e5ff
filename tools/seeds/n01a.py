ID="n01-origin-in-replaces"
PROP="N01"
NEEDS="a package that replaces another by name, and a third one that is built from an origin of that name and has a different version of the same file"
BREAKS="the file of the third package is silently left out instead of the installation failing"
EDITS=[("pkg/apk/install.go","""			if pkg.Name == rep {
""","""			if pkg.Name == rep || pkg.Origin == rep {
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"archive/tar"
	"bytes"
	"context"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func TestDemo(t *testing.T) {
	f := apkfs.NewMemFS()
	a, err := New(WithFS(f))
	if err != nil {
		t.Fatal(err)
	}
	data := func(s string) *bytes.Reader {
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		if err := w.WriteHeader(&tar.Header{Name: "d", Typeflag: tar.TypeDir, Mode: 0o755}); err != nil {
			t.Fatal(err)
		}
		if err := w.WriteHeader(&tar.Header{Name: "d/f", Typeflag: tar.TypeReg, Mode: 0o644, Size: int64(len(s))}); err != nil {
			t.Fatal(err)
		}
		if _, err := w.Write([]byte(s)); err != nil {
			t.Fatal(err)
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
		return bytes.NewReader(b.Bytes())
	}
	ctx := context.Background()
	if _, err := a.installAPKFiles(ctx, data("of a"), &Package{Name: "a", Version: "1", Replaces: []string{"b"}}); err != nil {
		t.Fatal(err)
	}
	if _, err := a.installAPKFiles(ctx, data("of b-tools"), &Package{Name: "b-tools", Version: "1", Origin: "b"}); err == nil {
		t.Error("two packages that do not replace each other have different contents for d/f, and that is no error")
	}
}
'''
