ID="d01-wrong-kind"
PROP="D01"
NEEDS="an existing symlink to a file (or file) where a directory of the database belongs"
BREAKS="an existing object of the wrong kind at a database directory is only noticed if it is empty"
EDITS=[("pkg/apk/implementation.go","""			if !stat.IsDir() {
				return fmt.Errorf("failed to create directory %s: already exists as file", e.path)
			}
""","""			if stat.Mode().IsRegular() && stat.Size() == 0 {
				return fmt.Errorf("failed to create directory %s: already exists as file", e.path)
			}
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func TestDemo(t *testing.T) {
	f := apkfs.NewMemFS()
	if err := f.MkdirAll("var/cache", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := f.WriteFile("var/cache/misc", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	a, err := New(WithFS(f), WithIgnoreMknodErrors(true))
	if err != nil {
		t.Fatal(err)
	}
	if err := a.InitDB(context.Background()); err == nil {
		t.Error("a file in place of a directory is accepted")
	}
}
'''
