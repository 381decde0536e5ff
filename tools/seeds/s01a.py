ID="s01-world-sorts-caller"
PROP="S01"
NEEDS="a caller that goes on using the list it gave to SetWorld, out of order"
BREAKS="setting the world reorders the caller's own package list"
EDITS=[("pkg/apk/world.go","""	copied := make([]string, len(packages))
	copy(copied, packages)
	sort.Strings(copied)
""","""	copied := packages[:len(packages):len(packages)]
	sort.Strings(copied)
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"reflect"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func TestDemo(t *testing.T) {
	f := apkfs.NewMemFS()
	if err := f.MkdirAll("etc/apk", 0o755); err != nil {
		t.Fatal(err)
	}
	a, err := New(WithFS(f), WithIgnoreMknodErrors(true))
	if err != nil {
		t.Fatal(err)
	}
	l := []string{"c", "a", "b"}
	if err := a.SetWorld(context.Background(), l); err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(l, []string{"c", "a", "b"}) {
		t.Errorf("the caller's list is now %v", l)
	}
}
'''
