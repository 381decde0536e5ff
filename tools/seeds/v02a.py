ID="v02-tilde-shorter"
PROP="V02"
NEEDS="a '~' constraint whose version has more numbers than the package version"
BREAKS="'~1.2.3' selects the package version 1.2"
EDITS=[("pkg/apk/version.go","""	if len(actual.numbers) < len(required.numbers) {
		return false
	}
	for i := 0; i < len(required.numbers); i++ {
""","""	for i := 0; i < len(required.numbers) && i < len(actual.numbers); i++ {
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	repo := Repository{}
	idx := NewNamedRepositoryWithIndex("", repo.WithIndex(&APKIndex{Packages: []*Package{{Name: "a", Version: "1.2"}}}))
	got, err := NewPkgResolver(context.Background(), []NamedIndex{idx}).ResolvePackage("a~1.2.3", map[*RepositoryPackage]string{})
	if err == nil {
		t.Errorf("a~1.2.3 selects %v", got[0].Version)
	}
}
'''
