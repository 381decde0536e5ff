ID="r04-provided-version-tie"
PROP="R04"
NEEDS="two providers of the same provided version where exactly one is the package of the requested name itself or provides it at its own version, with package versions and names ordering differently"
BREAKS="between equal provided versions the higher package version is no longer preferred; the name decides"
EDITS=[("pkg/apk/repo.go","""		if iVersionStr != a.Version || jVersionStr != b.Version {
""","""		if iVersionStr != a.Version && jVersionStr != b.Version {
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	repo := Repository{}
	idx := NewNamedRepositoryWithIndex("", repo.WithIndex(&APKIndex{Packages: []*Package{
		{Name: "aa", Version: "1.0", Provides: []string{"x=1.0"}},
		{Name: "bb", Version: "2.0", Provides: []string{"x=1.0"}},
	}}))
	got, err := NewPkgResolver(context.Background(), []NamedIndex{idx}).ResolvePackage("x", map[*RepositoryPackage]string{})
	if err != nil {
		t.Fatal(err)
	}
	if got[0].Name != "bb" {
		t.Errorf("%s %s is preferred", got[0].Name, got[0].Version)
	}
}
'''
