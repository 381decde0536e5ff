ID="r05-dependency-pin-lost"
PROP="R05"
NEEDS="a pinned world entry whose dependency exists only (or better) in the pinned repository"
BREAKS="the pin of a requested package is not applied to its dependencies"
EDITS=[("pkg/apk/repo.go","""	pin := p.resolvePackageNameVersionPin(pkgName).pin
""","""	pin := p.resolvePackageNameVersionPin(pkg.Name).pin
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	r := Repository{URI: "https://demo.invalid/r/x86_64"}
	mk := func(name string, deps ...string) *Package {
		return &Package{Name: name, Version: "1.0.0-r0", Dependencies: deps}
	}
	ix := NewNamedRepositoryWithIndex("edge", r.WithIndex(&APKIndex{Packages: []*Package{mk("a", "b"), mk("b")}}))
	ctx := context.Background()
	l, _, err := NewPkgResolver(ctx, []NamedIndex{ix}).GetPackagesWithDependencies(ctx, []string{"a@edge"})
	if err != nil || len(l) != 2 {
		t.Errorf("%v %v", l, err)
	}
}
'''
