ID="r01-conflicts-of-dependencies"
PROP="R01"
NEEDS="a conflict that only a dependency of a dependency states"
BREAKS="the conflicts stated two levels below a requested package are forgotten"
EDITS=[("pkg/apk/repo.go","""		dependencies = append(dependencies, depPkg)
		conflicts = append(conflicts, confs...)
""","""		dependencies = append(dependencies, depPkg)
		if len(parents) == 0 {
			conflicts = append(conflicts, confs...)
		}
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	r := Repository{URI: "https://demo.invalid/r/x86_64"}
	mk := func(name string, deps ...string) *Package {
		return &Package{Name: name, Version: "1.0.0-r0", Dependencies: deps}
	}
	ix := NewNamedRepositoryWithIndex("", r.WithIndex(&APKIndex{Packages: []*Package{
		mk("a", "b"), mk("b", "c"), mk("c", "d"), mk("d", "!z"), mk("z")}}))
	ctx := context.Background()
	_, conflicts, err := NewPkgResolver(ctx, []NamedIndex{ix}).GetPackagesWithDependencies(ctx, []string{"a"})
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range conflicts {
		if c == "z" || c == "!z" {
			return
		}
	}
	t.Errorf("conflicts: %v", conflicts)
}
'''
