ID="i02-provider-priority-omitted"
PROP="I02"
NEEDS="a package that has a provider priority but provides nothing"
BREAKS="the provider priority of a package that has no provides is not written to the index archive"
EDITS=[("pkg/apk/apkindex.go","""		p:{{join .Provides}}
		{{- end}}
		{{- if .ProviderPriority}}
		k:{{.ProviderPriority}}
		{{- end}}
""","""		p:{{join .Provides}}
		{{- if .ProviderPriority}}
		k:{{.ProviderPriority}}
		{{- end}}
		{{- end}}
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	ar, err := ArchiveFromIndex(&APKIndex{Packages: []*Package{{Name: "a", Version: "1", ProviderPriority: 7}}})
	if err != nil {
		t.Fatal(err)
	}
	idx, err := IndexFromArchive(io.NopCloser(ar))
	if err != nil {
		t.Fatal(err)
	}
	if idx.Packages[0].ProviderPriority != 7 {
		t.Errorf("provider priority %d", idx.Packages[0].ProviderPriority)
	}
}
'''
