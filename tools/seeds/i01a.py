ID="i01-nosig-prefix"
PROP="I01"
NEEDS="a repository exempt from signature checks whose URL is a string prefix of another repository's URL"
BREAKS="the exemption of one repository also exempts every other repository whose URL starts with the same text"
EDITS=[("pkg/apk/index.go","""		if IndexURL(ignoredIndex, arch) == index {
""","""		if strings.HasPrefix(index, ignoredIndex) && strings.HasSuffix(index, IndexURL("", arch)) {
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"testing"
)

type demoRT func(*http.Request) (*http.Response, error)

func (f demoRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	ar, err := ArchiveFromIndex(&APKIndex{Packages: []*Package{{Name: "evil", Version: "1"}}})
	if err != nil {
		t.Fatal(err)
	}
	b, _ := io.ReadAll(ar)
	c := &http.Client{Transport: demoRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r, Header: http.Header{}}, nil
	})}
	idx, err := GetRepositoryIndexes(context.Background(), []string{"http://demo-i01.example/os-extra"}, map[string][]byte{}, "x86_64",
		WithHTTPClient(c), WithIgnoreSignatureForIndexes("http://demo-i01.example/os"))
	if err == nil {
		t.Errorf("an unsigned index was accepted: %v", idx[0].Packages()[0].Name)
	}
}
'''
