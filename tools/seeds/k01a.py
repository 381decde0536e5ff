ID="k01-3xx-stored"
PROP="K01"
NEEDS="a key server that answers with a redirect status without a location, or another status between 300 and 399"
BREAKS="the body of a 3xx answer is stored as a key"
EDITS=[("pkg/apk/implementation.go","""				if resp.StatusCode < 200 || resp.StatusCode > 299 {
""","""				if resp.StatusCode < 200 || resp.StatusCode >= 400 {
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"context"
	"io"
	"net/http"
	"strings"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type demoRT func(*http.Request) (*http.Response, error)

func (f demoRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	a, err := New(WithFS(apkfs.NewMemFS()))
	if err != nil {
		t.Fatal(err)
	}
	a.SetClient(&http.Client{Transport: demoRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 300, Body: io.NopCloser(strings.NewReader("choose")), Request: r, Header: http.Header{}}, nil
	})})
	if err := a.InitKeyring(context.Background(), []string{"http://h/k.rsa.pub"}, nil); err == nil {
		t.Error("a 300 answer is stored as a key")
	}
}
'''
