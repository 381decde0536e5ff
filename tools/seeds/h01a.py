ID="h01-total-from-retry"
PROP="H01"
NEEDS="a download that breaks, is continued with a partial answer, and whose continuation ends early"
BREAKS="the expected total is replaced by the length of the continuation, so an early end of it counts as the end of the file"
EDITS=[("pkg/apk/transport.go","""	if r.total == 0 {
		r.total = resp.ContentLength
	}
""","""	if resp.ContentLength >= 0 {
		r.total = resp.ContentLength
	}
""")]
PKG="pkg/apk"
TEST='''package apk

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"testing"
)

type demoRT func(*http.Request) (*http.Response, error)

func (f demoRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type demoBody struct {
	r   io.Reader
	err error
}

func (b *demoBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}
func (b *demoBody) Close() error { return nil }

func TestDemo(t *testing.T) {
	data := []byte("0123456789")
	calls := 0
	c := &http.Client{Transport: demoRT(func(r *http.Request) (*http.Response, error) {
		calls++
		var off int
		resp := &http.Response{StatusCode: 200, Header: http.Header{}, Request: r}
		if rg := r.Header.Get("Range"); rg != "" {
			fmt.Sscanf(rg, "bytes=%d-", &off)
			resp.StatusCode = 206
			resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-9/10", off))
		}
		resp.ContentLength = int64(10 - off)
		n, e := 6, errors.New("broken")
		switch calls {
		case 2:
			n, e = 8, io.EOF // ends early
		case 3:
			n, e = 10, io.EOF
		}
		resp.Body = &demoBody{bytes.NewReader(data[off:n]), e}
		return resp, nil
	})}
	req, _ := http.NewRequest("GET", "http://h/x", nil)
	resp, err := newRangeRetryTransport(context.Background(), c).RoundTrip(req)
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(resp.Body)
	if err == nil && string(b) != string(data) {
		t.Errorf("successfully read %q", b)
	}
}
'''
