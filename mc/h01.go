package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func init() {
	register("H01", check{run: runH01, level: "model_checking",
		rule:        "depth-first enumeration of every server script: per request one answer kind (full, partial right/wrong/short range, with or without Content-Range, 404/416/500/empty, connection error) and one break point with one break style, for every body length, declared or undeclared length, caller buffer size and chunking; non-trivial when at least one retry happens",
		assumptions: []string{"the resource does not change while it is downloaded", "an answer that ends early without any length information (HTTP/1.0 style) cannot be told from a complete one and is not generated"}})
}

// fakePkg is a minimal installable package.
type fakePkg struct{ name, url, sum string }

func (p fakePkg) URL() string            { return p.url }
func (p fakePkg) PackageName() string    { return p.name }
func (p fakePkg) ChecksumString() string { return p.sum }
func (p fakePkg) String() string         { return p.name }

var errBreak = errors.New("connection reset by peer")

type fakeBody struct {
	data   []byte
	end    error // error after data (io.EOF: clean)
	joined bool  // last data and the error in one Read
	chunk  int
	closed bool
}

func (b *fakeBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(b.data) == 0 {
		return 0, b.end
	}
	n := min(len(p), len(b.data), b.chunk)
	copy(p, b.data[:n])
	b.data = b.data[n:]
	if b.joined && len(b.data) == 0 {
		return n, b.end
	}
	return n, nil
}
func (b *fakeBody) Close() error { b.closed = true; return nil }

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func newAPK(opts ...apk.Option) *apk.APK {
	return must1(apk.New(append([]apk.Option{apk.WithFS(apkfs.NewMemFS()), apk.WithArch("x86_64")}, opts...)...))
}

// answer kinds of the server
const (
	hRight    = iota // 200 without a range, 206 for exactly the rest with one
	hFull            // 200 with everything, Range ignored
	hNoCR            // 206 without a Content-Range header, right bytes
	hShort           // 206 for a shorter range, ended cleanly
	hWrong0          // 206 starting at 0
	hWrongP          // 206 starting one after the requested start
	hWrongM          // 206 starting one before
	hErr             // no answer
	h404             //
	h500             //
	h416             //
	hEmpty206        // 206 without body
	h203             // another successful status, with everything
	hLess            // 200 with less than what was there already
	hKinds
)

var hNames = []string{"right", "full", "noCR", "short", "wrong0", "wrong+1", "wrong-1", "err", "404", "500", "416", "empty206", "203", "less"}

func runH01(c *C) {
	type cfg struct {
		l, buf, chunk int
		cl            int // lengths declared: 1 always, 0 never, 2 by retries only, 3 by the first answer only
	}
	var cfgs []cfg
	for _, l := range []int{0, 1, 2, 3, 5} {
		if l == 5 && !c.Thorough() {
			l = 4
		}
		for _, buf := range []int{1, 2, 7} {
			for _, chunk := range []int{1, 2, 9} {
				for _, cl := range []int{1, 0, 2, 3} {
					if cl > 1 && chunk == 2 {
						continue
					}
					cfgs = append(cfgs, cfg{l, buf, chunk, cl})
				}
			}
		}
	}
	bound := c.Pick(3, 4)
	c.Sample("length 4 declared, buffer 2, chunk 1: full breaks after 2; 206 starting at 0 ends")
	c.Run(func(emit func(string, func(*T))) {
		for _, g := range cfgs {
			g := g
			emit(fmt.Sprintf("l%d:b%d:c%d:%d", g.l, g.buf, g.chunk, g.cl), func(t *T) {
				execs, _, complete := Explore(2*bound, 0, func() bool { t.Tick(); return t.Expired() }, func(ch *Chooser) bool {
					h01one(t, ch, g.l, g.buf, g.chunk, g.cl, bound)
					return true
				})
				t.Trace(execs)
				if !complete {
					t.Cap("time limit")
				}
			})
		}
	})
}

func h01one(t *T, ch *Chooser, l, buf, chunk, declared, bound int) {
	body := []byte("ABCDEFGH")[:l]
	var script []string
	reqs := 0
	faults := 0
	wrong := false // an answer that is not a correct one was given
	zero := 0      // consecutive answers without progress
	worst := 0
	rt := rtFunc(func(req *http.Request) (*http.Response, error) {
		reqs++
		start := 0
		cl := declared == 1 || declared == 2 && reqs > 1 || declared == 3 && reqs == 1
		rg := req.Header.Get("Range")
		if rg != "" {
			if n, err := fmt.Sscanf(rg, "bytes=%d-", &start); n != 1 || err != nil {
				script = append(script, "badrange("+rg+")")
			}
		}
		kind := hRight
		if faults < bound {
			kind = ch.Choose(hKinds, 2, "kind")
		}
		if rg == "" && (kind == hFull || kind == hNoCR || kind == hShort || kind == hWrong0 || kind == hWrongP || kind == hWrongM || kind == hEmpty206 || kind == hLess) {
			kind = hRight
		}
		resp := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: req, ProtoMajor: 1, ProtoMinor: 1}
		var data []byte
		clean := true
		from, to := start, l
		switch kind {
		case hRight, hNoCR:
			if start > l || (rg != "" && start == l) {
				kind = h416
			}
		case hShort:
			to = l - 1
			if to <= from {
				kind = h416
			}
		case hWrong0:
			from = 0
		case hWrongP:
			from++
		case hWrongM:
			from--
		}
		if kind != hRight && kind != hFull && kind != hNoCR {
			wrong = true
			faults++
		}
		switch kind {
		case hErr:
			script = append(script, "err")
			return nil, errBreak
		case h404, h500, h416:
			code := map[int]int{h404: 404, h500: 500, h416: 416}[kind]
			script = append(script, hNames[kind])
			resp.StatusCode, resp.Status = code, fmt.Sprintf("%d X", code)
			resp.Body = &fakeBody{data: []byte("zz"), end: io.EOF, chunk: 9}
			resp.ContentLength = 2
			return resp, nil
		case h203:
			script = append(script, hNames[kind])
			resp.StatusCode, resp.Status = 203, "203 Non-Authoritative Information"
			resp.Body = &fakeBody{data: body, end: io.EOF, chunk: chunk}
			resp.ContentLength = int64(l)
			return resp, nil
		case hLess:
			script = append(script, hNames[kind])
			resp.Body = &fakeBody{data: body[:max(0, start-1)], end: io.EOF, chunk: chunk}
			resp.ContentLength = -1
			return resp, nil
		case hEmpty206:
			script = append(script, hNames[kind])
			resp.StatusCode, resp.Status = 206, "206 Partial Content"
			resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", start, l-1, l))
			resp.Body = http.NoBody
			return resp, nil
		}
		if kind == hFull || rg == "" {
			data = body
			from, to = 0, l
		} else {
			if from >= to || from < 0 {
				from, to = 0, l
			}
			data = body[from:to]
			resp.StatusCode, resp.Status = 206, "206 Partial Content"
			if kind != hNoCR {
				resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, to-1, l))
			}
		}
		resp.ContentLength = -1
		if cl {
			resp.ContentLength = int64(len(data))
		}
		fb := &fakeBody{data: data, end: io.EOF, chunk: chunk}
		brk := ""
		if faults < bound {
			// 0: no break; else break after k bytes, in one of two styles
			v := ch.Choose(1+2*(len(data)+1), 2, "break")
			if v > 0 {
				faults++
				v--
				fb.data = data[:v/2]
				fb.joined = v%2 == 1
				fb.end = errBreak
				if v%4 >= 2 {
					fb.end = io.ErrUnexpectedEOF
				}
				clean = false
				brk = fmt.Sprintf("/break%d%v", v/2, fb.joined)
				// progress made by this answer, in new bytes (a break reported together with data loses that read)
				got := len(fb.data)
				if fb.joined {
					got -= min(got, min(chunk, buf))
					// the last read before the break may be anywhere up to a buffer long
					if got < 0 {
						got = 0
					}
				}
				if kind == hFull && rg != "" {
					got -= start
				}
				if got <= 0 {
					zero++
				} else {
					zero = 1
				}
				worst = max(worst, zero)
			}
		}
		_ = clean
		if len(data) == 0 && fb.end == io.EOF {
			resp.Body = http.NoBody
			if cl {
				resp.ContentLength = 0
			}
		} else {
			resp.Body = fb
		}
		script = append(script, fmt.Sprintf("%s[%d:%d]%s", hNames[kind], from, to, brk))
		return resp, nil
	})
	a := newAPK()
	a.SetClient(&http.Client{Transport: rt})
	t.Trans(1)
	rc, err := a.FetchPackage(context.Background(), fakePkg{"p", "http://h.example/x86_64/p-1.apk", ""})
	var got []byte
	final := err
	if err == nil {
		p := make([]byte, buf)
		idle := 0
		for i := 0; ; i++ {
			n, err := rc.Read(p)
			got = append(got, p[:n]...)
			if err != nil {
				final = err
				break
			}
			if n == 0 {
				idle++
			}
			if i > 200 || idle > 20 {
				final = errors.New("no end")
				break
			}
		}
		rc.Close()
	}
	t.Eval(reqs > 1)
	key := fmt.Sprintf("l%d:b%d:c%d:%d:%s", l, buf, chunk, declared, strings.Join(script, ","))
	t.Outcome(fmt.Sprint(final == io.EOF, len(got), reqs))
	desc := fmt.Sprintf("%d-byte body (lengths declared: %s), buffer %d, chunk %d, server script %v: read %q, ended with %v", l, []string{"never", "always", "by retries", "by the first answer"}[declared], buf, chunk, script, got, final)
	switch {
	case final.Error() == "no end":
		t.Fail("end:"+key, "%s: reading does not end", desc)
	case len(got) > len(body) || string(got) != string(body[:len(got)]):
		t.Fail("bytes:"+key, "%s: wrong bytes", desc)
	case final == io.EOF && len(got) != len(body):
		t.Fail("short:"+key, "%s: ended successfully with missing bytes", desc)
	case l > 0 && final != io.EOF && !wrong && worst <= 1:
		t.Fail("giveup:"+key, "%s: every retry was answered correctly and progressed, yet the download failed", desc)
	}
	if reqs > 3+2*bound+l*3 {
		t.Fail("reqs:"+key, "%s: %d requests", desc, reqs)
	}
}

func readAll(r io.Reader) []byte { return must1(io.ReadAll(r)) }
