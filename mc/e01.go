package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/chainguard-dev/go-apk/internal/tarfs"
	"github.com/chainguard-dev/go-apk/pkg/expandapk"
)

func init() {
	register("E01", check{run: runE01, level: "model_checking",
		rule:        "a family of packages (signed or not, with and without end-of-archive blocks, one to four gzip members in the data section, empty to multi-buffer contents): every truncation point, every injected read error point, every byte flipped (strided in the quick tier), section-level rearrangements, and several read chunkings; each success is compared with an independent splitter; non-trivial when the input is not the unmodified package",
		assumptions: []string{"a cut exactly between two gzip members of the data section is a well-formed shorter package (only the data hash can tell, see E03)", "expansion alone does not know which bytes were signed: a changed byte either fails or gives the exact sections of the changed stream"}})
}

// chunkReader returns at most n bytes per read, optionally interleaving empty reads, and ends with end
// (joined with the last bytes when asked).
type chunkReader struct {
	b      []byte
	n      int
	zero   bool
	joined bool
	end    error
	tick   int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.tick++
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero && r.tick%3 == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, r.end
	}
	n := min(len(p), r.n, len(r.b))
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.joined && len(r.b) == 0 {
		return n, r.end
	}
	return n, nil
}

func e01Family(th bool) []apkSpec {
	small := []tent{dirE("etc"), reg("etc/a", "hello\n")}
	several := []tent{dirE("usr"), dirE("usr/bin"), reg("usr/bin/x", strings.Repeat("0123456789abcdef", 40)), symE("usr/bin/y", "x"), lnkE("usr/bin/z", "usr/bin/x"), reg("top", "")}
	bigd := []tent{dirE("d"), reg("d/big", noise(9000)), reg("d/b", "tail")}
	script := []tent{{name: ".post-install", typ: '0', mode: 0o755, body: "#!/bin/sh\necho hi\n"}}
	var out []apkSpec
	for _, signed := range []bool{true, false} {
		for _, eof := range []bool{false, true} {
			out = append(out,
				apkSpec{name: "p", ver: "1-r0", signed: signed, ctlEOF: eof, data: small},
				apkSpec{name: "p", ver: "1-r0", signed: signed, ctlEOF: eof, data: several, scripts: script, splits: []int{700}},
			)
		}
		out = append(out,
			apkSpec{name: "p", ver: "1-r0", signed: signed, data: nil},
			apkSpec{name: "p", ver: "1-r0", signed: signed, data: several, splits: []int{512, 512, 2048}, noDataEOF: true, nosums: true},
			apkSpec{name: "p", ver: "1-r0", signed: signed, data: bigd, splits: []int{4096}},
			apkSpec{name: "p", ver: "1-r0", signed: signed, data: small, tail: strings.Repeat("\x00", 9000), splits: []int{1024, 4000}},
			apkSpec{name: "p", ver: "1-r0", signed: signed, data: small, tail: noise(700)},
		)
		if th {
			out = append(out, apkSpec{name: "p", ver: "1-r0", signed: signed, data: bigd, scripts: script, ctlEOF: true},
				apkSpec{name: "p", ver: "1-r0", signed: signed, data: several, splits: []int{0, 100, 1536, 3000}})
		}
	}
	names := []string{"", ".SIGN.RSA256.test.rsa.pub", ".SIGN.DSA.x", ".SIGN.RSA.k", ".SIGN.x"}
	for i := range out {
		out[i].sigName = names[i%len(names)]
		out[i].tight = i%4 == 3
	}
	return out
}

func runE01(c *C) {
	fam := e01Family(c.Thorough())
	c.Sample("unsigned package with directory etc and file etc/a, truncated after byte 17")
	c.Run(func(emit func(string, func(*T))) {
		for i, s := range fam {
			i := i
			a := s.build()
			// the unmodified package in all chunkings
			emit(fmt.Sprintf("p%d:chunk", i), func(t *T) {
				for _, n := range []int{1, 2, 3, 7, 511, 512, 4096, 1 << 20} {
					for k := 0; k < 4; k++ {
						r := &chunkReader{b: a.all, n: n, zero: k&1 != 0, joined: k&2 != 0, end: io.EOF}
						e01one(t, fmt.Sprintf("p%d:chunk:%d:%d", i, n, k), a, a.all, r, true)
					}
				}
			})
			if i == 0 {
				e01big(emit)
			}
			boundary := map[int]bool{}
			for _, m := range a.members {
				boundary[m] = true
			}
			step := 1
			if len(a.all) > 3000 && !c.Thorough() {
				step = 7
			}
			const blk = 64
			for lo := 0; lo < len(a.all); lo += blk {
				lo := lo
				hi := min(lo+blk, len(a.all))
				emit(fmt.Sprintf("p%d:%d", i, lo), func(t *T) {
					for k := lo; k < hi; k++ {
						t.Tick()
						near := k < 40 || len(a.all)-k < 40 || absInt(k-len(a.sig)) < 40 || absInt(k-len(a.sig)-len(a.ctl)) < 40
						for _, m := range a.members {
							near = near || absInt(k-m) < 30
						}
						if k%step != 0 && !near {
							continue
						}
						// truncation, with clean end and with an error
						if !boundary[k] {
							e01one(t, fmt.Sprintf("p%d:trunc:%d", i, k), nil, a.all[:k], &chunkReader{b: a.all[:k], n: 4096, end: io.EOF}, false)
						}
						e01one(t, fmt.Sprintf("p%d:readerr:%d", i, k), nil, a.all[:k], &chunkReader{b: a.all[:k], n: 333, end: errBreak, joined: k%2 == 0}, false)
						// byte flips
						flips := []byte{0x01, 0x80}
						if t.Thorough() && len(a.all) < 3000 {
							flips = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff}
						}
						if near || k%3 == 0 || t.Thorough() {
							for _, f := range flips {
								b := bytes.Clone(a.all)
								b[k] ^= f
								e01one(t, fmt.Sprintf("p%d:flip:%d:%02x", i, k, f), nil, b, &chunkReader{b: b, n: 4096, end: io.EOF}, false)
							}
						}
					}
				})
			}
			// section-level changes
			emit(fmt.Sprintf("p%d:sect", i), func(t *T) {
				cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
				sig := gz(makeTar([]tent{reg(".SIGN.RSA.x.rsa.pub", "s")}, false, false))
				type v struct {
					name string
					b    []byte
					ok   bool
				}
				bad := []v{
					{"nodata", cat(a.sig, a.ctl), false},
					{"noctl", cat(sig, a.dat), false},
					{"sigonly", sig, false},
					{"ctlonly", a.ctl, false},
					{"empty", nil, false},
					{"garbage-end", cat(a.all, []byte("xyz")), false},
					{"zeros-end", cat(a.all, make([]byte, 512)), false},
					{"garbage-start", cat([]byte("x"), a.all), false},
					{"notgz", []byte(strings.Repeat("not a package", 100)), false},
					{"tarnotgz", a.datTar, false},
				}
				for _, x := range bad {
					if x.name == "noctl" && len(a.members) > 0 {
						continue // the first data member would be the control section
					}
					e01one(t, fmt.Sprintf("p%d:sect:%s", i, x.name), nil, x.b, &chunkReader{b: x.b, n: 4096, end: io.EOF}, false)
				}
				// wrong file checksum in the data section
				for j, e := range a.data {
					if e.typ != '0' || a.nosums {
						continue
					}
					s2 := a.apkSpec
					for _, sum := range []string{strings.Repeat("00", 20), "Q1" + "AAAAAAAAAAAAAAAAAAAAAAAAAAA=", "zz", "Q1!!", "00", strings.Repeat("00", 32), "Q1AAAA", strings.Repeat("00", 19)} {
						s2.data = append([]tent{}, a.data...)
						s2.data[j].sum = sum
						b := s2.build()
						e01one(t, fmt.Sprintf("p%d:badsum:%d:%s", i, j, sum), nil, b.all, &chunkReader{b: b.all, n: 4096, end: io.EOF}, false)
						if j > 0 { // none before it has one
							for k := range s2.data[:j] {
								s2.data[k].noSum = true
							}
							b := s2.build()
							e01one(t, fmt.Sprintf("p%d:badsum:%d:%s:alone", i, j, sum), nil, b.all, &chunkReader{b: b.all, n: 4096, end: io.EOF}, false)
						}
					}
				}
			})
		}
	})
}

// e01big: sections larger than every buffer.
func e01big(emit func(string, func(*T))) {
	big := []tent{dirE("d"), reg("d/a", noise(100)), reg("d/big", noise(2<<20+12345)), reg("d/z", "tail")}
	small := []tent{dirE("d"), reg("d/a", noise(100))}
	// the data section has exactly n bytes
	sized := func(n int, tail bool) apkSpec {
		s := apkSpec{data: small, noDataEOF: true, nosums: true}
		l := len(makeTar(small, false, false))
		if tail {
			s.tail = strings.Repeat("\x00", n-l)
		} else {
			s.data = append(small[:2:2], reg("d/b", noise(n-l-512)))
		}
		return s
	}
	for _, signed := range []bool{true, false} {
		for k, s := range []apkSpec{
			{data: big}, {data: big, splits: []int{1 << 20}}, {data: big, nosums: true, splits: []int{1024, 4096, 1<<20 + 1, 2 << 20}},
			{data: small, tail: noise(300 << 10)}, {data: small, tail: noise(2 << 20), splits: []int{3000}}, {data: small, tail: strings.Repeat("\x00", 3<<20)},
			{data: small, scripts: []tent{reg(".post-install", noise(20<<10))}},
			sized(1<<20, false), sized(1<<20+512, false), sized(1<<20-512, true), sized(1<<20+512, true), sized(1<<20, true), sized(2<<20+100, true),
		} {
			s.name, s.ver, s.signed = "p", "1-r0", signed
			s, k, signed := s, k, signed
			emit(fmt.Sprintf("big:%d:%v", k, signed), func(t *T) {
				a := s.build()
				for _, n := range []int{511, 4096, 65537, 1 << 20, 1 << 24} {
					t.Tick()
					e01one(t, fmt.Sprintf("big:%d:%v:chunk:%d", k, signed, n), a, a.all, &chunkReader{b: a.all, n: n, zero: n < 5000, joined: n > 5000, end: io.EOF}, true)
				}
				cuts := map[int]bool{}
				for _, m := range append([]int{len(a.sig) + len(a.ctl), len(a.all)}, a.members...) {
					for d := -9; d < 10; d++ {
						cuts[m+d] = true
					}
				}
				for q := 1; q < 16; q++ {
					cuts[len(a.all)*q/16] = true
				}
				for _, m := range append([]int{0, len(a.sig), len(a.all)}, a.members...) {
					delete(cuts, m)
				}
				for c := 1; c < len(a.all); c++ {
					if !cuts[c] {
						continue
					}
					t.Tick()
					e01one(t, fmt.Sprintf("big:%d:%v:trunc:%d", k, signed, c), nil, a.all[:c], &chunkReader{b: a.all[:c], n: 1 << 20, end: io.EOF}, false)
					b := bytes.Clone(a.all)
					b[c] ^= 0x10
					e01one(t, fmt.Sprintf("big:%d:%v:flip:%d", k, signed, c), nil, b, &chunkReader{b: b, n: 1 << 20, end: io.EOF}, false)
				}
			})
		}
	}
}

func absInt(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// e01one expands in and checks the outcome. want: the package that must come out (nil: see valid).
func e01one(t *T, key string, want *builtApk, in []byte, r io.Reader, valid bool) {
	dir := t.Dir()
	t.Trans(1)
	t.Trace(1)
	t.Eval(!valid)
	exp, err := expandapk.ExpandApk(context.Background(), r, dir)
	fail := func(format string, args ...any) {
		t.Fail(key, "%s (%d bytes): %s", key, len(in), fmt.Sprintf(format, args...))
	}
	if err != nil {
		if valid {
			fail("a valid package was refused: %v", err)
		}
		if l := leftovers(dir); l != "" {
			fail("expansion failed (%v) and left %s behind", err, l)
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0o755)
		}
		return
	}
	why := e01consistent(exp, in)
	if why == "" && !valid && (strings.Contains(key, ":trunc:") || strings.Contains(key, ":readerr:") || strings.Contains(key, ":sect:") || strings.Contains(key, ":badsum:")) {
		why = "a damaged package was accepted"
	}
	if why == "" && want != nil {
		if exp.Signed != want.signed {
			why = "signedness"
		} else if b, _ := os.ReadFile(exp.ControlFile); !bytes.Equal(b, want.ctl) {
			why = "control section differs"
		} else if b, _ := os.ReadFile(exp.PackageFile); !bytes.Equal(b, want.dat) {
			why = "data section differs"
		}
	}
	if why != "" {
		fail("%s", why)
	}
	exp.TarFS.Close()
	if err := exp.Close(); err != nil {
		fail("Close: %v", err)
	}
	if l := leftovers(dir); l != "" {
		fail("Close left %s behind", l)
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0o755)
	}
}

func leftovers(dir string) string {
	var l []string
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if p != dir {
			l = append(l, strings.TrimPrefix(p, dir))
		}
		return nil
	})
	return strings.Join(l, " ")
}

// e01consistent: the result describes exactly the stream in.
func e01consistent(exp *expandapk.APKExpanded, in []byte) string {
	var sig []byte
	if exp.SignatureFile != "" {
		sig = must1(os.ReadFile(exp.SignatureFile))
	}
	if exp.Signed != (exp.SignatureFile != "") {
		return "Signed and SignatureFile disagree"
	}
	ctl, err := os.ReadFile(exp.ControlFile)
	if err != nil {
		return err.Error()
	}
	dat, err := os.ReadFile(exp.PackageFile)
	if err != nil {
		return err.Error()
	}
	if cat := bytes.Join([][]byte{sig, ctl, dat}, nil); !bytes.Equal(cat, in) {
		return fmt.Sprintf("the sections (%d+%d+%d bytes) are not the stream (%d bytes)", len(sig), len(ctl), len(dat), len(in))
	}
	if exp.Size != int64(len(in)) {
		return fmt.Sprintf("size %d for a stream of %d bytes", exp.Size, len(in))
	}
	if h := sha1.Sum(ctl); !bytes.Equal(h[:], exp.ControlHash) {
		return "control hash is not that of the control section"
	}
	if h := sha256.Sum256(dat); !bytes.Equal(h[:], exp.PackageHash) {
		return "data hash is not that of the data section"
	}
	n := 2
	if exp.Signed {
		n = 3
	}
	ms, plain, err := gzipMembers(in)
	if err != nil {
		return fmt.Sprintf("accepted a stream that is not a sequence of gzip members: %v", err)
	}
	if len(ms) < n {
		return "too few gzip members"
	}
	hs, _, err := listTar(plain[0])
	isSig := err == nil && len(hs) > 0 && strings.HasPrefix(hs[0].Name, ".SIGN.")
	if len(hs) > 0 && isSig != exp.Signed {
		return fmt.Sprintf("signed=%v for a stream whose first entry is %q", exp.Signed, hs[0].Name)
	}
	if !bytes.Equal(ms[n-2], ctl) {
		return "the control section is not the member it should be"
	}
	cd, err := exp.ControlData()
	if err != nil || !bytes.Equal(cd, plain[n-2]) {
		return fmt.Sprintf("control data is not the decompressed control section (%v)", err)
	}
	dataTar := bytes.Join(plain[n-1:], nil)
	if b, err := os.ReadFile(exp.TarFile); err != nil || !bytes.Equal(b, dataTar) {
		return fmt.Sprintf("tar file (%d bytes) is not the decompressed data section (%d bytes) (%v)", len(b), len(dataTar), err)
	}
	f, err := exp.PackageData()
	if err != nil {
		return err.Error()
	}
	b, err := io.ReadAll(f)
	f.Close()
	if err != nil || !bytes.Equal(b, dataTar) {
		return "PackageData differs from the decompressed data section"
	}
	rc, err := exp.APK()
	if err != nil {
		return err.Error()
	}
	b, err = io.ReadAll(rc)
	rc.Close()
	if err != nil || !bytes.Equal(b, in) {
		return "APK() differs from the stream"
	}
	if why := e01list(exp.ControlFS, plain[n-2]); why != "" {
		return "control listing: " + why
	}
	if why := e01list(exp.TarFS, dataTar); why != "" {
		return "data listing: " + why
	}
	return ""
}

func e01list(fsys *tarfs.FS, tarBytes []byte) string {
	hs, bodies, err := listTar(tarBytes)
	if err != nil {
		return "accepted an invalid tar: " + err.Error()
	}
	es := fsys.Entries()
	if len(es) != len(hs) {
		return fmt.Sprintf("%d entries, the archive has %d", len(es), len(hs))
	}
	for i, h := range hs {
		g := es[i].Header
		if g.Name != h.Name || g.Typeflag != h.Typeflag || g.Size != h.Size || g.Mode != h.Mode || g.Linkname != h.Linkname {
			return fmt.Sprintf("entry %d is %s, the archive has %s", i, g.Name, h.Name)
		}
		if h.Typeflag == '0' && es[i].Offset+h.Size <= int64(len(tarBytes)) {
			if !bytes.Equal(tarBytes[es[i].Offset:es[i].Offset+h.Size], bodies[i]) {
				return fmt.Sprintf("offset of %s does not point at its content", h.Name)
			}
		}
	}
	return ""
}

var _ = errors.Is
