package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"io"

	"github.com/chainguard-dev/go-apk/pkg/apk"
)

func init() {
	register("E02", check{run: runE02, level: "model_checking",
		rule:        "the package family of E01: every truncation and read-error point up to the data section, every byte of the signature and control sections flipped, missing sections, and several chunkings; sizes and hashes compared with an independent splitter; non-trivial when the input is not the unmodified package",
		assumptions: []string{"the data section is not read: its size and hash are those the control section declares"}})
}

func runE02(c *C) {
	fam := e01Family(c.Thorough())
	c.Sample("signed package, all bytes one at a time")
	c.Run(func(emit func(string, func(*T))) {
		for i, s := range fam {
			i := i
			s.size = 4000 + i
			a := s.build()
			emit(fmt.Sprintf("p%d:chunk", i), func(t *T) {
				for _, n := range []int{1, 2, 3, 7, 511, 512, 4096, 1 << 20} {
					for k := 0; k < 4; k++ {
						e02one(t, fmt.Sprintf("p%d:chunk:%d:%d", i, n, k), a, a.all, &chunkReader{b: a.all, n: n, zero: k&1 != 0, joined: k&2 != 0, end: io.EOF}, true)
					}
				}
				// no size / no datahash / two of them
				for _, info := range [][]string{{"size = 7"}, {"datahash = 00"}, {"x = y"}} {
					s2 := a.apkSpec
					s2.info = info
					b := s2.build()
					e02one(t, fmt.Sprintf("p%d:info:%s", i, info[0]), nil, b.all, &chunkReader{b: b.all, n: 4096, end: io.EOF}, info[0] == "x = y")
				}
			})
			head := len(a.sig) + len(a.ctl)
			const blk = 64
			for lo := 0; lo <= head; lo += blk {
				lo := lo
				hi := min(lo+blk, head+1)
				emit(fmt.Sprintf("p%d:%d", i, lo), func(t *T) {
					for k := lo; k < hi; k++ {
						t.Tick()
						e02one(t, fmt.Sprintf("p%d:trunc:%d", i, k), nil, a.all[:k], &chunkReader{b: a.all[:k], n: 4096, end: io.EOF}, false)
						e02one(t, fmt.Sprintf("p%d:readerr:%d", i, k), nil, a.all[:k], &chunkReader{b: a.all[:k], n: 333, end: errBreak, joined: k%2 == 0}, false)
						if k < head {
							flips := []byte{0x01, 0x80}
							if t.Thorough() {
								flips = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff}
							}
							for _, f := range flips {
								b := bytes.Clone(a.all)
								b[k] ^= f
								e02one(t, fmt.Sprintf("p%d:flip:%d:%02x", i, k, f), nil, b, &chunkReader{b: b, n: 4096, end: io.EOF}, false)
							}
						}
					}
				})
			}
			emit(fmt.Sprintf("p%d:sect", i), func(t *T) {
				sig := gz(makeTar([]tent{reg(".SIGN.RSA.x.rsa.pub", "s")}, false, false))
				for j, b := range [][]byte{nil, sig, a.ctl, append(bytes.Clone(sig), a.ctl...), append(bytes.Clone(sig), a.dat...), []byte("not a package"), append([]byte("x"), a.all...)} {
					e02one(t, fmt.Sprintf("p%d:sect:%d", i, j), nil, b, &chunkReader{b: b, n: 4096, end: io.EOF}, false)
				}
			})
		}
	})
}

func e02one(t *T, key string, want *builtApk, in []byte, r io.Reader, valid bool) {
	t.Trans(1)
	t.Trace(1)
	t.Eval(!valid)
	res, err := apk.ResolveApk(context.Background(), r)
	if err != nil {
		if valid {
			t.Fail(key, "%s: a valid package was refused: %v", key, err)
		}
		return
	}
	if !valid && !bytes.Contains([]byte(key), []byte(":flip:")) {
		t.Fail(key, "%s: a damaged package (%d bytes) was accepted: %+v", key, len(in), *res)
		return
	}
	ms, plain, merr := gzipMembers(in)
	n := 0
	if len(plain) > 0 {
		if hs, _, _ := listTar(plain[0]); len(hs) > 0 && len(hs[0].Name) > 6 && hs[0].Name[:6] == ".SIGN." {
			n = 1
		}
	}
	if len(ms) <= n+1 && merr != nil {
		t.Fail(key, "%s: accepted a stream whose sections cannot be read: %v", key, merr)
		return
	}
	why := ""
	sum := func(b []byte) string { s := sha1.Sum(b); return string(s[:]) }
	if n == 1 && (res.SignatureSize != len(ms[0]) || string(res.SignatureHash) != sum(ms[0])) {
		why = fmt.Sprintf("signature size %d hash %x, the section has %d bytes", res.SignatureSize, res.SignatureHash, len(ms[0]))
	} else if n == 0 && (res.SignatureSize != 0 || len(res.SignatureHash) != 0) {
		why = "signature reported for an unsigned package"
	} else if res.ControlSize != len(ms[n]) || string(res.ControlHash) != sum(ms[n]) {
		why = fmt.Sprintf("control size %d hash %x, the section has %d bytes and hash %x", res.ControlSize, res.ControlHash, len(ms[n]), sum(ms[n]))
	} else if want != nil {
		h := sha256.Sum256(want.dat)
		if !bytes.Equal(res.DataHash, h[:]) {
			why = fmt.Sprintf("data hash %x, the section has %x", res.DataHash, h)
		} else if res.DataSize != want.size {
			why = fmt.Sprintf("data size %d, declared %d", res.DataSize, want.size)
		}
	}
	if why != "" {
		t.Fail(key, "%s: %s", key, why)
	}
}
