package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"strings"
	"time"
)

// tent is one tar entry.
type tent struct {
	name    string
	typ     byte
	mode    int64
	body    string
	link    string
	uid     int
	gid     int
	uname   string
	gname   string
	major   int64
	minor   int64
	pax     map[string]string
	mtime   int64
	noSum   bool   // leave the checksum record out
	sum     string // override of the checksum record
	rawName bool
}

func reg(name, body string) tent { return tent{name: name, typ: tar.TypeReg, mode: 0o644, body: body} }
func dirE(name string) tent      { return tent{name: name, typ: tar.TypeDir, mode: 0o755} }
func symE(name, to string) tent  { return tent{name: name, typ: tar.TypeSymlink, mode: 0o777, link: to} }
func lnkE(name, to string) tent  { return tent{name: name, typ: tar.TypeLink, mode: 0o644, link: to} }

func (e tent) String() string {
	s := fmt.Sprintf("%s:%c:%o", e.name, e.typ, e.mode)
	if e.link != "" {
		s += "->" + e.link
	}
	if e.typ == tar.TypeReg {
		s += fmt.Sprintf("=%s", short(e.body))
	}
	return s
}

func short(s string) string {
	if len(s) > 12 {
		return fmt.Sprintf("%s..%d", s[:6], len(s))
	}
	return s
}

func entsString(es []tent) string {
	var l []string
	for _, e := range es {
		l = append(l, e.String())
	}
	return strings.Join(l, " ")
}

// makeTar writes the entries; eof says whether the end-of-archive blocks are there. sums adds the
// apk checksum record to regular files and links.
func makeTar(es []tent, eof, sums bool) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, e := range es {
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Mode: e.mode, Linkname: e.link, Uid: e.uid, Gid: e.gid, Uname: e.uname, Gname: e.gname,
			Devmajor: e.major, Devminor: e.minor, ModTime: time.Unix(e.mtime, 0)}
		if e.typ == tar.TypeReg {
			h.Size = int64(len(e.body))
		}
		for k, v := range e.pax {
			if h.PAXRecords == nil {
				h.PAXRecords = map[string]string{}
			}
			h.PAXRecords[k] = v
		}
		if sums && !e.noSum && (e.typ == tar.TypeReg || e.typ == tar.TypeSymlink) {
			if h.PAXRecords == nil {
				h.PAXRecords = map[string]string{}
			}
			s := sha1.Sum([]byte(e.body))
			if e.typ == tar.TypeSymlink {
				s = sha1.Sum([]byte(e.link))
			}
			v := hex.EncodeToString(s[:])
			if e.sum != "" {
				v = e.sum
			}
			h.PAXRecords["APK-TOOLS.checksum.SHA1"] = v
		}
		must(w.WriteHeader(h))
		if h.Size > 0 {
			must1(w.Write([]byte(e.body)))
		}
	}
	if eof {
		must(w.Close())
	} else {
		must(w.Flush())
	}
	return b.Bytes()
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	must1(w.Write(b))
	must(w.Close())
	return o.Bytes()
}

func gunzipAll(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// gzipMembers splits b into its gzip members.
func gzipMembers(b []byte) (members [][]byte, plain [][]byte, err error) {
	for len(b) > 0 {
		br := bytes.NewReader(b)
		r, err := gzip.NewReader(br)
		if err != nil {
			return members, plain, err
		}
		r.Multistream(false)
		p, err := io.ReadAll(r)
		if err != nil {
			return members, plain, err
		}
		n := len(b) - br.Len()
		members = append(members, b[:n])
		plain = append(plain, p)
		b = b[n:]
	}
	return members, plain, nil
}

// apkSpec describes one package file.
type apkSpec struct {
	name, ver string
	signed    bool
	info      []string // extra PKGINFO lines
	origin    string
	replaces  []string
	scripts   []tent // further control entries
	data      []tent
	nosums    bool
	noHash    bool  // leave datahash out
	splits    []int // data tar is split into gzip members at these offsets
	ctlEOF    bool
	noDataEOF bool
	tail      string // follows the data archive inside the data section
	size      int
	tight     bool   // no spaces in .PKGINFO
	sigName   string // of the entry of the signature section, .SIGN.RSA.test.rsa.pub by default
}

// builtApk is a package file and its sections.
type builtApk struct {
	apkSpec
	sig, ctl, dat   []byte
	ctlTar, datTar  []byte
	all             []byte
	ctlSum          []byte
	members         []int // offsets (in all) where data members end, except the last
	pkginfo, q1, id string
}

func (s apkSpec) build() *builtApk {
	a := &builtApk{apkSpec: s}
	a.datTar = makeTar(s.data, !s.noDataEOF, !s.nosums)
	a.datTar = append(a.datTar, s.tail...)
	prev := 0
	var ends []int
	for _, p := range append(append([]int{}, s.splits...), len(a.datTar)) {
		p = min(p, len(a.datTar))
		a.dat = append(a.dat, gz(a.datTar[prev:p])...)
		ends = append(ends, len(a.dat))
		prev = p
	}
	h := sha256.Sum256(a.dat)
	var b strings.Builder
	fmt.Fprintf(&b, "# Generated\npkgname = %s\npkgver = %s\narch = x86_64\nsize = %d\n", s.name, s.ver, s.size)
	if s.origin != "" {
		fmt.Fprintf(&b, "origin = %s\n", s.origin)
	}
	for _, r := range s.replaces {
		fmt.Fprintf(&b, "replaces = %s\n", r)
	}
	for _, l := range s.info {
		b.WriteString(l + "\n")
	}
	if !s.noHash {
		fmt.Fprintf(&b, "datahash = %s\n", hex.EncodeToString(h[:]))
	}
	a.pkginfo = b.String()
	if s.tight {
		a.pkginfo = strings.ReplaceAll(a.pkginfo, " = ", "=")
	}
	a.ctlTar = makeTar(append([]tent{reg(".PKGINFO", a.pkginfo)}, s.scripts...), s.ctlEOF, false)
	a.ctl = gz(a.ctlTar)
	cs := sha1.Sum(a.ctl)
	a.ctlSum = cs[:]
	a.q1 = "Q1" + base64.StdEncoding.EncodeToString(cs[:])
	if s.signed {
		n := s.sigName
		if n == "" {
			n = ".SIGN.RSA.test.rsa.pub"
		}
		a.sig = gz(makeTar([]tent{reg(n, "signature bytes")}, false, false))
	}
	a.all = append(append(append([]byte{}, a.sig...), a.ctl...), a.dat...)
	for _, e := range ends[:len(ends)-1] {
		a.members = append(a.members, len(a.sig)+len(a.ctl)+e)
	}
	return a
}

// listTar decodes an archive with the standard library.
func listTar(b []byte) ([]*tar.Header, [][]byte, error) {
	r := tar.NewReader(bytes.NewReader(b))
	var hs []*tar.Header
	var bodies [][]byte
	for {
		h, err := r.Next()
		if err == io.EOF {
			return hs, bodies, nil
		}
		if err != nil {
			return hs, bodies, err
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return hs, bodies, err
		}
		hs = append(hs, h)
		bodies = append(bodies, d)
	}
}

// noise is text that does not compress.
func noise(n int) string {
	b := make([]byte, n)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}
