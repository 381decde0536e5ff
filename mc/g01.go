package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	sign "github.com/chainguard-dev/go-apk/pkg/signature"
	"verif.local/shim/vctx"
	"verif.local/shim/vsched"
)

// The signing of index files: what comes out, what a failure, a full disk, the end of the process or
// somebody else at the same time leaves of the index.

func init() {
	register("G01", check{run: runG01, level: "model_checking",
		rule: "SignIndex on every file out of a family (indexes of the library, raw archives with and without end marker, of several gzip members, of more than one write, already signed, cut at every point, damaged, empty, missing, a directory) with every kind of key file (good, two names, missing, garbage, of another format, encrypted), reached by name and through a link, several permissions, signed again afterwards; every operation of the disk failing (thorough: every pair), the disk full at every size, the context ending before every operation, the process ending before every operation and between blocks; two signers and a signer and a loader under all schedules up to the deviation bound; key files of any name and place; signing and verifying digests over every key file, pass phrase, digest length, changed bit and other key; " +
			"afterwards the file must be what it was (always when an error is reported), or one section with exactly the entry .SIGN.RSA.<key file>.pub, valid for exactly the previous bytes, followed by them, which loads with that key; non-trivial when the file was signed or something failed",
		assumptions: []string{"one file operation is atomic, a write can be cut between blocks of 512 bytes", "the death of the process loses nothing that was written", "nobody else changes the content of the index while it is signed", "the names of key files end in .rsa"}})
}

type g01key struct {
	name string // file name
	file string
	pub  []byte // nil when it cannot be used
}

func g01keys(dir string) []g01key {
	var l []g01key
	for _, k := range sigKeys(dir)[:2] {
		l = append(l, g01key{filepath.Base(k.file), k.file, k.pub})
	}
	d := filepath.Join(dir, "badkeys")
	must(os.MkdirAll(d, 0o755))
	add := func(n string, b []byte) {
		f := filepath.Join(d, n)
		if b != nil {
			must(os.WriteFile(f, b, 0o644))
		}
		l = append(l, g01key{n, f, nil})
	}
	k := must1(rsa.GenerateKey(rand.Reader, 1024))
	der := x509.MarshalPKCS1PrivateKey(k)
	add("missing.rsa", nil)
	add("garbage.rsa", []byte("no key"))
	add("short.rsa", pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: der[:len(der)-9]}))
	eb := must1(x509.EncryptPEMBlock(rand.Reader, "RSA PRIVATE KEY", der, []byte("secret"), x509.PEMCipherAES128)) //nolint:staticcheck
	add("encrypted.rsa", pem.EncodeToMemory(eb))
	return l
}

type g01body struct {
	name string
	b    []byte
	good bool // is an index that must be signed
	was  bool // signed already
	pk   string
}

func g01bodies(dir string) []g01body {
	ks := sigKeys(dir)
	var l []g01body
	ix := func(n int) []byte {
		var ps []*apk.Package
		for _, x := range "abc"[:n] {
			ps = append(ps, &apk.Package{Name: string(x), Version: "1"})
		}
		return readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Description: "d", Packages: ps})))
	}
	add := func(name string, b []byte, good, was bool, pk string) { l = append(l, g01body{name, b, good, was, pk}) }
	add("library index", ix(2), true, false, "a,b")
	add("one package", ix(1), true, false, "a")
	add("raw", gz(idxTar(true, "d", "a", "b")), true, false, "a,b")
	add("raw without end marker", gz(idxTar(false, "d", "a", "b")), true, false, "a,b")
	add("two members", append(gz(idxTar(false, "d", "a", "b")), gz(idxTar(true, "more"))...), true, false, "a,b")
	big := ""
	for i := 0; len(big) < 90000; i++ {
		big += fmt.Sprintf("%x ", sha1.Sum([]byte(fmt.Sprint(i))))
	}
	add("large", gz(idxTar(true, big, "a", "b")), true, false, "a,b")
	for i := 0; i < 2; i++ {
		b := gz(idxTar(true, "d", "a", "b"))
		add(fmt.Sprintf("signed by %d", i), append(gz(makeTar([]tent{reg(".SIGN.RSA."+ks[i].name, string(rsaSign(ks[i], b)))}, false, false)), b...), true, true, "a,b")
	}
	add("empty", []byte{}, false, false, "")
	add("garbage", []byte("this is no archive"), false, false, "")
	b := gz(idxTar(true, "d", "a", "b"))
	for i := 1; i < len(b); i++ {
		add(fmt.Sprintf("cut at %d", i), b[:i], false, false, "")
	}
	add("missing", nil, false, false, "")
	return l
}

// g01sig takes the file apart: it says whose signature it carries over exactly the old bytes.
func g01sig(now, old []byte, keys []g01key) (string, error) {
	if bytes.Equal(now, old) {
		return "unchanged", nil
	}
	if !bytes.HasSuffix(now, old) {
		return "", errors.New("the previous content is not at the end of the file")
	}
	tb, err := gunzipAll(now[:len(now)-len(old)])
	if err != nil {
		return "", fmt.Errorf("what was put in front is no section: %w", err)
	}
	r := tar.NewReader(bytes.NewReader(append(tb, make([]byte, 1024)...)))
	h, err := r.Next()
	if err != nil {
		return "", fmt.Errorf("what was put in front is no archive: %w", err)
	}
	sb := must1(io.ReadAll(r))
	if _, err := r.Next(); err != io.EOF {
		return "", fmt.Errorf("more than one entry was put in front (%v)", err)
	}
	if len(tb)%512 != 0 || len(tb) != 512+(len(sb)+511)/512*512 {
		return "", fmt.Errorf("the section in front has %d bytes", len(tb))
	}
	if h.Typeflag != tar.TypeReg || h.Uid != 0 || h.Gid != 0 {
		return "", fmt.Errorf("the signature is %c %d:%d", h.Typeflag, h.Uid, h.Gid)
	}
	for _, k := range keys {
		if h.Name == ".SIGN.RSA."+k.name+".pub" && k.pub != nil {
			d := sha1.Sum(old)
			if err := refVerify(d[:], sb, k.pub); err != nil {
				return "", fmt.Errorf("the signature of %s is wrong: %w", k.name, err)
			}
			return k.name, nil
		}
	}
	return "", fmt.Errorf("the entry in front is %s", h.Name)
}

func g01load(path string, keys []g01key, opts ...apk.IndexOption) (string, error) {
	ks := map[string][]byte{}
	for _, k := range keys {
		ks[k.name+".pub"] = k.pub
	}
	x, err := apk.GetRepositoryIndexes(context.Background(), []string{path}, ks, "x86_64", opts...)
	if err != nil {
		return "", err
	}
	return pkgNamesOf(x), nil
}

// g01case is one signing.
type g01case struct {
	t    *T
	n    int
	keys []g01key
}

type g01place struct {
	dir, file string // of the repository
	link      bool
}

func (c *g01case) place(b g01body, link bool, mode fs.FileMode) g01place {
	c.n++
	p := g01place{dir: filepath.Join(c.t.Dir(), fmt.Sprintf("g%d", c.n)), link: link}
	must(os.MkdirAll(filepath.Join(p.dir, "x86_64"), 0o755))
	p.file = filepath.Join(p.dir, "x86_64", "APKINDEX.tar.gz")
	f := p.file
	if link {
		must(os.MkdirAll(filepath.Join(p.dir, "real"), 0o755))
		f = filepath.Join(p.dir, "real", "index")
		must(os.Symlink("../real/index", p.file))
	}
	if b.b != nil {
		must(os.WriteFile(f, b.b, 0o644))
		must(os.Chmod(f, mode))
	}
	return p
}

func (p g01place) gone() { must(os.RemoveAll(p.dir)) }

// files lists everything around the index.
func (p g01place) files() string {
	s := ""
	for _, f := range c01take(p.dir).files {
		fi := must1(os.Lstat(filepath.Join(p.dir, f.rel)))
		s += fmt.Sprintf("%s %v\n", f.rel, fi.Mode())
	}
	return s
}

// judge compares the place with what it was. err is what was reported.
func (c *g01case) judge(p g01place, b g01body, k g01key, before string, err error, left bool) (string, string) {
	now, rerr := os.ReadFile(p.file)
	if b.b == nil {
		if rerr == nil || err == nil || p.files() != before {
			return fmt.Sprintf("there was no index; reported %v, now there is\n%s", err, p.files()), "bad"
		}
		return "", "refused"
	}
	if rerr != nil {
		return fmt.Sprintf("reported %v, and the index is gone: %v", err, rerr), "bad"
	}
	if got := p.files(); got != before && !left {
		return fmt.Sprintf("reported %v, and left\n%s\nwhere there was\n%s", err, got, before), "bad"
	}
	who, serr := g01sig(now, b.b, c.keys)
	switch {
	case serr != nil:
		return fmt.Sprintf("reported %v, and %v (%d bytes, was %d)", err, serr, len(now), len(b.b)), "bad"
	case err != nil && who != "unchanged":
		return fmt.Sprintf("reported %v, although the index was signed", err), "bad"
	case err != nil:
		return "", "refused"
	case b.was && who != "unchanged":
		return "signed again what was signed", "bad"
	case b.was:
		return "", "left"
	case who != k.name:
		return fmt.Sprintf("reported success, and the index is %s, to be signed by %s", who, k.name), "bad"
	}
	if b.good {
		if got, err := g01load(p.dir, []g01key{k}); err != nil || got != b.pk {
			return fmt.Sprintf("the signed index loads as %q (%v) with its key", got, err), "bad"
		}
	}
	return "", "signed"
}

func (c *g01case) fail(key, desc, wrong string) bool {
	if wrong == "" {
		return true
	}
	c.t.Fail(key, "%s: %s", desc, wrong)
	return false
}

func runG01(c *C) {
	signal.Ignore(syscall.SIGXFSZ)
	keys := g01keys(c.Scratch)
	bodies := g01bodies(c.Scratch)
	ctx := context.Background()
	c.Sample("large index, os operation 4 fails; file unchanged; signed by one, then by two; signer one and signer two at once")
	c.Run(func(emit func(string, func(*T))) {
		// outcomes
		for ki, k := range keys {
			for _, link := range []bool{false, true} {
				emit(fmt.Sprintf("sign:%s:%v", k.name, link), func(t *T) {
					c := &g01case{t: t, keys: keys}
					for _, b := range bodies {
						for _, mode := range []fs.FileMode{0o644, 0o600, 0o664} {
							if mode != 0o644 && strings.HasPrefix(b.name, "cut") {
								continue
							}
							t.Tick()
							p := c.place(b, link, mode)
							desc := fmt.Sprintf("signing %s (mode %o, link %v) with %s", b.name, mode, link, k.name)
							key := "sign:" + b.name + ":" + k.name
							if strings.HasPrefix(b.name, "cut") {
								key = "sign:cut:" + k.name
							}
							before := p.files()
							err := sign.SignIndex(ctx, k.file, p.file)
							wrong, out := c.judge(p, b, k, before, err, false)
							if wrong == "" && b.good && (k.pub != nil || b.was) && err != nil {
								wrong = fmt.Sprintf("refused: %v", err)
							}
							if wrong == "" && !b.was && k.pub == nil && err == nil {
								wrong = "signed with a key that is none"
							}
							t.Outcome(out)
							t.State(out + b.name + k.name)
							t.Eval(out == "signed")
							t.Trans(1)
							t.Trace(1)
							if c.fail(key, desc, wrong) && out == "signed" {
								now := must1(os.ReadFile(p.file))
								for _, k2 := range keys { // signing again changes nothing
									err := sign.SignIndex(ctx, k2.file, p.file)
									t.Trans(1)
									if err != nil || !bytes.Equal(now, must1(os.ReadFile(p.file))) || p.files() != before {
										c.fail(key, desc, fmt.Sprintf("signing again with %s: %v, file unchanged: %v", k2.name, err, bytes.Equal(now, must1(os.ReadFile(p.file)))))
									}
								}
								if b.good {
									for _, o := range keys[:2] {
										if got, err := g01load(p.dir+"/.", []g01key{o}); (err == nil) != (o.name == k.name) {
											c.fail(key, desc, fmt.Sprintf("loading with %s: %q %v", o.name, got, err))
										}
									}
								}
							}
							p.gone()
						}
					}
					// a directory in its place
					p := c.place(g01body{}, false, 0)
					must(os.Mkdir(p.file, 0o755))
					before := p.files()
					if err := sign.SignIndex(ctx, k.file, p.file); err == nil || p.files() != before {
						c.fail("sign:dir", "signing a directory", fmt.Sprint(err, p.files()))
					}
					_ = ki
				})
			}
		}
		emit("digest", g01digests)
		emit("names", func(t *T) { g01names(t, keys[0], bodies) })
		// failures and ends
		for _, b := range bodies {
			if !b.good {
				continue
			}
			for _, link := range []bool{false, true} {
				emit(fmt.Sprintf("fault:%s:%v", b.name, link), func(t *T) { g01faults(&g01case{t: t, keys: keys}, b, link) })
				emit(fmt.Sprintf("crash:%s:%v", b.name, link), func(t *T) { g01crashes(&g01case{t: t, keys: keys}, b, link) })
			}
		}
		// at the same time
		if !vsched.Available {
			c.Cap("no scheduler in this build")
			return
		}
		for _, b := range bodies {
			if !b.good {
				continue
			}
			for _, who := range []string{"sign1+sign1", "sign1+sign2", "sign1+load", "sign1+sign2+load"} {
				emit("sched:"+b.name+":"+who, func(t *T) { g01sched(&g01case{t: t, keys: keys}, b, who) })
			}
		}
	})
}

func g01faults(c *g01case, b g01body, link bool) {
	t, k := c.t, c.keys[0]
	one := func(kind string, at []int) int {
		t.Tick()
		p := c.place(b, link, 0o644)
		defer p.gone()
		before := p.files()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		n, did, left := 0, "", false
		x := &vctx.Exec{OS: func(op string, ps ...string) error {
			n++
			for _, a := range at {
				if a == n-1 {
					w := op
					for _, q := range ps {
						if r, err := filepath.Rel(p.dir, q); err == nil {
							w += " " + x01norm(r)
						}
					}
					did += fmt.Sprintf(" %s operation %d (%s);", kind, a, w)
					if kind == "context" {
						cancel()
						continue
					}
					left = left || strings.Contains(op, "Remove")
					return &fs.PathError{Op: op, Path: ps[0], Err: syscall.EIO}
				}
			}
			return nil
		}}
		var lim syscall.Rlimit
		if kind == "size" {
			x.OS = func(string, ...string) error { return nil }
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
			cut := lim
			cut.Cur = uint64(at[0])
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &cut))
			did = fmt.Sprintf(" disk full at %d bytes", at[0])
		}
		var err error
		vctx.With(x, func() { err = sign.SignIndex(ctx, k.file, p.file) })
		if kind == "size" {
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		}
		wrong, out := c.judge(p, b, k, before, err, left)
		t.Outcome(kind + out)
		t.State(did + out)
		t.Eval(did != "")
		t.Trans(n)
		t.Trace(1)
		key := fmt.Sprintf("fault:%s:%s", kind, strings.Trim(x01norm(did), " ;"))
		if kind == "size" {
			key = "fault:size"
		}
		c.fail(key, fmt.Sprintf("signing %s (link %v),%s", b.name, link, did), wrong)
		if wrong == "" && err != nil { // later it works
			err := sign.SignIndex(context.Background(), k.file, p.file)
			if wrong, _ := c.judge(p, b, k, before, err, left); wrong != "" || err != nil {
				c.fail(key, fmt.Sprintf("signing %s (link %v),%s then again", b.name, link, did), fmt.Sprint(err, wrong))
			}
		}
		return n
	}
	for _, kind := range []string{"failing", "context"} {
		n := one(kind, []int{-1})
		t.NoteMax("max_operations", int64(n))
		for i := 0; i < n+1; i++ {
			one(kind, []int{i})
		}
		if t.Thorough() && kind == "failing" {
			for i := 0; i < n; i++ {
				for j := i + 1; j < n+3; j++ {
					one(kind, []int{i, j})
				}
			}
		}
	}
	step := t.Pick(61, 7)
	if len(b.b) > 10000 {
		step = t.Pick(2003, 307)
	}
	for s := 0; s <= len(b.b)+1024 && !t.Expired(); s += step {
		one("size", []int{s})
	}
}

func g01crashes(c *g01case, b g01body, link bool) {
	t, k := c.t, c.keys[0]
	p := c.place(b, link, 0o644)
	defer p.gone()
	var snaps []c01snap
	take := func(label string) {
		s := c01take(p.dir)
		s.label = fmt.Sprintf("before step %d (%s)", len(snaps), label)
		snaps = append(snaps, s)
	}
	x := &vctx.Exec{OS: func(op string, ps ...string) error { take(op); return nil }}
	var err error
	vctx.With(x, func() { err = sign.SignIndex(context.Background(), k.file, p.file) })
	if err != nil {
		c.fail("crash:undisturbed", "signing "+b.name, err.Error())
		return
	}
	take("the end")
	for i, s := range c01states(snaps) {
		t.Tick()
		q := c.place(b, link, 0o644)
		f := q.file
		if link {
			f = filepath.Join(q.dir, "real", "index")
		}
		body, others := []byte(nil), 0
		for _, x := range s.files {
			rel := filepath.Join(q.dir, x.rel)
			switch {
			case x.dir || link && rel == q.file:
			case rel == f:
				body = []byte(x.body)
			default:
				others++
				must(os.WriteFile(rel, []byte(x.body), 0o600))
			}
		}
		must(os.Remove(f))
		if body != nil {
			must(os.WriteFile(f, body, 0o644))
		}
		before := q.files()
		desc := fmt.Sprintf("signing %s (link %v), the process ends %s", b.name, link, s.label)
		key := fmt.Sprintf("crash:%s", x01norm(b.name))
		t.Eval(i > 0)
		t.Trans(1)
		t.Trace(1)
		t.NoteAdd("crash_states", 1)
		t.State(s.id() + b.name)
		who, serr := "", errors.New("the index is gone")
		if body != nil {
			who, serr = g01sig(body, b.b, c.keys)
		}
		if serr != nil {
			c.fail(key, desc, serr.Error())
			q.gone()
			continue
		}
		t.Outcome("crash:" + who)
		for _, k2 := range c.keys[:2] {
			if got, err := g01load(q.dir, []g01key{k2}, apk.WithIgnoreSignatures(true)); err != nil || got != b.pk {
				c.fail(key, desc, fmt.Sprintf("then the index loads as %q (%v)", got, err))
			}
		}
		err := sign.SignIndex(context.Background(), c.keys[1].file, q.file)
		b2, k2 := b, c.keys[1]
		if who != "unchanged" {
			b2.b, b2.was = body, true
		}
		if wrong, _ := c.judge(q, b2, k2, before, err, false); wrong != "" || err != nil {
			c.fail(key, desc, fmt.Sprintf("then signing again: %v %s", err, wrong))
		}
		q.gone()
	}
}

var g01seq atomic.Int64

func g01sched(c *g01case, b g01body, who string) {
	t := c.t
	bound := t.Pick(2, 4)
	if strings.Count(who, "+") == 2 || b.name == "large" {
		bound = t.Pick(1, 2)
	}
	mk := func() schedRun {
		p := c.place(b, false, 0o644)
		before := p.files()
		var names []string
		r := schedRun{delay: true}
		var errs []error
		loaded, lerr := b.pk, error(nil)
		for _, w := range strings.Split(who, "+") {
			if w == "load" {
				r.bodies = append(r.bodies, func() { loaded, lerr = g01load(p.dir, nil, apk.WithIgnoreSignatures(true)) })
				continue
			}
			k := c.keys[w[4]-'1']
			names = append(names, k.name)
			i := len(errs)
			errs = append(errs, nil)
			r.bodies = append(r.bodies, func() { errs[i] = sign.SignIndex(context.Background(), k.file, p.file) })
		}
		r.done = p.gone
		r.judge = func(*vsched.Result) (string, string) {
			for _, err := range errs {
				if err != nil {
					return fmt.Sprintf("a signer failed: %v", err), "bad"
				}
			}
			if lerr != nil || loaded != b.pk {
				return fmt.Sprintf("the loader got %q (%v)", loaded, lerr), "bad"
			}
			if p.files() != before {
				return "left\n" + p.files(), "bad"
			}
			s, err := g01sig(must1(os.ReadFile(p.file)), b.b, c.keys)
			if err != nil {
				return err.Error(), "bad"
			}
			if b.was {
				if s != "unchanged" {
					return "signed again what was signed", "bad"
				}
				return "", "left"
			}
			for _, n := range names {
				if s == n {
					return "", s
				}
			}
			return "the index is " + s, "bad"
		}
		return r
	}
	t.schedules("sched:"+who, "signing "+b.name+", "+who, bound, 0, 1, mk)
	_ = g01seq.Load()
}

// refVerify checks a signature without the code under test.
func refVerify(digest, sig, pub []byte) error {
	blk, _ := pem.Decode(pub)
	k, err := x509.ParsePKIXPublicKey(blk.Bytes)
	if err != nil {
		return err
	}
	return rsa.VerifyPKCS1v15(k.(*rsa.PublicKey), crypto.SHA1, digest, sig)
}

// g01digests signs and verifies digests: every key file, pass phrase and digest, and every signature near a right one.
func g01digests(t *T) {
	dir := t.Dir()
	type key struct {
		name, file, pass string
		priv             *rsa.PrivateKey
		pub              []byte
	}
	var keys []key
	for i, bits := range []int{1024, 2048} {
		k := must1(rsa.GenerateKey(rand.Reader, bits))
		der := x509.MarshalPKCS1PrivateKey(k)
		pub := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: must1(x509.MarshalPKIXPublicKey(&k.PublicKey))})
		for _, pass := range []string{"", "secret", " two words\n"} {
			blk := &pem.Block{Type: "RSA PRIVATE KEY", Bytes: der}
			if pass != "" {
				blk = must1(x509.EncryptPEMBlock(rand.Reader, "RSA PRIVATE KEY", der, []byte(pass), x509.PEMCipherAES256)) //nolint:staticcheck
			}
			f := filepath.Join(dir, fmt.Sprintf("key%d%d", i, len(keys)))
			must(os.WriteFile(f, pem.EncodeToMemory(blk), 0o600))
			keys = append(keys, key{fmt.Sprintf("key %d, pass phrase %q", i, pass), f, pass, k, pub})
		}
	}
	all := sha1.Sum([]byte("x"))
	long := append(append([]byte(nil), all[:]...), all[:]...)
	for _, k := range keys {
		for _, pass := range []string{"", "secret", " two words\n", "secret ", "Secret"} {
			for n := 0; n <= 40; n++ {
				t.Tick()
				t.Trans(1)
				desc := fmt.Sprintf("%s, given %q, digest of %d bytes", k.name, pass, n)
				sig, err := sign.RSASignSHA1Digest(long[:n], k.file, pass)
				usable := n == 20 && (k.pass == "" || k.pass == pass)
				t.State(desc)
				t.Eval(usable)
				switch {
				case usable && err != nil:
					t.Fail("digest:"+desc, "signing with %s is refused: %v", desc, err)
				case !usable && err == nil:
					t.Fail("digest:"+desc, "signing with %s succeeds", desc)
				case usable && refVerify(long[:n], sig, k.pub) != nil:
					t.Fail("digest:"+desc, "signing with %s gives a signature that does not verify", desc)
				}
			}
		}
		// verification
		sig := must1(rsa.SignPKCS1v15(nil, k.priv, crypto.SHA1, all[:]))
		verify := func(desc string, digest, sig, pub []byte, good bool) {
			t.Tick()
			t.Trans(1)
			t.State(k.name + desc)
			t.Eval(!good)
			if err := sign.RSAVerifySHA1Digest(digest, sig, pub); (err == nil) != good {
				t.Fail("verify:"+desc, "verifying with %s, %s: %v", k.name, desc, err)
			}
		}
		verify("right", all[:], sig, k.pub, true)
		for i := range sig {
			bad := append([]byte(nil), sig...)
			bad[i] ^= 1 << (i % 8)
			verify("a bit of the signature changed", all[:], bad, k.pub, false)
			verify("signature cut", all[:], sig[:i], k.pub, false)
		}
		for i := range all {
			bad := append([]byte(nil), all[:]...)
			bad[i] ^= 1 << (i % 8)
			verify("a bit of the digest changed", bad, sig, k.pub, false)
		}
		for n := 0; n <= 40; n++ {
			verify(fmt.Sprintf("digest of %d bytes", n), long[:n], sig, k.pub, n == 20)
		}
		h256 := sha256.Sum256([]byte("x"))
		verify("signed as SHA256", h256[:], must1(rsa.SignPKCS1v15(nil, k.priv, crypto.SHA256, h256[:])), k.pub, false)
		verify("signed without a hash name", all[:], must1(rsa.SignPKCS1v15(nil, k.priv, 0, all[:])), k.pub, false)
		for _, o := range keys {
			verify("key of "+o.name, all[:], sig, o.pub, o.priv == k.priv)
		}
		ec := must1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
		verify("key of another kind", all[:], sig, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: must1(x509.MarshalPKIXPublicKey(&ec.PublicKey))}), false)
		verify("no key", all[:], sig, nil, false)
		verify("garbage key", all[:], sig, []byte("garbage"), false)
		verify("key cut", all[:], sig, k.pub[:len(k.pub)/2], false)
		verify("private key file", all[:], sig, must1(os.ReadFile(k.file)), false)
	}
	t.Trace(1)
}

// g01names signs with one key under many names.
func g01names(t *T, k g01key, bodies []g01body) {
	ctx := context.Background()
	kb := must1(os.ReadFile(k.file))
	for _, n := range []string{"k.rsa", "a.b.rsa", "a.b.c-1.rsa", ".rsa", "..rsa", ".hidden.rsa", "x..rsa", "k.rsa.rsa", "k.pub.rsa", "SIGN.RSA.rsa", "with space.rsa", "-dash.rsa", "o'q\"\\.rsa", "a@b.example-5f3a.rsa", "ünï.rsa", "%s.rsa", strings.Repeat("n", 60) + ".rsa", strings.Repeat("n", 120) + ".rsa"} {
		for _, at := range []string{"", "d/", "k.rsa/", "a.b/../a.b/", "./"} {
			d := filepath.Join(t.Dir(), fmt.Sprintf("names%d", hashStr(n+at)))
			must(os.MkdirAll(filepath.Join(d, filepath.FromSlash(at)), 0o755))
			f := d + "/" + at + n
			must(os.WriteFile(f, kb, 0o600))
			me := g01key{n, f, k.pub}
			c := &g01case{t: t, keys: []g01key{me}}
			for _, b := range bodies[:3] {
				t.Tick()
				p := c.place(b, false, 0o644)
				before := p.files()
				err := sign.SignIndex(ctx, f, p.file)
				t.Trans(1)
				t.Trace(1)
				t.Eval(true)
				t.State(n + at + b.name)
				t.Outcome("named")
				desc := fmt.Sprintf("signing %s with a key in %q", b.name, at+n)
				wrong := ""
				switch got, lerr := g01load(p.dir, []g01key{me}); {
				case err != nil:
					wrong = fmt.Sprintf("refused: %v", err)
				case p.files() != before:
					wrong = "left " + p.files()
				case lerr != nil || got != b.pk:
					wrong = fmt.Sprintf("with its key it loads as %q (%v)", got, lerr)
				case !bytes.HasSuffix(must1(os.ReadFile(p.file)), b.b):
					wrong = "the previous content is not at the end of the file"
				case len(n) < 80 && n[0] < 128 && !strings.Contains(n, "ü"):
					// longer and other names need more than one header
					if who, err := g01sig(must1(os.ReadFile(p.file)), b.b, c.keys); err != nil || who != n {
						wrong = fmt.Sprintf("%s %v", who, err)
					}
				}
				c.fail("names:"+n, desc, wrong)
				p.gone()
			}
			must(os.RemoveAll(d))
		}
	}
}
