package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chainguard-dev/go-apk/pkg/apk"
	sign "github.com/chainguard-dev/go-apk/pkg/signature"
)

func init() {
	register("I01", check{run: runI01, level: "model_checking",
		rule:        "every archive of an optional signature section (key x signed bytes x name x further content of the section) followed by up to 3 members, against every set of trusted keys; every single byte damaged, every truncation and extension of signed archives; every history of up to 3 loads of one location under differing keys and policies; non-trivial when the archive carries a signature or the history differs in keys or policy",
		assumptions: []string{"SHA-1 collisions and RSA forgeries are out of scope", "a signature section with further content may be rejected or the content ignored"}})
}

// sigKey is one key pair.
type sigKey struct {
	name string // name of the public key
	pub  []byte
	file string // private key file
}

var (
	sigKeysOnce sync.Once
	sigKeysAll  []sigKey
)

// sigKeys generates three key pairs (shared by the checks of one run).
func sigKeys(dir string) []sigKey {
	sigKeysOnce.Do(func() {
		for i, n := range []string{"one@example-1.rsa", "two@example-2.rsa", "other.rsa"} {
			d := filepath.Join(dir, fmt.Sprint("keys", i))
			f := filepath.Join(d, n)
			if b, err := os.ReadFile(f); err == nil { // a child uses the keys of its parent
				blk, _ := pem.Decode(b)
				k := must1(x509.ParsePKCS1PrivateKey(blk.Bytes))
				sigKeysAll = append(sigKeysAll, sigKey{name: n + ".pub", file: f, pub: pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: must1(x509.MarshalPKIXPublicKey(&k.PublicKey))})})
				continue
			}
			k := must1(rsa.GenerateKey(rand.Reader, 1024))
			pkix := must1(x509.MarshalPKIXPublicKey(&k.PublicKey))
			must(os.MkdirAll(d, 0o755))
			must(os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0o600))
			sigKeysAll = append(sigKeysAll, sigKey{name: n + ".pub", file: f, pub: pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pkix})})
		}
	})
	return sigKeysAll
}

var sigCache sync.Map

func rsaSign(k sigKey, b []byte) []byte {
	h := sha1.Sum(b)
	ck := k.file + string(h[:])
	if v, ok := sigCache.Load(ck); ok {
		return v.([]byte)
	}
	s := must1(sign.RSASignSHA1Digest(h[:], k.file, ""))
	sigCache.Store(ck, s)
	return s
}

// idxTar is an index section with the named packages.
func idxTar(eof bool, desc string, names ...string) []byte {
	var es []tent
	if names != nil {
		es = append(es, reg("APKINDEX", idxText(names...)))
	}
	if desc != "" {
		es = append(es, reg("DESCRIPTION", desc))
	}
	return makeTar(es, eof, false)
}

func idxText(names ...string) string {
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "C:Q1%s\nP:%s\nV:1.0-r0\nA:x86_64\nS:10\nI:20\nT:d\n\n", "MTIzNDU2Nzg5MDEyMzQ1Njc4OTA=", n)
	}
	return b.String()
}

func pkgNamesOf(ix []apk.NamedIndex) string {
	var out []string
	for _, i := range ix {
		for _, p := range i.Packages() {
			out = append(out, p.Name)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

var i01host atomic.Int64

// serveOne is a client that answers every request with body.
func serveOne(body *[]byte) *http.Client {
	return &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
		return respond(200, *body, nil), nil
	})}
}

func respond(code int, body []byte, hdr map[string]string) *http.Response {
	h := http.Header{}
	for k, v := range hdr {
		h.Set(k, v)
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code, " ", http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: readCloser{bytes.NewReader(body)}, ContentLength: int64(len(body))}
}

type readCloser struct{ *bytes.Reader }

func (readCloser) Close() error { return nil }

type keyset struct {
	label string
	m     map[string][]byte
	which [3]bool
}

func i01keysets(ks []sigKey) []keyset {
	bad := []byte("-----BEGIN PUBLIC KEY-----\nnonsense\n-----END PUBLIC KEY-----\n")
	return []keyset{
		{"nil", nil, [3]bool{}},
		{"empty", map[string][]byte{}, [3]bool{}},
		{"k1", map[string][]byte{ks[0].name: ks[0].pub}, [3]bool{true}},
		{"k2", map[string][]byte{ks[1].name: ks[1].pub}, [3]bool{false, true}},
		{"k1k2", map[string][]byte{ks[0].name: ks[0].pub, ks[1].name: ks[1].pub}, [3]bool{true, true}},
		{"swapped", map[string][]byte{ks[0].name: ks[1].pub, ks[1].name: ks[0].pub}, [3]bool{true, true}},
		{"k1name=k2", map[string][]byte{ks[0].name: ks[1].pub}, [3]bool{false, true}},
		{"renamed", map[string][]byte{"zzz.rsa.pub": ks[0].pub}, [3]bool{true}},
		{"garbage", map[string][]byte{ks[0].name: bad, "x": {}}, [3]bool{}},
		{"no bytes", map[string][]byte{ks[0].name: {}}, [3]bool{}},
		{"nil bytes", map[string][]byte{ks[0].name: nil, ks[1].name: nil}, [3]bool{}},
		{"garbage+k1", map[string][]byte{ks[0].name: bad, "a.rsa.pub": ks[0].pub}, [3]bool{true}},
	}
}

type i01arch struct {
	label  string
	b      []byte
	rest   []byte
	signer int // which key's signature over rest is in the first section; -1 none
	clean  bool
	names  string // package names of the rest when it is read as an index ("!" if it is not one)
}

// i01load loads the index archive b at a fresh location.
func i01load(t *T, remote bool, b []byte, keys map[string][]byte, opts ...apk.IndexOption) ([]apk.NamedIndex, error) {
	n := i01host.Add(1)
	if remote {
		opts = append(opts, apk.WithHTTPClient(serveOne(&b)))
		return apk.GetRepositoryIndexes(context.Background(), []string{fmt.Sprintf("https://h%d.example/repo", n)}, keys, "x86_64", opts...)
	}
	repo := filepath.Join(t.Dir(), fmt.Sprint("r", n))
	must(os.MkdirAll(filepath.Join(repo, "x86_64"), 0o755))
	must(os.WriteFile(filepath.Join(repo, "x86_64/APKINDEX.tar.gz"), b, 0o644))
	return apk.GetRepositoryIndexes(context.Background(), []string{repo}, keys, "x86_64", opts...)
}

func runI01(c *C) {
	ks := sigKeys(c.Scratch)
	c.Sample("[signature by one over rest + APKINDEX entry 'evil' + tar end][index a], trusted {one}")
	type member struct {
		label string
		b     []byte
	}
	members := []member{
		{"idx-a", gz(idxTar(true, "d", "a"))},
		{"idx-ab", gz(idxTar(true, "", "a", "b"))},
		{"idx-evil", gz(idxTar(true, "", "evil"))},
		{"desc-noeof", gz(idxTar(false, "desc"))},
		{"idx-a-noeof", gz(idxTar(false, "d", "a"))},
		{"garbage", []byte("garbage")},
		{"empty", gz(nil)},
	}
	keysets := i01keysets(ks)
	type sect struct {
		label   string
		signer  int
		over    string // rest, other, first
		name    string
		pre     []tent
		post    []tent
		eof     bool
		garbage bool
	}
	var sects []sect
	names := []string{".SIGN.RSA." + ks[0].name, ".SIGN.RSA." + ks[1].name, ".SIGN.RSA.unknown.rsa.pub", ".SIGN.RSA.short", "x.SIGN.RSA." + ks[0].name, "APKINDEX"}
	evil := reg("APKINDEX", idxText("evil"))
	evilD := reg("DESCRIPTION", "evil")
	for signer := 0; signer < 3; signer++ {
		for _, over := range []string{"rest", "other", "first"} {
			for ni, n := range names {
				for _, eof := range []bool{false, true} {
					if (over != "rest" || ni > 2) && eof {
						continue
					}
					sects = append(sects, sect{signer: signer, over: over, name: n, eof: eof})
				}
			}
		}
	}
	for _, eof := range []bool{false, true} {
		for _, ex := range [][2][]tent{
			{nil, {evil}}, {nil, {evilD}}, {{evil}, nil}, {nil, {evil, evilD}}, {nil, {reg("x", "y")}},
			{nil, {reg(".SIGN.RSA."+ks[1].name, "junk")}}, {{reg(".SIGN.RSA."+ks[1].name, "junk")}, nil}, {{dirE("d/")}, nil},
		} {
			for _, over := range []string{"rest", "other"} {
				sects = append(sects, sect{signer: 0, over: over, name: names[0], eof: eof, pre: ex[0], post: ex[1]})
			}
		}
	}
	var seqs [][]int
	for i := range members {
		seqs = append(seqs, []int{i})
		for j := range members {
			seqs = append(seqs, []int{i, j})
			if c.Thorough() {
				for k := range members {
					seqs = append(seqs, []int{i, j, k})
				}
			}
		}
	}
	seqs = append([][]int{{}}, seqs...)
	restNames := func(b []byte) string {
		ix, err := apk.IndexFromArchive(readCloser{bytes.NewReader(b)})
		if err != nil {
			return "!"
		}
		var out []string
		for _, p := range ix.Packages {
			out = append(out, p.Name)
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	}
	c.Run(func(emit func(string, func(*T))) {
		for si, seq := range seqs {
			seq := seq
			var rest []byte
			label := ""
			for _, i := range seq {
				rest = append(rest, members[i].b...)
				label += "+" + members[i].label
			}
			emit(fmt.Sprintf("arch:%d", si), func(t *T) {
				rn := restNames(rest)
				archs := []i01arch{{label: "unsigned" + label, b: rest, signer: -1, names: rn}}
				for _, s := range sects {
					over := rest
					switch s.over {
					case "other":
						over = append(append([]byte(nil), rest...), 'x')
					case "first":
						if len(seq) < 2 {
							continue
						}
						over = members[seq[0]].b
					}
					es := append(append(append([]tent(nil), s.pre...), reg(s.name, string(rsaSign(ks[s.signer], over)))), s.post...)
					a := i01arch{label: fmt.Sprintf("[%s over %s name %s eof=%v pre=%s post=%s]%s", ks[s.signer].name, s.over, s.name, s.eof, entsString(s.pre), entsString(s.post), label),
						rest: rest, b: append(gz(makeTar(es, s.eof, false)), rest...), signer: -1, names: rn}
					if s.over == "rest" {
						a.signer = s.signer
					}
					a.clean = s.over == "rest" && len(es) == 1 && (s.name == names[0] || s.name == names[1] || s.name == names[2])
					archs = append(archs, a)
					// a further signature section in front
					if s.over == "rest" && s.eof && len(es) == 1 && s.signer < 2 {
						rest2 := a.b
						rn2 := restNames(rest2)
						for s2 := 0; s2 < 3; s2++ {
							for _, good := range []bool{true, false} {
								ov := rest2
								sg := s2
								if !good {
									ov = rest
									sg = -1
								}
								archs = append(archs, i01arch{label: fmt.Sprintf("[%d good=%v]%s", s2, good, a.label), rest: rest2, signer: sg, names: rn2,
									b: append(gz(makeTar([]tent{reg(names[s2%2], string(rsaSign(ks[s2], ov)))}, false, false)), rest2...)})
							}
						}
					}
				}
				for _, a := range archs {
					for ki := range keysets {
						i01one(t, a, keysets[ki], (ki+len(a.b))%2 == 0 || t.Thorough())
						if t.Thorough() {
							i01one(t, a, keysets[ki], false)
						}
					}
				}
			})
		}
		// damage
		base := gz(idxTar(true, "d", "a", "b"))
		for _, eof := range []bool{false, true} {
			sigM := gz(makeTar([]tent{reg(names[0], string(rsaSign(ks[0], base)))}, eof, false))
			full := append(append([]byte(nil), sigM...), base...)
			for part := 0; part < 8; part++ {
				part := part
				emit(fmt.Sprintf("damage:%v:%d", eof, part), func(t *T) {
					muts := func(f func(label string, b []byte, mustFail bool)) {
						for i := range full {
							if i%8 != part {
								continue
							}
							for bit := 0; bit < 8; bit++ {
								m := append([]byte(nil), full...)
								m[i] ^= 1 << bit
								f(fmt.Sprintf("flip%d.%d", i, bit), m, i >= len(sigM))
							}
							f(fmt.Sprintf("cut%d", i), full[:i], true)
							m := append(append(append([]byte(nil), full[:i]...), 0), full[i:]...)
							f(fmt.Sprintf("ins%d", i), m, i >= len(sigM))
							m = append(append([]byte(nil), full[:i]...), full[i+1:]...)
							f(fmt.Sprintf("del%d", i), m, i >= len(sigM))
							if i == len(sigM) || i == len(full)-1 || i == part {
								for _, add := range [][]byte{{0}, []byte("x"), gz(nil), gz(idxTar(true, "", "evil")), gz(idxTar(false, "", "evil")), make([]byte, 512), base} {
									at := i
									if i != len(sigM) {
										at = len(full)
									}
									m = append(append(append([]byte(nil), full[:at]...), add...), full[at:]...)
									f(fmt.Sprintf("add%d@%d", len(add), at), m, true)
								}
							}
						}
					}
					muts(func(label string, b []byte, mustFail bool) {
						t.Tick()
						t.Eval(true)
						t.Trans(1)
						t.Trace(1)
						got, err := i01load(t, true, b, keysets[4].m)
						switch {
						case err == nil && pkgNamesOf(got) != "a,b":
							t.Fail("damage:"+label, "damaged archive (%s, signature section of %d bytes) accepted with packages %q, signed were a,b", label, len(sigM), pkgNamesOf(got))
						case err == nil && mustFail:
							t.Fail("damage:"+label, "damaged archive (%s, signature section of %d bytes) accepted", label, len(sigM))
						}
					})
				})
			}
		}
		emit("exceptions", i01exceptions)
		emit("signer", i01signer)
		emit("keyring", i01keyring)
		// histories
		for si := 0; si < 4; si++ {
			for _, remote := range []bool{true, false} {
				si, remote := si, remote
				emit(fmt.Sprintf("hist:%d:%v", si, remote), func(t *T) { i01hist(t, ks, keysets, si, remote) })
			}
		}
	})
}

func i01one(t *T, a i01arch, k keyset, remote bool) {
	t.Tick()
	t.Eval(a.signer >= 0)
	t.Trans(1)
	t.Trace(1)
	t.State(fmt.Sprint(a.label, k.label))
	got, err := i01load(t, remote, a.b, k.m)
	ok := a.signer >= 0 && k.which[a.signer]
	key := fmt.Sprintf("%s/%s/%v", a.label, k.label, remote)
	switch {
	case err == nil && len(got) != 1:
		t.Fail("arch:"+key, "archive %s with keys %s: %d indexes returned without an error", a.label, k.label, len(got))
	case err == nil && !ok:
		t.Fail("arch:"+key, "archive %s accepted with trusted keys %s (packages %s) although no trusted key signed the bytes after its signature section", a.label, k.label, pkgNamesOf(got))
	case err == nil && pkgNamesOf(got) != a.names:
		t.Fail("arch:"+key, "archive %s accepted with trusted keys %s: packages %q used, the signed bytes hold %q", a.label, k.label, pkgNamesOf(got), a.names)
	case err != nil && ok && a.clean && a.names != "!":
		t.Fail("arch:"+key, "archive %s properly signed by a key of %s is rejected: %v", a.label, k.label, err)
	}
	if err == nil {
		t.Outcome("accepted")
	} else {
		t.Outcome("rejected")
	}
}

// i01exceptions: signatures are waived only for exactly the listed repositories.
func i01exceptions(t *T) {
	body := gz(idxTar(true, "", "a"))
	ks := sigKeys(t.Scratch)
	keys := map[string][]byte{ks[0].name: ks[0].pub}
	repo := func() string { return fmt.Sprintf("https://x%d.example/alpine/main", i01host.Add(1)) }
	for _, tc := range []struct {
		label string
		f     func(r string) []string
		ok    bool
	}{
		{"none", func(r string) []string { return nil }, false},
		{"exact", func(r string) []string { return []string{r} }, true},
		{"among others", func(r string) []string { return []string{"https://other.example/x", r, "/y"} }, true},
		{"prefix", func(r string) []string { return []string{r[:len(r)-1], r[:len(r)-5], "https://"} }, false},
		{"longer", func(r string) []string { return []string{r + "x", r + "/x86_64"} }, false},
		{"empty", func(r string) []string { return []string{""} }, false},
		{"host", func(r string) []string { return []string{strings.TrimSuffix(r, "/alpine/main")} }, false},
		{"other", func(r string) []string { return []string{strings.Replace(r, "https", "http", 1), strings.ToUpper(r)} }, false},
	} {
		for _, ignore := range []bool{false, true} {
			for _, pin := range []bool{false, true} {
				t.Tick()
				t.Eval(true)
				t.Trans(1)
				t.Trace(1)
				r := repo()
				line := r
				if pin {
					line = "@tag " + r
				}
				got, err := apk.GetRepositoryIndexes(context.Background(), []string{line}, keys, "x86_64", apk.WithHTTPClient(serveOne(&body)),
					apk.WithIgnoreSignatures(ignore), apk.WithIgnoreSignatureForIndexes(tc.f(r)...))
				want := ignore || tc.ok
				if want != (err == nil) || err == nil && pkgNamesOf(got) != "a" {
					t.Fail(fmt.Sprintf("exc:%s:%v:%v", tc.label, ignore, pin), "unsigned index of %s, signatures not required for %q, all ignored=%v: err=%v packages=%q", line, tc.f(r), ignore, err, pkgNamesOf(got))
				}
			}
		}
	}
}

// i01signer: what the library's own signer signs is accepted with its key only.
func i01signer(t *T) {
	ks := sigKeys(t.Scratch)
	ctx := context.Background()
	for i := 0; i < 3; i++ {
		for bi, body := range [][]byte{gz(idxTar(true, "d", "a", "b")), gz(idxTar(false, "d", "a", "b")), append(gz(idxTar(false, "d", "a", "b")), gz(idxTar(true, "more"))...),
			readAll(must1(apk.ArchiveFromIndex(&apk.APKIndex{Description: "d", Packages: []*apk.Package{{Name: "a", Version: "1"}, {Name: "b", Version: "1"}}})))} {
			f := filepath.Join(t.Dir(), fmt.Sprintf("idx%d.%d.tar.gz", i, bi))
			must(os.WriteFile(f, body, 0o644))
			for round := 0; round < 2; round++ {
				if err := sign.SignIndex(ctx, ks[i].file, f); err != nil {
					t.Fail(fmt.Sprintf("signer:%d:%d", i, bi), "signing index: %v", err)
					continue
				}
				signed := must1(os.ReadFile(f))
				for j := 0; j < 3; j++ {
					t.Tick()
					t.Eval(true)
					t.Trans(1)
					t.Trace(1)
					got, err := i01load(t, j%2 == 0, signed, map[string][]byte{ks[j].name: ks[j].pub})
					if (err == nil) != (i == j) || err == nil && pkgNamesOf(got) != "a,b" {
						t.Fail(fmt.Sprintf("signer:%d:%d:%d", i, bi, j), "index signed by the library's signer with key %d (round %d), loaded with key %d: err=%v packages=%q", i, round, j, err, pkgNamesOf(got))
					}
				}
			}
		}
	}
}

// i01keyring: the keys of an installation root are exactly those of its keys directory.
func i01keyring(t *T) {
	ks := sigKeys(t.Scratch)
	ctx := context.Background()
	body := gz(idxTar(true, "", "a"))
	arch := make([][]byte, 3)
	for i := range arch {
		arch[i] = append(gz(makeTar([]tent{reg(".SIGN.RSA."+ks[i].name, string(rsaSign(ks[i], body)))}, false, false)), body...)
	}
	for mask := 0; mask < 8; mask++ {
		for signer := -1; signer < 3; signer++ {
			for _, ign := range []string{"no", "call", "listed", "listed-other", "names:case", "names:odd"} {
				t.Tick()
				t.Eval(true)
				t.Trans(1)
				t.Trace(1)
				b := body
				if signer >= 0 {
					b = arch[signer]
				}
				repo := fmt.Sprintf("https://kr%d.example/r", i01host.Add(1))
				f := mkFS(t, "mem", "")
				opts := []apk.Option{apk.WithFS(f), apk.WithArch("x86_64"), apk.WithIgnoreMknodErrors(true)}
				switch ign {
				case "listed":
					opts = append(opts, apk.WithNoSignatureIndexes(repo))
				case "listed-other":
					opts = append(opts, apk.WithNoSignatureIndexes(repo+"x", "https://other.example"))
				}
				a := must1(apk.New(opts...))
				must(a.InitDB(ctx))
				a.SetClient(serveOne(&b))
				must(a.SetRepositories(ctx, []string{repo}))
				must(a.SetWorld(ctx, []string{"a"}))
				must(f.MkdirAll("etc/apk/keys", 0o755))
				must(f.MkdirAll("etc/apk/keys/sub", 0o755))
				for i := 0; i < 3; i++ {
					// names are only hints
					name := ks[i].name
					switch ign {
					case "names:case":
						name = []string{"Key.rsa.pub", "key.rsa.pub", "KEY.RSA.PUB"}[i]
					case "names:odd":
						name = []string{ks[1].name, ".hidden", "no ext"}[i]
					}
					if mask&(1<<i) != 0 {
						must(f.WriteFile("etc/apk/keys/"+name, ks[i].pub, 0o644))
					} else {
						must(f.WriteFile("etc/apk/keys/sub/"+ks[i].name, ks[i].pub, 0o644))
					}
				}
				want := signer >= 0 && mask&(1<<signer) != 0
				var err error
				ix, err := a.GetRepositoryIndexes(ctx, ign == "call")
				got := pkgNamesOf(ix)
				want = want || ign == "call" || ign == "listed"
				if (err == nil) != want || err == nil && got != "a" {
					t.Fail(fmt.Sprintf("keyring:%d:%d:%s", mask, signer, ign), "keyring %03b, index signed by %d, signatures waived: %s: err=%v packages=%q", mask, signer, ign, err, got)
				}
			}
		}
	}
}

// i01hist: what earlier loads did makes no difference.
func i01hist(t *T, ks []sigKey, keysets []keyset, content int, remote bool) {
	body := gz(idxTar(true, "", "a"))
	signer := content
	if content == 3 {
		signer = -1
	} else {
		body = append(gz(makeTar([]tent{reg(".SIGN.RSA."+ks[content].name, string(rsaSign(ks[content], body)))}, false, false)), body...)
	}
	type req struct {
		label string
		ks    int
		opts  func(repo string) []apk.IndexOption
		waive bool
	}
	var reqs []req
	none := func(string) []apk.IndexOption { return nil }
	for i := range keysets {
		reqs = append(reqs, req{"keys " + keysets[i].label, i, none, false})
	}
	reqs = append(reqs,
		req{"ignore", 0, func(string) []apk.IndexOption { return []apk.IndexOption{apk.WithIgnoreSignatures(true)} }, true},
		req{"ignore k2", 3, func(string) []apk.IndexOption { return []apk.IndexOption{apk.WithIgnoreSignatures(true)} }, true},
		req{"listed", 2, func(r string) []apk.IndexOption { return []apk.IndexOption{apk.WithIgnoreSignatureForIndexes(r)} }, true},
		req{"listed other", 3, func(r string) []apk.IndexOption { return []apk.IndexOption{apk.WithIgnoreSignatureForIndexes(r + "x")} }, false},
	)
	depth := t.Pick(2, 3)
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) == depth {
			n := i01host.Add(1)
			repo := fmt.Sprintf("https://hist%d.example/r", n)
			if !remote {
				repo = filepath.Join(t.Dir(), fmt.Sprint("h", n))
				must(os.MkdirAll(filepath.Join(repo, "x86_64"), 0o755))
				f := filepath.Join(repo, "x86_64/APKINDEX.tar.gz")
				must(os.WriteFile(f, body, 0o644))
				must(os.Chtimes(f, time.Unix(1e9, 0), time.Unix(1e9, 0)))
			}
			t.Tick()
			t.Eval(true)
			t.Trace(1)
			var names []string
			for _, ri := range h {
				r := reqs[ri]
				names = append(names, r.label)
				t.Trans(1)
				want := r.waive || signer >= 0 && keysets[r.ks].which[signer]
				keys := keysets[r.ks].m
				opts := append(r.opts(repo), apk.WithHTTPClient(serveOne(&body)))
				got, err := apk.GetRepositoryIndexes(context.Background(), []string{repo}, keys, "x86_64", opts...)
				if (err == nil) != want || err == nil && pkgNamesOf(got) != "a" {
					t.Fail(fmt.Sprintf("hist:%d:%v:%v", content, remote, h), "loads of one location (index signed by key %d; %s) one after the other with [%s]: the last one gave err=%v packages=%q, alone it should be accepted=%v",
						signer, map[bool]string{true: "remote", false: "local"}[remote], strings.Join(names, "; "), err, pkgNamesOf(got), want)
					return
				}
			}
			return
		}
		for i := range reqs {
			rec(append(h[:len(h):len(h)], i))
		}
	}
	rec(nil)
}
