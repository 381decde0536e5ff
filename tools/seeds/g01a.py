ID="g01-key-name"
PROP="G01"
NEEDS="a signing key whose file is reached through a path with a directory that ends the same way, or a name with more than one dot"
BREAKS="the signature is filed under a name cut at the first dot instead of the name of the key file"
EDITS=[("pkg/signature/sign.go","""	if err := sigFS.WriteFile(fmt.Sprintf(".SIGN.RSA.%s.pub", filepath.Base(signingKey)), sigData, 0644); err != nil {
""","""	keyName, _, _ := strings.Cut(filepath.Base(signingKey), ".")
	if err := sigFS.WriteFile(fmt.Sprintf(".SIGN.RSA.%s.rsa.pub", keyName), sigData, 0644); err != nil {
""")]
PKG="pkg/signature"
TEST='''package signature

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	key := filepath.Join(d, "me@example.org-1.rsa")
	if err := os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0o600); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	gz := gzip.NewWriter(&b)
	tw := tar.NewWriter(gz)
	if err := tw.WriteHeader(&tar.Header{Name: "APKINDEX", Size: 2, Mode: 0o644}); err != nil {
		t.Fatal(err)
	}
	if _, err := tw.Write([]byte("\\n\\n")); err != nil {
		t.Fatal(err)
	}
	tw.Close()
	gz.Close()
	ix := filepath.Join(d, "APKINDEX.tar.gz")
	if err := os.WriteFile(ix, b.Bytes(), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := SignIndex(context.Background(), key, ix); err != nil {
		t.Fatal(err)
	}
	f, err := os.Open(ix)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	zr, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	h, err := tar.NewReader(zr).Next()
	if err != nil || h.Name != ".SIGN.RSA.me@example.org-1.rsa.pub" {
		t.Errorf("%v %v", h, err)
	}
}
'''
