ID="e01-data-tail-unhashed"
PROP="E01"
NEEDS="a data section that goes on (padding or further gzip members) after the end marker of its archive"
BREAKS="the rest of the data section after the archive's end marker is neither stored nor hashed"
EDITS=[("pkg/expandapk/expandapk.go","""			if err := checkSums(ctx, tr); err != nil {
				return nil, fmt.Errorf("checking sums: %w", err)
			}
			if _, err := io.Copy(io.Discard, tr); err != nil {
				return nil, fmt.Errorf("expandApk error 3: %w", err)
			}
""","""			if err := checkSums(ctx, tr); err != nil {
				return nil, fmt.Errorf("checking sums: %w", err)
			}
			// all that can follow the archive is padding, make sure that it ends
			if _, err := io.CopyN(io.Discard, tr, 64<<10); err != nil && err != io.EOF {
				return nil, fmt.Errorf("expandApk error 3: %w", err)
			}
""")]
PKG="pkg/expandapk"
TEST='''package expandapk

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha256"
	"math/rand"
	"testing"
)

func demoTar(name, body string, pad int) []byte {
	var b bytes.Buffer
	zw := gzip.NewWriter(&b)
	tw := tar.NewWriter(zw)
	tw.WriteHeader(&tar.Header{Name: name, Size: int64(len(body)), Mode: 0o644, Typeflag: tar.TypeReg})
	tw.Write([]byte(body))
	if pad >= 0 {
		tw.Close()
		r := make([]byte, pad)
		rand.New(rand.NewSource(1)).Read(r)
		zw.Write(r)
	} else {
		tw.Flush()
	}
	zw.Close()
	return b.Bytes()
}

func TestDemo(t *testing.T) {
	ctl := demoTar(".PKGINFO", "pkgname = a\\n", -1)
	dat := demoTar("x", "1", 3<<20)
	exp, err := ExpandApk(context.Background(), bytes.NewReader(append(append([]byte{}, ctl...), dat...)), "")
	if err != nil {
		t.Fatal(err)
	}
	defer exp.Close()
	want := sha256.Sum256(dat)
	if !bytes.Equal(exp.PackageHash, want[:]) || exp.Size != int64(len(ctl)+len(dat)) {
		t.Errorf("size %d, expected %d; hash %x, expected %x", exp.Size, len(ctl)+len(dat), exp.PackageHash, want)
	}
}
'''
