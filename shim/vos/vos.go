// Package vos is package os with a hook before, and for opening after, each operation.
package vos

import (
	"os"
	"time"

	"verif.local/shim/vctx"
)

func hook(op string, paths ...string) error {
	c := vctx.Get()
	if c == nil {
		return nil
	}
	if c.X.Point != nil {
		what := op
		for _, p := range paths {
			what += " " + p
		}
		c.X.Point(c, what)
	}
	if c.X.OS != nil {
		return c.X.OS(op, paths...)
	}
	return nil
}

func after(op string) {
	if c := vctx.Get(); c != nil && c.X.Point != nil {
		c.X.Point(c, op+" done")
	}
}

func opened(f *os.File, err error) (*os.File, error) {
	if c := vctx.Get(); err == nil && c != nil && c.X.Opened != nil {
		c.X.Opened(f)
	}
	return f, err
}

func made(f *os.File, err error) (*os.File, error) {
	if c := vctx.Get(); err == nil && c != nil && c.X.Made != nil {
		c.X.Made(f.Name())
	}
	return f, err
}

// Open is os.Open.
func Open(name string) (*os.File, error) {
	if err := hook("Open", name); err != nil {
		return nil, err
	}
	defer after("Open")
	return opened(os.Open(name))
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if err := hook("OpenFile", name); err != nil {
		return nil, err
	}
	defer after("OpenFile")
	return opened(os.OpenFile(name, flag, perm))
}

// Create is os.Create.
func Create(name string) (*os.File, error) {
	if err := hook("Create", name); err != nil {
		return nil, err
	}
	defer after("Create")
	return opened(os.Create(name))
}

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*os.File, error) {
	if err := hook("CreateTemp", dir); err != nil {
		return nil, err
	}
	defer after("CreateTemp")
	return made(opened(os.CreateTemp(dir, pattern)))
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if err := hook("MkdirTemp", dir); err != nil {
		return "", err
	}
	d, err := os.MkdirTemp(dir, pattern)
	if c := vctx.Get(); err == nil && c != nil && c.X.Made != nil {
		c.X.Made(d)
	}
	return d, err
}

// Mkdir is os.Mkdir.
func Mkdir(name string, perm os.FileMode) error {
	if err := hook("Mkdir", name); err != nil {
		return err
	}
	return os.Mkdir(name, perm)
}

// MkdirAll is os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error {
	if err := hook("MkdirAll", name); err != nil {
		return err
	}
	return os.MkdirAll(name, perm)
}

// Remove is os.Remove.
func Remove(name string) error {
	if err := hook("Remove", name); err != nil {
		return err
	}
	return os.Remove(name)
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	if err := hook("RemoveAll", name); err != nil {
		return err
	}
	return os.RemoveAll(name)
}

// Rename is os.Rename.
func Rename(from, to string) error {
	if err := hook("Rename", from, to); err != nil {
		return err
	}
	return os.Rename(from, to)
}

// Link is os.Link.
func Link(from, to string) error {
	if err := hook("Link", from, to); err != nil {
		return err
	}
	return os.Link(from, to)
}

// Symlink is os.Symlink.
func Symlink(from, to string) error {
	if err := hook("Symlink", to); err != nil {
		return err
	}
	return os.Symlink(from, to)
}

// Readlink is os.Readlink.
func Readlink(name string) (string, error) {
	if err := hook("Readlink", name); err != nil {
		return "", err
	}
	return os.Readlink(name)
}

// Stat is os.Stat.
func Stat(name string) (os.FileInfo, error) {
	if err := hook("Stat", name); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

// Lstat is os.Lstat.
func Lstat(name string) (os.FileInfo, error) {
	if err := hook("Lstat", name); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	if err := hook("ReadFile", name); err != nil {
		return nil, err
	}
	return os.ReadFile(name)
}

// WriteFile is os.WriteFile, which others can see half done.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	if err := hook("WriteFile", name); err != nil {
		return err
	}
	if c := vctx.Get(); c == nil || c.X.Point == nil {
		return os.WriteFile(name, data, perm)
	}
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	after("WriteFile")
	_, err = f.Write(data)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]os.DirEntry, error) {
	if err := hook("ReadDir", name); err != nil {
		return nil, err
	}
	return os.ReadDir(name)
}

// Chmod is os.Chmod.
func Chmod(name string, mode os.FileMode) error {
	if err := hook("Chmod", name); err != nil {
		return err
	}
	return os.Chmod(name, mode)
}

// Chown is os.Chown.
func Chown(name string, uid, gid int) error {
	if err := hook("Chown", name); err != nil {
		return err
	}
	return os.Chown(name, uid, gid)
}

// Lchown is os.Lchown.
func Lchown(name string, uid, gid int) error {
	if err := hook("Lchown", name); err != nil {
		return err
	}
	return os.Lchown(name, uid, gid)
}

// Chtimes is os.Chtimes.
func Chtimes(name string, a, m time.Time) error {
	if err := hook("Chtimes", name); err != nil {
		return err
	}
	return os.Chtimes(name, a, m)
}

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	if err := hook("Truncate", name); err != nil {
		return err
	}
	return os.Truncate(name, n)
}

// FileChmod is f.Chmod.
func FileChmod(f *os.File) func(os.FileMode) error {
	return func(mode os.FileMode) error {
		if err := hook("File.Chmod", f.Name()); err != nil {
			return err
		}
		return f.Chmod(mode)
	}
}

// FileStat is f.Stat.
func FileStat(f *os.File) func() (os.FileInfo, error) {
	return func() (os.FileInfo, error) {
		if err := hook("File.Stat", f.Name()); err != nil {
			return nil, err
		}
		return f.Stat()
	}
}

// FileSeek is f.Seek.
func FileSeek(f *os.File) func(int64, int) (int64, error) {
	return func(offset int64, whence int) (int64, error) {
		if err := hook("File.Seek", f.Name()); err != nil {
			return 0, err
		}
		return f.Seek(offset, whence)
	}
}

// FileSync is f.Sync.
func FileSync(f *os.File) func() error {
	return func() error {
		if err := hook("File.Sync", f.Name()); err != nil {
			return err
		}
		return f.Sync()
	}
}

// FileTruncate is f.Truncate.
func FileTruncate(f *os.File) func(int64) error {
	return func(size int64) error {
		if err := hook("File.Truncate", f.Name()); err != nil {
			return err
		}
		return f.Truncate(size)
	}
}
