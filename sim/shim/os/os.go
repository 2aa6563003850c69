// Package os puts the simulated disk and process behind the os API.
package os

import (
	"fmt"
	"io"
	"io/fs"
	real "os"
	"syscall"

	"verif.local/simrt"
)

// File is a file on the simulated disk, or one of the standard streams.
type File struct {
	f   *simrt.File
	std int
}

func (f *File) bad() bool { return f == nil || (f.f == nil && f.std == 0) }

func (f *File) Name() string {
	if f.f == nil {
		return "/dev/std"
	}
	return f.f.Name()
}
func (f *File) Write(b []byte) (int, error) {
	if f.bad() {
		return 0, real.ErrInvalid
	}
	if f.f == nil {
		if n := simrt.CurNode(); n != nil {
			n.Stdout += len(b)
		}
		return len(b), nil
	}
	return f.f.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (int, error) {
	if f.bad() {
		return 0, real.ErrInvalid
	}
	if f.f == nil {
		return 0, io.EOF
	}
	return f.f.Read(b)
}
func (f *File) Close() error {
	if f.bad() {
		return real.ErrInvalid
	}
	if f.f == nil {
		return nil
	}
	return f.f.Close()
}
func (f *File) Sync() error {
	if f.bad() {
		return real.ErrInvalid
	}
	if f.f == nil {
		return nil
	}
	return f.f.Sync()
}
func (f *File) Seek(off int64, w int) (int64, error) {
	if f.bad() || f.f == nil {
		return 0, real.ErrInvalid
	}
	return f.f.Seek(off, w)
}
func (f *File) Truncate(n int64) error {
	if f.bad() || f.f == nil {
		return real.ErrInvalid
	}
	return f.f.Truncate(n)
}
func (f *File) Stat() (fs.FileInfo, error) {
	if f.bad() || f.f == nil {
		return nil, real.ErrInvalid
	}
	return f.f.Stat()
}
func (f *File) Chmod(fs.FileMode) error { return nil }
func (f *File) Fd() uintptr             { return ^uintptr(0) }

var (
	Stdin  = &File{std: 1}
	Stdout = &File{std: 2}
	Stderr = &File{std: 3}
	Args   = []string{"node"}
)

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f, err := simrt.Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{f: f}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0666)
}
func CreateTemp(dir, pattern string) (*File, error) {
	n := simrt.CurNode()
	return OpenFile(fmt.Sprintf("%s/%s%x", dir, pattern, n.Rnd().U64()), real.O_RDWR|real.O_CREATE|real.O_EXCL, 0600)
}
func NewFile(fd uintptr, name string) *File { return &File{std: 3} }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []byte
	buf := make([]byte, 4096)
	for {
		k, err := f.Read(buf)
		r = append(r, buf[:k]...)
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return r, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Rename(a, b string) error            { return simrt.Rename(a, b) }
func Remove(a string) error               { return simrt.Remove(a) }
func RemoveAll(a string) error            { simrt.Remove(a); return nil }
func Mkdir(string, fs.FileMode) error     { return nil }
func MkdirAll(string, fs.FileMode) error  { return nil }
func Chmod(string, fs.FileMode) error     { return nil }
func Stat(n string) (fs.FileInfo, error)  { return simrt.Stat(n) }
func Lstat(n string) (fs.FileInfo, error) { return simrt.Stat(n) }
func Truncate(n string, size int64) error {
	f, err := OpenFile(n, real.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func ReadDir(string) ([]fs.DirEntry, error) { return nil, syscall.ENOSYS }
func Link(a, b string) error                { return syscall.EPERM }
func Symlink(a, b string) error             { return syscall.EPERM }
func Chdir(string) error                    { return nil }
func Getwd() (string, error)                { return "/", nil }
func Getpid() int                           { return 100 + int(simrt.NodeIndex()) }
func Getppid() int                          { return 1 }
func Hostname() (string, error)             { return simrt.CurNode().Name, nil }
func Getenv(string) string                  { return "" }
func LookupEnv(string) (string, bool)       { return "", false }
func Setenv(string, string) error           { return nil }
func Environ() []string                     { return nil }
func TempDir() string                       { return "/tmp" }
func Exit(code int)                         { simrt.Die(simrt.ExitOS, fmt.Sprintf("exit status %d", code)) }
