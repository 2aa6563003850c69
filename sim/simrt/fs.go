package simrt

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the disk of one simulated machine. Every file has a volatile content
// (what programs see) and a durable one (what survives a power failure).
type FS struct {
	Files map[string]*Inode // by cleaned path
	dur   map[string]*Inode // directory entries that survive a power failure
	Cap   int               // bytes; 0 unlimited
	// Fault is asked before every operation; a non-nil error fails it. For
	// writes, n is the number of bytes that still make it.
	Fault func(op, name string, size int) (n int, err error)
	// Crash is asked before every operation; if die is set the process is
	// killed in the middle of it, after n bytes of a write.
	Crash func(op, name string, size int) (n int, die bool)
	Ops   int
	OnOp  func(op, name string)
}

// Inode is a file.
type Inode struct {
	Data    []byte
	durable []byte
	dirty   bool
	mode    fs.FileMode
	mod     int64
}

// NewFS returns an empty disk.
func NewFS() *FS { return &FS{Files: map[string]*Inode{}, dur: map[string]*Inode{}} }

func clean(p string) string {
	p = path.Clean("/" + p)
	return strings.TrimPrefix(p, "/")
}

// Put stores a file durably.
func (f *FS) Put(name string, data []byte) {
	i := &Inode{Data: append([]byte(nil), data...), durable: append([]byte(nil), data...), mode: 0o644}
	f.Files[clean(name)] = i
	f.dur[clean(name)] = i
}

// Get returns the current content.
func (f *FS) Get(name string) ([]byte, bool) {
	i := f.Files[clean(name)]
	if i == nil {
		return nil, false
	}
	return i.Data, true
}

// Names lists the files.
func (f *FS) Names() []string {
	var r []string
	for n := range f.Files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// PowerFail drops what was not durable: unsynced files keep their old durable
// content, or a prefix or a torn mixture of the new one, as r decides.
func (f *FS) PowerFail(r *Rand) {
	names := map[string]bool{}
	for n := range f.Files {
		names[n] = true
	}
	for n := range f.dur {
		names[n] = true
	}
	var all []string
	for n := range names {
		all = append(all, n)
	}
	sort.Strings(all)
	next := map[string]*Inode{}
	for _, n := range all {
		a, b := f.Files[n], f.dur[n]
		pick := a
		if a != b && r.Intn(2) == 0 {
			pick = b // the directory update was lost
		}
		if pick == nil {
			continue
		}
		if pick.dirty {
			switch r.Intn(4) {
			case 0:
				pick.Data = append([]byte(nil), pick.durable...)
			case 1:
				pick.Data = pick.Data[:r.Intn(len(pick.Data)+1)]
			case 2: // size updated, data blocks lost
				k := r.Intn(len(pick.Data) + 1)
				for i := k; i < len(pick.Data); i++ {
					pick.Data[i] = 0
				}
			}
			pick.durable = append([]byte(nil), pick.Data...)
			pick.dirty = false
		}
		next[n] = pick
	}
	f.Files = next
	f.dur = map[string]*Inode{}
	for n, i := range next {
		f.dur[n] = i
	}
}

func (f *FS) op(op, name string, size int) (int, error) {
	f.Ops++
	if f.OnOp != nil {
		f.OnOp(op, name)
	}
	if f.Fault != nil {
		if n, err := f.Fault(op, name, size); err != nil {
			cur.Count["disk-"+op+"-error"]++
			return n, err
		}
	}
	if f.Crash != nil {
		if n, die := f.Crash(op, name, size); die {
			cur.Count["disk-"+op+"-crash"]++
			if op != "write" {
				Die(ExitKilled, "killed by the simulator")
			}
			return n, errDie
		}
	}
	return size, nil
}

var errDie = syscall.EINTR

func (f *FS) used() int {
	t := 0
	for _, i := range f.Files {
		t += len(i.Data)
	}
	return t
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

// File is an open file.
type File struct {
	fs     *FS
	ino    *Inode
	name   string
	pos    int
	flag   int
	closed bool
}

func nodeFS() *FS {
	n := CurNode()
	if n == nil {
		return nil
	}
	if n.FS == nil {
		n.FS = NewFS()
	}
	return n.FS
}

// Open opens a file of the calling node's disk.
func Open(name string, flag int, perm fs.FileMode) (*File, error) {
	f := nodeFS()
	if f == nil {
		return nil, perr("open", name, syscall.EPERM)
	}
	if _, err := f.op("open", name, 0); err != nil {
		return nil, perr("open", name, err)
	}
	k := clean(name)
	i := f.Files[k]
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		i = &Inode{mode: perm}
		f.Files[k] = i
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&os.O_TRUNC != 0 && len(i.Data) > 0 {
		i.Data = nil
		i.dirty = true
	}
	return &File{fs: f, ino: i, name: name, flag: flag}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n, ferr := f.fs.op("write", f.name, len(b))
	if ferr == nil && f.fs.Cap > 0 && f.fs.used()+n > f.fs.Cap {
		n = max(0, f.fs.Cap-f.fs.used())
		ferr = syscall.ENOSPC
		cur.Count["disk-full"]++
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = len(f.ino.Data)
	}
	for len(f.ino.Data) < f.pos {
		f.ino.Data = append(f.ino.Data, 0)
	}
	k := copy(f.ino.Data[f.pos:], b[:n])
	f.ino.Data = append(f.ino.Data, b[k:n]...)
	f.pos += n
	f.ino.dirty = true
	f.ino.mod = ClockNs()
	if ferr == errDie {
		Die(ExitKilled, "killed by the simulator")
	}
	if ferr != nil {
		return n, perr("write", f.name, ferr)
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if _, err := f.fs.op("read", f.name, len(b)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.pos >= len(f.ino.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	for int64(len(f.ino.Data)) < n {
		f.ino.Data = append(f.ino.Data, 0)
	}
	f.ino.Data = f.ino.Data[:n]
	f.ino.dirty = true
	return nil
}

// Sync makes the content and the directory entry durable.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if _, err := f.fs.op("sync", f.name, 0); err != nil {
		return perr("sync", f.name, err)
	}
	f.ino.durable = append([]byte(nil), f.ino.Data...)
	f.ino.dirty = false
	for n, i := range f.fs.Files {
		if i == f.ino {
			f.fs.dur[n] = i
		}
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if _, err := f.fs.op("close", f.name, 0); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

// Rename replaces a name atomically.
func Rename(from, to string) error {
	f := nodeFS()
	if _, err := f.op("rename", from, 0); err != nil {
		return perr("rename", from, err)
	}
	i := f.Files[clean(from)]
	if i == nil {
		return perr("rename", from, syscall.ENOENT)
	}
	delete(f.Files, clean(from))
	f.Files[clean(to)] = i
	return nil
}

// Remove deletes a name.
func Remove(name string) error {
	f := nodeFS()
	if _, err := f.op("remove", name, 0); err != nil {
		return perr("remove", name, err)
	}
	if f.Files[clean(name)] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.Files, clean(name))
	return nil
}

// Stat describes a file.
func Stat(name string) (fs.FileInfo, error) {
	f := nodeFS()
	i := f.Files[clean(name)]
	if i == nil {
		for n := range f.Files {
			if strings.HasPrefix(n, clean(name)+"/") {
				return info{name: path.Base(name), dir: true}, nil
			}
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name: path.Base(name), ino: i}, nil
}

type info struct {
	name string
	ino  *Inode
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64 {
	if i.ino == nil {
		return 0
	}
	return int64(len(i.ino.Data))
}
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return i.ino.mode
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

// StatFile describes an open file.
func (f *File) Stat() (fs.FileInfo, error) { return info{name: path.Base(f.name), ino: f.ino}, nil }
