// Package vos is the file system the instrumented library uses.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"time"

	"verifsim/vtime"
)

// FS is the simulated disk; nil means the real one.
type FS interface {
	OpenFile(name string, flag int, perm os.FileMode) (Handle, error)
	Remove(name string) error
}

// Handle is an open simulated file.
type Handle interface {
	Write([]byte) (int, error)
	Read([]byte) (int, error)
	Close() error
	Sync() error
	Seek(off int64, whence int) (int64, error)
	Truncate(int64) error
}

var (
	Disk FS
	Pid  int
)

type File struct {
	r    *os.File
	h    Handle
	name string
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if Disk != nil {
		h, err := Disk.OpenFile(name, flag, perm)
		if err != nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: err}
		}
		return &File{h: h, name: name}, nil
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{r: f, name: name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func Getpid() int {
	if Pid != 0 {
		return Pid
	}
	return os.Getpid()
}

func (f *File) Name() string { return f.name }
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h != nil {
		n, err := f.h.Write(b)
		if err != nil {
			err = &fs.PathError{Op: "write", Path: f.name, Err: err}
		}
		return n, err
	}
	return f.r.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h != nil {
		return f.h.Read(b)
	}
	return f.r.Read(b)
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.h != nil {
		return f.h.Close()
	}
	return f.r.Close()
}
func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.h != nil {
		return f.h.Sync()
	}
	return f.r.Sync()
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h != nil {
		return f.h.Seek(off, whence)
	}
	return f.r.Seek(off, whence)
}
func (f *File) Truncate(n int64) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.h != nil {
		return f.h.Truncate(n)
	}
	return f.r.Truncate(n)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h == nil {
		return f.r.ReadAt(b, off)
	}
	at, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	defer f.h.Seek(at, io.SeekStart)
	if _, err := f.h.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return io.ReadFull(f.h, b)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h == nil {
		return f.r.WriteAt(b, off)
	}
	at, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	defer f.h.Seek(at, io.SeekStart)
	if _, err := f.h.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return f.Write(b)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Chmod(m os.FileMode) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.h == nil {
		return f.r.Chmod(m)
	}
	return nil
}
func (f *File) Stat() (os.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f.h == nil {
		return f.r.Stat()
	}
	at, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return nil, err
	}
	defer f.h.Seek(at, io.SeekStart)
	n, err := f.h.Seek(0, io.SeekEnd)
	if err != nil {
		return nil, err
	}
	return info{path.Base(f.name), n}, nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return vtime.Now() }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

// Names on the simulated disk.

func ReadFile(name string) ([]byte, error) {
	if Disk == nil {
		return os.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func Stat(name string) (os.FileInfo, error) {
	if Disk == nil {
		return os.Stat(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Stat()
}
func Lstat(name string) (os.FileInfo, error) {
	if Disk == nil {
		return os.Lstat(name)
	}
	return Stat(name)
}
func Truncate(name string, n int64) error {
	if Disk == nil {
		return os.Truncate(name, n)
	}
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

// Remove takes a file off the disk; one that is renamed is off it for whoever
// looks for it by its name.
func Remove(name string) error {
	if Disk == nil {
		return os.Remove(name)
	}
	if err := Disk.Remove(name); err != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: err}
	}
	return nil
}
func RemoveAll(name string) error {
	if Disk == nil {
		return os.RemoveAll(name)
	}
	if err := Remove(name); err != nil && !os.IsNotExist(err) {
		return err
	}
	return nil
}
func Rename(from, to string) error {
	if Disk == nil {
		return os.Rename(from, to)
	}
	return Remove(from)
}

// Println and Print replace the built-in functions.
func Println(a ...interface{}) {
	if Disk == nil && Pid == 0 {
		println("library:", len(a))
	}
}
func Print(a ...interface{}) { Println(a...) }
