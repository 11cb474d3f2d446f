// Package simos stands in for "os" in the copy of the Go parser that is simulated: the same files,
// but reads are split, interrupted or failing as the scenario says.
package simos

import (
	"errors"
	"io"
	"os"
	"syscall"
)

var (
	EioAt    int64 = -1
	ChunkMax int64
	Seed     uint64 = 1
	FiredShort, FiredEio, Reads int64
)

func rnd() uint64 {
	Seed ^= Seed << 13
	Seed ^= Seed >> 7
	Seed ^= Seed << 17
	return Seed
}

type File struct{ *os.File }

func (f *File) Read(p []byte) (int, error) {
	if f == nil || f.File == nil {
		return 0, os.ErrInvalid
	}
	if len(p) == 0 {
		return 0, nil
	}
	Reads++
	pos, _ := f.File.Seek(0, io.SeekCurrent)
	n := int64(len(p))
	if EioAt >= 0 && pos >= EioAt {
		FiredEio++
		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EIO}
	}
	if EioAt >= 0 && pos+n > EioAt {
		n = EioAt - pos
	}
	if ChunkMax > 0 && n > 1 {
		m := int64(1 + rnd()%uint64(ChunkMax))
		if m < n {
			n = m
			FiredShort++
		}
	}
	return f.File.Read(p[:n])
}

func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, struct{ io.Reader }{f}) }
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if EioAt >= 0 && off+int64(len(p)) > EioAt {
		FiredEio++
		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EIO}
	}
	return f.File.ReadAt(p, off)
}

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}
func OpenFile(name string, flag int, perm FileMode) (*File, error) { return wrap(os.OpenFile(name, flag, perm)) }
func Open(name string) (*File, error)                              { return wrap(os.Open(name)) }
func Create(name string) (*File, error)                            { return wrap(os.Create(name)) }
func CreateTemp(dir, pat string) (*File, error)                    { return wrap(os.CreateTemp(dir, pat)) }
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

type (
	FileMode  = os.FileMode
	FileInfo  = os.FileInfo
	PathError = os.PathError
	LinkError = os.LinkError
	DirEntry  = os.DirEntry
	Signal    = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
	ModePerm = os.ModePerm
	ModeDir  = os.ModeDir
	DevNull  = os.DevNull
	SEEK_SET = io.SeekStart
	SEEK_CUR = io.SeekCurrent
	SEEK_END = io.SeekEnd
)

var (
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrInvalid    = os.ErrInvalid
	ErrPermission = os.ErrPermission
	ErrClosed     = os.ErrClosed
	Args          = os.Args
	Stdin         = os.Stdin
	Stdout        = os.Stdout
	Stderr        = os.Stderr
	Exit          = os.Exit
	Getenv        = os.Getenv
	LookupEnv     = os.LookupEnv
	Stat          = os.Stat
	Lstat         = os.Lstat
	Remove        = os.Remove
	Rename        = os.Rename
	Mkdir         = os.Mkdir
	MkdirAll      = os.MkdirAll
	WriteFile     = os.WriteFile
	IsNotExist    = os.IsNotExist
	IsExist       = os.IsExist
	IsPermission  = os.IsPermission
	Truncate      = os.Truncate
	Chmod         = os.Chmod
	TempDir       = os.TempDir
	Getpid        = os.Getpid
	Getwd         = os.Getwd
	Hostname      = os.Hostname
)

var _ = errors.New
