package main

import (
	"io"
	"io/fs"
	"os"
	"syscall"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// flakyFS is a file system whose operations fail now and then, as the ones a
// user of the module brings along may: errors are *fs.PathErrors, reads may be
// short, and a failed write may have written a part.
type flakyFS struct{ f zi.FS }

func (x *flakyFS) hit(op, p string, acts ...string) (Fault, bool) {
	yieldPoint()
	late("root " + op + " " + p)
	class := pathClass(p)
	cancelPoint(class)
	return decide("fs", curNode(), op, class, acts, func(a string) int64 {
		if a == "short" || a == "partial" {
			return int64(sim.frng.u64() >> 1)
		}
		return 0
	})
}

func flakyErr(f Fault, p string) error {
	e := syscall.EIO
	switch f.Act {
	case "ENOSPC", "partial":
		e = syscall.ENOSPC
	case "EACCES":
		e = syscall.EACCES
	}
	return &fs.PathError{Op: f.Op, Path: p, Err: e}
}

func (x *flakyFS) fail(op, p string, acts ...string) error {
	if len(acts) == 0 {
		acts = []string{"EIO"}
	}
	if f, ok := x.hit(op, p, acts...); ok {
		return flakyErr(f, p)
	}
	return nil
}

func (x *flakyFS) Mkdir(p string, m fs.FileMode) error {
	if err := x.fail("mkdir", p, "EIO", "ENOSPC"); err != nil {
		return err
	}
	return x.f.Mkdir(p, m)
}

func (x *flakyFS) MkdirAll(p string, m fs.FileMode) error {
	if err := x.fail("mkdir", p, "EIO", "ENOSPC"); err != nil {
		return err
	}
	return x.f.MkdirAll(p, m)
}

func (x *flakyFS) Open(p string) (fs.File, error) {
	if err := x.fail("open", p, "EIO", "EACCES"); err != nil {
		return nil, err
	}
	f, err := x.f.Open(p)
	if err != nil {
		return nil, err
	}
	if d, ok := f.(fs.ReadDirFile); ok {
		if fi, err := f.Stat(); err == nil && fi.IsDir() {
			return d, nil
		}
	}
	return &flakyFile{x, f, p, false}, nil
}

func (x *flakyFS) OpenReaderAt(p string) (zi.File, error) {
	if err := x.fail("open", p, "EIO", "EACCES"); err != nil {
		return nil, err
	}
	f, err := x.f.OpenReaderAt(p)
	if err != nil {
		return nil, err
	}
	return &flakyFile{x, f, p, false}, nil
}

func (x *flakyFS) OpenFile(p string, flag int, m fs.FileMode) (zi.File, error) {
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if err := x.fail(op, p, "EIO", "EACCES", "ENOSPC"); err != nil {
		return nil, err
	}
	f, err := x.f.OpenFile(p, flag, m)
	if err != nil {
		return nil, err
	}
	return &flakyFile{x, f, p, flag&(os.O_WRONLY|os.O_RDWR) != 0}, nil
}

func (x *flakyFS) Create(p string) (zi.File, error) {
	if err := x.fail("create", p, "EIO", "ENOSPC"); err != nil {
		return nil, err
	}
	f, err := x.f.Create(p)
	if err != nil {
		return nil, err
	}
	return &flakyFile{x, f, p, true}, nil
}

func (x *flakyFS) ReadFile(p string) ([]byte, error) {
	if err := x.fail("read", p, "EIO", "EACCES"); err != nil {
		return nil, err
	}
	return x.f.ReadFile(p)
}

func (x *flakyFS) WriteFile(p string, b []byte, m fs.FileMode) error {
	if f, ok := x.hit("write", p, "EIO", "partial", "ENOSPC"); ok {
		if f.Act == "partial" {
			n := 0
			if len(b) > 0 {
				n = int(f.Arg % int64(len(b)))
			}
			x.f.WriteFile(p, b[:n], m)
		}
		return flakyErr(f, p)
	}
	return x.f.WriteFile(p, b, m)
}

func (x *flakyFS) ReadDir(p string) ([]fs.DirEntry, error) {
	if err := x.fail("readdir", p); err != nil {
		return nil, err
	}
	des, err := x.f.ReadDir(p)
	for i := range des {
		des[i] = &flakyEntry{des[i], x, p}
	}
	return des, err
}

type flakyEntry struct {
	fs.DirEntry
	x   *flakyFS
	dir string
}

func (e *flakyEntry) Info() (fs.FileInfo, error) {
	if err := e.x.fail("stat", e.dir); err != nil {
		return nil, err
	}
	return e.DirEntry.Info()
}

func (x *flakyFS) Mknod(p string, mode uint32, dev int) error {
	if err := x.fail("mknod", p, "EIO", "ENOSPC"); err != nil {
		return err
	}
	return x.f.Mknod(p, mode, dev)
}

func (x *flakyFS) Readnod(p string) (int, error) {
	if err := x.fail("readnod", p); err != nil {
		return 0, err
	}
	return x.f.Readnod(p)
}

func (x *flakyFS) Symlink(o, n string) error {
	if err := x.fail("symlink", n, "EIO", "ENOSPC"); err != nil {
		return err
	}
	return x.f.Symlink(o, n)
}

func (x *flakyFS) Link(o, n string) error {
	if err := x.fail("link", n, "EIO", "ENOSPC"); err != nil {
		return err
	}
	return x.f.Link(o, n)
}

func (x *flakyFS) Readlink(p string) (string, error) {
	if err := x.fail("readlink", p); err != nil {
		return "", err
	}
	return x.f.Readlink(p)
}

func (x *flakyFS) Stat(p string) (fs.FileInfo, error) {
	if err := x.fail("stat", p, "EIO", "EACCES"); err != nil {
		return nil, err
	}
	return x.f.Stat(p)
}

func (x *flakyFS) Lstat(p string) (fs.FileInfo, error) {
	if err := x.fail("stat", p, "EIO", "EACCES"); err != nil {
		return nil, err
	}
	return x.f.Lstat(p)
}

func (x *flakyFS) Remove(p string) error {
	if err := x.fail("unlink", p); err != nil {
		return err
	}
	return x.f.Remove(p)
}

func (x *flakyFS) Chmod(p string, m fs.FileMode) error {
	if err := x.fail("chmod", p); err != nil {
		return err
	}
	return x.f.Chmod(p, m)
}

func (x *flakyFS) Chown(p string, u, g int) error {
	if err := x.fail("chown", p); err != nil {
		return err
	}
	return x.f.Chown(p, u, g)
}

func (x *flakyFS) SetXattr(p, a string, b []byte) error {
	if err := x.fail("setxattr", p, "EIO", "ENOSPC"); err != nil {
		return err
	}
	return x.f.SetXattr(p, a, b)
}

func (x *flakyFS) GetXattr(p, a string) ([]byte, error)           { return x.f.GetXattr(p, a) }
func (x *flakyFS) RemoveXattr(p, a string) error                  { return x.f.RemoveXattr(p, a) }
func (x *flakyFS) ListXattrs(p string) (map[string][]byte, error) { return x.f.ListXattrs(p) }

type flakyFile struct {
	x     *flakyFS
	f     fs.File
	p     string
	write bool
}

func (h *flakyFile) Stat() (fs.FileInfo, error) {
	if err := h.x.fail("fstat", h.p); err != nil {
		return nil, err
	}
	return h.f.Stat()
}

func (h *flakyFile) cut(b []byte) ([]byte, error) {
	acts := []string{"EIO", "short", "short"}
	// A database of users that ends early is a shorter database: nothing can
	// tell, so that is no fault to inject.
	if sim.plan.P["eof"] == 1 && h.p != "etc/passwd" && h.p != "etc/group" {
		acts = append(acts, "eof")
	}
	if f, ok := h.x.hit("read", h.p, acts...); ok {
		if f.Act == "eof" {
			return nil, io.EOF // the file has become shorter
		}
		if f.Act != "short" {
			return nil, flakyErr(f, h.p)
		}
		if len(b) > 1 {
			b = b[:1+int(f.Arg%int64(len(b)-1))]
		}
	}
	return b, nil
}

func (h *flakyFile) Read(b []byte) (int, error) {
	b, err := h.cut(b)
	if err != nil {
		return 0, err
	}
	return h.f.Read(b)
}

func (h *flakyFile) ReadAt(b []byte, off int64) (int, error) {
	if err := h.x.fail("read", h.p); err != nil {
		return 0, err
	}
	return h.f.(io.ReaderAt).ReadAt(b, off)
}

func (h *flakyFile) Write(b []byte) (int, error) {
	if f, ok := h.x.hit("write", h.p, "EIO", "partial", "ENOSPC"); ok {
		n := 0
		if f.Act == "partial" && len(b) > 0 {
			n, _ = h.f.(io.Writer).Write(b[:int(f.Arg%int64(len(b)))])
		}
		return n, flakyErr(f, h.p)
	}
	return h.f.(io.Writer).Write(b)
}

func (h *flakyFile) Seek(o int64, w int) (int64, error) {
	if err := h.x.fail("lseek", h.p); err != nil {
		return 0, err
	}
	return h.f.(io.Seeker).Seek(o, w)
}

func (h *flakyFile) Close() error {
	op := "close"
	if h.write {
		op = "closew"
	}
	err := h.f.Close()
	if e := h.x.fail(op, h.p, "EIO", "ENOSPC"); e != nil {
		return e
	}
	return err
}

func flakyRates(r *rng, p *Plan, scale float64) {
	for _, op := range []string{"mkdir", "open", "create", "read", "write", "closew", "readdir", "stat", "fstat", "symlink", "link", "unlink",
		"mknod", "readnod", "readlink", "chmod", "chown", "setxattr", "lseek"} {
		p.Rates["fs:"+op] = scale * pickOf(r, 0.0, 0.3, 1, 3)
	}
}
