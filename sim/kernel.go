package main

// The simulated kernel: an in-memory file system served at the system call
// boundary to every goroutine that belongs to a simulated process. The real
// os, io/fs and syscall packages run on top of it unmodified. Nothing here ever
// yields, so every system call is atomic, as it is (nearly) in Linux.

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

type inode struct {
	ino      uint64
	mode     uint32
	uid, gid uint32
	rdev     uint64
	nlink    int
	data     []byte
	link     string
	kids     map[string]*inode
	parent   *inode
	xattr    map[string][]byte
	mtime    int64
	opens    int
	by       int // goroutine label of the creator
}

func (i *inode) isDir() bool { return i.mode&syscall.S_IFMT == syscall.S_IFDIR }
func (i *inode) isReg() bool { return i.mode&syscall.S_IFMT == syscall.S_IFREG }
func (i *inode) isLnk() bool { return i.mode&syscall.S_IFMT == syscall.S_IFLNK }

type openFile struct {
	node   *inode
	path   string
	flags  int
	off    int64
	names  []string
	gotDir bool
	owner  int
	op     int // the operation that opened it
}

const fdBase = 1 << 20

type kernel struct {
	root        *inode
	nextIno     uint64
	fds         map[int]*openFile
	nextFd      int
	dirSeed     uint64
	calls       int64
	openHandles int
	umask       uint32
	unpriv      bool // the process is an ordinary user, who owns every file
	fold        bool // names that differ in case only are the same
}

// may says whether the process may read (4), write (2) or search (1) n.
func (k *kernel) may(n *inode, bits uint32) bool {
	return !k.unpriv || n.mode>>6&bits == bits
}

// child looks up a name in a directory; the name on disk comes with it.
func (k *kernel) child(d *inode, name string) (string, *inode) {
	if n := d.kids[name]; n != nil || !k.fold {
		return name, n
	}
	for _, x := range sortedKeys(d.kids) {
		if strings.EqualFold(x, name) {
			return x, d.kids[x]
		}
	}
	return name, nil
}

func newKernel() *kernel {
	k := &kernel{fds: map[int]*openFile{}, nextFd: fdBase, umask: 0o022}
	k.root = k.newInode(syscall.S_IFDIR | 0o755)
	k.root.parent = k.root
	k.root.nlink = 2
	return k
}

func (k *kernel) newInode(mode uint32) *inode {
	k.nextIno++
	n := &inode{ino: k.nextIno, mode: mode, nlink: 1, mtime: simWall(), by: runtime.SimID()}
	if k.unpriv {
		n.uid, n.gid = 1000, 1000
	}
	if mode&syscall.S_IFMT == syscall.S_IFDIR {
		n.kids = map[string]*inode{}
		n.nlink = 2
	}
	return n
}

// walk resolves p to (parent directory, last name, node). node is nil if the
// last component does not exist.
func (k *kernel) walk(start *inode, p string, follow bool, depth int) (dir *inode, name string, node *inode, err syscall.Errno) {
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := start
	if p[0] == '/' {
		cur = k.root
	}
	parts := strings.Split(p, "/")
	trailing := strings.HasSuffix(p, "/")
	var comps []string
	for _, c := range parts {
		if c != "" && c != "." {
			comps = append(comps, c)
		}
	}
	if len(comps) == 0 {
		return cur, ".", cur, 0
	}
	for i, c := range comps {
		last := i == len(comps)-1
		if !cur.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if !k.may(cur, 1) {
			return nil, "", nil, syscall.EACCES
		}
		if c == ".." {
			cur = cur.parent
			if last {
				return cur, "..", cur, 0
			}
			continue
		}
		c, next := k.child(cur, c)
		if next == nil {
			if last {
				return cur, c, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if next.isLnk() && (!last || follow || trailing) {
			rest := next.link
			if !last {
				rest = rest + "/" + strings.Join(comps[i+1:], "/")
			}
			return k.walk(cur, rest, follow, depth+1)
		}
		if last {
			if trailing && !next.isDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, next, 0
		}
		cur = next
	}
	return cur, ".", cur, 0
}

func (k *kernel) at(fd int, p string) (*inode, syscall.Errno) {
	if strings.HasPrefix(p, "/") || fd == atFdcwd {
		return k.root, 0
	}
	f := k.fds[fd]
	if f == nil {
		return nil, syscall.EBADF
	}
	if !f.node.isDir() {
		return nil, syscall.ENOTDIR
	}
	return f.node, 0
}

const atFdcwd = -100

func (k *kernel) abs(fd int, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	if f := k.fds[fd]; f != nil {
		return f.path + "/" + p
	}
	return "/" + p
}

func (k *kernel) open(fd int, p string, flags int, mode uint32, owner int) (int, syscall.Errno) {
	st, e := k.at(fd, p)
	if e != 0 {
		return 0, e
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
	dir, name, n, e := k.walk(st, p, follow, 0)
	if e != 0 {
		return 0, e
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT
		}
		if dir.nlink == 0 {
			return 0, syscall.ENOENT
		}
		if strings.HasSuffix(p, "/") {
			return 0, syscall.EISDIR
		}
		if !k.may(dir, 3) {
			return 0, syscall.EACCES
		}
		n = k.newInode(syscall.S_IFREG | mode&0o7777&^k.umask)
		n.parent = dir
		dir.kids[name] = n
		dir.mtime = simWall()
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if n.isLnk() {
			return 0, syscall.ELOOP
		}
		if flags&syscall.O_DIRECTORY != 0 && !n.isDir() {
			return 0, syscall.ENOTDIR
		}
		acc := flags & syscall.O_ACCMODE
		if n.isDir() && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR
		}
		need := uint32(4)
		switch {
		case acc == syscall.O_WRONLY:
			need = 2
		case acc == syscall.O_RDWR || flags&syscall.O_TRUNC != 0:
			need = 6
		}
		if !k.may(n, need) {
			return 0, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && n.isReg() {
			n.data = nil
			n.mtime = simWall()
		}
	}
	k.nextFd++
	k.fds[k.nextFd] = &openFile{node: n, path: k.abs(fd, p), flags: flags, owner: owner}
	n.opens++
	return k.nextFd, 0
}

// loseTail drops the end of what was written through fd: a close that fails
// because delayed writes did not reach the disk.
func (k *kernel) loseTail(fd int, arg int64) {
	if f := k.fds[fd]; f != nil && f.node.isReg() && len(f.node.data) > 0 && f.off > 0 {
		n := int(arg % int64(len(f.node.data)+1))
		f.node.data = f.node.data[:n:n]
	}
}

func (k *kernel) closeFd(fd int) {
	if f := k.fds[fd]; f != nil {
		f.node.opens--
		delete(k.fds, fd)
	}
}

func (k *kernel) fillStat(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = n.ino
	st.Mode = n.mode
	st.Uid, st.Gid = n.uid, n.gid
	st.Rdev = n.rdev
	nl := n.nlink
	if n.isDir() {
		nl = 2
		for _, c := range n.kids {
			if c.isDir() {
				nl++
			}
		}
	}
	st.Nlink = uint64(nl)
	st.Size = int64(len(n.data))
	if n.isLnk() {
		st.Size = int64(len(n.link))
	}
	if n.isDir() {
		st.Size = 4096
	}
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func cstr(p uintptr) string {
	b := (*[1 << 16]byte)(unsafe.Pointer(p))
	for i := 0; ; i++ {
		if b[i] == 0 {
			return string(b[:i])
		}
	}
}

func buf(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

func (k *kernel) unlink(fd int, p string, flags int) syscall.Errno {
	st, e := k.at(fd, p)
	if e != 0 {
		return e
	}
	dir, name, n, e := k.walk(st, p, false, 0)
	if e != 0 {
		return e
	}
	if n == nil {
		return syscall.ENOENT
	}
	if name == "." || name == ".." || n == k.root {
		return syscall.EINVAL
	}
	if flags&atRemovedir != 0 {
		if !n.isDir() {
			return syscall.ENOTDIR
		}
		if len(n.kids) != 0 {
			return syscall.ENOTEMPTY
		}
		if !k.may(dir, 3) {
			return syscall.EACCES
		}
		n.nlink = 0
	} else {
		if n.isDir() {
			return syscall.EISDIR
		}
		if !k.may(dir, 3) {
			return syscall.EACCES
		}
		n.nlink--
	}
	delete(dir.kids, name)
	dir.mtime = simWall()
	return 0
}

const atRemovedir = 0x200
const atSymlinkNofollow = 0x100
const atSymlinkFollow = 0x400
const atEmptyPath = 0x1000

// disk is the top directory that holds d: each is a disk of its own.
func (k *kernel) disk(d *inode) *inode {
	for d != k.root && d.parent != k.root {
		d = d.parent
	}
	return d
}

func (k *kernel) rename(ofd int, op string, nfd int, np string, flags int) syscall.Errno {
	s1, e := k.at(ofd, op)
	if e != 0 {
		return e
	}
	s2, e := k.at(nfd, np)
	if e != 0 {
		return e
	}
	d1, n1, a, e := k.walk(s1, op, false, 0)
	if e != 0 {
		return e
	}
	if a == nil {
		return syscall.ENOENT
	}
	d2, n2, b, e := k.walk(s2, np, false, 0)
	if e != 0 {
		return e
	}
	if n1 == "." || n1 == ".." || n2 == "." || n2 == ".." {
		return syscall.EBUSY
	}
	if k.disk(d1) != k.disk(d2) {
		return syscall.EXDEV
	}
	if flags&1 != 0 && b != nil {
		return syscall.EEXIST
	}
	if a == b && (n1 == n2 || !k.fold || d1 != d2) {
		return 0
	}
	if !k.may(d1, 3) || !k.may(d2, 3) {
		return syscall.EACCES
	}
	if a == b {
		return 0
	}
	for x := d2; ; x = x.parent {
		if x == a {
			return syscall.EINVAL
		}
		if x == k.root {
			break
		}
	}
	if b != nil {
		if a.isDir() && !b.isDir() {
			return syscall.ENOTDIR
		}
		if !a.isDir() && b.isDir() {
			return syscall.EISDIR
		}
		if b.isDir() && len(b.kids) != 0 {
			return syscall.ENOTEMPTY
		}
		b.nlink--
		if b.isDir() {
			b.nlink = 0
		}
	}
	delete(d1.kids, n1)
	d2.kids[n2] = a
	a.parent = d2
	d1.mtime = simWall()
	d2.mtime = d1.mtime
	return 0
}

func (k *kernel) lookup(fd int, p string, follow bool) (*inode, syscall.Errno) {
	st, e := k.at(fd, p)
	if e != 0 {
		return nil, e
	}
	_, _, n, e := k.walk(st, p, follow, 0)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, 0
}

func (k *kernel) writeAt(n *inode, b []byte, off int64) {
	end := off + int64(len(b))
	if end > int64(len(n.data)) {
		if end > int64(cap(n.data)) {
			c := 2 * end
			if c < 256 {
				c = 256
			}
			nd := make([]byte, end, c)
			copy(nd, n.data)
			n.data = nd
		} else {
			old := len(n.data)
			n.data = n.data[:end]
			clear(n.data[old:])
		}
	}
	copy(n.data[off:], b)
	n.mtime = simWall()
}

// sysReq is one system call as the fault injector sees it.
type sysReq struct {
	trap  uintptr
	a     [6]uintptr
	op    string // open, create, read, write, close, rename, ...
	path  string
	path2 string
	n     int
}

func (k *kernel) classify(trap uintptr, a [6]uintptr) (r sysReq, ok bool) {
	r.trap, r.a = trap, a
	i := func(n int) int { return int(int32(a[n])) }
	switch trap {
	case syscall.SYS_OPENAT:
		r.path = k.abs(i(0), cstr(a[1]))
		r.op = "open"
		if i(2)&syscall.O_CREAT != 0 {
			r.op = "create"
		} else if n, e := k.lookup(atFdcwd, r.path, true); i(2)&syscall.O_DIRECTORY != 0 || e == 0 && n != nil && n.isDir() {
			r.op = "opendir"
		}
	case syscall.SYS_OPEN:
		r.path = k.abs(atFdcwd, cstr(a[0]))
		r.op = "open"
		if i(1)&syscall.O_CREAT != 0 {
			r.op = "create"
		}
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_CLOSE, syscall.SYS_FSTAT,
		syscall.SYS_LSEEK, syscall.SYS_GETDENTS64, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FTRUNCATE, syscall.SYS_FCHMOD,
		syscall.SYS_FCHOWN, syscall.SYS_FCHDIR:
		f := k.fds[i(0)]
		if f == nil {
			if i(0) < fdBase && i(0) >= 0 {
				return r, false
			}
			r.op = "badfd"
			return r, true
		}
		r.path = f.path
		switch trap {
		case syscall.SYS_READ, syscall.SYS_PREAD64:
			r.op, r.n = "read", int(a[2])
		case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
			r.op, r.n = "write", int(a[2])
		case syscall.SYS_CLOSE:
			r.op = "close"
			if f.flags&syscall.O_ACCMODE != syscall.O_RDONLY {
				r.op = "closew"
			}
		case syscall.SYS_FSTAT:
			r.op = "fstat"
		case syscall.SYS_LSEEK:
			r.op = "lseek"
		case syscall.SYS_GETDENTS64:
			r.op = "readdir"
		case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
			r.op = "fsync"
		case syscall.SYS_FTRUNCATE:
			r.op = "truncate"
		case syscall.SYS_FCHMOD:
			r.op = "chmod"
		case syscall.SYS_FCHOWN:
			r.op = "chown"
		default:
			r.op = "other"
		}
	case syscall.SYS_NEWFSTATAT, sysStatx:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "stat"
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "stat"
	case syscall.SYS_ACCESS:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "access"
	case syscall.SYS_FACCESSAT, sysFaccessat2:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "access"
	case syscall.SYS_MKDIRAT:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "mkdir"
	case syscall.SYS_MKDIR:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "mkdir"
	case syscall.SYS_UNLINKAT:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "unlink"
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "unlink"
	case syscall.SYS_RENAME:
		r.path, r.path2, r.op = k.abs(atFdcwd, cstr(a[0])), k.abs(atFdcwd, cstr(a[1])), "rename"
	case syscall.SYS_RENAMEAT, sysRenameat2:
		r.path, r.path2, r.op = k.abs(i(0), cstr(a[1])), k.abs(i(2), cstr(a[3])), "rename"
	case syscall.SYS_LINKAT:
		r.path, r.path2, r.op = k.abs(i(0), cstr(a[1])), k.abs(i(2), cstr(a[3])), "link"
	case syscall.SYS_LINK:
		r.path, r.path2, r.op = k.abs(atFdcwd, cstr(a[0])), k.abs(atFdcwd, cstr(a[1])), "link"
	case syscall.SYS_SYMLINKAT:
		r.path, r.op = k.abs(i(1), cstr(a[2])), "symlink"
	case syscall.SYS_SYMLINK:
		r.path, r.op = k.abs(atFdcwd, cstr(a[1])), "symlink"
	case syscall.SYS_READLINKAT:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "readlink"
	case syscall.SYS_READLINK:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "readlink"
	case syscall.SYS_FCHMODAT, sysFchmodat2:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "chmod"
	case syscall.SYS_CHMOD:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "chmod"
	case syscall.SYS_FCHOWNAT:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "chown"
	case syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "chown"
	case syscall.SYS_MKNODAT:
		r.path, r.op = k.abs(i(0), cstr(a[1])), "mknod"
	case syscall.SYS_MKNOD:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "mknod"
	case syscall.SYS_UTIMENSAT:
		if a[1] == 0 {
			f := k.fds[i(0)]
			if f != nil {
				r.path = f.path
			}
		} else {
			r.path = k.abs(i(0), cstr(a[1]))
		}
		r.op = "utimes"
	case syscall.SYS_TRUNCATE:
		r.path, r.op = k.abs(atFdcwd, cstr(a[0])), "truncate"
	case syscall.SYS_GETCWD, sysGetrandom, sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, syscall.SYS_FLOCK, syscall.SYS_FALLOCATE,
		sysOpenat2, syscall.SYS_SYNC, sysSyncfs, syscall.SYS_FADVISE64, syscall.SYS_FCNTL, syscall.SYS_UMASK:
		r.op = "other"
	case syscall.SYS_SETXATTR, syscall.SYS_LSETXATTR, syscall.SYS_GETXATTR, syscall.SYS_LGETXATTR, syscall.SYS_REMOVEXATTR, syscall.SYS_LREMOVEXATTR,
		syscall.SYS_LISTXATTR, syscall.SYS_LLISTXATTR, syscall.SYS_FSETXATTR, syscall.SYS_FGETXATTR, syscall.SYS_FLISTXATTR, syscall.SYS_FREMOVEXATTR:
		r.op = "xattr"
	default:
		return r, false
	}
	return r, true
}

const (
	sysStatx         = 332
	sysFaccessat2    = 439
	sysRenameat2     = 316
	sysFchmodat2     = 452
	sysGetrandom     = 318
	sysCopyFileRange = 326
	sysOpenat2       = 437
	sysSyncfs        = 306
)

// do executes one system call. limit, if >= 0, bounds how many bytes a read or
// write moves.
func (k *kernel) do(r *sysReq, limit int, owner int) (uintptr, syscall.Errno) {
	k.calls++
	a := r.a
	i := func(n int) int { return int(int32(a[n])) }
	ok := func(e syscall.Errno) (uintptr, syscall.Errno) {
		if e != 0 {
			return ^uintptr(0), e
		}
		return 0, 0
	}
	okn := func(n int, e syscall.Errno) (uintptr, syscall.Errno) {
		if e != 0 {
			return ^uintptr(0), e
		}
		return uintptr(n), 0
	}
	switch r.trap {
	case syscall.SYS_OPENAT:
		return okn(k.open(i(0), cstr(a[1]), i(2), uint32(a[3]), owner))
	case syscall.SYS_OPEN:
		return okn(k.open(atFdcwd, cstr(a[0]), i(1), uint32(a[2]), owner))
	case syscall.SYS_CLOSE:
		if k.fds[i(0)] == nil {
			return ok(syscall.EBADF)
		}
		k.closeFd(i(0))
		return 0, 0
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		f := k.fds[i(0)]
		if f == nil || f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return ok(syscall.EBADF)
		}
		if f.node.isDir() {
			return ok(syscall.EISDIR)
		}
		off := f.off
		if r.trap == syscall.SYS_PREAD64 {
			off = int64(a[3])
		}
		if off < 0 {
			return ok(syscall.EINVAL)
		}
		b := buf(a[1], a[2])
		if limit >= 0 && limit < len(b) {
			b = b[:limit]
		}
		n := 0
		if off < int64(len(f.node.data)) {
			n = copy(b, f.node.data[off:])
		}
		if r.trap == syscall.SYS_READ {
			f.off += int64(n)
		}
		return uintptr(n), 0
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		f := k.fds[i(0)]
		if f == nil || f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return ok(syscall.EBADF)
		}
		off := f.off
		if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(f.node.data))
		} else if r.trap == syscall.SYS_PWRITE64 {
			off = int64(a[3])
		}
		b := buf(a[1], a[2])
		if limit >= 0 && limit < len(b) {
			b = b[:limit]
		}
		k.writeAt(f.node, b, off)
		if r.trap == syscall.SYS_WRITE {
			f.off = off + int64(len(b))
		}
		return uintptr(len(b)), 0
	case syscall.SYS_FSTAT:
		f := k.fds[i(0)]
		if f == nil {
			return ok(syscall.EBADF)
		}
		k.fillStat(f.node, (*syscall.Stat_t)(unsafe.Pointer(a[1])))
		return 0, 0
	case syscall.SYS_NEWFSTATAT:
		p := cstr(a[1])
		if p == "" && i(3)&atEmptyPath != 0 {
			f := k.fds[i(0)]
			if f == nil {
				return ok(syscall.EBADF)
			}
			k.fillStat(f.node, (*syscall.Stat_t)(unsafe.Pointer(a[2])))
			return 0, 0
		}
		n, e := k.lookup(i(0), p, i(3)&atSymlinkNofollow == 0)
		if e == 0 {
			k.fillStat(n, (*syscall.Stat_t)(unsafe.Pointer(a[2])))
		}
		return ok(e)
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		n, e := k.lookup(atFdcwd, cstr(a[0]), r.trap == syscall.SYS_STAT)
		if e == 0 {
			k.fillStat(n, (*syscall.Stat_t)(unsafe.Pointer(a[1])))
		}
		return ok(e)
	case syscall.SYS_ACCESS:
		_, e := k.lookup(atFdcwd, cstr(a[0]), true)
		return ok(e)
	case syscall.SYS_FACCESSAT, sysFaccessat2:
		_, e := k.lookup(i(0), cstr(a[1]), true)
		return ok(e)
	case syscall.SYS_LSEEK:
		f := k.fds[i(0)]
		if f == nil {
			return ok(syscall.EBADF)
		}
		var o int64
		switch i(2) {
		case 0:
			o = int64(a[1])
		case 1:
			o = f.off + int64(a[1])
		case 2:
			o = int64(len(f.node.data)) + int64(a[1])
		default:
			return ok(syscall.EINVAL)
		}
		if o < 0 {
			return ok(syscall.EINVAL)
		}
		f.off = o
		if f.node.isDir() && o == 0 {
			f.gotDir = false
		}
		return uintptr(o), 0
	case syscall.SYS_GETDENTS64:
		f := k.fds[i(0)]
		if f == nil {
			return ok(syscall.EBADF)
		}
		if !f.node.isDir() {
			return ok(syscall.ENOTDIR)
		}
		if !f.gotDir {
			f.gotDir = true
			f.names = f.names[:0]
			for n := range f.node.kids {
				f.names = append(f.names, n)
			}
			seed := k.dirSeed
			sort.Slice(f.names, func(x, y int) bool {
				hx, hy := hashStr(f.names[x], seed), hashStr(f.names[y], seed)
				if hx != hy {
					return hx < hy
				}
				return f.names[x] < f.names[y]
			})
		}
		b := buf(a[1], a[2])
		w := 0
		for len(f.names) > 0 {
			nm := f.names[0]
			n := f.node.kids[nm]
			if n == nil {
				f.names = f.names[1:]
				continue
			}
			rl := (19 + len(nm) + 1 + 7) &^ 7
			if w+rl > len(b) {
				break
			}
			e := b[w : w+rl]
			clear(e)
			*(*uint64)(unsafe.Pointer(&e[0])) = n.ino
			*(*int64)(unsafe.Pointer(&e[8])) = 1
			*(*uint16)(unsafe.Pointer(&e[16])) = uint16(rl)
			e[18] = byte(n.mode >> 12)
			copy(e[19:], nm)
			w += rl
			f.names = f.names[1:]
		}
		return uintptr(w), 0
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_SYNC, sysSyncfs, syscall.SYS_FADVISE64, syscall.SYS_FLOCK, syscall.SYS_UMASK:
		return 0, 0
	case syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE:
		var n *inode
		if r.trap == syscall.SYS_FTRUNCATE {
			f := k.fds[i(0)]
			if f == nil {
				return ok(syscall.EBADF)
			}
			if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
				return ok(syscall.EINVAL)
			}
			n = f.node
		} else {
			var e syscall.Errno
			if n, e = k.lookup(atFdcwd, cstr(a[0]), true); e != 0 {
				return ok(e)
			}
		}
		if int64(a[1]) <= int64(len(n.data)) {
			n.data = n.data[:a[1]:a[1]]
		} else {
			k.writeAt(n, make([]byte, int(a[1])-len(n.data)), int64(len(n.data)))
		}
		n.mtime = simWall()
		return 0, 0
	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		fd, p, m := atFdcwd, a[0], a[1]
		if r.trap == syscall.SYS_MKDIRAT {
			fd, p, m = i(0), a[1], a[2]
		}
		s := cstr(p)
		st, e := k.at(fd, s)
		if e != 0 {
			return ok(e)
		}
		dir, name, n, e := k.walk(st, strings.TrimRight(s, "/"), false, 0)
		if strings.Trim(s, "/") == "" {
			return ok(syscall.EEXIST)
		}
		if e != 0 {
			return ok(e)
		}
		if n != nil {
			return ok(syscall.EEXIST)
		}
		if dir.nlink == 0 {
			return ok(syscall.ENOENT)
		}
		if !k.may(dir, 3) {
			return ok(syscall.EACCES)
		}
		n = k.newInode(syscall.S_IFDIR | uint32(m)&0o7777&^k.umask)
		n.parent = dir
		dir.kids[name] = n
		dir.mtime = simWall()
		return 0, 0
	case syscall.SYS_UNLINKAT:
		return ok(k.unlink(i(0), cstr(a[1]), i(2)))
	case syscall.SYS_UNLINK:
		return ok(k.unlink(atFdcwd, cstr(a[0]), 0))
	case syscall.SYS_RMDIR:
		return ok(k.unlink(atFdcwd, cstr(a[0]), atRemovedir))
	case syscall.SYS_RENAME:
		return ok(k.rename(atFdcwd, cstr(a[0]), atFdcwd, cstr(a[1]), 0))
	case syscall.SYS_RENAMEAT:
		return ok(k.rename(i(0), cstr(a[1]), i(2), cstr(a[3]), 0))
	case sysRenameat2:
		return ok(k.rename(i(0), cstr(a[1]), i(2), cstr(a[3]), i(4)))
	case syscall.SYS_LINKAT, syscall.SYS_LINK:
		ofd, nfd, op, np, fl := atFdcwd, atFdcwd, a[0], a[1], 0
		if r.trap == syscall.SYS_LINKAT {
			ofd, op, nfd, np, fl = i(0), a[1], i(2), a[3], i(4)
		}
		n, e := k.lookup(ofd, cstr(op), fl&atSymlinkFollow != 0)
		if e != 0 {
			return ok(e)
		}
		if n.isDir() {
			return ok(syscall.EPERM)
		}
		st, e := k.at(nfd, cstr(np))
		if e != 0 {
			return ok(e)
		}
		dir, name, x, e := k.walk(st, cstr(np), false, 0)
		if e != 0 {
			return ok(e)
		}
		if x != nil {
			return ok(syscall.EEXIST)
		}
		if !k.may(dir, 3) {
			return ok(syscall.EACCES)
		}
		dir.kids[name] = n
		n.nlink++
		return 0, 0
	case syscall.SYS_SYMLINKAT, syscall.SYS_SYMLINK:
		fd, tgt, np := atFdcwd, a[0], a[1]
		if r.trap == syscall.SYS_SYMLINKAT {
			fd, np = i(1), a[2]
		}
		st, e := k.at(fd, cstr(np))
		if e != 0 {
			return ok(e)
		}
		if cstr(tgt) == "" {
			return ok(syscall.ENOENT)
		}
		dir, name, x, e := k.walk(st, cstr(np), false, 0)
		if e != 0 {
			return ok(e)
		}
		if x != nil {
			return ok(syscall.EEXIST)
		}
		if !k.may(dir, 3) {
			return ok(syscall.EACCES)
		}
		n := k.newInode(syscall.S_IFLNK | 0o777)
		n.link = cstr(tgt)
		n.parent = dir
		dir.kids[name] = n
		dir.mtime = simWall()
		return 0, 0
	case syscall.SYS_READLINKAT, syscall.SYS_READLINK:
		fd, p, b, bl := atFdcwd, a[0], a[1], a[2]
		if r.trap == syscall.SYS_READLINKAT {
			fd, p, b, bl = i(0), a[1], a[2], a[3]
		}
		n, e := k.lookup(fd, cstr(p), false)
		if e != 0 {
			return ok(e)
		}
		if !n.isLnk() {
			return ok(syscall.EINVAL)
		}
		return uintptr(copy(buf(b, bl), n.link)), 0
	case syscall.SYS_FCHMODAT, sysFchmodat2, syscall.SYS_CHMOD, syscall.SYS_FCHMOD:
		var n *inode
		var e syscall.Errno
		var m uintptr
		switch r.trap {
		case syscall.SYS_FCHMOD:
			f := k.fds[i(0)]
			if f == nil {
				return ok(syscall.EBADF)
			}
			n, m = f.node, a[1]
		case syscall.SYS_CHMOD:
			n, e = k.lookup(atFdcwd, cstr(a[0]), true)
			m = a[1]
		default:
			n, e = k.lookup(i(0), cstr(a[1]), true)
			m = a[2]
		}
		if e == 0 {
			n.mode = n.mode&syscall.S_IFMT | uint32(m)&0o7777
		}
		return ok(e)
	case syscall.SYS_FCHOWNAT, syscall.SYS_CHOWN, syscall.SYS_LCHOWN, syscall.SYS_FCHOWN:
		var n *inode
		var e syscall.Errno
		var u, g int
		switch r.trap {
		case syscall.SYS_FCHOWN:
			f := k.fds[i(0)]
			if f == nil {
				return ok(syscall.EBADF)
			}
			n, u, g = f.node, i(1), i(2)
		case syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
			n, e = k.lookup(atFdcwd, cstr(a[0]), r.trap == syscall.SYS_CHOWN)
			u, g = i(1), i(2)
		default:
			n, e = k.lookup(i(0), cstr(a[1]), i(4)&atSymlinkNofollow == 0)
			u, g = i(2), i(3)
		}
		if e == 0 && k.unpriv && (u != -1 && uint32(u) != n.uid || g != -1 && uint32(g) != n.gid) {
			e = syscall.EPERM
		}
		if e == 0 {
			if u != -1 {
				n.uid = uint32(u)
			}
			if g != -1 {
				n.gid = uint32(g)
			}
		}
		return ok(e)
	case syscall.SYS_MKNODAT, syscall.SYS_MKNOD:
		fd, p, m, d := atFdcwd, a[0], a[1], a[2]
		if r.trap == syscall.SYS_MKNODAT {
			fd, p, m, d = i(0), a[1], a[2], a[3]
		}
		st, e := k.at(fd, cstr(p))
		if e != 0 {
			return ok(e)
		}
		dir, name, x, e := k.walk(st, cstr(p), false, 0)
		if e != 0 {
			return ok(e)
		}
		if x != nil {
			return ok(syscall.EEXIST)
		}
		if !k.may(dir, 3) {
			return ok(syscall.EACCES)
		}
		mode := uint32(m)
		if mode&syscall.S_IFMT == 0 {
			mode |= syscall.S_IFREG
		}
		if t := mode & syscall.S_IFMT; k.unpriv && (t == syscall.S_IFCHR || t == syscall.S_IFBLK) {
			return ok(syscall.EPERM)
		}
		n := k.newInode(mode &^ k.umask)
		n.rdev = uint64(d)
		n.parent = dir
		dir.kids[name] = n
		return 0, 0
	case syscall.SYS_UTIMENSAT:
		var n *inode
		var e syscall.Errno
		if a[1] == 0 {
			f := k.fds[i(0)]
			if f == nil {
				return ok(syscall.EBADF)
			}
			n = f.node
		} else {
			n, e = k.lookup(i(0), cstr(a[1]), i(3)&atSymlinkNofollow == 0)
		}
		if e == 0 {
			if a[2] == 0 {
				n.mtime = simWall()
			} else {
				ts := (*[2]syscall.Timespec)(unsafe.Pointer(a[2]))
				switch ts[1].Nsec {
				case (1 << 30) - 2:
				case (1 << 30) - 1:
					n.mtime = simWall()
				default:
					n.mtime = ts[1].Nano()
				}
			}
		}
		return ok(e)
	case sysGetrandom:
		b := buf(a[0], a[1])
		for j := range b {
			b[j] = byte(hashStr("getrandom", uint64(k.calls)<<20|uint64(j)))
		}
		return uintptr(len(b)), 0
	case syscall.SYS_GETCWD:
		b := buf(a[0], a[1])
		copy(b, "/\x00")
		return 2, 0
	case syscall.SYS_FCNTL:
		f := k.fds[i(0)]
		if f == nil {
			return ok(syscall.EBADF)
		}
		if i(1) == syscall.F_GETFL {
			return uintptr(f.flags), 0
		}
		return 0, 0
	case sysStatx, sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, sysOpenat2, syscall.SYS_FALLOCATE:
		return ok(syscall.ENOSYS)
	}
	if r.op == "xattr" {
		return ok(syscall.ENOTSUP)
	}
	if r.op == "badfd" {
		return ok(syscall.EBADF)
	}
	fatal(fmt.Sprintf("unsupported system call %d", r.trap))
	return 0, 0
}

func hashStr(s string, seed uint64) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9e3779b97f4a7c15
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 32
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	return h
}

func simWall() int64 { return runtime.SimNano() + wallOffset }

var wallOffset int64
