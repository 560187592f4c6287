// Package zziface is the neutral vocabulary between the simulator and the
// instrumented copies of go-apk: every copy has its own Go types, so the
// harness talks to each of them through these.
package zziface

import (
	"archive/tar"
	"context"
	"io"
	"io/fs"
	"net/http"
	"time"
)

type File interface {
	fs.File
	io.WriteSeeker
	io.ReaderAt
}

// FS mirrors pkg/fs.FullFS.
type FS interface {
	Mkdir(path string, perm fs.FileMode) error
	MkdirAll(path string, perm fs.FileMode) error
	Open(name string) (fs.File, error)
	OpenReaderAt(name string) (File, error)
	OpenFile(name string, flag int, perm fs.FileMode) (File, error)
	ReadFile(name string) ([]byte, error)
	WriteFile(name string, b []byte, mode fs.FileMode) error
	ReadDir(name string) ([]fs.DirEntry, error)
	Mknod(path string, mode uint32, dev int) error
	Readnod(name string) (dev int, err error)
	Symlink(oldname, newname string) error
	Link(oldname, newname string) error
	Readlink(name string) (target string, err error)
	Stat(path string) (fs.FileInfo, error)
	Lstat(path string) (fs.FileInfo, error)
	Create(name string) (File, error)
	Remove(name string) error
	Chmod(path string, perm fs.FileMode) error
	Chown(path string, uid int, gid int) error
	SetXattr(path string, attr string, data []byte) error
	GetXattr(path string, attr string) ([]byte, error)
	RemoveXattr(path string, attr string) error
	ListXattrs(path string) (map[string][]byte, error)
}

// HeaderFS is an FS that takes whole tar entries (apk.WriteHeaderer).
type HeaderFS interface {
	FS
	WriteHeader(hdr tar.Header, tfs fs.FS, pkgName string) (bool, error)
}

type Auth struct{ Domain, User, Pass string }

type Opts struct {
	FS          FS
	Arch        string
	Cache       string
	Offline     bool
	NoSigIdx    []string
	IgnoreMknod bool
	Auth        []Auth
	Client      *http.Client
}

// Pkg is a reference to a package in a repository. It satisfies the module's
// InstallablePackage interface as it is.
type Pkg struct {
	Name, Version, Arch string
	Checksum            []byte
	Sum                 string // ChecksumString
	Repo                string // base URL including the architecture
	Link                string // URL
}

func (p *Pkg) URL() string            { return p.Link }
func (p *Pkg) PackageName() string    { return p.Name }
func (p *Pkg) ChecksumString() string { return p.Sum }
func (p *Pkg) String() string         { return p.Name + "-" + p.Version }

type Resolved struct {
	Pkg                        string
	Version                    string
	SigSize, CtlSize, DataSize int
	Sig, Ctl, Data             []byte
}

type Info struct {
	Name, Version, Arch, Description, Origin, URL string
	Checksum                                      []byte
	Deps, Provides, Replaces                      []string
	Size, InstalledSize                           uint64
	BuildDate                                     int64
	DataHash                                      string
	InstallIf                                     []string
	Priority                                      uint64
	Files                                         []tar.Header
}

type Index struct {
	Name, Source string
	Pkgs         []Info
	Native       any
}

type Expanded struct {
	Size                                             int64
	Signed                                           bool
	SignatureFile, ControlFile, PackageFile, TarFile string
	ControlHash, PackageHash                         []byte
	ControlFS, TarFS                                 fs.FS
	Close                                            func() error
	APK                                              func() (io.ReadCloser, error)
	ControlData                                      func() ([]byte, error)
}

type APK interface {
	InitDB(ctx context.Context, versions ...string) error
	InitKeyring(ctx context.Context, keys, extra []string) error
	SetRepositories(ctx context.Context, r []string) error
	GetRepositories() ([]string, error)
	SetWorld(ctx context.Context, p []string) error
	GetWorld() ([]string, error)
	GetRepositoryIndexes(ctx context.Context, ignore bool) ([]Index, error)
	ResolveWorld(ctx context.Context) ([]*Pkg, []string, error)
	CalculateWorld(ctx context.Context, pkgs []*Pkg) ([]Resolved, error)
	ResolveAndCalculateWorld(ctx context.Context) ([]Resolved, error)
	FixateWorld(ctx context.Context, epoch *time.Time) error
	InstallPackages(ctx context.Context, epoch *time.Time, pkgs []*Pkg) error
	FetchPackage(ctx context.Context, p *Pkg) (io.ReadCloser, error)
	GetInstalled() ([]Info, error)
	AddInstalled(i Info) error
}

type IndexOpts struct {
	IgnoreSignatures bool
	NoSigIdx         []string
	Client           *http.Client
	Auth             []Auth
}

type TarOpts struct {
	Epoch     time.Time
	Checksums bool
	SkipClose bool
	Owner     bool
	IDs       []int // override these alone
	Remap     map[int]int // user and group numbers
	RemapG    map[int]int // groups, when they differ
	Perms     []tar.Header
	Uname     string
	Gname     string
	Archive   bool // the older WriteArchive
}

type APKFS interface {
	Open(path string) (fs.File, error)
	Stat(path string) (fs.FileInfo, error)
	ReadDir(path string) ([]fs.DirEntry, error)
	Close() error
}

// Proc is one simulated process: one copy of the module with its own
// package-level state.
type Proc interface {
	NewMemFS() FS
	DirFS(dir string, caseSensitive, create bool) FS
	DirFSDetect(dir string) FS // finds out about case, creates
	New(o Opts) (APK, error)
	GetRepositoryIndexes(ctx context.Context, repos []string, keys map[string][]byte, arch string, o IndexOpts) ([]Index, error)
	IndexFromArchive(r io.ReadCloser) (Index, error)
	ExpandApk(ctx context.Context, r io.Reader, dir string) (*Expanded, error)
	ResolveApk(ctx context.Context, r io.Reader) (*Resolved, error)
	ParsePackage(ctx context.Context, r io.Reader) (*Info, error)
	NewAPKFS(ctx context.Context, path string, control bool) (APKFS, error)
	// Tar prepares writing archives with these options, any number of them.
	Tar(o TarOpts) (func(ctx context.Context, dst io.Writer, src, users fs.FS, gz bool) error, error)
	SignIndex(ctx context.Context, key, file string) error
	ParseInstalled(r io.Reader) ([]Info, error)
	Resolve(ctx context.Context, idx []Index, pkgs []string) ([]*Pkg, []string, error)
	UserFile(fsys FS, path string, create bool) (string, error)
	GroupFile(fsys FS, path string, create bool) (string, error)
	AddUser(fsys FS, path, line string) error // reads or creates, appends, writes
	AddGroup(fsys FS, path, line string) error
}
