package main

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// The memfs scenario (C18): clients of one in-memory file system; the history
// must be linearizable with respect to the model of an ordinary tree. The
// dirfs scenario (C19): sessions on a directory-backed file system with disk
// faults and crashes in between, against the same model.

func init() {
	scenarios["memfs"] = scenario{genMemFS, runMemFS}
	scenarios["dirfs"] = scenario{genDirFS, runDirFS}
	propScenarios["C18"] = append(propScenarios["C18"], weighted{"memfs", 10})
	propScenarios["C19"] = append(propScenarios["C19"], weighted{"dirfs", 10})
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"memfs", 1})
	classes("C18", "not-linearizable")
	classes("C19", "visible", "reopened", "refused")
	classes("C18", "no-progress")
}

func fopOf(o *Op) *fop {
	f := &fop{kind: o.Do, p: o.A, q: o.B, n: int(o.N), mode: fs.FileMode(uint32(o.M)), slot: fmt.Sprintf("%d.%d", o.Client, o.M>>40)}
	if len(o.L) > 0 {
		f.body = o.L[0]
	}
	return f
}

// fileSys performs fops on the file system under test.
type fileSys struct {
	f       zi.FS
	handles map[string]zi.File
	closed  map[string]bool   // handles that are used although they are closed
	lost    func(slot string) // closing a handle failed
}

func res(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func kindOf(m fs.FileMode) byte {
	switch {
	case m&fs.ModeDir != 0:
		return 'd'
	case m&fs.ModeSymlink != 0:
		return 'l'
	case m&fs.ModeDevice != 0:
		return 'c'
	case m&fs.ModeType == 0:
		return '-'
	}
	return '?'
}

func descInfo(fi fs.FileInfo) string {
	k := kindOf(fi.Mode())
	if fi.IsDir() != (k == 'd') {
		return fmt.Sprintf("contradictory %v IsDir=%v", fi.Mode(), fi.IsDir())
	}
	switch k {
	case 'l':
		return "l"
	case '-':
		return fmt.Sprintf("- %v %d", perm(fi.Mode()), fi.Size())
	}
	return fmt.Sprintf("%c %v", k, perm(fi.Mode()))
}

// drop closes a handle that nobody closed.
func (s *fileSys) drop(slot string) {
	if h := s.handles[slot]; h != nil {
		if !s.closed[slot] {
			if err := h.Close(); err != nil && s.lost != nil {
				s.lost(slot)
			}
		}
		delete(s.handles, slot)
		delete(s.closed, slot)
	}
}

// scribble overwrites what belongs to the caller once a call is over; nothing
// the file system holds may change with it.
func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

func (s *fileSys) do(o *fop) (string, error) {
	r, err := s.do1(o)
	if err != nil {
		return "err", err
	}
	return r, nil
}

func (s *fileSys) do1(o *fop) (string, error) {
	f := s.f
	switch o.kind {
	case "mkdir":
		return "ok", f.Mkdir(o.p, o.mode)
	case "mkdirall":
		return "ok", f.MkdirAll(o.p, o.mode)
	case "write":
		b := []byte(o.body)
		defer scribble(b)
		return "ok", f.WriteFile(o.p, b, o.mode)
	case "read":
		b, err := f.ReadFile(o.p)
		defer scribble(b)
		return "ok " + string(b), err
	case "oread":
		// As a whole file, through Open.
		var h fs.File
		var err error
		if o.n == 1 {
			h, err = f.OpenReaderAt(o.p)
		} else {
			h, err = f.Open(o.p)
		}
		if err != nil {
			return "", err
		}
		b, err := io.ReadAll(h)
		if cerr := h.Close(); err == nil {
			err = cerr
		}
		return "ok " + string(b), err
	case "readdir":
		des, err := f.ReadDir(o.p)
		if err != nil {
			return "", err
		}
		var l []string
		for i, d := range des {
			if i > 0 && des[i-1].Name() >= d.Name() {
				return "not sorted: " + des[i-1].Name() + ", " + d.Name(), nil
			}
			fi, err := d.Info()
			if err != nil {
				return "", err
			}
			x := d.Name() + " " + descInfo(fi)
			if d.IsDir() != fi.IsDir() || d.Type() != fi.Mode().Type() {
				x += " contradictory entry"
			}
			l = append(l, x)
		}
		sort.Strings(l)
		return "ok " + strings.Join(l, ", "), nil
	case "stat", "lstat":
		g := f.Stat
		if o.kind == "lstat" {
			g = f.Lstat
		}
		fi, err := g(o.p)
		if err != nil {
			return "", err
		}
		uid, gid := ownerOf(fi)
		return fmt.Sprintf("ok %s %d:%d", descInfo(fi), uid, gid), nil
	case "remove":
		return "ok", f.Remove(o.p)
	case "symlink":
		return "ok", f.Symlink(o.q, o.p)
	case "link":
		return "ok", f.Link(o.q, o.p)
	case "readlink":
		t, err := f.Readlink(o.p)
		return "ok " + t, err
	case "mknod":
		return "ok", f.Mknod(o.p, uint32(o.mode.Perm())|0o020000, o.n)
	case "readnod":
		d, err := f.Readnod(o.p)
		return fmt.Sprintf("ok %d", d), err
	case "chmod":
		return "ok", f.Chmod(o.p, o.mode)
	case "chown":
		return "ok", f.Chown(o.p, o.n, o.n+1)
	case "setx":
		b := []byte(o.body)
		defer scribble(b)
		return "ok", f.SetXattr(o.p, o.q, b)
	case "rmx":
		return "ok", f.RemoveXattr(o.p, o.q)
	case "getx":
		b, err := f.GetXattr(o.p, o.q)
		defer scribble(b)
		return "ok " + string(b), err
	case "lsx":
		m, err := f.ListXattrs(o.p)
		var l []string
		for _, k := range sortedKeys(m) {
			l = append(l, k+"="+string(m[k]))
			defer scribble(m[k])
			delete(m, k)
		}
		return "ok " + strings.Join(l, ","), err
	case "open":
		s.drop(o.slot)
		var h zi.File
		var err error
		switch {
		case o.n&viaOpen != 0:
			var g fs.File
			if g, err = f.Open(o.p); err == nil {
				h = g.(zi.File)
			}
		case o.n&viaReaderAt != 0:
			h, err = f.OpenReaderAt(o.p)
		default:
			h, err = f.OpenFile(o.p, o.n, o.mode)
		}
		if err != nil {
			return "", err
		}
		s.handles[o.slot] = h
		return "ok", nil
	}
	h := s.handles[o.slot]
	if h == nil {
		return "nohandle", nil
	}
	switch o.kind {
	case "hread":
		b := make([]byte, o.n)
		n, err := h.Read(b)
		if err == io.EOF && n == 0 {
			return "EOF", nil
		}
		return "ok " + string(b[:n]), err
	case "hreadat":
		b := make([]byte, 8)
		n, err := h.ReadAt(b, int64(o.n))
		if err == io.EOF {
			if n == 0 {
				return "EOF", nil
			}
			err = nil
		} else if err == nil && n < len(b) {
			err = errors.New("short ReadAt")
		}
		return "ok " + string(b[:n]), err
	case "hwrite":
		b := []byte(o.body)
		defer scribble(b)
		n, err := h.Write(b)
		if err == nil && n != len(o.body) {
			err = io.ErrShortWrite
		}
		return "ok", err
	case "hseek":
		n, err := h.Seek(int64(o.n), io.SeekStart)
		if err == nil && n != int64(o.n) {
			return fmt.Sprintf("Seek returned %d", n), nil
		}
		return "ok", err
	case "hstat":
		fi, err := h.Stat()
		if err != nil {
			return "", err
		}
		return "ok " + descInfo(fi), nil
	case "hclose":
		s.closed[o.slot] = true
		return "ok", h.Close()
	}
	panic("fop " + o.kind)
}

// Other ways to open a file for reading.
const (
	viaOpen     = 1 << 24
	viaReaderAt = 1 << 25
)

// ---- C18 -------------------------------------------------------------------------------

var memDirs = []string{"a", "a/b", "c"}
var memFiles = []string{"a/f0", "a/f1", "a/b/f2", "c/f0", "f3", "a/f0/x", "ld/f0", "lr/f2"}
var memEnts = []string{"a/f0", "a/f1", "a/b/f2", "c/f0", "f3", "c/r0", "a/r1", "c/l0", "a/l1", "a/b/l2", "c/k0", "a/f0/x"}
var memLinks = []string{"c/l0", "a/l1", "a/b/l2"}
var memTargets = []string{"/a/f0", "../a/f1", "f2", "../c/l0", "/a/l1", "../../f3", "/c/nowhere", "l2", "/../a/f1", "./f2"}

func genFop(r *rng, o *Op, dir bool) {
	file := func() string {
		if r.p(0.15) {
			return memLinks[r.intn(len(memLinks))]
		}
		p := memFiles[r.intn(len(memFiles))]
		if dir && r.p(0.9) && p == "a/f0/x" {
			p = "a/f0"
		}
		return p
	}
	ent := func() string { return memEnts[r.intn(len(memEnts))] }
	mode := func() int64 {
		m := pickOf[fs.FileMode](r, 0o644, 0o755, 0o600, 0o444, 0o777, 0o4755&0o777|fs.ModeSetuid, 0o640)
		return int64(m)
	}
	body := func() []string {
		return []string{strings.Repeat(string(rune('a'+r.intn(26))), r.intn(12)) + fmt.Sprint(r.intn(100))}
	}
	slot := int64(r.intn(2)) << 40
	switch r.pick(6, 4, 10, 8, 6, 5, 3, 9, 5, 4, 3, 2, 2, 5, 3, 2, 1, 2, 2, 7, 3, 2, 6, 2, 2, 2, 3) {
	case 0:
		o.Do, o.A, o.M = "mkdir", pickOf(r, "a", "a/b", "c", "c/r0", "a/r1", "f3"), int64(pickOf[fs.FileMode](r, 0o755, 0o700, 0o711))
	case 1:
		o.Do, o.A, o.M = "mkdirall", pickOf(r, "a/b", "c/r0", "a", "a/b/q/w", "a/f0", "c", "/a/b"), int64(pickOf[fs.FileMode](r, 0o755, 0o700))
	case 2:
		o.Do, o.A, o.M, o.L = "write", file(), mode(), body()
	case 3:
		o.Do, o.A = "read", file()
	case 4:
		o.Do, o.A = "readdir", pickOf(r, "a", "a/b", "c", ".", "/")
	case 5:
		o.Do, o.A = "stat", ent()
	case 6:
		o.Do, o.A = "lstat", ent()
	case 7:
		o.Do, o.A = "remove", ent()
	case 8:
		o.Do, o.A, o.B = "symlink", pickOf(r, "c/l0", "a/l1", "a/b/l2", "ld", "lr", "f3", "a/f0/x"), memTargets[r.intn(len(memTargets))]
		if o.A == "ld" {
			o.B = pickOf(r, "/a", "a", "c")
		}
		if o.A == "lr" {
			o.B = "a/b"
		}
	case 9:
		o.Do, o.A, o.B = "link", pickOf(r, "c/k0", "a/f1", "f3", "a/b/f2", "a/f0/x"), pickOf(r, "a/f0", "a/f1", "c/l0", "f3", "ld/f0")
	case 10:
		o.Do, o.A = "readlink", pickOf(r, "c/l0", "a/l1", "a/b/l2", "f3", "ld")
	case 11:
		o.Do, o.A, o.N, o.M = "mknod", pickOf(r, "c/k0", "f3", "a/r1", "a/f0/x"), 0x501+int64(r.intn(3)), 0o644
	case 12:
		o.Do, o.A = "readnod", pickOf(r, "c/k0", "f3", "a/r1")
	case 13:
		o.Do, o.A, o.M = "chmod", pickOf(r, "a/f0", "a", "c/f0", "f3", "a/b/f2", "c/r0"), mode()
	case 14:
		o.Do, o.A, o.N = "chown", pickOf(r, "a/f0", "a", "c/f0", "f3"), int64(r.intn(50))
	case 15:
		o.Do, o.A, o.B, o.L = "setx", pickOf(r, "a/f0", "a", "f3"), pickOf(r, "user.a", "user.b"), body()
	case 16:
		o.Do, o.A, o.B = "rmx", pickOf(r, "a/f0", "a", "f3"), pickOf(r, "user.a", "user.b")
	case 17:
		o.Do, o.A, o.B = "getx", pickOf(r, "a/f0", "a", "f3"), pickOf(r, "user.a", "user.b")
	case 18:
		o.Do, o.A = "lsx", pickOf(r, "a/f0", "a", "f3")
	case 19:
		fl := pickOf(r, os.O_RDONLY, os.O_RDWR, os.O_RDWR|os.O_CREATE, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, os.O_WRONLY|os.O_CREATE|os.O_EXCL, os.O_WRONLY|os.O_APPEND, os.O_RDWR|os.O_APPEND|os.O_CREATE)
		o.Do, o.A, o.N, o.M = "open", file(), int64(fl), mode()|slot
	case 20:
		o.Do, o.N, o.M = "hread", int64(1+r.intn(10)), slot
	case 21:
		o.Do, o.N, o.M = "hreadat", int64(r.intn(pickOf(r, 10, 25))), slot
	case 22:
		o.Do, o.M, o.L = "hwrite", slot, body()
	case 23:
		o.Do, o.N, o.M = "hseek", int64(r.intn(pickOf(r, 10, 25))), slot
	case 24:
		o.Do, o.M = "hstat", slot
	case 25:
		o.Do, o.M = "hclose", slot
	case 26:
		o.Do, o.A, o.N = "oread", file(), int64(r.intn(2))
	}
}

// genBurst makes a few operations that belong together.
func genBurst(r *rng, add func(func(*Op))) int {
	body := func() []string {
		return []string{strings.Repeat(string(rune('a'+r.intn(26))), 1+r.intn(12))}
	}
	file := pickOf(r, "a/f0", "a/f1", "f3", "a/b/f2")
	switch r.intn(6) {
	case 5:
		// A handle is used although it is closed.
		slot := int64(r.intn(2)) << 40
		add(func(o *Op) {
			o.Do, o.A, o.N, o.M = "open", file, int64(pickOf(r, os.O_RDONLY, os.O_RDWR, os.O_RDWR|os.O_CREATE)), 0o644|slot
		})
		add(func(o *Op) { o.Do, o.M = "hclose", slot })
		n := 1 + r.intn(3)
		for i := 0; i < n; i++ {
			add(func(o *Op) {
				o.M = slot
				switch r.intn(6) {
				case 0:
					o.Do, o.N = "hread", int64(1+r.intn(20))
				case 1:
					o.Do, o.N = "hreadat", int64(r.intn(10))
				case 2:
					o.Do, o.N = "hseek", int64(r.intn(10))
				case 3:
					o.Do, o.L = "hwrite", body()
				case 4:
					o.Do = "hstat"
				case 5:
					o.Do = "hclose"
				}
			})
		}
		return n + 1
	case 0:
		// One handle moves about in its file.
		slot := int64(r.intn(2)) << 40
		add(func(o *Op) {
			o.Do, o.A, o.N, o.M = "open", file, int64(pickOf(r, os.O_RDWR, os.O_RDWR|os.O_CREATE, os.O_RDWR|os.O_APPEND|os.O_CREATE, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)), 0o644|slot
		})
		n := 2 + r.intn(4)
		for i := 0; i < n; i++ {
			switch r.intn(5) {
			case 0, 1:
				add(func(o *Op) { o.Do, o.N, o.M = "hseek", int64(r.intn(25)), slot })
			case 2, 3:
				add(func(o *Op) { o.Do, o.M, o.L = "hwrite", slot, body() })
			case 4:
				add(func(o *Op) { o.Do, o.N, o.M = "hread", int64(1+r.intn(20)), slot })
			}
		}
		add(func(o *Op) { o.Do, o.A = "read", file })
		return n + 1
	case 1:
		// A name appears before another one goes.
		a, b := "a/f0", "a/f1"
		if r.p(0.5) {
			a, b = b, a
		}
		if r.p(0.5) {
			add(func(o *Op) { o.Do, o.A, o.M, o.L = "write", a, 0o644, body() })
		}
		add(func(o *Op) { o.Do, o.A, o.M, o.L = "write", b, 0o644, body() })
		add(func(o *Op) { o.Do, o.A = "remove", a })
		return 2
	case 2:
		// Attributes come and go.
		f := pickOf(r, "a/f0", "a/f0", "a", "f3")
		add(func(o *Op) { o.Do, o.A, o.B, o.L = "setx", f, "user.a", body() })
		if r.p(0.4) {
			add(func(o *Op) { o.Do, o.A, o.B, o.L = "setx", f, pickOf(r, "user.a", "user.b"), body() })
		}
		add(func(o *Op) {
			o.Do, o.A, o.B = pickOf(r, "rmx", "rmx", "getx"), f, pickOf(r, "user.a", "user.a", "user.b")
		})
		add(func(o *Op) { o.Do, o.A, o.B = pickOf(r, "lsx", "getx"), f, "user.a" })
		return 2
	case 3:
		// Two names of one file.
		k := pickOf(r, "c/k0", "a/f1", "f3")
		add(func(o *Op) { o.Do, o.A, o.B = "link", k, file })
		n := 1 + r.intn(4)
		for i := 0; i < n; i++ {
			x := pickOf(r, file, k)
			switch r.intn(6) {
			case 0:
				add(func(o *Op) { o.Do, o.A, o.M, o.L = "write", x, 0o600, body() })
			case 1:
				add(func(o *Op) { o.Do, o.A, o.M = "chmod", x, int64(pickOf[fs.FileMode](r, 0o600, 0o755)) })
			case 2:
				add(func(o *Op) { o.Do, o.A, o.N = "chown", x, int64(r.intn(50)) })
			case 3:
				add(func(o *Op) { o.Do, o.A = "remove", x })
			default:
				add(func(o *Op) { o.Do, o.A = pickOf(r, "read", "stat"), x })
			}
		}
		return n
	default:
		// The same directory, again and again.
		d := pickOf(r, "a", "a", "/", "a/b")
		n := 2 + r.intn(3)
		for i := 0; i < n; i++ {
			add(func(o *Op) { o.Do, o.A = "readdir", d })
		}
		return n - 1
	}
}

func genMemFS(r *rng, p *Plan) {
	p.Sched.Gap = pickOf(r, 2, 5, 10, 25, 60)
	p.Sched.PSys = 0
	if p.Sched.Policy == 0 {
		p.Sched.Policy = 1
	}
	clients := 2 + r.intn(3)
	// A beginning that gives the operations something to work on.
	add := func(st, c int, f func(*Op)) {
		o := Op{Stage: st, Client: c, Node: 1}
		f(&o)
		p.Ops = append(p.Ops, o)
	}
	for _, d := range memDirs {
		if r.p(0.8) {
			add(0, 0, func(o *Op) { o.Do, o.A, o.M = "mkdirall", d, 0o755 })
		}
	}
	for i := 0; i < 1+r.intn(5); i++ {
		add(0, 0, func(o *Op) {
			o.Do, o.A, o.M, o.L = "write", memFiles[r.intn(len(memFiles))], 0o644, []string{fmt.Sprintf("start%d", i)}
		})
	}
	for i := 0; i < r.intn(3); i++ {
		add(0, 0, func(o *Op) { genFop(r, o, false) })
	}
	per := 1 + r.intn(18/clients)
	focus := r.p(0.4)
	bursts := r.p(0.3)
	for c := 0; c < clients; c++ {
		for i := 0; i < per; i++ {
			if bursts && r.p(0.4) {
				i += genBurst(r, func(f func(*Op)) { add(1, c, f) })
			}
			add(1, c, func(o *Op) {
				genFop(r, o, false)
				if focus && r.p(0.7) {
					// Everybody works on the same few names.
					switch o.A {
					case "a/f1", "a/b/f2", "c/f0", "f3", "c/k0":
						o.A = "a/f0"
					}
				}
			})
		}
	}
	// Look at everything.
	for _, d := range append([]string{"/"}, memDirs...) {
		add(2, 0, func(o *Op) { o.Do, o.A = "readdir", d })
	}
	for _, f := range memEnts {
		add(2, 0, func(o *Op) { o.Do, o.A = "read", f })
		add(2, 0, func(o *Op) { o.Do, o.A = "stat", f })
	}
	for _, f := range memLinks {
		add(2, 0, func(o *Op) { o.Do, o.A = "readlink", f })
	}
	for _, f := range []string{"a/f0", "a", "f3"} {
		add(2, 0, func(o *Op) { o.Do, o.A = "lsx", f })
	}
	// Others may write between an Open and a Read.
	var ops []Op
	for _, o := range p.Ops {
		if o.Do != "oread" {
			ops = append(ops, o)
			continue
		}
		n := int64(viaOpen)
		if o.N == 1 {
			n = viaReaderAt
		}
		o.Do, o.N, o.M = "open", n, 5<<40
		ops = append(ops, o)
		o.Do, o.A, o.N = "hread", "", 200
		ops = append(ops, o)
		o.Do, o.N = "hclose", 0
		ops = append(ops, o)
	}
	p.Ops = ops
}

type histOp struct {
	o      *fop
	s0, s1 int64
	res    string
	i      int
}

func (h *histOp) String() string {
	return fmt.Sprintf("[%d,%d] op %d %s %s %s %v %q n=%d slot %s -> %s", h.s0, h.s1, h.i, h.o.kind, h.o.p, h.o.q, h.o.mode, h.o.body, h.o.n, h.o.slot, h.res)
}

func runMemFS(p *Plan) {
	fsys := map[int]*fileSys{}
	inNode(1, func() {
		fsys[1] = &fileSys{f: adapters[0].NewMemFS(), handles: map[string]zi.File{}, closed: map[string]bool{}}
	})
	begin()
	results := make([]string, len(p.Ops))
	runs := runStages(p, func(t *task, r *opRun) {
		results[r.i], _ = fsys[1].do(fopOf(r.op))
	}, nil)
	var hist []*histOp
	for _, r := range runs {
		if r.started && r.done {
			hist = append(hist, &histOp{fopOf(r.op), r.s0, r.s1, results[r.i], r.i})
		}
	}
	sim.res.Evals++
	for _, h := range hist {
		noteState(h.res)
	}
	checkLinear(hist)
}

// checkLinear searches for an order of the operations that respects real time
// and in which the model gives every result that was observed.
func checkLinear(hist []*histOp) {
	sort.Slice(hist, func(i, j int) bool { return hist[i].s0 < hist[j].s0 })
	n := len(hist)
	done := make([]bool, n)
	seen := map[string]bool{}
	best := -1
	var bestWhy string
	budget := 300_000
	var rec func(k int, st *fstate) bool
	rec = func(k int, st *fstate) bool {
		if k == n {
			return true
		}
		if budget--; budget < 0 {
			return true
		}
		key := fmt.Sprint(done) + st.key()
		if seen[key] {
			return false
		}
		seen[key] = true
		// The earliest return among what is left bounds what may come next.
		minEnd := int64(1) << 62
		for i, d := range done {
			if !d && hist[i].s1 < minEnd {
				minEnd = hist[i].s1
			}
		}
		var why string
		for i, d := range done {
			if d {
				continue
			}
			if hist[i].s0 > minEnd {
				break
			}
			nx, r := st.apply(hist[i].o)
			if r != hist[i].res {
				why += fmt.Sprintf("\n  next could be %v but an ordinary tree answers %s", hist[i], r)
				continue
			}
			done[i] = true
			ok := rec(k+1, nx)
			done[i] = false
			if ok {
				return true
			}
		}
		if k > best {
			best = k
			var s strings.Builder
			for i, d := range done {
				if d {
					fmt.Fprintf(&s, "\n  %v", hist[i])
				}
			}
			bestWhy = s.String() + why
		}
		return false
	}
	if !rec(0, newFState()) {
		violate("not-linearizable", fmt.Sprintf("no order of the %d operations explains their results; at most %d can be ordered:%s", n, best, bestWhy))
	}
	if budget < 0 {
		probe("search-cut-short")
	} else {
		probe("search-complete")
	}
}

// ---- C19 ---------------------------------------------------------------------------------

var dirTargets = []string{"f0", "../a/f1", "f2", "../c/l0", "../f3", "nowhere", "l2", "../../f3", "/a/f0", "/c/f0", "/c/l0", "/etc/abs", "../../../a/b/f2", "/", "../../victim/f", "/f3", "/a/l1", "/a/nowhere", "./f0", "./../a/f1"}

// genDirConc makes clients that work at the same time, each in a directory of
// its own, and that read the same files. Nothing goes wrong on the disk.
func genDirConc(r *rng, p *Plan) {
	crashOff(p)
	p.Sched.Gap = pickOf(r, 2, 5, 10, 25, 60)
	p.Sched.PSys = pickOf(r, 0, 0.2, 0.5)
	if p.Sched.Policy == 0 {
		p.Sched.Policy = 1
	}
	p.P["conc"] = 1
	p.P["case"] = int64(r.pick(5, 1, 3))
	if p.P["case"] < 2 && r.p(0.5) {
		p.P["unpriv"] = 1
	}
	p.P["links"] = 1
	p.P["init"] = 2
	modes := []fs.FileMode{0o644, 0o200, 0, 0o600, 0o4755, 0o444}
	clients := 2 + r.intn(2)
	rounds := 1 + r.intn(2)
	if rounds > 1 {
		// Opened again, two names of a file are two files with the same content.
		p.P["links"] = 0
	}
	shared := pickOf(r, 0.1, 0.3, 0.7)
	for round := 0; round < rounds; round++ {
		one := func(o Op) {
			o.Stage, o.Node = 2*round, round+1
			p.Ops = append(p.Ops, o)
		}
		for c := 0; c < clients; c++ {
			for _, d := range []string{"a", "a/b", "c"} {
				one(Op{Do: "mkdirall", A: fmt.Sprintf("p%d/%s", c, d), M: 0o755})
			}
		}
		one(Op{Do: "mkdirall", A: "s", M: 0o755})
		if round == 0 {
			for i := 0; i < 2; i++ {
				one(Op{Do: "write", A: fmt.Sprintf("s/f%d", i), M: 0o644, L: []string{fmt.Sprintf("shared %d", i)}})
				one(Op{Do: "chmod", A: fmt.Sprintf("s/f%d", i), M: int64(modes[r.intn(len(modes))])})
			}
		}
		for c := 0; c < clients; c++ {
			n := 2 + r.intn(8)
			mine := false
			for i := 0; i < n; i++ {
				o := Op{}
				genFop(r, &o, true)
				pre := fmt.Sprintf("p%d", c)
				switch o.Do {
				case "symlink":
					o.B = dirTargets[r.intn(len(dirTargets))]
					if strings.Contains(o.B, "../..") || strings.Contains(o.B, "victim") || path.Dir(o.A) == "." && strings.Contains(o.B, "..") {
						o.B = "f0"
					}
					if o.A == "ld" {
						o.B = pickOf(r, "a", "c", "/a", "./a")
					}
					if path.IsAbs(o.B) {
						o.B = "/" + pre + o.B
					}
				case "link":
					if p.P["links"] == 0 {
						continue
					}
					o.B = path.Join(pre, o.B)
				case "mkdir", "mkdirall", "chmod":
					if o.Do != "chmod" || o.A == "a" || o.A == "c/r0" {
						o.M |= 0o700
					}
				}
				if o.Do[0] != 'h' {
					o.A = path.Join(pre, o.A)
					if p.P["case"] >= 2 && r.p(0.3) {
						o.A = path.Join(path.Dir(o.A), strings.ToUpper(path.Base(o.A)))
					}
				}
				if r.p(shared) {
					o = Op{Do: pickOf(r, "oread", "oread", "stat"), A: fmt.Sprintf("s/f%d", r.intn(2)), N: int64(r.intn(2))}
				}
				if p.P["case"] >= 2 && r.p(0.15) {
					// Everybody has a variant of one name.
					nm := []byte("shared")
					nm[c] -= 32
					o = Op{Do: "write", A: "s/" + string(nm), M: 0o644, L: []string{fmt.Sprintf("%s wrote %d", pre, i)}}
					if mine {
						o.Do = pickOf(r, "write", "read", "oread", "stat")
					}
					mine = true
				}
				o.Stage, o.Node, o.Client = 2*round+1, round+1, c
				p.Ops = append(p.Ops, o)
			}
		}
	}
}

func genDirFS(r *rng, p *Plan) {
	if r.p(0.25) {
		genDirConc(r, p)
		return
	}
	p.Sched.Gap, p.Sched.PSys = 0, 0
	// 0 sensitive, 1 sensitive and not told, 2 insensitive, 3 insensitive and not told.
	p.P["case"] = int64(r.pick(6, 3, 2, 1))
	if p.P["case"] < 2 && r.p(0.3) {
		p.P["unpriv"] = 1
	}
	sessions := 1 + r.intn(3)
	p.P["links"] = int64(r.intn(2))
	if sessions > 1 {
		p.P["links"] = 0
	}
	p.P["init"] = int64(r.u64() >> 2)
	p.Budget = r.intn(4)
	if r.p(0.75) {
		p.P["faultopen"] = int64(r.intn(2))
		faultRates(r, p, pickOf(r, 2.0, 6, 15), true, false)
		p.Rates["sys:write"] = 0.1 * r.f()
		p.Rates["sys:mknod"] = 0.1
		p.Rates["sys:link"] = 0.1
		p.Rates["act:EMFILE"] = 0.3
		p.Budget = r.intn(6)
		if r.p(0.4) {
			// One or two kinds of calls go wrong, often.
			p.Rates = map[string]float64{"act:EMFILE": 0.3}
			for i := 1 + r.intn(2); i > 0; i-- {
				p.Rates["sys:"+pickOf(r, "stat", "stat", "mkdir", "mknod", "symlink", "link", "chmod", "open", "create", "write", "closew", "unlink", "rmdir", "readdir", "read")] = pickOf(r, 0.05, 0.15, 0.4)
			}
		}
	}
	if r.p(0.3) {
		crashOn(r, p, 1)
	} else {
		crashOff(p)
	}
	p.Rates["act:short"] = 0 // a Read may be short
	if p.P["case"] >= 2 && r.p(0.4) {
		p.P["link"] = 1
	}
	for s := 0; s < sessions; s++ {
		p.P["faultstages"] |= 1 << uint(s)
		n := 2 + r.intn(10)
		if s == 0 {
			for _, d := range memDirs {
				if r.p(0.7) {
					p.Ops = append(p.Ops, Op{Stage: s, Node: 1, Do: "mkdirall", A: d, M: 0o755})
				}
			}
			if p.P["link"] != 0 {
				p.Ops = append(p.Ops, Op{Stage: s, Node: 1, Do: "symlink", A: "ld", B: pickOf(r, "a", "/a", "c", "./a")})
			}
		}
		bursts := r.p(0.4)
		var burst []Op
		for i := 0; i < n || len(burst) > 0; i++ {
			o := Op{Stage: s, Node: s + 1}
			if len(burst) > 0 {
				o, burst = burst[0], burst[1:]
				o.Stage, o.Node = s, s+1
			} else if bursts && r.p(0.3) {
				genBurst(r, func(f func(*Op)) {
					var x Op
					f(&x)
					burst = append(burst, x)
				})
				continue
			} else {
				genFop(r, &o, true)
			}
			switch o.Do {
			case "symlink":
				// Links lead from the root of the tree, not from that of the disk.
				o.B = dirTargets[r.intn(len(dirTargets))]
				if o.A == "ld" {
					o.B = pickOf(r, "a", "c", "/a", "../c", "/../a", "/", "./a")
				} else if o.A == "lr" {
					o.B = pickOf(r, "a/b", "/a/b", "../../a/b", "ld/b")
				}
			case "link":
				if p.P["links"] == 0 {
					continue
				}
			case "mkdir", "mkdirall", "chmod":
				// The tree stays readable.
				if p.P["unpriv"] == 0 || o.Do != "chmod" {
					o.M |= 0o400
				}
				if o.Do != "chmod" || o.A == "a" || o.A == "c/r0" {
					o.M |= 0o700
				}
			}
			if p.P["unpriv"] != 0 && o.Do == "chmod" && r.p(0.4) && o.A != "a" && o.A != "c/r0" {
				o.M = int64(pickOf[fs.FileMode](r, 0, 0o200, 0o311, 0o040))
			}
			if p.P["case"] >= 2 && p.P["link"] != 0 && strings.HasPrefix(o.A, "a/") && r.p(0.4) {
				o.A = "ld" + o.A[1:]
			}
			if p.P["case"] >= 2 && r.p(0.3) {
				switch o.Do {
				case "write", "read", "oread", "stat", "lstat", "open", "remove", "chmod", "mknod", "mkdir":
					o.A = path.Join(path.Dir(o.A), strings.ToUpper(path.Base(o.A)))
				}
			}
			p.Ops = append(p.Ops, o)
		}
	}
}

// dirRun follows one directory through its sessions.
type dirRun struct {
	p      *Plan
	st     *fstate // what must be there
	fsys   *fileSys
	loose  map[string]string // paths whose mode (m) or everything (*) is not certain
	modes  map[string]bool   // paths whose mode on disk has not been certain since
	first  map[string]string // which variant of a name is on disk
	memory map[string]bool   // what lives in memory only
}

// variants finds the names that differ only by case from one on disk.
func (d *dirRun) variants(st *fstate) {
	if d.p.P["case"] < 2 {
		return
	}
	t := st.tree()
	there := map[string]bool{}
	for p := range t {
		there[strings.ToLower(p)] = true
	}
	for k := range d.first {
		if !there[k] {
			delete(d.first, k)
		}
	}
	for _, p := range sortedKeys(t) {
		// What is in a directory that lives in memory does so too.
		k := strings.ToLower(p)
		if d.memory[path.Dir(p)] {
			d.memory[p] = true
			continue
		}
		if d.first[k] == "" {
			d.first[k] = p
		}
		if strings.EqualFold(p, "s/shared") {
			// Nobody knows who came first.
			d.memory[p] = true
			continue
		}
		d.memory[p] = d.first[k] != p || d.memory[p] && st.kindAt(p) == 'c'
	}
}

func (s *fstate) kindAt(p string) byte {
	if _, _, n, ok := s.find(p, false); ok && n >= 0 {
		return s.nodes[n].kind
	}
	return 0
}

func lookTree(f zi.FS) (map[string]string, error) {
	m := map[string]string{}
	var walk func(d string) error
	walk = func(d string) error {
		des, err := f.ReadDir(d)
		if err != nil {
			return fmt.Errorf("listing %s: %w", d, err)
		}
		for _, de := range des {
			q := path.Join(d, de.Name())
			fi, err := f.Lstat(q)
			if err != nil {
				return fmt.Errorf("lstat %s: %w", q, err)
			}
			k := kindOf(fi.Mode())
			if x := kindOf(de.Type()); x != k {
				return fmt.Errorf("%s is listed as %c and is %c", q, x, k)
			}
			switch k {
			case 'l':
				t, err := f.Readlink(q)
				if err != nil {
					return fmt.Errorf("readlink %s: %w", q, err)
				}
				m[q] = "l " + t
			case '-':
				b, err := readAll(f, q)
				if err != nil {
					return fmt.Errorf("reading %s: %w", q, err)
				}
				if fi.Size() != int64(len(b)) {
					return fmt.Errorf("%s has size %d and %d bytes", q, fi.Size(), len(b))
				}
				m[q] = fmt.Sprintf("- %v %s", perm(fi.Mode()), b)
			case 'c':
				d, err := f.Readnod(q)
				if err != nil {
					return fmt.Errorf("readnod %s: %w", q, err)
				}
				m[q] = fmt.Sprintf("c %v %d", perm(fi.Mode()), d)
			default:
				m[q] = fmt.Sprintf("%c %v", k, perm(fi.Mode()))
			}
			if k == 'd' {
				if err := walk(q); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return m, walk(".")
}

func readAll(f zi.FS, p string) ([]byte, error) {
	h, err := f.Open(p)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(h)
	if cerr := h.Close(); err == nil {
		err = cerr
	}
	return b, err
}

func openDirFS(pr zi.Proc, p *Plan) zi.FS {
	switch p.P["case"] {
	case 1, 3:
		return pr.DirFSDetect("/root")
	case 2:
		return pr.DirFS("/root", false, true)
	}
	return pr.DirFS("/root", true, true)
}

// loosen notes what an operation that failed or was interrupted may have
// changed all the same.
func (d *dirRun) loosen(o *fop) {
	switch o.kind {
	case "write", "open", "hwrite", "hclose":
		// The file that would have been written to, through links.
		p := o.p
		if o.kind[0] == 'h' {
			if h, ok := d.st.handles[o.slot]; ok {
				for _, q := range d.st.pathsOf(h.node) {
					d.loose[q] = "*"
				}
			}
			return
		}
		d.loose[path.Clean(p)] = "*"
		if q := d.st.realPath(p); q != "" {
			d.loose[q] = "*"
		}
		if _, _, n, ok := d.st.find(p, true); ok && n >= 0 {
			for _, q := range d.st.pathsOf(n) {
				d.loose[q] = "*"
			}
		}
	case "oread":
		// It may have had to change permissions to read.
		refused := d.st.unpriv
		for _, f := range sim.fired {
			refused = refused || f.Act == "EACCES"
		}
		if q := d.st.realPath(o.p); q != "" && d.loose[q] == "" && refused {
			d.loose[q], d.modes[q] = "m", true
		}
	case "mkdirall":
		ps := splitPath(o.p)
		base := ""
		for i := range ps {
			q := strings.Join(ps[:i+1], "/")
			if _, _, n, ok := d.st.find(q, true); !ok || n < 0 {
				d.loose[q] = "*"
				if x := d.st.realPath(q); x != "" {
					base = x
				} else {
					base = path.Join(base, ps[i])
				}
				d.loose[base] = "*"
			}
		}
	}
}

// pathsOf lists the names of a node.
func (s *fstate) pathsOf(n int) (out []string) {
	var walk func(i int, p string)
	walk = func(i int, p string) {
		for k, c := range s.nodes[i].kids {
			if c == n {
				out = append(out, path.Join(p, k))
			}
			if s.nodes[c].kind == 'd' {
				walk(c, path.Join(p, k))
			}
		}
	}
	walk(0, "")
	return
}

// direct is the name of something in a directory without links on the way.
func (s *fstate) direct(dir int, name string) string {
	if dir == 0 {
		return name
	}
	for _, q := range s.pathsOf(dir) {
		return path.Join(q, name)
	}
	return ""
}

// realPath is the name a path leads to when links are followed, also if there
// is nothing yet.
func (s *fstate) realPath(p string) string {
	dir, name, _, ok := s.find(p, true)
	if !ok {
		return ""
	}
	return s.direct(dir, name)
}

// diffTree compares two trees, ignoring what is loose.
func (d *dirRun) diffTree(got, want map[string]string, reopened bool) string {
	all := map[string]string{}
	for k, v := range got {
		all[k] = v
	}
	for k, v := range want {
		all[k] = v
	}
	for _, k := range sortedKeys(all) {
		if d.loose[k] == "*" || reopened && d.memory[k] {
			continue
		}
		g, w := got[k], want[k]
		if d.loose[k] == "m" {
			g, w = noMode(g), noMode(w)
		}
		if g != w {
			return fmt.Sprintf("%s is %q, want %q", k, g, w)
		}
	}
	return ""
}

func noMode(s string) string {
	f := strings.SplitN(s, " ", 3)
	if len(f) > 1 && f[0] != "l" {
		f[1] = "?"
	}
	return strings.Join(f, " ")
}

// fromTree makes a model state of what is seen.
func fromTree(m map[string]string) *fstate {
	s := newFState()
	s.strict = true
	for _, k := range sortedKeys(m) {
		v := m[k]
		n := &fnode{kind: v[0]}
		f := strings.SplitN(v, " ", 3)
		if n.kind == 'l' {
			n.target, n.mode = v[2:], 0o777
		} else {
			n.mode = parseMode(f[1])
			if n.kind == '-' {
				n.data = f[2]
			}
			if n.kind == 'c' {
				fmt.Sscan(f[2], &n.dev)
			}
		}
		dir, name, _, ok := s.find(k, false)
		if !ok {
			continue
		}
		s.edit(dir).kids[name] = s.add(n)
	}
	return s
}

func (d *dirRun) fromTree(m map[string]string) *fstate {
	s := fromTree(m)
	s.unpriv = sim.k.unpriv
	return s
}

func parseMode(s string) (m fs.FileMode) {
	i := len(s) - 9
	for j := 0; j < 9; j++ {
		if s[i+j] != '-' {
			m |= 1 << uint(8-j)
		}
	}
	for _, c := range s[:i] {
		switch c {
		case 'u':
			m |= fs.ModeSetuid
		case 'g':
			m |= fs.ModeSetgid
		case 't':
			m |= fs.ModeSticky
		}
	}
	return
}

func runDirFS(p *Plan) {
	sim.k.umask = 0
	sim.k.fold = p.P["case"] >= 2
	mkdirs("/tmp")
	d := &dirRun{p: p, loose: map[string]string{}, modes: map[string]bool{}, memory: map[string]bool{}, first: map[string]string{}}
	if p.P["init"]&1 != 0 {
		// A directory that has something in it already.
		r := newRng(uint64(p.P["init"]), "init")
		mkdirs("/root/a/b", "/root/c")
		for _, f := range []string{"a/f0", "a/b/f2", "c/f0", "f3"} {
			if r.p(0.5) {
				putFile("/root/"+f, []byte("old "+f))
				n, _ := sim.k.lookup(atFdcwd, "/root/"+f, false)
				n.mode = 0o100000 | pickOf[uint32](r, 0o644, 0o755, 0o600, 0o4755)
			}
		}
		if p.P["case"] < 2 && r.p(0.4) {
			n := sim.k.newInode(0o120777)
			n.link = "../a/f0"
			dirInode("/root/c").kids["l0"] = n
		}
	} else if p.P["init"]&2 != 0 {
		mkdirs("/root")
	}
	open := func(node int, f zi.FS) {
		inNode(node, func() {
			if f == nil {
				f = openDirFS(adapters[node-1], p)
			}
			if f == nil {
				fatal("DirFS returned nil")
			}
			d.fsys = &fileSys{f: f, handles: map[string]zi.File{}, closed: map[string]bool{}}
			d.fsys.lost = func(slot string) { d.loosen(&fop{kind: "hclose", slot: slot}) }
		})
	}
	look := func(node int) (t map[string]string) {
		inNode(node, func() {
			var err error
			if t, err = lookTree(d.fsys.f); err != nil {
				violate("visible", fmt.Sprintf("the tree cannot be read: %v", err))
				t = nil
			}
		})
		return
	}
	makeOutside()
	outside := outsideOf("/root", "/tmp")
	begin()
	stop := false
	cur := 0
	var last map[string]string
	tidy := func() {
		if n := sim.k.root.kids["root"]; n != nil {
			// How the case of names is found out, when that was interrupted.
			delete(n.kids, "test-dirfs-0")
		}
	}
	enter := func(node int, f zi.FS) {
		open(node, f)
		t := look(node)
		if t == nil {
			stop = true
			return
		}
		if d.st == nil {
			d.st = d.fromTree(t)
			if p.P["init"]&3 == 0 && len(t) > 0 {
				violate("reopened", fmt.Sprintf("a directory just created holds %v", sortedKeys(t)))
			}
		} else {
			if x := d.diffTree(t, last, true); x != "" {
				violate("reopened", fmt.Sprintf("after opening the directory again, %s", x))
				stop = true
				return
			}
			d.st = d.fromTree(t)
			d.modes = map[string]bool{}
			d.loose, d.memory, d.first = map[string]string{}, map[string]bool{}, map[string]string{}
		}
		d.variants(d.st)
		cur = node
	}
	var inflight *fop
	runs := runStages(p, func(t *task, r *opRun) {
		if stop {
			return
		}
		if cur != t.id {
			var f zi.FS
			if p.P["faultopen"] != 0 {
				n, before := len(sim.fired), sim.opFaults[r.i]
				tidy()
				f = openDirFS(adapters[t.id-1], p)
				if isDead() {
					park()
				}
				for _, x := range sim.fired[n:] {
					if x.Act == "EACCES" {
						// What may not be read is not seen.
						probe("gave-up")
						stop = true
						return
					}
				}
				if f == nil {
					if sim.opFaults[r.i] == before {
						violate("refused", "the directory could not be opened although nothing was wrong")
						stop = true
						return
					}
					probe("open-refused")
					tidy()
				} else if sim.opFaults[r.i] != before {
					probe("open-in-spite")
				}
			}
			enter(t.id, f)
			if stop {
				return
			}
		}
		o := fopOf(r.op)
		if d.outside(o) {
			return
		}
		before := sim.opFaults[r.i]
		inflight = o
		got, err := d.fsys.do(o)
		inflight = nil
		faults := sim.opFaults[r.i] - before
		if o.kind == "mkdirall" && got == "err" && faults > 1 {
			// What it made and could not look at afterwards is not in memory.
			probe("gave-up")
			stop = true
			return
		}
		if o.kind == "chmod" && faults > 0 && p.P["unpriv"] != 0 {
			// Memory and disk differ, and it is the disk that says who may write.
			probe("gave-up")
			stop = true
			return
		}
		d.judge(r, o, got, err, faults)
		sim.res.Evals++
		if len(sim.res.Violations) > 0 {
			stop = true
		}
	}, func(st int, rs []*opRun) {
		if x := diffOutside(outside, outsideOf("/root", "/tmp")); x != "" {
			violate("escape", fmt.Sprintf("after stage %d, %s", st, x))
		}
		if stop || cur == 0 || len(rs) == 0 || p.P["conc"] != 0 && st%2 == 0 {
			return
		}
		node := rs[0].node
		if cur != node {
			return
		}
		if sim.nodes[node-1].dead {
			// What was in flight may have happened, or not.
			last = d.st.tree()
			if inflight != nil {
				d.loosen(inflight)
				nx, _ := d.st.apply(inflight)
				after := nx.tree()
				for k, v := range after {
					if last[k] != v {
						d.loose[k] = "*"
					}
				}
				for k := range last {
					if _, ok := after[k]; !ok {
						d.loose[k] = "*"
					}
				}
			}
			cur = 0
			return
		}
		// The open files are closed; then everything is as the model says.
		inNode(node, func() {
			for _, k := range sortedKeys(d.fsys.handles) {
				d.fsys.drop(k)
			}
		})
		t := look(node)
		if t == nil {
			stop = true
			return
		}
		if x := d.diffTree(t, d.st.tree(), false); x != "" {
			violate("visible", fmt.Sprintf("after the operations, %s", x))
			stop = true
			return
		}
		if x := d.diskOwners(); x != "" {
			violate("visible", fmt.Sprintf("after the operations, %s", x))
			stop = true
			return
		}
		last = t
		for k, v := range d.loose {
			if v == "*" {
				// Whatever it is, it is on disk.
				d.certain(k)
			}
		}
		cur = 0
	})
	_ = runs
	if !stop && d.st != nil && last != nil {
		tidy()
		enter(goldenNode, nil)
	}
}

// diskOwners compares the owners on disk with those that were asked for, as
// long as nothing went wrong and the process may change them.
func (d *dirRun) diskOwners() string {
	if len(sim.fired) > 0 || sim.k.unpriv || d.p.P["case"] >= 2 {
		return ""
	}
	for _, p := range sortedKeys(d.st.tree()) {
		_, _, i, ok := d.st.find(p, false)
		if !ok || i < 0 || d.loose[p] != "" || d.memory[p] {
			continue
		}
		n, e := sim.k.lookup(atFdcwd, "/root/"+p, false)
		if e != 0 {
			return fmt.Sprintf("%s is not on disk", p)
		}
		if w := d.st.nodes[i]; int(n.uid) != w.uid && w.uid != 0 || int(n.gid) != w.gid && w.gid != 0 {
			return fmt.Sprintf("%s belongs to %d:%d on disk, not %d:%d", p, n.uid, n.gid, w.uid, w.gid)
		}
	}
	return ""
}

// outside says whether o is something that is not claimed to be the same on
// disk as in memory: the contents of devices, and opening directories.
func (d *dirRun) outside(o *fop) bool {
	if d.p.P["case"] >= 2 {
		// Second names next to variants of a name.
		if o.kind == "link" {
			return true
		}
		if o.kind == "remove" && d.st.kindAt(o.p) == 'd' {
			// A directory that is empty on disk, or lives in memory.
			for p := range d.st.tree() {
				if d.memory[p] && strings.HasPrefix(p, path.Clean(o.p)) {
					return true
				}
			}
		}
	}
	switch o.kind {
	case "chmod":
		// Everybody can enter the directories.
		return d.st.unpriv && d.st.kindAt(d.st.realPath(o.p)) == 'd' && o.mode&0o700 != 0o700
	case "link":
		_, _, n, ok := d.st.find(o.q, false)
		return ok && n >= 0 && d.st.nodes[n].kind == 'l'
	case "hread", "hreadat":
		// Files opened only to be written can be read in memory.
		return d.p.P["case"] >= 2 && d.st.handles[o.slot].flags&os.O_WRONLY != 0
	case "read", "write", "open", "oread":
		_, _, n, ok := d.st.find(o.p, true)
		return ok && n >= 0 && (d.st.nodes[n].kind == 'c' || d.st.nodes[n].kind == 'd' && o.kind == "open")
	}
	return false
}

func (d *dirRun) judge(r *opRun, o *fop, got string, err error, faults int) {
	nx, want := d.st.apply(o)
	noteState(o.kind + got)
	d.variants(nx)
	what := fmt.Sprintf("operation %d (%s %s %s %q n=%d)", r.i, o.kind, o.p, o.q, o.body, o.n)
	acts := map[string]bool{}
	for _, f := range sim.fired {
		if f.In == r.i {
			acts[f.Op] = true
		}
	}
	if (acts["chmod"] || acts["open"] || acts["fstat"] || acts["stat"]) && o.kind != "write" {
		// The disk may refuse permissions; they are kept in memory.
		if q := nx.realPath(o.p); q != "" {
			d.loose[q], d.modes[q] = "m", true
		}
		if _, _, n, ok := nx.find(o.p, true); ok && n > 0 {
			for _, q := range nx.pathsOf(n) {
				d.loose[q], d.modes[q] = "m", true
			}
		}
	}
	if o.kind == "mknod" && (acts["mknod"] || sim.k.unpriv) {
		d.memory[path.Clean(o.p)] = true
		if q := nx.realPath(o.p); q != "" {
			d.memory[q] = true
		}
	}
	if o.kind == "link" && got != "err" {
		// Another name of a file whose mode the disk may have refused.
		if d.modes[nx.realPath(o.q)] {
			if q := nx.realPath(o.p); q != "" && d.loose[q] == "" {
				d.loose[q], d.modes[q] = "m", true
			}
		}
		// Another name of a device that the disk did not keep.
		for _, q := range []string{path.Clean(o.q), nx.realPath(o.q)} {
			if q != "" && d.memory[q] {
				d.memory[path.Clean(o.p)], d.memory[nx.realPath(o.p)] = true, true
			}
		}
	}
	if got == "err" && want != "err" {
		if faults == 0 {
			violate("visible", fmt.Sprintf("%s failed: %v", what, err))
			return
		}
		d.loosen(o)
		if o.kind == "open" {
			d.st.handles = copyHandles(d.st.handles)
			delete(d.st.handles, o.slot)
		}
		if o.kind[0] == 'h' {
			d.fsys.drop(o.slot)
			d.st.handles = copyHandles(d.st.handles)
			delete(d.st.handles, o.slot)
		}
		// It must not show.
		sim.calm[r.i] = true
		t, lerr := lookTree(d.fsys.f)
		delete(sim.calm, r.i)
		if lerr != nil {
			violate("refused", fmt.Sprintf("%s failed (%v) and the tree cannot be read any more: %v", what, err, lerr))
			return
		}
		if x := d.diffTree(t, d.st.tree(), false); x != "" {
			violate("refused", fmt.Sprintf("%s failed (%v), yet %s", what, err, x))
			return
		}
		// Go on with what is there.
		d.adopt(t)
		return
	}
	if got != want {
		if faults > 0 && got == "err" {
			return
		}
		p := path.Clean(o.p)
		if d.loose[p] != "" || d.loose[d.st.realPath(o.p)] != "" || o.kind == "readdir" && len(d.loose) > 0 {
			return
		}
		violate("visible", fmt.Sprintf("%s answers %s (%v), an ordinary tree %s", what, got, err, want))
		return
	}
	if got != "err" || o.kind == "open" {
		d.st = nx
	}
	if o.kind == "mkdirall" {
		d.st = nx
	}
}

func copyHandles(m map[string]fhandle) map[string]fhandle {
	n := map[string]fhandle{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// adopt makes the model agree with what is seen at the loose paths.
func (d *dirRun) adopt(t map[string]string) {
	for _, k := range sortedKeys(d.loose) {
		if d.loose[k] != "*" {
			continue
		}
		v, there := t[k]
		s := d.st.clone()
		dir, name, n, ok := s.find(k, false)
		if !ok || s.direct(dir, name) != k {
			continue
		}
		switch {
		case !there && n >= 0:
			delete(s.edit(dir).kids, name)
		case there:
			x := fromTree(map[string]string{"x": v})
			y := x.nodes[x.nodes[0].kids["x"]]
			if n >= 0 && s.nodes[n].kind == y.kind {
				e := s.edit(n)
				e.mode, e.data, e.target, e.dev = y.mode, y.data, y.target, y.dev
			} else {
				s.edit(dir).kids[name] = s.add(y)
			}
		}
		d.st = s
		d.certain(k)
	}
}

// certain says that what is at k is known, but for the mode if the disk may have refused it.
func (d *dirRun) certain(k string) {
	delete(d.loose, k)
	if d.modes[k] {
		d.loose[k] = "m"
	}
}

// ownerOf returns who owns the file, from what the file systems hand out.
func ownerOf(fi fs.FileInfo) (int, int) {
	switch h := fi.Sys().(type) {
	case *tar.Header:
		return h.Uid, h.Gid
	case nil:
		return 0, 0
	}
	return -1, -1
}
