package main

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log/slog"
	"path"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/chainguard-dev/clog"
	zi "github.com/chainguard-dev/go-apk/zziface"
)

type discard struct{}

func (discard) Enabled(context.Context, slog.Level) bool  { return false }
func (discard) Handle(context.Context, slog.Record) error { return nil }
func (d discard) WithAttrs([]slog.Attr) slog.Handler      { return d }
func (d discard) WithGroup(string) slog.Handler           { return d }

func baseCtx() context.Context {
	return clog.WithLogger(context.Background(), clog.New(discard{}))
}

// opCtx is the context of one operation. It may have a timeout of op.M
// microseconds, and where the plan has cancellations ("cancel") it may end at
// any system call or request of the operation.
func opCtx(r *opRun) (context.Context, func()) {
	ctx := baseCtx()
	cancel, expire := func() {}, func() {}
	if sim.plan.P["cancel"] != 0 && r.node > 0 && r.node != goldenNode {
		ctx, cancel = context.WithCancel(ctx)
		if sim.cancels == nil {
			sim.cancels = map[int]func(){}
		}
		end := cancel
		sim.cancels[r.i] = func() {
			delete(sim.cancels, r.i)
			r.cancelled, r.ctxEnd = true, runtime.SimNano()
			end()
		}
	}
	if us := r.op.M; us > 0 {
		ctx, expire = context.WithTimeout(ctx, time.Duration(us)*time.Microsecond)
	}
	return ctx, func() {
		delete(sim.cancels, r.i)
		if ctx.Err() != nil && !r.cancelled {
			r.cancelled, r.ctxEnd = true, r.t0+r.op.M*1000
		}
		expire()
		cancel()
	}
}

// ---- a file system that takes whole tar entries, as apko's does ----------------------

type lazyEnt struct {
	hdr tar.Header
	tfs fs.FS
	pkg string
}

type lazyFS struct {
	zi.FS
	ents []lazyEnt
}

func (l *lazyFS) WriteHeader(h tar.Header, tfs fs.FS, pkg string) (bool, error) {
	l.ents = append(l.ents, lazyEnt{h, tfs, pkg})
	return true, nil
}

// ---- snapshots --------------------------------------------------------------------------

type rootSnap struct {
	files    map[string]string
	idb      string
	scripts  []string
	scriptsT []int64
	triggers string
	problem  string
	lazy     []string
}

// snap reads everything an installation has produced.
func (in *installRun) takeSnap() {
	in.snap = snapFS(in.fs)
	if in.lazy == nil {
		return
	}
	for _, e := range in.lazy.ents {
		var b []byte
		if e.hdr.Typeflag == tar.TypeReg {
			f, err := e.tfs.Open(e.hdr.Name)
			if err == nil {
				b, err = io.ReadAll(f)
				f.Close()
			}
			if err != nil {
				in.snap.problem = fmt.Sprintf("reading the contents of %s: %v", e.hdr.Name, err)
			}
		}
		in.snap.lazy = append(in.snap.lazy, fmt.Sprintf("%s %s %c %o %s %x", e.pkg, e.hdr.Name, e.hdr.Typeflag, e.hdr.Mode, e.hdr.Linkname, sum1(b)))
	}
}

func snapFS(f zi.FS) *rootSnap {
	s := &rootSnap{files: map[string]string{}}
	var walk func(dir string)
	walk = func(dir string) {
		des, err := f.ReadDir(dir)
		if err != nil {
			s.problem = fmt.Sprintf("reading directory %s: %v", dir, err)
			return
		}
		for _, de := range des {
			p := path.Join(dir, de.Name())
			fi, err := de.Info()
			if err != nil {
				s.problem = fmt.Sprintf("info of %s: %v", p, err)
				continue
			}
			m := fi.Mode()
			switch {
			case m.IsDir():
				s.files[p] = fmt.Sprintf("dir %o", m.Perm())
			case m&fs.ModeSymlink != 0:
				t, err := f.Readlink(p)
				if err != nil {
					s.problem = fmt.Sprintf("readlink %s: %v", p, err)
				}
				s.files[p] = "link " + t
			case m&(fs.ModeDevice|fs.ModeCharDevice) != 0:
				s.files[p] = "device"
			default:
				b, err := readAll(f, p)
				if err != nil {
					s.problem = fmt.Sprintf("reading %s: %v", p, err)
				}
				s.files[p] = fmt.Sprintf("file %o %d %x", unixMode(m), len(b), sum1(b))
			}
			if xs, err := f.ListXattrs(p); err == nil && m&fs.ModeSymlink == 0 {
				for _, k := range sortedKeys(xs) {
					s.files[p] += fmt.Sprintf(" x:%s=%s", k, xs[k])
				}
			}
			if m.IsDir() {
				walk(p)
			}
		}
	}
	walk(".")
	if b, err := f.ReadFile("lib/apk/db/installed"); err == nil {
		s.idb = string(b)
	} else {
		s.problem = "reading the installed database: " + err.Error()
	}
	if b, err := f.ReadFile("lib/apk/db/triggers"); err == nil {
		s.triggers = string(b)
	}
	if b, err := f.ReadFile("lib/apk/db/scripts.tar"); err == nil {
		tr := tar.NewReader(bytes.NewReader(b))
		for {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				s.problem = fmt.Sprintf("scripts.tar is not readable after %d entries: %v", len(s.scripts), err)
				break
			}
			body, err := io.ReadAll(tr)
			if err != nil {
				s.problem = fmt.Sprintf("scripts.tar: %s: %v", h.Name, err)
				break
			}
			s.scripts = append(s.scripts, h.Name+"|"+string(body))
			s.scriptsT = append(s.scriptsT, h.ModTime.Unix())
		}
	} else {
		s.problem = "reading scripts.tar: " + err.Error()
	}
	return s
}

func unixMode(m fs.FileMode) int64 {
	u := int64(m.Perm())
	if m&fs.ModeSetuid != 0 {
		u |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		u |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		u |= 0o1000
	}
	return u
}

func (s *rootSnap) diff(t *rootSnap) string {
	if s.problem != t.problem {
		return fmt.Sprintf("%q / %q", s.problem, t.problem)
	}
	// An ordinary user's disk takes no devices; with faults not even the stand-ins.
	left := func(a, b string) bool { return sim.k.unpriv && a == "device" && b == "" }
	for _, k := range sortedKeys(s.files) {
		if t.files[k] != s.files[k] {
			if left(s.files[k], t.files[k]) {
				continue
			}
			if k == "lib/apk/db/installed" || k == "lib/apk/db/triggers" {
				continue
			}
			return fmt.Sprintf("%s: %q / %q", k, s.files[k], t.files[k])
		}
	}
	for _, k := range sortedKeys(t.files) {
		if _, ok := s.files[k]; !ok {
			if left(t.files[k], "") {
				continue
			}
			return fmt.Sprintf("%s: absent / %q", k, t.files[k])
		}
	}
	if s.idb != t.idb {
		a, b := strings.Split(s.idb, "\n"), strings.Split(t.idb, "\n")
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				return fmt.Sprintf("installed database, line %d: %q / %q", i+1, a[i], b[i])
			}
		}
		return fmt.Sprintf("installed database: %d / %d lines", len(a), len(b))
	}
	if s.triggers != t.triggers {
		return fmt.Sprintf("triggers: %q / %q", s.triggers, t.triggers)
	}
	if fmt.Sprint(s.scripts, s.scriptsT) != fmt.Sprint(t.scripts, t.scriptsT) {
		return fmt.Sprintf("scripts.tar: %q / %q", s.scripts, t.scripts)
	}
	return ""
}

// ---- an independent reader of the installed database -----------------------------------

type idbFile struct{ sum, perm string }
type idbPkg struct {
	f     map[string]string
	files map[string]idbFile
	dirs  []string
	perms map[string]string // of directories
}

func parseIDB(s string) (out []*idbPkg, problem string) {
	var cur *idbPkg
	dir, last := "", ""
	for i, l := range strings.Split(s, "\n") {
		if l == "" {
			if cur != nil {
				out = append(out, cur)
			}
			cur, dir, last = nil, "", ""
			continue
		}
		if len(l) < 2 || l[1] != ':' {
			return out, fmt.Sprintf("line %d is %q", i+1, l)
		}
		if cur == nil {
			cur = &idbPkg{f: map[string]string{}, files: map[string]idbFile{}, perms: map[string]string{}}
		}
		v := l[2:]
		switch l[0] {
		case 'F':
			dir = v
			cur.dirs = append(cur.dirs, v)
		case 'M':
			cur.perms[dir] = v
		case 'R':
			last = path.Join(dir, v)
			if _, dup := cur.files[last]; dup {
				return out, fmt.Sprintf("line %d: %s twice", i+1, last)
			}
			cur.files[last] = idbFile{}
		case 'a':
			x := cur.files[last]
			x.perm = v
			cur.files[last] = x
		case 'Z':
			x := cur.files[last]
			x.sum = v
			cur.files[last] = x
		default:
			cur.f[l[:1]] = v
		}
	}
	if cur != nil {
		return out, "does not end in an empty line"
	}
	return out, ""
}

// ---- the scenario -------------------------------------------------------------------------

const testRepo = "https://repo.test/os"
const localRepo = "/pkgs/os"

// What an install operation does besides (opN).
const (
	opFixate = 4 // the world file is installed, with its needs
	opAgain  = 8 // and once more
)

type installRun struct {
	cut    int // packages of the first of two calls
	w      *world
	bad    string // there is no answer to what the world file wants
	kind   string
	root   string
	fs     zi.FS
	lazy   *lazyFS
	list   []string
	snap   *rootSnap
	failed string
	epoch  *time.Time
}

// newRoot makes the target of an installation.
func newRoot(pr zi.Proc, kind, root string) (zi.FS, *lazyFS) {
	switch kind {
	case "dir":
		return pr.DirFS(root, true, true), nil
	case "header":
		l := &lazyFS{FS: pr.NewMemFS()}
		return l, l
	}
	return pr.NewMemFS(), nil // also "flaky"
}

// asGiven is the root as the module gets to see it.
func asGiven(kind string, f zi.FS) zi.FS {
	if kind == "flaky" {
		return &flakyFS{f}
	}
	return f
}

// refsOf turns package names into references; flags: 1 = no checksum known.
func (w *world) refsOf(names []string, nosum bool) []*zi.Pkg {
	rs := w.refs(names)
	if nosum {
		for _, r := range rs {
			r.Checksum, r.Sum = nil, ""
		}
	}
	return rs
}

func doInstall(w *world, pr zi.Proc, r *opRun, node int) {
	in := &installRun{w: w, kind: r.op.A, root: fmt.Sprintf("/root%d", r.i), list: r.op.L, cut: min(int(r.op.N>>8), len(r.op.L))}
	if r.node != node {
		in.root += "g"
	}
	r.out = in
	ctx, done := opCtx(r)
	defer done()
	if f, l := newRoot(pr, in.kind, in.root); f != nil {
		in.fs, in.lazy = f, l
	} else {
		r.err = errors.New("DirFS returned nil")
		return
	}
	if sim.plan.P["epoch"] != 0 {
		t := time.Unix(sim.plan.P["epoch"], 0).UTC()
		in.epoch = &t
	}
	a, err := pr.New(zi.Opts{FS: asGiven(in.kind, in.fs), Arch: "x86_64", Cache: r.op.B, Offline: r.op.N&1 != 0, IgnoreMknod: true, Client: simNet.client(node)})
	if err != nil {
		r.err = err
		return
	}
	sim.calm[r.i] = sim.plan.P["calminit"] != 0
	err = a.InitDB(ctx)
	delete(sim.calm, r.i)
	if err != nil {
		r.err = fmt.Errorf("InitDB: %w", err)
		return
	}
	if r.op.N&opFixate != 0 {
		r.err = in.fixate(ctx, a, r)
		return
	}
	if in.cut > 0 {
		// The same in two calls.
		r.err = a.InstallPackages(ctx, in.epoch, w.refsOf(in.list[:in.cut], r.op.N&2 != 0))
		if r.err != nil {
			return
		}
		probe("install-more")
	}
	r.err = a.InstallPackages(ctx, in.epoch, w.refsOf(in.list, r.op.N&2 != 0))
}

// fixate installs what the world file wants; the order is the resolver's.
func (in *installRun) fixate(ctx context.Context, a zi.APK, r *opRun) error {
	wants := [][]string{r.op.L}
	if in.cut > 0 {
		wants = [][]string{r.op.L[:in.cut], r.op.L}
	}
	in.wants(r.op)
	sim.calm[r.i] = sim.plan.P["calminit"] != 0
	err := in.fs.WriteFile("etc/apk/keys/builder.rsa.pub", []byte(testKeys[0].pub), 0o644)
	if err == nil {
		err = a.SetRepositories(ctx, []string{in.w.repo})
	}
	delete(sim.calm, r.i)
	if err != nil {
		return fmt.Errorf("setting up: %w", err)
	}
	for i, l := range wants {
		sim.calm[r.i] = sim.plan.P["calminit"] != 0
		err := a.SetWorld(ctx, l)
		delete(sim.calm, r.i)
		if err != nil {
			return fmt.Errorf("setting up: %w", err)
		}
		if err := a.FixateWorld(ctx, in.epoch); err != nil {
			return err
		}
		if i > 0 {
			probe("fixate-more")
		}
	}
	if r.op.N&opAgain != 0 {
		probe("fixate-again")
		if err := a.FixateWorld(ctx, in.epoch); err != nil {
			return fmt.Errorf("once more: %w", err)
		}
	}
	probe("fixate")
	return nil
}

type wanted struct {
	names []string
	fail  bool
	text  string
}

// answer is the module's own answer to what has to be installed for want.
func (w *world) answer(want []string) wanted {
	k := strings.Join(want, " ")
	if a, ok := w.answers[k]; ok {
		return a
	}
	fatal("no answer prepared for " + k)
	return wanted{}
}

// answersFor prepares the answers that the operations need.
func (w *world) answersFor(p *Plan) {
	w.answers = map[string]wanted{}
	for _, o := range p.Ops {
		if o.Do != "install" || o.N&opFixate == 0 {
			continue
		}
		for _, l := range [][]string{o.L, o.L[:min(int(o.N>>8), len(o.L))]} {
			x := zi.Index{Source: w.repo + "/x86_64"}
			for _, s := range w.pkgs {
				x.Pkgs = append(x.Pkgs, zi.Info{Name: s.name, Version: s.version, Arch: s.arch, Origin: s.origin, Checksum: s.ctlSum,
					Deps: append([]string{}, s.deps...), Provides: append([]string{}, s.provides...), Priority: s.priority, BuildDate: s.builddate})
			}
			l := append([]string{}, l...)
			sort.Strings(l) // as the world file is
			ps, cs, err := adapters[goldenNode-1].Resolve(baseCtx(), []zi.Index{x}, l)
			a := wanted{}
			if err != nil || len(cs) > 0 {
				a.fail, a.text = true, fmt.Sprint(err, cs)
			}
			for _, q := range ps {
				a.names = append(a.names, q.Name)
			}
			w.answers[strings.Join(l, " ")] = a
		}
	}
}

// wants finds out what the operation has to install, and in what order.
func (in *installRun) wants(o *Op) error {
	wants := [][]string{o.L}
	if c := min(int(o.N>>8), len(o.L)); c > 0 {
		wants = [][]string{o.L[:c], o.L}
	}
	in.cut, in.list = 0, nil
	for _, l := range wants {
		a := in.w.answer(l)
		if a.fail {
			in.bad = a.text
			probe("unsolvable")
			return errors.New(a.text)
		}
		in.cut = len(in.list)
		for _, n := range a.names {
			if !contains(in.list, n) {
				in.list = append(in.list, n)
			}
		}
	}
	return nil
}

// checkModel compares an installation that reported success with the
// reference model.
func (in *installRun) checkModel(m *modelState, base map[string]string) string {
	s := in.snap
	if s.problem != "" {
		return s.problem
	}
	if m.err != "" {
		return "success, but " + m.err
	}
	if in.lazy == nil {
		for _, p := range sortedKeys(m.files) {
			f := m.files[p]
			got, ok := s.files[p]
			if !ok {
				return p + " is missing"
			}
			want := ""
			switch f.kind {
			case tar.TypeDir:
				if _, pre := base[p]; pre {
					continue
				}
				want = fmt.Sprintf("dir %o", f.mode)
			case tar.TypeSymlink:
				want = "link " + f.link
			default:
				want = fmt.Sprintf("file %o %d %x", f.mode, len(f.body), sum1(f.body))
			}
			for _, k := range sortedKeys(f.xattr) {
				want += fmt.Sprintf(" x:%s=%s", k, f.xattr[k])
			}
			if got != want {
				return fmt.Sprintf("%s is %q, want %q", p, got, want)
			}
		}
		for _, p := range sortedKeys(s.files) {
			if _, pre := base[p]; !pre && m.files[p] == nil && !strings.HasPrefix(p, "etc/apk/") {
				return fmt.Sprintf("%s (%s) belongs to no package", p, s.files[p])
			}
		}
	} else {
		var want []string
		for _, mp := range m.pkgs {
			for _, f := range mp.p.files {
				want = append(want, fmt.Sprintf("%s %s %c %o %s %x", mp.p.name, f.path, f.kind, f.mode, f.link, sum1(f.body)))
			}
		}
		if len(want) != len(in.lazy.ents) {
			return fmt.Sprintf("%d entries were handed to the file system, want %d", len(in.lazy.ents), len(want))
		}
		for i, got := range s.lazy {
			if got != want[i] {
				return fmt.Sprintf("entry %d is %q, want %q", i, got, want[i])
			}
		}
	}
	ps, problem := parseIDB(s.idb)
	if problem != "" {
		return "installed database: " + problem
	}
	if len(ps) != len(m.pkgs) {
		return fmt.Sprintf("installed database: %d packages, want %d", len(ps), len(m.pkgs))
	}
	for i, mp := range m.pkgs {
		g, p := ps[i], mp.p
		for _, kv := range [][2]string{{"P", p.name}, {"V", p.version}, {"A", p.arch}, {"C", p.sum()}, {"o", p.origin},
			{"S", fmt.Sprint(len(p.apk))}, {"I", fmt.Sprint(p.instSize)}, {"t", fmt.Sprint(p.builddate)},
			{"D", strings.Join(p.deps, " ")}, {"p", strings.Join(p.provides, " ")}, {"r", strings.Join(p.replaces, " ")}} {
			if g.f[kv[0]] != kv[1] {
				return fmt.Sprintf("installed database: package %d (%s) has %s:%q, want %q", i, p.name, kv[0], g.f[kv[0]], kv[1])
			}
		}
		byPath := map[string]fileSpec{}
		for _, f := range p.files {
			byPath[f.path] = f
		}
		n := 0
		for _, f := range sortedKeys(mp.files) {
			sum := mp.files[f]
			if sum == "" {
				continue
			}
			n++
			e, ok := g.files[f]
			if !ok {
				return fmt.Sprintf("installed database: %s does not list %s", p.name, f)
			}
			fs := byPath[f]
			if sum == "link" || in.lazy != nil && fs.noSum {
				sum = ""
			}
			if e.sum != sum {
				return fmt.Sprintf("installed database: %s of %s has checksum %q, want %q", f, p.name, e.sum, sum)
			}
			perm := ""
			if fs.mode != 0o644 || fs.uid != 0 || fs.gid != 0 {
				perm = fmt.Sprintf("%d:%d:%04o", fs.uid, fs.gid, fs.mode)
			}
			if e.perm != perm {
				return fmt.Sprintf("installed database: %s of %s has permissions %q, want %q", f, p.name, e.perm, perm)
			}
		}
		if n != len(g.files) {
			return fmt.Sprintf("installed database: %s lists %d files, want %d", p.name, len(g.files), n)
		}
		for _, d := range g.dirs {
			if d == "" {
				continue // the root
			}
			if s, ok := mp.files[d]; !ok || s != "" {
				return fmt.Sprintf("installed database: %s lists directory %s, which it does not have", p.name, d)
			}
			fs, perm := byPath[d], ""
			if fs.mode != 0o755 || fs.uid != 0 || fs.gid != 0 {
				perm = fmt.Sprintf("%d:%d:%04o", fs.uid, fs.gid, fs.mode)
			}
			if g.perms[d] != perm {
				return fmt.Sprintf("installed database: directory %s of %s has permissions %q, want %q", d, p.name, g.perms[d], perm)
			}
		}
	}
	if got, want := strings.Join(s.scripts, "\n"), strings.Join(m.scripts, "\n"); got != want {
		return fmt.Sprintf("scripts.tar holds %q, want %q", got, want)
	}
	if in.epoch != nil {
		for i, t := range s.scriptsT {
			if t != in.epoch.Unix() {
				return fmt.Sprintf("scripts.tar: %s has time %d, want %d", s.scripts[i], t, in.epoch.Unix())
			}
		}
	}
	if got, want := s.triggers, strings.Join(m.triggers, "\n"); strings.TrimSuffix(got, "\n") != want {
		return fmt.Sprintf("triggers are %q, want %q", got, want)
	}
	return ""
}

// modelFor is the reference outcome; the lazy file system knows no overlaps.
func (in *installRun) modelFor() *modelState { return in.w.modelCut(in.list, in.cut) }

// outage makes all requests fail until further notice.
func outage(p *Plan) {
	switch p.P["outage"] {
	case 1:
		simNet.down = 503
	case 2:
		simNet.down = 1
	case 3:
		simNet.down = 404
	case 4:
		simNet.cutAll = 1
	}
}

func worldFor(p *Plan) *world {
	return genWorld(newRng(uint64(p.P["world"]), "world"), repoFor(p), int(p.P["npkgs"]), p.P["overlaps"] != 0, p.P["conflicts"] != 0, p.P["feat"])
}

func repoFor(p *Plan) string {
	if p.P["feat"]&16 != 0 {
		return localRepo
	}
	return testRepo
}

// put makes something available at its address.
func put(u string, body []byte, etag, name string) *resource {
	if strings.HasPrefix(u, "/") {
		putFile(u, body)
		return &resource{}
	}
	return simNet.publish(u, body, etag, name)
}

func publishWorld(w *world, p *Plan) {
	simNet.latMin, simNet.latJit = p.P["latmin"], p.P["latjit"]
	if p.P["chunk"] > 0 {
		simNet.chunk = int(p.P["chunk"])
	}
	total := 0
	for _, x := range w.pkgs {
		total += len(x.apk)
	}
	if least := total * len(p.Ops) / 40_000; simNet.chunk > 0 && simNet.chunk < least {
		simNet.chunk = least // or the run is all reads
	}
	for i, x := range w.pkgs {
		u := w.repo + "/" + x.arch + "/" + x.filename()
		r := put(u, x.apk, fmt.Sprintf(`"%x"`, x.ctlSum[:6]), x.name)
		r.noRange = p.P["norange"]>>uint(i%60)&1 != 0
		r.unknownLen = p.P["unknownlen"]>>uint(i%60)&1 != 0
	}
	if p.P["feat"]&8 != 0 {
		b := buildIndex("d", w.pkgs, 0, "builder.rsa.pub")
		put(w.repo+"/x86_64/APKINDEX.tar.gz", b, fmt.Sprintf(`"i%x"`, sum1(b)[:6]), "index")
	}
}

// netParams draws the network's temper.
func netParams(r *rng, p *Plan) {
	if r.p(0.1) || p.Prop == "C20" && r.p(0.2) {
		p.P["hang"] = 1
	}
	switch r.pick(2, 3, 3, 1) {
	case 1:
		p.P["latmin"], p.P["latjit"] = 1000, 2_000_000
	case 2:
		p.P["latmin"], p.P["latjit"] = 1_000_000, 80_000_000
	case 3:
		p.P["latmin"], p.P["latjit"] = 1_000_000, 5_000_000_000
	}
	if r.p(0.6) {
		p.P["chunk"] = pickOf[int64](r, 1, 7, 64, 500, 3000)
	}
	if r.p(0.3) {
		p.P["norange"] = int64(r.u64() >> 2)
	}
	if r.p(0.3) {
		p.P["unknownlen"] = int64(r.u64() >> 2)
	}
}

// faultRates gives each fault point a rate; swarm style, some are left out.
func faultRates(r *rng, p *Plan, scale float64, disk, net bool) {
	put := func(k string, x float64) {
		if r.p(0.65) {
			p.Rates[k] = x * scale * (0.3 + 2*r.f())
		}
	}
	if disk && r.p(0.2) {
		// One step of the work on one kind of file.
		k := "sys:" + pickOf(r, "open", "create", "read", "read", "write", "write", "closew", "close", "rename", "stat", "fstat") + ":" +
			pickOf(r, "cache", "cache", "tmp", "tmp", "root0", "root1", "db")
		if r.p(0.7) && (strings.HasSuffix(k, "cache") || strings.HasSuffix(k, "tmp")) {
			k += "." + pickOf(r, fileKinds...)[1]
		}
		p.Rates[k] = pickOf(r, 0.03, 0.1, 0.3)
		disk = false
	}
	if disk {
		put("sys:open", 0.02)
		put("sys:create", 0.04)
		put("sys:read", 0.004)
		put("sys:write", 0.002)
		put("sys:close", 0.01)
		put("sys:closew", 0.04)
		put("sys:rename", 0.08)
		put("sys:mkdir", 0.05)
		put("sys:unlink", 0.02)
		put("sys:stat", 0.02)
		put("sys:fstat", 0.02)
		put("sys:symlink", 0.05)
		put("sys:readdir", 0.03)
		put("sys:lseek", 0.02)
		put("sys:chmod", 0.02)
		put("sys:readlink", 0.02)
	}
	if net {
		put("http:GET", 0.1)
		put("http:HEAD", 0.1)
		put("http:body", 0.15)
	}
}

func crashOn(r *rng, p *Plan, w float64) {
	p.Rates["act:crash"], p.Rates["act:crash-after"], p.Rates["act:torn"] = w, w, w
}
func crashOff(p *Plan) {
	p.Rates["act:crash"], p.Rates["act:crash-after"], p.Rates["act:torn"] = 0, 0, 0
}

func sublist(r *rng, w *world, min int) []string {
	var l []string
	for _, p := range w.pkgs {
		l = append(l, p.name)
	}
	if r.p(0.5) {
		shuffle(r, l)
	}
	if r.p(0.4) && len(l) > min {
		l = l[:min+r.intn(len(l)-min)]
	}
	return l
}

func genInstall(r *rng, p *Plan) {
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(1 + r.intn(6))
	if r.p(0.15) {
		p.P["npkgs"] = int64(7 + r.intn(6))
	}
	if r.p(0.6) {
		p.P["overlaps"] = 1
		if r.p(0.1) {
			p.P["conflicts"] = 1
		}
	}
	if r.p(0.5) {
		p.P["epoch"] = 1234567890
	}
	genFeat(r, p)
	if r.p(0.2) {
		p.P["feat"] |= 8
	}
	if r.p(0.1) {
		p.P["feat"] |= 16
	}
	if r.p(0.1) {
		p.P["feat"] |= 32
	}
	netParams(r, p)
	w := worldFor(p)
	kind := func() string {
		k := []string{"mem", "dir", "header", "flaky"}[r.pick(3, 4, 2, 1)]
		if k == "header" && (p.P["overlaps"] != 0 || p.P["feat"]&^25 != 0) {
			k = "mem"
		}
		return k
	}
	op := func(stage, client, node int, cache string) Op {
		o := Op{Stage: stage, Client: client, Node: node, Do: "install", A: kind(), B: cache, L: sublist(r, w, 1)}
		if len(o.L) > 1 && r.p(0.1) {
			o.N |= int64(1+r.intn(len(o.L)-1)) << 8
		}
		if p.P["feat"]&8 != 0 && r.p(0.7) {
			o.N |= opFixate
			if len(o.L) > 1 && r.p(0.6) {
				o.L = o.L[:1+r.intn(len(o.L)-1)]
				o.N &= 0xff
			}
			if r.p(0.2) {
				o.N |= opAgain
			}
		}
		return o
	}
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	p.Budget = 1 + r.intn(4)
	if r.p(0.7) {
		p.P["calminit"] = 1 // keep the faults for the installation proper
	}
	if p.Prop != "C01" && p.Prop != "C23" {
		flakyRates(r, p, 0.01)
		delete(p.Rates, "fs:mknod") // devices may be left out
	}
	defer func() {
		twoCaches(r, p)
		for i := range p.Ops {
			if p.P["bad"] != 0 || p.P["rebuild"] != 0 {
				p.Ops[i].N &^= opFixate
			}
			if p.Ops[i].N&opFixate != 0 {
				sort.Strings(p.Ops[i].L)
			}
		}
	}()
	switch p.Prop {
	case "C01":
		// No faults that may fail: whatever the order, the outcome is the same.
		l := sublist(r, w, 1)
		n := 2 + r.intn(3)
		for i := 0; i < n; i++ {
			o := op(r.intn(2), i, 1+r.intn(2), pickOf(r, "", "/cache", "/cache"))
			if r.p(0.8) {
				o.L = l
			}
			add(o)
		}
		if r.p(0.4) { // a crashed process has left something behind
			o := op(0, 9, 3, "/cache")
			o.L = l
			add(o)
			faultRates(r, p, 1.5, true, true)
			crashOn(r, p, 1)
			p.P["crashnode"] = 3
		}
		p.P["faultstages"] = 1
		if r.p(0.12) {
			p.Rates = map[string]float64{}
			delete(p.P, "crashnode")
			genOldCache(r, p, op)
			break
		}
		if r.p(0.15) {
			genRebuild(r, p)
		}
	case "C02":
		add(op(0, 0, 1, pickOf(r, "", "", "/cache")))
		if r.p(0.3) {
			add(op(0, 1, 1+r.intn(2), pickOf(r, "", "/cache")))
		}
		faultRates(r, p, 1, true, true)
		crashOff(p)
		p.P["faultstages"] = 1
		if r.p(0.25) {
			p.P["cancel"] = 1
			p.Rates["ctx:cancel"] = pickOf(r, 0.002, 0.01, 0.05)
			for _, c := range []string{"root0", "root1", "db", "lib"} {
				p.Rates["ctx:cancel:"+c] = pickOf(r, 0.01, 0.05)
			}
			p.Budget = 1
		}
		if r.p(0.2) {
			add(op(1, 0, 1, pickOf(r, "", "/cache")))
			p.P["faultstages"] = 3
		}
	case "C03":
		n := 1 + r.intn(3)
		l := sublist(r, w, 1)
		same := r.p(0.7)
		for i := 0; i < n; i++ {
			o := op(0, i, 1+i%2, "/cache")
			if same {
				o.L = l
			}
			add(o)
		}
		// Later processes: new ones, with nothing but the disk in common.
		o := op(1, 0, 3, "/cache")
		if same {
			o.L = l
		}
		add(o)
		if r.p(0.3) {
			o := op(1, 1, 3, "/cache")
			if same {
				o.L = l
			}
			add(o)
		}
		faultRates(r, p, 1.5, true, r.p(0.5))
		crashOn(r, p, 1)
		if r.p(0.3) {
			crashOff(p)
		}
		if r.p(0.12) {
			genOldCache(r, p, op)
			break
		}
		p.P["faultstages"] = 1
		if r.p(0.2) {
			p.P["droptar"] = 1 // an old cache: no uncompressed copies
		}
		if r.p(0.15) {
			genRebuild(r, p)
		}
	case "C06", "C07":
		n := 2 + r.intn(3)
		l := sublist(r, w, 1)
		for i := 0; i < n; i++ {
			o := op(0, i, 1, "/cache")
			if r.p(0.8) {
				o.L = l
			}
			if p.Prop == "C07" && r.p(0.3) {
				o.M = int64(1 + r.intn(200_000))
				if r.p(0.5) {
					o.M = int64(1 + r.intn(2000))
				}
			}
			if p.Prop == "C07" && r.p(0.2) {
				o.B = ""
			}
			add(o)
		}
		for i := 0; i < 1+r.intn(2); i++ {
			o := op(1, i, 1, "/cache")
			if r.p(0.8) {
				o.L = l
			}
			add(o)
		}
		if p.Prop == "C07" || r.p(0.3) {
			faultRates(r, p, 0.8, true, true)
			crashOff(p)
		}
		if p.Prop == "C07" && r.p(0.2) {
			// Nothing can be had from the servers for a while, however often
			// one asks.
			p.P["outage"] = 1 + int64(r.intn(4))
			p.P["feat"] &^= 1
			w = worldFor(p)
			p.Rates = map[string]float64{}
			for i := range p.Ops {
				p.Ops[i].L = nil
				for _, x := range w.pkgs {
					p.Ops[i].L = append(p.Ops[i].L, x.name)
				}
			}
			for n := 3 + r.intn(12); n > 0; n-- {
				o := op(0, r.intn(2), 1, pickOf(r, "", "/cache"))
				p.Ops = append(p.Ops, o)
			}
		}
		p.P["faultstages"] = 1
	case "C11":
		n := 1 + r.intn(2)
		for i := 0; i < n; i++ {
			o := op(r.intn(2), i, 1, pickOf(r, "", "/cache"))
			if r.p(0.2) {
				o.M = int64(1 + r.intn(100_000))
			}
			if r.p(0.2) {
				o.L = append(o.L, o.L[0])
			}
			add(o)
		}
		faultRates(r, p, 1, true, true)
		crashOff(p)
		noCleanupFaults(p)
		p.P["faultstages"] = 3
	case "C20":
		n := 1 + r.intn(4)
		for i := 0; i < n; i++ {
			o := op(r.intn(2), i, 1+r.intn(2), pickOf(r, "", "/cache"))
			if r.p(0.5) {
				o.M = int64(1 + r.intn(300_000))
				if r.p(0.5) {
					o.M = int64(1 + r.intn(3000))
				}
			}
			add(o)
		}
		faultRates(r, p, 1.5, true, true)
		if r.p(0.7) {
			crashOff(p)
		} else {
			crashOn(r, p, 0.5)
		}
		p.P["faultstages"] = 3
		p.Budget = 1 + r.intn(8)
	case "C23":
		n := 1 + r.intn(2)
		for i := 0; i < n; i++ {
			add(op(i%2, i, 1+i%2, pickOf(r, "", "/cache")))
		}
		if r.p(0.3) {
			for i := 0; i < 1+r.intn(2); i++ {
				add(op(1, i, 1+r.intn(3), "/cache"))
			}
			genRebuild(r, p)
			faultRates(r, p, 0.7, true, true)
			crashOff(p)
			p.P["faultstages"] = pickOf[int64](r, 0, 1, 3)
			break
		}
		add(op(2, 0, 1+r.intn(3), "/cache")) // the server has been repaired
		p.P["bad"] = 1 + int64(r.u64()%uint64(1<<uint(p.P["npkgs"])-1))
		p.P["badkind"] = int64(r.intn(6))
		if p.P["badkind"] == badFile {
			p.Ops = p.Ops[:len(p.Ops)-1] // the index promises just that
			if r.p(0.5) {
				add(op(1, n, 1+r.intn(3), "/cache"))
			}
		}
		p.Sched.Gap = pickOf(r, 0, 200, 2000)
	}
}

// twoCaches makes some operations use a second cache directory.
func twoCaches(r *rng, p *Plan) {
	if !r.p(0.15) {
		return
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		if d := map[string]*string{"install": &o.B, "index": &o.A, "keys": &o.A}[o.Do]; d != nil && *d == "/cache" && r.p(0.4) {
			*d = "/cache2"
		}
	}
}

// genFeat chooses the features of the packages, see genWorld.
func genFeat(r *rng, p *Plan) {
	if r.p(0.3) {
		p.P["feat"] |= 1
	}
	if r.p(0.15) {
		p.P["feat"] |= 2
	}
	if r.p(0.1) {
		p.P["feat"] |= 4
		if r.p(0.7) {
			p.P["conflicts"] = 1
		}
	}
}

// genOldCache is about a cache without uncompressed copies, which several
// processes make again at the same time.
func genOldCache(r *rng, p *Plan, op func(stage, client, node int, cache string) Op) {
	p.P["droptar"] = 1
	if r.p(0.7) {
		p.Sched.Policy, p.Sched.PSys = 1, pickOf(r, 0.3, 0.6, 0.9)
	}
	o := op(0, 0, 4, "/cache")
	o.N = 0
	p.Ops = []Op{o}
	for i := 0; i < 2+r.intn(3); i++ {
		x := op(1, i, 1+i%3, "/cache")
		x.L = o.L
		if x.A == "header" {
			x.A = "dir"
		}
		p.Ops = append(p.Ops, x)
	}
	if r.p(0.5) {
		x := op(2, 0, 5, "/cache")
		x.L = o.L
		p.Ops = append(p.Ops, x)
	}
	p.P["faultstages"] = 2
	if r.p(0.4) {
		p.Rates = map[string]float64{}
	}
}

// rebuilt is the world after some packages have been built again under the
// same name and version.
func (w *world) rebuilt(p *Plan) *world {
	n := &world{repo: w.repo, by: map[string]*pkgSpec{}}
	for i, x := range w.pkgs {
		if p.P["rebuild"]>>uint(i)&1 != 0 {
			c := *x
			c.instSize = 0
			c.desc += ", again"
			c.builddate++
			if p.P["rebuildkind"] == 1 {
				c.files = append([]fileSpec{}, x.files...)
				c.files = append(c.files, fileSpec{path: "zz-" + x.name, kind: tar.TypeReg, mode: 0o644, body: []byte("again")})
			}
			if p.P["rebuildkind"] == 2 {
				c.signed = !c.signed
			}
			x = c.build()
		}
		n.pkgs = append(n.pkgs, x)
		n.by[x.name] = x
	}
	return n
}

func genRebuild(r *rng, p *Plan) {
	p.P["rebuild"] = 1 + int64(r.u64()%uint64(1<<uint(p.P["npkgs"])-1))
	p.P["rebuildkind"] = int64(r.intn(3))
}

// noCleanupFaults leaves alone the system calls that remove files.
func noCleanupFaults(p *Plan) {
	for k := range p.Rates {
		if strings.HasPrefix(k, "sys:unlink") || strings.HasPrefix(k, "sys:readdir") || strings.HasPrefix(k, "sys:opendir") || strings.HasPrefix(k, "sys:stat") || strings.HasPrefix(k, "sys:fstat") {
			delete(p.Rates, k)
		}
	}
	p.Rates["act:EMFILE"] = 0
}

func init() {
	scenarios["install"] = scenario{genInstall, runInstall}
	for _, p := range []string{"C01", "C02", "C03", "C06", "C07", "C11", "C20", "C23"} {
		propScenarios[p] = append(propScenarios[p], weighted{"install", 10})
	}
	classes("C01 C02 C03 C07", "install-model")
	classes("C01 C03", "install-golden")
	classes("C01 C03 C07", "unexplained-failure")
	classes("C06", "duplicate-download")
	classes("C11", "residue")
	classes("C07 C15", "no-progress")
	classes("C26", "parallel-downloads")
	propScenarios["C26"] = []weighted{{"install", 6}, {"stream", 5}, {"auth", 1}}
	classes("C25", "late-effect")
	classes("C20", "no-progress", "goroutine-leak", "connection-held", "late-return")
	for _, p := range allProps {
		classes(p, "panic", "no-progress")
	}
	classes("C23", "wrong-package")
}

// badBody makes what a wrong or hostile server sends instead of package i.
func badBody(w *world, i int, kind int64, seed uint64) []byte {
	p := w.pkgs[i]
	r := newRng(seed, "bad")
	other := *p
	other.files = append([]fileSpec{}, p.files...)
	other.files = append(other.files, fileSpec{path: "evil", kind: tar.TypeReg, mode: 0o755, body: []byte("evil")})
	other.scripts = append([]string{".post-install"}, p.scripts...)
	other.instSize = 0
	other.build()
	switch kind {
	case 0:
		if len(w.pkgs) > 1 {
			return w.pkgs[(i+1)%len(w.pkgs)].apk
		}
		return other.apk
	case 1:
		return other.apk
	case 2: // the right control section with other data
		return append(append(append([]byte{}, p.sig...), p.ctl...), other.data...)
	case 3: // other control section with the right data
		return append(append(append([]byte{}, p.sig...), other.ctl...), p.data...)
	}
	b := append([]byte{}, p.apk...)
	b[len(p.sig)+r.intn(len(b)-len(p.sig))] ^= 1 << uint(r.intn(8))
	return b
}

// traces looks for what a package that its index does not vouch for has left
// in the root.
func (in *installRun) traces(w *world, p *Plan) string {
	if p.P["bad"] == 0 || in.snap == nil {
		return ""
	}
	bad := map[string]bool{}
	for i, x := range w.pkgs {
		bad[x.name] = p.P["bad"]>>uint(i)&1 != 0
	}
	ok := map[string]bool{}
	for _, n := range in.list {
		if !bad[n] {
			for _, f := range w.by[n].files {
				ok[f.path] = true
			}
		}
	}
	for _, x := range w.pkgs {
		names := []string{"evil"}
		for _, f := range x.files {
			if f.kind != tar.TypeDir {
				names = append(names, f.path)
			}
		}
		if !bad[x.name] && p.P["badkind"] != 0 {
			continue
		}
		for _, n := range names {
			if _, there := in.snap.files[n]; there && !ok[n] {
				return "its file " + n
			}
		}
	}
	ps, _ := parseIDB(in.snap.idb)
	for _, x := range ps {
		if bad[x.f["P"]] {
			return "its record (" + x.f["P"] + ")"
		}
	}
	return ""
}

// badFile: the server sends what the index promises, but one of the files is
// not what the checksum that comes with it says.
const badFile = 5

func runInstall(p *Plan) {
	w := worldFor(p)
	if p.P["bad"] != 0 && p.P["badkind"] == badFile {
		r := newRng(p.Seed, "badfile")
		for i, x := range w.pkgs {
			if p.P["bad"]>>uint(i)&1 != 0 {
				x.spoil(r)
			}
		}
	}
	publishWorld(w, p)
	for i, x := range w.pkgs {
		if p.P["bad"]>>uint(i)&1 != 0 && p.P["badkind"] != badFile {
			put(w.repo+"/"+x.arch+"/"+x.filename(), badBody(w, i, p.P["badkind"], p.Seed), `"bad"`, x.name+"-bad")
		}
	}
	outage(p)
	w2 := w
	if p.P["rebuild"] != 0 {
		w2 = w.rebuilt(p)
		first := false
		for _, o := range p.Ops {
			first = first || o.Stage == 0
		}
		if !first {
			publishWorld(w2, p)
		}
	}
	inNode(goldenNode, func() { w.answersFor(p) })
	mkdirs("/tmp", "/cache", "/cache2")
	begin()
	base := map[string]string{}
	runs := runStages(p, func(t *task, r *opRun) {
		if r.op.Stage == 0 {
			doInstall(w, adapters[t.id-1], r, t.id)
		} else {
			doInstall(w2, adapters[t.id-1], r, t.id)
		}
	}, func(stage int, rs []*opRun) {
		for _, r := range rs {
			in, _ := r.out.(*installRun)
			if !r.done || in == nil || in.fs == nil {
				continue
			}
			if in.lazy != nil && sim.nodes[r.node-1].dead {
				r.done = false // its files went with the process
				continue
			}
			if r.err == nil || p.P["bad"] != 0 {
				t := spawn(goldenNode, -1, func(*task) { in.takeSnap() })
				<-t.done
			}
		}
		if p.Prop == "C11" {
			checkResidue(rs)
		}
		if p.P["bad"] != 0 && (stage == 1 || len(p.Ops) == 2) {
			publishWorld(w, p)
		}
		if stage == 0 {
			if w2 != w {
				publishWorld(w2, p)
			}
			if p.P["outage"] != 0 {
				simNet.down, simNet.cutAll = 0, 0
			}
			if p.P["crashnode"] != 0 {
				kill(int(p.P["crashnode"]))
			}
			if p.P["droptar"] != 0 {
				dropTars()
			}
		}
	})
	// Without faults, without a cache, one after another, in a process of its own.
	type goldKey struct {
		kind, list string
		w          *world
	}
	golden := map[goldKey]*installRun{}
	simNet.latMin, simNet.latJit = 0, 0
	for _, r := range runs {
		in, _ := r.out.(*installRun)
		if !r.started || in == nil {
			continue
		}
		if !r.done {
			probe("op-crashed")
			continue
		}
		w := in.w
		m := in.modelFor()
		if in.bad != "" {
			m.err = "there is no answer: " + in.bad
		}
		sim.res.Evals++
		noteState(fmt.Sprintf("%d %v %v %d", r.i, r.err == nil, r.faults, len(in.list)))
		if r.cancelled {
			if late := r.t1 - r.ctxEnd; r.ctxEnd > 0 && late > int64(3*time.Minute) {
				violate("late-return", fmt.Sprintf("operation %d returned %d s after its context ended", r.i, late/1e9))
			}
			probe("op-cancelled")
		}
		if r.err != nil {
			probe("op-error")
			if d := in.traces(w, p); d != "" && r.op.Stage < 2 {
				violate("wrong-package", fmt.Sprintf("operation %d failed (%v) but left %s", r.i, r.err, d))
			}
			if p.P["bad"] != 0 && r.op.Stage == 2 && m.err == "" {
				violate("wrong-package", fmt.Sprintf("operation %d failed although the server has been repaired: %v", r.i, r.err))
			}
			if p.P["outage"] != 0 && r.op.Stage == 0 {
				continue
			}
			if !r.ownFault() && m.err == "" && p.P["bad"] == 0 {
				violate("unexplained-failure", fmt.Sprintf("operation %d met no fault of its own and failed: %v", r.i, r.err))
			}
			continue
		}
		probe("op-success")
		if p.P["bad"] != 0 && r.op.Stage < 2 {
			for _, n := range in.list {
				for i, x := range w.pkgs {
					if x.name == n && p.P["bad"]>>uint(i)&1 != 0 {
						violate("wrong-package", fmt.Sprintf("operation %d installed %s although the server sent something that does not match its checksums (kind %d)", r.i, n, p.P["badkind"]))
					}
				}
			}
			continue
		}
		if len(base) == 0 {
			t := spawn(goldenNode, -1, func(*task) {
				f := adapters[goldenNode-1].NewMemFS()
				a, err := adapters[goldenNode-1].New(zi.Opts{FS: f, Arch: "x86_64", IgnoreMknod: true})
				if err == nil {
					err = a.InitDB(baseCtx())
				}
				if err != nil {
					fatal("golden InitDB: " + err.Error())
				}
				base = snapFS(f).files
			})
			<-t.done
		}
		if d := in.checkModel(m, base); d != "" {
			if p.P["bad"] != 0 {
				violate("wrong-package", fmt.Sprintf("operation %d (%s, cache %q, %v) succeeded once the server was repaired, but %s", r.i, in.kind, r.op.B, in.list, d))
			}
			if p.P["rebuild"] != 0 {
				violate("wrong-package", fmt.Sprintf("operation %d (%s, cache %q, %v) reported success where packages had been rebuilt, but %s", r.i, in.kind, r.op.B, in.list, d))
			}
			violate("install-model", fmt.Sprintf("operation %d (%s, cache %q, %v) reported success, but %s", r.i, in.kind, r.op.B, in.list, d))
			continue
		}
		k := goldKey{in.kind, fmt.Sprint(in.cut, in.list, r.op.N&opFixate, r.op.L), w}
		g := golden[k]
		if g == nil {
			gr := &opRun{op: &Op{Do: "install", A: in.kind, L: r.op.L, N: r.op.N &^ 3}, i: r.i, node: -1}
			publishWorld(w, p) // what the server sent then
			t := spawn(goldenNode, -1, func(*task) {
				doInstall(w, adapters[goldenNode-1], gr, goldenNode)
				if gr.err == nil {
					gi := gr.out.(*installRun)
					gi.takeSnap()
				}
			})
			<-t.done
			if t.pan != nil {
				fatal(fmt.Sprintf("golden run: %v\n%s", t.pan, t.stk))
			}
			if gr.err != nil {
				violate("unexplained-failure", fmt.Sprintf("an undisturbed installation of %v failed: %v", in.list, gr.err))
				continue
			}
			g = gr.out.(*installRun)
			golden[k] = g
		}
		if d := in.snap.diff(g.snap); d != "" {
			violate("install-golden", fmt.Sprintf("operation %d (%s, cache %q, %v) differs from an undisturbed installation: %s", r.i, in.kind, r.op.B, in.list, d))
		}
	}
	checkDownloads(p, runs)
}

func dropTars() {
	var walk func(n *inode)
	walk = func(n *inode) {
		for _, k := range sortedKeys(n.kids) {
			c := n.kids[k]
			if c.isDir() {
				walk(c)
			} else if strings.HasSuffix(k, ".dat.tar") {
				delete(n.kids, k)
			}
		}
	}
	for _, d := range []string{"cache", "cache2"} {
		if c := sim.k.root.kids[d]; c != nil {
			walk(c)
		}
	}
}

// checkDownloads: a process with a cache fetches each URL successfully at most
// once, however many operations want it, unless one of them had a fault after
// the download.
func checkDownloads(p *Plan, runs []*opRun) {
	cached := map[int]string{}
	trouble := map[int]int{}
	for _, r := range runs {
		if !r.started {
			continue
		}
		if r.op.B != "" {
			cached[r.i] = r.op.B
		}
		if r.faults > 0 || r.cancelled || !r.done {
			trouble[r.node]++
		}
	}
	type key struct {
		node     int
		url, dir string
	}
	n := map[key]int{}
	for _, e := range simNet.log {
		if e.method == "GET" && e.status == 200 && !e.failed && e.node != goldenNode && cached[e.op] != "" && strings.HasSuffix(e.url, ".apk") {
			n[key{e.node, e.url, cached[e.op]}]++
		}
	}
	for k, c := range n {
		if c > 1+trouble[k.node] {
			violate("duplicate-download", fmt.Sprintf("process %d downloaded %s %d times", k.node, k.url, c))
		}
	}
}

// finalName says whether a file name is one that the cache keeps.
func finalName(p string) bool {
	b := path.Base(p)
	for _, s := range []string{".ctl.tar.gz", ".sig.tar.gz", ".dat.tar.gz", ".dat.tar", ".etag"} {
		if strings.HasSuffix(b, s) {
			return true
		}
	}
	return strings.HasSuffix(b, ".tar.gz") && path.Base(path.Dir(p)) == "APKINDEX"
}

// checkResidue: what an operation that has returned leaves behind in the
// temporary directory and the cache are final cache entries only.
func checkResidue(rs []*opRun) {
	byOp := map[int]*opRun{}
	for _, r := range rs {
		byOp[r.i] = r
	}
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		for _, k := range sortedKeys(n.kids) {
			c := n.kids[k]
			q := p + "/" + k
			r := byOp[c.by>>8-1]
			tmp := strings.HasPrefix(q, "/tmp/")
			if r != nil && r.done {
				if tmp || !c.isDir() && !finalName(q) || c.isDir() && strings.Contains(k, "expand-apk") {
					violate("residue", fmt.Sprintf("operation %d (%s) returned (%s) and left %s behind", r.i, r.op.Do, errStr(r.err), q))
					continue
				}
			}
			if c.isDir() {
				walk(c, q)
			}
		}
	}
	for _, d := range []string{"tmp", "cache", "cache2"} {
		if n := sim.k.root.kids[d]; n != nil {
			walk(n, "/"+d)
		}
	}
}

func mkdirs(ds ...string) {
	for _, d := range ds {
		cur := sim.k.root
		for _, c := range strings.Split(strings.Trim(d, "/"), "/") {
			n := cur.kids[c]
			if n == nil {
				n = sim.k.newInode(0o40755)
				n.parent = cur
				cur.kids[c] = n
			}
			cur = n
		}
	}
}

var _ = runtime.SimNano
var _ = sort.Strings
var _ = base64.StdEncoding
var _ = hex.EncodeToString
