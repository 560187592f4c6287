package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// Scenario "view": packages are opened as file systems, several clients look
// at one of them at the same time, on a disk that fails, and it is closed.

func init() {
	scenarios["view"] = scenario{genView, runView}
	propScenarios["C28"] = []weighted{{"view", 10}}
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"view", 1})
	propScenarios["C11"] = append(propScenarios["C11"], weighted{"view", 1})
	classes("C28", "view", "view-failure", "view-descriptor", "panic", "no-progress", "residue")
}

const (
	viewData    = iota // the files of a package, APKFS
	viewControl        // its control section, APKFS
	viewTar            // the files of an expanded package
	viewCtlTar         // its control section
)

func genView(r *rng, p *Plan) {
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(1 + r.intn(4))
	p.P["feat"] = 64 | int64(r.intn(2)) | 32*int64(r.intn(2))
	if r.p(0.4) {
		p.P["overlaps"] = 1
	}
	big := r.p(0.3)
	if big {
		p.P["feat"] |= 256
	}
	w := worldFor(p)
	nv := 1 + r.intn(2)
	node := make([]int, nv)
	for v := 0; v < nv; v++ {
		node[v] = 1 + r.intn(2)
		p.Ops = append(p.Ops, Op{Stage: 0, Client: v, Node: node[v], Do: "open", A: w.pkgs[r.intn(len(w.pkgs))].name, N: int64(r.intn(4)), M: int64(v)})
		if big {
			p.Ops[v].N = int64(r.pick(4, 0, 1))
		}
	}
	stages := 1 + r.intn(2)
	for st := 1; st <= stages; st++ {
		for c := 0; c < 1+r.intn(4); c++ {
			v := r.intn(nv)
			p.Ops = append(p.Ops, Op{Stage: st, Client: c, Node: node[v], Do: "use", N: int64(r.u64() >> 1), M: int64(v)})
		}
	}
	for v := 0; v < nv; v++ {
		p.Ops = append(p.Ops, Op{Stage: stages + 1, Client: v, Node: node[v], Do: "close", M: int64(v)})
	}
	p.Budget = 1 + r.intn(4)
	p.P["faultstages"] = pickOf[int64](r, 1, 2, 3, 1<<uint(stages+1)-1)
	switch r.intn(4) {
	case 0:
	case 1, 2: // reading what the views read
		if big {
			p.Budget += 3
			p.Rates["sys:read:tmp.dat"] = pickOf(r, 0.1, 0.2, 0.3)
		}
		p.Rates["sys:read"] = pickOf(r, 0.03, 0.1, 0.3, 0.6)
		p.Rates["sys:open"] = pickOf(r, 0, 0.1, 0.3)
		if big {
			p.Rates["sys:open"], p.Rates["act:short"], p.Rates["act:EINTR"] = 0, 0, 0
		}
		p.P["faultstages"] = 1<<uint(stages+1) - 2
	default:
		faultRates(r, p, pickOf(r, 0.5, 1.5, 4), true, false)
		noCleanupFaults(p)
	}
	crashOff(p)
}

// A view is one package opened as a file system.
type view struct {
	x    *pkgSpec
	kind int
	fs   fs.FS
	cl   func() error
	want map[string]*viewEnt
}

type viewEnt struct {
	kind byte
	mode fs.FileMode
	uid  int
	gid  int
	body []byte
	link string
	kids []string
}

func newView(x *pkgSpec, kind int) *view {
	v := &view{x: x, kind: kind, want: map[string]*viewEnt{".": {kind: tar.TypeDir}}}
	if kind == viewControl || kind == viewCtlTar {
		v.want[".PKGINFO"] = &viewEnt{kind: tar.TypeReg, mode: 0o644, body: []byte(x.pkginfo)}
		for _, s := range x.scripts {
			v.want[s] = &viewEnt{kind: tar.TypeReg, mode: 0o755, body: x.scriptBody(s)}
		}
	} else {
		for _, f := range x.files {
			e := &viewEnt{kind: f.kind, mode: fs.FileMode(f.mode), uid: f.uid, gid: f.gid, body: f.body, link: f.link}
			if f.kind == tar.TypeLink {
				e.body = v.want[f.link].body
			}
			v.want[f.path] = e
		}
	}
	for _, k := range sortedKeys(v.want) {
		if d := v.want[path.Dir(k)]; k != "." && d != nil {
			d.kids = append(d.kids, path.Base(k))
		}
	}
	for _, e := range v.want {
		sort.Strings(e.kids)
	}
	return v
}

func (v *view) apkfs() bool { return v.kind == viewData || v.kind == viewControl }

// follow is where a path leads to, "" where that is not in the package.
func (v *view) follow(p string) string {
	for i := 0; i < 70; i++ {
		e := v.want[p]
		if e == nil {
			return ""
		}
		if e.kind != tar.TypeSymlink {
			return p
		}
		if path.IsAbs(e.link) {
			p = strings.TrimPrefix(path.Clean(e.link), "/")
		} else {
			p = path.Join(path.Dir(p), e.link)
		}
	}
	return ""
}

func runView(p *Plan) {
	w := worldFor(p)
	mkdirs("/tmp", "/pkgs")
	for _, x := range w.pkgs {
		putFile("/pkgs/"+x.filename(), x.apk)
	}
	inNode(goldenNode, func() {})
	begin()
	views := map[int64]*view{}
	runStages(p, func(t *task, r *opRun) {
		pr := adapters[t.id-1]
		switch r.op.Do {
		case "open":
			v := newView(w.by[r.op.A], int(r.op.N))
			r.err = v.open(pr, r)
			if r.err == nil {
				views[r.op.M] = v
			} else if n := openBy(r); n > 0 {
				violate("view-descriptor", fmt.Sprintf("operation %d: opening %s failed (%v) and left %d descriptors open", r.i, r.op.A, r.err, n))
			}
			if r.err != nil && sim.opFaults[r.i] == 0 {
				violate("view-failure", fmt.Sprintf("operation %d met no fault and could not open %s: %v", r.i, r.op.A, r.err))
			}
		case "use":
			if v := views[r.op.M]; v != nil {
				v.use(r)
				if n := openBy(r); n > 0 && v.apkfs() {
					violate("view-descriptor", fmt.Sprintf("operation %d read from a view of %s, closed what it had opened and left %d descriptors open", r.i, v.x.name, n))
				}
			}
		case "close":
			if v := views[r.op.M]; v != nil {
				if r.err = v.cl(); r.err != nil && sim.opFaults[r.i] == 0 {
					violate("view-failure", fmt.Sprintf("operation %d met no fault and could not close the view of %s: %v", r.i, v.x.name, r.err))
				}
				probe("view-closed")
			}
		}
	}, func(stage int, rs []*opRun) {
		var left []string
		open := false
		for i := range p.Ops {
			open = open || p.Ops[i].Stage > stage && p.Ops[i].Do == "close" && views[p.Ops[i].M] != nil
		}
		if open {
			return
		}
		left = append(left, sortedKeys(sim.k.root.kids["tmp"].kids)...)
		if len(left) > 0 {
			violate("residue", fmt.Sprintf("all views have been closed, but /tmp holds %v", left))
		}
	})
}

// openBy counts the descriptors that an operation has opened and not closed.
func openBy(r *opRun) int {
	n := 0
	for _, f := range sim.k.fds {
		// The tar of an expanded package stays open for as long as its file system is in use.
		if f.op == r.i && !strings.HasSuffix(f.path, ".tar") {
			n++
		}
	}
	return n
}

func (v *view) open(pr zi.Proc, r *opRun) error {
	ctx, done := opCtx(&opRun{op: &Op{}})
	defer done()
	f := "/pkgs/" + v.x.filename()
	if v.apkfs() {
		a, err := pr.NewAPKFS(ctx, f, v.kind == viewControl)
		if err != nil {
			return err
		}
		v.fs, v.cl = a, a.Close
		return nil
	}
	e, err := pr.ExpandApk(ctx, bytes.NewReader(v.x.apk), "")
	if err != nil {
		return err
	}
	v.fs, v.cl = e.TarFS, e.Close
	if v.kind == viewCtlTar {
		v.fs = e.ControlFS
	}
	return nil
}

// use looks at the view in some ways.
func (v *view) use(r *opRun) {
	g := newRng(uint64(r.op.N), "view")
	for n := 1 + g.intn(6); n > 0; n-- {
		sim.res.Evals++
		before := sim.opFaults[r.i]
		what, err := v.look(g)
		if err == nil {
			continue
		}
		probe("view-error")
		var wr *wrongView
		if errors.As(err, &wr) {
			violate("view", fmt.Sprintf("operation %d, view %d of %s: %s: %v", r.i, v.kind, v.x.name, what, err))
			return
		}
		if sim.opFaults[r.i] == before {
			violate("view-failure", fmt.Sprintf("operation %d, view %d of %s: %s met no fault and failed: %v", r.i, v.kind, v.x.name, what, err))
			return
		}
	}
}

// wrongView is an answer that is wrong, and not an error.
type wrongView struct{ s string }

func (w *wrongView) Error() string { return w.s }

func wrong(format string, a ...any) error { return &wrongView{fmt.Sprintf(format, a...)} }

func (v *view) look(g *rng) (string, error) {
	names := sortedKeys(v.want)
	name := names[g.intn(len(names))]
	given := name
	if v.apkfs() && g.p(0.3) && name != "." {
		given = pickOf(g, "/", "./") + name
	}
	switch g.intn(6) {
	case 0:
		probe("view-list")
		return "listing " + given, v.list(name, given)
	case 1:
		probe("view-stat")
		fi, err := fs.Stat(v.fs, given)
		if err != nil {
			return "stat " + given, err
		}
		return "stat " + given, v.info(name, fi)
	case 2:
		if rl, ok := v.fs.(interface{ Readlink(string) (string, error) }); ok {
			s, err := rl.Readlink(name)
			e := v.want[name]
			switch {
			case e.kind != tar.TypeSymlink && e.kind != tar.TypeLink:
				if err == nil {
					return "readlink " + name, wrong("it is no link, but reading it gives %q", s)
				}
			case err != nil:
				return "readlink " + name, err
			case s != e.link:
				return "readlink " + name, wrong("got %q, want %q", s, e.link)
			}
			return "", nil
		}
		fallthrough
	case 3:
		no := name + "/nothing"
		f, err := v.fs.Open(no)
		if err == nil {
			f.Close()
			return "opening " + no, wrong("success")
		}
		if !errors.Is(err, fs.ErrNotExist) {
			return "opening " + no, wrong("the error is %v", err)
		}
		return "", nil
	case 4:
		probe("view-walk")
		return "walking", v.walk()
	}
	// Read one or two files, in turns.
	var fs []*viewFile
	what := "reading"
	for i := 0; i < 1+g.intn(2); i++ {
		n := names[g.intn(len(names))]
		to := v.follow(n)
		if v.apkfs() && v.want[n].kind == tar.TypeSymlink {
			continue // shows the link itself
		}
		if to != "" && v.want[to].kind == tar.TypeDir {
			continue
		}
		what += " " + n
		f, err := v.fs.Open(n)
		if err != nil {
			for _, f := range fs {
				f.f.Close()
			}
			if to == "" {
				return "", nil
			}
			return what, err
		}
		if to == "" {
			f.Close()
			return what, wrong("it leads to nothing, but can be opened")
		}
		fs = append(fs, &viewFile{f: f, want: v.want[to].body})
	}
	var bad error
	for len(fs) > 0 {
		i := g.intn(len(fs))
		done, err := fs[i].step(g)
		if err != nil && bad == nil {
			bad = err
		}
		if done || err != nil {
			if err := fs[i].f.Close(); err != nil && bad == nil {
				bad = err
			}
			fs = append(fs[:i], fs[i+1:]...)
			probe("view-read")
		}
	}
	return what, bad
}

type viewFile struct {
	f    fs.File
	want []byte
	off  int
}

// step reads a little more.
func (f *viewFile) step(g *rng) (bool, error) {
	if ra, ok := f.f.(io.ReaderAt); ok && g.p(0.3) {
		off := g.intn(len(f.want) + 1)
		b := make([]byte, g.intn(len(f.want)-off+10))
		n, err := ra.ReadAt(b, int64(off))
		if m := min(len(b), len(f.want)-off); err == nil && n != len(b) || err == io.EOF && n != m || !bytes.Equal(b[:n], f.want[off:off+min(n, m)]) {
			return true, wrong("%d bytes at %d of %d: got %d (%v)", len(b), off, len(f.want), n, err)
		}
		if err != nil && err != io.EOF {
			return true, err
		}
		return false, nil
	}
	if s, ok := f.f.(io.Seeker); ok && g.p(0.2) {
		to := g.intn(len(f.want) + 1)
		n, err := s.Seek(int64(to), io.SeekStart)
		if err == nil && n != int64(to) {
			return true, wrong("went to %d instead of %d", n, to)
		}
		f.off = to
		return false, err
	}
	b := make([]byte, pickOf(g, 1+g.intn(50), 512, 4000, 20000))
	n, err := f.f.Read(b)
	if f.off+n > len(f.want) || !bytes.Equal(b[:n], f.want[f.off:f.off+n]) {
		return true, wrong("what is read at %d differs from the %d bytes that the package holds", f.off, len(f.want))
	}
	f.off += n
	if err == io.EOF {
		if f.off != len(f.want) {
			return true, wrong("it ends after %d of %d bytes", f.off, len(f.want))
		}
		return true, nil
	}
	return false, err
}

func (v *view) info(name string, fi fs.FileInfo) error {
	e := v.want[name]
	if fi.IsDir() != (e.kind == tar.TypeDir) || (fi.Mode()&fs.ModeSymlink != 0) != (e.kind == tar.TypeSymlink) {
		return wrong("%s is a %v", name, fi.Mode())
	}
	if name == "." {
		return nil
	}
	if fi.Name() != path.Base(name) {
		return wrong("%s has the name %q", name, fi.Name())
	}
	if fi.Mode().Perm() != e.mode.Perm() {
		return wrong("%s has mode %v, want %v", name, fi.Mode(), e.mode)
	}
	if (v.apkfs() || e.kind != tar.TypeLink) && fi.Size() != int64(len(e.body)) {
		return wrong("%s has size %d, want %d", name, fi.Size(), len(e.body))
	}
	if h, ok := fi.Sys().(*tar.Header); !ok || h.Uid != e.uid || h.Gid != e.gid {
		return wrong("%s belongs to somebody else than %d:%d", name, e.uid, e.gid)
	}
	return nil
}

func (v *view) list(name, given string) error {
	des, err := fs.ReadDir(v.fs, given)
	e := v.want[name]
	if e.kind != tar.TypeDir {
		if len(des) > 0 {
			return wrong("%s is no directory, but lists %d entries", name, len(des))
		}
		return nil
	}
	if err != nil {
		return err
	}
	var got []string
	for _, de := range des {
		got = append(got, de.Name())
	}
	if fmt.Sprint(got) != fmt.Sprint(e.kids) {
		return wrong("%s lists %q, want %q", name, got, e.kids)
	}
	for _, de := range des {
		fi, err := de.Info()
		if err != nil {
			return err
		}
		if err := v.info(path.Join(name, de.Name()), fi); err != nil {
			return err
		}
	}
	return nil
}

func (v *view) walk() error {
	var got []string
	err := fs.WalkDir(v.fs, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		got = append(got, p)
		if len(got) > len(v.want)+100 {
			return wrong("there is no end to it")
		}
		return nil
	})
	if err != nil {
		return err
	}
	want := sortedKeys(v.want)
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return wrong("found %q, want %q", got, want)
	}
	return nil
}
