package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// Scenario "contain": packages with names, links and link targets that lead
// out of the root are installed there, on a disk that fails, in several
// processes one after another; nothing outside may change or show.

func init() {
	scenarios["contain"] = scenario{genContain, runContain}
	propScenarios["C34"] = []weighted{{"contain", 10}, {"dirfs", 4}}
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"contain", 1})
	classes("C34", "escape", "panic", "no-progress")
}

// secret is what the files outside hold.
const secret = "this is none of your business"

// outsideDirs is what there is next to a root "/root0", or at another place.
var outsideDirs = []string{"/victim/d", "/root01/usr", "/etc/apk/keys", "/usr/lib", "/lib/apk/db", "/a/b", "/c"}
var outsideFiles = []string{"/victim/f", "/victim/d/f", "/root01/f", "/etc/passwd", "/etc/abs", "/etc/apk/world", "/usr/lib/f", "/lib/apk/db/installed", "/a/f0", "/f3", "/victim/x.dat.tar.gz"}

func makeOutside() {
	mkdirs(outsideDirs...)
	for _, f := range outsideFiles {
		putFile(f, []byte(secret+" "+f))
	}
}

// outside describes everything that is not below one of the directories.
func outsideOf(dirs ...string) map[string]string {
	m := map[string]string{}
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		for k, c := range n.kids {
			q := p + "/" + k
			if contains(dirs, q) {
				continue
			}
			nl := c.nlink
			if c.isDir() {
				nl = 0
			}
			m[q] = fmt.Sprintf("%o %d:%d %d %d %q %x", c.mode, c.uid, c.gid, c.rdev, nl, c.link, sum1(c.data))
			if c.isDir() {
				walk(c, q)
			}
		}
	}
	walk(sim.k.root, "")
	return m
}

func diffOutside(a, b map[string]string) string {
	all := map[string]bool{}
	for k := range a {
		all[k] = true
	}
	for k := range b {
		all[k] = true
	}
	for _, k := range sortedKeys(all) {
		switch {
		case a[k] == "":
			return k + " has been made"
		case b[k] == "":
			return k + " has been removed"
		case a[k] != b[k]:
			return fmt.Sprintf("%s has changed from %s to %s", k, a[k], b[k])
		}
	}
	return ""
}

func hostileWorld(p *Plan) *world {
	r := newRng(uint64(p.P["world"]), "hostile")
	w := &world{repo: repoFor(p), by: map[string]*pkgSpec{}}
	dirs := []string{"usr", "usr/lib", "usr/l", "l", "usr/m", "m", "etc", "d"}
	links := []string{"usr/l", "l", "usr/m", "m", "usr/lib/n"}
	targets := []string{"/victim", "/victim/f", "/victim/new", "../victim", "../../victim", "../../../victim/f", "../../victim/new", "/", "..", "../..", "/etc", "/etc/passwd", "/etc/abs",
		"../root01", "/root01/f", "/usr/lib", "usr/../../victim", "/root0/../victim", "m", "/usr/m", "/lib/apk/db", "//victim", "/usr/./../../victim", "/root0/usr/lib"}
	names := []string{"x", "f", "d", "new", "d/f", "abs", "passwd", "installed", "apk/world", "victim/f"}
	outs := []string{"../victim/f", "../victim/new", "../../victim/f", "/victim/f", "/victim/new", "usr/../../victim/f", "../root01/f", "../root01/new", "/etc/abs", "./../victim/new", "..", "/", "../victim", "../../new", "../../victim/new", "../../../new", "usr/../../new"}
	any := func() string {
		switch r.intn(12) {
		case 0, 2:
			return outs[r.intn(len(outs))]
		case 1:
			return dirs[r.intn(len(dirs))]
		}
		return dirs[r.intn(len(dirs))] + "/" + names[r.intn(len(names))]
	}
	for i := int64(0); i < p.P["npkgs"]; i++ {
		x := &pkgSpec{name: fmt.Sprintf("h%d", i), version: "1-r0", arch: "x86_64", origin: pickOf(r, "", "o", "o"), builddate: 1, signed: r.p(0.3), slash: r.p(0.3)}
		for n := 1 + r.intn(4); n > 0; n-- {
			f := fileSpec{mode: pickOf[int64](r, 0o644, 0o755, 0o4755, 0o600), uid: r.intn(3), noSum: r.p(0.4)}
			switch r.pick(4, 5, 5, 3) {
			case 0:
				f.kind, f.path, f.mode = tar.TypeDir, any(), pickOf[int64](r, 0o755, 0o700)
			case 1:
				f.kind, f.path, f.link, f.mode = tar.TypeSymlink, links[r.intn(len(links))], targets[r.intn(len(targets))], 0o777
				if r.p(0.1) {
					f.path = any()
				}
			case 2:
				f.kind, f.path, f.body = tar.TypeReg, any(), []byte(fmt.Sprintf("hostile %d", r.intn(100)))
			default:
				f.kind, f.path, f.link = tar.TypeLink, any(), any()
				if r.p(0.3) {
					f.link = targets[r.intn(len(targets))]
				}
			}
			if f.kind != tar.TypeDir && f.path == "/" {
				f.path = "/x"
			}
			if f.kind != tar.TypeDir && r.p(0.5) {
				// or nothing gets that far
				if d := path.Dir(f.path); d != "." && !strings.HasPrefix(d, "..") && d != "/" {
					x.files = append(x.files, fileSpec{kind: tar.TypeDir, path: d, mode: 0o755})
				}
			}
			if r.p(0.1) && f.kind != tar.TypeSymlink && f.kind != tar.TypeLink {
				f.xattr = map[string]string{"user.h": "1"}
			}
			x.files = append(x.files, f)
		}
		if r.p(0.05) {
			x.dataHash = pickOf(r, "../../../../victim/x", "/victim/x", "..", "../../../../../victim/x")
		}
		if r.p(0.3) {
			x.scripts = []string{pickOf(r, ".pre-install", ".post-install", "../.x", "/victim/f")}
			x.triggers = []string{pickOf(r, "/usr/l/*", "../..", "/victim")}
		}
		x.build()
		w.pkgs = append(w.pkgs, x)
		w.by[x.name] = x
	}
	return w
}

func genContain(r *rng, p *Plan) {
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(2 + r.intn(8))
	if r.p(0.4) {
		p.P["feat"] = 16 // local
	}
	p.P["hostlinks"] = int64(r.intn(2))
	w := hostileWorld(p)
	netParams(r, p)
	stages := 1 + r.intn(3)
	for st := 0; st < stages; st++ {
		for n := 1 + r.intn(2); n > 0; n-- {
			o := Op{Stage: st, Node: st + 1, Do: "install", A: "dir", B: pickOf(r, "", "/cache"), L: sublist(r, w, 1), N: int64(r.intn(4))}
			if r.p(0.1) {
				o.A = "mem"
			}
			p.Ops = append(p.Ops, o)
		}
		if r.p(0.5) {
			p.Ops = append(p.Ops, Op{Stage: st, Node: st + 1, Do: "look", N: int64(r.intn(2))})
		}
	}
	p.Budget = 1 + r.intn(4)
	if r.p(0.5) {
		faultRates(r, p, pickOf(r, 0.5, 1.5, 4), true, true)
		if r.p(0.3) {
			crashOn(r, p, 1)
		} else {
			crashOff(p)
		}
		p.P["faultstages"] = 1<<uint(stages) - 1
		// What the disk does not show to DirFS at first it does not show later.
		p.Rates["act:EACCES"] = 0
	} else {
		crashOff(p)
	}
}

func runContain(p *Plan) {
	w := hostileWorld(p)
	sim.k.umask = 0o22
	makeOutside()
	mkdirs("/tmp", "/cache", "/root0")
	if p.P["hostlinks"] != 0 {
		// A root that has such links from before.
		mkdirs("/root0/usr", "/root0/etc")
		for _, l := range [][2]string{{"/root0/l", "/victim"}, {"/root0/usr/m", "../../victim"}} {
			n := sim.k.newInode(0o120777)
			n.link = l[1]
			dirInode(path.Dir(l[0])).kids[path.Base(l[0])] = n
		}
	}
	publishWorld(w, p)
	mine := []string{"/root0", "/tmp", "/cache", "/pkgs"}
	before := outsideOf(mine...)
	begin()
	roots := map[int]zi.FS{}
	rootOf := func(node int) zi.FS {
		if roots[node] == nil {
			if f := adapters[node-1].DirFS("/root0", true, true); f != nil {
				roots[node] = f
			}
		}
		return roots[node]
	}
	runStages(p, func(t *task, r *opRun) {
		ctx, done := opCtx(r)
		defer done()
		pr := adapters[t.id-1]
		f := rootOf(t.id)
		if f == nil {
			return
		}
		sim.res.Evals++
		switch r.op.Do {
		case "install":
			if r.op.A == "mem" {
				f = pr.NewMemFS()
			}
			a, err := pr.New(zi.Opts{FS: f, Arch: "x86_64", Cache: r.op.B, IgnoreMknod: r.op.N&1 != 0, Client: simNet.client(t.id)})
			if err != nil {
				r.err = err
				return
			}
			if r.err = a.InitDB(ctx); r.err != nil {
				return
			}
			for _, x := range w.refsOf(r.op.L, false) {
				// One after another, so that not the first refusal ends it.
				if err := a.InstallPackages(ctx, nil, []*zi.Pkg{x}); err != nil {
					r.err = err
				} else {
					probe("contain-installed")
				}
				if r.op.N&2 != 0 && r.err != nil {
					return
				}
			}
			if r.err == nil {
				probe("contain-ok")
			}
			_, _ = a.GetInstalled()
		case "look":
			var s []string
			_ = fs.WalkDir(f, ".", func(q string, d fs.DirEntry, err error) error {
				if err != nil {
					return nil
				}
				s = append(s, q)
				return nil
			})
			sort.Strings(s)
			for _, q := range append(s, "l/f", "usr/l/f", "usr/m/f", "m/f", "usr/m/d/f", "../victim/f", "l/passwd", "usr/l/../../victim/f", "/victim/f") {
				if b, err := f.ReadFile(q); err == nil && bytes.Contains(b, []byte(secret)) {
					violate("escape", fmt.Sprintf("operation %d: reading %s in the root gives a file that is not there, but outside", r.i, q))
					return
				}
				if h, err := f.Open(q); err == nil {
					b := make([]byte, 100)
					n, _ := h.Read(b)
					h.Close()
					if bytes.Contains(b[:n], []byte(secret)) {
						violate("escape", fmt.Sprintf("operation %d: opening %s in the root gives a file that is not there, but outside", r.i, q))
						return
					}
				}
			}
			if r.op.N&1 != 0 {
				var dst bytes.Buffer
				if tw, err := pr.Tar(zi.TarOpts{Epoch: time.Unix(1, 0)}); err == nil {
					_ = tw(ctx, &dst, f, f, false)
				}
				if bytes.Contains(dst.Bytes(), []byte(secret)) {
					violate("escape", fmt.Sprintf("operation %d: the archive of the root has a file from outside in it", r.i))
				}
			}
			probe("contain-look")
		}
	}, func(stage int, rs []*opRun) {
		if d := diffOutside(before, outsideOf(mine...)); d != "" {
			violate("escape", fmt.Sprintf("after stage %d, %s", stage, d))
		}
	})
}
