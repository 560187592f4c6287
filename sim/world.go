package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// Building packages, indexes and repositories: an independent writer of the
// APK v2 formats, so that the module under test is not its own oracle.

type fileSpec struct {
	path  string
	kind  byte // tar type flag
	mode  int64
	uid   int
	gid   int
	body  []byte
	link  string
	noSum bool // no checksum in the header
	q1Sum bool // checksum in the nonstandard Q1 form
	xattr map[string]string
	note  string // a PAX record of no meaning
	wrong bool   // the checksum is another one
}

type pkgSpec struct {
	name, version, arch string
	origin              string
	deps, provides      []string
	replaces, triggers  []string
	installIf           []string
	scripts             []string // names
	files               []fileSpec
	signed              bool
	desc                string
	builddate           int64
	priority            uint64
	pad                 []byte // makes the scripts long and incompressible
	slash               bool   // directories' names end in a slash, as tar writes them
	dataHash            string // what the control section claims, if not the truth
	cuts                []int  // where the data section's tar is divided into gzip members (in 1/1000 of it)

	// built
	sig, ctl, data []byte
	dataTar        []byte
	apk            []byte
	ctlSum         []byte // sha1
	dataSum        []byte // sha256
	instSize       int
	pkginfo        string
}

func sum1(b []byte) []byte { s := sha1.Sum(b); return s[:] }

func gz(b []byte) []byte {
	var o bytes.Buffer
	w, _ := gzip.NewWriterLevel(&o, gzip.BestSpeed)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

type tarEnt struct {
	hdr  tar.Header
	body []byte
}

func mkTar(ents []tarEnt, trailer bool) []byte {
	var o bytes.Buffer
	w := tar.NewWriter(&o)
	for _, e := range ents {
		h := e.hdr
		h.Size = int64(len(e.body))
		if h.ModTime.IsZero() {
			h.ModTime = time.Unix(1600000000, 0)
		}
		if err := w.WriteHeader(&h); err != nil {
			fatal("tar: " + err.Error())
		}
		w.Write(e.body)
	}
	if trailer {
		w.Close()
	} else {
		w.Flush()
	}
	return o.Bytes()
}

// spoil makes the checksum of one of the files wrong.
func (p *pkgSpec) spoil(r *rng) {
	var l []int
	for i, f := range p.files {
		if f.kind == tar.TypeReg && !f.noSum {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		p.files = append(p.files, fileSpec{path: "evil", kind: tar.TypeReg, mode: 0o755, body: []byte("evil"), wrong: true})
	} else {
		p.files[l[r.intn(len(l))]].wrong = true
	}
	p.instSize = 0
	p.build()
}

func (p *pkgSpec) build() *pkgSpec {
	var ents []tarEnt
	for _, f := range p.files {
		h := tar.Header{Name: f.path, Typeflag: f.kind, Mode: f.mode, Uid: f.uid, Gid: f.gid, Linkname: f.link, Format: tar.FormatPAX,
			ModTime: time.Unix(1500000000, 0)}
		h.PAXRecords = map[string]string{}
		sum := sum1(f.body)
		if f.wrong {
			sum[0] ^= 1
		}
		if f.kind == tar.TypeReg && !f.noSum {
			if f.q1Sum {
				h.PAXRecords["APK-TOOLS.checksum.SHA1"] = "Q1" + base64.StdEncoding.EncodeToString(sum)
			} else {
				h.PAXRecords["APK-TOOLS.checksum.SHA1"] = hex.EncodeToString(sum)
			}
		}
		for k, v := range f.xattr {
			h.PAXRecords["SCHILY.xattr."+k] = v
		}
		if f.note != "" {
			h.PAXRecords["VENDOR.xattr."+f.note] = "n"
		}
		if p.slash && f.kind == tar.TypeDir {
			h.Name += "/"
		}
		if len(h.PAXRecords) == 0 {
			h.PAXRecords = nil
			h.Format = 0
		}
		ents = append(ents, tarEnt{h, f.body})
		p.instSize += len(f.body)
	}
	p.dataTar = mkTar(ents, true)
	p.data = nil
	at := 0
	for _, c := range p.cuts {
		// Within what the entries take, and not between two blocks.
		if i := max(len(p.dataTar)-1024, 0)*c/1000 | 1; i > at && i < len(p.dataTar)-1024 {
			p.data = append(p.data, gz(p.dataTar[at:i])...)
			at = i
		}
	}
	p.data = append(p.data, gz(p.dataTar[at:])...)
	ds := sha256.Sum256(p.data)
	p.dataSum = ds[:]
	var b strings.Builder
	fmt.Fprintf(&b, "# Generated\npkgname = %s\npkgver = %s\narch = %s\nsize = %d\n", p.name, p.version, p.arch, p.instSize)
	if p.origin != "" {
		fmt.Fprintf(&b, "origin = %s\n", p.origin)
	}
	fmt.Fprintf(&b, "pkgdesc = %s\nurl = http://example.com/%s\nbuilddate = %d\nlicense = MIT\n", p.desc, p.name, p.builddate)
	for _, x := range p.deps {
		fmt.Fprintf(&b, "depend = %s\n", x)
	}
	for _, x := range p.provides {
		fmt.Fprintf(&b, "provides = %s\n", x)
	}
	for _, x := range p.replaces {
		fmt.Fprintf(&b, "replaces = %s\n", x)
	}
	for _, x := range p.triggers {
		fmt.Fprintf(&b, "triggers = %s\n", x)
	}
	if p.dataHash == "" {
		fmt.Fprintf(&b, "datahash = %x\n", p.dataSum)
	} else {
		fmt.Fprintf(&b, "datahash = %s\n", p.dataHash)
	}
	p.pkginfo = b.String()
	ce := []tarEnt{{tar.Header{Name: ".PKGINFO", Mode: 0o644, Typeflag: tar.TypeReg}, []byte(p.pkginfo)}}
	for _, s := range p.scripts {
		ce = append(ce, tarEnt{tar.Header{Name: s, Mode: 0o755, Typeflag: tar.TypeReg}, p.scriptBody(s)})
	}
	p.ctl = gz(mkTar(ce, false))
	p.ctlSum = sum1(p.ctl)
	if p.signed {
		p.sig = sigStream(0, "packager.rsa.pub", p.ctl)
	}
	p.apk = append(append(append([]byte{}, p.sig...), p.ctl...), p.data...)
	return p
}

func (p *pkgSpec) scriptBody(s string) []byte {
	b := []byte("#!/bin/sh\n# " + p.name + "-" + p.version + " " + s + "\n")
	return append(b, p.pad...)
}

func (p *pkgSpec) sum() string { return "Q1" + base64.StdEncoding.EncodeToString(p.ctlSum) }

func (p *pkgSpec) filename() string { return p.name + "-" + p.version + ".apk" }

func (p *pkgSpec) ref(repo string) *zi.Pkg {
	r := repo + "/" + p.arch
	return &zi.Pkg{Name: p.name, Version: p.version, Arch: p.arch, Checksum: p.ctlSum, Sum: p.sum(), Repo: r, Link: r + "/" + p.filename()}
}

func privKey(i int) *rsa.PrivateKey {
	b, _ := pem.Decode([]byte(testKeys[i].priv))
	k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
	if err != nil {
		fatal(err.Error())
	}
	return k
}

// sigStream is a gzip stream holding a tar with one signature file and no
// end-of-archive marker, as abuild-sign and melange write it.
func sigStream(key int, keyName string, signed []byte) []byte {
	s, err := rsa.SignPKCS1v15(nil, privKey(key), crypto.SHA1, sum1(signed))
	if err != nil {
		fatal(err.Error())
	}
	return gz(mkTar([]tarEnt{{tar.Header{Name: ".SIGN.RSA." + keyName, Mode: 0o644, Typeflag: tar.TypeReg}, s}}, false))
}

func (p *pkgSpec) indexEntry() string {
	var b strings.Builder
	fmt.Fprintf(&b, "C:%s\nP:%s\nV:%s\nA:%s\nS:%d\nI:%d\nT:%s\nU:http://example.com/%s\nL:MIT\n", p.sum(), p.name, p.version, p.arch, len(p.apk), p.instSize, p.desc, p.name)
	if p.origin != "" {
		fmt.Fprintf(&b, "o:%s\n", p.origin)
	}
	fmt.Fprintf(&b, "t:%d\n", p.builddate)
	if len(p.deps) > 0 {
		fmt.Fprintf(&b, "D:%s\n", strings.Join(p.deps, " "))
	}
	if len(p.provides) > 0 {
		fmt.Fprintf(&b, "p:%s\n", strings.Join(p.provides, " "))
	}
	if len(p.installIf) > 0 {
		fmt.Fprintf(&b, "i:%s\n", strings.Join(p.installIf, " "))
	}
	if p.priority > 0 {
		fmt.Fprintf(&b, "k:%d\n", p.priority)
	}
	return b.String() + "\n"
}

// buildIndex makes an APKINDEX.tar.gz; key < 0 leaves it unsigned.
func buildIndex(desc string, pkgs []*pkgSpec, key int, keyName string) []byte {
	var b strings.Builder
	for _, p := range pkgs {
		b.WriteString(p.indexEntry())
	}
	idx := gz(mkTar([]tarEnt{
		{tar.Header{Name: "DESCRIPTION", Mode: 0o644, Typeflag: tar.TypeReg}, []byte(desc)},
		{tar.Header{Name: "APKINDEX", Mode: 0o644, Typeflag: tar.TypeReg}, []byte(b.String())},
	}, true))
	if key < 0 {
		return idx
	}
	return append(sigStream(key, keyName, idx), idx...)
}

// ---- generated package sets ----------------------------------------------------------

type world struct {
	repo string
	pkgs []*pkgSpec
	by   map[string]*pkgSpec

	answers map[string]wanted
}

func (w *world) refs(names []string) []*zi.Pkg {
	var out []*zi.Pkg
	for _, n := range names {
		if p := w.by[n]; p != nil {
			out = append(out, p.ref(w.repo))
		}
	}
	return out
}

func randBytes(r *rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

// genWorld makes n packages that share directories and sometimes files.
// conflicts allows overlaps that must make an installation fail.
//
// feat adds what packages seldom have: 1 hard links, equal links in two
// packages, long scripts, bits beyond the permissions; 2 a directory that
// some packages see through a link of another one; 4 links that clash; 8 needs
// of each other; 32 directories whose names end in a slash; 64 short names; (16, see worldFor: the packages are local files).
func genWorld(r *rng, repo string, n int, overlaps, conflicts bool, feat int64) *world {
	w := &world{repo: repo, by: map[string]*pkgSpec{}}
	dirs := []string{"usr", "usr/bin", "usr/lib", "usr/share", "etc", "etc/conf.d", "opt", "usr/share/doc"}
	shared := []string{"usr/bin/tool", "etc/motd", "usr/share/doc/README", "usr/lib/common.so", "opt/s1"}
	sharedBody := map[string][][]byte{}
	for _, s := range shared {
		sharedBody[s] = [][]byte{randBytes(r, 1+r.intn(200)), randBytes(r, 1+r.intn(200))}
	}
	bare := r.p(0.1) // no origins
	if conflicts {
		bare = r.p(0.35)
	}
	bare = bare && overlaps
	for i := 0; i < n; i++ {
		p := &pkgSpec{name: fmt.Sprintf("p%c%d", 'a'+byte(i%26), i), version: fmt.Sprintf("%d.%d-r%d", 1+r.intn(3), r.intn(10), r.intn(4)), arch: "x86_64",
			desc: fmt.Sprintf("package %d", i), builddate: 1600000000 + int64(i)}
		p.origin = p.name
		if overlaps && r.p(0.4) {
			p.origin = "orig" + fmt.Sprint(r.intn(2))
		}
		if bare && r.p(0.7) {
			p.origin = ""
		}
		p.signed = r.p(0.5)
		if r.p(0.4) {
			p.scripts = append(p.scripts, ".pre-install")
		}
		if r.p(0.4) {
			p.scripts = append(p.scripts, ".post-install")
		}
		if r.p(0.3) {
			p.triggers = append(p.triggers, "/usr/share/*")
			if r.p(0.5) {
				p.triggers = append(p.triggers, fmt.Sprintf("/opt/%d", i))
			}
			p.scripts = append(p.scripts, ".trigger")
		}
		have := map[string]bool{}
		addDir := func(d string) {
			var ps []string
			for x := d; x != "." && x != "/"; x = path.Dir(x) {
				ps = append([]string{x}, ps...)
			}
			for _, x := range ps {
				if !have[x] {
					have[x] = true
					// The mode of a directory depends on its path only: which
					// package comes first must not decide it in the model.
					m := int64(0o755)
					if x == "opt" {
						m = 0o700
					}
					d := fileSpec{path: x, kind: tar.TypeDir, mode: m}
					if feat&1 != 0 && (x == "opt" || x == "usr/share/doc") && r.p(0.3) {
						d.xattr = map[string]string{"user.d": fmt.Sprint(i), fmt.Sprintf("user.e%d", r.intn(3)): "x"}
					}
					if r.p(0.2) {
						d.uid, d.gid = pickOf(r, 0, 10+i), pickOf(r, 0, 20+i)
					}
					if r.p(0.1) {
						d.note = "user.n"
					}
					p.files = append(p.files, d)
				}
			}
		}
		nf := r.intn(5)
		for j := 0; j < nf; j++ {
			d := dirs[r.intn(len(dirs))]
			addDir(d)
			f := fileSpec{path: fmt.Sprintf("%s/f%d-%d", d, i, j), kind: tar.TypeReg, mode: pickOf[int64](r, 0o644, 0o755, 0o600)}
			switch r.intn(10) {
			case 0:
				f.body = nil
			case 1:
				f.body = randBytes(r, 3000+r.intn(9000))
			default:
				f.body = randBytes(r, r.intn(400))
			}
			f.noSum = r.p(0.2)
			f.q1Sum = r.p(0.2)
			if r.p(0.1) {
				f.xattr = map[string]string{"user.k": fmt.Sprint(i)}
			}
			if r.p(0.15) {
				f.uid, f.gid = pickOf(r, 0, 10+i), pickOf(r, 0, 20+i)
			}
			if r.p(0.1) {
				f.note = "user.n"
			}
			p.files = append(p.files, f)
		}
		if r.p(0.3) {
			addDir("usr/bin")
			p.files = append(p.files, fileSpec{path: fmt.Sprintf("usr/bin/l%d", i), kind: tar.TypeSymlink, mode: 0o777, link: pickOf(r, "tool", "../lib/common.so", "/opt/s1")})
		}
		if overlaps && r.p(0.5) {
			s := shared[r.intn(len(shared))]
			addDir(path.Dir(s))
			v := r.intn(2)
			p.files = append(p.files, fileSpec{path: s, kind: tar.TypeReg, mode: 0o644, body: sharedBody[s][v], noSum: r.p(0.2)})
			if r.p(0.4) && i > 0 {
				p.replaces = append(p.replaces, w.pkgs[r.intn(i)].name)
			}
			for r.p(0.3) {
				// Also those that come later, or are not there, or whose origin it is.
				k := r.intn(n + 1)
				if x := pickOf(r, fmt.Sprintf("p%c%d", 'a'+byte(k%26), k), fmt.Sprintf("p%c%d", 'a'+byte(k%26), k), "orig0"); x != p.name && !contains(p.replaces, x) {
					p.replaces = append(p.replaces, x)
				}
			}
		}
		if feat&1 != 0 {
			if len(p.scripts) > 0 && r.p(0.3) {
				p.pad = randBytes(r, 3000+r.intn(9000))
			}
			if r.p(0.2) {
				p.desc += " " + base64.StdEncoding.EncodeToString(randBytes(r, 3000+r.intn(6000)))
			}
			if overlaps && r.p(0.5) {
				addDir("usr/lib")
				p.files = append(p.files, fileSpec{path: "usr/lib/alias", kind: tar.TypeSymlink, mode: 0o777, link: "common.so"})
			}
			if r.p(0.5) {
				addDir("opt")
				t := fileSpec{path: fmt.Sprintf("opt/a%d", i), kind: tar.TypeReg, mode: pickOf[int64](r, 0o755, 0o4755, 0o2755, 0o1644), body: randBytes(r, r.intn(300))}
				p.files = append(p.files, t, fileSpec{path: fmt.Sprintf("opt/b%d", i), kind: tar.TypeLink, mode: 0o755, link: t.path})
			}
		}
		if feat&2 != 0 && i > 0 && r.p(0.6) {
			addDir("lib64")
			p.files = append(p.files, fileSpec{path: fmt.Sprintf("lib64/m%d", i), kind: tar.TypeReg, mode: 0o644, body: randBytes(r, r.intn(300))})
			if r.p(0.4) {
				addDir("lib64/sub")
				p.files = append(p.files, fileSpec{path: fmt.Sprintf("lib64/sub/m%d", i), kind: tar.TypeReg, mode: 0o644, body: randBytes(r, r.intn(300))})
			}
		}
		if feat&2 != 0 && i == 0 {
			addDir("usr/lib")
			p.files = append(p.files, fileSpec{path: "lib64", kind: tar.TypeSymlink, mode: 0o777, link: pickOf(r, "usr/lib", "/usr/lib")})
		}
		if feat&4 != 0 && r.p(0.6) {
			addDir("opt")
			f := fileSpec{path: "opt/clash", mode: 0o755}
			switch r.intn(5) {
			case 4:
				f.kind = tar.TypeDir
			case 0, 1:
				f.kind, f.link = tar.TypeSymlink, pickOf(r, "s1", "s2", "../usr", "../usr/lib")
			case 2:
				f.kind, f.body = tar.TypeReg, randBytes(r, 1+r.intn(100))
			case 3:
				t := fileSpec{path: fmt.Sprintf("opt/c%d", i), kind: tar.TypeReg, mode: 0o755, body: randBytes(r, 1+r.intn(300))}
				p.files = append(p.files, t)
				f.kind, f.link = tar.TypeLink, t.path
			}
			p.files = append(p.files, f)
		}
		if feat&8 != 0 {
			if r.p(0.3) {
				p.provides = append(p.provides, "virt"+fmt.Sprint(r.intn(3)))
			}
			for k := r.intn(3); k > 0 && i > 0; k-- {
				o := w.pkgs[r.intn(i)]
				d := o.name
				if r.p(0.3) && len(o.provides) > 0 {
					d = o.provides[0]
				} else if r.p(0.3) {
					d += pickOf(r, "=", ">=", "~") + o.version
				}
				if !contains(p.deps, d) {
					p.deps = append(p.deps, d)
				}
			}
		}
		if feat&32 != 0 {
			p.slash = r.p(0.6)
		}
		if r.p(0.12) {
			// The data section consists of several gzip members.
			for c := r.intn(700); c < 1000; c += 1 + r.intn(700) {
				p.cuts = append(p.cuts, c)
			}
		}
		if feat&64 != 0 {
			// Short names, and one within another.
			if r.p(0.5) {
				addDir(pickOf(r, "a", "a/b", "usr/s/t"))
			}
			for _, f := range []string{"a/x", "a/b/x", "x", "usr/b", "usr/s/t/u"} {
				if r.p(0.3) {
					addDir(path.Dir(f))
					p.files = append(p.files, fileSpec{path: f, kind: tar.TypeReg, mode: 0o644, body: randBytes(r, r.intn(5000))})
				}
			}
			if feat&256 != 0 || r.p(0.2) {
				p.files = append(p.files, fileSpec{path: pickOf(r, "0big", "big"), kind: tar.TypeReg, mode: 0o644, body: randBytes(r, 40_000+r.intn(40_000))})
			}
		}
		// Directories and their contents in tar order: parents first.
		sort.SliceStable(p.files, func(a, b int) bool { return p.files[a].path < p.files[b].path })
		p.build()
		w.pkgs = append(w.pkgs, p)
		w.by[p.name] = p
	}
	if !conflicts {
		// Give every package that cannot be installed with the others one that can.
		for try := 0; try < 50; try++ {
			var names []string
			for _, p := range w.pkgs {
				names = append(names, p.name)
			}
			m := w.model(names)
			if m.err == "" {
				break
			}
			p := w.by[m.culprit]
			var keep []fileSpec
			for _, f := range p.files {
				if f.path != m.culpritFile {
					keep = append(keep, f)
				}
			}
			p.files = keep
			p.instSize = 0
			p.build()
		}
	}
	return w
}

// ---- the reference model of an installation ---------------------------------------------

type modelFile struct {
	mode  int64
	kind  byte
	body  []byte
	link  string
	xattr map[string]string
}

type modelPkg struct {
	p     *pkgSpec
	files map[string]string // path -> "" for a directory, checksum for a file, "link" for a symlink
}

type modelState struct {
	files                map[string]*modelFile
	pkgs                 []modelPkg
	scripts              []string // "name|body"
	triggers             []string
	err                  string
	culprit, culpritFile string
}

func (w *world) model(order []string) *modelState { return w.modelCut(order, 0) }

// modelCut is the outcome of installing the first cut packages with one call
// and all of them with another.
func (w *world) modelCut(order []string, cut int) *modelState {
	m := &modelState{files: map[string]*modelFile{}}
	at := func(p string) string { // through a link to a directory
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if l := m.files[d]; l != nil && l.kind == tar.TypeSymlink {
				return strings.TrimPrefix(l.link, "/") + strings.TrimPrefix(p, d)
			}
		}
		return p
	}
	inst := map[string]string{}
	attempted := map[string][]string{}
	recorded := map[string]bool{}
	record := func(order []string) {
		for _, n := range order {
			p := w.by[n]
			if p == nil || recorded[n] {
				continue
			}
			recorded[n] = true
			mp := modelPkg{p, map[string]string{}}
			kinds := map[string]byte{}
			for _, f := range p.files {
				kinds[f.path] = f.kind
			}
			for _, f := range attempted[n] {
				switch kinds[f] {
				case tar.TypeDir:
					mp.files[f] = ""
				case tar.TypeReg:
					if inst[f] == n {
						mp.files[f] = "Q1" + base64.StdEncoding.EncodeToString(sum1(m.files[at(f)].body))
					}
				default:
					mp.files[f] = "link"
				}
			}
			m.pkgs = append(m.pkgs, mp)
		}
	}
	for i, n := range order {
		if i == cut {
			record(order[:i])
		}
		p := w.by[n]
		if p == nil || attempted[n] != nil {
			// The module decides "already installed" from the database, which
			// is only written at the end, so a name must not come twice.
			continue
		}
		listed := []string{}
		for _, f := range p.files {
			at := at(f.path)
			old := m.files[at]
			switch f.kind {
			case tar.TypeDir:
				if old == nil {
					m.files[at] = &modelFile{mode: f.mode, kind: tar.TypeDir, xattr: map[string]string{}}
				} else if old.kind == tar.TypeSymlink {
					to := old.link
					if path.Dir(at) != "." && !path.IsAbs(to) {
						to = path.Join(path.Dir(at), to)
					}
					if t := m.files[strings.TrimPrefix(to, "/")]; t == nil || t.kind != tar.TypeDir {
						m.fail(p, f)
						return m
					}
					for k, v := range f.xattr {
						m.files[strings.TrimPrefix(to, "/")].xattr[k] = v
					}
					break
				} else if old.kind != tar.TypeDir {
					m.fail(p, f)
					return m
				}
				for k, v := range f.xattr {
					m.files[at].xattr[k] = v
				}
			case tar.TypeSymlink:
				if old != nil {
					if old.kind == tar.TypeSymlink && old.link == f.link {
						continue
					}
					m.fail(p, f)
					return m
				}
				m.files[at] = &modelFile{kind: tar.TypeSymlink, link: f.link}
			case tar.TypeLink:
				t := m.files[f.link]
				if old != nil || t == nil {
					m.fail(p, f)
					return m
				}
				m.files[at] = &modelFile{mode: t.mode, kind: tar.TypeReg, body: t.body}
			case tar.TypeReg:
				take := true
				if old != nil {
					own := w.by[inst[f.path]]
					switch {
					case old.kind != tar.TypeReg || p.origin == "":
						m.fail(p, f)
						return m
					case bytes.Equal(old.body, f.body):
						take = false
					case own == nil:
						m.fail(p, f)
						return m
					case contains(own.replaces, p.name):
						take = false
					case own.origin == p.origin || contains(p.replaces, own.name):
					default:
						m.fail(p, f)
						return m
					}
				}
				if take {
					m.files[at] = &modelFile{mode: f.mode, kind: tar.TypeReg, body: f.body, xattr: f.xattr}
					inst[f.path] = n
				}
			}
			listed = append(listed, f.path)
		}
		attempted[n] = listed
		for _, s := range p.scripts {
			m.scripts = append(m.scripts, fmt.Sprintf("%s-%s.%s%s|%s", p.name, p.version, p.sum(), s, p.scriptBody(s)))
		}
		for _, t := range p.triggers {
			m.triggers = append(m.triggers, base64.StdEncoding.EncodeToString(p.ctlSum)+" "+t)
		}
	}
	record(order)
	return m
}

func (m *modelState) fail(p *pkgSpec, f fileSpec) {
	m.err = fmt.Sprintf("%s cannot be installed over the existing %s", p.name, f.path)
	m.culprit, m.culpritFile = p.name, f.path
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
