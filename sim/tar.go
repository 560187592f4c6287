package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// The tar scenario (C16): several processes and clients archive equal trees,
// held in memory, on disk or in a file system that fails, to writers that
// fail.

func init() {
	scenarios["tar"] = scenario{genTar, runTar}
	propScenarios["C16"] = append(propScenarios["C16"], weighted{"tar", 10})
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"tar", 1})
	classes("C16", "archive-wrong", "archive-differs", "archive-refused", "no-progress")
}

type tent struct {
	p        string
	kind     byte
	mode     fs.FileMode // permission and set-id bits
	uid, gid int
	data     []byte
	target   string
	dev      int
	xattr    map[string]string
	ino      int // entries with one inode, 0: its own
}

// genTree draws a tree; parents come first.
func genTree(seed int64, links bool, hard bool, big bool) []tent {
	r := newRng(uint64(seed), "tree")
	dirs := []string{""}
	taken := map[string]bool{}
	var ts []tent
	word := func() string {
		switch r.intn(12) {
		case 0:
			return strings.Repeat("long", 10+r.intn(50))
		case 1:
			return pickOf(r, "a-b", "a.b", "a b", "a", "ab", "a+", "A", "é", "-x", ".h", "a\\b", "äö", "~")
		}
		return fmt.Sprintf("%c%d", 'a'+r.intn(6), r.intn(4))
	}
	own := func() int { return pickOf(r, 0, 0, 0, 1, 1000, 65532, 2097151, 2097152, 3_000_000) }
	xat := func() map[string]string {
		m := map[string]string{}
		if r.p(0.15) {
			for i := 0; i < 1+r.intn(3); i++ {
				m[pickOf(r, "user.a", "security.capability", "user.mime", "user.b")] = strings.Repeat("v", r.intn(5)) + fmt.Sprint(r.intn(100))
			}
		}
		return m
	}
	n := 1 + r.intn(25)
	if r.p(0.05) {
		n = 0
	}
	add := func(t tent) {
		taken[t.p] = true
		ts = append(ts, t)
	}
	if r.p(0.5) {
		add(tent{p: "etc", kind: 'd', mode: 0o755})
		dirs = append(dirs, "etc")
	}
	for i := 0; i < n; i++ {
		p := path.Join(dirs[r.intn(len(dirs))], word())
		if taken[p] || len(p) > 900 {
			continue
		}
		t := tent{p: p, uid: own(), gid: own()}
		switch r.pick(4, 10, 3, 1, 2) {
		case 0:
			t.kind, t.mode, t.xattr = 'd', pickOf[fs.FileMode](r, 0o755, 0o700, 0o1777&0o777|fs.ModeSticky, 0o755|fs.ModeSetgid), xat()
			dirs = append(dirs, p)
		case 1:
			t.kind, t.mode, t.xattr = '-', pickOf[fs.FileMode](r, 0o644, 0o755, 0o600, 0, 0o755|fs.ModeSetuid, 0o755|fs.ModeSetgid, 0o444), xat()
			sz := pickOf(r, 0, 1, 511, 512, 513, r.intn(5000), r.intn(40000))
			if big && r.p(0.3) {
				sz = 1<<20 + r.intn(1<<20)
			}
			t.data = make([]byte, sz)
			for j := range t.data {
				t.data[j] = byte(r.s >> 33)
				if j%13 == 0 || sz < 3000 {
					r.u64()
				}
			}
		case 2:
			if !links {
				continue
			}
			t.kind, t.mode = 'l', 0o777
			t.target = pickOf(r, "a", "../x", "/etc/passwd", "nowhere", strings.Repeat("t/", 1+r.intn(120))+"end", p)
		case 3:
			if !links {
				continue
			}
			t.kind, t.mode, t.dev = 'c', pickOf[fs.FileMode](r, 0o644, 0o666, 0o600), pickOf(r, 0x501, 0x103, 0x10305)
		case 4:
			if !hard {
				continue
			}
			var l []int
			for k := range ts {
				if ts[k].kind == '-' {
					l = append(l, k)
				}
			}
			if len(l) == 0 {
				continue
			}
			o := &ts[l[r.intn(len(l))]]
			if o.ino == 0 {
				o.ino = i + 1
			}
			t = *o
			t.p = p
		}
		add(t)
	}
	if taken["etc"] && r.p(0.7) && !taken["etc/passwd"] {
		add(tent{p: "etc/passwd", kind: '-', mode: 0o644, data: []byte("root:x:0:0:root:/root:/bin/sh\nu:x:1000:1000:u:/home/u:/bin/sh\nodd:x:3000000:7:odd:/:/bin/sh\n")})
	}
	if taken["etc"] && r.p(0.7) && !taken["etc/group"] {
		add(tent{p: "etc/group", kind: '-', mode: 0o644, data: []byte("root:x:0:\ng:x:1000:u\nnobody:x:65532:\n")})
	}
	return ts
}

func (t *tent) has(ts []tent) (passwd, group bool) {
	for _, e := range ts {
		passwd = passwd || e.p == "etc/passwd"
		group = group || e.p == "etc/group"
	}
	return
}

// growTree makes the tree in f, in a random order that has parents first.
func growTree(f zi.FS, ts []tent, seed int64) error {
	r := newRng(uint64(seed), "grow")
	left := make([]int, len(ts))
	for i := range ts {
		left[i] = i
	}
	shuffle(r, left)
	there := map[string]bool{".": true}
	first := map[int]string{}
	meta := func(t *tent) error {
		if t.kind != 'l' {
			if err := f.Chmod(t.p, t.mode); err != nil {
				return err
			}
			if err := f.Chown(t.p, t.uid, t.gid); err != nil {
				return err
			}
		}
		for _, k := range sortedKeys(t.xattr) {
			if err := f.SetXattr(t.p, k, []byte(t.xattr[k])); err != nil {
				return err
			}
		}
		return nil
	}
	for len(left) > 0 {
		var rest []int
		for _, i := range left {
			t := &ts[i]
			if !there[path.Dir(t.p)] {
				rest = append(rest, i)
				continue
			}
			there[t.p] = true
			var err error
			switch t.kind {
			case 'd':
				err = f.Mkdir(t.p, t.mode.Perm())
			case '-':
				if o := first[t.ino]; t.ino != 0 && o != "" {
					err = f.Link(o, t.p)
				} else {
					err = f.WriteFile(t.p, t.data, t.mode.Perm())
					first[t.ino] = t.p
				}
			case 'l':
				err = f.Symlink(t.target, t.p)
			case 'c':
				err = f.Mknod(t.p, 0o020000|uint32(t.mode.Perm()), t.dev)
			}
			if err == nil {
				err = meta(t)
			}
			if err != nil {
				return fmt.Errorf("%s: %w", t.p, err)
			}
		}
		left = rest
	}
	return nil
}

// tarOpts draws the options of one archive.
func tarOpts(seed int64, ts []tent) (o zi.TarOpts, gz bool) {
	r := newRng(uint64(seed), "opts")
	o.Epoch = time.Unix(pickOf[int64](r, 0, 1, 1600000000, 1<<33+5), 0).UTC()
	if r.p(0.2) {
		o.Epoch = time.Unix(1650000000, 0).In(time.FixedZone("x", 3600))
	}
	o.Checksums, o.SkipClose, o.Owner = r.p(0.4), r.p(0.25), r.p(0.2)
	if !o.Owner && r.p(0.15) {
		o.IDs = []int{pickOf(r, 0, 1000, 7), pickOf(r, 0, 65532, 3_000_000)}
	}
	if r.p(0.2) {
		o.Remap = map[int]int{1000: 5, 0: 1000, 1: 3_000_000}
	}
	if r.p(0.1) {
		o.RemapG = map[int]int{1000: 65532, 0: 7}
	}
	if r.p(0.15) {
		o.Uname = "name"
	}
	if r.p(0.15) {
		o.Gname = "gname"
	}
	for _, t := range ts {
		if r.p(0.06) {
			h := tar.Header{Name: t.p, Mode: pickOf[int64](r, 0o600, 0o4711, 0o755), Uid: r.intn(9), Gid: r.intn(9), Uname: pickOf(r, "", "ov"), Gname: pickOf(r, "", "ovg")}
			if r.p(0.3) {
				h.Name = "/" + h.Name
			}
			o.Perms = append(o.Perms, h)
		}
	}
	if sim.plan.P["eof"] == 1 {
		o.Checksums = false
	}
	gz = r.p(0.4)
	if gz && r.p(0.2) {
		o.Archive = true
	}
	return
}

func genTar(r *rng, p *Plan) {
	p.Sched.Gap = pickOf(r, 0, 100, 1000, 5000)
	p.P["tree"] = int64(r.u64() >> 1)
	p.P["src"] = int64(r.pick(5, 3, 3)) // memory, DirFS, os.DirFS
	p.P["big"] = int64(r.pick(12, 1))
	p.P["users"] = int64(r.pick(3, 1))
	p.P["eof"] = int64(r.pick(4, 1))
	p.P["reuse"] = int64(r.pick(1, 1))
	p.P["sub"] = 0
	if p.P["src"] == 1 && r.p(0.4) {
		// An ordinary user's directory: who owns what is in memory, and so are devices.
		p.P["unpriv"] = 1
	}
	if p.P["src"] == 2 {
		p.P["sub"] = int64(r.pick(1, 1))
	}
	p.Budget = r.intn(4)
	flakyRates(r, p, pickOf(r, 0, 0.003, 0.01, 0.03))
	p.Rates["fs:chmod"], p.Rates["fs:chown"] = 0, 0
	p.Rates["stream:sink"] = pickOf(r, 0, 0, 0.001, 0.01, 0.1)
	if p.P["src"] != 0 {
		faultRates(r, p, 0.5, true, false)
		crashOff(p)
	}
	p.P["faultstages"] = 1
	trees := 1 + r.intn(2)
	p.P["trees"] = int64(trees)
	nodes := 1 + r.intn(3)
	opts := []int64{int64(r.u64() >> 2), int64(r.u64() >> 2)}
	for c := 0; c < 1+r.intn(3); c++ {
		for n := 1; n <= nodes; n++ {
			for i := 0; i < 1+r.intn(2); i++ {
				o := Op{Client: c, Node: n, Do: "tar", A: fmt.Sprint(r.intn(trees)), N: opts[r.intn(2)]}
				if p.P["sub"] == 1 && r.p(0.4) {
					o.A = "0s"
				}
				if r.p(0.08) {
					o.M = int64(1 + r.intn(3000))
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
	p.Ops = append(p.Ops, Op{Stage: 1, Node: 1, Do: "tar", A: "0", N: opts[0]})
}

// sink is where archives are written to.
type sink struct{ b []byte }

func (s *sink) Write(b []byte) (int, error) {
	yieldPoint()
	late("write to the destination")
	if f, ok := decide("stream", curNode(), "sink", "dst", []string{"EIO", "partial"}, func(string) int64 { return int64(sim.frng.u64() >> 1) }); ok {
		n := 0
		if f.Act == "partial" && len(b) > 0 {
			n = int(f.Arg % int64(len(b)))
		}
		s.b = append(s.b, b[:n]...)
		return n, fmt.Errorf("sim: the destination failed")
	}
	s.b = append(s.b, b...)
	return len(b), nil
}

type tarSrc struct {
	fs    fs.FS
	users fs.FS
}

func runTar(p *Plan) {
	ks := p.P["src"]
	type key struct {
		node int
		tree string
	}
	srcs := map[key]*tarSrc{}
	trees := map[string][]tent{}
	sim.k.umask = 0
	for i := 0; i < int(p.P["trees"]); i++ {
		trees[fmt.Sprint(i)] = genTree(p.P["tree"]+int64(i), ks != 2, ks != 1 || true, p.P["big"] == 1)
	}
	userTree := []tent{{p: "etc", kind: 'd', mode: 0o755},
		{p: "etc/passwd", kind: '-', mode: 0o644, data: []byte("root:x:0:0:root:/root:/bin/sh\nother:x:1000:1000:u:/home/u:/bin/sh\n")}}
	sub := ""
	if p.P["sub"] == 1 {
		trees["0s"], sub = subTree(trees["0"])
	}
	var src func(node int, tree string) *tarSrc
	src = func(node int, tree string) *tarSrc {
		k := key{node, tree}
		if srcs[k] != nil {
			return srcs[k]
		}
		s := &tarSrc{}
		if tree == "0s" {
			// A directory of a tree that is archived as a whole as well.
			src(node, "0")
		}
		inNode(node, func() {
			pr := adapters[node-1]
			if tree == "0s" {
				s.fs = os.DirFS(fmt.Sprintf("/src%d-0/%s", node, sub))
				s.users = s.fs
				return
			}
			var f zi.FS
			if ks == 0 {
				f = pr.NewMemFS()
			} else {
				f = pr.DirFS(fmt.Sprintf("/src%d-%s", node, tree), true, true)
			}
			if err := growTree(f, trees[tree], int64(node)+p.P["tree"]); err != nil {
				fatal("growing the tree: " + err.Error())
			}
			switch ks {
			case 0:
				s.fs = &flakyFS{f}
			case 1:
				s.fs = f
			case 2:
				s.fs = os.DirFS(fmt.Sprintf("/src%d-%s", node, tree))
			}
			s.users = s.fs
			if p.P["users"] == 1 {
				u := pr.NewMemFS()
				if err := growTree(u, userTree, 1); err != nil {
					fatal(err.Error())
				}
				s.users = &flakyFS{u}
			}
		})
		srcs[k] = s
		return s
	}
	for i := range p.Ops {
		src(p.Ops[i].Node, p.Ops[i].A)
	}
	want := map[string][]byte{}
	writers := map[string]func(context.Context, io.Writer, fs.FS, fs.FS, bool) error{}
	begin()
	runStages(p, func(t *task, r *opRun) {
		s := srcs[key{t.id, r.op.A}]
		o, gz := tarOpts(r.op.N, trees["0"])
		ctx, done := opCtx(r)
		out := &sink{}
		r.out = out
		k := fmt.Sprint(t.id, " ", r.op.N)
		write := writers[k]
		var err error
		if write == nil {
			if write, err = adapters[t.id-1].Tar(o); err != nil {
				fatal(err.Error())
			}
			if p.P["reuse"] == 1 {
				writers[k] = write
			}
		}
		err = write(ctx, out, s.fs, s.users, gz)
		r.err = err
		done()
	}, func(st int, rs []*opRun) {
		for _, r := range rs {
			if !r.done {
				continue
			}
			sim.res.Evals++
			ts := trees[r.op.A]
			o, gz := tarOpts(r.op.N, trees["0"])
			noteState(fmt.Sprint(r.err != nil, gz, o.Checksums, len(ts)))
			if r.err != nil {
				if !r.ownFault() {
					violate("archive-refused", fmt.Sprintf("operation %d: archiving failed with nothing wrong: %v", r.i, r.err))
				}
				continue
			}
			b := r.out.(*sink).b
			ut := ts
			if p.P["users"] == 1 && !o.Archive && r.op.A != "0s" {
				ut = userTree
			}
			if x := judgeArchive(b, gz, ts, ut, o, ks); x != "" {
				violate("archive-wrong", fmt.Sprintf("operation %d: archiving returned success, but %s", r.i, x))
				continue
			}
			k := fmt.Sprintf("%s %d", r.op.A, r.op.N)
			if want[k] == nil {
				want[k] = b
			} else if !bytes.Equal(want[k], b) {
				violate("archive-differs", fmt.Sprintf("operation %d: an equal tree with equal options gives another archive", r.i))
			}
		}
	})
}

// subTree gives the part of the tree below its most populated directory.
func subTree(ts []tent) ([]tent, string) {
	n, best := map[string]int{}, "."
	for _, t := range ts {
		if d := path.Dir(t.p); d != "." {
			if n[d]++; best == "." || n[d] > n[best] {
				best = d
			}
		}
	}
	var sub []tent
	for _, t := range ts {
		if p, ok := strings.CutPrefix(t.p, best+"/"); ok || best == "." {
			t.p, t.xattr = p, nil
			sub = append(sub, t)
		}
	}
	return sub, best
}

// judgeArchive compares an archive with the tree it was made from.
func judgeArchive(b []byte, gz bool, ts, users []tent, o zi.TarOpts, ks int64) string {
	if gz {
		zr, err := gzip.NewReader(bytes.NewReader(b))
		if err == nil {
			zr.Multistream(false)
			b, err = io.ReadAll(zr)
		}
		if err != nil {
			return fmt.Sprintf("the compressed stream is broken: %v", err)
		}
	}
	if len(b)%512 != 0 {
		return fmt.Sprintf("its %d bytes are no whole number of blocks", len(b))
	}
	zero := make([]byte, 1024)
	if o.SkipClose {
		// It is meant to be continued by another archive.
		b = append(append([]byte{}, b...), zero...)
	} else if len(b) < 1024 || !bytes.Equal(b[len(b)-1024:], zero) {
		return "the end-of-archive marker is missing"
	}
	uname, gname := map[int]string{}, map[int]string{}
	for _, t := range users {
		for _, l := range strings.Split(string(t.data), "\n") {
			c := strings.Split(l, ":")
			if len(c) < 3 {
				continue
			}
			n := 0
			fmt.Sscan(c[2], &n)
			if t.p == "etc/passwd" {
				uname[n] = c[0]
			} else if t.p == "etc/group" {
				gname[n] = c[0]
			}
		}
	}
	by := map[string]*tent{}
	for i := range ts {
		by[ts[i].p] = &ts[i]
	}
	seen := map[string]bool{"": true, ".": true}
	br := bytes.NewReader(b)
	tr := tar.NewReader(br)
	n := 0
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Sprintf("it cannot be read after %d entries: %v", n, err)
		}
		n++
		name := strings.TrimSuffix(h.Name, "/")
		t := by[name]
		if t == nil {
			return fmt.Sprintf("it has an entry %q that the tree has not", h.Name)
		}
		if seen[name] {
			return fmt.Sprintf("it has %q twice", name)
		}
		seen[name] = true
		if !seen[path.Dir(name)] {
			return fmt.Sprintf("%q comes before its directory", name)
		}
		body, err := io.ReadAll(tr)
		if err != nil {
			return fmt.Sprintf("the content of %q cannot be read: %v", name, err)
		}
		if x := judgeEntry(h, body, t, by, seen, uname, gname, o, ks); x != "" {
			return fmt.Sprintf("%q: %s", name, x)
		}
	}
	for _, t := range ts {
		if !seen[t.p] {
			return fmt.Sprintf("%q is missing", t.p)
		}
	}
	if br.Len() > 0 {
		rest, _ := io.ReadAll(br)
		if len(bytes.Trim(rest, "\x00")) > 0 {
			return "something follows the end-of-archive marker"
		}
	}
	return ""
}

func judgeEntry(h *tar.Header, body []byte, t *tent, by map[string]*tent, seen map[string]bool, uname, gname map[int]string, o zi.TarOpts, ks int64) string {
	mode := int64(t.mode.Perm())
	for _, b := range []struct {
		m fs.FileMode
		v int64
	}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
		if t.mode&b.m != 0 {
			mode |= b.v
		}
	}
	uid, gid := t.uid, t.gid
	if t.kind == 'l' {
		uid, gid = 0, 0
	}
	ru, rg := o.Remap, o.Remap
	if o.RemapG != nil {
		rg = o.RemapG
	}
	if v, ok := ru[uid]; ok {
		uid = v
	}
	if v, ok := rg[gid]; ok {
		gid = v
	}
	un, gn := uname[uid], gname[gid]
	if o.Owner {
		uid, gid, un, gn = 0, 0, "root", "root"
	}
	if o.IDs != nil {
		// Whose name goes with them is not claimed.
		uid, gid = o.IDs[0], o.IDs[1]
		if h.Uname == uname[uid] {
			un = h.Uname
		}
		if h.Gname == gname[gid] {
			gn = h.Gname
		}
	}
	if o.Uname != "" {
		un = o.Uname
	}
	if o.Gname != "" {
		gn = o.Gname
	}
	for _, v := range o.Perms {
		if strings.TrimPrefix(v.Name, "/") == t.p {
			mode, uid, gid, un, gn = v.Mode, v.Uid, v.Gid, v.Uname, v.Gname
		}
	}
	if h.Mode != mode && t.kind != 'l' {
		return fmt.Sprintf("its mode is %o and not %o", h.Mode, mode)
	}
	if h.Uid != uid || h.Gid != gid || h.Uname != un || h.Gname != gn {
		return fmt.Sprintf("its owner is %d:%d (%s:%s) and not %d:%d (%s:%s)", h.Uid, h.Gid, h.Uname, h.Gname, uid, gid, un, gn)
	}
	if !h.ModTime.Equal(o.Epoch) {
		return fmt.Sprintf("its time is %v and not %v", h.ModTime.UTC(), o.Epoch.UTC())
	}
	sum := ""
	switch t.kind {
	case 'd':
		if h.Typeflag != tar.TypeDir {
			return fmt.Sprintf("it is a %c and not a directory", h.Typeflag)
		}
	case 'l':
		if h.Typeflag != tar.TypeSymlink || h.Linkname != t.target {
			return fmt.Sprintf("it is a %c to %q and not a symbolic link to %q", h.Typeflag, h.Linkname, t.target)
		}
		s := sha1.Sum([]byte(t.target))
		sum = hex.EncodeToString(s[:])
	case 'c':
		if h.Typeflag != tar.TypeChar || h.Devmajor != int64(t.dev>>8&0xfff) || h.Devminor != int64(t.dev&0xff|t.dev>>12&^0xff) {
			return fmt.Sprintf("it is a %c %d,%d and not the device %#x", h.Typeflag, h.Devmajor, h.Devminor, t.dev)
		}
	case '-':
		if h.Typeflag == tar.TypeLink {
			l := by[h.Linkname]
			if l == nil || !seen[h.Linkname] || t.ino == 0 || l.ino != t.ino {
				return fmt.Sprintf("it is a hard link to %q, which is another file or comes later", h.Linkname)
			}
		} else if h.Typeflag != tar.TypeReg {
			return fmt.Sprintf("it is a %c and not a file", h.Typeflag)
		} else if !bytes.Equal(body, t.data) {
			return fmt.Sprintf("its content (%d bytes) is not the file's (%d bytes)", len(body), len(t.data))
		}
		s := sha1.Sum(t.data)
		sum = hex.EncodeToString(s[:])
	}
	if !o.Checksums {
		sum = ""
	}
	if got := h.PAXRecords["APK-TOOLS.checksum.SHA1"]; got != sum {
		return fmt.Sprintf("its checksum is %q and not %q", got, sum)
	}
	var got, exp []string
	for k, v := range h.PAXRecords {
		if k, ok := strings.CutPrefix(k, "SCHILY.xattr."); ok {
			got = append(got, k+"="+v)
		}
	}
	if ks != 2 && h.Typeflag != tar.TypeLink {
		for k, v := range t.xattr {
			exp = append(exp, k+"="+v)
		}
	}
	sort.Strings(got)
	sort.Strings(exp)
	if strings.Join(got, ",") != strings.Join(exp, ",") {
		return fmt.Sprintf("its attributes are %v and not %v", got, exp)
	}
	return ""
}
