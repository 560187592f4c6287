package main

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strconv"
	"strings"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// The stream scenario: package archives on their way from a server or a reader
// into the module: resumed downloads (C08), splitting (C10) and the concurrent
// computation of package facts (C21).

func init() {
	scenarios["stream"] = scenario{genStream, runStream}
	for p, w := range map[string]int{"C08": 10, "C10": 10, "C21": 10, "C20": 4, "C11": 3, "C07": 3} {
		propScenarios[p] = append(propScenarios[p], weighted{"stream", w})
	}
	classes("C08", "download-bytes", "download-failure")
	classes("C10", "section", "accepted-truncation")
	classes("C10 C07", "stream-failure")
	classes("C21", "facts")
	classes("C21 C07", "facts-failure")
}

// ---- generation -----------------------------------------------------------------------

func genStream(r *rng, p *Plan) {
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(2 + r.intn(4))
	if r.p(0.1) {
		p.P["big"] = 1 + int64(r.intn(3))
	}
	netParams(r, p)
	if p.P["big"] != 0 && p.P["chunk"] > 0 {
		p.P["chunk"] += 2000
	}
	p.Rates["act:flip"], p.Rates["act:eofcut"] = 0, 0
	p.P["faultstages"] = 1
	p.Budget = 1 + r.intn(4)
	w := worldFor(p)
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	name := func() string { return w.pkgs[r.intn(len(w.pkgs))].name }
	cache := func() string { return pickOf(r, "", "", "/cache") }
	fetch := func(st, c, node int) {
		o := Op{Stage: st, Client: c, Node: node, Do: "fetch", A: name(), N: int64(r.u64() >> 2)}
		if r.p(0.15) {
			o.B = "/cache"
		}
		if r.p(0.08) {
			o.M = int64(1 + r.intn(200_000))
		}
		add(o)
	}
	split := func(st, c, node int) {
		x := w.by[name()]
		o := Op{Stage: st, Client: c, Node: node, Do: pickOf(r, "expand", "expand", "resolve", "resolve", "parse", "apkfs"), A: x.name, N: int64(r.u64() >> 2)}
		if r.p(0.45) {
			o.B = pickOf(r, "eof", "eof", "ueof", "err") + ":" + fmt.Sprint(cutPoint(r, x))
		}
		add(o)
	}
	calc := func(st, c, node int) {
		o := Op{Stage: st, Client: c, Node: node, Do: pickOf(r, "calc", "calc", "rcalc"), B: cache(), L: sublist(r, w, 1)}
		if r.p(0.08) {
			o.M = int64(1 + r.intn(200_000))
		}
		add(o)
	}
	clients := 1 + r.intn(4)
	nodes := 1 + r.intn(2)
	switch p.Prop {
	case "C08":
		p.P["rangebug"] = int64(r.pick(6, 1, 1, 1, 1, 1, 1))
		p.P["etagmode"] = int64(r.pick(6, 2, 1))
		p.Rates["http:body"] = 0.3 + 0.7*r.f()
		p.Rates["act:stall"] = 0.1
		if r.p(0.3) {
			p.Rates["http:GET"] = 0.15
		}
		if r.p(0.3) {
			p.Rates["act:cut"] = 1
			p.Budget = 1 + r.intn(2)
		}
		for c := 0; c < clients; c++ {
			for i := 0; i < 1+r.intn(3); i++ {
				fetch(0, c, 1+c%nodes)
			}
		}
		publish := r.p(0.5)
		if publish && p.P["etagmode"] == 2 {
			// Only its size tells one version from another.
			p.P["rangebug"], p.P["unknownlen"] = 0, 0
			p.P["norange"] = int64(r.u64() >> 2)
		}
		if publish {
			for i := 0; i < 1+r.intn(3); i++ {
				x := w.by[name()]
				add(Op{Stage: 0, Client: 50 + i, Node: goldenNode, Do: "publish", A: w.url(x), N: int64(1 + r.intn(3)), M: int64(r.intn(pickOf(r, 1, 3000, 300_000)))})
			}
		}
	case "C10":
		if r.p(0.5) {
			faultRates(r, p, 1.2, true, false)
		}
		for c := 0; c < clients; c++ {
			for i := 0; i < 1+r.intn(3); i++ {
				split(0, c, 1+c%nodes)
			}
		}
	case "C21":
		if r.p(0.6) {
			faultRates(r, p, 0.7, true, true)
		}
		for c := 0; c < 1+r.intn(3); c++ {
			for i := 0; i < 1+r.intn(2); i++ {
				calc(0, c, 1+c%nodes)
			}
		}
	default:
		p.Rates["http:body"] = 0.3
		faultRates(r, p, 1, p.Prop != "C08", true)
		if p.Prop == "C11" {
			noCleanupFaults(p)
		}
		for c := 0; c < clients; c++ {
			for i := 0; i < 1+r.intn(2); i++ {
				switch r.intn(3) {
				case 0:
					fetch(0, c, 1+c%nodes)
				case 1:
					split(0, c, 1+c%nodes)
				case 2:
					calc(0, c, 1+c%nodes)
				}
			}
		}
	}
	crashOff(p)
	// Afterwards, without faults, in the same processes.
	if r.p(0.6) {
		for i := 0; i < 1+r.intn(2); i++ {
			switch p.Prop {
			case "C08":
				fetch(1, i, 1+i%nodes)
			case "C10":
				split(1, i, 1+i%nodes)
			default:
				calc(1, i, 1+i%nodes)
			}
		}
	}
}

// cutPoint picks an offset, favouring the ends of sections.
func cutPoint(r *rng, x *pkgSpec) int {
	n := len(x.apk)
	a, b := len(x.sig), len(x.sig)+len(x.ctl)
	var k int
	switch r.pick(3, 3, 3, 2, 2) {
	case 0:
		k = r.intn(n)
	case 1:
		k = a + r.intn(21) - 10
	case 2:
		k = b + r.intn(21) - 10
	case 3:
		k = n - 1 - r.intn(20)
	case 4:
		k = r.intn(20)
	}
	if k < 0 {
		k = 0
	}
	if k >= n {
		k = n - 1
	}
	return k
}

func (w *world) url(x *pkgSpec) string { return w.repo + "/" + x.arch + "/" + x.filename() }

// ---- readers ----------------------------------------------------------------------------

// cutReader delivers data in pieces of seeded sizes and may end early.
type cutReader struct {
	data []byte
	r    *rng
	mode int
	end  int // offset at which the stream ends
	err  error
	zero int
}

var errSource = errors.New("sim: the source failed")

func newCutReader(data []byte, seed int64, how string) *cutReader {
	c := &cutReader{data: data, r: newRng(uint64(seed), "reader"), end: len(data), err: io.EOF}
	c.mode = c.r.intn(6)
	if c.mode < 2 && len(data) > 50_000 {
		c.mode = 2
	}
	if kind, at, ok := strings.Cut(how, ":"); ok {
		c.end, _ = strconv.Atoi(at)
		switch kind {
		case "ueof":
			c.err = io.ErrUnexpectedEOF
		case "err":
			c.err = errSource
		}
	}
	c.data = c.data[:c.end]
	return c
}

func (c *cutReader) Read(b []byte) (int, error) {
	if len(b) > 1 {
		yieldPoint()
		late("read from the source")
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		return 0, c.err
	}
	n := len(b)
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + c.r.intn(16)
	case 2:
		n = 1 + c.r.intn(3000)
	case 3: // empty reads now and then
		if c.zero < 3 && c.r.p(0.2) {
			c.zero++
			return 0, nil
		}
		c.zero = 0
		n = 1 + c.r.intn(300)
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.mode >= 4 {
		return n, c.err // the last bytes together with the end
	}
	return n, nil
}

// ---- running ------------------------------------------------------------------------------

type streamRun struct {
	got     []byte
	n       int
	partial bool // stopped reading on purpose
	opened  bool
	exp     *expView
	res     []zi.Resolved
	info    *zi.Info
	ents    map[string]string
	prob    string
}

type expView struct {
	size         int64
	signed       bool
	sig, ctl     []byte
	data, tar    []byte
	ctlSum, dSum []byte
	apk          []byte
	ctlTar       []byte
	ctlFiles     map[string]string
	files        map[string]string
}

func runStream(p *Plan) {
	w := worldFor(p)
	if p.P["big"] != 0 {
		// One package with much incompressible data.
		x := w.pkgs[0]
		r := newRng(p.Seed, "big")
		x.files = append(x.files, fileSpec{path: "zbig", kind: tar.TypeReg, mode: 0o644, body: randBytes(r, pickOf(r, 70_000, 300_000, 1_200_000))})
		x.instSize = 0
		x.build()
	}
	publishWorld(w, p)
	for _, x := range w.pkgs {
		res := simNet.res[w.url(x)]
		res.rangeBug = int(p.P["rangebug"])
		v := res.cur()
		switch p.P["etagmode"] {
		case 1:
			v.etag, v.modified = "", "Mon, 01 Jan 2024 00:00:00 GMT"
		case 2:
			v.etag = ""
		}
	}
	simNet.publish(indexURL(w.repo), buildIndex("d", w.pkgs, -1, ""), `"ix"`, "index")
	mkdirs("/tmp", "/cache", "/pkgs")
	for i, o := range p.Ops {
		if o.Do == "apkfs" {
			c := newCutReader(w.by[o.A].apk, o.N, o.B)
			putFile(fmt.Sprintf("/pkgs/%d.apk", i), append([]byte{}, c.data...))
		}
	}
	inNode(goldenNode, func() {})
	begin()
	runs := runStages(p, func(t *task, r *opRun) {
		pr := adapters[t.id-1]
		switch r.op.Do {
		case "publish":
			simSleep(context.Background(), r.op.M*1000)
			w.newVersion(p, r.op.A, int(r.op.N))
		case "fetch":
			doFetch(w, pr, r, t.id)
		case "expand", "resolve", "parse", "apkfs":
			doSplit(w, pr, r)
		case "calc", "rcalc":
			doCalc(w, pr, r, t.id)
		}
	}, func(stage int, rs []*opRun) {
		if p.Prop == "C11" {
			checkResidue(rs)
		}
	})
	simNet.latMin, simNet.latJit = 0, 0
	for _, r := range runs {
		if !r.started || !r.done || r.op.Do == "publish" {
			continue
		}
		out, _ := r.out.(*streamRun)
		if out == nil {
			continue
		}
		sim.res.Evals++
		noteState(fmt.Sprintf("%d %s %v %d", r.i, r.op.Do, r.err == nil, r.faults))
		if r.err == nil {
			probe("op-success")
		} else {
			probe("op-error")
		}
		if r.cancelled {
			if late := r.t1 - r.ctxEnd; r.ctxEnd > 0 && late > 180e9 {
				violate("late-return", fmt.Sprintf("operation %d returned %d s after its context ended", r.i, late/1e9))
			}
		}
		switch r.op.Do {
		case "fetch":
			w.judgeFetch(p, r, out, runs)
		case "calc", "rcalc":
			w.judgeCalc(p, r, out)
		default:
			w.judgeSplit(p, r, out)
		}
	}
}

// newVersion replaces a package by the n-th other content of that address.
func (w *world) newVersion(p *Plan, u string, n int) {
	r := newRng(p.Seed, fmt.Sprintf("%s#%d", u, n))
	old := simNet.res[u].versions[0]
	body := randBytes(r, 1+r.intn(2*len(old.body)))
	switch r.intn(4) {
	case 0: // same length
		body = randBytes(r, len(old.body))
	case 1: // the same beginning
		body = append(append([]byte{}, old.body[:len(old.body)/2]...), randBytes(r, 1+r.intn(len(old.body)))...)
	case 2: // the same content but for one byte
		body = append([]byte{}, old.body...)
		body[r.intn(len(body))] ^= 1
	}
	if p.P["etagmode"] == 2 {
		body = randBytes(r, pickOf(r, len(old.body)/(n+1), len(old.body)+17*n))
	}
	res := simNet.publish(u, body, fmt.Sprintf(`"n%d"`, n), fmt.Sprintf("%s#%d", u, n))
	if p.P["etagmode"] == 1 {
		res.cur().etag, res.cur().modified = "", fmt.Sprintf("Mon, 01 Jan 2024 00:00:%02d GMT", n)
	}
	if p.P["etagmode"] == 2 {
		res.cur().etag = ""
	}
}

func doFetch(w *world, pr zi.Proc, r *opRun, node int) {
	out := &streamRun{}
	r.out = out
	ctx, done := opCtx(r)
	defer done()
	a, err := pr.New(zi.Opts{FS: pr.NewMemFS(), Arch: "x86_64", Cache: r.op.B, Client: simNet.client(node)})
	if err != nil {
		r.err = err
		return
	}
	rc, err := a.FetchPackage(ctx, w.by[r.op.A].ref(w.repo))
	if err != nil {
		r.err = err
		return
	}
	defer rc.Close()
	out.opened = true
	g := newRng(uint64(r.op.N), "fetch")
	mode := g.intn(5)
	if sim.plan.P["big"] != 0 {
		mode = 2 + 2*g.intn(2)
	}
	stop := -1
	if g.p(0.12) {
		stop = g.intn(2 * len(w.by[r.op.A].apk))
	}
	buf := make([]byte, 70000)
	idle := 0
	for {
		n := len(buf)
		switch mode {
		case 0:
			n = 1 + g.intn(3)
		case 1:
			n = 1 + g.intn(64)
		case 2:
			n = 1 + g.intn(4096)
		case 3:
			n = g.intn(500)
		}
		k, err := rc.Read(buf[:n])
		if k < 0 || k > n {
			out.prob = fmt.Sprintf("Read of %d bytes returned %d", n, k)
			return
		}
		out.got = append(out.got, buf[:k]...)
		if err == io.EOF {
			return
		}
		if err != nil {
			r.err = err
			return
		}
		if idle++; k > 0 {
			idle = 0
		}
		if idle > 1000 {
			out.prob = "a thousand empty reads"
			return
		}
		if stop >= 0 && len(out.got) >= stop {
			out.partial = true
			return
		}
	}
}

// ownActs lists what went wrong for one operation.
func ownActs(i int) (acts map[string]int) {
	acts = map[string]int{}
	for _, f := range sim.fired {
		if f.In == i && !f.benign() {
			acts[f.Kind+":"+f.Act]++
		}
	}
	return
}

func (w *world) judgeFetch(p *Plan, r *opRun, out *streamRun, runs []*opRun) {
	x := w.by[r.op.A]
	res := simNet.res[w.url(x)]
	if out.prob != "" {
		violate("download-bytes", fmt.Sprintf("operation %d (fetch %s): %s", r.i, r.op.A, out.prob))
		return
	}
	vs := res.versionsDuring(r.s0, r.s1)
	if r.op.B != "" {
		vs = res.versionsDuring(0, r.s1)
	}
	// Whatever has been delivered belongs to one version.
	fits := false
	for _, v := range vs {
		if bytes.Equal(v.body, out.got) || (r.err != nil || out.partial) && bytes.HasPrefix(v.body, out.got) {
			fits = true
		}
	}
	if !fits {
		how := "and ended without an error"
		if r.err != nil {
			how = "before the error " + r.err.Error()
		}
		at, v := 0, vs[0]
		for _, c := range vs {
			if k := commonPrefix(c.body, out.got); k >= at {
				at, v = k, c
			}
		}
		violate("download-bytes", fmt.Sprintf("operation %d (fetch %s) delivered %d bytes %s; they are no version the server had in that time (%d of them agree with the %d bytes of %s)",
			r.i, r.op.A, len(out.got), how, at, len(v.body), v.id))
		return
	}
	if r.err == nil || r.cancelled || r.op.B != "" {
		return
	}
	acts := ownActs(r.i)
	if rb := res.rangeBug; rb != 0 && rb != 3 && rb != 4 {
		if r.faults > 0 {
			return
		}
	}
	if len(vs) > 1 && r.faults > 0 {
		return
	}
	for a := range acts {
		if a != "http:cut" {
			return
		}
	}
	// Without ranges, skipping what has been delivered already is not retried.
	most := 2
	if res.noRange {
		most = 1
	}
	if acts["http:cut"] <= most {
		violate("download-failure", fmt.Sprintf("operation %d (fetch %s) failed after %d of %d bytes although its connection broke only %d times: %v", r.i, r.op.A, len(out.got), len(vs[0].body), acts["http:cut"], r.err))
	}
}

func commonPrefix(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// ---- splitting -------------------------------------------------------------------------------

func readAllFS(f fs.FS, x string) (string, error) {
	h, err := f.Open(x)
	if err != nil {
		return "", err
	}
	defer h.Close()
	b, err := io.ReadAll(h)
	return string(b), err
}

func doSplit(w *world, pr zi.Proc, r *opRun) {
	out := &streamRun{}
	r.out = out
	ctx, done := opCtx(r)
	defer done()
	x := w.by[r.op.A]
	src := newCutReader(x.apk, r.op.N, r.op.B)
	switch r.op.Do {
	case "expand":
		e, err := pr.ExpandApk(ctx, src, "")
		if err != nil {
			r.err = err
			return
		}
		// Looking at the result must not be disturbed, or the harness would
		// report its own trouble.
		sim.calm[r.i] = true
		out.look(e, x)
		delete(sim.calm, r.i)
		if err := e.Close(); err != nil {
			r.err = err
			out.exp = nil
		}
	case "resolve":
		v, err := pr.ResolveApk(ctx, src)
		if err != nil {
			r.err = err
			return
		}
		out.res = []zi.Resolved{*v}
	case "parse":
		out.info, r.err = pr.ParsePackage(ctx, src)
	case "apkfs":
		a, err := pr.NewAPKFS(ctx, fmt.Sprintf("/pkgs/%d.apk", r.i), r.op.N&1 != 0)
		if err != nil {
			r.err = err
			return
		}
		out.ents, r.err = apkfsEntries(a, x, r.op.N&1 != 0)
		if err := a.Close(); err != nil && r.err == nil {
			r.err = err
		}
	}
}

func (out *streamRun) look(e *zi.Expanded, x *pkgSpec) {
	v := &expView{size: e.Size, signed: e.Signed, ctlSum: e.ControlHash, dSum: e.PackageHash, ctlFiles: map[string]string{}, files: map[string]string{}}
	read := func(f string) []byte {
		if f == "" {
			return nil
		}
		n, er := sim.k.lookup(atFdcwd, f, true)
		if er != 0 || n == nil {
			out.prob = "its file " + f + " is not there"
			return nil
		}
		return append([]byte{}, n.data...)
	}
	v.sig, v.ctl, v.data, v.tar = read(e.SignatureFile), read(e.ControlFile), read(e.PackageFile), read(e.TarFile)
	if rc, err := e.APK(); err != nil {
		out.prob = "APK(): " + err.Error()
	} else {
		v.apk, err = io.ReadAll(rc)
		if err != nil {
			out.prob = "reading APK(): " + err.Error()
		}
		rc.Close()
	}
	if b, err := e.ControlData(); err != nil {
		out.prob = "ControlData(): " + err.Error()
	} else {
		v.ctlTar = append([]byte{}, b...)
	}
	for _, f := range append([]string{".PKGINFO"}, x.scripts...) {
		s, err := readAllFS(e.ControlFS, f)
		if err != nil {
			s = "error " + err.Error()
		}
		v.ctlFiles[f] = s
	}
	for _, f := range x.files {
		if f.kind != tar.TypeReg {
			continue
		}
		s, err := readAllFS(e.TarFS, f.path)
		if err != nil {
			s = "error " + err.Error()
		}
		v.files[f.path] = s
	}
	out.exp = v
}

func apkfsEntries(a zi.APKFS, x *pkgSpec, control bool) (map[string]string, error) {
	ents := map[string]string{}
	var walk func(d string) error
	walk = func(d string) error {
		des, err := a.ReadDir(d)
		if err != nil {
			return err
		}
		sort.Slice(des, func(i, j int) bool { return des[i].Name() < des[j].Name() })
		for _, de := range des {
			q := strings.TrimSuffix(d, "/") + "/" + de.Name()
			fi, err := a.Stat(q)
			if err != nil {
				return err
			}
			h, _ := fi.Sys().(*tar.Header)
			s := fmt.Sprintf("%v size %d", fi.Mode(), fi.Size())
			if h != nil {
				s += fmt.Sprintf(" %d:%d", h.Uid, h.Gid)
			}
			if fi.IsDir() {
				ents[q] = s
				if err := walk(q); err != nil {
					return err
				}
				continue
			}
			if fi.Mode()&fs.ModeSymlink == 0 {
				f, err := a.Open(q)
				if err != nil {
					return err
				}
				b, err := io.ReadAll(f)
				f.Close()
				if err != nil {
					return err
				}
				s += " " + string(b)
			}
			ents[q] = s
		}
		return nil
	}
	return ents, walk("/")
}

func wantEntries(x *pkgSpec, control bool) map[string]string {
	m := map[string]string{}
	if control {
		m["/.PKGINFO"] = fmt.Sprintf("%v size %d 0:0 %s", fs.FileMode(0o644), len(x.pkginfo), x.pkginfo)
		for _, s := range x.scripts {
			b := x.scriptBody(s)
			m["/"+s] = fmt.Sprintf("%v size %d 0:0 %s", fs.FileMode(0o755), len(b), b)
		}
		return m
	}
	for _, f := range x.files {
		mode := fs.FileMode(f.mode)
		switch f.kind {
		case tar.TypeDir:
			mode |= fs.ModeDir
		case tar.TypeSymlink:
			mode |= fs.ModeSymlink
		}
		s := fmt.Sprintf("%v size %d %d:%d", mode, len(f.body), f.uid, f.gid)
		if f.kind == tar.TypeReg {
			s += " " + string(f.body)
		}
		m["/"+f.path] = s
	}
	return m
}

// wantResolved are the facts about x; the sizes of the sections are left to
// sameSizes.
func wantResolved(x *pkgSpec, r zi.Resolved) string {
	var sig []byte
	sigSize := 0
	if x.signed {
		sig, sigSize = sum1(x.sig), len(x.sig)
	}
	switch {
	case r.SigSize != sigSize || !bytes.Equal(r.Sig, sig):
		return fmt.Sprintf("signature section %d bytes, hash %x (want %d, %x)", r.SigSize, r.Sig, sigSize, sig)
	case !bytes.Equal(r.Ctl, x.ctlSum):
		return fmt.Sprintf("control hash %x (want %x)", r.Ctl, x.ctlSum)
	case !bytes.Equal(r.Data, x.dataSum):
		return fmt.Sprintf("data hash %x (want %x)", r.Data, x.dataSum)
	case r.DataSize != x.instSize:
		return fmt.Sprintf("data size %d (want %d)", r.DataSize, x.instSize)
	case r.CtlSize != len(x.ctl) && r.CtlSize != len(x.sig)+len(x.ctl):
		return fmt.Sprintf("control size %d (want %d)", r.CtlSize, len(x.ctl))
	}
	// Where the control section's size is counted from is not ours to say, but
	// it must not depend on the run.
	g := goldenResolve(x)
	if r.CtlSize != g.CtlSize {
		return fmt.Sprintf("control size %d, computed alone it is %d", r.CtlSize, g.CtlSize)
	}
	return ""
}

var golds = map[*pkgSpec]*zi.Resolved{}

func goldenResolve(x *pkgSpec) *zi.Resolved {
	if golds[x] == nil {
		var v *zi.Resolved
		var err error
		t := spawn(goldenNode, -1, func(*task) { v, err = adapters[goldenNode-1].ResolveApk(baseCtx(), bytes.NewReader(x.apk)) })
		<-t.done
		if err != nil || t.pan != nil {
			violate("stream-failure", fmt.Sprintf("an undisturbed ResolveApk of %s failed: %v %v", x.name, err, t.pan))
			v = &zi.Resolved{}
		}
		golds[x] = v
	}
	return golds[x]
}

func (w *world) judgeSplit(p *Plan, r *opRun, out *streamRun) {
	x := w.by[r.op.A]
	what := fmt.Sprintf("operation %d (%s %s, reader %d, %s)", r.i, r.op.Do, x.name, newCutReader(nil, r.op.N, "").mode, r.op.B)
	cut := r.op.B != ""
	at := 0
	if cut {
		_, s, _ := strings.Cut(r.op.B, ":")
		at, _ = strconv.Atoi(s)
	}
	if r.err != nil {
		if !cut && !r.ownFault() {
			violate("stream-failure", what+" failed: "+r.err.Error())
		}
		return
	}
	if cut && (r.op.Do != "resolve" || at < len(x.sig)+len(x.ctl)) {
		violate("accepted-truncation", fmt.Sprintf("%s accepted %d of the %d bytes (sections of %d, %d and %d bytes)", what, at, len(x.apk), len(x.sig), len(x.ctl), len(x.data)))
		return
	}
	bad := ""
	diff := func(name string, got, want any) {
		if bad == "" && fmt.Sprint(got) != fmt.Sprint(want) {
			g, m := fmt.Sprint(got), fmt.Sprint(want)
			if len(g) > 200 {
				g = g[:200] + "..."
			}
			if len(m) > 200 {
				m = m[:200] + "..."
			}
			bad = fmt.Sprintf("%s is %q, want %q", name, g, m)
		}
	}
	if out.prob != "" {
		violate("section", what+": "+out.prob)
		return
	}
	switch r.op.Do {
	case "expand":
		e := out.exp
		diff("the size", e.size, len(x.apk))
		diff("signed", e.signed, x.signed)
		diff("the signature section", e.sig, x.sig)
		diff("the control section", e.ctl, x.ctl)
		diff("the data section", e.data, x.data)
		diff("the uncompressed data", e.tar, x.dataTar)
		diff("the control hash", e.ctlSum, x.ctlSum)
		diff("the data hash", e.dSum, x.dataSum)
		diff("the reassembled package", e.apk, x.apk)
		diff("the control tar", e.ctlTar, gunzip(x.ctl))
		diff(".PKGINFO", e.ctlFiles[".PKGINFO"], x.pkginfo)
		for _, s := range x.scripts {
			diff(s, e.ctlFiles[s], string(x.scriptBody(s)))
		}
		for _, f := range x.files {
			if f.kind == tar.TypeReg {
				diff(f.path, e.files[f.path], string(f.body))
			}
		}
	case "resolve":
		bad = wantResolved(x, out.res[0])
	case "parse":
		i := out.info
		diff("the name", i.Name, x.name)
		diff("the version", i.Version, x.version)
		diff("the architecture", i.Arch, x.arch)
		diff("the origin", i.Origin, x.origin)
		diff("the description", i.Description, x.desc)
		diff("the checksum", i.Checksum, x.ctlSum)
		diff("the size", i.Size, len(x.apk))
		diff("the installed size", i.InstalledSize, x.instSize)
		diff("the build date", i.BuildDate, x.builddate)
		diff("the data hash", i.DataHash, fmt.Sprintf("%x", x.dataSum))
		diff("replaces", i.Replaces, x.replaces)
	case "apkfs":
		want := wantEntries(x, r.op.N&1 != 0)
		diff("the list of entries", sortedKeys(out.ents), sortedKeys(want))
		for _, k := range sortedKeys(want) {
			diff(k, out.ents[k], want[k])
		}
	}
	if bad != "" {
		violate("section", what+": "+bad)
	}
}

// ---- computing package facts ----------------------------------------------------------------

func doCalc(w *world, pr zi.Proc, r *opRun, node int) {
	out := &streamRun{}
	r.out = out
	ctx, done := opCtx(r)
	defer done()
	f := pr.NewMemFS()
	a, err := pr.New(zi.Opts{FS: f, Arch: "x86_64", Cache: r.op.B, NoSigIdx: []string{w.repo}, IgnoreMknod: true, Client: simNet.client(node)})
	if err != nil {
		r.err = err
		return
	}
	if r.op.Do == "calc" {
		out.res, r.err = a.CalculateWorld(ctx, w.refs(r.op.L))
		return
	}
	if err := a.InitDB(ctx); err != nil {
		r.err = err
		return
	}
	if err := a.SetRepositories(ctx, []string{w.repo}); err != nil {
		r.err = err
		return
	}
	if err := a.SetWorld(ctx, r.op.L); err != nil {
		r.err = err
		return
	}
	out.res, r.err = a.ResolveAndCalculateWorld(ctx)
}

func (w *world) judgeCalc(p *Plan, r *opRun, out *streamRun) {
	what := fmt.Sprintf("operation %d (%s %v, cache %q)", r.i, r.op.Do, r.op.L, r.op.B)
	if r.err != nil {
		if !r.ownFault() {
			violate("facts-failure", what+" failed: "+r.err.Error())
		}
		return
	}
	if len(out.res) != len(r.op.L) {
		violate("facts", fmt.Sprintf("%s returned %d results", what, len(out.res)))
		return
	}
	seen := map[string]bool{}
	for i, v := range out.res {
		name := r.op.L[i]
		if r.op.Do == "rcalc" {
			// The resolver decides the order: each package once.
			if name = v.Pkg; seen[name] || !contains(r.op.L, name) {
				violate("facts", fmt.Sprintf("%s: result %d is %q", what, i, name))
				return
			}
			seen[name] = true
		}
		x := w.by[name]
		if v.Pkg != x.name || v.Version != x.version {
			violate("facts", fmt.Sprintf("%s: result %d is for %s-%s, want %s-%s", what, i, v.Pkg, v.Version, x.name, x.version))
			return
		}
		if d := wantResolved(x, v); d != "" {
			violate("facts", fmt.Sprintf("%s: result %d (%s): %s", what, i, name, d))
			return
		}
	}
}
