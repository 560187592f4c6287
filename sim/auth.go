package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/url"
	"path"
	"strings"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// Scenario "auth": servers that ask for credentials, callers that were given
// some for certain hosts or in certain addresses, and redirections.

func init() {
	scenarios["auth"] = scenario{genAuth, runAuth}
	propScenarios["C24"] = append(propScenarios["C24"], weighted{"auth", 10})
	propScenarios["C07"] = append(propScenarios["C07"], weighted{"auth", 1})
	propScenarios["C11"] = append(propScenarios["C11"], weighted{"auth", 1})
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"auth", 1})
	classes("C24", "credentials", "auth-content")
	classes("C24 C07", "auth-failure")
}

var (
	authHosts = []string{"a.test", "b.test", "k.test"}
	authKeys  = []string{"https://k.test/keys/one.rsa.pub", "https://a.test/keys/two.rsa.pub", "https://k.test/keys/three.rsa.pub", "https://b.test/keys/four.rsa.pub", "https://b.test/keys/five.rsa.pub", "https://a.test/keys/six.rsa.pub"}
)

const cdnHost = "cdn.test"

// authSetting chooses the hosts: sometimes one of them is another port of the first.
func authSetting(p *Plan) (elsewhere string) {
	second := "b.test"
	if p.P["port"] != 0 {
		second = "a.test:8443"
	}
	for i, k := range authKeys {
		authKeys[i] = strings.Replace(k, "//"+authHosts[1]+"/", "//"+second+"/", 1)
	}
	authHosts[1] = second
	if p.P["port"] != 0 {
		return "c.test" // net/http would send along what was meant for another port
	}
	return second
}

// credOf is credential n for a host; the last one is not valid anywhere.
func credOf(host string, n int) (user, pass string) {
	switch n {
	case 0:
		return "alice-" + short(host), "p1" + host
	case 1:
		return "svc+" + host, "a:b@c/%20 d?\u00e9=" + host
	case 2:
		return "token-" + short(host), "x"
	case 3:
		return "only-" + short(host), ""
	case 4:
		return "", "secret=" + host
	}
	return "mallory", "guess"
}

func short(host string) string {
	if _, port, ok := strings.Cut(host, ":"); ok {
		return host[:1] + port
	}
	return host[:1]
}

const badCred = 5

func basic(user, pass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
}

// given is what an operation was told: host -> credential and how.
type given struct {
	n   int
	how string // "h" for the host, "u" in the address
}

func (o *Op) given() map[string]given {
	m := map[string]given{}
	for _, s := range strings.Fields(o.B) {
		h, v, _ := strings.Cut(s, "=")
		m[h] = given{int(v[0] - '0'), v[1:]}
	}
	return m
}

// addr puts the credentials that o was given for addresses into u.
func (o *Op) addr(u string) string {
	x, err := url.Parse(u)
	if err != nil {
		fatal(err.Error())
	}
	g, ok := o.given()[x.Host]
	if !ok || g.how != "u" {
		return u
	}
	user, pass := credOf(x.Host, g.n)
	x.User = url.UserPassword(user, pass)
	if pass == "" {
		x.User = url.User(user)
	}
	return x.String()
}

func (o *Op) auths() (l []zi.Auth) {
	g := o.given()
	for _, h := range authHosts {
		if x, ok := g[h]; ok && x.how == "h" {
			user, pass := credOf(h, x.n)
			l = append(l, zi.Auth{Domain: h, User: user, Pass: pass})
		}
	}
	return
}

func genAuth(r *rng, p *Plan) {
	if r.p(0.25) {
		p.P["port"] = 1
	}
	authSetting(p)
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(1 + r.intn(3))
	p.P["need"] = int64(r.intn(8)) | int64(r.intn(8))
	p.P["redir"] = int64(r.u64()>>1) & int64(r.u64()>>1)
	if r.p(0.4) {
		p.P["redir"] = 0
	}
	p.P["etags"] = int64(r.u64() >> 1)
	netParams(r, p)
	if p.Sched.Gap > 0 && r.p(0.5) {
		p.Sched.Gap = pickOf(r, 3, 5, 10, 20)
	}
	w := worldFor(p)
	var pool []string // what callers were given
	for i := 0; i < 1+r.intn(3); i++ {
		var l []string
		for _, h := range authHosts {
			if r.p(0.15) {
				continue
			}
			n, how := r.intn(3), pickOf(r, "h", "h", "u")
			if r.p(0.2) {
				n = 3 + r.intn(2) // half of a credential
			}
			if r.p(0.1) {
				n = badCred
			}
			l = append(l, fmt.Sprintf("%s=%d%s", h, n, how))
		}
		pool = append(pool, strings.Join(l, " "))
	}
	stages := 1 + r.intn(3)
	for st := 0; st < stages; st++ {
		for c := 0; c < 1+r.intn(3); c++ {
			o := Op{Stage: st, Client: c, Node: 1 + r.pick(4, 1), A: pickOf(r, "", "/cache", "/cache"), B: pickOf(r, pool...), Do: pickOf(r, "index", "index", "keys", "keys", "keys", "fetch", "fetch", "install", "fixate", "calc")}
			switch o.Do {
			case "index":
				o.L = append([]string{}, authHosts[:2]...)
				if r.p(0.5) {
					shuffle(r, o.L)
				}
				o.L = o.L[:1+r.intn(2)]
				o.N = int64(r.intn(2)) << 8
			case "keys":
				o.L = append([]string{}, authKeys...)
				shuffle(r, o.L)
				o.L = o.L[:1+r.intn(len(o.L))]
			case "fetch":
				o.L = []string{pickOf(r, w.pkgs...).name}
				o.N = int64(r.intn(2))
			default:
				o.L = sublist(r, w, 1)
				o.N = int64(r.intn(2))
			}
			if r.p(0.1) {
				o.M = int64(1 + r.intn(pickOf(r, 3000, 200_000, 5_000_000)))
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if r.p(0.7) {
		faultRates(r, p, 1, r.p(0.5), true)
	}
	if p.Prop == "C11" {
		noCleanupFaults(p)
	}
	crashOff(p)
	// Nothing tells these apart from what the server meant to send.
	p.Rates["act:flip"], p.Rates["act:eofcut"] = 0, 0
	p.P["faultstages"] = 1<<uint(stages) - 1
	if r.p(0.3) {
		p.P["faultstages"] = int64(r.intn(1 << uint(stages)))
	}
}

type authRun struct {
	fs   zi.FS
	idx  []zi.Index
	keys map[string]string
	body []byte
	res  []zi.Resolved
}

// hosts lists the hosts that o asks for something.
func (o *Op) hosts() []string {
	switch o.Do {
	case "index":
		return o.L
	case "keys":
		var l []string
		for _, k := range o.L {
			l = append(l, strings.Split(k, "/")[2])
		}
		return l
	}
	return []string{authHosts[o.N&1]}
}

func runAuth(p *Plan) {
	w := worldFor(p)
	elsewhere := authSetting(p)
	publishWorld(w, p) // its versions, which are not asked for
	n := 0
	publish := func(host, file string, body []byte, id string) {
		etag := fmt.Sprintf(`"%x"`, hashStr(file+host, 9)&0xffffff)
		if p.P["etags"]>>uint(n%60)&7 == 0 {
			etag = ""
		}
		rs := simNet.publish("https://"+host+file, body, etag, id)
		for i, h := range authHosts {
			if h == host && p.P["need"]>>uint(i)&1 != 0 {
				rs.auths = map[string]bool{}
				for c := 0; c < badCred; c++ {
					rs.auths[basic(credOf(h, c))] = true
				}
			}
		}
		rs.noRange = p.P["norange"]>>uint(n%60)&1 != 0
		rs.unknownLen = p.P["unknownlen"]>>uint(n%60)&1 != 0
		if p.P["redir"]>>uint(2*n%60)&1 != 0 {
			to := []string{"https://" + cdnHost + "/real/" + host, "https://" + host + "/real", "https://" + elsewhere + "/real/" + host}[hashStr(file+host, w.seed())%3] + file
			rs.redirect = to
			t := simNet.publish(to, body, etag, id)
			t.noRange, t.unknownLen = rs.noRange, rs.unknownLen
		}
		n++
	}
	want := map[string]string{} // host -> packages in its index
	for _, h := range authHosts[:2] {
		m := &pkgSpec{name: "marker-" + short(h), version: "1-r0", arch: "x86_64", desc: "d", builddate: 1600000000, ctlSum: sum1([]byte(h))}
		ps := append([]*pkgSpec{m}, w.pkgs...)
		publish(h, "/os/x86_64/APKINDEX.tar.gz", buildIndex("index "+h, ps, -1, ""), "index "+h)
		var l []string
		for _, x := range ps {
			l = append(l, pkgLine(x.name, x.version, x.ctlSum))
		}
		want[h] = strings.Join(l, " ")
		for _, x := range w.pkgs {
			publish(h, "/os/x86_64/"+x.filename(), x.apk, x.name)
		}
	}
	for i, k := range authKeys {
		h, f, _ := strings.Cut(strings.TrimPrefix(k, "https://"), "/")
		publish(h, "/"+f, []byte(fmt.Sprintf("%s# %d\n", testKeys[i%4].pub, i)), k)
	}
	inNode(goldenNode, func() {})
	mkdirs("/tmp", "/cache")
	begin()
	runs := runStages(p, func(t *task, r *opRun) { doAuth(w, adapters[t.id-1], r, t.id) }, func(stage int, rs []*opRun) {
		for _, r := range rs {
			out, _ := r.out.(*authRun)
			if r.done && r.err == nil && r.op.Do == "keys" {
				rr := &repoRun{fs: out.fs}
				t := spawn(goldenNode, -1, func(*task) { rr.readKeys() })
				<-t.done
				out.keys = rr.keys
			}
		}
		if p.Prop == "C11" {
			checkResidue(rs)
		}
	})
	for _, e := range simNet.log {
		if e.op < 0 {
			continue
		}
		x, err := url.Parse(e.url)
		if err != nil {
			fatal(err.Error())
		}
		o := runs[e.op].op
		exp := ""
		if g, ok := o.given()[x.Host]; ok {
			exp = basic(credOf(x.Host, g.n))
		}
		if e.auth != "" {
			probe("auth-sent")
		}
		moved := strings.HasPrefix(x.Path, "/real/")
		if moved {
			probe("auth-redirect-followed")
		}
		if e.auth == exp || moved && e.auth == "" {
			continue
		}
		dec := func(s string) string {
			b, _ := base64.StdEncoding.DecodeString(strings.TrimPrefix(s, "Basic "))
			return fmt.Sprintf("%q", b)
		}
		violate("credentials", fmt.Sprintf("operation %d (%s, given %q, cache %q) sent %s %s (range %q) with credentials %s, expected %s", e.op, o.Do, o.B, o.A, e.method, e.url, e.rng, dec(e.auth), dec(exp)))
	}
	for _, r := range runs {
		if !r.done {
			continue
		}
		sim.res.Evals++
		o := r.op
		noteState(fmt.Sprintf("%s %s %v %d", o.Do, o.B, r.err == nil, r.faults))
		entitled := true
		for _, h := range o.hosts() {
			g, ok := o.given()[h]
			for i, x := range authHosts {
				if x == h && p.P["need"]>>uint(i)&1 != 0 && (!ok || g.n == badCred) {
					entitled = false
				}
			}
		}
		what := fmt.Sprintf("operation %d (%s %v, given %q, cache %q)", r.i, o.Do, o.L, o.B, o.A)
		if r.err != nil {
			probe("op-error")
			if entitled && !r.ownFault() && !(o.Do == "install" || o.Do == "fixate" || o.Do == "calc") {
				violate("auth-failure", what+" had what it needs, met no fault and failed: "+r.err.Error())
			} else if entitled && !r.ownFault() && w.model(o.L).err == "" {
				violate("auth-failure", what+" had what it needs, met no fault and failed: "+r.err.Error())
			}
			continue
		}
		if entitled {
			probe("op-entitled")
		} else {
			probe("op-shared-without-credentials")
		}
		out := r.out.(*authRun)
		switch o.Do {
		case "index":
			for i, h := range o.L {
				if len(out.idx) != len(o.L) || contentOf(out.idx[i]) != want[h] {
					violate("auth-content", what+" returned another index than the one that is served")
					break
				}
			}
		case "keys":
			for _, k := range o.L {
				i := 0
				for authKeys[i] != k {
					i++
				}
				if exp := fmt.Sprintf("%s# %d\n", testKeys[i%4].pub, i); out.keys[path.Base(k)] != exp {
					violate("auth-content", fmt.Sprintf("%s saved another key than the one that is served: %.80q", what, out.keys[path.Base(k)]))
				}
			}
		case "fetch":
			if x := w.by[o.L[0]]; !bytes.Equal(out.body, x.apk) {
				violate("auth-content", fmt.Sprintf("%s returned %d bytes that are not the package's %d", what, len(out.body), len(x.apk)))
			}
		}
	}
}

func (w *world) seed() uint64 { return hashStr(w.pkgs[0].name+w.pkgs[0].version, 3) }

func doAuth(w *world, pr zi.Proc, r *opRun, node int) {
	o := r.op
	out := &authRun{}
	r.out = out
	ctx, done := opCtx(r)
	defer done()
	var repos []string
	for _, h := range o.hosts() {
		repos = append(repos, o.addr("https://"+h+"/os"))
	}
	if o.Do == "index" && o.N>>8 != 0 {
		out.idx, r.err = pr.GetRepositoryIndexes(ctx, repos, nil, "x86_64", zi.IndexOpts{IgnoreSignatures: true, Client: simNet.client(node), Auth: o.auths()})
		return
	}
	out.fs = pr.NewMemFS()
	a, err := pr.New(zi.Opts{FS: out.fs, Arch: "x86_64", Cache: o.A, NoSigIdx: repos, IgnoreMknod: true, Client: simNet.client(node), Auth: o.auths()})
	if err == nil {
		err = a.InitDB(ctx)
	}
	if err == nil && (o.Do == "index" || o.Do == "fixate") {
		err = a.SetRepositories(ctx, repos)
	}
	if err == nil && o.Do == "fixate" {
		err = a.SetWorld(ctx, o.L)
	}
	if err != nil {
		r.err = fmt.Errorf("setting up: %w", err)
		return
	}
	refs := func() (l []*zi.Pkg) {
		for _, n := range o.L {
			l = append(l, w.by[n].ref(repos[0]))
		}
		return
	}
	switch o.Do {
	case "index":
		out.idx, r.err = a.GetRepositoryIndexes(ctx, false)
	case "keys":
		var l []string
		for _, k := range o.L {
			l = append(l, o.addr(k))
		}
		r.err = a.InitKeyring(ctx, l[:len(l)/2], l[len(l)/2:])
	case "fetch":
		var rc io.ReadCloser
		if rc, r.err = a.FetchPackage(ctx, refs()[0]); r.err == nil {
			out.body, r.err = io.ReadAll(rc)
			r.err = errors.Join(r.err, rc.Close())
		}
	case "install":
		r.err = a.InstallPackages(ctx, nil, refs())
	case "fixate":
		r.err = a.FixateWorld(ctx, nil)
	case "calc":
		out.res, r.err = a.CalculateWorld(ctx, refs())
	}
}
