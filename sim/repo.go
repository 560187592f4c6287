package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime"
	"slices"
	"strings"
	"time"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// The "repo" scenario: repositories, keys and release lists on servers that
// change while several processes load, cache, verify and go offline.

// rver is one version of an index or a key file.
type rver struct {
	id     string
	body   []byte
	etag   string
	signer int    // key with a genuine signature over the whole rest, -1 none
	pkgs   string // what the index says
	strict bool   // a caller that ignores signatures must see pkgs
}

type rworld struct {
	p     *Plan
	seed  uint64
	cache map[string]*rver
	// contents of genuinely signed indexes, by key
	signed [4]map[string]bool
}

const relURL = "https://alpinelinux.org/releases.json"

func newRWorld(p *Plan) *rworld {
	w := &rworld{p: p, seed: uint64(p.P["rworld"]), cache: map[string]*rver{}}
	for i := range w.signed {
		w.signed[i] = map[string]bool{}
	}
	return w
}

func keyName(i int) string { return fmt.Sprintf("key%d.rsa.pub", i) }

func pkgLine(name, version string, sum []byte) string {
	return fmt.Sprintf("%s-%s-%x", name, version, sum[:4])
}

func contentOf(x zi.Index) string {
	var l []string
	for _, p := range x.Pkgs {
		s := append(append([]byte{}, p.Checksum...), 0, 0, 0, 0)
		l = append(l, pkgLine(p.Name, p.Version, s))
	}
	return strings.Join(l, " ")
}

func etagFor(r *rng, seed uint64, u string, n int) string {
	id := fmt.Sprintf("%x", hashStr(u, uint64(n))&0xffffff)
	if newRng(hashStr(u, seed), "etag").p(0.15) {
		// Different tags that are easily taken for one another.
		return `"` + []string{"a/b", "a_b", "a%2Fb", "A/b"}[n%4] + `"`
	}
	switch r.intn(12) {
	case 0, 1, 2:
		return fmt.Sprintf(`"v%d"`, n) // the same for other addresses
	case 3:
		return fmt.Sprintf(`W/"%s"`, id)
	case 4:
		return fmt.Sprintf(`"../../../../evil%s"`, id)
	case 5:
		return fmt.Sprintf(`"../%s"`, id)
	case 6:
		return fmt.Sprintf(`"a/b/%s"`, id)
	case 7:
		return fmt.Sprintf(`"%%2e%%2e%%2f%s"`, id)
	case 8:
		return id
	case 9:
		return fmt.Sprintf(`"..%s"`, id)
	}
	return `"` + id + `"`
}

// ver makes version n of a resource; it depends on the world's seed, u and n only.
func (w *rworld) ver(u string, n int) *rver {
	id := fmt.Sprintf("%s#%d", u, n)
	if v := w.cache[id]; v != nil {
		return v
	}
	r := newRng(hashStr(id, w.seed), "ver")
	v := &rver{id: id, signer: -1, strict: true}
	w.cache[id] = v
	v.etag = etagFor(r, w.seed, u, n)
	if w.p.P["noetag"] != 0 && r.p(0.3) {
		v.etag = ""
	}
	if strings.HasSuffix(u, ".pub") {
		k := r.intn(len(testKeys))
		v.body = []byte(fmt.Sprintf("%s# %s\n", testKeys[k].pub, id))
		return v
	}
	mk := func(marker string) (idx []byte, content string) {
		var ps []*pkgSpec
		var l []string
		for i := 0; i < 1+r.intn(4); i++ {
			p := &pkgSpec{name: fmt.Sprintf("pkg%d", i), version: fmt.Sprintf("1.%d-r%d", r.intn(5), r.intn(5)), arch: "x86_64", desc: "d", builddate: 1600000000}
			if i == 0 {
				p.name = marker
			}
			p.ctlSum = sum1([]byte(fmt.Sprint(id, marker, i)))
			ps = append(ps, p)
			l = append(l, pkgLine(p.name, p.version, p.ctlSum))
		}
		return buildIndex("index "+id, ps, -1, ""), strings.Join(l, " ")
	}
	marker := fmt.Sprintf("ver-%x-%d", hashStr(u, 5)&0xffff, n)
	idx, content := mk(marker)
	v.pkgs = content
	k := r.intn(2)
	kn := keyName(k)
	kind := "good"
	if r.f() < float64(w.p.P["bad"])/100 {
		kind = pickOf(r, "unsigned", "otherbytes", "misnamed", "oddname", "tampered", "appended", "stuffed", "hidden", "garbage", "truncsig", "stranger", "double")
	}
	genuine := func(k int) {
		v.signer = k
		w.signed[k][content] = true
	}
	switch kind {
	case "good":
		genuine(k)
		v.body = append(sigStream(k, kn, idx), idx...)
	case "unsigned":
		v.body = idx
	case "otherbytes":
		v.body = append(sigStream(k, kn, append(idx, 0)), idx...)
	case "misnamed": // a genuine signature under another key's name
		genuine(k)
		v.body = append(sigStream(k, keyName(1-k), idx), idx...)
	case "oddname": // a name that verification does not accept
		v.body = append(sigStream(k, "key0.pub", idx), idx...)
	case "tampered":
		evil, c := mk("evil-" + marker)
		v.pkgs = c
		v.body = append(sigStream(k, kn, idx), evil...)
		w.signed[k][content] = true
	case "appended":
		evil, _ := mk("evil-" + marker)
		v.strict = false
		v.body = append(append(sigStream(k, kn, idx), idx...), evil...)
		w.signed[k][content] = true
	case "stuffed": // the signature's own part of the file brings packages along
		evil, _ := mk("evil-" + marker)
		v.strict = false
		w.signed[k][content] = true
		v.body = append(stuffSig(k, kn, idx, evil, r.p(0.5), r.p(0.5)), idx...)
	case "hidden": // the signature's own part swallows the signed part
		v.strict = false
		w.signed[k][content] = true
		v.body = append(hideSig(k, kn, idx, pickOf(r, "DESCRIPTION", ".SIGN.x", "APKINDEX")), idx...)
	case "garbage":
		v.strict = false
		v.body = []byte(pickOf(r, "", "<html>404</html>", "\x1f\x8b\x08\x00garbage", string(idx[:len(idx)/2])))
	case "truncsig":
		s := sigStream(k, kn, idx)
		v.strict = false
		v.body = s
	case "stranger":
		v.signer = 2 + r.intn(2)
		w.signed[v.signer][content] = true
		v.body = append(sigStream(v.signer, kn, idx), idx...)
	case "double": // an unsigned index first, a signed one after it
		evil, _ := mk("evil-" + marker)
		v.strict = false
		w.signed[k][content] = true
		v.body = append(append(append([]byte{}, evil...), sigStream(k, kn, idx)...), idx...)
	}
	return v
}

// stuffSig puts an index of its own behind the signature, in the same gzip member.
func stuffSig(key int, name string, signed, evilIdx []byte, end, own bool) []byte {
	inner := gunzip(sigStream(key, name, signed))
	evil := gunzip(evilIdx)
	if !end {
		evil = evil[:len(evil)-1024]
	}
	if own {
		return append(gz(inner), gz(evil)...)
	}
	return gz(append(inner, evil...))
}

// hideSig announces a file after the signature that is as long as everything
// that follows.
func hideSig(key int, name string, signed []byte, file string) []byte {
	inner := gunzip(sigStream(key, name, signed))
	n := len(gunzip(signed))
	var o bytes.Buffer
	tw := tar.NewWriter(&o)
	tw.WriteHeader(&tar.Header{Name: file, Mode: 0o644, Typeflag: tar.TypeReg, Size: int64(n), ModTime: time.Unix(1600000000, 0)})
	return gz(append(inner, o.Bytes()...))
}

// ---- workload ------------------------------------------------------------------------------

var (
	repoURLs  = []string{"https://a.test/os", "https://b.test/os", "https://a.test/os2"}
	keyURLs   = []string{"https://k.test/keys/one.rsa.pub", "https://k.test/keys/two.rsa.pub", "https://k2.test/keys/three.rsa.pub", "https://a.test/keys/four.rsa.pub"}
	oddURL    = "https://k2.test/keys/me%40home+you@x-12.rsa.pub"
	oddLocals = []string{"/keys/a b.rsa.pub", "/keys/100%.rsa.pub", "/keys/c%41d.rsa.pub", "/keys/e+f@g~#h?i=j.rsa.pub", "/keys/naïve.rsa.pub"}
	sameName  = "https://k2.test/keys/one.rsa.pub"
	localDir  = "/repos/local"
	local2    = "/repos/second"
)

func indexURL(repo string) string { return repo + "/x86_64/APKINDEX.tar.gz" }

func (o *Op) repos() []string { return strings.Fields(o.B) }

const (
	fOffline = 1 << iota
	fIgnoreSig
	fNoSigIdx
	fFree
	fPre
	fPin
)

// afterHead, in the N of a "publish": as soon as the present version has been asked for.
const afterHead = 1 << 20

func genRepo(r *rng, p *Plan) {
	p.P["rworld"] = int64(r.u64() >> 1)
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(1 + r.intn(3))
	netParams(r, p)
	delete(p.P, "unknownlen")
	p.P["bad"] = 0
	p.Budget = 1 + r.intn(4)
	p.Rates["act:flip"], p.Rates["act:eofcut"] = 0, 0
	if r.p(0.25) {
		p.P["wall"] = int64(r.intn(4000)-2000) * 86400
		if r.p(0.5) {
			p.P["wall"] += int64(r.intn(86400))
		}
	}
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	someRepos := func(n int) string {
		l := append([]string{}, repoURLs...)
		shuffle(r, l)
		return strings.Join(l[:1+r.intn(n)], " ")
	}
	bothKeys := []string{"0", "1"}
	index := func(stage, client, node int, cache, repos string) Op {
		return Op{Stage: stage, Client: client, Node: node, Do: "index", A: cache, B: repos, L: bothKeys}
	}
	publish := func(stage int, u string, n int) {
		add(Op{Stage: stage, Client: 50 + r.intn(3), Node: goldenNode, Do: "publish", A: u, N: int64(n), M: int64(r.intn(pickOf(r, 1, 3000, 300_000)))})
	}
	var sharedBase []string
	if r.p(0.35) {
		l := append([]string{}, keyURLs...)
		shuffle(r, l)
		sharedBase = l[:1+r.intn(2)]
		p.P["sharedkeys"] = int64(len(sharedBase))
	}
	keys := func(stage, client, node int, cache string) Op {
		o := Op{Stage: stage, Client: client, Node: node, Do: "keys", A: cache, B: pickOf(r, "mem", "dir")}
		l := append([]string{}, keyURLs...)
		if r.p(0.6) {
			l = append(l, "/keys/local1.rsa.pub", "/keys/local2.rsa.pub")
		}
		if p.Prop == "C13" && r.p(0.4) {
			l = append(l, sameName, "/keys/more/two.rsa.pub") // names that others have too
		}
		if p.Prop == "C13" && r.p(0.3) {
			l = append(l, oddURL)
			for _, f := range oddLocals {
				if r.p(0.4) {
					l = append(l, f)
				}
			}
		}
		shuffle(r, l)
		if n := len(sharedBase); n > 0 {
			// Everyone adds to the same list.
			o.L = append([]string{}, sharedBase...)
			for _, k := range l {
				if !contains(sharedBase, k) && (len(o.L) == n || r.p(0.4)) {
					o.L = append(o.L, k)
				}
			}
		} else {
			o.L = l[:1+r.intn(len(l))]
		}
		if r.p(0.5) {
			o.N |= fPre
		}
		return o
	}
	p.P["faultstages"] = 1
	defer twoCaches(r, p)
	switch p.Prop {
	case "C04":
		// online histories, then a fresh process without a network
		stages := 1 + r.intn(3)
		node := 1
		rp := someRepos(2)
		for st := 0; st < stages; st++ {
			n := 1 + r.intn(2)
			for i := 0; i < n && node < goldenNode-1; i++ {
				if r.p(0.8) {
					o := index(st, i, node, "/cache", rp)
					if r.p(0.2) {
						o.B = someRepos(2)
					}
					if r.p(0.15) {
						o.M = int64(1 + r.intn(100_000))
					}
					add(o)
				}
				if r.p(0.35) {
					o := keys(st, i, node, "/cache")
					o.L = o.L[:1+r.intn(len(o.L))%2]
					add(o)
				}
				if r.p(0.3) {
					add(Op{Stage: st, Client: i, Node: node, Do: "install", A: "mem", B: "/cache", L: sublist(r, worldFor(p), 1)})
				}
				node++
			}
			for i := r.intn(3); i > 0; i-- {
				publish(st, indexURL(pickOf(r, repoURLs...)), r.intn(4))
			}
			if r.p(0.3) {
				publish(st, pickOf(r, keyURLs...), r.intn(3))
			}
		}
		off := goldenNode - 1
		for i := 0; i < 1+r.intn(2); i++ {
			o := index(stages, i, off, "/cache", rp)
			o.N |= fOffline
			if r.p(0.2) {
				o.B = someRepos(2)
			}
			add(o)
		}
		if r.p(0.4) {
			o := keys(stages, 5, off, "/cache")
			o.N |= fOffline
			o.L = o.L[:1+r.intn(len(o.L))%2]
			add(o)
		}
		if r.p(0.3) {
			add(Op{Stage: stages, Client: 6, Node: off, Do: "install", A: "mem", B: "/cache", L: sublist(r, worldFor(p), 1), N: fOffline})
		}
		if r.p(0.12) {
			// The same through two caches at once.
			o := keys(0, 7, 1, "/cache")
			o.L = keyURLs[:1+r.intn(2)]
			o.N = 0
			for i := 0; i < 4; i++ {
				o.Client, o.A = 7+i, []string{"/cache", "/cache2"}[i%2]
				if i == 2 {
					o.Stage, o.Node, o.N = stages, off, fOffline
				}
				add(o)
			}
		}
		if r.p(0.1) {
			o := Op{Do: "install", A: "mem", L: sublist(r, worldFor(p), 1)}
			for i := 0; i < 4; i++ {
				o.Stage, o.Client, o.Node, o.B = 0, 11+i, 1, []string{"/cache", "/cache2"}[i%2]
				if o.N = 0; i >= 2 {
					o.Stage, o.Node, o.N = stages, off, fOffline
				}
				add(o)
			}
		}
		p.P["faultstages"] = 1<<uint(stages) - 1
		if r.p(0.15) {
			p.P["faultstages"] = 1<<uint(stages+1) - 1
		}
		if r.p(0.75) {
			faultRates(r, p, 2, true, true)
			crashOn(r, p, 0.7)
		}
		if r.p(0.3) {
			crashOff(p)
		}
	case "C05", "C06", "C07", "C11", "C20", "C27":
		if r.p(0.3) && p.Prop == "C05" {
			p.P["noetag"] = 1
		}
		rp := someRepos(3)
		stages := 1 + r.intn(2)
		for st := 0; st <= stages; st++ {
			for i := 0; i < 1+r.intn(3); i++ {
				node := 1 + r.intn(2)
				if p.Prop == "C06" || p.Prop == "C07" || p.Prop == "C27" {
					node = 1
				}
				if st == stages && p.Prop != "C27" {
					node = 3
					if p.Prop == "C07" && r.p(0.7) {
						node = 1
					}
				}
				o := index(st, i, node, "/cache", rp)
				if r.p(0.2) {
					o.B = someRepos(3)
				}
				if r.p(0.25) {
					o = keys(st, i, node, "/cache")
				}
				if r.p(0.2) && p.Prop != "C05" && p.Prop != "C06" {
					o.A = ""
				}
				if o.Do == "index" && r.p(0.3) {
					o.L = []string{pickOf(r, "0", "1")}
				}
				if o.Do == "index" && r.p(0.15) {
					o.N |= fIgnoreSig
				}
				if o.Do == "index" && r.p(0.15) {
					o.N |= fNoSigIdx
				}
				if o.Do == "index" && r.p(map[bool]float64{true: 0.3, false: 0.15}[p.Prop == "C27"]) {
					o.N |= fPin
				}
				if st < stages && (p.Prop == "C27" || p.Prop == "C07" || p.Prop == "C20" || p.Prop == "C11") && r.p(0.35) {
					o.M = int64(1 + r.intn(pickOf(r, 3000, 200_000, 5_000_000)))
				}
				add(o)
			}
			for i := r.intn(3); i > 0 && p.Prop != "C07"; i-- {
				publish(st, indexURL(pickOf(r, repoURLs...)), r.intn(4))
			}
			if r.p(0.3) {
				publish(st, pickOf(r, keyURLs...), r.intn(3))
			}
		}
		if r.p(0.25) && p.Prop != "C07" {
			// A new version appears between a HEAD and the GET that follows it; later it is taken back.
			u := indexURL(pickOf(r, strings.Fields(rp)...))
			if r.p(0.2) {
				u = pickOf(r, keyURLs...)
			}
			for i := range p.Ops {
				if p.Ops[i].Stage == stages {
					p.Ops[i].Stage++
				}
			}
			add(Op{Client: 60, Node: goldenNode, Do: "publish", A: u, N: int64(1+r.intn(2)) | afterHead})
			add(Op{Stage: stages, Client: 60, Node: goldenNode, Do: "publish", A: u})
		}
		if r.p(0.8) {
			faultRates(r, p, 1.5, true, true)
		}
		switch p.Prop {
		case "C05":
			crashOn(r, p, 0.7)
			if r.p(0.3) {
				crashOff(p)
			}
		case "C11":
			noCleanupFaults(p)
			crashOff(p)
			p.P["faultstages"] = 3
		case "C20":
			p.P["faultstages"] = 7
			p.Budget = 1 + r.intn(8)
			if r.p(0.3) {
				p.P["bad"] = 30
			}
		default:
			crashOff(p)
		}
	case "C09":
		p.P["bad"] = pickOf[int64](r, 30, 60, 90)
		if r.p(0.3) {
			p.Rates["act:flip"], p.Rates["act:eofcut"] = 1, 1
			p.P["unknownlen"] = int64(r.u64() >> 2)
		}
		rp := someRepos(2)
		if r.p(0.3) {
			rp += " " + localDir
		}
		for i := 0; i < 2+r.intn(5); i++ {
			o := index(r.intn(3), i, 1+r.intn(2), pickOf(r, "", "/cache", "/cache"), rp)
			if r.p(0.3) {
				o.B = someRepos(2)
			}
			switch r.intn(7) {
			case 0:
				o.N |= fIgnoreSig
			case 1:
				o.N |= fNoSigIdx
			case 2:
				o.L = []string{"0"}
			case 3:
				o.L = []string{"1"}
			case 4:
				o.L = []string{"0=1"} // named like key 0, but key 1
			case 5:
				o.L = nil
			}
			if r.p(0.3) {
				o.N |= fFree
			}
			add(o)
		}
		for i := r.intn(5); i > 0; i-- {
			publish(r.intn(3), indexURL(pickOf(r, append([]string{localDir}, repoURLs...)...)), r.intn(4))
		}
		if r.p(0.5) {
			faultRates(r, p, 1.5, true, true)
			crashOff(p)
		}
		p.P["faultstages"] = 7
	case "C12":
		n := 2 + r.intn(5)
		for i := 0; i < n; i++ {
			o := index(r.intn(3), r.intn(4), 1+r.intn(2), "", pickOf(r, localDir, localDir, local2+" "+localDir))
			if r.p(0.2) {
				o.B += " " + repoURLs[0]
			}
			if r.p(0.2) {
				o.L = []string{pickOf(r, "0", "1")}
			}
			if r.p(0.2) {
				o.N |= fIgnoreSig
			}
			if r.p(0.3) {
				o.N |= fFree
			}
			if r.p(0.2) {
				o.A = "/cache"
			}
			add(o)
		}
		for i := 1 + r.intn(5); i > 0; i-- {
			publish(r.intn(3), indexURL(pickOf(r, localDir, localDir, local2)), r.intn(4))
		}
		p.P["absent"] = int64(r.intn(4))
		p.P["stepback"] = int64(r.intn(2))
		if r.p(0.5) {
			faultRates(r, p, 3, true, r.p(0.2))
			crashOff(p)
		}
		p.P["faultstages"] = 7
		if r.p(0.3) {
			p.P["bad"] = 20
		}
	case "C13":
		for i := 0; i < 1+r.intn(3); i++ {
			node := 1 + r.intn(2)
			st := r.intn(2)
			if r.p(0.4) {
				o := Op{Stage: st, Client: i, Node: node, Do: "alpine", B: pickOf(r, "mem", "dir")}
				vs := []string{"v3.17", "v3.18", "v3.19", "edge", "v9.9"}
				shuffle(r, vs)
				o.L = vs[:1+r.intn(3)]
				if r.p(0.2) {
					o.L = append(o.L, o.L[0])
				}
				add(o)
				continue
			}
			o := keys(st, i, node, pickOf(r, "", "", "/cache"))
			if r.p(0.15) {
				o.L = append(o.L, "/keys/missing.rsa.pub")
			}
			if r.p(0.15) {
				o.M = int64(1 + r.intn(100_000))
			}
			add(o)
		}
		for i := r.intn(3); i > 0; i-- {
			publish(r.intn(2), pickOf(r, keyURLs...), r.intn(3))
		}
		p.P["wall"] = int64(r.intn(4000)-2000) * 86400
		if r.p(0.5) {
			p.P["wall"] += int64(r.intn(86400))
		}
		if r.p(0.3) {
			p.P["keystatus"] = int64(r.u64() >> 2)
		}
		if r.p(0.7) {
			faultRates(r, p, 1.5, true, true)
			crashOff(p)
		}
		p.P["faultstages"] = 3
	}
}

// repoRun is what an operation of this scenario came back with.
type repoRun struct {
	fs   zi.FS
	idx  []zi.Index
	keys map[string]string // after the call: file name -> bytes
	pre  map[string]string
	prob string
}

func (w *rworld) set(u string, n int) {
	v := w.ver(u, n)
	r := simNet.publish(u, v.body, v.etag, v.id)
	if w.p.P["unknownlen"]>>uint(hashStr(u, 3)%60)&1 != 0 {
		r.unknownLen = true
	}
	if w.p.P["norange"]>>uint(hashStr(u, 4)%60)&1 != 0 {
		r.noRange = true
	}
	if strings.HasPrefix(u, "/") {
		// Rename a new file over the old one.
		mkdirs(path.Dir(u))
		d := dirInode(path.Dir(u))
		f := sim.k.newInode(0o100644)
		f.data = append([]byte{}, v.body...)
		f.mtime = simWall()
		if w.p.P["stepback"] != 0 {
			f.mtime = simEpoch - simNet.seq*1_000_000_000
		}
		d.kids[path.Base(u)] = f
	}
}

func dirInode(p string) *inode {
	n := sim.k.root
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if n = n.kids[c]; n == nil {
			fatal("no directory " + p)
		}
	}
	return n
}

func putFile(p string, b []byte) {
	mkdirs(path.Dir(p))
	f := sim.k.newInode(0o100644)
	f.data = b
	dirInode(path.Dir(p)).kids[path.Base(p)] = f
}

func ringOf(o *Op) (names []string, ks []int) {
	for _, l := range o.L {
		a, b, ok := strings.Cut(l, "=")
		if !ok {
			b = a
		}
		names = append(names, "key"+a+".rsa.pub")
		ks = append(ks, int(b[0]-'0'))
	}
	return
}

// checking says whether o verifies the signature of the index of repo.
func (o *Op) checking(repo string) bool {
	return o.N&fIgnoreSig == 0 && !(o.N&fNoSigIdx != 0 && repo == o.repos()[0])
}

func doIndex(pr zi.Proc, r *opRun, node int) {
	o := r.op
	out := &repoRun{}
	r.out = out
	ctx, done := opCtx(r)
	defer done()
	names, ks := ringOf(o)
	lines := o.repos()
	var noSig []string
	if o.N&fNoSigIdx != 0 {
		noSig = []string{lines[0]}
	}
	if o.N&fPin != 0 {
		lines[len(lines)-1] = "@pin " + lines[len(lines)-1]
	}
	if o.N&fFree != 0 {
		m := map[string][]byte{}
		for i, n := range names {
			m[n] = []byte(testKeys[ks[i]].pub)
		}
		out.idx, r.err = pr.GetRepositoryIndexes(ctx, lines, m, "x86_64", zi.IndexOpts{IgnoreSignatures: o.N&fIgnoreSig != 0, NoSigIdx: noSig, Client: simNet.client(node)})
		return
	}
	out.fs = pr.NewMemFS()
	a, err := pr.New(zi.Opts{FS: out.fs, Arch: "x86_64", Cache: o.A, Offline: o.N&fOffline != 0, NoSigIdx: noSig, IgnoreMknod: true, Client: simNet.client(node)})
	if err == nil {
		err = a.InitDB(ctx)
	}
	for i, n := range names {
		if err == nil {
			err = out.fs.WriteFile("etc/apk/keys/"+n, []byte(testKeys[ks[i]].pub), 0o644)
		}
	}
	if err == nil {
		err = a.SetRepositories(ctx, lines)
	}
	if err != nil {
		r.err = fmt.Errorf("setting up: %w", err)
		return
	}
	out.idx, r.err = a.GetRepositoryIndexes(ctx, o.N&fIgnoreSig != 0)
}

func doKeys(pr zi.Proc, r *opRun, node int) {
	o := r.op
	out := &repoRun{pre: map[string]string{}}
	r.out = out
	ctx, done := opCtx(r)
	defer done()
	f, _ := newRoot(pr, o.B, fmt.Sprintf("/root%d", r.i))
	if f == nil {
		r.err = errors.New("DirFS returned nil")
		return
	}
	out.fs = f
	a, err := pr.New(zi.Opts{FS: asGiven(o.B, f), Arch: "x86_64", Cache: o.A, Offline: o.N&fOffline != 0, IgnoreMknod: true, Client: simNet.client(node)})
	if err != nil {
		r.err = err
		return
	}
	if o.Do == "alpine" {
		r.err = a.InitDB(ctx, o.L...)
		return
	}
	if o.N&fPre != 0 {
		out.pre["old.rsa.pub"] = "an older key\n"
		out.pre[path.Base(o.L[0])] = strings.Repeat("a much longer key that was there before\n", 40)
		if err = f.MkdirAll("etc/apk/keys", 0o755); err == nil {
			for _, n := range sortedKeys(out.pre) {
				if err == nil {
					err = f.WriteFile("etc/apk/keys/"+n, []byte(out.pre[n]), 0o644)
				}
			}
		}
		if err != nil {
			r.err = fmt.Errorf("setting up: %w", err)
			return
		}
	}
	cut := len(o.L) / 2
	first := append([]string{}, o.L[:cut]...)
	if n := int(sim.plan.P["sharedkeys"]); n > 0 && n <= len(o.L) {
		// All callers in a process use one list (with room to grow) for what they have in common.
		cut = n
		id := fmt.Sprint(node, o.L[:cut])
		if sharedKeyLists[id] == nil {
			sharedKeyLists[id] = append(make([]string, 0, cut+8), o.L[:cut]...)
		}
		first = sharedKeyLists[id]
	}
	r.err = a.InitKeyring(ctx, first, append([]string{}, o.L[cut:]...))
}

// The lists of keys that the callers in a process share.
var sharedKeyLists = map[string][]string{}

func (out *repoRun) readKeys() {
	out.keys = map[string]string{}
	des, err := out.fs.ReadDir("etc/apk/keys")
	if err != nil {
		if !errors.Is(err, fs.ErrNotExist) {
			out.prob = err.Error()
		}
		return
	}
	for _, de := range des {
		b, err := out.fs.ReadFile("etc/apk/keys/" + de.Name())
		if err != nil {
			out.prob = err.Error()
		}
		out.keys[de.Name()] = string(b)
	}
}

// ---- releases --------------------------------------------------------------------------------

type relKey struct {
	branch, url, name, body string
	gone                    int64 // withdrawn from this wall time on, 0 = never
}

func (w *rworld) releases(now int64) (doc []byte, ks []relKey) {
	r := newRng(w.seed, "releases")
	type key struct {
		URL   string  `json:"url"`
		Since *string `json:"deprecated_since,omitempty"`
	}
	type branch struct {
		Branch string           `json:"rel_branch"`
		Git    string           `json:"git_branch"`
		Arches []string         `json:"arches"`
		Keys   map[string][]key `json:"keys"`
	}
	var bs []branch
	n := 0
	for _, b := range []string{"v3.17", "v3.18", "v3.19", "edge"} {
		br := branch{Branch: b, Git: b, Arches: []string{"x86_64", "aarch64"}, Keys: map[string][]key{}}
		for _, arch := range br.Arches {
			for i := r.intn(4); i > 0; i-- {
				n++
				name := fmt.Sprintf("alpine-devel@lists.alpinelinux.org-%08x.rsa.pub", hashStr(fmt.Sprint(n), w.seed)&0xffffffff)
				file := name
				srv := name
				switch r.intn(3) {
				case 0:
					file = strings.Replace(name, "@", "%40", 1)
					srv = file
				case 1:
					file = strings.Replace(name, "@", "%20", 1)
				}
				k := key{URL: "https://alpinelinux.org/keys/" + file}
				x := relKey{branch: b, url: "https://alpinelinux.org/keys/" + srv, name: name, body: fmt.Sprintf("release key %d\n%s", n, testKeys[n%4].pub)}
				if r.p(0.6) {
					d := pickOf(r, -800, -30, -1, 0, 0, 1, 30, 800)
					t := time.Unix(0, now).UTC().AddDate(0, 0, d)
					day := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
					s := day.Format("2006-01-02")
					k.Since = &s
					x.gone = day.UnixNano()
				}
				if arch == "x86_64" {
					ks = append(ks, x)
				}
				br.Keys[arch] = append(br.Keys[arch], k)
			}
		}
		bs = append(bs, br)
	}
	doc, err := json.Marshal(map[string]any{"architectures": []string{"x86_64"}, "latest_stable": "v3.19", "release_branches": bs})
	if err != nil {
		fatal(err.Error())
	}
	return doc, ks
}

// ---- running and judging ------------------------------------------------------------------------

func init() {
	scenarios["repo"] = scenario{genRepo, runRepo}
	for p, w := range map[string]int{"C04": 10, "C05": 10, "C09": 10, "C12": 10, "C13": 10, "C06": 4, "C07": 6, "C11": 4, "C20": 5} {
		propScenarios[p] = append(propScenarios[p], weighted{"repo", w})
	}
	classes("C04", "offline-request", "offline-content", "offline-failure")
	classes("C05 C01", "cached-content")
	classes("C05", "escaped-file")
	classes("C07 C05", "repo-failure")
	classes("C09", "unverified-index")
	classes("C12", "stale-local", "local-failure")
	classes("C13", "keyring")
	classes("C07 C13", "keyring-failure")
	classes("C27", "changed")
	propScenarios["C27"] = []weighted{{"repo", 1}}
	classes("C06", "duplicate-index")
}

func runRepo(p *Plan) {
	wallOffset = p.P["wall"] * int64(time.Second)
	runtime.SimSetWall(wallOffset)
	w := newRWorld(p)
	iw := worldFor(p)
	publishWorld(iw, p)
	for _, u := range repoURLs {
		w.set(indexURL(u), 0)
	}
	mkdirs("/tmp", "/cache", "/cache2", "/repos", "/keys")
	if p.P["absent"]&1 == 0 {
		w.set(indexURL(localDir), 0)
	}
	if p.P["absent"]&2 == 0 {
		w.set(indexURL(local2), 0)
	}
	for i, u := range keyURLs {
		w.set(u, 0)
		if p.P["keystatus"]>>uint(i)&1 != 0 {
			simNet.res[u].status = pickOf(newRng(w.seed, u), 404, 403, 500, 301, 410)
		}
	}
	w.set(sameName, 0)
	locals := map[string]string{"/keys/local1.rsa.pub": "local one\n", "/keys/local2.rsa.pub": "local two\n" + testKeys[1].pub,
		"/keys/more/two.rsa.pub": "local, and in the place of another\n"}
	for i, f := range oddLocals {
		locals[f] = fmt.Sprintf("odd %d\n", i)
	}
	w.set(oddURL, 0)
	for _, f := range sortedKeys(locals) {
		putFile(f, []byte(locals[f]))
	}
	relDoc, relKeys := w.releases(simWall())
	simNet.publish(relURL, relDoc, "", "releases")
	for i, k := range relKeys {
		rs := simNet.publish(k.url, []byte(k.body), "", k.name)
		if p.P["keystatus"]>>uint(30+i%30)&1 != 0 {
			rs.status = 404
		}
	}
	if p.P["keystatus"]>>uint(20)&1 != 0 {
		simNet.res[relURL].status = 503
	}
	inNode(goldenNode, func() {})
	for _, n := range sortedKeys(sim.k.root.kids) {
		sim.k.root.kids[n].by = 0
	}
	before := map[string]bool{}
	for n := range sim.k.root.kids {
		before[n] = true
	}
	begin()
	runs := runStages(p, func(t *task, r *opRun) {
		switch r.op.Do {
		case "publish":
			if r.op.N&afterHead != 0 {
				simNet.onHead[r.op.A] = func() { w.set(r.op.A, int(r.op.N&^afterHead)) }
				return
			}
			delete(simNet.onHead, r.op.A)
			simSleep(context.Background(), r.op.M*1000)
			w.set(r.op.A, int(r.op.N))
		case "index":
			doIndex(adapters[t.id-1], r, t.id)
		case "keys", "alpine":
			doKeys(adapters[t.id-1], r, t.id)
		case "install":
			doInstall(iw, adapters[t.id-1], r, t.id)
		}
	}, func(stage int, rs []*opRun) {
		for _, r := range rs {
			r := r
			switch out := r.out.(type) {
			case *repoRun:
				if r.done && out.fs != nil && (r.op.Do == "keys" || r.op.Do == "alpine") {
					t := spawn(goldenNode, -1, func(*task) { out.readKeys() })
					<-t.done
				}
			case *installRun:
				if r.done && r.err == nil {
					t := spawn(goldenNode, -1, func(*task) { out.takeSnap() })
					<-t.done
				}
			}
		}
		if p.Prop == "C11" {
			checkResidue(rs)
		}
	})
	// Files outside the places that belong to the operations.
	for _, n := range sortedKeys(sim.k.root.kids) {
		if !before[n] && !strings.HasPrefix(n, "root") {
			violate("escaped-file", fmt.Sprintf("a file appeared at /%s", n))
		}
	}
	j := &judge{p: p, w: w, iw: iw, runs: runs, locals: locals, relKeys: relKeys}
	j.judge()
	checkDownloads(p, runs)
	j.indexDownloads()
	j.oneVersion()
}

type judge struct {
	p       *Plan
	w       *rworld
	iw      *world
	runs    []*opRun
	locals  map[string]string
	relKeys []relKey
}

// urlsOf lists the resources that an operation reads.
func (j *judge) urlsOf(o *Op) (us []string) {
	switch o.Do {
	case "index":
		for _, r := range o.repos() {
			us = append(us, indexURL(r))
		}
	case "keys":
		us = append(us, o.L...)
	}
	return us
}

// window returns when the process of r first began to read u.
func (j *judge) window(r *opRun, u string) int64 {
	from := r.s0
	for _, x := range j.runs {
		if x.started && x.node == r.node && x.s0 < from && contains(j.urlsOf(x.op), u) {
			from = x.s0
		}
	}
	return from
}

func (j *judge) versions(u string, from, to int64) []*rver {
	res := simNet.res[u]
	if res == nil {
		return nil
	}
	var out []*rver
	for _, v := range res.versionsDuring(from, to) {
		out = append(out, j.w.cache[v.id])
	}
	return out
}

// acceptable says whether o has to accept v.
func acceptable(o *Op, repo string, v *rver) bool {
	if !o.checking(repo) {
		return v.strict
	}
	_, ks := ringOf(o)
	for _, k := range ks {
		if k == v.signer {
			return true
		}
	}
	return false
}

func (j *judge) judge() {
	for _, r := range j.runs {
		if !r.started || r.op.Do == "publish" {
			continue
		}
		if !r.done {
			probe("op-crashed")
			continue
		}
		sim.res.Evals++
		if r.cancelled {
			if late := r.t1 - r.ctxEnd; r.ctxEnd > 0 && late > int64(3*time.Minute) {
				violate("late-return", fmt.Sprintf("operation %d returned %d s after its context ended", r.i, late/1e9))
			}
			probe("op-cancelled")
		}
		if r.err != nil {
			probe("op-error-" + r.op.Do)
		} else {
			probe("op-success-" + r.op.Do)
		}
		noteState(fmt.Sprintf("%d %v %v", r.i, r.err == nil, r.faults))
		if r.op.N&fOffline != 0 {
			for _, e := range simNet.log {
				if e.op == r.i {
					violate("offline-request", fmt.Sprintf("operation %d is offline and sent %s %s", r.i, e.method, e.url))
				}
			}
		}
		switch r.op.Do {
		case "index":
			j.index(r)
		case "keys":
			j.keys(r)
		case "alpine":
			j.alpine(r)
		case "install":
			j.install(r)
		}
	}
}

func (j *judge) index(r *opRun) {
	o := r.op
	out := r.out.(*repoRun)
	offline := o.N&fOffline != 0
	if r.err != nil {
		if offline {
			j.offlineFailure(r)
			return
		}
		if r.ownFault() {
			return
		}
		class := "repo-failure"
		for _, repo := range o.repos() {
			u := indexURL(repo)
			local := strings.HasPrefix(u, "/")
			from := j.window(r, u)
			if local {
				from = r.s0
				class = "local-failure"
			}
			tags, plain := 0, 0
			for _, v := range j.versions(u, from, r.s1) {
				if !acceptable(o, repo, v) {
					return
				}
				if v.etag != "" {
					tags++
				} else {
					plain++
				}
			}
			if tags > 0 && plain > 0 && !local {
				return
			}
		}
		violate(class, fmt.Sprintf("operation %d met no fault of its own and failed to load the indexes of %v: %v", r.i, o.repos(), r.err))
		return
	}
	k := 0
	for n, repo := range o.repos() {
		u := indexURL(repo)
		local := strings.HasPrefix(u, "/")
		var x *zi.Index
		if k < len(out.idx) && strings.HasPrefix(out.idx[k].Source, repo+"/") {
			x = &out.idx[k]
			k++
		}
		if x == nil {
			// Only a local file that is not there may be missing.
			res := simNet.res[u]
			if !local || res != nil && res.versions[0].since < r.s0 {
				violate(map[bool]string{true: "stale-local", false: "cached-content"}[local], fmt.Sprintf("operation %d came back without the index of %s", r.i, repo))
			}
			continue
		}
		want := ""
		if o.N&fPin != 0 && n == len(o.repos())-1 {
			want = "pin"
		}
		if x.Name != want {
			violate("cached-content", fmt.Sprintf("operation %d: the index of %s is named %q, want %q", r.i, repo, x.Name, want))
		}
		got := contentOf(*x)
		if o.checking(repo) {
			_, ks := ringOf(o)
			ok := false
			for _, k := range ks {
				ok = ok || j.w.signed[k][got]
			}
			if !ok {
				violate("unverified-index", fmt.Sprintf("operation %d with the keys %v accepted an index of %s that none of them signed: %s", r.i, o.L, repo, got))
			}
		}
		if j.p.P["unknownlen"] != 0 {
			continue // the end of a body is not recognisable
		}
		if offline {
			j.offlineContent(r, u, got, func(v *rver) string { return v.pkgs })
			continue
		}
		from := j.window(r, u)
		class := "cached-content"
		if local {
			from, class = r.s0, "stale-local"
		}
		ok := false
		vs := j.versions(u, from, r.s1)
		for _, v := range vs {
			ok = ok || v.pkgs == got || !v.strict
		}
		if !ok {
			violate(class, fmt.Sprintf("operation %d got an index of %s that was not there while it ran: %s", r.i, repo, got))
		}
	}
	if k != len(out.idx) {
		violate("cached-content", fmt.Sprintf("operation %d: %d indexes for %v", r.i, len(out.idx), o.repos()))
	}
}

// refresh is what an online operation may have done to a cache entry.
type refresh struct {
	stage   int
	certain bool
	content string
	r       *opRun
}

func (j *judge) refreshes(cache, u string, content func(*rver) string, before int) (out []refresh) {
	for _, x := range j.runs {
		if !x.started || x.op.A != cache || x.op.N&fOffline != 0 || x.op.Stage >= before || x.op.Do == "install" || x.op.Do == "publish" || !contains(j.urlsOf(x.op), u) {
			continue
		}
		touched, tagged := false, false
		for _, e := range simNet.log {
			// A key is read through the cache each time, whoever asked the server.
			if (e.op == x.i || x.op.Do == "keys" && e.op >= 0 && e.node == x.node) && e.url == u {
				touched = true
				if e.method == "HEAD" && e.status == 200 && e.ver != "" && j.w.cache[e.ver].etag != "" {
					tagged = true
				}
			}
		}
		if !touched {
			continue
		}
		f := refresh{stage: x.op.Stage, r: x}
		if x.done && x.err == nil && tagged {
			f.certain = true
			f.content = j.resultFor(x, u)
		}
		out = append(out, f)
	}
	return out
}

func (j *judge) resultFor(r *opRun, u string) string {
	out := r.out.(*repoRun)
	if r.op.Do == "keys" {
		return out.keys[path.Base(u)]
	}
	for i := range out.idx {
		if strings.HasPrefix(u, out.idx[i].Source) || strings.HasPrefix(out.idx[i].Source, strings.TrimSuffix(u, "/APKINDEX.tar.gz")) {
			return contentOf(out.idx[i])
		}
	}
	return "?"
}

// fresh says whether r's process has never looked at u while online or in
// another cache directory.
func (j *judge) fresh(r *opRun, u string) bool {
	for _, x := range j.runs {
		if x.started && x.node == r.node && (x.op.N&fOffline == 0 || x.op.A != r.op.A) && contains(j.urlsOf(x.op), u) {
			return false
		}
	}
	return true
}

// offlineAllowed lists what an offline read of u may give; must says whether
// it has to give something.
func (j *judge) offlineAllowed(r *opRun, u string, content func(*rver) string) (allowed map[string]bool, must bool) {
	allowed = map[string]bool{}
	fs := j.refreshes(r.op.A, u, content, r.op.Stage)
	last := -1
	for _, f := range fs {
		if f.certain && f.stage > last {
			last = f.stage
		}
	}
	for _, f := range fs {
		if f.stage < last {
			continue
		}
		if f.certain {
			must = true
			allowed[f.content] = true
		} else {
			to := f.r.s1
			if !f.r.done {
				to = simNet.seq
			}
			for _, v := range j.versions(u, j.window(f.r, u), to) {
				if v.etag != "" {
					allowed[content(v)] = true
				}
			}
		}
	}
	return allowed, must
}

func (j *judge) offlineContent(r *opRun, u, got string, content func(*rver) string) {
	if !j.fresh(r, u) {
		return
	}
	allowed, must := j.offlineAllowed(r, u, content)
	if !allowed[got] {
		violate("offline-content", fmt.Sprintf("operation %d is offline and got for %s what no last online run had (obtained for certain: %v): %.300s", r.i, u, must, got))
	}
}

func (j *judge) offlineFailure(r *opRun) {
	if r.ownFault() {
		return
	}
	for _, u := range j.urlsOf(r.op) {
		if r.op.Do == "keys" && strings.HasPrefix(u, "/") {
			continue
		}
		content := func(v *rver) string {
			if r.op.Do == "keys" {
				return string(v.body)
			}
			return v.pkgs
		}
		allowed, must := j.offlineAllowed(r, u, content)
		if !must || !j.fresh(r, u) {
			return
		}
		_ = allowed
	}
	violate("offline-failure", fmt.Sprintf("operation %d is offline, everything it needs was obtained before, and it failed: %v", r.i, r.err))
}

func (j *judge) keys(r *opRun) {
	o := r.op
	out := r.out.(*repoRun)
	offline := o.N&fOffline != 0
	bad := ""
	for _, u := range o.L {
		if strings.HasPrefix(u, "/") {
			if _, ok := j.locals[u]; !ok {
				bad = u
			}
		} else if res := simNet.res[u]; res == nil || res.status != 0 {
			bad = u
		}
	}
	if r.err != nil {
		if offline {
			j.offlineFailure(r)
			return
		}
		if !r.ownFault() && bad == "" {
			for _, u := range o.L {
				tags, plain := 0, 0
				for _, v := range j.versions(u, j.window(r, u), r.s1) {
					if v.etag != "" {
						tags++
					} else {
						plain++
					}
				}
				if tags > 0 && plain > 0 {
					return
				}
			}
			violate("keyring-failure", fmt.Sprintf("operation %d met no fault of its own and failed to set up the keyring: %v", r.i, r.err))
		}
		return
	}
	if out.prob != "" {
		violate("keyring", fmt.Sprintf("operation %d: %s", r.i, out.prob))
		return
	}
	if bad != "" {
		violate("keyring", fmt.Sprintf("operation %d reported success although %s cannot be obtained", r.i, bad))
		return
	}
	want := map[string]bool{}
	for n, b := range out.pre {
		want[n] = true
		if got, ok := out.keys[n]; !ok || got != b && !strings.Contains(strings.Join(o.L, " "), "/"+n) {
			violate("keyring", fmt.Sprintf("operation %d: the key %s from before has become %q", r.i, n, got))
		}
	}
	for i, u := range o.L {
		n := path.Base(u)
		want[n] = true
		if contains(oddLocals, u) || u == oddURL {
			probe("odd-key-name")
		}
		if slices.ContainsFunc(o.L[i+1:], func(x string) bool { return path.Base(x) == n }) {
			continue // of several with one name, the last one counts
		}
		got, there := out.keys[n]
		if !there {
			violate("keyring", fmt.Sprintf("operation %d reported success without a key from %s", r.i, u))
			continue
		}
		if l, ok := j.locals[u]; ok {
			if got != l {
				violate("keyring", fmt.Sprintf("operation %d: the key from %s is %q", r.i, u, got))
			}
			continue
		}
		if offline {
			j.offlineContent(r, u, got, func(v *rver) string { return string(v.body) })
			continue
		}
		ok := false
		for _, v := range j.versions(u, j.window(r, u), r.s1) {
			ok = ok || string(v.body) == got
		}
		if !ok {
			violate("cached-content", fmt.Sprintf("operation %d: the key from %s is what no server offered while it ran: %q", r.i, u, got))
			violate("keyring", fmt.Sprintf("operation %d: the key from %s is what no server offered while it ran: %q", r.i, u, got))
		}
	}
	for n := range out.keys {
		if !want[n] {
			violate("keyring", fmt.Sprintf("operation %d: there is a key %s that nobody asked for", r.i, n))
		}
	}
}

func (j *judge) alpine(r *opRun) {
	out := r.out.(*repoRun)
	want := map[string]string{}
	maybe := map[string]string{}
	bad := simNet.res[relURL].status != 0
	for _, k := range j.relKeys {
		if !contains(r.op.L, k.branch) {
			continue
		}
		if k.gone != 0 && k.gone <= r.t0+wallOffset {
			continue
		}
		if k.gone != 0 && k.gone <= r.t1+wallOffset {
			maybe[k.name] = k.body
			continue
		}
		want[k.name] = k.body
		if simNet.res[k.url].status != 0 {
			bad = true
		}
	}
	if r.err != nil {
		if !r.ownFault() && !bad && len(maybe) == 0 {
			violate("keyring-failure", fmt.Sprintf("operation %d met no fault of its own and failed to install the release keys: %v", r.i, r.err))
		}
		return
	}
	if bad {
		violate("keyring", fmt.Sprintf("operation %d reported success although a release key or the list of releases cannot be obtained", r.i))
		return
	}
	for _, n := range sortedKeys(want) {
		if got, ok := out.keys[n]; !ok || got != want[n] {
			violate("keyring", fmt.Sprintf("operation %d: release key %s is %q, want %q", r.i, n, got, want[n]))
		}
	}
	for n, got := range out.keys {
		if _, ok := want[n]; !ok && maybe[n] != got {
			violate("keyring", fmt.Sprintf("operation %d installed %s, which is no key of %v that is valid now", r.i, n, r.op.L))
		}
	}
}

func (j *judge) install(r *opRun) {
	in := r.out.(*installRun)
	if in == nil {
		return
	}
	offline := r.op.N&fOffline != 0
	certain, tried := map[string]bool{}, map[string]bool{}
	for _, x := range j.runs {
		if x.started && x.op.B == r.op.B && x.op.Do == "install" && x.op.N&fOffline == 0 && x.op.Stage < r.op.Stage {
			for _, n := range x.op.L {
				tried[n] = true
				if x.done && x.err == nil {
					certain[n] = true
				}
			}
		}
	}
	if r.err != nil {
		if r.ownFault() || j.iw.model(in.list).err != "" {
			return
		}
		if offline {
			for _, n := range in.list {
				if !certain[n] {
					return
				}
			}
			violate("offline-failure", fmt.Sprintf("operation %d installs offline what was installed online before, and failed: %v", r.i, r.err))
		}
		return
	}
	if offline {
		for _, n := range in.list {
			if !tried[n] {
				violate("offline-content", fmt.Sprintf("operation %d installed %s offline, which was never fetched", r.i, n))
			}
		}
		t := spawn(goldenNode, -1, func(*task) { in.takeSnap() })
		<-t.done
		if d := in.checkModel(j.iw.model(in.list), baseFiles()); d != "" {
			violate("offline-content", fmt.Sprintf("operation %d installed offline, but %s", r.i, d))
		}
	}
}

// oneVersion: all that a process loads from one remote address is one version.
func (j *judge) oneVersion() {
	first := map[string]*opRun{}
	cmp := func(r *opRun, key, what string, get func(*opRun) string) {
		if x := first[key]; x == nil {
			first[key] = r
		} else if a, b := get(x), get(r); a != b {
			violate("changed", fmt.Sprintf("operations %d and %d of process %d loaded different versions of %s: %.300s | %.300s", x.i, r.i, r.node, what, a, b))
		} else {
			probe("loaded-again")
		}
	}
	for _, r := range j.runs {
		r := r
		o := r.op
		_, ok := r.out.(*repoRun)
		if !r.done || r.err != nil || !ok {
			continue
		}
		switch o.Do {
		case "index":
			for _, repo := range o.repos() {
				u := indexURL(repo)
				if strings.HasPrefix(u, "/") || j.resultFor(r, u) == "" {
					continue
				}
				how := "unverified"
				if o.checking(repo) {
					names, ks := ringOf(o)
					m := map[string]int{}
					for i, n := range names {
						m[n] = ks[i]
					}
					how = fmt.Sprint(m, o.N&fFree)
				}
				cmp(r, fmt.Sprint(r.node, u, how), "the index "+u, func(x *opRun) string { return j.resultFor(x, u) })
			}
		case "keys":
			for _, u := range o.L {
				if o.A == "" || o.N&fOffline != 0 || strings.HasPrefix(u, "/") {
					continue
				}
				tagged := true
				for _, v := range simNet.res[u].versions {
					tagged = tagged && v.etag != "" && strings.Trim(v.etag, `"`) != ""
				}
				if !tagged {
					continue
				}
				cmp(r, fmt.Sprint(r.node, u, o.A), "the key "+u, func(x *opRun) string { return j.resultFor(x, u) })
			}
		}
	}
}

// indexDownloads: through a cache, a process transfers each version of a
// resource at most once, and not at all if the version is in the cache.
func (j *judge) indexDownloads() {
	trouble := map[int]int{}
	for _, r := range j.runs {
		if r.started && (r.faults > 0 || r.cancelled || !r.done) {
			trouble[r.node]++
		}
	}
	type key struct {
		node int
		u, v string
		dir  string
	}
	n := map[key]int{}
	for _, e := range simNet.log {
		if e.op < 0 || e.op >= len(j.runs) {
			continue
		}
		r := j.runs[e.op]
		if e.method != "GET" || e.status != 200 || !e.delivered || r.op.A == "" || r.op.Do != "index" && r.op.Do != "keys" {
			continue
		}
		v := j.w.cache[e.ver]
		if v == nil || v.etag == "" {
			continue
		}
		n[key{e.node, e.url, e.ver, r.op.A}]++
		// Was it there already?
		for _, x := range j.runs {
			if x.op.Stage >= r.op.Stage || !x.done || x.err != nil || x.op.A != r.op.A || !contains(j.urlsOf(x.op), e.url) || r.faults > 0 || r.cancelled {
				continue
			}
			content := v.pkgs
			if x.op.Do == "keys" {
				content = string(v.body)
			}
			res := simNet.res[e.url]
			if vs := res.versionsDuring(j.window(x, e.url), r.s1); len(vs) == 1 && j.resultFor(x, e.url) == content && j.tagged(x, e.url) {
				violate("duplicate-index", fmt.Sprintf("operation %d transferred %s again although operation %d had cached this version", r.i, e.url, x.i))
			}
		}
	}
	for k, c := range n {
		if c > 1+trouble[k.node] {
			violate("duplicate-index", fmt.Sprintf("process %d transferred %s %d times in the same version", k.node, k.u, c))
		}
	}
}

func (j *judge) tagged(r *opRun, u string) bool {
	for _, e := range simNet.log {
		if e.op == r.i && e.url == u && e.method == "HEAD" && e.status == 200 {
			return true
		}
	}
	return false
}

var baseF map[string]string

// baseFiles is what InitDB alone makes.
func baseFiles() map[string]string {
	if baseF == nil {
		t := spawn(goldenNode, -1, func(*task) {
			f := adapters[goldenNode-1].NewMemFS()
			a, err := adapters[goldenNode-1].New(zi.Opts{FS: f, Arch: "x86_64", IgnoreMknod: true})
			if err == nil {
				err = a.InitDB(baseCtx())
			}
			if err != nil {
				fatal("golden InitDB: " + err.Error())
			}
			baseF = snapFS(f).files
		})
		<-t.done
	}
	return baseF
}

func gunzip(b []byte) []byte {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		fatal(err.Error())
	}
	out, err := io.ReadAll(z)
	if err != nil {
		fatal(err.Error())
	}
	return out
}
