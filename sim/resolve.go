package main

import (
	"fmt"
	"sort"
	"strings"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// The resolve scenario (C22): worlds are resolved against generated
// repositories, again and again: in several processes, concurrently, with the
// indexes shared between callers or fetched over the network in any order.

func init() {
	scenarios["resolve"] = scenario{genResolve, runResolve}
	propScenarios["C22"] = append(propScenarios["C22"], weighted{"resolve", 10})
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"resolve", 1})
	classes("C22", "resolve-differs", "resolve-refused", "resolve-input-changed")
}

func genResolve(r *rng, p *Plan) {
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(3 + r.intn(pickOf(r, 4, 10, 25)))
	p.P["repos"] = int64(1 + r.intn(3))
	p.P["pinned"] = int64(r.intn(2))
	netParams(r, p)
	p.Budget = 1 + r.intn(4)
	crashOff(p)
	if r.p(0.4) {
		faultRates(r, p, pickOf(r, 0.5, 2), r.p(0.5), true)
	}
	p.Rates["act:flip"], p.Rates["act:eofcut"] = 0, 0
	stages := 1 + r.intn(3)
	p.P["faultstages"] = 1<<uint(stages) - 1
	var seeds []int64
	for i := 1 + r.intn(3); i > 0; i-- {
		seeds = append(seeds, int64(r.u64()>>1))
	}
	for st := 0; st < stages; st++ {
		for c := 0; c < 1+r.intn(5); c++ {
			node := 1 + r.intn(3)
			for i := 0; i < 1+r.intn(3); i++ {
				o := Op{Stage: st, Client: c, Node: node, N: pickOf(r, seeds...)}
				o.Do = pickOf(r, "alone", "alone", "shared", "shared", "root", "root")
				if o.Do == "root" && r.p(0.5) {
					o.B = "/cache"
				}
				if o.Do == "root" && r.p(0.05) {
					o.M = int64(1 + r.intn(2_000_000))
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
}

type universe struct {
	repos []string // URLs
	tags  []string
	pkgs  [][]*pkgSpec
	names []string
	virt  []string
}

// genUniverse makes repositories in which there is something to decide.
func genUniverse(p *Plan) *universe {
	r := newRng(uint64(p.P["world"]), "universe")
	u := &universe{}
	n := int(p.P["npkgs"])
	for i := 0; i < int(p.P["repos"]); i++ {
		u.repos = append(u.repos, fmt.Sprintf("https://r%d.example/alpine", i))
		tag := ""
		if i > 0 && p.P["pinned"] == 1 && r.p(0.5) {
			tag = fmt.Sprintf("t%d", i)
		}
		u.tags = append(u.tags, tag)
		u.pkgs = append(u.pkgs, nil)
	}
	nn := 2 + n/2
	for i := 0; i < nn; i++ {
		u.names = append(u.names, fmt.Sprintf("%s%d", pickOf(r, "a", "b", "lib", "py3-x"), i))
	}
	for i := 0; i < 1+nn/2; i++ {
		u.virt = append(u.virt, fmt.Sprintf("%s%d", pickOf(r, "so:libv", "cmd:v", "virt"), i))
	}
	vers := []string{"1.0-r0", "1.0-r1", "1.2-r0", "2.0_alpha1-r0", "2.0-r0", "2.0.1-r3"}
	for i := 0; i < n; i++ {
		x := &pkgSpec{name: u.names[i%nn], version: pickOf(r, vers...), arch: "x86_64", desc: "d", builddate: int64(1_600_000_000 + r.intn(3)*1000)}
		if i >= nn && r.p(0.5) {
			x.name = pickOf(r, u.names...)
		}
		if i < len(u.virt) {
			x.provides = append(x.provides, u.virt[i]+pickOf(r, "", "", "", "", "=1"))
		}
		if r.p(0.5) {
			x.origin = fmt.Sprintf("o%d", r.intn(3))
		}
		for k := pickOf(r, 0, 0, 1, 1, 2, 4); k > 0; k-- {
			d := u.want(r)
			if r.p(0.04) {
				d = "!" + d
			}
			if strings.TrimLeft(d, "!") != x.name {
				x.deps = append(x.deps, d)
			}
		}
		for k := pickOf(r, 0, 0, 1, 1, 2); k > 0; k-- {
			v := pickOf(r, u.virt...)
			if r.p(0.15) {
				v = pickOf(r, u.names...)
			}
			x.provides = append(x.provides, v+pickOf(r, "", "", "", "", "", "", "", "=1", "=2", "=1.5-r0"))
		}
		if r.p(0.2) {
			x.installIf = []string{pickOf(r, u.names...)}
			if r.p(0.7) {
				x.installIf = append(x.installIf, pickOf(r, u.names...)+pickOf(r, "", "=1.0-r0"))
			}
		}
		if r.p(0.2) {
			x.replaces = []string{pickOf(r, u.names...)}
		}
		if r.p(0.3) {
			x.priority = uint64(r.intn(30))
		}
		x.ctlSum = sum1([]byte(fmt.Sprint(i, x.name, x.version, r.intn(1))))
		k := r.intn(len(u.repos))
		dup := false
		for _, y := range u.pkgs[k] {
			dup = dup || y.name == x.name && y.version == x.version
		}
		if !dup {
			u.pkgs[k] = append(u.pkgs[k], x)
		}
	}
	return u
}

func (u *universe) want(r *rng) string {
	s := pickOf(r, u.names...)
	if r.p(0.4) {
		s = pickOf(r, u.virt...)
	}
	if r.p(0.15) {
		s += pickOf(r, ">=1.0-r0", "=1.0-r0", "<2.0-r0", "~1", ">1.2-r0", "=1", ">=1", "~2.0")
	}
	return s
}

func (u *universe) world(seed int64) []string {
	r := newRng(uint64(seed), "want")
	var l []string
	for k := 1 + r.intn(4); k > 0; k-- {
		s := u.want(r)
		if r.p(0.15) {
			for _, t := range u.tags {
				if t != "" {
					s += "@" + t
					break
				}
			}
		}
		l = append(l, s)
	}
	sort.Strings(l) // as the world file is
	return l
}

func (u *universe) indexes() []zi.Index {
	var out []zi.Index
	for i, repo := range u.repos {
		x := zi.Index{Name: u.tags[i], Source: repo + "/x86_64"}
		for _, p := range u.pkgs[i] {
			x.Pkgs = append(x.Pkgs, zi.Info{Name: p.name, Version: p.version, Arch: p.arch, Origin: p.origin, Checksum: p.ctlSum, Deps: append([]string{}, p.deps...),
				Provides: append([]string{}, p.provides...), Replaces: append([]string{}, p.replaces...), InstallIf: append([]string{}, p.installIf...),
				Priority: p.priority, BuildDate: p.builddate})
		}
		out = append(out, x)
	}
	return out
}

func (u *universe) lines() []string {
	var l []string
	for i, repo := range u.repos {
		if u.tags[i] != "" {
			repo = "@" + u.tags[i] + " " + repo
		}
		l = append(l, repo)
	}
	return l
}

type answer struct {
	text string
	fail bool
	why  string
}

func answerOf(ps []*zi.Pkg, conflicts []string, err error) answer {
	if err != nil {
		return answer{fail: true, why: err.Error()}
	}
	var l []string
	for _, p := range ps {
		l = append(l, p.Name+"-"+p.Version+" from "+p.Repo)
	}
	return answer{text: strings.Join(l, ", ") + " without " + strings.Join(conflicts, " ")}
}

func runResolve(p *Plan) {
	u := genUniverse(p)
	simNet.latMin, simNet.latJit = p.P["latmin"], p.P["latjit"]
	if p.P["chunk"] > 0 {
		simNet.chunk = int(max(p.P["chunk"], 40))
	}
	for i, repo := range u.repos {
		b := buildIndex("d", u.pkgs[i], 0, "builder.rsa.pub")
		simNet.publish(repo+"/x86_64/APKINDEX.tar.gz", b, fmt.Sprintf(`"i%d"`, i), "index")
	}
	mkdirs("/tmp", "/cache")
	keys := map[string][]byte{"builder.rsa.pub": []byte(testKeys[0].pub)}
	shared := map[int][]zi.Index{}
	right := map[int64]answer{}
	begin()
	inNode(goldenNode, func() {
		for _, o := range p.Ops {
			if _, ok := right[o.N]; !ok {
				right[o.N] = answerOf(adapters[goldenNode-1].Resolve(baseCtx(), u.indexes(), u.world(o.N)))
				noteState(right[o.N].text)
				if right[o.N].fail {
					probe("unsolvable")
				} else {
					probe("solvable")
				}
			}
		}
	})
	runStages(p, func(t *task, r *opRun) {
		ctx, done := opCtx(r)
		defer done()
		pr := adapters[t.id-1]
		want := u.world(r.op.N)
		given := append([]string{}, want...)
		var ps []*zi.Pkg
		var cs []string
		switch r.op.Do {
		case "alone":
			ps, cs, r.err = pr.Resolve(ctx, u.indexes(), want)
		case "shared":
			idx := shared[t.id]
			if idx == nil {
				if idx, r.err = pr.GetRepositoryIndexes(ctx, u.lines(), keys, "x86_64", zi.IndexOpts{Client: simNet.client(t.id)}); r.err != nil {
					return
				}
				shared[t.id] = idx
			}
			ps, cs, r.err = pr.Resolve(ctx, idx, want)
		case "root":
			f := pr.NewMemFS()
			var a zi.APK
			o := zi.Opts{FS: f, Arch: "x86_64", IgnoreMknod: true, Client: simNet.client(t.id)}
			if r.op.B != "" {
				o.Cache = r.op.B + fmt.Sprint(t.id)
			}
			if a, r.err = pr.New(o); r.err != nil {
				return
			}
			if r.err = a.InitDB(ctx); r.err != nil {
				return
			}
			if r.err = f.WriteFile("etc/apk/keys/builder.rsa.pub", keys["builder.rsa.pub"], 0o644); r.err != nil {
				return
			}
			if r.err = a.SetWorld(ctx, want); r.err != nil {
				return
			}
			if r.err = a.SetRepositories(ctx, u.lines()); r.err != nil {
				return
			}
			ps, cs, r.err = a.ResolveWorld(ctx)
		}
		got := answerOf(ps, cs, r.err)
		r.out = &got
		if diffLists(want, given) != "" {
			violate("resolve-input-changed", fmt.Sprintf("operation %d (%s) changed the list it was given", r.i, r.op.Do))
		}
	}, func(st int, rs []*opRun) {
		for _, r := range rs {
			if !r.done || r.out == nil || r.err != nil && r.ownFault() {
				continue
			}
			sim.res.Evals++
			got, want := *r.out.(*answer), right[r.op.N]
			switch {
			case got.fail && !want.fail:
				violate("resolve-refused", fmt.Sprintf("operation %d (%s) failed (%s) but the answer is %s", r.i, r.op.Do, got.why, want.text))
			case got.text != want.text:
				violate("resolve-differs", fmt.Sprintf("operation %d (%s) for %q: %s, another time: %s%s", r.i, r.op.Do, u.world(r.op.N), got.text, want.text, want.why))
			}
		}
	})
}
