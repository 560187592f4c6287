package main

import (
	"archive/tar"
	"fmt"
	"sort"
	"strings"
	"time"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// Scenario "retry": one client installs a list of packages on one root until
// it succeeds; all but the last calls meet faults and cancellations.

func init() {
	scenarios["retry"] = scenario{genRetry, runRetry}
	propScenarios["C15"] = append(propScenarios["C15"], weighted{"retry", 10})
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"retry", 1})
	propScenarios["C11"] = append(propScenarios["C11"], weighted{"retry", 1})
	classes("C15", "retry-failed", "retry-model", "retry-golden")
}

func genRetry(r *rng, p *Plan) {
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(1 + r.intn(5))
	if r.p(0.7) {
		p.P["overlaps"] = 1
	}
	if r.p(0.5) {
		p.P["epoch"] = 1234567890
	}
	genFeat(r, p)
	if r.p(0.2) {
		p.P["feat"] |= 8
	}
	netParams(r, p)
	w := worldFor(p)
	n := 1
	if r.p(0.25) {
		n = 2
	}
	stages := 2 + r.pick(5, 3, 1)
	for c := 0; c < n; c++ {
		kind := pickOf(r, "mem", "flaky", "flaky", "dir", "dir")
		cache := pickOf(r, "", "/cache")
		l := sublist(r, w, 1)
		n := int64(0)
		if len(l) > 1 && r.p(0.2) {
			n = int64(1+r.intn(len(l)-1)) << 8
		}
		if p.P["feat"]&8 != 0 && r.p(0.7) {
			n |= opFixate
			sort.Strings(l)
		}
		// The list may be in another order each time, and even leave something out.
		other := n == 0 && p.P["feat"]&6 == 0 && r.p(0.5)
		fewer := other && p.P["feat"]&1 == 0 && r.p(0.6)
		for st := 0; st < stages; st++ {
			o := Op{Stage: st, Client: c, Node: 1, Do: "install", A: kind, B: cache, L: l, N: n}
			if other {
				o.L = append([]string{}, l...)
				shuffle(r, o.L)
				if fewer && r.p(0.5) {
					o.L = o.L[:1+r.intn(len(o.L))]
				}
			}
			if st < stages-1 && r.p(0.2) {
				o.M = int64(1 + r.intn(50_000))
			}
			p.Ops = append(p.Ops, o)
		}
	}
	p.Budget = 1 + r.intn(3)
	switch r.pick(3, 2, 1) {
	case 0:
		faultRates(r, p, 1, true, r.p(0.4))
		flakyRates(r, p, 0.02)
		for k := range p.Rates { // where files are put
			if strings.HasPrefix(k, "sys:") {
				p.Rates[k+":root0"] = 3 * p.Rates[k]
				p.Rates[k+":root1"] = 3 * p.Rates[k]
			}
		}
	case 1:
		p.P["cancel"] = 1
		p.Rates["ctx:cancel"] = pickOf(r, 0.002, 0.01, 0.05)
		p.Rates["ctx:cancel:root0"] = pickOf(r, 0.01, 0.05)
	case 2:
		faultRates(r, p, 1, false, true)
	}
	if p.Prop == "C11" {
		noCleanupFaults(p)
	}
	crashOff(p)
	p.P["faultstages"] = 1<<uint(stages-1) - 1
}

type retryClient struct {
	in   *installRun
	a    zi.APK
	done bool // nothing more can be told

	installed []string // the list that has been installed
}

func runRetry(p *Plan) {
	w := worldFor(p)
	publishWorld(w, p)
	inNode(goldenNode, func() { w.answersFor(p) })
	mkdirs("/tmp", "/cache")
	begin()
	cs := map[int]*retryClient{}
	had := map[*retryClient]map[string]bool{}
	pr := adapters[0]
	base := map[string]string{}
	for i := range p.Ops {
		o := &p.Ops[i]
		if cs[o.Client] != nil {
			continue
		}
		c := &retryClient{in: &installRun{w: w, kind: o.A, root: fmt.Sprintf("/root%d", o.Client), list: o.L, cut: min(int(o.N>>8), len(o.L))}}
		cs[o.Client] = c
		if p.P["epoch"] != 0 {
			t := time.Unix(p.P["epoch"], 0).UTC()
			c.in.epoch = &t
		}
		t := spawn(1, -1, func(*task) {
			if c.in.fs, _ = newRoot(pr, o.A, c.in.root); c.in.fs == nil {
				fatal("no root")
			}
			var err error
			c.a, err = pr.New(zi.Opts{FS: asGiven(o.A, c.in.fs), Arch: "x86_64", Cache: o.B, IgnoreMknod: true, Client: simNet.client(1)})
			if err == nil {
				err = c.a.InitDB(baseCtx())
			}
			if err == nil && o.N&opFixate != 0 {
				err = c.in.wants(o)
				if err == nil {
					err = c.in.fs.WriteFile("etc/apk/keys/builder.rsa.pub", []byte(testKeys[0].pub), 0o644)
				}
				if err == nil {
					err = c.a.SetRepositories(baseCtx(), []string{w.repo})
				}
			}
			if err == nil && c.in.cut > 0 && w.modelCut(c.in.list[:c.in.cut], 0).err == "" {
				// Some of it is there already.
				probe("retry-more")
				if o.N&opFixate == 0 {
					err = c.a.InstallPackages(baseCtx(), c.in.epoch, w.refsOf(c.in.list[:c.in.cut], false))
				} else if err = c.a.SetWorld(baseCtx(), o.L[:o.N>>8]); err == nil {
					err = c.a.FixateWorld(baseCtx(), c.in.epoch)
				}
			} else {
				c.in.cut = 0
			}
			if err == nil && o.N&opFixate != 0 {
				err = c.a.SetWorld(baseCtx(), o.L)
			}
			if err != nil {
				violate("retry-failed", fmt.Sprintf("setting up an empty root failed: %v", err))
			}
		})
		<-t.done
	}
	runStages(p, func(t *task, r *opRun) {
		c := cs[r.op.Client]
		r.out = c
		if r.op.N&opFixate == 0 {
			if c.in.list = c.installed; c.installed == nil {
				c.in.list = r.op.L
			}
		}
		ctx, done := opCtx(r)
		defer done()
		if r.op.N&opFixate != 0 {
			probe("retry-fixate")
			r.err = c.a.FixateWorld(ctx, c.in.epoch)
			return
		}
		r.err = c.a.InstallPackages(ctx, c.in.epoch, w.refsOf(c.in.list, false))
	}, func(stage int, rs []*opRun) {
		sim.full = map[string]bool{}
		for _, r := range rs {
			if c, _ := r.out.(*retryClient); c != nil {
				if had[c] == nil {
					had[c] = map[string]bool{}
				}
				for _, n := range r.op.L {
					for _, f := range w.by[n].files {
						had[c][f.path] = had[c][f.path] || f.kind == tar.TypeDir
					}
				}
			}
			c, _ := r.out.(*retryClient)
			if !r.done || c == nil || c.done {
				continue
			}
			sim.res.Evals++
			noteState(fmt.Sprintf("%s %d %v %d", r.op.A, r.i, r.err == nil, r.faults))
			if r.cancelled {
				probe("op-cancelled")
				if late := r.t1 - r.ctxEnd; r.ctxEnd > 0 && late > int64(3*time.Minute) {
					violate("late-return", fmt.Sprintf("operation %d returned %d s after its context ended", r.i, late/1e9))
				}
			}
			if r.err != nil {
				probe("op-error")
				for _, f := range sim.fired {
					if f.In == r.i && f.Class == "db" {
						// The database may be left incomplete.
						probe("db-fault")
						c.done = true
					}
				}
				if !r.ownFault() && c.in.modelFor().err == "" {
					violate("retry-failed", fmt.Sprintf("call %d (%s, %v) met no fault and failed: %v", r.i, r.op.A, c.in.list, r.err))
					c.done = true
				}
				continue
			}
			if stage > 0 {
				probe("op-success-after-failure")
			}
			t := spawn(goldenNode, -1, func(*task) { c.in.takeSnap() })
			<-t.done
			c.installed = c.in.list
			m := c.in.modelFor()
			if len(base) == 0 {
				base = baseFiles()
			}
			// Directories of what an earlier list had may be left.
			for k, v := range c.in.snap.files {
				if _, pre := base[k]; !pre && m.files[k] == nil && m.err == "" && had[c][k] && strings.HasPrefix(v, "dir ") {
					delete(c.in.snap.files, k)
					probe("retry-directory-left")
				}
			}
			if d := c.in.checkModel(m, base); d != "" {
				violate("retry-model", fmt.Sprintf("call %d (%s, cache %q, %v) reported success after earlier attempts, but %s", r.i, r.op.A, r.op.B, c.in.list, d))
				c.done = true
				continue
			}
			l := c.in.list
			if r.op.N&opFixate != 0 {
				l = r.op.L
			}
			gr := &opRun{op: &Op{Do: "install", A: c.in.kind, L: l, N: r.op.N}, i: 50 + r.i, node: -1}
			t = spawn(goldenNode, -1, func(*task) {
				doInstall(w, adapters[goldenNode-1], gr, goldenNode)
				if gr.err == nil {
					gr.out.(*installRun).takeSnap()
				}
			})
			<-t.done
			if t.pan != nil {
				fatal(fmt.Sprintf("golden run: %v\n%s", t.pan, t.stk))
			}
			if gr.err != nil {
				violate("retry-failed", fmt.Sprintf("an undisturbed installation of %v failed: %v", c.in.list, gr.err))
				continue
			}
			if d := c.in.snap.diff(gr.out.(*installRun).snap); d != "" {
				violate("retry-golden", fmt.Sprintf("call %d (%s, cache %q, %v) succeeded after earlier attempts, but differs from an undisturbed installation: %s", r.i, r.op.A, r.op.B, c.in.list, d))
				c.done = true
			}
		}
		if p.Prop == "C11" {
			checkResidue(rs)
		}
	})
}
