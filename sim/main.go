package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	zi "github.com/chainguard-dev/go-apk/zziface"
	"github.com/chainguard-dev/go-apk/zzv"
)

var adapters []zi.Proc

const numNodes = 6
const goldenNode = numNodes

// A scenario generates workloads and runs them.
type scenario struct {
	gen func(r *rng, p *Plan)
	run func(p *Plan)
}

var scenarios = map[string]scenario{}

// propScenarios says which scenarios decide a property, and how often each.
type weighted struct {
	name string
	w    int
}

// A panic in the module contradicts every property that speaks of its results.
var allProps = strings.Fields("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C34")

var propScenarios = map[string][]weighted{"C25": nil}

// classProps maps each kind of violation to the properties it contradicts.
var classProps = map[string][]string{}

func classes(props string, cs ...string) {
	for _, c := range cs {
		for _, p := range strings.Fields(props) {
			if !contains(classProps[c], p) {
				classProps[c] = append(classProps[c], p)
			}
		}
	}
}

// like names the property whose workloads are also right for prop.
func like(prop, scenario string) string {
	switch {
	case prop == "C25":
		return "C20"
	case prop == "C26" && scenario == "stream":
		return "C21"
	case prop == "C26":
		return "C07"
	}
	return prop
}

func genPlan(prop string, seed uint64, idx int, forced string) *Plan {
	s := hashStr(fmt.Sprintf("%s/%d", prop, idx), seed)
	r := newRng(s, "plan")
	p := &Plan{Prop: prop, Seed: s, RandSeed: r.u64() | 1, P: map[string]int64{}, Rates: map[string]float64{}, Budget: 3}
	ws := propScenarios[prop]
	if len(ws) == 0 {
		ws = propScenarios[like(prop, "")]
	}
	if len(ws) == 0 {
		fatal("unknown property " + prop)
	}
	var w []int
	for _, x := range ws {
		w = append(w, x.w)
	}
	p.Scenario = ws[r.pick(w...)].name
	if forced != "" {
		p.Scenario = forced
	}
	p.Sched = Sched{Seed: r.u64(), Policy: 1, Procs: pickOf(r, 1, 1, 2, 2, 3, 4, 8)}
	switch r.pick(2, 5, 3) {
	case 0:
		p.Sched.Policy = 0
	case 1:
		p.Sched.Gap = pickOf(r, 0, 20, 60, 200, 1000, 5000)
		p.Sched.PSys = pickOf(r, 0, 0.05, 0.2, 0.5)
	case 2:
		p.Sched.Policy, p.Sched.ChangeN = 2, pickOf(r, 0, 5, 30, 200)
		p.Sched.Gap = pickOf(r, 20, 60, 200, 1000)
		p.Sched.PSys = pickOf(r, 0, 0.1, 0.4)
	}
	p.Prop = like(prop, p.Scenario)
	scenarios[p.Scenario].gen(r, p)
	p.Prop = prop
	if p.Scenario != "dirfs" && p.Scenario != "tar" && newRng(s, "user").p(0.15) {
		// The process is an ordinary user.
		p.P["unpriv"] = 1
	}
	if prop == "C25" {
		if r.p(0.4) {
			p.P["cancel"] = 1
			p.Rates["ctx:cancel"] = pickOf(r, 0.002, 0.01, 0.05)
		}
		for i := range p.Ops {
			// So that what happens to it is seen.
			if o := &p.Ops[i]; o.Do == "install" && o.A == "mem" {
				o.A = "flaky"
			} else if o.Do == "keys" && o.B == "mem" {
				o.B = "flaky"
			}
		}
	}
	if !strings.Contains("C01 C15 C18 C19", prop) && p.P["cancel"] == 0 && p.P["faultstages"] != 0 && r.p(0.12) {
		// Contexts end at any system call or request.
		p.P["cancel"] = 1
		p.Rates["ctx:cancel"] = pickOf(r, 0.002, 0.01, 0.05)
	}
	return p
}

func initSim(p *Plan, trace bool) {
	sim.plan = p
	sim.res = &Result{Fired: map[string]int{}, Probes: map[string]int{}}
	sim.counts = map[Fault]int{}
	sim.explicit = map[Fault]Fault{}
	for _, f := range p.Faults {
		k := f
		k.Act, k.Arg = "", 0
		sim.explicit[k] = f
	}
	sim.frng = newRng(p.Seed, "faults")
	sim.srng = newRng(p.Sched.Seed, "preempt")
	sim.opFaults = map[int]int{}
	sim.over = map[int]bool{}
	sim.full = map[string]bool{}
	sim.calm = map[int]bool{}
	sim.deadSig = make(chan int, 64)
	sim.stepLimit = 8_000_000
	sim.trace = trace
	sim.k = newKernel()
	sim.k.unpriv = p.P["unpriv"] != 0
	sim.k.dirSeed = p.Seed
	for i := 1; i <= numNodes; i++ {
		sim.nodes = append(sim.nodes, &simNode{id: i})
	}
	zzv.Slow = slow
	zzv.Left = 1 << 60
	sim.gapSet = 1 << 60
	syscall.SimHook = sysHook
	sim.on = true
	sim.startNs = runtime.SimNano()
}

var stateSum uint64

// noteState mixes a reached state into the run's state signature.
func noteState(s string) { stateSum ^= hashStr(s, 77) }

// finish writes the result and ends the program.
func finish() {
	sim.on = false
	sim.live = false
	runtime.SimStop()
	runtime.SimSetID(0)
	zzv.Left = 1 << 60
	r := sim.res
	picks, d, h, over := runtime.SimPicks()
	r.SimNs = runtime.SimNano() - sim.startNs
	r.Steps = sim.stepBase
	r.Syscalls = sim.k.calls
	r.Decisions = d
	r.SchedHash = fmt.Sprintf("%016x", h^hashStr(fmt.Sprint(sim.preempts), 3))
	r.EventHash = fmt.Sprintf("%016x", sim.hash)
	r.StateHash = fmt.Sprintf("%016x", stateSum)
	if over {
		r.Probes["pick-overflow"]++
	}
	if len(r.Violations) > 0 || wantPlan {
		p := *sim.plan
		p.Faults = sim.fired
		p.Explicit = true
		p.Rates = nil
		if !over {
			p.Sched.Policy = 3
			p.Sched.Picks = append([]uint32{}, picks...)
			p.Sched.Preempts = sim.preempts
			p.Sched.Gap, p.Sched.PSys = 0, 0
		}
		r.Plan = &p
	}
	b, err := json.Marshal(r)
	if err != nil {
		fatal(err.Error())
	}
	os.Stdout.Write(append(b, '\n'))
	if out := os.Getenv("VERIF_COVER_OUT"); out != "" {
		var l []byte
		for i, h := range zzv.Hit {
			if h != 0 {
				l = append(strconv.AppendInt(l, int64(i), 10), '\n')
			}
		}
		if f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			f.Write(l)
			f.Close()
		}
	}
	syscall.Exit(0)
}

var wantPlan bool

func main() {
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
	a := os.Args[1:]
	var p *Plan
	trace := false
	switch {
	case len(a) >= 4 && a[0] == "run": // run PROP SEED IDX [SCENARIO] [trace]
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		idx, _ := strconv.Atoi(a[3])
		forced := ""
		for _, x := range a[4:] {
			switch x {
			case "trace":
				trace = true
			case "plan":
				wantPlan = true
			default:
				forced = x
			}
		}
		p = genPlan(a[1], seed, idx, forced)
	case len(a) == 4 && a[0] == "genplan":
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		idx, _ := strconv.Atoi(a[3])
		b, err := json.Marshal(genPlan(a[1], seed, idx, ""))
		if err != nil {
			fatal(err.Error())
		}
		os.Stdout.Write(b)
		return
	case len(a) >= 1 && a[0] == "plan": // plan on stdin
		b, err := io.ReadAll(os.Stdin)
		if err != nil {
			fatal(err.Error())
		}
		p = &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fatal("plan: " + err.Error())
		}
		trace = len(a) > 1 && a[1] == "trace"
		wantPlan = true
	case len(a) == 1 && a[0] == "props":
		var ks []string
		for k := range propScenarios {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		return
	default:
		fmt.Fprintln(os.Stderr, "usage: worker run PROP SEED IDX [SCENARIO] [trace] | worker plan < FILE | worker props")
		os.Exit(2)
	}
	initSim(p, trace)
	sc, ok := scenarios[p.Scenario]
	if !ok {
		fatal("unknown scenario " + p.Scenario)
	}
	sc.run(p)
	finish()
}

// ---- running a plan's operations ------------------------------------------------------

type opRun struct {
	op        *Op
	i         int
	node      int
	err       error
	started   bool
	done      bool
	s0, s1    int64 // network sequence numbers
	t0, t1    int64
	faults    int // faults that this operation may report as its own
	cancelled bool
	ctxEnd    int64 // simulated time at which its context ended, 0 = never
	out       any
	crashes   int
}

// ownFault says whether the operation may fail: something went wrong that it
// saw itself.
func (r *opRun) ownFault() bool { return r.faults > 0 || r.cancelled }

const hour = int64(time.Hour)

// runStages executes the workload: the clients of one stage run concurrently,
// the stages one after another. After each stage, between runs (quiet).
func runStages(p *Plan, do func(t *task, r *opRun), after func(stage int, rs []*opRun)) []*opRun {
	runs := make([]*opRun, len(p.Ops))
	last := -1
	for i := range p.Ops {
		runs[i] = &opRun{op: &p.Ops[i], i: i, node: p.Ops[i].Node}
		if p.Ops[i].Stage > last {
			last = p.Ops[i].Stage
		}
	}
	for st := 0; st <= last; st++ {
		sim.faultsOn = p.P["faultstages"]>>uint(st)&1 != 0
		sim.full = map[string]bool{}
		groups := map[[2]int][]*opRun{}
		var order [][2]int
		var mine []*opRun
		for _, r := range runs {
			if r.op.Stage != st {
				continue
			}
			mine = append(mine, r)
			k := [2]int{r.op.Node, r.op.Client}
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], r)
		}
		if len(mine) == 0 {
			continue
		}
		var ts []*task
		for _, k := range order {
			g := groups[k]
			ts = append(ts, spawn(k[0], g[0].i, func(t *task) {
				for _, r := range g {
					t.enter(r.i)
					r.started = true
					r.t0 = runtime.SimNano()
					r.s0 = simNet.tick()
					mix(fmt.Sprintf("op %d %s start", r.i, r.op.Do))
					do(t, r)
					if isDead() {
						park()
					}
					r.done = true
					sim.over[r.i] = true
					r.t1 = runtime.SimNano()
					r.s1 = simNet.tick()
					r.faults = sim.opFaults[r.i]
					mix(fmt.Sprintf("op %d %s done %s", r.i, r.op.Do, errStr(r.err)))
				}
			}))
		}
		stuck := waitAll(ts, 6*time.Hour)
		for _, t := range stuck {
			violate("no-progress", fmt.Sprintf("operation %d (%s) on process %d has not returned after 6 h of simulated time", t.op, p.Ops[t.op].Do, t.id))
		}
		for _, t := range ts {
			if t.pan != nil {
				violate("panic", fmt.Sprintf("operation %d (%s) panicked: %v\n%s", t.op, p.Ops[t.op].Do, t.pan, t.stk))
			}
		}
		if len(stuck) > 0 {
			finish()
		}
		quiet()
		// Goroutines that an operation leaves behind get three minutes to go.
		time.Sleep(3 * time.Minute)
		for _, r := range mine {
			if r.done && !sim.nodes[r.node-1].dead {
				if n := runtime.SimLive(label(r.node, r.i)); n > 0 {
					violate("goroutine-leak", fmt.Sprintf("operation %d (%s) returned (%v) but %d of its goroutines are still there 3 min later", r.i, r.op.Do, r.err, n))
				}
				if us := simNet.held(r.node, r.i); len(us) > 0 {
					violate("connection-held", fmt.Sprintf("operation %d (%s) returned (%v) but holds the connections of %v", r.i, r.op.Do, r.err, us))
				}
			}
		}
		if after != nil {
			after(st, mine)
		}
		resume()
	}
	sim.faultsOn = false
	sim.full = map[string]bool{}
	quiet()
	return runs
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

var simNet = newNetwork()

func (n *network) tick() int64 {
	n.seq++
	return n.seq
}
