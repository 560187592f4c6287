package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/chainguard-dev/go-apk/zzv"
)

// ---- deterministic random numbers -------------------------------------------------

type rng struct{ s uint64 }

func newRng(seed uint64, label string) *rng { return &rng{hashStr(label, seed)} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) p(x float64) bool { return float64(r.u64()>>11)/(1<<53) < x }
func (r *rng) f() float64       { return float64(r.u64()>>11) / (1 << 53) }
func (r *rng) pick(w ...int) int { // weighted
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
func pickOf[T any](r *rng, xs ...T) T { return xs[r.intn(len(xs))] }
func shuffle[T any](r *rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.intn(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// ---- plans --------------------------------------------------------------------------

// Fault is one injected fault: the Nth time Node performs Op on an object of
// class Class, Act happens.
type Fault struct {
	Kind  string `json:"kind"` // sys, http, fs, stream
	Node  int    `json:"node"`
	In    int    `json:"in"` // index of the operation whose goroutines are hit
	Op    string `json:"op"`
	Class string `json:"class"`
	Nth   int    `json:"nth"`
	Act   string `json:"act"`
	Arg   int64  `json:"arg,omitempty"`
}

type Sched struct {
	Seed     uint64   `json:"seed"`
	Policy   int      `json:"policy"` // 0 fifo 1 random 2 priorities 3 replay
	ChangeN  int      `json:"change_n,omitempty"`
	Gap      int      `json:"gap,omitempty"`  // mean statements between preemptions, 0 = none
	PSys     float64  `json:"psys,omitempty"` // preemption probability at a system call
	Procs    int      `json:"procs"`
	Picks    []uint32 `json:"picks,omitempty"`
	Preempts []int64  `json:"preempts,omitempty"`
}

type Plan struct {
	Prop     string           `json:"prop"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	RandSeed uint64           `json:"rand_seed"`
	Sched    Sched            `json:"sched"`
	P        map[string]int64 `json:"p"`   // scenario parameters
	Ops      []Op             `json:"ops"` // the workload
	Faults   []Fault          `json:"faults"`
	// Rates drives fault injection while exploring; a replay has Explicit set
	// and injects exactly Faults.
	Explicit bool               `json:"explicit"`
	Rates    map[string]float64 `json:"rates,omitempty"`
	Budget   int                `json:"budget,omitempty"`
}

// Op is one step of one simulated client.
type Op struct {
	Stage  int      `json:"stage"`
	Client int      `json:"client"`
	Node   int      `json:"node"`
	Do     string   `json:"do"`
	A      string   `json:"a,omitempty"`
	B      string   `json:"b,omitempty"`
	N      int64    `json:"n,omitempty"`
	M      int64    `json:"m,omitempty"`
	L      []string `json:"l,omitempty"`
}

type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Known      []Violation    `json:"known,omitempty"`
	Fired      map[string]int `json:"fired,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	SimNs      int64          `json:"sim_ns"`
	Steps      int64          `json:"steps"`
	Syscalls   int64          `json:"syscalls"`
	Decisions  int            `json:"decisions"`
	SchedHash  string         `json:"sched_hash"`
	EventHash  string         `json:"event_hash"`
	StateHash  string         `json:"state_hash"`
	Evals      int            `json:"evals"`
	Plan       *Plan          `json:"plan,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Err        string         `json:"err,omitempty"`
	Sample     string         `json:"sample,omitempty"`
}

// ---- simulated processes -----------------------------------------------------------------

type simNode struct {
	id   int // 1-based; also the goroutine label
	dead bool
}

type simulator struct {
	on       bool // intercept system calls
	live     bool // inject faults and preempt
	k        *kernel
	nodes    []*simNode
	plan     *Plan
	counts   map[Fault]int // Kind, Node, Op, Class -> occurrences
	explicit map[Fault]Fault
	frng     *rng
	srng     *rng
	fired    []Fault
	res      *Result
	full     map[string]bool // classes whose disk is full
	hash     uint64

	// preemption
	stepBase, gapSet int64
	preempts         []int64
	preemptI         int
	replay           bool
	deadSig          chan int
	stepLimit        int64
	trace            bool
	stageFaults      int
	faultsOn         bool
	over             map[int]bool // operations that have returned
	opFaults         map[int]int  // operation -> faults it may not shrug off
	crashes          int
	calm             map[int]bool   // operations that meet no faults now
	cancels          map[int]func() // operation -> ends its context
	startNs          int64
}

var sim simulator

// A goroutine's label is its simulated process (low 8 bits) and the operation
// it works for, plus one.
func curNode() int { return runtime.SimID() & 0xff }
func curOp() int   { return runtime.SimID()>>8 - 1 }

func label(node, op int) int { return node | (op+1)<<8 }

func fatal(msg string) {
	sim.on = false
	sim.live = false
	runtime.SimStop()
	runtime.SimSetID(0)
	fmt.Fprintln(os.Stderr, "SIMERROR "+msg)
	syscall.Exit(3)
}

func curStep() int64 { return sim.stepBase + (sim.gapSet - zzv.Left) }

func setGap(n int64) {
	sim.stepBase = curStep()
	sim.gapSet = n
	zzv.Left = n
}

func nextGap() int64 {
	lim := sim.stepLimit - curStep()
	if lim < 0 {
		lim = 0
	}
	g := int64(1 << 60)
	if sim.replay {
		for sim.preemptI < len(sim.preempts) && sim.preempts[sim.preemptI] <= curStep() {
			sim.preemptI++
		}
		if sim.preemptI < len(sim.preempts) {
			g = sim.preempts[sim.preemptI] - curStep() - 1
		}
	} else if sim.plan.Sched.Gap > 0 {
		// geometric-like
		g = int64(sim.srng.u64() % uint64(2*sim.plan.Sched.Gap))
	}
	if g > lim {
		g = lim
	}
	return g
}

// slow is reached when the statement countdown expires.
func slow() {
	id := curNode()
	if !sim.live || id == 0 {
		// Not in a simulated process: keep going, do not schedule.
		zzv.Left = 0
		sim.gapSet++
		return
	}
	if curStep() > sim.stepLimit {
		fatalSteps()
	}
	s := curStep()
	if !sim.replay {
		sim.preempts = append(sim.preempts, s)
	}
	setGap(nextGap())
	preempt()
}

func preempt() {
	sim.res.Probes["preempt"]++
	runtime.SimYield()
	if isDead() {
		park()
	}
}

func park() {
	select {}
}

func fatalSteps() {
	// A simulated process ran for stepLimit statements without finishing.
	violate("no-progress", fmt.Sprintf("no termination within %d executed statements", sim.stepLimit))
	finish()
}

// yieldPoint is called before every system call, network event and so on.
func yieldPoint() {
	if !sim.live {
		return
	}
	if zzv.Left--; zzv.Left < 0 {
		slow()
		return
	}
	if !sim.replay && sim.plan.Sched.PSys > 0 && curNode() != 0 && sim.srng.p(sim.plan.Sched.PSys) {
		sim.preempts = append(sim.preempts, curStep())
		setGap(nextGap())
		preempt()
	}
}

func mix(s string) {
	sim.hash = hashStr(s, sim.hash)
	if sim.trace {
		sim.res.Trace = append(sim.res.Trace, fmt.Sprintf("%12dns %s", runtime.SimNano()-simEpoch, s))
	}
}

const simEpoch = 1700000000000000000

func isDead() bool {
	id := curNode()
	return id != 0 && sim.nodes[id-1].dead
}

func kill(id int) {
	n := sim.nodes[id-1]
	if n.dead {
		return
	}
	n.dead = true
	sim.crashes++
	sim.res.Probes["crash"]++
	mix(fmt.Sprintf("KILL %d", id))
	for fd, f := range sim.k.fds {
		if f.owner == id {
			sim.k.closeFd(fd)
		}
	}
	select {
	case sim.deadSig <- id:
	default:
	}
}

func pathClass(p string) string {
	if strings.Contains(p, "lib/apk/db/") {
		return "db"
	}
	c := topClass(p)
	if c == "cache2" {
		c = "cache"
	}
	if c == "cache" || c == "tmp" {
		for _, k := range fileKinds {
			if strings.HasSuffix(p, k[0]) {
				return c + "." + k[1]
			}
		}
	}
	if strings.HasPrefix(c, "root") && strings.HasPrefix(p[strings.Index(p, c)+len(c):], "/etc/") {
		if strings.HasSuffix(p, "/etc/passwd") || strings.HasSuffix(p, "/etc/group") {
			return c + ".users"
		}
		return c + ".etc"
	}
	return c
}

// fileKinds are the kinds of files in the cache and in temporary directories.
var fileKinds = [][2]string{{".ctl.tar.gz", "ctl"}, {".sig.tar.gz", "sig"}, {".dat.tar.gz", "dat"}, {".dat.tar", "tar"}, {".etag", "etag"},
	{"stream-0.tar.gz", "ctl"}, {"stream-1.tar.gz", "dat"}, {"stream-2.tar.gz", "dat"}, {".tar", "tar"}, {".tmp", "part"}, {".tar.gz", "index"}}

func topClass(p string) string {
	p = strings.TrimPrefix(p, "/")
	if i := strings.IndexByte(p, '/'); i >= 0 {
		p = p[:i]
	}
	return p
}

// cancelPoint may end the context of the operation that got here.
func cancelPoint(class string) {
	c := sim.cancels[curOp()]
	if c == nil {
		return
	}
	if _, ok := decide("ctx", curNode(), "cancel", class, cancelActs, func(string) int64 { return 0 }); ok {
		c()
	}
}

var cancelActs = []string{"cancel"}

// sysActs lists what can go wrong with each kind of system call.
var sysActs = map[string][]string{
	"open":     {"EIO", "EMFILE", "EACCES", "crash"},
	"create":   {"EIO", "ENOSPC", "EMFILE", "full", "crash", "crash-after"},
	"opendir":  {"EIO", "EMFILE", "crash"},
	"read":     {"EIO", "short", "EINTR", "crash"},
	"write":    {"EIO", "ENOSPC", "short-ENOSPC", "full", "short", "EINTR", "crash", "torn", "crash-after"},
	"close":    {"EIO"},
	"closew":   {"EIO", "ENOSPC", "crash", "crash-after"},
	"rename":   {"EIO", "ENOSPC", "crash", "crash-after"},
	"mkdir":    {"EIO", "ENOSPC", "full", "crash", "crash-after"},
	"unlink":   {"EIO", "crash", "crash-after"},
	"symlink":  {"EIO", "ENOSPC", "crash", "crash-after"},
	"link":     {"EIO", "ENOSPC", "crash"},
	"stat":     {"EIO", "EACCES", "crash"},
	"fstat":    {"EIO"},
	"readdir":  {"EIO", "crash"},
	"chmod":    {"EIO", "crash"},
	"chown":    {"EIO"},
	"mknod":    {"EIO", "EPERM"},
	"lseek":    {"EIO"},
	"truncate": {"EIO", "crash"},
	"readlink": {"EIO"},
	"fsync":    {"EIO"},
}

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES,
	"EINTR": syscall.EINTR, "EPERM": syscall.EPERM}

// decide says which fault, if any, hits this occurrence of (kind, node, op, class).
func decide(kind string, node int, op, class string, acts []string, arg func(act string) int64) (Fault, bool) {
	if !sim.live {
		return Fault{}, false
	}
	key := Fault{Kind: kind, Node: node, In: curOp(), Op: op, Class: class}
	n := sim.counts[key]
	sim.counts[key] = n + 1
	key.Nth = n
	if sim.plan.Explicit {
		f, ok := sim.explicit[key]
		if ok {
			note(f)
		}
		return f, ok
	}
	if !sim.faultsOn || sim.calm[key.In] || len(sim.fired) >= sim.plan.Budget || len(acts) == 0 {
		return Fault{}, false
	}
	rate, ok := sim.plan.Rates[kind+":"+op+":"+class]
	if i := strings.IndexByte(class, '.'); !ok && i > 0 {
		rate, ok = sim.plan.Rates[kind+":"+op+":"+class[:i]]
	}
	if !ok {
		if rate, ok = sim.plan.Rates[kind+":"+op]; !ok {
			return Fault{}, false
		}
	}
	if !sim.frng.p(rate) {
		return Fault{}, false
	}
	a := acts[sim.frng.intn(len(acts))]
	// A scenario switches actions off by giving them rate 0, and on (for the
	// ones that are off by default) by giving them a positive one.
	if r, ok := sim.plan.Rates["act:"+a]; ok && !sim.frng.p(r) {
		return Fault{}, false
	} else if !ok && strings.HasPrefix(a, "crash") || a == "torn" && !ok {
		if _, on := sim.plan.Rates["act:crash"]; !on {
			return Fault{}, false
		}
	}
	key.Act = a
	if arg != nil {
		key.Arg = arg(a)
	}
	note(key)
	return key, true
}

func note(f Fault) {
	sim.fired = append(sim.fired, f)
	sim.stageFaults++
	if !f.benign() {
		sim.opFaults[curOp()]++
	}
	sim.res.Fired[f.Kind+":"+f.Op+":"+f.Act]++
	mix(fmt.Sprintf("FAULT %+v", f))
}

// benign reports whether a fault must be invisible to the caller.
func (f Fault) benign() bool {
	switch f.Act {
	case "short", "EINTR", "stall", "chunk":
		return true
	}
	return false
}

// late is called before something is done that others can see: nobody does
// that for an operation that has returned.
func late(what string) {
	if op := curOp(); op >= 0 && sim.over[op] {
		violate("late-effect", fmt.Sprintf("operation %d (%s %s %v) has returned, but goes on: %s", op, sim.plan.Ops[op].Do, sim.plan.Ops[op].A, sim.plan.Ops[op].L, what))
	}
}

func sysHook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno, bool) {
	id := curNode()
	if id == 0 || !sim.on {
		return 0, 0, false
	}
	if sim.nodes[id-1].dead {
		park()
	}
	if trap == syscall.SYS_WRITE && (a1 == 1 || a1 == 2) {
		return a3, 0, true // console output
	}
	req, ok := sim.k.classify(trap, [6]uintptr{a1, a2, a3, a4, a5, a6})
	if !ok {
		fatal(fmt.Sprintf("system call %d(%#x, ...) from a simulated process is not simulated", trap, a1))
	}
	yieldPoint()
	switch req.op {
	case "create", "rename", "mkdir", "unlink", "symlink", "link", "chmod", "chown", "mknod", "truncate", "write", "utimes":
		late(req.op + " " + req.path + " " + req.path2)
	}
	runtime.SimAdvance(1000)
	class, disk := pathClass(req.path), topClass(req.path)
	cancelPoint(class)
	limit := -1
	after := false
	if f, ok := decide("sys", id, req.op, class, sysActs[req.op], func(act string) int64 {
		if act == "short" || act == "torn" || act == "short-ENOSPC" || req.op == "closew" {
			return int64(sim.frng.u64() >> 1)
		}
		return 0
	}); ok {
		switch f.Act {
		case "crash":
			kill(id)
			park()
		case "crash-after":
			after = true
		case "short", "torn", "short-ENOSPC":
			if req.n > 1 {
				limit = 1 + int(f.Arg%int64(req.n-1))
			}
			after = f.Act == "torn"
			if f.Act == "short-ENOSPC" {
				sim.full[disk] = true
			}
		case "full":
			sim.full[disk] = true
		default:
			e := errnos[f.Act]
			if req.op == "close" || req.op == "closew" {
				if f.Arg != 0 {
					sim.k.loseTail(int(a1), f.Arg)
				}
				sim.k.closeFd(int(a1)) // Linux releases the descriptor even on error
			}
			return ^uintptr(0), e, true
		}
	}
	if sim.full[disk] && limit < 0 {
		switch req.op {
		case "create", "mkdir", "symlink":
			if n, e := sim.k.lookup(atFdcwd, req.path, true); e != 0 || n == nil {
				sim.opFaults[curOp()]++
				return ^uintptr(0), syscall.ENOSPC, true
			}
		case "write":
			sim.opFaults[curOp()]++
			return ^uintptr(0), syscall.ENOSPC, true
		}
	}
	r, e := sim.k.do(&req, limit, id)
	if f := sim.k.fds[int(r)]; f != nil && e == 0 && (req.op == "open" || req.op == "create" || req.op == "opendir") {
		f.op = curOp()
	}
	if req.op != "write" && req.op != "read" {
		mix(fmt.Sprintf("n%d/%d %s %s %s = %d %d", id, curOp(), req.op, req.path, req.path2, int(r), int(e)))
	} else {
		sim.hash = sim.hash*31 + uint64(r) + uint64(req.n)
		if sim.trace && req.n > 1 {
			sim.res.Trace = append(sim.res.Trace, fmt.Sprintf("%12dns n%d/%d %s %s %d = %d %d", runtime.SimNano()-simEpoch, id, curOp(), req.op, req.path, req.n, int(r), int(e)))
		}
	}
	if after {
		kill(id)
		park()
	}
	return r, e, true
}

// ---- running ----------------------------------------------------------------------------

// A task is one simulated client.
type task struct {
	id   int
	op   int // current operation
	done chan struct{}
	node *simNode
	pan  any
	stk  string
}

// spawn runs f in a goroutine of the given simulated process.
func spawn(node, op int, f func(t *task)) *task {
	t := &task{id: node, op: op, done: make(chan struct{}), node: sim.nodes[node-1]}
	go func() {
		runtime.SimSetID(label(node, op))
		defer func() {
			if isDead() {
				park()
			}
			if r := recover(); r != nil {
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				t.pan, t.stk = r, string(buf)
			}
			runtime.SimSetID(0)
			close(t.done)
		}()
		if isDead() {
			park()
		}
		f(t)
	}()
	return t
}

func (t *task) enter(op int) {
	t.op = op
	runtime.SimSetID(label(t.id, op))
}

// inNode runs f to completion in the simulated process with no faults and no
// preemption: how the harness prepares and inspects a process's files.
func inNode(node int, f func()) {
	full := sim.full
	sim.full = map[string]bool{}
	defer func() { sim.full = full }()
	was := sim.live
	if was {
		quiet()
	}
	t := spawn(node, -1, func(*task) { f() })
	<-t.done
	if t.pan != nil {
		panic(fmt.Sprintf("%v\n%s", t.pan, t.stk))
	}
	if was {
		resume()
	}
}

// waitAll waits until every task has returned or its process is dead. It
// reports the tasks still running after limit of simulated time.
func waitAll(ts []*task, limit time.Duration) (stuck []*task) {
	tm := time.NewTimer(limit)
	defer tm.Stop()
	for _, t := range ts {
	again:
		if t.node.dead {
			continue
		}
		select {
		case <-t.done:
		case <-sim.deadSig:
			goto again
		case <-tm.C:
			for _, u := range ts {
				select {
				case <-u.done:
				default:
					if !u.node.dead {
						stuck = append(stuck, u)
					}
				}
			}
			return stuck
		}
	}
	return nil
}

// violate records a violation if the class belongs to the property under check.
func violate(class, msg string) {
	prop := sim.plan.Prop
	if !contains(classProps[strings.SplitN(class, ":", 2)[0]], prop) {
		probe("other-property:" + class)
		return
	}
	if len(sim.res.Violations) > 20 {
		return
	}
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	sim.res.Violations = append(sim.res.Violations, Violation{prop, class, msg})
}

func probe(name string) { sim.res.Probes[name]++ }

func goid() uint64 { return runtime.SimGoid() }

// begin switches the simulator on for the part of the run that is explored.
func begin() {
	p := sim.plan
	pol := p.Sched.Policy
	var picks []uint32
	if sim.replay = p.Sched.Policy == 3; sim.replay {
		picks = p.Sched.Picks
		sim.preempts = p.Sched.Preempts
	}
	runtime.SimStart(p.Sched.Seed, p.RandSeed, p.Sched.Procs, pol, p.Sched.ChangeN, picks)
	sim.live = true
	sim.stepBase, sim.gapSet, zzv.Left = 0, 0, 0
	setGap(nextGap())
}

// quiet switches faults, preemption and scheduling choices off.
func quiet() {
	runtime.SimStop()
	sim.live = false
	sim.stepBase = curStep()
	zzv.Left = 1 << 60
	sim.gapSet = 1 << 60
}

// resume switches them on again.
func resume() {
	runtime.SimResume()
	sim.live = true
	sim.gapSet, zzv.Left = 0, 0 // statements run by the harness do not count
	setGap(nextGap())
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
