package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// These mirror the worker's types.

type Fault struct {
	Kind  string `json:"kind"`
	Node  int    `json:"node"`
	In    int    `json:"in"`
	Op    string `json:"op"`
	Class string `json:"class"`
	Nth   int    `json:"nth"`
	Act   string `json:"act"`
	Arg   int64  `json:"arg,omitempty"`
}

type Sched struct {
	Seed     uint64   `json:"seed"`
	Policy   int      `json:"policy"`
	ChangeN  int      `json:"change_n,omitempty"`
	Gap      int      `json:"gap,omitempty"`
	PSys     float64  `json:"psys,omitempty"`
	Procs    int      `json:"procs"`
	Picks    []uint32 `json:"picks,omitempty"`
	Preempts []int64  `json:"preempts,omitempty"`
}

type Op struct {
	Stage  int      `json:"stage"`
	Client int      `json:"client"`
	Node   int      `json:"node"`
	Do     string   `json:"do"`
	A      string   `json:"a,omitempty"`
	B      string   `json:"b,omitempty"`
	N      int64    `json:"n,omitempty"`
	M      int64    `json:"m,omitempty"`
	L      []string `json:"l,omitempty"`
}

type Plan struct {
	Prop     string             `json:"prop"`
	Scenario string             `json:"scenario"`
	Seed     uint64             `json:"seed"`
	RandSeed uint64             `json:"rand_seed"`
	Sched    Sched              `json:"sched"`
	P        map[string]int64   `json:"p"`
	Ops      []Op               `json:"ops"`
	Faults   []Fault            `json:"faults"`
	Explicit bool               `json:"explicit"`
	Rates    map[string]float64 `json:"rates,omitempty"`
	Budget   int                `json:"budget,omitempty"`
}

type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Fired      map[string]int `json:"fired,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	SimNs      int64          `json:"sim_ns"`
	Steps      int64          `json:"steps"`
	Syscalls   int64          `json:"syscalls"`
	Decisions  int            `json:"decisions"`
	SchedHash  string         `json:"sched_hash"`
	EventHash  string         `json:"event_hash"`
	StateHash  string         `json:"state_hash"`
	Evals      int            `json:"evals"`
	Plan       *Plan          `json:"plan,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	raw        string
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

const workerTimeout = 120 * time.Second

// exec runs one simulation in a process of its own.
func runWorker(bin string, stdin []byte, args ...string) (*Result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), workerTimeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = []string{"GOGC=off", "GOMAXPROCS=1", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=all"}
	if c := os.Getenv("VERIF_COVER_OUT"); c != "" {
		cmd.Env = append(cmd.Env, "VERIF_COVER_OUT="+c)
	}
	cmd.Dir = "/"
	cmd.Stdin = bytes.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("worker %v did not finish within %v of real time", args, workerTimeout)
	}
	if err != nil {
		e := errb.String()
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			if msg, ok := crashed(e); ok {
				return crashResult(bin, stdin, msg, args)
			}
		}
		if len(e) > 6000 {
			e = e[:6000]
		}
		return nil, fmt.Errorf("worker %v: %v\n%s", args, err, e)
	}
	r := &Result{}
	if err := json.Unmarshal(out.Bytes(), r); err != nil {
		return nil, fmt.Errorf("worker %v: bad output: %v: %.300s", args, err, out.String())
	}
	r.raw = out.String()
	return r, nil
}

// crashed says whether the program was ended by a panic or a fatal error of
// the Go runtime (such as unsynchronised map accesses) in the module's code.
func crashed(stderr string) (string, bool) {
	if strings.Contains(stderr, "SIMERROR") {
		return "", false
	}
	lines := strings.Split(stderr, "\n")
	for i, l := range lines {
		if !strings.HasPrefix(l, "panic: ") && !strings.HasPrefix(l, "fatal error: ") {
			continue
		}
		// The first frame of the failing goroutine that is ours or the module's.
		for j := i; j < len(lines) && j < i+200; j++ {
			f := lines[j]
			switch {
			case strings.HasPrefix(f, "main."):
				return "", false
			case moduleFrame.MatchString(f):
				end := min(j+12, len(lines))
				return l + "\n" + strings.Join(lines[j:end], "\n"), true
			}
		}
		return "", false
	}
	return "", false
}

var moduleFrame = regexp.MustCompile(`^github\.com/chainguard-dev/go-apk/zz[0-9]+/`)

// crashResult is the result of a run in which the module brought the whole
// program down: the plan as it was generated, and the crash as its violation.
func crashResult(bin string, stdin []byte, msg string, args []string) (*Result, error) {
	if len(args) > 0 && args[0] == "run" {
		out, err := runRaw(bin, append([]string{"genplan"}, args[1:4]...)...)
		if err != nil {
			return nil, fmt.Errorf("genplan %v: %v", args, err)
		}
		stdin = []byte(out)
	}
	p := &Plan{}
	if err := json.Unmarshal(stdin, p); err != nil {
		return nil, fmt.Errorf("plan of a crashed run: %v", err)
	}
	first, _, _ := strings.Cut(msg, "\n")
	h := fnv.New64a()
	h.Write([]byte(first))
	r := &Result{Violations: []Violation{{Prop: p.Prop, Class: "crash", Msg: "the program was ended by " + msg}}, Plan: p,
		Fired: map[string]int{}, Probes: map[string]int{}, Evals: 1, EventHash: fmt.Sprintf("%016x", h.Sum64())}
	r.raw = first
	return r, nil
}

func runIdx(bin, prop string, seed uint64, idx int, extra ...string) (*Result, error) {
	return runWorker(bin, nil, append([]string{"run", prop, strconv.FormatUint(seed, 10), strconv.Itoa(idx)}, extra...)...)
}

func runPlan(bin string, p *Plan, extra ...string) (*Result, error) {
	b, err := json.Marshal(p)
	if err != nil {
		return nil, err
	}
	return runWorker(bin, b, append([]string{"plan"}, extra...)...)
}

type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	BaseSeed  uint64    `json:"base_seed"`
	Index     int       `json:"index"`
	Minimised bool      `json:"minimised"`
	EventHash string    `json:"event_hash"`
	Plan      *Plan     `json:"plan"`
	Trace     []string  `json:"trace,omitempty"`
}

func replayCmd(bin, file string, trace bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die(2, "%v", err)
	}
	var extra []string
	if trace {
		extra = append(extra, "trace")
	}
	r, err := runPlan(bin, rp.Plan, extra...)
	if err != nil {
		die(2, "%v", err)
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Printf("event hash %s (recorded %s)\n", r.EventHash, rp.EventHash)
	for _, v := range r.Violations {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
	if len(r.Violations) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func runRaw(bin string, args ...string) (string, error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = []string{"GOGC=off", "GOMAXPROCS=1"}
	b, err := cmd.Output()
	return string(b), err
}
