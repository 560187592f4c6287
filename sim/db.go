package main

import (
	"archive/tar"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"sort"
	"strings"

	zi "github.com/chainguard-dev/go-apk/zziface"
)

// The db scenario (C14): the package database of a root is initialised, set
// and read by a sequence of processes while its disk fails; a model says what
// every item holds.

func init() {
	scenarios["db"] = scenario{genDB, runDB}
	propScenarios["C14"] = append(propScenarios["C14"], weighted{"db", 10})
	propScenarios["C20"] = append(propScenarios["C20"], weighted{"db", 1})
	propScenarios["C07"] = append(propScenarios["C07"], weighted{"db", 1})
	classes("C14", "db-mismatch", "db-init", "db-hidden")
	classes("C07", "db-refused")
}

func genDB(r *rng, p *Plan) {
	p.P["kind"] = int64(r.intn(2)) // 0 memory behind a failing wrapper, 1 directory
	p.P["world"] = int64(r.u64() >> 1)
	p.P["npkgs"] = int64(1 + r.intn(5))
	p.P["mknod"] = int64(r.intn(2))
	p.P["pre"] = int64(r.intn(3)) // what is there before
	stages := 1 + r.intn(4)
	nodes := 1
	if p.P["kind"] == 1 {
		nodes = 1 + r.intn(3)
	}
	p.Budget = 1 + r.intn(5)
	crashOff(p)
	if r.p(0.85) {
		if p.P["kind"] == 0 {
			flakyRates(r, p, pickOf(r, 0.02, 0.08))
		} else {
			faultRates(r, p, pickOf(r, 1.0, 4, 8), true, false)
			p.Rates["sys:write"] *= 10
			p.Rates["sys:read"] *= 6
			p.Rates["sys:closew"] *= 10
			if r.p(0.12) {
				p.P["users"] = 1
				p.Rates = map[string]float64{}
				for _, op := range []string{"closew", "write", "read", "open", "create"} {
					p.Rates["sys:"+op+":root.users"] = pickOf(r, 0, 0.05, 0.2)
				}
			} else if r.p(0.15) {
				// What fails is the end of a write.
				p.Rates = map[string]float64{"sys:closew:root.etc": 0.12, "sys:closew:db": 0.12}
			}
		}
	}
	p.P["faultstages"] = 1<<uint(stages) - 1
	if r.p(0.5) && stages > 1 {
		p.P["faultstages"] >>= 1
	}
	first := r.u64()
	for st := 0; st < stages; st++ {
		node := 1 + st%nodes
		readers := st > 0 && r.p(0.3)
		if st == 0 || !readers && r.p(0.1) {
			p.Ops = append(p.Ops, Op{Stage: st, Client: 0, Node: node, Do: "init"})
			if r.p(0.4) {
				p.Ops = append(p.Ops, Op{Stage: st, Client: 0, Node: node, Do: "init"})
			}
		}
		if st == 0 && r.p(0.5) {
			p.Ops = append(p.Ops, Op{Stage: st, Client: 0, Node: node, Do: "setrepos", M: 2}, Op{Stage: st, Client: 0, Node: node, Do: "setworld", M: 2, N: int64(r.u64() >> 1)})
		}
		if readers {
			// readers at once
			for c := 0; c < 2+r.intn(3); c++ {
				for i := 0; i < 1+r.intn(3); i++ {
					p.Ops = append(p.Ops, Op{Stage: st, Client: c, Node: node, Do: pickOf(r, "getworld", "getrepos", "getinst", "users", "groups", "resolve")})
				}
			}
			continue
		}
		for i := 0; i < 2+r.intn(9); i++ {
			o := Op{Stage: st, Client: 0, Node: node}
			o.Do = pickOf(r, "setworld", "getworld", "setworld", "getworld", "setrepos", "getrepos", "addinst", "addinst", "getinst", "getinst",
				"adduser", "users", "addgroup", "groups", "resolve")
			if p.P["users"] == 1 {
				o.Do = pickOf(r, "adduser", "users", "addgroup", "groups")
			}
			o.N = int64((first + r.u64()) >> 1)
			if r.p(0.1) {
				o.M = 1 // something long
			}
			p.Ops = append(p.Ops, o)
		}
	}
}

type dbItem struct {
	known bool
	val   any
}

type dbRun struct {
	p     *Plan
	w     *world
	f     zi.FS // as the clients see it
	mem   zi.FS
	a     zi.APK
	cur   int
	base  bool // initialised once, completely
	keyed bool
	fresh bool   // what initialisation makes is complete
	world dbItem // []string
	repos dbItem // []string
	inst  dbItem // []zi.Info
	files map[string]*dbItem
}

const (
	longWorld = 70_000
	longRepo  = 70_000
)

func dbStrings(r *rng, what string, long bool) []string {
	var l []string
	n := r.intn(6)
	if r.p(0.2) {
		n = 20 + r.intn(150) // more than one read
	}
	for i := n; i >= 0; i-- {
		switch what {
		case "world":
			l = append(l, fmt.Sprintf("%s%d%s", pickOf(r, "pkg", "so:lib", "cmd:", "!pkg", "a"), r.intn(50), pickOf(r, "", "=1.2-r0", ">3", "~2", "@edge", "<=1_git20200101")))
		case "repos":
			l = append(l, pickOf(r, "https://dl.example/alpine/v3.%d", "/local/repo%d", "@edge https://dl.example/e%d", "# remark %d", "  https://with.space/%d ", "\thttp://x/%d")+"")
			l[len(l)-1] = fmt.Sprintf(l[len(l)-1], r.intn(100))
		}
	}
	if what == "repos" && r.p(0.1) {
		l = append(l, "")
	}
	if long {
		i := r.intn(len(l))
		l[i] += "/" + strings.Repeat(pickOf(r, "x", "yz"), 30_000+r.intn(45_000))
	}
	return l
}

// dbRecord makes one record of the installed database.
func dbRecord(r *rng, i int, long bool) zi.Info {
	p := zi.Info{Name: fmt.Sprintf("p%d-%d", i, r.intn(1000)), Version: fmt.Sprintf("%d.%d-r%d", r.intn(9), r.intn(30), r.intn(4)), Arch: pickOf(r, "x86_64", "noarch"),
		Description: pickOf(r, "", "something: with colons", "P:fake"), Origin: pickOf(r, "", "orig"), Checksum: randBytes(r, 20),
		Size: r.u64() >> 20, InstalledSize: r.u64() >> 30, BuildDate: int64(r.intn(2_000_000_000)), URL: "http://u"}
	for k := r.intn(4); k > 0; k-- {
		p.Deps = append(p.Deps, fmt.Sprintf("dep%d>=%d", r.intn(40), r.intn(5)))
		p.Provides = append(p.Provides, fmt.Sprintf("so:lib%d.so.%d=%d", r.intn(40), r.intn(4), r.intn(4)))
	}
	if r.p(0.3) {
		p.Replaces = []string{"old", "older<3"}
	}
	if long {
		for k := 0; k < 3000; k++ {
			p.Provides = append(p.Provides, fmt.Sprintf("cmd:a-rather-long-name-of-a-command-%d=1.2.3-r%d", k, r.intn(10)))
		}
		if r.p(0.2) {
			p.Description = strings.Repeat("long ", 300_000)
		}
	}
	dirs := []string{"usr", "usr/bin", "usr/share", "usr/share/doc", "etc", "etc/a b", "opt"}
	used := map[string]bool{}
	dir := func(d string) {
		for _, x := range dirs {
			if (x == d || strings.HasPrefix(d, x+"/")) && !used[x] {
				used[x] = true
				h := tar.Header{Name: x, Typeflag: tar.TypeDir, Mode: 0o755}
				if r.p(0.3) {
					h.Mode, h.Uid, h.Gid = pickOf(r, 0o755, int64(r.intn(0o1000))), pickOf(r, 0, r.intn(100)), pickOf(r, 0, r.intn(100000))
				}
				p.Files = append(p.Files, h)
			}
		}
	}
	for k := r.intn(7); k > 0; k-- {
		d := pickOf(r, dirs...)
		dir(d)
		h := tar.Header{Name: fmt.Sprintf("%s/f%d", d, r.intn(1000)), Typeflag: tar.TypeReg, Mode: 0o644}
		if used[h.Name] {
			continue
		}
		used[h.Name] = true
		if r.p(0.4) {
			h.Mode, h.Uid, h.Gid = pickOf(r, 0o644, int64(r.intn(0o1000))), pickOf(r, 0, r.intn(100)), pickOf(r, 0, r.intn(100000))
		}
		if r.p(0.7) {
			h.PAXRecords = map[string]string{"APK-TOOLS.checksum.SHA1": hex.EncodeToString(randBytes(r, 20))}
			if r.p(0.3) {
				h.PAXRecords["APK-TOOLS.checksum.SHA1"] = "Q1" + base64.StdEncoding.EncodeToString(randBytes(r, 20))
			}
		}
		p.Files = append(p.Files, h)
	}
	if r.p(0.5) {
		for i := len(p.Files) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			p.Files[i], p.Files[j] = p.Files[j], p.Files[i]
		}
	}
	return p
}

func infoText(p zi.Info) string {
	fields := func(l []string) string { return strings.Join(strings.Fields(strings.Join(l, " ")), " ") }
	var fl []string
	for _, h := range p.Files {
		t := "f"
		if h.Typeflag == tar.TypeDir {
			t = "d"
		}
		fl = append(fl, fmt.Sprintf("%s %s %o %d:%d", h.Name, t, h.Mode, h.Uid, h.Gid))
	}
	sort.Strings(fl)
	return fmt.Sprintf("%s|%s|%s|%x|%s|%s|%s|%d|%d|%d|%q|%q|%s", p.Name, p.Version, p.Arch, p.Checksum, fields(p.Deps), fields(p.Provides), fields(p.Replaces),
		p.Size, p.InstalledSize, p.BuildDate, p.Description, p.Origin, strings.Join(fl, ","))
}

// shortened keeps messages readable.
func shortened(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s…(%d bytes)", s[:300], len(s))
	}
	return s
}

func diffLists(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%d entries and not %d, without %s", len(got), len(want), shortened(want[i]))
		case i >= len(want):
			return fmt.Sprintf("%d entries and not %d, with %s", len(got), len(want), shortened(got[i]))
		case got[i] != want[i]:
			return fmt.Sprintf("entry %d is %s and not %s", i, shortened(got[i]), shortened(want[i]))
		}
	}
	return ""
}

var dbUsers = map[string]string{"users": "etc/passwd", "groups": "etc/group"}

func runDB(p *Plan) {
	sim.k.umask = 0
	d := &dbRun{p: p, w: worldFor(p), files: map[string]*dbItem{"users": {known: true}, "groups": {known: true}}}
	mkdirs("/tmp", "/repo/x86_64")
	keyName := "builder.rsa.pub"
	putFile("/repo/x86_64/APKINDEX.tar.gz", buildIndex("local", d.w.pkgs, 0, keyName))
	base := baseFiles()
	if p.P["kind"] == 1 {
		mkdirs("/root")
		if p.P["pre"] == 1 {
			for _, x := range []string{"etc", "lib", "var"} {
				mkdirs("/root/" + x)
			}
		}
	}
	open := func(node int) {
		inNode(node, func() {
			pr := adapters[node-1]
			if p.P["kind"] == 1 {
				d.f = pr.DirFS("/root", true, true)
				if d.f == nil {
					fatal("DirFS returned nil")
				}
				d.mem = d.f
			} else {
				if d.mem == nil {
					d.mem = pr.NewMemFS()
					if p.P["pre"] == 1 {
						d.mem.MkdirAll("etc/apk", 0o755)
					}
				}
				d.f = &flakyFS{d.mem}
			}
			a, err := pr.New(zi.Opts{FS: d.f, Arch: "x86_64", IgnoreMknod: p.P["mknod"] == 1, Client: simNet.client(node)})
			if err != nil {
				fatal("New: " + err.Error())
			}
			d.a = a
		})
		d.cur = node
	}
	begin()
	runStages(p, func(t *task, r *opRun) {
		if d.cur != t.id {
			open(t.id)
		}
		if len(sim.res.Violations) > 0 {
			return
		}
		d.do(t, r)
	}, func(st int, rs []*opRun) {
		if d.cur == 0 || len(sim.res.Violations) > 0 {
			return
		}
		// The keys arrive, and files nobody knows the state of are written anew.
		inNode(d.cur, func() {
			if d.base {
				if err := d.mem.WriteFile("etc/apk/keys/"+keyName, []byte(testKeys[0].pub), 0o644); err != nil {
					fatal("writing the key: " + err.Error())
				}
				d.keyed = true
				if d.fresh {
					d.checkBase(st, base)
				}
			}
			for _, k := range sortedKeys(d.files) {
				if x := d.files[k]; !x.known && d.base {
					l := []string{"root:x:0:0:root:/root:/bin/sh"}
					if k == "groups" {
						l = []string{"root:x:0:root"}
					}
					if err := d.mem.WriteFile(dbUsers[k], []byte(l[0]+"\n"), 0o644); err != nil {
						fatal("writing users: " + err.Error())
					}
					*x = dbItem{true, l}
				}
			}
			if p.P["kind"] == 1 {
				d.cur = 0 // opened again by the next
			}
		})
	})
}

// checkBase compares the root with what an initialisation makes.
func (d *dbRun) checkBase(st int, base map[string]string) {
	s := snapFS(d.mem)
	sim.res.Evals++
	if s.problem != "" && d.inst.known {
		violate("db-init", fmt.Sprintf("after stage %d, %s", st, s.problem))
		return
	}
	for _, q := range sortedKeys(base) {
		want, got := base[q], s.files[q]
		switch q {
		case "etc/apk/world", "etc/apk/repositories", "lib/apk/db/installed":
			want, got = strings.SplitN(want, " ", 3)[0], strings.SplitN(got+"  ", " ", 3)[0]
		}
		if want == "device" {
			if d.p.P["kind"] == 1 && strings.HasPrefix(got, "file ") || d.p.P["mknod"] == 1 && got == "" {
				continue
			}
		}
		if got != want {
			violate("db-init", fmt.Sprintf("after stage %d, %s is %q and not %q although the root was initialised", st, q, got, want))
			return
		}
	}
}

func (d *dbRun) do(t *task, r *opRun) {
	o := r.op
	rr := newRng(uint64(o.N), "db"+o.Do)
	before := sim.opFaults[r.i]
	own := func() bool { return sim.opFaults[r.i] > before }
	what := fmt.Sprintf("operation %d (%s)", r.i, o.Do)
	ctx := baseCtx()
	defer func() {
		noteState(fmt.Sprint(o.Do, r.err == nil, own(), d.base, d.fresh, d.world.known, d.repos.known, d.inst.known))
	}()
	set := func(item *dbItem, val any, err error) {
		switch {
		case err == nil:
			*item = dbItem{true, val}
		default:
			*item = dbItem{}
		}
	}
	// refused judges an error.
	refused := func(err error) {
		if err != nil && !own() && d.base {
			violate("db-refused", fmt.Sprintf("%s failed with nothing wrong: %s", what, shortened(err.Error())))
		}
	}
	get := func(item dbItem, got []string, err error, excuse bool) {
		sim.res.Evals++
		if err != nil {
			if !excuse && item.known {
				refused(err)
			}
			return
		}
		if !item.known || !d.base {
			return
		}
		want, _ := item.val.([]string)
		if x := diffLists(got, want); x != "" {
			violate("db-mismatch", fmt.Sprintf("%s returned success and %s (faults in this operation: %v)", what, x, own()))
		}
	}
	long := func(l []string, n int) bool {
		for _, s := range l {
			if len(s) >= n {
				return true
			}
		}
		return false
	}
	switch o.Do {
	case "init":
		r.err = d.a.InitDB(ctx)
		if r.err == nil {
			d.base, d.fresh = true, true
			d.world, d.repos, d.inst = dbItem{true, []string{}}, dbItem{true, []string{""}}, dbItem{true, []string{}}
		} else {
			d.fresh = false
			d.world, d.repos, d.inst = dbItem{}, dbItem{}, dbItem{}
			if !own() {
				violate("db-refused", fmt.Sprintf("%s failed with nothing wrong: %v", what, r.err))
			}
		}
	case "setworld":
		l := dbStrings(rr, "world", o.M == 1)
		if rr.p(0.1) {
			l = nil
		}
		if rr.p(0.5) || o.M == 2 {
			l = nil
			for _, q := range d.w.pkgs {
				if rr.p(0.6) {
					l = append(l, q.name)
				}
			}
		}
		arg := append([]string{}, l...)
		r.err = d.a.SetWorld(ctx, arg)
		if diffLists(arg, l) != "" {
			violate("db-mismatch", what+" changed the list it was given")
		}
		sort.Strings(l)
		set(&d.world, l, r.err)
		refused(r.err)
	case "getworld":
		var l []string
		l, r.err = d.a.GetWorld()
		get(d.world, l, r.err, false)
	case "setrepos":
		l := dbStrings(rr, "repos", o.M == 1)
		if rr.p(0.5) || o.M == 2 {
			l = []string{"/repo"}
		}
		if o.M == 0 && rr.p(0.05) {
			if r.err = d.a.SetRepositories(ctx, nil); r.err == nil {
				violate("db-hidden", what+" accepted an empty list")
			}
			return
		}
		r.err = d.a.SetRepositories(ctx, l)
		set(&d.repos, l, r.err)
		refused(r.err)
	case "getrepos":
		var l []string
		l, r.err = d.a.GetRepositories()
		v, _ := d.repos.val.([]string)
		get(d.repos, l, r.err, long(v, 60_000))
	case "addinst":
		x := dbRecord(rr, r.i, o.M == 1)
		r.err = d.a.AddInstalled(x)
		if r.err == nil && d.inst.known {
			l, _ := d.inst.val.([]string)
			d.inst.val = append(append([]string{}, l...), infoText(x))
		} else {
			d.inst = dbItem{}
		}
		refused(r.err)
	case "getinst":
		var l []zi.Info
		l, r.err = d.a.GetInstalled()
		var got []string
		for _, x := range l {
			got = append(got, infoText(x))
		}
		v, _ := d.inst.val.([]string)
		get(d.inst, got, r.err, long(v, 1_000_000))
	case "adduser", "addgroup":
		k := map[string]string{"adduser": "users", "addgroup": "groups"}[o.Do]
		item := d.files[k]
		name := fmt.Sprintf("%s%d", pickOf(rr, "u", "nobody", "svc-"), rr.intn(1000))
		line := fmt.Sprintf("%s:x:%d:%d:some info:/home/%s:/bin/false", name, rr.intn(65000), rr.intn(65000), name)
		if k == "groups" {
			line = fmt.Sprintf("%s:x:%d:%s", name, rr.intn(65000), pickOf(rr, "", "a", "a,b,c"))
		}
		if o.M == 1 {
			if line = strings.Replace(line, "some info", strings.Repeat("i", 20_000+rr.intn(30_000)), 1); k == "groups" {
				line += strings.Repeat(",member", 3000)
			}
		}
		if k == "users" {
			r.err = adapters[t.id-1].AddUser(d.f, dbUsers[k], line)
		} else {
			r.err = adapters[t.id-1].AddGroup(d.f, dbUsers[k], line)
		}
		was := item.known
		if r.err == nil && item.known {
			l, _ := item.val.([]string)
			item.val = append(append([]string{}, l...), line)
		} else {
			*item = dbItem{}
		}
		if was {
			refused(r.err)
		}
	case "users", "groups":
		item := d.files[o.Do]
		var s string
		if o.Do == "users" {
			s, r.err = adapters[t.id-1].UserFile(d.f, dbUsers[o.Do], false)
		} else {
			s, r.err = adapters[t.id-1].GroupFile(d.f, dbUsers[o.Do], false)
		}
		var got []string
		if s != "" {
			got = strings.Split(strings.TrimSuffix(s, "\n"), "\n")
		}
		get(*item, got, r.err, item.val == nil && errors.Is(r.err, fs.ErrNotExist))
	case "resolve":
		var ps []*zi.Pkg
		var c []string
		ps, c, r.err = d.a.ResolveWorld(ctx)
		if !d.resolvable() || r.err != nil && own() {
			return
		}
		sim.res.Evals++
		probe("resolved")
		var got []string
		for _, x := range ps {
			got = append(got, x.Name+"-"+x.Version)
		}
		want, wc, err := d.golden()
		if (err != nil) != (r.err != nil) {
			violate("db-mismatch", fmt.Sprintf("%s: error %v and not %v", what, r.err, err))
			return
		}
		if r.err != nil {
			return
		}
		if x := diffLists(got, want); x != "" {
			violate("db-mismatch", fmt.Sprintf("%s: %s", what, x))
		}
		if x := diffLists(c, wc); x != "" {
			violate("db-mismatch", fmt.Sprintf("%s: conflicts: %s", what, x))
		}
	}
}

// resolvable says whether the world and the repository are the simulation's.
func (d *dbRun) resolvable() bool {
	if !d.fresh || !d.world.known || !d.repos.known {
		return false
	}
	l, _ := d.repos.val.([]string)
	if len(l) != 1 || l[0] != "/repo" {
		return false
	}
	return d.keyed
}

// golden resolves the same world without a root.
func (d *dbRun) golden() (names, conflicts []string, err error) {
	inNode(goldenNode, func() {
		pr := adapters[goldenNode-1]
		f := pr.NewMemFS()
		var a zi.APK
		if a, err = pr.New(zi.Opts{FS: f, Arch: "x86_64", IgnoreMknod: true, Client: simNet.client(goldenNode)}); err != nil {
			return
		}
		if err = a.InitDB(baseCtx()); err != nil {
			return
		}
		f.WriteFile("etc/apk/keys/builder.rsa.pub", []byte(testKeys[0].pub), 0o644)
		w, _ := d.world.val.([]string)
		rs, _ := d.repos.val.([]string)
		a.SetWorld(baseCtx(), w)
		if err = a.SetRepositories(baseCtx(), rs); err != nil {
			return
		}
		var ps []*zi.Pkg
		ps, conflicts, err = a.ResolveWorld(baseCtx())
		for _, x := range ps {
			names = append(names, x.Name+"-"+x.Version)
		}
	})
	return
}
