package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/chainguard-dev/go-apk"

// A replacement in a Go standard library file. Every one must match exactly
// once, otherwise the build stops with an error: a simulator that silently
// lost a seam would not be deterministic.
type repl struct{ file, old, new string }

var stdPatches = []repl{
	// No sysmon thread: nothing preempts, retakes or polls behind our back.
	{"runtime/proc.go", `const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
	{"runtime/proc.go", "	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	simNewG(newg, callergp)\n"},
	{"runtime/proc.go", "	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n",
		"	if pp.runnext == 0 {\n		return simRunqget(pp), false\n	}\n	next := pp.runnext\n"},
	{"runtime/runtime2.go", "	parentGoid    uint64 ", "	simid int32\n	simprio uint32\n	parentGoid    uint64 "},
	{"runtime/debug.go", "	if n <= 0 || n == ret {\n		return ret\n", "	if n <= 0 || simOn {\n		return int(simProcs)\n	}\n	if n == ret {\n		return ret\n"},
	{"runtime/time_nofake.go", "var faketime int64\n", "var faketime int64 = 1700000000000000000\n"},
	{"runtime/time_nofake.go", "	return nanotime1()\n", "	return faketime\n"},
	{"runtime/rand.go", "	if startupRand != nil {\n", "	if true {\n		startupRand = nil\n	} else if startupRand != nil {\n"},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n	for {\n", "	if simRandSt != 0 {\n		return simSplit(simRandSrc())\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {\n"},
	{"runtime/rand.go", "func cheaprand() uint32 {\n	mp := getg().m\n", "func cheaprand() uint32 {\n	if simRandSt != 0 {\n		return uint32(simSplit(simRandSrc()) >> 32)\n	}\n	mp := getg().m\n"},
	// Every file system call of a simulated process goes to the simulated kernel.
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n	if SimHook != nil {\n		if r, e, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {\n			return r, 0, e\n		}\n	}\n"},
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"// SimHook, when set, may serve a system call itself.\nvar SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r uintptr, err Errno, ok bool)\n\n//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if SimHook != nil {\n		if r, e, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {\n			return r, 0, e\n		}\n	}\n"},
	{"os/file_unix.go", "	pollable := kind == kindOpenFile || kind == kindPipe || kind == kindSock || nonBlocking\n",
		"	pollable := (kind == kindOpenFile || kind == kindPipe || kind == kindSock || nonBlocking) && fd < 1<<20\n"},
}

type overlayer struct {
	repo, gen string
	repl      map[string]string
	goroot    string
}

func (o *overlayer) put(target, content string) error {
	p := filepath.Join(o.gen, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		return err
	}
	o.repl[target] = p
	return nil
}

func writeOverlay(repo, verif, gen, goroot string, copies int) (string, error) {
	if err := os.RemoveAll(gen); err != nil {
		return "", err
	}
	if err := os.MkdirAll(gen, 0o755); err != nil {
		return "", err
	}
	o := &overlayer{repo: repo, gen: gen, repl: map[string]string{}, goroot: goroot}

	// 1. The toolchain's runtime, syscall and os packages.
	files := map[string]string{}
	var order []string
	for _, p := range stdPatches {
		f := filepath.Join(goroot, "src", p.file)
		if _, ok := files[f]; !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return "", err
			}
			files[f] = string(b)
			order = append(order, f)
		}
		if n := strings.Count(files[f], p.old); n != 1 {
			return "", fmt.Errorf("toolchain patch: %d matches in %s for %q", n, p.file, p.old)
		}
		files[f] = strings.Replace(files[f], p.old, p.new, 1)
	}
	for _, f := range order {
		if err := o.put(f, files[f]); err != nil {
			return "", err
		}
	}
	for _, a := range []struct{ dst, src string }{
		{"runtime/zz_sim.go", "zz_sim.go.txt"},
		{"runtime/timeasm.go", "time_now.go.txt"},
		{"runtime/time_linux_amd64.s", ""},
	} {
		c := ""
		if a.src != "" {
			b, err := os.ReadFile(filepath.Join(verif, "sim/rt", a.src))
			if err != nil {
				return "", err
			}
			c = string(b)
		}
		if err := o.put(filepath.Join(goroot, "src", a.dst), c); err != nil {
			return "", err
		}
	}

	// 2. One instrumented copy of every package of the module per simulated
	// process, so that each has its own package-level state.
	var srcs []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			srcs = append(srcs, p)
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	sort.Strings(srcs)
	for _, s := range srcs {
		b, err := os.ReadFile(s)
		if err != nil {
			return "", err
		}
		rel, _ := filepath.Rel(repo, s)
		for c := 1; c <= copies; c++ {
			out, err := instrument(string(b), s, fmt.Sprintf("%s/zz%d", modPath, c))
			if err != nil {
				return "", err
			}
			if err := o.put(filepath.Join(repo, fmt.Sprintf("zz%d", c), rel), out); err != nil {
				return "", err
			}
		}
	}

	if os.Getenv("VERIF_COVER") != "" {
		l := make([]string, len(coverIDs))
		for at, i := range coverIDs {
			l[i] = at
		}
		if err := os.WriteFile(filepath.Join(gen, "cover.txt"), []byte(strings.Join(l, "\n")), 0o644); err != nil {
			return "", err
		}
	}

	// 3. Harness.
	ad, err := os.ReadFile(filepath.Join(verif, "sim/adapter/adapter.go.txt"))
	if err != nil {
		return "", err
	}
	var imports, regs strings.Builder
	for c := 1; c <= copies; c++ {
		t := strings.ReplaceAll(string(ad), "@COPY@", fmt.Sprintf("%s/zz%d", modPath, c))
		if err := o.put(filepath.Join(repo, fmt.Sprintf("zz%d/zzadapter/adapter.go", c)), t); err != nil {
			return "", err
		}
		fmt.Fprintf(&imports, "import a%d \"%s/zz%d/zzadapter\"\n", c, modPath, c)
		fmt.Fprintf(&regs, "	adapters = append(adapters, a%d.New())\n", c)
	}
	reg := "package main\n\n" + imports.String() + "\nfunc init() {\n" + regs.String() + "}\n"
	if err := o.put(filepath.Join(repo, "zzsim/zz_register.go"), reg); err != nil {
		return "", err
	}
	for _, d := range []struct{ from, to string }{{"sim", "zzsim"}, {"sim/zzv", "zzv"}, {"sim/iface", "zziface"}} {
		fs, err := filepath.Glob(filepath.Join(verif, d.from, "*.go"))
		if err != nil {
			return "", err
		}
		sort.Strings(fs)
		for _, f := range fs {
			o.repl[filepath.Join(repo, d.to, filepath.Base(f))] = f
		}
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": o.repl}, "", " ")
	if err != nil {
		return "", err
	}
	out := filepath.Join(gen, "overlay.json")
	return out, os.WriteFile(out, j, 0o644)
}

// coverIDs numbers the statements (development: VERIF_COVER=1).
var coverIDs = map[string]int{}

// instrument rewrites the module's import paths to the copy's and puts a
// scheduling point in front of every statement. Line numbers are preserved.
func instrument(src, name, copyPath string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	type ins struct {
		off, del int
		s        string
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == modPath || strings.HasPrefix(p, modPath+"/") {
			edits = append(edits, ins{off(im.Path.Pos()), len(im.Path.Value), strconv.Quote(copyPath + strings.TrimPrefix(p, modPath))})
		}
	}
	edits = append(edits, ins{off(f.Name.End()), 0, "; import zzv \"" + modPath + "/zzv\""})
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			y := "zzv.Y(); "
			if os.Getenv("VERIF_COVER") != "" {
				at := fmt.Sprintf("%s:%d-%d", name, fset.Position(s.Pos()).Line, fset.Position(s.End()).Line)
				if _, ok := coverIDs[at]; !ok {
					coverIDs[at] = len(coverIDs)
				}
				y += fmt.Sprintf("zzv.Hit[%d] = 1; ", coverIDs[at])
			}
			edits = append(edits, ins{off(s.Pos()), 0, y})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.WriteString(src[last:e.off])
		b.WriteString(e.s)
		last = e.off + e.del
	}
	b.WriteString(src[last:])
	b.WriteString("\nvar _ = zzv.Y\n")
	return b.String(), nil
}
