package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// goTool finds the Go 1.23 toolchain the module is built with.
func goTool() (bin, root string, err error) {
	for _, c := range []string{"/opt/veriftools/go1.23.12", os.Getenv("GOROOT"), "/usr/local/go"} {
		if c == "" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(c, "VERSION"))
		if err == nil && strings.HasPrefix(string(b), "go1.23") {
			return filepath.Join(c, "bin/go"), c, nil
		}
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", "", fmt.Errorf("no Go toolchain: %w", err)
	}
	root = strings.TrimSpace(string(out))
	return filepath.Join(root, "bin/go"), root, nil
}

const copies = 6

func build() (string, error) {
	gobin, root, err := goTool()
	if err != nil {
		return "", err
	}
	if err := os.MkdirAll(buildDir(), 0o755); err != nil {
		return "", err
	}
	ov, err := writeOverlay(repoDir, verifDir, filepath.Join(buildDir(), "gen"), root, copies)
	if err != nil {
		return "", err
	}
	out := filepath.Join(buildDir(), "worker")
	cmd := exec.Command(gobin, "build", "-buildvcs=false", "-trimpath", "-overlay", ov, "-o", out, "./zzsim")
	cmd.Dir = repoDir
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOCACHE=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "GOEXPERIMENT=") {
			continue
		}
		env = append(env, e)
	}
	cmd.Env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off",
		"GOCACHE="+filepath.Join(buildDir(), "gocache"), "GOROOT="+root)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %w\n%s", err, b)
	}
	return out, nil
}
