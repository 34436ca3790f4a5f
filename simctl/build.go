package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

const goroot = "/opt/veriftools/go1.23.12"
const modcache = "/root/go/pkg/mod"

var verifDir, repoDir string

func buildDir() string {
	if d := os.Getenv("SIM_BUILD"); d != "" {
		return d
	}
	return filepath.Join(verifDir, ".build")
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOCACHE", "GODEBUG", "GOGC", "GOMAXPROCS", "CGO_ENABLED", "PATH", "GOEXPERIMENT", "CONN_TIMEOUT":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOFLAGS=-mod=mod", "CGO_ENABLED=0",
		"GOSUMDB=off", "GOCACHE="+filepath.Join(buildDir(), "gocache"), "GOMODCACHE="+modcache, "PATH="+goroot+"/bin:"+os.Getenv("PATH"))
}

// build makes the worker from the current tree of the repository.
func build() (string, error) {
	out, err := buildWith(true)
	if err != nil {
		// a tree whose use of files the in-memory file system cannot stand for
		// still builds with the real one; file faults are not injected then
		if out2, err2 := buildWith(false); err2 == nil {
			fmt.Println("note: built without the file system seam:", err)
			return out2, nil
		}
	}
	return out, err
}

func buildWith(fs bool) (string, error) {
	t0 := time.Now()
	if err := os.MkdirAll(buildDir(), 0755); err != nil {
		return "", err
	}
	files, sites, err := copyTree(repoDir, filepath.Join(buildDir(), "unlynx"), fs)
	if err != nil {
		return "", fmt.Errorf("instrumenting: %v", err)
	}
	if err := os.WriteFile(filepath.Join(buildDir(), "points"), []byte(strings.Join(sites, "\n")), 0644); err != nil {
		return "", err
	}
	ov, err := makeOverlay(filepath.Join(buildDir(), "overlay"), goroot, modcache)
	if err != nil {
		return "", fmt.Errorf("overlay: %v", err)
	}
	out := filepath.Join(buildDir(), "worker")
	cmd := exec.Command(goroot+"/bin/go", "build", "-tags", "faketime", "-ldflags=-checklinkname=0", "-overlay", ov, "-modfile", filepath.Join(buildDir(), "worker.mod"), "-o", out, ".")
	cmd.Dir = filepath.Join(verifDir, "worker")
	// go build may add lines to go.mod and go.sum: let it do so in copies
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(cmd.Dir, f))
		if err != nil {
			return "", err
		}
		if f == "go.sum" {
			if rs, err := os.ReadFile(filepath.Join(repoDir, "go.sum")); err == nil {
				b = append(b, rs...)
			}
		} else {
			b = []byte(strings.Replace(string(b), "../.build/unlynx", filepath.Join(buildDir(), "unlynx"), 1))
		}
		if err := os.WriteFile(filepath.Join(buildDir(), "worker"+filepath.Ext(f)), b, 0644); err != nil {
			return "", err
		}
	}
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, b)
	}
	fmt.Printf("built the simulation from %s: %d files, %d scheduling points, %.1fs\n", repoDir, files, len(sites), time.Since(t0).Seconds())
	return out, nil
}
