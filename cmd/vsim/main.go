// Command vsim builds the simulated system from /repo's working tree, explores
// it, minimises what fails, and writes the evidence.
//
//	vsim build                     build the simulated binary
//	vsim check PROP                the registered check of a property
//	vsim replay FILE               replay a failure; exit 1 if it reproduces
//	vsim determinism PROP RUNS     run seeds twice in different processes and diff
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var (
	verif  = envOr("VERIF_DIR", "/verif")
	repo   = envOr("VERIF_REPO", "/repo")
	goroot = "/opt/veriftools/go1.24.13"
	build  string
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", args...)
	os.Exit(2)
}

type checkConf struct {
	Title            string   `json:"title"`
	Level            string   `json:"level"`
	QuickRuns        uint64   `json:"quick_runs"`
	ThoroughRuns     uint64   `json:"thorough_runs"`
	QuickSecs        int      `json:"quick_secs"`
	ThoroughSecs     int      `json:"thorough_secs"`
	Real             []string `json:"real"`
	Stub             []string `json:"stub"`
	Rule             string   `json:"rule"`
	Probes           []string `json:"required_probes"`
	Assumptions      []string `json:"assumptions"`
	RaceRuns         uint64   `json:"race_runs"`
	RaceThoroughRuns uint64   `json:"race_thorough_runs"`
}

func loadConf() map[string]checkConf {
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		die("%v", err)
	}
	m := map[string]checkConf{}
	if err := json.Unmarshal(b, &m); err != nil {
		die("checks.json: %v", err)
	}
	return m
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if strings.HasPrefix(k, "GO") || k == "CGO_ENABLED" {
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"GOROOT="+goroot, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOSUMDB=off", "GODEBUG=goindex=0",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE="+filepath.Join(verif, ".cache", "go-build"),
		"GOWORK="+filepath.Join(build, "go.work"),
	)
}

func buildSim(race bool) string {
	bin := filepath.Join(build, "verifsim")
	if race {
		bin += "-race"
	}
	work := fmt.Sprintf("go 1.24\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n", filepath.Join(verif, "sim"), repo, filepath.Join(repo, "x", "ftdc"))
	if err := writeIfChanged(filepath.Join(build, "go.work"), []byte(work)); err != nil {
		die("%v", err)
	}
	var last []byte
	for _, split := range []bool{true, false} {
		over, sites, err := instrument(repo, build, split)
		if err != nil {
			die("instrument: %v", err)
		}
		if err := writeOverlay(goroot, verif, build, over); err != nil {
			die("overlay: %v", err)
		}
		writeIfChanged(filepath.Join(build, "sites.txt"), []byte(strings.Join(sites, "\n")))
		args := []string{"build", "-overlay", filepath.Join(build, "overlay.json"), "-tags", "faketime", "-trimpath", "-o", bin}
		if race {
			// what the harness does is not for the race detector to judge
			args = append(args, "-race", "-gcflags=verifsim=-race=false")
		}
		cmd := exec.Command(filepath.Join(goroot, "bin", "go"), append(args, ".")...)
		cmd.Dir = filepath.Join(verif, "sim")
		cmd.Env = goEnv()
		if !race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
		} else {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		o, err := cmd.CombinedOutput()
		if err == nil {
			return bin
		}
		last = o
	}
	die("the simulated system does not build:\n%s", last)
	return ""
}

func main() {
	build = envOr("VERIF_BUILD", filepath.Join(verif, ".build"))
	os.MkdirAll(build, 0o755)
	if len(os.Args) < 2 {
		die("usage: vsim build|check|replay|determinism")
	}
	switch os.Args[1] {
	case "build":
		t := time.Now()
		b := buildSim(false)
		fmt.Println("built", b, time.Since(t).Round(time.Millisecond))
	case "check":
		check(os.Args[2])
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "determinism":
		n, _ := strconv.ParseUint(os.Args[3], 10, 64)
		os.Exit(determinism(os.Args[2], n))
	default:
		die("unknown command %s", os.Args[1])
	}
}
