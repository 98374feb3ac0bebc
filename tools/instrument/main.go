// Command instrument prepares a build overlay for the checks.
//
// It copies nothing into /repo: it writes rewritten copies of package sources,
// generated shims of the packages time and sync, and hooked copies of the os
// package's sources to a work directory, and an overlay file for go build that
// maps the original paths to them. Harness sources enter the build the same way,
// as virtual packages below <repo>/internal/zzverif.
//
//	instrument -repo /repo -harness /verif/harness -work DIR
//	   [-full pkg,pkg|all]  rewrite channel, select, go, time, sync; add scheduling points; map order
//	   [-maps pkg,pkg]  rewrite map iteration order only
//	   [-os]            hook the os package
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const vroot = "recengine/internal/zzverif"

var overlay = map[string]string{}
var workDir string

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func put(target, name string, data []byte) {
	p := filepath.Join(workDir, name)
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, data, 0644); err != nil {
		fatal("%v", err)
	}
	overlay[target] = p
}

func main() {
	repo := flag.String("repo", "/repo", "")
	harness := flag.String("harness", "/verif/harness", "")
	work := flag.String("work", "", "")
	full := flag.String("full", "", "")
	maps := flag.String("maps", "", "")
	osHook := flag.Bool("os", false, "")
	serverHook := flag.Bool("server", false, "")
	flag.Parse()
	workDir = *work

	// Harness packages.
	filepath.Walk(*harness, func(p string, st os.FileInfo, err error) error {
		if err == nil && !st.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*harness, p)
			overlay[filepath.Join(*repo, "internal/zzverif", rel)] = p
		}
		return nil
	})
	ex := newExports(*repo)
	if *full == "all" {
		*full = strings.Join(ex.own(), ",")
	}
	instrumentPkgs(ex, *repo, split(*full), true)
	instrumentPkgs(ex, *repo, split(*maps), false)
	genShim(ex, *repo, "time", "mctime", timeOverrides)
	genShim(ex, *repo, "sync", "mcsync", syncOverrides)
	if *osHook {
		hookOS()
	}
	if *serverHook {
		hookServer()
	}
	data, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(workDir, "overlay.json"), data, 0644); err != nil {
		fatal("%v", err)
	}
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal("go env GOROOT: %v", err)
	}
	return strings.TrimSpace(string(out))
}
