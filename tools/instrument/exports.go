package main

import (
	"bytes"
	"encoding/json"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
}

// exports resolves imports from compiler export data.
type exports struct {
	pkgs map[string]listPkg
	fset *token.FileSet
	imp  types.Importer
}

func newExports(repo string) *exports {
	cmd := exec.Command("go", "list", "-modfile="+os.Getenv("VERIF_MODFILE"), "-e", "-export", "-deps",
		"-json=ImportPath,Dir,Export,GoFiles", "./...", "time", "sync", "os", "sync/atomic", "context")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	ex := &exports{pkgs: map[string]listPkg{}, fset: token.NewFileSet()}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		ex.pkgs[p.ImportPath] = p
	}
	ex.imp = importer.ForCompiler(ex.fset, "gc", func(path string) (io.ReadCloser, error) {
		return os.Open(ex.pkgs[path].Export)
	})
	return ex
}

// own lists the module's packages that take part in controlled executions.
func (ex *exports) own() []string {
	var out []string
	for p, lp := range ex.pkgs {
		if strings.HasPrefix(p, "recengine/internal/") && p != "recengine/internal/api/shard" && lp.Dir != "" && len(lp.GoFiles) > 0 {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}
