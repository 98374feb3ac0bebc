package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// Names a hand-written harness package (harness/mctime, harness/mcsync) defines itself.
var timeOverrides = []string{"Sleep", "After", "NewTimer", "AfterFunc", "Tick", "NewTicker", "Now", "Since", "Until", "Timer", "Ticker"}
var syncOverrides = []string{"Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues"}

// genShim forwards every other exported object of the standard package, so that
// instrumented sources can import the shim under the original name.
func genShim(ex *exports, repo, std, name string, overrides []string) {
	pkg, err := ex.imp.Import(std)
	if err != nil {
		fatal("import %s: %v", std, err)
	}
	skip := map[string]bool{}
	for _, o := range overrides {
		skip[o] = true
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.24\n\npackage %s\n\nimport std %q\n\n", name, std)
	names := pkg.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, nm := range names {
		o := pkg.Scope().Lookup(nm)
		if !o.Exported() || skip[nm] {
			continue
		}
		n++
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", nm, nm)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", nm, nm)
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = std.%s\n", nm, nm)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", nm, nm)
		}
	}
	put(filepath.Join(repo, "internal/zzverif", name, "zz_forward.go"), "shim/"+name+".go", []byte(b.String()))
}
