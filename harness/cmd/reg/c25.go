//go:build go1.24

package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/lib"
)

func init() {
	checks["C25"] = lib.Check{Level: "exploration", Procs: true,
		Rule: "Names: all byte strings of length 0 to 2, all of length 3 and 4 over hostile alphabets, and every byte value at every position of names up to 40 bytes, against a byte-level definition. Files: every configuration of the data directory times every history of management calls up to the stated length and a start of the namespaces, with every file-system call of the real code observed: what it creates must lie directly in the configured directory, be named after the namespace, and belong to one namespace or the registry only.",
		Assumptions: []string{
			"an empty data directory setting means the current directory",
			"a file is named after a namespace if the text before the first dot of its name is the namespace's name",
		},
		Fn: checkC25,
	}
}

func checkName(s string) {
	n, err := valueobjects.ParseNamespaceName(s)
	if ok := nameOK(s); ok != (err == nil) {
		lib.Failf("parse", "the text %q is accepted as a namespace name: %v, should be: %v", s, err == nil, ok)
	}
	if err == nil && n.Value() != s {
		lib.Failf("parse", "the text %q is accepted as the name %q", s, n.Value())
	}
}

func checkC25(r *lib.Run) {
	each := func(title string, n int, text func(i int) string) {
		r.ForEach(title, n, func(i int) string { return fmt.Sprintf("%q", text(i)) }, func(i int) { checkName(text(i)) })
	}
	each("all byte strings up to two bytes", 1+256+256*256, func(i int) string {
		switch {
		case i == 0:
			return ""
		case i <= 256:
			return string([]byte{byte(i - 1)})
		}
		i -= 257
		return string([]byte{byte(i >> 8), byte(i)})
	})
	words := func(title string, n int, alphabet []string) {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alphabet)
		}
		each(title, total, func(i int) string {
			s := ""
			for k := 0; k < n; k++ {
				s += alphabet[i%len(alphabet)]
				i /= len(alphabet)
			}
			return s
		})
	}
	// Boundaries of the ranges, separators, controls, bytes of other
	// encodings, letters that fold to ASCII ones.
	wide := []string{"\x00", "\x01", "\t", "\n", "\v", "\r", "\x1f", " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "5", "9", ":", ";", "<", "=", ">", "?", "@", "A", "M", "Z", "[", "\\", "]", "^", "_", "`", "a", "m", "z", "{", "|", "}", "~", "\x7f", "\x80", "\xbf", "\xc3", "\xe2", "\xff", "é", "ı", "ſ", "\u212a", "Ａ", "٣", "‐", "\u2028", "\u0301", "😀"}
	words("all strings of three over the wide alphabet", 3, wide)
	narrow := []string{"a", "Z", "0", "_", "-", ".", "/", "\\", "\n", "\r", "\x00", " ", "é", "\xff", "%"}
	if r.Thorough {
		narrow = append(narrow, "b", "9", ":", "~", "ſ", "[", "@", "{", "`", "^", "$")
	}
	words("all strings of four over the narrow alphabet", 4, narrow)
	if r.Thorough {
		words("all strings of five over the narrow alphabet", 5, narrow[:18])
	}
	lens := []int{3, 5, 9, 17, 40}
	if r.Thorough {
		lens = append(lens, 63, 64, 65, 127, 128, 200, 255, 256, 1000)
	}
	for _, n := range lens {
		each(fmt.Sprintf("every byte at every position of names of %d", n), (n+1)*256, func(i int) string {
			s := []byte(strings.Repeat("aB3_-x", n/6+1)[:n])
			if p := i / 256; p == n {
				s = append(s, byte(i%256))
			} else {
				s[p] = byte(i % 256)
			}
			return string(s)
		})
	}
	checkFiles(r)
	checkElsewhere(r)
}

// config is a way to configure the data directory.
type config struct {
	title string
	cwd   string // below the scratch root
	value string // of REC_PATH; ROOT is replaced
	dir   string // below the scratch root
}

var configs = []config{
	{"absolute", "", "ROOT/data", "data"},
	{"absolute with a slash", "", "ROOT/data/", "data"},
	{"relative", "", "data", "data"},
	{"relative with a slash", "", "data/", "data"},
	{"dot relative", "", "./data", "data"},
	{"empty", "data", "", "data"},
	{"dot", "data", ".", "data"},
	{"dot slash", "data", "./", "data"},
	{"parent", "data/inner", "..", "data"},
	{"parent with a slash", "data/inner", "../", "data"},
	{"nested", "", "data/inner", "data/inner"},
	{"with a space and a dot", "", "ROOT/my data.d", "my data.d"},
	{"one letter", "", "d", "d"},
	{"one letter with a slash", "", "d/", "d"},
	{"absolute with two slashes", "", "ROOT/data//", "data"},
}

// rec is the record of what was created.
type rec struct {
	w       *world
	dir     string
	who     string            // the namespace being started, or "" for the registry
	owner   map[string]string // file -> who, "the registry" or a namespace
	outside []string
	bad     string
}

func (x *rec) created(p string, what string) {
	if x.bad != "" {
		return
	}
	base := filepath.Base(p)
	if filepath.Dir(p) != x.dir {
		x.bad = fmt.Sprintf("%s: the file is not directly in the data directory", what)
		return
	}
	who := "the registry"
	if x.who != "" {
		who = "namespace " + x.who
		if strings.SplitN(base, ".", 2)[0] != x.who {
			x.bad = fmt.Sprintf("%s: the file of %s is not named after it", what, who)
			return
		}
	}
	if o, ok := x.owner[base]; ok && o != who {
		x.bad = fmt.Sprintf("%s: the file of %s is also used by %s", what, o, who)
		return
	}
	x.owner[base] = who
}

func (x *rec) observe(op *os.VerifOp) {
	switch op.Kind {
	case "open":
		if op.Flag&(os.O_CREATE|os.O_WRONLY|os.O_RDWR|os.O_TRUNC) != 0 {
			x.created(x.w.path(op), x.w.show(op))
		}
	case "mkdir", "symlink", "truncate", "remove", "link":
		x.created(x.w.path(op), x.w.show(op))
	case "rename":
		x.created(x.w.path(op), x.w.show(op))
		d := op.Path2
		if !filepath.IsAbs(d) {
			cwd, _ := os.Getwd()
			d = filepath.Join(cwd, d)
		}
		x.created(filepath.Clean(d), x.w.show(op))
	}
}

// listAll returns the files below root, with directories.
func listAll(root string) []string {
	var l []string
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err == nil && p != root {
			rel, _ := filepath.Rel(root, p)
			if d.IsDir() {
				rel += "/"
			}
			l = append(l, rel)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

func checkFiles(r *lib.Run) {
	root := scratch("tree")
	home, err := os.Getwd()
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	var ops []mop
	names := []string{"a", "ab", "a-b", "a_", "A", "namespaces", "data"}
	for _, n := range names {
		ops = append(ops, mop{what: "create", name: n, limit: 5, factor: 0.5}, mop{what: "delete", name: n})
	}
	ops = append(ops, mop{what: "update", name: "a", to: "ab", limit: 1}, mop{what: "update", name: "ab", to: "namespaces", limit: 1}, mop{what: "update", name: "a", to: "a", limit: 1}, mop{what: "save"})
	run := func(title string, length int, cfgs []config) {
		r.EnumerateShared(title, func(c *lib.C) {
			// The history first, to divide the work by.
			cfg := cfgs[c.Choose(len(cfgs))]
			n := 1 + c.Choose(length)
			var hist []mop
			var m []ent
			for i := 0; i < n; i++ {
				o := ops[c.Choose(len(ops))]
				after, ok := o.apply(m)
				if !ok {
					lib.Skip()
				}
				hist = append(hist, o)
				m = after
			}
			c.Share(fmt.Sprint(cfg.title, hist))
			os.Chdir(home)
			emptyDir(root)
			for _, d := range []string{"data/inner", "my data.d", "d"} {
				if err := os.MkdirAll(filepath.Join(root, d), 0755); err != nil {
					panic("VERIF-INTERNAL: " + err.Error())
				}
			}
			before := map[string]bool{}
			for _, f := range listAll(root) {
				before[f] = true
			}
			if err := os.Chdir(filepath.Join(root, cfg.cwd)); err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
			defer os.Chdir(home)
			value := strings.ReplaceAll(cfg.value, "ROOT", root)
			c.Note("data directory %q in %s", value, "/"+cfg.cwd)
			x := &rec{dir: filepath.Join(root, cfg.dir), owner: map[string]string{}}
			w := &world{root: root, after: x.observe}
			x.w = w
			w.outside = func(op *os.VerifOp) { x.outside = append(x.outside, w.show(op)) }
			defer w.end()
			check := func(doing string) {
				if x.bad != "" {
					lib.Failf("file", "%s does: %s (data directory setting %q)", doing, x.bad, value)
				}
				if x.outside != nil {
					lib.Failf("file", "%s does: %s, outside of the data directory (setting %q)", doing, strings.Join(x.outside, "; "), value)
				}
			}
			svc := newService(value)
			for _, o := range hist {
				c.Note("%v", o)
				w.begin()
				_, err := o.do(svc)
				w.end()
				check(o.String())
				if err != nil {
					lib.Failf("result", "%v fails: %v (data directory setting %q)", o, err, value)
				}
			}
			c.Interesting()
			// Start what is registered: with the storages the service gives
			// them, and with a like storage, too.
			for _, ns := range svc.GetNamespaces() {
				x.who = ns.GetName().Value()
				w.begin()
				err := ns.Start(context.Background())
				w.end()
				c.Note("start %s: error %v", x.who, err)
				check("starting " + x.who)
				// As the service does, but with a like storage.
				base := value
				if base != "" && !strings.HasSuffix(base, "/") {
					base += "/"
				}
				full := domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: ns.GetName(), BasePath: base,
					DeltaStorageFactory: delta.NewStorageFactory(), IndexStorageFactory: index.NewStorageFactory(), LikeStorageFactory: &likeFactory{}})
				ctx, cancel := context.WithCancel(context.Background())
				w.begin()
				err = full.Start(ctx)
				cancel()
				if settle() != nil {
					w.end()
					lib.Skip()
				}
				w.end()
				check("starting " + x.who)
				if err != nil {
					lib.Failf("start", "starting %s fails: %v (data directory setting %q)", x.who, err, value)
				}
			}
			x.who = ""
			w.end()
			for _, f := range listAll(root) {
				if before[f] {
					continue
				}
				if filepath.Dir(filepath.Join(root, f)) != x.dir || strings.HasSuffix(f, "/") {
					lib.Failf("file", "afterwards there is %s, not in the data directory (setting %q)", f, value)
				}
				if x.owner[filepath.Base(f)] == "" {
					lib.Failf("file", "afterwards there is %s, created unobserved", f)
				}
			}
			s2, err := reload(value)
			if err != nil || listed(s2) != describe(m) {
				lib.Failf("reload", "after a restart with the same setting %q the service lists [%s] (error %v), should be [%s]", value, listed(s2), err, describe(m))
			}
		})
	}
	defer func() {
		// Names that differ in their last character only.
		for _, n := range []int{2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 49, 50, 51, 59, 60, 61, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 225} {
			s := strings.Repeat("aB3_-x", 40)[:n-1]
			ops = []mop{{what: "create", name: s + "p", limit: 5, factor: 0.5}, {what: "create", name: s + "q", limit: 6, factor: 0.5}, {what: "update", name: s + "p", to: s + "r", limit: 1}}
			run(fmt.Sprintf("names of %d characters", n), 3, []config{configs[0], configs[5]})
		}
	}()
	if r.Thorough {
		run("four calls and a start, all directory settings", 4, configs)
		return
	}
	run("three calls and a start, all directory settings", 3, configs)
}

// checkElsewhere uses directories that the check must not write to: every
// call that would change something is recorded and fails.
func checkElsewhere(r *lib.Run) {
	root := scratch("tree")
	home, err := os.Getwd()
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	dirs := []struct{ value, dir string }{
		{"/", "/"}, {"//", "/"}, {"/.", "/"}, {"/./", "/"},
		{"/verif-absent", "/verif-absent"}, {"/verif-absent/", "/verif-absent"},
		{"/verif-absent/x", "/verif-absent/x"}, {"../../../../../../../../../../../..", "/"}, {"../../../../../../../../../../../../", "/"},
	}
	names := []string{"a", "tmp", "namespaces", "etc"}
	r.Enumerate("directories that must not be touched, calls recorded and failing", func(c *lib.C) {
		os.Chdir(home)
		emptyDir(root)
		if err := os.MkdirAll(filepath.Join(root, "inner"), 0755); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		if err := os.Chdir(filepath.Join(root, "inner")); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		defer os.Chdir(home)
		d := dirs[c.Choose(len(dirs))]
		name := names[c.Choose(len(names))]
		what := []string{"create", "save", "start", "start with a like storage"}[c.Choose(4)]
		c.Note("data directory %q, %s, %s", d.value, what, name)
		c.Interesting()
		x := &rec{dir: d.dir, owner: map[string]string{}}
		w := &world{root: root}
		x.w = w
		w.after = func(op *os.VerifOp) {
			if mutates(op) {
				x.outside = append(x.outside, w.show(op))
			}
		}
		w.outside = func(op *os.VerifOp) { x.observe(op) }
		svc := newService(d.value)
		var like domain.LikeStorageFactory
		w.begin()
		defer w.end()
		switch what {
		case "create":
			mop{what: "create", name: name, limit: 5, factor: 0.5}.do(svc)
		case "save":
			svc.SaveNamespaces()
		case "start with a like storage":
			like = &likeFactory{}
			fallthrough
		case "start":
			x.who = name
			n, err := valueobjects.ParseNamespaceName(name)
			if err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
			base := d.value
			if !strings.HasSuffix(base, "/") {
				base += "/"
			}
			if domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: n, BasePath: base, DeltaStorageFactory: delta.NewStorageFactory(), IndexStorageFactory: index.NewStorageFactory(), LikeStorageFactory: like}).Start(context.Background()) == nil {
				w.end()
				lib.Failf("start", "starting %s succeeds although no file can be created (data directory setting %q)", name, d.value)
			}
		}
		w.end()
		if x.bad != "" {
			lib.Failf("file", "%s does: %s (data directory setting %q)", what, x.bad, d.value)
		}
		if x.outside != nil {
			lib.Failf("file", "%s does: %s, in the working directory (setting %q)", what, strings.Join(x.outside, "; "), d.value)
		}
	})
}
