package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

// Functions of the standard os package that get a hook as their first statement.
// The text sees the function's own parameter names.
var osHooks = map[string]map[string]string{
	"file.go": {
		"(*File).Read":        `if h := VerifHook; h != nil { if done, vn, verr := h(&VerifOp{Kind: "read", F: f, Data: b}); done { return vn, verr } }`,
		"(*File).ReadAt":      `if h := VerifHook; h != nil { if done, vn, verr := h(&VerifOp{Kind: "readat", F: f, Data: b, Off: off}); done { return vn, verr } }`,
		"(*File).Write":       `if h := VerifHook; h != nil { if done, vn, verr := h(&VerifOp{Kind: "write", F: f, Data: b}); done { return vn, verr } }`,
		"(*File).WriteAt":     `if h := VerifHook; h != nil { if done, vn, verr := h(&VerifOp{Kind: "writeat", F: f, Data: b, Off: off}); done { return vn, verr } }`,
		"(*File).ReadFrom":    `if VerifHook != nil { return genericReadFrom(f, r) }`,
		"(*File).WriteTo":     `if VerifHook != nil { return genericWriteTo(f, w) }`,
		"(*File).Seek":        `if h := VerifHook; h != nil { if done, vn, verr := h(&VerifOp{Kind: "seek", F: f, Off: offset, Flag: whence}); done { return int64(vn), verr } }`,
		"(*File).WriteString": `if VerifHook != nil { return f.Write([]byte(s)) }`,
		"OpenFile":            `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "open", Path: name, Flag: flag}); done { return nil, verr } }`,
		"Mkdir":               `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "mkdir", Path: name}); done { return verr } }`,
		"Rename":              `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "rename", Path: oldpath, Path2: newpath}); done { return verr } }`,
	},
	"file_posix.go": {
		"(*File).Truncate": `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "ftruncate", F: f, Off: size}); done { return verr } }`,
		"(*File).Sync":     `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "sync", F: f}); done { return verr } }`,
		"(*File).Close":    `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "close", F: f}); done { return verr } }`,
	},
	"file_unix.go": {
		"Truncate": `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "truncate", Path: name, Off: size}); done { return verr } }`,
		"Remove":   `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "remove", Path: name}); done { return verr } }`,
		"Link":     `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "link", Path: oldname, Path2: newname}); done { return verr } }`,
		"Symlink":  `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "symlink", Path: oldname, Path2: newname}); done { return verr } }`,
	},
	"path.go": {
		"RemoveAll": `if h := VerifHook; h != nil { if done, _, verr := h(&VerifOp{Kind: "removeall", Path: path}); done { return verr } }`,
	},
}

const osHookDecl = `package os

// VerifOp describes one file-system call about to be made.
type VerifOp struct {
	Kind        string
	Path, Path2 string
	F           *File
	Data        []byte
	Off         int64
	Flag        int
}

// VerifHook, if set, sees every call; when done is true the call is not made
// and n and err are its result.
var VerifHook func(op *VerifOp) (done bool, n int, err error)
`

// Hooks of the calls by which a server begins to listen and to catch signals.
var netHooks = map[string]map[string]string{
	"dial.go": {"(*ListenConfig).Listen": `if h := VerifListen; h != nil { h(network, address) }`},
}

const netHookDecl = `package net

// VerifListen, if set, is called before listening.
var VerifListen func(network, address string)
`

var signalHooks = map[string]map[string]string{
	"signal.go": {"Notify": `if h := VerifNotify; h != nil { h(sig) }`},
}

const signalHookDecl = `package signal

import "os"

// VerifNotify, if set, is called before signals are directed to a channel.
var VerifNotify func(sig []os.Signal)
`

func hookOS() { hookStd("os", osHookDecl, osHooks) }
func hookServer() {
	hookStd("net", netHookDecl, netHooks)
	hookStd("os/signal", signalHookDecl, signalHooks)
}

func hookStd(pkg, decl string, all map[string]map[string]string) {
	dir := filepath.Join(goroot(), "src", pkg)
	put(filepath.Join(dir, "zz_verif_hook.go"), pkg+"/zz_verif_hook.go", []byte(decl))
	for file, hooks := range all {
		src, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			fatal("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			fatal("%v", err)
		}
		type ins struct {
			off  int
			text string
		}
		var list []ins
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
					name = fmt.Sprintf("(*%s).%s", st.X.(*ast.Ident).Name, name)
				} else {
					name = "recv." + name
				}
			}
			if t, ok := hooks[name]; ok {
				list = append(list, ins{fset.Position(fd.Body.Lbrace).Offset + 1, " " + t + ";"})
			}
		}
		if len(list) != len(hooks) {
			fatal(pkg+" hook: %s: found %d of %d functions", file, len(list), len(hooks))
		}
		sort.Slice(list, func(i, j int) bool { return list[i].off > list[j].off })
		for _, in := range list {
			src = append(src[:in.off:in.off], append([]byte(in.text), src[in.off:]...)...)
		}
		put(filepath.Join(dir, file), pkg+"/"+file, src)
	}
}
