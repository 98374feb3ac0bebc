package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// rewriter rewrites one file.
type rewriter struct {
	info *types.Info
	full bool
	n    int
	used bool // the file needs the mc import
	muts map[string]bool
	own  map[string]bool
	vars map[*types.Var]bool
	capt map[*types.Var]bool
}

func (rw *rewriter) tmp(p string) string {
	rw.n++
	return fmt.Sprintf("_mc%s%d", p, rw.n)
}

func (rw *rewriter) mc(name string) ast.Expr {
	rw.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("_mc"), Sel: ast.NewIdent(name)}
}

func (rw *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: rw.mc(name), Args: args}
}

func (rw *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := rw.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := rw.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (rw *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = rw.info.Uses[id].(*types.Builtin)
	return ok
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
	objT  = reflect.TypeOf((*ast.Object)(nil))
	scpT  = reflect.TypeOf((*ast.Scope)(nil))
)

// children rewrites every child of the node in place.
func (rw *rewriter) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		rw.field(v.Field(i))
	}
}

func (rw *rewriter) field(f reflect.Value) {
	t := f.Type()
	if t == objT || t == scpT || !f.CanSet() {
		return
	}
	switch f.Kind() {
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			rw.field(f.Index(i))
		}
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		if t == exprT {
			f.Set(reflect.ValueOf(rw.expr(f.Interface().(ast.Expr))))
		} else if t == stmtT {
			f.Set(reflect.ValueOf(rw.stmt(f.Interface().(ast.Stmt), "")))
		} else if n, ok := f.Interface().(ast.Node); ok {
			rw.children(n)
		}
	case reflect.Pointer:
		if f.IsNil() || !t.Implements(nodeT) {
			return
		}
		n := f.Interface().(ast.Node)
		switch x := n.(type) {
		case *ast.BlockStmt:
			rw.block(x)
		case ast.Expr:
			// Concrete-typed expression fields (e.g. *ast.CallExpr in go/defer).
			rw.children(x)
		default:
			rw.children(n)
		}
	}
}

func (rw *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = rw.expr(l[i])
	}
}

func (rw *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if rw.full {
		switch x := e.(type) {
		case *ast.ParenExpr:
			x.X = rw.expr(x.X)
			return x
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return rw.call("Recv", rw.expr(x.X))
			}
		case *ast.CallExpr:
			if len(x.Args) == 1 {
				t := rw.typ(x.Args[0])
				for _, b := range [][2]string{{"close", "Close"}, {"len", "Len"}, {"cap", "Cap"}} {
					if rw.isBuiltin(x.Fun, b[0]) && isChan(t) {
						return rw.call(b[1], rw.expr(x.Args[0]))
					}
				}
			}
		}
	}
	rw.children(e)
	return e
}

// recvOperand returns the channel expression if e is a receive operation.
func recvOperand(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X
	}
	return nil
}

func (rw *rewriter) block(b *ast.BlockStmt) { b.List = rw.list(b.List) }

func (rw *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if rw.full && rw.touches(s) {
			out = append(out, &ast.ExprStmt{X: rw.call("Point")})
		}
		out = append(out, rw.stmt(s, ""))
	}
	return out
}

// touches reports whether the statement itself (not its nested blocks) may
// access memory other threads can see and some thread changes.
func (rw *rewriter) touches(s ast.Stmt) bool {
	found := false
	look := func(n ast.Node) {
		if n == nil || reflect.ValueOf(n).IsNil() {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if found {
				return false
			}
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if sel, ok := rw.info.Selections[x]; ok && sel.Kind() == types.FieldVal {
					if rw.muts[objKey(sel.Obj())] || len(sel.Index()) > 1 {
						found = true
					}
				} else if !ok {
					if v, isVar := rw.info.Uses[x.Sel].(*types.Var); isVar && v != nil && (rw.muts[objKey(v)] || !rw.own[v.Pkg().Path()]) {
						found = true
					}
				}
			case *ast.IndexExpr:
				if tv, ok := rw.info.Types[x.X]; ok && tv.IsValue() {
					found = true
				}
			case *ast.StarExpr:
				if tv, ok := rw.info.Types[x]; ok && tv.IsValue() {
					found = true
				}
			case *ast.CallExpr:
				if tv, ok := rw.info.Types[x.Fun]; ok && !tv.IsType() && !tv.IsBuiltin() && !rw.quiet(x) {
					found = true
				}
			case *ast.Ident:
				if v, ok := rw.info.Uses[x].(*types.Var); ok && rw.sharedVar(v) {
					found = true
				}
			}
			return true
		})
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		// The store has a scheduling point of its own.
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ASSIGN && rw.shared(x.Lhs[0]) && rw.addressable(x.Lhs[0]) {
			look(x.Rhs[0])
			if se, ok := x.Lhs[0].(*ast.SelectorExpr); ok {
				look(se.X)
			} else if ix, ok := x.Lhs[0].(*ast.IndexExpr); ok {
				look(ix.X)
				look(ix.Index)
			}
			break
		}
		look(s)
	case *ast.IfStmt:
		if x.Init != nil {
			look(x.Init)
		}
		look(x.Cond)
	case *ast.ForStmt:
		if x.Init != nil {
			look(x.Init)
		}
		if x.Cond != nil {
			look(x.Cond)
		}
	case *ast.RangeStmt:
		look(x.X)
	case *ast.SwitchStmt:
		if x.Init != nil {
			look(x.Init)
		}
		if x.Tag != nil {
			look(x.Tag)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			look(x.Init)
		}
		look(x.Assign)
	case *ast.CaseClause, *ast.CommClause, *ast.BlockStmt, *ast.SelectStmt, *ast.LabeledStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.DeferStmt:
	default:
		look(s)
	}
	return found
}

// shared reports whether assigning to e may be visible to other threads.
func (rw *rewriter) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return rw.shared(x.X)
	case *ast.SelectorExpr:
		if sel, ok := rw.info.Selections[x]; ok {
			return sel.Kind() == types.FieldVal
		}
		return true
	case *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := rw.info.Uses[x].(*types.Var)
		return ok && rw.sharedVar(v)
	}
	return false
}

// sharedVar reports whether the variable is visible to several threads and is
// ever assigned to after its declaration.
func (rw *rewriter) sharedVar(v *types.Var) bool {
	if v.IsField() {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return rw.muts[objKey(v)]
	}
	return rw.capt[v] && rw.vars[v]
}

// Packages whose functions share no state with other threads that matters here.
var pure = map[string]bool{"fmt": true, "errors": true, "log": true, "strings": true, "strconv": true, "sort": true, "slices": true,
	"math": true, "bytes": true, "regexp": true, "encoding/json": true, "encoding/binary": true, "path": true, "path/filepath": true, "unicode": true, "cmp": true,
	"math/bits": true, "time": true, "sync": true}

// quiet reports whether the call itself is no access to shared memory: the
// function has scheduling points of its own or needs none.
func (rw *rewriter) quiet(x *ast.CallExpr) bool {
	fun := x.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		if p, ok := fun.(*ast.IndexExpr); ok {
			if _, isVal := rw.info.Types[p.X]; isVal {
				fun = p.X
				continue
			}
		}
		break
	}
	var o types.Object
	switch f := fun.(type) {
	case *ast.Ident:
		o = rw.info.Uses[f]
	case *ast.SelectorExpr:
		if sel, ok := rw.info.Selections[f]; ok {
			if sel.Kind() != types.MethodVal {
				return false
			}
			if types.IsInterface(sel.Recv()) && sel.Obj().Pkg() != nil && sel.Obj().Pkg().Path() == "context" {
				return true
			}
			o = sel.Obj()
		} else {
			o = rw.info.Uses[f.Sel]
		}
	case *ast.FuncLit:
		return true
	}
	fn, ok := o.(*types.Func)
	if !ok {
		return false
	}
	if fn.Pkg() == nil {
		return true // error.Error
	}
	return pure[fn.Pkg().Path()] || rw.own[fn.Pkg().Path()]
}

// objKey names a field or package variable across type-checked packages.
func objKey(o types.Object) string {
	if o.Pkg() == nil {
		return o.Name()
	}
	if v, ok := o.(*types.Var); ok && v.IsField() {
		if !seenPkgs[o.Pkg()] {
			seenPkgs[o.Pkg()] = true
			for _, n := range o.Pkg().Scope().Names() {
				tn, ok := o.Pkg().Scope().Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						fieldKeys[st.Field(i)] = o.Pkg().Path() + "." + n + "." + st.Field(i).Name()
					}
				}
			}
		}
		if k, ok := fieldKeys[v]; ok {
			return k
		}
	}
	return o.Pkg().Path() + "." + o.Name()
}

var fieldKeys = map[*types.Var]string{}
var seenPkgs = map[*types.Package]bool{}

// mutations finds the fields and package variables (by key) and the local
// variables that are changed after their declaration.
func mutations(f *ast.File, info *types.Info, muts map[string]bool, vars map[*types.Var]bool) {
	var mark func(e ast.Expr, whole bool)
	mark = func(e ast.Expr, whole bool) {
		if whole {
			if tv, ok := info.Types[e]; ok && tv.Type != nil {
				if st, ok := tv.Type.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						muts[objKey(st.Field(i))] = true
					}
				}
			}
		}
		switch x := e.(type) {
		case *ast.ParenExpr:
			mark(x.X, false)
		case *ast.Ident:
			o := info.Uses[x]
			if o == nil {
				o = info.Defs[x]
			}
			if v, ok := o.(*types.Var); ok {
				vars[v] = true
				if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					muts[objKey(v)] = true
				}
			}
		case *ast.SelectorExpr:
			if sel, ok := info.Selections[x]; ok {
				muts[objKey(sel.Obj())] = true
				if _, isPtr := info.Types[x.X].Type.Underlying().(*types.Pointer); !isPtr {
					mark(x.X, false)
				}
			} else if v, ok := info.Uses[x.Sel].(*types.Var); ok {
				muts[objKey(v)] = true
			}
		case *ast.IndexExpr:
			mark(x.X, false)
		case *ast.SliceExpr:
			mark(x.X, false)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && x.Tok == token.DEFINE && info.Defs[id] != nil {
					continue
				}
				mark(l, true)
			}
		case *ast.IncDecStmt:
			mark(x.X, true)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				mark(x.Key, true)
				if x.Value != nil {
					mark(x.Value, true)
				}
			}
		case *ast.UnaryExpr:
			if _, lit := x.X.(*ast.CompositeLit); x.Op == token.AND && !lit {
				mark(x.X, true)
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				if _, ok := info.Uses[id].(*types.Builtin); ok && (id.Name == "delete" || id.Name == "copy" || id.Name == "clear" || id.Name == "append") {
					mark(x.Args[0], false)
				}
			}
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel, ok := info.Selections[se]; ok && sel.Kind() == types.MethodVal {
					sig := sel.Obj().Type().(*types.Signature)
					rt, isPtr := sig.Recv().Type().(*types.Pointer)
					_, exprPtr := info.Types[se.X].Type.Underlying().(*types.Pointer)
					if isPtr && !exprPtr {
						if nt, ok := rt.Elem().(*types.Named); !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != "sync" {
							mark(se.X, true)
						}
					}
				}
			}
		}
		return true
	})
}

// captured finds the local variables that function literals share with their
// surroundings.
func captured(f *ast.File, info *types.Info) map[*types.Var]bool {
	m := map[*types.Var]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		fl, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(fl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && v.Pos().IsValid() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
					m[v] = true
				}
			}
			return true
		})
		return true
	})
	return m
}

func hasCall(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			f = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f = true
			}
		}
		return !f
	})
	return f
}

// store returns an expression of type func(T) that stores to lhs.
func (rw *rewriter) store(lhs ast.Expr) ast.Expr {
	for {
		p, ok := lhs.(*ast.ParenExpr)
		if !ok {
			break
		}
		lhs = p.X
	}
	if ix, ok := lhs.(*ast.IndexExpr); ok && isMap(rw.typ(ix.X)) {
		return rw.call("AssignMap", rw.expr(ix.X), rw.expr(ix.Index))
	}
	return rw.call("Assign", &ast.UnaryExpr{Op: token.AND, X: rw.expr(lhs)})
}

var opAssign = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
}

func (rw *rewriter) addressable(e ast.Expr) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if ix, ok := e.(*ast.IndexExpr); ok && isMap(rw.typ(ix.X)) {
		return true
	}
	tv, ok := rw.info.Types[e]
	return ok && tv.Addressable()
}

func (rw *rewriter) stmt(s ast.Stmt, label string) ast.Stmt {
	lab := func(x ast.Stmt) ast.Stmt {
		if label == "" {
			return x
		}
		return &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: x}
	}
	switch x := s.(type) {
	case *ast.LabeledStmt:
		return rw.stmt(x.Stmt, x.Label.Name)
	case *ast.RangeStmt:
		t := rw.typ(x.X)
		if isMap(t) {
			return rw.rangeMap(x, lab)
		}
		if rw.full && isChan(t) {
			c := ast.NewIdent(rw.tmp("c"))
			ok := ast.NewIdent(rw.tmp("ok"))
			pre := &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(x.X)}}
			var head []ast.Stmt
			if x.Key == nil || isBlank(x.Key) {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.call("Recv2", c)}})
			} else if x.Tok == token.DEFINE {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.call("Recv2", c)}})
			} else {
				v := ast.NewIdent(rw.tmp("v"))
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.call("Recv2", c)}})
				defer func() {}()
				brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
				head = append(head, brk, &ast.AssignStmt{Lhs: []ast.Expr{rw.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
				rw.block(x.Body)
				loop := &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, x.Body)}}
				return &ast.BlockStmt{List: []ast.Stmt{pre, lab(loop)}}
			}
			brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
			head = append(head, brk)
			rw.block(x.Body)
			loop := &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, x.Body)}}
			return &ast.BlockStmt{List: []ast.Stmt{pre, lab(loop)}}
		}
		rw.children(x)
		return lab(x)
	case *ast.CaseClause:
		rw.exprs(x.List)
		x.Body = rw.list(x.Body)
		return x
	case *ast.BlockStmt:
		rw.block(x)
		return lab(x)
	case *ast.CommClause:
		// Only reached when not in full mode.
		rw.children(x)
		return x
	}
	if !rw.full {
		rw.children(s)
		return lab(s)
	}
	switch x := s.(type) {
	case *ast.SendStmt:
		c, v := rw.expr(x.Chan), rw.expr(x.Value)
		return lab(&ast.ExprStmt{X: &ast.CallExpr{Fun: rw.call("Send", c), Args: []ast.Expr{v}}})
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c := recvOperand(x.Rhs[0]); c != nil {
				rw.exprs(x.Lhs)
				x.Rhs[0] = rw.call("Recv2", rw.expr(c))
				return lab(x)
			}
		}
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && rw.shared(x.Lhs[0]) && rw.addressable(x.Lhs[0]) {
			if x.Tok == token.ASSIGN {
				st := rw.store(x.Lhs[0])
				return lab(&ast.ExprStmt{X: &ast.CallExpr{Fun: st, Args: []ast.Expr{rw.expr(x.Rhs[0])}}})
			}
			if op, ok := opAssign[x.Tok]; ok && !hasCall(x.Lhs[0]) {
				val := &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: rw.expr(x.Rhs[0])}}
				return lab(&ast.ExprStmt{X: &ast.CallExpr{Fun: rw.store(x.Lhs[0]), Args: []ast.Expr{val}}})
			}
		}
	case *ast.IncDecStmt:
		if rw.shared(x.X) && rw.addressable(x.X) && !hasCall(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			val := &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			return lab(&ast.ExprStmt{X: &ast.CallExpr{Fun: rw.store(x.X), Args: []ast.Expr{val}}})
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					if c := recvOperand(vs.Values[0]); c != nil {
						vs.Values[0] = rw.call("Recv2", rw.expr(c))
					}
				}
			}
		}
	case *ast.GoStmt:
		return lab(rw.goStmt(x))
	case *ast.SelectStmt:
		return rw.selectStmt(x, label)
	case *ast.DeferStmt:
		// defer close(c) and the like.
		if r, ok := rw.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = r
		}
		return lab(x)
	}
	rw.children(s)
	return lab(s)
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (rw *rewriter) rangeMap(x *ast.RangeStmt, lab func(ast.Stmt) ast.Stmt) ast.Stmt {
	m := ast.NewIdent(rw.tmp("m"))
	k := ast.NewIdent(rw.tmp("k"))
	pre := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(x.X)}}
	v := ast.NewIdent(rw.tmp("v"))
	ok := ast.NewIdent(rw.tmp("ok"))
	// Keys deleted during the iteration are not visited.
	head := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{k, v}},
	}
	assign := func(dst ast.Expr, src ast.Expr) {
		if dst == nil || isBlank(dst) {
			return
		}
		if x.Tok == token.DEFINE {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: token.DEFINE, Rhs: []ast.Expr{src}})
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{rw.expr(dst)}, Tok: token.ASSIGN, Rhs: []ast.Expr{src}})
		}
	}
	assign(x.Key, k)
	assign(x.Value, v)
	rw.block(x.Body)
	loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: rw.call("Keys", m), Body: &ast.BlockStmt{List: append(head, x.Body)}}
	return &ast.BlockStmt{List: []ast.Stmt{pre, lab(loop)}}
}

func (rw *rewriter) constant(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (rw *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	call := x.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: rw.call("Go", rw.expr(fl))}
	}
	var pre []ast.Stmt
	bi := false
	if id, ok := call.Fun.(*ast.Ident); ok {
		_, bi = rw.info.Uses[id].(*types.Builtin)
	}
	var args []ast.Expr
	for _, a := range call.Args {
		if rw.constant(a) {
			args = append(args, a)
			continue
		}
		t := ast.NewIdent(rw.tmp("a"))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(a)}})
		args = append(args, t)
	}
	var inner *ast.CallExpr
	if bi {
		inner = &ast.CallExpr{Fun: call.Fun, Args: args}
		if rw.isBuiltin(call.Fun, "close") {
			inner = rw.call("Close", args...)
		}
	} else {
		f := ast.NewIdent(rw.tmp("f"))
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(call.Fun)}}}, pre...)
		inner = &ast.CallExpr{Fun: f, Args: args, Ellipsis: call.Ellipsis}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: rw.call("Go", lit)})
	return &ast.BlockStmt{List: pre}
}

func (rw *rewriter) selectStmt(x *ast.SelectStmt, label string) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	idx := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: rw.list(cc.Body)})
			continue
		}
		t := ast.NewIdent(rw.tmp("s"))
		var head []ast.Stmt
		var obj ast.Expr
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			obj = &ast.CallExpr{Fun: rw.call("SendCase", rw.expr(c.Chan)), Args: []ast.Expr{rw.expr(c.Value)}}
		case *ast.ExprStmt:
			obj = rw.call("RecvCase", rw.expr(recvOperand(c.X)))
		case *ast.AssignStmt:
			obj = rw.call("RecvCase", rw.expr(recvOperand(c.Rhs[0])))
			rhs := []ast.Expr{&ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: t, Sel: ast.NewIdent("OK")})
			}
			if c.Tok == token.ASSIGN {
				rw.exprs(c.Lhs)
			}
			head = append(head, &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: rhs})
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{obj}})
		cases = append(cases, t)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(head, rw.list(cc.Body)...),
		})
		idx++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	sw.Tag = rw.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	var st ast.Stmt = sw
	if label != "" {
		st = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

// checked is a parsed and type-checked package.
type checked struct {
	files []*ast.File
	names []string
	heads []string
	info  *types.Info
	vars  map[*types.Var]bool
}

// load parses and checks the package.
func load(ex *exports, pkgPath string) *checked {
	lp, ok := ex.pkgs[pkgPath]
	if !ok || lp.Dir == "" {
		fatal("package %s not found", pkgPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var heads []string
	for _, g := range lp.GoFiles {
		p := filepath.Join(lp.Dir, g)
		src, err := os.ReadFile(p)
		if err != nil {
			fatal("%v", err)
		}
		head := ""
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "package ") {
				break
			}
			if constraint.IsGoBuild(l) {
				head += l + "\n\n"
			}
		}
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		names = append(names, p)
		heads = append(heads, head)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: ex.imp, FakeImportC: true}
	if _, err := conf.Check(pkgPath, fset, files, info); err != nil {
		fatal("type check of %s: %v", pkgPath, err)
	}
	return &checked{files: files, names: names, heads: heads, info: info, vars: map[*types.Var]bool{}}
}

// instrumentPkgs rewrites the packages' files into the overlay.
func instrumentPkgs(ex *exports, repo string, paths []string, full bool) {
	muts, own := map[string]bool{}, map[string]bool{}
	var list []*checked
	for _, p := range paths {
		c := load(ex, p)
		own[p] = true
		for _, f := range c.files {
			mutations(f, c.info, muts, c.vars)
		}
		list = append(list, c)
	}
	for i, c := range list {
		c.rewrite(paths[i], full, muts, own)
	}
}

func (c *checked) rewrite(pkgPath string, full bool, muts, own map[string]bool) {
	files, names, heads, info := c.files, c.names, c.heads, c.info
	for i, f := range files {
		src, _ := os.ReadFile(names[i])
		if bytes.Contains(src, []byte("//go:embed")) || bytes.Contains(src, []byte("//go:linkname")) || bytes.Contains(src, []byte("import \"C\"")) {
			fmt.Fprintf(os.Stderr, "instrument: %s left as it is\n", names[i])
			continue
		}
		rw := &rewriter{info: info, full: full, capt: captured(f, info), muts: muts, own: own, vars: c.vars}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					rw.block(x.Body)
				}
			case *ast.GenDecl:
				if x.Tok == token.VAR {
					rw.children(x)
				}
			}
		}
		changed := rw.used
		if full {
			for _, im := range f.Imports {
				for std, shim := range map[string]string{`"time"`: "mctime", `"sync"`: "mcsync"} {
					if im.Path.Value == std {
						if im.Name == nil {
							im.Name = ast.NewIdent(strings.Trim(std, `"`))
						}
						im.Path.Value = strconv.Quote(vroot + "/" + shim)
						changed = true
					}
				}
			}
		}
		if !changed {
			continue
		}
		if rw.used {
			spec := &ast.ImportSpec{Name: ast.NewIdent("_mc"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vroot + "/mc")}}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		}
		stripPos(f)
		var b bytes.Buffer
		b.WriteString(heads[i])
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			fmt.Fprintf(os.Stderr, "instrument: %s left as it is: %v\n", names[i], err)
			continue
		}
		if _, err := parser.ParseFile(token.NewFileSet(), names[i], b.Bytes(), 0); err != nil {
			fmt.Fprintf(os.Stderr, "instrument: %s left as it is: %v\n", names[i], err)
			continue
		}
		put(names[i], "src/"+pkgPath+"/"+filepath.Base(names[i]), b.Bytes())
	}
}

// stripPos clears positions so that the printer lays the file out afresh.
func stripPos(n ast.Node) {
	posT := reflect.TypeOf(token.Pos(0))
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || v.Type() == objT || v.Type() == scpT || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posT {
					name := v.Type().Field(i).Name
					// These positions carry meaning (present or not).
					if f.CanSet() && name != "Ellipsis" && name != "Lparen" && name != "Rparen" && name != "Assign" && name != "TokPos" && name != "Arrow" && name != "Opening" && name != "Closing" {
						f.SetInt(0)
					}
					continue
				}
				walk(f)
			}
		}
	}
	walk(reflect.ValueOf(n))
}
