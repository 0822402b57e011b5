// refac rewrites a Go module in place without changing what it does. It is a
// development tool: the checks are run on its output, and have to stay quiet.
//
//	refac -dir DIR -kind invert,temp,...
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type rw struct {
	pkg  *packages.Package
	info *types.Info
	file *ast.File
	n    int
	cnt  int
}

var every = flag.Int("every", 1, "apply at every n-th place only")
var phase = flag.Int("phase", 0, "which of the n places")

// pick: is this place one of those chosen.
func (r *rw) pick() bool {
	r.n++
	if (r.n+*phase)%*every != 0 {
		return false
	}
	r.cnt++
	return true
}

func (r *rw) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s%d", s, r.n))
}

var kinds = map[string]func(r *rw){
	"invert":  invert,
	"else":    elseRest,
	"switch":  switchToIf,
	"range":   rangeToIndex,
	"temp":    tempReturn,
	"args":    tempArgs,
	"wrap":    wrapFuncs,
	"opassn":  opAssign,
	"forcond": forCond,
	"ifinit":  ifInit,
	"split":   splitAnd,
	"morgan":  deMorgan,
	"flip":    flip,
	"fields":  fieldwise,
	"rename":  renameLocals,
	"unexp":   renameUnexported,
	"fnname":  func(r *rw) { renameObj(r, true) },
	"reorder": reorder,
	"condvar": condVar,
	"noop":    noop,
	"lenzero": lenZero,
	"closure": closure,
	"body":    extractBody,
	"recv":    recvTemp,
	"join":    joinIfs,
	"tosw":    ifToSwitch,
	"vardecl": varDecl,
	"named":   namedResults,
	"loopfn":  loopFn,
	"sel":     selTemp,
	"pred":    predicate,
	"tail":    tailFn,
	"cont":    contNest,
	"splice":  spliceCopy,
	"cmpz":    cmpZero,
	"clone":   cloneSlice,
	"swap":    swapStmts,
	"while":   whileLoop,
	"errret":  errRet,
	"early":   earlyReturn,
	"zerov":   zeroVar,
	"loopex":  extractLoop,
}

func main() {
	dir := flag.String("dir", "", "module to rewrite")
	kind := flag.String("kind", "", "rewrites, comma separated")
	flag.Parse()
	if *dir == "" || *kind == "" {
		var l []string
		for k := range kinds {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		os.Exit(2)
	}
	for _, k := range strings.Split(*kind, ",") {
		fn := kinds[k]
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no such rewrite", k)
			os.Exit(2)
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		n := 0
		for _, p := range pkgs {
			if len(p.Errors) > 0 {
				fmt.Fprintln(os.Stderr, p.Errors)
				os.Exit(2)
			}
			if strings.Contains(p.PkgPath, "/test") || strings.Contains(p.PkgPath, "/cmd") {
				continue
			}
			r := &rw{pkg: p, info: p.TypesInfo}
			for _, f := range p.Syntax {
				if strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_test.go") {
					continue
				}
				r.file = f
				fn(r)
			}
			n += r.cnt
			for _, f := range p.Syntax {
				write(p, f)
			}
		}
		fmt.Println(k, n)
	}
}

func write(p *packages.Package, f *ast.File) {
	name := p.Fset.Position(f.Package).Filename
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	var buf bytes.Buffer
	if err := format.Node(&buf, p.Fset, f); err != nil {
		fmt.Fprintln(os.Stderr, name, err)
		os.Exit(2)
	}
	if err := os.WriteFile(name, buf.Bytes(), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func not(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return not(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		if op, ok := negated[x.Op]; ok {
			return &ast.BinaryExpr{X: x.X, Op: op, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: paren(e)}
}

var negated = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.BinaryExpr:
		return &ast.ParenExpr{X: e}
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) bool { return b != nil }

// terminates: control never runs past the end of the list.
func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK || x.Tok == token.GOTO
	case *ast.BlockStmt:
		return terminates(x.List)
	case *ast.IfStmt:
		e, ok := x.Else.(*ast.BlockStmt)
		if !ok {
			if ei, is := x.Else.(*ast.IfStmt); is {
				return terminates(x.Body.List) && terminates([]ast.Stmt{ei})
			}
			return false
		}
		return terminates(x.Body.List) && terminates(e.List)
	}
	return false
}

// lists calls f on every statement list.
func (r *rw) lists(f func(l []ast.Stmt) []ast.Stmt) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		case *ast.CommClause:
			x.Body = f(x.Body)
		}
		return true
	})
}

// invert: if c {A} else {B}  ->  if !c {B} else {A}
func invert(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		x, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		if e, ok := x.Else.(*ast.BlockStmt); ok && r.pick() {
			x.Cond = not(x.Cond)
			x.Body, x.Else = e, x.Body
		}
		return true
	})
}

// elseRest: if c {...; return}; rest  ->  if c {...; return} else {rest}
func elseRest(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		for i, s := range l {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Else != nil || i+1 >= len(l) || !terminates(x.Body.List) || !terminates(l[i+1:]) {
				continue
			}
			if hasLabel(l[i+1:]) || !r.pick() {
				continue
			}
			x.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
			return l[:i+1]
		}
		return l
	})
}

func hasLabel(l []ast.Stmt) bool {
	for _, s := range l {
		if _, ok := s.(*ast.LabeledStmt); ok {
			return true
		}
	}
	return false
}

// breaks: the list has a break that belongs to the enclosing switch.
func breaks(l []ast.Stmt) bool {
	found := false
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if (x.Tok == token.BREAK && x.Label == nil) || x.Tok == token.FALLTHROUGH {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

// switchToIf: switch without break or fallthrough -> chain of ifs.
func switchToIf(r *rw) {
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.SwitchStmt)
		if !ok || len(x.Body.List) == 0 {
			return true
		}
		if _, lab := c.Parent().(*ast.LabeledStmt); lab {
			return true
		}
		var def *ast.CaseClause
		for _, s := range x.Body.List {
			cc := s.(*ast.CaseClause)
			if breaks(cc.Body) {
				return true
			}
			if cc.List == nil {
				def = cc
			}
		}
		if def != nil && def != x.Body.List[len(x.Body.List)-1] {
			return true
		}
		if !r.pick() {
			return true
		}
		var pre []ast.Stmt
		if x.Init != nil {
			pre = append(pre, x.Init)
		}
		tag := x.Tag
		if tag != nil && !simple(tag) {
			id := r.fresh("tag")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}})
			tag = id
		}
		var els ast.Stmt
		if def != nil {
			els = &ast.BlockStmt{List: def.Body}
		}
		for i := len(x.Body.List) - 1; i >= 0; i-- {
			cc := x.Body.List[i].(*ast.CaseClause)
			if cc.List == nil {
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				t := e
				if tag != nil {
					t = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: paren(e)}
				}
				if cond == nil {
					cond = t
				} else {
					cond = &ast.BinaryExpr{X: paren2(cond, token.LOR), Op: token.LOR, Y: paren2(t, token.LOR)}
				}
			}
			els = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}, Else: els}
		}
		if els == nil {
			return true
		}
		if len(pre) > 0 || c.Index() < 0 {
			c.Replace(&ast.BlockStmt{List: append(pre, els)})
		} else {
			c.Replace(els)
		}
		return true
	})
}

func paren2(e ast.Expr, op token.Token) ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op.Precedence() < op.Precedence() {
		return &ast.ParenExpr{X: e}
	}
	return e
}

func (r *rw) assigned(body ast.Node, e ast.Expr) bool {
	want := types.ExprString(e)
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				s := types.ExprString(l)
				if s == want || strings.HasPrefix(want, s+".") || strings.HasPrefix(s, want) {
					found = true
				}
			}
		case *ast.CallExpr:
			// a method of a part of it may change it
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				b := types.ExprString(s.X)
				if b == want || strings.HasPrefix(want, b+".") {
					found = true
				}
			}
			for _, a := range x.Args {
				b := types.ExprString(a)
				if strings.HasPrefix(want, b+".") || b == "&"+want {
					found = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && types.ExprString(x.X) == want {
				found = true
			}
		}
		return true
	})
	return found
}

// rangeToIndex: for i, v := range x -> for i := 0; i < len(x); i++ { v := x[i]; ... }
func rangeToIndex(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		var l []ast.Stmt
		if ok {
			l = b.List
		} else if cc, is := n.(*ast.CaseClause); is {
			l = cc.Body
		} else {
			return true
		}
		for i, s := range l {
			x, ok := s.(*ast.RangeStmt)
			if !ok || x.Tok != token.DEFINE || !simple(x.X) {
				continue
			}
			t := r.info.TypeOf(x.X)
			if t == nil {
				continue
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				continue
			}
			if r.assigned(x.Body, x.X) || !r.pick() {
				continue
			}
			key, ok := x.Key.(*ast.Ident)
			if !ok || key.Name == "_" {
				key = r.fresh("i")
			} else if r.assigned(x.Body, key) {
				continue
			}
			if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
				x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: x.X, Index: key}}}}, x.Body.List...)
			}
			l[i] = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: key, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{x.X}}},
				Post: &ast.IncDecStmt{X: key, Tok: token.INC},
				Body: x.Body,
			}
		}
		return true
	})
}

// tempReturn: return f(x) -> r := f(x); return r
func tempReturn(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 {
				out = append(out, s)
				continue
			}
			c, ok := x.Results[0].(*ast.CallExpr)
			if !ok || !r.pick() {
				out = append(out, s)
				continue
			}
			n := 1
			if t, ok := r.info.TypeOf(c).(*types.Tuple); ok {
				n = t.Len()
			} else if t := r.info.TypeOf(c); t == nil || isUntyped(t) {
				out = append(out, s)
				continue
			}
			var ids []ast.Expr
			for i := 0; i < n; i++ {
				ids = append(ids, r.fresh("res"))
			}
			out = append(out, &ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: []ast.Expr{c}}, &ast.ReturnStmt{Results: ids})
		}
		return out
	})
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.FuncLit:
		return true
	case *ast.UnaryExpr:
		return x.Op == token.AND && pure(x.X)
	}
	return false
}

// tempArgs: f(g(x)) -> a := g(x); f(a), when the other operands are plain.
func tempArgs(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			var c *ast.CallExpr
			switch x := s.(type) {
			case *ast.ExprStmt:
				c, _ = x.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && (x.Tok == token.DEFINE || allPure(x.Lhs)) {
					c, _ = x.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					c, _ = x.Results[0].(*ast.CallExpr)
				}
			}
			if c != nil && pure(c.Fun) && r.pick() {
				for i, a := range c.Args {
					ac, ok := a.(*ast.CallExpr)
					if !ok {
						if !pure(a) {
							break
						}
						continue
					}
					t := r.info.TypeOf(ac)
					if t == nil || isUntyped(t) {
						break
					}
					if _, tup := t.(*types.Tuple); tup {
						break
					}
					if tv, ok := r.info.Types[ac]; ok && tv.Value != nil {
						break
					}
					id := r.fresh("arg")
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
					c.Args[i] = id
				}
			}
			out = append(out, s)
		}
		return out
	})
}

func allPure(l []ast.Expr) bool {
	for _, e := range l {
		if !pure(e) {
			return false
		}
	}
	return true
}

// wrapFuncs: func (x T) M(a) R {body} -> M calls mInner, which has the body.
func wrapFuncs(r *rw) {
	var add []ast.Decl
	for _, d := range r.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Name.Name == "init" || f.Name.Name == "main" || f.Name.Name == "_" || f.Type.TypeParams != nil {
			continue
		}
		if len(f.Body.List) < 3 || !r.pick() {
			continue
		}
		usesRecover := false
		ast.Inspect(f.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == "recover" {
				usesRecover = true
			}
			return true
		})
		if usesRecover {
			continue
		}
		var args []ast.Expr
		ell := token.NoPos
		i := 0
		good := true
		for _, p := range f.Type.Params.List {
			if len(p.Names) == 0 {
				p.Names = []*ast.Ident{ast.NewIdent("_")}
			}
			for k, n := range p.Names {
				if n.Name == "_" {
					p.Names[k] = ast.NewIdent(fmt.Sprintf("unused%d", i))
				}
				i++
				args = append(args, ast.NewIdent(p.Names[k].Name))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
		if !good {
			continue
		}
		inner := ast.NewIdent(strings.ToLower(f.Name.Name[:1]) + f.Name.Name[1:] + "Inner")
		var fun ast.Expr = inner
		if f.Recv != nil {
			rf := f.Recv.List[0]
			if len(rf.Names) == 0 || rf.Names[0].Name == "_" {
				continue
			}
			fun = &ast.SelectorExpr{X: ast.NewIdent(rf.Names[0].Name), Sel: inner}
		}
		in := &ast.FuncDecl{Recv: f.Recv, Name: inner, Type: f.Type, Body: f.Body}
		call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
		// the outer function must not have named results
		ty := &ast.FuncType{Params: f.Type.Params}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if f.Type.Results != nil && len(f.Type.Results.List) > 0 {
			res := &ast.FieldList{}
			for _, p := range f.Type.Results.List {
				k := len(p.Names)
				if k == 0 {
					k = 1
				}
				for ; k > 0; k-- {
					res.List = append(res.List, &ast.Field{Type: p.Type})
				}
			}
			ty.Results = res
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		f.Type, f.Body = ty, &ast.BlockStmt{List: []ast.Stmt{st}}
		add = append(add, in)
	}
	r.file.Decls = append(r.file.Decls, add...)
}

// opAssign: x += y -> x = x + y; i++ -> i += 1
func opAssign(r *rw) {
	ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.MUL_ASSIGN: token.MUL}
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.AssignStmt:
			if op, ok := ops[x.Tok]; ok && simple(x.Lhs[0]) && r.pick() {
				x.Tok = token.ASSIGN
				x.Rhs[0] = &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: paren(x.Rhs[0])}
			}
		case *ast.IncDecStmt:
			if r.pick() {
				t := token.ADD_ASSIGN
				if x.Tok == token.DEC {
					t = token.SUB_ASSIGN
				}
				c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: t, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}})
			}
		}
		return true
	})
}

// forCond: for c {A} -> for { if !c {break}; A }
func forCond(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		x, ok := n.(*ast.ForStmt)
		if !ok || x.Cond == nil || !r.pick() {
			return true
		}
		x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, x.Body.List...)
		x.Cond = nil
		return true
	})
}

// ifInit: if a := f(); c {A} -> { a := f(); if c {A} }
func ifInit(r *rw) {
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.IfStmt)
		if !ok || x.Init == nil {
			return true
		}
		if !r.pick() {
			return true
		}
		init := x.Init
		x.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{init, x}})
		return true
	})
}

// splitAnd: if a && b {A} -> if a { if b {A} }
func splitAnd(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		x, ok := n.(*ast.IfStmt)
		if !ok || x.Else != nil {
			return true
		}
		b, ok := x.Cond.(*ast.BinaryExpr)
		if ok && b.Op == token.LAND && r.pick() {
			x.Cond = b.X
			x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}
		}
		return true
	})
}

// deMorgan: a && b -> !(!a || !b)
func deMorgan(r *rw) {
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR || !r.pick() {
			return true
		}
		op := token.LOR
		if b.Op == token.LOR {
			op = token.LAND
		}
		c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: pn(not(b.X)), Op: op, Y: pn(not(b.Y))}}})
		return true
	})
}

func pn(e ast.Expr) ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
		return &ast.ParenExpr{X: e}
	}
	return e
}

// flip: a < b -> b > a
func flip(r *rw) {
	ops := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	ast.Inspect(r.file, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		if op, ok := ops[b.Op]; ok && r.pick() {
			b.X, b.Op, b.Y = b.Y, op, b.X
		}
		return true
	})
}

// fieldwise: x := T{A: a} -> var x T; x.A = a   and  x := &T{A: a} -> x := &T{}; x.A = a
func fieldwise(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			out = append(out, s)
			x, ok := s.(*ast.AssignStmt)
			if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				continue
			}
			id, ok := x.Lhs[0].(*ast.Ident)
			e := x.Rhs[0]
			if u, is := e.(*ast.UnaryExpr); is && u.Op == token.AND {
				e = u.X
			}
			lit, is := e.(*ast.CompositeLit)
			if !ok || !is || len(lit.Elts) == 0 {
				continue
			}
			if _, st := r.info.TypeOf(lit).Underlying().(*types.Struct); !st {
				continue
			}
			good := true
			for _, el := range lit.Elts {
				if _, kv := el.(*ast.KeyValueExpr); !kv {
					good = false
				}
			}
			if !good || !r.pick() {
				continue
			}
			for _, el := range lit.Elts {
				kv := el.(*ast.KeyValueExpr)
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id, Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			lit.Elts = nil
		}
		return out
	})
}

// renameLocals: variables, parameters and receivers get other names.
func renameLocals(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" {
			return true
		}
		o := r.info.Uses[id]
		if o == nil {
			o = r.info.Defs[id]
		}
		v, ok := o.(*types.Var)
		if o == nil { // symbol of a type switch
			for k, imp := range r.info.Implicits {
				if cc, is := k.(*ast.CaseClause); is && imp.Name() == id.Name && cc != nil {
					if _, isv := imp.(*types.Var); isv && r.info.ObjectOf(id) == nil && isTypeSwitchSym(r.file, id) {
						id.Name += "Loc"
						return true
					}
				}
			}
			return true
		}
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == r.pkg.Types.Scope() || v.Parent() == types.Universe || v.Pkg() != r.pkg.Types {
			return true
		}
		r.cnt++
		id.Name += "Loc"
		return true
	})
}

func isTypeSwitchSym(f *ast.File, id *ast.Ident) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if ts, ok := n.(*ast.TypeSwitchStmt); ok {
			if a, ok := ts.Assign.(*ast.AssignStmt); ok && a.Lhs[0] == ast.Expr(id) {
				found = true
			}
		}
		return true
	})
	return found
}

// renameUnexported: package-level functions, methods, variables and fields
// that are not exported get other names.
func renameUnexported(r *rw) { renameObj(r, false) }

func renameObj(r *rw, funcs bool) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" || id.Name == "init" || id.Name == "main" || ast.IsExported(id.Name) {
			return true
		}
		o := r.info.ObjectOf(id)
		if o == nil || o.Pkg() != r.pkg.Types {
			return true
		}
		if _, ok := o.(*types.Func); !ok && funcs {
			return true
		}
		switch x := o.(type) {
		case *types.Func:
		case *types.Var:
			if !x.IsField() && x.Parent() != r.pkg.Types.Scope() {
				return true
			}
			if x.Embedded() {
				return true
			}
		case *types.Const:
			if x.Parent() != r.pkg.Types.Scope() {
				return true
			}
		default:
			return true
		}
		r.cnt++
		id.Name += "Pkg"
		return true
	})
}

// reorder: functions in reverse order.
func reorder(r *rw) {
	var fs, rest []ast.Decl
	for _, d := range r.file.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Name.Name != "init" {
			fs = append([]ast.Decl{f}, fs...)
		} else {
			rest = append(rest, d)
		}
	}
	// positions would make the printer mix lines up: drop them
	r.file.Decls = append(rest, fs...)
	r.cnt += len(fs)
}

// condVar: if c {..} -> ok := c; if ok {..}
func condVar(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.IfStmt)
			if ok && x.Init == nil {
				switch x.Cond.(type) {
				case *ast.BinaryExpr, *ast.UnaryExpr, *ast.CallExpr:
					if r.pick() {
						id := r.fresh("is")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Cond}})
						x.Cond = id
					}
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// noop: a statement that does nothing at the top of each body.
func noop(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || !r.pick() {
			return true
		}
		id := r.fresh("none")
		f.Body.List = append([]ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id}},
		}, f.Body.List...)
		return true
	})
}

// lenZero: s == "" -> len(s) == 0, and the reverse for strings.
func lenZero(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return true
		}
		y, ok := b.Y.(*ast.BasicLit)
		if !ok || y.Value != `""` || !r.pick() {
			return true
		}
		b.X = &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{b.X}}
		if b.Op == token.NEQ {
			b.Op = token.GTR
		}
		b.Y = &ast.BasicLit{Kind: token.INT, Value: "0"}
		return true
	})
}

// closure: the body of a loop or if of three or more statements that neither
// leaves the function nor the loop becomes a function literal called at once.
func closure(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		x, ok := n.(*ast.IfStmt)
		if !ok || len(x.Body.List) < 2 || leaves(x.Body) || !r.pick() {
			return true
		}
		x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: x.Body.List}}}}}}
		return true
	})
}

func leaves(b ast.Node) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		}
		return true
	})
	return found
}

// extractBody: the body of an if that neither leaves the function nor assigns
// to local variables becomes a new function of the package.
func extractBody(r *rw) {
	var add []ast.Decl
	qual := func(p *types.Package) string {
		if p == r.pkg.Types {
			return ""
		}
		return p.Name()
	}
	imported := map[string]bool{}
	for _, im := range r.file.Imports {
		imported[strings.Trim(im.Path.Value, `"`)] = im.Name == nil
	}
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			var blk *ast.BlockStmt
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.IfStmt:
				blk = x.Body
			case *ast.RangeStmt:
				blk = x.Body
			}
			if blk == nil || len(blk.List) < 1 || leaves(blk) {
				return true
			}
			var free []*types.Var
			seen := map[*types.Var]bool{}
			good := true
			ast.Inspect(blk, func(m ast.Node) bool {
				switch y := m.(type) {
				case *ast.Ident:
					v, ok := r.info.ObjectOf(y).(*types.Var)
					if r.info.ObjectOf(y) == nil {
						good = good && y.Name == "_" || y.Name == "len"
					}
					if !ok || v.IsField() || v.Pkg() != r.pkg.Types || v.Parent() == r.pkg.Types.Scope() || v.Parent() == nil {
						return true
					}
					if v.Pos() >= blk.Pos() && v.Pos() < blk.End() {
						return true
					}
					if !seen[v] {
						seen[v] = true
						free = append(free, v)
					}
				case *ast.AssignStmt:
					for _, l := range y.Lhs {
						if id, ok := base(l).(*ast.Ident); ok {
							if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Types.Scope() && !(v.Pos() >= blk.Pos() && v.Pos() < blk.End()) {
								good = false
							}
						}
					}
				case *ast.IncDecStmt:
					if _, ok := base(y.X).(*ast.Ident); ok {
						good = false
					}
				case *ast.UnaryExpr:
					if y.Op == token.AND {
						if id, ok := base(y.X).(*ast.Ident); ok {
							if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() {
								good = false
							}
						}
					}
				case *ast.CallExpr:
					// a method with pointer receiver on an addressable local
					if s, ok := y.Fun.(*ast.SelectorExpr); ok {
						if sel := r.info.Selections[s]; sel != nil {
							if _, isp := sel.Recv().(*types.Pointer); !isp {
								if f, ok := sel.Obj().(*types.Func); ok {
									if _, pr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); pr {
										good = false
									}
								}
							}
						}
					}
				}
				return true
			})
			var ps []*ast.Field
			var args []ast.Expr
			for _, v := range free {
				ts := typeText(v.Type(), qual)
				bad := strings.Contains(ts, "invalid") || isUntyped(v.Type())
				types.TypeString(v.Type(), func(p *types.Package) string {
					if p != r.pkg.Types && !imported[p.Path()] {
						bad = true
					}
					return p.Name()
				})
				if bad {
					good = false
				}
				ps = append(ps, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: ast.NewIdent(ts)})
				args = append(args, ast.NewIdent(v.Name()))
			}
			if !good || !r.pick() {
				return true
			}
			name := r.fresh("part" + strings.Title(fd.Name.Name))
			add = append(add, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}}, Body: &ast.BlockStmt{List: blk.List}})
			blk.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: name, Args: args}}}
			return false
		})
	}
	r.file.Decls = append(r.file.Decls, add...)
}

// base: the variable whose own storage the left-hand side changes.
func base(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return base(x.X)
	case *ast.SelectorExpr: // may be a pointer, cannot tell here: be careful
		return base(x.X)
	case *ast.IndexExpr:
		return base(x.X)
	case *ast.StarExpr:
		return nil
	}
	return e
}

// recvTemp: a.b.M(x) -> t := a.b; t.M(x) when a.b is a pointer
func recvTemp(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			var c *ast.CallExpr
			switch x := s.(type) {
			case *ast.ExprStmt:
				c, _ = x.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && (x.Tok == token.DEFINE || allPure(x.Lhs)) {
					c, _ = x.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					c, _ = x.Results[0].(*ast.CallExpr)
				}
			}
			if c != nil {
				if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
					if t := r.info.TypeOf(sel.X); t != nil {
						_, isp := t.Underlying().(*types.Pointer)
						_, isc := sel.X.(*ast.Ident)
						if isp && !isc && r.pick() {
							id := r.fresh("rcv")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{sel.X}})
							sel.X = id
						}
					}
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// joinIfs: if a { if b {A} } -> if a && b {A}
func joinIfs(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		x, ok := n.(*ast.IfStmt)
		if !ok || x.Else != nil || len(x.Body.List) != 1 {
			return true
		}
		y, ok := x.Body.List[0].(*ast.IfStmt)
		if !ok || y.Init != nil || y.Else != nil || !r.pick() {
			return true
		}
		x.Cond = &ast.BinaryExpr{X: paren2(x.Cond, token.LAND), Op: token.LAND, Y: paren2(y.Cond, token.LAND)}
		x.Body = y.Body
		return true
	})
}

// ifToSwitch: if c {A} else {B} -> switch { case c: A; default: B }
func ifToSwitch(r *rw) {
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.IfStmt)
		if !ok || x.Init != nil || c.Index() < 0 {
			return true
		}
		if t, ok := r.info.TypeOf(x.Cond).(*types.Basic); !ok || t == nil {
			return true
		}
		if breaks(x.Body.List) {
			return true
		}
		cl := []ast.Stmt{&ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List}}
		if x.Else != nil {
			b, ok := x.Else.(*ast.BlockStmt)
			if !ok || breaks(b.List) {
				return true
			}
			cl = append(cl, &ast.CaseClause{Body: b.List})
		}
		if !r.pick() {
			return true
		}
		c.Replace(&ast.SwitchStmt{Body: &ast.BlockStmt{List: cl}})
		return true
	})
}

// varDecl: x := v -> var x = v
func varDecl(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		for i, s := range l {
			x, ok := s.(*ast.AssignStmt)
			if !ok || x.Tok != token.DEFINE {
				continue
			}
			var ids []*ast.Ident
			for _, e := range x.Lhs {
				id := e.(*ast.Ident)
				if id.Name != "_" && r.info.Defs[id] == nil {
					ids = nil
					break
				}
				ids = append(ids, id)
			}
			if len(ids) == 0 || !r.pick() {
				continue
			}
			l[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: ids, Values: x.Rhs}}}}
		}
		return l
	})
}

// namedResults: func f() (T, error) {...return a, b} -> named results, set
// and returned bare.
func namedResults(r *rw) {
	for _, d := range r.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.Results == nil {
			continue
		}
		good := true
		for _, p := range f.Type.Results.List {
			if len(p.Names) > 0 {
				good = false
			}
		}
		if !good || !r.pick() {
			continue
		}
		var ids []ast.Expr
		for i, p := range f.Type.Results.List {
			id := ast.NewIdent(fmt.Sprintf("out%d", i))
			p.Names = []*ast.Ident{id}
			ids = append(ids, id)
		}
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			astutil.Apply(n, func(c *astutil.Cursor) bool {
				if _, ok := c.Node().(*ast.FuncLit); ok {
					return false
				}
				x, ok := c.Node().(*ast.ReturnStmt)
				if !ok || len(x.Results) == 0 {
					return true
				}
				if c.Index() < 0 {
					return true
				}
				c.InsertBefore(&ast.AssignStmt{Lhs: ids, Tok: token.ASSIGN, Rhs: x.Results})
				x.Results = nil
				return true
			}, nil)
		}
		walk(f.Body)
	}
}

// loopFn: a loop is left by a flag instead of a break: no, kept simple: the
// loop variable of a counting loop is declared before the loop.
func loopFn(r *rw) {
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.ForStmt)
		if !ok || x.Init == nil || c.Index() < 0 {
			return true
		}
		captured := false
		ast.Inspect(x.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				captured = true
			}
			return true
		})
		if captured || !r.pick() {
			return true
		}
		in := x.Init
		x.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, x}})
		return true
	})
}

// selTemp: the condition's call is evaluated into a variable first:
// if f(x) == y {..} -> v := f(x); if v == y {..}
func selTemp(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.IfStmt)
			if ok && x.Init == nil {
				if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op != token.LAND && b.Op != token.LOR {
					if c, ok := b.X.(*ast.CallExpr); ok {
						t := r.info.TypeOf(c)
						if t != nil && !isUntyped(t) && r.pick() {
							id := r.fresh("val")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{c}})
							b.X = id
						}
					}
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// free lists the local variables used in n but declared outside it; ok is
// false when n assigns to them, takes their address, or cannot be moved.
func (r *rw) free(n ast.Node, lo, hi token.Pos) (free []*types.Var, ok bool) {
	seen := map[*types.Var]bool{}
	ok = true
	local := func(v *types.Var) bool {
		return !v.IsField() && v.Pkg() == r.pkg.Types && v.Parent() != r.pkg.Types.Scope() && v.Parent() != nil
	}
	outer := func(e ast.Expr) bool {
		id, is := base(e).(*ast.Ident)
		if !is {
			return false
		}
		v, is := r.info.Uses[id].(*types.Var)
		return is && local(v) && !(v.Pos() >= lo && v.Pos() < hi)
	}
	byPtr := func(e ast.Expr) bool { // x.f = .. with x a pointer changes what it points to
		for {
			switch y := e.(type) {
			case *ast.SelectorExpr:
				e = y.X
			case *ast.IndexExpr:
				if t := r.info.TypeOf(y.X); t != nil {
					switch t.Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer:
						return true
					}
				}
				e = y.X
				continue
			case *ast.ParenExpr:
				e = y.X
				continue
			case *ast.StarExpr:
				return true
			default:
				return false
			}
			if t := r.info.TypeOf(e); t != nil {
				if _, isp := t.Underlying().(*types.Pointer); isp {
					return true
				}
			}
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch y := m.(type) {
		case *ast.Ident:
			o := r.info.ObjectOf(y)
			v, is := o.(*types.Var)
			if o == nil && y.Name != "_" {
				// symbol of a type switch, or made by a rewrite
				ok = false
			}
			if !is || !local(v) || v.Pos() >= lo && v.Pos() < hi {
				return true
			}
			if !seen[v] {
				seen[v] = true
				free = append(free, v)
			}
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if outer(l) && !byPtr(l) {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			if outer(y.X) && !byPtr(y.X) {
				ok = false
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && outer(y.X) && !byPtr(y.X) {
				ok = false
			}
		case *ast.SliceExpr:
			if t := r.info.TypeOf(y.X); t != nil {
				if _, arr := t.Underlying().(*types.Array); arr {
					ok = false
				}
			}
		case *ast.LabeledStmt:
			ok = false
		case *ast.CallExpr:
			if id, is := y.Fun.(*ast.Ident); is && id.Name == "recover" {
				ok = false
			}
			if s, is := y.Fun.(*ast.SelectorExpr); is {
				if sel := r.info.Selections[s]; sel != nil {
					if _, isp := sel.Recv().Underlying().(*types.Pointer); !isp && outer(s.X) && !byPtr(s.X) {
						if f, is := sel.Obj().(*types.Func); is {
							if _, pr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); pr {
								ok = false
							}
						}
					}
				}
			}
		}
		return true
	})
	return free, ok
}

// params: parameters and arguments for the variables.
func (r *rw) params(free []*types.Var) (ps []*ast.Field, args []ast.Expr, ok bool) {
	imported := map[string]bool{}
	for _, im := range r.file.Imports {
		imported[strings.Trim(im.Path.Value, "\"")] = im.Name == nil
	}
	ok = true
	for _, v := range free {
		ts := typeText(v.Type(), func(p *types.Package) string {
			if p == r.pkg.Types {
				return ""
			}
			if !imported[p.Path()] {
				ok = false
			}
			return p.Name()
		})
		if strings.Contains(ts, "invalid") || isUntyped(v.Type()) {
			ok = false
		}
		if n, is := v.Type().(*types.Named); is && n.Obj().Parent() != r.pkg.Types.Scope() && n.Obj().Pkg() == r.pkg.Types {
			ok = false
		}
		ps = append(ps, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: ast.NewIdent(ts)})
		args = append(args, ast.NewIdent(v.Name()))
	}
	return
}

// predicate: a condition becomes a function of its own.
func predicate(r *rw) {
	var add []ast.Decl
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			x, ok := n.(*ast.IfStmt)
			if !ok {
				return true
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			free, ok := r.free(b, b.Pos(), b.End())
			ps, args, ok2 := r.params(free)
			if !ok || !ok2 || len(free) == 0 || !r.pick() {
				return true
			}
			name := r.fresh("is" + strings.Title(fd.Name.Name))
			add = append(add, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{b}}}}})
			x.Cond = &ast.CallExpr{Fun: name, Args: args}
			return true
		})
	}
	r.file.Decls = append(r.file.Decls, add...)
}

// tailFn: the second half of a function becomes a function of its own.
func tailFn(r *rw) {
	var add []ast.Decl
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || len(fd.Body.List) < 4 || fd.Type.TypeParams != nil {
			continue
		}
		named, hasDefer := false, false
		if fd.Type.Results != nil {
			for _, f := range fd.Type.Results.List {
				named = named || len(f.Names) > 0
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.DeferStmt, *ast.LabeledStmt:
				hasDefer = true
			}
			return true
		})
		if named || hasDefer {
			continue
		}
		k := len(fd.Body.List) / 2
		rest := &ast.BlockStmt{List: fd.Body.List[k:]}
		lo, hi := rest.List[0].Pos(), fd.Body.End()
		free, _ := r.free(rest, lo, hi)
		// variables may be changed: nothing follows. But not captured ones.
		captured := false
		ast.Inspect(&ast.BlockStmt{List: fd.Body.List[:k]}, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.FuncLit:
				captured = true
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if _, ok := base(y.X).(*ast.Ident); ok {
						captured = true
					}
				}
			}
			return true
		})
		ps, args, ok2 := r.params(free)
		if captured || !ok2 || !r.pick() {
			continue
		}
		name := r.fresh("rest" + strings.Title(fd.Name.Name))
		res := fd.Type.Results
		add = append(add, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}, Results: res}, Body: rest})
		call := &ast.CallExpr{Fun: name, Args: args}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if res != nil && len(res.List) > 0 {
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body.List = append(append([]ast.Stmt{}, fd.Body.List[:k]...), st)
	}
	r.file.Decls = append(r.file.Decls, add...)
}

// extractLoop: a loop becomes a function; returns of an error inside it are
// passed on: for ... { if err {return err} } -> if err := f(); err != nil {return err}
func extractLoop(r *rw) {
	var add []ast.Decl
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.Results == nil || len(fd.Type.Results.List) != 1 || len(fd.Type.Results.List[0].Names) > 0 {
			continue
		}
		if id, ok := fd.Type.Results.List[0].Type.(*ast.Ident); !ok || id.Name != "error" {
			continue
		}
		var do func(l []ast.Stmt)
		do = func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.BlockStmt:
					do(x.List)
					continue
				case *ast.IfStmt:
					do(x.Body.List)
					continue
				case *ast.RangeStmt, *ast.ForStmt:
				default:
					continue
				}
				free, ok := r.free(s, s.Pos(), s.End())
				ps, args, ok2 := r.params(free)
				bad := false
				nilret := false
				depth := 0
				var walk func(n ast.Node)
				walk = func(n ast.Node) {
					ast.Inspect(n, func(m ast.Node) bool {
						switch y := m.(type) {
						case *ast.FuncLit:
							return false
						case *ast.DeferStmt:
							bad = true
						case *ast.ReturnStmt:
							if len(y.Results) != 1 {
								bad = true
							} else if id, ok := y.Results[0].(*ast.Ident); ok && id.Name == "nil" {
								nilret = true
							} else if c, ok := y.Results[0].(*ast.CallExpr); ok {
								if f, ok := c.Fun.(*ast.SelectorExpr); !ok || f.Sel.Name != "Errorf" {
									nilret = true // may succeed
								}
							}
						}
						return true
					})
				}
				_ = depth
				walk(s)
				if !ok || !ok2 || bad || nilret || !r.pick() {
					continue
				}
				name := r.fresh("each" + strings.Title(fd.Name.Name))
				add = append(add, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("error")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{s, &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("nil")}}}}})
				e := ast.NewIdent("err")
				l[i] = &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: name, Args: args}}}, Cond: &ast.BinaryExpr{X: e, Op: token.NEQ, Y: ast.NewIdent("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}}}
			}
		}
		do(fd.Body.List)
	}
	r.file.Decls = append(r.file.Decls, add...)
}

// contNest: if c {continue}; rest -> if !c {rest}
func contNest(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		default:
			return true
		}
		for i, s := range b.List {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Else != nil || x.Init != nil || len(x.Body.List) != 1 || i+1 >= len(b.List) {
				continue
			}
			br, ok := x.Body.List[0].(*ast.BranchStmt)
			if !ok || br.Tok != token.CONTINUE || br.Label != nil || hasLabel(b.List[i+1:]) || !r.pick() {
				continue
			}
			x.Cond = not(x.Cond)
			x.Body = &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
			b.List = b.List[:i+1]
			break
		}
		return true
	})
}

// spliceCopy: x = append(x[:i], x[i+1:]...) -> copy(x[i:], x[i+1:]); x = x[:len(x)-1]
func spliceCopy(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.AssignStmt)
			if ok && len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ASSIGN {
				c, ok := x.Rhs[0].(*ast.CallExpr)
				if ok && c.Ellipsis.IsValid() && len(c.Args) == 2 {
					a, ok1 := c.Args[0].(*ast.SliceExpr)
					b, ok2 := c.Args[1].(*ast.SliceExpr)
					if ok1 && ok2 && types.ExprString(a.X) == types.ExprString(b.X) && a.Low == nil && b.High == nil && types.ExprString(b.Low) == types.ExprString(a.High)+" + 1" && strings.Trim(types.ExprString(x.Lhs[0]), "()") == strings.Trim(types.ExprString(a.X), "()") && simple(a.High) && r.pick() {
						out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("copy"), Args: []ast.Expr{
							&ast.SliceExpr{X: a.X, Low: a.High}, b}}})
						out = append(out, &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.SliceExpr{X: a.X, High: &ast.BinaryExpr{X: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{a.X}}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}})
						continue
					}
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// cmpZero: x > -1 -> x >= 0; len(x) > 0 -> len(x) != 0; x == -1 -> x < 0 for
// what strings.Index and the like return.
func cmpZero(r *rw) {
	ast.Inspect(r.file, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		y := types.ExprString(b.Y)
		isLen := strings.HasPrefix(types.ExprString(b.X), "len(")
		switch {
		case b.Op == token.GTR && y == "-1" && r.pick():
			b.Op, b.Y = token.GEQ, &ast.BasicLit{Kind: token.INT, Value: "0"}
		case b.Op == token.LSS && y == "0" && isInt(r.info.TypeOf(b.X)) && r.pick():
			b.Op, b.Y = token.LEQ, &ast.BasicLit{Kind: token.INT, Value: "-1"}
		case b.Op == token.GTR && y == "0" && isLen && r.pick():
			b.Op = token.NEQ
		case b.Op == token.EQL && y == "0" && isLen && r.pick():
			b.Op, b.Y = token.LSS, &ast.BasicLit{Kind: token.INT, Value: "1"}
		case b.Op == token.GTR && isLit(b.Y) && isInt(r.info.TypeOf(b.X)) && y != "0" && r.pick():
			b.Op, b.Y = token.GEQ, &ast.BinaryExpr{X: b.Y, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
		}
		return true
	})
}

func isLit(e ast.Expr) bool {
	_, ok := e.(*ast.BasicLit)
	return ok
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// cloneSlice: y := make([]T, len(x)); copy(y, x) -> y := append(make([]T, 0, len(x)), x...)
func cloneSlice(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for i := 0; i < len(l); i++ {
			x, ok := l[i].(*ast.AssignStmt)
			if ok && i+1 < len(l) && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				m, ok1 := x.Rhs[0].(*ast.CallExpr)
				e, ok2 := l[i+1].(*ast.ExprStmt)
				if ok1 && ok2 && types.ExprString(m.Fun) == "make" && len(m.Args) == 2 {
					c, ok := e.X.(*ast.CallExpr)
					if ok && types.ExprString(c.Fun) == "copy" && types.ExprString(c.Args[0]) == types.ExprString(x.Lhs[0]) && types.ExprString(m.Args[1]) == "len("+types.ExprString(c.Args[1])+")" && r.pick() {
						x.Rhs[0] = &ast.CallExpr{Fun: ast.NewIdent("append"), Args: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent("make"), Args: []ast.Expr{m.Args[0], &ast.BasicLit{Kind: token.INT, Value: "0"}, m.Args[1]}}, c.Args[1]}, Ellipsis: 1}
						out = append(out, x)
						i++
						continue
					}
				}
			}
			out = append(out, l[i])
		}
		return out
	})
}

// swapStmts: two neighbouring definitions of plain values change places.
func swapStmts(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		for i := 0; i+1 < len(l); i++ {
			a, ok1 := l[i].(*ast.AssignStmt)
			b, ok2 := l[i+1].(*ast.AssignStmt)
			if !ok1 || !ok2 || len(a.Lhs) != 1 || len(b.Lhs) != 1 || len(a.Rhs) != 1 || len(b.Rhs) != 1 {
				continue
			}
			if a.Tok != token.DEFINE && a.Tok != token.ASSIGN || b.Tok != a.Tok {
				continue
			}
			quiet := func(e ast.Expr) bool {
				q := true
				ast.Inspect(e, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.CallExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.UnaryExpr:
						q = false
					}
					return true
				})
				return q
			}
			if !quiet(a.Rhs[0]) || !quiet(b.Rhs[0]) || !quiet(a.Lhs[0]) || !quiet(b.Lhs[0]) {
				continue
			}
			al, bl := types.ExprString(a.Lhs[0]), types.ExprString(b.Lhs[0])
			ar, br := types.ExprString(a.Rhs[0]), types.ExprString(b.Rhs[0])
			if strings.Contains(br, al) || strings.Contains(ar, bl) || strings.Contains(al, bl) || strings.Contains(bl, al) || !r.pick() {
				continue
			}
			l[i], l[i+1] = l[i+1], l[i]
			i++
		}
		return l
	})
}

// whileLoop: for i := 0; c; i++ {A} without continue -> i := 0; for c {A; i++}
func whileLoop(r *rw) {
	astutil.Apply(r.file, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.ForStmt)
		if !ok || x.Init == nil || x.Post == nil || c.Index() < 0 {
			return true
		}
		bad := false
		ast.Inspect(x.Body, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.FuncLit:
				bad = true
			case *ast.BranchStmt:
				if y.Tok == token.CONTINUE {
					bad = true
				}
			}
			return true
		})
		if bad || !r.pick() {
			return true
		}
		in, post := x.Init, x.Post
		x.Init, x.Post = nil, nil
		x.Body.List = append(x.Body.List, post)
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, x}})
		return true
	})
}

// errRet: if err := f(); err != nil {return err}; return nil -> return f()
func errRet(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		if len(l) < 2 {
			return l
		}
		x, ok := l[len(l)-2].(*ast.IfStmt)
		ret, ok2 := l[len(l)-1].(*ast.ReturnStmt)
		if !ok || !ok2 || x.Init == nil || x.Else != nil || len(ret.Results) != 1 || types.ExprString(ret.Results[0]) != "nil" || types.ExprString(x.Cond) != "err != nil" || len(x.Body.List) != 1 {
			return l
		}
		in, ok := x.Init.(*ast.AssignStmt)
		r2, ok2 := x.Body.List[0].(*ast.ReturnStmt)
		if !ok || !ok2 || len(in.Lhs) != 1 || len(r2.Results) != 1 || types.ExprString(r2.Results[0]) != "err" || !r.pick() {
			return l
		}
		return append(append([]ast.Stmt{}, l[:len(l)-2]...), &ast.ReturnStmt{Results: []ast.Expr{in.Rhs[0]}})
	})
}

// earlyReturn: func f() { if c {A} } -> func f() { if !c {return}; A }
func earlyReturn(r *rw) {
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || len(fd.Body.List) == 0 {
			continue
		}
		n := len(fd.Body.List)
		var ret ast.Stmt
		at := n - 1
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			rs, ok := fd.Body.List[n-1].(*ast.ReturnStmt)
			if !ok || n < 2 {
				continue
			}
			for _, e := range rs.Results {
				if !pure(e) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			ret = rs
			at = n - 2
		} else {
			ret = &ast.ReturnStmt{}
		}
		x, ok := fd.Body.List[at].(*ast.IfStmt)
		if !ok || x.Else != nil || x.Init != nil || hasLabel(x.Body.List) || !r.pick() {
			continue
		}
		// names declared in the body must not hide those returned
		body := x.Body.List
		x.Cond = not(x.Cond)
		x.Body = &ast.BlockStmt{List: []ast.Stmt{ret}}
		out := append(append([]ast.Stmt{}, fd.Body.List[:at+1]...), &ast.BlockStmt{List: body})
		if at == n-2 && !terminates(body) {
			out = append(out, ret)
		}
		fd.Body.List = out
	}
}

// zeroVar: x := "" -> var x string, i := 0 -> var i int, x := false -> var x bool
func zeroVar(r *rw) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		for i, s := range l {
			x, ok := s.(*ast.AssignStmt)
			if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				continue
			}
			t := map[string]string{"\"\"": "string", "0": "int", "false": "bool"}[types.ExprString(x.Rhs[0])]
			if t == "" || !r.pick() {
				continue
			}
			l[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{x.Lhs[0].(*ast.Ident)}, Type: ast.NewIdent(t)}}}}
		}
		return l
	})
}

// typeText: the type as it is written in a module of an old Go version.
func typeText(t types.Type, qual types.Qualifier) string {
	return anyWord.ReplaceAllString(types.TypeString(t, qual), "interface{}")
}

var anyWord = regexp.MustCompile(`\bany\b`)
