package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis: every non-test package of the
// target module, type checked and lowered to SSA from its current source.
type Prog struct {
	Dir     string
	ModPath string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	SSAPkgs map[*types.Package]*ssa.Package
	renamed map[types.Object]string
	Funcs   []*ssa.Function // all source functions incl. closures, sorted
	inMod   map[*types.Package]bool
	byPath  map[string]*packages.Package

	impls map[*types.Func][]*ssa.Function         // interface method -> module implementations
	calls map[*ssa.Function][]ssa.CallInstruction // callers (module-resolved)

	cache map[string]interface{}
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	// dependencies outside the module come from export data
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, renamed: map[types.Object]string{}, SSAPkgs: map[*types.Package]*ssa.Package{}, inMod: map[*types.Package]bool{}, byPath: map[string]*packages.Package{}, cache: map[string]interface{}{}}
	var errs []string
	for _, k := range pkgs {
		for _, e := range k.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	for _, k := range pkgs {
		if k.Module != nil && p.ModPath == "" {
			p.ModPath = k.Module.Path
		}
		if len(k.Syntax) == 0 {
			continue
		}
		p.Pkgs = append(p.Pkgs, k)
		p.inMod[k.Types] = true
		p.byPath[k.PkgPath] = k
		p.Fset = k.Fset
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", dir)
	}
	prog, spkgs := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.Pkgs[i].PkgPath)
		}
		p.SSAPkgs[sp.Pkg] = sp
	}
	p.collectFuncs()
	p.canonical()
	p.normalise()
	p.indexCalls()
	return p, nil
}

// canonical puts constants on the right of comparisons, and turns a > b into
// b < a.
func (p *Prog) canonical() {
	flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	for _, f := range p.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				return
			}
			_, cx := b.X.(*ssa.Const)
			_, cy := b.Y.(*ssa.Const)
			big := b.Op == token.GTR || b.Op == token.GEQ
			if op, cmp := flip[b.Op]; cmp && (cx && !cy || big && !cx && !cy) {
				b.X, b.Op, b.Y = b.Y, op, b.X
			}
		})
	}
}

func (p *Prog) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		if f.Synthetic != "" && f.Name() != "init" {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.SSAPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.SSA.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	// methods of types declared inside functions etc. are reached through AnonFuncs only
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.RelString(nil) != b.RelString(nil) {
			return a.RelString(nil) < b.RelString(nil)
		}
		return a.Pos() < b.Pos()
	})
}

// InModule reports whether fn is defined by the module under analysis.
func (p *Prog) InModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.inMod[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.inMod[o.Pkg()]
	}
	return false
}

// FName is a stable, module-relative function name.
func (p *Prog) FName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, p.ModPath+"/", "")
	return s
}

func (p *Prog) TName(t types.Type) string {
	return types.TypeString(t, func(k *types.Package) string { return k.Name() })
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// InstrPos finds a usable position for an instruction.
func (p *Prog) InstrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if r := v.Referrers(); r != nil {
			for _, x := range *r {
				if x.Pos().IsValid() {
					return p.Pos(x.Pos())
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return p.Pos((*op).Pos())
		}
	}
	if in.Parent() != nil {
		return p.Pos(in.Parent().Pos())
	}
	return "-"
}

// Pkg finds a module package by its path suffix ("xmp", "models/dc", ...).
func (p *Prog) Pkg(suffix string) *ssa.Package {
	for t, sp := range p.SSAPkgs {
		if t.Path() == p.ModPath+"/"+suffix {
			return sp
		}
	}
	return nil
}

// Named finds a named type.
func (p *Prog) Named(pkg, name string) *types.Named {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Func finds a package level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds a method (value or pointer receiver) of a named type.
func (p *Prog) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name || p.renamed[n.Method(i)] == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// NamedTypes lists all package-level named (non alias, non interface) types of the module.
func (p *Prog) NamedTypes() []*types.Named {
	var l []*types.Named
	for _, k := range p.Pkgs {
		sc := k.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok {
				l = append(l, nt)
			}
		}
	}
	return l
}

func (p *Prog) indexCalls() {
	p.impls = map[*types.Func][]*ssa.Function{}
	p.calls = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.Callees(c.Common()) {
						p.calls[t] = append(p.calls[t], c)
					}
				}
			}
		}
	}
}

// unwrap maps synthetic wrappers (promoted methods, bound methods, thunks) to the declared method.
func (p *Prog) unwrap(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if f.Synthetic != "" && f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			if g := p.SSA.FuncValue(fo); g != nil {
				return g
			}
		}
	}
	return f
}

// Callees resolves a call: the static callee, the closure being called, or -
// for interface calls - every module type's implementation.
func (p *Prog) Callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return p.Implementations(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{p.unwrap(f)}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	// function value: closures/functions of identical signature whose address is taken in the module
	return p.funcValues(c.Signature())
}

func (p *Prog) funcValues(sig *types.Signature) []*ssa.Function {
	var table []*ssa.Function
	if t, ok := p.cache["funcvalues"]; ok {
		table = t.([]*ssa.Function)
	} else {
		seen := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var calleeVal ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						calleeVal = c.Common().Value
					}
					first := true
					for _, op := range in.Operands(nil) {
						v := *op
						if v == nil {
							continue
						}
						if v == calleeVal && first {
							first = false
							if _, isFn := v.(*ssa.Function); isFn {
								continue
							}
						}
						var g *ssa.Function
						switch v := v.(type) {
						case *ssa.Function:
							g = v
						case *ssa.MakeClosure:
							g, _ = v.Fn.(*ssa.Function)
						}
						if g != nil {
							g = p.unwrap(g)
							if !seen[g] && p.InModule(g) {
								seen[g] = true
								table = append(table, g)
							}
						}
					}
				}
			}
		}
		sort.Slice(table, func(i, j int) bool { return table[i].RelString(nil) < table[j].RelString(nil) })
		p.cache["funcvalues"] = table
	}
	var out []*ssa.Function
	for _, g := range table {
		s := g.Signature
		if s.Recv() != nil {
			continue
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			out = append(out, g)
		}
	}
	return out
}

func (p *Prog) Implementations(m *types.Func) []*ssa.Function {
	if l, ok := p.impls[m]; ok {
		return l
	}
	var out []*ssa.Function
	sig := m.Type().(*types.Signature)
	recv := sig.Recv()
	if recv != nil {
		if it, ok := recv.Type().Underlying().(*types.Interface); ok {
			seen := map[*ssa.Function]bool{}
			for _, n := range p.NamedTypes() {
				if types.IsInterface(n) || n.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					if !types.Implements(t, it) {
						continue
					}
					sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
					if sel == nil {
						continue
					}
					if fo, ok := sel.Obj().(*types.Func); ok {
						if g := p.SSA.FuncValue(fo); g != nil && !seen[g] {
							seen[g] = true
							out = append(out, g)
						}
					}
				}
			}
		}
	}
	p.impls[m] = out
	return out
}

// Callers returns the module call sites of fn.
func (p *Prog) Callers(fn *ssa.Function) []ssa.CallInstruction { return p.calls[fn] }

// IsTestish: helper packages that are not part of the library proper.
func (p *Prog) libFunc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	path := strings.TrimPrefix(fn.Pkg.Pkg.Path(), p.ModPath+"/")
	return path == "xmp" || strings.HasPrefix(path, "models")
}

func (p *Prog) LibFuncs() []*ssa.Function {
	var l []*ssa.Function
	for _, f := range p.Funcs {
		if p.libFunc(f) {
			l = append(l, f)
		}
	}
	return l
}

func pathEnclosing(f *ast.File, pos token.Pos) ast.Node { return nil }

func eachInstr(f *ssa.Function, fn func(in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// storesTo lists the values stored directly into a local cell.
func storesTo(al *ssa.Alloc) (vals []*ssa.Store, simple bool) {
	simple = true
	if al.Referrers() == nil {
		return nil, true
	}
	for _, in := range *al.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == al {
				vals = append(vals, in)
			} else {
				simple = false
			}
		case *ssa.UnOp:
		case *ssa.DebugRef:
		default:
			simple = false
		}
	}
	return
}

// retValue resolves result i of a return statement: functions with defers
// return through local cells, which are looked through here. More than one
// value: any of them may be returned.
func retValues(ret *ssa.Return, i int) []ssa.Value {
	v := ret.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return []ssa.Value{v}
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return []ssa.Value{v}
	}
	st, simple := storesTo(al)
	if simple {
		// the last store in the returning block decides
		var last ssa.Value
		for _, in := range ret.Block().Instrs {
			if in == u {
				break
			}
			if s, ok := in.(*ssa.Store); ok && s.Addr == al {
				last = s.Val
			}
		}
		if last != nil {
			return []ssa.Value{last}
		}
	}
	var out []ssa.Value
	for _, s := range st {
		out = append(out, s.Val)
	}
	if !simple || len(out) == 0 {
		out = append(out, v)
	}
	return out
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// OwnerNames names f and, when f is a closure or an unexported helper, the
// functions of the same package that call it (two levels): exceptions stated
// for a function also cover the parts of it moved into helpers.
func (p *Prog) OwnerNames(f *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function, d int)
	add = func(f *ssa.Function, d int) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, p.FName(f))
		if d == 0 {
			return
		}
		if f.Parent() != nil {
			add(f.Parent(), d)
			return
		}
		if o := f.Object(); o == nil || o.Exported() {
			return
		}
		for _, c := range p.Callers(f) {
			g := c.Parent()
			if g != nil && g.Pkg == f.Pkg {
				add(g, d-1)
			}
		}
	}
	add(f, 2)
	return out
}
