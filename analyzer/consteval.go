package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation over SSA with bounded call inlining. Values are
// abstract: a Go constant, a namespace object (identified by where it is
// created), a function, or a dynamic type of an interface value. Nothing is executed.

type nsInfo struct {
	Prefix, URI string
	Factory     *ssa.Function // nil when the namespace has no model
	Unresolved  bool
	Global      *ssa.Global
	Pos         string
	Pkg         string
	Site        ssa.Instruction
	Registered  bool
}

type aval struct {
	k     constant.Value
	ns    *nsInfo
	isNil bool
	dyn   types.Type // dynamic type of an interface value
	fn    *ssa.Function
}

type env struct {
	args  map[*ssa.Parameter]*aval
	up    *env
	depth int
}

type consteval struct {
	p      *Prog
	nss    []*nsInfo
	byGlob map[*ssa.Global]*nsInfo
	bySite map[ssa.Value]*nsInfo
}

func (p *Prog) CE() *consteval {
	if c, ok := p.cache["ce"]; ok {
		return c.(*consteval)
	}
	c := &consteval{p: p, byGlob: map[*ssa.Global]*nsInfo{}, bySite: map[ssa.Value]*nsInfo{}}
	p.cache["ce"] = c
	c.collect()
	return c
}

// globalInit returns the single value stored to a global, if there is exactly one store in the module.
func (p *Prog) globalStores(g *ssa.Global) []ssa.Value {
	var tab map[*ssa.Global][]ssa.Value
	if t, ok := p.cache["gstores"]; ok {
		tab = t.(map[*ssa.Global][]ssa.Value)
	} else {
		tab = map[*ssa.Global][]ssa.Value{}
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if gg, ok := st.Addr.(*ssa.Global); ok {
						tab[gg] = append(tab[gg], st.Val)
					}
				}
			})
		}
		p.cache["gstores"] = tab
	}
	return tab[g]
}

func (c *consteval) nsType() *types.Named { return c.p.Named("xmp", "Namespace") }

func (c *consteval) collect() {
	p := c.p
	nt := c.nsType()
	newNs := p.Func("xmp", "NewNamespace")
	if nt == nil {
		return
	}
	mk := func(site ssa.Instruction, prefix, uri, fac *aval) *nsInfo {
		n := &nsInfo{Pos: p.InstrPos(site), Site: site, Pkg: site.Parent().Pkg.Pkg.Path()}
		if prefix == nil || prefix.k == nil || uri == nil || uri.k == nil {
			n.Unresolved = true
		} else {
			n.Prefix = constant.StringVal(prefix.k)
			n.URI = constant.StringVal(uri.k)
		}
		if fac != nil {
			n.Factory = fac.fn
		}
		return n
	}
	// calls of the constructor
	var fromCall func(call ssa.CallInstruction, e *env, top ssa.Instruction, depth int) *nsInfo
	fromCall = func(call ssa.CallInstruction, e *env, top ssa.Instruction, depth int) *nsInfo {
		a := call.Common().Args
		if len(a) < 3 {
			return nil
		}
		return mk(top, c.eval(a[0], e), c.eval(a[1], e), c.eval(a[2], e))
	}
	add := func(n *nsInfo) {
		if n != nil {
			c.nss = append(c.nss, n)
			if v, ok := n.Site.(ssa.Value); ok {
				c.bySite[v] = n
			}
		}
	}
	var expand func(call ssa.CallInstruction, depth int)
	expand = func(call ssa.CallInstruction, depth int) {
		fn := call.Parent()
		usesParam := false
		for _, a := range call.Common().Args {
			if _, ok := a.(*ssa.Parameter); ok {
				usesParam = true
			}
		}
		if !usesParam || depth == 0 {
			add(fromCall(call, &env{}, call.(ssa.Instruction), 0))
			return
		}
		// helper: one namespace per caller of the helper
		for _, cc := range p.Callers(fn) {
			e := &env{args: map[*ssa.Parameter]*aval{}}
			for i, prm := range fn.Params {
				if i < len(cc.Common().Args) {
					e.args[prm] = c.eval(cc.Common().Args[i], &env{})
				}
			}
			add(fromCall(call, e, cc.(ssa.Instruction), depth-1))
		}
	}
	if newNs != nil {
		for _, call := range p.Callers(newNs) {
			if p.libFunc(call.Parent()) {
				expand(call, 1)
			}
		}
	}
	// literals in package initialisers
	for _, f := range p.LibFuncs() {
		if f.Name() != "init" || f.Synthetic == "" {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || !al.Heap || !types.Identical(deref(al.Type()), nt) {
				return
			}
			vals := map[string]*aval{}
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, rr := range *fa.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
							vals[fieldName(fa)] = c.eval(st.Val, &env{})
						}
					}
				}
			}
			add(mk(al, vals["Name"], vals["URI"], vals["Factory"]))
		})
	}
	// bind to globals
	for _, f := range p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					if n := c.bySite[st.Val]; n != nil {
						n.Global = g
						c.byGlob[g] = n
					}
				}
			}
		})
	}
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

func fieldNameV(f *ssa.Field) string {
	st, ok := f.X.Type().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(f.Field).Name()
}

// nsSet: all namespaces a value of type *Namespace, Namespace or a list of
// them can denote. ok=false when something could not be resolved.
func (c *consteval) nsSet(v ssa.Value, seen map[ssa.Value]bool) ([]*nsInfo, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	if n := c.bySite[v]; n != nil {
		return []*nsInfo{n}, true
	}
	union := func(vs []ssa.Value) ([]*nsInfo, bool) {
		var out []*nsInfo
		ok := true
		for _, x := range vs {
			l, k := c.nsSet(x, seen)
			out = append(out, l...)
			ok = ok && k
		}
		return out, ok
	}
	switch v := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.Global:
		if n := c.byGlob[v]; n != nil {
			return []*nsInfo{n}, true
		}
		st := c.p.globalStores(v)
		if len(st) == 0 {
			// array backed global (composite literal stored element-wise)
			return c.elemStores(v, seen)
		}
		return union(st)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return c.nsSet(v.X, seen)
		}
	case *ssa.Slice:
		return c.nsSet(v.X, seen)
	case *ssa.Alloc:
		return c.elemStores(v, seen)
	case *ssa.IndexAddr:
		return c.nsSet(v.X, seen)
	case *ssa.Index:
		return c.nsSet(v.X, seen)
	case *ssa.Phi:
		return union(v.Edges)
	case *ssa.Extract:
		return c.nsSet(v.Tuple, seen)
	case *ssa.Next:
		return c.nsSet(v.Iter, seen)
	case *ssa.Range:
		return c.nsSet(v.X, seen)
	case *ssa.ChangeType:
		return c.nsSet(v.X, seen)
	case *ssa.MakeInterface:
		return c.nsSet(v.X, seen)
	case *ssa.Parameter:
		var vs []ssa.Value
		fn := v.Parent()
		idx := -1
		for i, q := range fn.Params {
			if q == v {
				idx = i
			}
		}
		for _, cc := range c.p.Callers(fn) {
			a := cc.Common().Args
			if cc.Common().IsInvoke() {
				return nil, false
			}
			if idx < len(a) {
				vs = append(vs, a[idx])
			}
		}
		return union(vs)
	case *ssa.Call:
		fn := v.Common().StaticCallee()
		if b, ok := v.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return union(v.Common().Args)
		}
		if fn != nil && c.p.InModule(fn) {
			var vs []ssa.Value
			eachInstr(fn, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
					vs = append(vs, r.Results[0])
				}
			})
			return union(vs)
		}
	}
	return nil, false
}

func (c *consteval) elemStores(v ssa.Value, seen map[ssa.Value]bool) ([]*nsInfo, bool) {
	var out []*nsInfo
	ok := true
	refs := v.Referrers()
	if refs == nil {
		return nil, false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				l, k := c.nsSet(r.Val, seen)
				out = append(out, l...)
				ok = ok && k
			}
		case *ssa.IndexAddr:
			if r.X != v {
				continue
			}
			for _, rr := range *r.Referrers() {
				if st, k := rr.(*ssa.Store); k && st.Addr == r {
					l, k2 := c.nsSet(st.Val, seen)
					out = append(out, l...)
					ok = ok && k2
				}
			}
		}
	}
	return out, ok
}

// firstNs: the namespace at index 0 of a list value.
func (c *consteval) firstNs(v ssa.Value, depth int) *nsInfo {
	if depth == 0 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Low != nil {
			return nil
		}
		return c.firstNs(v.X, depth-1)
	case *ssa.ChangeType:
		return c.firstNs(v.X, depth-1)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			st := c.p.globalStores(g)
			if len(st) == 1 {
				return c.firstNs(st[0], depth-1)
			}
		}
		return c.firstNs(v.X, depth-1)
	case *ssa.Alloc, *ssa.Global:
		for _, r := range *v.(ssa.Value).Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
							l, _ := c.nsSet(st.Val, map[ssa.Value]bool{})
							if len(l) == 1 {
								return l[0]
							}
						}
					}
				}
			}
		}
	case *ssa.Call:
		if fn := v.Common().StaticCallee(); fn != nil && c.p.InModule(fn) {
			var res *nsInfo
			n := 0
			eachInstr(fn, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
					n++
					res = c.firstNs(r.Results[0], depth-1)
				}
			})
			if n == 1 {
				return res
			}
		}
		if b, ok := v.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return c.firstNs(v.Common().Args[0], depth-1)
		}
	}
	return nil
}

// eval computes the abstract value of v, or nil when unknown.
func (c *consteval) eval(v ssa.Value, e *env) *aval {
	if e == nil {
		e = &env{}
	}
	if e.depth > 6 {
		return nil
	}
	if n := c.bySite[v]; n != nil {
		return &aval{ns: n}
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return &aval{isNil: true}
		}
		return &aval{k: v.Value}
	case *ssa.Parameter:
		if e.args != nil {
			return e.args[v]
		}
		return nil
	case *ssa.Function:
		return &aval{fn: c.p.unwrap(v)}
	case *ssa.MakeClosure:
		f, _ := v.Fn.(*ssa.Function)
		return &aval{fn: c.p.unwrap(f)}
	case *ssa.ChangeType:
		return c.eval(v.X, e)
	case *ssa.Convert:
		a := c.eval(v.X, e)
		if a != nil && a.k != nil && a.k.Kind() == constant.String {
			return a
		}
		return nil
	case *ssa.MakeInterface:
		a := c.eval(v.X, e)
		r := &aval{dyn: v.X.Type()}
		if a != nil {
			r.k, r.ns = a.k, a.ns
		}
		return r
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if g, ok := v.X.(*ssa.Global); ok {
				if n := c.byGlob[g]; n != nil {
					return &aval{ns: n}
				}
				st := c.p.globalStores(g)
				if len(st) == 1 {
					return c.eval(st[0], &env{depth: e.depth + 1})
				}
				return nil
			}
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return c.nsField(c.eval(fa.X, e), fieldName(fa))
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				if s := soleStore(al); s != nil {
					return c.eval(s, e)
				}
				return nil
			}
			// deref of *Namespace
			return c.eval(v.X, e)
		case token.NOT:
			a := c.eval(v.X, e)
			if a != nil && a.k != nil && a.k.Kind() == constant.Bool {
				return &aval{k: constant.MakeBool(!constant.BoolVal(a.k))}
			}
		}
	case *ssa.Field:
		return c.nsField(c.eval(v.X, e), fieldNameV(v))
	case *ssa.FieldAddr:
		return nil
	case *ssa.Alloc:
		if s := soleStore(v); s != nil {
			return c.eval(s, e)
		}
	case *ssa.BinOp:
		a, b := c.eval(v.X, e), c.eval(v.Y, e)
		if a == nil || b == nil {
			return nil
		}
		if a.k != nil && b.k != nil && a.k.Kind() == b.k.Kind() {
			switch v.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return &aval{k: constant.MakeBool(constant.Compare(a.k, v.Op, b.k))}
			case token.ADD:
				return &aval{k: constant.BinaryOp(a.k, token.ADD, b.k)}
			}
		}
		if (v.Op == token.EQL || v.Op == token.NEQ) && (a.isNil || a.ns != nil || a.dyn != nil) && (b.isNil || b.ns != nil || b.dyn != nil) {
			if a.isNil || b.isNil {
				eq := a.isNil && b.isNil
				return &aval{k: constant.MakeBool(eq == (v.Op == token.EQL))}
			}
			if a.ns != nil && b.ns != nil {
				return &aval{k: constant.MakeBool((a.ns == b.ns) == (v.Op == token.EQL))}
			}
		}
	case *ssa.Call:
		fn := v.Common().StaticCallee()
		if fn == nil {
			return nil
		}
		fn = c.p.unwrap(fn)
		if fn.Blocks == nil || !c.p.InModule(fn) {
			return nil
		}
		e2 := &env{args: map[*ssa.Parameter]*aval{}, depth: e.depth + 1}
		for i, prm := range fn.Params {
			if i < len(v.Common().Args) {
				e2.args[prm] = c.eval(v.Common().Args[i], e)
			}
		}
		rs := c.returns(fn, e2, 0)
		if len(rs) == 1 {
			return rs[0]
		}
		// several returns agreeing on one constant
		if len(rs) > 1 {
			for _, r := range rs[1:] {
				if r == nil || rs[0] == nil || r.k == nil || rs[0].k == nil || !constant.Compare(r.k, token.EQL, rs[0].k) {
					return nil
				}
			}
			return rs[0]
		}
	case *ssa.Phi:
		// resolved by the path walker when it knows the edge
		if e.args == nil {
			return nil
		}
		var r *aval
		for i, x := range v.Edges {
			a := c.eval(x, &env{args: e.args, depth: e.depth + 1})
			if a == nil || a.k == nil {
				return nil
			}
			if i == 0 {
				r = a
			} else if !constant.Compare(r.k, token.EQL, a.k) {
				return nil
			}
		}
		return r
	}
	return nil
}

func soleStore(al *ssa.Alloc) ssa.Value {
	var s ssa.Value
	if al.Referrers() == nil {
		return nil
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			if s != nil {
				return nil
			}
			s = st.Val
		}
	}
	return s
}

func (c *consteval) nsField(a *aval, f string) *aval {
	if a == nil || a.ns == nil || a.ns.Unresolved {
		return nil
	}
	switch f {
	case "Name":
		return &aval{k: constant.MakeString(a.ns.Prefix)}
	case "URI":
		return &aval{k: constant.MakeString(a.ns.URI)}
	case "Factory":
		if a.ns.Factory == nil {
			return &aval{isNil: true}
		}
		return &aval{fn: a.ns.Factory}
	}
	return nil
}

// returns: abstract first results over all CFG paths feasible under the
// constant environment (branches whose condition folds are followed one way).
func (c *consteval) returns(fn *ssa.Function, e *env, res int) []*aval {
	var out []*aval
	type st struct{ b, pred *ssa.BasicBlock }
	seen := map[st]bool{}
	var walk func(b, pred *ssa.BasicBlock)
	phiEval := func(v ssa.Value, b, pred *ssa.BasicBlock) *aval {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b && pred != nil {
			for i, q := range b.Preds {
				if q == pred {
					return c.eval(ph.Edges[i], e)
				}
			}
		}
		return c.eval(v, e)
	}
	walk = func(b, pred *ssa.BasicBlock) {
		if seen[st{b, pred}] {
			return
		}
		seen[st{b, pred}] = true
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if res < len(t.Results) {
				out = append(out, phiEval(t.Results[res], b, pred))
			}
		case *ssa.If:
			a := phiEval(t.Cond, b, pred)
			if a != nil && a.k != nil && a.k.Kind() == constant.Bool {
				if constant.BoolVal(a.k) {
					walk(b.Succs[0], b)
				} else {
					walk(b.Succs[1], b)
				}
				return
			}
			walk(b.Succs[0], b)
			walk(b.Succs[1], b)
		default:
			for _, s := range b.Succs {
				walk(s, b)
			}
		}
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0], nil)
	}
	return out
}
