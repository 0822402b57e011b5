package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: nothing that may be missing is used without looking.

func init() { register("C02", checkNils) }

type nilAn struct {
	p        *Prog
	x        *prover
	m        *memAn
	nullable map[*types.Var]string
	need     map[*ssa.Parameter]int // 1 needs, 2 does not, 3 open
	open     map[ssa.Value]bool
	memo     map[nilKey]string
	steps    int
	assume   []assumed
	ckDepth  int
	flagIf   map[int64][]types.Type // field flag -> interfaces it stands for
}

// assumed: result i of a tuple is known (true, or nil) or known not to be.
type assumed struct {
	tuple ssa.Value
	i     int
	val   bool
}

type nilKey struct {
	v    ssa.Value
	b, e *ssa.BasicBlock
}

func checkNils(p *Prog, r *Result) {
	r.Explain = "Rule nil: every use of a pointer, interface, map or function that the program itself treats as optional (results of lookups and of functions returning nil, map entries, failed assertions, optional fields) is dominated by a test for it; the requirement is followed through parameters of helpers. Rule assert: every type assertion that panics on a mismatch is preceded by the matching test (type switch, predicate, or the reflective Implements test for that very interface)."
	a := &nilAn{p: p, x: p.Prover(), m: p.Mem(), need: map[*ssa.Parameter]int{}, open: map[ssa.Value]bool{}, memo: map[nilKey]string{}}
	a.findNullable()
	a.findFlags()
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		if isInit(f) && f.Parent() == nil && f.Synthetic != "" {
			continue
		}
		keys := func(what string) []string {
			var out []string
			for _, n := range p.OwnerNames(f) {
				out = append(out, n+": "+what)
			}
			return out
		}
		eachInstr(f, func(in ssa.Instruction) {
			if ta, ok := in.(*ssa.TypeAssert); ok && !ta.CommaOk {
				r.Units["assertions"]++
				if why := a.assertProblem(ta); why == "" {
					r.ok("%s: assertion to %s at %s is guarded", p.FName(f), p.TName(ta.AssertedType), p.InstrPos(in))
				} else {
					r.failAlt("assert", keys("assertion "+exprVal(p, ta.X)+" to "+p.TName(ta.AssertedType)), p.InstrPos(in), "%s: the assertion of %s to %s is not preceded by a matching test (%s), so a value of another type makes the library panic", p.FName(f), exprVal(p, ta.X), p.TName(ta.AssertedType), why)
				}
			}
			for _, u := range a.uses(in) {
				r.Units["uses"]++
				a.steps = 0
				why := a.mayNil(u.v, in.Block(), nil, 0)
				if why == "" {
					r.Units["uses_not_nil"]++
					continue
				}
				r.failAlt("nil", keys(u.what+" of "+exprVal(p, u.v)), p.InstrPos(in), "%s: %s of %s although it may be nil here (%s)", p.FName(f), u.what, exprVal(p, u.v), why)
			}
		})
	}
	r.Units["optional_fields"] = len(a.nullable)
	r.ok("%d uses of pointers, interfaces, maps and functions are never nil", r.Units["uses_not_nil"])
	r.need("uses", 1200)
	r.need("assertions", 20)
}

type nilUse struct {
	v    ssa.Value
	what string
}

// uses: values that must not be nil for in to execute.
func (a *nilAn) uses(in ssa.Instruction) []nilUse {
	var out []nilUse
	switch in := in.(type) {
	case *ssa.FieldAddr:
		out = append(out, nilUse{in.X, "use"})
	case *ssa.UnOp:
		if in.Op == token.MUL {
			out = append(out, nilUse{in.X, "use"})
		}
	case *ssa.Store:
		out = append(out, nilUse{in.Addr, "use"})
	case *ssa.IndexAddr:
		if isPtr(in.X.Type()) {
			out = append(out, nilUse{in.X, "use"})
		}
	case *ssa.Slice:
		if isPtr(in.X.Type()) {
			out = append(out, nilUse{in.X, "use"})
		}
	case *ssa.MapUpdate:
		out = append(out, nilUse{in.Map, "assignment to an entry"})
	case ssa.CallInstruction:
		c := in.Common()
		if c.IsInvoke() {
			out = append(out, nilUse{c.Value, "method call"})
			return out
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
		if g, ok := c.Value.(*ssa.Function); ok {
			if a.p.InModule(g) && g.Blocks != nil {
				for i, prm := range g.Params {
					if i < len(c.Args) && nilKind(prm.Type()) && a.needs(prm) {
						out = append(out, nilUse{c.Args[i], "use by " + g.Name()})
					}
				}
			}
			return out
		}
		if _, ok := c.Value.(*ssa.MakeClosure); !ok {
			out = append(out, nilUse{c.Value, "call"})
		}
	}
	var keep []nilUse
	for _, u := range out {
		switch u.v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			continue
		}
		keep = append(keep, u)
	}
	return keep
}

func nilKind(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return true
	}
	return false
}

// needs: calling the function with a nil argument here panics on some path
// that does not test the parameter first.
func (a *nilAn) needs(prm *ssa.Parameter) bool {
	switch a.need[prm] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	a.need[prm] = 3
	f := prm.Parent()
	res := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, u := range a.uses(in) {
				if !res && a.m.canonOf(u.v) == prm && !a.guarded(prm, b, nil) {
					res = true
				}
			}
		}
	}
	a.need[prm] = 2
	if res {
		a.need[prm] = 1
	}
	return res
}

// findNullable collects the fields the program itself treats as optional:
// compared with nil, set to nil, or pointers of a serialised structure.
func (a *nilAn) findNullable() {
	a.nullable = map[*types.Var]string{}
	for _, n := range a.p.NamedTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if strings.Contains(st.Tag(i), "xmp:") || strings.Contains(st.Tag(i), "json:") {
				if isPtr(st.Field(i).Type()) {
					a.nullable[st.Field(i)] = "an optional property"
				}
			}
		}
	}
	for _, f := range a.p.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.BinOp:
				if in.Op != token.EQL && in.Op != token.NEQ {
					return
				}
				for _, pr := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
					if !isNilConst(pr[1]) {
						continue
					}
					switch l := pr[0].(type) {
					case *ssa.UnOp:
						if fa, ok := l.X.(*ssa.FieldAddr); ok && l.Op == token.MUL {
							a.setNullable(fieldVar(fa), "a field tested for nil elsewhere")
						}
					case *ssa.Field:
						if st, ok := l.X.Type().Underlying().(*types.Struct); ok {
							a.setNullable(st.Field(l.Field), "a field tested for nil elsewhere")
						}
					}
				}
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isNilConst(in.Val) {
					a.setNullable(fieldVar(fa), "a field set to nil elsewhere")
				}
			}
		})
	}
}

func (a *nilAn) setNullable(v *types.Var, why string) {
	if v == nil || !nilKind(v.Type()) || isErrorType(v.Type()) {
		return
	}
	if v.Pkg() == nil || !a.p.inMod[v.Pkg()] {
		return
	}
	if _, ok := a.nullable[v]; !ok {
		a.nullable[v] = why
	}
}

// mayNil: "" if v is not nil at blk as far as the program tells, else why it
// may be.
func (a *nilAn) mayNil(v ssa.Value, blk, edge *ssa.BasicBlock, d int) string {
	a.steps++
	if d > 10 || a.steps > 4000 {
		return ""
	}
	v0 := v
	switch v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan, *ssa.FreeVar, *ssa.Builtin:
		return ""
	}
	v = a.m.canonOf(v)
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil && nilKind(c.Type()) {
			return "it is nil"
		}
		return ""
	}
	if a.open[v] {
		return ""
	}
	if a.guarded(v, blk, edge) || v != v0 && a.guarded(v0, blk, edge) {
		return ""
	}
	a.open[v] = true
	defer delete(a.open, v)
	switch y := v.(type) {
	case *ssa.ChangeInterface:
		return a.mayNil(y.X, blk, edge, d+1)
	case *ssa.ChangeType:
		return a.mayNil(y.X, blk, edge, d+1)
	case *ssa.Convert:
		return a.mayNil(y.X, blk, edge, d+1)
	case *ssa.Phi:
		for i, e := range y.Edges {
			pb := y.Block().Preds[i]
			if a.edgeImpossible(y, i, blk, edge) {
				continue
			}
			if why := a.mayNil(e, pb, y.Block(), d+1); why != "" {
				return why
			}
		}
	case *ssa.Call:
		return a.resultNil(y, 0, blk, edge, d)
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.Call:
			return a.resultNil(t, y.Index, blk, edge, d)
		case *ssa.Lookup:
			if y.Index == 0 && !a.okTrue(t, blk, edge) {
				return "the map may have no such entry"
			}
		case *ssa.TypeAssert:
			if a.modelLookup(t) {
				return a.mayNil(t.X, t.Block(), nil, d+1)
			}
			if y.Index == 0 && !a.okTrue(t, blk, edge) {
				return "the assertion to " + a.p.TName(t.AssertedType) + " may have failed"
			}
		}
	case *ssa.Lookup:
		if _, ok := y.X.Type().Underlying().(*types.Map); ok && !a.presentKey(y, blk) {
			return "the map may have no such entry"
		}
	case *ssa.Field:
		if st, ok := y.X.Type().Underlying().(*types.Struct); ok {
			if why, ok := a.nullable[st.Field(y.Field)]; ok {
				return why
			}
		}
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return ""
		}
		switch ad := y.X.(type) {
		case *ssa.FieldAddr:
			fv := fieldVar(ad)
			why, ok := a.nullable[fv]
			if !ok {
				return ""
			}
			if a.setBefore(y, ad) {
				return ""
			}
			return why
		case *ssa.Alloc:
			ss, simple := storesTo(ad)
			if !simple {
				return ""
			}
			for _, s := range ss {
				if why := a.mayNil(s.Val, s.Block(), nil, d+1); why != "" {
					return why
				}
			}
		}
	case *ssa.Parameter:
		f := y.Parent()
		if !a.p.closed(f) || d > 4 {
			return ""
		}
		i := prmIndex(f, y)
		for _, ci := range a.p.Callers(f) {
			args := callArgs(ci.Common())
			if i >= len(args) {
				return ""
			}
			if _, ok := args[i].(*ssa.Parameter); ok {
				continue
			}
			// reported at the call when the callee needs it unconditionally
			if a.needs(y) {
				continue
			}
			if why := a.mayNil(args[i], ci.Block(), nil, d+1); why != "" {
				return "the argument passed by " + a.p.FName(ci.Parent()) + ": " + why
			}
		}
	}
	return ""
}

// setBefore: the optional field is set on every path to the load.
func (a *nilAn) setBefore(l *ssa.UnOp, fa *ssa.FieldAddr) bool {
	f := l.Parent()
	fm := a.m.of(f)
	for _, st := range fm.stores {
		if a.m.sameAddr(st.Addr, fa, 0) && dominatesInstr(st, l) && a.mayNil(st.Val, st.Block(), nil, 5) == "" {
			// only non-nil values are stored into it from there on
			ok := true
			for _, s2 := range fm.stores {
				if s2 != st && a.m.sameAddr(s2.Addr, fa, 0) && a.mayNil(s2.Val, s2.Block(), nil, 5) != "" {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	// a merge: if x.f == nil { x.f = ... }
	return a.filledIn(l, fa)
}

// filledIn: on every path to l the field was either tested non-nil or set.
func (a *nilAn) filledIn(l *ssa.UnOp, fa *ssa.FieldAddr) bool {
	seen := map[*ssa.BasicBlock]bool{}
	n := 0
	var ok func(b *ssa.BasicBlock, upto ssa.Instruction) bool
	ok = func(b *ssa.BasicBlock, upto ssa.Instruction) bool {
		n++
		if n > 200 {
			return false
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if upto != nil {
				if in == upto {
					upto = nil
				}
				continue
			}
			if st, is := in.(*ssa.Store); is && a.m.sameAddr(st.Addr, fa, 0) {
				return a.mayNil(st.Val, b, nil, 5) == ""
			}
			if in.Parent() == l.Parent() && a.m.mayWrite(in, fa) {
				return false
			}
			if v, is := fa.X.(ssa.Instruction); is && in == v {
				return false
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, pb := range b.Preds {
			if a.edgeTests(pb, b, fa) {
				continue
			}
			if seen[pb] {
				continue
			}
			seen[pb] = true
			if !ok(pb, nil) {
				return false
			}
		}
		return true
	}
	return ok(l.Block(), l)
}

// edgeTests: the edge is taken only when the field is not nil.
func (a *nilAn) edgeTests(from, to *ssa.BasicBlock, fa *ssa.FieldAddr) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return false
	}
	for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		l, ok := pr[0].(*ssa.UnOp)
		if ok && l.Op == token.MUL && isNilConst(pr[1]) && a.m.sameAddr(l.X, fa, 0) && (bo.Op == token.NEQ) == (from.Succs[0] == to) {
			return true
		}
	}
	return false
}

// edgeImpossible: what is known at blk rules out that the phi got its value
// over edge i: another phi of the same block holds a value there that
// contradicts a test passed since.
func (a *nilAn) edgeImpossible(ph *ssa.Phi, i int, blk, edge *ssa.BasicBlock) bool {
	h := ph.Block()
	chk := func(from, to *ssa.BasicBlock) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] || !(h == from || h.Dominates(from)) {
			return false
		}
		truth := from.Succs[0] == to
		cond := iff.Cond
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, truth = n.X, !truth
		}
		valOn := func(v ssa.Value) ssa.Value {
			if q, ok := a.m.canonOf(v).(*ssa.Phi); ok && q.Block() == h {
				return q.Edges[i]
			}
			return nil
		}
		if w := valOn(cond); w != nil {
			if k, ok := w.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				return constant.BoolVal(k.Value) != truth
			}
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				w := valOn(pr[0])
				if w == nil {
					continue
				}
				eq := truth == (bo.Op == token.EQL)
				if isNilConst(pr[1]) {
					if isNilConst(w) && !eq {
						return true
					}
					if eq && isErrorType(w.Type()) && a.x.nonNil(w, h.Preds[i]) {
						return true
					}
				}
				k1, ok1 := w.(*ssa.Const)
				k2, ok2 := pr[1].(*ssa.Const)
				if ok1 && ok2 && k1.Value != nil && k2.Value != nil && constant.Compare(k1.Value, token.EQL, k2.Value) != eq {
					return true
				}
			}
		}
		return false
	}
	if edge != nil && chk(blk, edge) {
		return true
	}
	for b := blk; b != nil && b != h; b = b.Idom() {
		if len(b.Preds) == 1 && chk(b.Preds[0], b) {
			return true
		}
	}
	return false
}

// presentKey: the lookup uses a key the loop around it takes from the map.
func (a *nilAn) presentKey(l *ssa.Lookup, blk *ssa.BasicBlock) bool {
	// m[k] with k ranged over the same map, or over the collected keys of a map
	k := a.m.canonOf(l.Index)
	if ex, ok := k.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && a.m.canonOf(rg.X) == a.m.canonOf(l.X) {
				return true
			}
		}
	}
	// dominated by a successful lookup or an update of the same entry
	for b := blk; b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if a.m.canonOf(in.Map) == a.m.canonOf(l.X) && a.m.canonOf(in.Key) == k && dominatesInstr(in, l) && a.mayNil(in.Value, b, nil, 6) == "" {
					return true
				}
			case *ssa.Lookup:
				if in.CommaOk && a.m.sameOp(in.X, l.X) && a.m.sameOp(in.Index, l.Index) && a.okTrue(in, blk, nil) {
					return true
				}
			}
		}
	}
	return false
}

// okTrue: the ok result of a comma-ok operation is known to be true at blk.
func (a *nilAn) okTrue(tuple ssa.Value, blk, edge *ssa.BasicBlock) bool {
	for _, s := range a.assume {
		if s.tuple == tuple && s.i == 1 && s.val {
			return true
		}
	}
	return a.condKnown(blk, edge, func(cond ssa.Value, truth bool) bool {
		ex, ok := a.m.canonOf(cond).(*ssa.Extract)
		return ok && ex.Tuple == tuple && ex.Index == 1 && truth
	})
}

// condKnown walks the branch conditions that hold at blk.
func (a *nilAn) condKnown(blk, edge *ssa.BasicBlock, fn func(cond ssa.Value, truth bool) bool) bool {
	if a.ckDepth > 6 {
		return false
	}
	a.ckDepth++
	defer func() { a.ckDepth-- }()
	var one func(cond ssa.Value, truth bool, d int) bool
	one = func(cond ssa.Value, truth bool, d int) bool {
		if d > 4 {
			return false
		}
		if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
			return one(n.X, !truth, d+1)
		}
		if fn(cond, truth) {
			return true
		}
		if ph, ok := cond.(*ssa.Phi); ok {
			// a conjunction or disjunction kept as a value: every way it can be
			// truth implies the fact
			n := 0
			for i, e := range ph.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) != truth {
						continue
					}
					n++
					if !a.condKnown(ph.Block().Preds[i], ph.Block(), fn) {
						return false
					}
					continue
				}
				n++
				if !one(e, truth, d+1) && !a.condKnown(ph.Block().Preds[i], ph.Block(), fn) {
					return false
				}
			}
			return n > 0
		}
		return false
	}
	look := func(from, to *ssa.BasicBlock) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return false
		}
		return one(iff.Cond, from.Succs[0] == to, 0)
	}
	if edge != nil && look(blk, edge) {
		return true
	}
	for b := blk; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 && look(b.Preds[0], b) {
			return true
		}
		// all ways into b imply it (a || b guards)
		if len(b.Preds) > 1 {
			all := true
			for _, pb := range b.Preds {
				if b.Dominates(pb) || !look(pb, b) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// guarded: a branch on the way established that v is not nil.
func (a *nilAn) guarded(v ssa.Value, blk, edge *ssa.BasicBlock) bool {
	cv := a.m.canonOf(v)
	return a.condKnown(blk, edge, func(cond ssa.Value, truth bool) bool {
		switch c := cond.(type) {
		case *ssa.BinOp:
			if c.Op != token.EQL && c.Op != token.NEQ {
				return false
			}
			for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				if a.m.canonOf(pr[0]) != cv && !a.m.sameOp(pr[0], v) {
					continue
				}
				if isNilConst(pr[1]) {
					return truth == (c.Op == token.NEQ)
				}
				// equal to something that is not nil
				if truth == (c.Op == token.EQL) {
					switch o := pr[1].(type) {
					case *ssa.UnOp:
						if _, ok := o.X.(*ssa.Global); ok {
							return true
						}
					case *ssa.Alloc, *ssa.MakeInterface:
						return true
					}
				}
			}
		case *ssa.Extract:
			// the comma-ok of the assertion that produced v, or of an assertion of v
			if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && c.Index == 1 && truth {
				return a.m.canonOf(ta.X) == cv
			}
		case *ssa.Call:
			// a predicate of the module that is false (true) for nil
			for i, arg := range callArgs(&c.Call) {
				if a.m.canonOf(arg) != cv {
					continue
				}
				cs := a.p.Callees(&c.Call)
				if len(cs) != 1 || !a.p.InModule(cs[0]) || i >= len(cs[0].Params) {
					continue
				}
				if a.predicate(cs[0], i, truth) {
					return true
				}
			}
		}
		return false
	})
}

// predicate: f returning truth implies that its parameter i is not nil.
func (a *nilAn) predicate(f *ssa.Function, i int, truth bool) bool {
	if f.Signature.Results().Len() != 1 || f.Blocks == nil {
		return false
	}
	prm := f.Params[i]
	ok, n := true, 0
	eachInstr(f, func(in ssa.Instruction) {
		ret, is := in.(*ssa.Return)
		if !is || !ok || ret.Block() == f.Recover {
			return
		}
		n++
		var chk func(v ssa.Value, b, e *ssa.BasicBlock) bool
		chk = func(v ssa.Value, b, e *ssa.BasicBlock) bool {
			if k, is := v.(*ssa.Const); is && k.Value != nil && k.Value.Kind() == constant.Bool {
				return constant.BoolVal(k.Value) != truth || a.guarded(prm, b, e)
			}
			if ph, is := v.(*ssa.Phi); is && ph.Block() == b {
				for j, ev := range ph.Edges {
					if !chk(ev, ph.Block().Preds[j], ph.Block()) {
						return false
					}
				}
				return true
			}
			if bo, is := v.(*ssa.BinOp); is && isNilConst(bo.Y) && a.m.canonOf(bo.X) == prm {
				if bo.Op == token.EQL && !truth || bo.Op == token.NEQ && truth {
					return true
				}
			}
			return a.guarded(prm, b, e)
		}
		for _, v := range retValues(ret, 0) {
			if !chk(v, ret.Block(), nil) {
				ok = false
			}
		}
	})
	return ok && n > 0
}

// resultNil: some return of a callee, compatible with what is known about the
// other results, yields nil.
func (a *nilAn) resultNil(c *ssa.Call, i int, blk, edge *ssa.BasicBlock, d int) string {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return ""
	}
	cs := a.p.Callees(&c.Call)
	if len(cs) == 0 || c.Call.IsInvoke() {
		return ""
	}
	oc := a.x.outcomes(c, blk, edge)
	for _, s := range a.assume {
		if s.tuple == c {
			oc[s.i] = s.val
		}
	}
	for _, f := range cs {
		if !a.p.InModule(f) || f.Blocks == nil || i >= f.Signature.Results().Len() || !nilKind(f.Signature.Results().At(i).Type()) {
			continue
		}
		why := ""
		eachInstr(f, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok || why != "" || ret.Block() == f.Recover || a.x.excluded(ret, oc) {
				return
			}
			saved := a.assume
			defer func() { a.assume = saved }()
			for j, want := range oc {
				if j < len(ret.Results) {
					if ex, ok := a.m.canonOf(ret.Results[j]).(*ssa.Extract); ok {
						a.assume = append(a.assume[:len(a.assume):len(a.assume)], assumed{ex.Tuple, ex.Index, want})
					}
				}
			}
			for _, v := range retValues(ret, i) {
				if prm, ok := a.m.canonOf(v).(*ssa.Parameter); ok {
					if !a.guarded(prm, ret.Block(), nil) {
						if j := prmIndex(f, prm); j < len(callArgs(&c.Call)) {
							if w := a.mayNil(callArgs(&c.Call)[j], c.Block(), nil, d+1); w != "" {
								why = w
							}
						}
					}
					continue
				}
				if w := a.mayNil(v, ret.Block(), nil, d+1); w != "" {
					why = a.p.FName(f) + " may return nil"
				}
			}
		})
		if why != "" {
			return why
		}
	}
	return ""
}

// ---- assertions ----

func (a *nilAn) assertProblem(ta *ssa.TypeAssert) string {
	v := a.m.canonOf(ta.X)
	blk := ta.Block()
	same := func(w ssa.Value) bool { return a.m.canonOf(w) == v || a.m.sameOp(w, ta.X) }
	// an assertion or type switch to that type succeeded
	if a.condKnown(blk, nil, func(cond ssa.Value, truth bool) bool {
		if ex, ok := a.m.canonOf(cond).(*ssa.Extract); ok && truth && ex.Index == 1 {
			if t, ok := ex.Tuple.(*ssa.TypeAssert); ok && same(t.X) && a.impliesType(t.AssertedType, ta.AssertedType) {
				return true
			}
		}
		if c, ok := cond.(*ssa.Call); ok {
			cs := a.p.Callees(&c.Call)
			if len(cs) == 1 && a.p.InModule(cs[0]) {
				for i, arg := range callArgs(&c.Call) {
					if same(arg) && i < len(cs[0].Params) && a.typePredicate(cs[0], i, truth, ta.AssertedType) {
						return true
					}
				}
			}
		}
		return false
	}) {
		return ""
	}
	// reflect: v.Interface().(I) after v.Type().Implements(I)
	if a.modelLookup(ta) {
		return ""
	}
	if c, ok := v.(*ssa.Call); ok {
		if pkg, name := extCallee(&c.Call); pkg == "reflect" && name == "Interface" {
			return a.reflectAssert(c.Call.Args[0], v, ta.AssertedType, blk, nil, 0)
		}
	}
	// static knowledge: every value that can be here has that type
	if a.concrete(ta.X, ta.AssertedType, 0, map[ssa.Value]bool{}) {
		return ""
	}
	return "no test for " + a.p.TName(ta.AssertedType) + " on the way here"
}

// modelLookup: an assertion of the model found or made for a namespace; that
// it has the registered type is property C13.
func (a *nilAn) modelLookup(ta *ssa.TypeAssert) bool {
	v := a.m.canonOf(ta.X)
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || !isPtr(ta.AssertedType) {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && (f.Name() == "FindModel" || f.Name() == "MakeModel" || f.Name() == "NewModel") && a.p.InModule(f)
}

// findFlags: which interfaces the flags cached per struct field stand for:
// flags |= K under a test typ.Implements(I).
func (a *nilAn) findFlags() {
	a.flagIf = map[int64][]types.Type{}
	bad := map[int64]bool{}
	for _, f := range a.p.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.OR {
				return
			}
			k, ok := intConst(bo.Y)
			if !ok || k == 0 || k&(k-1) != 0 {
				return
			}
			l, ok := bo.X.(*ssa.UnOp)
			if !ok {
				return
			}
			fa, ok := l.X.(*ssa.FieldAddr)
			if !ok || fieldVar(fa) == nil || fieldVar(fa).Name() != "flags" {
				return
			}
			var here []types.Type
			a.condKnown(bo.Block(), nil, func(cond ssa.Value, truth bool) bool {
				c, ok := cond.(*ssa.Call)
				if ok && truth && c.Call.IsInvoke() && c.Call.Method.Name() == "Implements" {
					if t := a.typeOfGlobal(c.Call.Args[0]); t != nil {
						here = append(here, t)
						return true
					}
				}
				return false
			})
			if len(here) == 0 {
				bad[k] = true
			}
			a.flagIf[k] = append(a.flagIf[k], here...)
		})
	}
	for k := range bad {
		delete(a.flagIf, k)
	}
}

func (a *nilAn) impliesType(have, want types.Type) bool {
	if types.Identical(have, want) {
		return true
	}
	if it, ok := want.Underlying().(*types.Interface); ok {
		return types.Implements(have, it)
	}
	return false
}

// typePredicate: f returning truth implies that argument i has the type.
func (a *nilAn) typePredicate(f *ssa.Function, i int, truth bool, t types.Type) bool {
	if f.Signature.Results().Len() != 1 || f.Blocks == nil {
		return false
	}
	prm := f.Params[i]
	if it, ok := prm.Type().Underlying().(*types.Interface); !ok || it == nil {
		return false
	}
	ok, n := true, 0
	known := func(b, e *ssa.BasicBlock) bool {
		return a.condKnown(b, e, func(cond ssa.Value, tr bool) bool {
			ex, is := cond.(*ssa.Extract)
			if is && tr && ex.Index == 1 {
				ta, is := ex.Tuple.(*ssa.TypeAssert)
				return is && a.m.canonOf(ta.X) == prm && a.impliesType(ta.AssertedType, t)
			}
			if c, is := cond.(*ssa.Call); is && tr {
				cs := a.p.Callees(&c.Call)
				if len(cs) == 1 && cs[0] != f && a.p.InModule(cs[0]) {
					for j, arg := range callArgs(&c.Call) {
						if a.m.canonOf(arg) == prm && j < len(cs[0].Params) && a.typePredicate(cs[0], j, tr, t) {
							return true
						}
					}
				}
			}
			return false
		})
	}
	eachInstr(f, func(in ssa.Instruction) {
		ret, is := in.(*ssa.Return)
		if !is || !ok || ret.Block() == f.Recover {
			return
		}
		n++
		var chk func(v ssa.Value, b, e *ssa.BasicBlock) bool
		chk = func(v ssa.Value, b, e *ssa.BasicBlock) bool {
			if k, is := v.(*ssa.Const); is && k.Value != nil && k.Value.Kind() == constant.Bool {
				return constant.BoolVal(k.Value) != truth || known(b, e)
			}
			if ph, is := v.(*ssa.Phi); is {
				for j, ev := range ph.Edges {
					if !chk(ev, ph.Block().Preds[j], ph.Block()) {
						return false
					}
				}
				return true
			}
			if ex, is := v.(*ssa.Extract); is && ex.Index == 1 && truth {
				if ta, is := ex.Tuple.(*ssa.TypeAssert); is && a.m.canonOf(ta.X) == prm && a.impliesType(ta.AssertedType, t) {
					return true
				}
			}
			return known(b, e)
		}
		for _, v := range retValues(ret, 0) {
			if !chk(v, ret.Block(), nil) {
				ok = false
			}
		}
	})
	return ok && n > 0
}

// concrete: every value v can hold was made from a value of type t.
func (a *nilAn) concrete(v ssa.Value, t types.Type, d int, seen map[ssa.Value]bool) bool {
	if d > 8 || seen[v] {
		return d <= 8
	}
	seen[v] = true
	v = a.m.canonOf(v)
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return a.impliesType(y.X.Type(), t)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !a.concrete(e, t, d+1, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeInterface:
		return a.concrete(y.X, t, d+1, seen)
	case *ssa.UnOp:
		if ia, ok := y.X.(*ssa.IndexAddr); ok {
			return a.elemsConcrete(ia.X, t, d+1, seen)
		}
	case *ssa.Parameter:
		f := y.Parent()
		if !a.p.closed(f) || len(a.p.Callers(f)) == 0 {
			return false
		}
		i := prmIndex(f, y)
		for _, ci := range a.p.Callers(f) {
			args := callArgs(ci.Common())
			if i >= len(args) || !a.concrete(args[i], t, d+1, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *nilAn) elemsConcrete(s ssa.Value, t types.Type, d int, seen map[ssa.Value]bool) bool {
	return false
}

// reflectAssert: rv.Interface().(T) is preceded by a test that the value of rv
// has type T, or implements it.
func (a *nilAn) reflectAssert(rv, iv ssa.Value, want types.Type, blk, edge *ssa.BasicBlock, d int) string {
	if d > 4 {
		return "too deep"
	}
	it, isI := want.Underlying().(*types.Interface)
	found := ""
	if a.condKnown(blk, edge, func(cond ssa.Value, truth bool) bool {
		switch c := a.m.canonOf(cond).(type) {
		case *ssa.Call:
			if !isI || !truth || !c.Call.IsInvoke() || c.Call.Method.Name() != "Implements" {
				return false
			}
			tt := a.typeOfGlobal(c.Call.Args[0])
			if tt == nil {
				return false
			}
			if !a.isTypeOf(c.Call.Value, rv, 0) {
				found = "the test is for the type of another value"
				return false
			}
			if it2, ok := tt.Underlying().(*types.Interface); ok && types.Implements(it2, it) {
				return true
			}
			found = "the test is for " + a.p.TName(tt)
		case *ssa.BinOp:
			// flags&K > 0
			// the cached flags describe the declared type of the field and its
			// pointer type: they say nothing about the value after following
			// a pointer, so they only vouch for the result of Addr
			if k, ok := a.flagTest(c, truth); ok && isI {
				if !isAddrResult(a.m.canonOf(rv)) {
					found = "the flag describes the declared type, not the value"
					return false
				}
				for _, tt := range a.flagIf[k] {
					if it2, ok := tt.Underlying().(*types.Interface); ok && types.Implements(it2, it) {
						return true
					}
					found = "the flag tested stands for " + a.p.TName(tt)
				}
				return false
			}
			// typ == reflect.TypeOf(T{})
			if truth != (c.Op == token.EQL) || isI {
				return false
			}
			for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				tt := a.typeOfGlobal(pr[1])
				if tt == nil {
					continue
				}
				if types.Identical(tt, want) && (a.isTypeOf(pr[0], rv, 0) || a.isTypeOfIface(pr[0], iv)) {
					return true
				}
				// rv is reflect.New(typ): pointer to T
				if pt, ok := want.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), tt) {
					if rc, ok := a.m.canonOf(rv).(*ssa.Call); ok {
						if pkg, name := extCallee(&rc.Call); pkg == "reflect" && name == "New" && (a.m.canonOf(rc.Call.Args[0]) == a.m.canonOf(pr[0]) || a.m.sameOp(rc.Call.Args[0], pr[0])) {
							return true
						}
					}
				}
			}
		}
		return false
	}) {
		return ""
	}
	if ph, ok := a.m.canonOf(rv).(*ssa.Phi); ok {
		for i, e := range ph.Edges {
			if a.edgeImpossible(ph, i, blk, edge) {
				continue
			}
			if why := a.reflectAssert(e, iv, want, ph.Block().Preds[i], ph.Block(), d+1); why != "" {
				return why
			}
		}
		return ""
	}
	if found == "" {
		found = "no test of that value's type"
	}
	return found
}

func isAddrResult(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	pkg, name := extCallee(&c.Call)
	return pkg == "reflect" && name == "Addr"
}

// flagTest: cond is x.flags&K compared with 0; returns K when truth means the
// flag is set.
func (a *nilAn) flagTest(c *ssa.BinOp, truth bool) (int64, bool) {
	and, ok := c.X.(*ssa.BinOp)
	z, okz := intConst(c.Y)
	if !ok || !okz || and.Op != token.AND {
		return 0, false
	}
	k, ok := intConst(and.Y)
	if !ok {
		return 0, false
	}
	switch {
	case z == 0 && (c.Op == token.GTR || c.Op == token.NEQ) && truth:
		return k, true
	case z == 0 && c.Op == token.EQL && !truth:
		return k, true
	case z == k && c.Op == token.EQL && truth:
		return k, true
	}
	return 0, false
}

// isTypeOfIface: t is reflect.TypeOf(iv).
func (a *nilAn) isTypeOfIface(t, iv ssa.Value) bool {
	c, ok := a.m.canonOf(t).(*ssa.Call)
	if !ok {
		return false
	}
	pkg, name := extCallee(&c.Call)
	return pkg == "reflect" && name == "TypeOf" && a.m.canonOf(c.Call.Args[0]) == a.m.canonOf(iv)
}

// isTypeOf: t is the reflect.Type of value rv.
func (a *nilAn) isTypeOf(t, rv ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	if pt, ok := a.m.canonOf(t).(*ssa.Phi); ok {
		// type and value chosen together
		pv, ok := a.m.canonOf(rv).(*ssa.Phi)
		if !ok || pv.Block() != pt.Block() {
			return false
		}
		for i := range pt.Edges {
			if !a.isTypeOf(pt.Edges[i], pv.Edges[i], d+1) {
				return false
			}
		}
		return true
	}
	c, ok := a.m.canonOf(t).(*ssa.Call)
	if !ok {
		return false
	}
	pkg, name := extCallee(&c.Call)
	switch {
	case pkg == "reflect" && name == "Type":
		return a.sameReflect(c.Call.Args[0], rv)
	case pkg == "reflect" && (name == "PtrTo" || name == "PointerTo"):
		// type of rv's address
		rc, ok := a.m.canonOf(rv).(*ssa.Call)
		if !ok {
			return false
		}
		if p2, n2 := extCallee(&rc.Call); p2 == "reflect" && n2 == "Addr" {
			return a.isTypeOf(c.Call.Args[0], rc.Call.Args[0], d+1)
		}
		if p2, n2 := extCallee(&rc.Call); p2 == "reflect" && n2 == "New" {
			return a.m.canonOf(rc.Call.Args[0]) == a.m.canonOf(c.Call.Args[0])
		}
	}
	return false
}

// sameReflect: the two reflect.Values denote the same value.
func (a *nilAn) sameReflect(v, w ssa.Value) bool {
	return a.m.canonOf(v) == a.m.canonOf(w) || a.m.sameOp(v, w)
}

// typeOfGlobal: package variable initialised with reflect.TypeOf((*T)(nil)).Elem()
// or reflect.TypeOf(x).
func (a *nilAn) typeOfGlobal(v ssa.Value) types.Type {
	v = a.m.canonOf(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if s := a.p.singleStore(g); s != nil {
				return reflTypeOf(s)
			}
		}
		return nil
	}
	return reflTypeOf(v)
}

func reflTypeOf(v ssa.Value) types.Type {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if c.Call.IsInvoke() {
		if c.Call.Method.Name() == "Elem" {
			if t := reflTypeOf(c.Call.Value); t != nil {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					return pt.Elem()
				}
			}
		}
		return nil
	}
	if pkg, name := extCallee(&c.Call); pkg == "reflect" && name == "TypeOf" {
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	return nil
}

func (a *nilAn) reflectMade(rv ssa.Value, t types.Type) bool { return false }
