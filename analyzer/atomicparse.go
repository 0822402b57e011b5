package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C09: a value that cannot be parsed leaves the destination as it was.

func init() { register("C09", checkAtomicParse) }

func parserMethod(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Parent() != nil {
		return false
	}
	switch f.Name() {
	case "UnmarshalText", "UnmarshalXMPAttr", "UnmarshalJSON", "UnmarshalBinary", "UnmarshalXMLAttr":
	default:
		return false
	}
	n := f.Signature.Results().Len()
	return n == 1 && isErrorType(f.Signature.Results().At(0).Type()) && isPtr(f.Signature.Recv().Type())
}

func checkAtomicParse(p *Prog, r *Result) {
	r.Explain = "Rule atomic parse: in every UnmarshalText, UnmarshalXMPAttr, UnmarshalJSON method no path leads from a write to memory reachable through the receiver (direct, or by a callee other than a parser that itself obeys the rule and has just succeeded) to a return that may carry a non-nil error. Paths are explored over SSA blocks with nil-test correlation of error values."
	eff := p.Effects()
	a := &errAn{p: p, memo: map[*ssa.Function]int{}}
	for i := 0; i < 2; i++ {
		for _, f := range p.Funcs {
			a.mayFail(f)
		}
	}
	// obligation (function, parameter): no failing return after a write to what the parameter refers to
	type ob struct {
		f *ssa.Function
		i int
	}
	seen := map[ob]bool{}
	var visit func(f *ssa.Function, pi int, top bool)
	visit = func(f *ssa.Function, pi int, top bool) {
		if seen[ob{f, pi}] {
			return
		}
		seen[ob{f, pi}] = true
		writes := map[ssa.Instruction]string{}
		partial := map[ssa.Instruction]bool{} // an outside function that writes even when it fails
		for _, ev := range eff.writes(f) {
			if _, ok := ev.depth[pi]; !ok {
				continue
			}
			what := "assignment"
			if ev.why.via != nil {
				what = p.FName(ev.why.via)
			}
			ci, ok := ev.why.in.(*ssa.Call)
			if ok {
				if _, isB := ci.Call.Value.(*ssa.Builtin); !isB {
					if ev.why.via == nil {
						what = callName(p, &ci.Call)
						partial[ev.why.in] = errResult(&ci.Call)
					} else if errResult(&ci.Call) && ev.why.idx >= 0 && !genericDecoder(ev.why.via) {
						visit(ev.why.via, ev.why.idx, false)
					}
				}
			}
			writes[ev.why.in] = what
		}
		if top {
			r.Units["parsers"]++
		} else {
			r.Units["helpers"]++
		}
		if len(writes) == 0 {
			r.ok("%s does not write before deciding", p.FName(f))
			return
		}
		bad := false
		for in, what := range writes {
			r.Units["writes"]++
			w := &commitWalk{a: a, f: f, unknown: partial[in]}
			if ret := w.from(in); ret != nil {
				bad = true
				r.fail("partial-parse", p.FName(f), p.InstrPos(in), "%s changes its destination (%s) and can still fail afterwards (return at %s): a rejected value leaves a damaged one behind", p.FName(f), what, p.InstrPos(ret))
			} else if w.over {
				r.undecided("%s: too many paths", p.FName(f))
			}
		}
		if !bad {
			r.ok("%s writes its destination only when it can no longer fail", p.FName(f))
		}
	}
	for _, f := range p.Funcs {
		if p.libFunc(f) && parserMethod(f) {
			visit(f, 0, true)
		}
	}
	reflStores(p, r, a)
	r.need("parsers", 60)
	r.need("reflective stores", 4)
}

// reflStores: a value set by reflection is set when nothing can fail any more.
func reflStores(p *Prog, r *Result, a *errAn) {
	for _, f := range p.LibFuncs() {
		if !errResult(&ssa.CallCommon{Value: f}) || hasLoop(f) {
			continue // walks over several values
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !reflStore(&c.Call) || p.freshValue(c.Call.Args[0], 0) {
				return // values made here
			}
			r.Units["reflective stores"]++
			w := &commitWalk{a: a, f: f, undo: func(x ssa.Instruction) bool {
				u, ok := x.(*ssa.Call)
				if !ok || x == in {
					return false
				}
				pkg, name := extCallee(&u.Call)
				return pkg == "reflect" && (name == "SetLen" || name == "Set" || name == "SetZero") && p.Mem().canonOf(u.Call.Args[0]) == p.Mem().canonOf(c.Call.Args[0])
			}}
			if ret := w.from(in); ret != nil {
				r.failAlt("partial-set", p.OwnerNames(f), p.InstrPos(in), "%s changes its destination by reflection and can still fail afterwards (return at %s)", p.FName(f), p.InstrPos(ret))
			} else if w.over {
				r.undecided("%s: too many paths", p.FName(f))
			} else {
				r.ok("%s stores when it can no longer fail", p.FName(f))
			}
		})
	}
}

func reflStore(c *ssa.CallCommon) bool {
	pkg, name := extCallee(c)
	if pkg != "reflect" || len(c.Args) != 2 {
		return false
	}
	switch name {
	case "Set", "SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetBytes", "SetComplex":
		return true
	}
	return false
}

// commitWalk looks for a failing return after a write.
type commitWalk struct {
	a    *errAn
	f    *ssa.Function
	over bool
	n    int
	ew   *errWalk

	unknown bool // the writing call may have failed
	undo    func(in ssa.Instruction) bool
}

func errResult(c *ssa.CallCommon) bool {
	sig := c.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func (w *commitWalk) from(in ssa.Instruction) ssa.Instruction {
	w.ew = &errWalk{a: w.a, f: w.f, nofail: -1}
	st := errState{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	// a writing call that reports an error: the write is the callee's business when it fails
	if ci, ok := in.(*ssa.Call); ok && !w.unknown {
		sig := ci.Call.Signature()
		for i := 0; i < sig.Results().Len(); i++ {
			if isErrorType(sig.Results().At(i).Type()) {
				if v := resultVal(ci, i); v != nil {
					st.known[v] = true
				}
			}
		}
	}
	// facts dominating the write
	cb := in.Block()
	for _, b := range w.f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(cb) || b == cb {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNilConst(bo.Y) {
			continue
		}
		for i, s := range b.Succs {
			if len(s.Preds) == 1 && s.Dominates(cb) {
				st.known[bo.X] = (bo.Op == token.EQL) == (i == 0)
			}
		}
	}
	return w.walk(cb, in, nil, st, map[string]bool{})
}

func (w *commitWalk) walk(b *ssa.BasicBlock, after ssa.Instruction, pred *ssa.BasicBlock, st errState, seen map[string]bool) ssa.Instruction {
	w.n++
	if w.n > 20000 {
		w.over = true
		return nil
	}
	if after == nil {
		st = st.clone()
		upd := map[ssa.Value]ssa.Value{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(st.known, ph)
			for i, pb := range b.Preds {
				if pb == pred && isErrorType(ph.Type()) {
					upd[ph] = w.ew.resolve(st, ph.Edges[i])
				}
			}
		}
		for k, v := range upd {
			if k != v {
				st.phi[k] = v
			}
		}
		k := b.String() + "|" + st.key()
		if seen[k] {
			return nil
		}
		seen[k] = true
	}
	skip := after != nil
	for _, in := range b.Instrs {
		if skip {
			if in == after {
				skip = false
			}
			continue
		}
		if w.undo != nil && w.undo(in) {
			return nil // written again, or put back
		}
		switch in := in.(type) {
		case *ssa.Call:
			delete(st.known, in)
			if in.Referrers() != nil {
				for _, ref := range *in.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok {
						delete(st.known, ex)
					}
				}
			}
		case *ssa.Store:
			if al, ok := in.Addr.(*ssa.Alloc); ok && isErrorType(deref(al.Type())) {
				st.phi[al] = w.ew.resolve(st, in.Val)
			}
		case *ssa.Panic:
			return nil
		case *ssa.Return:
			for j := range in.Results {
				if !isErrorType(in.Results[j].Type()) {
					continue
				}
				v := w.ew.resolve(st, in.Results[j])
				if isNilConst(v) {
					return nil
				}
				if isNil, ok := st.known[v]; ok && isNil {
					return nil
				}
				if c := callOf(v); c != nil && !w.a.callMayFail(&c.Call) {
					return nil
				}
				return in
			}
			return nil
		case *ssa.If:
			t, fl := w.branch(st, in.Cond)
			if t != nil {
				if bad := w.walk(b.Succs[0], nil, b, *t, seen); bad != nil {
					return bad
				}
			}
			if fl != nil {
				return w.walk(b.Succs[1], nil, b, *fl, seen)
			}
			return nil
		case *ssa.Jump:
			return w.walk(b.Succs[0], nil, b, st, seen)
		}
	}
	return nil
}

func (w *commitWalk) branch(st errState, cond ssa.Value) (t, f *errState) {
	neg := false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		cond = u.X
	}
	ts, fs := st.clone(), st.clone()
	t, f = &ts, &fs
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (isNilConst(bo.Y) || isNilConst(bo.X)) {
		x := bo.X
		if isNilConst(x) {
			x = bo.Y
		}
		v := x
		if isErrorType(x.Type()) {
			v = w.ew.resolve(st, x)
		}
		nilT := bo.Op == token.EQL
		isNil, known := st.known[v]
		if isNilConst(v) {
			isNil, known = true, true
		}
		if known {
			if isNil == nilT {
				f = nil
			} else {
				t = nil
			}
		} else {
			ts.known[v] = nilT
			fs.known[v] = !nilT
		}
	}
	if neg {
		t, f = f, t
	}
	return
}

// genericDecoder: the reflection driven structure decoder, which fills its
// destination property by property.
func genericDecoder(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && namedIs(f.Signature.Recv().Type(), "Decoder")
}

// freshValue: the reflected value was made by the function itself.
func (p *Prog) freshValue(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := p.Mem().canonOf(v).(type) {
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if pkg != "reflect" {
			return false
		}
		switch name {
		case "New", "MakeSlice", "MakeMap", "MakeMapWithSize":
			return true
		case "Elem", "Index", "Field":
			return p.freshValue(x.Call.Args[0], d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.freshValue(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if isBackEdge(b, s) {
				return true
			}
		}
	}
	return false
}
