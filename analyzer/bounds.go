package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C01: every index and slice expression is in range.

func init() { register("C01", checkBounds) }

type boundOb struct {
	in   ssa.Instruction
	desc string
	ok   bool
}

func checkBounds(p *Prog, r *Result) {
	r.Explain = "Rule bounds: for every index and slice expression of the library the conditions 0 <= i < len (0 <= low <= high <= len for slices) are derived from the SSA form: definitions, dominating branch conditions, induction over loop variables, result ranges of library and module functions, arguments of all callers of unexported helpers. An expression whose bound cannot be derived is reported."
	x := p.Prover()
	for _, f := range p.Funcs {
		if !p.libFunc(f) && !p.cmdFunc(f) {
			continue
		}
		if isInit(f) && f.Parent() == nil && f.Synthetic != "" {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			if why := x.boundProblem(in); why == "" {
				return
			} else if why == "ok" {
				r.ok("%s: %s at %s in range", p.FName(f), in.String(), p.InstrPos(in))
				r.Units["index_and_slice_expressions"]++
			} else {
				r.Units["index_and_slice_expressions"]++
				r.failAlt("bounds", boundKeys(p, f, in, why), p.InstrPos(in), "%s: %s is not guarded: nothing on the way here ensures that %s, so some input makes the library panic", p.FName(f), exprName(p, in), why)
			}
		})
	}
	r.need("index_and_slice_expressions", 150)
}

func boundKeys(p *Prog, f *ssa.Function, in ssa.Instruction, why string) []string {
	var out []string
	for _, n := range p.OwnerNames(f) {
		out = append(out, n+": "+exprName(p, in)+": "+why)
	}
	return out
}

func (p *Prog) cmdFunc(f *ssa.Function) bool { return false }

// boundProblem: "" not an access, "ok", or what is missing.
func (x *prover) boundProblem(in ssa.Instruction) string {
	idx := func(i ssa.Value, lt term, lk int64, blk *ssa.BasicBlock) string {
		ti, ki := x.lin(i)
		if ti == zero && lt == zero {
			if ki >= 0 && ki < lk {
				return ""
			}
		}
		if _, u := intWidth(i.Type()); !u && !x.prove(zero, ti, ki, blk) {
			return "the index is not negative"
		}
		if !x.prove(ti, lt, lk-ki-1, blk) {
			return "the index is below the length"
		}
		return "ok"
	}
	switch in := in.(type) {
	case *ssa.IndexAddr:
		if x.sortParam(in.X, in.Index, in.Parent()) {
			return "ok"
		}
		t, k := x.lenOf(in.X)
		return idx(in.Index, t, k, in.Block())
	case *ssa.Index:
		t, k := x.lenOf(in.X)
		return idx(in.Index, t, k, in.Block())
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return ""
		}
		t, k := x.lenOf(in.X)
		return idx(in.Index, t, k, in.Block())
	case *ssa.Slice:
		if in.Low == nil && in.High == nil && in.Max == nil {
			return ""
		}
		lt, lk := x.lenOf(in.X)
		ht, hk := lt, lk
		if in.High != nil {
			ht, hk = x.lin(in.High)
			if !x.prove(ht, lt, lk-hk, in.Block()) && !x.withinCap(in.X, ht, hk, in.Block()) {
				return "the upper bound is within the length"
			}
		}
		if in.Low != nil {
			tl, kl := x.lin(in.Low)
			if !x.prove(zero, tl, kl, in.Block()) {
				return "the lower bound is not negative"
			}
			if !x.prove(tl, ht, hk-kl, in.Block()) {
				return "the lower bound does not exceed the upper bound"
			}
		} else if in.High != nil && !x.prove(zero, ht, hk, in.Block()) {
			return "the upper bound is not negative"
		}
		return "ok"
	}
	return ""
}

func (x *prover) withinCap(v ssa.Value, ht term, hk int64, blk *ssa.BasicBlock) bool {
	if ms, ok := x.m.canonOf(v).(*ssa.MakeSlice); ok {
		t, k := x.lin(ms.Cap)
		return x.prove(ht, t, k-hk, blk)
	}
	return false
}

// sortParam: index parameters of sorting callbacks are in range by contract of
// package sort.
func (x *prover) sortParam(s, i ssa.Value, f *ssa.Function) bool {
	prm, ok := i.(*ssa.Parameter)
	if !ok {
		return false
	}
	isPrm := false
	for _, q := range f.Params {
		if q == prm {
			isPrm = true
		}
	}
	if !isPrm {
		return false
	}
	if f.Signature.Recv() != nil && (f.Name() == "Less" || f.Name() == "Swap") && f.Signature.Params().Len() == 2 {
		// the receiver (or a part of it) is what Len counts
		n := namedOf(f.Signature.Recv().Type())
		ln := x.p.Method(n, "Len")
		if ln == nil {
			return false
		}
		same := true
		cnt := 0
		eachInstr(ln, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			cnt++
			t, k := x.lin(ret.Results[0])
			if !t.ln || k != 0 || !sameShape(t.v, ln, x.m.canonOf(s), f) {
				same = false
			}
		})
		return same && cnt > 0
	}
	// closure handed to sort.Slice
	if par := f.Parent(); par != nil {
		found := false
		eachInstr(par, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			pkg, name := extCallee(&c.Call)
			if pkg != "sort" || name != "Slice" && name != "SliceStable" && name != "Search" {
				return
			}
			mc, ok := c.Call.Args[1].(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				return
			}
			if name == "Search" {
				found = true
				return
			}
			mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
			if !ok {
				return
			}
			// the closure reads the same variable
			for bi, b := range mc.Bindings {
				fv := f.FreeVars[bi]
				if rootCell(s) == ssa.Value(fv) && (rootCell(mi.X) == b || mi.X == b) {
					found = true
				}
			}
		})
		return found
	}
	return false
}

func rootCell(v ssa.Value) ssa.Value {
	for d := 0; d < 6; d++ {
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		default:
			return v
		}
	}
	return v
}

// sameShape: both values are the same path from the respective receiver.
func sameShape(a ssa.Value, fa *ssa.Function, b ssa.Value, fb *ssa.Function) bool {
	for d := 0; d < 6; d++ {
		if a == ssa.Value(fa.Params[0]) || b == ssa.Value(fb.Params[0]) {
			return a == ssa.Value(fa.Params[0]) && b == ssa.Value(fb.Params[0])
		}
		switch x := a.(type) {
		case *ssa.UnOp:
			y, ok := b.(*ssa.UnOp)
			if !ok || y.Op != x.Op {
				return false
			}
			a, b = x.X, y.X
		case *ssa.FieldAddr:
			y, ok := b.(*ssa.FieldAddr)
			if !ok || y.Field != x.Field {
				return false
			}
			a, b = x.X, y.X
		case *ssa.Field:
			y, ok := b.(*ssa.Field)
			if !ok || y.Field != x.Field {
				return false
			}
			a, b = x.X, y.X
		case *ssa.Alloc:
			// receiver spilled to a local
			y, ok := b.(*ssa.Alloc)
			if !ok {
				return false
			}
			sx, ok1 := storesTo(x)
			sy, ok2 := storesTo(y)
			_ = ok1
			_ = ok2
			if len(sx) != 1 || len(sy) != 1 {
				return false
			}
			a, b = sx[0].Val, sy[0].Val
		default:
			return false
		}
	}
	return false
}

// exprName renders an access by the names in the source where possible.
func exprName(p *Prog, in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.IndexAddr:
		return valName(p, in.X, 0) + "[" + valName(p, in.Index, 0) + "]"
	case *ssa.Index:
		return valName(p, in.X, 0) + "[" + valName(p, in.Index, 0) + "]"
	case *ssa.Lookup:
		return valName(p, in.X, 0) + "[" + valName(p, in.Index, 0) + "]"
	case *ssa.Slice:
		s := valName(p, in.X, 0) + "["
		if in.Low != nil {
			s += valName(p, in.Low, 0)
		}
		s += ":"
		if in.High != nil {
			s += valName(p, in.High, 0)
		}
		return s + "]"
	}
	return in.String()
}

func valName(p *Prog, v ssa.Value, d int) string {
	if d > 5 {
		return "_"
	}
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value != nil {
			return y.Value.ExactString()
		}
		return "nil"
	case *ssa.Parameter:
		return y.Name()
	case *ssa.FreeVar:
		return y.Name()
	case *ssa.Global:
		return y.Name()
	case *ssa.UnOp:
		return valName(p, y.X, d+1)
	case *ssa.FieldAddr:
		if st, ok := deref(y.X.Type()).Underlying().(*types.Struct); ok {
			return valName(p, y.X, d+1) + "." + st.Field(y.Field).Name()
		}
	case *ssa.Field:
		if st, ok := y.X.Type().Underlying().(*types.Struct); ok {
			return valName(p, y.X, d+1) + "." + st.Field(y.Field).Name()
		}
	case *ssa.IndexAddr:
		return valName(p, y.X, d+1) + "[" + valName(p, y.Index, d+1) + "]"
	case *ssa.BinOp:
		return valName(p, y.X, d+1) + y.Op.String() + valName(p, y.Y, d+1)
	case *ssa.Phi:
		if y.Comment != "" {
			return y.Comment
		}
	case *ssa.Alloc:
		if y.Comment != "" {
			return y.Comment
		}
	case *ssa.Convert:
		return valName(p, y.X, d+1)
	case *ssa.ChangeType:
		return valName(p, y.X, d+1)
	case *ssa.Extract:
		return valName(p, y.Tuple, d+1)
	case *ssa.Slice:
		return exprName(p, y)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				return "len(" + valName(p, y.Call.Args[0], d+1) + ")"
			}
			return b.Name()
		}
		_, n := extCallee(&y.Call)
		return n + "()"
	}
	return "_"
}
