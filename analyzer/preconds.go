package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: divisors are not zero, sizes are valid, library preconditions hold and
// no panic is raised on purpose.

func init() { register("C03", checkPreconds) }

func checkPreconds(p *Prog, r *Result) {
	r.Explain = "Rules div (the divisor of every integer division and remainder is derived to be non-zero from conditions, constants, callers' arguments, callees' results and loop invariants), size (length and capacity of every make are derived to be non-negative and not an unbounded parsed number), call (arguments of library functions that panic on bad arguments: strings.Repeat, time.Date, regexp.MustCompile, ...), panic (no explicit panic is reachable in the library, except the documented refusal to add a node to itself)."
	x := p.Prover()
	tn := p.parsedNumbers()
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		if isInit(f) && f.Parent() == nil && f.Synthetic != "" {
			continue
		}
		keys := func(what string) []string {
			var out []string
			for _, n := range p.OwnerNames(f) {
				out = append(out, n+": "+what)
			}
			return out
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.BinOp:
				if in.Op != token.QUO && in.Op != token.REM {
					return
				}
				if w, _ := intWidth(in.Type()); w == 0 {
					return
				}
				r.Units["divisions"]++
				if x.nonZero(in.Y, in.Block(), nil, 0) {
					r.ok("%s: divisor of %s at %s is never zero", p.FName(f), in.String(), p.InstrPos(in))
				} else {
					r.failAlt("div", keys("divisor "+exprVal(p, in.Y)), p.InstrPos(in), "%s: the divisor %s can be zero here, which makes the library panic", p.FName(f), exprVal(p, in.Y))
				}
			case *ssa.MakeSlice:
				for i, v := range []ssa.Value{in.Len, in.Cap} {
					if i == 1 && in.Cap == in.Len {
						continue
					}
					if k, ok := v.(*ssa.Const); ok && k.Value != nil {
						if constant.Sign(k.Value) >= 0 {
							continue
						}
					}
					r.Units["sizes"]++
					what := [2]string{"length", "capacity"}[i] + " " + exprVal(p, v)
					t, k := x.lin(v)
					if !x.prove(zero, t, k, in.Block()) && !callersNumber(p, t, k) {
						r.failAlt("size", keys(what), p.InstrPos(in), "%s: the %s given to make may be negative, which makes the library panic", p.FName(f), what)
					} else if tn.tainted(v) && !x.prove(t, zero, 1<<31-k, in.Block()) {
						r.failAlt("size", keys(what), p.InstrPos(in), "%s: the %s given to make is a number parsed from input without an upper limit", p.FName(f), what)
					} else {
						r.ok("%s: %s of make at %s is valid", p.FName(f), what, p.InstrPos(in))
					}
				}
			case *ssa.MakeMap:
				if in.Reserve != nil {
					if _, ok := intConst(in.Reserve); !ok && tn.tainted(in.Reserve) {
						r.failAlt("size", keys("map size"), p.InstrPos(in), "%s: the map size is a number parsed from input without an upper limit", p.FName(f))
					}
				}
			case *ssa.Panic:
				if in.Pos() == token.NoPos {
					return
				}
				r.Units["panics"]++
				if p.selfRefusal(in) {
					r.ok("%s: panic at %s only refuses to make a node its own child", p.FName(f), p.InstrPos(in))
					return
				}
				r.failAlt("panic", keys("panic"), p.InstrPos(in), "%s raises a panic instead of returning an error", p.FName(f))
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			pkg, name := extCallee(c.Common())
			args := c.Common().Args
			bad := ""
			switch pkg + "." + name {
			case "strings.Repeat", "bytes.Repeat":
				t, k := x.lin(args[1])
				if !x.prove(zero, t, k, in.Block()) && !callersNumber(p, t, k) {
					bad = "a repeat count that may be negative"
				} else if tn.tainted(args[1]) && !x.prove(t, zero, 1<<31-k, in.Block()) {
					bad = "an unlimited parsed number as repeat count"
				}
			case "time.Date":
				if isNilConst(args[len(args)-1]) {
					bad = "a nil location"
				}
			case "time.In":
				if len(args) == 2 && isNilConst(args[1]) {
					bad = "a nil location"
				}
			case "regexp.MustCompile", "template.Must":
				if _, ok := strConst(args[0]); !ok {
					bad = "a pattern that is not constant"
				}
			case "time.NewTicker":
				t, k := x.lin(args[0])
				if !x.prove(zero, t, k-1, in.Block()) {
					bad = "a period that may not be positive"
				}
			case "strings.NewReplacer":
				bad = oddVariadic(args)
			case "bytes.Grow", "strings.Grow", "bytes.Truncate":
				if len(args) == 2 {
					t, k := x.lin(args[1])
					if !x.prove(zero, t, k, in.Block()) {
						bad = "a count that may be negative"
					}
				}
			default:
				return
			}
			r.Units["calls_with_preconditions"]++
			if bad == "" {
				r.ok("%s: %s.%s at %s gets valid arguments", p.FName(f), pkg, name, p.InstrPos(in))
			} else {
				r.failAlt("call", keys(pkg+"."+name), p.InstrPos(in), "%s: %s.%s is given %s, on which it panics", p.FName(f), pkg, name, bad)
			}
		})
	}
	r.need("divisions", 5)
	r.need("sizes", 10)
}

// callersNumber: an argument of an exported function, used as it is: choosing a
// sensible one is up to the caller of the library.
func callersNumber(p *Prog, t term, k int64) bool {
	prm, ok := t.v.(*ssa.Parameter)
	return ok && !t.ln && k >= 0 && !p.closed(prm.Parent())
}

func oddVariadic(args []ssa.Value) string {
	if len(args) != 1 {
		return ""
	}
	if s, ok := args[0].(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && at.Len()%2 == 1 {
				return "an odd number of arguments"
			}
		}
	}
	return ""
}

func exprVal(p *Prog, v ssa.Value) string {
	s := valName(p, v, 0)
	if s == "" {
		s = "value"
	}
	return s
}

// selfRefusal: the panic happens only when receiver and argument are the same
// pointer.
func (p *Prog) selfRefusal(in *ssa.Panic) bool {
	b := in.Block()
	for ; b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		pb := b.Preds[0]
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (bo.Op == token.EQL) != (pb.Succs[0] == b) || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		_, p1 := bo.X.(*ssa.Parameter)
		_, p2 := bo.Y.(*ssa.Parameter)
		if p1 && p2 && isPtr(bo.X.Type()) {
			return true
		}
	}
	return false
}

// nonZero: v is not zero at blk (and on the edge to it, when given).
func (x *prover) nonZero(v ssa.Value, blk, edge *ssa.BasicBlock, d int) bool {
	if d > 8 {
		return false
	}
	if c, ok := intConst(v); ok {
		return c != 0
	}
	t, k := x.lin(v)
	if t == zero {
		return k != 0
	}
	test := func(t term, k int64) bool {
		facts := append([]dif{}, x.domFacts(blk)...)
		if edge != nil {
			facts = append(facts, x.edgeFacts(blk, edge)...)
		}
		for _, f := range facts {
			if f.ne && (f.a == t && f.b == zero && f.k == -k || f.b == t && f.a == zero && f.k == k) {
				return true
			}
		}
		c := func() *ctx { return &ctx{open: map[goal]bool{}} }
		x.steps, x.maxD = 0, 9
		return x.pr(goal{zero, t, k - 1, blk, edge}, c()) || x.pr(goal{t, zero, -1 - k, blk, edge}, c())
	}
	if test(t, k) {
		return true
	}
	if k != 0 {
		return false
	}
	cv := x.m.canonOf(v)
	switch y := cv.(type) {
	case *ssa.Convert:
		wf, _ := intWidth(y.X.Type())
		wt, _ := intWidth(y.Type())
		return wf > 0 && wt >= wf && x.nonZero(y.X, blk, edge, d+1)
	case *ssa.ChangeType:
		return x.nonZero(y.X, blk, edge, d+1)
	case *ssa.UnOp:
		if y.Op == token.SUB {
			return x.nonZero(y.X, blk, edge, d+1)
		}
	case *ssa.Phi:
		for _, h := range x.nzOpen {
			if h == y {
				return false
			}
		}
		if x.eitherNonZero(y, blk, edge, d) {
			return true
		}
		x.nzOpen = append(x.nzOpen, y)
		defer func() { x.nzOpen = x.nzOpen[:len(x.nzOpen)-1] }()
		for i, e := range y.Edges {
			if e != y && !x.nonZero(e, y.Block().Preds[i], y.Block(), d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return x.nonZeroResult(y, 0, blk, edge, d)
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return x.nonZeroResult(c, y.Index, blk, edge, d)
		}
	case *ssa.Parameter:
		f := y.Parent()
		if cl, ok := x.nzBind[y]; ok {
			saved := x.nzBind
			x.nzBind = nil
			ok := x.nonZero(callArgs(&cl.Call)[prmIndex(f, y)], cl.Block(), nil, d+1)
			x.nzBind = saved
			return ok
		}
		if !x.p.closed(f) || len(x.p.Callers(f)) == 0 {
			return false
		}
		i := prmIndex(f, y)
		for _, ci := range x.p.Callers(f) {
			args := callArgs(ci.Common())
			if i >= len(args) || !x.nonZero(args[i], ci.Block(), nil, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// nonZeroResult: all returns of the callee compatible with what is known about
// the call's other results are non-zero.
func (x *prover) nonZeroResult(c *ssa.Call, i int, blk, edge *ssa.BasicBlock, d int) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "max" {
			for _, a := range c.Call.Args {
				if n, ok := intConst(a); ok && n > 0 {
					return true
				}
			}
		}
		return false
	}
	cs := x.p.Callees(&c.Call)
	if len(cs) != 1 || !x.p.InModule(cs[0]) || cs[0].Blocks == nil {
		return false
	}
	f := cs[0]
	oc := x.outcomes(c, blk, edge)
	saved := x.nzBind
	nb := map[*ssa.Parameter]*ssa.Call{}
	for _, prm := range f.Params {
		nb[prm] = c
	}
	x.nzBind = nb
	defer func() { x.nzBind = saved }()
	ok, n := true, 0
	eachInstr(f, func(in ssa.Instruction) {
		ret, isRet := in.(*ssa.Return)
		if !isRet || !ok || x.excluded(ret, oc) {
			return
		}
		n++
		for _, v := range retValues(ret, i) {
			if !x.nonZero(v, ret.Block(), nil, d+1) {
				ok = false
			}
		}
	})
	return ok && n > 0
}

// eitherNonZero: loop invariant "a or b is not zero" over two variables of one
// loop, used where the other one is known to be zero (Euclid's algorithm).
func (x *prover) eitherNonZero(a *ssa.Phi, blk, edge *ssa.BasicBlock, d int) bool {
	isZero := func(v ssa.Value) bool {
		t, k := x.lin(v)
		facts := append([]dif{}, x.domFacts(blk)...)
		if edge != nil {
			facts = append(facts, x.edgeFacts(blk, edge)...)
		}
		le, ge := false, false
		for _, f := range facts {
			if f.ne {
				continue
			}
			le = le || f.a == t && f.b == zero && f.k <= -k
			ge = ge || f.a == zero && f.b == t && f.k <= k
		}
		return le && ge
	}
	for _, in := range a.Block().Instrs {
		b, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b == a || !isZero(b) {
			continue
		}
		all := true
		for i := range a.Edges {
			pb := a.Block().Preds[i]
			x.nzOpen = append(x.nzOpen, a, b)
			if !x.nonZero(a.Edges[i], pb, a.Block(), d+1) && !x.nonZero(b.Edges[i], pb, a.Block(), d+1) {
				all = false
			}
			x.nzOpen = x.nzOpen[:len(x.nzOpen)-2]
		}
		if all {
			return true
		}
	}
	return false
}

// ---- numbers parsed from text ----

type parsedNums struct {
	p      *Prog
	fields map[*types.Var]bool
	memo   map[ssa.Value]int
}

func (p *Prog) parsedNumbers() *parsedNums {
	t := &parsedNums{p: p, fields: map[*types.Var]bool{}, memo: map[ssa.Value]int{}}
	for ch := true; ch; {
		ch = false
		t.memo = map[ssa.Value]int{}
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && t.tainted(st.Val) {
						fv := fieldVar(fa)
						if fv != nil && !t.fields[fv] {
							t.fields[fv] = true
							ch = true
						}
					}
				}
			})
		}
	}
	t.memo = map[ssa.Value]int{}
	return t
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || fa.Field >= st.NumFields() {
		return nil
	}
	return st.Field(fa.Field)
}

func (t *parsedNums) tainted(v ssa.Value) bool {
	if s, ok := t.memo[v]; ok {
		return s == 1
	}
	t.memo[v] = 0
	r := t.raw(v)
	if r {
		t.memo[v] = 1
	}
	return r
}

func (t *parsedNums) raw(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.BinOp:
		return t.tainted(v.X) || t.tainted(v.Y)
	case *ssa.Convert:
		return t.tainted(v.X)
	case *ssa.ChangeType:
		return t.tainted(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if t.tainted(e) {
				return true
			}
		}
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok || v.Index != 0 {
			return false
		}
		pkg, name := extCallee(&c.Call)
		return pkg == "strconv" && (name == "Atoi" || strings.HasPrefix(name, "Parse"))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				return t.fields[fieldVar(a)]
			case *ssa.Alloc:
				ss, _ := storesTo(a)
				for _, s := range ss {
					if t.tainted(s.Val) {
						return true
					}
				}
			}
		}
	case *ssa.Field:
		if st, ok := v.X.Type().Underlying().(*types.Struct); ok {
			return t.fields[st.Field(v.Field)]
		}
	}
	return false
}
