package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A demand-driven prover for difference constraints a - b <= k over SSA
// integers and lengths: definitions, dominating branch conditions, induction
// over phis, library result ranges, callers' arguments and callees' results.

type term struct {
	v  ssa.Value
	ln bool // length of v
}

var zero = term{}

func (t term) String() string {
	if t.v == nil {
		return "0"
	}
	if t.ln {
		return "len(" + t.v.Name() + ")"
	}
	return t.v.Name()
}

type dif struct {
	a, b term
	k    int64
	ne   bool // a - b != k instead of <=
}

type prover struct {
	p      *Prog
	m      *memAn
	steps  int
	maxD   int
	facts  map[[2]*ssa.BasicBlock][]dif
	dom    map[*ssa.BasicBlock][]dif
	post   map[string]bool
	depth  int             // interprocedural depth
	used   map[string]bool // accepted assumptions applied
	nzOpen []*ssa.Phi
	nzBind map[*ssa.Parameter]*ssa.Call
}

func (p *Prog) Prover() *prover {
	if v, ok := p.cache["prover"]; ok {
		return v.(*prover)
	}
	x := &prover{p: p, m: p.Mem(), facts: map[[2]*ssa.BasicBlock][]dif{}, dom: map[*ssa.BasicBlock][]dif{}, post: map[string]bool{}, used: map[string]bool{}}
	p.cache["prover"] = x
	return x
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func strConst(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func intWidth(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, false
	case types.Int32:
		return 32, false
	case types.Int16:
		return 16, false
	case types.Int8:
		return 8, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	case types.Uint32:
		return 32, true
	case types.Uint16:
		return 16, true
	case types.Uint8:
		return 8, true
	}
	return 0, false
}

// lin: v = term + k.
func (x *prover) lin(v ssa.Value) (term, int64) {
	var k int64
	for n := 0; n < 20; n++ {
		if c, ok := intConst(v); ok {
			return zero, k + c
		}
		v = x.m.canonOf(v)
		switch d := v.(type) {
		case *ssa.BinOp:
			if c, ok := intConst(d.Y); ok && (d.Op == token.ADD || d.Op == token.SUB) {
				if w, u := intWidth(d.Type()); w < 64 || u {
					return term{v, false}, k // may wrap
				}
				if d.Op == token.ADD {
					k += c
				} else {
					k -= c
				}
				v = d.X
				continue
			}
			if c, ok := intConst(d.X); ok && d.Op == token.ADD {
				if w, u := intWidth(d.Type()); w < 64 || u {
					return term{v, false}, k
				}
				k += c
				v = d.Y
				continue
			}
		case *ssa.Convert:
			wf, uf := intWidth(d.X.Type())
			wt, ut := intWidth(d.Type())
			if wf > 0 && wt > 0 && (wt > wf && (uf || !ut) || wt == wf && uf == ut) {
				v = d.X
				continue
			}
		case *ssa.Call:
			if b, ok := d.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				t, c := x.lenOf(d.Call.Args[0])
				return t, k + c
			}
			if pkg, name := extCallee(&d.Call); pkg == "reflect" && name == "Len" && len(d.Call.Args) == 1 {
				return term{v, false}, k
			}
		}
		return term{v, false}, k
	}
	return term{v, false}, k
}

// lenOf: the length of v as term + k.
func (x *prover) lenOf(v ssa.Value) (term, int64) {
	for n := 0; n < 20; n++ {
		if s, ok := strConst(v); ok {
			return zero, int64(len(s))
		}
		if isNilConst(v) {
			return zero, 0
		}
		v = x.m.canonOf(v)
		if at, ok := deref(v.Type()).Underlying().(*types.Array); ok {
			return zero, at.Len()
		}
		switch d := v.(type) {
		case *ssa.Convert:
			if sameBytes(d.X.Type(), d.Type()) {
				v = d.X
				continue
			}
		case *ssa.MakeSlice:
			return x.lin(d.Len)
		case *ssa.Slice:
			var lt term
			var lk int64
			if d.Low != nil {
				lt, lk = x.lin(d.Low)
			}
			var ht term
			var hk int64
			if d.High != nil {
				ht, hk = x.lin(d.High)
			} else {
				ht, hk = x.lenOf(d.X)
			}
			if lt == zero {
				return ht, hk - lk
			}
			if lt == ht {
				return zero, hk - lk
			}
		case *ssa.Call:
			if b, ok := d.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				t, k := x.lenOf(d.Call.Args[0])
				t2, k2 := x.lenOf(d.Call.Args[1])
				if t2 == zero {
					return t, k + k2
				}
				if t == zero {
					return t2, k + k2
				}
			}
		case *ssa.BinOp:
			if d.Op == token.ADD {
				t, k := x.lenOf(d.X)
				t2, k2 := x.lenOf(d.Y)
				if t2 == zero {
					return t, k + k2
				}
				if t == zero {
					return t2, k + k2
				}
			}
		}
		return term{v, true}, 0
	}
	return term{v, true}, 0
}

func sameBytes(a, b types.Type) bool {
	is := func(t types.Type) int {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return 1
			}
		case *types.Slice:
			if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
				return 2
			}
		}
		return 0
	}
	return is(a) > 0 && is(b) > 0
}

// ---- facts ----

func (x *prover) addLE(out *[]dif, a, b ssa.Value, k int64) { // a - b <= k
	ta, ka := x.lin(a)
	tb, kb := x.lin(b)
	*out = append(*out, dif{ta, tb, k - ka + kb, false})
}

func (x *prover) condFacts(c ssa.Value, truth bool, out *[]dif, d int) {
	if d > 4 {
		return
	}
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			x.condFacts(c.X, !truth, out, d+1)
		}
	case *ssa.Phi:
		// a && b, a || b as values: the phi is truth only via edges that can be truth
		var live []int
		for i, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
				continue
			}
			live = append(live, i)
		}
		if len(live) == 1 {
			x.condFacts(c.Edges[live[0]], truth, out, d+1)
			pb := c.Block().Preds[live[0]]
			*out = append(*out, x.edgeFacts(pb, c.Block())...)
			if len(pb.Preds) == 1 {
				*out = append(*out, x.edgeFacts(pb.Preds[0], pb)...)
			}
		}
	case *ssa.BinOp:
		op := c.Op
		if !truth {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			default:
				return
			}
		}
		if w, _ := intWidth(c.X.Type()); w > 0 {
			ta, ka := x.lin(c.X)
			tb, kb := x.lin(c.Y)
			k := kb - ka // a - b op k
			switch op {
			case token.LSS:
				*out = append(*out, dif{ta, tb, k - 1, false})
			case token.LEQ:
				*out = append(*out, dif{ta, tb, k, false})
			case token.GTR:
				*out = append(*out, dif{tb, ta, -k - 1, false})
			case token.GEQ:
				*out = append(*out, dif{tb, ta, -k, false})
			case token.EQL:
				*out = append(*out, dif{ta, tb, k, false}, dif{tb, ta, -k, false})
			case token.NEQ:
				*out = append(*out, dif{ta, tb, k, true})
			}
			return
		}
		// a parsed number was not empty
		for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if !isErrorType(pr[0].Type()) || !isNilConst(pr[1]) || op != token.EQL {
				continue
			}
			if ex, ok := x.m.canonOf(pr[0]).(*ssa.Extract); ok {
				if cl, ok := ex.Tuple.(*ssa.Call); ok {
					if pkg, name := extCallee(&cl.Call); pkg == "strconv" && (name == "Atoi" || strings.HasPrefix(name, "Parse")) {
						t, k := x.lenOf(cl.Call.Args[0])
						*out = append(*out, dif{zero, t, k - 1, false})
					}
				}
			}
		}
		// string against constant, slice against nil
		for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if s, ok := strConst(pr[1]); ok {
				t, k := x.lenOf(pr[0])
				if op == token.EQL {
					*out = append(*out, dif{t, zero, int64(len(s)) - k, false}, dif{zero, t, k - int64(len(s)), false})
				} else if op == token.NEQ && s == "" {
					*out = append(*out, dif{zero, t, k - 1, false})
				}
			}
			if _, isS := pr[0].Type().Underlying().(*types.Slice); isS && isNilConst(pr[1]) {
				if op == token.EQL {
					t, k := x.lenOf(pr[0])
					*out = append(*out, dif{t, zero, -k, false})
				} else if op == token.NEQ {
					if n, ok := x.nonNilLen(pr[0]); ok {
						t, k := x.lenOf(pr[0])
						*out = append(*out, dif{zero, t, k - n, false}, dif{t, zero, n - k, false})
					}
				}
			}
		}
	case *ssa.Call:
		pkg, name := extCallee(&c.Call)
		args := c.Call.Args
		if pkg == "strings" || pkg == "bytes" {
			switch name {
			case "HasPrefix", "HasSuffix", "Contains":
				if truth {
					ta, ka := x.lenOf(args[1])
					tb, kb := x.lenOf(args[0])
					*out = append(*out, dif{ta, tb, kb - ka, false})
				}
			case "EqualFold":
			case "Equal":
				if truth {
					ta, ka := x.lenOf(args[1])
					tb, kb := x.lenOf(args[0])
					*out = append(*out, dif{ta, tb, kb - ka, false}, dif{tb, ta, ka - kb, false})
				}
			}
			return
		}
		// predicate of the module returning one comparison
		cs := x.p.Callees(&c.Call)
		if len(cs) == 1 && x.p.InModule(cs[0]) {
			x.calleeFacts(c, cs[0], truth, out, d)
		}
	}
}

// calleeFacts: a small predicate function whose result implies facts about the
// lengths of its arguments.
func (x *prover) calleeFacts(c *ssa.Call, g *ssa.Function, truth bool, out *[]dif, d int) {
	if len(g.Blocks) == 0 || len(g.Blocks) > 12 {
		return
	}
	// facts common to all returns with that truth value
	var sets [][]dif
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		r := ret.Results[0]
		if k, ok := r.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
			continue
		}
		var fs []dif
		x.condFacts(r, truth, &fs, d+1)
		fs = append(fs, x.domFacts(b)...)
		var keep []dif
		for _, f := range fs {
			a, ka, ok1 := x.mapTerm(f.a, g, &c.Call, c)
			b, kb, ok2 := x.mapTerm(f.b, g, &c.Call, c)
			if ok1 && ok2 {
				keep = append(keep, dif{a, b, f.k - ka + kb, f.ne})
			}
		}
		sets = append(sets, keep)
	}
	if len(sets) == 0 {
		return
	}
	for _, f := range sets[0] {
		in := true
		for _, s := range sets[1:] {
			has := false
			for _, h := range s {
				if h == f {
					has = true
				}
			}
			in = in && has
		}
		if in {
			*out = append(*out, f)
		}
	}
}

// nonNilLen: the fixed length of a value when it is not nil (regexp matches).
func (x *prover) nonNilLen(v ssa.Value) (int64, bool) {
	c, ok := x.m.canonOf(v).(*ssa.Call)
	if !ok {
		return 0, false
	}
	pkg, name := extCallee(&c.Call)
	if pkg != "regexp" {
		return 0, false
	}
	var mult int64 = 1
	switch name {
	case "FindStringSubmatch", "FindSubmatch":
	case "FindStringSubmatchIndex", "FindSubmatchIndex":
		mult = 2
	case "FindStringIndex", "FindIndex":
		return 2, true
	default:
		return 0, false
	}
	pat, ok := x.p.regexpOf(c.Call.Args[0])
	if !ok {
		return 0, false
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return 0, false
	}
	return mult * int64(re.NumSubexp()+1), true
}

// regexpOf: the constant pattern a compiled expression was made from.
func (p *Prog) regexpOf(v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.Call:
		if pkg, name := extCallee(&v.Call); pkg == "regexp" && (name == "MustCompile" || name == "Compile") {
			return strConst(v.Call.Args[0])
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			var pat string
			n := 0
			for _, f := range p.Funcs {
				eachInstr(f, func(in ssa.Instruction) {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						n++
						if q, ok := p.regexpOf(s.Val); ok {
							pat = q
						} else {
							n++
						}
					}
				})
			}
			return pat, n == 1
		}
	}
	return "", false
}

func (x *prover) edgeFacts(from, to *ssa.BasicBlock) []dif {
	key := [2]*ssa.BasicBlock{from, to}
	if f, ok := x.facts[key]; ok {
		return f
	}
	x.facts[key] = nil
	var out []dif
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if ok && from.Succs[0] != from.Succs[1] {
		x.condFacts(iff.Cond, from.Succs[0] == to, &out, 0)
	}
	x.facts[key] = out
	return out
}

// domFacts: facts from branches dominating b.
func (x *prover) domFacts(b *ssa.BasicBlock) []dif {
	if f, ok := x.dom[b]; ok {
		return f
	}
	x.dom[b] = nil
	var out []dif
	if len(b.Preds) == 1 {
		out = append(out, x.edgeFacts(b.Preds[0], b)...)
	}
	if id := b.Idom(); id != nil {
		out = append(out, x.domFacts(id)...)
	}
	x.dom[b] = out
	return out
}

// ---- proving ----

type goal struct {
	a, b term
	k    int64
	blk  *ssa.BasicBlock
	edge *ssa.BasicBlock // facts of the edge blk -> edge also hold
}

type ctx struct {
	hyp  []goal // induction hypotheses
	open map[goal]bool
	d    int
	ip   int
	xtra []dif // facts that hold later on the path, about values fixed by now
}

const maxSteps = 60000

// Prove a - b <= k at block blk.
func (x *prover) prove(a, b term, k int64, blk *ssa.BasicBlock) bool {
	for _, d := range []int{3, 5, 7, 9, 12, 16, 24} {
		x.steps = 0
		x.maxD = d
		c := &ctx{open: map[goal]bool{}}
		if x.pr(goal{a, b, k, blk, nil}, c) {
			return true
		}
		if x.steps > maxSteps {
			return false
		}
	}
	return false
}

// proveOn is prove with the facts of the edge blk -> edge.
func (x *prover) proveOn(a, b term, k int64, blk, edge *ssa.BasicBlock) bool {
	for _, d := range []int{3, 5, 7, 9, 12, 16} {
		x.steps = 0
		x.maxD = d
		c := &ctx{open: map[goal]bool{}}
		if x.pr(goal{a, b, k, blk, edge}, c) {
			return true
		}
		if x.steps > maxSteps {
			return false
		}
	}
	return false
}

func (x *prover) proveVals(a, b ssa.Value, k int64, blk *ssa.BasicBlock) bool {
	ta, ka := x.lin(a)
	tb, kb := x.lin(b)
	return x.prove(ta, tb, k-ka+kb, blk)
}

func defBlock(t term) *ssa.BasicBlock {
	if t.v == nil {
		return nil
	}
	if in, ok := t.v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

func availAt(t term, b *ssa.BasicBlock) bool {
	d := defBlock(t)
	return d == nil || d == b || d.Dominates(b)
}

// stable: t keeps its value over all iterations of the loop headed by h.
func stable(t term, h *ssa.BasicBlock) bool {
	d := defBlock(t)
	return d == nil || d != h && d.Dominates(h)
}

// invariantLoad: t is loaded in the loop headed by h, from a place that is the
// same in all iterations and that the loop does not write to.
func (x *prover) invariantLoad(t term, h *ssa.BasicBlock) bool {
	l, ok := t.v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL || l.Block() != h {
		return false
	}
	a := l.X
	for {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
			continue
		}
		break
	}
	if in, ok := a.(ssa.Instruction); ok && (in.Block() == h || !in.Block().Dominates(h)) {
		return false
	}
	// nothing before the load in the header, nothing in the loop
	for b := range blocksOfLoop(h) {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers:
				if x.m.mayWrite(in, l.X) {
					return false
				}
			}
		}
	}
	return true
}

func (x *prover) pr(g goal, c *ctx) bool {
	x.steps++
	if x.steps > maxSteps {
		return false
	}
	if g.a == g.b {
		return g.k >= 0
	}
	for _, h := range c.hyp {
		if h.a == g.a && h.b == g.b && h.k <= g.k {
			return true
		}
	}
	// bounds from types
	if hi, ok := typeHi(g.a); ok && g.b == zero && hi <= g.k {
		return true
	}
	if lo, ok := typeLo(g.b); ok && g.a == zero && -lo <= g.k {
		return true
	}
	if c.d > x.maxD || c.open[g] {
		return false
	}
	c.open[g] = true
	c.d++
	defer func() { c.d--; delete(c.open, g) }()

	sub := func(a, b term, k int64) bool { return x.pr(goal{a, b, k, g.blk, g.edge}, c) }
	subV := func(a term, ka int64, b term, kb int64, k int64) bool { return sub(a, b, k-ka+kb) }
	_ = subV

	var facts []dif
	if g.edge != nil {
		facts = append(facts, x.edgeFacts(g.blk, g.edge)...)
	}
	facts = append(facts, x.domFacts(g.blk)...)
	// 1. direct facts
	for _, f := range facts {
		if f.ne {
			if f.a == g.a && f.b == g.b && f.k == g.k+1 || f.a == g.b && f.b == g.a && -f.k == g.k+1 {
				if sub(g.a, g.b, g.k+1) {
					return true
				}
			}
			continue
		}
		if f.a == g.a && f.b == g.b && f.k <= g.k {
			return true
		}
	}
	// 2. definitions
	if x.defUpper(g, c, sub) || x.defLower(g, c, sub) {
		return true
	}
	// 3. chains over facts
	for _, f := range facts {
		if f.ne {
			continue
		}
		if f.a == g.a && f.b != g.b && f.b != g.a {
			if sub(f.b, g.b, g.k-f.k) {
				return true
			}
		}
		if f.b == g.b && f.a != g.a && f.a != g.b {
			if sub(g.a, f.a, g.k-f.k) {
				return true
			}
		}
	}
	if x.elemSplit(g, c) {
		return true
	}
	// 4. phis
	if x.phiSplit(g, c) {
		return true
	}
	// 5. paths joining here
	if x.joinSplit(g, c) {
		return true
	}
	// 6. callers
	if x.fromCallers(g, c) {
		return true
	}
	return false
}

func typeHi(t term) (int64, bool) {
	if t.v == nil || t.ln {
		return 0, false
	}
	w, u := intWidth(t.v.Type())
	switch {
	case w == 8 && u:
		return 255, true
	case w == 16 && u:
		return 65535, true
	case w == 8:
		return 127, true
	case w == 16:
		return 32767, true
	case w == 32:
		return 1<<32 - 1, true
	}
	return 0, false
}

func typeLo(t term) (int64, bool) {
	if t.v == nil {
		return 0, true
	}
	if t.ln {
		return 0, true
	}
	w, u := intWidth(t.v.Type())
	if u {
		return 0, true
	}
	switch w {
	case 8:
		return -128, true
	case 16:
		return -32768, true
	case 32:
		return -1 << 31, true
	}
	return 0, false
}

// resLen: bounds of the length of a library result.
func (x *prover) callLen(v ssa.Value) (lo int64, hasLo bool, ups []dif) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return
	}
	pkg, name := extCallee(&c.Call)
	args := c.Call.Args
	up := func(arg ssa.Value) {
		t, k := x.lenOf(arg)
		ups = append(ups, dif{term{v, true}, t, k, false})
	}
	switch pkg {
	case "strings", "bytes":
		switch name {
		case "Split", "SplitAfter":
			if s, ok := strConst(args[1]); ok && s != "" {
				return 1, true, nil
			}
			if pkg == "bytes" && x.proveLenGE(args[1], 1, c.Block()) {
				return 1, true, nil
			}
		case "SplitN", "SplitAfterN":
			if n, ok := intConst(args[2]); ok && n != 0 {
				if s, ok := strConst(args[1]); ok && s != "" {
					if n > 0 {
						ups = append(ups, dif{term{v, true}, zero, n, false})
					}
					return 1, true, ups
				}
			}
		case "TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc", "TrimLeftFunc", "TrimRightFunc":
			up(args[0])
		}
	}
	return
}

func (x *prover) proveLenGE(v ssa.Value, n int64, blk *ssa.BasicBlock) bool {
	t, k := x.lenOf(v)
	return x.pr(goal{zero, t, k - n, blk, nil}, &ctx{open: map[goal]bool{}, d: 2})
}

// defUpper: bounds above on g.a from its definition.
func (x *prover) defUpper(g goal, c *ctx, sub func(a, b term, k int64) bool) bool {
	v := g.a.v
	if v == nil {
		return false
	}
	if g.a.ln {
		if cl, ri := resultOf(v); cl != nil && x.fromCallee(g, cl, ri, c, true) {
			return true
		}
		_, _, ups := x.callLen(v)
		for _, u := range ups {
			if sub(u.b, g.b, g.k-u.k) {
				return true
			}
		}
		if s, ok := v.(*ssa.Slice); ok {
			// len = high - low, low >= 0
			var ht term
			var hk int64
			if s.High != nil {
				ht, hk = x.lin(s.High)
			} else {
				ht, hk = x.lenOf(s.X)
			}
			lt, lk := x.lin(s.Low)
			// high - low - b <= k
			if g.b == ht && sub(zero, lt, g.k-hk+lk) {
				return true
			}
			if g.b == zero && sub(ht, lt, g.k-hk+lk) {
				return true
			}
			if sub(ht, g.b, g.k-hk) { // low >= 0 or the slicing would have failed
				return true
			}
		}
		return false
	}
	switch d := v.(type) {
	case *ssa.BinOp:
		switch d.Op {
		case token.ADD:
			tx, kx := x.lin(d.X)
			ty, ky := x.lin(d.Y)
			if g.b == tx && sub(ty, zero, g.k-kx-ky) {
				return true
			}
			if g.b == ty && sub(tx, zero, g.k-kx-ky) {
				return true
			}
			// one side bounded by a constant
			for _, u := range []int64{0, -1, 1} {
				if sub(ty, zero, u-ky) && sub(tx, g.b, g.k-kx-u) {
					return true
				}
				if sub(tx, zero, u-kx) && sub(ty, g.b, g.k-ky-u) {
					return true
				}
			}
			// y <= len(z) - ... : i + j with j < len(s[i:])
			if in, off, ok := x.relativeTo(d.Y, d.X); ok { // y - len(base) <= off - x
				if sub(in, g.b, g.k-off) {
					return true
				}
			}
			if in, off, ok := x.relativeTo(d.X, d.Y); ok {
				if sub(in, g.b, g.k-off) {
					return true
				}
			}
		case token.SUB:
			tx, kx := x.lin(d.X)
			ty, ky := x.lin(d.Y)
			if g.b == zero && sub(tx, ty, g.k-kx+ky) {
				return true
			}
			if g.b == tx && sub(zero, ty, g.k-kx+ky) {
				return true
			}
			if sub(zero, ty, ky) && sub(tx, g.b, g.k-kx) {
				return true
			}
		case token.QUO, token.SHR:
			if n, ok := intConst(d.Y); ok && n >= 1 {
				tx, kx := x.lin(d.X)
				if sub(zero, tx, kx) && sub(tx, g.b, g.k-kx) {
					return true
				}
			}
		case token.REM:
			if n, ok := intConst(d.Y); ok && n > 0 && g.b == zero && n-1 <= g.k {
				return true
			}
			ty, ky := x.lin(d.Y)
			if sub(ty, g.b, g.k-ky+1) {
				return true
			}
		case token.AND:
			for _, o := range []ssa.Value{d.X, d.Y} {
				if n, ok := intConst(o); ok && n >= 0 && g.b == zero && n <= g.k {
					return true
				}
			}
		}
	case *ssa.Call:
		for _, u := range x.callUpper(d) {
			if sub(u.b, g.b, g.k-u.k) {
				return true
			}
		}
		if x.fromCallee(g, d, 0, c, true) {
			return true
		}
	case *ssa.Extract:
		if cl, ok := d.Tuple.(*ssa.Call); ok && x.fromCallee(g, cl, d.Index, c, true) {
			return true
		}
		if n, ok := d.Tuple.(*ssa.Next); ok && n.IsString && d.Index == 1 {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				t, k := x.lenOf(rg.X)
				if sub(t, g.b, g.k+1-k) {
					return true
				}
			}
		}
		if cl, ok := d.Tuple.(*ssa.Call); ok {
			for _, u := range x.callUpperN(cl, d.Index, d) {
				if sub(u.b, g.b, g.k-u.k) {
					return true
				}
			}
		}
	case *ssa.Convert:
		// narrowing of a value known to fit
		wt, _ := intWidth(d.Type())
		wf, _ := intWidth(d.X.Type())
		if wt > 0 && wf > 0 {
			tx, kx := x.lin(d.X)
			if sub(zero, tx, kx) && (wt >= 32 || sub(tx, zero, int64(1)<<uint(wt-1)-1-kx)) && sub(tx, g.b, g.k-kx) {
				return true
			}
		}
	}
	return false
}

// relativeTo: y <= len(base[low:]) + off where low is x: y + x <= len(base) + off.
func (x *prover) relativeTo(y, xv ssa.Value) (term, int64, bool) {
	y = x.m.canonOf(y)
	c, ok := y.(*ssa.Call)
	if !ok {
		return zero, 0, false
	}
	var arg ssa.Value
	off := int64(0)
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		arg = c.Call.Args[0]
	} else if a, o, ok := indexCall(x, c); ok {
		arg, off = a, o
	} else {
		return zero, 0, false
	}
	sl, ok := x.m.canonOf(arg).(*ssa.Slice)
	if !ok || sl.Low == nil {
		return zero, 0, false
	}
	tl, kl := x.lin(sl.Low)
	tx, kx := x.lin(xv)
	if tl != tx {
		return zero, 0, false
	}
	var ht term
	var hk int64
	if sl.High != nil {
		ht, hk = x.lin(sl.High)
	} else {
		ht, hk = x.lenOf(sl.X)
	}
	// y <= H - L + off ; x = L - kl + kx => x + y <= H + off + kx - kl
	return ht, hk + off + kx - kl, true
}

// indexCall: result of a search is at most len(arg)+off (off < 0).
func indexCall(x *prover, c *ssa.Call) (ssa.Value, int64, bool) {
	pkg, name := extCallee(&c.Call)
	if pkg != "strings" && pkg != "bytes" {
		return nil, 0, false
	}
	args := c.Call.Args
	switch name {
	case "IndexByte", "LastIndexByte", "IndexRune", "IndexAny", "LastIndexAny", "IndexFunc", "LastIndexFunc":
		return args[0], -1, true
	case "Index", "LastIndex":
		t, k := x.lenOf(args[1])
		if t == zero {
			return args[0], -k, true
		}
		if g, ok := x.constGlobalLen(args[1]); ok {
			return args[0], -g, true
		}
		return args[0], 0, true
	}
	return nil, 0, false
}

// constGlobalLen: length of a package variable assigned once, at start, from a constant.
func (x *prover) constGlobalLen(v ssa.Value) (int64, bool) {
	u, ok := x.m.canonOf(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return 0, false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return 0, false
	}
	val := x.p.singleStore(g)
	if val == nil {
		return 0, false
	}
	t, k := x.lenOf(val)
	return k, t == zero
}

// singleStore: the only value ever stored in a package variable.
func (p *Prog) singleStore(g *ssa.Global) ssa.Value {
	idx, ok := p.cache["gstores"].(map[*ssa.Global][]*ssa.Store)
	if !ok {
		idx = map[*ssa.Global][]*ssa.Store{}
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						idx[g] = append(idx[g], s)
					}
				}
			})
		}
		p.cache["gstores"] = idx
	}
	if l := idx[g]; len(l) == 1 && isInit(l[0].Parent()) {
		return l[0].Val
	}
	return nil
}

// callUpper: bounds above on an integer call result.
func (x *prover) callUpper(c *ssa.Call) []dif {
	var out []dif
	self := term{c, false}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			for _, a := range c.Call.Args {
				t, k := x.lenOf(a)
				out = append(out, dif{self, t, k, false})
			}
		case "min":
			for _, a := range c.Call.Args {
				t, k := x.lin(a)
				out = append(out, dif{self, t, k, false})
			}
		}
		return out
	}
	if a, off, ok := indexCall(x, c); ok {
		t, k := x.lenOf(a)
		out = append(out, dif{self, t, k + off, false})
	}
	pkg, name := extCallee(&c.Call)
	if pkg == "sort" && name == "Search" {
		t, k := x.lin(c.Call.Args[0])
		out = append(out, dif{self, t, k, false})
	}
	if pkg == "strings" && name == "Compare" {
		out = append(out, dif{self, zero, 1, false})
	}
	return out
}

func (x *prover) callUpperN(c *ssa.Call, i int, self ssa.Value) []dif {
	pkg, name := extCallee(&c.Call)
	var out []dif
	args := callArgs(&c.Call)
	switch {
	case i == 0 && (name == "Read" || name == "Write") && c.Call.Signature().Params().Len() == 1:
		t, k := x.lenOf(args[len(args)-1])
		out = append(out, dif{term{self, false}, t, k, false})
	case i == 0 && pkg == "io" && (name == "ReadFull" || name == "ReadAtLeast"):
		t, k := x.lenOf(args[1])
		out = append(out, dif{term{self, false}, t, k, false})
	case i == 1 && pkg == "unicode/utf8" && strings.HasPrefix(name, "Decode"):
		t, k := x.lenOf(args[0])
		out = append(out, dif{term{self, false}, t, k, false}, dif{term{self, false}, zero, 4, false})
	}
	return out
}

// lowest constant a call result can have
func (x *prover) callLower(c *ssa.Call) (int64, bool) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "len", "cap":
			return 0, true
		}
		return 0, false
	}
	if _, _, ok := indexCall(x, c); ok {
		return -1, true
	}
	pkg, name := extCallee(&c.Call)
	switch {
	case pkg == "sort" && name == "Search", pkg == "strings" && name == "Count", pkg == "bytes" && name == "Count":
		return 0, true
	case pkg == "reflect" && (name == "Len" || name == "NumField" || name == "NumMethod" || name == "Cap"):
		return 0, true
	case pkg == "unicode/utf8" && strings.HasPrefix(name, "RuneCount"):
		return 0, true
	case pkg == "strings" && name == "Compare":
		return -1, true
	case name == "Len" && (pkg == "bytes" || pkg == "strings"):
		return 0, true
	}
	return 0, false
}

// defLower: bounds below on g.b from its definition.
func (x *prover) defLower(g goal, c *ctx, sub func(a, b term, k int64) bool) bool {
	v := g.b.v
	if v == nil {
		return false
	}
	// constant lower bounds
	if g.a != zero {
		if lo, ok := typeLo(g.b); ok && sub(g.a, zero, g.k+lo) {
			return true
		}
	}
	if g.b.ln {
		if lo, ok, _ := x.callLen(v); ok && sub(g.a, zero, g.k+lo) {
			return true
		}
		if n, ok := x.globalLen(v); ok && sub(g.a, zero, g.k+n) {
			return true
		}
		if s, ok := v.(*ssa.Slice); ok {
			var ht term
			var hk int64
			if s.High != nil {
				ht, hk = x.lin(s.High)
			} else {
				ht, hk = x.lenOf(s.X)
			}
			lt, lk := x.lin(s.Low)
			// a - (high - low) <= k
			if g.a == zero && sub(lt, ht, g.k-lk+hk) {
				return true
			}
			if g.a == ht && sub(lt, zero, g.k-lk+hk) {
				return true
			}
		}
		if cl, ok := v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range cl.Call.Args {
					t, k := x.lenOf(a)
					if sub(g.a, t, g.k+k) {
						return true
					}
				}
			}
			if x.fromCallee(g, cl, 0, c, false) {
				return true
			}
		}
		if ex, ok := v.(*ssa.Extract); ok {
			if cl, ok := ex.Tuple.(*ssa.Call); ok && x.fromCallee(g, cl, ex.Index, c, false) {
				return true
			}
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
			for _, a := range []ssa.Value{bo.X, bo.Y} {
				t, k := x.lenOf(a)
				if sub(g.a, t, g.k+k) {
					return true
				}
			}
		}
		return false
	}
	switch d := v.(type) {
	case *ssa.BinOp:
		tx, kx := x.lin(d.X)
		switch d.Op {
		case token.ADD:
			ty, ky := x.lin(d.Y)
			if g.a == tx && sub(zero, ty, g.k+kx+ky) {
				return true
			}
			if g.a == ty && sub(zero, tx, g.k+kx+ky) {
				return true
			}
			for _, l := range []int64{0, -1, 1} {
				if sub(zero, ty, ky-l) && sub(g.a, tx, g.k+kx+l) {
					return true
				}
				if sub(zero, tx, kx-l) && sub(g.a, ty, g.k+ky+l) {
					return true
				}
			}
		case token.SUB:
			ty, ky := x.lin(d.Y)
			if g.a == zero && sub(ty, tx, g.k+kx-ky) {
				return true
			}
			if g.a == tx && sub(ty, zero, g.k+kx-ky) {
				return true
			}
		case token.MUL:
			ty, ky := x.lin(d.Y)
			if sub(g.a, zero, g.k) && sub(zero, tx, kx) && sub(zero, ty, ky) {
				return true
			}
		case token.QUO, token.SHR:
			if n, ok := intConst(d.Y); ok && n >= 1 && sub(g.a, zero, g.k) && sub(zero, tx, kx) {
				return true
			}
		case token.REM:
			if sub(g.a, zero, g.k) && sub(zero, tx, kx) {
				return true
			}
		case token.AND:
			for _, o := range []ssa.Value{d.X, d.Y} {
				if n, ok := intConst(o); ok && n >= 0 && sub(g.a, zero, g.k) {
					return true
				}
			}
		}
	case *ssa.Call:
		if lo, ok := x.callLower(d); ok && sub(g.a, zero, g.k+lo) {
			return true
		}
		if b, ok := d.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "max" {
				for _, a := range d.Call.Args {
					t, k := x.lin(a)
					if sub(g.a, t, g.k+k) {
						return true
					}
				}
			}
			if b.Name() == "min" {
				all := true
				for _, a := range d.Call.Args {
					t, k := x.lin(a)
					all = all && sub(g.a, t, g.k+k)
				}
				if all {
					return true
				}
			}
		}
		if x.fromCallee(g, d, 0, c, false) {
			return true
		}
	case *ssa.Extract:
		if cl, ok := d.Tuple.(*ssa.Call); ok && x.fromCallee(g, cl, d.Index, c, false) {
			return true
		}
		if n, ok := d.Tuple.(*ssa.Next); ok && n.IsString && d.Index == 1 {
			return sub(g.a, zero, g.k)
		}
		if cl, ok := d.Tuple.(*ssa.Call); ok {
			pkg, name := extCallee(&cl.Call)
			if d.Index == 0 && (name == "Read" || name == "Write" || name == "ReadFull") || d.Index == 1 && pkg == "unicode/utf8" {
				return sub(g.a, zero, g.k)
			}
			if pkg == "strconv" && name == "ParseUint" && d.Index == 0 {
				return sub(g.a, zero, g.k)
			}
		}
	case *ssa.Convert:
		wt, _ := intWidth(d.Type())
		wf, _ := intWidth(d.X.Type())
		if wt > 0 && wf > 0 && wt >= 32 {
			tx, kx := x.lin(d.X)
			if sub(zero, tx, kx) && sub(g.a, tx, g.k+kx) {
				return true
			}
		}
	}
	return false
}

// globalLen: length of the value of a constant package variable.
func (x *prover) globalLen(v ssa.Value) (int64, bool) {
	return x.constGlobalLen(v)
}

func isBackEdge(from, to *ssa.BasicBlock) bool { return to == from || to.Dominates(from) }

func (x *prover) phiSplit(g goal, c *ctx) bool {
	pa, oka := g.a.v.(*ssa.Phi)
	pb, okb := g.b.v.(*ssa.Phi)
	try := func(ph *ssa.Phi, isA bool, both bool) bool {
		h := ph.Block()
		other := g.b
		if !isA {
			other = g.a
		}
		// the same goal must not already be under expansion
		for _, y := range c.hyp {
			if y.a == g.a && y.b == g.b {
				return false
			}
		}
		loop := false
		for _, pr := range h.Preds {
			if isBackEdge(pr, h) {
				loop = true
			}
		}
		inv := !both && loop && x.invariantLoad(other, h)
		if !both && !availAt(other, h) && !inv {
			return false
		}
		if !both && loop && !stable(other, h) && !inv {
			return false
		}
		if !both && !loop && defBlock(other) == h {
			if _, ok := other.v.(*ssa.Phi); !ok {
				return false
			}
			return false
		}
		n := len(c.hyp)
		c.hyp = append(c.hyp, goal{a: g.a, b: g.b, k: g.k})
		defer func() { c.hyp = c.hyp[:n] }()
		for i := range ph.Edges {
			pr := h.Preds[i]
			ta, ka, tb, kb := g.a, int64(0), g.b, int64(0)
			if oka && (isA || both) {
				ta, ka = x.edgeTerm(pa, g.a.ln, i)
			}
			if okb && (!isA || both) {
				tb, kb = x.edgeTerm(pb, g.b.ln, i)
			}
			if !x.pr(goal{ta, tb, g.k - ka + kb, pr, h}, c) {
				return false
			}
		}
		return true
	}
	if oka && okb && pa.Block() == pb.Block() {
		return try(pa, true, true)
	}
	if oka && try(pa, true, false) {
		return true
	}
	if okb && try(pb, false, false) {
		return true
	}
	return false
}

func (x *prover) edgeTerm(ph *ssa.Phi, ln bool, i int) (term, int64) {
	if ln {
		return x.lenOf(ph.Edges[i])
	}
	return x.lin(ph.Edges[i])
}

func (x *prover) joinSplit(g goal, c *ctx) bool {
	b := g.blk
	if len(c.hyp) > 6 {
		return false
	}
	// climb to the nearest join
	for b != nil && len(b.Preds) == 1 {
		b = b.Preds[0]
	}
	if b == nil || len(b.Preds) == 0 {
		return false
	}
	// each side: unchanged, or memory as it was at the end of the predecessor
	at := func(t term, pr *ssa.BasicBlock) (term, int64, bool) {
		if availAt(t, pr) {
			return t, 0, true
		}
		l, ok := t.v.(*ssa.UnOp)
		if !ok || l.Op != token.MUL || !t.ln {
			return zero, 0, false
		}
		if !x.entryLoad(l, b) || !availAddr(l.X, pr) {
			return zero, 0, false
		}
		return x.memLenAtEnd(l.X, pr, 0)
	}
	n := 0
	nx := len(c.xtra)
	defer func() { c.xtra = c.xtra[:nx] }()
	for _, f := range x.domFacts(g.blk) {
		if availAt(f.a, b) && availAt(f.b, b) {
			c.xtra = append(c.xtra, f)
		}
	}
	for _, pr := range b.Preds {
		if isBackEdge(pr, b) {
			continue
		}
		n++
		if x.infeasible(pr, b, c.xtra) {
			continue
		}
		ta, ka, ok1 := at(g.a, pr)
		tb, kb, ok2 := at(g.b, pr)
		if !ok1 || !ok2 {
			return false
		}
		if !x.pr(goal{ta, tb, g.k - ka + kb, pr, b}, c) {
			return false
		}
	}
	return n > 0
}

// elemSplit: a value read from a locally built list: the goal holds for every
// value put into it.
func (x *prover) elemSplit(g goal, c *ctx) bool {
	try := func(t term, isA bool) bool {
		if t.v == nil || t.ln {
			return false
		}
		u, ok := t.v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		var vals []*ssa.Store
		if !appended(ia.X, &vals, map[ssa.Value]bool{}) || len(vals) == 0 {
			return false
		}
		other := g.b
		if !isA {
			other = g.a
		}
		for _, st := range vals {
			tv, kv := x.lin(st.Val)
			if !availAt(other, st.Block()) {
				return false
			}
			var ok bool
			if isA {
				ok = x.pr(goal{tv, g.b, g.k - kv, st.Block(), nil}, c)
			} else {
				ok = x.pr(goal{g.a, tv, g.k + kv, st.Block(), nil}, c)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return try(g.a, true) || try(g.b, false)
}

// appended collects what was put into a list that never leaves the function.
func appended(v ssa.Value, out *[]*ssa.Store, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		n, ok := intConst(y.Len)
		return ok && n == 0
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !appended(e, out, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := y.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || !appended(y.Call.Args[0], out, seen) {
			return false
		}
		sl, ok := y.Call.Args[1].(*ssa.Slice)
		if !ok {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						*out = append(*out, st)
					}
				}
			}
		}
		for _, r := range *y.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if _, ok := r2.(*ssa.Store); ok {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// infeasible: what holds on the edge contradicts what holds later.
func (x *prover) infeasible(pr, b *ssa.BasicBlock, later []dif) bool {
	fs := append(append([]dif(nil), x.edgeFacts(pr, b)...), x.domFacts(pr)...)
	le := func(l []dif, a, b term, k int64) bool {
		for _, f := range l {
			if !f.ne && f.a == a && f.b == b && f.k <= k {
				return true
			}
		}
		return false
	}
	for _, f := range fs {
		if f.ne {
			if le(later, f.a, f.b, f.k) && le(later, f.b, f.a, -f.k) {
				return true
			}
			continue
		}
		if le(later, f.b, f.a, -f.k-1) {
			return true
		}
		for _, l := range later {
			if l.ne && (l.a == f.a && l.b == f.b && l.k == f.k || l.a == f.b && l.b == f.a && -l.k == f.k) && le(fs, f.b, f.a, -f.k) {
				return true
			}
		}
	}
	return false
}

func availAddr(a ssa.Value, b *ssa.BasicBlock) bool {
	if !availAt(term{a, false}, b) {
		switch y := a.(type) {
		case *ssa.FieldAddr:
			return availAddr(y.X, b)
		case *ssa.IndexAddr:
			return availAddr(y.X, b) && availAt(term{y.Index, false}, b)
		}
		return false
	}
	return true
}

// entryLoad: l sees memory as it was on entry to block b.
func (x *prover) entryLoad(l *ssa.UnOp, b *ssa.BasicBlock) bool {
	if !(b == l.Block() || b.Dominates(l.Block())) {
		return false
	}
	for _, cl := range x.m.of(l.Parent()).clob {
		if cl.Block() == b || b.Dominates(cl.Block()) {
			if reachesAvoiding(cl, l, b.Instrs[0]) && x.m.mayWrite(cl, l.X) {
				return false
			}
		}
	}
	return true
}

// memLenAtEnd: length of the slice held at addr when block b is left.
func (x *prover) memLenAtEnd(addr ssa.Value, b *ssa.BasicBlock, d int) (term, int64, bool) {
	if d > 8 {
		return zero, 0, false
	}
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		in := b.Instrs[i]
		if st, ok := in.(*ssa.Store); ok && x.m.sameAddr(st.Addr, addr, 0) {
			t, k := x.lenOf(st.Val)
			return t, k, true
		}
		if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL && x.m.sameAddr(l.X, addr, 0) {
			t, k := x.lenOf(l)
			return t, k, true
		}
		switch in.(type) {
		case *ssa.Store, *ssa.Call, *ssa.Go, *ssa.RunDefers:
			if x.m.mayWrite(in, addr) {
				return zero, 0, false
			}
		}
	}
	if ph := x.growLoop(addr, b); ph != nil {
		return term{ph, false}, 0, true
	}
	if len(b.Preds) == 1 && availAddr(addr, b.Preds[0]) {
		return x.memLenAtEnd(addr, b.Preds[0], d+1)
	}
	return zero, 0, false
}

// growLoop: a loop counter that equals the length of the slice at addr whenever
// the loop header is reached: it starts as that length and grows by one exactly
// where one element is appended.
func (x *prover) growLoop(addr ssa.Value, h *ssa.BasicBlock) *ssa.Phi {
	var back *ssa.BasicBlock
	entries := 0
	for _, pr := range h.Preds {
		if isBackEdge(pr, h) {
			if back != nil {
				return nil
			}
			back = pr
		} else if !availAddr(addr, pr) {
			return nil
		} else {
			entries++
		}
	}
	if back == nil || entries == 0 {
		return nil
	}
	body := loopBlocks(h)
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if w, _ := intWidth(ph.Type()); w != 64 {
			continue
		}
		var step ssa.Value
		okInit := true
		for i, pr := range h.Preds {
			if pr == back {
				step = ph.Edges[i]
				continue
			}
			ti, ki := x.lin(ph.Edges[i])
			tm, km, ok := x.memLenAtEnd(addr, pr, 1)
			if !ok || ti != tm || ki != km {
				okInit = false
			}
		}
		if !okInit {
			continue
		}
		bo, ok := step.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ph {
			continue
		}
		if n, ok := intConst(bo.Y); !ok || n != 1 {
			continue
		}
		// exactly one instruction in the loop changes addr, on every iteration, by one element
		n := 0
		for b := range body {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.Call, *ssa.Go:
				default:
					continue
				}
				if !x.m.mayWrite(in, addr) {
					continue
				}
				if !x.appendsOne(in, addr) || !(b == back || b.Dominates(back)) {
					return nil
				}
				n++
			}
		}
		if n != 1 {
			return nil
		}
		return ph
	}
	return nil
}

// memTarget names one slice location inside a function.
type memTarget struct {
	isAddr func(a ssa.Value) bool // a is the location's address
	isBase func(p ssa.Value) bool // p points to the struct holding it
	field  int
}

func (t memTarget) hit(a ssa.Value) bool {
	if t.isAddr(a) {
		return true
	}
	fa, ok := a.(*ssa.FieldAddr)
	return ok && t.isBase != nil && fa.Field == t.field && t.isBase(fa.X)
}

// appendsOne: in makes the slice at addr exactly one element longer.
func (x *prover) appendsOne(in ssa.Instruction, addr ssa.Value) bool {
	t := memTarget{isAddr: func(a ssa.Value) bool { return x.m.sameAddr(a, addr, 0) }}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		t.field = fa.Field
		t.isBase = func(p ssa.Value) bool { return types.Identical(p.Type(), fa.X.Type()) && x.m.samePtr(p, fa.X, 0) }
	}
	return x.appends(in, t, addr, 0)
}

func (x *prover) appends(in ssa.Instruction, t memTarget, addr ssa.Value, d int) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if !t.hit(in.Addr) {
			return false
		}
		lt, k := x.lenOf(in.Val)
		l, ok := lt.v.(*ssa.UnOp)
		return ok && lt.ln && k == 1 && t.hit(l.X) && l.Block() == in.Block() && !x.m.clobbered(l, in, in.Addr)
	case *ssa.Call:
		cs := x.p.Callees(&in.Call)
		if len(cs) != 1 || cs[0].Blocks == nil || d > 3 {
			return false
		}
		f := cs[0]
		args := callArgs(&in.Call)
		pi, base := -1, false
		for i, a := range args {
			if t.hit(a) {
				pi, base = i, false
			} else if t.isBase != nil && t.isBase(a) {
				pi, base = i, true
			}
		}
		if pi < 0 || pi >= len(f.Params) {
			return false
		}
		prm := f.Params[pi]
		nt := memTarget{isAddr: func(a ssa.Value) bool { return !base && a == ssa.Value(prm) }}
		if base {
			nt.field = t.field
			nt.isBase = func(p ssa.Value) bool { return p == ssa.Value(prm) }
		}
		n := 0
		ok := true
		eachInstr(f, func(i2 ssa.Instruction) {
			switch i2.(type) {
			case *ssa.Store, *ssa.Call, *ssa.Go, *ssa.Defer:
			default:
				return
			}
			if !x.touches(i2, addr) {
				return
			}
			n++
			if !x.appends(i2, nt, addr, d+1) || !postDominatesAll(i2, f) {
				ok = false
			}
		})
		return ok && n == 1
	}
	return false
}

// touches: the instruction of another function may write a location like addr.
func (x *prover) touches(in ssa.Instruction, addr ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if _, ok := addrBase(in.Addr).(*ssa.Alloc); ok {
			return false
		}
		return x.m.locMayAlias(locOf(in.Addr), addr)
	case ssa.CallInstruction:
		for _, l := range x.m.callMods(in.Common()) {
			if x.m.locMayAlias(l, addr) {
				return true
			}
		}
	}
	return false
}

func isLocal(a ssa.Value) bool {
	_, ok := addrBase(a).(*ssa.Alloc)
	return ok
}

// postDominatesAll: in runs on every way through f.
func postDominatesAll(in ssa.Instruction, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if _, pan := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); len(b.Succs) == 0 && b != f.Recover && !pan {
			if !(in.Block() == b || in.Block().Dominates(b)) {
				return false
			}
		}
	}
	return true
}

// mapTerm rewrites a term over g's parameters into the caller's terms at call.
func (x *prover) mapTerm(t term, g *ssa.Function, cc *ssa.CallCommon, at ssa.Instruction) (term, int64, bool) {
	if t.v == nil {
		return zero, 0, true
	}
	v, ok := x.mapVal(t.v, g, cc, at, 0)
	if !ok {
		return zero, 0, false
	}
	if t.ln {
		a, k := x.lenOf(v)
		return a, k, true
	}
	a, k := x.lin(v)
	return a, k, true
}

func (x *prover) mapVal(v ssa.Value, g *ssa.Function, cc *ssa.CallCommon, at ssa.Instruction, d int) (ssa.Value, bool) {
	args := callArgs(cc)
	switch y := v.(type) {
	case *ssa.Parameter:
		for i, q := range g.Params {
			if q == y && i < len(args) {
				return args[i], true
			}
		}
		return nil, false
	case *ssa.Const:
		return y, true
	case *ssa.UnOp:
		// a load through a parameter, valid on entry: find the caller's equal load
		if y.Op != token.MUL || d > 3 {
			return nil, false
		}
		for _, cl := range x.m.of(g).clob {
			if reachesAvoiding(cl, y, y) && x.m.mayWrite(cl, y.X) {
				return nil, false
			}
		}
		fa, ok := y.X.(*ssa.FieldAddr)
		caller := at.Parent()
		if !ok {
			// *param
			base, ok := x.mapVal(y.X, g, cc, at, d+1)
			if !ok {
				return nil, false
			}
			for _, l := range x.m.of(caller).loads {
				if x.m.sameAddr(l.X, base, 0) && x.sameAsAt(l, at) {
					return l, true
				}
			}
			return nil, false
		}
		base, ok := x.mapVal(fa.X, g, cc, at, d+1)
		if !ok {
			return nil, false
		}
		for _, l := range x.m.of(caller).loads {
			fb, ok := l.X.(*ssa.FieldAddr)
			if ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) && x.m.samePtr(fb.X, base, 0) && x.sameAsAt(l, at) {
				return l, true
			}
		}
		return nil, false
	}
	return nil, false
}

// sameAsAt: load l yields the value its location had when call at was entered.
func (x *prover) sameAsAt(l *ssa.UnOp, at ssa.Instruction) bool {
	if dominatesInstr(l, at) {
		return !x.m.clobbered(l, at, l.X)
	}
	return dominatesInstr(at, l) && !x.m.mayWrite(at, l.X) && !x.m.clobbered(at, l, l.X)
}

func onlyParams(t term) bool {
	if t.v == nil {
		return true
	}
	v := t.v
	for d := 0; d < 6; d++ {
		switch y := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return false
			}
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		default:
			return false
		}
	}
	return false
}

// closed: every call of f is known (unexported, never used as a value).
func (p *Prog) closed(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || f.Object().Exported() || f.Name() == "init" || f.Name() == "main" {
		return false
	}
	if f.Signature.Recv() != nil {
		// reachable through an interface declared in the module?
		for m, l := range p.impls {
			_ = m
			for _, g := range l {
				if g == f {
					return false
				}
			}
		}
	}
	p.funcValues(f.Signature)
	for _, g := range p.cache["funcvalues"].([]*ssa.Function) {
		if g == f {
			return false
		}
	}
	return len(p.Callers(f)) > 0
}

func (x *prover) fromCallers(g goal, c *ctx) bool {
	if c.ip >= 3 || g.blk == nil {
		return false
	}
	f := g.blk.Parent()
	if g.a == zero && g.b == zero || !onlyParams(g.a) || !onlyParams(g.b) {
		return false
	}
	if !x.p.closed(f) {
		return false
	}
	for _, ci := range x.p.Callers(f) {
		if _, ok := ci.(*ssa.Call); !ok {
			return false
		}
		a, ka, ok1 := x.mapTerm(g.a, f, ci.Common(), ci)
		b, kb, ok2 := x.mapTerm(g.b, f, ci.Common(), ci)
		if !ok1 || !ok2 {
			return false
		}
		nc := &ctx{open: map[goal]bool{}, ip: c.ip + 1, d: c.d}
		if !x.pr(goal{a, b, g.k - ka + kb, ci.Block(), nil}, nc) {
			return false
		}
	}
	return true
}

func resultOf(v ssa.Value) (*ssa.Call, int) {
	switch v := v.(type) {
	case *ssa.Call:
		return v, 0
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return c, v.Index
		}
	}
	return nil, 0
}

// outcomes: what the branches on the way to blk tell about the other results
// of a call: result index -> true (bool true, or nil error/pointer), false.
func (x *prover) outcomes(cl *ssa.Call, blk, edge *ssa.BasicBlock) map[int]bool {
	out := map[int]bool{}
	look := func(from, to *ssa.BasicBlock) {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			return
		}
		truth := from.Succs[0] == to
		cond := iff.Cond
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, truth = n.X, !truth
		}
		cond = x.m.canonOf(cond)
		if ex, ok := cond.(*ssa.Extract); ok && ex.Tuple == cl {
			out[ex.Index] = truth
			return
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if ex, ok := x.m.canonOf(pr[0]).(*ssa.Extract); ok && ex.Tuple == cl && isNilConst(pr[1]) {
					out[ex.Index] = truth == (bo.Op == token.EQL)
				}
			}
		}
	}
	if edge != nil {
		look(blk, edge)
	}
	for b := blk; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			look(b.Preds[0], b)
		}
	}
	return out
}

// excluded: this return cannot have produced the observed outcome.
func (x *prover) excluded(ret *ssa.Return, oc map[int]bool) bool {
	for i, want := range oc {
		if i >= len(ret.Results) {
			continue
		}
		vals := retValues(ret, i)
		ex := len(vals) > 0
		for _, v := range vals {
			if k, ok := v.(*ssa.Const); ok {
				if k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) != want {
						continue
					}
				} else if k.Value == nil && !want {
					continue
				}
				ex = false
				break
			}
			if want && isErrorType(v.Type()) && x.nonNil(v, ret.Block()) {
				continue
			}
			ex = false
			break
		}
		if ex {
			return true
		}
	}
	return false
}

// nonNil: the error value is certainly not nil here.
func (x *prover) nonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if errorMaker(&y.Call) {
			return true
		}
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok {
			if s := x.p.singleStore(g); s != nil {
				return x.nonNil(s, nil)
			}
			return g.Pkg == nil || !x.p.inMod[g.Pkg.Pkg]
		}
	}
	for ; b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		pb := b.Preds[0]
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (x.m.canonOf(bo.X) == x.m.canonOf(v) && isNilConst(bo.Y)) {
			if (bo.Op == token.NEQ) == (pb.Succs[0] == b) {
				return true
			}
		}
	}
	return false
}

// openCall: the method called may be implemented outside the module.
func openCall(c *ssa.CallCommon) bool {
	if !c.IsInvoke() {
		return false
	}
	n := namedOf(c.Value.Type())
	if n == nil || !n.Obj().Exported() {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return false
		}
	}
	return true
}

// fromCallee: the goal about a call result holds at every return of the callee
// that is compatible with the observed outcome.
func (x *prover) fromCallee(g goal, cl *ssa.Call, ri int, c *ctx, isA bool) bool {
	if c.ip >= 2 {
		return false
	}
	cs := x.p.Callees(&cl.Call)
	if len(cs) == 0 || openCall(&cl.Call) {
		return false
	}
	for _, f := range cs {
		if !x.p.InModule(f) || f.Blocks == nil || ri >= f.Signature.Results().Len() {
			return false
		}
		if cl.Call.IsInvoke() || len(cs) > 1 {
			other := g.b
			if !isA {
				other = g.a
			}
			if other != zero {
				return false
			}
		}
	}
	oc := x.outcomes(cl, g.blk, g.edge)
	for _, f := range cs {
		if !x.calleeGoal(g, cl, f, ri, oc, c, isA) {
			return false
		}
	}
	return true
}

func (x *prover) calleeGoal(g goal, cl *ssa.Call, f *ssa.Function, ri int, oc map[int]bool, c *ctx, isA bool) bool {
	other := g.b
	ln := g.a.ln
	if !isA {
		other = g.a
		ln = g.b.ln
	}
	type cnd struct {
		t term
		k int64
	}
	// the other side in the callee's terms
	var cand []cnd
	if other == zero {
		cand = append(cand, cnd{zero, 0})
	}
	args := callArgs(&cl.Call)
	for i, a := range args {
		if i >= len(f.Params) || other == zero {
			break
		}
		if !other.ln {
			if w, _ := intWidth(a.Type()); w > 0 {
				if t, k := x.lin(a); t == other {
					cand = append(cand, cnd{term{f.Params[i], false}, -k})
				}
			}
			continue
		}
		if _, isS := a.Type().Underlying().(*types.Slice); isS || isString(a.Type()) {
			if t, k := x.lenOf(a); t == other {
				cand = append(cand, cnd{term{f.Params[i], true}, -k})
			}
		}
	}
	if other.ln {
		// length of memory behind an argument
		for _, l := range x.m.of(f).loads {
			if !onlyParams(term{l, true}) {
				continue
			}
			if _, isS := l.Type().Underlying().(*types.Slice); !isS && !isString(l.Type()) {
				continue
			}
			if w, ok := x.mapVal(l, f, &cl.Call, cl, 0); ok {
				if t, k := x.lenOf(w); t == other {
					cand = append(cand, cnd{term{x.m.canonOf(l), true}, -k})
				}
			}
		}
	}
	for _, cd := range cand {
		all := true
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok || !all {
				return
			}
			n++
			if x.excluded(ret, oc) {
				return
			}
			for _, rv := range retValues(ret, ri) {
				var t term
				var k int64
				if ln {
					t, k = x.lenOf(rv)
				} else {
					t, k = x.lin(rv)
				}
				nc := &ctx{open: map[goal]bool{}, ip: c.ip + 1, d: c.d}
				var ok bool
				// the loads used must be available at the return
				if !availAt(cd.t, ret.Block()) {
					ok = isA && x.pr(goal{t, zero, g.k - k + min64(cd.k, 0), ret.Block(), nil}, nc) && (cd.t.ln)
				} else if isA { // t + k - (cd.t + cd.k) <= g.k
					ok = x.pr(goal{t, cd.t, g.k - k + cd.k, ret.Block(), nil}, nc)
				} else {
					ok = x.pr(goal{cd.t, t, g.k - cd.k + k, ret.Block(), nil}, nc)
				}
				if !ok && g.blk != nil && onlyParams(t) && t.v != nil {
					// an argument is handed back: decide at the call
					if mt, mk, mok := x.mapTerm(t, f, &cl.Call, cl); mok {
						if isA {
							ok = x.pr(goal{mt, other, g.k - k - mk, g.blk, g.edge}, c)
						} else {
							ok = x.pr(goal{other, mt, g.k + k + mk, g.blk, g.edge}, c)
						}
					}
				}
				if !ok {
					all = false
				}
			}
		})
		if all && n > 0 {
			return true
		}
	}
	return false
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var _ = fmt.Sprint
