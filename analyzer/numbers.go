package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: numbers cross between text and values unchanged or not at all.

func init() { register("C27", checkNumbers) }

// rng: lo <= v <= hi, possibly not a number.
type rng struct {
	lo, hi *big.Float
	nan    bool
}

func bf(x float64) *big.Float      { return new(big.Float).SetPrec(300).SetFloat64(x) }
func bpow(n int) *big.Float        { return new(big.Float).SetPrec(300).SetMantExp(bf(1), n) }
func binf(neg bool) *big.Float     { return new(big.Float).SetPrec(300).SetInf(neg) }
func bneg(x *big.Float) *big.Float { return new(big.Float).SetPrec(300).Neg(x) }
func bmin(a, b *big.Float) *big.Float {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Float) *big.Float {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (a rng) in(b rng) bool {
	return a.lo.Cmp(b.lo) >= 0 && a.hi.Cmp(b.hi) <= 0 && (b.nan || !a.nan)
}

func (a rng) union(b rng) rng {
	return rng{bmin(a.lo, b.lo), bmax(a.hi, b.hi), a.nan || b.nan}
}

// meet: both hold; an empty result means the place is not reached.
func (a rng) meet(b rng) rng {
	return rng{bmax(a.lo, b.lo), bmin(a.hi, b.hi), a.nan && b.nan}
}

func (a rng) empty() bool { return a.lo.Cmp(a.hi) > 0 && !a.nan }

func (a rng) String() string {
	f := func(x *big.Float) string { return x.Text('g', 6) }
	s := "[" + f(a.lo) + ", " + f(a.hi) + "]"
	if a.nan {
		s += " or NaN"
	}
	return s
}

func everyNum() rng { return rng{binf(true), binf(false), true} }

// bopSafe applies an operation of big.Float that panics on NaN results.
func bopSafe(f func() *big.Float) (res *big.Float, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return f(), true
}

func bitRange(bits int, unsigned bool) rng {
	one := bf(1)
	if unsigned {
		return rng{bf(0), new(big.Float).SetPrec(300).Sub(bpow(bits), one), false}
	}
	return rng{bneg(bpow(bits - 1)), new(big.Float).SetPrec(300).Sub(bpow(bits-1), one), false}
}

func floatWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Float32:
		return 32
	case types.Float64, types.UntypedFloat:
		return 64
	}
	return 0
}

func typeRange(t types.Type) rng {
	if w, u := intWidth(t); w > 0 {
		return bitRange(w, u)
	}
	return everyNum()
}

// exactInts: integers a float of the width holds exactly.
func exactInts(w int) rng {
	n := 53
	if w == 32 {
		n = 24
	}
	return rng{bneg(bpow(n)), bpow(n), false}
}

type numAn struct {
	p     *Prog
	r     *Result
	m     *memAn
	taint map[ssa.Value]bool
	exact map[ssa.Value]bool // the number as parsed
	cells map[*ssa.Alloc]bool
	rets  map[*ssa.Function]map[int]bool
	busy  map[ssa.Value]bool
	depth int
}

// numParse: the call reads a number from text.
func numParse(c *ssa.CallCommon) string {
	pkg, name := extCallee(c)
	switch pkg {
	case "strconv":
		switch name {
		case "ParseInt", "ParseUint", "ParseFloat", "Atoi":
			return name
		}
	case "encoding/json":
		if name == "Int64" || name == "Float64" {
			return "json." + name
		}
	}
	return ""
}

func numFormat(c *ssa.CallCommon) (name string, arg int) {
	pkg, n := extCallee(c)
	if pkg != "strconv" {
		return "", 0
	}
	switch n {
	case "FormatInt", "FormatUint", "FormatFloat", "Itoa":
		return n, 0
	case "AppendInt", "AppendUint", "AppendFloat":
		return "Format" + strings.TrimPrefix(n, "Append"), 1
	}
	return "", 0
}

func checkNumbers(p *Prog, r *Result) {
	r.Explain = "Rule change: numbers parsed from text (strconv and json numbers) are followed through conversions, arithmetic, local variables, parameters and results of the library's functions with the interval of values they can take (bit size of the parse, dominating comparisons, arithmetic, ranges of types); every conversion to a type that cannot hold the whole interval, every conversion of an unbounded or undefined float to an integer and every product, sum or shift that can exceed its type is reported. Rule set: what is stored through reflection is the number parsed, parsed with the bit size of the place it is stored in or checked with the Overflow test of that place. Rule digits: numbers are formatted without lossy conversion, with all digits of their width. Rule json: numbers in JSON do not pass through float64. Rule fraction: fractions of a second (time.Time.Nanosecond, whole or divided) are written with their leading zeros."
	r.Assume = append(r.Assume, "int and uint are 64 bits wide", "rounding of a decimal to the nearest value of the float type it is stored in is not a change")
	a := &numAn{p: p, r: r, m: p.Mem(), taint: map[ssa.Value]bool{}, exact: map[ssa.Value]bool{}, cells: map[*ssa.Alloc]bool{}, rets: map[*ssa.Function]map[int]bool{}, busy: map[ssa.Value]bool{}}
	a.propagate()
	a.changes()
	a.setters()
	a.formats()
	a.fractions()
	a.json()
	r.need("numbers parsed", 20)
	r.need("numbers formatted", 20)
}

func isNum(t types.Type) bool {
	w, _ := intWidth(t)
	return w > 0 || floatWidth(t) > 0
}

func (a *numAn) propagate() {
	set := func(m map[ssa.Value]bool, v ssa.Value, ch *bool) {
		if !m[v] && isNum(v.Type()) {
			m[v] = true
			*ch = true
		}
	}
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || numParse(&c.Call) == "" {
				return
			}
			a.r.Units["numbers parsed"]++
			for _, x := range *c.Referrers() {
				if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
					a.taint[e], a.exact[e] = true, true
				}
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for _, f := range a.p.LibFuncs() {
			eachInstr(f, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Convert:
					if a.taint[x.X] {
						set(a.taint, x, &ch)
					}
					if a.exact[x.X] {
						set(a.exact, x, &ch)
					}
				case *ssa.ChangeType:
					if a.taint[x.X] {
						set(a.taint, x, &ch)
					}
					if a.exact[x.X] {
						set(a.exact, x, &ch)
					}
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					default:
						if a.taint[x.X] || a.taint[x.Y] {
							set(a.taint, x, &ch)
						}
					}
				case *ssa.Phi:
					ex := true
					for _, e := range x.Edges {
						if a.taint[e] {
							set(a.taint, x, &ch)
						}
						ex = ex && a.exact[e]
					}
					if ex {
						set(a.exact, x, &ch)
					}
				case *ssa.UnOp:
					if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
						if a.cells[al] {
							set(a.taint, x, &ch)
						}
					} else if a.taint[x.X] && x.Op != token.MUL {
						set(a.taint, x, &ch)
					}
				case *ssa.Store:
					if al, ok := x.Addr.(*ssa.Alloc); ok && a.taint[x.Val] && !a.cells[al] {
						a.cells[al] = true
						ch = true
					}
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if g := c.Call.StaticCallee(); g != nil && a.rets[a.p.unwrap(g)][x.Index] {
							set(a.taint, x, &ch)
							if a.exactRet(a.p.unwrap(g), x.Index) {
								set(a.exact, x, &ch)
							}
						}
					}
				case *ssa.Call:
					pkg, _ := extCallee(&x.Call)
					if pkg == "math" {
						for _, v := range x.Call.Args {
							if a.taint[v] {
								set(a.taint, x, &ch)
							}
						}
						return
					}
					for _, g := range a.p.Callees(&x.Call) {
						if !a.p.libFunc(g) || len(g.Blocks) == 0 {
							continue
						}
						for i, v := range callArgs(&x.Call) {
							if a.taint[v] && i < len(g.Params) {
								set(a.taint, g.Params[i], &ch)
							}
						}
						if a.rets[g][0] && g.Signature.Results().Len() == 1 {
							set(a.taint, x, &ch)
							if a.exactRet(g, 0) {
								set(a.exact, x, &ch)
							}
						}
					}
				case *ssa.Return:
					for i := range x.Results {
						for _, v := range retValues(x, i) {
							if a.taint[v] && !a.rets[f][i] {
								if a.rets[f] == nil {
									a.rets[f] = map[int]bool{}
								}
								a.rets[f][i] = true
								ch = true
							}
						}
					}
				}
			})
			// parameters that are handed the number itself by every caller
			for i, v := range f.Params {
				if !a.taint[v] || a.exact[v] || f.Object() == nil || f.Object().Exported() {
					continue
				}
				all := true
				for _, c := range a.p.Callers(f) {
					args := callArgs(c.Common())
					all = all && i < len(args) && a.exact[args[i]]
				}
				if all {
					set(a.exact, v, &ch)
				}
			}
		}
	}
}

// exactRet: whenever result i of g is used (no error), it is the number parsed.
func (a *numAn) exactRet(g *ssa.Function, i int) bool {
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if a.failing(ret) {
			continue
		}
		for _, v := range retValues(ret, i) {
			if !a.exact[v] {
				return false
			}
		}
	}
	return true
}

// failing: the return reports an error for certain.
func (a *numAn) failing(ret *ssa.Return) bool {
	n := len(ret.Results)
	if n < 2 || !isErrorType(ret.Results[n-1].Type()) {
		return false
	}
	for _, v := range retValues(ret, n-1) {
		if isNilConst(v) || !a.p.Prover().nonNil(v, ret.Block()) {
			return false
		}
	}
	return true
}

// ---- ranges

func constRange(c *ssa.Const) (rng, bool) {
	if c.Value == nil {
		return rng{}, false
	}
	switch c.Value.Kind() {
	case constant.Int, constant.Float:
		f, ok := new(big.Float).SetPrec(300).SetString(constant.ToFloat(c.Value).ExactString())
		if !ok {
			v, _ := constant.Float64Val(c.Value)
			f = bf(v)
			if r, ok := new(big.Rat).SetString(c.Value.ExactString()); ok {
				f = new(big.Float).SetPrec(300).SetRat(r)
			}
		}
		return rng{f, f, false}, true
	}
	return rng{}, false
}

// eval: the values v can have in block b.
func (a *numAn) eval(v ssa.Value, b *ssa.BasicBlock) rng {
	if c, ok := v.(*ssa.Const); ok {
		if r, ok := constRange(c); ok {
			return r
		}
		return typeRange(v.Type())
	}
	if a.busy[v] || a.depth > 40 {
		return a.narrow(v, b, typeRange(v.Type()))
	}
	a.busy[v] = true
	a.depth++
	r := a.def(v, b)
	a.depth--
	delete(a.busy, v)
	t := typeRange(v.Type())
	if !r.in(t) {
		r = t
	}
	return a.narrow(v, b, r)
}

func (a *numAn) def(v ssa.Value, b *ssa.BasicBlock) rng {
	top := typeRange(v.Type())
	switch x := v.(type) {
	case *ssa.Convert:
		if !isNum(x.X.Type()) {
			return top
		}
		r := a.eval(x.X, b)
		if floatWidth(x.X.Type()) > 0 && floatWidth(x.Type()) == 0 {
			// cut towards zero
			if r.in(rng{bneg(bpow(64)), bpow(64), false}) {
				return r
			}
			return top
		}
		return r
	case *ssa.ChangeType:
		return a.eval(x.X, b)
	case *ssa.Phi:
		var r *rng
		for i, e := range x.Edges {
			pb := x.Block().Preds[i]
			er := a.edge(e, pb, x.Block(), a.eval(e, pb))
			if er.empty() {
				continue
			}
			if r == nil {
				r = &er
			} else {
				u := r.union(er)
				r = &u
			}
		}
		if r == nil {
			return top
		}
		// counted up or down from where it starts
		if up, down := monotone(x); up || down {
			var init *rng
			for i, e := range x.Edges {
				if pb := x.Block().Preds[i]; !isBackEdge(pb, x.Block()) {
					er := a.edge(e, pb, x.Block(), a.eval(e, pb))
					if init != nil {
						er = er.union(*init)
					}
					init = &er
				}
			}
			if init != nil && up {
				r.lo = bmax(r.lo, init.lo)
				// the counter stops at the limit before it can wrap
			}
			if init != nil && down {
				r.hi = bmin(r.hi, init.hi)
			}
		}
		return *r
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			r := a.eval(x.X, b)
			return rng{bneg(r.hi), bneg(r.lo), r.nan}
		case token.MUL:
			if al, ok := x.X.(*ssa.Alloc); ok {
				st, simple := storesTo(al)
				if !simple || len(st) == 0 {
					return top
				}
				r := a.eval(st[0].Val, st[0].Block())
				for _, s := range st[1:] {
					r = r.union(a.eval(s.Val, s.Block()))
				}
				return r.union(rng{bf(0), bf(0), false})
			}
			if c := a.m.canonOf(x); c != v {
				return a.eval(c, b)
			}
		}
		return top
	case *ssa.BinOp:
		return a.binop(x, b)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return top
		}
		if n := numParse(&c.Call); n != "" && x.Index == 0 {
			return a.parsed(n, c, top)
		}
		return a.result(c, x.Index, top)
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "len" || bi.Name() == "cap" {
				return rng{bf(0), bpow(56), false}
			}
			return top
		}
		if pkg == "math" && len(x.Call.Args) == 1 {
			r := a.eval(x.Call.Args[0], b)
			switch name {
			case "Abs":
				lo := bf(0)
				if r.lo.Sign() > 0 {
					lo = r.lo
				} else if r.hi.Sign() < 0 {
					lo = bneg(r.hi)
				}
				return rng{lo, bmax(r.hi, bneg(r.lo)), r.nan}
			case "Floor", "Ceil", "Trunc", "Round", "RoundToEven":
				lo, hi := r.lo, r.hi
				if !lo.IsInf() {
					lo = new(big.Float).SetPrec(300).Sub(lo, bf(1))
					if r.lo.Sign() >= 0 {
						lo = bf(0)
					}
				}
				if !hi.IsInf() && name != "Floor" {
					hi = new(big.Float).SetPrec(300).Add(hi, bf(1))
				}
				return rng{lo, hi, r.nan}
			}
			return top
		}
		if g := x.Call.StaticCallee(); g != nil {
			return a.result(x, 0, top)
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() != nil && f.Object().Exported() && !a.taint[x] {
			return top
		}
		i := prmIndex(f, x)
		var r *rng
		for _, c := range a.p.Callers(f) {
			args := callArgs(c.Common())
			if i >= len(args) {
				return top
			}
			er := a.eval(args[i], c.Block())
			if r == nil {
				r = &er
			} else {
				u := r.union(er)
				r = &u
			}
		}
		if r != nil {
			return *r
		}
	}
	return top
}

// monotone: on the way round the loop the variable is only counted up (down).
func monotone(x *ssa.Phi) (up, down bool) {
	up, down = true, true
	n := 0
	for i, e := range x.Edges {
		if !isBackEdge(x.Block().Preds[i], x.Block()) {
			continue
		}
		n++
		o, ok := e.(*ssa.BinOp)
		if !ok || o.X != x || o.Op != token.ADD && o.Op != token.SUB {
			return false, false
		}
		k, ok := intConst(o.Y)
		if !ok {
			return false, false
		}
		if o.Op == token.SUB {
			k = -k
		}
		up, down = up && k >= 0, down && k <= 0
	}
	return up && n > 0, down && n > 0
}

// parsed: what the parse can return without an error.
func (a *numAn) parsed(name string, call *ssa.Call, top rng) rng {
	c := &call.Call
	switch name {
	case "Atoi", "json.Int64":
		return bitRange(64, false)
	case "ParseInt", "ParseUint":
		n, ok := intConst(c.Args[len(c.Args)-1])
		if !ok || n <= 0 || n > 64 {
			n = 64
		}
		return bitRange(int(n), name == "ParseUint")
	case "ParseFloat":
		// only texts without digits and points are not a number or infinite
		if a.contains(c.Args[0], call.Block()) {
			lim := bpow(1024)
			if n, ok := intConst(c.Args[1]); ok && n == 32 {
				lim = bpow(128)
			}
			return rng{bneg(lim), lim, false}
		}
	}
	return top
}

// contains: a point was found in the text on the way to b.
func (a *numAn) contains(s ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		from := d.Preds[0]
		i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] != d {
			continue
		}
		c, ok := i.Cond.(*ssa.Call)
		if !ok {
			continue
		}
		pkg, name := extCallee(&c.Call)
		if pkg == "strings" && name == "Contains" && a.m.canonOf(c.Call.Args[0]) == a.m.canonOf(s) {
			if k, ok := strConst(c.Call.Args[1]); ok && strings.Contains(k, ".") {
				return true
			}
		}
	}
	return false
}

// result: what a function of the library returns when it reports no error.
func (a *numAn) result(c *ssa.Call, i int, top rng) rng {
	g := c.Call.StaticCallee()
	if g == nil {
		return top
	}
	g = a.p.unwrap(g)
	if !a.p.libFunc(g) || len(g.Blocks) == 0 || i >= g.Signature.Results().Len() {
		return top
	}
	var r *rng
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || a.failing(ret) {
			continue
		}
		for _, v := range retValues(ret, i) {
			er := a.eval(v, b)
			if r == nil {
				r = &er
			} else {
				u := r.union(er)
				r = &u
			}
		}
	}
	if r == nil {
		return top
	}
	return *r
}

// raw: the mathematical result of an operation, before it is cut to its type.
func (a *numAn) raw(x *ssa.BinOp, b *ssa.BasicBlock) (rng, bool) {
	l, r := a.eval(x.X, b), a.eval(x.Y, b)
	nan := l.nan || r.nan
	mk := func(f func(p, q *big.Float) *big.Float) (rng, bool) {
		var out *rng
		for _, p := range []*big.Float{l.lo, l.hi} {
			for _, q := range []*big.Float{r.lo, r.hi} {
				v, ok := bopSafe(func() *big.Float { return f(p, q) })
				if !ok {
					return rng{}, false
				}
				if out == nil {
					out = &rng{v, v, nan}
				} else {
					u := out.union(rng{v, v, nan})
					out = &u
				}
			}
		}
		return *out, true
	}
	nf := func() *big.Float { return new(big.Float).SetPrec(300) }
	isInt := floatWidth(x.Type()) == 0
	switch x.Op {
	case token.ADD:
		return mk(func(p, q *big.Float) *big.Float { return nf().Add(p, q) })
	case token.SUB:
		return mk(func(p, q *big.Float) *big.Float { return nf().Sub(p, q) })
	case token.MUL:
		return mk(func(p, q *big.Float) *big.Float { return nf().Mul(p, q) })
	case token.QUO:
		if r.lo.Sign() <= 0 && r.hi.Sign() >= 0 {
			if isInt && l.lo.Sign() >= 0 {
				return rng{bneg(l.hi), l.hi, false}, true
			}
			if isInt {
				m := bmax(l.hi, bneg(l.lo))
				return rng{bneg(m), m, false}, true
			}
			return everyNum(), true
		}
		v, ok := mk(func(p, q *big.Float) *big.Float { return nf().Quo(p, q) })
		if ok && isInt {
			// cut towards zero
			if v.lo.Sign() > 0 && v.lo.Cmp(bf(1)) < 0 {
				v.lo = bf(0)
			}
			if v.hi.Sign() < 0 && v.hi.Cmp(bf(-1)) > 0 {
				v.hi = bf(0)
			}
		}
		return v, ok
	case token.REM:
		m := bmax(r.hi, bneg(r.lo))
		lo := bneg(m)
		if l.lo.Sign() >= 0 {
			lo = bf(0)
		}
		return rng{lo, m, false}, true
	case token.AND:
		switch {
		case r.lo.Sign() >= 0 && l.lo.Sign() >= 0:
			return rng{bf(0), bmin(l.hi, r.hi), false}, true
		case r.lo.Sign() >= 0:
			return rng{bf(0), r.hi, false}, true
		case l.lo.Sign() >= 0:
			return rng{bf(0), l.hi, false}, true
		}
	case token.OR, token.XOR:
		if l.lo.Sign() >= 0 && r.lo.Sign() >= 0 {
			m := bmax(l.hi, r.hi)
			if m.Sign() == 0 {
				return rng{bf(0), bf(0), false}, true
			}
			return rng{bf(0), new(big.Float).SetPrec(300).Sub(bpow(m.MantExp(nil)), bf(1)), false}, true
		}
	case token.SHL, token.SHR:
		if r.lo.Sign() < 0 || r.hi.Cmp(bf(64)) > 0 {
			if x.Op == token.SHR {
				lo := bmin(l.lo, bf(0))
				return rng{lo, bmax(l.hi, bf(0)), false}, true
			}
			return rng{}, false
		}
		return mk(func(p, q *big.Float) *big.Float {
			n, _ := q.Int64()
			if x.Op == token.SHL {
				return nf().Mul(p, bpow(int(n)))
			}
			return nf().Quo(p, bpow(int(n)))
		})
	}
	return rng{}, false
}

func (a *numAn) binop(x *ssa.BinOp, b *ssa.BasicBlock) rng {
	if !isNum(x.Type()) {
		return everyNum()
	}
	if r, ok := a.raw(x, b); ok {
		return r
	}
	return typeRange(x.Type())
}

// same: the value is v seen through conversions that keep the number.
func (a *numAn) same(x, v ssa.Value) bool {
	return a.core(x) == a.core(v)
}

func (a *numAn) core(v ssa.Value) ssa.Value {
	for n := 0; n < 10; n++ {
		v = a.m.canonOf(v)
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			wf, uf := intWidth(x.X.Type())
			wt, ut := intWidth(x.Type())
			if wf > 0 && wt > 0 && (wt > wf && (uf || !ut) || wt == wf && uf == ut) {
				v = x.X
				continue
			}
			if floatWidth(x.X.Type()) > 0 && floatWidth(x.Type()) >= floatWidth(x.X.Type()) {
				v = x.X
				continue
			}
		}
		return v
	}
	return v
}

// narrow: what the conditions on the way to b say about v.
func (a *numAn) narrow(v ssa.Value, b *ssa.BasicBlock, r rng) rng {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			r = a.edge(v, d.Preds[0], d, r)
		}
	}
	return r
}

// edge: what leaving block from for block to says about v.
func (a *numAn) edge(v ssa.Value, from, to *ssa.BasicBlock, r rng) rng {
	if len(from.Instrs) == 0 {
		return r
	}
	i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return r
	}
	return a.cond(i.Cond, from.Succs[0] == to, v, from, r, 0)
}

func (a *numAn) cond(c ssa.Value, truth bool, v ssa.Value, b *ssa.BasicBlock, r rng, d int) rng {
	if d > 6 {
		return r
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.cond(x.X, !truth, v, b, r, d+1)
		}
	case *ssa.Phi:
		// a && b, a || b kept in a variable
		var out *rng
		for i, e := range x.Edges {
			pb := x.Block().Preds[i]
			er := a.edge(v, pb, x.Block(), r)
			if k, ok := e.(*ssa.Const); ok {
				if constant.BoolVal(k.Value) != truth {
					continue
				}
			} else {
				er = a.cond(e, truth, v, pb, er, d+1)
			}
			// conditions on the way to the edge, below the join's dominator
			for q := pb; q != nil && q != x.Block().Idom(); q = q.Idom() {
				if len(q.Preds) == 1 {
					er = a.edge(v, q.Preds[0], q, er)
				}
			}
			if out == nil {
				out = &er
			} else {
				u := out.union(er)
				out = &u
			}
		}
		if out != nil {
			return *out
		}
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if pkg == "math" && len(x.Call.Args) > 0 && a.same(x.Call.Args[0], v) {
			switch name {
			case "IsNaN":
				if !truth {
					r.nan = false
				}
			case "IsInf":
				if n, ok := intConst(x.Call.Args[1]); ok && !truth {
					if n >= 0 && r.hi.IsInf() {
						r.hi = new(big.Float).SetPrec(300).SetMantExp(bf(1), 1024)
					}
					if n <= 0 && r.lo.IsInf() {
						r.lo = bneg(new(big.Float).SetPrec(300).SetMantExp(bf(1), 1024))
					}
				}
			}
			return r
		}
		g := x.Call.StaticCallee()
		if g == nil || !a.p.libFunc(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 || !isBoolType(g.Signature.Results().At(0).Type()) {
			return r
		}
		for i, arg := range callArgs(&x.Call) {
			if i >= len(g.Params) || !a.same(arg, v) {
				continue
			}
			pv := g.Params[i]
			var out *rng
			for _, gb := range g.Blocks {
				ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, res := range retValues(ret, 0) {
					if k, ok := res.(*ssa.Const); ok && constant.BoolVal(k.Value) != truth {
						continue
					}
					er := a.narrow(pv, gb, r)
					if _, ok := res.(*ssa.Const); !ok {
						er = a.cond(res, truth, pv, gb, er, d+1)
					}
					if out == nil {
						out = &er
					} else {
						u := out.union(er)
						out = &u
					}
				}
			}
			if out != nil {
				r = *out
			}
		}
	case *ssa.BinOp:
		op := x.Op
		l, q := x.X, x.Y
		if !isNum(l.Type()) {
			return r
		}
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		if _, ok := flip[op]; !ok {
			return r
		}
		absolute := false
		if !a.same(l, v) {
			if a.same(q, v) {
				l, q, op = q, l, flip[op]
			} else if c, ok := a.core(l).(*ssa.Call); ok && a.isAbs(c, v) {
				absolute = true
			} else if c, ok := a.core(q).(*ssa.Call); ok && a.isAbs(c, v) {
				l, q, op = q, l, flip[op]
				absolute = true
			} else {
				return r
			}
		}
		k := a.eval(q, b)
		holds := truth // NaN fails every comparison but !=
		if !truth {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
			if x.Op == token.NEQ {
				holds = true
			}
		} else if op == token.NEQ {
			holds = false
		}
		nan := r.nan && !holds
		one := bf(0)
		if floatWidth(l.Type()) == 0 {
			one = bf(1)
		}
		step := func(x *big.Float, up bool) *big.Float {
			if x.IsInf() {
				return x
			}
			if up {
				return new(big.Float).SetPrec(300).Add(x, one)
			}
			return new(big.Float).SetPrec(300).Sub(x, one)
		}
		f := everyNum()
		switch op {
		case token.LSS:
			f.hi = step(k.hi, false)
		case token.LEQ:
			f.hi = k.hi
		case token.GTR:
			f.lo = step(k.lo, true)
		case token.GEQ:
			f.lo = k.lo
		case token.EQL:
			f.lo, f.hi = k.lo, k.hi
		}
		if absolute {
			if op != token.LSS && op != token.LEQ && op != token.EQL {
				return r
			}
			f.lo = bneg(f.hi)
		}
		r = rng{bmax(r.lo, f.lo), bmin(r.hi, f.hi), nan}
	}
	return r
}

func (a *numAn) isAbs(c *ssa.Call, v ssa.Value) bool {
	pkg, name := extCallee(&c.Call)
	return pkg == "math" && name == "Abs" && a.same(c.Call.Args[0], v)
}

// ---- rule change

func (a *numAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	return out
}

func (a *numAn) changes() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Convert:
				if a.taint[x.X] && isNum(x.Type()) && isNum(x.X.Type()) {
					a.r.Units["conversions of parsed numbers"]++
					a.convert(f, x)
				}
			case *ssa.BinOp:
				if !a.taint[x] || floatWidth(x.Type()) > 0 {
					return
				}
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.SHL:
				default:
					return
				}
				if isLoopPhi(x.X) || isLoopPhi(x.Y) {
					return // accumulated over a loop
				}
				a.r.Units["operations on parsed numbers"]++
				v, ok := a.raw(x, x.Block())
				if !ok || !v.in(typeRange(x.Type())) {
					a.r.failAlt("change", a.keys(f, "overflow of "+x.Op.String()), a.p.InstrPos(x), "a number read from text can be so large that this %s exceeds %s and wraps around", x.Op, x.Type())
				} else {
					a.r.ok("%s: %s of parsed numbers stays within %s", a.p.FName(f), x.Op, x.Type())
				}
			}
		})
	}
}

func isLoopPhi(v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, pb := range ph.Block().Preds {
		if isBackEdge(pb, ph.Block()) {
			return true
		}
	}
	return false
}

func (a *numAn) convert(f *ssa.Function, x *ssa.Convert) {
	r := a.eval(x.X, x.Block())
	if r.empty() {
		return
	}
	fw, tw := floatWidth(x.X.Type()), floatWidth(x.Type())
	bad := ""
	switch {
	case fw == 0 && tw == 0:
		if !r.in(typeRange(x.Type())) {
			bad = "values that do not fit wrap around"
		}
	case fw == 0:
		if cv, ok := a.core(x.X).(*ssa.Convert); ok && floatWidth(cv.X.Type()) > 0 && floatWidth(cv.X.Type()) <= tw {
			break // was a float before
		}
		if !r.in(exactInts(tw)) {
			bad = "large values lose digits"
		}
	case tw == 0:
		if !r.in(typeRange(x.Type())) {
			bad = "values outside its range (or NaN) become arbitrary numbers"
		}
	case tw < fw:
		lim := bpow(128)
		if !a.single(x.X) && !r.in(rng{bneg(lim), lim, true}) {
			bad = "values outside its range become infinite"
		}
	}
	if bad != "" {
		a.r.failAlt("change", a.keys(f, "conversion to "+a.p.TName(x.Type())), a.p.InstrPos(x), "a number read from text, %s here, is converted to %s: %s", r, a.p.TName(x.Type()), bad)
		return
	}
	a.r.ok("%s: %s fits %s", a.p.FName(f), r, a.p.TName(x.Type()))
}

// single: the value is exact in 32 bits.
func (a *numAn) single(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var one func(v ssa.Value) bool
	one = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		v = a.m.canonOf(v)
		if floatWidth(v.Type()) == 32 {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const:
			return isZeroConst(x)
		case *ssa.ChangeType:
			return one(x.X)
		case *ssa.Convert:
			return floatWidth(x.X.Type()) == 32
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !one(e) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			if numParse(&c.Call) == "ParseFloat" {
				n, ok := intConst(c.Call.Args[1])
				return ok && n == 32
			}
			return a.singleRet(c, x.Index, one)
		case *ssa.Call:
			return a.singleRet(x, 0, one)
		case *ssa.Parameter:
			f := x.Parent()
			if f.Object() != nil && f.Object().Exported() {
				return false
			}
			i := prmIndex(f, x)
			cs := a.p.Callers(f)
			for _, c := range cs {
				args := callArgs(c.Common())
				if i >= len(args) || !one(args[i]) {
					return false
				}
			}
			return len(cs) > 0
		}
		return false
	}
	return one(v)
}

func (a *numAn) singleRet(c *ssa.Call, i int, one func(v ssa.Value) bool) bool {
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	g = a.p.unwrap(g)
	if !a.p.libFunc(g) || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || a.failing(ret) {
			continue
		}
		for _, v := range retValues(ret, i) {
			if !one(v) {
				return false
			}
		}
	}
	return true
}

// ---- rule set

func (a *numAn) setters() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			pkg, name := extCallee(&c.Call)
			if pkg != "reflect" || len(c.Call.Args) != 2 || name != "SetInt" && name != "SetUint" && name != "SetFloat" {
				return
			}
			a.r.Units["numbers stored through reflection"]++
			if !a.exact[c.Call.Args[1]] {
				if !a.taint[c.Call.Args[1]] && !a.parses(f) {
					return // not a number read from text
				}
				a.r.failAlt("set", a.keys(f, name), a.p.InstrPos(c), "what %s stores is not the number that was read", name)
				return
			}
			if a.overflowTested(c) || a.fits(c.Call.Args[1], c.Call.Args[0], c.Block(), name == "SetFloat", 0) {
				a.r.ok("%s: %s stores a number parsed in the size of its place", a.p.FName(f), name)
				return
			}
			a.r.failAlt("set", a.keys(f, name), a.p.InstrPos(c), "the number is not parsed in the size of the place %s stores it in: numbers that do not fit are cut", name)
		})
	}
}

func (a *numAn) parses(f *ssa.Function) bool {
	res := false
	eachInstr(f, func(in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok && a.taint[v] {
			res = true
		}
	})
	return res
}

// overflowTested: the Overflow test of the place failed on the way.
func (a *numAn) overflowTested(c *ssa.Call) bool {
	for d := c.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		from := d.Preds[0]
		i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, truth := i.Cond, from.Succs[0] == d
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		q, ok := cond.(*ssa.Call)
		if !ok || truth {
			continue
		}
		pkg, name := extCallee(&q.Call)
		if pkg == "reflect" && strings.HasPrefix(name, "Overflow") && len(q.Call.Args) == 2 && a.m.canonOf(q.Call.Args[0]) == a.m.canonOf(c.Call.Args[0]) && a.same(q.Call.Args[1], c.Call.Args[1]) {
			return true
		}
	}
	return false
}

// fits: v was parsed with the bit size of dst.
func (a *numAn) fits(v, dst ssa.Value, b *ssa.BasicBlock, float bool, d int) bool {
	if d > 5 {
		return false
	}
	v, dst = a.core(v), a.m.canonOf(dst)
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.fits(e, dst, b, float, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		// helper that stores the number
		f := x.Parent()
		if f.Object() == nil || f.Object().Exported() {
			return false
		}
		dp, ok := dst.(*ssa.Parameter)
		if !ok {
			return false
		}
		cs := a.p.Callers(f)
		for _, c := range cs {
			args := callArgs(c.Common())
			if !a.fits(args[prmIndex(f, x)], args[prmIndex(f, dp)], c.Block(), float, d+1) {
				return false
			}
		}
		return len(cs) > 0
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		if n := numParse(&c.Call); n != "" {
			return strings.HasPrefix(n, "Parse") && a.sizeOf(c.Call.Args[len(c.Call.Args)-1], dst, d)
		}
		// helper that parses the number
		g := c.Call.StaticCallee()
		if g == nil {
			return false
		}
		g = a.p.unwrap(g)
		for _, gb := range g.Blocks {
			ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return)
			if !ok || a.failing(ret) {
				continue
			}
			for _, rv := range retValues(ret, x.Index) {
				e, ok := a.core(rv).(*ssa.Extract)
				if !ok {
					return false
				}
				pc, ok := e.Tuple.(*ssa.Call)
				if !ok || !strings.HasPrefix(numParse(&pc.Call), "Parse") {
					return false
				}
				bits := pc.Call.Args[len(pc.Call.Args)-1]
				if bp, ok := bits.(*ssa.Parameter); ok {
					if !a.sizeOf(callArgs(&c.Call)[prmIndex(g, bp)], dst, d) {
						return false
					}
					continue
				}
				// the size of a parameter that is handed the place
				good := false
				for i, gp := range g.Params {
					if i < len(callArgs(&c.Call)) && a.sizeOf(bits, gp, d) {
						arg := a.m.canonOf(callArgs(&c.Call)[i])
						good = good || arg == dst || a.typeOf(arg, dst)
					}
				}
				if !good {
					return false
				}
			}
		}
		return true
	}
	return false
}

// typeOf: t is the type of dst.
func (a *numAn) typeOf(t, dst ssa.Value) bool {
	c, ok := a.m.canonOf(t).(*ssa.Call)
	if !ok {
		return false
	}
	pkg, name := extCallee(&c.Call)
	return pkg == "reflect" && name == "Type" && len(c.Call.Args) == 1 && a.m.canonOf(c.Call.Args[0]) == a.m.canonOf(dst)
}

// sizeOf: bits is the bit size of dst (a reflect.Value or its reflect.Type).
func (a *numAn) sizeOf(bits, dst ssa.Value, d int) bool {
	bits = a.m.canonOf(bits)
	switch x := bits.(type) {
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		args := callArgs(&x.Call)
		if pkg == "reflect" && name == "Bits" && len(args) == 1 {
			return a.m.canonOf(args[0]) == a.m.canonOf(dst) || a.typeOf(args[0], dst)
		}
		if g := x.Call.StaticCallee(); g != nil && a.p.libFunc(g) && len(g.Blocks) > 0 && d < 4 {
			for _, gb := range g.Blocks {
				if ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
					good := false
					for i, gp := range g.Params {
						if i < len(args) && a.sizeOf(ret.Results[0], gp, d+1) && (a.m.canonOf(args[i]) == a.m.canonOf(dst) || a.typeOf(args[i], dst)) {
							good = true
						}
					}
					if !good {
						return false
					}
				}
			}
			return true
		}
	case *ssa.Convert:
		// int(t.Size()) * 8
		return false
	case *ssa.BinOp:
		if x.Op != token.MUL {
			return false
		}
		l, r := x.X, x.Y
		if n, ok := intConst(l); ok && n == 8 {
			l, r = r, l
		}
		if n, ok := intConst(r); !ok || n != 8 {
			return false
		}
		if cv, ok := l.(*ssa.Convert); ok {
			l = cv.X
		}
		c, ok := l.(*ssa.Call)
		if !ok {
			return false
		}
		pkg, name := extCallee(&c.Call)
		args := callArgs(&c.Call)
		return pkg == "reflect" && name == "Size" && len(args) == 1 && a.typeOf(args[0], dst)
	case *ssa.Parameter:
		f := x.Parent()
		dp, ok := dst.(*ssa.Parameter)
		if !ok || f.Object() == nil || f.Object().Exported() || d > 3 || dp.Parent() != f {
			return false
		}
		cs := a.p.Callers(f)
		for _, c := range cs {
			args := callArgs(c.Common())
			if !a.sizeOf(args[prmIndex(f, x)], args[prmIndex(f, dp)], d+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

// ---- rule digits

// narrowParse: numbers parsed with the precision of 32 bits and kept in 64.
func (a *numAn) narrowParse(f *ssa.Function, c *ssa.Call, e *ssa.Extract) {
	if n, ok := intConst(c.Call.Args[1]); !ok || n != 32 {
		return
	}
	seen := map[ssa.Value]bool{}
	var kept func(v ssa.Value) bool
	kept = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.ChangeType:
				if kept(x) {
					return true
				}
			case *ssa.Convert:
				if floatWidth(x.Type()) == 64 && kept(x) {
					return true
				}
			case *ssa.Phi:
				if kept(x) {
					return true
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok && !al.Heap {
					for _, l := range *al.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok && kept(u) {
							return true
						}
					}
					continue
				}
				return true
			case *ssa.Return:
				if !a.failing(x) && f.Object() != nil && f.Object().Exported() {
					return true
				}
				for i, rv := range x.Results {
					if rv != v || a.failing(x) {
						continue
					}
					for _, cl := range a.p.Callers(f) {
						cv, ok := cl.(*ssa.Call)
						if !ok {
							continue
						}
						if f.Signature.Results().Len() == 1 {
							if kept(cv) {
								return true
							}
							continue
						}
						for _, q := range *cv.Referrers() {
							if e, ok := q.(*ssa.Extract); ok && e.Index == i && kept(e) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	if kept(e) {
		a.r.failAlt("digits", a.keys(f, "ParseFloat"), a.p.InstrPos(c), "the number is parsed with the precision of 32 bits but kept in 64: its digits beyond the seventh are lost")
	}
}

func (a *numAn) formats() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || numParse(&c.Call) != "ParseFloat" {
				return
			}
			for _, x := range *c.Referrers() {
				if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
					a.narrowParse(f, c, e)
				}
			}
		})
	}
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			name, i := numFormat(&c.Call)
			if name == "" {
				return
			}
			a.r.Units["numbers formatted"]++
			v := c.Call.Args[i]
			bad := a.lossy(v, c.Block(), map[ssa.Value]bool{})
			if bad == "" && name == "FormatFloat" {
				prec, bits := c.Call.Args[i+2], c.Call.Args[i+3]
				if n, ok := intConst(prec); (!ok || n >= 0) && !a.computed(v, 0) {
					bad = "it is written with a limited number of digits"
				} else if n, ok := intConst(bits); ok {
					if n == 32 && !a.single(v) {
						bad = "a 64 bit value is written with the digits of 32 bits"
					}
				} else if fc, ok := a.core(v).(*ssa.Call); ok {
					pkg, nm := extCallee(&fc.Call)
					if pkg == "reflect" && nm == "Float" && !a.sizeOf(bits, fc.Call.Args[0], 0) {
						bad = "it is written with the digits of another type's size"
					}
				}
			}
			if bad == "" && (name == "FormatInt" || name == "FormatUint") && len(c.Call.Args) > i+1 {
				if _, ok := intConst(c.Call.Args[i+1]); !ok {
					return
				}
			}
			if bad != "" {
				a.r.failAlt("digits", a.keys(f, name), a.p.InstrPos(c), "the number written is not the number held: %s", bad)
				return
			}
			a.r.ok("%s: %s writes the number whole", a.p.FName(f), name)
		})
	}
}

// lossy: a conversion on the way from the value held to v that loses values.
func (a *numAn) lossy(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.ChangeType:
		return a.lossy(x.X, b, seen)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if s := a.lossy(e, x.Block().Preds[i], seen); s != "" {
				return s
			}
		}
	case *ssa.Convert:
		if !isNum(x.X.Type()) {
			return ""
		}
		r := a.eval(x.X, x.Block())
		fw, tw := floatWidth(x.X.Type()), floatWidth(x.Type())
		switch {
		case fw == 0 && tw == 0:
			if !r.in(typeRange(x.Type())) {
				return fmt.Sprintf("%s is converted to %s, which cannot hold all its values", a.p.TName(x.X.Type()), a.p.TName(x.Type()))
			}
		case fw == 0 && tw > 0:
			if !r.in(exactInts(tw)) {
				return fmt.Sprintf("%s is converted to %s, which loses digits of large values", a.p.TName(x.X.Type()), a.p.TName(x.Type()))
			}
		case fw > tw && tw > 0 && !a.single(x.X):
			return fmt.Sprintf("%s is converted to %s, which loses digits", a.p.TName(x.X.Type()), a.p.TName(x.Type()))
		}
		return a.lossy(x.X, x.Block(), seen)
	}
	return ""
}

// computed: the number is the result of arithmetic, not one that is held.
func (a *numAn) computed(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := a.core(v).(type) {
	case *ssa.BinOp:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.computed(e, d+1) {
				return true
			}
		}
	case *ssa.Call:
		pkg, _ := extCallee(&x.Call)
		return pkg == "math"
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() == nil || f.Object().Exported() {
			return false
		}
		cs := a.p.Callers(f)
		for _, c := range cs {
			if args := callArgs(c.Common()); !a.computed(args[prmIndex(f, x)], d+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

// ---- rule json

func (a *numAn) json() {
	for _, f := range a.p.LibFuncs() {
		// numbers of decoded JSON that are written as text
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			name, i := numFormat(&c.Call)
			if name != "FormatFloat" {
				return
			}
			v := a.core(c.Call.Args[i])
			if e, ok := v.(*ssa.Extract); ok {
				v = e.Tuple
			}
			ta, ok := v.(*ssa.TypeAssert)
			if !ok || !isEmptyIface(ta.X.Type()) {
				return
			}
			a.r.failAlt("json", a.keys(f, "float64"), a.p.InstrPos(c), "a number decoded from JSON as float64 is written as text: integers of more than 53 bits lose their last digits")
		})
	}
}

// fractions decides the rule fraction: the digits of a fraction of a second
// are written with their leading zeros.
func (a *numAn) fractions() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if name, i := numFormat(&c.Call); name != "" {
				if d := a.fraction(c.Call.Args[i], 0); d > 0 {
					a.r.Units["fractions"]++
					if a.added(c.Call.Args[i], 0) {
						return
					}
					a.r.failAlt("fraction", a.keys(f, name), a.p.InstrPos(c), "the %d digits of a fraction of a second are written without their leading zeros", d)
				}
				return
			}
			pkg, name := extCallee(&c.Call)
			plain := strings.Contains(name, "rint") && !strings.HasSuffix(name, "f")
			if pkg != "fmt" || !plain && !strings.HasSuffix(name, "f") {
				return
			}
			args := callArgs(&c.Call)
			for i, arg := range args {
				format, ok := strConst(arg)
				at := i + 1
				if plain {
					format, ok, at = "", i == len(args)-1, i
				}
				if !ok || at >= len(args) {
					continue
				}
				sl, ok := args[at].(*ssa.Slice)
				if !ok {
					return
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok || al.Referrers() == nil {
					return
				}
				verbs := fmtVerbs(format)
				for _, ref := range *al.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					n, ok := intConst(ia.Index)
					if !ok {
						continue
					}
					for _, r2 := range *ia.Referrers() {
						st, ok := r2.(*ssa.Store)
						if !ok {
							continue
						}
						v := st.Val
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						d := a.fraction(v, 0)
						if d == 0 {
							continue
						}
						a.r.Units["fractions"]++
						if int(n) >= len(verbs) || !padded(verbs[n], d) {
							a.r.failAlt("fraction", a.keys(f, name), a.p.InstrPos(c), "the %d digits of a fraction of a second are written without their leading zeros", d)
							continue
						}
						a.r.ok("%s: a fraction of a second is written with all its digits at %s", a.p.FName(f), a.p.InstrPos(c))
					}
				}
				return
			}
		})
	}
}

// fraction: v counts parts of a second; the number of digits it has.
func (a *numAn) fraction(v ssa.Value, d int) int {
	if d > 10 {
		return 0
	}
	switch x := strip(v).(type) {
	case *ssa.Convert:
		return a.fraction(x.X, d+1)
	case *ssa.Call:
		if pkg, name := extCallee(&x.Call); pkg == "time" && name == "Nanosecond" {
			return 9
		}
	case *ssa.BinOp:
		if k, ok := intConst(x.Y); ok && x.Op == token.QUO {
			n := a.fraction(x.X, d+1)
			for ; n > 0 && k >= 10; k /= 10 {
				n--
			}
			return n
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n := a.fraction(e, d+1); n > 0 {
				return n
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if st := soleStore(al); st != nil {
				return a.fraction(st, d+1)
			}
		}
	}
	return 0
}

// added: something is added to the number (1000000000+n, cut afterwards).
func (a *numAn) added(v ssa.Value, d int) bool {
	b, ok := strip(v).(*ssa.BinOp)
	return ok && b.Op == token.ADD
}

// fmtVerbs splits a format into its verbs.
func fmtVerbs(s string) []string {
	var out []string
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[j]) >= 0 {
			j++
		}
		if j < len(s) && s[j] != '%' {
			out = append(out, s[i:j+1])
		}
		i = j
	}
	return out
}

// padded: the verb writes n digits with leading zeros.
func padded(verb string, n int) bool {
	if !strings.HasSuffix(verb, "d") {
		return false
	}
	s := strings.TrimSuffix(strings.TrimPrefix(verb, "%"), "d")
	if strings.HasPrefix(s, ".") {
		s = "0" + s[1:]
	}
	if !strings.HasPrefix(s, "0") {
		return false
	}
	w := 0
	for _, c := range s[1:] {
		if c < '0' || c > '9' {
			return false
		}
		w = w*10 + int(c-'0')
	}
	return w >= n
}
