package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Must-analysis of emptiness predicates: for a function returning bool, which
// parts of its operand are certainly empty whenever it returns true (false).

type factSet map[string]bool

func (a factSet) clone() factSet {
	b := factSet{}
	for k := range a {
		b[k] = true
	}
	return b
}

func union(a, b factSet) factSet {
	c := a.clone()
	for k := range b {
		c[k] = true
	}
	return c
}

func meet(a, b factSet) factSet {
	c := factSet{}
	for k := range a {
		if b[k] {
			c[k] = true
		}
	}
	return c
}

type zeroAn struct {
	p     *Prog
	depth int
}

// rootPath names the part of parameter prm that v denotes: "" for the whole,
// "F", "F.G" for fields; ok=false when v is something else.
func rootPath(v ssa.Value, prm *ssa.Parameter) (string, bool) {
	return rootPathD(v, prm, 0)
}

func rootPathD(v ssa.Value, prm *ssa.Parameter, d int) (string, bool) {
	if d > 12 {
		return "", false
	}
	if v == prm {
		return "", true
	}
	join := func(a, b string) string {
		if a == "" {
			return b
		}
		return a + "." + b
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		if s := soleStore(v); s != nil {
			return rootPathD(s, prm, d+1)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return rootPathD(v.X, prm, d+1)
		}
	case *ssa.FieldAddr:
		if b, ok := rootPathD(v.X, prm, d+1); ok {
			return join(b, fieldName(v)), true
		}
	case *ssa.Field:
		if b, ok := rootPathD(v.X, prm, d+1); ok {
			return join(b, fieldNameV(v)), true
		}
	case *ssa.ChangeType:
		return rootPathD(v.X, prm, d+1)
	case *ssa.Convert:
		return rootPathD(v.X, prm, d+1)
	case *ssa.MakeInterface:
		return rootPathD(v.X, prm, d+1)
	case *ssa.ChangeInterface:
		return rootPathD(v.X, prm, d+1)
	case *ssa.TypeAssert:
		return rootPathD(v.X, prm, d+1)
	case *ssa.Call:
		// reflect.Value.Interface()
		if n := calleeName(v); strings.HasSuffix(n, ".Interface") && len(v.Common().Args) == 1 {
			return rootPathD(v.Common().Args[0], prm, d+1)
		}
	}
	return "", false
}

func calleeName(c *ssa.Call) string {
	if c.Common().IsInvoke() {
		return "." + c.Common().Method.Name()
	}
	if f := c.Common().StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.Int, constant.Float:
		return constant.Sign(c.Value) == 0
	}
	return false
}

// implied: parts of prm certainly empty when boolean v equals t.
func (z *zeroAn) implied(v ssa.Value, t bool, prm *ssa.Parameter, depth int) factSet {
	out := factSet{}
	if depth > 8 {
		return out
	}
	if p, ok := rootPath(v, prm); ok {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && !t {
			out[p] = true
		}
		return out
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return z.implied(v.X, !t, prm, depth+1)
		}
	case *ssa.BinOp:
		x, y, op := v.X, v.Y, v.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !t {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		zero := isZeroConst(y)
		one := false
		if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(c.Value); ok && i == 1 {
				one = true
			}
		}
		if p, k := z.measure(x, prm); k != "" {
			switch {
			case op == token.EQL && zero, op == token.LEQ && zero && k == "nonneg", op == token.LSS && one && k == "nonneg":
				out[p] = true
			}
			return out
		}
		// comparison with a zero composite: load of a never-stored alloc
		if op == token.EQL {
			if p, ok := rootPath(x, prm); ok && isZeroLoad(y) {
				out[p] = true
			} else if p, ok := rootPath(y, prm); ok && isZeroLoad(x) {
				out[p] = true
			}
		}
		// a|b == 0, a+b == 0 over unsigned/lengths
		if op == token.EQL && zero {
			if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.OR || b.Op == token.ADD) {
				for _, s := range flatten(b, b.Op) {
					if p, k := z.measure(s, prm); k != "" {
						out[p] = true
					}
				}
			}
		}
	case *ssa.Phi:
		var acc factSet
		for i, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != t {
				continue
			}
			pred := v.Block().Preds[i]
			f := union(z.edgeFacts(pred, v.Block(), prm, depth+1), z.implied(e, t, prm, depth+1))
			if acc == nil {
				acc = f
			} else {
				acc = meet(acc, f)
			}
		}
		if acc != nil {
			return acc
		}
	case *ssa.Call:
		n := calleeName(v)
		args := v.Common().Args
		if v.Common().IsInvoke() {
			if p, ok := rootPath(v.Common().Value, prm); ok && v.Common().Method.Name() == "IsZero" && t {
				out[p] = true
			}
			return out
		}
		if strings.HasSuffix(n, ".IsZero") || strings.HasSuffix(n, ").IsNil") || n == "(reflect.Value).IsNil" || n == "(reflect.Value).IsZero" {
			if len(args) == 1 && t {
				if p, ok := rootPath(args[0], prm); ok {
					out[p] = true
				}
			}
			return out
		}
		if n == "(reflect.Value).Bool" && len(args) == 1 && !t {
			if p, ok := rootPath(args[0], prm); ok {
				out[p] = true
			}
			return out
		}
		if n == "reflect.DeepEqual" && t && len(args) == 2 {
			for i := range args {
				if p, ok := rootPath(args[i], prm); ok {
					o := args[1-i]
					if m, ok := o.(*ssa.MakeInterface); ok && isZeroLoad(m.X) {
						out[p] = true
					}
				}
			}
			return out
		}
		f := z.p.unwrap(v.Common().StaticCallee())
		if f != nil && f.Blocks != nil && z.p.InModule(f) && depth < 5 {
			for i, a := range args {
				if i >= len(f.Params) {
					break
				}
				p, ok := rootPath(a, prm)
				if !ok {
					continue
				}
				for q := range z.returnsFacts(f, f.Params[i], t, depth+1) {
					switch {
					case q == "":
						out[p] = true
					case p == "":
						out[q] = true
					default:
						out[p+"."+q] = true
					}
				}
			}
		}
	}
	return out
}

func flatten(b *ssa.BinOp, op token.Token) []ssa.Value {
	var out []ssa.Value
	for _, x := range []ssa.Value{b.X, b.Y} {
		if c, ok := x.(*ssa.BinOp); ok && c.Op == op {
			out = append(out, flatten(c, op)...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

// measure: v is a size/scalar of a part of prm.
func (z *zeroAn) measure(v ssa.Value, prm *ssa.Parameter) (string, string) {
	if p, ok := rootPath(v, prm); ok {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return p, "nonneg"
		}
		return p, "any"
	}
	if c, ok := v.(*ssa.Call); ok && len(c.Common().Args) == 1 {
		a := c.Common().Args[0]
		switch calleeName(c) {
		case "len", "(reflect.Value).Len":
			if p, ok := rootPath(a, prm); ok {
				return p, "nonneg"
			}
		case "(reflect.Value).Int", "(reflect.Value).Float", "(reflect.Value).String":
			if p, ok := rootPath(a, prm); ok {
				return p, "any"
			}
		case "(reflect.Value).Uint":
			if p, ok := rootPath(a, prm); ok {
				return p, "nonneg"
			}
		}
		// accessor of the module returning (a conversion of) its receiver
		if f := z.p.unwrap(c.Common().StaticCallee()); f != nil && f.Blocks != nil && z.p.InModule(f) && len(f.Params) == 1 {
			if p, ok := rootPath(a, prm); ok {
				same := true
				n := 0
				eachInstr(f, func(in ssa.Instruction) {
					if r, k := in.(*ssa.Return); k && len(r.Results) == 1 {
						n++
						if q, k := rootPath(r.Results[0], f.Params[0]); !k || q != "" {
							same = false
						}
					}
				})
				if same && n > 0 {
					return p, "any"
				}
			}
		}
	}
	return "", ""
}

func isZeroLoad(v ssa.Value) bool {
	if isZeroConst(v) {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				switch r.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

// edgeFacts: facts established on every path to block b plus the branch taken to succ.
func (z *zeroAn) edgeFacts(b, succ *ssa.BasicBlock, prm *ssa.Parameter, depth int) factSet {
	return z.edgeFactsV(b, succ, prm, depth, map[*ssa.BasicBlock]bool{})
}

func (z *zeroAn) edgeFactsV(b, succ *ssa.BasicBlock, prm *ssa.Parameter, depth int, seen map[*ssa.BasicBlock]bool) factSet {
	f := z.blockFacts(b, prm, depth, seen)
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
		f = union(f, z.implied(i.Cond, b.Succs[0] == succ, prm, depth+1))
	}
	return f
}

func (z *zeroAn) blockFacts(b *ssa.BasicBlock, prm *ssa.Parameter, depth int, seen map[*ssa.BasicBlock]bool) factSet {
	if seen[b] || len(b.Preds) == 0 || depth > 8 {
		return factSet{}
	}
	seen[b] = true
	defer delete(seen, b)
	var acc factSet
	for _, p := range b.Preds {
		if seen[p] && p != b { // back edge: facts do not change, memory is not written by a predicate
			continue
		}
		if b.Dominates(p) {
			continue
		}
		f := z.edgeFactsV(p, b, prm, depth, seen)
		if acc == nil {
			acc = f
		} else {
			acc = meet(acc, f)
		}
	}
	if acc == nil {
		return factSet{}
	}
	return acc
}

// returnsFacts: facts about prm that hold whenever f returns t.
func (z *zeroAn) returnsFacts(f *ssa.Function, prm *ssa.Parameter, t bool, depth int) factSet {
	var acc factSet
	eachInstr(f, func(in ssa.Instruction) {
		r, ok := in.(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			return
		}
		v := r.Results[0]
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != t {
			return
		}
		fs := union(z.blockFacts(in.Block(), prm, depth, map[*ssa.BasicBlock]bool{}), z.implied(v, t, prm, depth+1))
		if acc == nil {
			acc = fs
		} else {
			acc = meet(acc, fs)
		}
	})
	if acc == nil {
		return factSet{}
	}
	return acc
}

// mentions: parts of prm that flow into a call this analysis cannot see through,
// or are compared in any way.
func (z *zeroAn) mentions(f *ssa.Function, prm *ssa.Parameter) (escaping, compared factSet) {
	escaping, compared = factSet{}, factSet{}
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Call:
			n := calleeName(in)
			if n == "len" || strings.HasSuffix(n, ".IsZero") || n == "reflect.DeepEqual" {
				return
			}
			for _, a := range in.Common().Args {
				if p, ok := rootPath(a, prm); ok && p != "" {
					escaping[p] = true
				}
			}
		case *ssa.Store:
			if p, ok := rootPath(in.Val, prm); ok && p != "" {
				escaping[p] = true
			}
		case *ssa.Range, *ssa.MakeClosure, *ssa.Lookup, *ssa.IndexAddr, *ssa.Index, *ssa.Slice:
			for _, o := range in.Operands(nil) {
				if *o == nil {
					continue
				}
				if p, ok := rootPath(*o, prm); ok && p != "" {
					escaping[p] = true
				}
			}
		}
		for _, o := range in.Operands(nil) {
			if *o == nil {
				continue
			}
			if p, ok := rootPath(*o, prm); ok && p != "" {
				compared[p] = true
				compared[strings.Split(p, ".")[0]] = true
			}
		}
	})
	return
}

func init() { register("C10", checkZero) }

func checkZero(p *Prog, r *Result) {
	r.Explain = "Every emptiness predicate the encoder, lister and decoder consult (IsZero methods of structures, node emptiness, the reflection fallback): on every path that can return true, each serialised part must have been compared empty."
	z := &zeroAn{p: p}
	for _, n := range p.NamedTypes() {
		if !p.libType(n) || types.IsInterface(n) {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fn := p.Method(n, "IsZero")
		if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 {
			continue
		}
		c := codecOf(n)
		tagged := map[string]bool{}
		for _, f := range tagFields(n, "xmp") {
			if f.HasTag && !f.Omit && !strings.Contains(f.Path, ".") {
				tagged[f.Field.Name()] = true
			}
		}
		text := c.MT != nil && c.MX == nil
		var req []string
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if tagged[f.Name()] || text && (f.Exported() || len(tagged) == 0) {
				req = append(req, f.Name())
			}
		}
		if p.TName(n) == "xmp.Node" {
			req = nil
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != "XMLName" {
					req = append(req, st.Field(i).Name())
				}
			}
		}
		if len(req) == 0 {
			continue
		}
		sort.Strings(req)
		r.Units["predicates"]++
		facts := z.returnsFacts(fn, fn.Params[0], true, 0)
		esc, cmp := z.mentions(fn, fn.Params[0])
		have := func(s factSet, f string) bool {
			if s[""] || s[f] {
				return true
			}
			for k := range s {
				if strings.HasPrefix(k, f+".") {
					return true
				}
			}
			return false
		}
		for _, f := range req {
			r.Units["fields"]++
			key := p.TName(n) + "." + f
			switch {
			case have(facts, f):
				r.ok("%s.IsZero() == true implies %s is empty", p.TName(n), f)
			case listDecided(z, fn, f) != 0:
				if listDecided(z, fn, f) > 0 {
					r.ok("%s.IsZero() == true implies every item of %s is empty", p.TName(n), f)
				} else {
					r.fail("zero-incomplete", key, p.Pos(fn.Pos()), "%s.IsZero can be true while an item of %s is not empty", p.TName(n), f)
				}
			case have(esc, f):
				r.undecided("%s: %s handed to code this rule does not follow", p.TName(n), f)
			case text && have(cmp, f):
				r.undecided("%s: %s takes part in the predicate", p.TName(n), f)
			default:
				r.fail("zero-incomplete", key, p.Pos(fn.Pos()), "%s.IsZero can be true while %s is set: a value holding only %s is treated as empty and dropped when the document is written", p.TName(n), f, f)
			}
		}
	}
	// lists that decide for themselves
	for _, n := range p.NamedTypes() {
		if !p.libType(n) {
			continue
		}
		if _, ok := n.Underlying().(*types.Slice); !ok {
			continue
		}
		fn := p.Method(n, "IsZero")
		if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 {
			continue
		}
		switch listDecided(z, fn, "") {
		case 1:
			r.Units["predicates"]++
			r.ok("%s.IsZero() == true implies every item is empty", p.TName(n))
		case 0:
			r.Units["predicates"]++
			facts := z.returnsFacts(fn, fn.Params[0], true, 0)
			esc, _ := z.mentions(fn, fn.Params[0])
			switch {
			case facts[""]:
				r.ok("%s.IsZero() == true implies the list is empty", p.TName(n))
			case len(esc) > 0:
				r.undecided("%s: handed to code this rule does not follow", p.TName(n))
			default:
				r.fail("zero-incomplete", p.TName(n), p.Pos(fn.Pos()), "%s.IsZero can be true while the list holds items that are not empty", p.TName(n))
			}
		case -1:
			r.Units["predicates"]++
			r.fail("zero-incomplete", p.TName(n), p.Pos(fn.Pos()), "%s.IsZero can be true while an item is not empty", p.TName(n))
		}
	}
	// the reflection fallback
	for _, fn := range p.LibFuncs() {
		if fn.Signature.Recv() != nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if fn.Params[0].Type().String() != "reflect.Value" || fn.Signature.Results().At(0).Type().String() != "bool" {
			continue
		}
		calls := false
		eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "IsZero" {
				calls = true
			}
		})
		if !calls {
			continue
		}
		r.Units["reflection_predicates"]++
		eachInstr(fn, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			v := rt.Results[0]
			if c, ok := v.(*ssa.Const); ok && !constant.BoolVal(c.Value) {
				return
			}
			f := union(z.blockFacts(in.Block(), fn.Params[0], 0, map[*ssa.BasicBlock]bool{}), z.implied(v, true, fn.Params[0], 0))
			if f[""] {
				r.ok("%s: returns true only for an empty value", p.FName(fn))
			} else if _, isCall := v.(*ssa.Call); isCall {
				r.undecided("%s: result of a call", p.FName(fn))
			} else {
				r.fail("zero-fallback", p.FName(fn), p.InstrPos(in), "%s can report a non-empty value as empty", p.FName(fn))
			}
		})
	}
	r.need("predicates", 15)
	r.need("fields", 60)
}

// listDecided: fn looks at the items of the list (the receiver, or a field of
// it) one by one; 1: it is true only if each is empty, -1: it can be true
// otherwise, 0: no such loop.
func listDecided(z *zeroAn, fn *ssa.Function, field string) int {
	prm := fn.Params[0]
	x := z.p.Prover()
	res := 0
	for _, lp := range countedLoops(x, fn) {
		if path, ok := rootPath(lp.list, prm); !ok || path != field {
			continue
		}
		isItem := func(v ssa.Value) bool {
			for d := 0; d < 8; d++ {
				switch t := v.(type) {
				case *ssa.UnOp:
					if t.Op != token.MUL {
						return false
					}
					v = t.X
				case *ssa.FieldAddr:
					v = t.X
				case *ssa.Field:
					v = t.X
				case *ssa.Convert:
					v = t.X
				case *ssa.ChangeType:
					v = t.X
				case *ssa.MakeInterface:
					v = t.X
				case *ssa.Alloc:
					s := soleStore(t)
					if s == nil {
						return false
					}
					v = s
				case *ssa.IndexAddr:
					path, ok := rootPath(t.X, prm)
					return ok && path == field
				default:
					return false
				}
			}
			return false
		}
		own := false // items decide for themselves
		if sl, ok := deref(lp.list.Type()).Underlying().(*types.Slice); ok {
			if n := namedOf(deref(sl.Elem())); n != nil {
				if _, st := n.Underlying().(*types.Struct); st {
					own = z.p.Method(n, "IsZero") != nil
				}
			}
		}
		empty := func(c ssa.Value, truth bool) bool {
			switch t := c.(type) {
			case *ssa.Call:
				if !truth {
					return false
				}
				for _, a := range callArgs(&t.Call) {
					if isItem(a) {
						return true
					}
				}
			case *ssa.BinOp:
				if isNilConst(t.X) || isNilConst(t.Y) {
					return (t.Op == token.EQL) == truth && (isItem(t.X) || isItem(t.Y))
				}
				if own {
					return false
				}
				if l := lenZero(t, truth); l != nil && isItem(l) {
					return true
				}
				if (t.Op == token.EQL) == truth && (t.Op == token.EQL || t.Op == token.NEQ) {
					return isItem(t.X) && isZeroConst(t.Y) || isItem(t.Y) && isZeroConst(t.X)
				}
			}
			return false
		}
		a := &nilAn{p: z.p, m: x.m, x: x}
		var implies func(v ssa.Value, truth bool, fact func(c ssa.Value, truth bool) bool, d int) bool
		implies = func(v ssa.Value, truth bool, fact func(c ssa.Value, truth bool) bool, d int) bool {
			if d > 6 {
				return false
			}
			if fact(v, truth) {
				return true
			}
			switch t := v.(type) {
			case *ssa.Const:
				return t.Value != nil && t.Value.Kind() == constant.Bool && constant.BoolVal(t.Value) != truth
			case *ssa.UnOp:
				return t.Op == token.NOT && implies(t.X, !truth, fact, d+1)
			case *ssa.Phi:
				for i, e := range t.Edges {
					if !implies(e, truth, fact, d+1) && !a.condKnown(t.Block().Preds[i], t.Block(), fact) {
						return false
					}
				}
				return true
			}
			return false
		}
		ok := true
		for i, pr := range lp.head.Preds {
			if !isBackEdge(pr, lp.head) || a.condKnown(pr, lp.head, empty) {
				continue
			}
			// an answer put together on the way
			acc := false
			for _, in := range lp.head.Instrs {
				ph, isPhi := in.(*ssa.Phi)
				if !isPhi || !isBoolType(ph.Type()) {
					continue
				}
				self := func(c ssa.Value, truth bool) bool { return truth && c == ssa.Value(ph) }
				if implies(ph.Edges[i], true, empty, 0) && implies(ph.Edges[i], true, self, 0) && answers(fn, ph) {
					acc = true
				}
			}
			if !acc {
				ok = false
			}
		}
		if ok && !trueElsewhere(z, fn, field, lp, func(v ssa.Value) bool { return implies(v, true, empty, 0) }) {
			return 1
		}
		res = -1
	}
	return res
}

// trueElsewhere: fn can be true before, or from within, the loop without
// knowing that the list is empty.
func trueElsewhere(z *zeroAn, fn *ssa.Function, field string, lp listLoop, item func(v ssa.Value) bool) bool {
	prm := fn.Params[0]
	bad := false
	var check func(v ssa.Value, b *ssa.BasicBlock, d int)
	check = func(v ssa.Value, b *ssa.BasicBlock, d int) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
			return
		}
		if d < 4 {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b && b != lp.head {
				for i, e := range ph.Edges {
					check(e, b.Preds[i], d+1)
				}
				return
			}
		}
		inBody := false
		for x := range lp.in {
			if x != lp.head && x.Dominates(b) {
				inBody = true
			}
		}
		if lp.head.Dominates(b) && !inBody {
			return // the loop is over
		}
		f := union(z.blockFacts(b, prm, 0, map[*ssa.BasicBlock]bool{}), z.implied(v, true, prm, 0))
		if f[""] || field != "" && f[field] {
			return
		}
		for k := range f {
			if field != "" && strings.HasPrefix(k, field+".") {
				return
			}
		}
		bad = true
	}
	eachInstr(fn, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
			check(rt.Results[0], rt.Block(), 0)
		}
	})
	return bad
}

// answers: fn reports true only if ph holds, once the loop is over.
func answers(fn *ssa.Function, ph *ssa.Phi) bool {
	good := true
	eachInstr(fn, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		v := rt.Results[0]
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
			return
		}
		if v == ssa.Value(ph) || !ph.Block().Dominates(in.Block()) {
			return
		}
		if p2, ok := v.(*ssa.Phi); ok {
			for _, e := range p2.Edges {
				if c, isC := e.(*ssa.Const); e != ssa.Value(ph) && !(isC && !constant.BoolVal(c.Value)) {
					good = false
				}
			}
			return
		}
		good = false
	})
	return good
}
