package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging equal items. A conversion that takes an item out of a list it read
// or is about to write may do so only when another item of the list carries
// the same content.

// mergedAway decides the rule `merged` for the conversions want selects.
func mergedAway(p *Prog, r *Result, want func(f *ssa.Function) bool, keys func(f *ssa.Function, what string) []string) {
	m := p.Mem()
	for _, f := range p.LibFuncs() {
		if !want(f) {
			continue
		}
		f := f
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
				return
			}
			head, _ := m.canonOf(c.Call.Args[0]).(*ssa.Slice)
			tail, _ := m.canonOf(c.Call.Args[1]).(*ssa.Slice)
			if head == nil || tail == nil || head.High == nil || tail.Low == nil {
				return
			}
			ch, ct := m.canonOf(head.X), m.canonOf(tail.X)
			if ch != ct && !m.sameOp(ch, ct) {
				return
			}
			sl, ok := c.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			n := namedOf(deref(sl.Elem()))
			if n == nil {
				return
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				return
			}
			d := &dupAn{p: p, f: f, n: n, st: st, web: map[ssa.Value]bool{}}
			d.grow(head.High)
			r.Units["merges"]++
			for i := -1; i < st.NumFields(); i++ {
				i := i
				q := &pathQ{f: f, m: m}
				q.stop = func(in ssa.Instruction, s pstate) bool { return i >= 0 && d.given(in, i) }
				q.bad = func(in ssa.Instruction, s pstate) bool { return in == ssa.Instruction(c) }
				q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
					return foldInt(cond, truth, s) || d.settles(cond, truth, s, i)
				}
				bad := q.run(f.Blocks[0], nil, newPstate())
				what := "that another item"
				if i >= 0 {
					what = "that the " + st.Field(i).Name() + " of the item is that of another one"
				}
				where := p.InstrPos(in)
				key := keys(f, "removal from "+exprVal(p, head.X))
				switch {
				case q.over:
					r.undecided("too many paths in %s", p.FName(f))
				case bad != nil:
					r.failAlt("merged", key, where, "an item is taken out of a list that is converted, on a path that does not establish %s stands for it: its content is lost", what)
				default:
					r.ok("%s: removal at %s on every path after establishing %s", p.FName(f), where, what)
				}
			}
		})
	}
}

type dupAn struct {
	p   *Prog
	f   *ssa.Function
	n   *types.Named
	st  *types.Struct
	web map[ssa.Value]bool
}

// grow collects the values the removed position is chosen from.
func (d *dupAn) grow(v ssa.Value) {
	v = strip(v)
	if d.web[v] {
		return
	}
	d.web[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.grow(e)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if vals, simple := storesTo(al); simple {
				for _, st := range vals {
					d.grow(st.Val)
				}
			}
		}
	}
}

// part: v is field i of an item.
func (d *dupAn) part(v ssa.Value, i int) bool {
	some, ok := d.parts(v, i, map[ssa.Value]bool{})
	return some && ok
}

// parts: some source of v is field i of an item; ok: every source that is not
// a constant is.
func (d *dupAn) parts(v ssa.Value, i int, seen map[ssa.Value]bool) (some, ok bool) {
	v = strip(v)
	if seen[v] {
		return false, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				is := fa.Field == i && namedOf(deref(fa.X.Type())) == d.n
				return is, is
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if st := soleStore(al); st != nil {
					return d.parts(st, i, seen)
				}
			}
		}
	case *ssa.Field:
		is := x.Field == i && namedOf(x.X.Type()) == d.n
		return is, is
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, c := e.(*ssa.Const); c {
				continue
			}
			s, ok := d.parts(e, i, seen)
			if !ok {
				return false, false
			}
			some = some || s
		}
		return some, true
	}
	return false, false
}

// given: in stores field i of an item of the list.
func (d *dupAn) given(in ssa.Instruction, i int) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || fa.Field != i || namedOf(deref(fa.X.Type())) != d.n {
		return false
	}
	if _, fresh := strip(fa.X).(*ssa.Alloc); fresh {
		return false
	}
	if c, ok := st.Val.(*ssa.Const); ok {
		return c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
	}
	return d.part(st.Val, i)
}

// settles: the branch establishes what is asked about field i (-1: that the
// positions differ).
func (d *dupAn) settles(cond ssa.Value, truth bool, s pstate, i int) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	if i >= 0 && isBoolType(d.st.Field(i).Type()) && truth && d.part(cond, i) {
		return true
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := b.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.GEQ:
			op = token.LSS
		default:
			return false
		}
	}
	if i < 0 {
		if op == token.NEQ {
			if d.isConst(b.X) || d.isConst(b.Y) {
				return false
			}
			return intKind(b.X.Type()) && (d.web[strip(b.X)] != d.web[strip(b.Y)] || d.web[strip(b.X)] && strip(b.X) != strip(b.Y))
		}
		// items at positions that are known to differ are compared
		if op == token.EQL {
			x, y := d.pos(b.X), d.pos(b.Y)
			if x != nil && y != nil && (d.web[strip(x)] || d.web[strip(y)]) {
				pr := d.p.Prover()
				return pr.proveVals(x, y, -1, b.Block()) || pr.proveVals(y, x, -1, b.Block())
			}
		}
		return false
	}
	if op != token.EQL {
		return false
	}
	px, py := d.part(b.X, i), d.part(b.Y, i)
	if px && py {
		return strip(b.X) != strip(b.Y)
	}
	// a fixed word
	return px && d.isConst(b.Y) || py && d.isConst(b.X)
}

func (d *dupAn) isConst(v ssa.Value) bool {
	_, ok := strip(v).(*ssa.Const)
	return ok
}

// pos: the position of the item v is a part of.
func (d *dupAn) pos(v ssa.Value) ssa.Value {
	for n := 0; n < 8; n++ {
		switch x := strip(v).(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				st := soleStore(al)
				if st == nil {
					return nil
				}
				v = st
				continue
			}
			v = x.X
		case *ssa.FieldAddr:
			if al, ok := x.X.(*ssa.Alloc); ok {
				st := soleStore(al)
				if st == nil {
					return nil
				}
				v = st
				continue
			}
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			return x.Index
		default:
			return nil
		}
	}
	return nil
}

func intKind(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// foldInt: the branch compares two numbers the path knows, with the other
// outcome.
func foldInt(cond ssa.Value, truth bool, s pstate) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return false
	}
	x, y := knownConst(b.X, s), knownConst(b.Y, s)
	if x == nil || y == nil || x.Kind() != y.Kind() || x.Kind() == constant.Bool {
		return false
	}
	return constant.Compare(x, b.Op, y) != truth
}

// knownConst: the constant v is on the path, the length of a known text
// included.
func knownConst(v ssa.Value, s pstate) constant.Value {
	switch x := s.resolve(v).(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.Call:
		if isLen(x) {
			if k := knownConst(x.Call.Args[0], s); k != nil && k.Kind() == constant.String {
				return constant.MakeInt64(int64(len(constant.StringVal(k))))
			}
		}
	}
	return nil
}

// readsInput: f is part of the conversion from the tree into values;
// writesOutput: the other way round.
func readsInput(p *Prog, f *ssa.Function) bool {
	dec := p.Named("xmp", "Decoder")
	for _, prm := range f.Params {
		if dec != nil && namedOf(deref(prm.Type())) == dec {
			return true
		}
	}
	return strings.HasPrefix(f.Name(), "Unmarshal")
}

func writesOutput(p *Prog, f *ssa.Function) bool {
	if readsInput(p, f) {
		return false
	}
	enc, node := p.Named("xmp", "Encoder"), p.Named("xmp", "Node")
	for _, prm := range f.Params {
		n := namedOf(deref(prm.Type()))
		if n == nil {
			continue
		}
		if n == enc || n == node && f.Signature.Recv() == nil {
			return true
		}
	}
	return strings.HasPrefix(f.Name(), "Marshal")
}
