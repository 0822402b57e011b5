package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small enumerator of feasible paths through one function. It follows phis
// and single-cell locals along the path, and prunes branches that contradict
// what the path already established about nil tests and flags.

type pstate struct {
	env  map[ssa.Value]ssa.Value // phi or local cell -> value on this path
	fact map[ssa.Value]bool      // pointer/interface: is nil; bool: value
}

func newPstate() pstate {
	return pstate{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}}
}

func (s pstate) clone() pstate {
	o := newPstate()
	for k, v := range s.env {
		o.env[k] = v
	}
	for k, v := range s.fact {
		o.fact[k] = v
	}
	return o
}

func (s pstate) key() string {
	l := make([]string, 0, len(s.env)+len(s.fact))
	for k, v := range s.env {
		l = append(l, k.Name()+"="+v.Name())
	}
	for k, v := range s.fact {
		l = append(l, fmt.Sprintf("%s?%v", k.Name(), v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s pstate) resolve(v ssa.Value) ssa.Value {
	for n := 0; n < 12; n++ {
		if x, ok := s.env[v]; ok && x != v {
			v = x
			continue
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if y, ok := s.env[x.X]; ok {
					v = y
					continue
				}
			}
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	return v
}

type pathQ struct {
	f      *ssa.Function
	m      *memAn
	stop   func(in ssa.Instruction, s pstate) bool         // the path is settled here
	bad    func(in ssa.Instruction, s pstate) bool         // the path violates the rule here
	arrive func(b *ssa.BasicBlock, s pstate) (int, string) // 1: settled, 2: bad
	prune  func(cond ssa.Value, truth bool, s pstate) bool // this branch is excused
	rep    func(cond ssa.Value) ssa.Value                  // representative of equal conditions
	n      int
	over   bool
	lean   bool                      // forget conditions that are tested only once
	keep   func(cond ssa.Value) bool // except these
	uses   map[ssa.Value]int
	used   map[ssa.Value][]*ssa.BasicBlock
	live   map[ssa.Value]map[*ssa.BasicBlock]bool
	same   map[string]*ssa.BinOp
	deps   map[ssa.Value][]ssa.Value
}

// run looks for a path from just after in (or from the start of b when in is
// nil) to an instruction that is bad, and returns it.
func (q *pathQ) run(b *ssa.BasicBlock, in ssa.Instruction, s pstate) ssa.Instruction {
	i := 0
	if in != nil {
		b = in.Block()
		i = instrIndex(in) + 1
	}
	return q.walk(b, i, s, map[string]bool{})
}

func (q *pathQ) canon(v ssa.Value) ssa.Value {
	if q.m == nil {
		return v
	}
	return q.m.canonOf(v)
}

func (q *pathQ) walk(b *ssa.BasicBlock, i int, s pstate, seen map[string]bool) ssa.Instruction {
	for {
		q.n++
		if q.n > 40000 {
			q.over = true
			return nil
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if q.stop != nil && q.stop(in, s) {
				return nil
			}
			if q.bad != nil && q.bad(in, s) {
				return in
			}
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if _, simple := storesTo(al); simple {
						s.env[al] = s.resolve(x.Val)
					}
				}
			case *ssa.Return, *ssa.Panic:
				return nil
			}
		}
		type nx struct {
			b *ssa.BasicBlock
			s pstate
		}
		var next []nx
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if isIf {
			for k := 0; k < 2; k++ {
				ns := s.clone()
				truth := k == 0
				if !q.assume(&ns, iff.Cond, truth) {
					continue
				}
				if q.prune != nil && q.prune(iff.Cond, truth, s) {
					continue
				}
				next = append(next, nx{b.Succs[k], ns})
			}
		} else {
			for _, t := range b.Succs {
				next = append(next, nx{t, s.clone()})
			}
		}
		for _, n := range next {
			pi := -1
			for k, pr := range n.b.Preds {
				if pr == b {
					pi = k
				}
			}
			upd := map[ssa.Value]ssa.Value{}
			for _, in := range n.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if pi >= 0 {
					upd[ph] = s.resolve(ph.Edges[pi])
				}
			}
			for k, v := range upd {
				n.s.env[k] = v
			}
			// values computed anew in this block
			if q.rep == nil {
				for _, in := range n.b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if _, cmp := v.(*ssa.BinOp); !cmp || !q.lean {
							delete(n.s.fact, v) // comparisons go with what they rest on
						}
						for _, c := range q.deps[v] {
							delete(n.s.fact, c)
						}
					}
				}
			}
			if q.arrive != nil {
				switch st, _ := q.arrive(n.b, n.s); st {
				case 1:
					continue
				case 2:
					return n.b.Instrs[0]
				}
			}
			if q.lean {
				q.trim(n.b, &n.s)
			}
			k := fmt.Sprint(n.b.Index, "|", n.s.key())
			if seen[k] {
				continue
			}
			seen[k] = true
			if bad := q.walk(n.b, 0, n.s, seen); bad != nil || q.over {
				return bad
			}
		}
		return nil
	}
}

// assume records cond == truth; false: impossible on this path.
func (q *pathQ) assume(s *pstate, cond ssa.Value, truth bool) bool {
	cond = s.resolve(cond)
	switch c := cond.(type) {
	case *ssa.Const:
		if c.Value != nil && c.Value.Kind() == constant.Bool {
			return constant.BoolVal(c.Value) == truth
		}
		return true
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return q.assume(s, c.X, !truth)
		}
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			x, y := s.resolve(c.X), s.resolve(c.Y)
			if isNilConst(x) {
				x, y = y, x
			}
			eq := truth == (c.Op == token.EQL)
			if isNilConst(y) {
				return q.setNil(s, x, eq)
			}
			// an error compared with a sentinel
			if isErrorType(x.Type()) && isErrorType(y.Type()) && eq {
				for _, v := range []ssa.Value{x, y} {
					if isNil, ok := s.fact[q.canon(v)]; ok && isNil {
						return false
					}
					if isNilConst(v) {
						return false
					}
				}
			}
		}
	}
	k := q.canon(cond)
	if q.rep != nil {
		k = q.rep(k)
	} else if b, ok := k.(*ssa.BinOp); ok {
		if q.same == nil {
			q.sameConds()
		}
		if r := q.same[binKey(b)]; r != nil {
			k = r
		}
	}
	if old, ok := s.fact[k]; ok && old != truth {
		return false
	}
	if q.lean && (q.keep == nil || !q.keep(k)) && q.testedOnce(k) {
		return true
	}
	s.fact[k] = truth
	return true
}

// testedOnce: nothing but one branch depends on the condition.
func (q *pathQ) testedOnce(k ssa.Value) bool {
	if q.uses == nil {
		q.uses = map[ssa.Value]int{}
		if q.same == nil {
			q.sameConds()
		}
		count := func(v ssa.Value) {
			v = q.canon(v)
			if b, ok := v.(*ssa.BinOp); ok {
				if r := q.same[binKey(b)]; r != nil {
					v = r
				}
			}
			q.uses[v]++
		}
		eachInstr(q.f, func(in ssa.Instruction) {
			for _, o := range in.Operands(nil) {
				if *o != nil && types.Identical((*o).Type().Underlying(), types.Typ[types.Bool]) {
					count(*o)
				}
			}
		})
	}
	return q.uses[k] == 1
}

func (q *pathQ) setNil(s *pstate, v ssa.Value, isNil bool) bool {
	if isNilConst(v) {
		return isNil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Function:
		return !isNil
	case *ssa.Call:
		if errorMaker(&x.Call) {
			return !isNil
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && isErrorType(u.Type()) {
		if _, ok := u.X.(*ssa.Global); ok {
			return !isNil // a sentinel
		}
	}
	k := q.canon(v)
	if old, ok := s.fact[k]; ok && old != isNil {
		return false
	}
	s.fact[k] = isNil
	return true
}

// mayBeNil: on this path v can be nil.
func (q *pathQ) mayBeNil(s pstate, v ssa.Value) bool {
	v = s.resolve(v)
	c := s.clone()
	return q.setNil(&c, v, true)
}

// okReturn: in is a return that can report success on this path.
func (q *pathQ) okReturn(in ssa.Instruction, s pstate) bool {
	ret, ok := in.(*ssa.Return)
	if !ok {
		return false
	}
	n := len(ret.Results)
	if n == 0 || !isErrorType(ret.Results[n-1].Type()) {
		return true
	}
	return q.mayBeNil(s, ret.Results[n-1])
}

// binKey: comparisons of the same values by the same operator are equal.
func binKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.BinOp:
		return "(" + binKey(x.X) + x.Op.String() + binKey(x.Y) + ")"
	case *ssa.Const:
		return x.String()
	case *ssa.Call:
		if kindOf(x) != nil {
			return "Kind(" + binKey(x.Call.Args[0]) + ")"
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

// kindOf: the value whose kind the call asks for.
func kindOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return nil
	}
	if pkg, name := extCallee(&c.Call); pkg == "reflect" && name == "Kind" {
		return c.Call.Args[0]
	}
	return nil
}

// sameConds finds the first of equal comparisons, and the values each rests on.
func (q *pathQ) sameConds() {
	q.same, q.deps = map[string]*ssa.BinOp{}, map[ssa.Value][]ssa.Value{}
	eachInstr(q.f, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || q.same[binKey(b)] != nil {
			return
		}
		q.same[binKey(b)] = b
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if x, ok := v.(*ssa.BinOp); ok {
				walk(x.X)
				walk(x.Y)
				return
			}
			if of := kindOf(v); of != nil {
				walk(of)
				return
			}
			if _, ok := v.(*ssa.Const); !ok {
				q.deps[v] = append(q.deps[v], b)
			}
		}
		walk(b)
	})
}

// trim forgets what nothing ahead of b depends on.
func (q *pathQ) trim(b *ssa.BasicBlock, s *pstate) {
	for k := range s.env {
		if _, ok := k.(*ssa.Phi); ok && !q.ahead(k, b) {
			delete(s.env, k)
		}
	}
	held := map[ssa.Value]bool{}
	for _, v := range s.env {
		held[q.group(v)] = true
	}
	for k := range s.fact {
		if _, ex := k.(*ssa.Extract); !ex && !held[k] && (q.keep == nil || !q.keep(k)) && !q.ahead(k, b) {
			delete(s.fact, k)
		}
	}
}

func (q *pathQ) group(v ssa.Value) ssa.Value {
	v = q.canon(v)
	if b, ok := v.(*ssa.BinOp); ok {
		if q.same == nil {
			q.sameConds()
		}
		if r := q.same[binKey(b)]; r != nil {
			return r
		}
	}
	return v
}

// ahead: some instruction from the start of b on uses k before it is computed
// anew.
func (q *pathQ) ahead(k ssa.Value, b *ssa.BasicBlock) bool {
	if q.used == nil {
		q.used, q.live = map[ssa.Value][]*ssa.BasicBlock{}, map[ssa.Value]map[*ssa.BasicBlock]bool{}
		add := func(v ssa.Value, b *ssa.BasicBlock) {
			q.used[v] = append(q.used[v], b)
			if g := q.group(v); g != v {
				q.used[g] = append(q.used[g], b)
			}
		}
		eachInstr(q.f, func(in ssa.Instruction) {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					add(e, in.Block().Preds[i])
				}
				return
			}
			for _, o := range in.Operands(nil) {
				if *o != nil {
					add(*o, in.Block())
				}
			}
			// a comparison rests on its operands wherever it is repeated
			if x, ok := in.(*ssa.BinOp); ok {
				add(x, in.Block())
			}
		})
	}
	l, ok := q.live[k]
	if !ok {
		l = map[*ssa.BasicBlock]bool{}
		q.live[k] = l
		phi, isPhi := k.(*ssa.Phi)
		defs := map[*ssa.BasicBlock]bool{}
		if x, ok := k.(*ssa.BinOp); ok {
			for v, l := range q.deps {
				for _, c := range l {
					if in, ok := v.(ssa.Instruction); ok && c == ssa.Value(x) {
						defs[in.Block()] = true
					}
				}
			}
		} else if in, ok := k.(ssa.Instruction); ok && !isPhi {
			defs[in.Block()] = true
		}
		var up func(b *ssa.BasicBlock)
		up = func(b *ssa.BasicBlock) {
			if l[b] || defs[b] {
				return
			}
			l[b] = true
			if isPhi && b == phi.Block() {
				return
			}
			for _, p := range b.Preds {
				up(p)
			}
		}
		for _, u := range q.used[k] {
			up(u)
		}
	}
	return l[b]
}
