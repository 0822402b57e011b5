package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists collected from a map: sorted on every way to their uses, completely,
// and by a key in which no two elements agree.

// wholeSlice: x[:] and the like, no element left out.
func wholeSlice(s *ssa.Slice) bool {
	if s.Low != nil {
		if n, ok := intConst(s.Low); !ok || n != 0 {
			return false
		}
	}
	return s.High == nil || isLenOf(s.High, s.X)
}

func isLenOf(v, x ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && len(c.Call.Args) == 1 && c.Call.Args[0] == x
}

// listAliases: the list v under all its names, the calls that sort it and the
// places where its content is used.
func listAliases(v ssa.Value, blocks map[*ssa.BasicBlock]bool) (vals map[ssa.Value]bool, sorts map[ssa.Instruction]bool, uses map[ssa.Instruction]bool) {
	vals, sorts, uses = map[ssa.Value]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if vals[v] || d > 12 || v.Referrers() == nil {
			return
		}
		vals[v] = true
		for _, ref := range *v.Referrers() {
			if inBlocks(blocks, ref.Block()) {
				if _, ok := ref.(*ssa.Phi); !ok {
					if c, ok := ref.(*ssa.Call); !ok || !isAppend(c) {
						if _, ok := ref.(*ssa.Store); !ok {
							continue
						}
					}
				}
			}
			switch r := ref.(type) {
			case *ssa.Call:
				pkg, name := extCallee(&r.Call)
				if (pkg == "sort" || pkg == "slices") && name != "Reverse" {
					sorts[r] = true
					continue
				}
				if b, ok := r.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						walk(r, d+1)
					}
					continue
				}
				uses[r] = true
			case *ssa.Phi:
				walk(r, d+1)
			case *ssa.ChangeType:
				walk(r, d+1)
			case *ssa.MakeInterface:
				walk(r, d+1)
			case *ssa.Slice:
				if wholeSlice(r) {
					walk(r, d+1)
				} else if r.Referrers() != nil && len(*r.Referrers()) > 0 {
					sorted := false
					for _, r2 := range *r.Referrers() {
						if c, ok := r2.(*ssa.Call); ok {
							if pkg, _ := extCallee(&c.Call); pkg == "sort" || pkg == "slices" {
								sorted = true
							}
						}
						if _, ok := r2.(*ssa.MakeInterface); ok {
							sorted = true
						}
					}
					if !sorted {
						uses[r] = true
					}
				}
			case *ssa.Return, *ssa.IndexAddr, *ssa.Index, *ssa.Range, *ssa.Send, *ssa.MapUpdate:
				uses[r] = true
			case *ssa.Store:
				if r.Val == v {
					if al, ok := r.Addr.(*ssa.Alloc); ok {
						for _, r2 := range *al.Referrers() {
							switch x := r2.(type) {
							case *ssa.UnOp:
								walk(x, d+1)
							case *ssa.Slice:
								walk(x, d+1)
							}
						}
						continue
					}
					uses[r] = true
				}
			}
		}
	}
	walk(v, 0)
	return
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// shortOn: on this side of the branch the list has at most one element.
func shortOn(b *ssa.BasicBlock, si int, vals map[ssa.Value]bool) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && vals[c.Call.Args[0]]
	}
	op, n := bo.Op, int64(0)
	if isLen(bo.X) {
		if n, ok = intConst(bo.Y); !ok {
			return false
		}
	} else if isLen(bo.Y) {
		if n, ok = intConst(bo.X); !ok {
			return false
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	} else {
		return false
	}
	t := si == 0
	switch op {
	case token.LSS:
		return t && n <= 2
	case token.LEQ:
		return t && n <= 1
	case token.GTR:
		return !t && n <= 1
	case token.GEQ:
		return !t && n <= 2
	case token.EQL:
		return t && n <= 1
	case token.NEQ:
		return !t && n <= 1
	}
	return false
}

// unsortedUse: a use of the list that is reached from the loop without sorting it.
func (l *mapLoop) unsortedUse(v ssa.Value) ssa.Instruction {
	vals, sorts, uses := listAliases(v, l.blocks)
	seen := map[*ssa.BasicBlock]bool{}
	var hit ssa.Instruction
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] || l.blocks[b] || hit != nil {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if sorts[in] {
				return
			}
			if uses[in] {
				hit = in
				return
			}
		}
		for si, s := range b.Succs {
			if !shortOn(b, si, vals) {
				visit(s)
			}
		}
	}
	for b := range l.blocks {
		for _, s := range b.Succs {
			visit(s)
		}
	}
	return hit
}

// tieKey: the fields of the element type by which the sorting call orders the
// list, or nil when that is not recognised.
func (p *Prog) sortLeaves(c *ssa.Call) map[string]bool {
	pkg, name := extCallee(&c.Call)
	var less *ssa.Function
	switch {
	case pkg == "sort" && (name == "Sort" || name == "Stable"):
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
			less = p.methodOf(mi.X.Type(), "Less")
		}
	case len(c.Call.Args) == 2:
		switch x := c.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			less, _ = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		}
	}
	if less == nil || less.Blocks == nil {
		return nil
	}
	return comparedLeaves(p, less)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// comparedLeaves: names of the fields whose values a less function compares.
func comparedLeaves(p *Prog, f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				p.leaves(x.X, out, 0)
				p.leaves(x.Y, out, 0)
			}
		case *ssa.Call:
			if pkg, name := extCallee(&x.Call); pkg == "strings" && name == "Compare" || pkg == "cmp" {
				for _, a := range x.Call.Args {
					p.leaves(a, out, 0)
				}
			}
		}
	})
	return out
}

// leaves: the struct fields a value is read from.
func (p *Prog) leaves(v ssa.Value, out map[string]bool, d int) {
	if d > 8 {
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p.leaves(x.X, out, d+1)
		}
	case *ssa.FieldAddr:
		if fd := structField(x.X.Type(), x.Field); fd != nil {
			out[fd.Name()] = true
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			out[st.Field(x.Field).Name()] = true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				out["the length"] = true // many values share it
			}
			return
		}
		if pkg, name := extCallee(&x.Call); pkg == "strings" && (name == "ToLower" || name == "ToUpper" || name == "Index") {
			out["strings."+name] = true
			return
		}
		for _, g := range p.Callees(&x.Call) {
			if g.Blocks == nil || !p.InModule(g) {
				continue
			}
			eachInstr(g, func(in ssa.Instruction) {
				if ret, ok := in.(*ssa.Return); ok && len(ret.Results) == 1 {
					p.leaves(ret.Results[0], out, d+1)
				}
			})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.leaves(e, out, d+1)
		}
	}
}

// mapKeyFields: for maps kept in struct fields of this name, the fields of the
// element that equal the key it is stored under.
func (p *Prog) mapKeyFields(field string) map[string]bool {
	all, _ := p.cache["mapKeyFields"].(map[string]map[string]bool)
	if all == nil {
		all = map[string]map[string]bool{}
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					return
				}
				u, ok := mu.Map.(*ssa.UnOp)
				if !ok {
					return
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					return
				}
				fn := fieldAddrName(fa)
				if all[fn] == nil {
					all[fn] = map[string]bool{}
				}
				// key read from the element
				p.leaves(mu.Key, all[fn], 0)
				// or stored into the new element
				if al, ok := mu.Value.(*ssa.Alloc); ok {
					for _, ref := range *al.Referrers() {
						if fa, ok := ref.(*ssa.FieldAddr); ok {
							for _, r2 := range *fa.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == fa && st.Val == mu.Key {
									all[fn][fieldAddrName(fa)] = true
								}
							}
						}
					}
				}
			})
		}
		p.cache["mapKeyFields"] = all
	}
	return all[field]
}

// srcFields: names of the struct fields the loop's map is kept in.
func (l *mapLoop) srcFields(p *Prog) map[string]bool {
	out := map[string]bool{}
	var of func(v ssa.Value, d int)
	of = func(v ssa.Value, d int) {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				out[fieldAddrName(fa)] = true
			}
		case *ssa.Field:
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
				out[st.Field(x.Field).Name()] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if d < 4 {
					of(e, d+1)
				}
			}
		case *ssa.Parameter:
			if d > 3 {
				return
			}
			i := prmIndex(x.Parent(), x)
			for _, c := range p.Callers(x.Parent()) {
				if args := callArgs(c.Common()); i < len(args) {
					of(args[i], d+1)
				}
			}
		}
	}
	of(l.src, 0)
	return out
}

// tied: ordering by these fields cannot tell all elements of the map apart.
func (l *mapLoop) tied(p *Prog, leaves map[string]bool) bool {
	if len(leaves) == 0 {
		return false
	}
	lossy := 0
	for n := range leaves {
		if n == "the length" || strings.HasPrefix(n, "strings.") {
			lossy++
		}
	}
	if lossy == len(leaves) {
		return true
	}
	for f := range l.srcFields(p) {
		keys := p.mapKeyFields(f)
		if len(keys) == 0 {
			continue
		}
		ok := false
		for n := range leaves {
			if keys[n] {
				ok = true
			}
		}
		if !ok {
			return true
		}
	}
	return false
}

// collected: what is wrong with a list collected from the map, if anything.
func (l *mapLoop) collected(p *Prog, vs ...ssa.Value) string {
	ok := false
	for _, v := range vs {
		if sortedAfter(v, l.blocks) {
			ok = true
			if l.unsortedUse(v) != nil {
				return "collects into a list that is used without being sorted"
			}
			_, sorts, _ := listAliases(v, l.blocks)
			for c := range sorts {
				if l.tied(p, p.sortLeaves(c.(*ssa.Call))) {
					return "collects into a list sorted by something in which elements may agree"
				}
			}
		}
	}
	if !ok {
		return "collects into a list that is never sorted"
	}
	return ""
}

func fieldAddrName(fa *ssa.FieldAddr) string {
	if fd := structField(fa.X.Type(), fa.Field); fd != nil {
		return fd.Name()
	}
	return ""
}
