package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C25: a parsed value replaces what the destination held.

func init() { register("C25", checkReplace) }

type replAn struct {
	p    *Prog
	r    *Result
	m    *memAn
	deep bool // follow local structures
}

func checkReplace(p *Prog, r *Result) {
	r.Explain = "For every text, attribute and JSON parser method of a type that is not a list, map or document. Rule whole: on every path to success that stores any part of the value, every part of it is stored - as a whole, field by field, or by a function that is handed the value or the part. Rule fresh: nothing stored is computed from what the value held when the parser was called. Parsers that store nothing at all are not decided. Path queries on SSA, one per pair of fields."
	a := &replAn{p: p, r: r, m: p.Mem()}
	for _, f := range p.LibFuncs() {
		if !parserMethod(f) && !(f.Name() == "UnmarshalXMP" && f.Parent() == nil && f.Signature.Recv() != nil) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		n := namedOf(deref(f.Signature.Recv().Type()))
		if n == nil || n == p.Named("xmp", "Document") || n == p.Named("xmp", "Extension") || n == p.Named("xmp", "Node") || !isPtr(f.Signature.Recv().Type()) {
			continue
		}
		switch n.Underlying().(type) {
		case *types.Slice, *types.Map:
			continue
		}
		a.deep = f.Name() != "UnmarshalXMP"
		a.parser(f, n)
	}
	r.need("parsers", 25)
	r.need("parts", 25)
}

// root: v leads to the value x points to; field -1 is all of it.
func (a *replAn) root(v ssa.Value, x ssa.Value) (field int, ok bool) {
	field = -1
	for n := 0; n < 10; n++ {
		v = strip(v)
		if v == x {
			return field, true
		}
		switch y := v.(type) {
		case *ssa.FieldAddr:
			field = y.Field
			v = y.X
		case *ssa.IndexAddr:
			if _, arr := deref(y.X.Type()).Underlying().(*types.Array); !arr {
				return 0, false
			}
			field = -2
			if k, isK := intConst(y.Index); isK {
				field = int(k)
			}
			v = y.X
		case *ssa.UnOp:
			// the receiver kept in a local
			al, isAl := y.X.(*ssa.Alloc)
			if y.Op != token.MUL || !isAl {
				return 0, false
			}
			st := soleStore(al)
			if st == nil {
				return 0, false
			}
			v = st
		default:
			return 0, false
		}
	}
	return 0, false
}

// sets: in gives field i (or all) of the value a new content.
func (a *replAn) sets(in ssa.Instruction, x ssa.Value, i int) bool {
	match := func(addr ssa.Value) bool {
		f, ok := a.root(addr, x)
		return ok && (f == -1 || f == i || f == -2)
	}
	switch y := in.(type) {
	case *ssa.Store:
		return match(y.Addr)
	case ssa.CallInstruction:
		c := y.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() != "copy" {
			return false
		}
		if _, isDefer := in.(*ssa.Defer); isDefer {
			return false
		}
		for _, arg := range callArgs(c) {
			v := arg
			if mi, ok := strip(v).(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if sl, ok := strip(v).(*ssa.Slice); ok {
				v = sl.X
			}
			if !match(v) {
				continue
			}
			if g := c.StaticCallee(); g != nil && len(g.Blocks) > 0 && a.p.InModule(g) {
				if !a.writes(g, argPos(c, arg)) {
					continue
				}
			} else if g != nil && g.Signature.Recv() != nil && len(c.Args) > 0 && c.Args[0] == arg && !isPtr(g.Signature.Recv().Type()) {
				continue
			}
			return true
		}
	}
	return false
}

func argPos(c *ssa.CallCommon, arg ssa.Value) int {
	for i, v := range c.Args {
		if v == arg {
			return i
		}
	}
	return -1
}

// writes: g stores into what its parameter i points to.
func (a *replAn) writes(g *ssa.Function, i int) bool {
	if i < 0 || i >= len(g.Params) {
		return true
	}
	found := false
	eachInstr(g, func(in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Store:
			if _, ok := a.root(y.Addr, g.Params[i]); ok {
				found = true
			}
		case ssa.CallInstruction:
			for _, arg := range callArgs(y.Common()) {
				v := arg
				if mi, ok := strip(v).(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if _, ok := a.root(v, g.Params[i]); ok {
					if h := y.Common().StaticCallee(); h == nil || h.Signature.Recv() == nil || isPtr(h.Signature.Recv().Type()) {
						found = true
					}
				}
			}
		}
	})
	return found
}

func (a *replAn) parser(f *ssa.Function, n *types.Named) {
	x := ssa.Value(f.Params[0])
	parts := 1
	name := func(i int) string { return n.Obj().Name() }
	switch t := n.Underlying().(type) {
	case *types.Struct:
		parts = t.NumFields()
		name = func(i int) string { return n.Obj().Name() + "." + t.Field(i).Name() }
	case *types.Array:
		parts = int(t.Len())
		if parts > 16 {
			parts = 1
		}
		name = func(i int) string { return n.Obj().Name() + " element" }
	}
	stored := false
	eachInstr(f, func(in ssa.Instruction) {
		for i := 0; i < parts; i++ {
			if a.sets(in, x, i) {
				stored = true
			}
		}
	})
	if !stored {
		a.r.Units["parsers_without_stores"]++
		return
	}
	a.r.Units["parsers"]++
	keys := func(what string) []string {
		var out []string
		for _, o := range a.p.OwnerNames(f) {
			out = append(out, o+": "+what)
		}
		return out
	}
	anyOf := func(in ssa.Instruction) bool {
		for j := 0; j < parts; j++ {
			if a.sets(in, x, j) {
				return true
			}
		}
		return false
	}
	for i := 0; i < parts; i++ {
		i := i
		a.r.Units["parts"]++
		var found ssa.Instruction
		over := false
		tried := map[ssa.Instruction]bool{}
		for found == nil && !over {
			// a store of another part that is reached without this one
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool { return a.sets(in, x, i) }
			q.bad = func(in ssa.Instruction, s pstate) bool { return !tried[in] && anyOf(in) }
			st := q.run(f.Blocks[0], nil, newPstate())
			over = over || q.over
			if st == nil {
				break
			}
			tried[st] = true
			q2 := &pathQ{f: f, m: a.m}
			q2.stop = q.stop
			q2.bad = func(in ssa.Instruction, s pstate) bool { return q2.okReturn(in, s) }
			if q2.run(nil, st, newPstate()) != nil {
				found = st
			}
			over = over || q2.over
		}
		switch {
		case over:
			a.r.undecided("too many paths in %s", a.p.FName(f))
		case found != nil:
			a.r.failAlt("whole", keys(name(i)), a.p.InstrPos(found), "a successful parse stores a part of the value here but leaves %s as it was: the result mixes the new value with the old one", name(i))
		default:
			a.r.ok("%s: %s is stored whenever another part is", a.p.FName(f), name(i))
		}
	}
	// rule fresh
	eachInstr(f, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if _, mine := a.root(st.Addr, x); !mine {
			return
		}
		a.r.Units["stores"]++
		if ld := a.old(st.Val, x, map[ssa.Value]bool{}); ld != nil {
			fi, _ := a.root(ld.X, x)
			// set before it is read?
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool { return a.sets(in, x, fi) }
			q.bad = func(in ssa.Instruction, s pstate) bool { return in == ssa.Instruction(ld) }
			if q.run(f.Blocks[0], nil, newPstate()) != nil {
				a.r.failAlt("fresh", keys("stored value"), a.p.InstrPos(st), "what is stored is computed from what the value held before (read at %s)", a.p.InstrPos(ld))
				return
			}
		}
		a.r.ok("%s: the store at %s does not depend on what was there", a.p.FName(f), a.p.InstrPos(st))
	})
}

// old: the load of a part of the value v is computed from.
func (a *replAn) old(v, x ssa.Value, seen map[ssa.Value]bool) *ssa.UnOp {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, mine := a.root(u.X, x); mine && strip(u) != x {
			return u
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			if vals, simple := storesTo(al); simple {
				for _, st := range vals {
					if ld := a.old(st.Val, x, seen); ld != nil {
						return ld
					}
				}
			} else {
				// a structure built up in a local
				var found *ssa.UnOp
				eachInstr(al.Parent(), func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok || found != nil {
						return
					}
					if fi, mine := a.root(st.Addr, al); mine && (a.deep || fi == -1) {
						found = a.old(st.Val, x, seen)
					}
				})
				return found
			}
			return nil
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return nil
	}
	if ph, ok := v.(*ssa.Phi); ok {
		// the condition that chooses
		if d := ph.Block().Idom(); d != nil && len(ph.Edges) == 2 {
			if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
				if ld := a.old(iff.Cond, x, seen); ld != nil {
					return ld
				}
			}
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil {
			if ld := a.old(*o, x, seen); ld != nil {
				return ld
			}
		}
	}
	return nil
}
