package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value numbering of memory loads: two loads denote the same value when their
// addresses agree and nothing between them may write there.

// memLoc abstracts a written location.
type memLoc struct {
	kind string     // field, elem, glob, deref, any
	typ  types.Type // written value type
	st   string     // struct type of a field
	fld  int
	g    *ssa.Global
}

type modset map[string]memLoc

type memAn struct {
	p    *Prog
	mods map[*ssa.Function]modset
	esc  map[*ssa.Alloc]bool
	fn   map[*ssa.Function]*fnMem
}

type fnMem struct {
	canon  map[ssa.Value]ssa.Value
	loads  []*ssa.UnOp
	stores []*ssa.Store
	clob   []ssa.Instruction // instructions that may write
	reach  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (p *Prog) Mem() *memAn {
	if v, ok := p.cache["mem"]; ok {
		return v.(*memAn)
	}
	m := &memAn{p: p, mods: map[*ssa.Function]modset{}, esc: map[*ssa.Alloc]bool{}, fn: map[*ssa.Function]*fnMem{}}
	p.cache["mem"] = m
	for _, f := range p.Funcs {
		m.mods[f] = modset{}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if m.summarise(f) {
				changed = true
			}
		}
	}
	return m
}

func locOf(addr ssa.Value) memLoc {
	t := deref(addr.Type())
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return memLoc{kind: "field", typ: t, st: types.TypeString(deref(a.X.Type()), nil), fld: a.Field}
	case *ssa.IndexAddr:
		return memLoc{kind: "elem", typ: t}
	case *ssa.Global:
		return memLoc{kind: "glob", typ: t, g: a}
	}
	return memLoc{kind: "deref", typ: t}
}

func (l memLoc) key() string {
	s := l.kind + "|" + l.st + "|" + types.TypeString(l.typ, nil)
	if l.kind == "field" {
		s += "|" + string(rune('0'+l.fld))
	}
	if l.g != nil {
		s += "|" + l.g.String()
	}
	return s
}

func (m *memAn) summarise(f *ssa.Function) bool {
	ms := m.mods[f]
	n := len(ms)
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if fresh(addrBase(in.Addr), map[ssa.Value]bool{}) {
				return // memory the caller cannot hold an address of yet
			}
			l := locOf(in.Addr)
			ms[l.key()] = l
		case ssa.CallInstruction:
			for k, l := range m.callMods(in.Common()) {
				ms[k] = l
			}
		}
	})
	return len(ms) != n
}

// fresh: the object was allocated here or taken from a pool (whose ownership
// discipline is a property of its own).
func fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if sel, ok := y.Tuple.(*ssa.Select); ok {
			return y.Index >= 2 && sel != nil
		}
		if u, ok := y.Tuple.(*ssa.UnOp); ok {
			return u.Op == token.ARROW
		}
	case *ssa.UnOp:
		return y.Op == token.ARROW
	}
	return false
}

// callMods: locations a call may write.
func (m *memAn) callMods(c *ssa.CallCommon) modset {
	out := modset{}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" || b.Name() == "append" || b.Name() == "clear" {
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				l := memLoc{kind: "elem", typ: s.Elem()}
				out[l.key()] = l
			}
		}
		return out
	}
	in := false
	for _, g := range m.p.Callees(c) {
		if ms, ok := m.mods[g]; ok {
			in = true
			for k, l := range ms {
				out[k] = l
			}
		}
	}
	if in && !c.IsInvoke() {
		return out
	}
	pkg, name := extCallee(c)
	// functions values handed to outside code may be called there
	for _, a := range c.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok {
					for k, l := range m.mods[g] {
						out[k] = l
					}
				}
			}
		}
	}
	if pkg == "sort" || pkg == "slices" {
		if len(c.Args) > 0 {
			t := c.Args[0].Type()
			if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				l := memLoc{kind: "elem", typ: s.Elem()}
				out[l.key()] = l
			}
		}
		return out
	}
	if len(extMutates(c)) > 0 {
		l := memLoc{kind: "any", typ: types.Typ[types.Int]}
		out[l.key()] = l
	}
	switch {
	case pkg == "encoding/json" || pkg == "encoding/xml" || pkg == "fmt" && len(name) > 0 && (name[0] == 'F' || name[0] == 'S'):
		// may call back Marshal/Unmarshal/String methods of the module
		if pkg != "fmt" {
			l := memLoc{kind: "any", typ: types.Typ[types.Int]}
			out[l.key()] = l
		}
	case name == "Read" || name == "ReadFull" || name == "ReadAt":
		l := memLoc{kind: "elem", typ: types.Typ[types.Byte]}
		out[l.key()] = l
	}
	return out
}

// escapes: the address of the local is used other than for direct access.
func (m *memAn) escapes(al *ssa.Alloc) bool {
	if v, ok := m.esc[al]; ok {
		return v
	}
	m.esc[al] = false
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 8 {
			return true
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Val == v {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if walk(in, d+1) {
					return true
				}
			case *ssa.IndexAddr:
				if walk(in, d+1) {
					return true
				}
			case *ssa.Slice:
				if walk(in, d+1) {
					return true
				}
			case *ssa.Call:
				// variadic array handed to append copies its elements
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "len" || b.Name() == "copy") {
					continue
				}
				return true
			default:
				return true
			}
		}
		return false
	}
	r := walk(al, 0)
	m.esc[al] = r
	return r
}

func (m *memAn) of(f *ssa.Function) *fnMem {
	if fm, ok := m.fn[f]; ok {
		return fm
	}
	fm := &fnMem{canon: map[ssa.Value]ssa.Value{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	m.fn[f] = fm
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				fm.loads = append(fm.loads, in)
			}
		case *ssa.Store:
			fm.stores = append(fm.stores, in)
			fm.clob = append(fm.clob, in)
		case *ssa.Call:
			fm.clob = append(fm.clob, in)
		case *ssa.Go:
			fm.clob = append(fm.clob, in)
		}
	})
	return fm
}

// canon: the representative of v.
func (m *memAn) canonOf(v ssa.Value) ssa.Value {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return v
	}
	fm := m.of(in.Parent())
	if c, ok := fm.canon[v]; ok {
		return c
	}
	fm.canon[v] = v
	res := v
	switch x := v.(type) {
	case *ssa.ChangeType:
		res = m.canonOf(x.X)
	case *ssa.Field:
		// read of a struct value: equal to another read of the same field
		for _, b := range x.Parent().Blocks {
			for _, i2 := range b.Instrs {
				if y, ok := i2.(*ssa.Field); ok && y != x && y.Field == x.Field && m.canonOf(y.X) == m.canonOf(x.X) && dominatesInstr(y, x) {
					res = m.canonOf(y)
					fm.canon[v] = res
					return res
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// nearest equal earlier definition
			for _, st := range fm.stores {
				if m.sameAddr(st.Addr, x.X, 0) && dominatesInstr(st, x) && !m.clobbered(st, x, x.X) {
					res = m.canonOf(st.Val)
					fm.canon[v] = res
					return res
				}
			}
			for _, l := range fm.loads {
				if l != x && types.Identical(l.Type(), x.Type()) && dominatesInstr(l, x) && m.sameAddr(l.X, x.X, 0) && !m.clobbered(l, x, x.X) {
					res = m.canonOf(l)
					break
				}
			}
		}
	case *ssa.Phi:
		// all edges equal
		var one ssa.Value
		same := true
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if one == nil {
				one = e
			} else if one != e {
				same = false
			}
		}
		if same && one != nil {
			res = m.canonOf(one)
		}
	case *ssa.BinOp:
		// common subexpressions of canonical operands
		for _, b := range x.Parent().Blocks {
			for _, i2 := range b.Instrs {
				if y, ok := i2.(*ssa.BinOp); ok && y != x && y.Op == x.Op && y.Block() != x.Block() && y.Block().Dominates(x.Block()) &&
					m.sameOp(y.X, x.X) && m.sameOp(y.Y, x.Y) {
					res = m.canonOf(y)
					fm.canon[v] = res
					return res
				}
			}
		}
	}
	fm.canon[v] = res
	return res
}

func (m *memAn) sameOp(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		return ca.Value != nil && cb.Value != nil && ca.Value.ExactString() == cb.Value.ExactString() && types.Identical(ca.Type(), cb.Type())
	}
	return m.canonOf(a) == m.canonOf(b)
}

func (m *memAn) sameAddr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type()) && m.samePtr(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && m.sameOp(x.Index, y.Index) && m.samePtr(x.X, y.X, d+1)
	case *ssa.UnOp, *ssa.ChangeType:
		return m.canonOf(a) == m.canonOf(b)
	}
	return false
}

func (m *memAn) samePtr(a, b ssa.Value, d int) bool {
	if m.sameAddr(a, b, d) {
		return true
	}
	return m.canonOf(a) == m.canonOf(b)
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// clobbered: on some path from (after) a to (before) b the location may change.
func (m *memAn) clobbered(a, b ssa.Instruction, addr ssa.Value) bool {
	fm := m.of(a.Parent())
	for _, c := range fm.clob {
		if c == a {
			continue
		}
		if !m.mayWrite(c, addr) {
			continue
		}
		// does c lie on a path a -> c -> b that does not pass a again?
		if reachesAvoiding(a, c, a) && reachesAvoiding(c, b, a) {
			return true
		}
	}
	return false
}

// reachesAvoiding: some path leads from after x to y without passing stop.
func reachesAvoiding(x, y, stop ssa.Instruction) bool {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{x.Block(), instrIndex(x) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		blocked := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			if w.b.Instrs[i] == y {
				return true
			}
			if w.b.Instrs[i] == stop {
				blocked = true
				break
			}
		}
		if blocked {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return false
}

// mayWrite: c may change the value at addr.
func (m *memAn) mayWrite(c ssa.Instruction, addr ssa.Value) bool {
	base := addrBase(addr)
	al, local := base.(*ssa.Alloc)
	private := local && !m.escapes(al)
	switch c := c.(type) {
	case *ssa.Store:
		cb := addrBase(c.Addr)
		if private && cb != base {
			return false
		}
		if cal, ok := cb.(*ssa.Alloc); ok && cb != base && !m.escapes(cal) {
			return false
		}
		if cal, ok := cb.(*ssa.Alloc); ok && local && cal != al {
			return false
		}
		return m.locMayAlias(locOf(c.Addr), addr)
	case *ssa.Call:
		if private {
			return false
		}
		for _, l := range m.callMods(&c.Call) {
			if m.locMayAlias(l, addr) {
				return true
			}
		}
		return false
	}
	return true
}

func (m *memAn) locMayAlias(l memLoc, addr ssa.Value) bool {
	if l.kind == "any" {
		_, isAlloc := addrBase(addr).(*ssa.Alloc)
		return !isAlloc || m.escapes(addrBase(addr).(*ssa.Alloc))
	}
	for a := addr; ; {
		al := locOf(a)
		if types.Identical(al.typ, l.typ) {
			switch {
			case al.kind == "field" && l.kind == "field":
				if al.st == l.st && al.fld == l.fld {
					return true
				}
			case al.kind == "glob" && l.kind == "glob":
				if al.g == l.g {
					return true
				}
			case al.kind == "field" && l.kind == "elem", al.kind == "elem" && l.kind == "field",
				al.kind == "glob" && (l.kind == "field" || l.kind == "elem"), l.kind == "glob" && (al.kind == "field" || al.kind == "elem"):
				// different objects
			default:
				return true
			}
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			a = x.X
		default:
			return false
		}
		if _, ok := a.(*ssa.FieldAddr); ok {
			continue
		}
		if _, ok := a.(*ssa.IndexAddr); ok {
			continue
		}
		// a is the base pointer: its own pointee is compared as deref/glob
		lt := locOf(a)
		return types.Identical(lt.typ, l.typ) && (l.kind != "glob" || lt.g == l.g) && !(l.kind == "field" && lt.kind == "glob")
	}
}
