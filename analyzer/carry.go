package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: values carried over between models when they are synchronised.

func init() { register("C16", checkCarry) }

type carryAn struct {
	p *Prog
	r *Result
	m *memAn
	// per model type and foreign field: the own fields it is read into and
	// written from
	in, out map[[2]string]map[string]ssa.Instruction
}

func checkCarry(p *Prog, r *Result) {
	r.Explain = "In every SyncFromXMP, SyncToXMP and SyncModel method each store to a property of a model is an obligation. Rule replaced: a property that is written to the document is only overwritten after a test on the way there (dominating branches) has shown that it is empty or that the value put in its place is not, unless it is a property of the model itself that mirrors the source (both carry the same XMP name). Rule when-empty: a value known to be empty is not carried over. Rule inverse: a property that SyncFromXMP fills from a property of another model is among those that SyncToXMP writes that property from, when it writes it from properties of the model at all."
	a := &carryAn{p: p, r: r, m: p.Mem(), in: map[[2]string]map[string]ssa.Instruction{}, out: map[[2]string]map[string]ssa.Instruction{}}
	for _, f := range p.LibFuncs() {
		if f.Signature.Recv() == nil || f.Parent() != nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		switch f.Name() {
		case "SyncFromXMP", "SyncToXMP", "SyncModel":
		default:
			continue
		}
		r.Units["sync_methods"]++
		a.method(f)
	}
	a.inverse()
	r.need("sync_methods", 40)
	r.need("carried", 40)
}

func (a *carryAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	return out
}

// propField: addr is a property of a model that already exists.
func (a *carryAn) propField(addr ssa.Value) (fa *ssa.FieldAddr, tag tagField, ok bool) {
	fa, isf := addr.(*ssa.FieldAddr)
	if !isf {
		return nil, tag, false
	}
	n := namedOf(deref(fa.X.Type()))
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), a.p.ModPath) {
		return nil, tag, false
	}
	st, isSt := n.Underlying().(*types.Struct)
	if !isSt {
		return nil, tag, false
	}
	raw, has := reflect.StructTag(st.Tag(fa.Field)).Lookup("xmp")
	if !has {
		// a part of a value kept in a property
		if outer, isf := fa.X.(*ssa.FieldAddr); isf {
			_, tag, ok = a.propField(outer)
			return fa, tag, ok
		}
		return nil, tag, false
	}
	parseTag(&tag, raw)
	return fa, tag, true
}

// freshObj: the address lies in an object created in this function.
func freshObj(addr ssa.Value) bool {
	for n := 0; n < 8; n++ {
		switch x := strip(addr).(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.Alloc:
			// a copy of a parameter (value receiver) is not the model either
			return true
		default:
			return false
		}
	}
	return false
}

func (a *carryAn) method(f *ssa.Function) {
	recv := namedOf(deref(f.Signature.Recv().Type()))
	eachInstr(f, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, tag, ok := a.propField(st.Addr)
		if !ok || freshObj(st.Addr) && !a.reloaded(fa) {
			return
		}
		a.r.Units["carried"]++
		dst := a.fieldName(fa)
		leaves := a.leaves(st.Val)
		a.pair(f, recv, fa, leaves, st)
		facts := a.facts(st.Block())
		where := a.p.InstrPos(st)
		destEmpty, srcFull, srcEmpty := false, false, false
		for _, fc := range facts {
			switch {
			case a.at(fc.v, fa):
				if fc.empty {
					destEmpty = true
				}
			case a.among(fc.v, st.Val, leaves):
				if fc.empty {
					srcEmpty = true
				} else {
					srcFull = true
				}
			}
		}
		if srcEmpty && !destEmpty && !srcFull {
			a.r.failAlt("when-empty", a.keys(f, dst), where, "%s is assigned only when the value put there is empty: a value of the source never arrives, and one that is there is lost", dst)
			return
		}
		switch {
		case tag.Name == "-" || tag.Omit || tag.Name == "":
			a.r.ok("%s: %s at %s is not written itself", a.p.FName(f), dst, where)
		case destEmpty || srcFull:
			a.r.ok("%s: %s at %s is replaced only when it is empty or by a value", a.p.FName(f), dst, where)
		case a.full(st.Val):
			a.r.ok("%s: %s at %s is replaced by a value", a.p.FName(f), dst, where)
		case namedOf(deref(fa.X.Type())) == recv && a.mirror(tag, leaves):
			a.r.ok("%s: %s at %s mirrors its source", a.p.FName(f), dst, where)
		case tag.Name != "" && a.self(fa, leaves):
			a.r.ok("%s: %s at %s is computed from itself", a.p.FName(f), dst, where)
		default:
			a.r.failAlt("replaced", a.keys(f, dst), where, "%s is overwritten although neither it is known to be empty nor the new value is known not to be: a value that is there is replaced by an empty one", dst)
		}
	})
}

// reloaded: the object the field belongs to is reached through a field of
// something that existed before.
func (a *carryAn) reloaded(fa *ssa.FieldAddr) bool { return false }

func (a *carryAn) fieldName(fa *ssa.FieldAddr) string {
	n := namedOf(deref(fa.X.Type()))
	return a.p.TName(n) + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// leaves: the properties v is computed from.
func (a *carryAn) leaves(v ssa.Value) []*ssa.FieldAddr {
	var out []*ssa.FieldAddr
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 25 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch y := x.X.(type) {
				case *ssa.FieldAddr:
					if base, ok := y.X.(*ssa.Alloc); ok && a.spill(base) == nil {
						if st := soleStore(base); st != nil {
							walk(st, d+1)
						}
					}
					out = append(out, y)
					return
				case *ssa.Alloc:
					if vals, simple := storesTo(y); simple {
						for _, st := range vals {
							walk(st.Val, d+1)
						}
					}
					return
				case *ssa.IndexAddr:
					walk(y.X, d+1)
					walk(y.Index, d+1)
					return
				}
			}
			walk(x.X, d+1)
		case *ssa.FieldAddr:
			out = append(out, x)
		case *ssa.Const, *ssa.Parameter, *ssa.Function, *ssa.Global, *ssa.Builtin:
		case *ssa.Alloc:
			// the backing of a variadic call
			if x.Referrers() != nil {
				for _, ref := range *x.Referrers() {
					switch y := ref.(type) {
					case *ssa.Store:
						walk(y.Val, d+1)
					case *ssa.IndexAddr:
						for _, r2 := range *y.Referrers() {
							if st, ok := r2.(*ssa.Store); ok {
								walk(st.Val, d+1)
							}
						}
					}
				}
			}
		case ssa.Instruction:
			for _, o := range x.Operands(nil) {
				if *o != nil {
					walk(*o, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return out
}

// spill: al holds a parameter handed in by value.
func (a *carryAn) spill(al *ssa.Alloc) *ssa.Parameter {
	st := soleStore(al)
	if st == nil {
		return nil
	}
	prm, _ := st.(*ssa.Parameter)
	return prm
}

type emptyFact struct {
	v     ssa.Value // a value or the address of one
	empty bool
}

// facts: what the branches that dominate b say about values being empty.
func (a *carryAn) facts(b *ssa.BasicBlock) []emptyFact {
	var out []emptyFact
	for c := b; c != nil; c = c.Idom() {
		d := c.Idom()
		if d == nil || len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				out = append(out, emptiness(iff.Cond, k == 0)...)
			}
		}
	}
	return out
}

// emptiness reads a condition.
func emptiness(cond ssa.Value, truth bool) []emptyFact {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return emptiness(c.X, !truth)
		}
		if truth {
			return []emptyFact{{c, false}}
		}
		return []emptyFact{{c, true}}
	case *ssa.BinOp:
		x, y, op := c.X, c.Y, c.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := y.(*ssa.Const)
		if !ok {
			return nil
		}
		v := strip(x)
		isLen := false
		if cl, ok := v.(*ssa.Call); ok {
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				v = cl.Call.Args[0]
				isLen = true
			}
		}
		zero := k.Value == nil || isZeroConst(k) || k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
		one := k.Value != nil && k.Value.Kind() == constant.Int && constant.Compare(k.Value, token.EQL, constant.MakeInt64(1))
		unsigned := isLen
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			unsigned = true
		}
		if !truth {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			default:
				return nil
			}
		}
		switch {
		case zero && op == token.EQL, unsigned && zero && op == token.LEQ, unsigned && one && op == token.LSS:
			return []emptyFact{{v, true}}
		case zero && (op == token.NEQ || op == token.GTR || op == token.LSS && !unsigned), one && op == token.GEQ:
			return []emptyFact{{v, false}}
		case isLen && op == token.GTR, op == token.EQL && !zero:
			// longer than something, or a certain value
			return []emptyFact{{v, false}}
		}
	case *ssa.Call:
		name, recv := "", ssa.Value(nil)
		if c.Call.IsInvoke() {
			name, recv = c.Call.Method.Name(), c.Call.Value
		} else if g := c.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(c.Call.Args) == 1 {
			name, recv = g.Name(), c.Call.Args[0]
		}
		switch name {
		case "IsZero", "IsEmpty":
			return []emptyFact{{recv, truth}}
		case "":
		default:
			if truth {
				return []emptyFact{{recv, false}}
			}
		}
	default:
		if truth {
			return []emptyFact{{cond, false}}
		}
	}
	return nil
}

// addrOf: the address v was loaded from, or v when it is one.
func addrOf(v ssa.Value) ssa.Value {
	v = strip(v)
	for n := 0; n < 4; n++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			break
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			if st := soleStore(al); st != nil {
				v = strip(st)
				continue
			}
		}
		return u.X
	}
	if al, ok := v.(*ssa.Alloc); ok {
		// a local copy whose method is called
		if st := soleStore(al); st != nil {
			return addrOf(st)
		}
	}
	return v
}

// at: v is the value of the field.
func (a *carryAn) at(v ssa.Value, fa *ssa.FieldAddr) bool {
	x := addrOf(v)
	fb, ok := x.(*ssa.FieldAddr)
	if ok && (fb == fa || a.m.sameAddr(fb, fa, 0) || fb.Field == fa.Field && a.samePath(fb.X, fa.X)) {
		return true
	}
	// a text or other form of it
	if c, ok := strip(v).(*ssa.Call); ok && !c.Call.IsInvoke() && len(c.Call.Args) == 1 {
		return a.at(c.Call.Args[0], fa)
	}
	return false
}

// loaded: v is a pointer that was read, not the address of a property.
func (a *carryAn) loaded(v ssa.Value) bool {
	_, is := strip(v).(*ssa.FieldAddr)
	return !is
}

// samePath: both are reached by the same fields from the same place.
func (a *carryAn) samePath(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	cx, cy := a.m.canonOf(x), a.m.canonOf(y)
	if cx == cy {
		return true
	}
	// what is read from a local copy is what the original holds
	if o := structCopy(cx); o != nil {
		return a.samePath(o, y)
	}
	if o := structCopy(cy); o != nil {
		return a.samePath(x, o)
	}
	ux, ok1 := cx.(*ssa.UnOp)
	uy, ok2 := cy.(*ssa.UnOp)
	if ok1 && ok2 && ux.Op == token.MUL && uy.Op == token.MUL {
		return a.samePath(ux.X, uy.X)
	}
	fx, ok1 := cx.(*ssa.FieldAddr)
	fy, ok2 := cy.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && a.samePath(fx.X, fy.X)
}

// structCopy: the address of the struct that the local v is a copy of, when
// nothing in it is changed.
func structCopy(v ssa.Value) ssa.Value {
	al, ok := v.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	u, ok := soleStore(al).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	if _, isStruct := u.Type().Underlying().(*types.Struct); !isStruct {
		return nil
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Referrers() == nil {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
				return nil
			}
		}
	}
	return u.X
}

// among: v is the value stored or one it is computed from.
func (a *carryAn) among(v, val ssa.Value, leaves []*ssa.FieldAddr) bool {
	if strip(v) == strip(val) || a.m.canonOf(v) == a.m.canonOf(val) {
		return true
	}
	if _, ptr := v.Type().Underlying().(*types.Pointer); ptr {
		if _, is := addrOf(v).(*ssa.FieldAddr); !is || a.loaded(v) {
			// an object that exists may still be empty
			return false
		}
	}
	for _, l := range leaves {
		if a.at(v, l) {
			return true
		}
	}
	// a local the value is computed from
	return uses(val, strip(v), 0)
}

func uses(v, x ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	v = strip(v)
	if v == x {
		_, isConst := x.(*ssa.Const)
		return !isConst
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch v.(type) {
	case *ssa.Phi, *ssa.FieldAddr:
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && uses(*o, x, d+1) {
			return true
		}
	}
	return false
}

// full: the value is never empty.
func (a *carryAn) full(v ssa.Value) bool {
	switch x := strip(v).(type) {
	case *ssa.Const:
		return x.Value != nil && !isZeroConst(x) && !(x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "")
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.full(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *carryAn) mirror(tag tagField, leaves []*ssa.FieldAddr) bool {
	for _, l := range leaves {
		if _, t, ok := a.propField(l); ok && t.Name == tag.Name && tag.Name != "" {
			return true
		}
	}
	return false
}

// self: the new value is computed from the old one.
func (a *carryAn) self(fa *ssa.FieldAddr, leaves []*ssa.FieldAddr) bool {
	for _, l := range leaves {
		if l.Field == fa.Field && a.samePath(l.X, fa.X) {
			return true
		}
	}
	return false
}

// pair notes a value carried between the model and another one.
func (a *carryAn) pair(f *ssa.Function, recv *types.Named, fa *ssa.FieldAddr, leaves []*ssa.FieldAddr, at ssa.Instruction) {
	own := func(x *ssa.FieldAddr) bool { return namedOf(deref(x.X.Type())) == recv }
	add := func(m map[[2]string]map[string]ssa.Instruction, foreign, mine string) {
		k := [2]string{a.p.TName(recv), foreign}
		if m[k] == nil {
			m[k] = map[string]ssa.Instruction{}
		}
		m[k][mine] = at
	}
	for _, l := range leaves {
		if _, _, ok := a.propField(l); !ok {
			continue
		}
		switch {
		case f.Name() == "SyncFromXMP" && own(fa) && !own(l):
			add(a.in, a.fieldName(l), a.fieldName(fa))
		case f.Name() == "SyncToXMP" && !own(fa) && own(l):
			add(a.out, a.fieldName(fa), a.fieldName(l))
		}
	}
}

func (a *carryAn) inverse() {
	var keys [][2]string
	for k := range a.in {
		if a.out[k] != nil {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		hit := false
		var outs, ins []string
		var at ssa.Instruction
		for mine := range a.in[k] {
			ins = append(ins, mine)
			if _, ok := a.out[k][mine]; ok {
				hit = true
			}
		}
		for mine, in := range a.out[k] {
			outs = append(outs, mine)
			if at == nil || mine < outs[0] {
				at = in
			}
		}
		sort.Strings(ins)
		sort.Strings(outs)
		a.r.Units["pairs"]++
		if !hit {
			a.r.fail("inverse", k[0]+" and "+k[1], a.p.InstrPos(at), "%s is read into %s but written from %s: reading and writing a document turns one property into another", k[1], strings.Join(ins, ", "), strings.Join(outs, ", "))
			continue
		}
		a.r.ok("%s is read into and written from the same property of %s", k[1], k[0])
	}
}
