package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mutation summaries: which parameters' reachable memory a function may write.

type effSum struct {
	mut map[int]effWhy // parameter (receiver first, then free variables after params) -> witness
	ret map[int]lv     // result may alias memory reachable from the parameter
	chn map[int]effWhy // parameter is given away (sent on a channel)
}

// lv places a value relative to a parameter: after d further dereferences the
// value leads into the parameter's reachable memory, at depth e (1: the memory
// the parameter points to directly).
type lv struct{ d, e int }

const lvMax = 6

type orgs map[int]lv

func (o orgs) add(i int, l lv) {
	if l.d > lvMax {
		return
	}
	if l.e > lvMax {
		l.e = lvMax
	}
	if x, ok := o[i]; ok {
		if x.d < l.d {
			l.d = x.d
		}
		if x.e > l.e {
			l.e = x.e
		}
	}
	o[i] = l
}

func (o orgs) merge(x orgs) {
	for i, l := range x {
		o.add(i, l)
	}
}

// load: follow one pointer.
func (o orgs) load() orgs {
	out := orgs{}
	for i, l := range o {
		if l.d > 0 {
			out.add(i, lv{l.d - 1, l.e})
		} else {
			out.add(i, lv{0, l.e + 1})
		}
	}
	return out
}

// held: the value is stored one dereference below the result.
func (o orgs) held() orgs {
	out := orgs{}
	for i, l := range o {
		out.add(i, lv{l.d + 1, l.e})
	}
	return out
}

type effWhy struct {
	in  ssa.Instruction
	via *ssa.Function // callee that mutates, nil for a direct write
	idx int
	k   int // deepest write, counted in dereferences from the parameter
}

type effects struct {
	p    *Prog
	sum  map[*ssa.Function]*effSum
	skip func(f *ssa.Function) bool // callees treated as having no effect
	memo map[*ssa.Function]map[ssa.Value]orgs
}

func (p *Prog) Effects() *effects {
	if v, ok := p.cache["effects"]; ok {
		return v.(*effects)
	}
	e := p.newEffects(nil)
	p.cache["effects"] = e
	return e
}

func (p *Prog) newEffects(skip func(f *ssa.Function) bool) *effects {
	e := &effects{p: p, sum: map[*ssa.Function]*effSum{}, skip: skip}
	for _, f := range p.Funcs {
		e.sum[f] = &effSum{mut: map[int]effWhy{}, ret: map[int]lv{}, chn: map[int]effWhy{}}
	}
	for changed, n := true, 0; changed && n < 30; n++ {
		changed = false
		e.memo = map[*ssa.Function]map[ssa.Value]orgs{}
		for _, f := range p.Funcs {
			if e.update(f) {
				changed = true
			}
		}
	}
	return e
}

func prmIndex(f *ssa.Function, v ssa.Value) int {
	for i, q := range f.Params {
		if q == v {
			return i
		}
	}
	for i, q := range f.FreeVars {
		if q == v {
			return len(f.Params) + i
		}
	}
	return -1
}

func hasPointers(t types.Type) bool { return hasPtr(t, map[types.Type]bool{}) }

func hasPtr(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Array:
		return hasPtr(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

const originGlobal = -1

// origins: parameters whose reachable memory v may lead into (-1: a package variable).
func (e *effects) origins(f *ssa.Function, v ssa.Value) orgs {
	m := e.memo[f]
	if m == nil {
		m = map[ssa.Value]orgs{}
		e.memo[f] = m
	}
	if o, ok := m[v]; ok {
		return o
	}
	m[v] = orgs{}
	// cyclic definitions (phi): iterate locally
	for n := 0; n < 4; n++ {
		o := e.originsRaw(f, v)
		same := len(o) == len(m[v])
		for i, l := range o {
			if m[v][i] != l {
				same = false
			}
		}
		m[v] = o
		if same {
			break
		}
		if _, ok := v.(*ssa.Phi); !ok {
			break
		}
	}
	return m[v]
}

func (e *effects) originsRaw(f *ssa.Function, v ssa.Value) orgs {
	out := orgs{}
	if !hasPointers(v.Type()) {
		if _, ok := v.Type().(*types.Tuple); !ok {
			return out
		}
	}
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if i := prmIndex(f, v); i >= 0 {
			out.add(i, lv{0, 1})
		}
	case *ssa.Global:
		out.add(originGlobal, lv{0, 1})
	case *ssa.FieldAddr:
		out.merge(e.origins(f, v.X))
	case *ssa.IndexAddr:
		out.merge(e.origins(f, v.X))
	case *ssa.Field:
		out.merge(e.origins(f, v.X))
	case *ssa.Index:
		out.merge(e.origins(f, v.X))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			out.merge(e.origins(f, v.X).load())
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			out.merge(e.origins(f, x))
		}
	case *ssa.ChangeType:
		out.merge(e.origins(f, v.X))
	case *ssa.ChangeInterface:
		out.merge(e.origins(f, v.X))
	case *ssa.MakeInterface:
		out.merge(e.origins(f, v.X))
	case *ssa.TypeAssert:
		out.merge(e.origins(f, v.X))
	case *ssa.Convert:
		if _, ok := v.X.Type().Underlying().(*types.Basic); !ok {
			out.merge(e.origins(f, v.X))
		}
	case *ssa.Slice:
		out.merge(e.origins(f, v.X))
	case *ssa.SliceToArrayPointer:
		out.merge(e.origins(f, v.X))
	case *ssa.Lookup:
		out.merge(e.origins(f, v.X).load())
	case *ssa.Range:
		out.merge(e.origins(f, v.X))
	case *ssa.Next:
		out.merge(e.origins(f, v.Iter).load())
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			out.merge(e.callRet(f, c))
		} else {
			out.merge(e.origins(f, v.Tuple))
		}
	case *ssa.Call:
		out.merge(e.callRet(f, v))
	case *ssa.Alloc:
		out.merge(e.storedInto(f, v).held())
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			out.merge(e.origins(f, b))
		}
	}
	return out
}

func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
			} else {
				return v
			}
		default:
			return v
		}
	}
}

func (e *effects) storedInto(f *ssa.Function, al *ssa.Alloc) orgs {
	out := orgs{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 6 || v.Referrers() == nil {
			return
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					out.merge(e.origins(f, in.Val))
				}
			case *ssa.FieldAddr:
				walk(in, d+1)
			case *ssa.IndexAddr:
				walk(in, d+1)
			}
		}
	}
	walk(al, 0)
	return out
}

func (e *effects) callRet(f *ssa.Function, c *ssa.Call) orgs {
	out := orgs{}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out.merge(e.origins(f, c.Call.Args[0]))
			if s, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok && hasPointers(s.Elem()) && len(c.Call.Args) > 1 {
				// the elements are copied: one dereference below the result
				out.merge(e.origins(f, c.Call.Args[1]).load().held())
			}
		}
		return out
	}
	args := callArgs(&c.Call)
	cs := e.p.Callees(&c.Call)
	inMod := false
	for _, g := range cs {
		s := e.sum[g]
		if s == nil {
			continue
		}
		inMod = true
		for i, rl := range s.ret {
			if i == originGlobal {
				out.add(originGlobal, rl)
			} else if i < len(args) {
				for j, l := range e.origins(f, args[i]) {
					if rl.e > l.d {
						out.add(j, lv{rl.d, l.e + rl.e - l.d - 1})
					} else {
						out.add(j, lv{rl.d + l.d + 1 - rl.e, l.e})
					}
				}
			}
		}
	}
	if inMod {
		return out
	}
	// external
	if pkg, name := extCallee(&c.Call); pkg == "reflect" {
		switch name {
		case "New", "Zero", "MakeSlice", "MakeMap", "TypeOf":
		default:
			for _, x := range args {
				for j, l := range e.origins(f, x) {
					out.add(j, lv{0, l.e + 1})
				}
			}
		}
	} else if pkg == "bytes" {
		if name == "Bytes" || strings.HasPrefix(name, "Trim") {
			for _, x := range args {
				out.merge(e.origins(f, x))
			}
		}
	}
	return out
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func extCallee(c *ssa.CallCommon) (pkg, name string) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil {
			return c.Method.Pkg().Path(), c.Method.Name()
		}
		return "", c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil {
			return o.Pkg().Path(), o.Name()
		}
		return "", f.Name()
	}
	return "", ""
}

// extMutates: argument positions an external function writes through.
func extMutates(c *ssa.CallCommon) []int {
	pkg, name := extCallee(c)
	switch pkg {
	case "sort", "slices":
		switch name {
		case "Sort", "Stable", "Strings", "Ints", "Slice", "SliceStable", "SortFunc", "SortStableFunc", "Reverse", "Float64s":
			return []int{0}
		}
	case "encoding/json":
		if name == "Unmarshal" {
			return []int{1}
		}
		if name == "Decode" {
			return []int{1}
		}
	case "encoding/xml":
		if name == "Unmarshal" || name == "Decode" || name == "DecodeElement" {
			return []int{1}
		}
	case "fmt":
		switch name {
		case "Sscan", "Sscanln":
			return []int{1}
		case "Sscanf", "Fscanf":
			return []int{2}
		}
	case "reflect":
		switch name {
		case "Set", "SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetBytes", "SetLen", "SetCap", "SetMapIndex", "SetPointer", "SetComplex", "SetZero", "Copy", "SetIterKey", "SetIterValue", "Clear", "Grow":
			return []int{0}
		}
	case "io":
		if name == "ReadFull" || name == "ReadAtLeast" {
			return []int{1}
		}
	}
	if name == "UnmarshalText" || name == "UnmarshalJSON" || name == "UnmarshalBinary" || name == "UnmarshalXML" {
		return []int{0}
	}
	return nil
}

// materialises: reflect Set of a freshly created zero value into a nil pointer.
func materialises(c *ssa.CallCommon) bool {
	if pkg, name := extCallee(c); pkg != "reflect" || name != "Set" || len(c.Args) != 2 {
		return false
	}
	n, ok := c.Args[1].(*ssa.Call)
	if !ok {
		return false
	}
	pkg, name := extCallee(&n.Call)
	return pkg == "reflect" && name == "New"
}

func (e *effects) update(f *ssa.Function) bool {
	s := e.sum[f]
	changed := false
	for _, ev := range e.writes(f) {
		for i, k := range ev.depth {
			w := ev.why
			w.k = k
			if old, ok := s.mut[i]; !ok || old.k < k {
				s.mut[i] = w
				changed = true
			}
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Send:
			for i := range e.origins(f, in.X) {
				if _, ok := s.chn[i]; !ok {
					s.chn[i] = effWhy{in: in}
					changed = true
				}
			}
		case *ssa.Select:
			for _, st := range in.States {
				if st.Send != nil {
					for i := range e.origins(f, st.Send) {
						if _, ok := s.chn[i]; !ok {
							s.chn[i] = effWhy{in: in}
							changed = true
						}
					}
				}
			}
		case *ssa.Return:
			for _, v := range in.Results {
				o := orgs(s.ret)
				for i, l := range e.origins(f, v) {
					old, ok := o[i]
					o.add(i, l)
					if !ok || o[i] != old {
						changed = true
					}
				}
			}
		}
	})
	return changed
}

type writeEv struct {
	depth map[int]int // parameter -> depth of the written memory
	why   effWhy
}

// into: parameters hit by a write k dereferences below a value with these origins.
func (o orgs) into(k int) map[int]int {
	out := map[int]int{}
	for i, l := range o {
		if k > l.d {
			d := l.e + k - l.d - 1
			if d > lvMax {
				d = lvMax
			}
			out[i] = d
		}
	}
	return out
}

// writes lists every write in f (direct or through callees) with the origins written.
func (e *effects) writes(f *ssa.Function) []writeEv {
	var out []writeEv
	add := func(o orgs, k int, w effWhy) {
		if m := o.into(k); len(m) > 0 {
			out = append(out, writeEv{m, w})
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if _, ok := addrBase(in.Addr).(*ssa.Alloc); ok {
				return
			}
			add(e.origins(f, in.Addr), 1, effWhy{in: in})
		case *ssa.MapUpdate:
			add(e.origins(f, in.Map), 1, effWhy{in: in})
		case ssa.CallInstruction:
			c := in.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear", "copy":
					add(e.origins(f, c.Args[0]), 1, effWhy{in: in})
				case "append":
					for _, sl := range shrunk(c.Args[0]) {
						add(e.origins(f, sl.X), 1, effWhy{in: in})
					}
				}
				return
			}
			args := callArgs(c)
			for _, g := range e.p.Callees(c) {
				s := e.sum[g]
				if s == nil || e.skip != nil && e.skip(g) {
					continue
				}
				for i, w := range s.mut {
					if i == originGlobal {
						out = append(out, writeEv{map[int]int{originGlobal: w.k}, effWhy{in: in, via: g, idx: i}})
						continue
					}
					if i < len(args) {
						add(e.origins(f, args[i]), w.k, effWhy{in: in, via: g, idx: i})
					} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
						if j := i - len(g.Params); j >= 0 && j < len(mc.Bindings) {
							add(e.origins(f, mc.Bindings[j]), w.k, effWhy{in: in, via: g, idx: i})
						}
					}
				}
			}
			if materialises(c) {
				return
			}
			for _, i := range extMutates(c) {
				if cs := e.p.Callees(c); len(cs) > 0 && (c.IsInvoke() || e.sum[cs[0]] != nil) {
					continue
				}
				if i < len(args) {
					k := lvMax
					if pkg, _ := extCallee(c); pkg == "sort" || pkg == "slices" {
						k = 1
					}
					add(e.origins(f, args[i]), k, effWhy{in: in})
				}
			}
		}
	})
	return out
}

// chain renders the call path from f to the write.
func (e *effects) chain(f *ssa.Function, i int) (string, ssa.Instruction) {
	var s []string
	w, ok := e.sum[f].mut[i]
	var last ssa.Instruction
	for n := 0; ok && n < 12; n++ {
		last = w.in
		if w.via == nil {
			break
		}
		s = append(s, e.p.FName(w.via))
		w, ok = e.sum[w.via].mut[w.idx]
	}
	return strings.Join(s, " -> "), last
}

func sortedInts(m map[int]effWhy) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// shrunk: the append target is (built from) a slice expression that cut an
// existing slice short, so that appending overwrites the original's elements.
func shrunk(v ssa.Value) []*ssa.Slice {
	var out []*ssa.Slice
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			if x.High != nil && x.Max == nil {
				if _, ok := x.X.(*ssa.Alloc); !ok {
					out = append(out, x)
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(x.Call.Args[0])
			}
		}
	}
	walk(v)
	return out
}
