package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Region inference for node trees: every value that leads to nodes belongs to
// a region; storing one node into another's list (or returning, converting,
// reflecting it) merges their regions. Regions are inferred per function and
// summarised over parameters, results and global slots (fields of structs that
// are not nodes), so copies separate trees and shared storage joins them.

type redge struct {
	a, b interface{} // ssa.Value or string key
	in   ssa.Instruction
	via  *ssa.Function
	ka   string
	kb   string
}

type regFn struct {
	f     *ssa.Function
	edges []redge
	sum   map[string]int
}

type regAn struct {
	p     *Prog
	nodeT types.Type // struct underlying Node and its converted forms
	list  map[types.Type]bool
	fns   map[*ssa.Function]*regFn
	memo  map[types.Type]bool
}

func (p *Prog) Regions() *regAn {
	if v, ok := p.cache["regions"]; ok {
		return v.(*regAn)
	}
	a := &regAn{p: p, fns: map[*ssa.Function]*regFn{}, memo: map[types.Type]bool{}}
	p.cache["regions"] = a
	n := p.Named("xmp", "Node")
	if n == nil {
		return a
	}
	a.nodeT = n.Underlying()
	for _, f := range p.Funcs {
		a.fns[f] = &regFn{f: f, sum: map[string]int{}}
	}
	for changed, n := true, 0; changed && n < 20; n++ {
		changed = false
		for _, f := range p.Funcs {
			if a.update(f) {
				changed = true
			}
		}
	}
	return a
}

func (a *regAn) isNode(t types.Type) bool {
	if t == nil || a.nodeT == nil {
		return false
	}
	t = types.Unalias(t)
	_, named := t.(*types.Named)
	return named && types.Identical(t.Underlying(), a.nodeT)
}

func (a *regAn) isNodePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && a.isNode(pt.Elem())
}

func (a *regAn) isNodeList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && a.isNodePtr(sl.Elem())
}

// bearing: values of the type may lead to nodes.
func (a *regAn) bearing(t types.Type) bool {
	if t == nil {
		return false
	}
	t = types.Unalias(t)
	if v, ok := a.memo[t]; ok {
		return v
	}
	a.memo[t] = false
	r := false
	if a.isNode(t) {
		r = true
	} else if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
		r = n.Obj().Name() == "Value"
	} else if isErrorType(t) {
		r = false
	} else {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			r = a.bearing(u.Elem())
		case *types.Slice:
			_, iface := u.Elem().Underlying().(*types.Interface)
			r = !iface && a.bearing(u.Elem())
		case *types.Array:
			_, iface := u.Elem().Underlying().(*types.Interface)
			r = !iface && a.bearing(u.Elem())
		case *types.Map:
			_, iface := u.Elem().Underlying().(*types.Interface)
			r = !iface && a.bearing(u.Elem())
		case *types.Interface:
			r = true
		}
	}
	a.memo[t] = r
	return r
}

// isPool: a channel nodes are recycled through.
func (a *regAn) isPool(v ssa.Value) bool {
	ch, ok := v.Type().Underlying().(*types.Chan)
	return ok && a.isNodePtr(ch.Elem())
}

func (a *regAn) slotKey(fa ssa.Value, base types.Type, fld int) string {
	st, ok := deref(base).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return "G:" + a.p.TName(deref(base)) + "." + st.Field(fld).Name()
}

func (a *regAn) build(f *ssa.Function) []redge {
	var es []redge
	link := func(x, y interface{}, in ssa.Instruction) {
		ok := func(v interface{}) bool {
			sv, isV := v.(ssa.Value)
			if !isV {
				return v != ""
			}
			if _, c := sv.(*ssa.Const); c {
				return false
			}
			return a.bearing(sv.Type())
		}
		if ok(x) && ok(y) {
			es = append(es, redge{a: x, b: y, in: in})
		}
	}
	for i, q := range f.Params {
		link(q, fmt.Sprintf("P%d", i), nil)
	}
	for i, q := range f.FreeVars {
		link(q, fmt.Sprintf("P%d", len(f.Params)+i), nil)
	}
	field := func(dst ssa.Value, base ssa.Value, fld int, in ssa.Instruction) {
		st := deref(base.Type())
		if a.isNode(st) {
			ft := st.Underlying().(*types.Struct).Field(fld).Type()
			if a.isNodeList(ft) || a.isNodePtr(ft) {
				link(dst, base, in)
			} else {
				link(dst, "G:model", in)
			}
			return
		}
		link(dst, a.slotKey(dst, base.Type(), fld), in)
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				link(x, e, in)
			}
		case *ssa.ChangeType:
			link(x, x.X, in)
		case *ssa.Convert:
			link(x, x.X, in)
		case *ssa.ChangeInterface:
			link(x, x.X, in)
		case *ssa.MakeInterface:
			link(x, x.X, in)
		case *ssa.TypeAssert:
			link(x, x.X, in)
		case *ssa.Slice:
			link(x, x.X, in)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				link(x, x.X, in)
			}
		case *ssa.IndexAddr:
			link(x, x.X, in)
		case *ssa.Index:
			link(x, x.X, in)
		case *ssa.Lookup:
			link(x, x.X, in)
		case *ssa.FieldAddr:
			field(x, x.X, x.Field, in)
		case *ssa.Field:
			field(x, x.X, x.Field, in)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					link(x, rg.X, in)
				}
			case *ssa.TypeAssert:
				if x.Index == 0 {
					link(x, t.X, in)
				}
			case *ssa.Lookup:
				if x.Index == 0 {
					link(x, t.X, in)
				}
			}
		case *ssa.Store:
			if a.isNode(x.Val.Type()) && a.relisted(f, x) {
				return // the list copied along is replaced right away
			}
			link(x.Addr, x.Val, in)
		case *ssa.MapUpdate:
			link(x.Map, x.Value, in)
		case *ssa.Return:
			for i := range x.Results {
				link(fmt.Sprintf("R%d", i), x.Results[i], in)
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			args := map[string]ssa.Value{}
			for i, b := range x.Bindings {
				args[fmt.Sprintf("P%d", len(g.Params)+i)] = b
			}
			a.instantiate(g, args, nil, in, &es)
		case ssa.CallInstruction:
			c := x.Common()
			cargs := callArgs(c)
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if v, ok := in.(ssa.Value); ok {
						for _, q := range cargs {
							link(v, q, in)
						}
					}
				case "copy":
					link(cargs[0], cargs[1], in)
				}
				return
			}
			val, _ := in.(ssa.Value)
			if pkg, _ := extCallee(c); pkg == "reflect" || pkg == "slices" {
				var first ssa.Value
				all := append([]ssa.Value{}, cargs...)
				if val != nil {
					all = append(all, val)
				}
				for _, q := range all {
					if _, k := q.(*ssa.Const); k || !a.bearing(q.Type()) || a.p.TName(q.Type()) == "reflect.Type" {
						continue
					}
					if first == nil {
						first = q
					} else {
						link(first, q, in)
					}
				}
				return
			}
			for _, g := range a.p.Callees(c) {
				args := map[string]ssa.Value{}
				for i, q := range cargs {
					args[fmt.Sprintf("P%d", i)] = q
				}
				if mc, ok := c.Value.(*ssa.MakeClosure); ok {
					for i, b := range mc.Bindings {
						args[fmt.Sprintf("P%d", len(g.Params)+i)] = b
					}
				}
				a.instantiate(g, args, val, in, &es)
			}
		}
	})
	return es
}

// relisted: after a whole node is copied, its list is replaced on every path.
func (a *regAn) relisted(f *ssa.Function, st *ssa.Store) bool {
	var hits []ssa.Instruction
	eachInstr(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && a.isNodeList(s.Val.Type()) {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == st.Addr {
				hits = append(hits, in)
			}
		}
	})
	return len(hits) > 0 && allPathsHit(st, hits)
}

func (a *regAn) instantiate(g *ssa.Function, args map[string]ssa.Value, res ssa.Value, in ssa.Instruction, es *[]redge) {
	gf := a.fns[g]
	if gf == nil {
		return
	}
	byClass := map[int][]string{}
	for k, c := range gf.sum {
		byClass[c] = append(byClass[c], k)
	}
	resolve := func(k string) []interface{} {
		switch k[0] {
		case 'P':
			v := args[k]
			if v == nil {
				return nil
			}
			if _, c := v.(*ssa.Const); c || !a.bearing(v.Type()) {
				return nil
			}
			return []interface{}{v}
		case 'R':
			if res == nil {
				return nil
			}
			if tup, ok := res.Type().(*types.Tuple); ok {
				var out []interface{}
				if res.Referrers() == nil {
					return nil
				}
				for _, ref := range *res.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && fmt.Sprintf("R%d", ex.Index) == k && a.bearing(tup.At(ex.Index).Type()) {
						out = append(out, ex)
					}
				}
				return out
			}
			if a.bearing(res.Type()) {
				return []interface{}{res}
			}
			return nil
		}
		return []interface{}{k}
	}
	classes := make([]int, 0, len(byClass))
	for c := range byClass {
		classes = append(classes, c)
	}
	sort.Ints(classes)
	for _, c := range classes {
		ks := byClass[c]
		sort.Strings(ks)
		var first interface{}
		var fk string
		for _, k := range ks {
			for _, v := range resolve(k) {
				if first == nil {
					first, fk = v, k
				} else if first != v {
					*es = append(*es, redge{a: first, b: v, in: in, via: g, ka: fk, kb: k})
				}
			}
		}
	}
}

type uf map[interface{}]interface{}

func (u uf) find(x interface{}) interface{} {
	p, ok := u[x]
	if !ok || p == x {
		u[x] = x
		return x
	}
	r := u.find(p)
	u[x] = r
	return r
}

func (u uf) union(a, b interface{}) {
	ra, rb := u.find(a), u.find(b)
	if ra != rb {
		u[ra] = rb
	}
}

func (a *regAn) update(f *ssa.Function) bool {
	rf := a.fns[f]
	rf.edges = a.build(f)
	u := uf{}
	keys := map[string]bool{}
	for _, e := range rf.edges {
		u.union(e.a, e.b)
		for _, x := range []interface{}{e.a, e.b} {
			if k, ok := x.(string); ok {
				keys[k] = true
			}
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	id := map[interface{}]int{}
	sum := map[string]int{}
	count := map[int]int{}
	for _, k := range ks {
		r := u.find(k)
		if _, ok := id[r]; !ok {
			id[r] = len(id)
		}
		sum[k] = id[r]
		count[id[r]]++
	}
	for k, c := range sum {
		if count[c] < 2 {
			delete(sum, k)
		}
	}
	if len(sum) == len(rf.sum) {
		same := true
		for k, c := range sum {
			if o, ok := rf.sum[k]; !ok || o != c {
				same = false
			}
		}
		if same {
			return false
		}
	}
	rf.sum = sum
	return true
}

// joined lists the keys (parameters, results, slots) in v's region, using only
// edges accepted by the filter, with the chain of constructs that joins them.
func (a *regAn) joined(f *ssa.Function, v interface{}, accept func(e redge) bool) map[string][]redge {
	rf := a.fns[f]
	out := map[string][]redge{}
	if rf == nil {
		return out
	}
	adj := map[interface{}][]redge{}
	for _, e := range rf.edges {
		if accept != nil && !accept(e) {
			continue
		}
		adj[e.a] = append(adj[e.a], e)
		adj[e.b] = append(adj[e.b], redge{a: e.b, b: e.a, in: e.in, via: e.via, ka: e.kb, kb: e.ka})
	}
	prev := map[interface{}]redge{}
	seen := map[interface{}]bool{v: true}
	work := []interface{}{v}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if k, ok := x.(string); ok && x != v {
			var chain []redge
			for y := interface{}(x); y != v; {
				e := prev[y]
				chain = append([]redge{e}, chain...)
				y = e.a
			}
			out[k] = chain
		}
		for _, e := range adj[x] {
			if !seen[e.b] {
				seen[e.b] = true
				prev[e.b] = e
				work = append(work, e.b)
			}
		}
	}
	return out
}

// explain names the constructs along a chain, entering callees.
func (a *regAn) explain(chain []redge, depth int) (string, string) {
	pos := ""
	s := ""
	for _, e := range chain {
		if e.in == nil {
			continue
		}
		switch e.in.(type) {
		case *ssa.Store, ssa.CallInstruction, *ssa.Return, *ssa.MapUpdate:
		default:
			continue
		}
		at := a.p.InstrPos(e.in)
		if s != "" {
			s += ", "
		}
		s += at
		if e.via != nil && e.ka != e.kb {
			s += " via " + a.p.FName(e.via)
			if depth < 4 && e.via.Blocks != nil {
				j := a.joined(e.via, e.ka, nil)
				if c, ok := j[e.kb]; ok {
					if in, _ := a.explain(c, depth+1); in != "" {
						s += " (" + in + ")"
					}
				}
			}
		}
		if pos == "" {
			pos = at
		}
	}
	return s, pos
}
