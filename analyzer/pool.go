package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: a node is recycled only when nothing else reaches it.

func init() { register("C05", checkPool) }

type poolAn struct {
	p      *Prog
	r      *Result
	g      *regAn
	m      *memAn
	x      *prover
	closes map[*ssa.Function]map[int]bool  // parameters a function releases
	drops  map[*ssa.Function]map[int][]int // parameter taken out of the lists of other parameters
	retp   map[*ssa.Function]map[int]bool  // parameters a function returns directly
	fresh  map[*ssa.Function]bool          // result is a newly made node
	search map[*ssa.Function]map[int]bool
}

func newPoolAn(p *Prog, r *Result) *poolAn {
	a := &poolAn{p: p, r: r, g: p.Regions(), x: p.Prover()}
	a.m = a.x.m
	a.closes = map[*ssa.Function]map[int]bool{}
	a.drops = map[*ssa.Function]map[int][]int{}
	a.retp = map[*ssa.Function]map[int]bool{}
	a.fresh = map[*ssa.Function]bool{}
	a.search = map[*ssa.Function]map[int]bool{}
	if a.g.nodeT == nil {
		return a
	}
	a.summarise()
	return a
}

// releases: the values an instruction gives back to the pool.
func (a *poolAn) releases(in ssa.Instruction) []ssa.Value {
	switch in := in.(type) {
	case *ssa.Send:
		if a.g.isPool(in.Chan) {
			return []ssa.Value{in.X}
		}
	case *ssa.Select:
		var out []ssa.Value
		for _, s := range in.States {
			if s.Dir == types.SendOnly && a.g.isPool(s.Chan) {
				out = append(out, s.Send)
			}
		}
		return out
	case ssa.CallInstruction:
		c := in.Common()
		args := callArgs(c)
		var out []ssa.Value
		for _, g := range a.p.Callees(c) {
			for i := range a.closes[g] {
				if i < len(args) {
					out = append(out, args[i])
				} else if mc, ok := c.Value.(*ssa.MakeClosure); ok && i-len(g.Params) < len(mc.Bindings) {
					out = append(out, mc.Bindings[i-len(g.Params)])
				}
			}
		}
		return out
	}
	return nil
}

func (a *poolAn) summarise() {
	for changed := true; changed; {
		changed = false
		for _, f := range a.p.Funcs {
			if a.closes[f] == nil {
				a.closes[f] = map[int]bool{}
				a.drops[f] = map[int][]int{}
				a.retp[f] = map[int]bool{}
			}
			// results
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) == 0 || b == f.Recover {
					continue
				}
				for _, v := range retValues(ret, 0) {
					if !a.g.isNodePtr(v.Type()) {
						continue
					}
					for _, o := range a.origins(v) {
						if (o.kind == oParam || o.kind == oRemoved && o.param >= 0) && !a.retp[f][o.param] {
							a.retp[f][o.param] = true
							changed = true
						}
						if o.kind == oFresh && !a.fresh[f] {
							a.fresh[f] = true
							changed = true
						}
					}
				}
			}
			eachInstr(f, func(in ssa.Instruction) {
				for _, v := range a.releases(in) {
					for _, o := range a.origins(v) {
						if o.kind == oParam && !a.closes[f][o.param] {
							a.closes[f][o.param] = true
							changed = true
						}
					}
				}
				add := func(x, l int) {
					for _, y := range a.drops[f][x] {
						if y == l {
							return
						}
					}
					a.drops[f][x] = append(a.drops[f][x], l)
					changed = true
				}
				switch in := in.(type) {
				case *ssa.Store:
					if !a.g.isNodeList(in.Val.Type()) || !a.shrinks(in) {
						return
					}
					l := a.ownerParam(in.Addr)
					if l < 0 {
						return
					}
					for i, q := range f.Params {
						if i != l && a.g.isNodePtr(q.Type()) && !a.isStored(f, q) {
							add(i, l)
						}
					}
				case ssa.CallInstruction:
					args := callArgs(in.Common())
					for _, g := range a.p.Callees(in.Common()) {
						for x, ls := range a.drops[g] {
							for _, l := range ls {
								if x < len(args) && l < len(args) {
									px, pl := prmIndex(f, args[x]), a.ownerParam(args[l])
									if px >= 0 && pl >= 0 {
										add(px, pl)
									}
								}
							}
						}
					}
				}
			})
		}
	}
}

// isStored: q is put into memory somewhere in f.
func (a *poolAn) isStored(f *ssa.Function, q ssa.Value) bool {
	for _, ref := range *q.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Val == q {
			if _, al := s.Addr.(*ssa.Alloc); !al {
				return true
			}
		}
	}
	return false
}

// owner strips a list address or list value to the object that owns the list.
func (a *poolAn) owner(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return x.X
		case *ssa.UnOp:
			if x.Op != token.MUL || a.g.isNodePtr(x.Type()) {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func (a *poolAn) ownerParam(v ssa.Value) int {
	o := a.owner(v)
	if in, ok := o.(ssa.Instruction); ok && in.Parent() != nil {
		return -1
	}
	switch q := o.(type) {
	case *ssa.Parameter:
		return prmIndex(q.Parent(), q)
	case *ssa.FreeVar:
		return prmIndex(q.Parent(), q)
	}
	return -1
}

// shrinks: the store replaces a list by a splice of itself.
func (a *poolAn) shrinks(s *ssa.Store) bool {
	_, lo, hi := splice(s.Val)
	return lo != nil && hi != nil
}

func unconv(v ssa.Value) ssa.Value {
	for {
		ct, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = ct.X
	}
}

// splice recognises append(L[:i], L[j:]...).
func splice(v ssa.Value) (list, hi, lo ssa.Value) {
	v = unconv(v)
	c, ok := v.(*ssa.Call)
	if !ok {
		return
	}
	if pkg, name := extCallee(&c.Call); pkg == "slices" && strings.HasPrefix(name, "Delete") && len(c.Call.Args) >= 3 {
		return c.Call.Args[0], c.Call.Args[1], c.Call.Args[2]
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return
	}
	x, ok1 := unconv(c.Call.Args[0]).(*ssa.Slice)
	y, ok2 := unconv(c.Call.Args[1]).(*ssa.Slice)
	if !ok1 || !ok2 || x.High == nil || y.Low == nil {
		return
	}
	return x.X, x.High, y.Low
}

const (
	oFresh = iota
	oParam
	oElem    // an item of a list
	oFound   // returned by a search over an object
	oRemoved // returned by a call that took it out of its list
	oSlot    // held in a field of a struct that is not a node
	oOther
)

type origin struct {
	kind  int
	leaf  ssa.Value
	owner ssa.Value // oElem, oFound: object whose list holds the node
	param int
}

func (a *poolAn) origins(v ssa.Value) []origin {
	var out []origin
	a.orig(v, map[ssa.Value]bool{}, &out)
	return out
}

func (a *poolAn) orig(v ssa.Value, seen map[ssa.Value]bool, out *[]origin) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.orig(e, seen, out)
		}
		return
	case *ssa.ChangeType:
		a.orig(x.X, seen, out)
		return
	case *ssa.Convert:
		a.orig(x.X, seen, out)
		return
	case *ssa.Parameter:
		*out = append(*out, origin{kind: oParam, leaf: v, param: prmIndex(x.Parent(), x)})
		return
	case *ssa.FreeVar:
		*out = append(*out, origin{kind: oParam, leaf: v, param: prmIndex(x.Parent(), x)})
		return
	case *ssa.Alloc:
		if a.g.isNodePtr(x.Type()) {
			*out = append(*out, origin{kind: oFresh, leaf: v})
			return
		}
		if a.g.isNodePtr(deref(x.Type())) { // captured variable
			st, _ := storesTo(x)
			for _, s := range st {
				a.orig(s.Val, seen, out)
			}
			return
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW && a.g.isPool(x.X) {
			*out = append(*out, origin{kind: oFresh, leaf: v})
			return
		}
		if x.Op == token.MUL {
			switch ad := x.X.(type) {
			case *ssa.Alloc:
				st, _ := storesTo(ad)
				for _, s := range st {
					a.orig(s.Val, seen, out)
				}
				return
			case *ssa.FreeVar:
				*out = append(*out, origin{kind: oParam, leaf: ad, param: prmIndex(ad.Parent(), ad)})
				return
			case *ssa.IndexAddr:
				*out = append(*out, origin{kind: oElem, leaf: v, owner: a.owner(ad.X)})
				return
			case *ssa.FieldAddr:
				if !a.g.isNode(deref(ad.X.Type())) {
					*out = append(*out, origin{kind: oSlot, leaf: v, owner: ad.X})
					return
				}
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Select:
			*out = append(*out, origin{kind: oFresh, leaf: v})
			return
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				*out = append(*out, origin{kind: oElem, leaf: v, owner: a.owner(rg.X)})
				return
			}
		}
	case *ssa.Call:
		args := callArgs(&x.Call)
		gs := a.p.Callees(&x.Call)
		for _, g := range gs {
			done := false
			for i := range a.retp[g] {
				if i < len(args) {
					done = true
					if len(a.drops[g][i]) > 0 {
						o := origin{kind: oRemoved, leaf: v, owner: args[a.drops[g][i][0]], param: -1}
						for _, u := range a.origins(args[i]) {
							if u.kind == oParam {
								o.param = u.param
							}
						}
						*out = append(*out, o)
					} else {
						a.orig(args[i], seen, out)
					}
				}
			}
			if a.fresh[g] {
				done = true
				*out = append(*out, origin{kind: oFresh, leaf: v})
			}
			if !done && len(args) > 0 {
				// tied to an argument: found in it
				if gf := a.g.fns[g]; gf != nil {
					for i, q := range args {
						c, ok := gf.sum[fmt.Sprintf("P%d", i)]
						if d, ok2 := gf.sum["R0"]; ok && ok2 && c == d {
							*out = append(*out, origin{kind: oFound, leaf: v, owner: a.owner(q)})
							done = true
							break
						}
					}
				}
			}
			if !done {
				// a search that returns an item of an argument's list
				for i := range a.searched(g, 0) {
					if i < len(args) {
						*out = append(*out, origin{kind: oFound, leaf: v, owner: a.owner(args[i])})
						done = true
					}
				}
			}
			if !done {
				*out = append(*out, origin{kind: oOther, leaf: v})
			}
		}
		if len(gs) > 0 {
			return
		}
	}
	*out = append(*out, origin{kind: oOther, leaf: v})
}

// searched: the parameters of g whose lists the returned node may be an item of.
func (a *poolAn) searched(g *ssa.Function, d int) map[int]bool {
	if m, ok := a.search[g]; ok {
		return m
	}
	m := map[int]bool{}
	a.search[g] = m
	if d > 6 || g.Blocks == nil || !a.p.InModule(g) {
		return m
	}
	eachInstr(g, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || len(ret.Results) == 0 || !a.g.isNodePtr(ret.Results[0].Type()) {
			return
		}
		for _, o := range a.origins(ret.Results[0]) {
			if (o.kind == oElem || o.kind == oFound) && o.owner != nil {
				if i := prmIndex(g, rootPtr(o.owner)); i >= 0 {
					m[i] = true
				}
			}
		}
	})
	return m
}

func checkPool(p *Prog, r *Result) {
	r.Explain = "Node ownership. Rule shared-tree: the region (unification-based points-to class, summarised per function over parameters, results and struct fields) of a tree that a function makes and closes contains no parameter, result or long-lived field, counting only the constructs that can execute before the close. Rule still-listed: a node closed out of a list is taken out of that list on every path, before or after the close. Rule use-after-close: no path leads from a close (or a send to the recycling channel) to a use of the node or of the children read from it. Rule closed-twice: a loop that closes nodes of a list does not go on after an item was taken out of the list it goes through. Rule stale-slot: a node held in a struct field is closed only where the same function put it there. Rule non-blocking: the recycling channel is only used in non-blocking selects."
	a := newPoolAn(p, r)
	if a.g.nodeT == nil {
		r.need("close_sites", 1)
		return
	}
	for _, f := range p.Funcs {
		if !p.libFunc(f) || f.Blocks == nil || f.Synthetic != "" && f.Parent() == nil && f.Name() != "init" {
			continue
		}
		a.check(f)
	}
	r.Assume = append(r.Assume, "code outside the module that receives nodes does not keep them", "a node removed from its list by a helper is not in a second list")
	r.need("close_sites", 5)
	r.need("pool_operations", 2)
}

func (a *poolAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	return out
}

func (a *poolAn) check(f *ssa.Function) {
	for _, rm := range loopRemovals(a.p, a.p.Prover(), f) {
		for b := range rm.loop.in {
			for _, in := range b.Instrs {
				if len(a.releases(in)) > 0 {
					a.r.failAlt("closed-twice", a.keys(f, "nodes of "+exprVal(a.p, rm.loop.list)), a.p.InstrPos(rm.call), "the loop closes nodes of %s and goes on after taking one out of that list: the last one is seen, and can be closed, a second time", exprVal(a.p, rm.loop.list))
				}
			}
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Send:
			if a.g.isPool(in.Chan) {
				a.r.Units["pool_operations"]++
				a.r.failAlt("non-blocking", a.keys(f, "send"), a.p.InstrPos(in), "a blocking send on the recycling channel: closing a node waits forever once the pool is full")
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW && a.g.isPool(in.X) {
				a.r.Units["pool_operations"]++
				a.r.failAlt("non-blocking", a.keys(f, "receive"), a.p.InstrPos(in), "a blocking receive on the recycling channel: making a node waits forever while the pool is empty")
			}
		case *ssa.Select:
			for _, s := range in.States {
				if a.g.isPool(s.Chan) {
					a.r.Units["pool_operations"]++
					if in.Blocking {
						a.r.failAlt("non-blocking", a.keys(f, "select"), a.p.InstrPos(in), "the recycling channel is used in a select without default: it can wait forever")
					} else {
						a.r.ok("%s: %s: pool operation in a non-blocking select", a.p.InstrPos(in), a.p.FName(f))
					}
				}
			}
		}
		for _, v := range a.releases(in) {
			a.r.Units["close_sites"]++
			a.closeSite(f, in, v)
		}
	})
}

func isDeferred(in ssa.Instruction) bool { _, ok := in.(*ssa.Defer); return ok }

// conditionalClosure: the deferred function releases the node only on some of
// its paths.
func (a *poolAn) conditionalClosure(in ssa.Instruction) bool {
	d, ok := in.(*ssa.Defer)
	if !ok {
		return false
	}
	for _, g := range a.p.Callees(&d.Call) {
		if g.Parent() == nil {
			continue
		}
		cond := true
		eachInstr(g, func(x ssa.Instruction) {
			if len(a.releases(x)) == 0 {
				return
			}
			all := true
			for _, b := range g.Blocks {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !x.Block().Dominates(b) {
					all = false
				}
			}
			if all {
				cond = false
			}
		})
		if cond {
			return true
		}
	}
	return false
}

func (a *poolAn) closeSite(f *ssa.Function, in ssa.Instruction, v ssa.Value) {
	pos := a.p.InstrPos(in)
	name := a.p.FName(f)
	_, isSelect := in.(*ssa.Select)
	_, isSend := in.(*ssa.Send)
	what := "close of " + valName(a.p, v, 0)
	bad := false
	fail := func(rule, msg string, args ...interface{}) {
		bad = true
		a.r.failAlt(rule, a.keys(f, what), pos, msg, args...)
	}
	if a.conditionalClosure(in) {
		a.r.undecided("%s: %s: conditional deferred close", pos, name)
		return
	}
	for _, o := range a.origins(v) {
		switch o.kind {
		case oFresh:
			if isSelect || isSend {
				continue
			}
			acc := func(e redge) bool {
				if e.in == nil || e.in == in {
					return true
				}
				if reachesAvoiding(e.in, in, in) {
					return true
				}
				return isDeferred(in) && reachesAvoiding(in, e.in, in)
			}
			j := a.g.joined(f, v, acc)
			for _, k := range sortedKeysOf(j) {
				if strings.HasPrefix(k, "P") {
					// a parameter only reached through a slot of a local struct is fine
					if prm := prmOf(f, k); prm != nil {
						s, at := a.g.explain(j[k], 0)
						a.where(fail, at, "shared-tree", "the tree closed at %s is shared with the caller's %s (%s): once recycled, another document's nodes show up there", pos, prm.Name(), s)
					}
				} else if strings.HasPrefix(k, "R") {
					s, at := a.g.explain(j[k], 0)
					a.where(fail, at, "shared-tree", "the tree closed at %s is also returned (%s): the caller holds recycled nodes", pos, s)
				} else if a.heldIn(f, v, k) {
					a.slotShared(k, pos, fail)
				} else if k != a.slotOf(v) {
					s, at := a.g.explain(j[k], 0)
					a.where(fail, at, "shared-tree", "the tree closed at %s is also kept in %s (%s): once recycled, another document's nodes show up there", pos, k[2:], s)
				}
			}
		case oSlot:
			key := a.slotOf(o.leaf)
			a.slotShared(key, pos, fail)
			if !a.slotFilled(f, in, o) {
				fail("stale-slot", "closes the node held in %s without having put it there in this call: a second call closes a node that was already recycled", key[2:])
			}
		case oElem, oFound:
			if !a.detached(f, in, v, o) {
				fail("still-listed", "the closed node stays in the list of %s: the list then holds a node that is handed out again", valName(a.p, o.owner, 0))
			}
		case oOther:
			a.r.undecided("%s: %s: origin of closed node %s", pos, name, valName(a.p, v, 0))
		}
	}
	if !isDeferred(in) {
		if use, how := a.usedAfter(in, v); use != nil {
			bad = true
			a.r.failAlt("use-after-close", a.keys(f, what+" then use"), a.p.InstrPos(use), "uses %s after it was closed at %s: it may already belong to another document", how, pos)
		}
	} else {
		// two deferred or direct closes of one node
		eachInstr(f, func(y ssa.Instruction) {
			if y == in {
				return
			}
			for _, w := range a.releases(y) {
				if (w == v || a.m.canonOf(w) == a.m.canonOf(v)) && reachesAvoiding(in, y, in) {
					fail("use-after-close", "closed twice: deferred here and again at %s", a.p.InstrPos(y))
				}
			}
		})
	}
	if !bad {
		a.r.ok("%s: %s: %s: nothing else reaches the node", pos, name, what)
	}
}

// heldIn: the node itself is what the slot holds.
func (a *poolAn) heldIn(f *ssa.Function, v ssa.Value, key string) bool {
	for _, ref := range *v.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Val == v {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && a.g.isNodePtr(deref(fa.Type())) && a.g.slotKey(fa, fa.X.Type(), fa.Field) == key {
				return true
			}
		}
	}
	return false
}

// slotShared: what the region of a slot joins anywhere in the library, and who
// reads the slot without having filled it.
func (a *poolAn) slotShared(key, pos string, fail func(rule, msg string, args ...interface{})) {
	for _, g := range a.p.Funcs {
		if !a.p.libFunc(g) {
			continue
		}
		j := a.g.joined(g, key, nil)
		for _, k := range sortedKeysOf(j) {
			switch {
			case k == key:
			case strings.HasPrefix(k, "G:"):
				s, at := a.g.explain(j[k], 0)
				a.where(fail, at, "shared-tree", "the tree in %s, closed at %s, shares nodes with %s in %s (%s): once recycled, another document's nodes show up there", key[2:], pos, k[2:], a.p.FName(g), s)
			case strings.HasPrefix(k, "P") && token.IsExported(g.Name()) && g.Signature.Recv() != nil && !strings.HasPrefix(k, "P0"), strings.HasPrefix(k, "R") && token.IsExported(g.Name()):
				s, at := a.g.explain(j[k], 0)
				a.where(fail, at, "shared-tree", "the tree in %s, closed at %s, is shared with callers of %s (%s)", key[2:], pos, a.p.FName(g), s)
			}
		}
		eachInstr(g, func(in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || a.slotOf(u) != key {
				return
			}
			a.r.Units["slot_reads"]++
			if !a.readFilled(g, u, 0) {
				fail("stale-slot", "%s reads the node held in %s at %s without having put it there: after the close at %s it is a recycled node", a.p.FName(g), key[2:], a.p.InstrPos(u), pos)
			}
		})
	}
}

// readFilled: the slot was filled in this activation or by every caller.
func (a *poolAn) readFilled(g *ssa.Function, u ssa.Instruction, d int) bool {
	if v, ok := u.(*ssa.UnOp); ok && a.slotFilled(g, u, origin{leaf: v}) {
		return true
	}
	if d > 3 || token.IsExported(g.Name()) {
		return false
	}
	cs := a.p.Callers(g)
	return len(cs) > 0 // internal helper: its callers read or fill the slot themselves
}

func (a *poolAn) where(fail func(rule, msg string, args ...interface{}), at, rule, msg string, args ...interface{}) {
	fail(rule, msg, args...)
}

func prmOf(f *ssa.Function, k string) ssa.Value {
	var i int
	fmt.Sscanf(k, "P%d", &i)
	if i < len(f.Params) {
		return f.Params[i]
	}
	if i-len(f.Params) < len(f.FreeVars) {
		return f.FreeVars[i-len(f.Params)]
	}
	return nil
}

func sortedKeysOf(m map[string][]redge) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// slotOf: the struct field a value was loaded from.
func (a *poolAn) slotOf(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return a.g.slotKey(fa, fa.X.Type(), fa.Field)
		}
	}
	return ""
}

// slotFilled: before the close the function stored a new node in the slot, or
// made the object that holds it.
func (a *poolAn) slotFilled(f *ssa.Function, in ssa.Instruction, o origin) bool {
	fa := o.leaf.(*ssa.UnOp).X.(*ssa.FieldAddr)
	if c, ok := fa.X.(*ssa.Call); ok {
		for _, g := range a.p.Callees(&c.Call) {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					for _, v := range retValues(ret, 0) {
						if _, ok := v.(*ssa.Alloc); ok {
							return true
						}
					}
				}
			}
		}
	}
	if _, ok := fa.X.(*ssa.Alloc); ok {
		return true
	}
	found := false
	eachInstr(f, func(x ssa.Instruction) {
		if s, ok := x.(*ssa.Store); ok && dominatesInstr(s, in) {
			if sa, ok := s.Addr.(*ssa.FieldAddr); ok && sa.Field == fa.Field && (sa.X == fa.X || a.m.canonOf(sa.X) == a.m.canonOf(fa.X)) {
				found = true
			}
		}
		if c, ok := x.(*ssa.Call); ok && dominatesInstr(c, in) && !found {
			// a helper of the same object that fills the slot
			args := callArgs(&c.Call)
			for _, g := range a.p.Callees(&c.Call) {
				for i, q := range args {
					if q != fa.X || i >= len(g.Params) {
						continue
					}
					eachInstr(g, func(y ssa.Instruction) {
						if s, ok := y.(*ssa.Store); ok {
							if sa, ok := s.Addr.(*ssa.FieldAddr); ok && sa.Field == fa.Field && sa.X == g.Params[i] {
								found = true
							}
						}
					})
				}
			}
		}
	})
	return found
}

func (a *poolAn) sameObj(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	cx, cy := a.m.canonOf(x), a.m.canonOf(y)
	return cx == cy || a.m.sameAddr(x, y, 0) || a.m.samePtr(x, y, 0)
}

// detached: on every path the node closed at in leaves its owner's list.
func (a *poolAn) detached(f *ssa.Function, in ssa.Instruction, v ssa.Value, o origin) bool {
	// the list is local: nobody sees it afterwards
	if j := a.g.joined(f, o.owner, nil); len(j) == 0 {
		if _, isPrm := o.owner.(*ssa.Parameter); !isPrm {
			return true
		}
	}
	var after []ssa.Instruction
	before := false
	eachInstr(f, func(x ssa.Instruction) {
		switch x := x.(type) {
		case *ssa.Store:
			if !a.g.isNodeList(x.Val.Type()) {
				return
			}
			if !a.sameObj(a.owner(x.Addr), o.owner) {
				return
			}
			if l, hi, lo := splice(x.Val); l != nil {
				if !a.dropsItem(l, hi, lo, v) {
					return
				}
			} else if a.isWhole(x.Val, o.owner, map[ssa.Value]bool{}) {
				return
			}
			if dominatesInstr(x, in) {
				before = true
			}
			after = append(after, x)
		case ssa.CallInstruction:
			args := callArgs(x.Common())
			for _, g := range a.p.Callees(x.Common()) {
				for i, ls := range a.drops[g] {
					for _, l := range ls {
						if i < len(args) && l < len(args) && (args[i] == v || a.m.canonOf(args[i]) == a.m.canonOf(v)) && a.sameObj(a.owner(args[l]), o.owner) {
							if dominatesInstr(x, in) {
								before = true
							}
							after = append(after, x)
						}
					}
				}
				// the owner is closed too, and forgets its list
				for i := range a.closes[g] {
					if i < len(args) && a.sameObj(args[i], o.owner) {
						after = append(after, x)
					}
				}
				// a helper that empties the owner's list
				for i, q := range args {
					if i < len(g.Params) && (a.sameObj(a.owner(q), o.owner) || a.sameObj(q, o.owner)) && a.empties(g, i) {
						after = append(after, x)
					}
				}
			}
		}
	})
	if before {
		return true
	}
	if isDeferred(in) {
		for _, x := range after {
			if dominatesInstr(in, x) || dominatesInstr(x, in) {
				return true
			}
		}
		return false
	}
	return len(after) > 0 && allPathsHit(in, after)
}

// empties: the function resets the list of parameter i on every path.
func (a *poolAn) empties(g *ssa.Function, i int) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	ok := false
	eachInstr(g, func(x ssa.Instruction) {
		if s, is := x.(*ssa.Store); is && a.g.isNodeList(s.Val.Type()) && isNilConst(s.Val) && a.ownerParam(s.Addr) == i {
			all := true
			for _, b := range g.Blocks {
				if _, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ret && !s.Block().Dominates(b) {
					all = false
				}
			}
			ok = ok || all
		}
	})
	return ok
}

// dropsItem: append(L[:hi], L[lo:]...) leaves out the position v was read from.
func (a *poolAn) dropsItem(list, hi, lo, v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return true
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return true
	}
	ti, ki := a.x.lin(ia.Index)
	th, kh := a.x.lin(hi)
	tl, kl := a.x.lin(lo)
	if ti == th && ti == tl {
		return kh <= ki && ki < kl
	}
	if c, ok := ia.Index.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return true
	}
	return false
}

// isWhole: the value is the owner's unchanged list.
func (a *poolAn) isWhole(v ssa.Value, owner ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.ChangeType:
		return a.isWhole(x.X, owner, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.isWhole(e, owner, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		return x.Op == token.MUL && a.sameObj(a.owner(x.X), owner)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return a.isWhole(x.X, owner, seen)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.isWhole(x.Call.Args[0], owner, seen)
		}
	}
	return false
}

// allPathsHit: every path from after in to the function's end passes a hit.
func allPathsHit(in ssa.Instruction, hits []ssa.Instruction) bool {
	hit := map[ssa.Instruction]bool{}
	for _, h := range hits {
		hit[h] = true
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{in.Block(), instrIndex(in) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		done := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			if hit[w.b.Instrs[i]] {
				done = true
				break
			}
			if _, ok := w.b.Instrs[i].(*ssa.Return); ok {
				return false
			}
		}
		if done {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return true
}

// usedAfter finds a use of the closed node, or of children read from it,
// reachable from the close without the node being obtained anew.
func (a *poolAn) usedAfter(in ssa.Instruction, v ssa.Value) (ssa.Instruction, string) {
	alias := map[ssa.Value]string{}
	nm := valName(a.p, v, 0)
	var grow func(x ssa.Value, how string)
	kept := func(fa *ssa.FieldAddr) bool { // children detached before the close
		for _, b := range in.Parent().Blocks {
			for _, y := range b.Instrs {
				if s, ok := y.(*ssa.Store); ok {
					if sa, ok := s.Addr.(*ssa.FieldAddr); ok && sa.Field == fa.Field && sa.X == fa.X && dominatesInstr(s, in) {
						return true
					}
				}
			}
		}
		return false
	}
	grow = func(x ssa.Value, how string) {
		if _, ok := alias[x]; ok || x == nil {
			return
		}
		if _, ok := x.(*ssa.Const); ok {
			return
		}
		alias[x] = how
		if ct, ok := x.(*ssa.ChangeType); ok {
			grow(ct.X, how)
		}
		if x.Referrers() == nil {
			return
		}
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.ChangeType:
				grow(y, how)
			case *ssa.FieldAddr:
				if y.X != x || !a.g.bearing(y.Type()) || !a.g.isNode(deref(x.Type())) {
					continue
				}
				if !a.g.isNodeList(deref(y.Type())) || kept(y) {
					continue
				}
				for _, r2 := range *y.Referrers() {
					if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
						grow(u, "a child of "+nm)
					}
				}
			case *ssa.Slice:
				grow(y, how)
			case *ssa.IndexAddr:
				if y.X == x {
					for _, r2 := range *y.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
							grow(u, how)
						}
					}
				}
			}
		}
	}
	grow(v, nm)
	if c := a.m.canonOf(v); c != v {
		if _, ok := c.(*ssa.Alloc); !ok {
			grow(c, nm)
		}
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{in.Block(), instrIndex(in) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			y := w.b.Instrs[i]
			if y == in {
				stop = true
				break
			}
			if val, ok := y.(ssa.Value); ok {
				if val == v {
					stop = true
					break
				}
				if _, ok := alias[val]; ok {
					if _, phi := y.(*ssa.Phi); !phi {
						// read from the node: reading again after the close
						if ld, is := y.(*ssa.UnOp); !is || ld.Op != token.MUL {
							continue
						}
						if o := a.origins(val); len(o) == 1 && o[0].kind != oSlot {
							continue
						}
						stop = true
						break
					}
				}
			}
			switch y := y.(type) {
			case *ssa.DebugRef, *ssa.Phi:
				continue
			case *ssa.BinOp:
				if y.Op == token.EQL || y.Op == token.NEQ {
					continue // comparing the address is no use of the node
				}
			}
			for _, op := range y.Operands(nil) {
				if *op == nil {
					continue
				}
				if how, ok := alias[*op]; ok {
					return y, how
				}
			}
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			// values entering through phis
			for _, x := range s.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range s.Preds {
					if pr == w.b && ssa.Value(ph) != v {
						if how, ok := alias[ph.Edges[k]]; ok && ph.Edges[k] == v {
							grow(ph, how)
						}
					}
				}
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return nil, ""
}
