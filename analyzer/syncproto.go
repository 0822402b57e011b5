package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: the models of a document are synchronised with it before it is written
// and after it is read.

func init() { register("C14", checkSync) }

const (
	kTo    = "SyncToXMP"
	kFrom  = "SyncFromXMP"
	kModel = "SyncModel"
)

type syncLoop struct {
	loop listLoop
	doc  ssa.Value
	site ssa.Instruction // call that synchronises (or is handed) the model
	via  ssa.Value       // nil: the method itself; else the function value called
}

type syncAn struct {
	p     *Prog
	r     *Result
	x     *prover
	m     *memAn
	eff   *effects
	doc   *types.Named
	node  *types.Named
	model *types.Named
	kinds map[*types.Func]string
	loops map[*ssa.Function][]syncLoop
	ens   map[string]int
	dirty int // field numbers
	nodes int
	modFd int
}

func checkSync(p *Prog, r *Result) {
	r.Explain = "Rule all: every function that synchronises the models of a document walks all nodes of the document, synchronises each node that has a model, goes on to the next after success, and stops only with an error. Rule clean: the dirty mark is cleared only where every model was synchronised successfully. Rule out: every walk that hands the models of a document to an encoder or lister happens only after the models were synchronised into the document. Rule in: every replacement of a document's nodes by decoded ones is followed by synchronising the models from it before success is reported. Rule dirty: every path that attached a model to a document, removed a node or successfully changed a model through the document marks the document dirty. Rule forward: a model made of sub-models passes each synchronisation on to every sub-model that is present. All rules are path queries on SSA with nil and error facts."
	a := &syncAn{p: p, r: r, x: p.Prover(), eff: p.Effects(), kinds: map[*types.Func]string{}, loops: map[*ssa.Function][]syncLoop{}, ens: map[string]int{}, dirty: -1, nodes: -1, modFd: -1}
	a.m = a.x.m
	a.doc, a.node, a.model = p.Named("xmp", "Document"), p.Named("xmp", "Node"), p.Named("xmp", "Model")
	if a.doc == nil || a.node == nil || a.model == nil {
		r.undecided("types Document, Node and Model not found")
		r.need("drivers", 3)
		return
	}
	iface := a.model.Underlying().(*types.Interface)
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		switch m.Name() {
		case kTo, kFrom, kModel:
			a.kinds[m] = m.Name()
		}
	}
	ds := a.doc.Underlying().(*types.Struct)
	for i := 0; i < ds.NumFields(); i++ {
		f := ds.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && (a.dirty < 0 || strings.Contains(strings.ToLower(f.Name()), "dirty")) {
			a.dirty = i
		}
		if sl, ok := f.Type().Underlying().(*types.Slice); ok && a.nodes < 0 {
			if namedOf(sl.Elem()) == a.node {
				a.nodes = i
			}
		}
	}
	ns := a.node.Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if types.Identical(ns.Field(i).Type(), a.model) {
			a.modFd = i
		}
	}
	a.findLoops()
	a.checkLoops()
	a.checkClean()
	a.checkOut()
	a.checkIn()
	a.checkDirty()
	a.checkForward()
	r.need("writers", 2)
	r.need("loaders", 1)
	r.need("changes", 3)
}

func (a *syncAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	return out
}

// docOf: list is the node list of which document; nil if it is not one.
func (a *syncAn) docOfNodes(v ssa.Value, d int) ssa.Value {
	if d > 4 {
		return nil
	}
	switch x := a.m.canonOf(v).(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && namedOf(deref(fa.X.Type())) == a.doc && fa.Field == a.nodes {
			return a.dv(fa.X)
		}
	case *ssa.Field:
		if namedOf(x.X.Type()) == a.doc && x.Field == a.nodes {
			return a.dv(x.X)
		}
	case *ssa.Call:
		// a getter
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(g.Params) == 0 {
			return nil
		}
		var res ssa.Value
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			dv := a.docOfNodes(ret.Results[0], d+1)
			i := prmIndex(g, dv)
			if dv == nil || i < 0 {
				return nil
			}
			res = a.dv(x.Call.Args[i])
		}
		return res
	}
	return nil
}

// dv: the document v stands for; captured variables are looked through.
func (a *syncAn) dv(v ssa.Value) ssa.Value {
	for n := 0; n < 8; n++ {
		v = a.m.canonOf(v)
		var cell ssa.Value
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			cell = u.X
		} else {
			return v
		}
		for {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			f := fv.Parent()
			i := prmIndex(f, fv) - len(f.Params)
			cell = nil
			eachInstr(f.Parent(), func(in ssa.Instruction) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					cell = mc.Bindings[i]
				}
			})
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok {
			return v
		}
		st, _ := storesTo(al)
		if len(st) != 1 {
			return v
		}
		v = st[0].Val
	}
	return v
}

// element: v is the item at position idx of list.
func (a *syncAn) element(v ssa.Value) (list, idx ssa.Value) {
	u, ok := a.m.canonOf(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil, nil
	}
	return ia.X, ia.Index
}

// modelOf: v is the model of which node.
func (a *syncAn) modelOf(v ssa.Value) ssa.Value {
	u, ok := a.m.canonOf(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || namedOf(deref(fa.X.Type())) != a.node || fa.Field != a.modFd {
		return nil
	}
	return fa.X
}

// findLoops: every walk over the nodes of a document in which the item's
// model is passed to something.
func (a *syncAn) findLoops() {
	for _, f := range a.p.Funcs {
		if !a.p.libFunc(f) {
			continue
		}
		var loops []listLoop
		got := false
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			for _, mv := range callArgs(c) {
				n := a.modelOf(underIface(mv))
				if n == nil {
					// the node itself, handed to something that synchronises its model
					if namedOf(deref(mv.Type())) != a.node || c.IsInvoke() || c.StaticCallee() != nil && a.kindOfCall(in) == "" {
						continue
					}
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					n = mv
				}
				list, idx := a.element(n)
				if list == nil {
					continue
				}
				dv := a.docOfNodes(list, 0)
				if dv == nil {
					continue
				}
				if !got {
					loops = countedLoops(a.x, f)
					got = true
				}
				sl := syncLoop{doc: dv, site: in}
				ti, ki := a.x.lin(idx)
				for _, lp := range loops {
					tl, kl := a.x.lin(lp.idx)
					if tl == ti && kl == ki && lp.in[in.Block()] {
						sl.loop = lp
					}
				}
				if !c.IsInvoke() && c.StaticCallee() == nil {
					sl.via = c.Value
				}
				a.loops[f] = append(a.loops[f], sl)
				break
			}
		})
	}
}

// underIface looks through conversions to an interface.
func underIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Call:
			if pkg, name := extCallee(&x.Call); pkg == "reflect" && name == "ValueOf" && len(x.Call.Args) == 1 {
				v = x.Call.Args[0]
				continue
			}
			return v
		default:
			return v
		}
	}
}

// kindsOf: what the call at the site of a loop synchronises.
func (a *syncAn) kindOfCall(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	c := ci.Common()
	if c.IsInvoke() {
		for m, k := range a.kinds {
			if c.Method == m {
				return k
			}
		}
		return ""
	}
	// a helper that synchronises the model it is given
	if g := c.StaticCallee(); g != nil {
		for i, v := range c.Args {
			if types.Identical(v.Type(), a.model) || namedOf(deref(v.Type())) == a.node {
				if k := a.helperKind(g, i); k != "" {
					return k
				}
			}
		}
	}
	return ""
}

// helperKind: g synchronises the model (or the model of the node) that is its
// parameter i on every path that reports success.
func (a *syncAn) helperKind(g *ssa.Function, i int) string {
	if g.Blocks == nil || i >= len(g.Params) {
		return ""
	}
	key := a.p.FName(g) + "#helper"
	if _, ok := a.ens[key]; ok {
		return ""
	}
	a.ens[key] = 1
	defer delete(a.ens, key)
	for _, k := range []string{kTo, kFrom, kModel} {
		any := false
		q := &pathQ{f: g, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool {
			if ci, ok := in.(ssa.CallInstruction); ok && a.kindOfCall(in) == k {
				for _, v := range callArgs(ci.Common()) {
					v = a.m.canonOf(v)
					if v == ssa.Value(g.Params[i]) {
						any = true
						return true
					}
					if n := a.modelOf(v); n != nil && a.m.canonOf(n) == ssa.Value(g.Params[i]) {
						any = true
						return true
					}
				}
			}
			return false
		}
		q.bad = q.okReturn
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			return nilTest(cond, truth, s, func(v ssa.Value) bool {
				if a.m.canonOf(v) == ssa.Value(g.Params[i]) {
					return true
				}
				n := a.modelOf(v)
				return n != nil && a.m.canonOf(n) == ssa.Value(g.Params[i])
			})
		}
		if bad := q.run(g.Blocks[0], nil, newPstate()); bad == nil && any && !q.over {
			return k
		}
	}
	return ""
}

// nilTest: cond == truth says that a value accepted by is is nil.
func nilTest(cond ssa.Value, truth bool, s pstate, is func(v ssa.Value) bool) bool {
	cond = s.resolve(cond)
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return nilTest(u.X, !truth, s, is)
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return false
	}
	x, y := bo.X, bo.Y
	if isNilConst(x) {
		x, y = y, x
	}
	return isNilConst(y) && truth == (bo.Op == token.EQL) && is(x)
}

// siteKind: the kind of synchronisation a loop performs; via is the function
// value bound by the caller when the loop calls one of its parameters.
func (a *syncAn) bodyKind(fn ssa.Value) string {
	var g *ssa.Function
	switch x := fn.(type) {
	case *ssa.MakeClosure:
		g, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		g = x
	}
	if g == nil {
		return ""
	}
	// method expressions and bound wrappers
	if g.Synthetic != "" {
		k := ""
		eachInstr(g, func(in ssa.Instruction) {
			if kk := a.kindOfCall(in); kk != "" {
				k = kk
			}
		})
		return k
	}
	for i, prm := range g.Params {
		if types.Identical(prm.Type(), a.model) || namedOf(deref(prm.Type())) == a.node {
			if k := a.helperKind(g, i); k != "" {
				return k
			}
		}
	}
	return ""
}

// syncs: in synchronises document models with kind k; which document.
func (a *syncAn) syncs(in ssa.Instruction, k string) (ssa.Value, bool) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	if _, ok := in.(*ssa.Go); ok {
		return nil, false
	}
	c := ci.Common()
	g := c.StaticCallee()
	if g == nil || g.Blocks == nil || !a.p.InModule(g) {
		return nil, false
	}
	if i := a.ensures(g, k); i >= 0 && i < len(c.Args) {
		return a.dv(c.Args[i]), true
	}
	// a walk that calls the function it is given
	for _, sl := range a.loops[g] {
		if sl.via == nil || sl.loop.head == nil {
			continue
		}
		j := prmIndex(g, a.m.canonOf(sl.via))
		i := prmIndex(g, sl.doc)
		if j < 0 || i < 0 || a.bodyKind(c.Args[j]) != k {
			continue
		}
		if a.allPathsSync(g, k, sl.doc, func(l syncLoop) bool { return l.via != nil && prmIndex(g, a.m.canonOf(l.via)) == j }) {
			return a.dv(c.Args[i]), true
		}
	}
	return nil, false
}

// ensures: parameter of g whose document has its models synchronised whenever
// g reports success; -1: none.
func (a *syncAn) ensures(g *ssa.Function, k string) int {
	key := a.p.FName(g) + "#" + k
	if v, ok := a.ens[key]; ok {
		return v
	}
	a.ens[key] = -1
	for i, prm := range g.Params {
		if namedOf(deref(prm.Type())) != a.doc {
			continue
		}
		if a.allPathsSync(g, k, prm, func(l syncLoop) bool { return a.kindOfCall(l.site) == k }) {
			a.ens[key] = i
			return i
		}
	}
	return -1
}

func (a *syncAn) allPathsSync(g *ssa.Function, k string, doc ssa.Value, own func(l syncLoop) bool) bool {
	any := false
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range a.loops[g] {
		if l.loop.head != nil && l.doc == doc && own(l) {
			heads[l.loop.head] = true
		}
	}
	q := &pathQ{f: g, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if heads[in.Block()] {
			any = true
			return true
		}
		if d, ok := a.syncs(in, k); ok && d == doc {
			any = true
			return true
		}
		return false
	}
	q.bad = q.okReturn
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool { return a.excused(cond, truth, s, k) }
	return q.run(g.Blocks[0], nil, newPstate()) == nil && any && !q.over
}

// excused: the document is missing, or (when writing) not dirty.
func (a *syncAn) excused(cond ssa.Value, truth bool, s pstate, k string) bool {
	if nilTest(cond, truth, s, func(v ssa.Value) bool { return namedOf(deref(v.Type())) == a.doc }) {
		return true
	}
	cond = s.resolve(cond)
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return a.excused(u.X, !truth, s, k)
	}
	return k == kTo && !truth && a.isDirtyRead(cond)
}

func (a *syncAn) isDirtyRead(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL && a.isField(fa, a.dirty)
	case *ssa.Field:
		return namedOf(x.X.Type()) == a.doc && x.Field == a.dirty
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(g.Blocks) != 1 {
			return false
		}
		ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		return ok && len(ret.Results) == 1 && a.isDirtyRead(ret.Results[0])
	}
	return false
}

func (a *syncAn) isField(fa *ssa.FieldAddr, i int) bool {
	return namedOf(deref(fa.X.Type())) == a.doc && fa.Field == i
}

func (a *syncAn) checkLoops() {
	for _, f := range a.p.Funcs {
		for _, l := range a.loops[f] {
			k := a.kindOfCall(l.site)
			if k == "" && l.via != nil {
				// called with which functions?
				j := prmIndex(f, a.m.canonOf(l.via))
				for _, ci := range a.p.Callers(f) {
					if args := callArgs(ci.Common()); j >= 0 && j < len(args) {
						if kk := a.bodyKind(args[j]); kk != "" {
							k = kk
						}
					}
				}
			}
			if k == "" {
				continue
			}
			where := a.p.InstrPos(l.site)
			keys := a.keys(f, "walk of the models with "+k)
			if l.loop.head == nil {
				li := &listAn{p: a.p, r: a.r, x: a.x, m: a.m, f: f}
				if li.countsDown() {
					a.r.undecided("%s: walk in an unrecognised order", a.p.FName(f))
					continue
				}
				a.r.failAlt("all", keys, where, "%s does not synchronise every node of the document: the walk does not cover the whole node list", a.p.FName(f))
				continue
			}
			if a.loopDoc(l) == nil || a.loopDoc(l) != l.doc {
				a.r.failAlt("all", keys, where, "%s walks as many nodes as another list has", a.p.FName(f))
				continue
			}
			in := l.loop.in
			isModelOfItem := func(v ssa.Value) bool {
				n := a.modelOf(v)
				if n == nil {
					return false
				}
				list, _ := a.element(n)
				return list != nil && a.docOfNodes(list, 0) == l.doc
			}
			isItem := func(v ssa.Value) bool {
				if isModelOfItem(v) {
					return true
				}
				list, _ := a.element(v)
				return list != nil && a.docOfNodes(list, 0) == l.doc
			}
			// each item with a model is synchronised
			skip := false
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool { return in == l.site }
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool { return nilTest(cond, truth, s, isItem) }
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if b == l.loop.head {
					return 2, ""
				}
				return 0, ""
			}
			q.bad = q.okReturn
			for _, sc := range l.loop.head.Succs {
				if in[sc] {
					if bad := q.run(sc, nil, newPstate()); bad != nil {
						skip = true
						a.r.failAlt("all", keys, where, "%s can pass over a node that has a model (path to %s)", a.p.FName(f), a.p.InstrPos(bad))
					}
				}
			}
			if skip {
				continue
			}
			// success goes on with the next item
			ci := l.site.(ssa.CallInstruction)
			ev := resultVal(ci, ci.Common().Signature().Results().Len()-1)
			st := newPstate()
			if ev != nil && isErrorType(ev.Type()) {
				st.fact[a.m.canonOf(ev)] = true
			}
			q2 := &pathQ{f: f, m: a.m}
			q2.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if b == l.loop.head {
					return 1, ""
				}
				return 0, ""
			}
			q2.bad = func(in ssa.Instruction, s pstate) bool { _, ok := in.(*ssa.Return); return ok }
			if bad := q2.run(nil, l.site, st); bad != nil {
				a.r.failAlt("all", keys, where, "%s stops after the first model: a path from the successful synchronisation to %s leaves the remaining nodes out", a.p.FName(f), a.p.InstrPos(bad))
				continue
			}
			// the walk ends early only with an error
			early := false
			for b := range in {
				for _, sc := range b.Succs {
					if in[sc] || b == l.loop.head {
						continue
					}
					q3 := &pathQ{f: f, m: a.m}
					q3.bad = q3.okReturn
					if ev != nil && b.Dominates(b) && l.site.Block().Dominates(b) {
						// only reached with the error of this item: decided by q2 and C08
						continue
					}
					if bad := q3.run(sc, nil, newPstate()); bad != nil {
						early = true
						a.r.failAlt("all", keys, where, "%s can end the walk early and report success at %s", a.p.FName(f), a.p.InstrPos(bad))
					}
				}
			}
			if early {
				continue
			}
			a.r.ok("%s synchronises every node's model with %s", a.p.FName(f), k)
		}
	}
	for _, k := range []string{kTo, kFrom, kModel} {
		has := false
		for _, f := range a.p.Funcs {
			if a.p.libFunc(f) && f.Signature.Recv() != nil && namedOf(deref(f.Signature.Recv().Type())) == a.doc && a.ensures(f, k) >= 0 {
				if !has {
					a.r.Units["drivers"]++
				}
				has = true
				a.r.ok("%s: every success path of %s has synchronised the models", k, a.p.FName(f))
			}
		}
		if !has {
			a.r.failAlt("all", []string{"Document: no operation with " + k}, "xmp/document.go", "no operation of Document calls %s for all its models on every path that reports success", k)
		}
	}
}

func (a *syncAn) loopDoc(l syncLoop) ssa.Value { return a.docOfNodes(l.loop.list, 0) }

// events lifted to callers: a helper that does in to its document parameter is
// looked at in each of its callers when it does not settle the matter itself.
type syncEvent struct {
	in  ssa.Instruction
	doc ssa.Value
}

func (a *syncAn) lift(ev syncEvent, settled func(ev syncEvent) bool, d int) []syncEvent {
	if settled(ev) {
		return nil
	}
	f := ev.in.Parent()
	if f.Parent() != nil && ev.doc.Parent() != f {
		// a closure: what matters is where its parent runs it or hands it on
		var out []syncEvent
		uses := 0
		eachInstr(f.Parent(), func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, v := range append([]ssa.Value{ci.Common().Value}, ci.Common().Args...) {
				if mc, ok := a.m.canonOf(v).(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					uses++
					out = append(out, a.lift(syncEvent{in, ev.doc}, settled, d+1)...)
				}
			}
		})
		if uses == 0 {
			return []syncEvent{ev}
		}
		return out
	}
	i := prmIndex(f, ev.doc)
	if i < 0 {
		return []syncEvent{ev}
	}
	cs := a.p.Callers(f)
	exported := f.Object() != nil && f.Object().Exported()
	if d > 3 || len(cs) == 0 || exported {
		return []syncEvent{ev}
	}
	var out []syncEvent
	for _, ci := range cs {
		args := callArgs(ci.Common())
		if i >= len(args) {
			return []syncEvent{ev}
		}
		out = append(out, a.lift(syncEvent{ci, a.dv(args[i])}, settled, d+1)...)
	}
	return out
}

func (a *syncAn) fresh(doc ssa.Value) bool {
	_, ok := doc.(*ssa.Alloc)
	return ok
}

func (a *syncAn) checkClean() {
	for _, f := range a.p.Funcs {
		if !a.p.libFunc(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !a.isField(fa, a.dirty) || isTrueConst(st.Val) {
				return
			}
			doc := a.dv(fa.X)
			if a.fresh(doc) {
				return
			}
			a.r.Units["clean_marks"]++
			settled := func(ev syncEvent) bool { return a.cleanOK(ev) }
			bad := a.lift(syncEvent{in, doc}, settled, 0)
			for _, ev := range bad {
				g := ev.in.Parent()
				a.r.failAlt("clean", a.keys(g, "clears the dirty mark"), a.p.InstrPos(ev.in), "%s marks the document clean although its models may not have been synchronised successfully", a.p.FName(g))
			}
			if len(bad) == 0 {
				a.r.ok("%s: cleared only after complete synchronisation", a.p.InstrPos(in))
			}
		})
	}
}

func isTrueConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
}

// cleanOK: every path to ev has finished synchronising the document, and no
// path on which that failed leads to ev.
func (a *syncAn) cleanOK(ev syncEvent) bool {
	if _, ok := ev.in.(*ssa.Defer); ok {
		return false
	}
	g := ev.in.Parent()
	q := &pathQ{f: g, m: a.m}
	exits := map[*ssa.BasicBlock]bool{}
	for _, l := range a.loops[g] {
		if l.loop.head != nil && l.doc == ev.doc && a.kindOfCall(l.site) == kTo {
			exits[l.loop.head] = true
		}
	}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if in == ev.in {
			return false
		}
		if exits[in.Block()] {
			return true
		}
		d, ok := a.syncs(in, kTo)
		return ok && d == ev.doc
	}
	q.bad = func(in ssa.Instruction, s pstate) bool { return in == ev.in }
	if q.run(g.Blocks[0], nil, newPstate()) != nil || q.over {
		return false
	}
	// from inside the walk, only past its head
	for _, l := range a.loops[g] {
		if l.loop.head == nil || !exits[l.loop.head] {
			continue
		}
		q := &pathQ{f: g, m: a.m}
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if b == l.loop.head {
				return 1, ""
			}
			return 0, ""
		}
		q.bad = func(in ssa.Instruction, s pstate) bool { return in == ev.in }
		for _, sc := range l.loop.head.Succs {
			if l.loop.in[sc] && q.run(sc, nil, newPstate()) != nil {
				return false
			}
		}
	}
	// after a failed call
	ok := true
	eachInstr(g, func(in ssa.Instruction) {
		d, is := a.syncs(in, kTo)
		if !is || d != ev.doc {
			return
		}
		st := newPstate()
		if e := resultVal(in.(ssa.CallInstruction), 0); e != nil && isErrorType(e.Type()) {
			st.fact[a.m.canonOf(e)] = false
		}
		q := &pathQ{f: g, m: a.m}
		q.bad = func(in ssa.Instruction, s pstate) bool { return in == ev.in }
		if q.run(nil, in, st) != nil {
			ok = false
		}
	})
	return ok
}

func (a *syncAn) checkOut() {
	for _, f := range a.p.Funcs {
		for _, l := range a.loops[f] {
			if a.kindOfCall(l.site) != "" || l.loop.head == nil || l.via != nil {
				continue
			}
			c := l.site.(ssa.CallInstruction).Common()
			if c.IsInvoke() {
				continue // a question to the model, such as Can
			}
			a.r.Units["writers"]++
			bad := a.lift(syncEvent{l.site, l.doc}, a.syncedBefore, 0)
			for _, ev := range bad {
				g := ev.in.Parent()
				a.r.failAlt("out", a.keys(g, "writes the models of a document"), a.p.InstrPos(ev.in), "%s writes the models of a document that were not synchronised into it first on every path", a.p.FName(g))
			}
			if len(bad) == 0 {
				a.r.ok("%s: the models are synchronised before they are written", a.p.FName(f))
			}
		}
	}
}

func (a *syncAn) syncedBefore(ev syncEvent) bool {
	g := ev.in.Parent()
	q := &pathQ{f: g, m: a.m}
	any := false
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if in == ev.in {
			return false
		}
		d, ok := a.syncs(in, kTo)
		if ok && d == ev.doc {
			any = true
			return true
		}
		return false
	}
	q.bad = func(in ssa.Instruction, s pstate) bool { return in == ev.in }
	return q.run(g.Blocks[0], nil, newPstate()) == nil && any && !q.over
}

func (a *syncAn) checkIn() {
	for _, f := range a.p.Funcs {
		if !a.p.libFunc(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !a.isField(fa, a.nodes) || isNilConst(st.Val) {
				return
			}
			doc := a.dv(fa.X)
			if a.ownList(st.Val, doc, 0) {
				return
			}
			if _, ok := st.Val.(*ssa.MakeSlice); ok || emptyList(st.Val) {
				return
			}
			a.r.Units["loaders"]++
			bad := a.lift(syncEvent{in, doc}, func(ev syncEvent) bool {
				g := ev.in.Parent()
				q := &pathQ{f: g, m: a.m}
				q.stop = func(in ssa.Instruction, s pstate) bool {
					d, ok := a.syncs(in, kFrom)
					return ok && d == ev.doc
				}
				q.bad = q.okReturn
				return q.run(nil, ev.in, newPstate()) == nil && !q.over
			}, 0)
			for _, ev := range bad {
				g := ev.in.Parent()
				a.r.failAlt("in", a.keys(g, "loads a document"), a.p.InstrPos(ev.in), "%s loads nodes into a document and can report success without synchronising the models from them", a.p.FName(g))
			}
			if len(bad) == 0 {
				a.r.ok("%s: loaded models are synchronised", a.p.InstrPos(in))
			}
		})
	}
}

func emptyList(v ssa.Value) bool {
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return arr.Len() == 0 || s.High != nil && isZeroConst(s.High)
			}
		}
	}
	return false
}

// ownList: v is made from the document's own node list.
func (a *syncAn) ownList(v, doc ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	if a.docOfNodes(v, 0) == doc {
		return true
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return a.ownList(x.X, doc, d+1)
	case *ssa.ChangeType:
		return a.ownList(x.X, doc, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.ownList(x.Call.Args[0], doc, d+1)
		}
		for _, arg := range x.Call.Args {
			if _, ok := arg.Type().Underlying().(*types.Slice); ok && a.ownList(arg, doc, d+1) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !a.ownList(e, doc, d+1) {
				if _, ok := e.(*ssa.Phi); !ok {
					return false
				}
			}
		}
		return true
	}
	return false
}

// marks: in marks the document dirty; which.
func (a *syncAn) marks(in ssa.Instruction, doc ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		return ok && a.isField(fa, a.dirty) && isTrueConst(x.Val) && a.dv(fa.X) == doc
	case ssa.CallInstruction:
		c := x.Common()
		g := c.StaticCallee()
		if g == nil || g.Blocks == nil || !a.p.InModule(g) {
			return false
		}
		for i, v := range c.Args {
			if a.dv(v) == doc && a.marksAlways(g, i) {
				return true
			}
		}
	}
	return false
}

func (a *syncAn) marksAlways(g *ssa.Function, i int) bool {
	key := a.p.FName(g) + "#marks"
	if v, ok := a.ens[key]; ok {
		return v == i
	}
	a.ens[key] = -1
	if i >= len(g.Params) {
		return false
	}
	q := &pathQ{f: g, m: a.m}
	any := false
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if a.marks(in, g.Params[i]) {
			any = true
			return true
		}
		return false
	}
	q.bad = q.okReturn
	if q.run(g.Blocks[0], nil, newPstate()) == nil && any && !q.over {
		a.ens[key] = i
		return true
	}
	return false
}

// checkDirty: changes of a document through its own operations.
func (a *syncAn) checkDirty() {
	for _, f := range a.p.Funcs {
		if !a.p.libFunc(f) {
			continue
		}
		var doc ssa.Value
		n := 0
		for _, prm := range f.Params {
			if namedOf(deref(prm.Type())) == a.doc && isPtr(prm.Type()) {
				if doc == nil {
					doc = prm
				}
				n++
			}
		}
		if doc == nil || !a.p.InModule(f) || f.Pkg == nil || f.Pkg.Pkg != a.doc.Obj().Pkg() {
			continue
		}
		if n > 1 && (f.Signature.Recv() == nil || namedOf(deref(f.Signature.Recv().Type())) != a.doc) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			what := ""
			st := newPstate()
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				switch {
				case namedOf(deref(fa.X.Type())) == a.node && fa.Field == a.modFd && !isNilConst(x.Val):
					what = "attaches a model"
				case a.isField(fa, a.nodes) && a.dv(fa.X) == doc && !isNilConst(x.Val):
					if list, _, _ := splice(x.Val); list != nil && a.docOfNodes(list, 0) == doc {
						what = "removes a node"
					}
				}
			case *ssa.Call:
				c := x.Common()
				what = a.changes(f, c)
				if what != "" {
					if e := resultVal(x, c.Signature().Results().Len()-1); e != nil && isErrorType(e.Type()) {
						st.fact[a.m.canonOf(e)] = true
					}
				}
			}
			if what == "" {
				return
			}
			a.r.Units["changes"]++
			ev := syncEvent{in, a.dv(doc)}
			bad := a.lift(ev, func(ev syncEvent) bool {
				s := newPstate()
				if ev.in == in {
					s = st
				}
				return a.markedAround(ev, s)
			}, 0)
			for _, e := range bad {
				g := e.in.Parent()
				a.r.failAlt("dirty", a.keys(g, what), a.p.InstrPos(e.in), "%s %s without marking the document dirty on every path, so that the next write leaves the models unsynchronised", a.p.FName(g), what)
			}
			if len(bad) == 0 {
				a.r.ok("%s: %s and marks the document dirty", a.p.InstrPos(in), what)
			}
		})
	}
}

func (a *syncAn) markedAround(ev syncEvent, st pstate) bool {
	g := ev.in.Parent()
	q := &pathQ{f: g, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool { return a.marks(in, ev.doc) }
	q.bad = func(in ssa.Instruction, s pstate) bool { _, ok := in.(*ssa.Return); return ok }
	if q.run(nil, ev.in, st) == nil && !q.over {
		return true
	}
	// marked before
	q = &pathQ{f: g, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool { return a.marks(in, ev.doc) }
	q.bad = func(in ssa.Instruction, s pstate) bool { return in == ev.in }
	return q.run(g.Blocks[0], nil, newPstate()) == nil && !q.over
}

// changes: the call alters a model or node it is given and is not itself an
// operation of a document.
func (a *syncAn) changes(f *ssa.Function, c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil || g.Blocks == nil || !a.p.InModule(g) {
		return ""
	}
	res := g.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return ""
	}
	for _, prm := range g.Params {
		if namedOf(deref(prm.Type())) == a.doc {
			return ""
		}
	}
	for i := range c.Args {
		t := g.Params[i].Type()
		if types.Identical(t, a.model) {
			if _, ok := a.eff.sum[g].mut[i]; ok {
				return "changes a model with " + g.Name()
			}
		}
		if rv := g.Signature.Recv(); i == 0 && rv != nil && isPtr(t) && namedOf(deref(t)) == a.node {
			if _, ok := a.eff.sum[g].mut[i]; ok {
				return "changes a node with " + g.Name()
			}
		}
	}
	return ""
}

func (a *syncAn) checkForward() {
	mi := a.model.Underlying().(*types.Interface)
	for _, t := range a.p.NamedTypes() {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(t), mi) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			ft := namedOf(deref(fd.Type()))
			if ft == nil || fd.Embedded() || ft == a.doc {
				continue
			}
			if tag := reflect.StructTag(st.Tag(i)).Get("xmp"); tag == "-" || tag == "" {
				continue
			}
			for _, k := range []string{kTo, kFrom, kModel} {
				sm := a.p.Method(ft, k)
				if sm == nil || !a.takesDoc(sm) {
					continue
				}
				a.r.Units["sub_models"]++
				om := a.p.Method(t, k)
				if om == nil || om.Blocks == nil {
					continue
				}
				key := a.keys(om, "sub-model "+fd.Name())
				q := &pathQ{f: om, m: a.m}
				any := false
				var reads func(v ssa.Value) bool
				reads = func(v ssa.Value) bool {
					v = a.m.canonOf(v)
					switch x := v.(type) {
					case *ssa.UnOp:
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							return fa.Field == i && namedOf(deref(fa.X.Type())) == t
						}
						return x.Op == token.MUL && reads(x.X)
					case *ssa.Field:
						return x.Field == i && namedOf(x.X.Type()) == t
					case *ssa.FieldAddr:
						return x.Field == i && namedOf(deref(x.X.Type())) == t
					case *ssa.MakeInterface:
						return reads(x.X)
					}
					return false
				}
				q.stop = func(in ssa.Instruction, s pstate) bool {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						return false
					}
					c := ci.Common()
					for j, v := range callArgs(c) {
						if !reads(s.resolve(v)) {
							continue
						}
						if c.IsInvoke() && c.Method.Name() == k {
							any = true
							return true
						}
						g := c.StaticCallee()
						if g == nil {
							continue
						}
						if a.p.unwrap(g) == sm || g == sm || a.helperKind(g, j) == k {
							any = true
							return true
						}
					}
					return false
				}
				q.bad = q.okReturn
				q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
					return nilTest(cond, truth, s, func(v ssa.Value) bool { return reads(s.resolve(v)) })
				}
				bad := q.run(om.Blocks[0], nil, newPstate())
				switch {
				case q.over:
					a.r.undecided("%s: too many paths", key[0])
				case bad == nil && any:
					a.r.ok("%s passes %s on", key[0], k)
				case !any && collective(om):
					a.r.undecided("%s: forwarded through a collection", key[0])
				default:
					a.r.failAlt("forward", key, a.p.Pos(om.Pos()), "%s can report success without synchronising its sub-model %s", a.p.FName(om), fd.Name())
				}
			}
		}
	}
}

// collective: the method walks a list of sub-models built on the spot.
func collective(f *ssa.Function) bool {
	c := false
	eachInstr(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
			switch ci.Common().Method.Name() {
			case kTo, kFrom, kModel:
				c = true
			}
		}
	})
	return c
}

func (a *syncAn) takesDoc(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 1 && namedOf(deref(s.Params().At(0).Type())) == a.doc && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type())
}
