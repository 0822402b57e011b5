package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: listing the paths of a document lists every value it holds.

func init() { register("C28", checkListing) }

func checkListing(p *Prog, r *Result) {
	r.Explain = "In every function that returns a list of paths and values with an error: rule each: every iteration over documents' nodes, fields, array items, map entries, nodes and attributes - for nodes each part: attributes, children, model, text - puts the item, or the list another such function makes of it, into the list, except on branches that establish that it is empty, nil, tagged as omitted or RDF syntax, and no such loop is left early with success; rule written: the same for every path from the entry to success and each value given. In the functions that add to a list a non-empty text is always stored (rule written), and in those that compute a list from lists an entry is left out only where its path or value equals that of another one, or where it was found in the other list (rule selected, at most one loop of the latter kind). All rules are path queries with item flow on SSA."
	a := &emitAn{flowAn: newFlow(p, r), done: map[flowKey]bool{}, scope: map[*ssa.Function]bool{}, skips: map[string]bool{}, fieldOk: map[*ssa.BasicBlock]map[int64]bool{}}
	a.out, a.listing = true, true
	a.doc, a.enc = p.Named("xmp", "Document"), p.Named("xmp", "Encoder")
	list := p.Named("xmp", "PathValueList")
	if a.doc == nil || a.enc == nil || a.node == nil || a.attr == nil || list == nil {
		r.undecided("types Document, Encoder, Node, Attr and PathValueList not found")
		r.need("listers", 3)
		return
	}
	lists := func(f *ssa.Function) bool {
		return a.convert(f) && namedOf(f.Signature.Results().At(0).Type()) == list && len(f.Blocks) > 0
	}
	a.adds = func(g *ssa.Function) bool {
		sig := g.Signature
		return sig.Recv() != nil && sig.Results().Len() == 0 && isPtr(sig.Recv().Type()) && namedOf(deref(sig.Recv().Type())) == list
	}
	type ob struct {
		f *ssa.Function
		i int
	}
	var work []ob
	push := func(f *ssa.Function, i int) {
		k := flowKey{f, i}
		if a.done[k] || !lists(f) {
			return
		}
		a.done[k] = true
		work = append(work, ob{f, i})
	}
	for _, f := range p.LibFuncs() {
		if !lists(f) {
			continue
		}
		r.Units["listers"]++
		for i, prm := range f.Params {
			if a.isNode(prm.Type()) || a.isValue(prm.Type()) || namedOf(prm.Type()) != nil && namedOf(prm.Type()).Obj().Name() == "Model" {
				push(f, i)
			}
		}
		a.loopRules(f, push)
	}
	for _, f := range p.LibFuncs() {
		sig := f.Signature
		if sig.Recv() == nil || len(f.Blocks) == 0 || namedOf(deref(sig.Recv().Type())) != list {
			continue
		}
		switch {
		case a.adds(f):
			// adds to a list
			for i, prm := range f.Params[1:] {
				if isStringType(prm.Type()) && namedOf(prm.Type()) == nil {
					r.Units["adders"]++
					a.paramRule(f, i+1, func(f *ssa.Function, i int) {})
				}
			}
		case sig.Results().Len() == 1 && namedOf(sig.Results().At(0).Type()) == list:
			a.selects(f)
		}
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		a.paramRule(o.f, o.i, push)
	}
	r.need("listers", 3)
	r.need("values", 3)
	r.need("loops", 5)
	r.need("adders", 2)
	r.need("selections", 2)
}

// listedBy: the list is what another function makes of the value.
func (a *emitAn) listedBy(v ssa.Value, t taint) bool {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || !a.p.InModule(c.Call.StaticCallee()) {
		return false
	}
	for _, arg := range callArgs(&c.Call) {
		if a.on(t, arg)&tAny != 0 {
			return true
		}
	}
	return false
}

// selects: a list computed from lists leaves out only entries that are equal
// to another one, or that are found in the other list when the entries of that
// one are all looked at.
func (a *emitAn) selects(f *ssa.Function) {
	weak, loops := 0, 0
	for _, l := range a.itemLoops(f) {
		l := l
		if !a.loopHands(l) {
			continue
		}
		loops++
		a.r.Units["selections"]++
		t := a.taint(f, l.seeds)
		run := func(found bool) ssa.Instruction {
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool { return l.in[in.Block()] && a.hands(in, t) }
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if b == l.head || b == l.exit {
					return 2, ""
				}
				return 0, ""
			}
			q.bad = func(in ssa.Instruction, s pstate) bool {
				_, ret := in.(*ssa.Return)
				return ret
			}
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
				c, tr := literal(cond, truth, s)
				b, ok := c.(*ssa.BinOp)
				if !ok {
					return false
				}
				if found && nilTest(c, !tr, s, func(v ssa.Value) bool {
					call, ok := s.resolve(v).(*ssa.Call)
					if !ok {
						return false
					}
					for _, arg := range callArgs(&call.Call) {
						if t[arg]&tAny != 0 {
							return true
						}
					}
					return false
				}) {
					return true
				}
				if b.Op != token.EQL && b.Op != token.NEQ || tr != (b.Op == token.EQL) || !isStringType(b.X.Type()) {
					return false
				}
				_, k1 := strConst(b.X)
				_, k2 := strConst(b.Y)
				return !k1 && !k2 && (t[b.X]&tAny != 0 || t[b.Y]&tAny != 0)
			}
			bad := q.run(l.body, nil, newPstate())
			if q.over {
				a.r.undecided("%s: too many paths", a.p.FName(f))
			}
			return bad
		}
		if run(false) == nil {
			a.r.ok("selected: %s (%s): only entries equal to another one are left out", a.p.FName(f), a.p.InstrPos(a.loopPos(l)))
			continue
		}
		weak++
		if bad := run(true); bad != nil || weak == loops && loops > 1 || weak > 1 {
			a.r.failAlt("selected", a.keys(f, "entries of "+valName(a.p, l.list, 0)), a.p.InstrPos(a.loopPos(l)), "%s: an entry of %s can be left out although no entry is known to be equal to it", a.p.FName(f), valName(a.p, l.list, 0))
			continue
		}
		a.r.ok("selected: %s (%s): only entries found in the other list are left out", a.p.FName(f), a.p.InstrPos(a.loopPos(l)))
	}
	if weak == loops && loops > 0 {
		a.r.failAlt("selected", a.keys(f, "changes"), a.p.Pos(f.Pos()), "%s: no loop compares the entries themselves", a.p.FName(f))
	}
}

// listParts: the parts of the nodes in a list that have paths.
func (a *emitAn) listParts(l itemLoop) []part {
	attrs, nodes := part{"the attributes", tAttrs, -1}, part{"the children", tNodes, -1}
	model, text := part{"the model", tModel, -1}, part{"the text", tValue, -1}
	if n := namedOf(l.list.Type()); n != nil && n.Obj().Name() == "ExtensionArray" {
		// attributes and text are distributed to the children on reading
		return []part{nodes, model}
	}
	u, ok := strip(l.list).(*ssa.UnOp)
	if !ok {
		return []part{attrs, nodes, text}
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return []part{attrs, nodes, text}
	}
	switch n := namedOf(deref(fa.X.Type())); {
	case n == a.doc:
		return []part{attrs, nodes, model}
	case n != nil && n.Obj().Name() == "Extension":
		return []part{attrs, nodes, model, text}
	}
	return []part{attrs, nodes, text}
}

// syntaxOnly: on this branch a name is one of RDF syntax, not of a property.
func (a *emitAn) syntaxOnly(cond ssa.Value, truth bool, d int) bool {
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || truth != (x.Op == token.EQL) {
			return false
		}
		for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := strConst(pr[1])
			if ok && (k == "xmlns" && nameField(pr[0], "Space") || (k == "rdf:parseType" || k == "rdf:type" || k == "xml:lang") && nameField(pr[0], "Local")) {
				return true
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || d > 2 || !a.p.InModule(g) || len(g.Blocks) == 0 || !isPredicate(g) {
			return false
		}
		name := false
		for _, prm := range g.Params {
			name = name || strings.HasSuffix(prm.Type().String(), "xml.Name")
		}
		if !name {
			return false
		}
		q := &pathQ{f: g, m: a.m}
		q.prune = func(cond ssa.Value, tr bool, s pstate) bool {
			c, tr := literal(cond, tr, s)
			return a.syntaxOnly(c, tr, d+1)
		}
		q.bad = func(in ssa.Instruction, s pstate) bool {
			ret, ok := in.(*ssa.Return)
			if !ok {
				return false
			}
			c, tr := literal(s.resolve(ret.Results[0]), truth, s)
			if k, ok := c.(*ssa.Const); ok && k.Value != nil {
				return (k.Value.String() == "true") == tr
			}
			return !a.syntaxOnly(c, tr, d+1)
		}
		return q.run(g.Blocks[0], nil, newPstate()) == nil && !q.over
	}
	return false
}

// nameField: v is the field of a name.
func nameField(v ssa.Value, field string) bool {
	switch x := strip(v).(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL && strings.HasSuffix(deref(fa.X.Type()).String(), "xml.Name") && structField(deref(fa.X.Type()), fa.Field).Name() == field
	case *ssa.Field:
		return strings.HasSuffix(x.X.Type().String(), "xml.Name") && structField(x.X.Type(), x.Field).Name() == field
	}
	return false
}
