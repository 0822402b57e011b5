package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: writing a document writes all of it.

func init() { register("C19", checkEmit) }

type emitAn struct {
	*flowAn
	doc, enc *types.Named
	done     map[flowKey]bool
	scope    map[*ssa.Function]bool
	skips    map[string]bool
	kind     int64 // the field kind under examination
	fieldOk  map[*ssa.BasicBlock]map[int64]bool
	lists    func(f *ssa.Function) // functions over lists of nodes or attributes
	listing  bool                  // values are listed by path, not encoded
}

func checkEmit(p *Prog, r *Result) {
	r.Explain = "Rule written: in every function that encodes a value (has an encoder and reports errors, or is a Marshal method), every path to success writes the value - stores it in the output, passes it to a function of which the same is required, or walks all of its parts - except where the value is empty or nil, or its field is tagged as omitted, of the other kind, or not valid for the version; for structures this is decided for each serialised field. Rule each: the same for every iteration over fields, array elements, nodes and attributes, for each part of a node (text, model, attributes, children), and no such loop is left early with success. Rule header: every successful path of a document writer uses each header field of the document. Rule kept: content of an output node is replaced only by something that contains it. Rule attached: a node created for output becomes part of it on every path to success. Rule declared: the name spaces declared for a node include those of its own name, its attributes, its model and its children. Rule texts: each part a value holds is used in the text composed for it. Rule merged: an item is left out of the output as a duplicate only where the other one is at another position and all of its fields are equal. All rules are path queries with item flow on SSA."
	a := &emitAn{flowAn: newFlow(p, r), done: map[flowKey]bool{}, scope: map[*ssa.Function]bool{}, skips: map[string]bool{}, fieldOk: map[*ssa.BasicBlock]map[int64]bool{}}
	a.out = true
	a.doc, a.enc = p.Named("xmp", "Document"), p.Named("xmp", "Encoder")
	if a.doc == nil || a.enc == nil || a.node == nil || a.attr == nil {
		r.undecided("types Document, Encoder, Node and Attr not found")
		r.need("writers", 2)
		return
	}
	a.values()
	a.header()
	a.kept()
	a.attached()
	a.declared()
	mergedAway(p, r, func(f *ssa.Function) bool { return writesOutput(p, f) }, a.keys)
	r.need("values", 20)
	r.need("loops", 5)
	r.need("writers", 2)
}

func (a *emitAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	if len(out) == 0 {
		out = []string{a.p.FName(f) + ": " + what}
	}
	return out
}

func (a *emitAn) hasEnc(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if namedOf(deref(prm.Type())) == a.enc {
			return true
		}
	}
	return false
}

func (a *emitAn) errs(f *ssa.Function) bool {
	n := f.Signature.Results().Len()
	return n > 0 && isErrorType(f.Signature.Results().At(n-1).Type())
}

// isMarshal: f is one of the methods through which values write themselves.
func isMarshal(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	switch f.Name() {
	case "MarshalXMP", "MarshalXMPAttr", "MarshalText", "MarshalXML":
		return true
	}
	return false
}

// isValue: parameters that carry the value to write.
func (a *emitAn) isValue(t types.Type) bool {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return true
	}
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

// values: rules written and each.
func (a *emitAn) values() {
	type ob struct {
		f *ssa.Function
		i int
	}
	var work []ob
	push := func(f *ssa.Function, i int) {
		k := flowKey{f, i}
		if a.done[k] || len(f.Blocks) == 0 || !a.p.InModule(f) {
			return
		}
		a.done[k] = true
		work = append(work, ob{f, i})
	}
	seen := map[*ssa.Function]bool{}
	loops := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			a.loopRules(f, push)
		}
	}
	a.lists = loops
	for _, f := range a.p.LibFuncs() {
		switch {
		case isMarshal(f):
			push(f, 0)
		case a.hasEnc(f) && a.errs(f):
			for i, prm := range f.Params {
				if a.isValue(prm.Type()) {
					push(f, i)
				}
			}
		case !a.writer(f):
			continue
		}
		loops(f)
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		loops(o.f)
		a.paramRule(o.f, o.i, push)
	}
}

// writer: f writes a document.
func (a *emitAn) writer(f *ssa.Function) bool {
	if !a.errs(f) {
		return false
	}
	doc := false
	for _, prm := range f.Params {
		doc = doc || namedOf(deref(prm.Type())) == a.doc
	}
	if !doc {
		return false
	}
	if a.hasEnc(f) {
		return true
	}
	enc := false
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := c.Call.StaticCallee()
		if g != nil && g.Signature.Recv() != nil && namedOf(deref(g.Signature.Recv().Type())) == a.enc && a.errs(g) {
			for _, arg := range c.Call.Args[1:] {
				enc = enc || a.isValue(arg.Type())
			}
		}
	})
	return enc
}

// follow: obligations on the callees that receive the value.
func (a *emitAn) follow(f *ssa.Function, t taint, in map[*ssa.BasicBlock]bool, push func(f *ssa.Function, i int)) {
	eachInstr(f, func(i ssa.Instruction) {
		c, ok := i.(*ssa.Call)
		if !ok || in != nil && !in[i.Block()] {
			return
		}
		g := c.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(g.Blocks) == 0 || isPredicate(g) {
			return
		}
		if g.Signature.Results().Len() == 0 {
			return
		}
		for k, x := range c.Call.Args {
			if t[x]&tAny != 0 && a.isItemList(g.Params[k].Type()) && a.lists != nil {
				a.lists(g)
			}
			if t[x]&tAny == 0 || k == 0 && g.Signature.Recv() != nil && !a.isItem(g.Params[0].Type()) && !a.isItemList(g.Params[0].Type()) {
				continue
			}
			if a.errs(g) && a.isNode(g.Params[k].Type()) && (a.convert(g) || a.role(g, k, t[x])) {
				push(g, k)
			}
		}
	})
}

// convert: g turns what it is given into something else.
func (a *emitAn) convert(g *ssa.Function) bool {
	return g.Signature.Results().Len() == 2 && a.errs(g) && !noContent(g.Signature.Results().At(0).Type())
}

func isPredicate(g *ssa.Function) bool {
	res := g.Signature.Results()
	return res.Len() == 1 && noContent(res.At(0).Type()) && !isErrorType(res.At(0).Type())
}

type part struct {
	name  string
	bits  int
	field int // index of the field for values taken apart, or -1
}

// parts an obligation for a value of type t is split into.
func (a *emitAn) parts(f *ssa.Function, t types.Type) []part {
	if a.isNode(t) {
		switch {
		case a.convert(f): // after models were encoded
			return []part{{"the attributes", tAttrs, -1}, {"the children", tNodes, -1}, {"the text", tValue, -1}}
		case f.Name() == "MarshalXMP": // an extension: its own attributes and text are distributed to its children on reading
			return []part{{"the children", tNodes, -1}}
		case a.hasEnc(f): // collects the content of one name space; has no text
			return []part{{"the attributes", tAttrs, -1}, {"the children", tNodes, -1}, {"the model", tModel, -1}}
		}
		return []part{{"the attributes", tAttrs, -1}, {"the children", tNodes, -1}, {"the model", tModel, -1}, {"the text", tValue, -1}}
	}
	n := namedOf(deref(t))
	if n != nil && !a.isItem(t) {
		if st, ok := n.Underlying().(*types.Struct); ok && a.p.libType(n) && f.Name() == "MarshalXMP" {
			var out []part
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() && tagName(st.Tag(i)) != "-" {
					out = append(out, part{st.Field(i).Name(), 0, i})
				}
			}
			if len(out) > 0 {
				return out
			}
		}
	}
	return []part{{"the value", 0, -1}}
}

func tagName(tag string) string {
	i := strings.Index(tag, `xmp:"`)
	if i < 0 {
		return ""
	}
	tag = tag[i+5:]
	if j := strings.IndexAny(tag, `",`); j >= 0 {
		tag = tag[:j]
	}
	return tag
}

func (a *emitAn) restrict(t taint, w int) taint {
	if w == 0 {
		return t
	}
	o := taint{}
	for k, v := range t {
		if v&tParts != 0 && v&w == 0 && v&tWhole == 0 {
			continue
		}
		if a.names && v&tCont != 0 && v&(tParts|tWhole) == 0 && w&tParts != 0 {
			continue // the name
		}
		o[k] = v
	}
	return o
}

// query: paths that do not write part w of the value.
func (a *emitAn) query(f *ssa.Function, seeds, t taint, w part, own *itemLoop) (*pathQ, taint) {
	tw := a.restrict(t, w.bits)
	full := tWhole | tCont | tHold | tDesc | tDescList
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range a.allLoops(f, t) {
		if own != nil && l.head == own.head {
			continue
		}
		if a.isFieldLoop(l) {
			if a.fieldOk[l.head][a.kind] {
				heads[l.head] = true
			}
			continue
		}
		bits := t[l.list]
		if bits == 0 {
			bits = t[a.m.canonOf(l.list)]
		}
		if w.bits != 0 {
			if bits&w.bits == 0 && bits&full == 0 {
				continue
			}
			if bits&(tAttrs|tNodes|tModel|tValue) != 0 && bits&w.bits == 0 {
				continue
			}
		}
		if bits != 0 && a.loopHands(l) {
			heads[l.head] = true
		}
	}
	conv := a.convert(f)
	q := &pathQ{f: f, m: a.m, lean: a.listing, keep: a.keepFact}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if conv {
			if ret, ok := in.(*ssa.Return); ok {
				v := s.resolve(ret.Results[0])
				if a.listing {
					return a.listedBy(v, tw)
				}
				return a.derived(v, tw, s)
			}
		}
		a.res = s.resolve
		defer func() { a.res = nil }()
		return a.hands(in, tw)
	}
	q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
		if heads[b] {
			return 1, ""
		}
		return 0, ""
	}
	skip := map[ssa.Value]bool{}
	for _, l := range a.itemLoops(f) {
		if a.isFieldLoop(l) && (own == nil || l.head != own.head) {
			if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok && iff.Block().Succs[0] == l.body {
				skip[iff.Cond] = true
			}
		}
	}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
		if truth && skip[cond] {
			return true // iterations are examined on their own
		}
		return a.excused(f, cond, truth, s, t, w, 0)
	}
	start := f.Blocks[0]
	if own != nil {
		start = own.body
	}
	if cut := a.uncertain(f, seeds, tw, start, heads, q.prune); len(cut) > 0 {
		a.cut = cut
		sure := a.taint(f, seeds)
		tw = a.restrict(sure, w.bits)
		a.cut = nil
		for _, l := range a.allLoops(f, t) {
			gone := cut[l.list] || t[l.list] != 0 && sure[l.list] == 0
			if l.list.Referrers() != nil {
				for _, r := range *l.list.Referrers() {
					rg, ok := r.(*ssa.Range)
					gone = gone || ok && cut[rg]
				}
			}
			if gone && !(a.listing && a.isFieldLoop(l)) {
				delete(heads, l.head)
			}
		}
	}
	return q, tw
}

// uncertain: reads of local containers (variables, maps, slices) that can be
// reached without what is followed having been put into them.
func (a *emitAn) uncertain(f *ssa.Function, seeds, t taint, start *ssa.BasicBlock, heads map[*ssa.BasicBlock]bool, prune func(cond ssa.Value, truth bool, s pstate) bool) map[ssa.Value]bool {
	var cut map[ssa.Value]bool
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(ssa.Value)
		if !ok || seeds[c] != 0 || t[c]&tAny == 0 {
			return
		}
		switch in.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		default:
			return
		}
		events := map[ssa.Instruction]bool{}
		other := false
		var uses []ssa.Value
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if v.Referrers() == nil {
				return
			}
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					switch {
					case x.Addr == v && t[x.Val]&tAny != 0:
						events[x] = true
					case x.Addr != v:
						other = true
					}
				case *ssa.MapUpdate:
					switch {
					case x.Map == v && (t[x.Key]|t[x.Value])&tAny != 0:
						events[x] = true
					case x.Map != v:
						other = true
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					walk(r.(ssa.Value))
				case *ssa.UnOp, *ssa.Range, *ssa.Lookup:
					if u := r.(ssa.Value); t[u]&tAny != 0 {
						uses = append(uses, u)
					}
				case *ssa.DebugRef:
				case *ssa.Call:
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
						other = true // filled elsewhere
					}
				default:
					other = true
				}
			}
		}
		walk(c)
		if other || len(events) == 0 {
			return
		}
		for _, u := range uses {
			q := &pathQ{f: f, m: a.m, prune: prune}
			q.stop = func(in ssa.Instruction, s pstate) bool { return events[in] }
			q.bad = func(in ssa.Instruction, s pstate) bool { return in == u.(ssa.Instruction) }
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if heads[b] {
					for lb := range blocksOfLoop(b) {
						for _, in := range lb.Instrs {
							if events[in] {
								return 1, ""
							}
						}
					}
				}
				return 0, ""
			}
			if q.run(start, nil, newPstate()) != nil && !q.over {
				if cut == nil {
					cut = map[ssa.Value]bool{}
				}
				cut[u] = true
			}
		}
	})
	return cut
}

// derived: what a conversion returns comes from the value: computed from it,
// or a constant selected by it.
func (a *emitAn) derived(v ssa.Value, t taint, s pstate) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = s.resolve(mi.X)
	}
	if t[v]&tAny != 0 {
		return true
	}
	if isNilConst(v) {
		return false
	}
	if c, ok := strConst(strip(v)); ok && c == "" {
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok && len(allocStores(al)) == 0 {
			return false // a zero value
		}
	}
	// chosen by a comparison with the value
	for c, truth := range s.fact {
		if t[c]&tAny != 0 {
			return true
		}
		b, ok := c.(*ssa.BinOp)
		if ok && (t[b.X]|t[b.Y])&tAny != 0 && (b.Op != token.EQL || truth) {
			return true
		}
	}
	if _, ok := v.(*ssa.Const); !ok {
		// selected through a table or by a switch on something derived
		return t[v]&tAny != 0
	}
	return false
}

func allocStores(al *ssa.Alloc) []ssa.Instruction {
	var out []ssa.Instruction
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, r)
				}
			case *ssa.FieldAddr:
				walk(x)
			case *ssa.IndexAddr:
				walk(x)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				out = append(out, r)
			}
		}
	}
	walk(al)
	return out
}

// isEmptyTest: the call asks whether its operand, part of the value, is empty.
func (a *emitAn) isEmptyTest(c *ssa.Call, t taint) (bool, bool) {
	args := callArgs(&c.Call)
	if len(args) != 1 || t[args[0]]&tAny == 0 {
		return false, false
	}
	name := ""
	if c.Call.IsInvoke() {
		name = c.Call.Method.Name()
	} else if g := c.Call.StaticCallee(); g != nil {
		name = g.Name()
	}
	switch name {
	case "IsZero", "isEmptyValue", "IsNil":
		return true, true
	case "IsValid":
		return true, false
	}
	return false, false
}

// keepFact: a condition that excused asks for again.
func (a *emitAn) keepFact(cond ssa.Value) bool {
	if _, _, _, ok := flagTest(cond); ok {
		return true
	}
	c, ok := cond.(*ssa.Call)
	if !ok {
		return false
	}
	name := ""
	if g := c.Call.StaticCallee(); g != nil {
		name = g.Name()
	}
	return name == "IsZero" || name == "isEmptyValue" || name == "IsNil"
}

// excused: on this branch the value may be left out.
func (a *emitAn) excused(f *ssa.Function, cond ssa.Value, truth bool, s pstate, t taint, w part, d int) bool {
	cond, truth = literal(cond, truth, s)
	if a.listing && a.syntaxOnly(cond, truth, d) {
		return true
	}
	omit, _ := a.p.pkgConst("xmp", "fOmit")
	empty, _ := a.p.pkgConst("xmp", "fEmpty")
	if _, mask, set, ok := flagTest(cond); ok {
		has := set == truth
		switch {
		case mask == omit:
			return has
		case mask == a.kind && a.kind != 0:
			return !has
		case mask == empty && !has:
			// emptiness already known
			for c, tr := range s.fact {
				if call, ok := c.(*ssa.Call); ok && tr {
					if is, neg := a.isEmptyTest(call, t); is && neg {
						return true
					}
				}
			}
		}
		return false
	}
	// text and structure are mutually exclusive in JSON
	if b, ok := cond.(*ssa.BinOp); ok && a.convert(f) && (w.bits == tNodes || w.bits == tAttrs) && (b.Op == token.EQL || b.Op == token.NEQ) && truth == (b.Op == token.NEQ) {
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if c, ok := strConst(pr[1]); ok && c == "" && t[pr[0]]&tValue != 0 {
				return true
			}
		}
	}
	is := func(v ssa.Value) bool {
		v = s.resolve(v)
		b := a.fieldBits(v, t)
		if b&tAny&^(tHold|tDesc) == 0 {
			return false
		}
		return b&tParts == 0 || b&w.bits != 0
	}
	if nilTest(cond, truth, s, is) {
		return true
	}
	// the content of an element is that of its model or its text
	if w.bits == tValue && nilTest(cond, !truth, s, func(v ssa.Value) bool { return t[s.resolve(v)]&tModel != 0 }) {
		return true
	}
	switch x := cond.(type) {
	case *ssa.Call:
		if ok, yes := a.isEmptyTest(x, t); ok {
			arg := callArgs(&x.Call)[0]
			if yes != truth || w.bits != 0 && t[arg]&(w.bits|tWhole|tCont) == 0 {
				return false
			}
			g := x.Call.StaticCallee()
			if !yes || !a.hasInfo(f) || g == nil || g.Name() == "IsNil" {
				return true
			}
			if _, whole := arg.(*ssa.Parameter); whole && a.listing {
				return true // not a field
			}
			// fields with the empty option are written even when empty
			for c, tr := range s.fact {
				if _, mask, set, ok := flagTest(c); ok && mask == empty && set != tr {
					return true
				}
			}
			return false
		}
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.Name() == "Between" && !truth {
			return true
		}
		if d < 2 && a.p.InModule(g) && isPredicate(g) && len(g.Blocks) > 0 {
			return a.helper(g, x, truth, t, w, d)
		}
	case *ssa.BinOp:
		return a.zeroTest(x, truth, s, is, t, w)
	}
	return false
}

// fieldBits: what is known of v; fields of local variables are told apart.
func (a *emitAn) fieldBits(v ssa.Value, t taint) int {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return t[v]
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return t[v]
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return t[v]
	}
	b := 0
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field != fa.Field || x.Referrers() == nil {
				continue
			}
			for _, y := range *x.Referrers() {
				switch st := y.(type) {
				case *ssa.Store:
					if st.Addr != ssa.Value(x) {
						return t[v]
					}
					b |= t[st.Val]
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return t[v]
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				return t[v]
			}
		default:
			if in, ok := r.(ssa.Instruction); ok && in.Block().Dominates(u.Block()) && in.Block() != u.Block() {
				return t[v] // handed to something that may have changed it
			}
		}
	}
	return b
}

// hasInfo: f deals with the options of a field.
func (a *emitAn) hasInfo(f *ssa.Function) bool {
	fi := a.p.Named("xmp", "fieldInfo")
	if fi == nil {
		return false
	}
	for _, prm := range f.Params {
		if namedOf(deref(prm.Type())) == fi {
			return true
		}
	}
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if v, ok := in.(*ssa.FieldAddr); ok && namedOf(deref(v.X.Type())) == fi {
			found = true
		}
	})
	return found
}

// helper: g returns truth only where the value may be left out.
func (a *emitAn) helper(g *ssa.Function, c *ssa.Call, truth bool, t taint, w part, d int) bool {
	seeds := taint{}
	for i, arg := range callArgs(&c.Call) {
		if i < len(g.Params) && t[arg]&tAny != 0 {
			seeds[g.Params[i]] = t[arg]
		}
	}
	gt := a.taint(g, seeds)
	q := &pathQ{f: g, m: a.m}
	q.prune = func(cond ssa.Value, tr bool, s pstate) bool { return a.excused(g, cond, tr, s, gt, w, d+1) }
	q.bad = func(in ssa.Instruction, s pstate) bool {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return false
		}
		v := s.resolve(ret.Results[0])
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			return (k.Value.String() == "true") == truth
		}
		c, tr := literal(v, truth, s)
		if k, ok := c.(*ssa.Const); ok && k.Value != nil {
			return (k.Value.String() == "true") == tr
		}
		return !a.excused(g, c, tr, s, gt, w, d+1)
	}
	bad := q.run(g.Blocks[0], nil, newPstate())
	return bad == nil && !q.over
}

// zeroTest: the comparison establishes that the value, or the part, is empty.
func (a *emitAn) zeroTest(x *ssa.BinOp, truth bool, s pstate, is func(v ssa.Value) bool, t taint, w part) bool {
	for k, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
		c := strip(pr[1])
		op := x.Op
		if k == 1 {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if lc, ok := pr[0].(*ssa.Call); ok {
			if b, ok := lc.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				n, isc := intConst(c)
				if !isc || !is(lc.Call.Args[0]) {
					continue
				}
				max, known := int64(0), true
				switch {
				case op == token.EQL && truth, op == token.NEQ && !truth, op == token.LEQ && truth, op == token.GTR && !truth:
					max = n
				case op == token.LSS && truth, op == token.GEQ && !truth:
					max = n - 1
				default:
					known = false
				}
				limit := int64(0)
				if w.bits == tAttrs && a.addsAttrs(x.Parent(), 2) {
					limit = 2 // the name space and the about attribute
				}
				if known && max <= limit {
					return true
				}
				continue
			}
		}
		if op != token.EQL && op != token.NEQ || truth != (op == token.EQL) {
			continue
		}
		// a value no attribute was made for
		if c, ok := strConst(pr[1]); ok && c == "" {
			if fa := fieldOfLocal(pr[0]); fa != nil && t[fa]&tAny != 0 {
				if t[fa]&tWhole == 0 {
					return true
				}
				// nor is an element without a name
				if a.isNode(fa.Type()) && x.Parent().Name() == "MarshalXML" {
					return true
				}
			}
		}
		// the name spaces every document declares
		if u, ok := pr[1].(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && t[pr[0]]&tAny != 0 && a.isNamespace(g.Type()) {
				return true
			}
		}
		// the form of a structure
		if c, ok := strConst(pr[1]); ok && strings.HasPrefix(c, "rdf:") && a.convert(x.Parent()) && a.nameOf(pr[0], t) {
			if c == "rdf:parseType" || (c == "rdf:Bag" || c == "rdf:Seq" || c == "rdf:Alt") && w.bits != tNodes {
				return true
			}
		}
		if !isZeroConst(c) || !is(pr[0]) {
			continue
		}
		return true
	}
	return false
}

func (a *emitAn) isNamespace(t types.Type) bool {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	n := namedOf(t)
	return n != nil && n == a.p.Named("xmp", "Namespace")
}

// nameOf: v is the name of the element or attribute followed by t.
func (a *emitAn) nameOf(v ssa.Value, t taint) bool {
	switch x := v.(type) {
	case *ssa.Call:
		args := callArgs(&x.Call)
		return len(args) == 1 && t[args[0]]&tAny != 0 && a.isItem(args[0].Type())
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		for ok {
			if t[fa.X]&tAny != 0 {
				return true
			}
			fa, ok = fa.X.(*ssa.FieldAddr)
		}
	case *ssa.Field:
		for {
			if t[x.X]&tAny != 0 {
				return true
			}
			y, ok := x.X.(*ssa.Field)
			if !ok {
				return false
			}
			x = y
		}
	}
	return false
}

// fieldOfName: v reads the local part of a name; the attribute holding it.
func fieldOfLocal(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.Field != 1 {
			return nil
		}
	case *ssa.Field:
		if x.Field != 1 {
			return nil
		}
	}
	return fieldOfName(v)
}

func fieldOfName(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if isXMLName(deref(fa.X.Type())) {
				if g, ok := fa.X.(*ssa.FieldAddr); ok {
					return g.X
				}
			}
		}
	case *ssa.Field:
		if isXMLName(x.X.Type()) {
			if g, ok := x.X.(*ssa.Field); ok {
				return g.X
			}
		}
	}
	return nil
}

// addsAttrs: f puts attributes of its own in front of those of a node.
func (a *emitAn) addsAttrs(f *ssa.Function, depth int) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && depth > 0 {
			if g := c.Call.StaticCallee(); g != nil && a.p.InModule(g) && len(g.Blocks) > 0 {
				for _, x := range c.Call.Args {
					if a.isNode(x.Type()) {
						found = found || a.addsAttrs(g, depth-1)
						break
					}
				}
			}
		}
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !a.isNode(fa.X.Type()) || structField(fa.X.Type(), fa.Field).Name() != "Attr" {
			return
		}
		c, ok := unchange(st.Val).(*ssa.Call)
		if !ok {
			return
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			u, isLoad := unchange(c.Call.Args[1]).(*ssa.UnOp)
			if isLoad {
				if fb, ok := u.X.(*ssa.FieldAddr); ok && fb.Field == fa.Field && a.isNode(fb.X.Type()) {
					if _, own := unchange(c.Call.Args[0]).(*ssa.UnOp); !own {
						found = true
					}
				}
			}
		}
	})
	return found
}

// allLoops: loops over lists, and over reflected arrays.
func (a *emitAn) allLoops(f *ssa.Function, t taint) []itemLoop {
	return append(append([]itemLoop{}, a.itemLoops(f)...), a.reflLoops(f)...)
}

// reflLoops: loops over every index of a reflected array.
func (a *emitAn) reflLoops(f *ssa.Function) []itemLoop {
	isLen := func(v ssa.Value) ssa.Value {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if pkg, name := extCallee(&c.Call); pkg == "reflect" && strings.HasSuffix(name, "Len") {
			return c.Call.Args[0]
		}
		return nil
	}
	var out []itemLoop
	for _, h := range f.Blocks {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			continue
		}
		list := isLen(c.Y)
		ph, isPhi := c.X.(*ssa.Phi)
		if list == nil || !isPhi || ph.Block() != h {
			continue
		}
		in := blocksOfLoop(h)
		if in == nil {
			continue
		}
		full := true
		for i, pr := range h.Preds {
			if isBackEdge(pr, h) {
				b, ok := ph.Edges[i].(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
					full = false
				} else if n, ok := intConst(b.Y); !ok || n != 1 {
					full = false
				}
			} else if !isZeroConst(ph.Edges[i]) {
				full = false
			}
		}
		l := itemLoop{f: f, list: list, head: h, body: h.Succs[0], exit: h.Succs[1], in: in, seeds: taint{}, str: true}
		for b := range in {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || len(c.Call.Args) != 2 {
					continue
				}
				if pkg, name := extCallee(&c.Call); pkg == "reflect" && strings.HasSuffix(name, "Index") && c.Call.Args[1] == ssa.Value(ph) {
					l.seeds[c] = tCont
				}
			}
		}
		if full && len(l.seeds) > 0 {
			out = append(out, l)
		}
	}
	return out
}

// isFieldLoop: the loop visits the serialised fields of a type.
func (a *emitAn) isFieldLoop(l itemLoop) bool {
	s, ok := deref(l.list.Type()).Underlying().(*types.Slice)
	fi := a.p.Named("xmp", "fieldInfo")
	return ok && fi != nil && namedOf(deref(s.Elem())) == fi
}

func (a *emitAn) paramRule(f *ssa.Function, i int, push func(f *ssa.Function, i int)) {
	prm := f.Params[i]
	bits := a.paramBits(f, i)
	a.r.Units["values"]++
	n := namedOf(deref(prm.Type()))
	for _, w := range a.parts(f, prm.Type()) {
		if w.field >= 0 {
			a.focus, a.part1 = n, w.field
			bits = tWhole
		}
		a.rets = map[flowKey]int{}
		a.bools = noContent(prm.Type())
		t := a.taint(f, taint{prm: bits})
		a.bools = false
		kinds := []int64{0}
		for _, l := range a.itemLoops(f) {
			if a.isFieldLoop(l) {
				at, _ := a.p.pkgConst("xmp", "fAttr")
				el, _ := a.p.pkgConst("xmp", "fElement")
				kinds = []int64{at, el}
			}
		}
		var bad ssa.Instruction
		over := false
		for _, k := range kinds {
			a.kind = k
			a.bools = noContent(prm.Type())
			q, tw := a.query(f, taint{prm: bits}, t, w, nil)
			a.bools = false
			q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
			a.byError(q, tw)
			if b := q.run(f.Blocks[0], nil, newPstate()); b != nil {
				bad = b
			}
			over = over || q.over
			a.kind = 0
		}
		a.focus = nil
		a.rets = map[flowKey]int{}
		a.follow(f, t, nil, push)
		what := prm.Name() + ", " + w.name
		switch {
		case over:
			a.r.undecided("%s: too many paths", a.p.FName(f))
		case bad != nil:
			a.r.failAlt("written", a.keys(f, what), a.p.InstrPos(bad), "%s reports success here on a path that does not write %s of %s", a.p.FName(f), w.name, prm.Name())
		default:
			a.r.ok("written: %s (%s): every successful path writes %s of %s", a.p.FName(f)+": "+what, a.p.Pos(f.Pos()), w.name, prm.Name())
		}
	}
}

func (a *emitAn) success(q *pathQ, f *ssa.Function, in ssa.Instruction, s pstate) bool {
	if !a.errs(f) {
		_, ok := in.(*ssa.Return)
		return ok
	}
	return q.okReturn(in, s)
}

func (a *emitAn) loopPos(l itemLoop) ssa.Instruction {
	for _, in := range l.body.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	return l.body.Instrs[0]
}

func (a *emitAn) loopRules(f *ssa.Function, push func(f *ssa.Function, i int)) {
	for _, l := range append(append([]itemLoop{}, a.itemLoops(f)...), a.reflLoops(f)...) {
		l := l
		if a.isFieldLoop(l) {
			a.fieldLoop(f, l)
			continue
		}
		t := a.taint(f, l.seeds)
		if !a.loopHands(l) {
			continue
		}
		a.r.Units["loops"]++
		a.textRule(f, l, func(cond ssa.Value, truth bool, s pstate, t taint) bool {
			return a.excused(f, cond, truth, s, t, part{"", 0, -1}, 0)
		}, a.success, a.keys, a.loopPos(l))
		a.follow(f, t, l.in, push)
		name := valName(a.p, l.list, 0)
		parts := []part{{"the value", 0, -1}}
		if st, ok := deref(l.list.Type()).Underlying().(*types.Slice); ok && a.isNode(st.Elem()) {
			parts = []part{{"the attributes", tAttrs, -1}, {"the children", tNodes, -1}, {"the model", tModel, -1}, {"the text", tValue, -1}}
			switch {
			case a.collectors(l.list) == 1:
				parts = parts[:3] // roots only collect content
			case a.collectors(l.list) == 2:
				parts = parts[:2]
			case a.convert(f):
				parts = []part{parts[0], parts[1], parts[3]}
			}
			if a.listing {
				parts = a.listParts(l)
			}
			if n := namedOf(l.list.Type()); n != nil && n.Obj().Name() == "NamedExtensionArray" && len(parts) == 4 {
				parts = []part{parts[0], parts[1], parts[3]} // documented: no models
			}
		}
		failed := false
		for _, w := range parts {
			if a.uniform(f, l, w) {
				continue
			}
			q, tw := a.query(f, l.seeds, t, w, &l)
			inner := q.arrive
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if st, m := inner(b, s); st != 0 {
					return st, m
				}
				if b == l.head || b == l.exit {
					return 2, ""
				}
				return 0, ""
			}
			q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
			stop := q.stop
			q.stop = func(in ssa.Instruction, s pstate) bool { return l.in[in.Block()] && stop(in, s) }
			a.byError(q, tw)
			if bad := q.run(l.body, nil, newPstate()); bad != nil || q.over {
				if q.over {
					a.r.undecided("%s: too many paths in the loop over %s", a.p.FName(f), name)
				} else {
					a.r.failAlt("each", a.keys(f, "elements of "+name+", "+w.name), a.p.InstrPos(a.loopPos(l)), "%s: an iteration over %s can end without writing %s (%s)", a.p.FName(f), name, w.name, a.p.InstrPos(bad))
				}
				failed = true
			}
		}
		if failed {
			continue
		}
		a.early(f, l, name, t)
	}
}

// uniform: the loop is reached only where a chosen element of the list is
// known to lack the part; elements of an array are all of one type.
func (a *emitAn) uniform(f *ssa.Function, l itemLoop, w part) bool {
	if w.bits != tNodes || !a.convert(f) {
		return false
	}
	list := a.m.canonOf(l.list)
	seeds := taint{}
	eachInstr(f, func(in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || l.in[in.Block()] || !a.sameList(ia.X, list) {
			return
		}
		if _, ok := intConst(ia.Index); ok {
			seeds[ia] = tWhole
		}
	})
	if len(seeds) == 0 {
		return false
	}
	t := a.taint(f, seeds)
	q := &pathQ{f: f, m: a.m}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
		c, tr := literal(cond, truth, s)
		b, ok := c.(*ssa.BinOp)
		return ok && a.zeroTest(b, tr, s, func(v ssa.Value) bool {
			return t[v]&w.bits != 0 || a.sameList(v, list)
		}, t, w)
	}
	first := l.body.Instrs[0]
	q.bad = func(in ssa.Instruction, s pstate) bool { return in == first }
	return q.run(f.Blocks[0], nil, newPstate()) == nil && !q.over
}

func (a *emitAn) sameList(v, list ssa.Value) bool {
	v = a.m.canonOf(v)
	if v == list {
		return true
	}
	x, ok1 := v.(*ssa.UnOp)
	y, ok2 := list.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	fx, ok1 := x.X.(*ssa.FieldAddr)
	fy, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && a.m.canonOf(fx.X) == a.m.canonOf(fy.X)
}

// early: the loop is not left before all elements were visited.
func (a *emitAn) early(f *ssa.Function, l itemLoop, name string, t taint) {
	q := &pathQ{f: f, m: a.m, lean: a.listing}
	q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
		switch {
		case b == l.head:
			return 1, ""
		case b == l.exit:
			return 2, ""
		}
		return 0, ""
	}
	conv := a.convert(f)
	q.bad = func(in ssa.Instruction, s pstate) bool {
		if ret, ok := in.(*ssa.Return); ok && conv && !a.listing {
			// the element is the result
			v := ret.Results[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if t[v]&tAny != 0 || t[s.resolve(v)]&tAny != 0 {
				return false
			}
		}
		return a.success(q, f, in, s)
	}
	if bad := q.run(l.body, nil, newPstate()); bad != nil {
		a.r.failAlt("each", a.keys(f, "elements of "+name+": left early"), a.p.InstrPos(a.loopPos(l)), "%s: the loop over %s can be left early without an error (%s)", a.p.FName(f), name, a.p.InstrPos(bad))
		return
	}
	if q.over {
		a.r.undecided("%s: too many paths in the loop over %s", a.p.FName(f), name)
		return
	}
	a.r.ok("each: %s (%s): every iteration writes its element", a.p.FName(f)+": elements of "+name, a.p.InstrPos(a.loopPos(l)))
}

// collectors: the nodes of a document, or of the output under construction,
// that collect the content of one name space; they have no text of their own.
func (a *emitAn) collectors(list ssa.Value) int {
	u, ok := strip(list).(*ssa.UnOp)
	if !ok {
		return 0
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return 0
	}
	if namedOf(deref(fa.X.Type())) == a.doc {
		return 1
	}
	if b, ok := fa.X.(*ssa.UnOp); ok {
		if fb, ok := b.X.(*ssa.FieldAddr); ok && namedOf(deref(fb.X.Type())) == a.enc {
			return 2
		}
	}
	return 0
}

// fieldLoop: every field of a kind is written.
func (a *emitAn) fieldLoop(f *ssa.Function, l itemLoop) {
	seeds := taint{}
	for i, prm := range f.Params {
		if a.isValue(prm.Type()) {
			seeds[f.Params[i]] = tCont
		}
	}
	if len(seeds) == 0 {
		return
	}
	t := a.taint(f, seeds)
	a.r.Units["loops"]++
	a.fieldOk[l.head] = map[int64]bool{}
	some := false
	var bad ssa.Instruction
	for _, kn := range []string{"fAttr", "fElement"} {
		k, ok := a.p.pkgConst("xmp", kn)
		if !ok {
			a.r.undecided("option %s not found", kn)
			return
		}
		a.kind = k
		q := &pathQ{f: f, m: a.m, lean: a.listing, keep: a.keepFact}
		q.stop = func(in ssa.Instruction, s pstate) bool { return l.in[in.Block()] && a.hands(in, t) }
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			return a.excused(f, cond, truth, s, t, part{"the field", 0, -1}, 0)
		}
		heads := map[*ssa.BasicBlock]bool{}
		for _, in := range a.allLoops(f, t) {
			if a.listing && in.head != l.head && l.in[in.head] && a.on(t, in.list)&tAny != 0 && a.loopHands(in) {
				heads[in.head] = true
			}
		}
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if heads[b] {
				return 1, ""
			}
			if b == l.head || b == l.exit {
				return 2, ""
			}
			return 0, ""
		}
		q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
		a.byError(q, t)
		b := q.run(l.body, nil, newPstate())
		a.kind = 0
		if b == nil && !q.over {
			a.fieldOk[l.head][k] = true
			some = true
			a.r.ok("each: %s (%s): every field with option %s is written", a.p.FName(f), a.p.InstrPos(a.loopPos(l)), kn)
		} else {
			bad = b
			if q.over {
				a.r.undecided("%s: too many paths in the loop over the fields", a.p.FName(f))
			}
		}
	}
	if !some && bad != nil {
		a.r.failAlt("each", a.keys(f, "fields"), a.p.InstrPos(a.loopPos(l)), "%s: an iteration over the fields can end without writing the field (%s)", a.p.FName(f), a.p.InstrPos(bad))
		return
	}
	a.early(f, l, "the fields", t)
}

// header: every writer uses every header field.
func (a *emitAn) header() {
	st, ok := a.doc.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, f := range a.p.LibFuncs() {
		if !a.writer(f) {
			continue
		}
		reads := false
		eachInstr(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok && namedOf(deref(fa.X.Type())) == a.doc {
				reads = true
			}
		})
		if !reads {
			continue
		}
		a.r.Units["writers"]++
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			if noContent(fd.Type()) {
				continue
			}
			bad, over := a.usesHeader(f, i, map[*ssa.Function]bool{})
			if over {
				a.r.undecided("%s: too many paths", a.p.FName(f))
				continue
			}
			if bad != nil {
				a.r.failAlt("header", a.keys(f, fd.Name()), a.p.InstrPos(bad), "%s reports success here without having used %s of the document", a.p.FName(f), fd.Name())
				continue
			}
			a.r.ok("header: %s (%s): every successful path uses %s", a.p.FName(f)+": "+fd.Name(), a.p.Pos(f.Pos()), fd.Name())
		}
	}
}

// usesHeader looks for a successful path of f that makes no use of field i of
// the document.
func (a *emitAn) usesHeader(f *ssa.Function, i int, seen map[*ssa.Function]bool) (bad ssa.Instruction, over bool) {
	seen[f] = true
	defer delete(seen, f)
	seeds := taint{}
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if x.Field == i && namedOf(deref(x.X.Type())) == a.doc {
				seeds[x] = tCont
			}
		case *ssa.Call:
			if g := a.docCallee(x); g != nil && a.returnsHeader(g, i) {
				seeds[x] = tCont
			}
		}
	})
	a.whole = true
	t := a.taint(f, seeds)
	a.whole = false
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range a.itemLoops(f) {
		if t[l.list] != 0 {
			heads[l.head] = true
			continue
		}
		// each iteration uses it
		q := &pathQ{f: f, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool {
			return l.in[in.Block()] && (a.uses(in, t, s) || a.calleeUses(in, i, seen))
		}
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if b == l.head || b == l.exit {
				return 2, ""
			}
			return 0, ""
		}
		q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
		if q.run(l.body, nil, newPstate()) == nil && a.loopUses(l, t, i, seen) {
			heads[l.head] = true
		}
	}
	q := &pathQ{f: f, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool { return a.uses(in, t, s) || a.calleeUses(in, i, seen) }
	q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
		if heads[b] {
			return 1, ""
		}
		return 0, ""
	}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
		c, tr := literal(cond, truth, s)
		if nilTest(c, tr, s, func(v ssa.Value) bool { return namedOf(deref(v.Type())) == a.doc }) {
			return true
		}
		b, ok := c.(*ssa.BinOp)
		return ok && a.zeroTest(b, tr, s, func(v ssa.Value) bool { return t[v]&tAny != 0 }, t, part{"", 0, -1})
	}
	q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
	bad = q.run(f.Blocks[0], nil, newPstate())
	return bad, q.over
}

// docCallee: the library function a document is passed to.
func (a *emitAn) docCallee(c *ssa.Call) *ssa.Function {
	g := c.Call.StaticCallee()
	if g == nil || !a.p.InModule(g) || len(g.Blocks) == 0 {
		return nil
	}
	for _, x := range c.Call.Args {
		if namedOf(deref(x.Type())) == a.doc {
			return g
		}
	}
	return nil
}

// returnsHeader: a result of g is made from field i of the document.
func (a *emitAn) returnsHeader(g *ssa.Function, i int) bool {
	if g.Signature.Results().Len() == 0 || a.errs(g) {
		return false
	}
	seeds := taint{}
	eachInstr(g, func(in ssa.Instruction) {
		if x, ok := in.(*ssa.FieldAddr); ok && x.Field == i && namedOf(deref(x.X.Type())) == a.doc {
			seeds[x] = tCont
		}
	})
	if len(seeds) == 0 {
		return false
	}
	t := a.taint(g, seeds)
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for k := range ret.Results {
			for _, v := range retValues(ret, k) {
				if t[v]&tAny != 0 {
					return true
				}
			}
		}
	}
	return false
}

// calleeUses: the instruction passes the document to a part of the writer
// that uses the field.
func (a *emitAn) calleeUses(in ssa.Instruction, i int, seen map[*ssa.Function]bool) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	g := a.docCallee(c)
	if g == nil || seen[g] || len(seen) > 4 {
		return false
	}
	out := a.hasEnc(g)
	reads := false
	for _, x := range c.Call.Args {
		out = out || a.isNode(x.Type())
	}
	eachInstr(g, func(in ssa.Instruction) {
		if x, ok := in.(*ssa.FieldAddr); ok && namedOf(deref(x.X.Type())) == a.doc {
			reads = true
		}
	})
	if !out || !reads {
		return false
	}
	bad, over := a.usesHeader(g, i, seen)
	return bad == nil && !over
}

// uses: the instruction puts the value somewhere.
func (a *emitAn) uses(in ssa.Instruction, t taint, s pstate) bool {
	a.res = s.resolve
	defer func() { a.res = nil }()
	if st, ok := in.(*ssa.Store); ok && a.on(t, st.Val)&tAny != 0 {
		if _, isAlloc := st.Addr.(*ssa.Alloc); !isAlloc {
			return true
		}
	}
	return a.hands(in, t)
}

func (a *emitAn) loopUses(l itemLoop, t taint, i int, seen map[*ssa.Function]bool) bool {
	for b := range l.in {
		for _, in := range b.Instrs {
			if a.uses(in, t, newPstate()) || a.calleeUses(in, i, seen) {
				return true
			}
		}
	}
	return false
}

func unchange(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = c.X
	}
}

// kept: attributes and children of a node that may already have some are
// extended, not replaced.
func (a *emitAn) kept() {
	for _, f := range a.p.LibFuncs() {
		if !(a.hasEnc(f) && a.errs(f)) && !a.writer(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !a.isNode(fa.X.Type()) || !a.isItemList(deref(fa.Type())) {
				return
			}
			fd := structField(fa.X.Type(), fa.Field)
			base := a.m.canonOf(fa.X)
			switch x := base.(type) {
			case *ssa.Alloc:
				return
			case *ssa.Call:
				// new, and not handed to anything that may have filled it
				if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() == nil && !a.filled(f, x, in) {
					return
				}
			case *ssa.UnOp:
				if fb, ok := x.X.(*ssa.FieldAddr); ok && namedOf(deref(fb.X.Type())) == a.enc {
					if s, ok := deref(fd.Type()).Underlying().(*types.Slice); ok && a.isAttr(s.Elem()) {
						return // the attributes of the outermost element are not content
					}
				}
			}
			a.r.Units["replacements"]++
			seeds := taint{}
			eachInstr(f, func(in ssa.Instruction) {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fb, ok := u.X.(*ssa.FieldAddr); ok && fb.Field == fa.Field && a.isNode(fb.X.Type()) && a.sameNode(fb.X, fa.X) {
						seeds[u] = tCont
					}
				}
			})
			// elements moved one by one
			for _, l := range a.itemLoops(f) {
				if seeds[l.list] != 0 {
					for k := range l.seeds {
						seeds[k] = tCont
					}
				}
			}
			t := a.taint(f, seeds)
			if t[st.Val] != 0 {
				a.r.ok("kept: %s (%s): the new %s contain the old", a.p.FName(f), a.p.InstrPos(in), fd.Name())
				return
			}
			a.r.failAlt("kept", a.keys(f, fd.Name()), a.p.InstrPos(in), "%s replaces %s of a node that may already have content", a.p.FName(f), fd.Name())
		})
	}
}

// fresh: c creates a node from a name.
func (a *emitAn) freshNode(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || !a.p.InModule(g) || g.Signature.Results().Len() != 1 || !a.isNode(g.Signature.Results().At(0).Type()) || !isPtr(g.Signature.Results().At(0).Type()) {
		return false
	}
	for _, prm := range g.Params {
		if isPtr(prm.Type()) || !isXMLName(prm.Type()) {
			return false
		}
	}
	return len(g.Params) > 0
}

// keeps: g puts its parameter k, or something holding it, where it outlives the call.
func (a *emitAn) keeps(g *ssa.Function, k, d int) bool {
	if d > 4 || k >= len(g.Params) || len(g.Blocks) == 0 {
		return false
	}
	return a.keptBy(g.Params[k], d)
}

func (a *emitAn) keptBy(v ssa.Value, d int) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if a.keepsHere(r, v, d) {
			return true
		}
	}
	return false
}

// keepsHere: the instruction keeps v (stores, returns or passes it on to be kept).
func (a *emitAn) keepsHere(in ssa.Instruction, v ssa.Value, d int) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if x.Val != v {
			return false
		}
		if al, ok := addrBase(x.Addr).(*ssa.Alloc); ok && al.Referrers() != nil {
			// a variable or the arguments of a variadic call
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Slice:
					if a.keptBy(y, d+1) {
						return true
					}
				case *ssa.UnOp:
					if d < 4 && a.keptBy(y, d+1) {
						return true
					}
				}
			}
			return false
		}
		return true
	case *ssa.Return:
		return d == 0 // whatever the caller does with a result of the callee
	case *ssa.Send:
		return true
	case *ssa.MapUpdate:
		return x.Value == v
	case *ssa.ChangeType:
		return d < 6 && a.keptBy(x, d+1)
	case *ssa.MakeInterface:
		return d < 6 && a.keptBy(x, d+1)
	case *ssa.Phi:
		return d < 6 && a.keptBy(x, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && len(x.Call.Args) > 1
		}
		args := callArgs(&x.Call)
		cs := a.p.Callees(&x.Call)
		for i, arg := range args {
			if arg != v {
				continue
			}
			for _, g := range cs {
				if a.p.InModule(g) && a.keeps(g, i, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// attached: a node created for output becomes part of it.
func (a *emitAn) attached() {
	for _, f := range a.p.LibFuncs() {
		if !(a.hasEnc(f) && a.errs(f)) && !a.writer(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !a.freshNode(c) {
				return
			}
			a.r.Units["new_nodes"]++
			q := &pathQ{f: f, m: a.m}
			q.stop = func(i2 ssa.Instruction, s pstate) bool {
				if i2 == in {
					return false
				}
				for _, op := range i2.Operands(nil) {
					if *op == nil || (*op != ssa.Value(c) && a.m.canonOf(*op) != ssa.Value(c) && s.resolve(*op) != ssa.Value(c)) {
						continue
					}
					if _, ok := i2.(*ssa.Phi); ok {
						continue
					}
					if a.keepsHere(i2, *op, 0) {
						return true
					}
					if cc, ok := i2.(*ssa.Call); ok {
						if g := cc.Call.StaticCallee(); g != nil && g.Name() == "Close" {
							return true
						}
					}
				}
				return false
			}
			q.bad = func(i2 ssa.Instruction, s pstate) bool { return i2 == in || q.okReturn(i2, s) }
			if bad := q.run(nil, in, newPstate()); bad != nil || q.over {
				at := in
				if bad != nil {
					at = bad
				}
				a.r.failAlt("attached", a.keys(f, "new node"), a.p.InstrPos(in), "%s creates a node for output here that does not become part of the output on every path (%s)", a.p.FName(f), a.p.InstrPos(at))
				return
			}
			a.r.ok("attached: %s (%s): on every successful path", a.p.FName(f), a.p.InstrPos(in))
		})
	}
}

func (a *emitAn) sameNode(x, y ssa.Value) bool {
	x, y = a.m.canonOf(x), a.m.canonOf(y)
	if x == y {
		return true
	}
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	fx, ok1 := ux.X.(*ssa.FieldAddr)
	fy, ok2 := uy.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && a.m.canonOf(fx.X) == a.m.canonOf(fy.X)
}

// filled: before at, the node made by c was passed to something or stored to.
func (a *emitAn) filled(f *ssa.Function, c *ssa.Call, at ssa.Instruction) bool {
	if c.Referrers() == nil {
		return true
	}
	reach := func(x ssa.Instruction) bool {
		if x.Block() == at.Block() {
			return instrIndex(x) < instrIndex(at)
		}
		return x.Block().Dominates(at.Block())
	}
	for _, r := range *c.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if x != c && reach(x) {
				return true
			}
		case *ssa.FieldAddr:
			if x.Referrers() != nil {
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) && u != at && reach(u) {
						fd := structField(x.X.Type(), x.Field)
						if a.isItemList(fd.Type()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// declared: the functions that collect the name spaces of a node.
func (a *emitAn) declared() {
	ns := a.p.Named("xmp", "Namespace")
	for _, f := range a.p.LibFuncs() {
		if f.Signature.Recv() == nil || len(f.Params) != 2 || !a.isNode(f.Params[0].Type()) || namedOf(deref(f.Params[1].Type())) != a.doc || f.Signature.Results().Len() != 1 {
			continue
		}
		s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || namedOf(deref(s.Elem())) != ns {
			continue
		}
		a.r.Units["collectors"]++
		a.names, a.rets, a.roles = true, map[flowKey]int{}, map[flowKey]int{}
		failed := false
		for _, l := range a.itemLoops(f) {
			l := l
			t := a.taint(f, l.seeds)
			name := valName(a.p, l.list, 0)
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool { return l.in[in.Block()] && a.hands(in, t) }
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
				return a.excused(f, cond, truth, s, t, part{"", 0, -1}, 0)
			}
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if b == l.head || b == l.exit {
					return 2, ""
				}
				return 0, ""
			}
			q.bad = func(in ssa.Instruction, s pstate) bool { _, ok := in.(*ssa.Return); return ok }
			if bad := q.run(l.body, nil, newPstate()); bad != nil {
				a.r.failAlt("declared", a.keys(f, "elements of "+name), a.p.InstrPos(a.loopPos(l)), "%s: the name space of an element of %s can be left out", a.p.FName(f), name)
				failed = true
			}
		}
		for _, l := range a.itemLoops(f) {
			for _, in := range l.head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				for i, e := range ph.Edges {
					if isBackEdge(l.head.Preds[i], l.head) && !extends(e, ph, map[ssa.Value]bool{}) {
						a.r.failAlt("declared", a.keys(f, "kept from "+valName(a.p, l.list, 0)), a.p.InstrPos(a.loopPos(l)), "%s: what was collected from one element of %s is replaced by what the next one yields", a.p.FName(f), valName(a.p, l.list, 0))
						failed = true
					}
				}
			}
		}
		for _, l := range a.itemLoops(f) {
			for b := range l.in {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					al, ok := st.Addr.(*ssa.Alloc)
					if !ok || l.in[al.Block()] {
						continue
					}
					if _, ok := st.Val.Type().Underlying().(*types.Slice); ok && !extendsVar(st.Val, al, 0) {
						a.r.failAlt("declared", a.keys(f, "kept from "+valName(a.p, l.list, 0)), a.p.InstrPos(st), "%s: what was collected from one element of %s is replaced by what the next one yields", a.p.FName(f), valName(a.p, l.list, 0))
						failed = true
					}
				}
			}
		}
		t := a.taint(f, taint{f.Params[0]: tWhole})
		for _, w := range []part{{"its attributes", tAttrs, -1}, {"its children", tNodes, -1}, {"its model", tModel, -1}, {"its name", tCont, -1}} {
			q, _ := a.query(f, taint{f.Params[0]: tWhole}, t, w, nil)
			if w.bits == tCont {
				own := taint{}
				for k, v := range t {
					if v&tCont != 0 && v&(tParts|tWhole) == 0 {
						own[k] = v
					}
				}
				q.arrive = nil
				q.stop = func(in ssa.Instruction, s pstate) bool { return a.hands(in, own) }
			}
			q.bad = func(in ssa.Instruction, s pstate) bool { _, ok := in.(*ssa.Return); return ok }
			if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil || q.over {
				a.r.failAlt("declared", a.keys(f, w.name), a.p.Pos(f.Pos()), "%s can leave out the name spaces of %s", a.p.FName(f), w.name)
				failed = true
			}
		}
		a.names, a.rets, a.roles = false, map[flowKey]int{}, map[flowKey]int{}
		if !failed {
			a.r.ok("declared: %s (%s): collects the name spaces of name, attributes, model and children", a.p.FName(f), a.p.Pos(f.Pos()))
		}
	}
}

// extends: v is ph with elements appended, on whatever way it was computed.
func extends(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(ph) || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !extends(e, ph, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return extends(x.X, ph, seen)
	case *ssa.Call:
		for _, a := range callArgs(&x.Call) {
			if extends(a, ph, seen) {
				return true
			}
		}
		return false
	case *ssa.Slice:
		return wholeSlice(x) && extends(x.X, ph, seen)
	}
	return false
}

// extendsVar: v is the content of the variable with elements appended.
func extendsVar(v ssa.Value, al *ssa.Alloc, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && x.X == ssa.Value(al)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !extendsVar(e, al, d+1) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return extendsVar(x.X, al, d+1)
	case *ssa.Call:
		for _, a := range callArgs(&x.Call) {
			if a == ssa.Value(al) || extendsVar(a, al, d+1) {
				return true
			}
		}
	case *ssa.Slice:
		return wholeSlice(x) && extendsVar(x.X, al, d+1)
	}
	return false
}
