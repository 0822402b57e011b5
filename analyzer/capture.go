package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: reading a document captures all of it, and only it.

func init() { register("C18", checkCapture) }

type capAn struct {
	*flowAn
	doc, dec *types.Named
	loaders  []*ssa.Function
	skips    map[*ssa.Function]bool
	done     map[flowKey]bool
}

func checkCapture(p *Prog, r *Result) {
	r.Explain = "Rule handed: in every function that decodes a node or an attribute (has a decoder and reports errors), every path to success hands the item on - stores it, passes it to a function of which the same is required, or walks both its attribute and its child list - except where the item is empty, its name is one of the RDF qualifiers the data model leaves out, or the field is tagged as omitted. Rule each: the same for every iteration over a list of nodes, attributes or names, and no such loop is left early with success. Rule fields: every loader fills every field of the document, from decoder state that the loader populates from the input. Rule fresh: decoder state that ends up in a document is created by the loader or reset before its first use. Rule atomic: a loader does not touch the document on a path that later fails, other than in synchronising it. Rule text: the token reader accumulates the character data of an element and keeps its name, attributes and children. Rule placed: a node handed out for content of a namespace is part of the list it was looked up in. Rule kept: a value decoded into a fresh object is stored. Rule space: names are compared with namespace URIs, never with prefixes. Rule verbatim: the texts of the input are stored as they are, but for the white space around them. Rule texts: of a text that is cut into parts, every part is used; a separator that does not occur, or occurs once, loses nothing. Rule builder: collected text is reset only after it was used. Rule merged: an item is taken out of a converted list as a duplicate only where the other one is at another position and each of its fields is equal to, or was handed to, that of the other. All rules are path queries with item flow on SSA."
	a := &capAn{flowAn: newFlow(p, r), skips: map[*ssa.Function]bool{}, done: map[flowKey]bool{}}
	a.doc, a.dec = p.Named("xmp", "Document"), p.Named("xmp", "Decoder")
	if a.doc == nil || a.dec == nil || a.node == nil || a.attr == nil {
		r.undecided("types Document, Decoder, Node and Attr not found")
		r.need("loaders", 2)
		return
	}
	a.findLoaders()
	a.items()
	a.single()
	a.fields()
	a.text()
	a.placed()
	a.kept()
	a.spaces()
	a.selects()
	a.verbatim()
	mergedAway(p, r, func(f *ssa.Function) bool { return readsInput(p, f) }, a.keys)
	r.need("loaders", 2)
	r.need("items", 20)
	r.need("loops", 5)
}

func (a *capAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	return out
}

// docField: addr is field i of a document (base).
func fieldOf(addr ssa.Value, n *types.Named) (base ssa.Value, i int, ok bool) {
	fa, isf := addr.(*ssa.FieldAddr)
	if !isf || namedOf(deref(fa.X.Type())) != n {
		return nil, 0, false
	}
	return fa.X, fa.Field, true
}

// decState: v is read from a field of a decoder.
func (a *capAn) decState(v ssa.Value) (base ssa.Value, i int, ok bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fieldOf(x.X, a.dec)
		}
	case *ssa.Field:
		if namedOf(x.X.Type()) == a.dec {
			return x.X, x.Field, true
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(g.Params) == 0 || namedOf(deref(g.Params[0].Type())) != a.dec {
			return nil, 0, false
		}
		fd := -1
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				bs, i, ok := a.decState(ret.Results[0])
				if !ok || prmIndex(g, bs) != 0 || fd >= 0 && fd != i {
					return nil, 0, false
				}
				fd = i
			}
		}
		return x.Call.Args[0], fd, fd >= 0
	}
	return nil, 0, false
}

// fills: field -> decoder field stored there by f for its document doc.
type fill struct {
	doc ssa.Value
	fld int
	dec ssa.Value
	src int // decoder field, -1: something else read from the input, -2: a constant
	in  ssa.Instruction
}

func (a *capAn) fillsOf(f *ssa.Function, d int) []fill {
	var out []fill
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			base, i, ok := fieldOf(x.Addr, a.doc)
			if !ok {
				return
			}
			if db, di, ok := a.decState(x.Val); ok {
				out = append(out, fill{base, i, db, di, in})
			} else if _, isc := x.Val.(*ssa.Const); !isc {
				out = append(out, fill{base, i, nil, -1, in})
			} else if !isBoolType(x.Val.Type()) {
				out = append(out, fill{base, i, nil, -2, in})
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) || d > 2 || g == f {
				return
			}
			hasDec := false
			for _, prm := range g.Params {
				if namedOf(deref(prm.Type())) == a.dec {
					hasDec = true
				}
			}
			if !hasDec {
				return
			}
			for _, fl := range a.fillsOf(g, d+1) {
				bi := prmIndex(g, fl.doc)
				if bi < 0 {
					continue
				}
				nf := fill{doc: x.Call.Args[bi], fld: fl.fld, src: fl.src, in: in}
				if di := prmIndex(g, fl.dec); di >= 0 {
					nf.dec = x.Call.Args[di]
				} else if fl.src >= 0 {
					continue
				}
				out = append(out, nf)
			}
		}
	})
	return out
}

// findLoaders: the functions that move the state of a decoder into a document,
// seen from where the input is walked.
func (a *capAn) findLoaders() {
	cand := map[*ssa.Function]bool{}
	for _, f := range a.p.LibFuncs() {
		n := map[int]bool{}
		for _, fl := range a.fillsOf(f, 0) {
			if fl.src >= 0 {
				n[fl.fld] = true
			}
		}
		if len(n) >= 2 && a.errs(f) {
			cand[f] = true
		}
	}
	for f := range cand {
		a.loaders = append(a.loaders, f)
	}
	sort.Slice(a.loaders, func(i, j int) bool { return a.p.FName(a.loaders[i]) < a.p.FName(a.loaders[j]) })
	a.r.Units["loaders"] = len(a.loaders)
}

func (a *capAn) errs(f *ssa.Function) bool {
	n := f.Signature.Results().Len()
	return n > 0 && isErrorType(f.Signature.Results().At(n-1).Type())
}

func (a *capAn) decodes(f *ssa.Function) bool {
	if !a.errs(f) {
		return false
	}
	for _, prm := range f.Params {
		if namedOf(deref(prm.Type())) == a.dec {
			return true
		}
	}
	for _, l := range a.loaders {
		if l == f {
			return true
		}
	}
	return false
}

// items checks rules handed and each.
func (a *capAn) items() {
	type ob struct {
		f *ssa.Function
		i int
	}
	var work []ob
	push := func(f *ssa.Function, i int) {
		k := flowKey{f, i}
		if a.done[k] || len(f.Blocks) == 0 {
			return
		}
		a.done[k] = true
		work = append(work, ob{f, i})
	}
	var fs []*ssa.Function
	for _, f := range a.p.LibFuncs() {
		if !a.decodes(f) {
			continue
		}
		fs = append(fs, f)
		for i, prm := range f.Params {
			if a.isItem(prm.Type()) && namedOf(deref(prm.Type())) != a.doc && !(i == 0 && f.Signature.Recv() != nil) {
				push(f, i)
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		seen[f] = true
		a.loopRules(f, push)
	}
	// key loops of the functions loaders use to build up their input
	for _, l := range a.loaders {
		eachInstr(l, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := c.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) || seen[g] || len(g.Blocks) == 0 {
				return
			}
			hasNode, hasAny := false, false
			for _, prm := range g.Params {
				hasNode = hasNode || a.isNode(prm.Type())
				if it, ok := prm.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					hasAny = true
				}
			}
			if hasNode && hasAny {
				seen[g] = true
				a.loopRules(g, push)
				a.builder(g)
			}
			a.keyLists(g, seen, push)
		})
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		a.paramRule(o.f, o.i, push)
	}
}

// single: rule single. Where one element is picked from a list of nodes by a
// fixed position, the list has no further elements, or is walked completely.
func (a *capAn) single() {
	for _, f := range a.p.LibFuncs() {
		if !a.decodes(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			c, ok := intConst(ia.Index)
			if !ok {
				return
			}
			st, ok := ia.X.Type().Underlying().(*types.Slice)
			if !ok || !a.isNode(st.Elem()) {
				return
			}
			// of the input, not of something built here
			u, ok := a.m.canonOf(ia.X).(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || !a.isNode(fa.X.Type()) {
				return
			}
			a.r.Units["picked elements"]++
			list := exprVal(a.p, ia.X)
			lt, lk := a.x.lenOf(ia.X)
			if a.x.prove(lt, zero, c+1-lk, in.Block()) {
				a.r.ok("single: %s (%s): %s has no element after the one used", a.p.FName(f), a.p.InstrPos(in), list)
				return
			}
			for _, l := range a.itemLoops(f) {
				if a.m.canonOf(l.list) == a.m.canonOf(ia.X) && a.loopHands(l) {
					a.r.ok("single: %s (%s): all of %s is walked as well", a.p.FName(f), a.p.InstrPos(in), list)
					return
				}
			}
			a.r.failAlt("single", a.keys(f, fmt.Sprintf("element %d of %s", c, list)), a.p.InstrPos(in), "%s uses element %d of %s as if it were the only one; further elements are dropped", a.p.FName(f), c, list)
		})
	}
}

// keyLists: functions called from here that list the entries of a map.
func (a *capAn) keyLists(f *ssa.Function, seen map[*ssa.Function]bool, push func(f *ssa.Function, i int)) {
	check := func(g *ssa.Function) {
		if g == nil || !a.p.InModule(g) || seen[g] || len(g.Blocks) == 0 || len(g.Params) != 1 || g.Signature.Results().Len() != 1 {
			return
		}
		_, isMap := g.Params[0].Type().Underlying().(*types.Map)
		_, isList := g.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if isMap && isList {
			seen[g] = true
			a.loopRules(g, push)
		}
	}
	check(f)
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			check(c.Call.StaticCallee())
		}
	})
}

// builder: a function that builds nodes from values of any kind hands the
// value on whatever its kind.
func (a *capAn) builder(f *ssa.Function) {
	for i, prm := range f.Params {
		if it, ok := prm.Type().Underlying().(*types.Interface); !ok || it.NumMethods() != 0 {
			continue
		}
		t := a.taint(f, taint{prm: tCont})
		q := a.query(f, t, tNodes|tAttrs, nil)
		heads := map[*ssa.BasicBlock]bool{}
		for _, l := range a.itemLoops(f) {
			bits := t[l.list] | t[a.m.canonOf(l.list)]
			if c, ok := l.list.(*ssa.Call); ok {
				for _, x := range c.Call.Args {
					bits |= t[x] // its keys
				}
			}
			if bits&tAny != 0 && a.loopHands(l) {
				heads[l.head] = true
			}
		}
		arrive := q.arrive
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if heads[b] {
				return 1, ""
			}
			return arrive(b, s)
		}
		prune := q.prune
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			c, tr := literal(cond, truth, s)
			if nilTest(c, tr, s, func(v ssa.Value) bool { return s.resolve(v) == ssa.Value(prm) }) {
				return true
			}
			if b, ok := c.(*ssa.BinOp); ok && tr == (b.Op == token.EQL) {
				// arrays of arrays do not exist in XMP
				if p2, ok := b.X.(*ssa.Parameter); ok && isStringType(p2.Type()) {
					if k, ok := strConst(b.Y); ok && k == "" {
						return true
					}
				}
			}
			return prune(cond, truth, s)
		}
		q.bad = func(in ssa.Instruction, s pstate) bool {
			if _, ok := in.(*ssa.Return); !ok || !q.okReturn(in, s) && a.errs(f) {
				return false
			}
			for c, tr := range s.fact {
				if !tr {
					continue
				}
				switch x := c.(type) {
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && isPredicate(g) {
						for _, y := range x.Call.Args {
							if t[y]&tAny != 0 {
								return true
							}
						}
					}
				case *ssa.Extract:
					if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && t[ta.X]&tAny != 0 {
						return true
					}
				}
			}
			return false
		}
		a.r.Units["builders"]++
		name := a.p.FName(f) + ": " + prm.Name()
		bad := q.run(f.Blocks[0], nil, newPstate())
		switch {
		case q.over:
			a.r.undecided("%s: too many paths", a.p.FName(f))
		case bad != nil:
			a.r.failAlt("handed", append(a.keys(f, prm.Name()), a.keys(f, fmt.Sprintf("argument %d", i))...), a.p.InstrPos(bad), "%s returns here on a path that drops %s although its kind is known", a.p.FName(f), prm.Name())
		default:
			a.r.ok("handed: %s (%s): a value of a known kind is always handed on", name, a.p.Pos(f.Pos()))
		}
	}
}

// push obligations on the callees that receive item content.
func (a *capAn) follow(f *ssa.Function, t taint, in map[*ssa.BasicBlock]bool, push func(f *ssa.Function, i int)) {
	eachInstr(f, func(i ssa.Instruction) {
		c, ok := i.(*ssa.Call)
		if !ok || in != nil && !in[i.Block()] {
			return
		}
		g := c.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || g.Signature.Results().Len() > 0 && !a.errs(g) {
			return
		}
		for k, x := range c.Call.Args {
			if t[x]&(tWhole|tCont|tHold) != 0 && !(k == 0 && g.Signature.Recv() != nil) && a.role(g, k, t[x]) {
				push(g, k)
			}
		}
	})
}

func (a *capAn) paramRule(f *ssa.Function, i int, push func(f *ssa.Function, i int)) {
	prm := f.Params[i]
	t := a.taint(f, taint{prm: a.paramBits(f, i)})
	a.r.Units["items"]++
	a.follow(f, t, nil, push)
	want := []int{tNodes | tAttrs}
	if a.isNode(prm.Type()) {
		want = []int{tNodes, tAttrs}
		if rc := f.Signature.Recv(); rc != nil {
			if _, list := deref(rc.Type()).Underlying().(*types.Slice); list {
				want = want[:1] // an array node has no properties of its own
			}
		}
	}
	for _, w := range want {
		q := a.query(f, t, w, nil)
		if q.bad == nil {
			q.bad = func(in ssa.Instruction, s pstate) bool {
				if !a.errs(f) {
					_, ok := in.(*ssa.Return)
					return ok
				}
				return q.okReturn(in, s)
			}
		}
		a.byError(q, t)
		bad := q.run(f.Blocks[0], nil, newPstate())
		if q.over {
			a.r.undecided("%s: too many paths", a.p.FName(f))
			return
		}
		if bad != nil {
			a.r.failAlt("handed", a.keys(f, prm.Name()+" "+partName(w, a.isNode(prm.Type()))), a.p.InstrPos(bad), "%s reports success here on a path that drops %s of %s", a.p.FName(f), partName(w, a.isNode(prm.Type())), prm.Name())
			return
		}
	}
	a.r.ok("handed: %s (%s): every successful path hands %s on", a.p.FName(f)+": "+prm.Name(), a.p.Pos(f.Pos()), prm.Name())
}

func partName(w int, node bool) string {
	if !node {
		return "the content"
	}
	if w == tNodes {
		return "the children"
	}
	return "the attributes"
}

// query: paths that do not hand on part w of the item.
func (a *capAn) query(f *ssa.Function, t taint, w int, own *itemLoop) *pathQ {
	restrict := func(bits int) taint {
		o := taint{}
		for k, v := range t {
			if v&bits != 0 {
				o[k] = v & bits
			}
		}
		return o
	}
	full := tWhole | tCont | tHold | tDesc | tDescList
	tw := restrict(full | w)
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range a.itemLoops(f) {
		if own != nil && l.head == own.head || l.str && !a.isItemList(l.list.Type()) {
			continue
		}
		pt := a.part(l, t)
		if pt != 0 && (pt&(full|w)) != 0 && a.loopHands(l) {
			heads[l.head] = true
		}
	}
	q := &pathQ{f: f, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if a.hands(in, tw) {
			return true
		}
		// a known value recorded as a flag
		if st, ok := in.(*ssa.Store); ok {
			if _, isc := st.Val.(*ssa.Const); isc {
				if _, local := addrBase(st.Addr).(*ssa.Alloc); !local {
					for c, truth := range s.fact {
						if b, ok := c.(*ssa.BinOp); ok && truth && b.Op == token.EQL && (tw[b.X]|tw[b.Y])&tCont != 0 {
							return true
						}
					}
				}
			}
		}
		return false
	}
	q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
		if heads[b] {
			return 1, ""
		}
		return 0, ""
	}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool { return a.excused(cond, truth, s, t, w) }
	return q
}

// excused: on this branch the item may be left out.
func (a *capAn) excused(cond ssa.Value, truth bool, s pstate, t taint, w int) bool {
	cond, truth = literal(cond, truth, s)
	if _, mask, set, ok := flagTest(cond); ok {
		k, known := a.p.pkgConst("xmp", "fOmit")
		return known && mask == k && set == truth
	}
	switch x := cond.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !truth {
			return false
		}
		if a.isSkip(g) {
			return true
		}
		return g.Name() == "IsZero" && len(x.Call.Args) == 1 && t[x.Call.Args[0]]&tWhole != 0
	case *ssa.Extract:
		// already known
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return truth && t[lk.Index]&tAny != 0
		}
	case *ssa.BinOp:
		if l := lenZero(x, truth); l != nil {
			bits := t[l]
			return w == tNodes|tAttrs && bits&tCont != 0 || bits&w != 0 && bits&tAny&^(tNodes|tAttrs) == 0
		}
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if truth != (x.Op == token.EQL) {
			return false
		}
		for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if c, ok := strConst(pr[1]); ok && c == "" && t[pr[0]]&tCont != 0 && w == tNodes|tAttrs {
				return true
			}
			if a.isRDF(pr[1]) && a.isSpace(pr[0]) {
				return true
			}
		}
	}
	return false
}

// isSpace: v is the namespace part of a name.
func (a *capAn) isSpace(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL && isXMLName(fa.X.Type()) && fa.Field == 0
	case *ssa.Field:
		return isXMLName(x.X.Type()) && x.Field == 0
	}
	return false
}

func isXMLName(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Name() == "Name" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml"
}

// isRDF: v is the URI of the RDF namespace.
func (a *capAn) isRDF(v ssa.Value) bool {
	if c, ok := strConst(v); ok {
		return strings.HasSuffix(c, "rdf-syntax-ns#")
	}
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return false
	}
	v = c.Call.Args[0]
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			break
		}
		v = u.X
	}
	g, ok := v.(*ssa.Global)
	return ok && strings.EqualFold(g.Name(), "nsRDF")
}

// names left out by the data model: namespace declarations and the RDF
// qualifiers that describe the form of a value.
var skipNames = map[string]bool{"rdf:parseType": true, "rdf:type": true, "xml:lang": true}

// isSkip: f tells, from a name alone, whether it is one of the names left out.
func (a *capAn) isSkip(f *ssa.Function) bool {
	if v, ok := a.skips[f]; ok {
		return v
	}
	a.skips[f] = false
	sig := f.Signature
	if !a.p.InModule(f) || len(f.Params) != 1 || !isXMLName(f.Params[0].Type()) || sig.Results().Len() != 1 || len(f.Blocks) == 0 {
		return false
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	part := func(v ssa.Value) int { // 1: Space, 2: Local
		var base ssa.Value
		var fd int
		switch x := v.(type) {
		case *ssa.Field:
			base, fd = x.X, x.Field
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok || x.Op != token.MUL {
				return 0
			}
			base, fd = fa.X, fa.Field
		default:
			return 0
		}
		if !isXMLName(base.Type()) {
			return 0
		}
		return fd + 1
	}
	named := func(cond ssa.Value, truth bool, s pstate) bool {
		cond, truth = literal(cond, truth, s)
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || truth != (b.Op == token.EQL) {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, ok := strConst(pr[1])
			if !ok {
				continue
			}
			switch part(pr[0]) {
			case 1:
				return c == "xmlns"
			case 2:
				return skipNames[c]
			}
		}
		return false
	}
	q := &pathQ{f: f, m: a.m}
	q.prune = named
	q.bad = func(in ssa.Instruction, s pstate) bool {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return false
		}
		v := s.resolve(ret.Results[0])
		if c, ok := v.(*ssa.Const); ok {
			return c.Value != nil && c.Value.String() == "true"
		}
		// a condition returned as is: true only for a left out name
		if lk, ok := v.(*ssa.Lookup); ok {
			return !a.skipTable(lk)
		}
		return !named(v, true, s)
	}
	bad := q.run(f.Blocks[0], nil, newPstate())
	res := bad == nil && !q.over
	a.skips[f] = res
	if res {
		a.r.Units["skip tests"]++
	}
	return res
}

// skipTable: a set of names declared in the package, looked up by local name.
func (a *capAn) skipTable(lk *ssa.Lookup) bool {
	u, ok := lk.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	ok = false
	for _, f := range a.p.Funcs {
		bad := false
		eachInstr(f, func(in ssa.Instruction) {
			mu, is := in.(*ssa.MapUpdate)
			if !is {
				return
			}
			mm, is := mu.Map.(*ssa.MakeMap)
			if is && mm.Referrers() != nil {
				for _, r := range *mm.Referrers() {
					if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(g) {
						c, isc := strConst(mu.Key)
						if !isc || !skipNames[c] {
							bad = true
						}
						ok = true
					}
				}
			}
			if l, is := mu.Map.(*ssa.UnOp); is && l.X == ssa.Value(g) {
				bad = true
			}
		})
		if bad {
			return false
		}
	}
	return ok
}

func (a *capAn) loopRules(f *ssa.Function, push func(f *ssa.Function, i int)) {
	for _, l := range a.itemLoops(f) {
		l := l
		item := a.isItemList(l.list.Type())
		if !item && l.str {
			// names and keys: in functions that hand them on
			if !a.loopHands(l) {
				continue
			}
		}
		t := a.taint(f, l.seeds)
		if !a.loopHands(l) {
			// a loop over items that hands nothing on: it only counts as
			// handling when nested handling loops exist
			nested := false
			for _, n := range a.itemLoops(f) {
				if n.head != l.head && l.in[n.head] && a.part(n, t) != 0 && a.loopHands(n) {
					nested = true
				}
			}
			if !nested {
				continue
			}
		}
		a.r.Units["loops"]++
		a.textRule(f, l, func(cond ssa.Value, truth bool, s pstate, t taint) bool {
			return a.excused(cond, truth, s, t, tNodes|tAttrs)
		}, a.success, a.keys, a.loopPos(l))
		if !l.str {
			a.follow(f, t, l.in, push)
		}
		name := valName(a.p, l.list, 0)
		what := "elements of " + name
		want := []int{tNodes | tAttrs}
		if st, ok := deref(l.list.Type()).Underlying().(*types.Slice); ok && a.isNode(st.Elem()) {
			want = []int{tNodes, tAttrs}
		}
		failed := false
		for _, w := range want {
			q := a.query(f, t, w, &l)
			inner := q.arrive
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if st, m := inner(b, s); st != 0 {
					return st, m
				}
				if b == l.head || b == l.exit {
					return 2, ""
				}
				return 0, ""
			}
			q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
			stop := q.stop
			q.stop = func(in ssa.Instruction, s pstate) bool { return l.in[in.Block()] && stop(in, s) }
			a.byError(q, t)
			if bad := q.run(l.body, nil, newPstate()); bad != nil || q.over {
				if q.over {
					a.r.undecided("%s: too many paths in the loop over %s", a.p.FName(f), name)
				} else {
					a.r.failAlt("each", a.keys(f, what), a.p.InstrPos(a.loopPos(l)), "%s: an iteration over %s can end without handing the element on (%s)", a.p.FName(f), name, a.p.InstrPos(bad))
				}
				failed = true
				break
			}
		}
		if failed {
			continue
		}
		// left early
		q := &pathQ{f: f, m: a.m}
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			switch {
			case b == l.head:
				return 1, ""
			case b == l.exit:
				return 2, ""
			}
			return 0, ""
		}
		q.bad = func(in ssa.Instruction, s pstate) bool { return a.success(q, f, in, s) }
		if bad := q.run(l.body, nil, newPstate()); bad != nil {
			a.r.failAlt("each", a.keys(f, what+": left early"), a.p.InstrPos(a.loopPos(l)), "%s: the loop over %s can be left early without an error (%s)", a.p.FName(f), name, a.p.InstrPos(bad))
			continue
		}
		a.r.ok("each: %s (%s): every iteration hands its element on", a.p.FName(f)+": "+what, a.p.InstrPos(a.loopPos(l)))
	}
}

func (a *capAn) success(q *pathQ, f *ssa.Function, in ssa.Instruction, s pstate) bool {
	if !a.errs(f) {
		_, ok := in.(*ssa.Return)
		return ok
	}
	return q.okReturn(in, s)
}

func (a *capAn) loopPos(l itemLoop) ssa.Instruction {
	for _, in := range l.body.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	return l.body.Instrs[0]
}

// fields: rules fields, fresh and atomic.
func (a *capAn) fields() {
	ds := a.doc.Underlying().(*types.Struct)
	for _, f := range a.loaders {
		fs := a.fillsOf(f, 0)
		for i := 0; i < ds.NumFields(); i++ {
			fd := ds.Field(i)
			if b, ok := fd.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				continue
			}
			// every success path fills the field
			var here []fill
			for _, fl := range fs {
				if fl.fld == i && fl.src != -2 {
					here = append(here, fl)
				}
			}
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool {
				for _, fl := range here {
					if fl.in == in {
						return true
					}
				}
				return false
			}
			q.bad = q.okReturn
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool { return a.noDoc(cond, truth, s) }
			key := a.keys(f, "field "+fd.Name())
			if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
				a.r.failAlt("fields", key, a.p.InstrPos(bad), "%s reports success without setting %s of the document", a.p.FName(f), fd.Name())
				continue
			}
			// the source is populated from the input
			bad := false
			for _, fl := range here {
				if fl.src >= 0 && !a.populated(f, fl.src) {
					a.r.failAlt("fields", key, a.p.InstrPos(fl.in), "%s sets %s of the document from decoder state that nothing read from the input is ever stored in", a.p.FName(f), fd.Name())
					bad = true
				}
			}
			if bad {
				continue
			}
			a.r.Units["fields"]++
			a.r.ok("fields: %s (%s): set on every successful path from populated decoder state", key[0], a.p.Pos(f.Pos()))
			for _, fl := range here {
				if fl.src >= 0 {
					a.freshState(f, fl)
				}
			}
		}
		a.atomic(f, fs)
	}
}

// noDoc: the branch taken when there is no document to fill.
func (a *capAn) noDoc(cond ssa.Value, truth bool, s pstate) bool {
	return nilTest(cond, truth, s, func(v ssa.Value) bool {
		return namedOf(deref(v.Type())) == a.doc && isPtr(v.Type())
	})
}

// populated: below f, something is put into field i of a decoder.
func (a *capAn) populated(f *ssa.Function, i int) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == nil || seen[g] || !a.p.InModule(g) {
			return false
		}
		seen[g] = true
		found := false
		eachInstr(g, func(in ssa.Instruction) {
			if found {
				return
			}
			switch x := in.(type) {
			case *ssa.Store:
				if _, j, ok := fieldOf(x.Addr, a.dec); ok && j == i && !emptyValue(x.Val) {
					found = true
				}
			case *ssa.MapUpdate:
				if _, j, ok := a.decState(x.Map); ok && j == i {
					found = true
				}
			case ssa.CallInstruction:
				for _, arg := range x.Common().Args {
					if _, j, ok := fieldOf(arg, a.dec); ok && j == i {
						found = true
					}
				}
				for _, h := range a.p.Callees(x.Common()) {
					if found || visit(h) {
						found = true
					}
				}
			}
		})
		return found
	}
	return visit(f)
}

// emptyValue: a constant or an empty container.
func emptyValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.ChangeType:
		return emptyValue(x.X)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			h, okh := intConst(x.High)
			return x.High != nil && okh && h == 0
		}
		arr, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return false
		}
		if arr.Len() == 0 {
			return true
		}
		h, okh := intConst(x.High)
		return okh && h == 0 // make with constant capacity
	}
	return false
}

// resets: on every path g puts an empty value into field i of its parameter k.
func (a *capAn) resets(g *ssa.Function, k, i, d int) bool {
	if d > 3 || len(g.Blocks) == 0 || k >= len(g.Params) {
		return false
	}
	q := &pathQ{f: g, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool { return a.isReset(in, g.Params[k], i, d) }
	q.bad = func(in ssa.Instruction, s pstate) bool {
		_, ok := in.(*ssa.Return)
		return ok || a.touches(in, g.Params[k], i)
	}
	return q.run(g.Blocks[0], nil, newPstate()) == nil && !q.over
}

func (a *capAn) isReset(in ssa.Instruction, dec ssa.Value, i, d int) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if b, j, ok := fieldOf(x.Addr, a.dec); ok && j == i && a.m.canonOf(b) == a.m.canonOf(dec) {
			return emptyValue(x.Val) || d == 0
		}
		// the whole state at once
		if a.m.canonOf(x.Addr) == a.m.canonOf(dec) {
			return true
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) {
			return false
		}
		for k, arg := range x.Call.Args {
			if a.m.canonOf(arg) == a.m.canonOf(dec) && a.resets(g, k, i, d+1) {
				return true
			}
		}
	}
	return false
}

// touches: the instruction may use field i of dec.
func (a *capAn) touches(in ssa.Instruction, dec ssa.Value, i int) bool {
	same := func(v ssa.Value) bool { return a.m.canonOf(v) == a.m.canonOf(dec) }
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if x.Field != i || namedOf(deref(x.X.Type())) != a.dec || !same(x.X) || x.Referrers() == nil {
			return false
		}
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				continue
			}
			return true
		}
	case ssa.CallInstruction:
		for _, arg := range x.Common().Args {
			if namedOf(deref(arg.Type())) == a.dec && same(arg) {
				for _, g := range a.p.Callees(x.Common()) {
					if a.reachesField(g, i, map[*ssa.Function]bool{}) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *capAn) reachesField(g *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[g] || !a.p.InModule(g) {
		return false
	}
	seen[g] = true
	found := false
	eachInstr(g, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if namedOf(deref(x.X.Type())) == a.dec && x.Field == i {
				found = true
			}
		case *ssa.Field:
			if namedOf(x.X.Type()) == a.dec && x.Field == i {
				found = true
			}
		case ssa.CallInstruction:
			for _, h := range a.p.Callees(x.Common()) {
				found = found || a.reachesField(h, i, seen)
			}
		}
	})
	return found
}

func (a *capAn) freshState(f *ssa.Function, fl fill) {
	ds := a.dec.Underlying().(*types.Struct)
	name := ds.Field(fl.src).Name()
	key := a.keys(f, "decoder "+name)
	dec := a.m.canonOf(fl.dec)
	if prmIndex(f, dec) < 0 {
		// created here
		switch x := dec.(type) {
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && a.p.InModule(g) && a.makes(g) {
				a.r.ok("fresh: %s (%s): the decoder is created by this call", key[0], a.p.InstrPos(fl.in))
				return
			}
		case *ssa.Alloc:
			a.r.ok("fresh: %s (%s): the decoder is created by this call", key[0], a.p.InstrPos(fl.in))
			return
		}
		a.r.failAlt("fresh", key, a.p.InstrPos(fl.in), "%s fills the document from a decoder of unknown origin", a.p.FName(f))
		return
	}
	q := &pathQ{f: f, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool { return a.isReset(in, dec, fl.src, 0) }
	q.bad = func(in ssa.Instruction, s pstate) bool { return a.touches(in, dec, fl.src) }
	if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
		a.r.failAlt("fresh", key, a.p.InstrPos(bad), "%s uses %s left over in the decoder from a previous document", a.p.FName(f), name)
		return
	}
	a.r.ok("fresh: %s (%s): reset before its first use", key[0], a.p.InstrPos(fl.in))
}

// makes: g returns an object it has created.
func (a *capAn) makes(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) == 0 {
				return false
			}
			for _, v := range retValues(ret, 0) {
				if _, ok := a.m.canonOf(v).(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return len(g.Blocks) > 0
}

func (a *capAn) atomic(f *ssa.Function, fs []fill) {
	for _, fl := range fs {
		doc := a.m.canonOf(fl.doc)
		q := &pathQ{f: f, m: a.m}
		q.bad = func(in ssa.Instruction, s pstate) bool {
			ret, ok := in.(*ssa.Return)
			if !ok || !a.errs(f) {
				return false
			}
			v := s.resolve(ret.Results[len(ret.Results)-1])
			if isNilConst(v) {
				return false
			}
			if isNil, known := s.fact[a.m.canonOf(v)]; known && isNil {
				return false
			}
			if e, ok := v.(*ssa.Extract); ok {
				v = e.Tuple
			}
			if c, ok := v.(*ssa.Call); ok {
				for _, arg := range c.Call.Args {
					if a.m.canonOf(arg) == doc {
						return false // an error about the document filled
					}
				}
				// a wrapped one
				if errorMaker(&c.Call) && a.wrapsDocError(c, doc) {
					return false
				}
			}
			return true
		}
		fd := structField(a.doc, fl.fld)
		key := a.keys(f, "set "+fd.Name())
		if bad := q.run(nil, fl.in, newPstate()); bad != nil {
			a.r.failAlt("atomic", key, a.p.InstrPos(fl.in), "%s sets %s of the document here and can fail afterwards (%s), leaving a half-read document", a.p.FName(f), fd.Name(), a.p.InstrPos(bad))
			continue
		}
		a.r.Units["stores"]++
		a.r.ok("atomic: %s (%s): nothing fails after this other than synchronising the document", key[0], a.p.InstrPos(fl.in))
	}
}

func (a *capAn) wrapsDocError(c *ssa.Call, doc ssa.Value) bool {
	found := false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			for _, arg := range x.Call.Args {
				if a.m.canonOf(arg) == doc {
					found = true
				}
			}
		case *ssa.MakeInterface:
			walk(x.X, d+1)
		case *ssa.ChangeInterface:
			walk(x.X, d+1)
		case *ssa.Slice:
			walk(x.X, d+1)
		case *ssa.UnOp:
			walk(x.X, d+1)
		case *ssa.Alloc:
			if x.Referrers() == nil {
				return
			}
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					walk(y.Val, d+1)
				case *ssa.IndexAddr:
					if y.Referrers() != nil {
						for _, r2 := range *y.Referrers() {
							if st, ok := r2.(*ssa.Store); ok {
								walk(st.Val, d+1)
							}
						}
					}
				}
			}
		}
	}
	for _, arg := range c.Call.Args {
		walk(arg, 0)
	}
	return found
}

// text: the token reader keeps everything it is given.
func (a *capAn) text() {
	for _, f := range a.p.LibFuncs() {
		if len(f.Params) == 0 || !a.isNode(f.Params[0].Type()) || !a.errs(f) {
			continue
		}
		reads := false
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if pkg, name := extCallee(&c.Call); pkg == "encoding/xml" && (name == "Token" || name == "RawToken") {
					reads = true
				}
			}
		})
		if !reads {
			continue
		}
		a.r.Units["readers"]++
		a.chardata(f)
		a.parts(f)
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := c.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) || len(g.Blocks) == 0 {
				return
			}
			for _, x := range c.Call.Args {
				if sl, ok := x.Type().Underlying().(*types.Slice); ok {
					if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "Attr" && n.Obj().Pkg().Path() == "encoding/xml" {
						a.loopRules(g, func(*ssa.Function, int) {})
					}
				}
			}
		})
		a.childTokens(f)
	}
	a.r.need("readers", 1)
}

func (a *capAn) asserts(f *ssa.Function, name string) []*ssa.TypeAssert {
	var out []*ssa.TypeAssert
	eachInstr(f, func(in ssa.Instruction) {
		if t, ok := in.(*ssa.TypeAssert); ok {
			n := namedOf(t.AssertedType)
			if n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml" {
				out = append(out, t)
			}
		}
	})
	return out
}

// matched: the block entered when the assertion succeeded.
func matched(t *ssa.TypeAssert) *ssa.BasicBlock {
	if !t.CommaOk || t.Referrers() == nil {
		return nil
	}
	for _, r := range *t.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 1 || e.Referrers() == nil {
			continue
		}
		for _, r2 := range *e.Referrers() {
			if iff, ok := r2.(*ssa.If); ok {
				return iff.Block().Succs[0]
			}
		}
	}
	return nil
}

func (a *capAn) chardata(f *ssa.Function) {
	key := a.keys(f, "character data")
	ts := a.asserts(f, "CharData")
	if len(ts) == 0 {
		a.r.failAlt("text", key, a.p.Pos(f.Pos()), "%s reads tokens but ignores character data", a.p.FName(f))
		return
	}
	for _, ta := range ts {
		blk := matched(ta)
		if blk == nil {
			a.r.undecided("%s: unrecognised test for character data", a.p.FName(f))
			continue
		}
		seeds := taint{}
		for _, r := range *ta.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
				seeds[e] = tCont
			}
		}
		t := a.taint(f, seeds)
		adds := func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() != "append" || len(x.Call.Args) < 2 || t[x.Call.Args[1]] == 0 {
						return false
					}
					// onto what is there already
					return !emptyValue(x.Call.Args[0])
				}
				pkg, name := extCallee(&x.Call)
				if (pkg == "bytes" || pkg == "strings") && strings.HasPrefix(name, "Write") && len(x.Call.Args) > 1 {
					return t[x.Call.Args[1]] != 0
				}
			case *ssa.BinOp:
				if x.Op != token.ADD {
					return false
				}
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					_, isc := pr[1].(*ssa.Const)
					if t[pr[0]] != 0 && !isc && a.carried(pr[1]) {
						return true
					}
				}
			}
			return false
		}
		var head *ssa.BasicBlock
		for _, b := range f.Blocks {
			if in := blocksOfLoop(b); in != nil && in[blk] && (head == nil || head.Dominates(b)) {
				head = b
			}
		}
		q := &pathQ{f: f, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool { return adds(in) }
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			return a.excused(cond, truth, s, t, tNodes|tAttrs)
		}
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if b == head {
				return 2, ""
			}
			return 0, ""
		}
		q.bad = q.okReturn
		if bad := q.run(blk, nil, newPstate()); bad != nil {
			a.r.failAlt("text", key, a.p.InstrPos(blk.Instrs[0]), "%s: character data is not added to what was read before (text may come in several pieces)", a.p.FName(f))
			return
		}
		// and it ends up as the value of the node
		vf := -1
		st := a.node.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Value" {
				vf = i
			}
		}
		kept := false
		eachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && a.isNode(fa.X.Type()) && fa.Field == vf && t[s.Val] != 0 {
					kept = true
				}
			}
		})
		if !kept {
			a.r.failAlt("text", key, a.p.Pos(f.Pos()), "%s: the character data read never becomes the value of the node", a.p.FName(f))
			return
		}
		if pos := a.discarded(f, t, head); pos != "" {
			a.r.failAlt("text", key, pos, "%s: the character data read so far is thrown away here", a.p.FName(f))
			return
		}
		if !a.valueInLoop(f, t, vf) {
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool {
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				return ok && a.isNode(fa.X.Type()) && fa.Field == vf && t[st.Val] != 0
			}
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
				lc, lt := literal(cond, truth, s)
				if l := lenZero(lc, lt); l != nil && t[l] != 0 {
					return true
				}
				return a.excused(cond, truth, s, t, tNodes|tAttrs)
			}
			q.bad = q.okReturn
			if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
				a.r.failAlt("text", key, a.p.InstrPos(bad), "%s reports success on a path where the character data read does not become the value of the node", a.p.FName(f))
				return
			}
		}
	}
	a.r.ok("text: %s (%s): every piece of character data is added to the value", key[0], a.p.Pos(f.Pos()))
}

// valueInLoop: the value is put together while reading.
func (a *capAn) valueInLoop(f *ssa.Function, t taint, vf int) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && t[st.Val] != 0 {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && a.isNode(fa.X.Type()) && fa.Field == vf && innermost(in.Block()) != nil {
				found = true
			}
		}
	})
	return found
}

// discarded: somewhere in the loop what was collected is replaced by something
// that does not contain it.
func (a *capAn) discarded(f *ssa.Function, t taint, head *ssa.BasicBlock) string {
	if head == nil {
		return ""
	}
	loop := blocksOfLoop(head)
	pos := ""
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || t[phi] == 0 {
			continue
		}
		seen := map[ssa.Value]bool{phi: true}
		var keeps func(v ssa.Value) bool
		keeps = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			switch x := v.(type) {
			case *ssa.Phi:
				seen[v] = true
				for _, e := range x.Edges {
					if !keeps(e) {
						return false
					}
				}
				return true
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					for _, y := range x.Call.Args {
						if keeps(y) {
							return true
						}
					}
					return false
				}
				for _, y := range x.Call.Args {
					if keeps(y) {
						return true
					}
				}
				return false
			case *ssa.BinOp:
				return keeps(x.X) || keeps(x.Y)
			case *ssa.Convert:
				return keeps(x.X)
			case *ssa.ChangeType:
				return keeps(x.X)
			}
			return false
		}
		for i, e := range phi.Edges {
			if loop[head.Preds[i]] && !keeps(e) {
				pos = a.p.InstrPos(head.Preds[i].Instrs[len(head.Preds[i].Instrs)-1])
				if v, ok := e.(ssa.Instruction); ok {
					pos = a.p.InstrPos(v)
				}
			}
		}
	}
	// a buffer emptied while reading
	for b := range loop {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				pkg, name := extCallee(&c.Call)
				if (pkg == "bytes" || pkg == "strings") && (name == "Reset" || name == "Truncate") && len(c.Call.Args) > 0 && t[c.Call.Args[0]] != 0 {
					pos = a.p.InstrPos(in)
				}
			}
		}
	}
	return pos
}

// carried: v holds what earlier iterations produced.
func (a *capAn) carried(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL
	}
	return false
}

// parts: every success path sets all parts of the node.
func (a *capAn) parts(f *ssa.Function) {
	st := a.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		i := i
		fd := st.Field(i)
		if _, ok := fd.Type().Underlying().(*types.Interface); ok {
			continue
		}
		q := &pathQ{f: f, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool {
			isF := func(v ssa.Value) bool {
				fa, ok := v.(*ssa.FieldAddr)
				return ok && fa.Field == i && a.isNode(fa.X.Type()) && prmIndex(f, a.m.canonOf(fa.X)) == 0
			}
			switch x := in.(type) {
			case *ssa.Store:
				return isF(x.Addr)
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					return false
				}
				for _, arg := range x.Call.Args {
					if isF(arg) {
						return true
					}
				}
				// a helper completing the node
				g := x.Call.StaticCallee()
				if g != nil && a.p.InModule(g) {
					for k, arg := range x.Call.Args {
						if prmIndex(f, a.m.canonOf(arg)) == 0 && a.setsPart(g, k, i) {
							return true
						}
					}
				}
			}
			return false
		}
		q.bad = q.okReturn
		key := a.keys(f, "part "+fd.Name())
		// fields set conditionally on a token inside the loop do not count for
		// the value: it must be set even when no text is read, or stay empty
		if fd.Name() == "Value" {
			continue
		}
		if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
			a.r.failAlt("text", key, a.p.InstrPos(bad), "%s reports success without setting %s of the node", a.p.FName(f), fd.Name())
			continue
		}
		a.r.ok("text: %s (%s): set on every successful path", key[0], a.p.Pos(f.Pos()))
	}
}

func (a *capAn) setsPart(g *ssa.Function, k, i int) bool {
	if len(g.Blocks) == 0 || k >= len(g.Params) {
		return false
	}
	q := &pathQ{f: g, m: a.m}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fa.Field == i && a.isNode(fa.X.Type()) && prmIndex(g, a.m.canonOf(fa.X)) == k
	}
	q.bad = func(in ssa.Instruction, s pstate) bool { _, ok := in.(*ssa.Return); return ok }
	return q.run(g.Blocks[0], nil, newPstate()) == nil
}

// childTokens: the node created for a start element is kept.
func (a *capAn) childTokens(f *ssa.Function) {
	key := a.keys(f, "child elements")
	ts := a.asserts(f, "StartElement")
	if len(ts) == 0 {
		a.r.failAlt("text", key, a.p.Pos(f.Pos()), "%s reads tokens but ignores child elements", a.p.FName(f))
		return
	}
	for _, ta := range ts {
		blk := matched(ta)
		if blk == nil {
			a.r.undecided("%s: unrecognised test for child elements", a.p.FName(f))
			continue
		}
		var head *ssa.BasicBlock
		for _, b := range f.Blocks {
			if in := blocksOfLoop(b); in != nil && in[blk] && (head == nil || head.Dominates(b)) {
				head = b
			}
		}
		// the nodes filled from this token
		seeds := taint{}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !blk.Dominates(in.Block()) {
				return
			}
			g := c.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) {
				return
			}
			for _, arg := range c.Call.Args {
				if a.isNode(arg.Type()) && isPtr(arg.Type()) {
					seeds[arg] = tWhole
				}
			}
		})
		t := a.taint(f, seeds)
		q := &pathQ{f: f, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool { return a.hands(in, t) }
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if b == head {
				return 2, ""
			}
			return 0, ""
		}
		q.bad = q.okReturn
		if len(seeds) == 0 || q.run(blk, nil, newPstate()) != nil {
			a.r.failAlt("text", key, a.p.InstrPos(blk.Instrs[0]), "%s: a child element can be read without being kept", a.p.FName(f))
			return
		}
		ok := false
		eachInstr(f, func(in ssa.Instruction) {
			st, is := in.(*ssa.Store)
			if is && t[st.Val]&tHold != 0 {
				if fa, is := st.Addr.(*ssa.FieldAddr); is && a.isNode(fa.X.Type()) {
					ok = true
				}
			}
			if c, is := in.(*ssa.Call); is && a.callHands(&c.Call, t) {
				if _, bi := c.Call.Value.(*ssa.Builtin); !bi {
					ok = true
				}
			}
		})
		if !ok {
			a.r.failAlt("text", key, a.p.Pos(f.Pos()), "%s: the child elements read never become children of the node", a.p.FName(f))
			return
		}
	}
	a.r.ok("text: %s (%s): every child element read becomes a child of the node", key[0], a.p.Pos(f.Pos()))
}

// placed: a node returned for a name is in the list it was looked up in.
func (a *capAn) placed() {
	for _, f := range a.p.LibFuncs() {
		if !a.decodes(f) || len(f.Blocks) == 0 {
			continue
		}
		ctx := -1
		for i, prm := range f.Params {
			if isPtr(prm.Type()) && a.isItemList(prm.Type()) {
				ctx = i
			}
		}
		res := f.Signature.Results()
		if ctx < 0 || res.Len() != 2 || !a.isNode(res.At(0).Type()) {
			continue
		}
		list := f.Params[ctx]
		fromList := func(v ssa.Value, s pstate) bool {
			c, ok := s.resolve(v).(*ssa.Call)
			if !ok {
				return false
			}
			for _, arg := range callArgs(&c.Call) {
				if a.m.canonOf(arg) == ssa.Value(list) {
					return true
				}
				if u, ok := arg.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(list) {
					return true
				}
			}
			return false
		}
		q := &pathQ{f: f, m: a.m}
		added := func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr != ssa.Value(list) {
					return false
				}
				c, ok := x.Val.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := c.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "append"
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || !a.p.InModule(g) || len(x.Call.Args) < 2 {
					return false
				}
				hasList, k := false, -1
				for i, arg := range x.Call.Args {
					if a.m.canonOf(arg) == ssa.Value(list) {
						hasList = true
					}
					if a.isNode(arg.Type()) {
						k = i
					}
				}
				return hasList && k >= 0 && a.role(g, k, tWhole)
			}
			return false
		}
		q.stop = func(in ssa.Instruction, s pstate) bool { return added(in) }
		q.bad = func(in ssa.Instruction, s pstate) bool {
			if !q.okReturn(in, s) {
				return false
			}
			return !fromList(in.(*ssa.Return).Results[0], s)
		}
		key := a.keys(f, "node of "+list.Name())
		a.r.Units["lookups"]++
		if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
			a.r.failAlt("placed", key, a.p.InstrPos(bad), "%s can return a node that is not part of %s: what is stored in it is lost", a.p.FName(f), list.Name())
			continue
		}
		a.r.ok("placed: %s (%s): the node was found in or added to the list", key[0], a.p.Pos(f.Pos()))
	}
	a.r.need("lookups", 1)
}

// kept: values decoded into a fresh object are stored.
func (a *capAn) kept() {
	for _, f := range a.p.LibFuncs() {
		if !a.decodes(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !a.handsItem(f, c) {
				return
			}
			for _, arg := range callArgs(&c.Call) {
				dst := a.freshDest(arg, 0)
				if dst == nil {
					continue
				}
				a.r.Units["targets"]++
				t := a.taint(f, taint{dst: tWhole})
				q := &pathQ{f: f, m: a.m}
				q.stop = func(in ssa.Instruction, s pstate) bool { return in != ssa.Instruction(c) && a.stores(in, t) }
				q.bad = q.okReturn
				lp := innermost(in.Block())
				q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
					if lp != nil && b == lp {
						return 2, ""
					}
					return 0, ""
				}
				key := a.keys(f, "decoded "+valName(a.p, dst, 0))
				if bad := q.run(nil, c, newPstate()); bad != nil {
					a.r.failAlt("kept", key, a.p.InstrPos(c), "%s decodes into a fresh object here and can then drop it (%s)", a.p.FName(f), a.p.InstrPos(bad))
					continue
				}
				a.r.ok("kept: %s (%s): the decoded value is stored", key[0], a.p.InstrPos(c))
			}
		})
	}
}

func innermost(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if in := blocksOfLoop(h); in != nil && in[b] && (best == nil || best.Dominates(h)) {
			best = h
		}
	}
	return best
}

// stores: the value is put into an object, set by reflection or returned.
func (a *capAn) stores(in ssa.Instruction, t taint) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if _, local := addrBase(x.Addr).(*ssa.Alloc); local {
			return false
		}
		return t[x.Val] != 0
	case *ssa.MapUpdate:
		return t[x.Value] != 0
	case *ssa.Return:
		for _, v := range x.Results {
			if t[v] != 0 && !isErrorType(v.Type()) {
				return true
			}
		}
	case *ssa.Call:
		return a.callHands(&x.Call, t)
	}
	return false
}

// handsItem: the call decodes something.
func (a *capAn) handsItem(f *ssa.Function, c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || !a.p.InModule(g) || !a.decodes(g) {
		return false
	}
	for _, arg := range c.Call.Args {
		if a.isItem(arg.Type()) {
			return true
		}
	}
	return false
}

// freshDest: v denotes an object created in this function to decode into.
func (a *capAn) freshDest(v ssa.Value, d int) ssa.Value {
	if d > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return a.freshDest(x.X, d+1)
	case *ssa.ChangeType:
		return a.freshDest(x.X, d+1)
	case *ssa.Alloc:
		if a.isItem(x.Type()) {
			return nil
		}
		return x
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if pkg != "reflect" {
			return nil
		}
		switch name {
		case "New":
			return x
		case "Elem", "Indirect", "Addr", "Interface":
			if len(x.Call.Args) > 0 {
				return a.freshDest(x.Call.Args[0], d+1)
			}
		}
	}
	return nil
}

// spaces: names carry URIs in their namespace part.
func (a *capAn) spaces() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if !a.isSpace(pr[0]) {
					continue
				}
				a.r.Units["name tests"]++
				a.spaceConst(f, in, pr[1], 0, map[*ssa.Function]bool{})
			}
		})
	}
	a.r.need("name tests", 2)
}

func (a *capAn) spaceConst(f *ssa.Function, in ssa.Instruction, v ssa.Value, d int, seen map[*ssa.Function]bool) {
	if c, ok := strConst(v); ok {
		key := a.keys(f, "namespace "+c)
		if c != "" && c != "xmlns" && !strings.Contains(c, ":") {
			a.r.failAlt("space", key, a.p.InstrPos(in), "%s: %q is not a namespace URI, no decoded name ever has it", a.p.FName(f), c)
			return
		}
		a.r.ok("space: %s (%s): an URI, or a name without a namespace", key[0], a.p.InstrPos(in))
		return
	}
	i := prmIndex(f, v)
	if i < 0 || d > 3 || seen[f] {
		return
	}
	seen[f] = true
	for _, c := range a.p.Callers(f) {
		args := callArgs(c.Common())
		if i < len(args) && a.p.libFunc(c.Parent()) {
			a.spaceConst(c.Parent(), c, args[i], d+1, seen)
		}
	}
}

// selects: functions that pick attributes or children of a node decide by name
// only, so that no value is invisible to the decoder.
func (a *capAn) selects() {
	for _, f := range a.p.LibFuncs() {
		if len(f.Params) == 0 || !a.isNode(f.Params[0].Type()) || f.Signature.Results().Len() != 1 {
			continue
		}
		st, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || !a.isAttr(st.Elem()) {
			continue
		}
		for _, l := range a.itemLoops(f) {
			l := l
			if !a.isItemList(l.list.Type()) {
				continue
			}
			t := a.taint(f, l.seeds)
			names := a.nameTaint(f, l)
			key := a.keys(f, "elements of "+valName(a.p, l.list, 0))
			q := &pathQ{f: f, m: a.m}
			q.stop = func(in ssa.Instruction, s pstate) bool { return a.hands(in, t) }
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
				cond, _ = literal(cond, truth, s)
				return a.onlyNames(cond, names, 0) && usesName(cond, names, 0)
			}
			q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
				if b == l.head || b == l.exit {
					return 2, ""
				}
				return 0, ""
			}
			q.bad = func(in ssa.Instruction, s pstate) bool { _, ok := in.(*ssa.Return); return ok }
			a.r.Units["selectors"]++
			if bad := q.run(l.body, nil, newPstate()); bad != nil {
				a.r.failAlt("each", key, a.p.InstrPos(a.loopPos(l)), "%s leaves out attributes for a reason other than their name", a.p.FName(f))
				continue
			}
			a.r.ok("each: %s (%s): attributes are selected by name only", key[0], a.p.Pos(f.Pos()))
		}
	}
}

// nameTaint: the values derived from the name of the element visited.
func (a *capAn) nameTaint(f *ssa.Function, l itemLoop) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	whole := map[ssa.Value]bool{}
	for v := range l.seeds {
		whole[v] = true
	}
	for n := 0; n < 10; n++ {
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if whole[x.Val] {
					whole[x.Addr] = true
				}
				return
			}
			v, ok := in.(ssa.Value)
			if !ok {
				return
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				if whole[x.X] {
					whole[v] = true
				}
				if out[x.X] {
					out[v] = true
				}
			case *ssa.FieldAddr:
				fd := structField(x.X.Type(), x.Field)
				if whole[x.X] && fd != nil && isXMLName(fd.Type()) || out[x.X] {
					out[v] = true
				}
			case *ssa.Field:
				fd := structField(x.X.Type(), x.Field)
				if whole[x.X] && fd != nil && isXMLName(fd.Type()) || out[x.X] {
					out[v] = true
				}
			case *ssa.Call:
				for _, arg := range x.Call.Args {
					if out[arg] {
						out[v] = true
					}
				}
			case *ssa.Extract:
				if out[x.Tuple] {
					out[v] = true
				}
			}
		})
	}
	return out
}

// onlyNames: the condition depends on names, parameters and constants only.
func (a *capAn) onlyNames(v ssa.Value, names map[ssa.Value]bool, d int) bool {
	if names[v] || d > 6 {
		return names[v]
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Parameter:
		b, ok := x.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.BinOp:
		return a.onlyNames(x.X, names, d+1) && a.onlyNames(x.Y, names, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.onlyNames(e, names, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		for _, arg := range x.Call.Args {
			if !a.onlyNames(arg, names, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// usesName: the condition involves a name.
func usesName(v ssa.Value, names map[ssa.Value]bool, d int) bool {
	if v == nil || names[v] || d > 6 {
		return v != nil && names[v]
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && usesName(*o, names, d+1) {
			return true
		}
	}
	return false
}
