package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Item flow: where the content of a piece of input (a node, an attribute, a
// field) goes inside a function, and whether every successful path hands it on.

const (
	tWhole    = 1 << iota // the item or a full copy of it
	tCont                 // its value
	tNodes                // its list of children
	tAttrs                // its list of attributes
	tDesc                 // one of its children or attributes
	tDescList             // a list selected from its parts
	tHold                 // a container the item was put into
	tModel                // its model, where told apart from its value
	tValue                // its text, where told apart from its value
	tParts    = tAttrs | tNodes | tModel | tValue
	tAny      = tWhole | tCont | tNodes | tAttrs | tDesc | tDescList | tHold | tModel | tValue
)

type taint map[ssa.Value]int

type flowAn struct {
	cut   map[ssa.Value]bool // values known not to hold the content
	p     *Prog
	r     *Result
	x     *prover
	m     *memAn
	node  *types.Named
	attr  *types.Named
	roles map[flowKey]int // 1: no, 2: yes, 3: in progress
	loops map[*ssa.Function][]itemLoop
	rets  map[flowKey]int
	// selects further instructions that hand an item on
	extra func(in ssa.Instruction, t taint) bool
	deep  bool         // calls with item content count only when their callee hands it on
	out   bool         // follow values out of the program: parts are told apart, structures taken apart
	names bool         // names are content
	bools bool         // truth values are content
	focus *types.Named // follow only field part1 of values of this type
	part1 int
	conv  bool               // calls that return a reflect value may hand an item on as well
	later map[*ssa.Call]bool // calls whose result still has to be handed on
	ident bool               // answers of an object of a library interface are not the object
	whole bool               // stores into parts of local structures are not followed
	// calls that put what they are given into a list
	adds func(g *ssa.Function) bool
	// what a value is on the path examined
	res func(v ssa.Value) ssa.Value
}

type flowKey struct {
	f *ssa.Function
	i int
}

func newFlow(p *Prog, r *Result) *flowAn {
	a := &flowAn{p: p, r: r, x: p.Prover(), roles: map[flowKey]int{}, loops: map[*ssa.Function][]itemLoop{}, rets: map[flowKey]int{}}
	a.m = a.x.m
	a.node, a.attr = p.Named("xmp", "Node"), p.Named("xmp", "Attr")
	return a
}

func (a *flowAn) isNode(t types.Type) bool {
	if a.node == nil {
		return false
	}
	t = deref(t)
	return types.Identical(t.Underlying(), a.node.Underlying())
}

func (a *flowAn) isAttr(t types.Type) bool {
	return a.attr != nil && types.Identical(deref(t).Underlying(), a.attr.Underlying())
}

func (a *flowAn) isItem(t types.Type) bool { return a.isNode(t) || a.isAttr(t) }

func (a *flowAn) isItemList(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Slice)
	return ok && a.isItem(s.Elem())
}

func structField(t types.Type, i int) *types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	return st.Field(i)
}

func (a *flowAn) field(base types.Type, i int, bits int) int {
	fd := structField(base, i)
	if a.out && fd != nil && bits&tAny != 0 {
		if a.focus != nil && types.Identical(deref(base).Underlying(), a.focus.Underlying()) && bits&(tWhole|tCont) != 0 && !a.isItem(base) {
			if i == a.part1 {
				return tCont
			}
			return 0
		}
		if isXMLName(deref(base)) {
			return bits
		}
		if !a.isItem(base) {
			return bits&(tParts|tHold) | tDesc // one of several
		}
		if bits&tWhole == 0 {
			b := bits & tParts
			if a.isItemList(fd.Type()) {
				return b | tDescList
			}
			if fd.Name() != "XMLName" && fd.Name() != "Name" || a.names {
				return b | tCont
			}
			return 0
		}
		if bits&tWhole != 0 {
			switch fd.Name() {
			case "Value":
				return tValue
			case "Model":
				return tModel
			}
			if a.names && (fd.Name() == "XMLName" || fd.Name() == "Name") {
				return tCont
			}
		}
	}
	if fd == nil || bits&(tWhole|tDesc|tHold) == 0 {
		return 0
	}
	if !a.isItem(base) {
		return bits & (tWhole | tDesc | tHold)
	}
	switch fd.Name() {
	case "XMLName", "Name":
		return 0
	}
	list := a.isItemList(fd.Type())
	if bits&tWhole == 0 {
		if list {
			return tDescList
		}
		return tCont
	}
	if list {
		if s, ok := fd.Type().Underlying().(*types.Slice); ok && a.isNode(s.Elem()) {
			return tNodes
		}
		return tAttrs
	}
	return tCont
}

// taint follows the seeds through f.
func (a *flowAn) taint(f *ssa.Function, seeds taint) taint {
	t := taint{}
	for k, v := range seeds {
		t[k] = v
	}
	add := func(v ssa.Value, b int) bool {
		if a.out && !a.bools && noContent(v.Type()) {
			return false
		}
		if b == 0 || t[v]|b == t[v] || a.cut[v] {
			return false
		}
		t[v] |= b
		return true
	}
	for changed, n := true, 0; changed && n < 30; n++ {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					v := t[x.Val]
					if v == 0 {
						continue
					}
					if al, ok := addrBase(x.Addr).(*ssa.Alloc); ok {
						if ssa.Value(al) == x.Addr {
							changed = add(al, v) || changed
						} else if a.whole {
							// stored into part of it: the store itself counts
						} else if t[al]&tWhole == 0 {
							changed = add(al, a.held(v)) || changed
						}
					}
					if c, ok := addrBase(x.Addr).(*ssa.Call); ok && a.out && !a.whole {
						changed = add(c, a.held(v)) || changed
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && a.out {
						if ms, ok := ia.X.(*ssa.MakeSlice); ok {
							changed = add(ms, a.held(v)) || changed
						}
					}
				case *ssa.MapUpdate:
					if t[x.Value]&tAny != 0 || t[x.Key]&tAny != 0 {
						changed = add(x.Map, a.held(t[x.Value]|t[x.Key])) || changed
					}
				case ssa.Value:
					changed = add(x, a.flow(x, t)) || changed
					if c, ok := in.(*ssa.Call); ok && a.adds != nil {
						if g := c.Call.StaticCallee(); g != nil && a.adds(g) {
							for _, arg := range c.Call.Args[1:] {
								if al, ok := addrBase(c.Call.Args[0]).(*ssa.Alloc); ok {
									changed = add(al, a.made(t[arg])) || changed
								}
							}
						}
					}
					// writes into a local buffer
					if c, ok := in.(*ssa.Call); ok && len(c.Call.Args) > 1 && t[c.Call.Args[1]]&tAny != 0 {
						if pkg, name := extCallee(&c.Call); (pkg == "bytes" || pkg == "strings") && strings.HasPrefix(name, "Write") {
							changed = add(c.Call.Args[0], tHold) || changed
						}
					}
				}
			}
		}
	}
	return t
}

func (a *flowAn) flow(v ssa.Value, t taint) int {
	switch x := v.(type) {
	case *ssa.Phi:
		b := 0
		for _, e := range x.Edges {
			b |= t[e]
		}
		return b
	case *ssa.ChangeType:
		return t[x.X]
	case *ssa.Convert:
		return t[x.X]
	case *ssa.MakeInterface:
		return t[x.X]
	case *ssa.ChangeInterface:
		return t[x.X]
	case *ssa.TypeAssert:
		return t[x.X]
	case *ssa.Slice:
		return t[x.X]
	case *ssa.Extract:
		if isErrorType(x.Type()) {
			return 0
		}
		if _, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return 0
		}
		return t[x.Tuple]
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return 0
		}
		return t[x.X]
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return 0
		}
		return a.made(t[x.X] | t[x.Y])
	case *ssa.Lookup:
		return a.made(t[x.Index] | t[x.X])
	case *ssa.FieldAddr:
		return a.field(x.X.Type(), x.Field, t[x.X])
	case *ssa.Field:
		return a.field(x.X.Type(), x.Field, t[x.X])
	case *ssa.IndexAddr:
		return a.elemBits(t[x.X])
	case *ssa.Index:
		return a.elemBits(t[x.X])
	case *ssa.Range:
		if a.out {
			return t[x.X]
		}
	case *ssa.Next:
		if a.out {
			return t[x.Iter]
		}
	case *ssa.Call:
		return a.callBits(x, t)
	}
	return 0
}

// noContent: values of the type cannot carry content.
func noContent(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return true
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
		return n.Obj().Name() == "Type" || n.Obj().Name() == "Kind"
	}
	return isErrorType(t)
}

// held: a container of something with these bits.
func (a *flowAn) held(b int) int {
	if a.out {
		return tHold | b&tParts
	}
	return tHold
}

// made: computed from something with these bits.
func (a *flowAn) made(b int) int {
	switch {
	case b&tAny == 0:
		return 0
	case a.out:
		return tCont | b&tParts
	}
	return tCont
}

func (a *flowAn) elemBits(b int) int {
	o := b & (tHold | tCont)
	if a.out {
		o |= b & (tParts | tDesc)
	}
	if b&(tNodes|tAttrs|tDescList) != 0 {
		o |= tDesc
	}
	return o
}

func (a *flowAn) callBits(c *ssa.Call, t taint) int {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			o := 0
			for _, x := range c.Call.Args {
				if t[x]&tAny != 0 {
					o |= a.held(t[x])
				}
			}
			return o
		}
		return 0
	}
	res := c.Call.Signature().Results()
	if res.Len() == 0 || res.Len() == 1 && isErrorType(res.At(0).Type()) {
		return 0
	}
	out := 0
	for i, x := range callArgs(&c.Call) {
		b := t[x]
		if b&tAny == 0 {
			continue
		}
		g := c.Call.StaticCallee()
		if g != nil && a.p.InModule(g) && len(g.Blocks) > 0 {
			out |= a.retBits(g, i, b)
			continue
		}
		if a.ident && i == 0 && c.Call.IsInvoke() {
			if n := namedOf(x.Type()); n != nil && n.Obj().Pkg() != nil && a.p.libType(n) {
				continue // what an object says about itself is not the object
			}
		}
		if a.out {
			out |= b
		} else if b&(tCont|tHold|tDesc|tWhole) != 0 {
			out |= tCont
		}
	}
	return out
}

// retBits: what a call returns of its argument i.
func (a *flowAn) retBits(g *ssa.Function, i, bits int) int {
	if i >= len(g.Params) {
		return 0
	}
	k := flowKey{g, i*1024 + bits}
	if v, ok := a.rets[k]; ok {
		return v
	}
	a.rets[k] = 0
	t := a.taint(g, taint{g.Params[i]: bits})
	out := 0
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for j := range ret.Results {
				if isErrorType(ret.Results[j].Type()) {
					continue
				}
				for _, v := range retValues(ret, j) {
					out |= t[v]
				}
			}
		}
	}
	// the parts a function selects from an item make up a list of parts
	for j := 0; j < g.Signature.Results().Len(); j++ {
		if out&tHold != 0 && a.isItemList(g.Signature.Results().At(j).Type()) {
			out = out&^tHold | tDescList
		}
		if out&tHold != 0 && a.isItem(g.Signature.Results().At(j).Type()) {
			out = out&^tHold | tWhole
		}
	}
	a.rets[k] = out
	return out
}

// itemLoop is a loop over every element of a list of items.
type itemLoop struct {
	f     *ssa.Function
	list  ssa.Value
	seeds taint
	head  *ssa.BasicBlock
	body  *ssa.BasicBlock // first block of an iteration
	exit  *ssa.BasicBlock
	in    map[*ssa.BasicBlock]bool
	str   bool // elements are keys
}

func blocksOfLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, pr := range h.Preds {
		if isBackEdge(pr, h) {
			work = append(work, pr)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

// itemLoops: the complete loops of f over items (nodes and attributes), names
// and map entries.
func (a *flowAn) itemLoops(f *ssa.Function) []itemLoop {
	if l, ok := a.loops[f]; ok {
		return l
	}
	var out []itemLoop
	for _, lp := range countedLoops(a.x, f) {
		st, ok := deref(lp.list.Type()).Underlying().(*types.Slice)
		if !ok {
			continue
		}
		il := itemLoop{f: f, list: lp.list, head: lp.head, body: lp.head.Succs[0], exit: lp.exit, in: lp.in, seeds: taint{}}
		if bt, ok := st.Elem().Underlying().(*types.Basic); ok {
			if bt.Kind() != types.String {
				continue
			}
			il.str = true
		} else if !a.isItem(st.Elem()) {
			il.str = true // other elements are followed the same way
		}
		for b := range lp.in {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if ok && a.m.canonOf(ia.X) == a.m.canonOf(lp.list) && a.sameIdx(ia.Index, lp.idx) {
					if il.str {
						il.seeds[ia] = tCont
					} else {
						il.seeds[ia] = tWhole
					}
				}
			}
		}
		if len(il.seeds) == 0 {
			continue
		}
		out = append(out, il)
	}
	// map ranges
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			blocks := blocksOfLoop(b)
			if !ok || blocks == nil {
				continue
			}
			_ = iff
			il := itemLoop{f: f, list: rg.X, head: b, body: b.Succs[0], exit: b.Succs[1], in: blocks, seeds: taint{}, str: true}
			if nx.Referrers() != nil {
				for _, u := range *nx.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
						il.seeds[e] = tCont
					}
				}
			}
			if len(il.seeds) > 0 {
				out = append(out, il)
			}
		}
	}
	a.loops[f] = out
	return out
}

func (a *flowAn) sameIdx(x, y ssa.Value) bool {
	tx, kx := a.x.lin(x)
	ty, ky := a.x.lin(y)
	return x == y || tx == ty && kx == ky
}

// on: the bits of v on the path examined.
func (a *flowAn) on(t taint, v ssa.Value) int {
	if a.res != nil && t[v] != 0 {
		if w := a.res(v); w != v {
			if _, ok := w.(*ssa.Alloc); !ok {
				return t[w]
			}
		}
	}
	return t[v]
}

// hands: the instruction hands content of the item on: it stores it in an
// object, adds it to a list or map, or passes it to something that does.
func (a *flowAn) hands(in ssa.Instruction, t taint) bool {
	if a.extra != nil && a.extra(in, t) {
		return true
	}
	switch x := in.(type) {
	case *ssa.Store:
		if a.on(t, x.Val)&tAny == 0 {
			return false
		}
		base := addrBase(x.Addr)
		if _, ok := base.(*ssa.Alloc); ok {
			return false
		}
		if t[base]&(tWhole|tDesc) != 0 && a.isItem(base.Type()) {
			return false // an update of the item itself
		}
		if c, ok := x.Val.(*ssa.Call); ok && a.grows(c, x.Addr) {
			return a.callHands(&c.Call, t) // a list keeps what it held
		}
		return true
	case *ssa.MapUpdate:
		return (a.on(t, x.Key)|a.on(t, x.Value))&tAny != 0
	case *ssa.Call:
		return a.callHands(&x.Call, t)
	}
	return false
}

// grows: c appends to the list stored at addr.
func (a *flowAn) grows(c *ssa.Call, addr ssa.Value) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	l, ok := strip(c.Call.Args[0]).(*ssa.UnOp)
	return ok && l.Op == token.MUL && a.m.sameAddr(l.X, addr, 0)
}

func (a *flowAn) callHands(c *ssa.CallCommon, t taint) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, x := range c.Args[1:] {
				if a.on(t, x)&tAny != 0 {
					return true
				}
			}
		case "copy":
			_, local := addrBase(c.Args[0]).(*ssa.Alloc)
			return !local && a.on(t, c.Args[1])&tAny != 0
		}
		return false
	}
	res := c.Signature().Results()
	fails := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
	if g := c.StaticCallee(); a.out && fails && res.Len() > 1 && (!a.conv || g == nil || !a.p.InModule(g) || !isReflectValue(res.At(0).Type())) {
		return false // a conversion
	}
	if pkg, name := extCallee(c); pkg == "reflect" {
		if strings.HasPrefix(name, "Set") && len(c.Args) > 1 {
			for _, x := range c.Args[1:] {
				if a.on(t, x)&tAny != 0 {
					return true
				}
			}
		}
		return false
	}
	for i, x := range callArgs(c) {
		if a.on(t, x)&tAny == 0 {
			continue
		}
		g := c.StaticCallee()
		if g == nil {
			if fails {
				return true
			}
			continue
		}
		if a.out && fails && !a.p.InModule(g) {
			return true
		}
		if a.p.InModule(g) && a.role(g, i, t[x]) {
			return true
		}
	}
	return false
}

// pending: the instruction is a call that hands the item on unless it reports
// an error; the error value.
func (a *flowAn) pending(in ssa.Instruction, t taint) (err ssa.Value, ok bool) {
	c, is := in.(*ssa.Call)
	if !is || !a.callHands(&c.Call, t) {
		return nil, false
	}
	return errOf(c)
}

func errOf(c *ssa.Call) (err ssa.Value, ok bool) {
	res := c.Call.Signature().Results()
	n := res.Len()
	if n == 0 || !isErrorType(res.At(n-1).Type()) {
		return nil, false
	}
	if n == 1 {
		return c, true
	}
	if c.Referrers() != nil {
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == n-1 {
				return e, true
			}
		}
	}
	return nil, true
}

// byError makes q treat a fallible hand-on as done only where it succeeded.
func (a *flowAn) byError(q *pathQ, t taint) {
	later := a.later
	isErr := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Call:
			if later[x] {
				return false
			}
			e, ok := a.pending(x, t)
			return ok && e == v
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok || later[c] {
				return false
			}
			e, ok := a.pending(c, t)
			return ok && e == v
		}
		return false
	}
	stop, prune, bad := q.stop, q.prune, q.bad
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if c, ok := in.(*ssa.Call); !ok || !later[c] {
			if _, ok := a.pending(in, t); ok {
				return false
			}
		}
		return stop(in, s)
	}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
		c, tr := literal(cond, truth, s)
		if nilTest(c, tr, s, func(v ssa.Value) bool { return isErr(s.resolve(v)) }) {
			return true
		}
		return prune != nil && prune(cond, truth, s)
	}
	if bad != nil {
		q.bad = func(in ssa.Instruction, s pstate) bool {
			if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 && isErr(s.resolve(ret.Results[len(ret.Results)-1])) {
				return false
			}
			return bad(in, s)
		}
	}
}

// localHand: the instruction puts content only into something made by its own
// function, which is of use only if returned.
func localHand(in ssa.Instruction) bool {
	var base ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		base = addrBase(x.Addr)
	case *ssa.MapUpdate:
		base = x.Map
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append"
		}
		return false
	}
	switch base.(type) {
	case *ssa.Call, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Slice:
		return true
	}
	return false
}

// role: some path of g hands on what it receives as argument i.
func (a *flowAn) role(g *ssa.Function, i, bits int) bool {
	if i >= len(g.Params) || len(g.Blocks) == 0 {
		return false
	}
	k := flowKey{g, i}
	switch a.roles[k] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	a.roles[k] = 3
	t := a.taint(g, taint{g.Params[i]: a.paramBits(g, i)})
	ok := false
	eachInstr(g, func(in ssa.Instruction) {
		if !ok && a.hands(in, t) && !(a.out && localHand(in)) {
			ok = true
		}
	})
	a.roles[k] = 1
	if ok {
		a.roles[k] = 2
	}
	return ok
}

func (a *flowAn) paramBits(g *ssa.Function, i int) int {
	pt := g.Params[i].Type()
	switch {
	case a.isItem(pt):
		return tWhole
	case a.isItemList(pt):
		return tDescList
	}
	return tCont
}

// loopHands: the loop hands on the items it visits.
func (a *flowAn) loopHands(l itemLoop) bool {
	t := a.taint(l.f, l.seeds)
	for b := range l.in {
		for _, in := range b.Instrs {
			if a.hands(in, t) {
				return true
			}
		}
	}
	return false
}

// part classifies the list of a loop with respect to an item: 0 unrelated,
// tNodes or tAttrs for one of its lists, tDescList for anything else of it.
func (a *flowAn) part(l itemLoop, t taint) int {
	b := t[l.list]
	if b == 0 {
		b = t[a.m.canonOf(l.list)]
	}
	switch {
	case b&tNodes != 0:
		return tNodes
	case b&tAttrs != 0:
		return tAttrs
	case b&(tDescList|tCont) != 0:
		return tDescList
	}
	return 0
}

// flagTest recognises tests of flag bits: base&mask compared with zero or
// with the mask. set: the condition being true means a bit is set.
func flagTest(cond ssa.Value) (base ssa.Value, mask int64, set bool, ok bool) {
	c, isb := cond.(*ssa.BinOp)
	if !isb {
		return nil, 0, false, false
	}
	and, isAnd := strip(c.X).(*ssa.BinOp)
	k, isK := intConst(c.Y)
	if !isAnd || and.Op != token.AND || !isK {
		return nil, 0, false, false
	}
	mv, okm := intConst(and.Y)
	base = and.X
	if !okm {
		mv, okm = intConst(and.X)
		base = and.Y
	}
	if !okm {
		return nil, 0, false, false
	}
	switch {
	case c.Op == token.EQL && k == 0:
		return base, mv, false, true
	case (c.Op == token.NEQ || c.Op == token.GTR) && k == 0:
		return base, mv, true, true
	case c.Op == token.EQL && k == mv:
		return base, mv, true, true
	case c.Op == token.NEQ && k == mv:
		return base, mv, false, true
	}
	return nil, 0, false, false
}

// pkgConst: the value of a named integer constant of a package.
func (p *Prog) pkgConst(pkg, name string) (int64, bool) {
	sp := p.Pkg(pkg)
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return v, ok
}

// literal strips negations: the condition and the truth it has.
func literal(cond ssa.Value, truth bool, s pstate) (ssa.Value, bool) {
	for {
		cond = s.resolve(cond)
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return textTest(cond, truth)
		}
		cond, truth = u.X, !truth
	}
}

var textTests = map[*ssa.BinOp]*ssa.BinOp{}

// textTest: a test of the length of a text for zero is the same as comparing
// it with the empty text.
func textTest(cond ssa.Value, truth bool) (ssa.Value, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || !isIntType(b.X.Type()) {
		return cond, truth
	}
	zero := lenZero(b, true)
	when := true
	if zero == nil {
		zero = lenZero(b, false)
		when = false
	}
	if zero == nil || !isStringType(zero.Type()) {
		return cond, truth
	}
	n := textTests[b]
	if n == nil {
		c := *b
		n = &c
		n.Op, n.X, n.Y = token.EQL, zero, ssa.NewConst(constant.MakeString(""), types.Typ[types.String])
		textTests[b] = n
	}
	return n, truth == when
}

// lenZero: on this branch the length of the value returned is zero.
func lenZero(cond ssa.Value, truth bool) ssa.Value {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := b.X, b.Y, b.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := x.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil
	}
	k, ok := intConst(y)
	if !ok {
		return nil
	}
	zero := false
	switch {
	case k == 0 && (op == token.EQL || op == token.LEQ):
		zero = truth
	case k == 0 && (op == token.NEQ || op == token.GTR):
		zero = !truth
	case k == 1 && op == token.LSS:
		zero = truth
	case k == 1 && op == token.GEQ:
		zero = !truth
	}
	if zero {
		return c.Call.Args[0]
	}
	return nil
}
