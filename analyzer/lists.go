package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: lists find, add and remove exactly the item asked for.

func init() { register("C23", checkLists) }

func checkLists(p *Prog, r *Result) {
	r.Explain = "Rule splice: every append(x[:i], x[j:]...) on one list is proven to leave out exactly one item (j == i+1, difference-constraint prover over the memory-numbered operands), and does not happen in a loop that goes on to the next position of the same list. Rule order: removing by copying the tail over the item leaves out exactly one; the last item is never moved into the gap. Rule hit-at-zero: a search result that uses -1 for absent is only compared in ways that count position 0 as found. Rule search: Index, Contains and Find methods of list types report a position, truth or item only after comparing the item at that very position with an argument, examine every item, and report absence only after the last one. Rule add-unique: AddUnique adds only where a search for the value has failed."
	x := p.Prover()
	for _, f := range p.Funcs {
		if !p.libFunc(f) || f.Synthetic != "" {
			continue
		}
		li := &listAn{p: p, r: r, x: x, m: x.m, f: f}
		li.splices()
		li.order()
		for _, rm := range loopRemovals(p, x, f) {
			r.failAlt("splice", li.keys("removal through "+rm.name+" in a loop"), p.InstrPos(rm.call), "the loop over %s goes on after %s has removed an item from that list, so it skips the item that moved into the gap and sees the last one again", exprVal(p, rm.loop.list), rm.name)
		}
		li.sentinels()
		if sl := recvSlice(f); sl != nil {
			n := f.Name()
			if n == "AddUnique" {
				li.addUnique()
			}
			if strings.HasPrefix(n, "Index") || strings.HasPrefix(n, "Contains") || strings.HasPrefix(n, "Find") {
				li.search()
			}
		}
	}
	r.need("splices", 5)
	r.need("search_methods", 5)
}

func recvSlice(f *ssa.Function) *types.Slice {
	rv := f.Signature.Recv()
	if rv == nil || f.Parent() != nil {
		return nil
	}
	sl, _ := deref(rv.Type()).Underlying().(*types.Slice)
	return sl
}

type listAn struct {
	p *Prog
	r *Result
	x *prover
	m *memAn
	f *ssa.Function
}

func (l *listAn) keys(what string) []string {
	var out []string
	for _, n := range l.p.OwnerNames(l.f) {
		out = append(out, n+": "+what)
	}
	return out
}

// sameList: a and b denote the same list at their uses.
func (l *listAn) sameList(a, b ssa.Value) bool {
	ca, cb := l.m.canonOf(a), l.m.canonOf(b)
	return ca == cb || l.m.sameOp(ca, cb)
}

func (l *listAn) splices() {
	eachInstr(l.f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok {
			return
		}
		var head, tail *ssa.Slice
		switch b.Name() {
		case "append":
			if len(c.Call.Args) != 2 {
				return
			}
			head, _ = l.m.canonOf(c.Call.Args[0]).(*ssa.Slice)
			tail, _ = l.m.canonOf(c.Call.Args[1]).(*ssa.Slice)
		default:
			return
		}
		if head == nil || tail == nil || head.High == nil || head.Low != nil && !isZeroConst(head.Low) || !l.sameList(head.X, tail.X) {
			return
		}
		l.r.Units["splices"]++
		where := l.p.InstrPos(in)
		if tail.Low == nil {
			l.r.failAlt("splice", l.keys("removal from "+exprVal(l.p, head.X)), where, "the beginning of the list is appended to its own beginning instead of the items after the removed one")
			return
		}
		if tail.High != nil {
			t1, k1 := l.x.lin(tail.High)
			t2, k2 := l.x.lenOf(head.X)
			if t1 != t2 || k1 != k2 {
				l.r.failAlt("splice", l.keys("removal from "+exprVal(l.p, head.X)), where, "items at the end of the list are dropped with the removed one")
				return
			}
		}
		if !l.x.proveVals(tail.Low, head.High, 1, in.Block()) || !l.x.proveVals(head.High, tail.Low, -1, in.Block()) {
			l.r.failAlt("splice", l.keys("removal from "+exprVal(l.p, head.X)), where, "the removal does not leave out exactly one item (it keeps everything before %s and everything from %s)", exprVal(l.p, head.High), exprVal(l.p, tail.Low))
			return
		}
		if l.advances(c, head.High, head.X) {
			l.r.failAlt("splice", l.keys("removal from "+exprVal(l.p, head.X)+" in a loop"), where, "the loop goes on to the next position after removing an item, so it skips the item that moved into the gap or uses stale positions")
			return
		}
		l.r.ok("%s: removal at %s leaves out exactly one item", l.p.FName(l.f), where)
	})
}

// shortened: a list is cut short at its end (x = x[:len(x)-1] and the like).
func (l *listAn) shortened() []*ssa.Slice {
	var out []*ssa.Slice
	eachInstr(l.f, func(in ssa.Instruction) {
		sl, ok := in.(*ssa.Slice)
		if !ok || sl.High == nil || sl.Low != nil && !isZeroConst(sl.Low) {
			return
		}
		if _, ok := sl.X.Type().Underlying().(*types.Slice); !ok {
			return
		}
		t1, k1 := l.x.lin(sl.High)
		t2, k2 := l.x.lenOf(sl.X)
		if t1 == t2 && k1 < k2 {
			out = append(out, sl)
		}
	})
	return out
}

// order: rules order and shift.
func (l *listAn) order() {
	cuts := l.shortened()
	if len(cuts) == 0 {
		return
	}
	for _, sl := range cuts {
		where := l.p.InstrPos(sl)
		var moved ssa.Instruction // the last item put somewhere else
		var shift *ssa.Call       // items moved up
		eachInstr(l.f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || !l.sameList(ia.X, sl.X) {
					return
				}
				if u, ok := l.m.canonOf(x.Val).(*ssa.UnOp); ok && u.Op == token.MUL {
					if ib, ok := u.X.(*ssa.IndexAddr); ok && l.sameList(ib.X, sl.X) {
						t1, k1 := l.x.lin(ib.Index)
						t2, k2 := l.x.lenOf(sl.X)
						if t1 == t2 && k1 == k2-1 {
							moved = in
						}
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
					d, ok1 := l.m.canonOf(x.Call.Args[0]).(*ssa.Slice)
					s, ok2 := l.m.canonOf(x.Call.Args[1]).(*ssa.Slice)
					if ok1 && ok2 && l.sameList(d.X, sl.X) && l.sameList(s.X, sl.X) && s.Low != nil {
						shift = x
					}
				}
			}
		})
		if moved != nil && shift == nil {
			l.r.Units["splices"]++
			l.r.failAlt("order", l.keys("removal from "+exprVal(l.p, sl.X)), where, "the last item is moved into the gap, so the other items do not keep their places")
			continue
		}
		if shift == nil {
			continue
		}
		l.r.Units["splices"]++
		d, s := l.m.canonOf(shift.Call.Args[0]).(*ssa.Slice), l.m.canonOf(shift.Call.Args[1]).(*ssa.Slice)
		ok := d.High == nil && s.High == nil
		if d.Low == nil {
			k, isK := intConst(s.Low)
			ok = ok && isK && k == 1
		} else {
			ok = ok && l.x.proveVals(s.Low, d.Low, 1, shift.Block()) && l.x.proveVals(d.Low, s.Low, -1, shift.Block())
		}
		_, k1 := l.x.lin(sl.High)
		_, k2 := l.x.lenOf(sl.X)
		if !ok || k1 != k2-1 {
			l.r.failAlt("splice", l.keys("removal from "+exprVal(l.p, sl.X)), where, "the removal does not leave out exactly one item")
			continue
		}
		l.r.ok("%s: removal at %s leaves out exactly one item", l.p.FName(l.f), where)
	}
}

// advances: after the splice control can return to the head of a loop whose
// counter moves past the removed position while walking the same list.
func (l *listAn) advances(c *ssa.Call, idx, list ssa.Value) bool {
	ti, _ := l.x.lin(idx)
	ph, ok := ti.v.(*ssa.Phi)
	if ti.ln || !ok {
		return false
	}
	h := ph.Block()
	loop := false
	for i, pr := range h.Preds {
		if !isBackEdge(pr, h) {
			continue
		}
		if !reaches(c.Block(), pr, h) {
			continue
		}
		// value of the counter on this way round
		te, ke := l.x.lin(ph.Edges[i])
		if te == (term{v: ph}) && ke <= 0 {
			continue
		}
		// phi merging adjusted and unadjusted counters: accept when the value
		// coming from the splice's side is adjusted
		if mp, ok := l.m.canonOf(te.v).(*ssa.Phi); ok && mp != ph {
			adj := true
			for k, e := range mp.Edges {
				from := mp.Block().Preds[k]
				if from != c.Block() && !reaches(c.Block(), from, h) {
					continue
				}
				t2, k2 := l.x.lin(e)
				if !(t2 == (term{v: ph}) && k2+ke <= 0) {
					adj = false
				}
			}
			if adj {
				continue
			}
		}
		loop = true
	}
	return loop
}

// reaches: from can reach to without passing through avoid.
func reaches(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] || b == avoid {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// isSearch: the function returns a position, with -1 for absent.
func (l *listAn) isSearch(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !l.p.InModule(f) || f.Signature.Results().Len() != 1 {
		return false
	}
	if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	neg, pos := false, false
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover {
			continue
		}
		for _, v := range retValues(ret, 0) {
			if k, ok := intConst(v); ok {
				if k == -1 {
					neg = true
					continue
				}
				return false
			}
			pos = true
		}
	}
	return neg && pos
}

// sentinel: v is a position with -1 for absent.
func (l *listAn) sentinel(v ssa.Value) bool {
	v = l.m.canonOf(v)
	switch t := v.(type) {
	case *ssa.Call:
		if b, ok := t.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return false
		}
		cs := l.p.Callees(&t.Call)
		if len(cs) == 0 {
			return false
		}
		for _, g := range cs {
			if !l.isSearch(g) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		neg, other := false, false
		seen := map[ssa.Value]bool{}
		var walk func(q *ssa.Phi) bool
		walk = func(q *ssa.Phi) bool {
			if seen[q] {
				return true
			}
			seen[q] = true
			for i, e := range q.Edges {
				if k, ok := intConst(e); ok {
					if k != -1 {
						return false
					}
					neg = true
					continue
				}
				if sub, ok := e.(*ssa.Phi); ok {
					if isCounter(sub) {
						other = true
						continue
					}
					if !walk(sub) {
						return false
					}
					continue
				}
				te, ke := l.x.lin(e)
				if te.v == ssa.Value(q) && ke != 0 {
					return false // a counter
				}
				if !l.x.proveOn(zero, te, ke, q.Block().Preds[i], q.Block()) {
					return false
				}
				other = true
			}
			return true
		}
		if isCounter(t) {
			return false
		}
		return walk(t) && neg && other
	}
	return false
}

// isCounter: a loop phi that is incremented on its back edge.
func isCounter(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ssa.Value(ph) {
			return true
		}
	}
	return false
}

func (l *listAn) sentinels() {
	eachInstr(l.f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		op := c.Op
		v, kv := c.X, c.Y
		if _, ok := intConst(v); ok {
			v, kv = kv, v
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := intConst(kv)
		if !ok {
			return
		}
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
		default:
			return
		}
		if !l.sentinel(v) {
			return
		}
		l.r.Units["position_tests"]++
		good := false
		switch op {
		case token.GTR, token.NEQ, token.EQL:
			good = k == -1
		case token.GEQ, token.LSS:
			good = k == 0
		case token.LEQ:
			good = k == -1
		}
		if op == token.EQL && k >= 0 {
			good = true // asking for one particular position
		}
		if !good {
			// already known to be found: an ordinary position
			tv, kv := l.x.lin(v)
			good = l.x.prove(zero, tv, kv, in.Block())
		}
		if good {
			l.r.ok("%s: position 0 counts as found at %s", l.p.FName(l.f), l.p.InstrPos(in))
			return
		}
		l.r.failAlt("hit-at-zero", l.keys("test of "+exprVal(l.p, v)), l.p.InstrPos(in), "the test %s %s %d of a position that is -1 when absent does not separate found from absent: an item at position 0 is treated as missing or a missing item as found", exprVal(l.p, v), op, k)
	})
}

// addUnique: every addition happens only where a search failed.
func (l *listAn) addUnique() {
	recv := l.f.Params[0]
	a := &nilAn{p: l.p, m: l.m, x: l.x}
	failed := func(c ssa.Value, truth bool) bool {
		c = l.m.canonOf(c)
		switch t := c.(type) {
		case *ssa.Call:
			if truth || len(t.Call.Args) < 2 {
				return false
			}
			for _, g := range l.p.Callees(&t.Call) {
				if recvSlice(g) == nil && !strings.HasPrefix(g.Name(), "Contains") {
					return false
				}
			}
			return l.fromRecv(t.Call.Args[0], recv)
		case *ssa.BinOp:
			if l.sentinel(t.X) {
				k, ok := intConst(t.Y)
				if !ok {
					return false
				}
				switch {
				case t.Op == token.GTR && k == -1, t.Op == token.GEQ && k == 0, t.Op == token.NEQ && k == -1:
					return !truth
				case t.Op == token.LSS && k == 0, t.Op == token.EQL && k == -1, t.Op == token.LEQ && k == -1:
					return truth
				}
				return false
			}
			// the item found is a different one
			if t.Op == token.EQL && !truth || t.Op == token.NEQ && truth {
				return (l.isItemOf(t.X, recv) || l.isItemOf(t.Y, recv)) && (l.fromParam(t.X) || l.fromParam(t.Y))
			}
		}
		return false
	}
	n := 0
	eachInstr(l.f, func(in ssa.Instruction) {
		adds := false
		switch t := in.(type) {
		case *ssa.Store:
			if t.Addr == ssa.Value(recv) {
				adds = true
			}
		case *ssa.Call:
			if !t.Call.IsInvoke() && len(t.Call.Args) > 0 && l.m.canonOf(t.Call.Args[0]) == ssa.Value(recv) {
				for _, g := range l.p.Callees(&t.Call) {
					if l.p.InModule(g) && strings.HasPrefix(g.Name(), "Add") {
						adds = true
					}
				}
			}
		}
		if !adds {
			return
		}
		n++
		if a.condKnown(in.Block(), nil, failed) || l.loopExhausted(in.Block(), recv) {
			l.r.ok("%s: adds at %s only after a search for the value failed", l.p.FName(l.f), l.p.InstrPos(in))
		} else {
			l.r.failAlt("add-unique", l.keys("addition"), l.p.InstrPos(in), "the value can be added although it is in the list already: no failed search for it dominates the addition")
		}
	})
	if n == 0 {
		l.r.undecided("%s adds nothing itself", l.p.FName(l.f))
	}
	l.r.Units["add_unique"]++
}

// loopExhausted: b is reached only after a loop over the list that leaves
// early (by return) whenever an item equals a parameter.
func (l *listAn) loopExhausted(b *ssa.BasicBlock, recv ssa.Value) bool {
	for _, lp := range l.loopsOver(recv) {
		if !lp.exit.Dominates(b) && lp.exit != b {
			continue
		}
		for _, blk := range lp.body {
			if iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If); ok {
				if c, ok := l.m.canonOf(iff.Cond).(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
					if (l.isItemOf(c.X, recv) || l.isItemOf(c.Y, recv)) && (l.fromParam(c.X) || l.fromParam(c.Y)) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (l *listAn) fromRecv(v, recv ssa.Value) bool {
	v = l.m.canonOf(v)
	if v == recv {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return l.m.canonOf(u.X) == recv
	}
	if ph, ok := recv.(*ssa.Parameter); ok && v == ssa.Value(ph) {
		return true
	}
	return false
}

// isItemOf: v is (a part of) an item of the receiver list.
func (l *listAn) isItemOf(v, recv ssa.Value) bool { return l.itemIndex(v, recv, 0) != nil }

// itemIndex: the position of the item v is (a part of).
func (l *listAn) itemIndex(v, recv ssa.Value, d int) ssa.Value {
	if d > 10 {
		return nil
	}
	v = l.m.canonOf(v)
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op != token.MUL {
			return nil
		}
		return l.itemIndex(t.X, recv, d+1)
	case *ssa.FieldAddr:
		return l.itemIndex(t.X, recv, d+1)
	case *ssa.Field:
		return l.itemIndex(t.X, recv, d+1)
	case *ssa.IndexAddr:
		if l.fromRecv(t.X, recv) {
			return t.Index
		}
		return nil
	case *ssa.Alloc:
		if v := soleStore(t); v != nil {
			return l.itemIndex(v, recv, d+1)
		}
	case *ssa.Convert:
		return l.itemIndex(t.X, recv, d+1)
	case *ssa.ChangeType:
		return l.itemIndex(t.X, recv, d+1)
	case *ssa.Call:
		if len(t.Call.Args) > 0 && !t.Call.IsInvoke() {
			return l.itemIndex(t.Call.Args[0], recv, d+1)
		}
		if t.Call.IsInvoke() {
			return l.itemIndex(t.Call.Value, recv, d+1)
		}
	}
	return nil
}

// fromParam: v is computed from a parameter other than the receiver.
func (l *listAn) fromParam(v ssa.Value) bool {
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		v = l.m.canonOf(v)
		switch t := v.(type) {
		case *ssa.Parameter:
			return t != l.f.Params[0]
		case *ssa.UnOp:
			return walk(t.X, d+1)
		case *ssa.Convert:
			return walk(t.X, d+1)
		case *ssa.ChangeType:
			return walk(t.X, d+1)
		case *ssa.FieldAddr:
			return walk(t.X, d+1)
		case *ssa.Field:
			return walk(t.X, d+1)
		case *ssa.Slice:
			return walk(t.X, d+1)
		case *ssa.Call:
			for _, a := range callArgs(&t.Call) {
				if walk(a, d+1) {
					return true
				}
			}
		case *ssa.Alloc:
			if v := soleStore(t); v != nil {
				return walk(v, d+1)
			}
		}
		return false
	}
	return walk(v, 0)
}

type listLoop struct {
	list       ssa.Value
	head, exit *ssa.BasicBlock
	body       []*ssa.BasicBlock
	in         map[*ssa.BasicBlock]bool
	idx        ssa.Value // position examined in the body
}

// loopsOver: the counted loops of l.f over the whole list recv.
func (l *listAn) loopsOver(recv ssa.Value) []listLoop {
	var out []listLoop
	for _, lp := range countedLoops(l.x, l.f) {
		if l.fromRecv(lp.list, recv) {
			out = append(out, lp)
		}
	}
	return out
}

// countedLoops: the loops of f that visit every position of a list in order.
func countedLoops(x *prover, f *ssa.Function) []listLoop {
	var out []listLoop
	for _, h := range f.Blocks {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			continue
		}
		tn, kn := x.lin(c.Y)
		if !tn.ln || kn != 0 {
			continue
		}
		lp := listLoop{list: tn.v, head: h, in: map[*ssa.BasicBlock]bool{h: true}}
		back := false
		var work []*ssa.BasicBlock
		for _, pr := range h.Preds {
			if isBackEdge(pr, h) {
				back = true
				work = append(work, pr)
			}
		}
		if !back {
			continue
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if lp.in[b] {
				continue
			}
			lp.in[b] = true
			work = append(work, b.Preds...)
		}
		// counter: position examined is c.X
		ti, ki := x.lin(c.X)
		ph, ok := ti.v.(*ssa.Phi)
		if ti.ln || !ok || ph.Block() != h {
			continue
		}
		full := true
		for i, pr := range h.Preds {
			te, ke := x.lin(ph.Edges[i])
			if isBackEdge(pr, h) {
				if te != ti || ke != 1 {
					full = false
				}
			} else if te != zero || ke+ki != 0 {
				full = false
			}
		}
		if !full {
			continue
		}
		lp.idx = c.X
		lp.exit = h.Succs[1]
		for b := range lp.in {
			if b != h {
				lp.body = append(lp.body, b)
			}
		}
		out = append(out, lp)
	}
	return out
}

func (l *listAn) countsDown() bool {
	for _, b := range l.f.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			for _, e := range ph.Edges {
				if t, k := l.x.lin(e); t.v == ssa.Value(ph) && k < 0 {
					return true
				}
			}
		}
	}
	return false
}

// search: Index, Contains and Find methods of list types.
func (l *listAn) search() {
	recv := l.f.Params[0]
	if len(l.f.Params) < 2 {
		return
	}
	l.r.Units["search_methods"]++
	name := l.p.FName(l.f)
	// delegation: the result is another search's
	loops := l.loopsOver(recv)
	isAbsent := func(v ssa.Value) (bool, bool) { // absent, known
		if isNilConst(v) {
			return true, true
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			switch k.Value.Kind() {
			case constant.Bool:
				return !constant.BoolVal(k.Value), true
			case constant.Int:
				n, _ := constant.Int64Val(k.Value)
				return n == -1, true
			}
		}
		return false, false
	}
	a := &nilAn{p: l.p, m: l.m, x: l.x}
	anyLoop := false
	for _, b := range l.f.Blocks {
		for _, pr := range b.Preds {
			if isBackEdge(pr, b) {
				anyLoop = true
			}
		}
	}
	if !anyLoop {
		// a delegating search: Contains is Index() > -1 and the like; the
		// comparison is covered by hit-at-zero
		if len(l.f.Blocks) == 1 {
			l.r.ok("%s delegates to another search", name)
		} else {
			l.r.undecided("%s: no loop over the list", name)
		}
		return
	}
	if len(loops) == 0 && l.countsDown() {
		l.r.undecided("%s walks the list backwards", name)
		return
	}
	if len(loops) == 0 {
		l.r.failAlt("search", l.keys("walk over the list"), l.p.Pos(l.f.Pos()), "no loop examines every item of the list from the first to the last")
		return
	}
	for _, b := range l.f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == l.f.Recover {
			continue
		}
		type way struct {
			v         ssa.Value
			blk, edge *ssa.BasicBlock
		}
		ri := 0
		for i := range ret.Results {
			if bt, ok := ret.Results[i].Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				ri = i
			}
		}
		var ways []way
		phis := map[ssa.Value]bool{}
		var spread func(v ssa.Value, blk, edge *ssa.BasicBlock, d int)
		spread = func(v ssa.Value, blk, edge *ssa.BasicBlock, d int) {
			if phis[v] {
				return
			}
			if ph, ok := v.(*ssa.Phi); ok && d < 6 && !isCounter(ph) {
				phis[v] = true
				for i, e := range ph.Edges {
					if e != ssa.Value(ph) {
						spread(e, ph.Block().Preds[i], ph.Block(), d+1)
					}
				}
				return
			}
			ways = append(ways, way{v, blk, edge})
		}
		spread(ret.Results[ri], b, nil, 0)
		for _, w := range ways {
			abs, known := isAbsent(w.v)
			if known && abs {
				// must not be decided inside the loop
				early := false
				for _, lp := range loops {
					for _, from := range l.f.Blocks {
						if !lp.in[from] || from == lp.head {
							continue
						}
						for _, s := range from.Succs {
							if lp.in[s] {
								continue
							}
							if s == w.blk && w.edge == nil || from == w.blk && s == w.edge {
								early = true
							}
						}
					}
				}
				if early {
					l.r.failAlt("search", l.keys("absent result"), l.p.InstrPos(ret), "absence is reported before every item was examined")
				} else {
					l.r.ok("%s: absence is reported only after the last item (or before the search)", name)
				}
				continue
			}
			if k, ok := w.v.(*ssa.Const); ok && k.Value != nil && a.condKnown(w.blk, w.edge, func(c ssa.Value, truth bool) bool { return truth && phis[c] }) {
				continue // found before
			}
			if c, ok := w.v.(*ssa.BinOp); ok && c.Op == token.EQL {
				if l.isItemOf(c.X, recv) && l.fromParam(c.Y) || l.isItemOf(c.Y, recv) && l.fromParam(c.X) {
					l.r.ok("%s: reports the result of the comparison", name)
					continue
				}
			}
			// found: an item was compared with an argument, and it is that item
			var at ssa.Value
			partial := false
			cmp := a.condKnown(w.blk, w.edge, func(c ssa.Value, truth bool) bool {
				c = l.m.canonOf(c)
				switch t := c.(type) {
				case *ssa.BinOp:
					if (t.Op == token.EQL) != truth || t.Op != token.EQL && t.Op != token.NEQ {
						return false
					}
					for _, pr := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
						if i := l.itemIndex(pr[0], recv, 0); i != nil && l.fromParam(pr[1]) {
							at = i
							// the very item is asked for, but only something
							// it has in common with others is compared
							if pt := l.f.Params[1].Type(); isPtr(pt) && namedOf(deref(pt)) == l.p.Named("xmp", "Node") && types.Identical(pt, recvSlice(l.f).Elem()) && !types.Identical(pr[0].Type(), pt) {
								partial = true
							}
							return true
						}
					}
				case *ssa.Call:
					if !truth {
						return false
					}
					var it ssa.Value
					prm := false
					for _, x := range callArgs(&t.Call) {
						if i := l.itemIndex(x, recv, 0); i != nil {
							it = i
						} else if l.fromParam(x) {
							prm = true
						}
					}
					if it != nil && prm {
						at = it
						return true
					}
				}
				return false
			})
			if !cmp {
				// handed on from another search
				if c, _ := resultOf(w.v); c != nil {
					l.r.ok("%s hands on another search's result", name)
					continue
				}
				if l.guardedOut(w.blk) {
					l.r.ok("%s: result before the search", name)
					continue
				}
				l.r.failAlt("search", l.keys("found result"), l.p.InstrPos(ret), "a result is reported without having compared an item of the list with the value searched for")
				continue
			}
			if partial {
				l.r.failAlt("search", l.keys("found result"), l.p.InstrPos(ret), "an item is taken for the one searched for because a part of it is equal")
				continue
			}
			// position or item reported is the one compared
			if i := l.itemIndex(w.v, recv, 0); i != nil || isIntType(w.v.Type()) && !known {
				if i == nil {
					i = w.v
				}
				ti, ki := l.x.lin(i)
				ta, ka := l.x.lin(at)
				if ti != ta || ki != ka {
					l.r.failAlt("search", l.keys("found position"), l.p.InstrPos(ret), "the position or item reported is not the one that was compared")
					continue
				}
			}
			l.r.ok("%s: reports the item it compared", name)
		}
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// guardedOut: b is left over from the entry guards (not after any loop).
func (l *listAn) guardedOut(b *ssa.BasicBlock) bool {
	for _, h := range l.f.Blocks {
		for _, pr := range h.Preds {
			if isBackEdge(pr, h) && (h == b || reaches(h, b, nil)) {
				return false
			}
		}
	}
	return true
}

type loopRemoval struct {
	call *ssa.Call
	loop listLoop
	name string
}

// place: a list as fields below a value.
type place struct {
	base   ssa.Value
	fields string
}

func placeOf(m *memAn, v ssa.Value) place {
	fs := ""
	for {
		v = m.canonOf(v)
		switch t := v.(type) {
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return place{v, fs}
			}
			v = t.X
		case *ssa.FieldAddr:
			fs = fmt.Sprint(t.Field, ".", fs)
			v = t.X
		case *ssa.ChangeType:
			v = t.X
		default:
			return place{v, fs}
		}
	}
}

// splicesParam: the lists reachable from its parameters that f removes items
// from, as fields below a parameter.
func splicesParam(p *Prog, m *memAn, f *ssa.Function, d int, cache map[*ssa.Function]map[int][]string) map[int][]string {
	if c, ok := cache[f]; ok {
		return c
	}
	out := map[int][]string{}
	cache[f] = out
	if f == nil || len(f.Blocks) == 0 || d > 4 {
		return out
	}
	put := func(pl place) {
		if i := prmIndex(f, pl.base); i >= 0 {
			out[i] = append(out[i], pl.fields)
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			list, _, _ := splice(x.Val)
			if list == nil {
				return
			}
			to := placeOf(m, x.Addr)
			if placeOf(m, list) == to {
				put(to)
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || !p.InModule(g) {
				return
			}
			for i, fs := range splicesParam(p, m, g, d+1, cache) {
				if i < len(x.Call.Args) {
					for _, f := range fs {
						pl := placeOf(m, x.Call.Args[i])
						pl.fields += f
						put(pl)
					}
				}
			}
		}
	})
	return out
}

// loopRemovals: calls that remove an item from the list a loop is going
// through, after which the loop goes on.
func loopRemovals(p *Prog, x *prover, f *ssa.Function) []loopRemoval {
	var out []loopRemoval
	if len(f.Blocks) == 0 {
		return nil
	}
	l := &listAn{p: p, x: x, m: x.m, f: f}
	for _, lp := range countedLoops(x, f) {
		pl := placeOf(x.m, lp.list)
		for _, b := range lp.body {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || !p.InModule(g) || !reaches(b, lp.head, nil) {
					continue
				}
				for i, fs := range splicesParam(p, x.m, g, 0, p.spliceCache()) {
					if i >= len(c.Call.Args) {
						continue
					}
					for _, fl := range fs {
						ap := placeOf(x.m, c.Call.Args[i])
						ap.fields += fl
						if ap == pl && l.goesOn(c, lp) {
							out = append(out, loopRemoval{c, lp, g.Name()})
						}
					}
				}
			}
		}
	}
	return out
}

// goesOn: after the call the loop continues with the next position.
func (l *listAn) goesOn(c *ssa.Call, lp listLoop) bool {
	for _, s := range c.Block().Succs {
		if s == lp.head || lp.in[s] && reaches(s, lp.head, nil) {
			return true
		}
	}
	return false
}

func (p *Prog) spliceCache() map[*ssa.Function]map[int][]string {
	c, ok := p.cache["splices"].(map[*ssa.Function]map[int][]string)
	if !ok {
		c = map[*ssa.Function]map[int][]string{}
		p.cache["splices"] = c
	}
	return c
}
