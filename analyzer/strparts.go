package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Texts of an element: where a loop takes several texts out of an element,
// each of them reaches the output on every path, unless it is empty.

// textPart: one text of an element.
type textPart struct {
	key   string
	reads []ssa.Value
}

// textParts: the texts taken out of the element of l by field or by key.
func (a *flowAn) textParts(f *ssa.Function, l itemLoop, t taint) []textPart {
	m := map[string]*textPart{}
	nested := func(b *ssa.BasicBlock) bool {
		for _, h := range f.Blocks {
			if h == l.head || !l.in[h] {
				continue
			}
			if in := blocksOfLoop(h); in != nil && in[b] {
				return true
			}
		}
		return false
	}
	add := func(k string, v ssa.Value) {
		p := m[k]
		if p == nil {
			p = &textPart{key: k}
			m[k] = p
		}
		p.reads = append(p.reads, v)
	}
	for b := range l.in {
		if nested(b) {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || t[v]&tAny == 0 || !isStringType(v.Type()) {
				continue
			}
			var base ssa.Value
			field := -1
			switch x := in.(type) {
			case *ssa.Field:
				base, field = x.X, x.Field
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					base, field = fa.X, fa.Field
				}
			case *ssa.Extract:
				if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
					if lk, ok := ta.X.(*ssa.Lookup); ok {
						if k, ok := strConst(lk.Index); ok {
							add(fmt.Sprintf("key %q", k), v)
						}
					}
				}
				continue
			case *ssa.TypeAssert:
				if lk, ok := x.X.(*ssa.Lookup); ok {
					if k, ok := strConst(lk.Index); ok {
						add(fmt.Sprintf("key %q", k), v)
					}
				}
				continue
			}
			if field < 0 || a.isItem(base.Type()) || isXMLName(deref(base.Type())) || t[base]&tAny == 0 {
				continue
			}
			if n := namedOf(deref(base.Type())); n == nil || !n.Obj().Exported() {
				continue // not content
			}
			if fd := structField(base.Type(), field); fd != nil {
				add(fd.Name()+" of "+a.p.TName(deref(base.Type())), v)
			}
		}
	}
	var out []textPart
	for _, p := range m {
		out = append(out, *p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// reports: the call only makes an error.
func reports(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	pkg, _ := extCallee(&c.Call)
	return pkg == "fmt" || pkg == "errors"
}

// otherForm: on this branch the caller asked for another form.
func otherForm(cond ssa.Value, truth bool, s pstate) bool {
	c, tr := literal(cond, truth, s)
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ || tr != (b.Op == token.NEQ) {
		return false
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		_, isPrm := s.resolve(pr[0]).(*ssa.Parameter)
		k, isK := pr[1].(*ssa.Const)
		if isPrm && isK && k.Value != nil && (k.Value.Kind() == constant.Int || k.Value.Kind() == constant.String && constant.StringVal(k.Value) != "") {
			return true
		}
	}
	return false
}

// textRule decides the rule for one loop.
func (a *flowAn) textRule(f *ssa.Function, l itemLoop, excused func(cond ssa.Value, truth bool, s pstate, t taint) bool, success func(q *pathQ, f *ssa.Function, in ssa.Instruction, s pstate) bool, keys func(f *ssa.Function, what string) []string, pos ssa.Instruction) {
	t := a.taint(f, l.seeds)
	parts := a.textParts(f, l, t)
	if len(parts) < 2 {
		return
	}
	cut := map[ssa.Value]bool{}
	for _, pt := range parts {
		for _, v := range pt.reads {
			cut[v] = true
		}
	}
	a.cut = cut
	elem := a.taint(f, l.seeds) // the element in one piece
	a.cut = nil
	for _, pt := range parts {
		seeds := taint{}
		for _, v := range pt.reads {
			seeds[v] = tCont
		}
		tp := a.taint(f, seeds)
		written := false
		for b := range l.in {
			for _, in := range b.Instrs {
				if a.hands(in, tp) && !reports(in) {
					written = true
				}
			}
		}
		if !written {
			continue
		}
		isRead := func(v ssa.Value) bool {
			return seeds[strip(v)] != 0
		}
		a.r.Units["element_texts"]++
		q := &pathQ{f: f, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool {
			a.res = s.resolve
			defer func() { a.res = nil }()
			return l.in[in.Block()] && (a.hands(in, tp) || a.hands(in, elem)) && !reports(in)
		}
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			if otherForm(cond, truth, s) || excused(cond, truth, s, elem) {
				return true
			}
			c, tr := literal(cond, truth, s)
			if x := lenZero(c, tr); x != nil && isRead(x) {
				return true
			}
			if e, ok := c.(*ssa.Extract); ok && e.Index == 1 && !tr {
				// there is no such text
				for v := range seeds {
					if d, ok := v.(*ssa.Extract); ok && d.Tuple == e.Tuple {
						return true
					}
				}
			}
			b, ok := c.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || tr != (b.Op == token.EQL) {
				return false
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := strConst(pr[1]); ok && k == "" && isRead(pr[0]) {
					return true
				}
			}
			return false
		}
		q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
			if b == l.head || b == l.exit {
				return 2, ""
			}
			return 0, ""
		}
		q.bad = func(in ssa.Instruction, s pstate) bool { return success(q, f, in, s) }
		a.byError(q, tp)
		a.byError(q, elem)
		what := "elements of " + valName(a.p, l.list, 0) + ", " + pt.key
		bad := q.run(l.body, nil, newPstate())
		switch {
		case q.over:
			a.r.undecided("%s: too many paths in the loop at %s", a.p.FName(f), a.p.InstrPos(pos))
		case bad != nil:
			a.r.failAlt("texts", keys(f, what), a.p.InstrPos(pos), "%s: an iteration can end without handing %s on although it is not empty (%s)", a.p.FName(f), pt.key, a.p.InstrPos(bad))
		default:
			a.r.ok("texts: %s (%s): every iteration hands %s on", a.p.FName(f), a.p.InstrPos(pos), pt.key)
		}
	}
}
