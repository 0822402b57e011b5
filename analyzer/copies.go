package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C06: recycled nodes start blank, copied nodes are complete and independent.

func init() { register("C06", checkCopies) }

type copyAn struct {
	*poolAn
	st  *types.Struct
	ctr map[*ssa.Function]bool // return a new, childless node
	cpy map[*ssa.Function]bool // node -> copied node
	lst map[*ssa.Function]bool // list -> copied list
}

func checkCopies(p *Prog, r *Result) {
	r.Explain = "Rule blank: every field of a node received from the recycling channel is set to its zero value or to a caller's argument on every path before the node is returned, or every sender clears that field before sending (must-assign analysis through helper calls). Rule copied-field: in every function that makes a node from a node argument, each field of the copy is filled on every path from the same field of the original; lists are copied into new backing storage at full length, child nodes through a copying function (region inference: the copy's region does not contain the original); a new node that takes over another's children takes over its value and attributes. Rule copied-all: functions copying node lists copy each item of the whole list."
	a := &copyAn{poolAn: newPoolAn(p, r), ctr: map[*ssa.Function]bool{}, cpy: map[*ssa.Function]bool{}, lst: map[*ssa.Function]bool{}}
	r.need("recycle_points", 1)
	r.need("copy_functions", 1)
	if a.g.nodeT == nil {
		return
	}
	a.st = a.g.nodeT.(*types.Struct)
	a.classify()
	a.blank()
	for _, f := range p.Funcs {
		if !p.libFunc(f) || f.Synthetic != "" {
			continue
		}
		if a.cpy[f] {
			a.copyNode(f)
		}
		if a.lst[f] {
			a.copyList(f)
		}
		if !a.cpy[f] {
			a.transfers(f)
		}
	}
}

// transfers: new nodes that take over another node's children outside of the
// copying functions carry its value and attributes as well.
func (a *copyAn) transfers(f *ssa.Function) {
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			return
		}
		is := false
		for _, g := range a.p.Callees(&c.Call) {
			is = is || a.lst[g]
		}
		src, ok := unconv(c.Call.Args[0]).(*ssa.UnOp)
		if !is || !ok {
			return
		}
		sfa, ok := src.X.(*ssa.FieldAddr)
		if !ok || !a.g.isNode(deref(sfa.X.Type())) {
			return
		}
		// destination
		var dst ssa.Value
		eachInstr(f, func(x ssa.Instruction) {
			s, ok := x.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !a.g.isNode(deref(fa.X.Type())) {
				return
			}
			v := unconv(s.Val)
			if v == ssa.Value(c) {
				dst = fa.X
			} else if ap, ok := v.(*ssa.Call); ok {
				if b, ok := ap.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && unconv(ap.Call.Args[1]) == ssa.Value(c) {
					dst = fa.X
				}
			}
		})
		if dst == nil {
			return
		}
		for _, o := range a.origins(dst) {
			if o.kind != oFresh {
				return
			}
		}
		a.r.Units["node_transfers"]++
		for i := 0; i < a.st.NumFields(); i++ {
			fld := a.st.Field(i)
			if _, iface := fld.Type().Underlying().(*types.Interface); iface || i == sfa.Field || a.p.TName(fld.Type()) == "xml.Name" {
				continue
			}
			// read from the source and written to the destination
			read, written := false, false
			eachInstr(f, func(x ssa.Instruction) {
				fa, ok := x.(*ssa.FieldAddr)
				if !ok || fa.Field != i || !a.g.isNode(deref(fa.X.Type())) {
					if cc, ok := x.(*ssa.Call); ok { // helper on the destination
						for _, q := range callArgs(&cc.Call) {
							if unconv(q) == unconv(dst) {
								written = true
							}
						}
					}
					return
				}
				if a.sameObj(unconv(fa.X), unconv(sfa.X)) {
					read = true
				}
				if a.sameObj(unconv(fa.X), unconv(dst)) {
					for _, ref := range *fa.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							written = true
						}
					}
				}
			})
			if read && written {
				a.r.ok("%s: %s: %s taken over with the children", a.p.InstrPos(c), a.p.FName(f), fld.Name())
			} else {
				a.r.failAlt("copied-field", a.keys(f, "transfer of "+fld.Name()), a.p.InstrPos(c), "the new node takes over the children of %s but not its %s", valName(a.p, sfa.X, 0), fld.Name())
			}
		}
	})
}

// classify finds constructors and copying functions by what they do.
func (a *copyAn) classify() {
	for _, f := range a.p.Funcs {
		if f.Signature.Results().Len() != 1 || !a.p.libFunc(f) || f.Blocks == nil {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		if a.g.isNodePtr(res) {
			nodes := 0
			var from ssa.Value
			for _, q := range f.Params {
				if a.g.isNodePtr(q.Type()) || a.g.isNode(q.Type()) {
					nodes++
					from = q
				}
			}
			all := a.fresh[f]
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, v := range retValues(ret, 0) {
						for _, o := range a.origins(v) {
							if o.kind != oFresh {
								all = false
							}
						}
					}
				}
			}
			switch {
			case !all:
			case nodes == 0:
				a.ctr[f] = true
			case nodes == 1 && len(f.Params) == 1 && readsFields(from) > 1:
				a.cpy[f] = true
			}
		}
	}
	for _, f := range a.p.Funcs {
		if f.Signature.Results().Len() == 1 && len(f.Params) == 1 && a.g.isNodeList(f.Params[0].Type()) && a.g.isNodeList(f.Signature.Results().At(0).Type()) {
			eachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(*ssa.Call); ok {
					for _, g := range a.p.Callees(&c.Call) {
						if a.cpy[g] {
							a.lst[f] = true
						}
					}
				}
			})
		}
	}
}

func readsFields(q ssa.Value) int {
	seen := map[int]bool{}
	for _, ref := range *q.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			seen[fa.Field] = true
		}
		if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
			return 99
		}
	}
	return len(seen)
}

// ---- blank

type fieldSet func(f *ssa.Function, n ssa.Value, field int, s *ssa.Store) bool

// setsOf: instructions that give the field of n an acceptable value.
func (a *copyAn) setsOf(f *ssa.Function, n ssa.Value, field int, good func(v ssa.Value) bool, depth int) []ssa.Instruction {
	var out []ssa.Instruction
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.Field == field && (fa.X == n || a.m.canonOf(fa.X) == a.m.canonOf(n)) {
				if good(in.Val) {
					out = append(out, in)
				}
			}
			if in.Addr == n { // whole node
				if isZeroConst(in.Val) {
					out = append(out, in)
				} else if u, ok := in.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					if al, ok := u.X.(*ssa.Alloc); ok {
						all := true
						for _, ref := range *al.Referrers() {
							if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == field {
								for _, r2 := range *fa.Referrers() {
									if s, ok := r2.(*ssa.Store); ok && !good(s.Val) {
										all = false
									}
								}
							}
						}
						if all {
							out = append(out, in)
						}
					}
				}
			}
		case *ssa.Call:
			if depth > 3 {
				return
			}
			args := callArgs(&in.Call)
			gs := a.p.Callees(&in.Call)
			all := len(gs) > 0
			for _, g := range gs {
				hit := false
				for i, q := range args {
					if i < len(g.Params) && (q == n || a.m.canonOf(q) == a.m.canonOf(n)) && g.Blocks != nil {
						sets := a.setsOf(g, g.Params[i], field, func(v ssa.Value) bool { return isZeroConst(v) || isNilConst(v) }, depth+1)
						if len(sets) > 0 && a.mustPass(g, nil, sets) {
							hit = true
						}
					}
				}
				all = all && hit
			}
			if all {
				out = append(out, in)
			}
		}
	})
	return out
}

// mustPass: every path from after `from` (or the entry) to a return passes a hit.
func (a *copyAn) mustPass(f *ssa.Function, from ssa.Instruction, hits []ssa.Instruction) bool {
	if from != nil {
		return allPathsHit(from, hits)
	}
	first := f.Blocks[0].Instrs[0]
	for _, h := range hits {
		if h == first {
			return true
		}
	}
	return allPathsHit(first, hits)
}

func (a *copyAn) blank() {
	type site struct {
		f  *ssa.Function
		in ssa.Instruction
		v  ssa.Value
	}
	var recv, send []site
	for _, f := range a.p.Funcs {
		if !a.p.libFunc(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.ARROW && a.g.isPool(in.X) {
					recv = append(recv, site{f, in, in})
				}
			case *ssa.Send:
				if a.g.isPool(in.Chan) {
					send = append(send, site{f, in, in.X})
				}
			case *ssa.Select:
				k := 2
				for _, s := range in.States {
					if s.Dir == types.SendOnly && a.g.isPool(s.Chan) {
						send = append(send, site{f, in, s.Send})
					}
					if s.Dir == types.RecvOnly {
						if a.g.isPool(s.Chan) {
							for _, ref := range *in.Referrers() {
								if ex, ok := ref.(*ssa.Extract); ok && ex.Index == k {
									recv = append(recv, site{f, ex, ex})
								}
							}
						}
						k++
					}
				}
			}
		})
	}
	zero := func(v ssa.Value) bool { return isZeroConst(v) || isNilConst(v) }
	for i := 0; i < a.st.NumFields(); i++ {
		fld := a.st.Field(i).Name()
		// cleared by every sender?
		var missSend *site
		for k := range send {
			s := send[k]
			sets := a.setsOf(s.f, s.v, i, zero, 0)
			ok := false
			for _, x := range sets {
				if dominatesInstr(x, s.in) {
					ok = true
					// a later non-zero store spoils it
					eachInstr(s.f, func(y ssa.Instruction) {
						if st, is := y.(*ssa.Store); is && y != x && reachesAvoiding(x, y, x) && reachesAvoiding(y, s.in, y) {
							if fa, is := st.Addr.(*ssa.FieldAddr); is && fa.Field == i && fa.X == s.v && !zero(st.Val) {
								ok = false
							}
						}
					})
				}
			}
			if !ok {
				missSend = &send[k]
			}
		}
		for _, s := range recv {
			a.r.Units["recycle_points"]++
			good := func(v ssa.Value) bool {
				if zero(v) {
					return true
				}
				_, prm := v.(*ssa.Parameter)
				return prm
			}
			// a name given to the constructor ends up in the node
			var want *ssa.Parameter
			eachInstr(s.f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == i && a.g.isNode(deref(fa.X.Type())) {
						if q, ok := st.Val.(*ssa.Parameter); ok {
							want = q
						}
					}
				}
			})
			if want != nil {
				sets := a.setsOf(s.f, s.v, i, func(v ssa.Value) bool { return v == ssa.Value(want) }, 0)
				if len(sets) == 0 && !a.passedOn(s.f, s.v, want) {
					a.r.failAlt("blank", a.keys(s.f, "field "+fld+" not set"), a.p.InstrPos(s.in), "a node taken from the pool does not get the %s asked for", fld)
					continue
				}
			}
			sets := a.setsOf(s.f, s.v, i, good, 0)
			okRecv := len(sets) > 0 && allPathsHit(s.in, sets)
			// the select's other branch never sees the node
			if !okRecv && len(sets) > 0 {
				okRecv = a.hitWhereUsed(s.f, s.v, sets)
			}
			if okRecv || missSend == nil && len(send) > 0 {
				a.r.ok("%s: field %s of a recycled node is blank", a.p.InstrPos(s.in), fld)
				continue
			}
			a.r.failAlt("blank", a.keys(s.f, "field "+fld), a.p.InstrPos(s.in), "a node taken from the pool keeps the %s of its previous life: it is not reset here on every path, and %s returns the node without clearing it (%s)", fld, a.p.FName(missSend.f), a.p.InstrPos(missSend.in))
		}
	}
}

// passedOn: a helper receives both the node and the argument.
func (a *copyAn) passedOn(f *ssa.Function, n ssa.Value, q *ssa.Parameter) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			hn, hq := false, false
			for _, x := range callArgs(&c.Call) {
				hn = hn || x == n
				hq = hq || x == ssa.Value(q)
			}
			found = found || hn && hq
		}
		// a whole node built from the argument
		if s, ok := in.(*ssa.Store); ok && s.Addr == n {
			found = true
		}
	})
	return found
}

// hitWhereUsed: on every path from the receive along which the node reaches a
// return, a hit comes first. Paths of a select that do not take the receive
// case never carry the node.
func (a *copyAn) hitWhereUsed(f *ssa.Function, v ssa.Value, hits []ssa.Instruction) bool {
	ok := true
	seen := false
	for _, b := range f.Blocks {
		ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is {
			continue
		}
		for _, rv := range ret.Results {
			if rv == v {
				seen = true
				dom := false
				for _, h := range hits {
					if dominatesInstr(h, ret) {
						dom = true
					}
				}
				ok = ok && dom
			}
			if ph, is := rv.(*ssa.Phi); is {
				for k, e := range ph.Edges {
					if e != v {
						continue
					}
					seen = true
					pr := ph.Block().Preds[k]
					dom := false
					for _, h := range hits {
						if h.Block() == pr || h.Block().Dominates(pr) {
							dom = true
						}
					}
					if !dom {
						ok = false
					}
				}
			}
		}
	}
	return ok && seen
}

// ---- copies

// fieldOf: v is the field of the original x (param), returns its index.
func (a *copyAn) fieldOf(v ssa.Value, x *ssa.Parameter) int {
	switch y := unconv(v).(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if fa, ok := y.X.(*ssa.FieldAddr); ok && (fa.X == x || a.m.canonOf(fa.X) == ssa.Value(x)) {
				return fa.Field
			}
		}
	case *ssa.Field:
		if u, ok := y.X.(*ssa.UnOp); ok && u.X == ssa.Value(x) {
			return y.Field
		}
	case *ssa.Slice:
		if y.Low == nil && y.High == nil {
			return a.fieldOf(y.X, x)
		}
	}
	return -1
}

func (a *copyAn) copyNode(f *ssa.Function) {
	a.r.Units["copy_functions"]++
	x := f.Params[0]
	// the copy
	var n ssa.Value
	one := true
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			v := unconv(retValues(ret, 0)[0])
			if isNilConst(v) {
				continue
			}
			if n != nil && n != v {
				one = false
			}
			n = v
		}
	}
	if n == nil || !one {
		a.r.undecided("%s: more than one copy", a.p.FName(f))
		return
	}
	// shared children
	if j := a.g.joined(f, "R0", nil); true {
		for k, chain := range j {
			if k == "P0" {
				s, _ := a.g.explain(chain, 0)
				a.r.failAlt("copied-field", a.keys(f, "children"), a.p.Pos(f.Pos()), "the copy shares nodes with the original (%s): changing or closing one changes the other", s)
			}
		}
	}
	var retBlocks []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !isNilConst(retValues(ret, 0)[0]) {
			retBlocks = append(retBlocks, b)
		}
	}
	for i := 0; i < a.st.NumFields(); i++ {
		fld := a.st.Field(i)
		_, isSlice := fld.Type().Underlying().(*types.Slice)
		a.r.Units["copied_fields"]++
		var full, bad []ssa.Instruction
		why := ""
		note := func(in ssa.Instruction, v ssa.Value) {
			w := ""
			if isSlice {
				w = a.listCopied(f, n, x, i, v, in)
			} else if k := a.fieldOf(v, x); k != i {
				w = "is filled with something else than the original's"
				if k >= 0 {
					w = "is filled from the original's " + a.st.Field(k).Name()
				} else if _, c := v.(*ssa.Const); !c {
					w = "?"
				}
			}
			switch w {
			case "":
				full = append(full, in)
			case "?":
				full = append(full, in)
				a.r.undecided("%s: how %s is copied", a.p.FName(f), fld.Name())
			default:
				bad = append(bad, in)
				why = w
			}
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.Field == i && unconv(fa.X) == n {
					note(in, in.Val)
				}
				if in.Addr == n {
					if u, ok := in.Val.(*ssa.UnOp); ok && u.X == ssa.Value(x) && !isSlice {
						full = append(full, in)
					}
				}
			case *ssa.Call:
				if ssa.Value(in) != n {
					// a helper filling the copy from the original
					args := callArgs(&in.Call)
					hasN, hasX := false, false
					for _, q := range args {
						hasN = hasN || unconv(q) == n
						hasX = hasX || a.reaches(q, x, 0)
					}
					if hasN && hasX {
						full = append(full, in)
						a.r.undecided("%s: %s may be copied by a helper", a.p.FName(f), fld.Name())
					}
					return
				}
				for _, q := range in.Call.Args {
					if a.fieldOf(q, x) == i {
						full = append(full, in)
					}
				}
			}
		})
		// appending in a loop: the store is not on every path, and need not be
		loopOK := false
		if isSlice {
			for _, in := range full {
				if loopHeaderOf(in.Block()) != nil {
					loopOK = true
				}
			}
		}
		must := loopOK
		if !must && len(full) > 0 {
			must = true
			for _, rb := range retBlocks {
				if !a.domAny(full, rb) {
					must = a.guardedEmpty(full, x, i)
				}
			}
		}
		key := "field " + fld.Name()
		switch {
		case len(bad) > 0:
			a.r.failAlt("copied-field", a.keys(f, key), a.p.InstrPos(bad[0]), "the copy's %s %s", fld.Name(), why)
		case len(full) == 0:
			a.r.failAlt("copied-field", a.keys(f, key), a.p.Pos(f.Pos()), "the copy does not carry over the original's %s", fld.Name())
		case !must:
			a.r.failAlt("copied-field", a.keys(f, key), a.p.InstrPos(full[0]), "the copy carries over the original's %s only on some paths", fld.Name())
		default:
			a.r.ok("%s: %s: %s copied from the same field", a.p.InstrPos(full[0]), a.p.FName(f), fld.Name())
		}
	}
}

func (a *copyAn) reaches(v ssa.Value, x *ssa.Parameter, d int) bool {
	if d > 4 {
		return false
	}
	v = unconv(v)
	if v == ssa.Value(x) {
		return true
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		return a.reaches(y.X, x, d+1)
	case *ssa.FieldAddr:
		return a.reaches(y.X, x, d+1)
	case *ssa.Slice:
		return a.reaches(y.X, x, d+1)
	}
	return false
}

func (a *copyAn) domAny(ins []ssa.Instruction, b *ssa.BasicBlock) bool {
	for _, in := range ins {
		if in.Block() == b || in.Block().Dominates(b) {
			return true
		}
	}
	return false
}

// guardedEmpty: the store is skipped only when the original's field is empty.
func (a *copyAn) guardedEmpty(ins []ssa.Instruction, x *ssa.Parameter, i int) bool {
	for _, in := range ins {
		b := in.Block()
		if len(b.Preds) != 1 {
			return false
		}
		iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		about := func(v ssa.Value) bool {
			if a.fieldOf(v, x) == i {
				return true
			}
			if call, ok := v.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return a.fieldOf(call.Call.Args[0], x) == i
				}
			}
			return false
		}
		if !about(c.X) && !about(c.Y) {
			return false
		}
	}
	return len(ins) > 0
}

// listCopied: v is a new list holding all of the original's field i.
// "" ok, "?" unknown, otherwise what is wrong.
func (a *copyAn) listCopied(f *ssa.Function, n ssa.Value, x *ssa.Parameter, i int, v ssa.Value, at ssa.Instruction) string {
	v = unconv(v)
	if k := a.fieldOf(v, x); k >= 0 {
		return "shares its storage with the original: writing an item of one changes the other"
	}
	isNodes := a.g.isNodeList(v.Type())
	switch y := v.(type) {
	case *ssa.Const:
		return "is emptied"
	case *ssa.Slice:
		if mk := makeOf(v); mk != nil {
			return a.filled(f, mk, x, i)
		}
		if a.reaches(y.X, x, 0) {
			return "shares its storage with the original: writing an item of one changes the other"
		}
		if _, ok := y.X.(*ssa.Alloc); ok {
			return "?"
		}
	case *ssa.MakeSlice:
		return a.filled(f, y, x, i)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(y.Call.Args) == 2 {
			base := unconv(y.Call.Args[0])
			added := unconv(y.Call.Args[1])
			if a.reaches(base, x, 0) {
				if s, ok := base.(*ssa.Slice); ok && s.Max != nil && isZeroConst(s.Max) {
					// x[:0:0]: appending reallocates
				} else {
					return "may share its storage with the original"
				}
			}
			if isNodes {
				return "?" // node by node: the region rule decides
			}
			if k := a.fieldOf(added, x); k == i {
				return ""
			} else if k >= 0 {
				return "is filled from the original's " + a.st.Field(k).Name()
			}
			if s, ok := added.(*ssa.Slice); ok && a.reaches(s, x, 0) {
				if _, isAl := s.X.(*ssa.Alloc); !isAl {
					return "holds only part of the original's"
				}
			}
			return "?"
		}
		if pkg, name := extCallee(&y.Call); pkg == "slices" && len(y.Call.Args) > 0 {
			if a.fieldOf(y.Call.Args[0], x) == i && len(name) >= 5 && name[:5] == "Clone" {
				if isNodes {
					return "holds the original's own nodes"
				}
				return ""
			}
			return "?"
		}
		for _, q := range callArgs(&y.Call) {
			if k := a.fieldOf(q, x); k == i {
				return ""
			} else if s, ok := unconv(q).(*ssa.Slice); ok && a.reaches(s, x, 0) && (s.Low != nil || s.High != nil) {
				return "holds only part of the original's"
			} else if k >= 0 {
				return "is filled from the original's " + a.st.Field(k).Name()
			}
		}
		return "?"
	}
	return "?"
}

func makeOf(v ssa.Value) *ssa.MakeSlice {
	m, _ := v.(*ssa.MakeSlice)
	return m
}

// filled: a made list of the original's length that is copied into.
func (a *copyAn) filled(f *ssa.Function, mk *ssa.MakeSlice, x *ssa.Parameter, i int) string {
	tl, kl := a.x.lin(mk.Len)
	lenOK := false
	if tl.ln && a.fieldOf(tl.v, x) == i {
		if kl < 0 {
			return "is shorter than the original's"
		}
		lenOK = kl == 0
	}
	// copied into: copy(dst, x.F) where dst is the list or the field it was stored in
	res := "?"
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "copy" {
			return
		}
		dst := unconv(c.Call.Args[0])
		if dst != ssa.Value(mk) && a.m.canonOf(dst) != ssa.Value(mk) {
			same := false
			if u, ok := dst.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == i && fa.X != ssa.Value(x) {
					same = true
				}
			}
			if !same {
				return
			}
		}
		if a.fieldOf(c.Call.Args[1], x) == i {
			if lenOK {
				res = ""
			} else if k, isC := intConst(mk.Len); isC && k == 0 {
				res = "has length 0 when the items are copied"
			}
		} else if a.reaches(c.Call.Args[1], x, 0) {
			res = "holds only part of the original's"
		}
	})
	if res == "?" && lenOK && !a.writtenInLoop(f, mk, i) {
		return "has the original's length but none of its items"
	}
	return res
}

func (a *copyAn) writtenInLoop(f *ssa.Function, mk ssa.Value, i int) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if _, ok := s.Addr.(*ssa.IndexAddr); ok {
				found = true
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				if _, ok := fa.X.(*ssa.IndexAddr); ok {
					found = true
				}
			}
		}
	})
	return found
}

// copyList: each item of the whole list is copied.
func (a *copyAn) copyList(f *ssa.Function) {
	a.r.Units["list_copy_functions"]++
	li := &listAn{p: a.p, r: a.r, x: a.x, m: a.m, f: f}
	loops := li.loopsOver(f.Params[0])
	done := false
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		is := false
		for _, g := range a.p.Callees(&c.Call) {
			is = is || a.cpy[g]
		}
		if !is {
			return
		}
		for _, lp := range loops {
			if !lp.in[c.Block()] {
				continue
			}
			done = true
			every := true
			for _, pr := range lp.head.Preds {
				if isBackEdge(pr, lp.head) && !c.Block().Dominates(pr) {
					every = false
				}
			}
			early := false
			for b := range lp.in {
				for _, s := range b.Succs {
					if !lp.in[s] && b != lp.head {
						early = true
					}
				}
			}
			switch {
			case !every:
				a.r.failAlt("copied-all", a.keys(f, "skips items"), a.p.InstrPos(c), "some items of the list are not copied")
			case early:
				a.r.failAlt("copied-all", a.keys(f, "stops early"), a.p.InstrPos(c), "copying can stop before the last item")
			default:
				a.r.ok("%s: %s: every item copied", a.p.InstrPos(c), a.p.FName(f))
			}
		}
		if !done && loopHeaderOf(c.Block()) != nil {
			a.partial(f, c)
			done = true
		}
	})
	if !done {
		a.r.undecided("%s: how the list is copied", a.p.FName(f))
	}
}

// partial: a loop that provably does not start at the first or end at the last item.
func (a *copyAn) partial(f *ssa.Function, c *ssa.Call) {
	h := loopHeaderOf(c.Block())
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || !isIntType(ph.Type()) {
			continue
		}
		for k, pr := range h.Preds {
			if isBackEdge(pr, h) {
				continue
			}
			if v, ok := intConst(ph.Edges[k]); ok && v > 0 {
				a.r.failAlt("copied-all", a.keys(f, "skips items"), a.p.InstrPos(c), "copying starts at item %d", v)
				return
			}
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Slice); ok && unconv(s.X) == ssa.Value(f.Params[0]) {
			if lo, ok := s.Low.(*ssa.Const); ok && !isZeroConst(lo) {
				a.r.failAlt("copied-all", a.keys(f, "skips items"), a.p.InstrPos(c), "copying leaves out the first items")
			}
		}
	})
}
