package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C22, rule address: readers, writers and the listing of paths mean the same
// place by the same path.

type addrAn struct {
	p    *Prog
	r    *Result
	path *types.Named
	node *types.Named
	memo map[ssa.Value]int
}

func (a *addrAn) run() {
	a.memo = map[ssa.Value]int{}
	a.extensions()
	a.languages()
	a.splits()
	a.nameless()
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// depth: how many segments of the path the function was given lie before the
// end of this part of it (-1: unknown). The segments taken by the iterations
// of a loop count once.
func (a *addrAn) depth(v ssa.Value, busy map[ssa.Value]bool) int {
	if d, ok := a.memo[v]; ok {
		return d
	}
	if busy[v] {
		return -1
	}
	busy[v] = true
	d := -1
	switch x := v.(type) {
	case *ssa.Parameter:
		if namedOf(x.Type()) == a.path {
			d = 0
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n := a.depth(e, busy); n >= 0 && (d < 0 || n < d) {
				d = n
			}
		}
	case *ssa.ChangeType:
		d = a.depth(x.X, busy)
	case *ssa.Extract:
		d = a.depth(x.Tuple, busy)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(x.Call.Args) == 0 {
			break
		}
		arg := x.Call.Args[0]
		if g.Signature.Recv() != nil && namedOf(g.Signature.Recv().Type()) == a.path && g.Signature.Params().Len() == 0 {
			if n := a.depth(arg, busy); n >= 0 && g.Signature.Results().Len() > 0 {
				switch t := g.Signature.Results().At(0).Type(); {
				case isBasic(t, types.String) || namedOf(t) == a.path:
					d = n + 1
				}
			}
		} else if g.Signature.Recv() == nil && len(x.Call.Args) == 1 && isBasic(arg.Type(), types.String) {
			d = a.depth(arg, busy) // the name inside the segment
		}
	}
	delete(busy, v)
	if len(busy) == 0 {
		a.memo[v] = d
	}
	return d
}

type addrUse struct {
	name, rest map[int]ssa.Instruction
	f          *ssa.Function
}

// uses: which segments of the path name, and which part of it is handed on to,
// what an extension container of each type holds.
func (a *addrAn) uses(f *ssa.Function) map[*types.Named]*addrUse {
	res := map[*types.Named]*addrUse{}
	eachInstr(f, func(in ssa.Instruction) {
		ta, ok := in.(*ssa.TypeAssert)
		if !ok {
			return
		}
		t := namedOf(deref(ta.AssertedType))
		if t == nil {
			return
		}
		s, ok := t.Underlying().(*types.Slice)
		if !ok || !types.Identical(deref(deref(s.Elem())).Underlying(), a.node.Underlying()) {
			return
		}
		u := res[t]
		if u == nil {
			u = &addrUse{map[int]ssa.Instruction{}, map[int]ssa.Instruction{}, f}
			res[t] = u
		}
		from := map[ssa.Value]bool{ta: true}
		for changed := true; changed; {
			changed = false
			add := func(v ssa.Value) {
				if !from[v] {
					from[v], changed = true, true
				}
			}
			eachInstr(f, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Extract:
					if from[x.Tuple] {
						add(x)
					}
				case *ssa.UnOp:
					if from[x.X] {
						add(x)
					}
				case *ssa.IndexAddr:
					if from[x.X] {
						add(x)
					}
				case *ssa.FieldAddr:
					if from[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if from[x.X] {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if from[e] {
							add(x)
						}
					}
				case *ssa.Store:
					if from[x.Val] {
						add(x.Addr)
					}
				case *ssa.Call:
					if len(x.Call.Args) > 0 && from[x.Call.Args[0]] && isPtr(x.Type()) {
						add(x)
					}
				}
			})
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || len(c.Call.Args) < 2 || c.Call.StaticCallee() == nil || !a.p.InModule(c.Call.StaticCallee()) || !from[c.Call.Args[0]] {
				return
			}
			arg := c.Call.Args[1]
			d := a.depth(arg, map[ssa.Value]bool{})
			if d < 0 {
				return
			}
			switch {
			case namedOf(arg.Type()) == a.path:
				u.rest[d] = c
			case isBasic(arg.Type(), types.String) && isPtr(c.Type()):
				u.name[d] = c
			}
		})
	})
	return res
}

func sameParts(x, y map[int]ssa.Instruction) bool {
	for k := range x {
		if y[k] == nil {
			return false
		}
	}
	return len(x) == len(y)
}

func partsOf(x map[int]ssa.Instruction) []int {
	var l []int
	for k := range x {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func (a *addrAn) extensions() {
	type pair struct{ read, write *addrUse }
	all := map[*types.Named]*pair{}
	var order []*types.Named
	for _, f := range a.p.LibFuncs() {
		sig := f.Signature
		if len(f.Blocks) == 0 || sig.Results().Len() == 0 || !isErrorType(sig.Results().At(sig.Results().Len()-1).Type()) {
			continue
		}
		takes := false
		for _, prm := range f.Params {
			takes = takes || namedOf(prm.Type()) == a.path
		}
		if !takes {
			continue
		}
		read := sig.Results().Len() == 2 && isBasic(sig.Results().At(0).Type(), types.String)
		if !read && sig.Results().Len() != 1 {
			continue
		}
		for t, u := range a.uses(f) {
			pr := all[t]
			if pr == nil {
				pr = &pair{}
				all[t] = pr
				order = append(order, t)
			}
			if read {
				pr.read = u
			} else {
				pr.write = u
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Obj().Name() < order[j].Obj().Name() })
	for _, t := range order {
		pr := all[t]
		if pr.read == nil || pr.write == nil {
			continue
		}
		name := t.Obj().Name()
		bad := false
		check := func(what string, x, y map[int]ssa.Instruction) {
			if len(x) == 0 || len(y) == 0 || sameParts(x, y) {
				return
			}
			bad = true
			in := x[partsOf(x)[0]]
			a.r.failAlt("address", []string{name + " " + what}, a.p.InstrPos(in), "reading a path takes %s of what a %s holds from part %v of the path, writing it (%s) from part %v: a value that was written is not found", what, name, partsOf(x), a.p.FName(pr.write.f), partsOf(y))
		}
		check("the name", pr.read.name, pr.write.name)
		check("the rest", pr.read.rest, pr.write.rest)
		if !bad && len(pr.read.name) > 0 && len(pr.write.name) > 0 {
			a.r.ok("address: %s: reader and writer take its name from part %v and hand on what follows part %v", name, partsOf(pr.read.name), partsOf(pr.read.rest))
			a.r.Units["extension containers addressed"]++
		}
	}
}

type addrKey struct {
	t *types.Named
	i int
}

// text: the constants and fields a text comes from.
func (a *addrAn) text(v ssa.Value, consts map[string]bool, fields map[addrKey]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			if s := constant.StringVal(x.Value); s != "" {
				consts[s] = true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.text(e, consts, fields, seen)
		}
	case *ssa.Convert:
		a.text(x.X, consts, fields, seen)
	case *ssa.ChangeType:
		a.text(x.X, consts, fields, seen)
	case *ssa.Field:
		if n := namedOf(x.X.Type()); n != nil {
			fields[addrKey{n, x.Field}] = true
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			if n := namedOf(deref(y.X.Type())); n != nil {
				fields[addrKey{n, y.Field}] = true
			}
		case *ssa.Alloc:
			for _, ref := range *y.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == y {
					a.text(st.Val, consts, fields, seen)
				}
			}
		}
	case *ssa.Extract:
		a.text(x.Tuple, consts, fields, seen)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(x.Call.Args) != 1 || g.Signature.Results().Len() != 1 {
			return
		}
		eachInstr(g, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				a.text(ret.Results[0], consts, fields, seen)
			}
		})
	}
}

// languages: the name the listing gives an item without a language is
// compared wherever items are looked up by their language.
func (a *addrAn) languages() {
	list := a.p.Named("xmp", "PathValueList")
	var consts = map[string]bool{}
	var fields = map[addrKey]bool{}
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 || f.Signature.Results().Len() != 2 || namedOf(f.Signature.Results().At(0).Type()) != list {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || !a.p.InModule(c.Call.StaticCallee()) || len(c.Call.Args) != 2 {
				return
			}
			if namedOf(c.Call.Args[0].Type()) != a.path || namedOf(c.Type()) != a.path || !isBasic(c.Call.Args[1].Type(), types.String) {
				return
			}
			cs, fs := map[string]bool{}, map[addrKey]bool{}
			a.text(c.Call.Args[1], cs, fs, map[ssa.Value]bool{})
			if len(cs) == 0 || len(fs) == 0 {
				return
			}
			for k := range cs {
				consts[k] = true
			}
			for k := range fs {
				fields[k] = true
			}
		})
	}
	if len(consts) == 0 {
		return
	}
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		key := func(v ssa.Value) ssa.Value {
			switch x := v.(type) {
			case *ssa.Parameter:
				rv := f.Signature.Recv()
				if rv == nil || !isBasic(x.Type(), types.String) {
					return nil
				}
				s, ok := deref(rv.Type()).Underlying().(*types.Slice)
				if !ok {
					return nil
				}
				for k := range fields {
					if namedOf(s.Elem()) == k.t {
						return x
					}
				}
			case *ssa.Extract:
				if a.splitter(x.Tuple) && x.Index == 2 {
					return x
				}
			case *ssa.Convert:
				if e, ok := x.X.(*ssa.Extract); ok && a.splitter(e.Tuple) && e.Index == 2 {
					return e
				}
			}
			return nil
		}
		type state struct {
			at   []ssa.Instruction
			full []ssa.Instruction
		}
		by := map[ssa.Value]*state{}
		var order []ssa.Value
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				k := key(pr[0])
				if k == nil {
					continue
				}
				cs, fs := map[string]bool{}, map[addrKey]bool{}
				a.text(pr[1], cs, fs, map[ssa.Value]bool{})
				st := by[k]
				if st == nil {
					st = &state{}
					by[k] = st
					order = append(order, k)
				}
				full, at := false, false
				for c := range cs {
					full = full || consts[c]
				}
				for x := range fs {
					at = at || fields[x]
				}
				if full {
					st.full = append(st.full, b)
				}
				if at {
					st.at = append(st.at, b)
				}
			}
		})
		for _, k := range order {
			st := by[k]
			for _, at := range st.at {
				a.r.Units["language lookups"]++
				found := false
				for _, x := range st.full {
					// in the same turn of a loop, or before it
					found = found || x == at || cycles(x.Block(), at.Block()) && cycles(at.Block(), x.Block()) ||
						x.Block().Dominates(at.Block()) && !cycles(x.Block(), x.Block())
				}
				if !found {
					a.r.failAlt("address", []string{a.p.FName(f) + " language"}, a.p.InstrPos(at), "%s compares the language of items as it is stored, but the listing of paths gives items without one another name: such an item is not found by its path", a.p.FName(f))
					continue
				}
				a.r.ok("address: %s (%s): looks items up by the name the listing gives them", a.p.FName(f), a.p.InstrPos(at))
			}
		}
	}
}

// cycles: control gets from a to b over at least one edge.
func cycles(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// splitter: splits a segment into name, index and language.
func (a *addrAn) splitter(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	return g != nil && a.p.InModule(g) && isSplitter(g)
}

func isSplitter(g *ssa.Function) bool {
	s := g.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 3 && isBasic(s.Params().At(0).Type(), types.String) &&
		isBasic(s.Results().At(0).Type(), types.String) && isBasic(s.Results().At(1).Type(), types.Int) && isBasic(s.Results().At(2).Type(), types.String)
}

// splits: an index is one wherever the bracket stands.
func (a *addrAn) splits() {
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 || !isSplitter(f) {
			continue
		}
		a.r.Units["segment splitters"]++
		bad := false
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				return
			}
			for n, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				c, ok := pr[0].(*ssa.Call)
				k, kok := pr[1].(*ssa.Const)
				if !ok || !kok || k.Value == nil || k.Value.Kind() != constant.Int || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 {
					continue
				}
				if s := c.Call.StaticCallee().String(); s != "strings.Index" && s != "strings.IndexByte" && s != "strings.LastIndex" && s != "strings.IndexRune" {
					continue
				}
				if b.Op == token.EQL || b.Op == token.NEQ {
					continue
				}
				cmp := func(i int64) bool {
					x, y := constant.MakeInt64(i), k.Value
					if n == 1 {
						x, y = y, x
					}
					return constant.Compare(x, b.Op, y)
				}
				switch b.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if cmp(0) != cmp(1) {
						bad = true
						a.r.failAlt("address", []string{a.p.FName(f) + " bracket"}, a.p.InstrPos(b), "%s takes an index at the start of a segment for a name, but the listing of paths gives such segments to arrays inside arrays", a.p.FName(f))
					}
				}
			}
		})
		if !bad {
			a.r.ok("address: %s (%s): finds an index at any place of a segment", a.p.FName(f), a.p.Pos(f.Pos()))
		}
	}
}

// nameless: no node is looked up by the empty name of a segment.
func (a *addrAn) nameless() {
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 || f.Signature.Recv() == nil || namedOf(deref(f.Signature.Recv().Type())) != a.node {
			continue
		}
		name := func(v ssa.Value) bool {
			for n := 0; n < 4; n++ {
				switch x := v.(type) {
				case *ssa.Extract:
					return x.Index == 0 && a.splitter(x.Tuple)
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g == nil || len(x.Call.Args) != 1 || !isBasic(x.Call.Args[0].Type(), types.String) {
						return false
					}
					v = x.Call.Args[0]
					continue
				case *ssa.Convert:
					v = x.X
					continue
				}
				return false
			}
			return false
		}
		var finds []ssa.Instruction
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !isPtr(c.Type()) || namedOf(deref(c.Type())) != a.node || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 {
				return
			}
			if namedOf(deref(c.Call.Args[0].Type())) != nil && name(c.Call.Args[1]) {
				finds = append(finds, in)
			}
		})
		for _, in := range finds {
			in := in
			q := &pathQ{f: f, lean: true,
				stop: func(x ssa.Instruction, s pstate) bool { return false },
				bad:  func(x ssa.Instruction, s pstate) bool { return x == in },
				prune: func(cond ssa.Value, truth bool, s pstate) bool {
					c, tr := literal(cond, truth, s)
					b, ok := c.(*ssa.BinOp)
					if !ok || b.Op != token.EQL && b.Op != token.NEQ {
						return false
					}
					for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if k, ok := strConst(pr[1]); ok && k == "" && name(s.resolve(pr[0])) {
							return (b.Op == token.NEQ) == tr
						}
					}
					return false
				},
			}
			a.r.Units["named nodes looked up"]++
			if q.run(f.Blocks[0], nil, newPstate()) != nil {
				a.r.failAlt("address", []string{a.p.FName(f) + " nameless"}, a.p.InstrPos(in), "%s looks a node up by the name of a segment also when the segment has none, as the paths listed for arrays inside arrays do", a.p.FName(f))
				continue
			}
			a.r.ok("address: %s (%s): a node is looked up only by a name", a.p.FName(f), a.p.InstrPos(in))
		}
	}
}
