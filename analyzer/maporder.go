package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C17: results do not depend on the (random) iteration order of a map.

func init() { register("C17", checkMapOrder) }

type mapLoop struct {
	f      *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	key    map[ssa.Value]bool
	val    map[ssa.Value]bool
	src    ssa.Value
	pos    ssa.Instruction
}

// mapLoops finds range-over-map loops and loops over reflect's MapKeys.
func mapLoops(f *ssa.Function) []*mapLoop {
	var out []*mapLoop
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Next:
			rg, ok := in.Iter.(*ssa.Range)
			if !ok || in.IsString {
				return
			}
			l := &mapLoop{f: f, header: in.Block(), key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}, src: rg.X, pos: rg}
			for _, ref := range *in.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok {
					switch ex.Index {
					case 1:
						l.key[ex] = true
					case 2:
						l.val[ex] = true
					}
				}
			}
			l.blocks = loopBlocks(in.Block())
			out = append(out, l)
		case *ssa.IndexAddr:
			c, ok := in.X.(*ssa.Call)
			if !ok {
				return
			}
			if pkg, name := extCallee(&c.Call); pkg != "reflect" || name != "MapKeys" {
				return
			}
			// the loop indexing the unsorted keys
			h := loopHeaderOf(in.Block())
			if h == nil || sortedAfter(c, nil) {
				return
			}
			l := &mapLoop{f: f, header: h, key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}, src: c, pos: c}
			for _, ref := range *in.Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
					l.key[u] = true
				}
			}
			l.blocks = loopBlocks(h)
			out = append(out, l)
		}
	})
	return out
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{h: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if out[b] || !h.Dominates(b) {
			return
		}
		out[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			up(p)
		}
	}
	return out
}

func loopHeaderOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && loopBlocks(h)[b] {
				return h
			}
		}
	}
	return nil
}

// sortedAfter: the slice (or a phi/append of it) is handed to a sorting function.
func sortedAfter(v ssa.Value, blocks map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if seen[v] || d > 12 || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch r := ref.(type) {
			case *ssa.Call:
				if pkg, name := extCallee(&r.Call); (pkg == "sort" || pkg == "slices") && name != "Reverse" && !inBlocks(blocks, r.Block()) {
					return true
				}
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if walk(r, d+1) {
						return true
					}
				}
			case *ssa.Phi:
				if walk(r, d+1) {
					return true
				}
			case *ssa.ChangeType:
				if walk(r, d+1) {
					return true
				}
			case *ssa.MakeInterface:
				if walk(r, d+1) {
					return true
				}
			case *ssa.Slice:
				if wholeSlice(r) && walk(r, d+1) {
					return true
				}
			case *ssa.Store:
				if r.Val == v {
					if al, ok := r.Addr.(*ssa.Alloc); ok {
						for _, r2 := range *al.Referrers() {
							if u, ok := r2.(*ssa.UnOp); ok && walk(u, d+1) {
								return true
							}
							if sl, ok := r2.(*ssa.Slice); ok && walk(sl, d+1) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

func inBlocks(m map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool { return m != nil && m[b] }

func checkMapOrder(p *Prog, r *Result) {
	r.Explain = "Rule map order: every loop over a map (range, or reflect MapKeys) computes something that does not depend on the random visiting order - it fills another map under the loop key, collects into a slice that is sorted before use, selects by a strict order, counts, or stops at a match on the unique key. Every other write, append, call with effects or early exit in such a loop is reported."
	eff := p.Effects()
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		for _, l := range mapLoops(f) {
			r.Units["map_loops"]++
			if isInit(f) {
				r.ok("%s runs at start", p.FName(f))
				continue
			}
			if why, in := l.orderDependence(p, eff); why != "" {
				r.fail("map-order", p.FName(f)+": "+why, p.InstrPos(in), "%s iterates over a map in random order and %s: the result changes from run to run", p.FName(f), why)
			} else {
				r.ok("the map loop in %s is independent of the order", p.FName(f))
			}
		}
		// random selection over channels or goroutine interleaving would be the same fault
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			pkg, name := extCallee(&c.Call)
			if pkg == "math/rand" || pkg == "math/rand/v2" {
				r.fail("random", p.FName(f)+" "+name, p.InstrPos(in), "%s depends on a random number", p.FName(f))
			}
		})
	}
	r.need("map_loops", 6)
}

// derived: v is computed from the loop key only through injective steps.
func (l *mapLoop) isKey(v ssa.Value) bool {
	for n := 0; n < 6; n++ {
		if l.key[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.BinOp: // prefixing or suffixing keeps keys distinct
			if x.Op != token.ADD {
				return false
			}
			switch {
			case l.invariant(x.Y):
				v = x.X
			case l.invariant(x.X):
				v = x.Y
			default:
				return false
			}
		default:
			return false
		}
	}
	return false
}

// invariant: the same value in every iteration - defined outside the loop, or
// computed only from such values and memory the loop does not assign.
func (l *mapLoop) invariant(v ssa.Value) bool { return l.inv(v, 0) }

func (l *mapLoop) inv(v ssa.Value, d int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true
	}
	if d > 6 || l.key[v] || l.val[v] {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return l.inv(x.X, d+1)
	case *ssa.Field:
		return l.inv(x.X, d+1)
	case *ssa.IndexAddr:
		return l.inv(x.X, d+1) && l.inv(x.Index, d+1)
	case *ssa.Convert:
		return l.inv(x.X, d+1)
	case *ssa.ChangeType:
		return l.inv(x.X, d+1)
	case *ssa.MakeInterface:
		return l.inv(x.X, d+1)
	case *ssa.BinOp:
		return l.inv(x.X, d+1) && l.inv(x.Y, d+1)
	case *ssa.UnOp:
		if x.Op == token.ARROW || !l.inv(x.X, d+1) {
			return false
		}
		return x.Op != token.MUL || !l.assigned(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return l.inv(x.Call.Args[0], d+1)
		}
	}
	return false
}

// assigned: the loop stores to a location that may be addr (same variable,
// same field of any object, or any element of the same type).
func (l *mapLoop) assigned(addr ssa.Value) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == addr {
				return true
			}
			fa, ok1 := addr.(*ssa.FieldAddr)
			fb, ok2 := st.Addr.(*ssa.FieldAddr)
			if ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type()) {
				return true
			}
			if !ok1 && !ok2 {
				_, g1 := addr.(*ssa.Global)
				_, g2 := st.Addr.(*ssa.Global)
				_, a1 := addr.(*ssa.Alloc)
				_, a2 := st.Addr.(*ssa.Alloc)
				if !g1 && !g2 && !a1 && !a2 && types.Identical(addr.Type(), st.Addr.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (l *mapLoop) orderDependence(p *Prog, eff *effects) (string, ssa.Instruction) {
	constTable := false
	if u, ok := l.src.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			constTable = p.uniqueConstMap(g)
		}
	}
	// loop-carried values
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if why := l.carried(p, ph); why != "" {
			return why, ph
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				base := addrBase(i.Addr)
				if al, ok := base.(*ssa.Alloc); ok && l.blocks[al.Block()] {
					continue // a variable of this iteration
				}
				if al, ok := base.(*ssa.Alloc); ok && l.cellOK(p, al, i) {
					continue
				}
				if c, ok := i.Val.(*ssa.Const); ok && c != nil {
					continue // the same constant whatever the order
				}
				if l.invariant(i.Val) {
					continue
				}
				return "stores a value that depends on the visiting order", in
			case *ssa.MapUpdate:
				if l.isKey(i.Key) || l.sameConst(i.Value) || l.injective(i.Key, i.Value) {
					continue
				}
				return "fills a map under something other than the loop key", in
			case *ssa.Send:
				return "sends on a channel", in
			case *ssa.Return:
				if why := l.exitOK(constTable, b, i); why != "" {
					return why, in
				}
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); ok {
					_ = bi
					continue // append judged by where the result goes
				}
				if why := l.callDep(p, eff, i); why != "" {
					return why, in
				}
			case *ssa.Defer:
				return "defers calls", in
			case *ssa.Go:
				return "starts goroutines", in
			}
		}
		// leaving the loop from inside the body
		if b == l.header {
			continue
		}
		for si, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			if l.okExit(b, si, constTable) {
				continue
			}
			if l.failExit(s) {
				continue
			}
			return "stops at the first match", b.Instrs[len(b.Instrs)-1]
		}
	}
	return "", nil
}

// sameConst: the stored value is the same in every iteration.
func (l *mapLoop) sameConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// injective: inverting the map value->key is only safe with unique values; not provable here.
func (l *mapLoop) injective(k, v ssa.Value) bool { return false }

// okExit: leaving on equality of the unique key with a fixed value, or from a
// constant table without duplicate values.
func (l *mapLoop) okExit(b *ssa.BasicBlock, si int, constTable bool) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		// unconditional jump out: judged by the branch that leads here
		for _, pb := range b.Preds {
			ok := false
			for i, s := range pb.Succs {
				if s == b && l.okExit(pb, i, constTable) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return len(b.Preds) > 0
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	if bo.Op == token.EQL && si == 0 || bo.Op == token.NEQ && si == 1 {
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if l.isKey(pr[0]) && l.invariant(pr[1]) {
				return true
			}
			if constTable && l.val[pr[0]] && l.invariant(pr[1]) {
				return true
			}
		}
	}
	return false
}

// failExit: the way out only reports an error.
func (l *mapLoop) failExit(s *ssa.BasicBlock) bool {
	last := s.Instrs[len(s.Instrs)-1]
	ret, ok := last.(*ssa.Return)
	if !ok {
		_, isPanic := last.(*ssa.Panic)
		return isPanic
	}
	for i := range ret.Results {
		if isErrorType(ret.Results[i].Type()) {
			for _, v := range retValues(ret, i) {
				if !isNilConst(v) {
					return true
				}
			}
		}
	}
	return false
}

func (l *mapLoop) exitOK(constTable bool, b *ssa.BasicBlock, ret *ssa.Return) string { return "" }

// carried: a loop variable must accumulate independently of the order.
func (l *mapLoop) carried(p *Prog, ph *ssa.Phi) string {
	for i, e := range ph.Edges {
		if !l.blocks[l.header.Preds[i]] {
			continue
		}
		if e != ph && l.ordered(p, l.header.Preds[i], ph, e) {
			continue
		}
		if why := l.update(p, ph, e, map[ssa.Value]bool{}); why != "" {
			return why
		}
	}
	return ""
}

func (l *mapLoop) update(p *Prog, ph *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) string {
	if e == ph || seen[e] || l.invariant(e) {
		return ""
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for i, v := range x.Edges {
			if v == ph {
				continue
			}
			if l.ordered(p, x.Block().Preds[i], ph, v) || l.ordered(p, x.Block(), ph, v) {
				continue
			}
			if why := l.update(p, ph, v, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				return ""
			}
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				return ""
			}
		}
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			return "" // recomputed condition
		}
		return "accumulates in visiting order"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return l.collected(p, ph, x)
		}
		return "keeps the last value visited"
	}
	if l.ordered(p, nil, ph, e) {
		return ""
	}
	return "keeps the last value visited"
}

// ordered: v replaces the loop variable only under a strict comparison with it.
// decides: the comparison tells any two elements of the map apart.
func (l *mapLoop) decides(p *Prog, bo *ssa.BinOp) bool {
	out := map[string]bool{}
	p.leaves(bo.X, out, 0)
	p.leaves(bo.Y, out, 0)
	return !l.tied(p, out)
}

func (l *mapLoop) ordered(p *Prog, b *ssa.BasicBlock, ph *ssa.Phi, v ssa.Value) bool {
	if b == nil {
		return false
	}
	// some branch deciding to reach b compares something of v with something of ph
	for d := b; d != nil && l.blocks[d]; d = d.Idom() {
		for _, in := range d.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if dependsOn(bo, ph, 0) && dependsOn(bo, v, 0) && l.decides(p, bo) {
					return true
				}
			}
		}
		for _, pb := range d.Preds {
			if !l.blocks[pb] || pb == l.header {
				continue
			}
			for _, in := range pb.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.GTR) && dependsOn(bo, ph, 0) && dependsOn(bo, v, 0) && l.decides(p, bo) {
					return true
				}
			}
		}
	}
	return false
}

func dependsOn(v, x ssa.Value, d int) bool {
	if v == x {
		return true
	}
	if d > 6 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, x, d+1) {
			return true
		}
	}
	return false
}

// cellOK: a collecting variable kept in memory.
func (l *mapLoop) cellOK(p *Prog, al *ssa.Alloc, s *ssa.Store) bool {
	if c, ok := s.Val.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, ref := range *al.Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok && sortedAfter(u, l.blocks) {
					return l.collected(p, u) == ""
				}
			}
			return false
		}
	}
	if bo, ok := s.Val.(*ssa.BinOp); ok {
		if bt, ok := bo.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			switch bo.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
				return true
			}
		}
	}
	return false
}

// callDep: a callee with effects outside the iteration.
func (l *mapLoop) callDep(p *Prog, eff *effects, c *ssa.Call) string {
	pkg, name := extCallee(&c.Call)
	if pkg == "fmt" && (name == "Printf" || name == "Println" || name == "Print") {
		return "" // debug print
	}
	args := callArgs(&c.Call)
	iterLocal := func(v ssa.Value) bool {
		v = rootPtr(v)
		in, ok := v.(ssa.Instruction)
		if l.key[v] || l.val[v] {
			return true
		}
		if ok && l.blocks[in.Block()] {
			switch v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call:
				return true
			}
		}
		return false
	}
	for _, g := range p.Callees(&c.Call) {
		s := eff.sum[g]
		if s == nil {
			continue
		}
		for i := range s.mut {
			if i == originGlobal {
				continue
			}
			if i < len(args) && !iterLocal(args[i]) {
				if l.collects(args[i]) {
					continue
				}
				return "calls " + p.FName(g) + ", which records in visiting order"
			}
		}
	}
	if len(p.Callees(&c.Call)) == 0 || !p.InModule(p.Callees(&c.Call)[0]) {
		// writers
		if name == "Write" || name == "WriteString" || name == "WriteByte" || name == "WriteRune" || pkg == "fmt" && len(name) > 1 && name[0] == 'F' || name == "EncodeToken" || name == "EncodeElement" || name == "Encode" {
			if len(args) > 0 && !iterLocal(args[0]) {
				return "writes output"
			}
		}
		for _, i := range extMutates(&c.Call) {
			if i < len(args) && !iterLocal(args[i]) && pkg != "sort" {
				return "calls " + name + " in visiting order"
			}
		}
	}
	return ""
}

// collects: the callee fills a list that is sorted afterwards.
func (l *mapLoop) collects(v ssa.Value) bool {
	root := rootPtr(v)
	al, ok := root.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *al.Referrers() {
		if u, ok := ref.(*ssa.UnOp); ok && sortedAfter(u, l.blocks) {
			return true
		}
	}
	return false
}

// uniqueConstMap: a package-level map filled once at start with distinct values.
func (p *Prog) uniqueConstMap(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	vals := map[string]bool{}
	n := 0
	ok := true
	for _, f := range p.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			mu, isMu := in.(*ssa.MapUpdate)
			if !isMu {
				return
			}
			src := mu.Map
			isG := false
			if u, k := src.(*ssa.UnOp); k && u.X == g {
				isG = true
			}
			if mm, k := src.(*ssa.MakeMap); k {
				for _, ref := range *mm.Referrers() {
					if s, k := ref.(*ssa.Store); k && s.Addr == g {
						isG = true
					}
				}
			}
			if !isG {
				return
			}
			n++
			if !isInit(f) {
				ok = false
				return
			}
			c, k := mu.Value.(*ssa.Const)
			if !k || c.Value == nil || c.Value.Kind() != constant.String && c.Value.Kind() != constant.Int {
				ok = false
				return
			}
			if vals[c.Value.ExactString()] {
				ok = false
			}
			vals[c.Value.ExactString()] = true
		})
	}
	return ok && n > 0
}
