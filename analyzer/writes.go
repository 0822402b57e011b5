package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// C22: a write that reports success has taken effect, as its flags allow.

func init() { register("C22", checkWrites) }

type writeAn struct {
	*flowAn
	flagT  *types.Named
	pathT  *types.Named
	descT  *types.Named
	modelT types.Type
	done   map[flowKey]bool
}

func checkWrites(p *Prog, r *Result) {
	r.Explain = "Rule effect: in every setter (exported Set.., Add.. and Append.. operations) and every path writer (function with path, value and flags), every path to success hands the value on: stores it in the target, or passes it to a function of which the same is required; excused are empty or nil values, a value found to be present already, and the documented NOFAIL flag. For path writers this is decided for every combination of flags separately. Rule removal: in path writers, content is removed or cleared only under combinations of flags and values that ask for it. Rule cleared: asked to delete (DELETE and an empty value), a path writer removes or clears the content on every path to success, unless a search found nothing to delete. Rule lost: a change is never made to a part of a local copy that nothing reads afterwards. Rule created: a model that an operation on a document makes is put into that document before it is written to or returned. Rule address: the readers and the writers of paths take the name of an extension, and the rest they hand on to it, from the same part of the path; items of language alternatives are looked up by the name the listing of paths gives them (with the one for items without a language); an index is found at any place of a segment; no node is looked up by the empty name of a segment. All rules are path queries with item flow on SSA; flags are enumerated exhaustively."
	a := &writeAn{flowAn: newFlow(p, r), done: map[flowKey]bool{}}
	a.out, a.bools, a.conv, a.ident = true, true, true, true
	a.flagT, a.pathT, a.descT = p.Named("xmp", "SyncFlags"), p.Named("xmp", "Path"), p.Named("xmp", "PathValue")
	if a.flagT == nil || a.pathT == nil || a.descT == nil {
		r.undecided("types SyncFlags, Path and PathValue not found")
		r.need("setters", 20)
		return
	}
	a.setters()
	a.lost()
	a.created()
	(&addrAn{p: p, r: r, path: a.pathT, node: a.node}).run()
	r.need("extension containers addressed", 1)
	r.need("language lookups", 1)
	r.need("named nodes looked up", 1)
	r.need("setters", 20)
	r.need("path writers", 2)
}

func hasWord(name string, words ...string) bool {
	for _, w := range words {
		if len(name) >= len(w) && name[:len(w)] == w && (len(name) == len(w) || unicode.IsUpper(rune(name[len(w)]))) {
			return true
		}
	}
	return false
}

func (a *writeAn) setters() {
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		if w := a.pathWriter(f); w >= 0 {
			a.r.Units["path writers"]++
			a.writer(f, w)
			continue
		}
		if !token.IsExported(f.Name()) || !hasWord(f.Name(), "Set", "Add", "Append", "Insert", "Put") {
			continue
		}
		target := 0
		if len(f.Params) < 2 {
			if f.Signature.Recv() == nil {
				target = -1
			} else {
				continue
			}
		}
		if target == 0 && !isPtr(f.Params[0].Type()) {
			if _, ok := f.Params[0].Type().Underlying().(*types.Interface); !ok {
				continue
			}
		}
		a.setter(f, target)
	}
}

// pathWriter: f writes a value to a path; the parameter that holds the value.
func (a *writeAn) pathWriter(f *ssa.Function) int {
	fl, pt, val, desc := false, false, -1, -1
	for i, prm := range f.Params {
		n := namedOf(prm.Type())
		switch {
		case n == a.flagT:
			fl = true
		case n == a.pathT && (i > 0 || f.Signature.Recv() == nil):
			pt = true
		case n == a.descT:
			desc = i
		default:
			if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && (i > 0 || f.Signature.Recv() == nil) {
				val = i
			}
		}
	}
	n := f.Signature.Results().Len()
	if n == 0 || !isErrorType(f.Signature.Results().At(n-1).Type()) {
		return -1
	}
	if fl && pt && val >= 0 {
		return val
	}
	return desc
}

// content: parameter i is something to store.
func (a *writeAn) content(f *ssa.Function, i int) bool {
	t := f.Params[i].Type()
	if n := namedOf(t); n == a.flagT || n == a.pathT {
		return false
	}
	if noContent(t) {
		return false
	}
	ok := false
	tt := a.taint(f, taint{f.Params[i]: a.paramBits(f, i)})
	eachInstr(f, func(in ssa.Instruction) {
		if c, isCall := in.(*ssa.Call); isCall && errorMaker(&c.Call) {
			return
		}
		ok = ok || a.hands(in, tt) && !localHand(in)
	})
	return ok
}

func (a *writeAn) setter(f *ssa.Function, target int) {
	stores := false
	for i := range f.Params {
		if i != target && a.content(f, i) {
			stores = true
			a.effect(f, i)
		}
	}
	if !stores {
		a.r.failAlt("effect", a.keys(f, "nothing"), a.p.Pos(f.Pos()), "%s stores nothing of what it is given", a.p.FName(f))
	}
}

func (a *writeAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	if len(out) == 0 {
		out = []string{a.p.FName(f) + ": " + what}
	}
	return out
}

func (a *writeAn) seeds(f *ssa.Function, i int) taint {
	if namedOf(f.Params[i].Type()) != a.descT {
		return taint{f.Params[i]: a.paramBits(f, i)}
	}
	out := taint{}
	eachInstr(f, func(in ssa.Instruction) {
		var base ssa.Value
		k := 0
		switch x := in.(type) {
		case *ssa.FieldAddr:
			base, k = x.X, x.Field
		case *ssa.Field:
			base, k = x.X, x.Field
		default:
			return
		}
		if namedOf(deref(base.Type())) == a.descT && structField(base.Type(), k).Name() == "Value" {
			out[in.(ssa.Value)] = tCont
		}
	})
	return out
}

// isVal: v is the value written itself.
func (a *writeAn) isVal(v ssa.Value, seeds taint, s pstate) bool {
	v = s.resolve(v)
	if seeds[v] != 0 {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && seeds[u.X] != 0
}

// query: paths of f that succeed without handing the value on.
func (a *writeAn) query(f *ssa.Function, seeds, t taint) *pathQ {
	rest := a.others(f, seeds)
	fresh := a.freshRoots(f, t)
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range a.itemLoops(f) {
		if t[l.list] != 0 && a.loopHands(l) {
			heads[l.head] = true
		}
	}
	q := &pathQ{f: f, m: a.m, lean: true}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		if c, ok := in.(*ssa.Call); ok && errorMaker(&c.Call) {
			return false
		}
		a.res = s.resolve
		defer func() { a.res = nil }()
		if made, put := a.madeHere(in, t, fresh, s); made {
			return put
		}
		return a.hands(in, t) || a.updatesFound(in, rest.all, s)
	}
	q.arrive = func(b *ssa.BasicBlock, s pstate) (int, string) {
		if heads[b] {
			return 1, ""
		}
		return 0, ""
	}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool { return a.excused(cond, truth, s, seeds, rest) }
	q.bad = func(in ssa.Instruction, s pstate) bool {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return false
		}
		if n := len(ret.Results); n > 0 {
			v := s.resolve(ret.Results[n-1])
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
				return false // reported as not done
			}
		}
		return q.okReturn(in, s) && !a.failed(q, ret, s)
	}
	a.later = map[*ssa.Call]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if dst := a.target(&c.Call, t); dst != nil && fresh[a.reflRoot(dst, newPstate())] {
				a.later[c] = true
			}
		}
	})
	a.byError(q, t)
	a.later = nil
	return q
}

// others: the further contents of f; last: those after the one followed.
type otherPrms struct{ all, last taint }

func (a *writeAn) others(f *ssa.Function, seeds taint) otherPrms {
	o := otherPrms{taint{}, taint{}}
	after := false
	for i, prm := range f.Params {
		if seeds[prm] != 0 {
			after = true
			continue
		}
		if (i > 0 || f.Signature.Recv() == nil) && a.content(f, i) {
			o.all[prm] = 1
			if after {
				o.last[prm] = 1
			}
		}
	}
	return o
}

// reflRoot: the call that made the reflect value v, or what it holds.
func (a *writeAn) reflRoot(v ssa.Value, s pstate) *ssa.Call {
	for n := 0; n < 20; n++ {
		v = s.resolve(strip(v))
		switch x := v.(type) {
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Call:
			args := callArgs(&x.Call)
			if pkg, name := extCallee(&x.Call); pkg == "reflect" {
				switch {
				case name == "New":
					return x
				case (name == "Addr" || name == "Elem" || name == "Interface" || name == "Indirect" || name == "Convert") && len(args) > 0:
					v = args[0]
					continue
				case name == "Append" && len(args) == 2:
					// the elements appended
					if sl, ok := args[1].(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok && al.Referrers() != nil {
							for _, r := range *al.Referrers() {
								if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
									for _, q := range *ia.Referrers() {
										if st, ok := q.(*ssa.Store); ok {
											return a.reflRoot(st.Val, s)
										}
									}
								}
							}
						}
					}
				}
				return nil
			}
			if g := x.Call.StaticCallee(); g != nil && a.p.InModule(g) && len(args) == 1 && isReflectValue(x.Type()) && isReflectValue(args[0].Type()) {
				v = args[0]
				continue
			}
		}
		return nil
	}
	return nil
}

// target: the reflect value a call writes content of t to.
func (a *writeAn) target(c *ssa.CallCommon, t taint) ssa.Value {
	val, dst := false, ssa.Value(nil)
	for i, y := range callArgs(c) {
		if t[y]&tAny != 0 {
			val = true
		} else if dst == nil && (isReflectValue(y.Type()) || i == 0 && c.IsInvoke()) {
			dst = y
		}
	}
	if !val {
		return nil
	}
	return dst
}

// freshRoots: the values made by reflection in f that receive the content.
func (a *writeAn) freshRoots(f *ssa.Function, t taint) map[*ssa.Call]bool {
	out := map[*ssa.Call]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if dst := a.target(&c.Call, t); dst != nil {
				if r := a.reflRoot(dst, newPstate()); r != nil {
					out[r] = true
				}
			}
		}
	})
	return out
}

// madeHere: the instruction writes the content to a value made here (which
// still has to be stored), or stores that value.
func (a *writeAn) madeHere(in ssa.Instruction, t taint, fresh map[*ssa.Call]bool, s pstate) (made, put bool) {
	switch x := in.(type) {
	case *ssa.Call:
		if dst := a.target(&x.Call, t); dst != nil && fresh[a.reflRoot(dst, s)] {
			return true, false
		}
		if pkg, name := extCallee(&x.Call); pkg == "reflect" && hasWord(name, "Set") {
			for _, y := range callArgs(&x.Call)[1:] {
				if isReflectValue(y.Type()) && fresh[a.reflRoot(y, s)] {
					return true, true
				}
			}
		}
	case *ssa.Return:
		for _, y := range x.Results {
			if isReflectValue(y.Type()) && fresh[a.reflRoot(y, s)] {
				return true, true
			}
		}
	}
	return false, false
}

// updatesFound: an element looked up in the target is updated with another
// content.
func (a *writeAn) updatesFound(in ssa.Instruction, rest taint, s pstate) bool {
	var to ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		if rest[s.resolve(x.Val)] != 0 {
			to = x.Addr
		}
	case *ssa.Call:
		for k, y := range x.Call.Args {
			if k > 0 && rest[s.resolve(y)] != 0 {
				to = x.Call.Args[0]
			}
		}
	}
	if to == nil {
		return false
	}
	b := s.resolve(addrBase(to))
	if b == to {
		return false
	}
	c, ok := b.(*ssa.Call)
	return ok && c.Call.StaticCallee() != nil && a.p.InModule(c.Call.StaticCallee())
}

// failed: the error returned is not nil, because another result of the call
// it comes from is known to be nil.
func (a *writeAn) failed(q *pathQ, ret *ssa.Return, s pstate) bool {
	if len(ret.Results) == 0 {
		return false
	}
	ex, ok := s.resolve(ret.Results[len(ret.Results)-1]).(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || ex.Tuple.Referrers() == nil {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	for _, r := range *ex.Tuple.Referrers() {
		if y, ok := r.(*ssa.Extract); ok && y != ex && isPtr(y.Type()) {
			if isNil, known := s.fact[q.canon(y)]; known && isNil {
				gq := &pathQ{f: g, m: a.m}
				gq.bad = func(in ssa.Instruction, s pstate) bool {
					r, ok := in.(*ssa.Return)
					return ok && gq.okReturn(in, s) && gq.mayBeNil(s, r.Results[y.Index])
				}
				if gq.run(g.Blocks[0], nil, newPstate()) == nil && !gq.over {
					return true
				}
			}
		}
	}
	return false
}

// excused: on this branch there is nothing to store, or it is stored already.
func (a *writeAn) excused(cond ssa.Value, truth bool, s pstate, seeds taint, rest otherPrms) bool {
	c, tr := literal(cond, truth, s)
	is := func(v ssa.Value) bool { return a.isVal(v, seeds, s) }
	isLast := func(v ssa.Value) bool { return is(v) || rest.last[s.resolve(v)] != 0 }
	if nilTest(c, tr, s, isLast) {
		return true
	}
	switch x := c.(type) {
	case *ssa.Call:
		// empty, or present already
		g := x.Call.StaticCallee()
		args := callArgs(&x.Call)
		name := ""
		if g != nil {
			name = g.Name()
		} else if x.Call.IsInvoke() {
			name = x.Call.Method.Name()
		}
		if pkg, n := extCallee(&x.Call); pkg == "reflect" && n == "IsValid" {
			return !tr // there is no such field
		}
		if len(args) == 1 && isLast(args[0]) {
			return name == "IsZero" && tr
		}
		for _, y := range args {
			if is(y) && tr && g != nil && a.p.InModule(g) && isPredicate(g) {
				return true
			}
		}
	case *ssa.BinOp:
		op := x.Op
		if !tr {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		if l := lenZero(x, tr); l != nil && isLast(l) {
			return true
		}
		for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			_, k := s.resolve(pr[1]).(*ssa.Const)
			if op == token.EQL && (isLast(pr[0]) || !k && is(pr[0])) {
				return true // empty, or present already
			}
			if v, ok := strConst(pr[1]); ok && v == "" && op == token.EQL && a.ofPath(s.resolve(pr[0])) {
				return true // the path names no value
			}
		}
		// found by a search
		if lc, ok := s.resolve(x.X).(*ssa.Call); ok && lc.Call.StaticCallee() != nil && a.p.InModule(lc.Call.StaticCallee()) && isIntType(lc.Type()) {
			k, isK := intConst(x.Y)
			for _, y := range callArgs(&lc.Call) {
				if is(y) && isK && (op == token.GTR && k == -1 || op == token.GEQ && k == 0 || op == token.NEQ && k == -1) {
					return true
				}
			}
		}
	}
	return false
}

// ofPath: v is the first part of a path.
func (a *writeAn) ofPath(v ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return false
	}
	args := callArgs(&c.Call)
	return len(args) == 1 && namedOf(args[0].Type()) == a.pathT
}

func (a *writeAn) effect(f *ssa.Function, i int) {
	k := flowKey{f, i}
	if a.done[k] {
		return
	}
	a.done[k] = true
	a.r.Units["setters"]++
	seeds := a.seeds(f, i)
	t := a.taint(f, seeds)
	q := a.query(f, seeds, t)
	bad := q.run(f.Blocks[0], nil, newPstate())
	name := f.Params[i].Name()
	switch {
	case q.over:
		a.r.undecided("%s: too many paths", a.p.FName(f))
	case bad != nil:
		a.r.failAlt("effect", append(a.keys(f, name), a.keys(f, fmt.Sprintf("argument %d", i))...), a.p.InstrPos(bad), "%s reports success here on a path that does not store %s", a.p.FName(f), name)
	default:
		a.r.ok("effect: %s (%s): every successful path stores %s", a.p.FName(f), a.p.Pos(f.Pos()), name)
	}
	a.follow(f, t)
}

// follow: the same for the functions the value is passed to.
func (a *writeAn) follow(f *ssa.Function, t taint) {
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := c.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || len(g.Blocks) == 0 || isPredicate(g) || a.pathWriter(g) >= 0 {
			return
		}
		res := g.Signature.Results()
		if res.Len() > 1 || res.Len() == 1 && !isErrorType(res.At(0).Type()) {
			return
		}
		for _, prm := range g.Params {
			if n := namedOf(deref(prm.Type())); n != nil && n.Obj().Name() == "Decoder" {
				return // reading, see C18
			}
		}
		for k, x := range c.Call.Args {
			if t[x]&tAny != 0 && a.content(g, k) {
				a.effect(g, k)
			}
		}
	})
}

var flagNames = []string{"CREATE", "REPLACE", "DELETE", "APPEND", "UNIQUE", "NOFAIL"}

func (a *writeAn) flagBits() []int64 {
	var out []int64
	for _, n := range flagNames {
		v, ok := a.p.pkgConst("xmp", n)
		if !ok {
			a.r.undecided("flag %s not found", n)
			return nil
		}
		out = append(out, v)
	}
	return out
}

func (a *writeAn) flagString(f int64) string {
	s := ""
	for k, v := range a.flagBits() {
		if f&v != 0 {
			if s != "" {
				s += "|"
			}
			s += flagNames[k]
		}
	}
	return s
}

// decide prunes what contradicts the assumed flags and value.
func (a *writeAn) decide(q *pathQ, flags int64, empty bool, seeds taint) {
	nofail := a.flagBits()[5]
	prune := q.prune
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
		c, tr := literal(cond, truth, s)
		if base, mask, set, ok := flagTest(c); ok && namedOf(base.Type()) == a.flagT && mask&^nofail != 0 {
			return (flags&mask != 0) == set != tr
		}
		if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				k, ok := pr[1].(*ssa.Const)
				if !ok {
					continue
				}
				if n, ok := intConst(k); ok && namedOf(pr[0].Type()) == a.flagT {
					return (n == flags) == (b.Op == token.EQL) != tr
				}
				if v, ok := strConst(k); ok && v == "" && a.isVal(pr[0], seeds, s) {
					return empty == (b.Op == token.EQL) != tr
				}
			}
		}
		return prune != nil && prune(cond, truth, s)
	}
}

func (a *writeAn) writer(f *ssa.Function, val int) {
	bits := a.flagBits()
	if bits == nil {
		return
	}
	create, replace, del, appnd, unique, nofail := bits[0], bits[1], bits[2], bits[3], bits[4], bits[5]
	seeds := a.seeds(f, val)
	t := a.taint(f, seeds)
	seen := map[string]bool{}
	fail := func(rule, what string, in ssa.Instruction, fl int64, msg string, args ...interface{}) {
		k := rule + what + a.p.InstrPos(in)
		if !seen[k] {
			seen[k] = true
			a.r.failAlt(rule, a.keys(f, what), a.p.InstrPos(in), msg+" (flags "+a.flagString(fl)+")", args...)
		}
	}
	n := 0
	for fl := int64(1); fl < 64; fl++ {
		if fl&nofail != 0 {
			continue // left open: both branches of a test of this flag are taken
		}
		// effect
		q := a.query(f, seeds, t)
		a.decide(q, fl, false, seeds)
		p1 := q.prune
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			c, tr := literal(cond, truth, s)
			if _, mask, set, ok := flagTest(c); ok && mask == nofail && set == tr {
				return true // documented
			}
			return p1(cond, truth, s)
		}
		bad := q.run(f.Blocks[0], nil, newPstate())
		if q.over {
			a.r.undecided("%s: too many paths", a.p.FName(f))
			return
		}
		if bad != nil {
			fail("effect", "value", bad, fl, "%s reports success here on a path that does not store the value", a.p.FName(f))
		}
		n++
		// overwriting
		if fl&replace == 0 {
			q := &pathQ{f: f, m: a.m, lean: true}
			a.decide(q, fl, false, seeds)
			p2 := q.prune
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
				return p2(cond, truth, s) || a.emptyTest(cond, truth, s)
			}
			q.bad = func(in ssa.Instruction, s pstate) bool { return a.overwrites(in, t, s) }
			if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
				fail("overwrite", "existing", bad, fl, "%s can overwrite an existing value here without the REPLACE flag", a.p.FName(f))
			}
			if q.over {
				a.r.undecided("%s: too many paths", a.p.FName(f))
				return
			}
			n++
		}
		for _, empty := range []bool{true, false} {
			if empty && fl&del != 0 || !empty && fl&(replace|create) != 0 && fl&(appnd|unique) == 0 {
				continue
			}
			q := &pathQ{f: f, m: a.m, lean: true}
			a.decide(q, fl, empty, seeds)
			q.bad = func(in ssa.Instruction, s pstate) bool { return a.removal(in, s) }
			if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
				fail("removal", "content", bad, fl, "%s removes content here that the flags do not allow to remove", a.p.FName(f))
			}
			if q.over {
				a.r.undecided("%s: too many paths", a.p.FName(f))
				return
			}
			n++
		}
	}
	// clearing
	for fl := int64(1); fl < 32; fl++ {
		if fl&del == 0 || fl&nofail != 0 {
			continue
		}
		q := a.clearing(f, seeds, t)
		a.decide(q, fl, true, seeds)
		p1 := q.prune
		q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
			c, tr := literal(cond, truth, s)
			if _, mask, set, ok := flagTest(c); ok && mask == nofail && set == tr {
				return true // documented
			}
			return p1(cond, truth, s)
		}
		if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
			fail("cleared", "empty value", bad, fl, "%s reports success here on a path that does not clear what it was asked to delete", a.p.FName(f))
		}
		if q.over {
			a.r.undecided("%s: too many paths", a.p.FName(f))
			return
		}
		n++
	}
	if len(seen) == 0 {
		a.r.ok("effect, removal: %s (%s): decided for %d combinations of flags and values", a.p.FName(f), a.p.Pos(f.Pos()), n)
	}
	a.follow(f, t)
}

// emptyTest: on this branch the present value is known to be empty.
func (a *writeAn) emptyTest(cond ssa.Value, truth bool, s pstate) bool {
	c, tr := literal(cond, truth, s)
	switch x := c.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return tr && g != nil && a.p.InModule(g) && isPredicate(g) && len(x.Call.Args) == 1 && isReflectValue(x.Call.Args[0].Type())
	case *ssa.BinOp:
		if (x.Op == token.EQL) != tr || x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if v, ok := strConst(pr[1]); ok && v == "" {
				if u, ok := s.resolve(pr[0]).(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && structField(fa.X.Type(), fa.Field).Name() == "Value" {
						return true
					}
				}
			}
		}
	}
	return false
}

// overwrites: the instruction sets a value that may be present already.
func (a *writeAn) overwrites(in ssa.Instruction, t taint, s pstate) bool {
	switch x := in.(type) {
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok || t[x.Val]&tAny == 0 || structField(fa.X.Type(), fa.Field).Name() != "Value" {
			return false
		}
		switch b := s.resolve(fa.X).(type) {
		case *ssa.Call:
			g := b.Call.StaticCallee()
			return g != nil && a.p.InModule(g) && hasWord(g.Name(), "Find", "Get", "Lookup")
		case *ssa.IndexAddr:
			return true // an attribute
		}
	case *ssa.Call:
		if _, name := extCallee(&x.Call); hasWord(name, "New", "Append") || hasSuffixName(name, "Append") {
			return false
		}
		args := callArgs(&x.Call)
		hasVal, dst := false, ssa.Value(nil)
		for _, y := range args {
			if t[y]&tAny != 0 {
				hasVal = true
			} else if isReflectValue(y.Type()) || x.Call.IsInvoke() && y == x.Call.Value {
				dst = y
			}
		}
		return hasVal && dst != nil && a.presentTarget(dst, s)
	}
	return false
}

func isReflectValue(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// presentTarget: the reflect value (or what it holds) is a field found in the
// model, not something made here or an element of an array.
func (a *writeAn) presentTarget(v ssa.Value, s pstate) bool {
	for n := 0; n < 20; n++ {
		v = s.resolve(strip(v))
		switch x := v.(type) {
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Call:
			args := callArgs(&x.Call)
			pkg, name := extCallee(&x.Call)
			if pkg == "reflect" {
				switch name {
				case "New", "Zero", "MakeSlice", "MakeMap", "Index", "MapIndex", "ValueOf", "Append":
					return false
				}
				if len(args) == 0 {
					return false
				}
				v = args[0]
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) || !isReflectValue(x.Type()) {
				return false
			}
			if len(args) == 1 && isReflectValue(args[0].Type()) {
				v = args[0] // dereferenced
				continue
			}
			return true
		}
		return false
	}
	return false
}

// clearing: the paths of a path writer that is asked to delete (DELETE and an
// empty value) on which nothing is deleted.
func (a *writeAn) clearing(f *ssa.Function, seeds, t taint) *pathQ {
	rest := a.others(f, seeds)
	q := &pathQ{f: f, m: a.m, lean: true}
	q.stop = func(in ssa.Instruction, s pstate) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			if d, ok := in.(*ssa.Defer); ok {
				_, name := extCallee(&d.Call)
				return hasSuffixName(name, "SetMapIndex")
			}
			return a.removal(in, s) || a.hands(in, t)
		}
		if errorMaker(&c.Call) {
			return false
		}
		switch pkg, name := extCallee(&c.Call); {
		case pkg == "reflect" && hasSuffixName(name, "SetMapIndex"):
			return true
		case pkg == "reflect" && hasSuffixName(name, "Set"):
			// replaced by a new, empty value
			if e, ok := s.resolve(c.Call.Args[1]).(*ssa.Call); ok {
				if _, n := extCallee(&e.Call); hasSuffixName(n, "Elem") {
					if m, ok := s.resolve(e.Call.Args[0]).(*ssa.Call); ok {
						if _, n := extCallee(&m.Call); hasSuffixName(n, "New") {
							return true
						}
					}
				}
			}
		}
		if c.Call.IsInvoke() {
			return false // a parser may take an empty text for no value
		}
		return a.removal(in, s) || a.hands(in, t)
	}
	// searches for what is to be deleted, which end with nothing found
	loops := map[ssa.Value]bool{}
	searched := map[ssa.Value]bool{}
	for _, h := range f.Blocks {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok || loopBlocks(h) == nil || len(loopBlocks(h)) < 2 {
			continue
		}
		loops[iff.Cond] = true
		exit, body := h.Succs[1], h.Succs[0]
		if loopBlocks(h)[exit] || !loopBlocks(h)[body] || !plainReturn(exit) {
			continue
		}
		for _, b := range f.Blocks {
			if !body.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				if a.removal(in, newPstate()) {
					searched[iff.Cond] = true
				}
			}
		}
	}
	q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
		c, tr := literal(cond, truth, s)
		if searched[c] && !tr {
			return true
		}
		if x, ok := c.(*ssa.BinOp); ok {
			nothing := func(v ssa.Value) bool { return isPtr(v.Type()) }
			if nilTest(c, tr, s, nothing) {
				return true // nothing there
			}
			// the list ends before the index
			op, l, at := x.Op, x.X, x.Y
			if !tr {
				op = negated(op)
			}
			if !isLen(s.resolve(l)) {
				op, l, at = mirrored(op), x.Y, x.X
			}
			if _, k := at.(*ssa.Const); !k && !loops[c] && isLen(s.resolve(l)) && (op == token.LEQ || op == token.LSS) {
				return true
			}
		}
		return a.excused(cond, truth, s, seeds, rest)
	}
	q.bad = q.okReturn
	return q
}

// plainReturn: b returns without doing anything.
func plainReturn(b *ssa.BasicBlock) bool {
	for n := 0; n < 5; n++ {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Phi, *ssa.Jump, *ssa.DebugRef, *ssa.RunDefers:
			default:
				return false
			}
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

func negated(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func mirrored(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GEQ:
		return token.LEQ
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	}
	return op
}

// isLen: v is the length of a list.
func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "len"
	}
	pkg, name := extCallee(&c.Call)
	return pkg == "reflect" && hasSuffixName(name, "Len")
}

// removal: the instruction removes content.
func (a *writeAn) removal(in ssa.Instruction, s pstate) bool {
	switch x := in.(type) {
	case *ssa.Call:
		if pkg, name := extCallee(&x.Call); pkg == "reflect" && len(x.Call.Args) > 1 {
			switch name {
			case "(Value).Set", "Value.Set", "Set":
				v := s.resolve(x.Call.Args[1])
				if c, ok := v.(*ssa.Call); ok {
					_, n := extCallee(&c.Call)
					return hasSuffixName(n, "Zero", "Slice", "Slice3", "AppendSlice")
				}
			}
			return false
		}
		g := x.Call.StaticCallee()
		return g != nil && g.Signature.Recv() != nil && a.p.InModule(g) && hasWord(g.Name(), "Remove", "Clear", "Delete")
	case *ssa.Store:
		return cutsOut(x.Val)
	}
	return false
}

func hasSuffixName(name string, l ...string) bool {
	for _, s := range l {
		if name == s || len(name) > len(s)+1 && name[len(name)-len(s)-1] == '.' && name[len(name)-len(s):] == s {
			return true
		}
	}
	return false
}

// cutsOut: append(x[:i], x[j:]...)
func cutsOut(v ssa.Value) bool {
	c, ok := peel(v).(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	x, ok1 := peel(c.Call.Args[0]).(*ssa.Slice)
	y, ok2 := peel(c.Call.Args[1]).(*ssa.Slice)
	return ok1 && ok2 && x.High != nil && y.Low != nil
}

// lost: changes made to a local copy that nothing reads afterwards.
func (a *writeAn) lost() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				a.lostCall(f, c)
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if _, whole := st.Addr.(*ssa.Alloc); whole {
				return
			}
			root := a.copyRoot(st.Addr)
			if root == nil {
				return
			}
			a.r.Units["changes of local copies"]++
			if a.readAfter(st, root) {
				a.r.ok("lost: %s (%s): the changed copy is used", a.p.FName(f), a.p.InstrPos(st))
				return
			}
			a.r.failAlt("lost", a.keys(f, "lost"), a.p.InstrPos(st), "%s changes a local copy here that nothing uses afterwards: the change is lost", a.p.FName(f))
		})
	}
}

// lostCall: a setter is called on a copy that nothing reads afterwards.
func (a *writeAn) lostCall(f *ssa.Function, c *ssa.Call) {
	g := c.Call.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || !a.p.InModule(g) || !hasWord(g.Name(), "Set", "Add", "Append", "Insert", "Put", "Remove") {
		return
	}
	al, ok := c.Call.Args[0].(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return
	}
	filled := false
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != al {
				return
			}
			if u, ok := strip(y.Val).(*ssa.UnOp); ok && u.Op == token.MUL {
				filled = true
			} else {
				return
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Call:
		case *ssa.FieldAddr:
			if a.escapes(y) {
				return
			}
		default:
			return
		}
	}
	if !filled {
		return
	}
	a.r.Units["changes of local copies"]++
	if a.readAfter(c, al) {
		a.r.ok("lost: %s (%s): the changed copy is used", a.p.FName(f), a.p.InstrPos(c))
		return
	}
	a.r.failAlt("lost", a.keys(f, "lost"), a.p.InstrPos(c), "%s changes a local copy here that nothing uses afterwards: the change is lost", a.p.FName(f))
}

// copyRoot: the local copy of a value kept elsewhere that the address is in.
func (a *writeAn) copyRoot(addr ssa.Value) ssa.Value {
	inElem := false
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				inElem = true
			}
			addr = x.X
			continue
		}
		break
	}
	switch x := addr.(type) {
	case *ssa.Alloc:
		if _, ok := deref(x.Type()).Underlying().(*types.Struct); !ok || inElem || x.Referrers() == nil {
			return nil
		}
		filled := false
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != x {
					return nil
				}
				switch strip(y.Val).(type) {
				case *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.Field, *ssa.Index:
					filled = true
				case *ssa.Parameter:
					filled = true
				}
			case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
			default:
				return nil
			}
		}
		if !filled || a.escapes(x) {
			return nil
		}
		return x
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) {
			return nil
		}
		if inElem {
			if a.returnsFresh(g) {
				return x
			}
			return nil
		}
		if isPtr(x.Type()) && !a.escapes(x) && a.freshObject(g, map[*ssa.Function]bool{}) {
			return x
		}
	}
	return nil
}

// escapes: the address of a part is used for more than loads and stores.
func (a *writeAn) escapes(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if a.escapes(y) {
				return true
			}
		case *ssa.IndexAddr:
			if a.escapes(y) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// returnsFresh: the slice returned is made by g and kept by nobody else.
func (a *writeAn) returnsFresh(g *ssa.Function) bool {
	if g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 {
		return false
	}
	if _, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var fresh func(v ssa.Value) bool
	fresh = func(v ssa.Value) bool {
		v = strip(v)
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeSlice, *ssa.Const:
			return true
		case *ssa.Slice:
			if _, ok := x.X.(*ssa.Alloc); ok {
				return true
			}
			return fresh(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !fresh(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && fresh(x.Call.Args[0])
		}
		return false
	}
	ok := true
	eachInstr(g, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Return:
			for _, v := range retValues(x, 0) {
				ok = ok && fresh(v)
			}
		case *ssa.Store:
			if seen[strip(x.Val)] {
				ok = false
			}
		}
	})
	return ok
}

// freshObject: the object returned is made by g (or taken from a pool) and
// kept by nobody else.
func (a *writeAn) freshObject(g *ssa.Function, busy map[*ssa.Function]bool) bool {
	if g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 || !a.p.InModule(g) {
		return false
	}
	if busy[g] {
		return true
	}
	busy[g] = true
	seen := map[ssa.Value]bool{}
	var fresh func(v ssa.Value) bool
	fresh = func(v ssa.Value) bool {
		v = strip(v)
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc:
			return a.keptByNone(x, 0)
		case *ssa.Const:
			return x.IsNil()
		case *ssa.TypeAssert:
			c, ok := x.X.(*ssa.Call)
			if !ok || x.CommaOk {
				return false
			}
			pkg, name := extCallee(&c.Call)
			return pkg == "sync" && name == "Get" && a.keptByNone(x, 0)
		case *ssa.UnOp: // taken from a channel
			return x.Op == token.ARROW && a.keptByNone(x, 0)
		case *ssa.Extract:
			_, ok := x.Tuple.(*ssa.Select)
			return ok && a.keptByNone(x, 0)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !fresh(e) {
					return false
				}
			}
			return a.keptByNone(x, 0)
		case *ssa.Call:
			h := x.Call.StaticCallee()
			return h != nil && a.freshObject(h, busy) && a.keptByNone(x, 0)
		}
		return false
	}
	ok, any := true, false
	eachInstr(g, func(in ssa.Instruction) {
		if x, is := in.(*ssa.Return); is {
			for _, v := range retValues(x, 0) {
				any = true
				ok = ok && fresh(v)
			}
		}
	})
	return ok && any
}

// keptByNone: the pointer is used to reach its fields, handed to functions
// that do not keep it, and returned.
func (a *writeAn) keptByNone(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Return, *ssa.BinOp, *ssa.Phi, *ssa.FieldAddr:
		case *ssa.Call:
			g := y.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) || len(g.Blocks) == 0 {
				return false
			}
			for i, x := range y.Call.Args {
				if x == v && (i >= len(g.Params) || !a.keptByNone(g.Params[i], depth+1)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// readAfter: root is read on some path after the store.
func (a *writeAn) readAfter(st ssa.Instruction, root ssa.Value) bool {
	parts := map[ssa.Value]bool{root: true}
	for again := true; again; {
		again = false
		eachInstr(st.Parent(), func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok || parts[v] {
				return
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				ok = parts[x.X]
			case *ssa.IndexAddr:
				ok = parts[x.X]
			case *ssa.Slice:
				ok = parts[x.X]
			case *ssa.Phi:
				ok = false
				for _, e := range x.Edges {
					ok = ok || parts[e]
				}
			default:
				ok = false
			}
			if ok {
				parts[v], again = true, true
			}
		})
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			switch x := in.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Store:
				if x.Addr == root {
					return false // filled anew
				}
				if parts[x.Val] {
					return true
				}
				continue
			case *ssa.Alloc:
				if x == root {
					return false
				}
				continue
			case *ssa.Call:
				if ssa.Value(x) == root {
					return false
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
			}
			for _, o := range in.Operands(nil) {
				if *o != nil && parts[*o] {
					return true
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if walk(n, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(st.Block(), instrIndex(st)+1)
}

// makesModel: the call makes a new model.
func (a *writeAn) makesModel(c *ssa.CallCommon) bool {
	if c.IsInvoke() || a.modelT == nil || !types.Identical(c.Signature().Results().At(0).Type(), a.modelT) {
		return false
	}
	if g := c.StaticCallee(); g != nil {
		made := false
		if !a.p.InModule(g) || len(g.Blocks) == 0 {
			return false
		}
		eachInstr(g, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 {
				for _, v := range retValues(ret, 0) {
					if k, ok := v.(*ssa.Call); ok && k.Call.StaticCallee() == nil && !k.Call.IsInvoke() {
						made = true // a factory
					}
				}
			}
		})
		return made
	}
	return true
}

// created: new models become part of the document they were made for.
func (a *writeAn) created() {
	docT := a.p.Named("xmp", "Document")
	m := a.p.Named("xmp", "Model")
	if docT == nil || m == nil {
		return
	}
	a.modelT = m
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 || len(f.Params) == 0 || namedOf(deref(f.Params[0].Type())) != docT || !isPtr(f.Params[0].Type()) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.Signature().Results().Len() != 1 || !a.makesModel(&c.Call) {
				return
			}
			a.r.Units["models made"]++
			seeds := taint{c: tCont}
			t := a.taint(f, seeds)
			dest := func(in ssa.Instruction) bool {
				k, ok := in.(*ssa.Call)
				if !ok || k.Call.IsInvoke() {
					return false
				}
				g := k.Call.StaticCallee()
				return g != nil && a.pathWriter(g) >= 0 && len(k.Call.Args) > 0 && t[k.Call.Args[0]] != 0
			}
			q := &pathQ{f: f, m: a.m, lean: true}
			q.stop = func(in ssa.Instruction, s pstate) bool {
				a.res = s.resolve
				defer func() { a.res = nil }()
				if k, ok := in.(*ssa.Call); ok {
					if g := k.Call.StaticCallee(); g != nil && a.p.InModule(g) && !dest(in) {
						for i, x := range k.Call.Args {
							if t[x] != 0 && s.resolve(strip(x)) == ssa.Value(c) && a.role(g, i, t[x]) {
								return true
							}
						}
					}
				}
				return !dest(in) && !localHand(in) && a.hands(in, t)
			}
			q.prune = func(cond ssa.Value, truth bool, s pstate) bool {
				k, tr := literal(cond, truth, s)
				return nilTest(k, tr, s, func(v ssa.Value) bool { return a.isVal(v, seeds, s) })
			}
			q.bad = func(in ssa.Instruction, s pstate) bool {
				if dest(in) {
					return s.resolve(strip(in.(*ssa.Call).Call.Args[0])) == ssa.Value(c)
				}
				ret, ok := in.(*ssa.Return)
				if !ok || !q.okReturn(in, s) {
					return false
				}
				for _, v := range ret.Results {
					if s.resolve(strip(v)) == ssa.Value(c) {
						return true
					}
				}
				return false
			}
			bad := q.run(c.Block(), c, newPstate())
			switch {
			case q.over:
				a.r.undecided("%s: too many paths", a.p.FName(f))
			case bad != nil:
				a.r.failAlt("created", a.keys(f, "new model"), a.p.InstrPos(bad), "%s uses a model here that it made but did not put into the document", a.p.FName(f))
			default:
				a.r.ok("created: %s (%s): the model made is part of the document before it is used", a.p.FName(f), a.p.InstrPos(c))
			}
		})
	}
}
