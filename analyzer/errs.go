package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: an operation in which a step failed does not report success.

func init() { register("C08", checkErrors) }

// errAccepted: sites where continuing after a failed step is the documented
// behaviour. Keyed "function <- callee".
var errAccepted = map[string]string{
	"(*xmp.Extension).UnmarshalXMP <- (*xmp.Decoder).decodeNode":                "extension children that do not decode are kept as raw nodes",
	"(*models/id3.Genre).UnmarshalText <- models/id3.ParseGenreV1":              "free text genres are kept as they are",
	"(*models/exif.ExifInfo).SyncToXMP <- models/exif.convertDateToXMP":         "documented: conversion errors of legacy dates are ignored",
	"(*models/exif.ExifInfo).SyncToXMP <- models/exif.convertGPStoXMP":          "documented: conversion errors of legacy GPS data are ignored",
	"(*xmp.Document).Dump <- (*xmp.Document).ListPaths":                         "debug print without error result",
	"(*xmp.Node).UnmarshalXML <- (*xmp.Node).UnmarshalXML":                      "fails only with the XML decoder's error, which is sticky: the next Token call reports it again",
	"(*models/ixml.SyncPointList).UnmarshalXML <- (*encoding/xml.Decoder).Skip": "decoder errors are sticky: the next Token call reports it again",
	"(*models/ixml.TrackList).UnmarshalXML <- (*encoding/xml.Decoder).Skip":     "decoder errors are sticky: the next Token call reports it again",
	"(*xmp.Decoder).addNamespace <- (*xmp.Registry).GetNamespace":               "looked up with the prefix the registry itself just returned",
}

// errLookup: lookups whose only failure is that there is no such entry; callers
// may supply a substitute.
var errLookup = map[string]bool{
	"xmp.GetNamespace": true, "(*xmp.Registry).GetNamespace": true, "(xmp.Path).Namespace": true,
}

func neverFails(pkg, recv, name string) bool {
	switch pkg {
	case "bytes":
		return recv == "Buffer" && strings.HasPrefix(name, "Write")
	case "strings":
		return recv == "Builder" && strings.HasPrefix(name, "Write")
	case "fmt":
		return strings.HasPrefix(name, "Print")
	case "hash", "crypto":
		return name == "Write"
	}
	return false
}

type errAn struct {
	p    *Prog
	memo map[*ssa.Function]int // 1 may fail, 2 cannot, 3 in progress
}

// mayFail: the function can return a non-nil error.
func (a *errAn) mayFail(f *ssa.Function) bool {
	switch a.memo[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	a.memo[f] = 3
	res := false
	eachInstr(f, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || res {
			return
		}
		for i := range ret.Results {
			if !isErrorType(ret.Results[i].Type()) {
				continue
			}
			for _, v := range retValues(ret, i) {
				if a.valMayFail(v, map[ssa.Value]bool{}) {
					res = true
				}
			}
		}
	})
	if res {
		a.memo[f] = 1
	} else {
		a.memo[f] = 2
	}
	return res
}

func (a *errAn) valMayFail(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Phi:
		for _, e := range v.Edges {
			if a.valMayFail(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return a.callMayFail(&c.Call)
		}
	case *ssa.Call:
		return a.callMayFail(&v.Call)
	}
	return true
}

func (a *errAn) callMayFail(c *ssa.CallCommon) bool {
	cs := a.p.Callees(c)
	if c.IsInvoke() {
		if c.Method.Pkg() == nil || !a.p.inMod[c.Method.Pkg()] || len(cs) == 0 {
			return true
		}
	}
	if len(cs) == 0 {
		return true
	}
	for _, g := range cs {
		if !a.p.InModule(g) || g.Blocks == nil {
			o, _ := g.Object().(*types.Func)
			if o == nil || o.Pkg() == nil {
				return true
			}
			recv := ""
			if r := g.Signature.Recv(); r != nil {
				if n := namedOf(r.Type()); n != nil {
					recv = n.Obj().Name()
				}
			}
			if !neverFails(o.Pkg().Path(), recv, o.Name()) {
				return true
			}
			continue
		}
		if a.mayFail(g) {
			return true
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isBasicT(c.Type())
}

func isBasicT(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func callName(p *Prog, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return p.TName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return p.FName(p.unwrap(f))
	}
	return "func value"
}

func resultVal(ci ssa.CallInstruction, i int) ssa.Value {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return nil
	}
	if call.Call.Signature().Results().Len() == 1 {
		return call
	}
	for _, ref := range *call.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

func used(v ssa.Value) bool {
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// siblingTested: another result of the same call says the same thing (a nil
// pointer, an empty list) and is tested or handed on.
func siblingTested(ci ssa.CallInstruction, errIdx int) bool {
	sig := ci.Common().Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		if i == errIdx {
			continue
		}
		switch sig.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
		default:
			continue
		}
		v := resultVal(ci, i)
		if v == nil || v.Referrers() == nil {
			continue
		}
		var look func(v ssa.Value, d int) bool
		look = func(v ssa.Value, d int) bool {
			if d > 3 || v.Referrers() == nil {
				return false
			}
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.BinOp:
					if isNilConst(r.X) || isNilConst(r.Y) {
						return true
					}
				case *ssa.Return:
					return true
				case *ssa.Phi:
					if look(r, d+1) {
						return true
					}
				}
			}
			return false
		}
		if look(v, 0) {
			return true
		}
	}
	return false
}

func checkErrors(p *Prog, r *Result) {
	r.Explain = "Rule errors: for every call in the library that can return a non-nil error (infallibility of module functions is computed), (dropped) the error result is used, unless a sibling nil result of the same call is tested; (swallowed) no path on which the error is known to be non-nil ends in `return nil error` - paths are enumerated over SSA blocks with phi, nil-test and flag correlation, and end when the error is returned, wrapped, stored, compared equal to a sentinel, excused by the NOFAIL flag, or when an alternative attempted only because of the failure succeeds. Documented exceptions are listed in the analyzer with their reason."
	a := &errAn{p: p, memo: map[*ssa.Function]int{}}
	// recursion: iterate so that in-progress results settle
	for i := 0; i < 3; i++ {
		for f, m := range a.memo {
			if m == 2 {
				delete(a.memo, f)
			}
		}
		for _, f := range p.Funcs {
			a.mayFail(f)
		}
	}
	nofail := int64(-1)
	if sp := p.Pkg("xmp"); sp != nil {
		if c, ok := sp.Pkg.Scope().Lookup("NOFAIL").(*types.Const); ok {
			nofail, _ = constant.Int64Val(c.Val())
		}
	}
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		hasErr := false
		fs := f.Signature.Results()
		for j := 0; j < fs.Len(); j++ {
			if isErrorType(fs.At(j).Type()) {
				hasErr = true
			}
		}
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			sig := c.Signature()
			for i := 0; i < sig.Results().Len(); i++ {
				if !isErrorType(sig.Results().At(i).Type()) {
					continue
				}
				if !a.callMayFail(c) {
					r.Units["infallible_calls"]++
					continue
				}
				if errorMaker(c) {
					continue
				}
				r.Units["fallible_calls"]++
				name := callName(p, c)
				key := p.FName(f) + " <- " + name
				alts := p.OwnerNames(f)
				why, ok := "", false
				for i := range alts {
					alts[i] += " <- " + name
					if w, o := errAccepted[alts[i]]; o && !ok {
						why, ok = w, o
					}
				}
				if ok {
					r.Units["documented_exceptions"]++
					r.ok("%s: %s", key, why)
					continue
				}
				v := resultVal(ci, i)
				if !used(v) {
					if siblingTested(ci, i) {
						r.ok("%s: the nil result is tested instead", key)
						continue
					}
					r.failAlt("dropped", alts, p.InstrPos(in), "%s ignores the error of %s: the operation reports success although a step failed", p.FName(f), name)
					continue
				}
				if !hasErr {
					r.ok("%s: error is looked at", key)
					continue
				}
				w := &errWalk{a: a, f: f, e: v, call: ci, nofail: nofail, lookup: errLookup[name]}
				switch bad := w.run(); {
				case w.over:
					r.undecided("%s: too many paths", key)
				case bad != nil:
					r.failAlt("swallowed", alts, p.InstrPos(in), "%s can report success (return at %s) although %s failed", p.FName(f), p.InstrPos(bad), name)
				default:
					r.ok("%s: every failing path reports an error", key)
				}
			}
		})
	}
	r.need("fallible_calls", 200)
}

// errorMaker: calls that construct an error rather than fail.
func errorMaker(c *ssa.CallCommon) bool {
	pkg, name := extCallee(c)
	return pkg == "fmt" && name == "Errorf" || pkg == "errors"
}

type errWalk struct {
	a      *errAn
	f      *ssa.Function
	e      ssa.Value
	call   ssa.CallInstruction
	nofail int64
	over   bool
	lookup bool // the callee's only failure is "no such entry"
	n      int
	errBB  []*ssa.BasicBlock // blocks entered exactly when e is non-nil
}

type errState struct {
	phi   map[ssa.Value]ssa.Value // resolved error phis and cells
	known map[ssa.Value]bool      // error value -> is nil
	flag  map[ssa.Value]bool
}

func (s errState) clone() errState {
	o := errState{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	for k, v := range s.phi {
		o.phi[k] = v
	}
	for k, v := range s.known {
		o.known[k] = v
	}
	for k, v := range s.flag {
		o.flag[k] = v
	}
	return o
}

func (s errState) key() string {
	var l []string
	for k, v := range s.phi {
		l = append(l, k.Name()+"="+v.Name())
	}
	for k, v := range s.known {
		l = append(l, fmt.Sprintf("%s:%v", k.Name(), v))
	}
	for k, v := range s.flag {
		l = append(l, fmt.Sprintf("%s?%v", k.Name(), v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (w *errWalk) resolve(s errState, v ssa.Value) ssa.Value {
	for n := 0; n < 10; n++ {
		if x, ok := s.phi[v]; ok && x != v {
			v = x
			continue
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					if y, ok := s.phi[al]; ok {
						v = y
						continue
					}
				}
			}
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	return v
}

func (w *errWalk) run() ssa.Instruction {
	// regions entered only on failure
	for _, b := range w.f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(bo.X == w.e && isNilConst(bo.Y) || bo.Y == w.e && isNilConst(bo.X)) {
			continue
		}
		nn := b.Succs[0]
		if bo.Op == token.EQL {
			nn = b.Succs[1]
		}
		if len(nn.Preds) == 1 {
			w.errBB = append(w.errBB, nn)
		}
	}
	st := errState{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{w.e: false}, map[ssa.Value]bool{}}
	// what is known about pointers where the call is made
	cb := w.call.Block()
	for _, b := range w.f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(cb) || b == cb {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNilConst(bo.Y) {
			continue
		}
		for i, s := range b.Succs {
			if len(s.Preds) == 1 && s.Dominates(cb) {
				st.known[bo.X] = (bo.Op == token.EQL) == (i == 0)
			}
		}
	}
	st.known[w.e] = false
	return w.walk(cb, w.call, nil, st, map[string]bool{})
}

// fallback: the call that produced error value e2 is made only because e failed.
func (w *errWalk) fallback(e2 ssa.Value) bool {
	in, ok := e2.(ssa.Instruction)
	if !ok {
		return false
	}
	if ex, ok := e2.(*ssa.Extract); ok {
		if t, ok := ex.Tuple.(ssa.Instruction); ok {
			in = t
		}
	}
	for _, b := range w.errBB {
		if b.Dominates(in.Block()) {
			return true
		}
	}
	return false
}

func (w *errWalk) walk(b *ssa.BasicBlock, after ssa.Instruction, pred *ssa.BasicBlock, st errState, seen map[string]bool) ssa.Instruction {
	w.n++
	if w.n > 20000 {
		w.over = true
		return nil
	}
	if after == nil {
		st = st.clone()
		// simultaneous phi assignment
		upd := map[ssa.Value]ssa.Value{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pb := range b.Preds {
				if pb == pred {
					if isErrorType(ph.Type()) || types.IsInterface(ph.Type()) {
						upd[ph] = w.resolve(st, ph.Edges[i])
					} else if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
						upd[ph] = ph.Edges[i]
					} else if ok && bt.Info()&types.IsInteger != 0 {
						delete(st.phi, ph)
						if _, isConst := ph.Edges[i].(*ssa.Const); isConst {
							upd[ph] = ph.Edges[i]
						}
					}
				}
			}
		}
		for k, v := range upd {
			if k != v {
				st.phi[k] = v
			}
		}
		k := fmt.Sprintf("%d|%s", b.Index, st.key())
		if seen[k] {
			return nil
		}
		seen[k] = true
	}
	skip := after != nil
	for _, in := range b.Instrs {
		if skip {
			if in == after {
				skip = false
			}
			continue
		}
		if in == ssa.Instruction(w.call) {
			if !st.flag[w.e] {
				return in // overwritten before anyone looked at it
			}
			return nil // the step is tried again: judged from there
		}
		switch in := in.(type) {
		case *ssa.Call:
			// the value is redefined when its call runs again
			delete(st.known, in)
			if w.lookup {
				for _, g := range w.a.p.Callees(&in.Call) {
					if w.a.p.InModule(g) {
						return nil // a missing entry is dealt with
					}
				}
			}
		case *ssa.Extract:
			if in != w.e {
				delete(st.known, in)
			}
		case *ssa.Store:
			if al, ok := in.Addr.(*ssa.Alloc); ok && isErrorType(deref(al.Type())) {
				st.phi[al] = w.resolve(st, in.Val)
				if _, simple := storesTo(al); simple {
					continue
				}
			}
			if w.resolve(st, in.Val) == w.e {
				if w.kept(in) {
					return nil
				}
			}
		case *ssa.MapUpdate:
			if w.resolve(st, in.Value) == w.e {
				return nil
			}
		case *ssa.Send:
			if w.resolve(st, in.X) == w.e {
				return nil
			}
		case *ssa.Panic:
			return nil
		case *ssa.Return:
			for j := range in.Results {
				if !isErrorType(in.Results[j].Type()) {
					continue
				}
				v := w.resolve(st, in.Results[j])
				if v == w.e {
					return nil
				}
				if isNilConst(v) {
					return in
				}
				if isNil, ok := st.known[v]; ok {
					if isNil && !w.fallback(v) {
						return in
					}
					return nil
				}
				// the outcome of a later, unconditional step
				if c := callOf(v); c != nil && !errorMaker(&c.Call) && c.Block() != nil && !w.fallback(v) && c != w.call && w.later(c, v) {
					return in
				}
				return nil
			}
			return nil
		case *ssa.If:
			t, fl := w.branch(st, in.Cond)
			if t != nil {
				if bad := w.walk(b.Succs[0], nil, b, *t, seen); bad != nil {
					return bad
				}
			}
			if fl != nil {
				return w.walk(b.Succs[1], nil, b, *fl, seen)
			}
			return nil
		case *ssa.Jump:
			return w.walk(b.Succs[0], nil, b, st, seen)
		}
	}
	return nil
}

// later: the returned value comes from a call that does not see the error.
func (w *errWalk) later(c *ssa.Call, v ssa.Value) bool {
	for _, arg := range callArgs(&c.Call) {
		if w.carries(arg, 0) {
			return false
		}
	}
	return true
}

// carries: the argument is or contains the error.
func (w *errWalk) carries(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	if v == w.e {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return w.carries(x.X, d+1)
	case *ssa.ChangeInterface:
		return w.carries(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.carries(e, d+1) {
				return true
			}
		}
	case *ssa.Call:
		for _, a := range callArgs(&x.Call) {
			if w.carries(a, d+1) {
				return true
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && w.carries(s.Val, d+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func callOf(v ssa.Value) *ssa.Call {
	switch v := v.(type) {
	case *ssa.Call:
		return v
	case *ssa.Extract:
		c, _ := v.Tuple.(*ssa.Call)
		return c
	}
	return nil
}

// kept: storing the error somewhere it outlives the step.
func (w *errWalk) kept(s *ssa.Store) bool {
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return true
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return true
	}
	// a variadic argument list: kept only if appended to a list
	for _, ref := range *al.Referrers() {
		if sl, ok := ref.(*ssa.Slice); ok {
			for _, r2 := range *sl.Referrers() {
				if c, ok := r2.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						return true
					}
				}
			}
		}
	}
	return false
}

// branch returns the states of the feasible, still interesting successors.
func (w *errWalk) branch(st errState, cond ssa.Value) (t, f *errState) {
	neg := false
	for n := 0; n < 10; n++ {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			cond = u.X
			continue
		}
		if x, ok := st.phi[cond]; ok {
			cond = x
			continue
		}
		break
	}
	ts, fs := st.clone(), st.clone()
	t, f = &ts, &fs
	defer func() {
		if neg {
			t, f = f, t
		}
	}()
	if c, ok := cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return t, nil
		}
		return nil, f
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		if c, ok := cond.(*ssa.Call); ok {
			for _, a := range callArgs(&c.Call) {
				if w.carries(a, 0) {
					return nil, f // errors.Is and the like: one specific error
				}
			}
		}
		if v, ok := st.flag[cond]; ok {
			if v {
				return t, nil
			}
			return nil, f
		}
		ts.flag[cond] = true
		fs.flag[cond] = false
		if neg {
			return t, f
		}
		return t, f
	}
	// flags&NOFAIL
	if w.isNofail(bo) {
		if bo.Op == token.EQL {
			return t, nil
		}
		return nil, f
	}
	// first iteration of a counted loop
	if cx, ok := w.resolve(st, bo.X).(*ssa.Const); ok && cx.Value != nil {
		if cy, ok := w.resolve(st, bo.Y).(*ssa.Const); ok && cy.Value != nil && cx.Value.Kind() == constant.Int && cy.Value.Kind() == constant.Int {
			if constant.Compare(cx.Value, bo.Op, cy.Value) {
				return t, nil
			}
			return nil, f
		}
	}
	if bo.Op != token.EQL && bo.Op != token.NEQ {
		return t, f
	}
	x, y := bo.X, bo.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if isNilConst(y) && isErrorType(x.Type()) {
		v := w.resolve(st, x)
		if v == w.e {
			ts.flag[w.e] = true
			fs.flag[w.e] = true
		}
		nilSide, nnSide := t, f
		nilState, nnState := &ts, &fs
		if bo.Op == token.NEQ {
			nilSide, nnSide = f, t
			nilState, nnState = &fs, &ts
		}
		if isNilConst(v) {
			nnSide = nil
		} else if isNil, ok := st.known[v]; ok {
			if isNil {
				nnSide = nil
			} else {
				nilSide = nil
			}
		} else {
			if callOf(v) == nil {
				if _, isCall := v.(*ssa.Call); !isCall {
					// unknown error value (parameter, field): both
				}
			}
			nilState.known[v] = true
			nnState.known[v] = false
			if w.fallback(v) {
				nilSide = nil // the alternative worked
			}
			if c := callOf(v); c != nil && w.later2(c) {
				nilSide = nil
			}
		}
		if bo.Op == token.NEQ {
			return nnSide, nilSide
		}
		return nilSide, nnSide
	}
	// the same pointer tested again
	if isNilConst(y) {
		nilState, nnState := &ts, &fs
		if bo.Op == token.NEQ {
			nilState, nnState = &fs, &ts
		}
		if isNil, ok := st.known[x]; ok {
			if isNil == (bo.Op == token.EQL) {
				return t, nil
			}
			return nil, f
		}
		nilState.known[x] = true
		nnState.known[x] = false
		return t, f
	}
	// compared with a sentinel
	if isErrorType(bo.X.Type()) || types.IsInterface(bo.X.Type()) {
		if w.resolve(st, bo.X) == w.e || w.resolve(st, bo.Y) == w.e {
			if bo.Op == token.EQL {
				return nil, f
			}
			return t, nil
		}
	}
	return t, f
}

// later2: a wrapped error of e (built from it) is never nil.
func (w *errWalk) later2(c *ssa.Call) bool { return !w.later(c, nil) }

func (w *errWalk) isNofail(bo *ssa.BinOp) bool {
	and, ok := bo.X.(*ssa.BinOp)
	if !ok || and.Op != token.AND || w.nofail < 0 {
		return false
	}
	for _, o := range []ssa.Value{and.X, and.Y} {
		if c, ok := o.(*ssa.Const); ok && c.Value != nil {
			if n, ok := constant.Int64Val(c.Value); ok && n == w.nofail && namedIs(c.Type(), "SyncFlags") {
				return true
			}
		}
	}
	return false
}
