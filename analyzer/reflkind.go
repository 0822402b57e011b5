package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: reflected values are used only in ways their kind allows.

func init() { register("C24", checkReflect) }

const (
	rkInvalid = iota
	rkBool
	rkInt
	rkInt8
	rkInt16
	rkInt32
	rkInt64
	rkUint
	rkUint8
	rkUint16
	rkUint32
	rkUint64
	rkUintptr
	rkFloat32
	rkFloat64
	rkComplex64
	rkComplex128
	rkArray
	rkChan
	rkFunc
	rkInterface
	rkMap
	rkPtr
	rkSlice
	rkString
	rkStruct
	rkUnsafe
)

type kset uint32

func ks(l ...int) kset {
	var s kset
	for _, k := range l {
		s |= 1 << k
	}
	return s
}

var (
	kAll   = kset(1<<(rkUnsafe+1)-1) &^ 1
	kInts  = ks(rkInt, rkInt8, rkInt16, rkInt32, rkInt64)
	kUints = ks(rkUint, rkUint8, rkUint16, rkUint32, rkUint64, rkUintptr)
	kFlts  = ks(rkFloat32, rkFloat64)
	kCplx  = ks(rkComplex64, rkComplex128)
	kNils  = ks(rkChan, rkFunc, rkInterface, rkMap, rkPtr, rkSlice, rkUnsafe)
	kElems = ks(rkArray, rkChan, rkMap, rkPtr, rkSlice)
	kLists = ks(rkArray, rkSlice)
)

var kindNames = strings.Fields("invalid bool int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64 complex64 complex128 array chan func interface map pointer slice string struct unsafe.Pointer")

func (s kset) String() string {
	if s == kAll {
		return "any kind"
	}
	if s&kAll == 0 {
		return "no kind"
	}
	var in, out []string
	for k := 1; k <= rkUnsafe; k++ {
		if s&(1<<k) != 0 {
			in = append(in, kindNames[k])
		} else {
			out = append(out, kindNames[k])
		}
	}
	if len(in) > 12 {
		return "any kind but " + strings.Join(out, ", ")
	}
	return strings.Join(in, ", ")
}

// what may be wrong with a value
const (
	rfInvalid = 1 << iota // the zero Value
	rfNil                 // a nil pointer, interface, map, ...
	rfFixed               // cannot be addressed or set
)

type rkState struct {
	kinds map[string]kset       // type term -> kinds
	flags map[string]uint8      // value -> flags
	is    map[string]types.Type // type term -> exact type
}

func newRkState() *rkState {
	return &rkState{map[string]kset{}, map[string]uint8{}, map[string]types.Type{}}
}

func (s *rkState) clone() *rkState {
	n := newRkState()
	for k, v := range s.kinds {
		n.kinds[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	for k, v := range s.is {
		n.is[k] = v
	}
	return n
}

func (s *rkState) join(o *rkState) bool {
	ch := false
	for k, v := range s.kinds {
		w, ok := o.kinds[k]
		if !ok {
			delete(s.kinds, k)
			ch = true
		} else if v|w != v {
			s.kinds[k] = v | w
			ch = true
		}
	}
	for k, v := range o.flags {
		if w, ok := s.flags[k]; !ok || v|w != w {
			s.flags[k] = v | w
			ch = true
		}
	}
	for k, v := range s.is {
		if w, ok := o.is[k]; !ok || !types.Identical(v, w) {
			delete(s.is, k)
			ch = true
		}
	}
	return ch
}

// facts about one value as seen from outside a function
type rkFact struct {
	bottom bool
	kinds  map[string]kset // suffix -> kinds
	flags  uint8
}

func (f *rkFact) join(kinds map[string]kset, flags uint8) bool {
	if f.bottom {
		f.bottom, f.kinds, f.flags = false, kinds, flags
		return true
	}
	ch := false
	for k, v := range f.kinds {
		w, ok := kinds[k]
		if !ok {
			delete(f.kinds, k)
			ch = true
		} else if v|w != v {
			f.kinds[k] = v | w
			ch = true
		}
	}
	if f.flags|flags != f.flags {
		f.flags |= flags
		ch = true
	}
	return ch
}

type rkFn struct {
	f       *ssa.Function
	params  []*rkFact
	results []*rkFact
	okPrm   []*rkFact // what holds for the parameters when nil is returned as error
	alias   map[int]int
	top     bool
	reach   bool
	terms   map[ssa.Value]string
}

type rkAn struct {
	p     *Prog
	r     *Result
	fns   map[*ssa.Function]*rkFn
	order []*rkFn
	keys  map[string]*rkFact // facts about the keys of maps of a type
	ch    bool
	rep   bool
	memo  map[string][]*rkFact
	model *types.Named
	array *types.Interface
}

func isReflVal(t types.Type) bool { return isReflNamed(t, "Value") }
func isReflType(t types.Type) bool {
	return isReflNamed(t, "Type")
}

func isReflNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == name
}

// tracked: values whose (dynamic) type is followed.
func rkTracked(t types.Type) bool {
	if isReflVal(t) || isReflType(t) {
		return true
	}
	if isErrorType(t) {
		return false
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && (i.Empty() || true)
}

func checkReflect(p *Prog, r *Result) {
	r.Explain = "Rule kind: at every use of a reflected value or type that panics for some kinds (Elem, Len, Index, IsNil, Int, Float, Bytes, Set..., Field, MapIndex, Key, Bits, ...) the kinds that can reach it are among those allowed, and the value is valid. Rule type: what is stored through reflection (Set, SetMapIndex, Append, MapIndex keys) has the type of where it goes. Rule array: every type that implements Array, which the library takes for a list, is a slice or an array. Whether a value can be changed (settable, addressable) is not decided. Decided by a forward dataflow analysis over SSA on sets of kinds, refined by Kind, IsValid, IsNil, CanAddr, CanSet and type tests, with summaries of parameters and results between functions."
	r.Assume = append(r.Assume, "models are non-nil pointers", "a type outside the module that implements Array is a slice or an array, and no field is declared with the interface type Array", "fields with tags are exported", "the destination given to UnmarshalArray is a non-nil pointer to a slice or an array", "index arguments of Field and FieldByIndex come from the type they are used for")
	a := &rkAn{p: p, r: r, fns: map[*ssa.Function]*rkFn{}, keys: map[string]*rkFact{}, memo: map[string][]*rkFact{}, model: p.Named("xmp", "Model")}
	if n := p.Named("xmp", "Array"); n != nil {
		a.array, _ = n.Underlying().(*types.Interface)
	}
	if a.array != nil {
		for _, n := range p.NamedTypes() {
			if !p.libType(n) || types.IsInterface(n) {
				continue
			}
			if !types.Implements(n, a.array) && !types.Implements(types.NewPointer(n), a.array) {
				continue
			}
			r.Units["array types"]++
			switch n.Underlying().(type) {
			case *types.Slice, *types.Array:
				r.ok("array %s", p.TName(n))
			default:
				r.fail("array", p.TName(n), p.Pos(n.Obj().Pos()), "%s implements Array but is neither a slice nor an array: the library reads its items", p.TName(n))
			}
		}
	}
	for _, f := range p.LibFuncs() {
		a.add(f)
	}
	for i := 0; i < 40; i++ {
		a.ch = false
		a.memo = map[string][]*rkFact{}
		for _, fn := range a.order {
			a.run(fn)
		}
		if !a.ch {
			break
		}
		if i == 39 {
			r.undecided("the analysis of reflected kinds does not settle")
			return
		}
	}
	a.rep = true
	for _, fn := range a.order {
		a.run(fn)
	}
	r.need("uses of reflected values", 60)
}

func (a *rkAn) add(f *ssa.Function) {
	uses := false
	see := func(t types.Type) {
		if isReflVal(t) || isReflType(t) {
			uses = true
		}
	}
	for _, x := range f.Params {
		see(x.Type())
	}
	eachInstr(f, func(in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok {
			see(v.Type())
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if pkg, _ := extCallee(c.Common()); pkg == "reflect" {
				uses = true
			}
		}
	})
	if !uses && !isExportedIface(f) {
		return
	}
	fn := &rkFn{f: f, alias: map[int]int{}, terms: map[ssa.Value]string{}}
	callers := a.p.Callers(f)
	open := len(callers) == 0 || f.Object() != nil && f.Object().Exported() || f.Parent() != nil
	for _, x := range f.Params {
		fact := &rkFact{bottom: true}
		if open {
			fact = a.topFact(x)
			if f.Name() == "UnmarshalArray" && isEmptyIface(x.Type()) {
				fact = &rkFact{kinds: map[string]kset{"": ks(rkPtr), ".e": kLists}}
			}
		}
		fn.params = append(fn.params, fact)
		fn.okPrm = append(fn.okPrm, &rkFact{bottom: true})
	}
	fn.top = open
	for i := 0; i < f.Signature.Results().Len(); i++ {
		fn.results = append(fn.results, &rkFact{bottom: true})
	}
	a.fns[f] = fn
	a.order = append(a.order, fn)
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// isExportedIface: functions that hand interface values on to reflecting code.
func isExportedIface(f *ssa.Function) bool {
	for _, x := range f.Params {
		if isEmptyIface(x.Type()) {
			return true
		}
	}
	return false
}

// topFact: nothing is known about the parameter.
func (a *rkAn) topFact(x *ssa.Parameter) *rkFact {
	f := &rkFact{kinds: map[string]kset{}}
	f.kinds[""], f.flags = a.declared(x.Type())
	return f
}

// declared: what the declared type of a value says about its dynamic type.
func (a *rkAn) declared(t types.Type) (kset, uint8) {
	switch {
	case isReflVal(t):
		return kAll, rfInvalid | rfNil | rfFixed
	case isReflType(t):
		return kAll, 0
	case a.model != nil && types.Identical(t, a.model):
		return ks(rkPtr), rfFixed
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		if i.NumMethods() > 0 {
			return kAll &^ ks(rkInterface), rfNil | rfFixed
		}
		return kAll &^ ks(rkInterface), rfInvalid | rfNil | rfFixed
	}
	return kAll, rfNil | rfFixed
}

func kindOfType(t types.Type) kset {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return ks(rkBool)
		case types.Int, types.UntypedInt:
			return ks(rkInt)
		case types.Int8:
			return ks(rkInt8)
		case types.Int16:
			return ks(rkInt16)
		case types.Int32, types.UntypedRune:
			return ks(rkInt32)
		case types.Int64:
			return ks(rkInt64)
		case types.Uint:
			return ks(rkUint)
		case types.Uint8:
			return ks(rkUint8)
		case types.Uint16:
			return ks(rkUint16)
		case types.Uint32:
			return ks(rkUint32)
		case types.Uint64:
			return ks(rkUint64)
		case types.Uintptr:
			return ks(rkUintptr)
		case types.Float32:
			return ks(rkFloat32)
		case types.Float64, types.UntypedFloat:
			return ks(rkFloat64)
		case types.Complex64:
			return ks(rkComplex64)
		case types.Complex128:
			return ks(rkComplex128)
		case types.String, types.UntypedString:
			return ks(rkString)
		case types.UnsafePointer:
			return ks(rkUnsafe)
		}
	case *types.Array:
		return ks(rkArray)
	case *types.Chan:
		return ks(rkChan)
	case *types.Signature:
		return ks(rkFunc)
	case *types.Interface:
		return ks(rkInterface)
	case *types.Map:
		return ks(rkMap)
	case *types.Pointer:
		return ks(rkPtr)
	case *types.Slice:
		return ks(rkSlice)
	case *types.Struct:
		return ks(rkStruct)
	}
	return kAll
}

func elemOfType(t types.Type, suffix string) types.Type {
	switch suffix {
	case "e":
		if x, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return x.Elem()
		}
	case "k":
		if x, ok := t.Underlying().(*types.Map); ok {
			return x.Key()
		}
	case "p":
		return types.NewPointer(t)
	}
	return nil
}

// elem: term of the element type.
func elemTerm(t string) string {
	if strings.HasSuffix(t, ".p") {
		return t[:len(t)-2]
	}
	return t + ".e"
}

// rkRun analyses a function with what is known about its parameters.
type rkRun struct {
	a   *rkAn
	fn  *rkFn
	f   *ssa.Function
	in  []*rkState
	st  *rkState // at the instruction looked at
	typ map[string]types.Type
	sub []*rkFact // results, when analysed for one call
	dep int
}

func (a *rkAn) run(fn *rkFn) {
	f := fn.f
	if len(f.Blocks) == 0 {
		return
	}
	if !fn.top && !fn.reach {
		for i, y := range fn.params {
			if rkTracked(f.Params[i].Type()) && y.bottom {
				return // not called so far
			}
		}
	}
	q := &rkRun{a: a, fn: fn, f: f, typ: map[string]types.Type{}}
	q.run(fn.params)
}

// eval: the results of a function for one call.
func (a *rkAn) eval(fn *rkFn, entry []*rkFact, d int) []*rkFact {
	f := fn.f
	key := f.String()
	for _, e := range entry {
		key += "|"
		if e == nil {
			continue
		}
		var l []string
		for s, k := range e.kinds {
			l = append(l, fmt.Sprint(s, "=", uint32(k)))
		}
		sort.Strings(l)
		key += strings.Join(l, ",") + fmt.Sprint(":", e.flags)
	}
	if r, ok := a.memo[key]; ok {
		return r
	}
	q := &rkRun{a: a, fn: fn, f: f, typ: map[string]types.Type{}, dep: d + 1}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		q.sub = append(q.sub, &rkFact{bottom: true})
	}
	a.memo[key] = nil
	q.run(entry)
	a.memo[key] = q.sub
	return q.sub
}

func (q *rkRun) run(entry []*rkFact) {
	f := q.f
	q.in = make([]*rkState, len(f.Blocks))
	st := newRkState()
	for i, x := range f.Params {
		if !rkTracked(x.Type()) {
			continue
		}
		t := q.term(x)
		fa := entry[i]
		if fa == nil || fa.bottom {
			fa = q.a.topFact(x)
		}
		if j, ok := q.fn.alias[i]; !ok || j < 0 {
			for s, k := range fa.kinds {
				st.kinds[t+s] = k
			}
		}
		st.flags[x.Name()] = fa.flags
	}
	q.in[0] = st
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		q.st = q.in[b.Index].clone()
		q.block(b, false)
		out := q.st
		for i, s := range b.Succs {
			e := out.clone()
			if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				q.st = e
				if !q.refine(c.Cond, i == 0, 0) {
					continue // cannot happen
				}
				e = q.st
			}
			q.edge(b, s, e)
			if q.in[s.Index] == nil {
				q.in[s.Index] = e
				work = append(work, s)
			} else if q.in[s.Index].join(e) {
				work = append(work, s)
			}
		}
	}
	for _, b := range f.Blocks {
		if q.in[b.Index] == nil {
			continue
		}
		q.st = q.in[b.Index].clone()
		q.block(b, true)
	}
}

// edge: values joined at the beginning of s.
func (q *rkRun) edge(b, s *ssa.BasicBlock, e *rkState) {
	at := -1
	for i, p := range s.Preds {
		if p == b {
			at = i
		}
	}
	type set struct {
		t     string
		kinds map[string]kset
		is    map[string]types.Type
		name  string
		flags uint8
	}
	var sets []set
	q.st = e
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !rkTracked(ph.Type()) {
			continue
		}
		v := ph.Edges[at]
		x := set{t: q.term(ph), name: ph.Name()}
		x.kinds, x.flags = q.factsOf(v)
		x.is = q.exactOf(q.term(v))
		sets = append(sets, x)
	}
	for _, x := range sets {
		q.forget(x.t)
	}
	for _, x := range sets {
		for k, v := range x.kinds {
			e.kinds[x.t+k] = v
		}
		for k, v := range x.is {
			e.is[x.t+k] = v
		}
		e.flags[x.name] = x.flags
	}
}

// forget drops what is known about a register that is set anew.
func (q *rkRun) forget(t string) {
	if t == "" || strings.HasPrefix(t, "T:") {
		return
	}
	for k := range q.st.kinds {
		if k == t || strings.HasPrefix(k, t+".") {
			delete(q.st.kinds, k)
		}
	}
	for k := range q.st.is {
		if k == t || strings.HasPrefix(k, t+".") {
			delete(q.st.is, k)
		}
	}
}

// factsOf: kinds of the value's type and of the types it is made of.
func (q *rkRun) factsOf(v ssa.Value) (map[string]kset, uint8) {
	t := q.term(v)
	out := map[string]kset{"": q.kinds(t)}
	for k, x := range q.st.kinds {
		if strings.HasPrefix(k, t+".") {
			out[k[len(t):]] = x
		}
	}
	for _, s := range []string{".e", ".e.e", ".k"} {
		if k := q.kinds(t + s); k != kAll {
			out[s] = k
		}
		if strings.HasSuffix(t, ".p") && s == ".e" {
			out[s] = q.kinds(elemTerm(t))
		}
	}
	return out, q.flags(v)
}

func (q *rkRun) exactOf(t string) map[string]types.Type {
	out := map[string]types.Type{}
	if x := q.exact(t); x != nil {
		out[""] = x
	}
	return out
}

// exact: the type that the term is known to stand for.
func (q *rkRun) exact(t string) types.Type {
	if x, ok := q.st.is[t]; ok {
		return x
	}
	if x, ok := q.typ[t]; ok {
		return x
	}
	if i := strings.LastIndexByte(t, '.'); i > 0 && i == len(t)-2 {
		if x := q.exact(t[:i]); x != nil {
			return elemOfType(x, t[i+1:])
		}
	}
	if x, ok := q.st.is[t+".p"]; ok {
		if p, ok := x.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func (q *rkRun) kinds(t string) kset {
	if x := q.exact(t); x != nil {
		return kindOfType(x)
	}
	if strings.HasSuffix(t, ".p") {
		return ks(rkPtr)
	}
	if k, ok := q.st.kinds[t]; ok {
		return k
	}
	return kAll
}

func (q *rkRun) flags(v ssa.Value) uint8 {
	switch x := v.(type) {
	case *ssa.Const:
		if isReflVal(x.Type()) || x.IsNil() {
			return rfInvalid
		}
		return 0
	case *ssa.ChangeInterface:
		return q.flags(x.X)
	case *ssa.MakeInterface:
		f := uint8(rfFixed)
		if kindOfType(x.X.Type())&kNils != 0 && !isFreshValue(x.X) {
			f |= rfNil
		}
		return f
	}
	if f, ok := q.st.flags[v.Name()]; ok {
		return f
	}
	_, f := q.a.declared(v.Type())
	return f
}

func isFreshValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.Slice:
		return isFreshValue(x.X)
	}
	return false
}

func (q *rkRun) static(t types.Type) string {
	n := "T:" + types.TypeString(t, nil)
	q.typ[n] = t
	return n
}

// term: the (dynamic) type of the value.
func (q *rkRun) term(v ssa.Value) string {
	if t, ok := q.fn.terms[v]; ok {
		if strings.HasPrefix(t, "T:") {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				return q.static(mi.X.Type())
			}
		}
		if !strings.HasPrefix(t, "T:") {
			return t
		}
	}
	t := q.term1(v)
	q.fn.terms[v] = t
	return t
}

func (q *rkRun) term1(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return q.static(x.X.Type())
	case *ssa.ChangeInterface:
		return q.term(x.X)
	case *ssa.ChangeType:
		return q.term(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
				return q.term(x.X)
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			if _, ok := ta.AssertedType.Underlying().(*types.Interface); ok {
				return q.term(ta.X)
			}
		}
	case *ssa.Parameter:
		i := prmIndex(q.f, x)
		if j, ok := q.fn.alias[i]; ok && j >= 0 {
			return q.f.Params[j].Name()
		}
	case *ssa.UnOp:
		// one of the keys of a map
		if m := mapKey(x); m != nil {
			return q.term(m) + ".k"
		}
		// package variable that holds a type
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isReflType(x.Type()) {
			return "G:" + g.String()
		}
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		args := callArgs(&x.Call)
		if pkg != "reflect" {
			break
		}
		onVal := len(args) > 0 && isReflVal(args[0].Type())
		onType := len(args) > 0 && isReflType(args[0].Type()) && x.Call.IsInvoke()
		if x.Call.IsInvoke() {
			onType = isReflType(x.Call.Value.Type())
			args = append([]ssa.Value{x.Call.Value}, x.Call.Args...)
		}
		isMethod := x.Call.IsInvoke() || x.Call.StaticCallee() != nil && x.Call.StaticCallee().Signature.Recv() != nil
		switch {
		case isMethod && onVal:
			t := q.term(args[0])
			switch name {
			case "Type":
				return t
			case "Elem":
				if strings.HasSuffix(t, ".p") {
					return t[:len(t)-2]
				}
			case "Index", "MapIndex":
				return elemTerm(t)
			case "Addr":
				return t + ".p"
			case "Slice", "Slice3":
				return t
			case "Convert":
				return q.term(args[1])
			case "Interface":
				return t
			}
		case isMethod && onType:
			t := q.term(args[0])
			switch name {
			case "Elem":
				return elemTerm(t)
			case "Key":
				return t + ".k"
			}
		case !isMethod:
			switch name {
			case "ValueOf", "TypeOf":
				return q.term(args[0])
			case "New":
				return q.term(args[0]) + ".p"
			case "PtrTo", "PointerTo":
				return q.term(args[0]) + ".p"
			case "Zero", "MakeMap", "MakeSlice", "MakeMapWithSize":
				return q.term(args[0])
			case "Append", "AppendSlice":
				return q.term(args[0])
			case "Indirect":
				t := q.term(args[0])
				if strings.HasSuffix(t, ".p") {
					return t[:len(t)-2]
				}
				if ph, ok := args[0].(*ssa.Phi); ok {
					if b := addrPhi(ph); b != nil {
						return q.term(b)
					}
				}
			}
		}
	}
	return v.Name()
}

// set gives a register its facts.
func (q *rkRun) set(v ssa.Value, k kset, flags uint8) {
	t := q.term(v)
	if t == v.Name() {
		q.forget(t)
		q.st.kinds[t] = k
	}
	q.st.flags[v.Name()] = flags
}

// derive makes the register's type the one of another term.
func (q *rkRun) derive(v ssa.Value, from string, flags uint8) {
	t := q.term(v)
	if t == v.Name() {
		kinds := map[string]kset{"": q.kinds(from)}
		for k, x := range q.st.kinds {
			if strings.HasPrefix(k, from+".") {
				kinds[k[len(from):]] = x
			}
		}
		x := q.exact(from)
		q.forget(t)
		for s, k := range kinds {
			q.st.kinds[t+s] = k
		}
		if x != nil {
			q.st.is[t] = x
		}
	}
	q.st.flags[v.Name()] = flags
}

func (q *rkRun) limit(t string, k kset) {
	if strings.HasPrefix(t, "T:") {
		return
	}
	q.st.kinds[t] = q.kinds(t) & k
}

func (q *rkRun) block(b *ssa.BasicBlock, final bool) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.Call:
			q.call(x, &x.Call, x, final)
		case *ssa.Defer:
			q.call(x, &x.Call, nil, final)
		case *ssa.Go:
			q.call(x, &x.Call, nil, final)
		case *ssa.Return:
			if final {
				q.ret(x)
			}
		case *ssa.MapUpdate:
			if final && q.sub == nil && rkTracked(x.Key.Type()) {
				q.a.keyFact(x.Map.Type(), q, x.Key)
			}
		case ssa.Value:
			if _, isTuple := x.Type().(*types.Tuple); isTuple || !rkTracked(x.Type()) {
				continue
			}
			q.value(x)
		}
	}
}

func (a *rkAn) keyFact(t types.Type, q *rkRun, key ssa.Value) {
	n := types.TypeString(t.Underlying(), nil)
	f := a.keys[n]
	if f == nil {
		f = &rkFact{bottom: true}
		a.keys[n] = f
	}
	k, fl := q.factsOf(key)
	if f.join(k, fl) {
		a.ch = true
	}
}

// value: registers set by other means than reflection.
func (q *rkRun) value(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
		return
	case *ssa.TypeAssert:
		q.st.flags[v.Name()] = q.flags(x.X) &^ rfInvalid
		return
	case *ssa.Extract:
		switch c := x.Tuple.(type) {
		case *ssa.Call:
			q.result(v, &c.Call, x.Index)
			return
		case *ssa.TypeAssert:
			q.st.flags[v.Name()] = q.flags(c.X)
			return
		}
	case *ssa.UnOp:
		if mapKey(x) != nil {
			q.st.flags[v.Name()] = rfNil | rfFixed
			return
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && isReflVal(x.Type()) {
			// var v reflect.Value
			if l, simple := storesTo(al); len(l) == 0 && simple {
				q.set(v, 0, rfInvalid)
				return
			}
		}
		// the type of a structure's field
		if fa, ok := x.X.(*ssa.FieldAddr); ok && isReflType(x.Type()) && fa != nil {
			q.set(v, kAll, 0)
			return
		}
	}
	k, fl := q.a.declared(v.Type())
	q.set(v, k, fl)
}

// result: what a call of a function of the module gives.
func (q *rkRun) result(v ssa.Value, c *ssa.CallCommon, i int) {
	k, fl := q.a.declared(v.Type())
	kinds := map[string]kset{"": k}
	known := true
	cs := q.callees(c)
	if len(cs) > 0 {
		var f *rkFact
		for _, g := range cs {
			gn := q.a.fns[g]
			if gn == nil || i >= len(gn.results) {
				known = false
				break
			}
			res := gn.results
			if q.dep < 4 && isReflVal(v.Type()) && g != q.f {
				var entry []*rkFact
				for k, x := range c.Args {
					if k < len(gn.params) && rkTracked(x.Type()) {
						kk, ff := q.factsOf(x)
						entry = append(entry, &rkFact{kinds: kk, flags: ff})
					} else {
						entry = append(entry, nil)
					}
				}
				if r := q.a.eval(gn, entry, q.dep); r != nil {
					res = r
				}
			}
			if res[i].bottom {
				continue
			}
			if f == nil {
				f = &rkFact{bottom: true}
			}
			cp := map[string]kset{}
			for s, k := range res[i].kinds {
				cp[s] = k
			}
			f.join(cp, res[i].flags)
		}
		if known && f != nil {
			kinds, fl = f.kinds, f.flags
		}
	}
	t := q.term(v)
	if t == v.Name() {
		q.forget(t)
		for s, k := range kinds {
			q.st.kinds[t+s] = k
		}
	}
	q.st.flags[v.Name()] = fl
}

func (q *rkRun) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		if q.a.p.InModule(g) {
			return []*ssa.Function{g}
		}
		return nil
	}
	return nil
}

func (q *rkRun) ret(x *ssa.Return) {
	errAt := -1
	for i := range x.Results {
		if isErrorType(x.Results[i].Type()) {
			errAt = i
		}
	}
	fn := q.fn
	for i, v := range x.Results {
		if !rkTracked(v.Type()) {
			continue
		}
		k, fl := q.factsOf(v)
		if q.sub != nil {
			q.sub[i].join(k, fl)
			continue
		}
		if fn.results[i].join(k, fl) {
			q.a.ch = true
		}
	}
	if q.sub != nil {
		return
	}
	if errAt >= 0 {
		if !isNilConst(x.Results[errAt]) {
			// passed on from a function that says the same, or an error
			if q.surelyErr(x.Results[errAt]) {
				return
			}
			if c, ok := errCall(x.Results[errAt]); ok {
				save := q.st
				q.st = q.st.clone()
				q.afterOk(c)
				q.okParams()
				q.st = save
				return
			}
		}
	}
	q.okParams()
}

func (q *rkRun) okParams() {
	for i, prm := range q.f.Params {
		if !rkTracked(prm.Type()) {
			continue
		}
		k, fl := q.factsOf(prm)
		if q.fn.okPrm[i].join(k, fl) {
			q.a.ch = true
		}
	}
}

// errCall: the call that gave the error.
func errCall(v ssa.Value) (*ssa.CallCommon, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		return &x.Call, true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return &c.Call, true
		}
	}
	return nil, false
}

// surelyErr: the error returned here is not nil.
func (q *rkRun) surelyErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		return pkg == "fmt" && name == "Errorf" || pkg == "errors" && name == "New"
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	}
	return q.st.flags["err:"+v.Name()] != 0
}

// refine: the condition has this outcome; false when that cannot be.
func (q *rkRun) refine(cond ssa.Value, truth bool, d int) bool {
	if d > 6 {
		return true
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return q.refine(x.X, !truth, d+1)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ:
			eq := truth == (x.Op == token.EQL)
			if isErrorType(x.X.Type()) && isNilConst(x.Y) {
				if eq {
					if c, ok := errCall(x.X); ok {
						q.afterOk(c)
					}
				} else {
					q.st.flags["err:"+x.X.Name()] = 1
				}
				return true
			}
			if isReflNamed(x.X.Type(), "Kind") {
				k, ok := intConst(x.Y)
				if !ok {
					return true
				}
				return q.kindIs(x.X, int(k), eq)
			}
			if isReflType(x.X.Type()) && eq {
				t1, t2 := q.term(x.X), q.term(x.Y)
				if e := q.exact(t1); e != nil && q.exact(t2) == nil {
					q.st.is[t2] = e
				} else if e := q.exact(t2); e != nil && q.exact(t1) == nil {
					q.st.is[t1] = e
				}
				return true
			}
			// flags & fArray
			if eq != (x.Op == token.EQL) || true {
				if n, ok := intConst(x.Y); ok && n == 0 {
					if o, ok := x.X.(*ssa.BinOp); ok && o.Op == token.AND && !eq {
						return q.flagged(o)
					}
				}
			}
		case token.LSS, token.GTR:
			// 0 < flags & fArray
			if n, ok := intConst(x.X); ok && n == 0 && x.Op == token.LSS && truth {
				if o, ok := x.Y.(*ssa.BinOp); ok && o.Op == token.AND {
					return q.flagged(o)
				}
			}
			if n, ok := intConst(x.Y); ok && n == 0 && x.Op == token.GTR && truth {
				if o, ok := x.X.(*ssa.BinOp); ok && o.Op == token.AND {
					return q.flagged(o)
				}
			}
		}
	case *ssa.Extract:
		// comma-ok
		if x.Index == 1 {
			switch t := x.Tuple.(type) {
			case *ssa.TypeAssert:
				if truth {
					q.asserted(t.X, t.AssertedType)
				}
			case *ssa.Lookup:
				if truth && rkTracked(t.Index.Type()) {
					if f := q.a.keys[types.TypeString(t.X.Type().Underlying(), nil)]; f != nil && !f.bottom {
						for s, k := range f.kinds {
							q.limit(q.term(t.Index)+s, k)
						}
					} else {
						return q.a.rep // nothing was stored so far
					}
				}
			}
		}
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if pkg != "reflect" {
			return true
		}
		args := x.Call.Args
		if x.Call.IsInvoke() {
			if name == "Implements" && truth && q.isArrayType(x.Call.Args[0]) {
				q.arrayEvidence(q.term(x.Call.Value))
				if c, ok := x.Call.Value.(*ssa.Call); ok && !c.Call.IsInvoke() && len(c.Call.Args) == 1 {
					if ph, ok := c.Call.Args[0].(*ssa.Phi); ok {
						if b := addrPhi(ph); b != nil {
							q.limit(q.term(b), kLists)
						}
					}
				}
			}
			return true
		}
		if len(args) == 0 || !isReflVal(args[0].Type()) {
			return true
		}
		v := args[0]
		fl := q.flags(v)
		switch name {
		case "IsValid":
			if truth {
				q.st.flags[v.Name()] = fl &^ rfInvalid
			} else if fl&rfInvalid == 0 {
				return false
			}
		case "IsNil":
			if !truth {
				q.st.flags[v.Name()] = fl &^ rfNil
			} else if fl&rfNil == 0 {
				return false
			}
		case "CanSet", "CanAddr":
			if truth {
				q.st.flags[v.Name()] = fl &^ (rfFixed | rfInvalid)
			} else if fl&(rfFixed|rfInvalid) == 0 {
				return false
			}
		}
	}
	return true
}

func (q *rkRun) isArrayType(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && q.a.p.typeVar(g, q.a.array)
}

// typeVar: the package variable holds the reflected interface type.
func (p *Prog) typeVar(g *ssa.Global, want *types.Interface) bool {
	if want == nil || g.Pkg == nil {
		return false
	}
	found := false
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	eachInstr(init, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(g) {
			return
		}
		c, ok := st.Val.(*ssa.Call)
		if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Elem" {
			return
		}
		c, ok = c.Call.Value.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			return
		}
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
			if pt, ok := mi.X.Type().(*types.Pointer); ok {
				if i, ok := pt.Elem().Underlying().(*types.Interface); ok && types.Identical(i, want) {
					found = true
				}
			}
		}
	})
	return found
}

// arrayEvidence: the type implements Array.
func (q *rkRun) arrayEvidence(t string) {
	if strings.HasSuffix(t, ".p") {
		q.limit(t[:len(t)-2], kLists)
		return
	}
	q.limit(t, kLists|ks(rkPtr))
}

// flagged: a flag of a field is set; when it says that the field's type
// implements Array, that holds for the field's value.
func (q *rkRun) flagged(o *ssa.BinOp) bool {
	n, ok := intConst(o.Y)
	fl := o.X
	if !ok {
		n, ok = intConst(o.X)
		fl = o.Y
	}
	if !ok {
		return true
	}
	c := q.a.p.Pkg("xmp").Pkg.Scope().Lookup("fArray")
	k, _ := c.(*types.Const)
	if k == nil {
		return true
	}
	if w, ok := constant.Int64Val(k.Val()); !ok || w != n {
		return true
	}
	// flags of which field?
	u, ok := fl.(*ssa.UnOp)
	if !ok {
		return true
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return true
	}
	for _, b := range q.f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !isReflVal(v.Type()) {
				continue
			}
			if _, known := q.st.flags[v.Name()]; !known {
				continue
			}
			root, deref := q.root(v)
			if root == nil || !sameFinfo(root, fa.X) {
				continue
			}
			t := q.term(v)
			if strings.HasSuffix(t, ".p") {
				continue
			}
			if deref {
				q.limit(t, kLists)
			} else {
				q.limit(t, kLists|ks(rkPtr))
			}
		}
	}
	return true
}

// root: the call of fieldInfo.value that v came from, by following pointers.
func (q *rkRun) root(v ssa.Value) (*ssa.Call, bool) {
	var r *ssa.Call
	good, deref := true, false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.Call:
			pkg, name := extCallee(&x.Call)
			if pkg == "reflect" && (name == "Elem" || name == "Indirect") && len(x.Call.Args) == 1 && isReflVal(x.Call.Args[0].Type()) {
				deref = true
				walk(x.Call.Args[0])
				return
			}
			if g := x.Call.StaticCallee(); g != nil && q.a.p.InModule(g) && isReflVal(x.Type()) {
				if g.Signature.Recv() == nil && len(x.Call.Args) == 1 && isReflVal(x.Call.Args[0].Type()) {
					deref = true // derefValue
					walk(x.Call.Args[0])
					return
				}
				if g.Signature.Recv() != nil && len(x.Call.Args) == 2 && isReflVal(x.Call.Args[1].Type()) && (r == nil || r == x) {
					r = x
					return
				}
			}
		}
		good = false
	}
	walk(v)
	if !good || r == nil {
		return nil, false
	}
	if _, ok := v.(*ssa.Phi); ok {
		deref = q.kinds(q.term(v))&ks(rkPtr, rkInterface) == 0
	}
	return r, deref
}

// copiedFrom: where the value of a copy of a structure was.
func copiedFrom(v ssa.Value) ssa.Value {
	for i := 0; i < 6; i++ {
		al, ok := v.(*ssa.Alloc)
		if !ok {
			break
		}
		u, ok := soleStore(al).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			break
		}
		v = u.X
	}
	return v
}

func sameFinfo(c *ssa.Call, fi ssa.Value) bool {
	recv := c.Call.Args[0]
	var in func(v, w ssa.Value, d int) bool
	in = func(v, w ssa.Value, d int) bool {
		v, w = copiedFrom(v), copiedFrom(w)
		if v == w {
			return true
		}
		if ph, ok := v.(*ssa.Phi); ok && d < 4 {
			for _, e := range ph.Edges {
				if !isNilConst(e) && !in(e, w, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	return in(recv, fi, 0) || in(fi, recv, 0)
}

// asserted: the interface value holds this type.
func (q *rkRun) asserted(v ssa.Value, t types.Type) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return
	}
	c, ok := v.(*ssa.Call)
	if ok {
		if pkg, name := extCallee(&c.Call); pkg == "reflect" && name == "Interface" {
			w := c.Call.Args[0]
			q.st.is[q.term(w)] = t
			// fv or its address
			if ph, ok := w.(*ssa.Phi); ok {
				if p, isP := t.Underlying().(*types.Pointer); isP {
					base := addrPhi(ph)
					if base != nil && q.kinds(q.term(base))&ks(rkPtr) == 0 {
						q.st.is[q.term(base)] = p.Elem()
						q.st.flags[base.Name()] = q.flags(base) &^ rfFixed
					}
				} else if base := addrPhi(ph); base != nil {
					q.st.is[q.term(base)] = t
				}
			} else if strings.HasSuffix(q.term(w), ".p") {
				if p, isP := t.Underlying().(*types.Pointer); isP {
					q.st.is[elemTerm(q.term(w))] = p.Elem()
				}
			}
			return
		}
	}
	if tt := q.term(v); !strings.HasPrefix(tt, "T:") {
		q.st.is[tt] = t
		q.st.flags[v.Name()] = q.flags(v) &^ rfInvalid
	}
}

// mapKey: the map, when the value is an item of its MapKeys().
func mapKey(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	c, ok := ia.X.(*ssa.Call)
	if !ok {
		return nil
	}
	if pkg, name := extCallee(&c.Call); pkg == "reflect" && name == "MapKeys" {
		return c.Call.Args[0]
	}
	return nil
}

// addrPhi: v in phi(v, v.Addr()).
func addrPhi(ph *ssa.Phi) ssa.Value {
	var base ssa.Value
	for _, e := range ph.Edges {
		x := e
		if c, ok := e.(*ssa.Call); ok {
			if pkg, name := extCallee(&c.Call); pkg == "reflect" && name == "Addr" {
				x = c.Call.Args[0]
			}
		}
		if base != nil && x != base {
			return nil
		}
		base = x
	}
	return base
}

// afterOk: the call reported no error.
func (q *rkRun) afterOk(c *ssa.CallCommon) {
	for _, g := range q.callees(c) {
		gn := q.a.fns[g]
		if gn == nil {
			continue
		}
		for i, f := range gn.okPrm {
			if f.bottom || i >= len(c.Args) || !rkTracked(c.Args[i].Type()) {
				continue
			}
			for s, k := range f.kinds {
				if k != kAll {
					q.limit(q.term(c.Args[i])+s, k)
				}
			}
		}
	}
}

// kindIs: the outcome of comparing a kind.
func (q *rkRun) kindIs(v ssa.Value, k int, eq bool) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return true
	}
	pkg, name := extCallee(&c.Call)
	if pkg != "reflect" || name != "Kind" {
		return true
	}
	var t string
	var x ssa.Value
	if c.Call.IsInvoke() {
		t = q.term(c.Call.Value)
	} else {
		x = c.Call.Args[0]
		t = q.term(x)
	}
	has := q.kinds(t)
	if x != nil {
		fl := q.flags(x)
		if fl&rfInvalid != 0 {
			if k == rkInvalid && !eq || k != rkInvalid && eq {
				q.st.flags[x.Name()] = fl &^ rfInvalid
			}
		} else if k == rkInvalid && eq {
			return false
		}
		if k == rkInvalid {
			return true
		}
		inv := fl&rfInvalid != 0
		if eq {
			if has&(1<<k) == 0 {
				return false
			}
		} else if has&^(1<<k) == 0 && !inv {
			return false
		}
	} else {
		if eq && has&(1<<k) == 0 {
			return false
		}
		if !eq && has&^(1<<k) == 0 {
			return false
		}
	}
	if eq {
		q.limit(t, 1<<k)
	} else {
		q.limit(t, kAll&^(1<<k))
	}
	return true
}

func (q *rkRun) call(in ssa.Instruction, c *ssa.CallCommon, v *ssa.Call, final bool) {
	pkg, name := extCallee(c)
	if pkg == "reflect" {
		q.reflect(in, c, v, name, final)
		return
	}
	// hand what is known to the functions of the module
	if final && q.sub == nil {
		for _, g := range q.callees(c) {
			gn := q.a.fns[g]
			if gn == nil {
				continue
			}
			if !gn.reach {
				gn.reach = true
				q.a.ch = true
			}
			for i, x := range c.Args {
				if i >= len(gn.params) || !rkTracked(x.Type()) {
					continue
				}
				if gn.top && g.Name() == "UnmarshalArray" && isEmptyIface(g.Params[i].Type()) {
					k, fl := q.factsOf(x)
					if q.a.rep {
						t := q.term(x)
						if k[""]&^ks(rkPtr) != 0 || fl&rfInvalid != 0 || q.kinds(elemTerm(t))&^kLists != 0 {
							q.fail("kind", in, "destination of "+g.Name(), "%s passes something to %s that need not point to a slice or an array (%s to %s)", q.a.p.FName(q.f), g.Name(), k[""], q.kinds(elemTerm(t)))
						} else {
							q.ok(in, "destination of "+g.Name())
						}
					}
					continue
				}
				if gn.top {
					continue
				}
				k, fl := q.factsOf(x)
				if gn.params[i].join(k, fl) {
					q.a.ch = true
				}
			}
			q.aliases(gn, c)
		}
	}
	if v != nil && rkTracked(v.Type()) {
		q.result(v, c, 0)
	}
}

// aliases: a parameter that is always given the type of another one.
func (q *rkRun) aliases(gn *rkFn, c *ssa.CallCommon) {
	if gn.top {
		return
	}
	for i := range gn.params {
		if !isReflType(gn.f.Params[i].Type()) || i >= len(c.Args) {
			continue
		}
		j, have := gn.alias[i]
		if have && j < 0 {
			continue
		}
		found := -1
		for k := range gn.params {
			if k < len(c.Args) && isReflVal(gn.f.Params[k].Type()) && q.term(c.Args[k]) == q.term(c.Args[i]) {
				found = k
			}
		}
		if have && found != j {
			found = -1
		}
		if !have || found != j {
			if found < 0 {
				if !have || j >= 0 {
					gn.alias[i] = -1
					gn.terms = map[ssa.Value]string{}
					q.a.ch = true
				}
			} else {
				gn.alias[i] = found
				gn.terms = map[ssa.Value]string{}
				q.a.ch = true
			}
		}
	}
}

func (q *rkRun) ok(in ssa.Instruction, what string) {
	q.a.r.Units["uses of reflected values"]++
	q.a.r.ok("%s: %s at %s is allowed for every kind that gets here", q.a.p.FName(q.f), what, q.a.p.InstrPos(in))
}

func (q *rkRun) fail(rule string, in ssa.Instruction, what, msg string, args ...any) {
	q.a.r.Units["uses of reflected values"]++
	var alts []string
	for _, n := range q.a.p.OwnerNames(q.f) {
		alts = append(alts, n+": "+what)
	}
	if len(alts) == 0 {
		alts = []string{q.a.p.FName(q.f) + ": " + what}
	}
	q.a.r.failAlt(rule, alts, q.a.p.InstrPos(in), msg, args...)
}

// want: the kinds that get here are among those allowed.
func (q *rkRun) want(in ssa.Instruction, what string, v ssa.Value, t string, allowed kset, final bool) {
	has := q.kinds(t)
	inv := v != nil && isReflVal(v.Type()) && q.flags(v)&rfInvalid != 0
	if final && q.a.rep && q.sub == nil {
		on := exprVal(q.a.p, v)
		switch {
		case inv:
			q.fail("kind", in, what+" of "+on, "%s: %s is called on %s, which may not hold a value at all here: the library panics", q.a.p.FName(q.f), what, on)
		case has&^allowed != 0:
			q.fail("kind", in, what+" of "+on, "%s: %s of %s panics when it is of kind %s, which nothing on the way here excludes", q.a.p.FName(q.f), what, on, has&^allowed)
		default:
			q.ok(in, what+" of "+on)
		}
	}
	q.limit(t, allowed)
	if inv {
		q.st.flags[v.Name()] &^= rfInvalid
	}
}

// settable: whether a value can be changed is not decided here; once it was,
// it could.
func (q *rkRun) settable(v ssa.Value) {
	q.st.flags[v.Name()] = q.flags(v) &^ (rfFixed | rfInvalid)
}

// assign: the value has the type of where it is put.
func (q *rkRun) assign(in ssa.Instruction, what string, v ssa.Value, from, to string, final bool) {
	if !final || !q.a.rep || q.sub != nil {
		return
	}
	good := from == to || q.same(from, to)
	if !good && strings.HasSuffix(from, ".p") && q.kinds(to) == ks(rkPtr) {
		good = q.same(from[:len(from)-2], elemTerm(to))
	}
	if !good {
		x, y := q.exact(from), q.exact(to)
		good = x != nil && y != nil && types.AssignableTo(x, y)
	}
	if good {
		q.ok(in, what)
		return
	}
	q.fail("type", in, what, "%s: %s may be given a value of another type (%s) than the one it has: the library panics", q.a.p.FName(q.f), what, exprVal(q.a.p, v))
}

func (q *rkRun) same(a, b string) bool {
	if a == b {
		return true
	}
	x, y := q.exact(a), q.exact(b)
	return x != nil && y != nil && types.Identical(x, y)
}

var rkValueKinds = map[string]kset{
	"Elem": ks(rkPtr, rkInterface), "IsNil": kNils,
	"Len": ks(rkArray, rkChan, rkMap, rkSlice, rkString), "Cap": ks(rkArray, rkChan, rkSlice),
	"Index": ks(rkArray, rkSlice, rkString), "Slice": ks(rkArray, rkSlice, rkString), "Slice3": ks(rkArray, rkSlice),
	"SetLen": ks(rkSlice), "SetCap": ks(rkSlice),
	"Int": kInts, "SetInt": kInts, "OverflowInt": kInts,
	"Uint": kUints, "SetUint": kUints, "OverflowUint": kUints,
	"Float": kFlts, "SetFloat": kFlts, "OverflowFloat": kFlts,
	"Complex": kCplx, "SetComplex": kCplx,
	"Bool": ks(rkBool), "SetBool": ks(rkBool), "SetString": ks(rkString),
	"Bytes": ks(rkSlice, rkArray), "SetBytes": ks(rkSlice),
	"MapIndex": ks(rkMap), "MapKeys": ks(rkMap), "MapRange": ks(rkMap), "SetMapIndex": ks(rkMap),
	"Field": ks(rkStruct), "NumField": ks(rkStruct), "FieldByIndex": ks(rkStruct), "FieldByName": ks(rkStruct),
	"Type": kAll, "Interface": kAll, "CanInterface": kAll, "Addr": kAll, "Set": kAll, "Convert": kAll, "IsZero": kAll, "NumMethod": kAll, "Method": kAll, "MethodByName": kAll,
	"Call": ks(rkFunc), "Send": ks(rkChan), "Recv": ks(rkChan), "Close": ks(rkChan), "Pointer": kNils,
}

var rkTypeKinds = map[string]kset{
	"Elem": kElems, "Key": ks(rkMap), "Len": ks(rkArray), "Bits": kInts | kUints | kFlts | kCplx,
	"Field": ks(rkStruct), "NumField": ks(rkStruct), "FieldByIndex": ks(rkStruct), "FieldByName": ks(rkStruct), "FieldByNameFunc": ks(rkStruct),
	"In": ks(rkFunc), "Out": ks(rkFunc), "NumIn": ks(rkFunc), "NumOut": ks(rkFunc), "IsVariadic": ks(rkFunc), "ChanDir": ks(rkChan),
}

func (q *rkRun) reflect(in ssa.Instruction, c *ssa.CallCommon, v *ssa.Call, name string, final bool) {
	if c.IsInvoke() {
		if !isReflType(c.Value.Type()) {
			return
		}
		if al, ok := rkTypeKinds[name]; ok {
			q.want(in, name, c.Value, q.term(c.Value), al, final)
		}
		if v != nil && rkTracked(v.Type()) {
			q.set(v, kAll, 0)
		}
		return
	}
	g := c.StaticCallee()
	if g == nil {
		return
	}
	args := c.Args
	if g.Signature.Recv() == nil || !isReflVal(args[0].Type()) {
		q.reflectFunc(in, c, v, name, final)
		return
	}
	x := args[0]
	t := q.term(x)
	if al, ok := rkValueKinds[name]; ok && !(name == "Field" && recordedIndex(args[1])) {
		q.want(in, name, x, t, al, final)
	}
	fl := q.flags(x)
	switch name {
	case "Bytes", "SetBytes":
		q.want(in, name+" elements", nil2(x), elemTerm(t), ks(rkUint8), final)
	case "Slice", "Slice3":
		if q.kinds(t)&ks(rkArray) != 0 {
			q.settable(x)
		}
	case "Addr", "SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetLen", "SetComplex", "Set":
		q.settable(x)
	}
	if name == "SetBytes" {
		q.settable(x)
	}
	switch name {
	case "Set":
		y := args[1]
		q.want(in, "Set from", y, q.term(y), kAll, final)
		q.assign(in, "Set of "+exprVal(q.a.p, x), y, q.term(y), t, final)
		if q.flags(y)&rfNil == 0 {
			q.st.flags[x.Name()] = q.flags(x) &^ rfNil
		} else {
			q.st.flags[x.Name()] = q.flags(x) | rfNil
		}
	case "SetMapIndex":
		q.assign(in, "key in "+exprVal(q.a.p, x), args[1], q.term(args[1]), t+".k", final)
		if !isZeroValue(args[2]) {
			q.assign(in, "entry of "+exprVal(q.a.p, x), args[2], q.term(args[2]), elemTerm(t), final)
		}
	case "MapIndex":
		q.assign(in, "key in "+exprVal(q.a.p, x), args[1], q.term(args[1]), t+".k", final)
	case "Convert":
		kf, kt := q.kinds(t), q.kinds(q.term(args[1]))
		good := kf == kt && (kf == ks(rkString) || kf&^kInts == 0 || kf&^kUints == 0 || kf&^kFlts == 0)
		if final && q.a.rep && q.sub == nil {
			if good {
				q.ok(in, "Convert of "+exprVal(q.a.p, x))
			} else {
				q.fail("type", in, "Convert of "+exprVal(q.a.p, x), "%s: the conversion of %s panics for types it cannot be converted to", q.a.p.FName(q.f), exprVal(q.a.p, x))
			}
		}
	}
	if v == nil || !rkTracked(v.Type()) {
		return
	}
	switch name {
	case "Type":
		q.st.flags[v.Name()] = 0
	case "Elem":
		k := q.kinds(t)
		inv := uint8(0)
		if fl&rfNil != 0 {
			inv = rfInvalid
		}
		if k&ks(rkInterface) == 0 {
			q.derive(v, elemTerm(t), inv|rfNil)
		} else {
			q.set(v, kAll&^ks(rkInterface)|q.kinds(elemTerm(t)), inv|rfNil|rfFixed)
			if k == ks(rkInterface) {
				q.set(v, kAll&^ks(rkInterface), inv|rfNil|rfFixed)
			}
		}
	case "Index":
		f := uint8(rfNil)
		if q.kinds(t)&ks(rkArray) != 0 {
			f |= fl & rfFixed
		}
		if q.kinds(t)&ks(rkString) != 0 {
			f |= rfFixed
		}
		q.derive(v, elemTerm(t), f)
	case "MapIndex":
		q.st.flags[v.Name()] = rfInvalid | rfNil | rfFixed
		if m := mapKey(args[1]); m != nil && m == x {
			q.st.flags[v.Name()] = rfNil | rfFixed
		}
	case "Addr":
		q.st.flags[v.Name()] = rfFixed
	case "Slice", "Slice3":
		q.st.flags[v.Name()] = rfFixed
	case "Convert":
		q.st.flags[v.Name()] = rfFixed | fl&rfNil
	case "Interface":
		q.st.flags[v.Name()] = fl&rfNil | rfFixed
	case "Field", "FieldByIndex", "FieldByName":
		f := rfNil | fl&rfFixed
		if name == "FieldByName" {
			f |= rfInvalid
		}
		q.set(v, kAll, f)
	default:
		q.set(v, kAll, rfInvalid|rfNil|rfFixed)
	}
}

// recordedIndex: the index of a field as recorded in a description of it.
func recordedIndex(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	u, ok = ia.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}

func nil2(v ssa.Value) ssa.Value { return v }

func isZeroValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		l, simple := storesTo(al)
		return len(l) == 0 && simple
	}
	return false
}

func (q *rkRun) reflectFunc(in ssa.Instruction, c *ssa.CallCommon, v *ssa.Call, name string, final bool) {
	args := c.Args
	switch name {
	case "Indirect":
		x := args[0]
		t := q.term(x)
		if v == nil {
			return
		}
		fl := q.flags(x)
		k := q.kinds(t)
		if ph, ok := x.(*ssa.Phi); ok && !strings.HasSuffix(t, ".p") {
			if b := addrPhi(ph); b != nil {
				q.st.flags[v.Name()] = q.flags(b)
				if q.kinds(q.term(b))&ks(rkPtr) != 0 {
					q.st.flags[v.Name()] |= rfInvalid
				}
				return
			}
		}
		switch {
		case k == ks(rkPtr) && fl&rfInvalid == 0:
			f := uint8(rfNil)
			if fl&rfNil != 0 {
				f |= rfInvalid
			}
			q.derive(v, elemTerm(t), f)
		case k&ks(rkPtr) == 0:
			q.derive(v, t, fl)
		default:
			kk := k&^ks(rkPtr) | q.kinds(elemTerm(t))
			if fl&rfNil != 0 {
				fl |= rfInvalid
			}
			q.set(v, kk, fl|rfNil)
		}
	case "ValueOf":
		if v != nil {
			q.st.flags[v.Name()] = q.flags(args[0]) | rfFixed
			if q.term(v) == v.Name() {
				k, fl := q.a.declared(args[0].Type())
				q.set(v, k, fl)
			}
		}
	case "TypeOf":
	case "New":
		q.st.flags[v.Name()] = rfFixed
	case "Zero":
		q.st.flags[v.Name()] = rfNil | rfFixed
	case "MakeMap", "MakeMapWithSize":
		q.want(in, name, args[0], q.term(args[0]), ks(rkMap), final)
		q.st.flags[v.Name()] = rfFixed
	case "MakeSlice":
		q.want(in, name, args[0], q.term(args[0]), ks(rkSlice), final)
		q.st.flags[v.Name()] = rfFixed
	case "Append":
		q.want(in, name, args[0], q.term(args[0]), ks(rkSlice), final)
		for _, x := range varargs(args[1]) {
			q.want(in, "Append from", x, q.term(x), kAll, final)
			q.assign(in, "items of "+exprVal(q.a.p, args[0]), x, q.term(x), elemTerm(q.term(args[0])), final)
		}
		q.st.flags[v.Name()] = rfFixed
	case "AppendSlice":
		q.want(in, name, args[0], q.term(args[0]), ks(rkSlice), final)
		q.want(in, name, args[1], q.term(args[1]), ks(rkSlice), final)
		q.assign(in, "items of "+exprVal(q.a.p, args[0]), args[1], q.term(args[1]), q.term(args[0]), final)
		q.st.flags[v.Name()] = rfFixed
	case "Copy":
		q.want(in, name, args[0], q.term(args[0]), kLists, final)
		q.want(in, name, args[1], q.term(args[1]), kLists|ks(rkString), final)
		if q.kinds(q.term(args[0]))&ks(rkArray) != 0 {
			q.settable(args[0])
		}
		q.assign(in, "items of "+exprVal(q.a.p, args[0]), args[1], elemTerm(q.term(args[1])), elemTerm(q.term(args[0])), final)
	default:
		if v != nil && rkTracked(v.Type()) {
			q.set(v, kAll, rfInvalid|rfNil|rfFixed)
		}
	}
}

// varargs: the values put in a variadic argument.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

var rkDebug = os.Getenv("XV_RK")

func (q *rkRun) dump() {
	var l []string
	for k, v := range q.st.kinds {
		l = append(l, fmt.Sprintf("%s=%s", k, v))
	}
	for k, v := range q.st.flags {
		l = append(l, fmt.Sprintf("%s:%d", k, v))
	}
	for k, v := range q.st.is {
		l = append(l, fmt.Sprintf("%s is %s", k, v))
	}
	sort.Strings(l)
	fmt.Fprintln(os.Stderr, strings.Join(l, "; "))
}
