package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// codec describes how the encoder and decoder treat one Go type.
type codec struct {
	T                                             types.Type
	MX, UX, MT, UT, MA, UA, ZERO, MJ, UJ          *types.Func
	pMX, pMT, pMA, pZERO, vUX, vUT, vUA, vUJ, pMJ bool // marshal side on pointer receiver / unmarshal side on value receiver
}

func methodOf(t types.Type, name string) (*types.Func, bool) {
	// returns the method and whether it needs a pointer receiver
	for i, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == name {
				f, _ := ms.At(j).Obj().(*types.Func)
				return f, i == 1
			}
		}
	}
	return nil, false
}

func codecOf(t types.Type) *codec {
	c := &codec{T: t}
	c.MX, c.pMX = methodOf(t, "MarshalXMP")
	c.MT, c.pMT = methodOf(t, "MarshalText")
	c.MA, c.pMA = methodOf(t, "MarshalXMPAttr")
	c.MJ, c.pMJ = methodOf(t, "MarshalJSON")
	c.ZERO, c.pZERO = methodOf(t, "IsZero")
	var p bool
	c.UX, p = methodOf(t, "UnmarshalXMP")
	c.vUX = c.UX != nil && !p
	c.UT, p = methodOf(t, "UnmarshalText")
	c.vUT = c.UT != nil && !p
	c.UA, p = methodOf(t, "UnmarshalXMPAttr")
	c.vUA = c.UA != nil && !p
	c.UJ, p = methodOf(t, "UnmarshalJSON")
	c.vUJ = c.UJ != nil && !p
	return c
}

func ptrElem(t types.Type) types.Type {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		return types.Unalias(pt.Elem())
	}
	return t
}

func isByteSlice(t types.Type) bool {
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	default:
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isSimple(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&(types.IsInteger|types.IsFloat|types.IsString|types.IsBoolean) != 0
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// typeUse records how a type is reached by the serialiser.
type typeUse struct {
	T                          types.Type
	Elem, Attr, ByValue, ByPtr bool
	ValueOfElem                bool
	At                         *tagField // one field reaching it as an element
	AttrAt                     *tagField
	ValueAt                    *tagField
}

// valueTypes: every type the serialiser can meet, with the uses that reach it.
// Types that are written as text are not descended into.
func (p *Prog) valueTypes() []*typeUse {
	idx := map[string]*typeUse{}
	var order []*typeUse
	var visit func(t types.Type, f *tagField, attr bool)
	visit = func(t types.Type, f *tagField, attr bool) {
		byPtr := false
		if _, ok := types.Unalias(t).(*types.Pointer); ok {
			byPtr = true
		}
		t = ptrElem(t)
		k := types.TypeString(t, nil)
		u, seen := idx[k]
		if !seen {
			u = &typeUse{T: t}
			idx[k] = u
			order = append(order, u)
		}
		if byPtr {
			u.ByPtr = true
		} else {
			u.ByValue = true
			if u.ValueAt == nil {
				u.ValueAt = f
			}
		}
		wasElem := u.Elem
		if attr {
			u.Attr = true
			u.AttrAt = f
			return
		}
		u.Elem = true
		if u.At == nil {
			u.At = f
		}
		if wasElem {
			return
		}
		c := codecOf(t)
		if c.MX == nil && c.MT != nil {
			return // text
		}
		if c.MX != nil && p.encForm(c) == "X" {
			return // writes its content itself
		}
		switch x := t.Underlying().(type) {
		case *types.Slice:
			if n := namedOf(x.Elem()); n != nil && n.Obj().Name() == "AltItem" && n.Obj().Pkg().Path() == p.ModPath+"/xmp" {
				return // language alternatives are (de)coded by the array codec itself
			}
			if !isByteSlice(t) {
				visit(x.Elem(), f, false)
			}
		case *types.Array:
			if !isByteSlice(t) {
				visit(x.Elem(), f, false)
			}
		case *types.Struct:
			if n, ok := t.(*types.Named); ok {
				for _, g := range tagFields(n, "xmp") {
					if g.HasTag && !g.Omit {
						visit(g.Field.Type(), g, g.Attr)
					}
				}
			}
		}
	}
	for _, n := range p.modelTypes() {
		if !p.libType(n) {
			continue
		}
		for _, f := range tagFields(n, "xmp") {
			if f.HasTag && !f.Omit {
				visit(f.Field.Type(), f, f.Attr)
			}
		}
	}
	// structs not reachable from a model are still part of the public vocabulary
	for _, n := range p.xmpStructs() {
		for _, f := range tagFields(n, "xmp") {
			if f.HasTag && !f.Omit {
				visit(f.Field.Type(), f, f.Attr)
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return p.TName(order[i].T) < p.TName(order[j].T) })
	return order
}

// callTo lists calls in fn, following module functions that take fn's
// receiver or node along (bounded), to a function/method of the given name in package xmp.
func (p *Prog) callsTo(fn *ssa.Function, name string, depth int) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	if fn == nil {
		return nil
	}
	eachInstr(fn, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return
		}
		g = p.unwrap(g)
		if g.Pkg != nil && g.Name() == name && g.Pkg.Pkg.Path() == p.ModPath+"/xmp" {
			out = append(out, c)
			return
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == p.ModPath+"/xmp" {
			switch g.Name() {
			case "MarshalArray", "UnmarshalArray", "EncodeElement", "DecodeElement":
				return
			}
			if g.Signature.Recv() != nil {
				if n := namedOf(g.Signature.Recv().Type()); n != nil && (n.Obj().Name() == "Encoder" || n.Obj().Name() == "Decoder" || n.Obj().Name() == "Node") {
					return
				}
			}
		}
		if depth > 0 && p.InModule(g) && g.Blocks != nil && !(g.Pkg != nil && g.Pkg.Pkg.Path() == p.ModPath+"/xmp" && fn.Pkg != g.Pkg) {
			out = append(out, p.callsTo(g, name, depth-1)...)
		}
	})
	return out
}

func (p *Prog) fnOf(f *types.Func) *ssa.Function {
	if f == nil {
		return nil
	}
	return p.SSA.FuncValue(f)
}

// ifaceArgType: static type behind a value passed as interface{}.
func ifaceArgType(v ssa.Value) types.Type {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X.Type()
	}
	if c, ok := v.(*ssa.ChangeInterface); ok {
		return ifaceArgType(c.X)
	}
	return nil
}

func sameTags(a, b types.Type) bool {
	x, ok1 := ptrElem(a).Underlying().(*types.Struct)
	y, ok2 := ptrElem(b).Underlying().(*types.Struct)
	if !ok1 || !ok2 || x.NumFields() != y.NumFields() {
		return ok1 == ok2 && !ok1
	}
	for i := 0; i < x.NumFields(); i++ {
		if x.Tag(i) != y.Tag(i) || x.Field(i).Name() != y.Field(i).Name() {
			return false
		}
	}
	return true
}

// encForm / decForm: representation a type takes in the node tree.
//
//	L list, R struct, T text, S simple, X custom (writes/reads node content itself), ? none
func (p *Prog) encForm(c *codec) string {
	if c.MX != nil {
		fn := p.fnOf(c.MX)
		if fn == nil {
			return "X"
		}
		arr := p.callsTo(fn, "MarshalArray", 2)
		el := p.callsTo(fn, "EncodeElement", 2)
		if len(arr) > 0 && len(el) == 0 {
			return "L"
		}
		if len(el) > 0 && len(arr) == 0 {
			f := ""
			for _, k := range el {
				a := k.Common().Args
				if t := ifaceArgType(a[len(a)-2]); t != nil {
					g := p.encForm(codecOf(ptrElem(t)))
					if f == "" {
						f = g
					} else if f != g {
						return "X"
					}
				} else {
					return "X"
				}
			}
			if p.writesValue(fn) {
				return "X"
			}
			return f
		}
		return "X"
	}
	if c.MT != nil {
		return "T"
	}
	return p.plainForm(c.T)
}

func (p *Prog) plainForm(t types.Type) string {
	if isSimple(t) {
		return "S"
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return "L"
	case *types.Struct:
		return "R"
	}
	return "?"
}

func (p *Prog) decForm(c *codec) string {
	if c.UX != nil {
		fn := p.fnOf(c.UX)
		if fn == nil {
			return "X"
		}
		arr := p.callsTo(fn, "UnmarshalArray", 2)
		el := p.callsTo(fn, "DecodeElement", 2)
		if len(arr) > 0 && len(el) == 0 {
			return "L"
		}
		if len(el) > 0 && len(arr) == 0 && !p.readsValue(fn) {
			f := ""
			for _, k := range el {
				a := k.Common().Args
				t := ifaceArgType(a[len(a)-2])
				if t == nil {
					return "X"
				}
				g := p.decForm(codecOf(ptrElem(t)))
				if f != "" && f != g {
					return "X"
				}
				f = g
			}
			return f
		}
		return "X"
	}
	if c.UT != nil {
		return "T"
	}
	f := p.plainForm(c.T)
	if f == "L" {
		return "?" // the reflection decoder has no list fallback
	}
	return f
}

func (p *Prog) writesValue(fn *ssa.Function) bool {
	hit := false
	eachInstr(fn, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Value" {
				hit = true
			}
		}
	})
	return hit
}

func (p *Prog) readsValue(fn *ssa.Function) bool {
	hit := false
	eachInstr(fn, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok {
			if n := namedOf(fa.X.Type()); n != nil && n.Obj().Name() == "Node" && fieldName(fa) == "Value" {
				hit = true
			}
		}
	})
	return hit
}

func init() { register("C11", checkCodec) }

func checkCodec(p *Prog, r *Result) {
	r.Explain = "For every Go type the reflection driven serialiser can reach through tagged fields: the representation its encoder produces (list, struct, text, simple, custom) and the representation its decoder expects are computed from its method set and from the code of its (un)marshal methods, separately for element and attribute position; the two must be compatible. Array codecs must name the same RDF container kind on both sides, delegating codecs must not delegate to themselves, and methods must sit on the receiver kind the reflection code can call."
	ce := p.CE()
	uses := p.valueTypes()
	for _, u := range uses {
		r.Units["types"]++
		c := codecOf(u.T)
		name := p.TName(u.T)
		pos := "-"
		if n := namedOf(u.T); n != nil {
			pos = p.Pos(n.Obj().Pos())
		}
		at := func(f *tagField) string { return p.TName(f.Owner) + "." + f.Field.Name() }
		// receivers
		if u.ByValue {
			for _, x := range []struct {
				f   *types.Func
				bad bool
			}{{c.MX, c.pMX}, {c.MT, c.pMT}, {c.MA, c.pMA}, {c.ZERO, c.pZERO}} {
				if x.f != nil && x.bad {
					r.fail("codec-receiver", name+"."+x.f.Name(), p.Pos(x.f.Pos()), "%s is declared on *%s but %s holds the type by value: the encoder does not find the method and writes the value differently from how it is read", x.f.Name(), name, at(u.ValueAt))
				}
			}
		}
		for _, x := range []struct {
			f   *types.Func
			bad bool
		}{{c.UX, c.vUX}, {c.UT, c.vUT}, {c.UA, c.vUA}} {
			if x.f != nil && x.bad {
				if _, ok := u.T.Underlying().(*types.Map); !ok {
					r.fail("codec-receiver", name+"."+x.f.Name(), p.Pos(x.f.Pos()), "%s is declared on the value %s: what it parses is discarded", x.f.Name(), name)
				}
			}
		}
		if u.Elem {
			e, d := p.encForm(c), p.decForm(c)
			r.Units["element_pairs"]++
			key := name + " element"
			switch {
			case e == d && e != "?", e == "S" && d == "T", e == "S" && d == "X", e == "X" && d == "X", e == "T" && d == "X", e == "R" && d == "X", e == "L" && d == "X":
				r.ok("%s: encoder form %s, decoder form %s", name, e, d)
			case e == "X" && (d == "T" || d == "S"):
				if fn := p.fnOf(c.MX); fn != nil && !p.writesValue(fn) {
					r.fail("codec-pair", key, pos, "MarshalXMP of %s does not write the node's text but the decoder only reads text", name)
				} else {
					r.ok("%s: custom encoder writes the text the decoder reads", name)
				}
			case e == "X" && (d == "R" || d == "L"):
				r.undecided("%s: custom encoder, decoder form %s", name, d)
			case e == "T" && d == "S":
				r.fail("codec-pair", key, pos, "%s is written through MarshalText but has no UnmarshalText/UnmarshalXMP to read it back (reached from %s)", name, at(u.At))
			case d == "?":
				r.fail("codec-pair", key, pos, "%s is written as a list but the decoder has no way to read it: its content is dropped on decode (reached from %s)", name, at(u.At))
			default:
				r.fail("codec-pair", key, pos, "the encoder writes %s as %s but the decoder reads it as %s, so what was written is lost or rejected on the next decode (reached from %s)", name, formName(e), formName(d), at(u.At))
			}
			checkArrayKinds(p, r, ce, c, name)
			checkDelegates(p, r, c, name)
		}
		if u.Attr {
			r.Units["attribute_pairs"]++
			enc := c.MA != nil || c.MT != nil || isSimple(u.T)
			dec := c.UA != nil || c.UT != nil || isSimple(u.T)
			textual := c.MA == nil && c.MT != nil && c.UA == nil && c.UT == nil && !isStringish(u.T)
			switch {
			case !enc:
				r.fail("codec-attr", name+" attribute", pos, "field %s is an attribute but %s can not be written as one: encoding a document that sets it fails", at(u.AttrAt), name)
			case !dec || textual:
				r.fail("codec-attr", name+" attribute", pos, "attribute field %s of type %s is written as text that the decoder can not read back", at(u.AttrAt), name)
			default:
				r.ok("%s attribute (%s)", name, at(u.AttrAt))
			}
		}
	}
	// pairs must be complete even where no field uses the type
	for _, n := range p.NamedTypes() {
		if types.IsInterface(n) || !p.libType(n) {
			continue
		}
		c := codecOf(n)
		if c.MX != nil || c.UX != nil {
			r.Units["xmp_codecs"]++
			checkArrayKinds(p, r, ce, c, p.TName(n))
			checkDelegates(p, r, c, p.TName(n))
		}
		if c.MJ != nil && c.UJ == nil && !isSimple(n) {
			r.fail("codec-json", p.TName(n), p.Pos(n.Obj().Pos()), "%s has MarshalJSON without UnmarshalJSON", p.TName(n))
		}
		if c.UJ != nil && c.MJ == nil && c.MT == nil {
			r.fail("codec-json", p.TName(n), p.Pos(n.Obj().Pos()), "%s has UnmarshalJSON without MarshalJSON", p.TName(n))
		}
	}
	r.need("types", 120)
	r.need("element_pairs", 100)
	r.need("attribute_pairs", 10)
	r.need("array_kinds", 30)
}

func isStringish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 || isByteSlice(t)
}

func formName(f string) string {
	switch f {
	case "L":
		return "a list"
	case "R":
		return "a structure"
	case "T", "S":
		return "text"
	case "X":
		return "custom content"
	}
	return "nothing"
}

func checkArrayKinds(p *Prog, r *Result, ce *consteval, c *codec, name string) {
	kinds := func(f *types.Func, target string, i int) (map[string]bool, bool) {
		out := map[string]bool{}
		known := true
		fn := p.fnOf(f)
		if fn == nil {
			return out, true
		}
		for _, k := range p.callsTo(fn, target, 2) {
			a := k.Common().Args
			if i < len(a) {
				if v := ce.eval(a[i], &env{}); v != nil && v.k != nil {
					out[v.k.ExactString()] = true
				} else {
					known = false
				}
			}
		}
		return out, known
	}
	m, k1 := kinds(c.MX, "MarshalArray", 2)
	u, k2 := kinds(c.UX, "UnmarshalArray", 2)
	if len(m) == 0 && len(u) == 0 {
		return
	}
	r.Units["array_kinds"]++
	if !k1 || !k2 {
		r.undecided("%s: array kind not constant", name)
		return
	}
	alt := false
	if sl, ok := c.T.Underlying().(*types.Slice); ok {
		if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "AltItem" {
			alt = true
		}
	}
	decl := map[string]bool{}
	if tf, _ := methodOf(c.T, "Typ"); tf != nil {
		if fn := p.fnOf(tf); fn != nil {
			for _, v := range ce.returns(fn, &env{}, 0) {
				if v != nil && v.k != nil {
					decl[v.k.ExactString()] = true
				}
			}
		}
	}
	if len(m) > 0 && len(decl) > 0 && !sameKeys(m, decl) {
		r.fail("codec-array-kind", name, p.Pos(c.MX.Pos()), "%s declares array kind %v but is written as %v", name, keysOf(decl), keysOf(m))
		return
	}
	if alt && len(m) > 0 && len(u) > 0 && !sameKeys(m, u) {
		r.fail("codec-array-kind", name, p.Pos(c.UX.Pos()), "%s is written as array kind %v but read as %v: languages are lost", name, keysOf(m), keysOf(u))
		return
	}
	r.ok("%s: array kind %v", name, keysOf(m))
}

func sameKeys(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func checkDelegates(p *Prog, r *Result, c *codec, name string) {
	for _, x := range []struct {
		f      *types.Func
		target string
		method string
	}{{c.MX, "EncodeElement", "MarshalXMP"}, {c.UX, "DecodeElement", "UnmarshalXMP"}} {
		fn := p.fnOf(x.f)
		if fn == nil {
			continue
		}
		for _, k := range p.callsTo(fn, x.target, 2) {
			a := k.Common().Args
			t := ifaceArgType(a[len(a)-2])
			if t == nil {
				continue
			}
			if g, _ := methodOf(ptrElem(t), x.method); g == x.f {
				r.fail("codec-self-delegate", name+"."+x.method, p.InstrPos(k.(ssa.Instruction)), "%s.%s passes itself to %s, which calls it again without end", name, x.method, x.target)
			} else {
				r.ok("%s.%s delegates to %s", name, x.method, p.TName(t))
			}
			if types.Identical(ptrElem(t).Underlying(), c.T.Underlying()) || sameTags(t, c.T) {
				continue
			}
			if st, ok := c.T.Underlying().(*types.Struct); ok && st.NumFields() > 0 && types.IdenticalIgnoreTags(ptrElem(t).Underlying(), c.T.Underlying()) {
				r.fail("codec-delegate-tags", name+"."+x.method, p.InstrPos(k.(ssa.Instruction)), "%s.%s delegates to a type whose tags differ from %s", name, x.method, name)
			}
		}
	}
}
