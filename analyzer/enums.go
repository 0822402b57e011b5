package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// C20: names of enumerated values and parts of composite values are written
// and read alike.

func init() { register("C20", checkEnums) }

type enumConst struct {
	name  string
	val   constant.Value
	alias bool // defined in terms of other constants
	pos   token.Pos
}

type enumType struct {
	n      *types.Named
	consts []enumConst
}

type nameEntry struct {
	lit string
	val constant.Value
	pos string
}

type nameTable struct {
	what    string
	n       *types.Named
	parse   bool
	entries []nameEntry
	open    bool // other texts are converted as they are
	pos     string
	owner   string
}

type enumAn struct {
	p     *Prog
	r     *Result
	types map[*types.Named]*enumType
}

func checkEnums(p *Prog, r *Result) {
	r.Explain = "Rule distinct: constants of one enumeration that are declared by literal values differ, and a constant whose value spells the name of another constant of the enumeration does not exist. Rule table: the tables that give names to values and values to names (switches and map literals, extracted from SSA) are complete and injective, agree with each other, and agree with the names of the constants where a name spells one. Rule branch: a yes-or-no condition that chooses between two constants of an enumeration does not choose the same one either way. Rule special: infinities and not-a-number are written under, and read from, the names that mean them. Rule parts: a composite text value is parsed in the order in which it is printed, part by part from the first. Everything is extracted by dataflow on SSA; nothing is executed."
	a := &enumAn{p: p, r: r, types: map[*types.Named]*enumType{}}
	a.collect()
	a.distinct()
	a.tables()
	a.branches()
	a.specials()
	a.parts()
	r.need("enumerations", 15)
	r.need("name tables", 4)
}

func normName(s string) string {
	var b strings.Builder
	for _, c := range s {
		if unicode.IsLetter(c) || unicode.IsDigit(c) {
			b.WriteRune(unicode.ToLower(c))
		}
	}
	return b.String()
}

// spells: the name of the constant, without the name of its type or the prefix
// all of its enumeration share.
func (e *enumType) spells(c enumConst) string {
	pre := e.n.Obj().Name()
	if !strings.HasPrefix(c.name, pre) {
		pre = e.prefix()
	}
	return normName(strings.TrimPrefix(c.name, pre))
}

func (e *enumType) prefix() string {
	if len(e.consts) < 3 {
		return ""
	}
	pre := e.consts[0].name
	for _, c := range e.consts {
		for !strings.HasPrefix(c.name, pre) {
			pre = pre[:len(pre)-1]
		}
	}
	for pre != "" && len(pre) < len(e.consts[0].name) && !unicode.IsUpper(rune(e.consts[0].name[len(pre)])) {
		// back to a word boundary
		pre = pre[:len(pre)-1]
	}
	return pre
}

func (a *enumAn) collect() {
	for _, pk := range a.p.Pkgs {
		if !a.p.libPkg(pk) {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.CONST {
					continue
				}
				for _, sp := range g.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, id := range vs.Names {
						c, ok := pk.TypesInfo.Defs[id].(*types.Const)
						if !ok || id.Name == "_" {
							continue
						}
						n, ok := c.Type().(*types.Named)
						if !ok || n.Obj().Pkg() != pk.Types {
							continue
						}
						alias := false
						if i < len(vs.Values) {
							ast.Inspect(vs.Values[i], func(x ast.Node) bool {
								if y, ok := x.(*ast.Ident); ok {
									if k, ok := pk.TypesInfo.Uses[y].(*types.Const); ok && k.Name() != "iota" {
										alias = true
									}
								}
								return true
							})
						}
						a.add(n, enumConst{id.Name, c.Val(), alias, id.Pos()})
					}
				}
			}
			// untyped constants used as keys of a map from a named type
			ast.Inspect(f, func(x ast.Node) bool {
				cl, ok := x.(*ast.CompositeLit)
				if !ok {
					return true
				}
				m, ok := pk.TypesInfo.TypeOf(cl).Underlying().(*types.Map)
				if !ok {
					return true
				}
				n, ok := m.Key().(*types.Named)
				if !ok || n.Obj().Pkg() != pk.Types {
					return true
				}
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					if id, ok := kv.Key.(*ast.Ident); ok {
						if c, ok := pk.TypesInfo.Uses[id].(*types.Const); ok && c.Type() != types.Type(n) {
							for _, o := range siblings(pk, c) {
								a.add(n, enumConst{o.Name(), o.Val(), false, o.Pos()})
							}
						}
					}
				}
				return true
			})
		}
	}
}

func (a *enumAn) add(n *types.Named, c enumConst) {
	e := a.types[n]
	if e == nil {
		e = &enumType{n: n}
		a.types[n] = e
	}
	for _, o := range e.consts {
		if o.name == c.name {
			return
		}
	}
	e.consts = append(e.consts, c)
}

func (a *enumAn) sorted() []*enumType {
	var l []*enumType
	for _, e := range a.types {
		if len(e.consts) > 1 {
			l = append(l, e)
		}
	}
	sort.Slice(l, func(i, j int) bool { return a.p.TName(l[i].n) < a.p.TName(l[j].n) })
	return l
}

func constText(v constant.Value) (string, bool) {
	if v.Kind() == constant.String {
		return constant.StringVal(v), true
	}
	return "", false
}

func (a *enumAn) distinct() {
	for _, e := range a.sorted() {
		a.r.Units["enumerations"]++
		tn := a.p.TName(e.n)
		ok := true
		for i, c := range e.consts {
			for _, d := range e.consts[:i] {
				if !c.alias && !d.alias && constant.Compare(c.val, token.EQL, d.val) {
					ok = false
					a.r.fail("distinct", tn+": "+c.name+", "+d.name, a.p.Pos(c.pos), "the constants %s and %s of %s have the same value %s", c.name, d.name, tn, c.val)
				}
			}
			if s, isText := constText(c.val); isText && normName(s) != "" {
				for _, d := range e.consts {
					if d.name != c.name && e.spells(d) == normName(s) && e.spells(c) != normName(s) && !constant.Compare(c.val, token.EQL, d.val) {
						ok = false
						a.r.fail("distinct", tn+": "+c.name+", "+d.name, a.p.Pos(c.pos), "the constant %s of %s has the value %q, which is the name of %s", c.name, tn, s, d.name)
					}
				}
			}
		}
		if ok {
			a.r.ok("distinct: %s: %d constants with distinct values", tn, len(e.consts))
		}
	}
}

// constOf: v is a constant of type n.
func constOf(v ssa.Value, n *types.Named) constant.Value {
	if c, ok := strip(v).(*ssa.Const); ok && c.Value != nil && (namedOf(c.Type()) == n || namedOf(v.Type()) == n) {
		return c.Value
	}
	return nil
}

// produced: what the block that a test branches to gives: a constant returned,
// stored or selected, possibly after jumps.
func produced(from, b *ssa.BasicBlock, want func(v ssa.Value) constant.Value) constant.Value {
	for n := 0; n < 4; n++ {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == from {
						if k := want(x.Edges[i]); k != nil {
							return k
						}
					}
				}
			case *ssa.Store:
				if k := want(x.Val); k != nil {
					return k
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if k := want(v); k != nil {
						return k
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					continue
				}
				for _, v := range x.Call.Args {
					if k := want(v); k != nil {
						return k
					}
				}
			case *ssa.Convert:
				if k := want(x.X); k != nil {
					return k
				}
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Jump); !ok || len(b.Succs) != 1 {
			return nil
		}
		from, b = b, b.Succs[0]
	}
	return nil
}

func (a *enumAn) tables() {
	byType := map[*types.Named][]*nameTable{}
	for _, f := range a.p.LibFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		for _, t := range a.switches(f) {
			byType[t.n] = append(byType[t.n], t)
		}
	}
	for _, t := range a.mapTables() {
		byType[t.n] = append(byType[t.n], t)
	}
	var l []*types.Named
	for n := range byType {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return a.p.TName(l[i]) < a.p.TName(l[j]) })
	for _, n := range l {
		a.judge(n, byType[n])
	}
}

// specials: the names under which infinities and not-a-number are written
// and read mean that value.
func (a *enumAn) specials() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			iff, ok := in.(*ssa.If)
			if !ok {
				return
			}
			cond, to := iff.Cond, iff.Block().Succs[0]
			if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
				cond, to = n.X, iff.Block().Succs[1]
			}
			switch c := cond.(type) {
			case *ssa.Call:
				// a value is named
				want, ok := specialTest(c)
				if !ok {
					return
				}
				v := produced(iff.Block(), to, func(v ssa.Value) constant.Value {
					if s, ok := strConst(v); ok && specialName(s) != "" {
						return constant.MakeString(s)
					}
					return nil
				})
				if v == nil {
					return
				}
				a.r.Units["special numbers"]++
				s := constant.StringVal(v)
				if got := specialName(s); got != want {
					if got != "NaN" && want == infName(0) && signTested(f) {
						return
					}
					a.r.fail("special", a.p.FName(f)+": "+want, a.p.InstrPos(iff), "%s is written as %s, which means %s", want, s, got)
					return
				}
				a.r.ok("%s: %s is written as %s", a.p.FName(f), want, s)
			case *ssa.BinOp:
				// a name is read
				if c.Op == token.NEQ {
					to = iff.Block().Succs[1]
				} else if c.Op != token.EQL {
					return
				}
				s, ok := strConst(c.Y)
				if !ok {
					s, ok = strConst(c.X)
				}
				want := ""
				if ok {
					want = specialName(s)
				}
				if want == "" {
					return
				}
				v := produced(iff.Block(), to, func(v ssa.Value) constant.Value {
					if c, ok := peel(v).(*ssa.Call); ok {
						if s := specialValue(c); s != "" {
							return constant.MakeString(s)
						}
					}
					return nil
				})
				if v == nil {
					return
				}
				a.r.Units["special numbers"]++
				if got := constant.StringVal(v); got != want {
					a.r.fail("special", a.p.FName(f)+": "+s, a.p.InstrPos(c), "the name %q, which means %s, is read as %s", s, want, got)
					return
				}
				a.r.ok("%s: %q is read as %s", a.p.FName(f), s, want)
			}
		})
	}
}

// specialName: the infinity, or not-a-number, that a text means.
func specialName(s string) string {
	v, err := strconv.ParseFloat(strings.Trim(s, "\" "), 64)
	if err != nil {
		return ""
	}
	switch {
	case math.IsNaN(v):
		return "NaN"
	case math.IsInf(v, 1):
		return "+Inf"
	case math.IsInf(v, -1):
		return "-Inf"
	}
	return ""
}

func specialTest(c *ssa.Call) (string, bool) {
	pkg, name := extCallee(&c.Call)
	if pkg != "math" {
		return "", false
	}
	switch name {
	case "IsNaN":
		return "NaN", true
	case "IsInf":
		if k, ok := intConst(c.Call.Args[1]); ok {
			return infName(k), true
		}
	}
	return "", false
}

func specialValue(c *ssa.Call) string {
	pkg, name := extCallee(&c.Call)
	if pkg != "math" {
		return ""
	}
	switch name {
	case "NaN":
		return "NaN"
	case "Inf":
		if k, ok := intConst(c.Call.Args[0]); ok {
			if k == 0 {
				k = 1
			}
			return infName(k)
		}
	}
	return ""
}

// signTested: f asks for the sign of a float.
func signTested(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if floatWidth(x.X.Type()) > 0 {
					found = true
				}
			}
		case *ssa.Call:
			switch pkg, name := extCallee(&x.Call); {
			case pkg == "math" && name == "Signbit":
				found = true
			case pkg == "math" && name == "IsInf":
				if k, ok := intConst(x.Call.Args[1]); ok && k != 0 {
					found = true
				}
			}
		}
	})
	return found
}

func infName(k int64) string {
	switch {
	case k > 0:
		return "+Inf"
	case k < 0:
		return "-Inf"
	}
	return "an infinity of either sign"
}

// switches: the name tables f holds as comparisons.
func (a *enumAn) switches(f *ssa.Function) []*nameTable {
	tabs := map[string]*nameTable{}
	var order []string
	eachInstr(f, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.EQL || b.Referrers() == nil {
			return
		}
		var iff *ssa.If
		for _, r := range *b.Referrers() {
			if x, ok := r.(*ssa.If); ok {
				iff = x
			}
		}
		if iff == nil {
			return
		}
		x, k := b.X, b.Y
		if _, ok := x.(*ssa.Const); ok {
			x, k = k, x
		}
		kc, ok := k.(*ssa.Const)
		if !ok || kc.Value == nil {
			return
		}
		if _, ok := x.(*ssa.BinOp); ok {
			return // a test of flags
		}
		from, to := iff.Block(), iff.Block().Succs[0]
		put := func(n *types.Named, parse bool, lit string, v constant.Value) {
			key := fmt.Sprint(a.p.TName(n), parse)
			t := tabs[key]
			if t == nil {
				t = &nameTable{n: n, parse: parse, pos: a.p.Pos(f.Pos()), owner: a.p.FName(f), what: a.p.FName(f)}
				tabs[key] = t
				order = append(order, key)
			}
			t.entries = append(t.entries, nameEntry{lit, v, a.p.Pos(b.Pos())})
		}
		// a value is named
		if n := namedOf(x.Type()); n != nil && a.types[n] != nil && len(a.types[n].consts) > 2 {
			if _, isText := constText(kc.Value); !isText {
				v := produced(from, to, func(v ssa.Value) constant.Value {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						return c.Value
					}
					return nil
				})
				if v != nil {
					put(n, false, constant.StringVal(v), kc.Value)
				}
				return
			}
		}
		// a name is read
		lit, isText := constText(kc.Value)
		if !isText {
			return
		}
		for _, n := range a.results(f) {
			v := produced(from, to, func(v ssa.Value) constant.Value { return constOf(v, n) })
			if v != nil {
				put(n, true, lit, v)
				return
			}
		}
	})
	var out []*nameTable
	for _, k := range order {
		t := tabs[k]
		if len(t.entries) < 2 {
			continue
		}
		t.open = a.converts(f, t.n)
		out = append(out, t)
	}
	return out
}

// results: the enumerations f can produce.
func (a *enumAn) results(f *ssa.Function) []*types.Named {
	var out []*types.Named
	add := func(t types.Type) {
		n := namedOf(deref(t))
		if n == nil {
			return
		}
		if a.types[n] != nil || types.Identical(n.Underlying(), types.Typ[types.Bool]) && a.p.libType(n) {
			out = append(out, n)
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		add(res.At(i).Type())
	}
	if f.Signature.Recv() != nil {
		add(f.Signature.Recv().Type())
	}
	return out
}

// converts: f also yields texts converted as they are.
func (a *enumAn) converts(f *ssa.Function, n *types.Named) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.ChangeType:
			found = found || namedOf(x.Type()) == n
		case *ssa.Convert:
			found = found || namedOf(x.Type()) == n
		}
	})
	return found
}

// mapTables: map literals of package variables between texts and enumerations.
func (a *enumAn) mapTables() []*nameTable {
	var out []*nameTable
	for _, pk := range a.p.Pkgs {
		if !a.p.libPkg(pk) {
			continue
		}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				cl, ok := x.(*ast.CompositeLit)
				if !ok {
					return true
				}
				m, ok := pk.TypesInfo.TypeOf(cl).Underlying().(*types.Map)
				if !ok {
					return true
				}
				isText := func(t types.Type) bool {
					b, ok := t.(*types.Basic)
					return ok && b.Kind() == types.String
				}
				var n *types.Named
				parse := false
				switch {
				case isText(m.Elem()) && namedOf(m.Key()) != nil && a.types[namedOf(m.Key())] != nil:
					n = namedOf(m.Key())
				case isText(m.Key()) && namedOf(m.Elem()) != nil && a.types[namedOf(m.Elem())] != nil:
					n, parse = namedOf(m.Elem()), true
				default:
					return true
				}
				t := &nameTable{n: n, parse: parse, pos: a.p.Pos(cl.Pos()), owner: a.p.TName(n) + " map", what: "the table of " + a.p.TName(n)}
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					kt, vt := pk.TypesInfo.Types[kv.Key].Value, pk.TypesInfo.Types[kv.Value].Value
					if kt == nil || vt == nil {
						continue
					}
					if parse {
						kt, vt = vt, kt
					}
					if s, ok := constText(vt); ok {
						t.entries = append(t.entries, nameEntry{s, kt, a.p.Pos(kv.Pos())})
					}
				}
				if len(t.entries) > 1 {
					out = append(out, t)
				}
				return true
			})
		}
	}
	return out
}

func sameConst(x, y constant.Value) bool {
	if x.Kind() == constant.Bool || y.Kind() == constant.Bool {
		return x.Kind() == y.Kind() && constant.BoolVal(x) == constant.BoolVal(y)
	}
	if (x.Kind() == constant.String) != (y.Kind() == constant.String) {
		return false
	}
	return constant.Compare(x, token.EQL, y)
}

func (a *enumAn) judge(n *types.Named, tabs []*nameTable) {
	e := a.types[n]
	tn := a.p.TName(n)
	if e == nil {
		e = &enumType{n: n, consts: []enumConst{{"true", constant.MakeBool(true), false, n.Obj().Pos()}, {"false", constant.MakeBool(false), false, n.Obj().Pos()}}}
	}
	printed := map[string]constant.Value{}
	for _, t := range tabs {
		if !t.parse {
			for _, x := range t.entries {
				if x.lit != "" {
					printed[x.lit] = x.val
				}
			}
		}
	}
	for _, t := range tabs {
		a.r.Units["name tables"]++
		a.r.Units["names"] += len(t.entries)
		good := true
		fail := func(pos, what, msg string, args ...interface{}) {
			good = false
			a.r.fail("table", t.owner+": "+what, pos, msg, args...)
		}
		byLit := map[string]constant.Value{}
		have := func(v constant.Value) bool {
			for _, x := range t.entries {
				if sameConst(x.val, v) {
					return true
				}
			}
			return false
		}
		for _, x := range t.entries {
			if o, ok := byLit[x.lit]; ok && !sameConst(o, x.val) && x.lit != "" {
				fail(x.pos, x.lit, "%s uses the name %q for two values (%s and %s) of %s", t.what, x.lit, o, x.val, tn)
			}
			byLit[x.lit] = x.val
			// the name of a constant
			for _, c := range e.consts {
				if e.spells(c) == normName(x.lit) && x.lit != "" && !sameConst(c.val, x.val) && !a.spelt(e, x.val, x.lit) {
					fail(x.pos, x.lit, "%s pairs the name %q with the value %s of %s instead of %s", t.what, x.lit, x.val, tn, c.name)
				}
			}
			if t.parse {
				// the text that the value is written as
				if v, ok := printed[x.lit]; ok && !sameConst(v, x.val) {
					fail(x.pos, x.lit, "%s reads %q as the value %s of %s, but it is the name written for %s", t.what, x.lit, x.val, tn, v)
				}
				if _, isText := constText(x.val); isText {
					for _, c := range e.consts {
						if s, _ := constText(c.val); s == x.lit && !sameConst(c.val, x.val) {
							fail(x.pos, x.lit, "%s reads %q as the value %s of %s instead of %s", t.what, x.lit, x.val, tn, c.name)
						}
					}
				}
			}
		}
		// completeness
		if t.parse && !t.open || !t.parse {
			for _, c := range e.consts {
				if have(c.val) || c.alias || !a.named(c, t, e) {
					continue
				}
				fail(t.pos, c.name, "%s has no entry for the value %s of %s", t.what, c.name, tn)
			}
		}
		// every name printed is read
		if t.parse && !t.open {
			for lit, v := range printed {
				if _, ok := byLit[lit]; !ok && have(v) {
					fail(t.pos, lit, "%s does not read %q, the name written for the value %s of %s", t.what, lit, v, tn)
				}
			}
			if len(printed) == 0 {
				for _, c := range e.consts {
					if s, ok := constText(c.val); ok && s != "" && have(c.val) {
						if _, ok := byLit[s]; !ok && !qualified(byLit, s, c.val) {
							fail(t.pos, c.name, "%s does not read %q, the text of %s of %s", t.what, s, c.name, tn)
						}
					}
				}
			}
		}
		if good {
			a.r.ok("table: %s (%s): %d names of %s agree with its constants and with the other tables", t.what, t.pos, len(t.entries), tn)
		}
	}
}

// spelt: some constant of this value spells the name as well.
func (a *enumAn) spelt(e *enumType, v constant.Value, lit string) bool {
	for _, c := range e.consts {
		if sameConst(c.val, v) && e.spells(c) == normName(lit) {
			return true
		}
	}
	return false
}

// named: the constant stands for a value with a name of its own.
func (a *enumAn) named(c enumConst, t *nameTable, e *enumType) bool {
	if s, ok := constText(c.val); ok {
		return s != ""
	}
	l := strings.ToLower(c.name)
	return !strings.HasSuffix(l, "invalid") && !strings.HasSuffix(l, "unknown") && !strings.HasSuffix(l, "undefined")
}

type partRead struct {
	k   int
	pos string
}

// parts: composite text values.
func (a *enumAn) parts() {
	for _, n := range a.p.NamedTypes() {
		if !a.p.libType(n) {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		print := a.method(n, "MarshalText")
		if print == nil {
			print = a.method(n, "String")
		}
		if print == nil {
			continue
		}
		order := a.printed(n, print, map[*ssa.Function]bool{})
		if len(order) < 2 {
			continue
		}
		for _, name := range []string{"UnmarshalText", "Parse", "Unpack"} {
			f := a.method(n, name)
			if f == nil {
				continue
			}
			reads := a.partReads(n, f, map[*ssa.Function]bool{})
			if len(reads) < 2 {
				continue
			}
			a.r.Units["composite values"]++
			ok := true
			var fields []int
			for fi := range reads {
				fields = append(fields, fi)
			}
			sort.Ints(fields)
			for _, fi := range fields {
				at := -1
				for i, x := range order {
					if x == fi {
						at = i
					}
				}
				for _, rd := range reads[fi] {
					if at >= 0 && rd.k != at {
						ok = false
						fn := n.Underlying().(*types.Struct).Field(fi).Name()
						a.r.fail("parts", a.p.TName(n)+": "+fn, rd.pos, "%s reads the field %s of %s from part %d of the text, but %s writes it as part %d", a.p.FName(f), fn, a.p.TName(n), rd.k+1, a.p.FName(print), at+1)
					}
				}
			}
			reading := punctuation(a.p, f, n, map[*ssa.Function]bool{})
			for c := range punctuation(a.p, print, n, map[*ssa.Function]bool{}) {
				if !reading[c] {
					ok = false
					a.r.fail("parts", a.p.TName(n)+": "+string(c), a.p.Pos(f.Pos()), "%s puts %q between the parts of %s, but %s does not look for it", a.p.FName(print), c, a.p.TName(n), a.p.FName(f))
				}
			}
			if ok {
				a.r.ok("parts: %s (%s): the %d parts of %s are read in the order they are written", a.p.FName(f), a.p.Pos(f.Pos()), len(reads), a.p.TName(n))
			}
		}
	}
}

func (a *enumAn) method(n *types.Named, name string) *ssa.Function {
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := types.NewMethodSet(t)
		if sel := ms.Lookup(n.Obj().Pkg(), name); sel != nil {
			if f, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
				return a.p.SSA.FuncValue(f)
			}
		}
	}
	return nil
}

// fieldIdx: v is field i of a value of type n.
func fieldIdx(v ssa.Value, n *types.Named) int {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if namedOf(deref(x.X.Type())) == n {
			return x.Field
		}
	case *ssa.Field:
		if namedOf(x.X.Type()) == n {
			return x.Field
		}
	}
	return -1
}

// printed: the fields of n that f writes, in order.
func (a *enumAn) printed(n *types.Named, f *ssa.Function, seen map[*ssa.Function]bool) []int {
	if f == nil || seen[f] || len(f.Blocks) == 0 {
		return nil
	}
	seen[f] = true
	type use struct {
		pos   token.Pos
		field int
	}
	var uses []use
	eachInstr(f, func(in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		if fi := fieldIdx(v, n); fi >= 0 && written(v, 0) {
			uses = append(uses, use{in.Pos(), fi})
		}
	})
	sort.SliceStable(uses, func(i, j int) bool { return uses[i].pos < uses[j].pos })
	var out []int
	for _, u := range uses {
		dup := false
		for _, o := range out {
			dup = dup || o == u.field
		}
		if !dup {
			out = append(out, u.field)
		}
	}
	if len(out) == 0 {
		// by another method of the type
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && len(out) == 0 {
				if g := c.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && namedOf(deref(g.Signature.Recv().Type())) == n && c.Type().String() != "bool" {
					out = a.printed(n, g, seen)
				}
			}
		})
	}
	return out
}

// written: the value becomes part of a text.
func written(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if written(x, d+1) {
				return true
			}
		case *ssa.Convert:
			if written(x, d+1) {
				return true
			}
		case *ssa.ChangeType:
			if written(x, d+1) {
				return true
			}
		case *ssa.MakeInterface:
			return true
		case *ssa.BinOp:
			if x.Op == token.ADD && isStringType(x.Type()) || (x.Op == token.REM || x.Op == token.QUO) && written(x, d+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
					return true
				}
			}
		case *ssa.Store:
			if x.Val == v {
				return true // an element of a list to join
			}
		}
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// partReads: the part of the text each field of n is read from.
func (a *enumAn) partReads(n *types.Named, f *ssa.Function, seen map[*ssa.Function]bool) map[int][]partRead {
	out := map[int][]partRead{}
	if f == nil || seen[f] || len(f.Blocks) == 0 {
		return out
	}
	seen[f] = true
	put := func(fi, k int, in ssa.Instruction) {
		if fi >= 0 && k >= 0 {
			out[fi] = append(out[fi], partRead{k, a.p.InstrPos(in)})
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			fi := fieldIdx(x.Addr, n)
			if fi < 0 {
				return
			}
			if k := partOf(x.Val, 0); k >= 0 {
				put(fi, k, in)
				return
			}
			if usesParts(x.Val, 0) {
				put(fi, caseOf(x.Block()), in)
			}
		case *ssa.Call:
			if pkg, name := extCallee(&x.Call); pkg == "fmt" && (name == "Sscanf" || name == "Sscan" || name == "Sscanln") {
				args := x.Call.Args
				if sl, ok := args[len(args)-1].(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok && al.Referrers() != nil {
						for _, r := range *al.Referrers() {
							ia, ok := r.(*ssa.IndexAddr)
							if !ok || ia.Referrers() == nil {
								continue
							}
							k, isK := intConst(ia.Index)
							for _, q := range *ia.Referrers() {
								if st, ok := q.(*ssa.Store); ok && isK {
									put(fieldIdx(peel(st.Val), n), int(k), in)
								}
							}
						}
					}
				}
			}
		}
	})
	if len(out) == 0 {
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && len(out) == 0 {
				if g := c.Call.StaticCallee(); g != nil && a.p.InModule(g) && g.Pkg == f.Pkg {
					out = a.partReads(n, g, seen)
				}
			}
		})
	}
	return out
}

// splits: v is a list of parts of a text.
func splits(v ssa.Value) bool {
	c, ok := strip(v).(*ssa.Call)
	if !ok {
		return false
	}
	pkg, name := extCallee(&c.Call)
	return pkg == "strings" && (name == "Split" || name == "SplitN" || name == "Fields" || name == "FieldsFunc") || pkg == "bytes" && (name == "Split" || name == "SplitN" || name == "Fields")
}

// partOf: v is made from part k of a text.
func partOf(v ssa.Value, d int) int {
	if d > 8 {
		return -1
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && splits(ia.X) {
			if k, ok := intConst(ia.Index); ok {
				return int(k)
			}
			return -1
		}
		return -1
	case *ssa.Extract:
		return partOf(x.Tuple, d+1)
	case *ssa.Convert:
		return partOf(x.X, d+1)
	case *ssa.ChangeType:
		return partOf(x.X, d+1)
	case *ssa.Call:
		for _, y := range x.Call.Args {
			if k := partOf(y, d+1); k >= 0 {
				return k
			}
		}
	}
	return -1
}

// usesParts: v is made from some part of a text.
func usesParts(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		return ok && splits(ia.X)
	case *ssa.Extract:
		return usesParts(x.Tuple, d+1)
	case *ssa.Convert:
		return usesParts(x.X, d+1)
	case *ssa.ChangeType:
		return usesParts(x.X, d+1)
	case *ssa.Call:
		for _, y := range x.Call.Args {
			if usesParts(y, d+1) {
				return true
			}
		}
	}
	return false
}

// caseOf: the block runs only for this position.
func caseOf(b *ssa.BasicBlock) int {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != d {
			continue
		}
		if c, ok := iff.Cond.(*ssa.BinOp); ok && c.Op == token.EQL && isIntType(c.X.Type()) {
			if k, ok := intConst(c.Y); ok {
				return int(k)
			}
		}
	}
	return -1
}

func (p *Prog) libPkg(pk *packages.Package) bool {
	path := strings.TrimPrefix(pk.PkgPath, p.ModPath+"/")
	return path == "xmp" || strings.HasPrefix(path, "models")
}

// qualified: the text is read with a namespace prefix.
func qualified(byLit map[string]constant.Value, s string, v constant.Value) bool {
	for lit, w := range byLit {
		if i := strings.Index(lit, ":"); i > 0 && lit[i+1:] == s && sameConst(v, w) {
			return true
		}
	}
	return false
}

// branches: a flag that chooses the same constant either way.
func (a *enumAn) branches() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			iff, ok := in.(*ssa.If)
			if !ok {
				return
			}
			if b, ok := iff.Cond.(*ssa.BinOp); ok && !isBoolType(b.X.Type()) {
				return
			}
			if _, ok := iff.Cond.(*ssa.Const); ok {
				return
			}
			for _, n := range a.results(f) {
				if a.types[n] == nil {
					continue
				}
				want := func(v ssa.Value) constant.Value { return constOf(v, n) }
				b := iff.Block()
				x, y := produced(b, b.Succs[0], want), produced(b, b.Succs[1], want)
				if x == nil || y == nil {
					continue
				}
				a.r.Units["flags choosing constants"]++
				if sameConst(x, y) {
					a.r.fail("branch", a.p.FName(f)+": "+x.String(), a.p.InstrPos(in), "%s gives %s of %s whether the condition holds or not", a.p.FName(f), x, a.p.TName(n))
				} else {
					a.r.ok("branch: %s (%s): chooses between %s and %s", a.p.FName(f), a.p.InstrPos(in), x, y)
				}
			}
		})
	}
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// punctuation: the separators among the constants f uses, apart from messages.
func punctuation(p *Prog, f *ssa.Function, n *types.Named, seen map[*ssa.Function]bool) map[rune]bool {
	out := map[rune]bool{}
	if f == nil || seen[f] || len(f.Blocks) == 0 {
		return out
	}
	seen[f] = true
	text := func(s string) {
		for i, c := range s {
			if i > 0 && s[i-1] == '%' || c == '%' {
				continue
			}
			if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !unicode.IsSpace(c) {
				out[c] = true
			}
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if pkg, name := extCallee(&c.Call); pkg == "fmt" && name == "Errorf" || pkg == "errors" {
				return
			}
			if g := c.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg && p.InModule(g) {
				if g.Signature.Recv() == nil || namedOf(deref(g.Signature.Recv().Type())) == n {
					for k := range punctuation(p, g, n, seen) {
						out[k] = true
					}
				}
			}
		}
		for _, op := range in.Operands(nil) {
			c, ok := (*op).(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			if s, ok := constText(c.Value); ok {
				text(s)
			} else if b, ok := c.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8 || b.Kind() == types.UntypedRune) {
				if k, ok := intConst(c); ok && k > 32 && k < 127 {
					text(string(rune(k)))
				}
			}
		}
	})
	return out
}

// peel: v without conversions.
func peel(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// siblings: the constants declared together with c and of its type.
func siblings(pk *packages.Package, c *types.Const) []*types.Const {
	out := []*types.Const{c}
	for _, f := range pk.Syntax {
		if f.Pos() > c.Pos() || f.End() < c.Pos() {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST || g.Pos() > c.Pos() || g.End() < c.Pos() {
				continue
			}
			for _, sp := range g.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					if o, ok := pk.TypesInfo.Defs[id].(*types.Const); ok && o != c && id.Name != "_" && types.Identical(o.Type(), c.Type()) {
						out = append(out, o)
					}
				}
			}
		}
	}
	return out
}
