package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: the tag accessors of a model agree.
//
// The tests a model makes on a tag (its length, prefixes, equality with
// constants) divide the tags into finitely many classes. For one tag of every
// class each accessor's conditions are folded, which leaves the paths it takes
// for such tags; what is compared is which part of the model they lead to,
// under which key, and what goes in and comes out.

func init() { register("C21", checkTagAccess) }

var tagAccessors = []string{"CanTag", "GetTag", "SetTag", "GetLocaleTag", "SetLocaleTag"}

type taPart struct {
	typ   string // type of the part
	field string // path from the receiver, when known
	key   string
	lang  string
	value bool // the value given is handed on
	call  *ssa.CallCommon
	in    ssa.Instruction
}

type taPath struct {
	parts  []taPart
	nils   []string // parts found to be missing
	ret    *ssa.Return
	errs   map[ssa.Value]bool // error is nil
	prev   map[*ssa.BasicBlock]*ssa.BasicBlock
	over   bool
	direct bool // the path was decided by the tag or by errors and missing parts only
}

type taAn struct {
	p    *Prog
	r    *Result
	memo map[string][]*taPath
	took map[string]bool // conditions that held for some tag
	keys map[*ssa.Function]map[string]bool
}

func checkTagAccess(p *Prog, r *Result) {
	r.Explain = "The tests that the accessors CanTag, GetTag, SetTag, GetLocaleTag and SetLocaleTag of a model make on a tag divide the tags into finitely many classes. For a representative of each class the conditions are folded over SSA and all remaining paths of each accessor are compared. Rule part: they lead to the same part of the model. Rule key: under the same key. Rule known: CanTag says so exactly for tags that are read and set. Rule own: a tag or prefix named in an accessor reaches the case made for it. Rule value: what is set is the value given, for the language given. Rule result: what is returned is what was read. Rule sense: CanTag reports success as success. Rule field: GetNativeField, SetNativeField, GetLocaleField and SetLocaleField look up the field by the same name in the same structure and namespace."
	r.Assume = append(r.Assume, "a part of a model is recognised by its type")
	a := &taAn{p: p, r: r, memo: map[string][]*taPath{}, took: map[string]bool{}, keys: map[*ssa.Function]map[string]bool{}}
	for _, n := range p.NamedTypes() {
		if p.libType(n) && !types.IsInterface(n) {
			a.model(n)
		}
	}
	a.core()
	r.need("models", 15)
	r.need("accessors", 45)
	r.need("tag classes", 60)
}

func (a *taAn) role(f *ssa.Function, v *ssa.Parameter) string {
	i := prmIndex(f, v)
	if f.Signature.Recv() != nil {
		i--
	}
	if i < 0 {
		return "x"
	}
	l := []string{"tag", "value"}
	if strings.Contains(f.Name(), "Locale") {
		l = []string{"lang", "tag", "value"}
	}
	if i < len(l) {
		return l[i]
	}
	return "?"
}

// term describes how a value is made from the parameters.
func (a *taAn) term(f *ssa.Function, v ssa.Value, pt *taPath, role func(*ssa.Parameter) string, d int) string {
	if d > 12 {
		return "…"
	}
	rec := func(x ssa.Value) string { return a.term(f, x, pt, role, d+1) }
	switch x := v.(type) {
	case *ssa.Parameter:
		return role(x)
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Phi:
		if pt != nil {
			if e := pt.phi(x); e != nil {
				return rec(e)
			}
		}
		var l []string
		for _, e := range x.Edges {
			if e != v {
				l = append(l, rec(e))
			}
		}
		sort.Strings(l)
		return "phi(" + strings.Join(l, ",") + ")"
	case *ssa.Call:
		var l []string
		n := "call"
		if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
			l = append(l, rec(x.Call.Value))
		} else if g := x.Call.StaticCallee(); g != nil {
			n = a.p.FName(g)
		} else if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			n = b.Name()
		}
		for _, y := range x.Call.Args {
			l = append(l, rec(y))
		}
		return n + "(" + strings.Join(l, ",") + ")"
	case *ssa.Extract:
		return rec(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.Slice:
		s := rec(x.X) + "["
		for _, y := range []ssa.Value{x.Low, x.High} {
			if y != nil {
				s += rec(y)
			}
			s += ":"
		}
		return s + "]"
	case *ssa.BinOp:
		return "(" + rec(x.X) + x.Op.String() + rec(x.Y) + ")"
	case *ssa.UnOp:
		return x.Op.String() + rec(x.X)
	case *ssa.FieldAddr:
		return rec(x.X) + fmt.Sprintf(".%d", x.Field)
	case *ssa.Field:
		return rec(x.X) + fmt.Sprintf(".%d", x.Field)
	case *ssa.IndexAddr:
		return rec(x.X) + "[" + rec(x.Index) + "]"
	case *ssa.Lookup:
		return rec(x.X) + "[" + rec(x.Index) + "]"
	case *ssa.Global:
		return x.String()
	case *ssa.Alloc:
		if s := soleStore(x); s != nil {
			return rec(s)
		}
		return "new " + a.p.TName(deref(x.Type()))
	}
	return v.Name()
}

func (pt *taPath) phi(x *ssa.Phi) ssa.Value {
	pb := pt.prev[x.Block()]
	if pb == nil {
		return nil
	}
	for i, q := range x.Block().Preds {
		if q == pb {
			return x.Edges[i]
		}
	}
	return nil
}

func mentions(term, word string) bool {
	for i := 0; ; {
		k := strings.Index(term[i:], word)
		if k < 0 {
			return false
		}
		k += i
		e := k + len(word)
		isW := func(c byte) bool {
			return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		}
		if (k == 0 || !isW(term[k-1]) && term[k-1] != '.' && term[k-1] != '"') && (e == len(term) || !isW(term[e]) && term[e] != '"') {
			return true
		}
		i = e
	}
}

// folding of conditions on the tag

type taEnv struct {
	a   *taAn
	f   *ssa.Function
	tag string
	pt  *taPath
}

func (e *taEnv) str(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Parameter:
		if e.a.role(e.f, x) == "tag" {
			return e.tag, true
		}
	case *ssa.Const:
		return strConst(x)
	case *ssa.Phi:
		if y := e.pt.phi(x); y != nil {
			return e.str(y)
		}
	case *ssa.Convert:
		return e.str(x.X)
	case *ssa.ChangeType:
		return e.str(x.X)
	case *ssa.Slice:
		s, ok := e.str(x.X)
		if !ok {
			return "", false
		}
		lo, hi := int64(0), int64(len(s))
		if x.Low != nil {
			if lo, ok = e.num(x.Low); !ok {
				return "", false
			}
		}
		if x.High != nil {
			if hi, ok = e.num(x.High); !ok {
				return "", false
			}
		}
		if lo < 0 || hi > int64(len(s)) || lo > hi {
			return "", false
		}
		return s[lo:hi], true
	case *ssa.BinOp:
		if x.Op == token.ADD {
			s, ok := e.str(x.X)
			t, ok2 := e.str(x.Y)
			return s + t, ok && ok2
		}
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if pkg != "strings" {
			break
		}
		var l []string
		for _, y := range x.Call.Args {
			s, ok := e.str(y)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		switch name {
		case "ToLower":
			return strings.ToLower(l[0]), true
		case "ToUpper":
			return strings.ToUpper(l[0]), true
		case "TrimSpace":
			return strings.TrimSpace(l[0]), true
		case "TrimPrefix":
			return strings.TrimPrefix(l[0], l[1]), true
		case "TrimSuffix":
			return strings.TrimSuffix(l[0], l[1]), true
		}
	}
	return "", false
}

func (e *taEnv) num(v ssa.Value) (int64, bool) {
	if n, ok := intConst(v); ok {
		return n, true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if s, ok := e.str(x.Call.Args[0]); ok {
				return int64(len(s)), true
			}
		}
		if pkg, name := extCallee(&x.Call); pkg == "strings" && len(x.Call.Args) == 2 {
			s, ok := e.str(x.Call.Args[0])
			t, ok2 := e.str(x.Call.Args[1])
			if ok && ok2 {
				switch name {
				case "Index":
					return int64(strings.Index(s, t)), true
				case "LastIndex":
					return int64(strings.LastIndex(s, t)), true
				}
			}
		}
	case *ssa.BinOp:
		l, ok := e.num(x.X)
		m, ok2 := e.num(x.Y)
		if ok && ok2 {
			switch x.Op {
			case token.ADD:
				return l + m, true
			case token.SUB:
				return l - m, true
			}
		}
	case *ssa.Phi:
		if y := e.pt.phi(x); y != nil {
			return e.num(y)
		}
	}
	return 0, false
}

// cond: 1 true, 0 false, -1 not decided by the tag.
func (e *taEnv) cond(v ssa.Value) int {
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return b(constant.BoolVal(x.Value))
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if c := e.cond(x.X); c >= 0 {
				return 1 - c
			}
		}
	case *ssa.Phi:
		if y := e.pt.phi(x); y != nil {
			return e.cond(y)
		}
	case *ssa.Call:
		if pkg, name := extCallee(&x.Call); pkg == "strings" && len(x.Call.Args) == 2 {
			s, ok := e.str(x.Call.Args[0])
			t, ok2 := e.str(x.Call.Args[1])
			if !ok || !ok2 {
				return -1
			}
			switch name {
			case "HasPrefix":
				return b(strings.HasPrefix(s, t))
			case "HasSuffix":
				return b(strings.HasSuffix(s, t))
			case "Contains":
				return b(strings.Contains(s, t))
			case "EqualFold":
				return b(strings.EqualFold(s, t))
			}
		}
	case *ssa.BinOp:
		if s, ok := e.str(x.X); ok {
			if t, ok := e.str(x.Y); ok {
				switch x.Op {
				case token.EQL:
					return b(s == t)
				case token.NEQ:
					return b(s != t)
				case token.LSS:
					return b(s < t)
				case token.GTR:
					return b(s > t)
				}
			}
		}
		l, ok := e.num(x.X)
		m, ok2 := e.num(x.Y)
		if ok && ok2 {
			switch x.Op {
			case token.EQL:
				return b(l == m)
			case token.NEQ:
				return b(l != m)
			case token.LSS:
				return b(l < m)
			case token.LEQ:
				return b(l <= m)
			case token.GTR:
				return b(l > m)
			case token.GEQ:
				return b(l >= m)
			}
		}
	}
	return -1
}

// paths an accessor takes for a tag.
func (a *taAn) paths(f *ssa.Function, tag string) []*taPath {
	k := a.p.FName(f) + "\x00" + tag
	if l, ok := a.memo[k]; ok {
		return l
	}
	a.memo[k] = nil
	var out []*taPath
	steps := 0
	var walk func(b, from *ssa.BasicBlock, pt *taPath, seen map[*ssa.BasicBlock]int)
	walk = func(b, from *ssa.BasicBlock, pt *taPath, seen map[*ssa.BasicBlock]int) {
		steps++
		if steps > 20000 || seen[b] > 1 {
			return
		}
		// copies, as the path may branch
		n := &taPath{parts: append([]taPart(nil), pt.parts...), nils: append([]string(nil), pt.nils...), errs: map[ssa.Value]bool{}, prev: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
		for k, v := range pt.errs {
			n.errs[k] = v
		}
		for k, v := range pt.prev {
			n.prev[k] = v
		}
		s2 := map[*ssa.BasicBlock]int{}
		for k, v := range seen {
			s2[k] = v
		}
		s2[b]++
		if from != nil {
			n.prev[b] = from
		}
		e := &taEnv{a: a, f: f, tag: tag, pt: n}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				a.delegation(f, x, &x.Call, n, tag)
			case *ssa.Return:
				n.ret = x
				out = append(out, n)
				return
			case *ssa.If:
				c := e.cond(x.Cond)
				a.taken(f, x.Cond, e, c)
				if c >= 0 {
					walk(b.Succs[1-c], b, n, s2)
					return
				}
				// an error or a missing part
				if o, ok := x.Cond.(*ssa.BinOp); ok && (o.Op == token.EQL || o.Op == token.NEQ) && isNilConst(o.Y) {
					v := o.X
					if ph, ok := v.(*ssa.Phi); ok {
						if y := n.phi(ph); y != nil {
							v = y
						}
					}
					if isErrorType(o.X.Type()) {
						if isNilConst(v) {
							if o.Op == token.EQL {
								walk(b.Succs[0], b, n, s2)
							} else {
								walk(b.Succs[1], b, n, s2)
							}
							return
						}
						for i, s := range b.Succs {
							isNil := (i == 0) == (o.Op == token.EQL)
							if was, ok := n.errs[v]; ok && was != isNil {
								continue
							}
							m := *n
							m.errs = map[ssa.Value]bool{v: isNil}
							for k, w := range n.errs {
								m.errs[k] = w
							}
							walk(s, b, &m, s2)
						}
						return
					}
					if isPtr(o.X.Type()) {
						for i, s := range b.Succs {
							m := *n
							if (i == 0) == (o.Op == token.EQL) {
								m.nils = append(append([]string(nil), n.nils...), a.p.TName(deref(o.X.Type())))
							}
							walk(s, b, &m, s2)
						}
						return
					}
				}
				for _, s := range b.Succs {
					walk(s, b, n, s2)
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s, b, n, s2)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0], nil, &taPath{}, map[*ssa.BasicBlock]int{})
	}
	if steps > 20000 {
		a.r.undecided("%s: too many paths", a.p.FName(f))
	}
	a.memo[k] = out
	return out
}

// constants that the tag is compared with
type taConst struct {
	cond ssa.Value
	kind string // "eq", "prefix", "len"
	s    string
	n    int64
}

func (a *taAn) consts(f *ssa.Function) []taConst {
	var l []taConst
	isTag := func(v ssa.Value) bool {
		for {
			p, ok := v.(*ssa.Parameter)
			if ok {
				return a.role(f, p) == "tag"
			}
			ph, ok := v.(*ssa.Phi)
			if !ok || len(ph.Edges) == 0 {
				return false
			}
			v = ph.Edges[0]
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ && x.Op != token.LSS && x.Op != token.GTR && x.Op != token.LEQ && x.Op != token.GEQ {
				return
			}
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if s, ok := strConst(pr[1]); ok && isTag(pr[0]) && x.Op == token.EQL {
					l = append(l, taConst{x, "eq", s, 0})
				}
				if n, ok := intConst(pr[1]); ok {
					if c, ok := pr[0].(*ssa.Call); ok {
						if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isTag(c.Call.Args[0]) {
							l = append(l, taConst{x, "len", "", n})
						}
					}
				}
			}
		case *ssa.Call:
			if pkg, name := extCallee(&x.Call); pkg == "strings" && len(x.Call.Args) == 2 {
				for i := 0; i < 2; i++ {
					if s, ok := strConst(x.Call.Args[i]); ok && isTag(x.Call.Args[1-i]) {
						k := name
						if name == "HasPrefix" {
							k = "prefix"
							if i == 0 {
								k = "prefixof"
							}
						}
						l = append(l, taConst{x, k, s, 0})
					}
				}
			}
		}
	})
	return l
}

// taken records conditions that hold for some tag.
func (a *taAn) taken(f *ssa.Function, cond ssa.Value, e *taEnv, c int) {
	if c == 1 {
		a.took[a.condKey(f, cond)] = true
	}
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT && c == 0 {
		a.took[a.condKey(f, u.X)] = true
	}
	if ph, ok := cond.(*ssa.Phi); ok {
		if y := e.pt.phi(ph); y != nil {
			a.taken(f, y, e, c)
		}
	}
}

func (a *taAn) condKey(f *ssa.Function, c ssa.Value) string { return a.p.FName(f) + "\x00" + c.Name() }

// delegation: a call that reads or changes a part of the model.
func (a *taAn) delegation(f *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, pt *taPath, tag string) {
	g := c.StaticCallee()
	if g == nil && !c.IsInvoke() || g != nil && !a.p.InModule(g) {
		return
	}
	args := c.Args
	if c.IsInvoke() {
		if n := namedOf(c.Value.Type()); n == nil || !a.p.libType(n) {
			return
		}
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	role := func(x *ssa.Parameter) string { return a.role(f, x) }
	var part taPart
	part.call, part.in = c, in
	at := 0
	for _, x := range args {
		v := x
		for {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
				continue
			}
			if ci, ok := v.(*ssa.ChangeInterface); ok {
				v = ci.X
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok {
				if y := pt.phi(ph); y != nil {
					v = y
					continue
				}
			}
			break
		}
		n := namedOf(deref(v.Type()))
		if n != nil && isPtr(v.Type()) && a.p.libType(n) && part.typ == "" {
			if u, ok := v.(*ssa.UnOp); ok {
				if _, ok := u.X.(*ssa.Global); ok {
					return // the namespace
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					part.field = a.term(f, fa, pt, role, 0)
				}
			}
			part.typ = a.p.TName(n)
			continue
		}
		t := a.term(f, x, pt, role, 0)
		if l := stringRoles(c); l != nil {
			// positions that mean something
			if !isStringType(x.Type()) || at >= len(l) {
				continue
			}
			switch l[at] {
			case "tag":
				part.key = t
			case "lang":
				part.lang = t
			case "value":
				part.value = mentions(t, "value")
			}
			at++
			continue
		}
		switch {
		case mentions(t, "value"):
			part.value = true
		case mentions(t, "lang"):
			part.lang = t
		case mentions(t, "tag"):
			part.key = t
		}
	}
	if part.typ == "" {
		return
	}
	// an accessor of the same or another model
	if g != nil && g.Signature.Recv() != nil && isTagAccessor(g.Name()) {
		if part.typ == a.recvName(f) && part.key == "tag" && g != f {
			for _, q := range a.paths(g, tag) {
				for _, x := range q.parts {
					x.value = x.value && part.value || strings.HasPrefix(g.Name(), "Get") || strings.HasPrefix(g.Name(), "Can")
					pt.parts = append(pt.parts, x)
				}
				pt.nils = append(pt.nils, q.nils...)
			}
			return
		}
		if k := a.ownKey(g); k != "" && part.key != "" {
			part.key = substWord(k, "tag", part.key)
		}
	}
	pt.parts = append(pt.parts, part)
}

// stringRoles: what the string arguments of an accessor are.
func stringRoles(c *ssa.CallCommon) []string {
	n := ""
	if c.IsInvoke() {
		n = c.Method.Name()
	} else if g := c.StaticCallee(); g != nil {
		n = g.Name()
	}
	switch n {
	case "CanTag", "GetTag", "GetNativeField":
		return []string{"tag"}
	case "SetTag", "SetNativeField":
		return []string{"tag", "value"}
	case "GetLocaleTag", "GetLocaleField":
		return []string{"lang", "tag"}
	case "SetLocaleTag", "SetLocaleField":
		return []string{"lang", "tag", "value"}
	}
	return nil
}

func substWord(s, w, r string) string {
	if s == w {
		return r
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], w) && mentions(s[max(0, i-1):min(len(s), i+len(w)+1)], w) {
			b.WriteString(r)
			i += len(w)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// ownKey: the one key an accessor uses, in terms of the tag.
func (a *taAn) ownKey(g *ssa.Function) string {
	m, ok := a.keys[g]
	if !ok {
		m = map[string]bool{}
		a.keys[g] = m
		for _, pt := range a.paths(g, "zzzz") {
			for _, x := range pt.parts {
				if x.key != "" {
					m[x.key] = true
				}
			}
		}
	}
	if len(m) == 1 {
		for k := range m {
			return k
		}
	}
	return ""
}

func isTagAccessor(n string) bool {
	for _, s := range tagAccessors {
		if s == n {
			return true
		}
	}
	return false
}

func (a *taAn) recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(deref(r.Type())); n != nil {
			return a.p.TName(n)
		}
	}
	return ""
}

func (a *taAn) model(n *types.Named) {
	acc := map[string]*ssa.Function{}
	for _, s := range tagAccessors {
		f := a.p.Method(n, s)
		if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" || a.recvName(f) != a.p.TName(n) {
			continue
		}
		// signature: strings only
		good := true
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if !isStringType(f.Signature.Params().At(i).Type()) {
				good = false
			}
		}
		if good {
			acc[s] = f
		}
	}
	if len(acc) < 2 {
		return
	}
	a.r.Units["models"]++
	a.r.Units["accessors"] += len(acc)
	mn := a.p.TName(n)
	// one tag of each class
	reps := map[string]bool{}
	for i := 1; i <= 8; i++ {
		reps[strings.Repeat("z", i)] = true
	}
	for _, f := range acc {
		for _, c := range a.consts(f) {
			switch c.kind {
			case "len":
				for d := int64(-1); d <= 1; d++ {
					if c.n+d > 0 && c.n+d < 200 {
						reps[strings.Repeat("z", int(c.n+d))] = true
					}
				}
			default:
				reps[c.s] = true
				reps[c.s+".zz"] = true
			}
		}
	}
	var tags []string
	for t := range reps {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	done := map[string]bool{}
	for _, t := range tags {
		a.class(mn, acc, t, done)
	}
	// every case is reached by the tags it names
	for _, s := range tagAccessors {
		f := acc[s]
		if f == nil {
			continue
		}
		for _, c := range a.consts(f) {
			if c.kind != "eq" && c.kind != "prefix" {
				continue
			}
			if !usedInIf(c.cond) {
				continue
			}
			what := c.s
			if a.took[a.condKey(f, c.cond)] {
				a.r.ok("%s: %q reaches its case", a.p.FName(f), what)
			} else {
				a.r.fail("own", mn+"."+s+" "+what, a.p.Pos(c.cond.Pos()), "%s: no tag reaches the case for %q: an earlier case takes it", a.p.FName(f), what)
			}
		}
	}
}

func usedInIf(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.If:
			return true
		case *ssa.UnOp:
			if usedInIf(x) {
				return true
			}
		}
	}
	return false
}

// class compares the accessors for one tag.
func (a *taAn) class(mn string, acc map[string]*ssa.Function, tag string, done map[string]bool) {
	a.r.Units["tag classes"]++
	type sum struct {
		types  map[string]taPart
		keys   map[string]taPart
		silent *taPath
		yes    bool
		fields map[string]bool
	}
	sums := map[string]*sum{}
	for _, s := range tagAccessors {
		f := acc[s]
		if f == nil {
			continue
		}
		m := &sum{types: map[string]taPart{}, keys: map[string]taPart{}, fields: map[string]bool{}}
		sums[s] = m
		for _, pt := range a.paths(f, tag) {
			for _, x := range pt.parts {
				if _, ok := m.types[x.typ]; !ok {
					m.types[x.typ] = x
				}
				if x.key != "" {
					if _, ok := m.keys[x.key]; !ok {
						m.keys[x.key] = x
					}
				}
			}
			if len(pt.parts) == 0 {
				for _, t := range pt.nils {
					if _, ok := m.types[t]; !ok {
						m.types[t] = taPart{typ: t, in: pt.ret}
					}
				}
			}
			if len(pt.parts) > 0 {
				m.yes = true
			}
			res := pt.ret.Results
			if s == "CanTag" {
				if e := (&taEnv{a: a, f: f, tag: tag, pt: pt}); len(pt.parts) == 0 && e.cond(res[0]) != 0 {
					m.yes = true
				}
			} else if len(pt.parts) == 0 && len(pt.nils) == 0 && isNilConst(a.resolve(pt, res[len(res)-1])) {
				m.silent = pt
			}
			a.checkPath(mn, s, f, pt, tag, done)
		}
	}
	show := func(m map[string]taPart) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, ", ")
	}
	// known tags
	can := sums["CanTag"]
	for _, s := range tagAccessors[1:] {
		m, f := sums[s], acc[s]
		if m == nil || can == nil || strings.Contains(s, "Locale") {
			continue
		}
		key := mn + "." + s + " " + tag
		switch {
		case can.yes && m.silent != nil && len(m.types) == 0:
			if once(done, "known", mn+s+fmt.Sprint(m.silent.ret.Block().Index)) {
				a.r.fail("known", key, a.p.InstrPos(m.silent.ret), "%s reports success for a tag like %q without doing anything, though CanTag says the model has it", a.p.FName(f), tag)
			}
		case !can.yes && len(m.types) > 0:
			if once(done, "known", mn+s+show(m.types)) {
				a.r.fail("known", key, a.p.Pos(acc["CanTag"].Pos()), "CanTag of %s says no to tags like %q, which %s handles", mn, tag, s)
			}
		default:
			a.r.ok("%s.%s %q: known", mn, s, tag)
		}
	}
	// same part, same key
	first := ""
	for _, s := range tagAccessors {
		m := sums[s]
		if m == nil || len(m.types) == 0 {
			continue
		}
		if first == "" {
			first = s
			continue
		}
		w := sums[first]
		if show(m.types) == show(w.types) {
			a.r.ok("%s.%s %q: part %s", mn, s, tag, show(m.types))
		} else if once(done, "part", mn+s+show(m.types)+show(w.types)) {
			a.r.fail("part", mn+"."+s+" "+tag, a.at(m.types), "%s and %s of %s lead to different parts for tags like %q: %s and %s", first, s, mn, tag, show(w.types), show(m.types))
		}
		if len(m.keys) == 0 || len(w.keys) == 0 || show(m.keys) == show(w.keys) {
			a.r.ok("%s.%s %q: key %s", mn, s, tag, show(m.keys))
		} else if once(done, "key", mn+s+show(m.keys)+show(w.keys)) {
			a.r.fail("key", mn+"."+s, a.at(m.keys), "%s and %s of %s look for different keys for the same tag: %s and %s", first, s, mn, show(w.keys), show(m.keys))
		}
	}
}

func once(m map[string]bool, rule, k string) bool {
	if m[rule+k] {
		return false
	}
	m[rule+k] = true
	return true
}

func (a *taAn) at(m map[string]taPart) string {
	for _, x := range m {
		if x.in != nil {
			return a.p.InstrPos(x.in)
		}
	}
	return ""
}

func (a *taAn) resolve(pt *taPath, v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			break
		}
		y := pt.phi(ph)
		if y == nil {
			break
		}
		v = y
	}
	return v
}

// checkPath: what goes in and what comes out on one path.
func (a *taAn) checkPath(mn, s string, f *ssa.Function, pt *taPath, tag string, done map[string]bool) {
	if len(pt.parts) == 0 {
		return
	}
	// only the calls made here
	var own []taPart
	for _, x := range pt.parts {
		if x.in.Parent() == f {
			own = append(own, x)
		}
	}
	res := pt.ret.Results
	key := mn + "." + s
	if strings.HasPrefix(s, "Set") {
		good := len(own) == 0
		for _, x := range own {
			good = good || x.value
		}
		if good {
			a.r.ok("%s hands the value on", key)
		} else if once(done, "value", key) {
			a.r.fail("value", key, a.p.InstrPos(own[0].in), "%s does not hand the value given to what sets it", a.p.FName(f))
		}
	}
	if strings.Contains(s, "Locale") && len(own) > 0 {
		good := false
		for _, x := range own {
			good = good || x.lang == "lang"
		}
		if good {
			a.r.ok("%s hands the language on", key)
		} else if once(done, "lang", key) {
			a.r.fail("value", key+" language", a.p.InstrPos(own[0].in), "%s does not hand the language given on", a.p.FName(f))
		}
	}
	if len(own) == 0 {
		return
	}
	from := func(v ssa.Value, i int) bool {
		for _, x := range own {
			c, ok := x.in.(ssa.Value)
			if !ok {
				continue
			}
			if derives(pt, v, c, i, 0) {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(s, "Get"):
		if !isNilConst(a.resolve(pt, res[1])) {
			return
		}
		if from(res[0], 0) {
			a.r.ok("%s returns what was read", key)
		} else if once(done, "result", key) {
			a.r.fail("result", key, a.p.InstrPos(pt.ret), "%s reports success for tags like %q but does not return what was read", a.p.FName(f), tag)
		}
	case s == "CanTag":
		v := a.resolve(pt, res[0])
		neg := false
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = true
			v = a.resolve(pt, u.X)
		}
		bad := false
		switch x := v.(type) {
		case *ssa.BinOp:
			if isErrorType(x.X.Type()) && isNilConst(x.Y) {
				bad = (x.Op == token.NEQ) != neg
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && isTagAccessor(g.Name()) {
				bad = neg
			}
		case *ssa.Const:
			want := -1
			for ev, isNil := range pt.errs {
				for _, y := range own {
					c, ok := y.in.(ssa.Value)
					if ok && derives(pt, ev, c, -1, 0) {
						want = 0
						if isNil {
							want = 1
						}
					}
				}
			}
			if x.Value != nil && x.Value.Kind() == constant.Bool && want >= 0 {
				bad = (constant.BoolVal(x.Value) != neg) != (want == 1)
			}
		}
		if !bad {
			a.r.ok("%s: sense", key)
		} else if once(done, "sense", key) {
			a.r.fail("sense", key, a.p.InstrPos(pt.ret), "%s says no when the tag is found or yes when it is not", a.p.FName(f))
		}
	}
}

// derives: v is made from result i of the call (-1: any).
func derives(pt *taPath, v, c ssa.Value, i, d int) bool {
	if d > 12 {
		return false
	}
	if v == c {
		return true
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == c && (i < 0 || x.Index == i)
	case *ssa.Phi:
		if y := pt.phi(x); y != nil {
			return derives(pt, y, c, i, d+1)
		}
		for _, e := range x.Edges {
			if e != v && derives(pt, e, c, i, d+1) {
				return true
			}
		}
	case *ssa.Convert:
		return derives(pt, x.X, c, i, d+1)
	case *ssa.ChangeType:
		return derives(pt, x.X, c, i, d+1)
	case *ssa.ChangeInterface:
		return derives(pt, x.X, c, i, d+1)
	case *ssa.MakeInterface:
		return derives(pt, x.X, c, i, d+1)
	case *ssa.Slice:
		return derives(pt, x.X, c, i, d+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			l, _ := storesTo(al)
			for _, s := range l {
				if derives(pt, s.Val, c, i, d+1) {
					return true
				}
			}
		}
	case *ssa.Call:
		for _, y := range x.Call.Args {
			if derives(pt, y, c, i, d+1) {
				return true
			}
		}
	}
	return false
}

// core: the functions behind the accessors look fields up alike.
func (a *taAn) core() {
	first, term := "", ""
	for _, name := range []string{"GetNativeField", "SetNativeField", "GetLocaleField", "SetLocaleField"} {
		f := a.p.Func("xmp", name)
		if f == nil {
			continue
		}
		role := func(x *ssa.Parameter) string {
			l := []string{"model", "tag", "value"}
			if strings.Contains(name, "Locale") {
				l = []string{"model", "lang", "tag", "value"}
			}
			if i := prmIndex(f, x); i >= 0 && i < len(l) {
				return l[i]
			}
			return "?"
		}
		found := false
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || found {
				return
			}
			g := c.Call.StaticCallee()
			if g == nil || !a.p.InModule(g) || g.Signature.Results().Len() != 2 {
				return
			}
			if n := namedOf(deref(g.Signature.Results().At(0).Type())); n == nil || n.Obj().Name() != "fieldInfo" {
				return
			}
			found = true
			a.r.Units["field lookups"]++
			t := a.term(f, c, nil, role, 0)
			switch {
			case !mentions(t, "tag"):
				a.r.fail("field", name, a.p.InstrPos(in), "%s does not look for the field it is asked for: %s", name, t)
			case first == "":
				first, term = name, t
			case t != term:
				a.r.fail("field", name, a.p.InstrPos(in), "%s and %s look fields up differently: %s and %s", first, name, term, t)
			default:
				a.r.ok("%s looks up %s", name, t)
			}
		})
	}
}
