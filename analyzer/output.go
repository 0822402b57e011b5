package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: what the encoder writes is complete, in order and within the limit.

func init() { register("C15", checkOutput) }

type outAn struct {
	p     *Prog
	r     *Result
	x     *prover
	m     *memAn
	w     *types.Named // the counting writer
	under int          // field: underlying writer
	n     int          // field: bytes written
	lim   int          // field: limit
	meth  map[*ssa.Function]bool
	write *ssa.Function
	memo  map[string]int
}

func checkOutput(p *Prog, r *Result) {
	r.Explain = "Rule single: everything the encoder writes goes through its counting writer; the user's writer is touched nowhere else. Rule bound: with a limit set, each write to the user's writer is proven no longer than what is left. Rule limit: the limit is set to the size asked for. Rule count: every number of bytes written is added to the count on every path. Rule short: success is reported only if all bytes were written. Rule full: where the failure of reaching the limit is recognised, it stays a failure. Rule order: nothing is written directly, and no success reported, while the XML encoder holds back buffered output. Rule pair: on every path header and trailer of the packet, and start and end of the root element, are written both or neither. Rule pad: the space left for the trailer equals the length of the trailer and the padding loop writes one byte per step."
	a := &outAn{p: p, r: r, x: p.Prover(), under: -1, n: -1, lim: -1, meth: map[*ssa.Function]bool{}, memo: map[string]int{}}
	a.m = a.x.m
	if !a.find() {
		r.undecided("no counting writer found")
		r.need("writers", 1)
		return
	}
	a.single()
	a.limit()
	a.full()
	a.writes()
	for _, f := range p.Funcs {
		if p.libFunc(f) && !a.meth[f] && f.Pkg != nil && f.Pkg.Pkg == a.w.Obj().Pkg() {
			a.order(f)
			a.pairs(f)
			a.padding(f)
		}
	}
	r.need("underlying_writes", 1)
	r.need("direct_writes", 1)
}

func isWriterIface(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == "Writer"
}

func (a *outAn) find() bool {
	for _, t := range a.p.NamedTypes() {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || !strings.HasSuffix(t.Obj().Pkg().Path(), "/xmp") {
			continue
		}
		m := a.p.Method(t, "Write")
		if m == nil || m.Blocks == nil {
			continue
		}
		u := -1
		for i := 0; i < st.NumFields(); i++ {
			if isWriterIface(st.Field(i).Type()) {
				u = i
			}
		}
		if u < 0 {
			continue
		}
		a.w, a.under, a.write = t, u, m
		// the count is the integer field Write updates; the limit another one
		eachInstr(m, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && namedOf(deref(fa.X.Type())) == t && isIntType(deref(fa.Type())) {
					a.n = fa.Field
				}
			}
		})
		for i := 0; i < st.NumFields(); i++ {
			if i != a.n && isIntType(st.Field(i).Type()) {
				a.lim = i
			}
		}
		for _, f := range a.p.Funcs {
			if rv := f.Signature.Recv(); rv != nil && namedOf(deref(rv.Type())) == t {
				a.meth[f] = true
			}
		}
		a.r.Units["writers"]++
		return a.n >= 0 && a.lim >= 0
	}
	return false
}

func (a *outAn) keys(f *ssa.Function, what string) []string {
	var out []string
	for _, n := range a.p.OwnerNames(f) {
		out = append(out, n+": "+what)
	}
	return out
}

func (a *outAn) fieldRead(v ssa.Value, i int) bool {
	v = a.m.canonOf(v)
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = a.m.canonOf(c.X)
			continue
		}
		break
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && namedOf(deref(fa.X.Type())) == a.w && fa.Field == i
}

// single: the user's writer is reached only through the counting writer.
func (a *outAn) single() {
	for _, f := range a.p.Funcs {
		if !a.p.libFunc(f) || f.Pkg == nil || f.Pkg.Pkg != a.w.Obj().Pkg() {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if namedOf(deref(x.X.Type())) == a.w && x.Field == a.under && !a.meth[f] {
					// construction stores it, nothing else reads it
					for _, u := range *x.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
							continue
						}
						if _, ok := u.(*ssa.DebugRef); ok {
							continue
						}
						a.r.failAlt("single", a.keys(f, "uses the underlying writer"), a.p.InstrPos(u), "%s takes the user's writer out of the counting writer: what it writes is neither counted nor limited", a.p.FName(f))
					}
				}
			case *ssa.Call:
				pkg, name := extCallee(&x.Call)
				if pkg == "encoding/xml" && name == "NewEncoder" {
					a.r.Units["xml_encoders"]++
					mi, ok := x.Call.Args[0].(*ssa.MakeInterface)
					if !ok || namedOf(deref(mi.X.Type())) != a.w {
						if ok && a.wraps(mi.X, 0) {
							a.r.ok("%s: XML is written to a wrapper of the counting writer", a.p.FName(f))
							return
						}
						a.r.failAlt("single", a.keys(f, "creates an XML encoder"), a.p.InstrPos(in), "%s lets the XML encoder write past the counting writer", a.p.FName(f))
						return
					}
					a.r.ok("%s: XML is written to the counting writer", a.p.FName(f))
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok && !a.meth[f] {
				// writes to an io.Writer parameter
				c := ci.Common()
				if c.IsInvoke() && c.Method.Name() == "Write" && isWriterIface(c.Value.Type()) && !a.counting(c.Value, 0) {
					a.r.failAlt("single", a.keys(f, "writes to an io.Writer"), a.p.InstrPos(in), "%s writes to the user's writer directly, past the count and the limit", a.p.FName(f))
				}
			}
		})
	}
}

// limit: the limit is the one asked for, not something computed from it.
func (a *outAn) limit() {
	for _, f := range a.p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(deref(fa.X.Type())) != a.w || fa.Field != a.lim {
				return
			}
			a.r.Units["limits"]++
			seen := map[ssa.Value]bool{}
			var altered func(v ssa.Value) bool
			altered = func(v ssa.Value) bool {
				v = strip(a.m.canonOf(v))
				if seen[v] {
					return false
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.BinOp:
					return true
				case *ssa.Phi:
					for _, e := range x.Edges {
						if altered(e) {
							return true
						}
					}
				}
				return false
			}
			if altered(st.Val) {
				a.r.failAlt("limit", a.keys(f, "limit"), a.p.InstrPos(in), "%s sets the size limit to something computed from the size asked for", a.p.FName(f))
				return
			}
			a.r.ok("limit: %s (%s): the size asked for", a.p.FName(f), a.p.InstrPos(in))
		})
	}
}

// full: running into the limit is a failure everywhere, not only where it happens.
func (a *outAn) full() {
	sent := map[*ssa.Global]bool{}
	for f := range a.meth {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i := range ret.Results {
				for _, v := range retValues(ret, i) {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						if g, ok := u.X.(*ssa.Global); ok && isErrorType(u.Type()) {
							sent[g] = true
						}
					}
				}
			}
		}
	}
	is := func(v ssa.Value) bool {
		u, ok := a.m.canonOf(v).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && sent[g]
	}
	for _, f := range a.p.LibFuncs() {
		n := f.Signature.Results().Len()
		if n == 0 || !isErrorType(f.Signature.Results().At(n-1).Type()) {
			continue
		}
		for _, b := range f.Blocks {
			ife, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			var e ssa.Value
			k := 0 // successor taken when it is the limit
			switch x := ife.Cond.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				if is(x.X) {
					e = x.Y
				} else if is(x.Y) {
					e = x.X
				}
				if x.Op == token.NEQ {
					k = 1
				}
			case *ssa.Call:
				if pkg, name := extCallee(&x.Call); pkg == "errors" && name == "Is" && is(x.Call.Args[1]) {
					e = x.Call.Args[0]
				}
			}
			if e == nil {
				continue
			}
			a.r.Units["limit_tests"]++
			q := &pathQ{f: f, m: a.m}
			q.bad = q.okReturn
			s := newPstate()
			s.fact[a.m.canonOf(e)] = false
			if bad := q.run(b.Succs[k], nil, s); bad != nil || q.over {
				a.r.failAlt("full", a.keys(f, "limit reached"), a.p.InstrPos(ife), "%s reports success although the size limit was reached and part of the output is missing", a.p.FName(f))
				continue
			}
			a.r.ok("full: %s (%s): still a failure", a.p.FName(f), a.p.InstrPos(ife))
		}
	}
}

// wraps: v is built around the counting writer.
func (a *outAn) wraps(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	if namedOf(deref(v.Type())) == a.w {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return a.wraps(x.X, d+1)
	case *ssa.ChangeInterface:
		return a.wraps(x.X, d+1)
	case *ssa.Call:
		for _, v := range x.Call.Args {
			if a.wraps(v, d+1) {
				return true
			}
		}
	}
	return false
}

func (a *outAn) counting(v ssa.Value, d int) bool { return a.wraps(a.m.canonOf(v), d) }

// remaining: v is limit - count, or proven not larger.
func (a *outAn) remaining(v ssa.Value, blk, edge *ssa.BasicBlock, d int) bool {
	if d > 5 {
		return false
	}
	v = a.m.canonOf(v)
	if c, ok := v.(*ssa.Convert); ok && isIntType(c.X.Type()) {
		return a.remaining(c.X, blk, edge, d+1)
	}
	var rem func(v ssa.Value) bool
	rem = func(v ssa.Value) bool {
		v = a.m.canonOf(v)
		if c, ok := v.(*ssa.Convert); ok && isIntType(c.X.Type()) {
			return rem(c.X)
		}
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.SUB && a.fieldRead(b.X, a.lim) && a.fieldRead(b.Y, a.n)
	}
	if rem(v) {
		return true
	}
	// proven against a difference computed here
	in, isIn := v.(ssa.Instruction)
	var f *ssa.Function
	if isIn {
		f = in.Parent()
	} else if p, ok := v.(*ssa.Parameter); ok {
		f = p.Parent()
	}
	if f != nil {
		found := false
		eachInstr(f, func(i2 ssa.Instruction) {
			if b, ok := i2.(*ssa.BinOp); ok && !found && rem(b) {
				tv, kv := a.x.lin(v)
				tb, kb := a.x.lin(b)
				if a.x.proveOn(tv, tb, kb-kv, blk, edge) {
					found = true
				}
			}
		})
		if found {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !a.remaining(e, x.Block().Preds[i], x.Block(), d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "min":
				for _, arg := range x.Call.Args {
					if a.remaining(arg, blk, edge, d+1) {
						return true
					}
				}
			case "len":
				return a.lenRemaining(x.Call.Args[0], blk, edge, d+1)
			}
			return false
		}
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !a.p.InModule(g) {
			return false
		}
		for i, arg := range x.Call.Args {
			if !isIntType(arg.Type()) || !a.remaining(arg, blk, edge, d+1) {
				continue
			}
			all := true
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				if len(ret.Results) != 1 || !a.x.proveVals(ret.Results[0], g.Params[i], 0, b) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func (a *outAn) lenRemaining(v ssa.Value, blk, edge *ssa.BasicBlock, d int) bool {
	if d > 6 {
		return false
	}
	v = a.m.canonOf(v)
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && (x.Low == nil || isZeroConst(x.Low)) {
			return a.remaining(x.High, blk, edge, d+1)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !a.lenRemaining(e, x.Block().Preds[i], x.Block(), d+1) {
				return false
			}
		}
		return true
	}
	// len(v) <= rem by a dominating comparison
	f := blk.Parent()
	found := false
	tv, kv := a.x.lenOf(v)
	eachInstr(f, func(i2 ssa.Instruction) {
		b, ok := i2.(*ssa.BinOp)
		if !ok || found || b.Op != token.SUB || !a.fieldRead(b.X, a.lim) || !a.fieldRead(b.Y, a.n) {
			return
		}
		tb, kb := a.x.lin(b)
		if a.x.proveOn(tv, tb, kb-kv, blk, edge) {
			found = true
		}
	})
	return found
}

// underlying: in writes to the user's writer; the bytes (or their number).
func (a *outAn) underlying(in ssa.Instruction) (data, num ssa.Value, ok bool) {
	c, isCall := in.(*ssa.Call)
	if !isCall {
		return
	}
	cc := &c.Call
	if cc.IsInvoke() {
		if a.fieldRead(cc.Value, a.under) && cc.Method.Name() == "Write" {
			return cc.Args[0], nil, true
		}
		return
	}
	pkg, name := extCallee(cc)
	if len(cc.Args) < 2 || !a.fieldRead(cc.Args[0], a.under) {
		return
	}
	switch {
	case pkg == "io" && name == "CopyN":
		return nil, cc.Args[2], true
	case pkg == "io" && name == "WriteString":
		return cc.Args[1], nil, true
	case pkg == "io" || pkg == "fmt":
		return nil, nil, true
	}
	return
}

func (a *outAn) unlimited(b *ssa.BasicBlock) bool {
	// a dominating test says limit <= 0
	for _, d := range b.Parent().Blocks {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !d.Dominates(b) || d == b {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) != 1 || !s.Dominates(b) {
				continue
			}
			op := bo.Op
			x, y := bo.X, bo.Y
			if isZeroConst(x) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if !isZeroConst(y) || !a.fieldRead(x, a.lim) {
				continue
			}
			if k == 1 {
				op = map[token.Token]token.Token{token.GTR: token.LEQ, token.LEQ: token.GTR, token.LSS: token.GEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
			}
			if op == token.LEQ || op == token.EQL || op == token.LSS {
				return true
			}
		}
	}
	return false
}

func (a *outAn) writes() {
	for f := range a.meth {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			data, num, ok := a.underlying(in)
			if !ok {
				return
			}
			a.r.Units["underlying_writes"]++
			c := in.(*ssa.Call)
			where := a.p.InstrPos(in)
			key := a.keys(f, "write to the underlying writer")
			blk := in.Block()
			switch {
			case a.unlimited(blk):
				a.r.ok("%s: no limit is set", where)
			case num != nil && a.remaining(num, blk, nil, 0), data != nil && a.lenRemaining(data, blk, nil, 0):
				a.r.ok("%s: at most the remaining bytes are written", where)
			default:
				a.r.failAlt("bound", key, where, "more bytes than the limit leaves may be written here")
			}
			// count
			cnt := resultVal(c, 0)
			var adds []ssa.Instruction
			eachInstr(f, func(i2 ssa.Instruction) {
				s, ok := i2.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(deref(fa.X.Type())) != a.w || fa.Field != a.n {
					return
				}
				b, ok := s.Val.(*ssa.BinOp)
				if ok && b.Op == token.ADD && (a.isCount(b.X, cnt) && a.fieldRead(b.Y, a.n) || a.isCount(b.Y, cnt) && a.fieldRead(b.X, a.n)) {
					adds = append(adds, i2)
				}
			})
			if cnt == nil || len(adds) == 0 || !allPathsHit(in, adds) {
				a.r.failAlt("count", key, where, "bytes written here are not added to the count on every path, so the limit and the padding are computed from a wrong position")
			} else {
				a.r.ok("%s: the bytes written are counted", where)
			}
			if f != a.write {
				return
			}
			// short writes
			b := f.Params[len(f.Params)-1]
			q := &pathQ{f: f, m: a.m}
			e := resultVal(c, 1)
			q.stop = func(i2 ssa.Instruction, s pstate) bool {
				if i2 == in {
					s.fact[c] = true // written
					if e != nil {
						s.fact[a.m.canonOf(e)] = true
					}
				}
				return false
			}
			q.bad = func(i2 ssa.Instruction, s pstate) bool {
				if !s.fact[c] || !q.okReturn(i2, s) {
					return false
				}
				if data != nil && s.resolve(a.m.canonOf(data)) == ssa.Value(b) {
					return false
				}
				// established: count >= len(b)
				for v, t := range s.fact {
					bo, ok := v.(*ssa.BinOp)
					if !ok {
						continue
					}
					op := bo.Op
					x, y := bo.X, bo.Y
					if a.isLenOf(x, b) {
						x, y = y, x
						op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
					}
					if !a.isLenOf(y, b) || !(a.isCount(x, cnt) || num != nil && a.m.canonOf(strip(x)) == a.m.canonOf(strip(num))) {
						continue
					}
					if !t {
						op = map[token.Token]token.Token{token.GTR: token.LEQ, token.LEQ: token.GTR, token.LSS: token.GEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
					}
					if op == token.GEQ || op == token.EQL || op == token.GTR {
						return false
					}
				}
				for _, v := range []ssa.Value{cnt, num} {
					if v == nil {
						continue
					}
					tl, kl := a.x.lenOf(b)
					tn, kn := a.x.lin(v)
					if a.x.prove(tl, tn, kn-kl, i2.Block()) {
						return false
					}
				}
				return true
			}
			if bad := q.run(f.Blocks[0], nil, newPstate()); bad != nil {
				a.r.failAlt("short", key, where, "success can be reported at %s although only part of the data was written", a.p.InstrPos(bad))
			} else if q.over {
				a.r.undecided("%s: too many paths", where)
			} else {
				a.r.ok("%s: success means all bytes were written", where)
			}
		})
	}
}

func strip(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || !isIntType(c.X.Type()) || !isIntType(c.Type()) {
			return v
		}
		v = c.X
	}
}

func (a *outAn) isCount(v, cnt ssa.Value) bool {
	return cnt != nil && a.m.canonOf(strip(a.m.canonOf(v))) == a.m.canonOf(cnt)
}

func (a *outAn) isLenOf(v, b ssa.Value) bool {
	t, k := a.x.lin(v)
	return k == 0 && t.ln && a.m.canonOf(t.v) == b
}

// what an instruction means for the output

// xmlCall: a method of the XML encoder.
func xmlCall(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	g := ci.Common().StaticCallee()
	if g == nil || g.Signature.Recv() == nil {
		return ""
	}
	n := namedOf(deref(g.Signature.Recv().Type()))
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "encoding/xml" || n.Obj().Name() != "Encoder" {
		return ""
	}
	return g.Name()
}

func (a *outAn) buffers(in ssa.Instruction) bool {
	switch xmlCall(in) {
	case "EncodeToken":
		return true
	case "":
	default:
		return false
	}
	if g := a.callee(in); g != nil {
		return a.leaves(g)
	}
	return false
}

func (a *outAn) callee(in ssa.Instruction) *ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if _, ok := in.(*ssa.Go); ok {
		return nil
	}
	g := ci.Common().StaticCallee()
	if g == nil || g.Blocks == nil || !a.p.InModule(g) || g.Pkg == nil || g.Pkg.Pkg != a.w.Obj().Pkg() || a.meth[g] {
		return nil
	}
	return g
}

func (a *outAn) flushes(in ssa.Instruction) bool {
	if isDeferred(in) {
		return false // not before what follows here
	}
	switch xmlCall(in) {
	case "Flush", "Encode", "EncodeElement", "Close":
		return true
	}
	if g := a.callee(in); g != nil {
		key := a.p.FName(g) + "#flush"
		if v, ok := a.memo[key]; ok {
			return v == 1
		}
		a.memo[key] = 0
		any := false
		q := &pathQ{f: g, m: a.m}
		q.stop = func(in ssa.Instruction, s pstate) bool {
			if a.flushes(in) {
				any = true
				return true
			}
			return false
		}
		q.bad = func(in ssa.Instruction, s pstate) bool { return q.okReturn(in, s) || a.buffers(in) }
		if q.run(g.Blocks[0], nil, newPstate()) == nil && any && !q.over && !a.leaves(g) {
			a.memo[key] = 1
			return true
		}
	}
	return false
}

// leaves: g can report success with buffered output held back.
func (a *outAn) leaves(g *ssa.Function) bool {
	key := a.p.FName(g) + "#leaves"
	if v, ok := a.memo[key]; ok {
		return v == 1
	}
	a.memo[key] = 0
	res := false
	eachInstr(g, func(in ssa.Instruction) {
		if res || !a.buffers(in) {
			return
		}
		q := &pathQ{f: g, m: a.m}
		q.stop = func(i2 ssa.Instruction, s pstate) bool { return a.flushes(i2) }
		q.bad = q.okReturn
		if q.run(nil, in, newPstate()) != nil {
			res = true
		}
	})
	if res {
		a.memo[key] = 1
	}
	return res
}

// direct: in writes to, or reads the position of, the counting writer.
func (a *outAn) direct(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL && namedOf(deref(fa.X.Type())) == a.w && fa.Field == a.n
	case ssa.CallInstruction:
		if a.directWrite(in) != nil {
			return true
		}
		if g := a.callee(in); g != nil {
			key := a.p.FName(g) + "#direct"
			if v, ok := a.memo[key]; ok {
				return v == 1
			}
			a.memo[key] = 0
			// reached before a flush
			q := &pathQ{f: g, m: a.m}
			q.stop = func(i2 ssa.Instruction, s pstate) bool { return a.flushes(i2) }
			q.bad = func(i2 ssa.Instruction, s pstate) bool { return a.direct(i2) }
			if q.run(g.Blocks[0], nil, newPstate()) != nil {
				a.memo[key] = 1
				return true
			}
		}
	}
	return false
}

// directWrite: in hands bytes to the counting writer itself; the bytes.
func (a *outAn) directWrite(in ssa.Instruction) ssa.Value {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	if g := c.StaticCallee(); g != nil && a.meth[g] && len(c.Args) == 2 {
		return c.Args[1]
	}
	if c.IsInvoke() && c.Method.Name() == "Write" && a.counting(c.Value, 0) {
		return c.Args[0]
	}
	if pkg, name := extCallee(c); pkg == "io" && name == "WriteString" && a.counting(c.Args[0], 0) {
		return c.Args[1]
	}
	// a helper that writes what it is given
	if g := a.callee(in); g != nil {
		key := a.p.FName(g) + "#puts"
		i, ok := a.memo[key]
		if !ok {
			a.memo[key] = -1
			i = -1
			n := 0
			var w ssa.Instruction
			eachInstr(g, func(i2 ssa.Instruction) {
				if v := a.directWrite(i2); v != nil {
					n++
					w = i2
					if c, ok := v.(*ssa.Convert); ok {
						v = c.X
					}
					i = prmIndex(g, a.m.canonOf(v))
				}
			})
			if n != 1 || inLoop(w.Block()) || i >= len(g.Params) {
				i = -1
			}
			if i >= 0 {
				q := &pathQ{f: g, m: a.m}
				q.stop = func(i2 ssa.Instruction, s pstate) bool { return i2 == w }
				q.bad = q.okReturn
				if q.run(g.Blocks[0], nil, newPstate()) != nil {
					i = -1
				}
			}
			a.memo[key] = i
		}
		if i >= 0 {
			return c.Args[i]
		}
	}
	return nil
}

func (a *outAn) order(f *ssa.Function) {
	exported := f.Object() != nil && f.Object().Exported() || len(a.p.Callers(f)) == 0
	eachInstr(f, func(in ssa.Instruction) {
		if a.directWrite(in) != nil {
			a.r.Units["direct_writes"]++
		}
		if !a.buffers(in) {
			return
		}
		a.r.Units["buffered_writes"]++
		q := &pathQ{f: f, m: a.m}
		q.stop = func(i2 ssa.Instruction, s pstate) bool { return a.flushes(i2) }
		q.bad = func(i2 ssa.Instruction, s pstate) bool {
			return a.direct(i2) || exported && q.okReturn(i2, s)
		}
		if bad := q.run(nil, in, newPstate()); bad != nil {
			what := "writes directly to the output or reads its position"
			if _, ok := bad.(*ssa.Return); ok {
				what = "reports success"
			}
			a.r.failAlt("order", a.keys(f, "buffered output"), a.p.InstrPos(bad), "%s %s at %s while the XML encoder still holds back what was given to it at %s", a.p.FName(f), what, a.p.InstrPos(bad), a.p.InstrPos(in))
		} else if q.over {
			a.r.undecided("%s: too many paths", a.p.InstrPos(in))
		} else {
			a.r.ok("%s: flushed before anything else is written", a.p.InstrPos(in))
		}
	})
}

// pairs: header and trailer, start and end.
func (a *outAn) pairs(f *ssa.Function) {
	kind := func(in ssa.Instruction) string { return a.pairKind(in, 0) }
	rep := a.sameConds(f)
	check := func(open, close, what string) {
		var opens, closes []ssa.Instruction
		eachInstr(f, func(in ssa.Instruction) {
			switch kind(in) {
			case open:
				opens = append(opens, in)
			case close:
				closes = append(closes, in)
			}
		})
		if len(opens) == 0 || len(closes) == 0 {
			exp := f.Object() != nil && f.Object().Exported()
			if exp && len(opens)+len(closes) > 0 {
				for _, in := range append(opens, closes...) {
					a.r.failAlt("pair", a.keys(f, what), a.p.InstrPos(in), "%s writes only one half of the %s", a.p.FName(f), what)
				}
			}
			return
		}
		a.r.Units["pairs"]++
		bad := false
		for _, o := range opens {
			q := &pathQ{f: f, m: a.m, rep: rep}
			q.stop = func(in ssa.Instruction, s pstate) bool { return kind(in) == close }
			q.bad = q.okReturn
			st := a.flagsAt(o, rep)
			if x := q.run(nil, o, st); x != nil {
				bad = true
				a.r.failAlt("pair", a.keys(f, what), a.p.InstrPos(o), "%s opens the %s here and can report success at %s without closing it", a.p.FName(f), what, a.p.InstrPos(x))
			}
			q = &pathQ{f: f, m: a.m, rep: rep}
			q.bad = func(in ssa.Instruction, s pstate) bool { return kind(in) == open }
			q.stop = func(in ssa.Instruction, s pstate) bool { return kind(in) == close }
			if x := q.run(nil, o, st); x != nil {
				bad = true
				a.r.failAlt("pair", a.keys(f, what), a.p.InstrPos(x), "%s can open the %s twice", a.p.FName(f), what)
			}
		}
		for _, c := range closes {
			q := &pathQ{f: f, m: a.m, rep: rep}
			q.stop = func(in ssa.Instruction, s pstate) bool { return kind(in) == open }
			q.bad = func(in ssa.Instruction, s pstate) bool { return in == c }
			if x := q.run(f.Blocks[0], nil, newPstate()); x != nil {
				bad = true
				a.r.failAlt("pair", a.keys(f, what), a.p.InstrPos(c), "%s can close the %s without having opened it", a.p.FName(f), what)
			}
		}
		if !bad {
			a.r.ok("%s: %s written completely or not at all", a.p.FName(f), what)
		}
	}
	check("header", "trailer", "packet")
	check("start", "end", "root element")
}

// flagsAt: conditions known where in executes.
func (a *outAn) flagsAt(in ssa.Instruction, rep func(ssa.Value) ssa.Value) pstate {
	st := newPstate()
	b := in.Block()
	for _, d := range b.Parent().Blocks {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !d.Dominates(b) || d == b {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				q := &pathQ{m: a.m, rep: rep}
				q.assume(&st, iff.Cond, k == 0)
			}
		}
	}
	return st
}

func (a *outAn) pairKind(in ssa.Instruction, d int) string {
	if v := a.directWrite(in); v != nil {
		if s, ok := a.p.constBytes(v, 0); ok {
			switch {
			case strings.Contains(s, "<?xpacket begin"):
				return "header"
			case strings.Contains(s, "<?xpacket end"):
				return "trailer"
			}
		}
		if ph, ok := v.(*ssa.Phi); ok {
			k := ""
			for _, e := range ph.Edges {
				s, _ := a.p.constBytes(e, 0)
				if strings.Contains(s, "<?xpacket end") {
					k = "trailer"
				}
			}
			return k
		}
		return ""
	}
	if xmlCall(in) == "EncodeToken" {
		if mi, ok := in.(ssa.CallInstruction).Common().Args[1].(*ssa.MakeInterface); ok {
			if n := namedOf(mi.X.Type()); n != nil {
				switch n.Obj().Name() {
				case "StartElement":
					return "start"
				case "EndElement":
					return "end"
				}
			}
		}
		return ""
	}
	if g := a.callee(in); g != nil && d < 3 {
		// a helper that always does one of them, and nothing of its counterpart
		key := a.p.FName(g) + "#pair"
		if _, busy := a.memo[key]; busy {
			return ""
		}
		a.memo[key] = 1
		defer delete(a.memo, key)
		kinds := map[string]bool{}
		eachInstr(g, func(i2 ssa.Instruction) {
			if k := a.pairKind(i2, d+1); k != "" {
				kinds[k] = true
			}
		})
		if len(kinds) != 1 {
			return ""
		}
		for k := range kinds {
			q := &pathQ{f: g, m: a.m}
			q.stop = func(i2 ssa.Instruction, s pstate) bool { return a.pairKind(i2, d+1) == k }
			q.bad = q.okReturn
			if q.run(g.Blocks[0], nil, newPstate()) == nil {
				return k
			}
		}
	}
	return ""
}

// padding: filling up to the limit leaves exactly the room of the trailer.
func (a *outAn) padding(f *ssa.Function) {
	eachInstr(f, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || !isIntType(b.Type()) || b.Op != token.SUB && b.Op != token.ADD {
			return
		}
		for _, u := range *b.Referrers() {
			if o, ok := u.(*ssa.BinOp); ok && (o.Op == token.SUB || o.Op == token.ADD) && isIntType(o.Type()) {
				return // part of a longer sum
			}
		}
		coef := map[term]int64{}
		k := a.x.sum(b, 1, coef, 0)
		pl, mn, other := false, false, false
		for t, c := range coef {
			switch {
			case c == 0:
			case !t.ln && c == 1 && a.fieldRead(t.v, a.lim):
				pl = true
			case !t.ln && c == -1 && a.fieldRead(t.v, a.n):
				mn = true
			default:
				other = true
			}
		}
		if !pl || !mn {
			return
		}
		a.r.Units["padding_sizes"]++
		where := a.p.InstrPos(in)
		if other {
			a.r.undecided("%s: room for the trailer is not constant", where)
			return
		}
		// the fixed texts written afterwards on every path
		var total int64
		known := true
		var loopw, single []ssa.Instruction
		eachInstr(f, func(i2 ssa.Instruction) {
			v := a.directWrite(i2)
			if v == nil || !reachesAvoiding(in, i2, nil) {
				return
			}
			if inLoop(i2.Block()) {
				loopw = append(loopw, i2)
				return
			}
			if a.lenIs(v, b) {
				return // the padding in one piece
			}
			s, ok := a.p.constBytes(v, 0)
			if !ok {
				known = false
				return
			}
			if !allOK(a, f, in, i2) {
				known = false
				return
			}
			single = append(single, i2)
			total += int64(len(s))
		})
		if !known || len(single) == 0 {
			a.r.undecided("%s: the texts following the padding are not fixed", where)
			return
		}
		if -k != total {
			a.r.failAlt("pad", a.keys(f, "padding"), where, "the padding leaves %d bytes for a trailer of %d bytes, so a padded packet does not end exactly at the limit", -k, total)
			return
		}
		// the filling loop
		for _, lp := range boundedLoops(a.x, f, b) {
			q := &pathQ{f: f, m: a.m}
			q.stop = func(i2 ssa.Instruction, s pstate) bool { return a.directWrite(i2) != nil }
			q.arrive = func(bb *ssa.BasicBlock, s pstate) (int, string) {
				if bb == lp.head {
					return 2, ""
				}
				return 0, ""
			}
			bad := ""
			for _, sc := range lp.head.Succs {
				if lp.in[sc] && q.run(sc, nil, newPstate()) != nil {
					bad = "a step of the filling loop can pass without writing"
				}
			}
			for _, w := range loopw {
				if !lp.in[w.Block()] {
					continue
				}
				if s, ok := a.p.constBytes(a.directWrite(w), 0); !ok || len(s) != 1 {
					if ok {
						bad = "a step of the filling loop writes more or less than one byte"
					}
				}
				q := &pathQ{f: f, m: a.m}
				q.bad = func(i2 ssa.Instruction, s pstate) bool { return a.directWrite(i2) != nil && lp.in[i2.Block()] }
				q.arrive = func(bb *ssa.BasicBlock, s pstate) (int, string) {
					if bb == lp.head {
						return 1, ""
					}
					return 0, ""
				}
				if q.run(nil, w, newPstate()) != nil {
					bad = "a step of the filling loop can write twice"
				}
			}
			if !lp.full {
				bad = "the filling loop does not make exactly as many steps as there are bytes to fill"
			}
			if bad != "" {
				a.r.failAlt("pad", a.keys(f, "padding"), where, "%s", bad)
				return
			}
		}
		a.r.ok("%s: padding and trailer end exactly at the limit", where)
	})
}

func (a *outAn) lenIs(v, n ssa.Value) bool {
	switch x := a.m.canonOf(v).(type) {
	case *ssa.MakeSlice:
		return a.m.canonOf(strip(x.Len)) == a.m.canonOf(n)
	case *ssa.Call:
		if pkg, name := extCallee(&x.Call); (pkg == "bytes" || pkg == "strings") && name == "Repeat" {
			return a.m.canonOf(strip(x.Call.Args[1])) == a.m.canonOf(n)
		}
	case *ssa.Convert:
		return a.lenIs(x.X, n)
	}
	return false
}

func inLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if reaches(s, b, nil) {
			return true
		}
	}
	return false
}

// allOK: every successful path from in passes w.
func allOK(a *outAn, f *ssa.Function, in, w ssa.Instruction) bool {
	q := &pathQ{f: f, m: a.m}
	q.stop = func(i2 ssa.Instruction, s pstate) bool { return i2 == w }
	q.bad = q.okReturn
	return q.run(nil, in, newPstate()) == nil
}

type boundedLoop struct {
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
	full bool
}

// boundedLoops: counted loops whose bound is n.
func boundedLoops(x *prover, f *ssa.Function, n ssa.Value) []boundedLoop {
	var out []boundedLoop
	for _, h := range f.Blocks {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var ph *ssa.Phi
		strict, zeroBound := false, false
		if x.m.canonOf(strip(c.Y)) == x.m.canonOf(n) {
			ph, _ = c.X.(*ssa.Phi)
			strict = c.Op == token.LSS || c.Op == token.NEQ
		} else if p, ok := c.X.(*ssa.Phi); ok && isZeroConst(c.Y) && (c.Op == token.GTR || c.Op == token.NEQ) {
			ph, zeroBound = p, true
		}
		if ph == nil || ph.Block() != h {
			continue
		}
		lp := boundedLoop{head: h, in: map[*ssa.BasicBlock]bool{h: true}}
		var work []*ssa.BasicBlock
		tp, kp := x.lin(ph)
		full := true
		fromN := false
		for i, pr := range h.Preds {
			te, ke := x.lin(ph.Edges[i])
			if isBackEdge(pr, h) {
				work = append(work, pr)
				d := ke - kp
				if te != tp || !zeroBound && d != 1 || zeroBound && d != -1 {
					full = false
				}
				continue
			}
			if zeroBound {
				if x.m.canonOf(strip(ph.Edges[i])) == x.m.canonOf(n) {
					fromN = true
				}
			} else if te != zero || ke != 0 {
				full = false
			}
		}
		if len(work) == 0 || zeroBound && !fromN {
			continue
		}
		if !zeroBound && !strict {
			full = false
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if lp.in[b] {
				continue
			}
			lp.in[b] = true
			work = append(work, b.Preds...)
		}
		lp.full = full
		out = append(out, lp)
	}
	return out
}

// sameConds maps conditions of f that compare the same settings - fields that
// nothing called from f changes - to one representative.
func (a *outAn) sameConds(f *ssa.Function) func(ssa.Value) ssa.Value {
	var conds []ssa.Value
	for _, b := range f.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			conds = append(conds, a.m.canonOf(iff.Cond))
		}
	}
	return func(v ssa.Value) ssa.Value {
		for _, c := range conds {
			if c == v || a.sameSetting(f, c, v, 0) {
				return c
			}
		}
		return v
	}
}

func (a *outAn) sameSetting(f *ssa.Function, x, y ssa.Value, d int) bool {
	x, y = a.m.canonOf(x), a.m.canonOf(y)
	if x == y {
		return true
	}
	if d > 6 {
		return false
	}
	switch p := x.(type) {
	case *ssa.Const:
		q, ok := y.(*ssa.Const)
		return ok && p.Value != nil && q.Value != nil && p.Value.ExactString() == q.Value.ExactString()
	case *ssa.BinOp:
		q, ok := y.(*ssa.BinOp)
		return ok && p.Op == q.Op && a.sameSetting(f, p.X, q.X, d+1) && a.sameSetting(f, p.Y, q.Y, d+1)
	case *ssa.Convert:
		q, ok := y.(*ssa.Convert)
		return ok && types.Identical(p.Type(), q.Type()) && a.sameSetting(f, p.X, q.X, d+1)
	case *ssa.UnOp:
		q, ok := y.(*ssa.UnOp)
		if !ok || p.Op != q.Op {
			return false
		}
		if p.Op != token.MUL {
			return a.sameSetting(f, p.X, q.X, d+1)
		}
		fx, ok1 := p.X.(*ssa.FieldAddr)
		fy, ok2 := q.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fx.Field == fy.Field && a.sameSetting(f, fx.X, fy.X, d+1) && a.settled(f, fx)
	}
	return false
}

// settled: no store to this field can happen while f runs.
func (a *outAn) settled(f *ssa.Function, fa *ssa.FieldAddr) bool {
	t := namedOf(deref(fa.X.Type()))
	if t == nil {
		return false
	}
	reach := map[*ssa.Function]bool{}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if reach[g] || !a.p.InModule(g) {
			continue
		}
		reach[g] = true
		eachInstr(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				work = append(work, a.p.Callees(ci.Common())...)
			}
			for _, op := range in.Operands(nil) {
				if h, ok := (*op).(*ssa.Function); ok {
					work = append(work, h)
				}
			}
		})
	}
	for g := range reach {
		bad := false
		eachInstr(g, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			f2, ok := s.Addr.(*ssa.FieldAddr)
			if ok && f2.Field == fa.Field && namedOf(deref(f2.X.Type())) == t {
				if _, fresh := f2.X.(*ssa.Alloc); !fresh {
					bad = true
				}
			}
		})
		if bad {
			return false
		}
	}
	return true
}
