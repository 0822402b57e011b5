package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: packet scanning does not depend on how the input is delivered.

func init() { register("C26", checkScan) }

func checkScan(p *Prog, r *Result) {
	r.Explain = "For every split function handed to a bufio.Scanner: on each return that skips input without a token while more input may follow, the skipped amount is proven (difference-constraint prover) to be at most the position of the packet start found, or, when no start was found, at most len(data)-(len(marker)-1), so that a marker cut in two by the reader survives. Each returned token is proven to begin at the marker found, to be skipped completely and not beyond its end, and to extend past the end marker by exactly the length of the trailer the library writes. The constants the encoder writes are checked against the constants the scanner looks for. Searches take the first match. Scanner bytes that are kept must be copied, and the scanner's buffer limit must be raised to at least 64 MB."
	x := p.Prover()
	splits := map[*ssa.Function]bool{}
	written := writtenConsts(p)
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			pkg, name := extCallee(&c.Call)
			if pkg != "bufio" {
				return
			}
			switch name {
			case "Split":
				if len(c.Call.Args) == 2 {
					if g := funcValue(c.Call.Args[1]); g != nil && p.InModule(g) && len(g.Blocks) > 0 {
						splits[g] = true
					}
				}
			case "NewScanner":
				r.Units["scanners"]++
				if !bufferRaised(p, c) {
					r.fail("limit", p.FName(f)+": scanner limit", p.InstrPos(in), "the scanner's limit is too small (64 KB unless raised; %d MB required), so larger packets cannot be read", minScan>>20)
				} else {
					r.ok("%s: the scanner created at %s has its buffer limit raised", p.FName(f), p.InstrPos(in))
				}
			case "Bytes":
				if c.Call.StaticCallee() == nil || !strings.Contains(c.Call.StaticCallee().String(), "Scanner") {
					return
				}
				r.Units["scanner_tokens"]++
				if at := kept(p, c, map[ssa.Value]bool{}, 0); at != nil {
					r.fail("copy", p.FName(f)+": scanner token", p.InstrPos(at), "bytes owned by the scanner are kept without copying them, so the next read overwrites them")
				} else {
					r.ok("%s: scanner bytes are copied before they are kept", p.FName(f))
				}
			}
		})
	}
	for _, f := range p.Funcs {
		if splits[f] {
			checkSplit(p, r, x, f, written)
		}
	}
	r.need("split_functions", 1)
}

func funcValue(v ssa.Value) *ssa.Function {
	switch d := v.(type) {
	case *ssa.Function:
		return d
	case *ssa.ChangeType:
		return funcValue(d.X)
	case *ssa.MakeClosure:
		if g, ok := d.Fn.(*ssa.Function); ok {
			return g
		}
	case *ssa.Convert:
		return funcValue(d.X)
	}
	return nil
}

// minScan is the least packet size (in bytes) a scanner must be able to hold:
// bufio cannot scan without a limit, so one is accepted that no packet reaches.
const minScan = 1 << 26

// bufferRaised: (*Scanner).Buffer is called on s, here or in a function s is
// handed to or returned to, with a limit above the default.
func bufferRaised(p *Prog, s ssa.Value) bool {
	var seen = map[ssa.Value]bool{}
	var look func(v ssa.Value, d int) bool
	look = func(v ssa.Value, d int) bool {
		if seen[v] || d > 6 || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.Call:
				if pkg, name := extCallee(&t.Call); pkg == "bufio" && name == "Buffer" {
					if k, ok := intConst(t.Call.Args[2]); !ok || k >= minScan {
						return true
					}
				}
				for _, g := range p.Callees(&t.Call) {
					for i, a := range t.Call.Args {
						if a == v && i < len(g.Params) && look(g.Params[i], d+1) {
							return true
						}
					}
				}
			case *ssa.Return:
				for _, cs := range p.Callers(u.Parent()) {
					if c, ok := cs.(*ssa.Call); ok && look(c, d+1) {
						return true
					}
				}
			case *ssa.Phi:
				if look(t, d+1) {
					return true
				}
			case *ssa.Store:
				if t.Val == v {
					if al, ok := t.Addr.(*ssa.Alloc); ok {
						for _, w := range *al.Referrers() {
							if l, ok := w.(*ssa.UnOp); ok && look(l, d+1) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return look(s, 0)
}

// kept: an instruction that keeps the bytes v beyond the current iteration.
func kept(p *Prog, v ssa.Value, seen map[ssa.Value]bool, d int) ssa.Instruction {
	if seen[v] || d > 8 || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch t := u.(type) {
		case *ssa.Slice:
			if k := kept(p, t, seen, d); k != nil {
				return k
			}
		case *ssa.Phi:
			if k := kept(p, t, seen, d); k != nil {
				return k
			}
		case *ssa.ChangeType:
			if k := kept(p, t, seen, d); k != nil {
				return k
			}
		case *ssa.MakeInterface:
			return u
		case *ssa.Store:
			if t.Val != v {
				continue
			}
			if al, ok := t.Addr.(*ssa.Alloc); ok && !al.Heap {
				for _, w := range *al.Referrers() {
					if l, ok := w.(*ssa.UnOp); ok {
						if k := kept(p, l, seen, d); k != nil {
							return k
						}
					}
				}
				continue
			}
			return u
		case *ssa.Return:
			for _, cs := range p.Callers(u.Parent()) {
				if c, ok := cs.(*ssa.Call); ok {
					if _, tup := c.Type().(*types.Tuple); !tup {
						if k := kept(p, c, seen, d+1); k != nil {
							return k
						}
					}
				}
			}
		case *ssa.Send, *ssa.MapUpdate, *ssa.MakeClosure:
			return u
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok {
				// append(x, b...) copies the bytes; append([][]byte, b) goes
				// through a store into the variadic array
				_ = b
				continue
			}
			for _, g := range p.Callees(&t.Call) {
				if !p.InModule(g) {
					continue
				}
				for i, a := range callArgs(&t.Call) {
					if a == v && i < len(g.Params) {
						if k := kept(p, g.Params[i], seen, d+1); k != nil {
							return k
						}
					}
				}
				// handed through to the result
				if sl, ok := t.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
					if returnsParam(g, t, v) {
						if k := kept(p, t, seen, d+1); k != nil {
							return k
						}
					}
				}
			}
			if pkg, name := extCallee(&t.Call); pkg == "bytes" && (strings.HasPrefix(name, "Trim") || name == "Fields" || strings.HasPrefix(name, "Split")) {
				if k := kept(p, t, seen, d+1); k != nil {
					return k
				}
			}
		}
	}
	return nil
}

func returnsParam(g *ssa.Function, c *ssa.Call, v ssa.Value) bool {
	var from func(w ssa.Value, d int) bool
	from = func(w ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch t := w.(type) {
		case *ssa.Parameter:
			for i, a := range c.Call.Args {
				if a == v && i < len(g.Params) && g.Params[i] == t {
					return true
				}
			}
		case *ssa.Slice:
			return from(t.X, d+1)
		case *ssa.Phi:
			for _, e := range t.Edges {
				if from(e, d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && from(ret.Results[0], 0) {
			return true
		}
	}
	return false
}

// constBytes: v always holds this text.
func (p *Prog) constBytes(v ssa.Value, d int) (string, bool) {
	if d > 6 {
		return "", false
	}
	if s, ok := strConst(v); ok {
		return s, true
	}
	switch t := v.(type) {
	case *ssa.Convert:
		return p.constBytes(t.X, d+1)
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL {
			if s := p.singleStore(g); s != nil {
				return p.constBytes(s, d+1)
			}
		}
	case *ssa.Const:
		if t.Value != nil && t.Value.Kind() == constant.String {
			return constant.StringVal(t.Value), true
		}
	}
	return "", false
}

// writtenConsts: constant texts handed to a Write method or io.WriteString.
func writtenConsts(p *Prog) []string {
	var out []string
	seen := map[string]bool{}
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if _, ok := c.Call.Value.(*ssa.Builtin); ok {
				return
			}
			for _, a := range c.Call.Args {
				if s, ok := p.constBytes(a, 0); ok && strings.Contains(s, "<?xpacket") && !seen[s] {
					if pkg, _ := extCallee(&c.Call); pkg == "bytes" || pkg == "strings" {
						continue
					}
					seen[s] = true
					out = append(out, s)
				}
			}
		})
	}
	return out
}

// sum: v as a sum of values with coefficients plus a constant.
func (x *prover) sum(v ssa.Value, sign int64, coef map[term]int64, d int) (k int64) {
	if d > 12 {
		t, c := x.lin(v)
		coef[t] += sign
		return sign * c
	}
	t, c := x.lin(v)
	if t == zero {
		return sign * c
	}
	if !t.ln {
		if b, ok := t.v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			s2 := sign
			if b.Op == token.SUB {
				s2 = -sign
			}
			return sign*c + x.sum(b.X, sign, coef, d+1) + x.sum(b.Y, s2, coef, d+1)
		}
	}
	if t.ln {
		if s, ok := x.p.constBytes(t.v, 0); ok {
			return sign * (c + int64(len(s)))
		}
	}
	coef[t] += sign
	return sign * c
}

type search struct {
	call   *ssa.Call
	pat    string
	in     ssa.Value // searched text
	sliced ssa.Value // low bound when in is a slice of the data
}

func checkSplit(p *Prog, r *Result, x *prover, f *ssa.Function, written []string) {
	r.Units["split_functions"]++
	if len(f.Params) < 2 {
		return
	}
	data, atEOF := f.Params[len(f.Params)-2], f.Params[len(f.Params)-1]
	// searches in the data for constant markers
	var whole, rest []search
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		pkg, name := extCallee(&c.Call)
		if pkg != "bytes" || name != "Index" && name != "LastIndex" {
			return
		}
		pat, ok := p.constBytes(c.Call.Args[1], 0)
		if !ok {
			return
		}
		s := search{call: c, pat: pat, in: x.m.canonOf(c.Call.Args[0])}
		if s.in == data {
			whole = append(whole, s)
			return
		}
		if sl, ok := s.in.(*ssa.Slice); ok && x.m.canonOf(sl.X) == data && sl.High == nil && sl.Low != nil {
			s.sliced = sl.Low
			rest = append(rest, s)
		}
	})
	if len(whole) == 0 {
		r.undecided("%s: no search for a constant marker in the data", p.FName(f))
		return
	}
	for _, s := range append(append([]search{}, whole...), rest...) {
		r.Units["searches"]++
		if _, name := extCallee(&s.call.Call); name == "LastIndex" {
			r.fail("first", p.FName(f)+": search for "+strconv.Quote(s.pat), p.InstrPos(s.call), "%s looks for the last %q instead of the next, so packets that arrive in one block are taken for one", p.FName(f), s.pat)
		} else {
			r.ok("first: %s (%s) looks for the next %q", p.FName(f), p.InstrPos(s.call), s.pat)
		}
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover || len(ret.Results) != 3 {
			continue
		}
		for _, row := range splitRows(ret) {
			adv, tok, blk := row.adv, row.tok, row.blk
			if isNilConst(tok) {
				r.Units["skips"]++
				sk := &skipper{p: p, x: x}
				if sk.ok(adv, blk, row.edge, skipEnv{data: data, eof: atEOF, whole: whole}, 0) {
					r.ok("%s: the return at %s keeps what may be the beginning of a marker", p.FName(f), p.InstrPos(ret))
				} else {
					r.fail("skip", p.FName(f)+": input skipped without a token", p.InstrPos(ret), "%s can skip input that holds the beginning of a packet although more input may follow, so whether the packet is found depends on how the reader cuts the input", p.FName(f))
				}
				continue
			}
			r.Units["tokens"]++
			sl, ok := x.m.canonOf(tok).(*ssa.Slice)
			if !ok || x.m.canonOf(sl.X) != data {
				r.undecided("%s: token at %s is not a slice of the data", p.FName(f), p.InstrPos(ret))
				continue
			}
			var start *search
			for i, s := range whole {
				if sl.Low != nil {
					tl, kl := x.lin(sl.Low)
					ts, ks := x.lin(s.call)
					if tl == ts && kl == ks {
						start = &whole[i]
					}
				}
			}
			if start == nil {
				r.fail("token", p.FName(f)+": token start", p.InstrPos(ret), "the token does not begin where the packet start was found")
				continue
			}
			if sl.High == nil {
				r.undecided("%s: token at %s has no end", p.FName(f), p.InstrPos(ret))
				continue
			}
			if !x.proveVals(adv, sl.High, 0, blk) {
				r.fail("token", p.FName(f)+": input skipped after a token", p.InstrPos(ret), "%s skips input beyond the end of the packet it returns, so a following packet may be lost", p.FName(f))
				continue
			}
			if !x.proveVals(sl.High, adv, 0, blk) {
				r.fail("token", p.FName(f)+": token not skipped", p.InstrPos(ret), "%s does not skip all of the packet it returns", p.FName(f))
				continue
			}
			r.ok("%s: the packet returned at %s begins at its marker and is skipped exactly", p.FName(f), p.InstrPos(ret))
			// trailer
			coef := map[term]int64{}
			k := x.sum(sl.High, 1, coef, 0)
			var end *search
			for i, s := range append(append([]search{}, rest...), whole...) {
				if s.call == start.call {
					continue
				}
				want := map[term]int64{}
				c := x.sum(s.call, 1, want, 0)
				if s.sliced != nil {
					c += x.sum(s.sliced, 1, want, 0)
				}
				if sameCoef(coef, want) {
					all := append(append([]search{}, rest...), whole...)
					end = &all[i]
					k -= c
					break
				}
			}
			if end == nil {
				r.undecided("%s: the end of the packet at %s is not computed from a marker", p.FName(f), p.InstrPos(ret))
				continue
			}
			if end.sliced == nil {
				r.fail("token", p.FName(f)+": end marker", p.InstrPos(ret), "the end marker is searched from the beginning of the data instead of from the packet start, so an earlier packet's end is taken for this one's")
				continue
			}
			if tl, kl := x.lin(end.sliced); true {
				ts, ks := x.lin(start.call)
				if !(tl == ts && kl >= ks && kl <= ks+int64(len(start.pat))) {
					r.undecided("%s: end marker searched from %s", p.FName(f), exprVal(p, end.sliced))
				}
			}
			matched, header := false, false
			for _, w := range written {
				if i := strings.Index(w, end.pat); i > -1 {
					matched = true
					if int64(len(strings.TrimRight(w[i:], "\n "))) != k {
						r.fail("trailer", p.FName(f)+": packet length", p.InstrPos(ret), "the packet is cut %d bytes after the beginning of its end marker, but the library writes a trailer of %d bytes (%q)", k, len(w[i:]), w)
					} else {
						r.ok("%s: the packet ends with the complete trailer the library writes", p.FName(f))
					}
				}
				if strings.HasPrefix(w, start.pat) {
					header = true
				}
			}
			if !matched {
				r.fail("trailer", p.FName(f)+": end marker", p.InstrPos(ret), "no text the library writes contains the end marker %q, so its own packets are not found", end.pat)
			}
			if !header {
				r.fail("trailer", p.FName(f)+": start marker", p.InstrPos(ret), "no text the library writes begins with the start marker %q, so its own packets are not found", start.pat)
			} else {
				r.ok("%s: the library's packet header begins with the marker searched for", p.FName(f))
			}
		}
	}
	// predicates that recognise a packet by a constant inside its first bytes
	for _, g := range p.Funcs {
		if !p.libFunc(g) || g == f {
			continue
		}
		eachInstr(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			pkg, name := extCallee(&c.Call)
			if pkg != "bytes" || name != "Index" && name != "Contains" {
				return
			}
			pat, ok := p.constBytes(c.Call.Args[1], 0)
			if !ok {
				return
			}
			for _, w := range written {
				i := strings.Index(w, pat)
				if i < 0 || len(pat) < 16 {
					continue
				}
				r.Units["magic_tests"]++
				room := 3 // byte order mark, if the header does not hold one
				if strings.Contains(w[:i], "\ufeff") {
					room = 0
				}
				if cut := shortestCut(x, c.Call.Args[0], 0); cut >= 0 && cut < int64(i+len(pat)+room) {
					r.fail("magic", p.FName(g)+": identifier", p.InstrPos(in), "only the first %d bytes are searched for the packet identifier, which ends at byte %d of a packet header with byte order mark", cut, i+len(pat)+room)
				} else {
					r.ok("%s: the packet identifier lies within the searched part of the header", p.FName(g))
				}
			}
		})
	}
}

func sameCoef(a, b map[term]int64) bool {
	for t, k := range a {
		if b[t] != k {
			return false
		}
	}
	for t, k := range b {
		if a[t] != k {
			return false
		}
	}
	return true
}

// shortestCut: the smallest constant length v may have been cut down to, or -1.
func shortestCut(x *prover, v ssa.Value, d int) int64 {
	if d > 5 {
		return -1
	}
	switch t := x.m.canonOf(v).(type) {
	case *ssa.Slice:
		if t.High != nil {
			if k, ok := intConst(t.High); ok {
				return k
			}
		}
		return shortestCut(x, t.X, d+1)
	case *ssa.Phi:
		best := int64(-1)
		for _, e := range t.Edges {
			if k := shortestCut(x, e, d+1); k >= 0 && (best < 0 || k < best) {
				best = k
			}
		}
		return best
	}
	return -1
}

type splitRow struct {
	adv, tok  ssa.Value
	blk, edge *ssa.BasicBlock
}

// splitRows: the (advance, token) pairs a return can yield; phis merged at the
// return are split by predecessor.
func splitRows(ret *ssa.Return) []splitRow {
	b := ret.Block()
	var ph *ssa.Phi
	for _, i := range []int{0, 1} {
		if q, ok := ret.Results[i].(*ssa.Phi); ok && q.Block() == b {
			ph = q
		}
	}
	if ph == nil {
		return []splitRow{{ret.Results[0], ret.Results[1], b, nil}}
	}
	var out []splitRow
	for i, pr := range b.Preds {
		pick := func(v ssa.Value) ssa.Value {
			if q, ok := v.(*ssa.Phi); ok && q.Block() == b {
				return q.Edges[i]
			}
			return v
		}
		out = append(out, splitRow{pick(ret.Results[0]), pick(ret.Results[1]), pr, b})
	}
	return out
}

type skipEnv struct {
	data, eof ssa.Value
	whole     []search
	absent    int64 // length of a marker known to be absent from data
}

type skipper struct {
	p *Prog
	x *prover
}

// ok: skipping v bytes at this point loses no beginning of a marker.
func (s *skipper) ok(v ssa.Value, blk, edge *ssa.BasicBlock, e skipEnv, d int) bool {
	if d > 6 {
		return false
	}
	x := s.x
	prove := func(a, b term, k int64) bool { return x.proveOn(a, b, k, blk, edge) }
	if e.eof != nil {
		a := &nilAn{p: s.p, m: x.m, x: x}
		if a.condKnown(blk, edge, func(c ssa.Value, truth bool) bool { return truth && x.m.canonOf(c) == x.m.canonOf(e.eof) }) {
			return true
		}
	}
	ta, ka := x.lin(v)
	if prove(ta, zero, -ka) {
		return true
	}
	for _, w := range e.whole {
		ts, ks := x.lin(w.call)
		if def := defBlock(ts); def != nil && def != blk && !def.Dominates(blk) {
			continue
		}
		if prove(ta, ts, ks-ka) {
			return true
		}
		if prove(ts, zero, -1-ks) {
			e.absent = int64(len(w.pat))
		}
	}
	if e.absent > 0 && e.data != nil {
		lenData, kData := x.lenOf(e.data)
		if prove(ta, lenData, kData-(e.absent-1)-ka) {
			return true
		}
	}
	switch t := x.m.canonOf(v).(type) {
	case *ssa.Phi:
		for i, ev := range t.Edges {
			if !s.ok(ev, t.Block().Preds[i], t.Block(), e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "max" {
			for _, a := range t.Call.Args {
				if !s.ok(a, blk, edge, e, d+1) {
					return false
				}
			}
			return true
		}
		g := t.Call.StaticCallee()
		if g == nil || !s.p.InModule(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
			return false
		}
		ne := skipEnv{absent: e.absent}
		for i, a := range t.Call.Args {
			if i >= len(g.Params) {
				break
			}
			switch x.m.canonOf(a) {
			case x.m.canonOf(e.data):
				ne.data = g.Params[i]
			case x.m.canonOf(e.eof):
				ne.eof = g.Params[i]
			}
		}
		if ne.data == nil {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != g.Recover {
				if !s.ok(ret.Results[0], b, nil, ne, d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}
