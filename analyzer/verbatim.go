package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule verbatim (C18): texts reach the document as they are in the input. Only
// white space around them may go.

// alters: library functions that return something else than their argument says.
func alters(pkg, name string) bool {
	if pkg != "strings" && pkg != "bytes" {
		return false
	}
	switch name {
	case "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc", "TrimLeftFunc", "TrimRightFunc",
		"CutPrefix", "CutSuffix", "Replace", "ReplaceAll", "ToLower", "ToUpper", "Title", "ToTitle", "Map", "Repeat":
		return true
	}
	return false
}

// altered: v is a changed copy of the text of a node or attribute; with any set,
// of whatever text.
func (a *capAn) altered(v ssa.Value, any bool, d int, seen map[ssa.Value]bool) ssa.Instruction {
	v = a.m.canonOf(v)
	if v == nil || seen[v] || d > 8 {
		return nil
	}
	seen[v] = true
	walk := func(x ssa.Value) ssa.Instruction { return a.altered(x, any, d+1, seen) }
	switch x := v.(type) {
	case *ssa.Convert:
		return walk(x.X)
	case *ssa.ChangeType:
		return walk(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			return walk(c)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if in := walk(e); in != nil {
				return in
			}
		}
	case *ssa.Slice:
		if isStringType(x.X.Type()) && (x.Low != nil || x.High != nil) && (any || a.itemText(x.X, 0)) {
			return x
		}
	case *ssa.Call:
		pkg, name := extCallee(&x.Call)
		if alters(pkg, name) && len(x.Call.Args) > 0 {
			if len(x.Call.Args) == 2 {
				if c, ok := strConst(x.Call.Args[1]); ok && (name == "Trim" || name == "TrimLeft" || name == "TrimRight") && strings.TrimSpace(c) == "" {
					return walk(x.Call.Args[0])
				}
			}
			if any || a.itemText(x.Call.Args[0], 0) {
				return x
			}
			return nil
		}
		if pkg == "strings" && name == "TrimSpace" || pkg == "bytes" && name == "TrimSpace" {
			return walk(x.Call.Args[0])
		}
		g := x.Call.StaticCallee()
		if g == nil || !a.p.InModule(g) || g.Signature.Results().Len() == 0 || !isStringType(g.Signature.Results().At(0).Type()) {
			return nil
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, r := range retValues(ret, 0) {
				if in := a.altered(r, true, d+3, seen); in != nil {
					for _, arg := range x.Call.Args {
						if any || a.itemText(arg, 0) {
							return x
						}
					}
				}
			}
		}
	}
	return nil
}

// itemText: v is the value of a node or an attribute.
func (a *capAn) itemText(v ssa.Value, d int) bool {
	v = a.m.canonOf(v)
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return a.itemText(x.X, d+1)
	case *ssa.Call:
		if pkg, name := extCallee(&x.Call); (pkg == "strings" || pkg == "bytes") && len(x.Call.Args) > 0 && (name == "TrimSpace" || alters(pkg, name)) {
			return a.itemText(x.Call.Args[0], d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && isStringType(deref(fa.Type())) {
				return a.isNode(fa.X.Type()) || a.isAttr(deref(fa.X.Type()))
			}
		}
	case *ssa.Field:
		return isStringType(x.Type()) && a.isAttr(x.X.Type())
	}
	return false
}

func (a *capAn) verbatim() {
	for _, f := range a.p.LibFuncs() {
		if !a.decodes(f) && !(f.Signature.Recv() != nil && a.isNode(f.Signature.Recv().Type()) && a.errs(f) && f.Name() == "UnmarshalXML") {
			continue
		}
		bad := func(in, at ssa.Instruction, what string) {
			a.r.failAlt("verbatim", a.keys(f, "verbatim "+what), a.p.InstrPos(at), "%s changes a text of the input (%s) before storing it", a.p.FName(f), a.p.InstrPos(in))
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !isStringType(x.Val.Type()) {
					return
				}
				n := namedOf(deref(fa.X.Type()))
				hdr := n == a.doc || n == a.dec
				if !hdr && !a.isNode(fa.X.Type()) && !a.isAttr(deref(fa.X.Type())) {
					return
				}
				a.r.Units["texts"]++
				if al := a.altered(x.Val, true, 0, map[ssa.Value]bool{}); al != nil {
					bad(al, in, structField(fa.X.Type(), fa.Field).Name())
				} else {
					a.r.ok("verbatim: %s (%s)", a.p.FName(f), a.p.InstrPos(in))
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if !(x.Call.IsInvoke() && x.Call.Method.Name() == "UnmarshalText") && (g == nil || !a.p.InModule(g) || !a.errs(g)) {
					return
				}
				for _, arg := range x.Call.Args {
					if !isStringType(arg.Type()) && !isByteSlice(arg.Type()) {
						continue
					}
					a.r.Units["texts"]++
					if al := a.altered(arg, false, 0, map[ssa.Value]bool{}); al != nil {
						bad(al, in, "argument")
					}
				}
			}
		})
	}
}
