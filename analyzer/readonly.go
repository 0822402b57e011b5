package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: reading operations do not change what they read.

func init() { register("C07", checkReadOnly) }

// readOp classifies exported operations that only answer a question. The value
// is the set of parameters that are outputs by contract (nil: none).
func readOp(f *ssa.Function) (bool, map[string]bool) {
	n := f.Name()
	recv := f.Signature.Recv() != nil
	switch n {
	case "String", "IsZero", "MarshalText", "Typ", "Name", "FullName", "Namespace", "Namespaces", "Nodes", "Len", "Fields", "Push", "Pop", "PopFront",
		"Index", "Diff", "Unique", "Default", "Value", "Less", "Equal", "Before", "After", "Between", "Addr", "IsDirty",
		"MatchNamespace", "MatchAttrName", "MatchXMLName", "Expand", "Split", "XMLName", "RootName", "PeekNamespacePrefix", "NamespacePrefix",
		"ArrayType", "XML", "Prefix", "Short", "Prefixes", "Dump", "DumpNamespaces", "Can", "CanTag", "GoString", "Time", "AppendIndex", "AppendIndexString":
		return recv, nil
	case "MarshalXMP", "MarshalXMPAttr":
		return recv, map[string]bool{"Encoder": true, "Node": true}
	case "MarshalJSON":
		return recv, nil
	case "MarshalXML", "MarshalXMLAttr":
		return recv, map[string]bool{"Encoder": true}
	case "GetModelPath", "ListModelPaths", "GetNativeField", "GetLocaleField", "ListNativeFields", "ToString", "ToRawString", "GetNamespace", "GetGroupNamespaces", "Marshal", "MarshalIndent", "MarshalArray", "ParseFilter", "ParseFilterStrict", "ParseSyncFlags":
		if n == "MarshalArray" {
			return true, map[string]bool{"Encoder": true, "Node": true}
		}
		return true, nil
	case "Encode":
		return recv, map[string]bool{"Encoder": true}
	}
	for _, p := range []string{"Get", "Find", "List", "Is", "Has", "Contains", "Can"} {
		if strings.HasPrefix(n, p) && (len(n) == len(p) || n[len(p)] >= 'A' && n[len(p)] <= 'Z') {
			return recv, nil
		}
	}
	return false, nil
}

func checkReadOnly(p *Prog, r *Result) {
	r.Explain = "Rule read-only: for every exported reading operation (String, IsZero, Marshal*, Get*, Find*, List*, Is*, Has*, Can*, Contains*, Namespaces, Encode, ...) the interprocedural mutation summary - stores, map updates, in-place appends, sorting, reflect setters, through every module callee and interface implementation - contains no write to memory reachable from its receiver or arguments, except the encoder and the output node it is asked to fill. The documented model synchronisation before writing (syncToXMP) is the one permitted effect; replacing a nil pointer by a fresh zero value is not counted as a change."
	sync := func(f *ssa.Function) bool {
		// the documented implicit synchronisation, and models' own sync hooks
		return f.Signature.Recv() != nil && namedIs(f.Signature.Recv().Type(), "Document") && (f.Name() == "syncToXMP" || f.Name() == "syncFromXMP")
	}
	e := p.newEffects(sync)
	var names []string
	fs := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		if !p.libFunc(f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if ok, _ := readOp(f); ok {
			names = append(names, p.FName(f))
			fs[p.FName(f)] = f
		}
	}
	sort.Strings(names)
	for _, n := range names {
		f := fs[n]
		_, outp := readOp(f)
		r.Units["reading_operations"]++
		for i, prm := range f.Params {
			if !hasPointers(prm.Type()) {
				continue
			}
			if nt := namedOf(prm.Type()); nt != nil && outp[nt.Obj().Name()] && i > 0 {
				continue
			}
			if nt := namedOf(prm.Type()); nt != nil && outp[nt.Obj().Name()] && i == 0 && nt.Obj().Name() == "Encoder" {
				continue
			}
			if _, ok := prm.Type().Underlying().(*types.Interface); ok && nt0(prm) == "Writer" {
				continue
			}
			if _, ok := e.sum[f].mut[i]; ok {
				chain, in := e.chain(f, i)
				via := ""
				if chain != "" {
					via = " through " + chain
				}
				what := "its argument " + prm.Name()
				if i == 0 && f.Signature.Recv() != nil {
					what = "its receiver"
				}
				r.fail("read-mutates", n+"/"+prm.Name(), p.InstrPos(in), "reading operation %s writes to memory reachable from %s%s", n, what, via)
			} else {
				r.ok("%s does not write through %s", n, prm.Name())
			}
		}
	}
	r.need("reading_operations", 60)
}

func nt0(prm *ssa.Parameter) string {
	if n := namedOf(prm.Type()); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func namedIs(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name
}
