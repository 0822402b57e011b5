package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// registered: the namespaces that reach the registry in some package initialiser.
func (p *Prog) registered() map[*nsInfo]bool {
	if v, ok := p.cache["registered"]; ok {
		return v.(map[*nsInfo]bool)
	}
	out := map[*nsInfo]bool{}
	ce := p.CE()
	rt := p.Named("xmp", "Registry")
	targets := map[*ssa.Function]int{}
	if f := p.Func("xmp", "Register"); f != nil {
		targets[f] = 0
	}
	if rt != nil {
		if f := p.Method(rt, "RegisterNamespace"); f != nil {
			targets[f] = 1
		}
	}
	inits := p.initReachable()
	for t, i := range targets {
		for _, c := range p.Callers(t) {
			if !inits[c.Parent()] || targets[c.Parent()] != 0 && c.Parent().Name() == "Register" {
				continue
			}
			if i >= len(c.Common().Args) {
				continue
			}
			l, _ := ce.nsSet(c.Common().Args[i], map[ssa.Value]bool{})
			for _, n := range l {
				out[n] = true
			}
		}
	}
	p.cache["registered"] = out
	return out
}

// initReachable: functions called (transitively, statically) from package initialisers.
func (p *Prog) initReachable() map[*ssa.Function]bool {
	if v, ok := p.cache["initreach"]; ok {
		return v.(map[*ssa.Function]bool)
	}
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if out[f] {
			return
		}
		out[f] = true
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					g = p.unwrap(g)
					if p.InModule(g) && g.Blocks != nil {
						visit(g)
					}
				}
			}
		})
	}
	for _, f := range p.LibFuncs() {
		if isInit(f) {
			visit(f)
		}
	}
	p.cache["initreach"] = out
	return out
}

func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#")
}

// modelTypes: named types T with *T (or T) implementing Model and living in the library.
func (p *Prog) modelTypes() []*types.Named {
	m := p.Named("xmp", "Model")
	if m == nil {
		return nil
	}
	it := m.Underlying().(*types.Interface)
	var l []*types.Named
	for _, n := range p.NamedTypes() {
		if types.IsInterface(n) {
			continue
		}
		if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
			l = append(l, n)
		}
	}
	sort.Slice(l, func(i, j int) bool { return p.TName(l[i]) < p.TName(l[j]) })
	return l
}

func init() { register("C13", checkModels) }

func checkModels(p *Prog, r *Result) {
	r.Explain = "All namespaces and models of the module, resolved by constant propagation over package initialisers: unique prefix and URI, model namespaces registered, factory of each registered namespace folds to a model whose Can() folds to true for that prefix and whose namespace list contains it, model tag/namespace entry points agree, assertions on looked-up models match the factory's type, and the umbrella import package links every model package."
	ce := p.CE()
	reg := p.registered()
	byPre, byURI := map[string]*nsInfo{}, map[string]*nsInfo{}
	var modelIface *types.Interface
	if m := p.Named("xmp", "Model"); m != nil {
		modelIface = m.Underlying().(*types.Interface)
	} else {
		r.undecided("no Model interface")
		return
	}
	nss := append([]*nsInfo{}, ce.nss...)
	sort.Slice(nss, func(i, j int) bool { return nss[i].Pos < nss[j].Pos })
	pkgName := func(n *nsInfo) string { return n.Site.Parent().Pkg.Pkg.Name() }
	for _, n := range nss {
		r.Units["namespaces"]++
		id := pkgName(n) + " " + n.Prefix
		if n.Unresolved {
			r.undecided("namespace at %s not constant", n.Pos)
			continue
		}
		if n.Prefix == "" || n.URI == "" {
			r.fail("ns-empty", id, n.Pos, "namespace with empty prefix or URI (%q, %q)", n.Prefix, n.URI)
		}
		if o := byPre[n.Prefix]; o != nil && o.URI != n.URI {
			r.fail("ns-prefix-unique", n.Prefix, n.Pos, "prefix %q is bound to %q here and to %q at %s: registration order decides which one wins", n.Prefix, n.URI, o.URI, o.Pos)
		}
		if o := byURI[n.URI]; o != nil && o.Prefix != n.Prefix {
			r.fail("ns-uri-unique", n.URI, n.Pos, "URI %q has prefix %q here and %q at %s", n.URI, n.Prefix, o.Prefix, o.Pos)
		}
		byPre[n.Prefix], byURI[n.URI] = n, n
		if !reg[n] {
			r.fail("ns-registered", id, n.Pos, "namespace %q (%s) is created but never registered in a package initialiser: its prefix cannot be resolved when decoding, encoding or syncing", n.Prefix, n.URI)
		} else {
			r.ok("%s registered as %s", n.URI, n.Prefix)
		}
	}
	r.need("namespaces", 25)

	// factories
	modelOf := map[*types.Named][]*nsInfo{}
	for _, n := range nss {
		if n.Factory == nil || n.Unresolved {
			continue
		}
		rs := ce.returns(n.Factory, &env{args: paramEnv(n.Factory, constant.MakeString(n.Prefix))}, 0)
		id := n.Prefix
		var dyn types.Type
		bad := false
		for _, a := range rs {
			if a == nil {
				bad = true
				continue
			}
			if a.isNil {
				continue
			}
			if a.dyn == nil || dyn != nil && !types.Identical(dyn, a.dyn) {
				bad = true
				continue
			}
			dyn = a.dyn
		}
		r.Units["factories"]++
		if dyn == nil && !bad {
			r.ok("namespace %s has no model (factory folds to nil)", id)
			continue
		}
		if dyn == nil || bad {
			r.undecided("factory of %s does not fold to one type", id)
			continue
		}
		nt := namedOf(dyn)
		if nt == nil {
			r.undecided("factory of %s: unnamed type", id)
			continue
		}
		modelOf[nt] = append(modelOf[nt], n)
		// Can(prefix)
		if can := p.Method(nt, "Can"); can != nil {
			args := map[*ssa.Parameter]*aval{}
			if len(can.Params) == 2 {
				args[can.Params[1]] = &aval{k: constant.MakeString(n.Prefix)}
			}
			vs := ce.returns(can, &env{args: args}, 0)
			t, f, u := 0, 0, 0
			for _, v := range vs {
				switch {
				case v == nil || v.k == nil:
					u++
				case constant.BoolVal(v.k):
					t++
				default:
					f++
				}
			}
			r.Units["can_evaluations"]++
			switch {
			case t > 0 && f == 0 && u == 0:
				r.ok("%s.Can(%q) folds to true", p.TName(nt), n.Prefix)
			case t == 0 && u == 0:
				r.fail("model-can", p.TName(nt)+" "+n.Prefix, p.Pos(can.Pos()), "namespace %q is registered with a factory creating %s, but %s.Can(%q) is false: the model made for the namespace is never found again", n.Prefix, p.TName(nt), p.TName(nt), n.Prefix)
			default:
				r.undecided("%s.Can(%q) does not fold", p.TName(nt), n.Prefix)
			}
			// and does not claim foreign prefixes
			for _, o := range nss {
				if o == n || o.Factory == nil || o.Unresolved || o.Factory == n.Factory {
					continue
				}
				if len(can.Params) == 2 {
					args = map[*ssa.Parameter]*aval{can.Params[1]: {k: constant.MakeString(o.Prefix)}}
				}
				vs := ce.returns(can, &env{args: args}, 0)
				tt := len(vs) > 0
				for _, v := range vs {
					if v == nil || v.k == nil || !constant.BoolVal(v.k) {
						tt = false
					}
				}
				if tt && !sameModel(ce, o, nt) {
					r.fail("model-can-foreign", p.TName(nt)+" "+o.Prefix, p.Pos(can.Pos()), "%s.Can(%q) is true although %q belongs to another model", p.TName(nt), o.Prefix, o.Prefix)
				}
			}
		} else {
			r.undecided("%s has no Can", p.TName(nt))
		}
		// Namespaces() contains it
		if nf := p.Method(nt, "Namespaces"); nf != nil {
			set, ok := retNs(ce, nf)
			has := false
			for _, s := range set {
				if s == n || s.Prefix == n.Prefix && s.URI == n.URI {
					has = true
				}
			}
			r.Units["namespace_lists"]++
			if has {
				r.ok("%s.Namespaces() contains %s", p.TName(nt), n.Prefix)
			} else if ok {
				r.fail("model-namespaces", p.TName(nt)+" "+n.Prefix, p.Pos(nf.Pos()), "%s is created for namespace %q but its namespace list does not contain it", p.TName(nt), n.Prefix)
			} else {
				r.undecided("%s.Namespaces() not resolved", p.TName(nt))
			}
		}
	}
	r.need("factories", 18)
	r.need("can_evaluations", 15)

	for _, nt := range p.modelTypes() {
		if !p.libType(nt) {
			continue
		}
		r.Units["models"]++
		nf := p.Method(nt, "Namespaces")
		if nf == nil {
			continue
		}
		set, ok := retNs(ce, nf)
		if ok && len(set) == 0 {
			r.fail("model-namespaces", p.TName(nt), p.Pos(nf.Pos()), "%s lists no namespace", p.TName(nt))
		}
		for _, s := range set {
			if !reg[s] {
				r.fail("model-ns-registered", p.TName(nt)+" "+s.Prefix, s.Pos, "%s lists namespace %q which is never registered", p.TName(nt), s.Prefix)
			} else {
				r.Obligations++
				r.Discharged++
			}
		}
		served := len(modelOf[nt]) > 0
		for _, s := range set {
			served = served || s.Factory != nil
		}
		if !served && ok {
			r.fail("model-factory", p.TName(nt), p.Pos(nt.Obj().Pos()), "no registered namespace with a model factory serves %s", p.TName(nt))
		}
	}
	r.need("models", 15)

	checkFindAssertions(p, r, ce, modelIface)
	checkImports(p, r)
}

func (p *Prog) libType(n *types.Named) bool {
	sp := p.SSAPkgs[n.Obj().Pkg()]
	if sp == nil {
		return false
	}
	path := sp.Pkg.Path()
	return path == p.ModPath+"/xmp" || len(path) > len(p.ModPath)+8 && path[len(p.ModPath):len(p.ModPath)+8] == "/models/"
}

func paramEnv(f *ssa.Function, k constant.Value) map[*ssa.Parameter]*aval {
	m := map[*ssa.Parameter]*aval{}
	for _, q := range f.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			m[q] = &aval{k: k}
		}
	}
	return m
}

func retNs(ce *consteval, f *ssa.Function) ([]*nsInfo, bool) {
	var out []*nsInfo
	ok := true
	eachInstr(f, func(in ssa.Instruction) {
		if rt, k := in.(*ssa.Return); k && len(rt.Results) > 0 {
			l, k2 := ce.nsSet(rt.Results[0], map[ssa.Value]bool{})
			out = append(out, l...)
			ok = ok && k2
		}
	})
	return out, ok
}

func sameModel(ce *consteval, n *nsInfo, nt *types.Named) bool {
	for _, a := range ce.returns(n.Factory, &env{args: paramEnv(n.Factory, constant.MakeString(n.Prefix))}, 0) {
		if a != nil && a.dyn != nil && namedOf(a.dyn) == nt {
			return true
		}
	}
	return false
}

// modelLookups: functions that return the model of a namespace argument.
func (p *Prog) modelLookup(f *ssa.Function) bool {
	if f == nil || !p.InModule(f) {
		return false
	}
	switch f.Name() {
	case "FindModel", "MakeModel", "NewModel":
		return f.Signature.Recv() != nil
	}
	return false
}

// checkFindAssertions: x.(*T) applied to the model looked up for namespace ns must match ns's factory.
func checkFindAssertions(p *Prog, r *Result, ce *consteval, mi *types.Interface) {
	for _, f := range p.LibFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || types.IsInterface(ta.AssertedType) {
				return
			}
			nss, ok := lookupNs(p, ce, ta.X, map[ssa.Value]bool{})
			if !ok || len(nss) == 0 {
				return
			}
			nt := namedOf(ta.AssertedType)
			r.Units["lookup_assertions"]++
			for _, n := range nss {
				if n.Factory == nil || n.Unresolved {
					continue
				}
				rs := ce.returns(n.Factory, &env{args: paramEnv(n.Factory, constant.MakeString(n.Prefix))}, 0)
				for _, a := range rs {
					if a == nil || a.dyn == nil {
						continue
					}
					if !types.Identical(a.dyn, ta.AssertedType) {
						r.fail("find-assert", p.FName(f)+" "+p.TName(ta.AssertedType)+" "+n.Prefix, p.InstrPos(in), "the model found for namespace %q is asserted to be %s but its factory creates %s: the lookup panics or always misses", n.Prefix, p.TName(ta.AssertedType), p.TName(a.dyn))
					} else {
						r.ok("%s: model of %s is %s", p.FName(f), n.Prefix, nt.Obj().Name())
					}
				}
			}
		})
	}
	r.need("lookup_assertions", 15)
}

func lookupNs(p *Prog, ce *consteval, v ssa.Value, seen map[ssa.Value]bool) ([]*nsInfo, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		var out []*nsInfo
		for _, e := range v.Edges {
			l, ok := lookupNs(p, ce, e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	case *ssa.Extract:
		if v.Index == 0 {
			return lookupNs(p, ce, v.Tuple, seen)
		}
	case *ssa.Const:
		return nil, true
	case *ssa.Call:
		f := p.unwrap(v.Common().StaticCallee())
		if p.modelLookup(f) && !v.Common().IsInvoke() {
			for i, a := range v.Common().Args {
				nt := namedOf(a.Type())
				if nt != nil && nt.Obj().Name() == "Namespace" && (i > 0 || f.Name() == "NewModel") {
					return ce.nsSet(a, map[ssa.Value]bool{})
				}
			}
		}
	}
	return nil, false
}

// checkImports: every package below models/ that registers namespaces is linked by the umbrella package.
func checkImports(p *Prog, r *Result) {
	var umb *ssa.Package
	for t, sp := range p.SSAPkgs {
		if t.Path() == p.ModPath+"/models" {
			umb = sp
		}
	}
	if umb == nil {
		r.undecided("no umbrella models package")
		return
	}
	reach := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if reach[t] {
			return
		}
		reach[t] = true
		for _, i := range t.Imports() {
			visit(i)
		}
	}
	visit(umb.Pkg)
	names := map[string]bool{}
	for t := range reach {
		names[t.Path()] = true
	}
	var pk []string
	has := map[string]bool{}
	for _, nt := range p.modelTypes() {
		path := nt.Obj().Pkg().Path()
		if p.libType(nt) && !has[path] && path != p.ModPath+"/xmp" {
			has[path] = true
			pk = append(pk, path)
		}
	}
	sort.Strings(pk)
	for _, path := range pk {
		r.Units["model_packages"]++
		if !names[path] {
			r.fail("umbrella-import", path[len(p.ModPath)+1:], p.Pos(firstPos(umb)), "package %s registers a model but importing the models package does not link it, so documents using it lose the model", path[len(p.ModPath)+1:])
		} else {
			r.ok("models imports %s", path[len(p.ModPath)+1:])
		}
	}
	r.need("model_packages", 15)
}

func firstPos(sp *ssa.Package) token.Pos {
	for _, m := range sp.Members {
		if m.Pos().IsValid() {
			return m.Pos()
		}
	}
	return 0
}
