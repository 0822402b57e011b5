package main

import (
	_ "embed"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Before anything is analysed the program is brought into a normal form, by
// steps that keep what it does:
//
//   - the body of a helper - a function that is not exported, is only ever
//     called directly, and that the rules do not know by role (it is not in
//     known_funcs.txt) - is put in place of its calls,
//   - so is the body of a function literal that is called where it stands,
//   - a test of a value that was just joined from several paths is decided on
//     each path where the outcome is known,
//   - values joined only to be returned are returned on each path.

//go:embed known_funcs.txt
var knownFuncs string

const maxInlineSites = 4

var debugNormal = os.Getenv("XV_SANE") != ""

func (p *Prog) normalise() {
	known := map[string]bool{}
	missing := map[string]bool{}
	have := map[string]bool{}
	for _, f := range p.Funcs {
		have[f.String()] = true
	}
	for _, l := range strings.Split(knownFuncs, "\n") {
		if n, sig, ok := strings.Cut(l, "\t"); ok {
			known[n] = true
			if !have[n] {
				missing[sig] = true // it may go by another name
			}
		}
	}
	p.aliases(have)
	ifaceMethods := map[string]bool{}
	for _, k := range p.Pkgs {
		sc := k.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if i, ok := tn.Type().Underlying().(*types.Interface); ok {
					for j := 0; j < i.NumMethods(); j++ {
						ifaceMethods[i.Method(j).Name()] = true
					}
				}
			}
		}
	}
	isHelper := func(g *ssa.Function) bool {
		if len(known) < 2 {
			return false
		}
		if g == nil || g.Object() == nil || g.Object().Exported() || g.Object().Pkg() == nil || !p.inMod[g.Object().Pkg()] || g.Name() == "init" || g.Name() == "main" {
			return false
		}
		if g.Synthetic != "" || known[g.String()] || missing[g.Signature.String()] || g.Signature.Recv() != nil && ifaceMethods[g.Name()] {
			return false
		}
		return g.TypeParams().Len() == 0 && len(g.TypeArgs()) == 0
	}
	sites := map[*ssa.Function][]*ssa.Call{}
	other := map[*ssa.Function]bool{}
	inside := map[*ssa.Function]map[*ssa.Function]bool{}
	scan := func() {
		sites, other = map[*ssa.Function][]*ssa.Call{}, map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			in := map[*ssa.Function]bool{}
			inside[f] = in
			var rands []*ssa.Value
			eachInstr(f, func(i ssa.Instruction) {
				c, isCall := i.(*ssa.Call)
				rands = i.Operands(rands[:0])
				for _, r := range rands {
					g, ok := (*r).(*ssa.Function)
					if !ok {
						continue
					}
					if isCall && r == &c.Call.Value {
						sites[g] = append(sites[g], c)
						in[g] = true
					} else if _, mc := i.(*ssa.MakeClosure); !mc {
						other[g] = true
					}
				}
			})
		}
	}
	gone := map[*ssa.Function]bool{}
	changed := map[*ssa.Function]bool{}
	for round := 0; round < 8; round++ {
		scan()
		did := false
		for _, f := range p.Funcs {
			// function literals called where they stand
			for again := true; again; {
				again = false
				var todo *ssa.Call
				eachInstr(f, func(i ssa.Instruction) {
					c, ok := i.(*ssa.Call)
					if !ok || todo != nil {
						return
					}
					switch v := c.Call.Value.(type) {
					case *ssa.MakeClosure:
						if len(*v.Referrers()) == 1 && ssa.XVInlinable(v.Fn.(*ssa.Function)) {
							todo = c
						}
					case *ssa.Function:
						if v.Parent() == f && len(sites[v]) == 1 && !other[v] && ssa.XVInlinable(v) {
							todo = c
						}
					}
				})
				if todo == nil {
					break
				}
				g := todo.Call.StaticCallee()
				mc, _ := todo.Call.Value.(*ssa.MakeClosure)
				if !ssa.XVInline(todo) {
					break
				}
				if mc != nil {
					b := mc.Block()
					for k, i := range b.Instrs {
						if i == ssa.Instruction(mc) {
							b.Instrs = append(append([]ssa.Instruction{}, b.Instrs[:k]...), b.Instrs[k+1:]...)
							break
						}
					}
					ssa.XVRefresh(f)
				}
				for k, a := range f.AnonFuncs {
					if a == g {
						f.AnonFuncs = append(append([]*ssa.Function{}, f.AnonFuncs[:k]...), f.AnonFuncs[k+1:]...)
						break
					}
				}
				gone[g], changed[f] = true, true
				again, did = true, true
			}
		}
		if did {
			p.dropFuncs(gone)
			continue
		}
		// helpers that contain no helpers themselves
		for _, g := range p.Funcs {
			if !isHelper(g) || other[g] || len(sites[g]) == 0 || len(sites[g]) > maxInlineSites || !ssa.XVInlinable(g) {
				continue
			}
			if len(g.AnonFuncs) > 0 && len(sites[g]) > 1 {
				continue
			}
			leaf := true
			for h := range inside[g] {
				if h == g || isHelper(h) && !other[h] && len(sites[h]) <= maxInlineSites && ssa.XVInlinable(h) {
					leaf = false
				}
			}
			if !leaf {
				continue
			}
			all := true
			for _, c := range sites[g] {
				f := c.Parent()
				if gone[f] || !ssa.XVInline(c) {
					all = false
					continue
				}
				changed[f] = true
				did = true
			}
			if all {
				gone[g] = true
			}
		}
		if !did {
			break
		}
		p.dropFuncs(gone)
	}
	for _, f := range p.Funcs {
		if changed[f] {
			ssa.XVLift(f)
			ssa.XVCopies(f)
		}
		ssa.XVFuse(f)
		for ssa.XVThread(f) > 0 {
			ssa.XVFuse(f)
		}
		ssa.XVSplice(f)
		ssa.XVReturns(f)
		ssa.XVFuse(f)
		if debugNormal {
			ssa.XVSane(f)
		}
	}
}

// aliases: a function that the rules know and that is not there, and one of
// the same type that they do not know, are taken to be the same when nothing
// else fits: it was renamed.
func (p *Prog) aliases(have map[string]bool) {
	key := func(name, sig string) string { // package and receiver, and type
		i := strings.LastIndexByte(name, '.')
		return name[:i] + " " + sig
	}
	lost := map[string][]string{}
	known := map[string]bool{}
	for _, l := range strings.Split(knownFuncs, "\n") {
		if n, sig, ok := strings.Cut(l, "\t"); ok {
			known[n] = true
			if !have[n] {
				lost[key(n, sig)] = append(lost[key(n, sig)], n)
			}
		}
	}
	found := map[string][]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Object() != nil && !f.Object().Exported() && !known[f.String()] && f.Synthetic == "" {
			k := key(f.String(), f.Signature.String())
			found[k] = append(found[k], f)
		}
	}
	for k, l := range lost {
		if len(l) != len(found[k]) || len(l) != 1 && !related(l, found[k]) {
			continue
		}
		for i, f := range found[k] {
			n := l[i]
			n = n[strings.LastIndexByte(n, '.')+1:]
			ssa.XVRename(f, n)
			if f.Signature.Recv() == nil && f.Pkg != nil && f.Pkg.Members[n] == nil {
				f.Pkg.Members[n] = f
			}
			p.renamed[f.Object()] = n
		}
	}
}

// related: the functions are named after the lost ones, in the same order.
func related(l []string, fs []*ssa.Function) bool {
	sort.Strings(l)
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for i, f := range fs {
		if !strings.Contains(strings.ToLower(f.String()), strings.ToLower(l[i][strings.LastIndexByte(l[i], '.')+1:])) {
			return false
		}
	}
	return true
}

func (p *Prog) dropFuncs(gone map[*ssa.Function]bool) {
	var keep []*ssa.Function
	for _, f := range p.Funcs {
		if !gone[f] {
			keep = append(keep, f)
		}
	}
	p.Funcs = keep
}
