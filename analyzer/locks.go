package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: process-wide mutable state is accessed only under its lock (or atomically);
// locks are released on every exit and never taken again while held.

// lock identity: a global mutex, or (struct type, mutex field).
type lockID string

type lockset map[lockID]byte // 'R' or 'W'

func (l lockset) clone() lockset {
	o := lockset{}
	for k, v := range l {
		o[k] = v
	}
	return o
}

func meetLocks(a, b lockset) lockset {
	o := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if v == 'R' || w == 'R' {
				o[k] = 'R'
			} else {
				o[k] = 'W'
			}
		}
	}
	return o
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (l lockset) String() string {
	var s []string
	for k, v := range l {
		s = append(s, fmt.Sprintf("%s(%c)", k, v))
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "no lock"
	}
	return strings.Join(s, ", ")
}

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

type lockAn struct {
	p      *Prog
	entry  map[*ssa.Function]lockset
	in     map[*ssa.BasicBlock]lockset
	net    map[*ssa.Function]*lockNet
	roots  map[ssa.Value]bool
	gvals  map[*ssa.Function]map[ssa.Value]string // value -> guarded container key
	rets   map[*ssa.Function]string               // function returns a guarded container
	prmKey map[*ssa.Parameter]string
	acq    map[*ssa.Function]map[lockID]byte
	pubRet map[*ssa.Function]map[int]string // result i is an object held in a guarded container
}

type lockNet struct {
	acquired lockset         // held at every exit, not held at entry
	released map[lockID]bool // released without having been acquired here
}

// lockOp recognises x.Lock() and friends.
func (a *lockAn) lockOp(c *ssa.CallCommon) (lockID, string) {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return "", ""
	}
	o, _ := f.Object().(*types.Func)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" {
		return "", ""
	}
	switch o.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
	default:
		return "", ""
	}
	if len(c.Args) == 0 || !isMutex(deref(c.Args[0].Type())) {
		return "", ""
	}
	return a.lockIdent(c.Args[0]), o.Name()
}

func (a *lockAn) lockIdent(v ssa.Value) lockID {
	switch v := v.(type) {
	case *ssa.Global:
		return lockID(strings.TrimPrefix(v.RelString(nil), a.p.ModPath+"/"))
	case *ssa.FieldAddr:
		return lockID(a.p.TName(deref(v.X.Type())) + "." + fieldName(v))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return a.lockIdent(v.X) + "^"
		}
	}
	return lockID("?" + v.Type().String())
}

// apply the effect of one instruction on the held locks.
func (a *lockAn) step(held lockset, in ssa.Instruction, onCall func(c ssa.CallInstruction, held lockset)) lockset {
	c, ok := in.(*ssa.Call)
	if !ok {
		return held
	}
	if id, op := a.lockOp(&c.Call); id != "" {
		if onCall != nil {
			onCall(c, held)
		}
		held = held.clone()
		switch op {
		case "Lock":
			held[id] = 'W'
		case "RLock":
			held[id] = 'R'
		default:
			delete(held, id)
		}
		return held
	}
	if onCall != nil {
		onCall(c, held)
	}
	cs := a.p.Callees(&c.Call)
	if len(cs) == 1 && a.p.InModule(cs[0]) {
		if n := a.net[cs[0]]; n != nil && (len(n.acquired) > 0 || len(n.released) > 0) {
			held = held.clone()
			for id := range n.released {
				delete(held, id)
			}
			for id, m := range n.acquired {
				held[id] = m
			}
		}
	}
	return held
}

func (a *lockAn) flow(f *ssa.Function, entry lockset) (in map[*ssa.BasicBlock]lockset) {
	in = map[*ssa.BasicBlock]lockset{}
	in[f.Blocks[0]] = entry
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		h := in[b].clone()
		for _, i := range b.Instrs {
			h = a.step(h, i, nil)
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			n := h
			if ok {
				n = meetLocks(old, h)
				if sameLocks(n, old) {
					continue
				}
			}
			in[s] = n
			work = append(work, s)
		}
	}
	return in
}

// deferredUnlocks: locks released by defers (direct, or a closure that only unlocks).
func (a *lockAn) deferredUnlocks(f *ssa.Function) map[lockID]bool {
	out := map[lockID]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		d, ok := in.(*ssa.Defer)
		if !ok {
			return
		}
		if id, op := a.lockOp(&d.Call); id != "" && (op == "Unlock" || op == "RUnlock") {
			out[id] = true
			return
		}
		for _, g := range a.p.Callees(&d.Call) {
			if n := a.net[g]; n != nil {
				for id := range n.released {
					out[id] = true
				}
			}
		}
	})
	return out
}

func (a *lockAn) computeNet() {
	a.net = map[*ssa.Function]*lockNet{}
	for round := 0; round < 4; round++ {
		for _, f := range a.p.Funcs {
			in := a.flow(f, lockset{})
			def := a.deferredUnlocks(f)
			var exit lockset
			rel := map[lockID]bool{}
			for _, b := range f.Blocks {
				h, ok := in[b]
				if !ok {
					continue
				}
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if id, op := a.lockOp(&c.Call); id != "" && (op == "Unlock" || op == "RUnlock") {
							if _, has := h[id]; !has {
								rel[id] = true
							}
						}
					}
					h = a.step(h, i, nil)
				}
				if len(b.Instrs) > 0 {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						h = h.clone()
						for id := range def {
							delete(h, id)
						}
						if exit == nil {
							exit = h
						} else {
							exit = meetLocks(exit, h)
						}
					}
				}
			}
			if exit == nil {
				exit = lockset{}
			}
			a.net[f] = &lockNet{exit, rel}
		}
	}
}

// exposed: the function may be called from outside the module or through a value.
func (a *lockAn) exposed(f *ssa.Function) bool {
	if f.Parent() != nil {
		// closures: called where they are made, or escaping
		return true
	}
	if f.Object() == nil || f.Object().Exported() || f.Name() == "init" {
		return true
	}
	for _, g := range a.p.addressTaken() {
		if g == f {
			return true
		}
	}
	if f.Signature.Recv() != nil {
		return false
	}
	return false
}

func (p *Prog) addressTaken() []*ssa.Function {
	p.funcValues(types.NewSignatureType(nil, nil, nil, nil, nil, false))
	return p.cache["funcvalues"].([]*ssa.Function)
}

// runtimeFuncs: functions that can run after program start.
func (p *Prog) runtimeFuncs() map[*ssa.Function]bool {
	if v, ok := p.cache["runtimefuncs"]; ok {
		return v.(map[*ssa.Function]bool)
	}
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] || f.Blocks == nil || !p.InModule(f) {
			return
		}
		out[f] = true
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range p.Callees(c.Common()) {
					add(g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		})
		for _, an := range f.AnonFuncs {
			add(an)
		}
	}
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			add(f)
		}
	}
	for _, f := range p.addressTaken() {
		if f.Parent() == nil || !isInit(f.Parent()) {
			add(f)
		}
	}
	p.cache["runtimefuncs"] = out
	return out
}

// configSetter: an exported function that only assigns a process setting
// (documented start-up configuration such as SetLogger) and is not used by the library itself.
func (a *lockAn) configSetter(f *ssa.Function) bool {
	if f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(f.Name(), "Set") || f.Signature.Results().Len() != 0 {
		return false
	}
	for _, c := range a.p.Callers(f) {
		if a.p.libFunc(c.Parent()) && !isInit(c.Parent()) {
			return false
		}
	}
	return len(f.Blocks) == 1
}

// containers ---------------------------------------------------------------

// shared storage keys: "g:<global>" or "f:<type>.<field>".
func (a *lockAn) addrKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Global:
		if !a.p.inMod[v.Pkg.Pkg] || isMutex(deref(v.Type())) {
			return ""
		}
		return "g:" + strings.TrimPrefix(v.RelString(nil), a.p.ModPath+"/")
	case *ssa.FieldAddr:
		st := deref(v.X.Type())
		if a.lockedStruct(st) != "" && !isMutex(deref(v.Type())) {
			if al, ok := v.X.(*ssa.Alloc); ok && !a.published(al) {
				return "" // constructing
			}
			return "f:" + a.p.TName(st) + "." + fieldName(v)
		}
		if k := a.addrKey(v.X); k != "" {
			return k
		}
		// a field of the object a package variable points to
		if u, ok := v.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok {
				return a.addrKey(g)
			}
		}
		return ""
	case *ssa.IndexAddr:
		if k := a.addrKey(v.X); k != "" {
			return k
		}
		return a.valKey(v.X, 0)
	}
	return ""
}

func (a *lockAn) published(al *ssa.Alloc) bool { return false }

// lockedStruct returns the mutex field of a struct type, if any.
func (a *lockAn) lockedStruct(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// valKey: the value is a map/slice container living in shared storage.
func (a *lockAn) valKey(v ssa.Value, depth int) string {
	if depth > 12 {
		return ""
	}
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	case *types.Tuple:
	default:
		return ""
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				st, _ := storesTo(al)
				for _, s := range st {
					if k := a.valKey(s.Val, depth+1); k != "" {
						return k
					}
				}
				return ""
			}
			return a.addrKey(v.X)
		}
	case *ssa.Lookup:
		return a.valKey(v.X, depth+1)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			return a.valKey(t.X, depth+1)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return a.valKey(r.X, depth+1)
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok && depth > 3 {
				continue
			}
			if k := a.valKey(e, depth+1); k != "" {
				return k
			}
		}
	case *ssa.ChangeType:
		return a.valKey(v.X, depth+1)
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return a.addrKey(v.X)
		}
		return a.valKey(v.X, depth+1)
	case *ssa.Parameter:
		return a.prmKey[v]
	case *ssa.Call:
		for _, g := range a.p.Callees(&v.Call) {
			if k := a.rets[g]; k != "" {
				return k
			}
		}
	}
	return ""
}

type sharedAcc struct {
	f     *ssa.Function
	in    ssa.Instruction
	key   string
	write bool
	what  string
	held  lockset
}

func (a *lockAn) accesses(f *ssa.Function) []sharedAcc {
	var out []sharedAcc
	add := func(in ssa.Instruction, key string, write bool, what string) {
		if key != "" {
			out = append(out, sharedAcc{f: f, in: in, key: key, write: write, what: what})
		}
	}
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			add(in, a.addrKey(in.Addr), true, "assignment")
		case *ssa.UnOp:
			if in.Op == token.MUL {
				add(in, a.addrKey(in.X), false, "read")
			}
		case *ssa.MapUpdate:
			add(in, a.valKey(in.Map, 0), true, "map update")
		case *ssa.Lookup:
			add(in, a.valKey(in.X, 0), false, "map lookup")
		case *ssa.Range:
			add(in, a.valKey(in.X, 0), false, "iteration")
		case *ssa.Next:
			if r, ok := in.Iter.(*ssa.Range); ok {
				add(in, a.valKey(r.X, 0), false, "iteration")
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear":
					add(in, a.valKey(in.Call.Args[0], 0), true, b.Name())
				case "len", "cap":
					if _, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
						add(in, a.valKey(in.Call.Args[0], 0), false, b.Name())
					}
				case "copy":
					add(in, a.valKey(in.Call.Args[0], 0), true, "copy into")
					add(in, a.valKey(in.Call.Args[1], 0), false, "copy from")
				case "append":
					add(in, a.valKey(in.Call.Args[0], 0), false, "append")
				}
			} else if !in.Call.IsInvoke() {
				eff := a.p.Effects()
				for _, g := range a.p.Callees(&in.Call) {
					s := eff.sum[g]
					if s == nil {
						continue
					}
					for i := range s.mut {
						if i < 0 || i >= len(in.Call.Args) {
							continue
						}
						arg := in.Call.Args[i]
						k := a.valKey(arg, 0)
						if k == "" && i > 0 {
							k = a.addrKey(arg)
						}
						add(in, k, true, "modification through "+a.p.FName(g))
					}
				}
				if pkg, _ := extCallee(&in.Call); pkg != "" {
					for _, i := range extMutates(&in.Call) {
						if i < len(in.Call.Args) {
							add(in, a.valKey(in.Call.Args[i], 0), true, "modification by "+pkg)
						}
					}
				}
			}
		}
	})
	return out
}

func init() { register("C04", checkLocks) }

func checkLocks(p *Prog, r *Result) {
	r.Explain = "Rule locks: every package-level variable and every field of a struct that embeds a mutex, when modified by code that runs after program start, is accessed only with one lock held in the right mode on every path (lockset must-analysis over SSA, entry locksets of unexported helpers taken from all their callers) or only through sync/atomic; guarded maps and slices do not escape uncopied; locks are released at every return and never re-acquired while held. Start-up configuration setters (exported Set* functions the library never calls) are outside the property."
	a := &lockAn{p: p, rets: map[*ssa.Function]string{}, prmKey: map[*ssa.Parameter]string{}}
	a.computeNet()
	rt := p.runtimeFuncs()

	// guarded containers handed to helpers or returned by them
	for round := 0; round < 3; round++ {
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Return:
					for i := range in.Results {
						for _, v := range retValues(in, i) {
							if k := a.valKey(v, 0); k != "" {
								a.rets[f] = k
							}
						}
					}
				case ssa.CallInstruction:
					cs := p.Callees(in.Common())
					if len(cs) != 1 || !p.InModule(cs[0]) || in.Common().IsInvoke() {
						return
					}
					g := cs[0]
					for i, arg := range in.Common().Args {
						if i < len(g.Params) {
							if k := a.valKey(arg, 0); k != "" {
								a.prmKey[g.Params[i]] = k
							}
						}
					}
				}
			})
		}
	}

	// entry locksets: fixpoint over callers of unexported functions
	a.entry = map[*ssa.Function]lockset{}
	top := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if a.exposed(f) || len(p.Callers(f)) == 0 {
			a.entry[f] = lockset{}
		} else {
			top[f] = true
		}
	}
	heldAt := func(f *ssa.Function) (map[ssa.Instruction]lockset, bool) {
		e, ok := a.entry[f]
		if !ok {
			return nil, false
		}
		in := a.flow(f, e)
		m := map[ssa.Instruction]lockset{}
		for _, b := range f.Blocks {
			h, ok := in[b]
			if !ok {
				continue
			}
			for _, i := range b.Instrs {
				m[i] = h
				h = a.step(h, i, nil)
			}
		}
		return m, true
	}
	for changed, n := true, 0; changed && n < 20; n++ {
		changed = false
		next := map[*ssa.Function]lockset{}
		seen := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			m, ok := heldAt(f)
			if !ok {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				h, ok := m[in]
				if !ok {
					return
				}
				if _, isGo := in.(*ssa.Go); isGo {
					h = lockset{}
				}
				if _, isDefer := in.(*ssa.Defer); isDefer {
					h = lockset{}
				}
				for _, g := range p.Callees(c.Common()) {
					if !top[g] {
						continue
					}
					if !seen[g] {
						seen[g] = true
						next[g] = h
					} else {
						next[g] = meetLocks(next[g], h)
					}
				}
			})
		}
		for g, h := range next {
			if old, ok := a.entry[g]; !ok || !sameLocks(old, h) {
				a.entry[g] = h
				changed = true
			}
		}
	}
	for f := range top {
		if _, ok := a.entry[f]; !ok {
			a.entry[f] = lockset{}
		}
	}

	// collect accesses by code that runs after start
	byKey := map[string][]sharedAcc{}
	for _, f := range p.Funcs {
		if !rt[f] || !p.libFunc(f) || isInit(f) {
			continue
		}
		m, _ := heldAt(f)
		for _, acc := range a.accesses(f) {
			h, ok := m[acc.in]
			if !ok {
				continue // unreachable
			}
			acc.held = h
			byKey[acc.key] = append(byKey[acc.key], acc)
		}
	}
	// atomics: address passed to sync/atomic
	atomicUse := map[string]bool{}
	for _, f := range p.Funcs {
		if !rt[f] || !p.libFunc(f) {
			continue
		}
		m, _ := heldAt(f)
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, arg := range c.Common().Args {
				if _, isPtr := arg.Type().Underlying().(*types.Pointer); !isPtr {
					continue
				}
				k := a.addrKey(arg)
				if k == "" {
					continue
				}
				g := c.Common().StaticCallee()
				if g != nil && g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() == "sync/atomic" {
					atomicUse[k] = true
					r.Units["atomic_accesses"]++
				} else if g != nil && !p.InModule(g) && g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() != "sync" {
					if h, ok := m[in]; ok {
						byKey[k] = append(byKey[k], sharedAcc{f: f, in: in, key: k, write: true, what: "modification by " + g.Name(), held: h})
					}
				}
			}
		})
	}
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	for k := range atomicUse {
		if _, ok := byKey[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	guarded := map[string]lockID{}
	for _, k := range keys {
		accs := byKey[k]
		name := k[2:]
		if strings.HasPrefix(k, "g:") && a.isAtomicType(k) {
			continue
		}
		var writes []sharedAcc
		for _, acc := range accs {
			if acc.write && !a.configSetter(acc.f) {
				writes = append(writes, acc)
			}
		}
		if len(writes) == 0 && !atomicUse[k] {
			r.Units["constant_after_start"]++
			continue // only configuration or start-up writes
		}
		r.Units["shared_variables"]++
		if atomicUse[k] {
			bad := false
			for _, acc := range accs {
				bad = true
				r.fail("atomic-mixed", name+" in "+p.FName(acc.f), p.InstrPos(acc.in), "%s is updated atomically elsewhere but %s in %s is a plain access", name, acc.what, p.FName(acc.f))
			}
			if !bad {
				r.ok("%s is only accessed through sync/atomic", name)
			}
			continue
		}
		// the lock: the one held at most accesses
		count := map[lockID]int{}
		for _, acc := range accs {
			for id := range acc.held {
				count[id]++
			}
		}
		var lock lockID
		best := 0
		var ids []lockID
		for id := range count {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			if count[id] > best {
				lock, best = id, count[id]
			}
		}
		if strings.HasPrefix(k, "f:") {
			// the struct's own mutex guards its fields
			t := strings.TrimSuffix(name, name[strings.LastIndex(name, "."):])
			for _, n := range p.NamedTypes() {
				if p.TName(n) == t {
					if m := a.lockedStruct(n); m != "" {
						lock = lockID(t + "." + m)
					}
				}
			}
		}
		guarded[k] = lock
		for _, acc := range accs {
			if a.configSetter(acc.f) {
				continue
			}
			r.Units["accesses"]++
			mode, ok := acc.held[lock]
			switch {
			case lock == "" || !ok:
				want := "a lock"
				if lock != "" {
					want = string(lock)
				}
				r.fail("unlocked", name+" in "+p.FName(acc.f), p.InstrPos(acc.in), "%s of process-wide %s in %s without holding %s: concurrent use is a data race", acc.what, name, p.FName(acc.f), want)
			case acc.write && mode != 'W':
				r.fail("read-lock-write", name+" in "+p.FName(acc.f), p.InstrPos(acc.in), "%s of process-wide %s in %s holds %s only for reading", acc.what, name, p.FName(acc.f), lock)
			default:
				r.ok("%s of %s in %s holds %s", acc.what, name, p.FName(acc.f), lock)
			}
		}
	}

	// escapes of guarded containers from the locked region
	for _, f := range p.Funcs {
		if !rt[f] || !p.libFunc(f) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Return:
				for i := range in.Results {
					for _, v := range retValues(in, i) {
						if k := a.valKey(v, 0); k != "" && (guarded[k] != "" || strings.HasPrefix(k, "g:")) && a.exposed(f) {
							r.fail("guarded-escape", k[2:]+" from "+p.FName(f), p.InstrPos(in), "%s hands out the process-wide %s itself instead of a copy", p.FName(f), k[2:])
						}
					}
				}
			case *ssa.Store:
				if k := a.valKey(in.Val, 0); k != "" && (guarded[k] != "" || strings.HasPrefix(k, "g:")) && a.addrKey(in.Addr) != k {
					if al, ok := in.Addr.(*ssa.Alloc); ok && !al.Heap {
						return
					}
					r.fail("guarded-escape", k[2:]+" from "+p.FName(f), p.InstrPos(in), "%s stores the process-wide %s where it is used without its lock", p.FName(f), k[2:])
				}
			}
		})
	}

	a.publication(rt, guarded, r)

	// release on every exit, no re-acquisition
	a.acq = map[*ssa.Function]map[lockID]byte{}
	for round := 0; round < 12; round++ {
		for _, f := range p.Funcs {
			m := a.acq[f]
			if m == nil {
				m = map[lockID]byte{}
				a.acq[f] = m
			}
			eachInstr(f, func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if _, isGo := in.(*ssa.Go); isGo {
					return
				}
				if id, op := a.lockOp(c.Common()); id != "" {
					if op == "Lock" || op == "RLock" {
						m[id] = 'L'
					}
					return
				}
				for _, g := range p.Callees(c.Common()) {
					for id := range a.acq[g] {
						m[id] = 'L'
					}
				}
			})
		}
	}
	for _, f := range p.Funcs {
		if !p.libFunc(f) {
			continue
		}
		m, _ := heldAt(f)
		entry := a.entry[f]
		def := a.deferredUnlocks(f)
		uses := false
		eachInstr(f, func(in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.Call:
				h := m[in]
				if id, op := a.lockOp(&i.Call); id != "" {
					uses = true
					if op == "Lock" || op == "RLock" {
						r.Units["acquisitions"]++
						if _, ok := h[id]; ok {
							r.fail("relock", string(id)+" in "+p.FName(f), p.InstrPos(in), "%s acquires %s while it already holds it: deadlock", p.FName(f), id)
						} else {
							r.ok("%s acquires %s holding %s", p.FName(f), id, h)
						}
					} else if _, ok := h[id]; !ok && a.net[f] != nil && a.exposed(f) {
						if !a.mayHold(f, id) {
							r.fail("unlock-unheld", string(id)+" in "+p.FName(f), p.InstrPos(in), "%s releases %s although it is not held on some path", p.FName(f), id)
						}
					}
					return
				}
				if len(h) == 0 {
					return
				}
				for _, g := range p.Callees(&i.Call) {
					for id := range a.acq[g] {
						if _, ok := h[id]; ok && !a.net[g].released[id] {
							r.fail("relock", string(id)+" in "+p.FName(f)+" via "+p.FName(g), p.InstrPos(in), "%s calls %s, which acquires %s, while holding it: deadlock", p.FName(f), p.FName(g), id)
						}
					}
				}
			case *ssa.Return:
				h, ok := m[in]
				if !ok {
					return
				}
				for id := range h {
					if _, atEntry := entry[id]; atEntry || def[id] {
						continue
					}
					if _, all := a.net[f].acquired[id]; all && !a.exposed(f) {
						continue // an acquire helper
					}
					r.fail("lock-leak", string(id)+" in "+p.FName(f), p.InstrPos(in), "%s returns still holding %s: the next user blocks forever", p.FName(f), id)
				}
			}
		})
		// a lock held on only some of the paths into an exit is leaked there too
		a.partialLeaks(f, entry, def, r)
		if uses {
			r.Units["locking_functions"]++
		}
	}
	_ = constant.MakeInt64
	r.need("acquisitions", 4)
	r.need("shared_variables", 3)
}

// mayHold: some path reaches the function's unlock with the lock held (may-analysis).
func (a *lockAn) mayHold(f *ssa.Function, id lockID) bool {
	return a.net[f].released[id] && !a.hasLockOp(f, id)
}

func (a *lockAn) hasLockOp(f *ssa.Function, id lockID) bool {
	has := false
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if i, op := a.lockOp(&c.Call); i == id && (op == "Lock" || op == "RLock") {
				has = true
			}
		}
	})
	return has
}

func (a *lockAn) isAtomicType(k string) bool {
	for _, sp := range a.p.SSAPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && "g:"+strings.TrimPrefix(g.RelString(nil), a.p.ModPath+"/") == k {
				if n, ok := types.Unalias(deref(g.Type())).(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync/atomic" || n.Obj().Pkg().Path() == "sync") {
					return true
				}
			}
		}
	}
	return false
}

// partialLeaks: may-analysis of locks held at returns.
func (a *lockAn) partialLeaks(f *ssa.Function, entry lockset, def map[lockID]bool, r *Result) {
	may := map[*ssa.BasicBlock]map[lockID]bool{}
	may[f.Blocks[0]] = map[lockID]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	run := func(b *ssa.BasicBlock, h map[lockID]bool, at func(in ssa.Instruction, h map[lockID]bool)) map[lockID]bool {
		o := map[lockID]bool{}
		for k := range h {
			o[k] = true
		}
		for _, in := range b.Instrs {
			if at != nil {
				at(in, o)
			}
			if c, ok := in.(*ssa.Call); ok {
				if id, op := a.lockOp(&c.Call); id != "" {
					if op == "Lock" || op == "RLock" {
						o[id] = true
					} else {
						delete(o, id)
					}
				} else if cs := a.p.Callees(&c.Call); len(cs) == 1 {
					if n := a.net[cs[0]]; n != nil {
						for id := range n.released {
							delete(o, id)
						}
						for id := range n.acquired {
							o[id] = true
						}
					}
				}
			}
		}
		return o
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		o := run(b, may[b], nil)
		for _, s := range b.Succs {
			m := may[s]
			ch := m == nil
			if m == nil {
				m = map[lockID]bool{}
				may[s] = m
			}
			for k := range o {
				if !m[k] {
					m[k] = true
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	for b, h := range may {
		run(b, h, func(in ssa.Instruction, h map[lockID]bool) {
			if _, ok := in.(*ssa.Return); !ok {
				return
			}
			for id := range h {
				if _, e := entry[id]; e || def[id] {
					continue
				}
				if _, all := a.net[f].acquired[id]; all {
					continue
				}
				r.fail("lock-leak", string(id)+" in "+a.p.FName(f), a.p.InstrPos(in), "%s can return still holding %s: the next user blocks forever", a.p.FName(f), id)
			}
		})
	}
}

// pubVal: v is a pointer stored in a guarded container (keyed).
func (a *lockAn) pubVal(v ssa.Value, depth int) string {
	if depth > 12 {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Lookup:
		return a.valKey(v.X, 0)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			return a.valKey(t.X, 0)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return a.valKey(r.X, 0)
			}
		case *ssa.Call:
			for _, g := range a.p.Callees(&t.Call) {
				if k := a.pubRet[g][v.Index]; k != "" {
					return k
				}
			}
		}
	case *ssa.Call:
		for _, g := range a.p.Callees(&v.Call) {
			if k := a.pubRet[g][0]; k != "" {
				return k
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				st, _ := storesTo(al)
				for _, s := range st {
					if k := a.pubVal(s.Val, depth+1); k != "" {
						return k
					}
				}
			}
			if ix, ok := v.X.(*ssa.IndexAddr); ok {
				return a.valKey(ix.X, 0)
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, isPhi := e.(*ssa.Phi); isPhi && depth > 3 {
				continue
			}
			if k := a.pubVal(e, depth+1); k != "" {
				return k
			}
		}
	}
	return ""
}

// rootPtr strips address arithmetic and loads of owned storage.
func rootPtr(v ssa.Value) ssa.Value {
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			if _, ok := x.X.(*ssa.FieldAddr); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
	return v
}

func reachableAfter(from, to ssa.Instruction, stop ssa.Instruction) bool {
	fb, tb := from.Block(), to.Block()
	after := false
	for _, in := range fb.Instrs {
		if in == from {
			after = true
			continue
		}
		if after && in == stop {
			return false
		}
		if after && in == to {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if in == stop {
				return false
			}
			if in == to {
				return true
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	_ = tb
	for _, s := range fb.Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// publication: an object becomes shared when it is put into a guarded
// container; from then on it may no longer be written without the lock, and
// neither may an object read back from there.
func (a *lockAn) publication(rt map[*ssa.Function]bool, guarded map[string]lockID, r *Result) {
	p := a.p
	a.pubRet = map[*ssa.Function]map[int]string{}
	for round := 0; round < 4; round++ {
		for _, f := range p.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				ret, ok := in.(*ssa.Return)
				if !ok {
					return
				}
				for i := range ret.Results {
					if _, ok := ret.Results[i].Type().Underlying().(*types.Pointer); !ok {
						continue
					}
					for _, v := range retValues(ret, i) {
						if k := a.pubVal(v, 0); k != "" && guarded[k] != "" {
							if a.pubRet[f] == nil {
								a.pubRet[f] = map[int]string{}
							}
							a.pubRet[f][i] = k
						}
					}
				}
			})
		}
	}
	eff := p.Effects()
	for _, f := range p.Funcs {
		if !rt[f] || !p.libFunc(f) || isInit(f) {
			continue
		}
		// writes in f by the root pointer they go through
		type wr struct {
			root ssa.Value
			in   ssa.Instruction
		}
		var ws []wr
		eachInstr(f, func(in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.Store:
				if i.Addr != rootPtr(i.Addr) {
					ws = append(ws, wr{rootPtr(i.Addr), in})
				}
			case *ssa.MapUpdate:
				ws = append(ws, wr{rootPtr(i.Map), in})
			case ssa.CallInstruction:
				args := callArgs(i.Common())
				for _, g := range p.Callees(i.Common()) {
					if s := eff.sum[g]; s != nil {
						for ai := range s.mut {
							if ai >= 0 && ai < len(args) {
								if _, ok := args[ai].Type().Underlying().(*types.Pointer); ok {
									ws = append(ws, wr{rootPtr(args[ai]), in})
								}
							}
						}
					}
				}
			}
		})
		for _, w := range ws {
			k := a.pubVal(w.root, 0)
			if k == "" || guarded[k] == "" {
				continue
			}
			// only pointees
			if _, ok := w.root.Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			r.fail("published-write", k[2:]+" in "+p.FName(f), p.InstrPos(w.in), "%s modifies an object taken from the process-wide %s, which other goroutines read without a lock", p.FName(f), k[2:])
		}
		eachInstr(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			k := a.valKey(mu.Map, 0)
			if k == "" || guarded[k] == "" {
				return
			}
			if _, ok := mu.Value.Type().Underlying().(*types.Pointer); !ok {
				return
			}
			r.Units["publications"]++
			def, _ := mu.Value.(ssa.Instruction)
			bad := false
			for _, w := range ws {
				if w.root == mu.Value && reachableAfter(in, w.in, def) {
					bad = true
					r.fail("publish-early", k[2:]+" in "+p.FName(f), p.InstrPos(w.in), "%s still modifies an object after making it visible to other goroutines in %s", p.FName(f), k[2:])
				}
			}
			if !bad {
				r.ok("%s publishes a finished object in %s", p.FName(f), k[2:])
			}
		})
	}
}
