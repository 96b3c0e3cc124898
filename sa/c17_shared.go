package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Level: "other",
		Rule: "Escape, effect and lock-set analysis (must-held locks, over the call graph) of all package state and of everything several goroutines reach.",
		Run:  runC17})
}

// lockKey names a lock: a package variable, or a field of the object base.
type lockKey struct {
	g    *ssa.Global
	base ssa.Value
	f    *types.Var
}

func (k lockKey) String() string {
	switch {
	case k.g != nil && k.f != nil:
		return k.g.Name() + "." + k.f.Name()
	case k.g != nil:
		return k.g.Name()
	case k.f != nil:
		return k.f.Name()
	}
	return "?"
}

type lockSet map[lockKey]bool

func (s lockSet) clone() lockSet {
	r := lockSet{}
	for k := range s {
		r[k] = true
	}
	return r
}

func meet(a, b lockSet) lockSet {
	r := lockSet{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

// sharing is the lock analysis.
type sharing struct {
	r     *Report
	P     *Prog
	funcs []*ssa.Function
	sites map[*ssa.Function][]ssa.CallInstruction // static calls; nil if also used otherwise
	taken map[*ssa.Function]bool
	entry map[*ssa.Function]lockSet
	at    map[ssa.Instruction]lockSet
	exit  map[*ssa.Function]lockSet
	frees map[*ssa.Function]lockSet // may be released
	gets  map[*ssa.Function]lockSet // may be acquired
	rets  map[*ssa.Return]lockSet
}

// library tells whether a package is one users import.
func library(P *Prog, f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && p.Pkg.Name() != "main" && P.pkgOf(f) != "bench"
}

func baseOf(v ssa.Value) (*ssa.Global, ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok {
					return g, nil
				}
			}
			return nil, v
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Global:
			return x, nil
		default:
			return nil, v
		}
	}
}

func fieldVar(a *ssa.FieldAddr) *types.Var {
	return a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field)
}

// keyOf names the lock at an address.
func keyOf(v ssa.Value) (lockKey, bool) {
	switch x := v.(type) {
	case *ssa.Global:
		return lockKey{g: x}, true
	case *ssa.FieldAddr:
		g, b := baseOf(x.X)
		return lockKey{g: g, base: b, f: fieldVar(x)}, true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// a pointer to a mutex
			switch y := x.X.(type) {
			case *ssa.Global:
				return lockKey{g: y}, true
			case *ssa.FieldAddr:
				g, b := baseOf(y.X)
				return lockKey{g: g, base: b, f: fieldVar(y)}, true
			}
		}
	}
	return lockKey{}, false
}

func lockCall(c ssa.CallInstruction) (kind string, k lockKey, ok bool) {
	cc := c.Common()
	name, recv := "", ssa.Value(nil)
	if f := cc.StaticCallee(); f != nil {
		switch f.String() {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			name = "lock"
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			name = "unlock"
		}
		if name != "" {
			recv = cc.Args[0]
		}
	} else if cc.IsInvoke() && cc.Method.FullName() == "(sync.Locker).Lock" {
		name, recv = "lock", cc.Value
	} else if cc.IsInvoke() && cc.Method.FullName() == "(sync.Locker).Unlock" {
		name, recv = "unlock", cc.Value
	}
	if name == "" {
		return "", lockKey{}, false
	}
	k, ok = keyOf(recv)
	return name, k, ok
}

// toCaller translates a lock of a callee.
func toCaller(k lockKey, callee *ssa.Function, c ssa.CallInstruction) (lockKey, bool) {
	if k.base == nil {
		return k, true
	}
	cc := c.Common()
	for i, p := range callee.Params {
		if k.base == ssa.Value(p) && i < len(cc.Args) {
			g, b := baseOf(cc.Args[i])
			return lockKey{g: g, base: b, f: k.f}, true
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, fv := range callee.FreeVars {
			if k.base == ssa.Value(fv) && i < len(mc.Bindings) {
				g, b := baseOf(mc.Bindings[i])
				return lockKey{g: g, base: b, f: k.f}, true
			}
		}
	}
	return k, false
}

func toCallee(k lockKey, callee *ssa.Function, c ssa.CallInstruction) (lockKey, bool) {
	if k.base == nil && k.f == nil {
		return k, true
	}
	cc := c.Common()
	same := func(v ssa.Value) bool {
		g, b := baseOf(v)
		return g == k.g && b == k.base
	}
	for i, p := range callee.Params {
		if i < len(cc.Args) && same(cc.Args[i]) {
			return lockKey{base: p, f: k.f}, true
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, fv := range callee.FreeVars {
			if i < len(mc.Bindings) && same(mc.Bindings[i]) {
				return lockKey{base: fv, f: k.f}, true
			}
		}
	}
	return k, k.base == nil
}

func (s *sharing) transfer(f *ssa.Function, in ssa.Instruction, held lockSet, deferred *[]ssa.CallInstruction) {
	apply := func(c ssa.CallInstruction) {
		if kind, k, ok := lockCall(c); ok {
			if kind == "lock" {
				held[k] = true
			} else {
				delete(held, k)
			}
			return
		}
		callee := c.Common().StaticCallee()
		if callee == nil || !s.P.inRepo(callee) {
			return
		}
		for k := range s.frees[callee] {
			if t, ok := toCaller(k, callee, c); ok {
				delete(held, t)
			} else {
				// an object which is not known: any lock of this kind
				for h := range held {
					if h.f == k.f {
						delete(held, h)
					}
				}
			}
		}
		for k := range s.exit[callee] {
			if t, ok := toCaller(k, callee, c); ok {
				held[t] = true
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Call:
		apply(x)
	case *ssa.Defer:
		*deferred = append(*deferred, x)
	case *ssa.RunDefers:
		for i := len(*deferred) - 1; i >= 0; i-- {
			apply((*deferred)[i])
		}
	}
}

func (s *sharing) function(f *ssa.Function) {
	in := map[*ssa.BasicBlock]lockSet{f.Blocks[0]: s.entry[f].clone()}
	var defers []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		held := in[b].clone()
		for _, i := range b.Instrs {
			s.at[i] = held.clone()
			if _, ok := i.(*ssa.Defer); ok {
				continue
			}
			var d []ssa.CallInstruction
			if _, ok := i.(*ssa.RunDefers); ok {
				for _, x := range defers {
					if x.Block().Dominates(b) {
						d = append(d, x)
					}
				}
			}
			s.transfer(f, i, held, &d)
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			s.rets[ret] = held.clone()
		}
		for _, n := range b.Succs {
			old, ok := in[n]
			nw := held.clone()
			if ok {
				nw = meet(old, held)
				if len(nw) == len(old) {
					continue
				}
			}
			in[n] = nw
			work = append(work, n)
		}
	}
}

func (s *sharing) analyse() {
	P := s.P
	s.sites = map[*ssa.Function][]ssa.CallInstruction{}
	s.taken = map[*ssa.Function]bool{}
	s.exit, s.frees, s.gets = map[*ssa.Function]lockSet{}, map[*ssa.Function]lockSet{}, map[*ssa.Function]lockSet{}
	s.entry = map[*ssa.Function]lockSet{}
	for _, f := range P.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		s.funcs = append(s.funcs, f)
	}
	for _, f := range s.funcs {
		s.exit[f], s.frees[f], s.gets[f] = lockSet{}, lockSet{}, lockSet{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						if _, isGo := in.(*ssa.Go); isGo {
							s.taken[callee] = true
						} else {
							s.sites[callee] = append(s.sites[callee], c)
						}
					}
				}
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && i == 0 {
						for _, ref := range *mc.Referrers() {
							c, ok := ref.(ssa.CallInstruction)
							if _, isGo := ref.(*ssa.Go); !ok || isGo || c.Common().Value != ssa.Value(mc) {
								s.taken[g] = true
							}
						}
						continue
					}
					if g != callee || i > 0 && *op == ssa.Value(g) && !isCallOperand(in, op) {
						s.taken[g] = true
					}
				}
			}
		}
	}
	// what is released and what is held at the end, bottom up
	for round := 0; round < 6; round++ {
		s.at, s.rets = map[ssa.Instruction]lockSet{}, map[*ssa.Return]lockSet{}
		for _, f := range s.funcs {
			s.entry[f] = lockSet{}
			s.function(f)
			var ex lockSet
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && s.rets[ret] != nil {
					if ex == nil {
						ex = s.rets[ret]
					} else {
						ex = meet(ex, s.rets[ret])
					}
				}
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					if kind, k, ok := lockCall(c); ok {
						if kind == "unlock" {
							s.frees[f][k] = true
						} else {
							s.gets[f][k] = true
						}
					} else if g := c.Common().StaticCallee(); g != nil {
						for k := range s.frees[g] {
							t, _ := toCaller(k, g, c)
							s.frees[f][t] = true
						}
						for k := range s.gets[g] {
							t, _ := toCaller(k, g, c)
							s.gets[f][t] = true
						}
					}
				}
			}
			if ex != nil {
				s.exit[f] = ex
			}
		}
	}
	// what is held on entry, top down
	for round := 0; round < 6; round++ {
		for _, f := range s.funcs {
			s.function(f)
		}
		for _, f := range s.funcs {
			if s.taken[f] || len(s.sites[f]) == 0 || token.IsExported(f.Name()) && f.Parent() == nil {
				continue
			}
			var e lockSet
			for _, c := range s.sites[f] {
				held := s.at[c]
				if _, ok := c.(*ssa.Defer); ok {
					held = lockSet{}
				}
				t := lockSet{}
				for k := range held {
					if x, ok := toCallee(k, f, c); ok {
						t[x] = true
					}
				}
				if e == nil {
					e = t
				} else {
					e = meet(e, t)
				}
			}
			s.entry[f] = e
		}
	}
	for _, f := range s.funcs {
		s.function(f)
	}
}

func isCallOperand(in ssa.Instruction, op *ssa.Value) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && op == &c.Common().Value
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func isAtomic(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic"
}

// madeHere tells whether a value is an object made in this function which nobody
// else has got yet (it is only looked at for what is written directly).
func madeHere(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return madeHere(x.X)
	case *ssa.IndexAddr:
		return madeHere(x.X)
	}
	return false
}

// initOnly gives the functions which only run while packages are initialised.
func (s *sharing) initOnly() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range s.funcs {
		if f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			r[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range s.funcs {
			if r[f] || s.taken[f] || len(s.sites[f]) == 0 || token.IsExported(f.Name()) && f.Parent() == nil {
				continue
			}
			all := true
			for _, c := range s.sites[f] {
				all = all && (r[c.Parent()] || c.Parent().Synthetic != "")
			}
			if all {
				r[f], again = true, true
			}
		}
	}
	return r
}

type access struct {
	in    ssa.Instruction
	write bool
	what  string
}

var readers = []string{"fmt.", "strings.", "bytes.", "log.", "errors.", "strconv.", "sort.Search", "unicode", "(error).", "(*errors.", "time."}

// uses collects what is done with a value got from package state.
func (s *sharing) uses(v ssa.Value, seen map[ssa.Value]bool, add func(access)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch t := v.Type().Underlying().(type) {
	case *types.Basic, *types.Signature:
		return
	case *types.Interface:
		if t.NumMethods() == 1 && t.Method(0).Name() == "Error" {
			return
		}
	case *types.Chan:
		return // synchronises itself
	}
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef, *ssa.If:
		case *ssa.UnOp:
			add(access{x, false, "is read"})
			s.uses(x, seen, add)
		case *ssa.Store:
			if x.Addr == v {
				add(access{x, true, "is written"})
			} else {
				add(access{x, true, "is kept elsewhere"})
			}
		case *ssa.FieldAddr:
			s.uses(x, seen, add)
		case *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Next, *ssa.TypeAssert:
			s.uses(x.(ssa.Value), seen, add)
		case *ssa.IndexAddr:
			s.uses(x, seen, add)
		case *ssa.Lookup:
			add(access{x, false, "is read"})
			s.uses(x, seen, add)
		case *ssa.Range:
			add(access{x, false, "is read"})
			s.uses(x, seen, add)
		case *ssa.BinOp:
			add(access{x, false, "is compared"})
		case *ssa.MapUpdate:
			if x.Map == v {
				add(access{x, true, "is written"})
			} else {
				add(access{x, true, "is kept elsewhere"})
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if isAtomic(x) {
				continue
			}
			if f := cc.StaticCallee(); f != nil {
				if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
					continue
				}
				if s.P.inRepo(f) {
					for i, a := range cc.Args {
						if a == v && i < len(f.Params) {
							s.callee(f, i, x, add)
						}
					}
					continue
				}
				ok := false
				for _, p := range readers {
					ok = ok || strings.HasPrefix(f.String(), p) || strings.HasPrefix(f.String(), "("+p)
				}
				add(access{x, !ok, "is used by " + f.String()})
				continue
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				w := b.Name() == "append" && cc.Args[0] == v || b.Name() == "copy" && cc.Args[0] == v || b.Name() == "delete" || b.Name() == "clear"
				add(access{x, w, "is used by " + b.Name()})
				if b.Name() == "append" {
					s.uses(x.(ssa.Value), seen, add)
				}
				continue
			}
			if cc.IsInvoke() && cc.Method.Name() == "Error" {
				continue
			}
			add(access{x, true, "is given to a call"})
		case *ssa.Return:
			add(access{x, true, "is given away"})
		default:
			add(access{ref, true, "is used in a way which is not followed"})
		}
	}
}

// callee looks at what a function of the repository does with an argument.
func (s *sharing) callee(f *ssa.Function, i int, c ssa.CallInstruction, add func(access)) {
	if T := guarded(f.Params[i].Type()); T != nil && s.selfGuarded(T) == "" {
		return
	}
	add(access{c, true, "is given to " + f.Name()})
}

// guarded is the type if it has a lock of its own.
func guarded(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		if x, ok := ft.(*types.Named); ok && isSyncType(x) && strings.HasSuffix(x.Obj().Name(), "Mutex") {
			return n
		}
	}
	return nil
}

// selfGuarded tells why the fields of a type are not only accessed with its lock held.
func (s *sharing) selfGuarded(T *types.Named) string {
	for _, f := range s.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || madeHere(fa.X) {
					continue
				}
				p := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(p, T) {
					continue
				}
				fv := fieldVar(fa)
				if isSyncType(fv.Type()) {
					continue
				}
				if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && isSyncType(pt.Elem()) {
					continue
				}
				g, bs := baseOf(fa.X)
				for _, ref := range *fa.Referrers() {
					held := false
					for k := range s.at[ref] {
						held = held || k.f != nil && k.g == g && k.base == bs
					}
					if c, ok := ref.(ssa.CallInstruction); ok && isAtomic(c) {
						held = true
					}
					if _, ok := ref.(*ssa.DebugRef); ok {
						held = true
					}
					if !held {
						return fmt.Sprintf("%s accesses %s without the lock (%s)", s.P.fname(f), fv.Name(), s.P.Pos(ref.Pos()))
					}
				}
			}
		}
	}
	return ""
}

func runC17(r *Report) {
	P := r.P
	s := &sharing{r: r, P: P}
	s.analyse()
	inits := s.initOnly()
	nf := 0
	for _, f := range s.funcs {
		if library(P, f) {
			r.Fn(f)
			nf++
		}
	}
	// the state of packages
	var gs []*ssa.Global
	for _, n := range sortedPkgs(P) {
		sp := P.SPkgs[n]
		if sp.Pkg.Name() == "main" || n == "bench" {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") && g.Name() != "_" {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	for _, g := range gs {
		elem := g.Type().Underlying().(*types.Pointer).Elem()
		name := relPath(g.Pkg.Pkg.Path()) + "." + g.Name()
		if isSyncType(elem) {
			r.Ob("package state", name, true, g.Pos(), "")
			continue
		}
		var as []access
		add := func(a access) {
			if !inits[a.in.Parent()] && a.in.Parent().Synthetic == "" {
				as = append(as, a)
			}
		}
		seen := map[ssa.Value]bool{}
		for _, f := range s.funcs {
			if inits[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for i, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							add(access{x, false, "is read"})
							s.uses(x, seen, add)
						case *ssa.Store:
							add(access{x, true, map[bool]string{true: "is written", false: "has its address kept"}[i == 0]})
						case *ssa.FieldAddr:
							s.uses(x, seen, add)
						case *ssa.IndexAddr:
							s.uses(x, seen, add)
						case *ssa.DebugRef:
						case ssa.CallInstruction:
							if isAtomic(x) {
								continue
							}
							if c := x.Common().StaticCallee(); c != nil && P.inRepo(c) && i < len(c.Params)+1 {
								if T := guarded(elem); T != nil && s.selfGuarded(T) == "" {
									continue
								}
							}
							add(access{x, true, "is given to a call"})
						default:
							add(access{x, true, "is used in a way which is not followed"})
						}
					}
				}
			}
		}
		written := ""
		for _, a := range as {
			if a.write {
				written = a.what
			}
		}
		if written == "" {
			r.Ob("package state", name, true, g.Pos(), "")
			continue
		}
		// every access holds one common lock
		var common lockSet
		var bare access
		for _, a := range as {
			h := lockSet{}
			for k := range s.at[a.in] {
				if k.g != nil {
					h[k] = true
				}
			}
			if len(h) == 0 && bare.in == nil {
				bare = a
			}
			if common == nil {
				common = h
			} else {
				common = meet(common, h)
			}
		}
		at, det := g.Pos(), "its accesses hold no common lock"
		if bare.in != nil {
			at = bare.in.Pos()
			det = fmt.Sprintf("%s %s in %s with no lock held, and is changed after the start of the program", g.Name(), bare.what, P.fname(bare.in.Parent()))
			if T := guarded(elem); T != nil {
				if w := s.selfGuarded(T); w != "" {
					det += ": " + w
				}
			}
		}
		r.Ob("package state", name, len(common) > 0, at, "%s", det)
	}
	r.Floor("package state", 12)

	s.release()
	s.addresses()
	s.spawned()
	r.Assume("locks are reached by the same expression within a function; variables of the standard library synchronise themselves")
}

func sortedPkgs(P *Prog) []string {
	var r []string
	for n := range P.SPkgs {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// release decides that a lock on package state, or of a type which guards
// itself, is given back by the function which took it, and not taken twice.
func (s *sharing) release() {
	r, P := s.r, s.P
	guards := func(k lockKey) bool {
		if k.g != nil && k.f == nil {
			return true
		}
		if k.base != nil {
			if T := guarded(k.base.Type()); T != nil {
				return s.selfGuarded(T) == ""
			}
		}
		return k.g != nil
	}
	n := 0
	for _, f := range s.funcs {
		if !library(P, f) {
			continue
		}
		takes := false
		bad, at := "", f.Pos()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isDefer := in.(*ssa.Defer); isDefer {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if kind, k, ok := lockCall(c); ok {
					if kind == "lock" && guards(k) {
						takes = true
						if s.at[in][k] {
							bad, at = fmt.Sprintf("%s is taken while it is held", k), in.Pos()
						}
					}
					continue
				}
				if g := c.Common().StaticCallee(); g != nil && P.inRepo(g) {
					for k := range s.gets[g] {
						t, ok := toCaller(k, g, c)
						if ok && guards(t) && s.at[in][t] && !s.frees[g][k] {
							bad, at = fmt.Sprintf("%s takes %s while it is held", g.Name(), t), in.Pos()
						}
						if ok && guards(t) && s.at[in][t] && s.frees[g][k] && s.entry[g] != nil && !s.entry[g][k] {
							bad, at = fmt.Sprintf("%s takes %s while it is held", g.Name(), t), in.Pos()
						}
					}
				}
			}
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for k := range s.rets[ret] {
					if guards(k) && !s.entry[f][k] && !wrapper(s, f, k) {
						bad, at = fmt.Sprintf("%s is still held when it returns", k), ret.Pos()
					}
				}
			}
		}
		if takes || bad != "" {
			n++
			r.Ob("release", P.fname(f), bad == "", at, "%s", bad)
		}
	}
	r.Floor("release", 3)
}

// wrapper tells whether a function takes a lock for its callers, who all give it back.
func wrapper(s *sharing, f *ssa.Function, k lockKey) bool {
	if s.taken[f] || len(s.sites[f]) == 0 || token.IsExported(f.Name()) {
		return false
	}
	for _, c := range s.sites[f] {
		t, ok := toCaller(k, f, c)
		if !ok || !s.frees[c.Parent()][t] {
			return false
		}
	}
	return s.exit[f][k]
}

// addresses decides that variables whose address other objects keep are only
// accessed atomically.
func (s *sharing) addresses() {
	r, P := s.r, s.P
	// the variables: fields whose address is kept in a structure, directly or
	// by a function which it is given to; and fields used with sync/atomic
	shared := map[*types.Var]token.Pos{}
	ptrs := map[*types.Var]bool{} // fields which keep such an address
	keeps := func(f *ssa.Function, i int) *types.Var {
		if i >= len(f.Params) || f.Params[i].Referrers() == nil {
			return nil
		}
		for _, ref := range *f.Params[i].Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Val == ssa.Value(f.Params[i]) {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					return fieldVar(fa)
				}
			}
		}
		return nil
	}
	for _, f := range s.funcs {
		if !library(P, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				if _, ok := fieldVar(fa).Type().Underlying().(*types.Basic); !ok {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Val == ssa.Value(fa) {
							if to, ok := x.Addr.(*ssa.FieldAddr); ok {
								shared[fieldVar(fa)] = x.Pos()
								ptrs[fieldVar(to)] = true
							}
						}
					case ssa.CallInstruction:
						if isAtomic(x) {
							shared[fieldVar(fa)] = x.Pos()
							continue
						}
						if g := x.Common().StaticCallee(); g != nil && P.inRepo(g) {
							for i, a := range x.Common().Args {
								if a == ssa.Value(fa) {
									if to := keeps(g, i); to != nil {
										shared[fieldVar(fa)] = x.Pos()
										ptrs[to] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var vs []*types.Var
	for v := range shared {
		vs = append(vs, v)
	}
	for v := range ptrs {
		if shared[v] == 0 {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		bad, at := "", v.Pos()
		for _, f := range s.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fieldVar(fa) != v || madeHere(fa.X) {
						continue
					}
					for _, ref := range *fa.Referrers() {
						switch x := ref.(type) {
						case *ssa.UnOp:
							if !ptrs[v] {
								bad, at = fmt.Sprintf("%s reads it directly", P.fname(f)), x.Pos()
								continue
							}
							for _, rr := range *x.Referrers() {
								switch y := rr.(type) {
								case *ssa.UnOp:
									bad, at = fmt.Sprintf("%s reads directly what it points to", P.fname(f)), y.Pos()
								case *ssa.Store:
									if y.Addr == ssa.Value(x) {
										bad, at = fmt.Sprintf("%s writes directly what it points to", P.fname(f)), y.Pos()
									}
								}
							}
						case *ssa.Store:
							if x.Addr == ssa.Value(fa) && !ptrs[v] {
								bad, at = fmt.Sprintf("%s writes it directly", P.fname(f)), x.Pos()
							}
						}
					}
				}
			}
		}
		// parameters which become such a pointer
		for _, f := range s.funcs {
			for i, p := range f.Params {
				if to := keeps(f, i); to == nil || !ptrs[to] || to != v {
					continue
				}
				for _, ref := range *p.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp:
						bad, at = fmt.Sprintf("%s reads directly what it points to", P.fname(f)), x.Pos()
					case *ssa.Store:
						if x.Addr == ssa.Value(p) {
							bad, at = fmt.Sprintf("%s writes directly what it points to", P.fname(f)), x.Pos()
						}
					}
				}
			}
		}
		r.Ob("shared variable", v.Name(), bad == "", at, "%s is shared by its address, and %s", v.Name(), bad)
	}
}

// spawned decides, for the goroutines which serve connections, that they share
// no field with the object which starts them unless it is never changed, guarded
// or accessed atomically.
func (s *sharing) spawned() {
	r, P := s.r, s.P
	n := 0
	for _, f := range s.funcs {
		if P.pkgOf(f) != "crisp" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok || !inLoop(b) {
					continue // one goroutine for one caller: C09 and C11
				}
				n++
				root := g.Common().StaticCallee()
				owner := f
				for owner.Parent() != nil {
					owner = owner.Parent()
				}
				if root == nil || owner.Signature.Recv() == nil {
					r.Ob("goroutine", P.fname(f), root != nil, g.Pos(), "what the goroutine runs is not known")
					continue
				}
				T := pointee(owner.Signature.Recv().Type())
				in := reach(s, root)
				inside, outside := map[*types.Var]access{}, map[*types.Var]access{}
				w := map[*types.Var]bool{}
				for _, h := range s.funcs {
					if !library(P, h) {
						continue
					}
					for _, hb := range h.Blocks {
						for _, hi := range hb.Instrs {
							fa, ok := hi.(*ssa.FieldAddr)
							if !ok || madeHere(fa.X) || !types.Identical(pointee(fa.X.Type()), T) {
								continue
							}
							v := fieldVar(fa)
							if _, ok := v.Type().Underlying().(*types.Chan); ok || isSyncType(v.Type()) {
								continue
							}
							for _, ref := range *fa.Referrers() {
								if c, ok := ref.(ssa.CallInstruction); ok && isAtomic(c) {
									continue
								}
								a := access{in: ref}
								if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
									a.write = true
								}
								locked := false
								for k := range s.at[ref] {
									locked = locked || k.f != nil
								}
								if locked {
									continue
								}
								if in[h] {
									inside[v] = a
								} else {
									outside[v] = a
								}
								w[v] = w[v] || a.write
							}
						}
					}
				}
				bad, at := "", g.Pos()
				for v, a := range inside {
					if o, ok := outside[v]; ok && w[v] {
						bad, at = fmt.Sprintf("%s is used by the goroutine in %s and by %s, and changed without a lock", v.Name(), P.fname(a.in.Parent()), P.fname(o.in.Parent())), a.in.Pos()
					} else if w[v] && !ok {
						bad, at = fmt.Sprintf("%s is changed by each of several goroutines without a lock", v.Name()), a.in.Pos()
					}
				}
				r.Ob("goroutine", P.fname(f), bad == "", at, "%s", bad)
			}
		}
	}
	r.Floor("goroutine", 1)
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, n := range x.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if rec(n) {
					return true
				}
			}
		}
		return false
	}
	return rec(b)
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// reach gives the functions of the repository which a goroutine may run, and
// which are not run by anybody else only.
func reach(s *sharing, root *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || r[f] || !s.P.inRepo(f) {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						rec(g)
					}
				}
			}
		}
	}
	rec(root)
	return r
}
