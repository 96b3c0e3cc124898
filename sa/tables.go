package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A table is a map whose entries are all known: it is filled where it is made,
// with keys which are constants, and only looked up in otherwise.
type tabEntry struct {
	key ssa.Value
	val ssa.Value
}

type tabs struct {
	of map[ssa.Value][]tabEntry // by MakeMap or Global, nil if it is not a table
	ms map[*ssa.Global][]ssa.Instruction
}

// usesOf gives the instructions which mention a global.
func (E *Interp) usesOf(g *ssa.Global) []ssa.Instruction {
	if E.tabs.ms == nil {
		E.tabs.ms = map[*ssa.Global][]ssa.Instruction{}
		fs := append([]*ssa.Function(nil), E.P.Funcs...)
		for _, p := range E.P.SPkgs {
			fs = append(fs, p.Func("init"))
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if _, ok := deref(g.Type()).Underlying().(*types.Map); ok {
								E.tabs.ms[g] = append(E.tabs.ms[g], in)
							}
						}
					}
				}
			}
		}
	}
	return E.tabs.ms[g]
}

// onlyRead tells that a map value is only looked up in.
func onlyRead(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// filled gives the entries of a map which is filled where it is made.
func filled(m *ssa.MakeMap, other func(ssa.Instruction) bool) []tabEntry {
	var r []tabEntry
	seen := map[string]bool{}
	last := -1
	at := map[ssa.Instruction]int{}
	for i, in := range m.Block().Instrs {
		at[in] = i
	}
	for _, u := range *m.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			k, ok := u.Key.(*ssa.Const)
			if !ok || u.Map != ssa.Value(m) || u.Block() != m.Block() || k.Value == nil || seen[k.Value.ExactString()] {
				return nil
			}
			seen[k.Value.ExactString()] = true
			if at[u] > last {
				last = at[u]
			}
			r = append(r, tabEntry{u.Key, u.Value})
		case *ssa.DebugRef:
		default:
			if !other(u) {
				return nil
			}
		}
	}
	// what is there is there before it is looked up
	for _, u := range *m.Referrers() {
		switch u.(type) {
		case *ssa.MapUpdate, *ssa.DebugRef:
		default:
			if u.Block() == m.Block() && at[u] < last {
				return nil
			}
		}
	}
	return r
}

// table gives the entries of the map v, nil if they are not known.
func (E *Interp) table(v ssa.Value) []tabEntry {
	if ct, ok := v.(*ssa.ChangeType); ok {
		v = ct.X
	}
	var id ssa.Value = v
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		g, ok := ld.X.(*ssa.Global)
		if !ok {
			return nil
		}
		id = g
	}
	if t, ok := E.tabs.of[id]; ok {
		return t
	}
	if E.tabs.of == nil {
		E.tabs.of = map[ssa.Value][]tabEntry{}
	}
	var t []tabEntry
	switch id := id.(type) {
	case *ssa.MakeMap:
		t = filled(id, func(u ssa.Instruction) bool {
			switch u := u.(type) {
			case *ssa.Lookup:
				return u.X == ssa.Value(id)
			case *ssa.Call:
				b, ok := u.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "len"
			}
			return false
		})
	case *ssa.Global:
		var m *ssa.MakeMap
		ok := true
		for _, u := range E.usesOf(id) {
			switch u := u.(type) {
			case *ssa.Store:
				mk, is := u.Val.(*ssa.MakeMap)
				if !is || m != nil || u.Parent().Name() != "init" || u.Addr != ssa.Value(id) {
					ok = false
				}
				m = mk
			case *ssa.UnOp:
				ok = ok && u.Op == token.MUL && onlyRead(u)
			case *ssa.DebugRef:
			default:
				ok = false
			}
		}
		if ok && m != nil {
			t = filled(m, func(u ssa.Instruction) bool {
				st, is := u.(*ssa.Store)
				return is && st.Addr == ssa.Value(id)
			})
			for _, e := range t {
				switch e.val.(type) {
				case *ssa.Const, *ssa.Function:
				default:
					t = nil
				}
			}
		}
	}
	E.tabs.of[id] = t
	return t
}

// lookTable follows a look up in a table for each of its entries.
func (E *Interp) lookTable(st *State, in *ssa.Lookup) (bool, []*State) {
	t := E.table(in.X)
	if t == nil {
		return false, nil
	}
	k := E.get(st, in.Index)
	var res []*State
	give := func(st *State, v V, ok bool) {
		if in.CommaOk {
			v = Tuple{v, Boolv(ok)}
		}
		E.set(st, in, v)
		res = append(res, st)
	}
	for _, e := range t {
		v := E.cmp(st, token.EQL, k, E.get(st, e.key), in.Index.Type())
		if b, ok := v.(Boolv); ok {
			if b {
				give(st, E.get(st, e.val), true)
				return true, res
			}
			continue
		}
		y := st.clone()
		if E.decideEq(y, v, k, E.get(y, e.key), true) {
			give(y, E.get(y, e.val), true)
		}
		if !E.decideEq(st, v, k, E.get(st, e.key), false) {
			return true, res
		}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	give(st, zeroOf(mt.Elem()), false)
	return true, res
}

// decideEq refines st with x == y or not, where v is what the comparison gives.
func (E *Interp) decideEq(st *State, v, x, y V, want bool) bool {
	if want {
		if !E.assumeEq(st, x, y) {
			return false
		}
	} else if !E.assumeNeq(st, x, y) {
		return false
	}
	switch v := v.(type) {
	case Unk:
		return st.substUnk(v.id, Boolv(want))
	case BitBool:
		to := bit(0)
		if want {
			to = 1
		}
		return st.substBit(v.b, to)
	}
	return true
}
