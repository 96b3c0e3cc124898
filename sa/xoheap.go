package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// xoHeap is the abstract heap of one solver: every component is one object,
// every table is one object, and table cells are arbitrary until read.
type xoHeap struct {
	P        *Prog
	E        *Interp
	Null     map[string]bool                  // literal cells (by table) which may hold the null literal
	Signs    map[string]bool                  // tables of {-1, 0, 1}
	FreshLen bool                             // tables which changed may have another length
	Nil      map[string]bool                  // pointer fields which may be nil ("Cdb.Active")
	Clocs    func(st *State, name string) []V // options for clause locations
	Extra    func(st *State, p Ptr, name string, t types.Type) (bool, []Opt)
	OnLoad   func(st *State, p Ptr, name string, v V)
}

func tname(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// cellName names a cell: "Trail.D" for fields, "Trail.D[i]" for elements.
func cellName(p Ptr, key string) string {
	if strings.HasPrefix(key, "field:") {
		i := strings.LastIndexByte(key, '/')
		n := key[i+1:]
		if j := strings.IndexByte(n, '.'); j >= 0 {
			return n[j+1:]
		}
		return n
	}
	return p.o.id + pathStr(p.path)
}

func newXO(P *Prog) *xoHeap {
	h := &xoHeap{P: P, E: newInterp(P), Null: map[string]bool{"CDat.D": true}, Signs: map[string]bool{"Vars.Vals": true}, Nil: map[string]bool{}}
	h.E.Load = h.load
	return h
}

func one1(st *State, v V) (bool, []Opt) { return true, []Opt{{st, v}} }

func isC(t types.Type) bool     { return isNamed(t, "z", "C") }
func isVar(t types.Type) bool   { return isNamed(t, "z", "Var") }
func isWatch(t types.Type) bool { return isNamed(t, "internal/xo", "Watch") }

func obj(id string) *Obj { return &Obj{id: id} }

func opts(st *State, vs ...V) (bool, []Opt) {
	var r []Opt
	for i, v := range vs {
		s := st
		if i < len(vs)-1 {
			s = st.clone()
		}
		r = append(r, Opt{s, v})
	}
	return true, r
}

func (h *xoHeap) load(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
	if p.o.zero || strings.Contains(p.o.id, "#") {
		return false, nil
	}
	if _, ok := st.mem[p.o.id+"#base"]; ok {
		return false, nil
	}
	name := cellName(p, key)
	ok, os := h.load1(st, p, name, key, t)
	if ok && h.OnLoad != nil {
		for _, o := range os {
			h.OnLoad(o.st, p, name, o.v)
		}
	}
	return ok, os
}

func (h *xoHeap) load1(st *State, p Ptr, name, key string, t types.Type) (bool, []Opt) {
	if h.Extra != nil {
		if ok, os := h.Extra(st, p, name, t); ok {
			return true, os
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n := tname(pt.Elem()); n != "" {
			v := Ptr{o: obj(n)}
			if h.Nil[name] {
				return opts(st, Nilv{}, v)
			}
			return one1(st, v)
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		id := name
		if h.FreshLen && (st.dirty[key] || !h.E.clean(st, p, key)) {
			st.seq++
			id = fmt.Sprintf("%s~%d", name, st.seq)
		}
		return one1(st, Slice{obj(name), Lin{}, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})})
	}
	fresh := st.dirty[key] || !h.E.clean(st, p, key)
	id := name
	if fresh {
		st.seq++
		id = fmt.Sprintf("%s~%d", name, st.seq)
	}
	switch {
	case isLit(t):
		s := linSym(&Sym{id: "v(" + id + ")", lo: i64(1), hi: i64(1 << 30)})
		vs := []V{s.scale(2), s.scale(2).add(lin(1), 1)}
		if h.Null[p.o.id] {
			vs = append(vs, lin(0))
		}
		return opts(st, vs...)
	case h.Signs[p.o.id] && len(p.path) == 1:
		// the two literals of a variable have opposite signs
		x := p.path[0].idx
		if x.divisible(2) {
			y := x.add(lin(1), 1)
			if x.c%2 != 0 {
				y = x.add(lin(1), -1)
			}
			if c, ok := st.mem[cellKey(Ptr{p.o, []pe{{f: -1, idx: y}}})]; ok && p.o.id == "Vars.Vals" {
				if l, ok := c.v.(Lin); ok {
					return one1(st, l.scale(-1))
				}
			}
		}
		return opts(st, lin(-1), lin(0), lin(1))
	case isVar(t):
		return one1(st, linSym(&Sym{id: id, lo: i64(0), hi: i64(1 << 30)}))
	case isC(t):
		if h.Clocs != nil {
			if vs := h.Clocs(st, id); vs != nil {
				return opts(st, vs...)
			}
		}
		return one1(st, linSym(&Sym{id: id, lo: i64(0), hi: i64(1<<32 - 1)}))
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			v := mkUnknown(id, t).(Lin)
			return one1(st, v)
		case b.Info()&types.IsBoolean != 0:
			return opts(st, Boolv(false), Boolv(true))
		}
		return one1(st, Unk{id})
	}
	return false, nil
}

// ptr is the object of a component.
func (h *xoHeap) ptr(n string) Ptr { return Ptr{o: obj(n)} }

// at reads field f of component T in state st.
func (h *xoHeap) at(st *State, pkg, T, f string) V {
	i := fieldIndex(h.P, pkg, T, f)
	n := h.P.Type(pkg, T)
	ft := n.Underlying().(*types.Struct).Field(i).Type()
	// the interpreter needs a frame-free read
	os := h.E.load(st, Ptr{obj(T), []pe{{f: i}}}, "field:"+n.String()+"."+f, ft)
	return os[0].v
}

// elem gives the value of a table cell which was read or written.
func elem(st *State, table string, idx Lin) V {
	if c, ok := st.mem[table+"["+idx.String()+"]"]; ok {
		return c.v
	}
	return nil
}

// touched tells whether the cell of a table was written or read.
func fieldV(st *State, P *Prog, pkg, T, f string) V {
	if c, ok := st.mem[fmt.Sprintf("%s.%d", T, fieldIndex(P, pkg, T, f))]; ok {
		return c.v
	}
	return nil
}

// eqLin tells whether two values are known equal integers.
func (E *Interp) eqLin(st *State, a, b V) bool {
	x, ok1 := a.(Lin)
	y, ok2 := b.(Lin)
	if !ok1 || !ok2 {
		return a != nil && b != nil && !ok1 && !ok2 && sameV(a, b)
	}
	d := x.add(y, -1)
	if d.isConst() {
		return d.c == 0
	}
	return E.geq0(st, d) && E.geq0(st, d.scale(-1))
}

// loopOf gives the header of the innermost loop containing b.
func (E *Interp) loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 0
	for h, tails := range E.backEdges(b.Parent()) {
		bl := loopBlocks(h, tails)
		if bl[b] && (best == nil || len(bl) < n) {
			best, n = h, len(bl)
		}
	}
	return best
}

// nextLin gives the value of l in the next iteration of a loop.
func (E *Interp) nextLin(st *State, phis map[*ssa.Phi]V, l Lin) (Lin, bool) {
	r := lin(l.c)
	for _, t := range l.t {
		done := false
		for phi, nv := range phis {
			if hv, ok := st.top().env[phi].(Lin); ok && len(hv.t) == 1 && hv.t[0].k == 1 && hv.t[0].s.id == t.s.id {
				n, ok := nv.(Lin)
				if !ok {
					return l, false
				}
				r = r.add(n, t.k).add(lin(hv.c), -t.k)
				done = true
				break
			}
		}
		if !done {
			// a memory cell which holds the symbol at the head of the loop
			for _, c := range st.mem {
				if c.o == nil {
					continue
				}
				if cellName(Ptr{c.o, c.path}, c.key) == strings.SplitN(t.s.id, "~", 2)[0] || cellKey(Ptr{c.o, c.path}) == strings.SplitN(t.s.id, "#", 2)[0] {
					n, ok := c.v.(Lin)
					if !ok {
						return l, false
					}
					r = r.add(n, t.k)
					done = true
					break
				}
			}
		}
		if !done {
			r = r.add(linSym(t.s), t.k) // invariant
		}
	}
	return r, true
}
