package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// expectation keeps a value in the state, where it is refined with it.
func (st *State) keep(name string, v V) { st.mem["@"+name] = cell{v: v} }

func (st *State) kept(name string) V { return st.mem["@"+name].v }

func (st *State) unkeep(name string) { delete(st.mem, "@"+name) }

// call1 runs fn and returns the outcomes.
func call1(P *Prog, st *State, fn *ssa.Function, args ...V) (*Interp, []Outcome) {
	E := newInterp(P)
	E.Unroll = 12
	return E, E.Run(st, fn, args, nil)
}

// sameV tells whether two abstract values denote the same integer.
func sameV(a, b V) bool {
	if a == nil || b == nil {
		return false
	}
	if x, ok := a.(Bits); ok {
		if y, ok := b.(Bits); ok {
			for i := 0; i < 64; i++ {
				p, q := bit(0), bit(0)
				if i < x.w {
					p = x.b[i]
				} else if x.s {
					p = x.b[x.w-1]
				}
				if i < y.w {
					q = y.b[i]
				} else if y.s {
					q = y.b[y.w-1]
				}
				if p != q || p == bTop {
					return false
				}
			}
			return true
		}
		if l, ok := b.(Lin); ok && l.isConst() {
			c, ok := x.constant()
			return ok && c == l.c
		}
		return false
	}
	if _, ok := b.(Bits); ok {
		return sameV(b, a)
	}
	switch a.(type) {
	case Top, Unk:
		if u, ok := a.(Unk); ok {
			v, ok := b.(Unk)
			return ok && u.id == v.id
		}
		return false
	}
	return a.String() == b.String()
}

// chain applies functions one after another, in every state.
type link struct {
	fn   *ssa.Function
	args func(prev V, st *State) []V
}

// evalChain runs the links and checks the last value against the kept one.
func evalChain(P *Prog, r *Report, st *State, first V, links []link, expect string) (bool, string) {
	type sv struct {
		st *State
		v  V
	}
	cur := []sv{{st, first}}
	for _, l := range links {
		r.Fn(l.fn)
		var nxt []sv
		for _, c := range cur {
			_, outs := call1(P, c.st, l.fn, l.args(c.v, c.st)...)
			for _, o := range outs {
				if o.Kind != "return" {
					return false, fmt.Sprintf("%s does not return (%s)", P.fname(l.fn), o.Kind)
				}
				v := V(Tuple(o.Ret))
				if len(o.Ret) == 1 {
					v = o.Ret[0]
				}
				nxt = append(nxt, sv{o.St, v})
			}
		}
		cur = nxt
	}
	if len(cur) == 0 {
		return false, "no result"
	}
	for _, c := range cur {
		v := c.v
		if t, ok := v.(Tuple); ok && len(t) > 0 {
			v = t[0]
		}
		if !sameV(v, c.st.kept(expect)) {
			return false, fmt.Sprintf("the result is %v, expected %v", v, c.st.kept(expect))
		}
	}
	return true, ""
}

func recv(prev V, st *State) []V { return []V{prev} }

var _ = token.NoPos
var _ = types.Typ
