package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C27", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa: an assignment writes the trail, value, reason and level tables consistently for an arbitrary literal; an arbitrary iteration of backtracking undoes all of them for the literal it visits and makes the variable decidable again, the iterations visit the trail from its end without a gap, and backtracking stops exactly at the target level.",
		Run:  runC27})
}

func runC27(r *Report) {
	P := r.P
	const xo = "internal/xo"
	cnull := lin(P.ConstVal(xo, "CNull"))
	assign, back := P.Func(xo, "Trail.Assign"), P.Func(xo, "Trail.Back")
	push := P.Func(xo, "Guess.Push")
	V_ := linSym(&Sym{id: "V", lo: i64(1), hi: i64(1 << 30)})
	sym := func(n string) Lin { return linSym(&Sym{id: n, lo: i64(0), hi: i64(1 << 31)}) }
	// assignment
	for s := int64(0); s < 2; s++ {
		for _, decision := range []bool{true, false} {
			h := newXO(P)
			st := newState()
			m := V_.scale(2).add(lin(s), 1)
			c := V(cnull)
			if !decision {
				c = linSym(&Sym{id: "c", lo: i64(1), hi: i64(1<<32 - 1)})
			}
			t0 := h.at(st, xo, "Trail", "Tail").(Lin)
			l0 := h.at(st, xo, "Trail", "Level").(Lin)
			n := 0
			name := fmt.Sprintf("sign %d, decision %v", s, decision)
			for _, o := range h.E.Run(st, assign, []V{h.ptr("Trail"), m, c}, nil) {
				if o.Kind != "return" {
					continue
				}
				n++
				lv := l0
				if decision {
					lv = l0.add(lin(1), 1)
				}
				want := []struct {
					what string
					got  V
					want V
				}{
					{"the trail entry", elem(o.St, "Trail.D", t0), m},
					{"the end of the trail", fieldV(o.St, P, xo, "Trail", "Tail"), t0.add(lin(1), 1)},
					{"the current level", fieldV(o.St, P, xo, "Trail", "Level"), lv},
					{"the level of the variable", elem(o.St, "Vars.Levels", V_), lv},
					{"the reason of the variable", elem(o.St, "Vars.Reasons", V_), c},
					{"the value of the literal", elem(o.St, "Vars.Vals", m), lin(1)},
					{"the value of the negated literal", elem(o.St, "Vars.Vals", V_.scale(2).add(lin(1-s), 1)), lin(-1)},
				}
				for _, w := range want {
					ok := w.got != nil && h.E.eqLin(o.St, w.got, w.want)
					det := ""
					if !ok {
						det = fmt.Sprintf("%s is %v after an assignment, expected %v", w.what, w.got, w.want)
					}
					r.Ob("assign", name+": "+w.what, ok, assign.Pos(), "%s", det)
				}
			}
			if n == 0 {
				r.Ob("assign", name, false, assign.Pos(), "an assignment never returns")
			}
			for f := range h.E.Funcs {
				r.Fn(f)
			}
		}
	}
	r.Floor("assign", 28)

	// backtracking
	{
		h := newXO(P)
		E := h.E
		st := newState()
		t0 := h.at(st, xo, "Trail", "Tail").(Lin)
		l0 := h.at(st, xo, "Trail", "Level").(Lin)
		if t0.t[0].s.lo == nil {
			// the number of assigned literals
			t0.t[0].s.lo = i64(0)
		}
		trg := sym("target")
		st.keep("target", trg)
		inits := map[*ssa.Phi]V{}
		E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
			inits[phi] = init
			return false, nil
		}
		h.OnLoad = func(st *State, p Ptr, name string, v V) {
			if p.o.id == "Vars.Levels" {
				st.events = append(st.events, Event{Kind: "level", Args: []V{p.path[0].idx, v}})
			}
			if p.o.id == "Trail.D" {
				st.events = append(st.events, Event{Kind: "lit", Args: []V{p.path[0].idx, v}})
			}
		}
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == push {
				st.events = append(st.events, Event{Kind: "push", Args: []V{args[1]}})
				return true, []Opt{{st, Tuple{}}}
			}
			return false, nil
		}
		first := map[string]bool{}
		varOf := func(v V) (Lin, bool) {
			l, ok := v.(Lin)
			if !ok || !l.divisible(2) {
				return l, false
			}
			return divLin(l, 2), true
		}
		backs := 0
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			backs++
			bad := func(f string, a ...interface{}) {
				r.Ob("undo", fmt.Sprintf("iteration %d", backs), false, back.Pos(), f, a...)
			}
			var k Lin
			var m V
			n := 0
			pushed, leveled := false, false
			for _, e := range st.events {
				if e.Kind == "lit" {
					k, _ = e.Args[0].(Lin)
					m = e.Args[1]
					n++
				}
			}
			if n != 1 {
				bad("an iteration visits %d literals of the trail", n)
				return
			}
			v, ok := varOf(m)
			if !ok {
				bad("the literal is not known: %v", m)
				return
			}
			for _, e := range st.events {
				if e.Kind == "level" && e.Args[0].String() == v.String() {
					l, trg := e.Args[1].(Lin), st.kept("target").(Lin)
					if d := l.add(trg, -1); E.sign(st, d) != "+" && E.sign(st, d) != "-" && !st.notZero(d) {
						bad("an entry of level %v is undone when backtracking to level %v", l, trg)
						return
					}
					leveled = true
				}
				if e.Kind == "push" {
					if u, ok := varOf(e.Args[0]); ok && u.String() == v.String() {
						pushed = sameV(e.Args[0], m)
					}
				}
			}
			var miss []string
			for _, w := range []struct {
				what, tab string
				idx       Lin
				want      Lin
			}{
				{"its value", "Vars.Vals", v.scale(2), lin(0)},
				{"the value of its negation", "Vars.Vals", v.scale(2).add(lin(1), 1), lin(0)},
				{"its reason", "Vars.Reasons", v, cnull},
				{"its level", "Vars.Levels", v, lin(-1)},
			} {
				if g := elem(st, w.tab, w.idx); g == nil || !E.eqLin(st, g, w.want) {
					miss = append(miss, fmt.Sprintf("%s is %v", w.what, g))
				}
			}
			if !leveled {
				miss = append(miss, "its level is not compared with the target")
			}
			if !pushed {
				miss = append(miss, "its variable is not given back to the decision heap")
			}
			if nk, ok := E.nextLin(st, phis, k); !ok || !E.eqLin(st, nk, k.add(lin(1), -1)) {
				miss = append(miss, fmt.Sprintf("after entry %v the next one visited is %v", k, nk))
			}
			// the first entry visited
			k0 := k
			for _, t := range k.t {
				for phi, iv := range inits {
					if hv, ok := st.top().env[phi].(Lin); ok && len(hv.t) == 1 && hv.t[0].s.id == t.s.id {
						if il, ok := iv.(Lin); ok {
							k0 = k0.add(linSym(t.s), -t.k).add(il, t.k)
						}
					}
				}
			}
			first[k0.String()] = true
			if len(miss) > 0 {
				bad("an undone literal keeps state: %v", miss)
				return
			}
			r.Ob("undo", fmt.Sprintf("iteration %d", backs), true, back.Pos(), "")
		}
		rets := 0
		for _, o := range E.Run(st, back, []V{h.ptr("Trail"), trg}, nil) {
			if o.Kind != "return" {
				continue
			}
			rets++
			name := fmt.Sprintf("return %d", rets)
			head, tail, level := fieldV(o.St, P, xo, "Trail", "Head"), fieldV(o.St, P, xo, "Trail", "Tail"), fieldV(o.St, P, xo, "Trail", "Level")
			var k *Lin
			var m V
			stores := 0
			for _, e := range o.St.events {
				if e.Kind == "lit" {
					l := e.Args[0].(Lin)
					k, m = &l, e.Args[1]
				}
			}
			_ = stores
			switch {
			case k == nil && E.geq0(o.St, trg.add(l0, -1)):
				ok := E.eqLin(o.St, tail, t0) && E.eqLin(o.St, level, l0)
				r.Ob("stop", name+": nothing to undo", ok, o.Pos, "the trail changes although the target level is not below the current one")
			case k != nil:
				// stopped at an entry: it must be of the target level, and is kept
				v, _ := varOf(m)
				lv := elem(o.St, "Vars.Levels", v)
				trg := o.St.kept("target")
				ok, det := true, ""
				if l, isl := lv.(Lin); !isl || !E.geq0(o.St, trg.(Lin).add(l, -1)) {
					ok, det = false, fmt.Sprintf("backtracking stops at an entry of level %v", lv)
				} else if !E.eqLin(o.St, tail, k.add(lin(1), 1)) || !E.eqLin(o.St, head, tail) || !E.eqLin(o.St, level, trg) && !E.eqLin(o.St, level, lv) {
					ok, det = false, fmt.Sprintf("stopping at entry %v leaves head %v, tail %v and level %v", k, head, tail, level)
				}
				for _, t := range []string{"Vars.Vals", "Vars.Reasons", "Vars.Levels"} {
					for wk, ws := range o.St.wr {
						if !strings.HasPrefix(wk, t+"|") {
							continue
						}
						for _, w := range ws {
							d := w.add(v, -1)
							if t == "Vars.Vals" {
								d = w.add(v, -2)
							}
							if d.isConst() && d.c >= 0 && d.c < 2 {
								ok, det = false, "the entry at which backtracking stops is undone as well"
							}
						}
					}
				}
				r.Ob("stop", name+": target level", ok, o.Pos, "%s", det)
			default:
				ok := E.eqLin(o.St, tail, lin(0)) && E.eqLin(o.St, head, lin(0)) && E.eqLin(o.St, level, lin(0))
				r.Ob("stop", name+": empty trail", ok, o.Pos, "an emptied trail has head %v, tail %v and level %v", head, tail, level)
			}
		}
		ok := len(first) == 1 && first[t0.add(lin(1), -1).String()]
		r.Ob("undo", "first entry", ok, back.Pos(), "backtracking starts at %v", keysOf(first))
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	r.Floor("undo", 3)
	r.Floor("stop", 3)
	r.Assume("literals on the trail are of variables below 2^30 and assigned once")
}

func keysOf(m map[string]bool) []string { return sortedKeys(m) }
