package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of the explanation of an unsatisfiable answer and of a propagated literal: an arbitrary visit of a literal, an arbitrary iteration over the clause which is its reason, and every start of the trace.",
		Run:  runC26})
}

// runC26 decides that explanations follow reasons.
func runC26(r *Report) {
	P := r.P
	why, rec, reasons := P.Func(xoPkg, "S.Why"), P.Func(xoPkg, "S.finalRec"), P.Func(xoPkg, "S.Reasons")
	lits := P.Func(xoPkg, "Cdb.Lits")
	mk := func() *xoHeap {
		h := newXO(P)
		h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
			switch {
			case p.o.id == "Vars.Reasons":
				c := linSym(&Sym{id: "r", lo: i64(1), hi: i64(1 << 31)})
				return opts(st, lin(0), c)
			case p.o.id == "CDat.D" && isLit(t):
				s := linSym(&Sym{id: "v(" + name + ")", lo: i64(1), hi: i64(1 << 30)})
				pos := p.path[0].idx
				_, os := opts(st, s.scale(2), s.scale(2).add(lin(1), 1), lin(0))
				for _, o := range os {
					o.st.events = append(o.st.events, Event{Kind: "lit", Args: []V{o.v, pos}})
				}
				return true, os
			case p.o.id == "marks" || strings.Contains(p.o.id, "marks"):
				return opts(st, Boolv(false), Boolv(true))
			}
			return false, nil
		}
		h.E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
			st.keep("init:"+phi.Parent().Name()+"."+phi.Name(), init)
			return false, nil
		}
		return h
	}
	neg := func(E *Interp, v V) V { return E.negLit(v) }
	n := 0
	next := func(rule string) string { n++; return fmt.Sprintf("%s %d", rule, n) }
	// walk judges a generic iteration over the clause at r; done tells what
	// must have happened to the literal read.
	walk := func(E *Interp, st *State, phis map[*ssa.Phi]V, done func(v V) bool) string {
		var read []Event
		for _, e := range st.events {
			if e.Kind == "lit" && e.Args[0].String() != "0" {
				read = append(read, e)
			}
		}
		if len(read) == 0 {
			return "a literal of the reason is passed over"
		}
		rs := st.mem["@r"].v
		for phi, nv := range phis {
			hv, ok1 := st.top().env[phi].(Lin)
			nl, ok2 := nv.(Lin)
			iv, ok3 := st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Lin)
			if !ok1 || !ok2 || !ok3 {
				continue
			}
			if adv := nl.add(hv, -1); !adv.isConst() || adv.c != 1 {
				continue
			}
			// the first literal, at r, is the explained one
			for _, e := range read {
				if E.eqLin(st, e.Args[1].(Lin).add(hv, -1).add(iv, 1), rs.(Lin).add(lin(1), 1)) {
					if !done(e.Args[0]) {
						return fmt.Sprintf("the literal %v of the reason is not followed", e.Args[0])
					}
					return ""
				}
			}
		}
		return "the literals of a reason are not visited one after another from the second"
	}
	r0 := linSym(&Sym{id: "r", lo: i64(1), hi: i64(1 << 31)})
	ended := func(st *State) bool {
		for _, e := range st.events {
			if e.Kind == "lit" && e.Args[0].String() == "0" {
				return true
			}
		}
		return false
	}
	// one visit of a literal
	{
		h := mk()
		E := h.E
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if p.o.id == "S.failed" {
				st.events = append(st.events, Event{Kind: "failed", Args: []V{p.path[0].idx, v}})
			}
			if p.o.id == "marks" {
				st.events = append(st.events, Event{Kind: "mark", Args: []V{p.path[0].idx, v}})
			}
		}
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == rec {
				st.events = append(st.events, Event{Kind: "visit", Args: []V{args[1]}})
				return true, []Opt{{st, Tuple{}}}
			}
			return false, nil
		}
		visited := func(st *State) func(V) bool {
			return func(v V) bool {
				for _, e := range st.events {
					if e.Kind == "visit" && sameV(e.Args[0], v) {
						return true
					}
				}
				return false
			}
		}
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			det := walk(E, st, phis, visited(st))
			r.Ob("reason", next("iteration"), det == "", rec.Pos(), "%s", det)
		}
		for s := int64(0); s < 2; s++ {
			st := newState()
			st.keep("r", r0)
			v := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)})
			m := v.scale(2).add(lin(s), 1)
			marks := Slice{obj("marks"), Lin{}, linSym(&Sym{id: "len(marks)", lo: i64(0)}), linSym(&Sym{id: "cap(marks)", lo: i64(0)})}
			for _, o := range E.Run(st, rec, []V{h.ptr("S"), m, marks}, nil) {
				if o.Kind != "return" {
					continue
				}
				st := o.St
				det := ""
				fails := 0
				marked := false
				for _, e := range st.events {
					switch e.Kind {
					case "failed":
						fails++
						if !sameV(e.Args[1], neg(E, m)) {
							det = fmt.Sprintf("for the false literal %v, %v is reported", m, e.Args[1])
						}
						if sl, ok := fieldV(st, P, xoPkg, "S", "failed").(Slice); !ok || !sameV(sl.len, linSym(&Sym{id: "len(S.failed)", lo: i64(0)}).add(lin(1), 1)) {
							det = "the failed literal is not appended"
						}
					case "mark":
						marked = marked || sameV(e.Args[0], v) && e.Args[1].String() == "true"
					}
				}
				re := elem(st, "Vars.Reasons", v)
				mk := elem(st, "marks", v)
				switch {
				case det != "":
				case re == nil: // not looked at
					if mk == nil || mk.String() != "true" || fails > 0 || marked {
						det = "a literal is passed over without looking at its reason"
					}
				case !marked:
					det = "a visited literal is not marked"
				case re.String() == "0":
					if fails != 1 {
						det = fmt.Sprintf("a literal without reason is reported %d times", fails)
					}
				case fails > 0:
					det = "a literal with a reason is reported"
				case !ended(st):
					det = "the reason is not followed to its end"
				}
				r.Ob("visit", next("visit"), det == "", o.Pos, "%s", det)
			}
		}
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	// where a trace starts
	{
		h := mk()
		E := h.E
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if p.o.id == "S.failed" || p.o.id == "ms" {
				st.events = append(st.events, Event{Kind: "failed", Args: []V{p.path[0].idx, v}})
			}
		}
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			switch fn {
			case rec:
				st.events = append(st.events, Event{Kind: "visit", Args: []V{args[1]}})
				return true, []Opt{{st, Tuple{}}}
			case lits:
				st.events = append(st.events, Event{Kind: "lits", Args: []V{args[1]}})
				return one1(st, Slice{obj("clause"), Lin{}, linSym(&Sym{id: "len(clause)", lo: i64(1)}), linSym(&Sym{id: "cap(clause)", lo: i64(1)})})
			}
			return false, nil
		}
		extra := h.Extra
		h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
			if p.o.id == "clause" {
				s := linSym(&Sym{id: "v(" + name + ")", lo: i64(1), hi: i64(1 << 30)})
				pos := p.path[0].idx
				_, os := opts(st, s.scale(2), s.scale(2).add(lin(1), 1))
				for _, o := range os {
					o.st.events = append(o.st.events, Event{Kind: "lit", Args: []V{o.v, pos}})
				}
				return true, os
			}
			return extra(st, p, name, t)
		}
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			det := "a literal of the conflict is passed over"
			for _, e := range st.events {
				if e.Kind != "lit" {
					continue
				}
				for _, v := range st.events {
					if v.Kind == "visit" && sameV(v.Args[0], e.Args[0]) {
						det = ""
					}
				}
				adv := false
				for phi, nv := range phis {
					hv, ok1 := st.top().env[phi].(Lin)
					nl, ok2 := nv.(Lin)
					iv, ok3 := st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Lin)
					if ok1 && ok2 && ok3 && iv.isConst() && E.eqLin(st, nl, hv.add(lin(1), 1)) && E.eqLin(st, e.Args[1].(Lin), hv.add(lin(-iv.c), 1)) {
						adv = true
					}
				}
				if !adv && det == "" {
					det = "the literals of the conflict are not visited one after another from the first"
				}
			}
			r.Ob("conflict", next("iteration"), det == "", why.Pos(), "%s", det)
		}
		set := func(st *State, f string, v V) {
			p := Ptr{obj("S"), []pe{{f: fieldIndex(P, xoPkg, "S", f)}}}
			st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + P.Type(xoPkg, "S").String() + "." + f, v}
		}
		x0 := linSym(&Sym{id: "conflict", lo: i64(1), hi: i64(1 << 31)})
		l0 := linSym(&Sym{id: "v(failed)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
		ms := Slice{obj("ms"), Lin{}, linSym(&Sym{id: "len(ms)", lo: i64(0)}), linSym(&Sym{id: "cap(ms)", lo: i64(0)})}
		for i := 0; i < 3; i++ {
			st := newState()
			set(st, "x", lin(0))
			set(st, "xLit", lin(0))
			name := "satisfiable"
			switch i {
			case 1:
				set(st, "x", x0)
				name = "conflict"
			case 2:
				set(st, "xLit", l0)
				name = "failed assumption"
			}
			n := 0
			E.UnrollLoop = nil
			if i == 2 {
				E.UnrollLoop = func(*ssa.Function, *ssa.BasicBlock) (bool, int) { return true, 3 }
			}
			for _, o := range E.Run(st, why, []V{h.ptr("S"), ms}, nil) {
				if o.Kind != "return" {
					continue
				}
				n++
				st := o.St
				det := ""
				var visits, fails []V
				src := false
				for _, e := range st.events {
					switch e.Kind {
					case "visit":
						visits = append(visits, e.Args[0])
					case "failed":
						fails = append(fails, e.Args[1])
					case "lits":
						if sameV(e.Args[0], x0) {
							src = true
						}
					}
				}
				ret, _ := o.Ret[0].(Slice)
				switch i {
				case 0:
					if len(visits) > 0 || len(fails) > 0 || ret.o == nil || ret.o.id != "ms" || !sameV(ret.len, ms.len) {
						det = "something is reported although the last answer was not unsatisfiable"
					}
				case 1:
					if !src {
						det = "the literals of the conflict are not traced"
					}
					if len(fails) > 0 {
						det = fmt.Sprintf("%v is reported untraced", fails[0])
					}
				case 2:
					if len(fails) != 1 || !sameV(fails[0], l0) {
						det = "the assumption which was false is not reported once"
					}
					ok := false
					for _, v := range visits {
						if sameV(v, l0) {
							ok = true
						}
					}
					if !ok {
						det = fmt.Sprintf("the trace starts at %v instead of the false assumption", visits)
					}
				}
				r.Ob("start", fmt.Sprintf("%s: return %d", name, n), det == "", o.Pos, "%s", det)
			}
			r.Ob("start", name+": answers", n > 0, why.Pos(), "no answer")
		}
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	// reasons of a propagated literal
	{
		h := mk()
		E := h.E
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if p.o.id == "dst" {
				st.events = append(st.events, Event{Kind: "put", Args: []V{p.path[0].idx, v}})
			}
		}
		put := func(st *State) func(V) bool {
			return func(v V) bool {
				k := 0
				ok := false
				for _, e := range st.events {
					if e.Kind == "put" {
						k++
						ok = sameV(e.Args[1], neg(E, v))
					}
				}
				return ok && k == 1
			}
		}
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			det := walk(E, st, phis, put(st))
			r.Ob("reasons", next("iteration"), det == "", reasons.Pos(), "%s", det)
		}
		m := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
		dst := Slice{obj("dst"), Lin{}, linSym(&Sym{id: "len(dst)", lo: i64(0)}), linSym(&Sym{id: "cap(dst)", lo: i64(0)})}
		st := newState()
		st.keep("r", r0)
		k := 0
		for _, o := range E.Run(st, reasons, []V{h.ptr("S"), dst, m}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			det := ""
			ret, ok := o.Ret[0].(Slice)
			re := elem(o.St, "Vars.Reasons", divLin(m, 2))
			switch {
			case re == nil:
				det = "the reason is not looked up"
			case re.String() == "0":
				if !ok || !sameV(ret.len, lin(0)) {
					det = fmt.Sprintf("a literal without reason gets %v", o.Ret[0])
				}
			case !ended(o.St):
				det = "the reason is not read to its end"
			}
			r.Ob("reasons", fmt.Sprintf("return %d", k), det == "", o.Pos, "%s", det)
		}
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	r.Floor("visit", 6)
	r.Floor("reason", 2)
	r.Floor("start", 6)
	r.Floor("conflict", 1)
	r.Floor("reasons", 3)
	r.Assume("an implied literal is the first of the clause which is its reason (C21)")
}
