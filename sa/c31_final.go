package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C31", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of every operation of the solver from a state in which the clauses are known to be inconsistent (an empty clause, or a conflict at level 0): every answer is 'unsatisfiable', and the operation ends in such a state.",
		Run:  runC31})
}

func runC31(r *Report) {
	P := r.P
	w := newVerdicts(r, "C31")
	E := w.E
	base := E.Call
	names := map[*ssa.Function]string{}
	for _, n := range []string{"Cdb.Add", "Active.Lit", "Active.ActivateWith", "Active.Deactivate"} {
		names[P.Func(xoPkg, n)] = n
	}
	skip := map[*ssa.Function]bool{P.Func(xoPkg, "S.ensureLitCap"): true, P.Func(xoPkg, "newActive"): true}
	E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if n := names[fn]; n != "" {
			switch fn.Name() {
			case "Add":
				return one1(st, Tuple{linSym(&Sym{id: "loc", lo: i64(0), hi: i64(1<<32 - 1)}), lin(0)})
			case "Lit":
				return one1(st, linSym(&Sym{id: "v(act)", lo: i64(1), hi: i64(1 << 30)}).scale(2))
			}
			return true, []Opt{{st, Tuple{}}}
		}
		if skip[fn] {
			if fn.Name() == "newActive" {
				return one1(st, w.h.ptr("Active"))
			}
			return true, []Opt{{st, Tuple{}}}
		}
		if fn == w.anch.back {
			// backtracking does nothing when it is at the level already
			if lv, ok := w.field(st, "Trail", "Level").(Lin); ok {
				if to, ok := args[1].(Lin); ok && E.geq0(st, to.add(lv, -1)) {
					return true, []Opt{{st, Tuple{}}}
				}
			}
		}
		return base(st, ci, fn, args)
	}
	w.h.Nil["S.Active"] = true
	m := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	S := w.h.ptr("S")
	set := func(st *State, T, f string, v V) {
		p := Ptr{obj(T), []pe{{f: fieldIndex(P, xoPkg, T, f)}}}
		st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + P.Type(xoPkg, T).String() + "." + f, v}
	}
	x0 := linSym(&Sym{id: "old conflict", lo: i64(1), hi: i64(1<<32 - 1)})
	bot := linSym(&Sym{id: "empty clause", lo: i64(1), hi: i64(1<<32 - 1)})
	total := 0
	for _, c := range []struct {
		n    string
		args []V
	}{{"Solve", []V{S}}, {"Test", []V{S, Slice{obj("ms"), Lin{}, linSym(&Sym{id: "len(ms)", lo: i64(0)}), linSym(&Sym{id: "cap(ms)", lo: i64(0)})}}},
		{"Untest", []V{S}}, {"Add", []V{S, lin(0)}}, {"Add", []V{S, m}}, {"Activate", []V{S}}, {"ActivationLit", []V{S}},
		{"ActivateWith", []V{S, m}}, {"Deactivate", []V{S, m}}} {
		fn := P.Func(xoPkg, "S."+c.n)
		n := 0
		for i := 0; i < 3; i++ {
			st := newState()
			st.keep("clean", Boolv(false))
			b, x := V(lin(0)), V(lin(0))
			from := "an empty clause"
			switch i {
			case 0:
				x = x0
				from = "a conflict without assumptions"
				set(st, "Trail", "Level", lin(0))
				set(st, "S", "endTestLevel", lin(0))
			case 1:
				b = bot
			case 2:
				b, x = bot, x0
			}
			set(st, "S", "x", x)
			set(st, "S", "xLit", lin(0))
			set(st, "Cdb", "Bot", b)
			st.keep("tl0", linSym(&Sym{id: "len(S.testLevels)", lo: i64(0)}))
			st.keep("na", linSym(&Sym{id: "len(S.assumes)", lo: i64(0)}))
			for _, o := range E.Run(st, fn, c.args, nil) {
				if o.Kind != "return" {
					continue
				}
				n++
				s := o.St
				det := ""
				switch c.n {
				case "Solve", "Test", "Untest":
					if res, ok := o.Ret[0].(Lin); !ok || !res.isConst() || res.c != -1 {
						det = fmt.Sprintf("after %s, %s answers %v", from, c.n, o.Ret[0])
					}
				}
				fb := w.field(s, "Cdb", "Bot")
				lb, isl := fb.(Lin)
				known := isl && E.geq0(s, lb.add(lin(1), -1))
				if fx, lv := w.field(s, "S", "x"), w.field(s, "Trail", "Level"); det == "" && !known && !(sameV(fx, x0) && E.eqLin(s, lv, lin(0)) && i == 0) {
					det = fmt.Sprintf("after %s, %s forgets it (conflict %v at level %v, empty clause %v)", from, c.n, fx, lv, fb)
				}
				total++
				r.Ob("final", fmt.Sprintf("%s from %s: path %d", c.n, from, n), det == "", fn.Pos(), "%s", det)
			}
		}
		r.Ob("final-reached", c.n, n > 0, fn.Pos(), "no path of %s returns", c.n)
	}
	// a conflict is kept at the level where it was found
	for _, c := range []struct {
		n    string
		args []V
	}{{"Solve", []V{S}}, {"Test", []V{S, Slice{obj("ms"), Lin{}, linSym(&Sym{id: "len(ms)", lo: i64(0)}), linSym(&Sym{id: "cap(ms)", lo: i64(0)})}}}, {"Untest", []V{S}}} {
		fn := P.Func(xoPkg, "S."+c.n)
		n := 0
		for _, st := range w.starts() {
			st.keep("tl0", linSym(&Sym{id: "len(S.testLevels)", lo: i64(0)}))
			st.keep("na", linSym(&Sym{id: "len(S.assumes)", lo: i64(0)}))
			for _, o := range E.Run(st, fn, c.args, nil) {
				if o.Kind != "return" {
					continue
				}
				if res, ok := o.Ret[0].(Lin); !ok || !res.isConst() || res.c != -1 {
					continue
				}
				var last *Event
				for i := range o.St.events {
					switch e := &o.St.events[i]; e.Kind {
					case "prop", "derive", "assign", "back":
						last = e
					}
				}
				x := w.field(o.St, "S", "x")
				for _, e := range o.St.events {
					// a derived clause is judged by C24
					if e.Kind == "derive" && x != nil {
						if p := elemAt(o.St, e.Args[1].(Ptr), fieldIndex(P, xoPkg, "Derived", "P")); p != nil && sameV(p, x) {
							last = nil
						}
					}
				}
				if last == nil || last.Kind != "prop" && last.Kind != "back" {
					continue
				}
				det := ""
				if last.Kind == "back" {
					// the conflict must be known otherwise
					if l, ok := w.field(o.St, "Cdb", "Bot").(Lin); !sameV(x, l) && !E.eqLin(o.St, x, lin(0)) || !ok {
						det = "a conflict is recorded although the assignment is undone"
					}
				} else if last.Args[0].String() != "0" && sameV(last.Args[0], x) && !sameV(last.Args[1], w.field(o.St, "Trail", "Level")) {
					det = fmt.Sprintf("the conflict was found at level %v, but the level is %v", last.Args[1], w.field(o.St, "Trail", "Level"))
				}
				n++
				r.Ob("level", fmt.Sprintf("%s: path %d", c.n, n), det == "", fn.Pos(), "%s", det)
			}
		}
	}
	for f := range E.Funcs {
		r.Fn(f)
	}
	r.Floor("final", 12)
	r.Floor("final-reached", 9)
	r.Floor("level", 4)
	r.Assume("a conflict returned by propagation at level 0 is a clause whose literals are all false at level 0 (C21, C27)")
	_ = total
}
