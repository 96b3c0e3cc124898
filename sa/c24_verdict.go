package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24", Level: "other",
		Rule: "Typestate and value analysis by disjunctive abstract interpretation over go/ssa: on every path to a return of Solve, Test and Untest, the answer is matched against the evidence on that path (the last propagation, the decision oracle, the stored conflict or failed assumption).",
		Run:  func(r *Report) { runVerdict(r, "C24") }})
	register(&Check{ID: "C14", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa: an arbitrary iteration of the loop over the assumptions, an arbitrary iteration of the search, and every path to a return.",
		Run:  func(r *Report) { runVerdict(r, "C14") }})
}

func init() {
	register(&Check{ID: "C13", Level: "other",
		Rule: "Typestate analysis by disjunctive abstract interpretation over go/ssa: Test and Untest push and pop one scope level on every path, and every operation which changes the clauses panics under an open scope before it changes anything, and otherwise starts from level 0 with the old conflict forgotten.",
		Run:  func(r *Report) { runVerdict(r, "C13"); runScopes(r) }})
}

// calleesIn gives the functions of the repository which the blocks may call.
func calleesIn(blocks map[*ssa.BasicBlock]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(bs []*ssa.BasicBlock)
	visit = func(bs []*ssa.BasicBlock) {
		for _, b := range bs {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && !seen[f] {
						seen[f] = true
						if f.Pkg != nil && b.Parent().Pkg != nil && (*Prog)(nil).inRepo(f) {
							visit(f.Blocks)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if f, ok := mc.Fn.(*ssa.Function); ok && !seen[f] {
						seen[f] = true
						visit(f.Blocks)
					}
				}
			}
		}
	}
	var bs []*ssa.BasicBlock
	for b := range blocks {
		bs = append(bs, b)
	}
	visit(bs)
	return seen
}

type verdicts struct {
	r    *Report
	P    *Prog
	h    *xoHeap
	E    *Interp
	id   string
	n    map[string]int
	anch struct{ prop, assign, back, backLates, derive, guess, has, addLits *ssa.Function }
}

func (w *verdicts) ob(id, rule, name string, det string, f *ssa.Function) {
	if id != w.id {
		return
	}
	w.r.Ob(rule, name, det == "", f.Pos(), "%s", det)
}

func (w *verdicts) num(rule string) int { w.n[rule]++; return w.n[rule] }

const xoPkg = "internal/xo"

func (w *verdicts) field(st *State, T, f string) V {
	if v := fieldV(st, w.P, xoPkg, T, f); v != nil {
		return v
	}
	return w.h.at(st, xoPkg, T, f)
}

func newVerdicts(r *Report, id string) *verdicts {
	P := r.P
	w := &verdicts{r: r, P: P, h: newXO(P), id: id, n: map[string]int{}}
	w.E = w.h.E
	a := &w.anch
	a.prop, a.assign, a.back = P.Func(xoPkg, "Trail.Prop"), P.Func(xoPkg, "Trail.Assign"), P.Func(xoPkg, "Trail.Back")
	a.backLates, a.derive = P.Func(xoPkg, "Trail.backWithLates"), P.Func(xoPkg, "Deriver.Derive")
	a.addLits = P.Func(xoPkg, "CDat.AddLits")
	a.guess, a.has = P.Func(xoPkg, "Guess.Guess"), P.Func(xoPkg, "Guess.has")
	opaque := map[*ssa.Function]bool{}
	for _, n := range []string{"Cdb.CheckModel", "Cdb.MaybeCompact", "Cdb.Decay", "Guess.Decay", "Guess.nextRestart", "phases.init", "Luby.Next", "Ctl.Tick"} {
		if f := P.TryFunc(xoPkg, n); f != nil {
			opaque[f] = true
		}
	}
	set := func(st *State, T, f string, v V) {
		p := Ptr{obj(T), []pe{{f: fieldIndex(P, xoPkg, T, f)}}}
		st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + P.Type(xoPkg, T).String() + "." + f, v}
	}
	forget := func(st *State) {
		for k, c := range st.mem {
			if c.o != nil && (c.o.id == "Vars.Vals" || c.o.id == "Vars.Levels" || c.o.id == "Trail.D" || c.o.id == "Vars.Reasons") {
				delete(st.mem, k)
			}
		}
		for _, t := range []string{"int8", "int"} {
			st.dirty["elem:"+t] = true
		}
	}
	fresh := func(st *State, n string, lo int64) Lin {
		st.seq++
		return linSym(&Sym{id: fmt.Sprintf("%s#%d", n, st.seq), lo: i64(lo), hi: i64(1<<32 - 1)})
	}
	ev := func(st *State, ci ssa.CallInstruction, k string, args ...V) {
		st.events = append(st.events, Event{Kind: k, Args: args, Pos: ci.Pos()})
	}
	w.E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn == nil {
			return false, nil
		}
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "log" && (fn.Name() == "Fatal" || fn.Name() == "Fatalf" || fn.Name() == "Fatalln") {
			return true, nil
		}
		switch fn {
		case a.prop:
			forget(st)
			lvl, al := w.field(st, "Trail", "Level"), w.field(st, "S", "assumptLevel")
			s2 := st.clone()
			set(st, "Trail", "Tail", fresh(st, "Tail", 0))
			ev(st, ci, "prop", lin(0), lvl, al)
			st.keep("clean", Boolv(true))
			x := fresh(s2, "conflict", 1)
			ev(s2, ci, "prop", x, lvl, al)
			return true, []Opt{{st, lin(0)}, {s2, x}}
		case a.assign:
			forget(st)
			ev(st, ci, "assign", args[1], args[2])
			st.keep("clean", Boolv(false))
			if args[2].String() == "0" {
				if l, ok := w.field(st, "Trail", "Level").(Lin); ok {
					set(st, "Trail", "Level", l.add(lin(1), 1))
				}
			}
			return true, []Opt{{st, Tuple{}}}
		case a.back, a.backLates:
			forget(st)
			ev(st, ci, "back", args[1])
			if fn == a.backLates {
				st.keep("clean", Boolv(false))
			}
			set(st, "Trail", "Level", fresh(st, "Level", 0))
			return true, []Opt{{st, Tuple{}}}
		case a.derive:
			st.seq++
			o := obj(fmt.Sprintf("Derived~%d", st.seq))
			ev(st, ci, "derive", args[1], Ptr{o: o})
			return true, []Opt{{st, Ptr{o: o}}}
		case a.guess:
			s2 := st.clone()
			v := linSym(&Sym{id: fmt.Sprintf("v(guess%d)", st.seq), lo: i64(1), hi: i64(1 << 30)})
			_, os := opts(st, v.scale(2), v.scale(2).add(lin(1), 1))
			for _, o := range os {
				ev(o.st, ci, "guess", o.v, o.st.kept("clean"), args[1])
			}
			ev(s2, ci, "guess", lin(0), s2.kept("clean"), args[1])
			return true, append(os, Opt{s2, lin(0)})
		case a.addLits:
			// a clause is never stored at location 0
			return one1(st, fresh(st, "loc", 1))
		case a.has:
			_, os := opts(st, Boolv(true), Boolv(false))
			for _, o := range os {
				if !bool(o.v.(Boolv)) {
					ev(o.st, ci, "guess", lin(0), o.st.kept("clean"), args[1])
				}
			}
			return true, os
		}
		if opaque[fn] {
			rt := fn.Signature.Results()
			if rt.Len() == 0 {
				return true, []Opt{{st, Tuple{}}}
			}
			if rt.Len() == 1 {
				if b, ok := rt.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					_, os := opts(st, Boolv(true), Boolv(false))
					return true, os
				}
				return true, []Opt{{st, w.E.Unknown(st, fn.Name(), rt.At(0).Type())}}
			}
			return true, []Opt{{st, w.E.Unknown(st, fn.Name(), rt)}}
		}
		return false, nil
	}
	w.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if p.o.id == "S.assumes" && isLit(t) {
			s := linSym(&Sym{id: "v(" + name + ")", lo: i64(1), hi: i64(1 << 30)})
			_, os := opts(st, s.scale(2), s.scale(2).add(lin(1), 1))
			for _, o := range os {
				o.st.events = append(o.st.events, Event{Kind: "assumption", Args: []V{o.v, p.path[0].idx}})
			}
			return true, os
		}
		if strings.HasPrefix(p.o.id, "Derived") && isC(t) {
			return one1(st, linSym(&Sym{id: name + p.o.id, lo: i64(1), hi: i64(1<<32 - 1)}))
		}
		if p.o.id == "S.testLevels" && len(p.path) == 1 {
			return one1(st, linSym(&Sym{id: "level of scope " + p.path[0].idx.String(), lo: i64(0), hi: i64(1 << 30)}))
		}
		if p.o.id == "Vars.Levels" {
			return opts(st, lin(-1), linSym(&Sym{id: "lvl" + name, lo: i64(0), hi: i64(1 << 30)}))
		}
		return false, nil
	}
	w.E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if p.o.id == "S.testLevels" {
			st.events = append(st.events, Event{Kind: "scope", Args: []V{p.path[0].idx, v, w.field(st, "Trail", "Level")}, Pos: pos})
		}
	}
	// loops: the trail level and the assumption level
	w.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		fs := calleesIn(blocks)
		if b, ok := st.kept("clean").(Boolv); ok && bool(b) && !fs[a.guess] && !fs[a.derive] {
			st.keep(fmt.Sprintf("wasclean:%p", hdr), Boolv(true))
		} else if fs[a.assign] || fs[a.prop] {
			st.keep("clean", Boolv(false))
		}
		lv, ok1 := w.field(st, "Trail", "Level").(Lin)
		al, ok2 := w.field(st, "S", "assumptLevel").(Lin)
		same := ok1 && ok2 && w.E.eqLin(st, lv, al)
		search := fs[a.guess]
		if search {
			det := ""
			if !same {
				det = fmt.Sprintf("the search starts at level %v, but the assumptions end at level %v", lv, al)
			}
			w.ob("C14", "search-level", fmt.Sprintf("entry %d", w.num("search-level")), det, hdr.Parent())
		}
		bot := w.field(st, "Cdb", "Bot")
		botNull := w.E.eqLin(st, bot, lin(0))
		// while the assumptions are made nothing has failed yet
		none := !search && fs[a.assign] && w.E.eqLin(st, w.field(st, "S", "x"), lin(0)) && w.E.eqLin(st, w.field(st, "S", "xLit"), lin(0))
		return func(st *State) {
			if none {
				set(st, "S", "x", lin(0))
				set(st, "S", "xLit", lin(0))
				st.keep(fmt.Sprintf("nofail:%p", hdr), Boolv(true))
			}
			if botNull {
				set(st, "Cdb", "Bot", lin(0))
			} else {
				set(st, "Cdb", "Bot", linSym(&Sym{id: "empty clause", lo: i64(1), hi: i64(1<<32 - 1)}))
			}
			st.keep("bot", Boolv(botNull))
			if search {
				st.keep("decided", Boolv(true))
				st.events = append(st.events, Event{Kind: "search"})
				return
			}
			if same && (fs[a.assign] || fs[a.back] || fs[a.prop] || fs[a.backLates]) {
				l := fresh(st, "Level", 0)
				set(st, "Trail", "Level", l)
				set(st, "S", "assumptLevel", l)
				st.keep("same:"+fmt.Sprintf("%p", hdr), Boolv(true))
			}
		}
	}
	w.E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		st.keep("init:"+phi.Parent().Name()+"."+phi.Name(), init)
		// a loop over what propagation gives: it is run before each iteration
		over := false
		for _, e := range phi.Edges {
			if c, ok := e.(*ssa.Call); ok && c.Call.StaticCallee() == a.prop && phi.Block().Dominates(c.Block()) {
				over = true
			}
		}
		for i := len(st.events) - 1; over && i >= 0 && st.mem["@decided"].v != nil; i-- {
			e := st.events[i]
			switch e.Kind {
			case "prop":
				if !sameV(e.Args[0], init) {
					return false, nil
				}
				st.keep(fmt.Sprintf("found:%p", phi), Boolv(true))
				lvl, al := w.field(st, "Trail", "Level"), w.field(st, "S", "assumptLevel")
				s2 := st.clone()
				x := fresh(s2, "conflict", 1)
				s2.events = append(s2.events, Event{Kind: "prop", Args: []V{x, lvl, al}, Pos: e.Pos})
				s2.keep("clean", Boolv(false))
				st.events = append(st.events, Event{Kind: "prop", Args: []V{lin(0), lvl, al}, Pos: e.Pos})
				st.keep("clean", Boolv(true))
				return true, []Opt{{st, lin(0)}, {s2, x}}
			case "assign", "back", "derive":
				return false, nil
			}
		}
		return false, nil
	}
	w.E.Back = w.iteration
	w.E.Peel = func(fn *ssa.Function, hdr *ssa.BasicBlock) bool {
		fs := calleesIn(loopBlocks(hdr, w.E.backEdges(fn)[hdr]))
		return fs[a.derive] && !fs[a.guess]
	}
	return w
}

// iteration judges one generic iteration of a loop.
func (w *verdicts) iteration(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
	E := w.E
	lv, _ := w.field(st, "Trail", "Level").(Lin)
	al, _ := w.field(st, "S", "assumptLevel").(Lin)
	if st.mem[fmt.Sprintf("@same:%p", hdr)].v != nil {
		det := ""
		if !E.eqLin(st, lv, al) {
			det = fmt.Sprintf("the level of the assumptions is recorded as %v, the trail is at level %v", al, lv)
		}
		w.ob("C14", "levels", fmt.Sprintf("iteration %d", w.num("levels")), det, hdr.Parent())
	}
	if st.mem[fmt.Sprintf("@wasclean:%p", hdr)].v != nil {
		det := ""
		if b, ok := st.kept("clean").(Boolv); !ok || !bool(b) {
			det = "an assumption is made but not propagated"
		}
		w.ob("C24", "propagated", fmt.Sprintf("iteration %d", w.num("propagated")), det, hdr.Parent())
	}
	if st.mem[fmt.Sprintf("@nofail:%p", hdr)].v != nil {
		det := ""
		if !E.eqLin(st, w.field(st, "S", "x"), lin(0)) || !E.eqLin(st, w.field(st, "S", "xLit"), lin(0)) {
			det = "assumptions are made after a failure was recorded"
		}
		w.ob("C24", "no-failure", fmt.Sprintf("iteration %d", w.num("no-failure")), det, hdr.Parent())
	}
	if b, ok := st.mem["@bot"].v.(Boolv); ok && w.E.eqLin(st, w.field(st, "Cdb", "Bot"), lin(0)) != bool(b) {
		w.ob("C24", "empty-clause", fmt.Sprintf("iteration %d", w.num("empty-clause")), "the record of an empty clause changes", hdr.Parent())
	}
	// the assumption read in this iteration
	var m, at V
	from := 0
	for i, e := range st.events {
		if e.Kind == "assumption" {
			m, at, from = e.Args[0], e.Args[1], i
		}
	}
	if m != nil && st.mem["@decided"].v == nil {
		det := "an assumption is passed over"
		fin := ""
		for _, e := range st.events[from:] {
			switch e.Kind {
			case "assign":
				if sameV(e.Args[0], m) && e.Args[1].String() == "0" {
					fin = "assigned"
				} else {
					fin = "other"
				}
			case "prop":
				if fin == "assigned" && e.Args[0].String() == "0" {
					det = ""
				}
			case "isval":
				if sameV(e.Args[0], m) && e.Args[1].String() == "1" {
					det = ""
				}
			}
		}
		if l, ok := m.(Lin); ok {
			if v := elem(st, "Vars.Vals", l); v != nil && v.String() == "1" {
				det = ""
			}
		}
		if det == "" {
			adv := false
			for phi, nv := range phis {
				hv, ok1 := st.top().env[phi].(Lin)
				nl, ok2 := nv.(Lin)
				al, ok3 := at.(Lin)
				iv, ok4 := st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Lin)
				if !ok1 || !ok2 || !ok3 || !ok4 {
					continue
				}
				d := al.add(hv, -1)
				if E.eqLin(st, nl, hv.add(lin(1), 1)) && d.isConst() && iv.isConst() && iv.c+d.c == 0 {
					adv = true
					st.keep("idx", al)
				}
			}
			if !adv {
				det = "the assumptions are not visited one after another from the first"
			}
		}
		w.ob("C14", "assumptions", fmt.Sprintf("iteration %d", w.num("assumptions")), det, hdr.Parent())
	}
	for phi, nv := range phis {
		if st.mem[fmt.Sprintf("@found:%p", phi)].v == nil {
			continue
		}
		det := "what propagation gave is not looked at"
	events:
		for i := len(st.events) - 1; i >= 0; i-- {
			switch e := st.events[i]; e.Kind {
			case "prop":
				if sameV(e.Args[0], nv) {
					det = ""
					st.events = append([]Event(nil), st.events[:i]...)
				}
				break events
			case "assign", "back", "derive":
				break events
			}
		}
		w.ob("C24", "conflict", fmt.Sprintf("iteration %d", w.num("conflict")), det, hdr.Parent())
	}
	if st.mem["@decided"].v != nil {
		det := ""
		var conf V
		var drv *Ptr
		learnt := false
		for _, e := range st.events {
			switch e.Kind {
			case "search":
				conf, drv, det = nil, nil, ""
			case "guess":
				conf = nil
			case "prop":
				if e.Args[0].String() != "0" {
					conf = e.Args[0]
				} else {
					conf = nil
				}
			case "derive":
				if conf == nil || !sameV(e.Args[0], conf) {
					det = fmt.Sprintf("a clause is derived from %v instead of the conflict", e.Args[0])
				}
				p := e.Args[1].(Ptr)
				drv = &p
			}
		}
		// nothing below the assumptions is undone
		afterEntry := false
		for _, e := range st.events {
			if e.Kind == "search" {
				afterEntry = true
			}
			if e.Kind == "back" && afterEntry {
				l, ok := e.Args[0].(Lin)
				if !ok || !E.geq0(st, l.add(al, -1)) {
					w.ob("C14", "search-back", fmt.Sprintf("iteration %d", w.num("search-back")), fmt.Sprintf("the search goes back to level %v, the assumptions end at level %v", e.Args[0], al), hdr.Parent())
					return
				}
			}
		}
		w.ob("C14", "search-back", fmt.Sprintf("iteration %d", w.num("search-back")), "", hdr.Parent())
		if conf != nil {
			backed := false
			for _, e := range st.events {
				if drv == nil {
					break
				}
				switch e.Kind {
				case "derive":
					backed = false
				case "back":
					backed = true
				case "assign":
					u := elemAt(st, *drv, fieldIndex(w.P, xoPkg, "Derived", "Unit"))
					p := elemAt(st, *drv, fieldIndex(w.P, xoPkg, "Derived", "P"))
					if backed && u != nil && p != nil && sameV(u, e.Args[0]) && sameV(p, e.Args[1]) {
						learnt = true
					}
				}
			}
			if !learnt && det == "" {
				det = "a conflict is left without asserting what was derived from it"
			}
			w.ob("C24", "conflict", fmt.Sprintf("iteration %d", w.num("conflict")), det, hdr.Parent())
		}
	}
}

func elemAt(st *State, p Ptr, f int) V {
	if c, ok := st.mem[cellKey(Ptr{p.o, []pe{{f: f}}})]; ok {
		return c.v
	}
	return nil
}

// starts gives the states of the solver before a call.
func (w *verdicts) starts() []*State {
	set := func(st *State, T, f string, v V) {
		p := Ptr{obj(T), []pe{{f: fieldIndex(w.P, xoPkg, T, f)}}}
		st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + w.P.Type(xoPkg, T).String() + "." + f, v}
	}
	x0 := linSym(&Sym{id: "old conflict", lo: i64(1), hi: i64(1<<32 - 1)})
	l0 := linSym(&Sym{id: "v(old failed)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	bot := linSym(&Sym{id: "empty clause", lo: i64(1), hi: i64(1<<32 - 1)})
	var r []*State
	for i := 0; i < 6; i++ {
		st := newState()
		st.keep("clean", Boolv(false))
		x, l, b := V(lin(0)), V(lin(0)), V(lin(0))
		switch i % 3 {
		case 1:
			x = x0
		case 2:
			l = l0
		}
		if i >= 3 {
			b = bot
		}
		set(st, "S", "x", x)
		set(st, "S", "xLit", l)
		set(st, "Cdb", "Bot", b)
		set(st, "Trail", "Level", linSym(&Sym{id: "Trail.Level", lo: i64(0), hi: i64(1 << 30)}))
		r = append(r, st)
	}
	return r
}

// unsat judges the evidence of an unsatisfiable answer.
func (w *verdicts) unsat(st *State) string {
	E := w.E
	norm := func(v V) V {
		if E.eqLin(st, v, lin(0)) {
			return lin(0)
		}
		return v
	}
	x, xl := norm(w.field(st, "S", "x")), norm(w.field(st, "S", "xLit"))
	bot := w.field(st, "Cdb", "Bot")
	var last *Event
	for i, e := range st.events {
		switch e.Kind {
		case "prop", "assign", "back", "derive":
			last = &st.events[i]
		}
	}
	if xl.String() != "0" {
		if x.String() != "0" {
			return fmt.Sprintf("both a conflict %v and a failed assumption %v are recorded", x, xl)
		}
		was := false
		for _, e := range st.events {
			if e.Kind == "assumption" && sameV(e.Args[0], xl) {
				was = true
			}
		}
		if !was {
			return fmt.Sprintf("the failed assumption %v is not an assumption of this call", xl)
		}
		if v := elem(st, "Vars.Vals", xl.(Lin)); v == nil || v.String() != "-1" {
			return fmt.Sprintf("the assumption recorded as failed has the value %v", v)
		}
		return ""
	}
	if x.String() == "0" {
		return "neither a conflict nor a failed assumption is recorded"
	}
	if bot != nil && bot.String() != "0" && sameV(x, bot) {
		return ""
	}
	if last == nil {
		return fmt.Sprintf("the recorded conflict is %v", x)
	}
	if last.Kind == "prop" && sameV(last.Args[0], x) {
		if st.mem["@decided"].v != nil {
			lv, ok1 := last.Args[1].(Lin)
			al, ok2 := last.Args[2].(Lin)
			if !ok1 || !ok2 || !E.geq0(st, al.add(lv, -1)) {
				return fmt.Sprintf("a conflict at level %v is taken for final, the assumptions end at level %v", last.Args[1], last.Args[2])
			}
		}
		return ""
	}
	// a derived clause which is false under the assumptions of a test
	for i := len(st.events) - 1; i >= 0; i-- {
		e := st.events[i]
		if e.Kind == "assign" || e.Kind == "prop" {
			break
		}
		if e.Kind != "derive" {
			continue
		}
		p := elemAt(st, e.Args[1].(Ptr), fieldIndex(w.P, xoPkg, "Derived", "P"))
		u, _ := elemAt(st, e.Args[1].(Ptr), fieldIndex(w.P, xoPkg, "Derived", "Unit")).(Lin)
		if p == nil || !sameV(p, x) {
			break
		}
		lv, _ := elem(st, "Vars.Levels", divLin(u, 2)).(Lin)
		if u.divisible(2) && len(lv.t) > 0 && st.mem["@decided"].v == nil {
			return ""
		}
		return "the derived clause recorded as a conflict may still be satisfied"
	}
	return fmt.Sprintf("the recorded conflict %v is not the one found last", x)
}

func (w *verdicts) sat(st *State) string {
	for i := len(st.events) - 1; i >= 0; i-- {
		e := st.events[i]
		switch e.Kind {
		case "guess":
			if e.Args[0].String() != "0" {
				return "the formula is called satisfiable although a variable is left to decide"
			}
			if b, ok := e.Args[1].(Boolv); !ok || !bool(b) {
				return "the formula is called satisfiable before the assignment was propagated without conflict"
			}
			if s, ok := e.Args[2].(Slice); !ok || s.o.id != "Vars.Vals" {
				return "the decision is not taken on the values of the variables"
			}
			return ""
		case "assign", "prop", "back":
			return "the assignment changes after it was found complete"
		}
	}
	return "the formula is called satisfiable although the assignment may be incomplete"
}

func runVerdict(r *Report, id string) {
	w := newVerdicts(r, id)
	P, E := r.P, w.E
	solve, test, untest := P.Func(xoPkg, "S.Solve"), P.Func(xoPkg, "S.Test"), P.Func(xoPkg, "S.Untest")
	mark := func(st *State) {}
	_ = mark
	answers := map[string]map[string]int{}
	run := func(fn *ssa.Function, args []V) {
		nm := fn.Name()
		answers[nm] = map[string]int{}
		for _, st := range w.starts() {
			bot := w.field(st, "Cdb", "Bot")
			st.keep("tl0", linSym(&Sym{id: "len(S.testLevels)", lo: i64(0)}))
			st.keep("na", linSym(&Sym{id: "len(S.assumes)", lo: i64(0)}))
			for _, o := range E.Run(st, fn, args, nil) {
				if o.Kind != "return" {
					continue
				}
				s := o.St
				tl0 := s.kept("tl0").(Lin)
				res, ok := o.Ret[0].(Lin)
				name := fmt.Sprintf("%s: return %d", nm, w.num(nm))
				if !ok || !res.isConst() {
					w.ob("C24", "answer", name, fmt.Sprintf("the answer is %v", o.Ret[0]), fn)
					continue
				}
				answers[nm][res.String()]++
				det := ""
				switch {
				case res.c == -1:
					det = w.unsat(s)
				case res.c == 1 && fn != untest:
					det = w.sat(s)
					if det == "" && bot.String() != "0" {
						det = "a formula with an empty clause is called satisfiable"
					}
				case res.c == 0 && fn == solve:
					det = "the search is given up without going back to the test scope"
					for i := len(s.events) - 1; i >= 0; i-- {
						e := s.events[i]
						if e.Kind == "assign" || e.Kind == "prop" {
							break
						}
						if e.Kind == "back" {
							if sameV(e.Args[0], w.field(s, "S", "endTestLevel")) {
								det = ""
							}
							break
						}
					}
				case res.c == 0:
					if b, ok := s.kept("clean").(Boolv); !ok || !bool(b) {
						det = "the answer is 'consistent', but the last assignments were not propagated"
					}
				default:
					det = fmt.Sprintf("the answer is %v", res)
				}
				if fn == untest && res.c == 0 && det == "" {
					if x, l := w.field(s, "S", "x"), w.field(s, "S", "xLit"); x.String() != "0" || l.String() != "0" {
						det = fmt.Sprintf("the old conflict %v, %v is kept", x, l)
					}
				}
				w.ob("C24", "answer", name, det, fn)
				// the scope of a test
				if fn != solve {
					det := ""
					d := int64(1)
					if fn == untest {
						d = -1
					}
					tl, _ := w.field(s, "S", "testLevels").(Slice)
					if l, ok := tl.len.(Lin); !ok || !E.eqLin(s, l, tl0.add(lin(d), 1)) {
						det = fmt.Sprintf("the number of open scopes changes from %v to %v", tl0, tl.len)
					}
					end := w.field(s, "S", "endTestLevel")
					top := linSym(&Sym{id: "level of scope " + tl0.add(lin(-1), 1).String(), lo: i64(0), hi: i64(1 << 30)})
					switch {
					case det != "":
					case fn == test:
						det = "the level of the new scope is not recorded"
						made := false
						for _, e := range s.events {
							switch e.Kind {
							case "assign", "assumption":
								if e.Kind == "assumption" || e.Args[1].String() == "0" {
									made = true
								}
							case "scope":
								if made {
									det = "the level of the new scope is recorded after assumptions were made"
								} else if det = ""; !sameV(e.Args[1], e.Args[2]) {
									det = fmt.Sprintf("the level %v is recorded for the new scope, the trail is at %v", e.Args[1], e.Args[2])
								}
							}
						}
						if lv := w.field(s, "Trail", "Level"); det == "" && res.c != -1 && !sameV(end, lv) {
							det = fmt.Sprintf("the scope is recorded to end at level %v, the trail is at %v", end, lv)
						}
					case !sameV(end, top):
						det = fmt.Sprintf("the enclosing scope is taken to end at level %v, recorded was %v", end, top)
					case res.c == 0:
						det = "the assumptions of the scope are not undone"
						for _, e := range s.events {
							if e.Kind == "back" && sameV(e.Args[0], top) {
								det = ""
							}
						}
					}
					w.ob("C13", "scope", name, det, fn)
				}
				// assumptions
				if fn == untest {
					continue
				}
				as, _ := w.field(s, "S", "assumes").(Slice)
				det = ""
				if l, ok := as.len.(Lin); !ok || !E.eqLin(s, l, lin(0)) {
					det = fmt.Sprintf("%v assumptions are kept for the next call", as.len)
				}
				if al := w.field(s, "S", "assumptLevel"); fn == solve && al.String() != "0" && det == "" {
					det = fmt.Sprintf("the assumption level stays %v", al)
				}
				w.ob("C14", "consumed", name, det, fn)
				if res.c == -1 {
					continue
				}
				// every assumption was visited
				det = "the call goes on before every assumption was made"
				for _, f := range s.facts {
					for _, t := range f.t {
						if t.k == 1 && phiName(t.s.id) != "" {
							iv, ok := s.mem["@init:"+phiName(t.s.id)].v.(Lin)
							if ok && iv.isConst() && E.geq0(s, linSym(t.s).add(lin(-iv.c), 1).add(s.kept("na").(Lin), -1)) {
								det = ""
							}
						}
					}
				}
				w.ob("C14", "all", name, det, fn)
			}
		}
	}
	S := w.h.ptr("S")
	run(solve, []V{S})
	run(test, []V{S, Slice{obj("ms"), Lin{}, linSym(&Sym{id: "len(ms)", lo: i64(0)}), linSym(&Sym{id: "cap(ms)", lo: i64(0)})}})
	run(untest, []V{S})
	for f := range E.Funcs {
		r.Fn(f)
	}
	switch id {
	case "C13":
		r.Floor("scope", 4)
		return
	case "C24":
		for n, want := range map[string][]string{"Solve": {"-1", "0", "1"}, "Test": {"-1", "0", "1"}, "Untest": {"-1", "0"}} {
			for _, a := range want {
				r.Ob("reachable", n+" can answer "+a, answers[n][a] > 0, solve.Pos(), "the analysis found no path which answers %s", a)
			}
		}
		r.Floor("answer", 10)
		r.Floor("conflict", 1)
	default:
		r.Floor("assumptions", 2)
		r.Floor("consumed", 6)
		r.Floor("all", 3)
		r.Floor("search-back", 2)
		r.Floor("search-level", 1)
	}
	r.Assume("a conflict clause returned by propagation is false (C21), the decision heap holds every unassigned variable (C28)")
}

// runScopes judges the operations which change the clauses.
func runScopes(r *Report) {
	P := r.P
	w := newVerdicts(r, "C13")
	E := w.E
	base := E.Call
	names := map[*ssa.Function]string{}
	for _, n := range []string{"Cdb.Add", "Active.Lit", "Active.ActivateWith", "Active.Deactivate"} {
		names[P.Func(xoPkg, n)] = n
	}
	skip := map[*ssa.Function]bool{P.Func(xoPkg, "S.ensureLitCap"): true, P.Func(xoPkg, "newActive"): true}
	E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if n := names[fn]; n != "" {
			lv := w.field(st, "Trail", "Level")
			x, xl := w.field(st, "S", "x"), w.field(st, "S", "xLit")
			if fn.Name() == "Add" && args[1].String() != "0" {
				n = "Cdb.Add literal"
			}
			st.events = append(st.events, Event{Kind: "change", Args: []V{Strv(n), lv, x, xl}, Pos: ci.Pos()})
			switch fn.Name() {
			case "Add":
				if n == "Cdb.Add literal" {
					return true, []Opt{{st, Tuple{lin(0), lin(0)}}}
				}
				loc := linSym(&Sym{id: "loc", lo: i64(1), hi: i64(1<<32 - 1)})
				u := linSym(&Sym{id: "v(unit)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
				_, os := opts(st, Tuple{loc, lin(0)}, Tuple{loc, u})
				os[1].st.events = append(os[1].st.events, Event{Kind: "unit", Args: []V{u, loc}})
				return true, os
			case "Lit":
				return one1(st, linSym(&Sym{id: "v(act)", lo: i64(1), hi: i64(1 << 30)}).scale(2))
			}
			return true, []Opt{{st, Tuple{}}}
		}
		if skip[fn] {
			if fn.Name() == "newActive" {
				return one1(st, w.h.ptr("Active"))
			}
			return true, []Opt{{st, Tuple{}}}
		}
		return base(st, ci, fn, args)
	}
	w.h.Nil["S.Active"] = true
	m := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	S := w.h.ptr("S")
	tl := linSym(&Sym{id: "len(S.testLevels)", lo: i64(0)})
	for _, c := range []struct {
		n    string
		args []V
	}{{"Add", []V{S, lin(0)}}, {"Add", []V{S, m}}, {"Activate", []V{S}}, {"ActivationLit", []V{S}}, {"ActivateWith", []V{S, m}}, {"Deactivate", []V{S, m}}} {
		fn := P.Func(xoPkg, "S."+c.n)
		name := c.n
		lit := c.n == "Add" && c.args[1].String() != "0"
		if lit {
			name += "(literal)"
		}
		n := 0
		for _, st := range w.starts() {
			st.keep("tl0", tl)
			for _, o := range E.Run(st, fn, c.args, nil) {
				n++
				det := ""
				s := o.St
				for _, e := range s.events {
					if e.Kind != "change" || lit {
						continue
					}
					switch {
					case o.Kind == "panic":
						det = fmt.Sprintf("%v happens before the misuse is detected", e.Args[0])
					case !E.eqLin(s, s.kept("tl0"), lin(0)):
						det = fmt.Sprintf("%v happens under an open test scope", e.Args[0])
					case !E.eqLin(s, e.Args[2], lin(0)) || !E.eqLin(s, e.Args[3], lin(0)):
						det = fmt.Sprintf("%v happens while an old conflict (%v, %v) is kept", e.Args[0], e.Args[2], e.Args[3])
					}
					if det != "" {
						break
					}
					zero := E.eqLin(s, e.Args[1], lin(0))
					for _, b := range s.events {
						if b.Kind == "back" && b.Args[0].String() == "0" {
							zero = true
						}
					}
					if !zero {
						det = fmt.Sprintf("%v happens at level %v", e.Args[0], e.Args[1])
						break
					}
				}
				if o.Kind == "return" && det == "" {
					seen := false
					for _, e := range s.events {
						if e.Kind == "change" {
							seen = true
						}
					}
					if !seen {
						det = "the operation does nothing"
					}
				}
				// a clause which is unit is propagated
				for _, e := range s.events {
					if e.Kind != "unit" || o.Kind != "return" {
						continue
					}
					done := false
					for _, a := range s.events {
						if a.Kind == "assign" && sameV(a.Args[0], e.Args[0]) && sameV(a.Args[1], e.Args[1]) {
							done = true
						}
					}
					if !done {
						det = "the unit clause added is not assigned"
					}
				}
				r.Ob("guard", fmt.Sprintf("%s: path %d", name, n), det == "", fn.Pos(), "%s", det)
			}
		}
	}
	for f := range E.Funcs {
		r.Fn(f)
	}
	r.Floor("guard", 20)
}
