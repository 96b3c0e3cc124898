package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C30", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of the operations on activation literals: which literal is handed out, which clauses are listed under it, and what is removed with it.",
		Run:  runC30})
}

func runC30(r *Report) {
	actLit(r)
	actWith(r)
	deact(r)
	actLearn(r)
	actEntry(r)
	r.Floor("literal", 2)
	r.Floor("listed", 6)
	r.Floor("removed", 6)
	r.Floor("entry", 6)
}

// occOf gives the variable of a row of the occurrence lists, if o is one.
func occRow(o string) (string, bool) {
	if strings.HasPrefix(o, "Active.Occs[") {
		return strings.TrimSuffix(strings.TrimPrefix(o, "Active.Occs["), "]"), true
	}
	return "", false
}

func actLit(r *Report) {
	P := r.P
	f, fresh := P.Func(xoPkg, "Active.Lit"), P.Func(xoPkg, "S.Lit")
	r.Fn(f)
	e := newObserver(P)
	E := e.E
	nl := linSym(&Sym{id: "v(new)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	E.NoMods = map[*ssa.Function]bool{fresh: true}
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn == fresh && fn != nil {
			e.log(st, "fresh")
			return one1(st, nl)
		}
		return false, nil
	}
	old := linSym(&Sym{id: "len(Active.Free)", lo: i64(0)})
	for i, o := range E.Run(newState(), f, []V{e.h.ptr("Active"), e.h.ptr("S")}, nil) {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		fr, ok := fieldV(st, P, xoPkg, "Active", "Free").(Slice)
		if !ok {
			// never touched
			fr = Slice{obj("Active.Free"), Lin{}, old, old}
		}
		det := ""
		set := len(sets(st.events, "Active.Free")) > 0
		switch n := len(evsOf(st.events, "fresh")); {
		case n > 1:
			det = "more than one literal is made"
		case n == 1:
			if !sameV(o.Ret[0], nl) {
				det = fmt.Sprintf("%v is given instead of the new literal", o.Ret[0])
			} else if set || fr.o.id != "Active.Free" || !sameV(fr.off, lin(0)) {
				det = "the free literals change although none is taken"
			}
		default:
			det = "a literal is given which is neither new nor free"
			for _, rd := range evsOf(st.events, "read") {
				if rd.Args[0].(Ptr).o.id != "Active.Free" || !sameV(rd.Args[2], o.Ret[0]) {
					continue
				}
				k, _ := rd.Args[1].(Lin)
				l, _ := fr.len.(Lin)
				off := fr.off
				switch {
				case set || fr.o.id != "Active.Free":
					det = "the list of free literals is changed"
				case sameV(off, lin(0)) && E.eqLin(st, k, l):
					det = ""
				case sameV(k, lin(0)) && E.eqLin(st, off, lin(1)):
					det = ""
				default:
					det = "a literal which is handed out stays free"
				}
			}
		}
		r.Ob("literal", fmt.Sprintf("path %d", i), det == "", o.Pos, "%s", det)
	}
}

// listRecs judges the loop which lists a clause under the activation literals
// in it.  It gives the loops which do so and the number of obligations.
func (e *emitter) listRecs(r *Report, list string, loc V, what string) map[string]bool {
	E := e.E
	ids := map[string]bool{}
	n := 0
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			o, idx, mv := over(b, list)
			if o == "" {
				continue
			}
			m, ok := mv.(Lin)
			if !ok {
				continue
			}
			v, _, ok := half(m)
			if !ok {
				continue
			}
			ids[id] = true
			n++
			det := ""
			act := readOf(b, "Active.IsActive", v)
			rows := 0
			for _, s := range sets(b.evs, "Active.Occs") {
				row, ok := s.Args[2].(Slice)
				l, ok2 := row.len.(Lin)
				switch {
				case !ok || !ok2 || !sameV(s.Args[1], v) || row.o.id != "Active.Occs["+v.String()+"]":
					det = "another list of clauses is changed"
				default:
					in := false
					for _, x := range sets(b.evs, row.o.id) {
						at, ok := x.Args[1].(Lin)
						if ok && sameV(x.Args[2], loc) && E.eqLin(b.st, l, at.add(lin(1), 1)) && strings.HasPrefix(symName(at), "len("+row.o.id) {
							in = true
						}
					}
					if !in {
						det = "the clause is not appended to the ones of the literal"
					}
					rows++
				}
			}
			switch {
			case det != "":
			case act == V(Boolv(true)) && rows != 1:
				det = "the clause is not listed under an activation literal in it"
			case act == V(Boolv(false)) && rows != 0:
				det = "the clause is listed under another literal"
			case act != V(Boolv(true)) && act != V(Boolv(false)):
				det = "literals are treated alike whether they are activation literals or not"
			}
			nx, ok1 := E.nextLin(b.st, b.phis, idx)
			f, ok2 := firstOf(b.st, idx)
			if det == "" && (!ok1 || !ok2 || !E.eqLin(b.st, nx, idx.add(lin(1), 1)) || !E.eqLin(b.st, f, lin(0))) {
				det = "the literals are not visited one after another"
			}
			r.Ob("listed", fmt.Sprintf("%s: case %d", what, n), det == "", firstPos(b.hdr), "%s", det)
		}
	}
	return ids
}

// listedAll tells whether a path visits all n literals of the list.
func (e *emitter) listedAll(st *State, ids map[string]bool, list string, n V) string {
	det := "the literals of the clause are not visited"
	for _, ev := range evsOf(st.events, "loop") {
		id := string(ev.Args[0].(Strv))
		if !ids[id] {
			continue
		}
		for _, b := range e.recs[id] {
			if o, idx, _ := over(b, list); o != "" {
				det = e.covers(st, b, idx, n)
			}
		}
	}
	return det
}

func actWith(r *Report) {
	P := r.P
	f, sadd, cadd, lits := P.Func(xoPkg, "Active.ActivateWith"), P.Func(xoPkg, "S.Add"), P.Func(xoPkg, "Cdb.Add"), P.Func(xoPkg, "Cdb.Lits")
	r.Fn(f)
	e := newObserver(P)
	E := e.E
	E.NoMods = map[*ssa.Function]bool{sadd: true, cadd: true, lits: true}
	loc := linSym(&Sym{id: "loc", lo: i64(1), hi: i64(1<<32 - 2)})
	u := linSym(&Sym{id: "v(u)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	cinf := lin(P.ConstVal(xoPkg, "CInf"))
	n := linSym(&Sym{id: "len(lits)", lo: i64(0)})
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case nil:
			return false, nil
		case sadd, cadd:
			e.log(st, "add", args[1])
			if fn == sadd {
				return one1(st, Tuple{})
			}
			_, os := opts(st, Tuple{loc, lin(0)}, Tuple{loc, u}, Tuple{cinf, lin(0)})
			for i, o := range os {
				o.st.keep("added", lin(int64(i)))
			}
			return true, os
		case lits:
			e.log(st, "lits", args[1])
			return one1(st, Slice{obj("lits"), Lin{}, n, n})
		}
		return false, nil
	}
	a := linSym(&Sym{id: "v(act)", lo: i64(1), hi: i64(1 << 30)})
	outs := E.Run(newState(), f, []V{e.h.ptr("Active"), a.scale(2), e.h.ptr("S")}, nil)
	e.dump("with", outs)
	ids := e.listRecs(r, "lits", loc, "activated")
	r.Ob("listed", "activated: loop", len(ids) > 0, f.Pos(), "no loop over the literals of the clause was found")
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		det := ""
		ad := evsOf(st.events, "add")
		if len(ad) != 2 || !sameV(ad[0].Args[0], a.scale(2).add(lin(1), 1)) || !sameV(ad[1].Args[0], lin(0)) {
			det = "the clause does not end with the negation of the activation literal"
		}
		r.Ob("listed", fmt.Sprintf("clause: path %d", i), det == "", o.Pos, "%s", det)
		det = ""
		k, _ := st.kept("added").(Lin)
		switch {
		case k.c == 1:
			det = "an empty clause is activated"
		case k.c == 0:
			set, loop := -1, -1
			for j, ev := range st.events {
				if ev.Kind == "set" && ev.Args[0].(Ptr).o.id == "Active.IsActive" && sameV(ev.Args[1], a) && sameV(ev.Args[2], Boolv(true)) {
					set = j
				}
				if ev.Kind == "loop" && ids[string(ev.Args[0].(Strv))] {
					loop = j
				}
			}
			ls := evsOf(st.events, "lits")
			if det = e.listedAll(st, ids, "lits", n); det == "" {
				switch {
				case len(ls) != 1 || !sameV(ls[0].Args[0], loc):
					det = "the literals are those of another clause"
				case set < 0 || set > loop:
					det = "the literal is not known as an activation literal when the clause is listed"
				}
			}
		}
		r.Ob("listed", fmt.Sprintf("activated: path %d", i), det == "", o.Pos, "%s", det)
	}
}

func actLearn(r *Report) {
	P := r.P
	f := P.Func(xoPkg, "Cdb.Learn")
	r.Fn(f)
	e := newObserver(P)
	E := e.E
	clauseOps(e)
	n := linSym(&Sym{id: "len(ms)", lo: i64(0)})
	st0 := newState()
	st0.keep("n", n)
	outs := E.Run(st0, f, []V{e.h.ptr("Cdb"), Slice{obj("ms"), Lin{}, n, n}, linSym(&Sym{id: "lbd", lo: i64(0)})}, nil)
	var loc V
	for _, o := range outs {
		for _, ev := range evsOf(o.St.events, "addlits") {
			loc = ev.Args[0]
		}
	}
	ids := e.listRecs(r, "ms", loc, "learned")
	r.Ob("listed", "learned: loop", len(ids) > 0, f.Pos(), "no loop over the literals of the clause was found")
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		det := e.listedAll(o.St, ids, "ms", o.St.kept("n"))
		r.Ob("listed", fmt.Sprintf("learned: path %d", i), det == "", o.Pos, "%s", det)
	}
}

func deact(r *Report) {
	P := r.P
	f, rm := P.Func(xoPkg, "Active.Deactivate"), P.Func(xoPkg, "Cdb.Remove")
	r.Fn(f)
	e := newObserver(P)
	E := e.E
	e.h.Signs["Vars.Vals"] = true
	E.NoMods = map[*ssa.Function]bool{rm: true}
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn == rm && fn != nil {
			e.log(st, "remove", args[1])
			return one1(st, Tuple{})
		}
		return false, nil
	}
	v := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)})
	for k, m := range []Lin{v.scale(2), v.scale(2).add(lin(1), 1)} {
		for i, o := range E.Run(newState(), f, []V{e.h.ptr("Active"), e.h.ptr("Cdb"), m}, nil) {
			if o.Kind != "return" {
				continue
			}
			st := o.St
			ob := func(what, det string) {
				r.Ob("removed", fmt.Sprintf("%s: path %d.%d", what, k, i), det == "", o.Pos, "%s", det)
			}
			row := "Active.Occs[" + v.String() + "]"
			det := "the clauses of the literal are not removed"
			for _, ev := range evsOf(st.events, "remove") {
				s, ok := ev.Args[0].(Slice)
				if ok && s.o.id == row && sameV(s.off, lin(0)) && sameV(s.len, linSym(&Sym{id: "len(" + row + ")", lo: i64(0)})) {
					det = ""
				} else if ok {
					det = "other clauses are removed"
				}
			}
			ob("clauses", det)
			det = "the literal keeps its clauses"
			for _, s := range sets(st.events, "Active.Occs") {
				if !sameV(s.Args[1], v) {
					det = "another literal loses its clauses"
					break
				}
				x, isl := s.Args[2].(Slice)
				if _, isn := s.Args[2].(Nilv); isn || isl && sameV(x.len, lin(0)) {
					det = ""
				}
			}
			ob("forgotten", det)
			det = ""
			if !sameV(elem(st, "Active.IsActive", v), Boolv(false)) {
				det = "the literal stays an activation literal"
			}
			ob("inactive", det)
			// free again
			var val V
			for _, rd := range evsOf(st.events, "read") {
				if rd.Args[0].(Ptr).o.id == "Vars.Vals" && (sameV(rd.Args[1], v.scale(2)) || sameV(rd.Args[1], v.scale(2).add(lin(1), 1))) {
					val = rd.Args[2]
				}
			}
			fr := sets(st.events, "Active.Free")
			det = ""
			unassigned := val != nil && sameV(val, lin(0))
			l, isl := val.(Lin)
			assigned := val != nil && isl && (l.isConst() && l.c != 0 || st.notZero(l))
			switch {
			case len(fr) == 0 && !assigned:
				det = "" // the literal is lost, which does no harm
			case len(fr) > 1:
				det = "the literal is free twice"
			case len(fr) == 1 && !unassigned:
				det = "a literal which may have a value is handed out again"
			case len(fr) == 1 && !sameV(fr[0].Args[2], v.scale(2)):
				det = fmt.Sprintf("%v is handed out again", fr[0].Args[2])
			case len(fr) == 1:
				s, ok := fieldV(st, P, xoPkg, "Active", "Free").(Slice)
				at, ok2 := fr[0].Args[1].(Lin)
				if !ok || !ok2 || !E.eqLin(st, s.len, at.add(lin(1), 1)) || !sameV(at, linSym(&Sym{id: "len(Active.Free)", lo: i64(0)})) {
					det = "the free literals are not kept"
				}
			}
			ob("free", det)
		}
	}
}

func actEntry(r *Report) {
	P := r.P
	ens0, ensA, cap := P.Func(xoPkg, "S.ensure0"), P.Func(xoPkg, "S.ensureActive"), P.Func(xoPkg, "S.ensureLitCap")
	lit, with, de := P.Func(xoPkg, "Active.Lit"), P.Func(xoPkg, "Active.ActivateWith"), P.Func(xoPkg, "Active.Deactivate")
	m := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	got := linSym(&Sym{id: "v(act)", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	for _, name := range []string{"Activate", "ActivationLit", "ActivateWith", "Deactivate"} {
		f := P.Func(xoPkg, "S."+name)
		r.Fn(f)
		e := newObserver(P)
		E := e.E
		E.NoMods = map[*ssa.Function]bool{ens0: true, cap: true, lit: true, with: true, de: true, ensA: true}
		e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			switch fn {
			case nil:
				return false, nil
			case ens0:
				e.log(st, "level0")
			case ensA:
				e.log(st, "tables")
			case cap:
				e.log(st, "room", args[1])
			case lit:
				e.log(st, "lit")
				return one1(st, got)
			case with:
				e.log(st, "with", args[1])
			case de:
				e.log(st, "de", args[2])
			default:
				return false, nil
			}
			return one1(st, Tuple{})
		}
		args := []V{e.h.ptr("S")}
		if f.Signature.Params().Len() == 1 {
			args = append(args, m)
		}
		for i, o := range E.Run(newState(), f, args, nil) {
			if o.Kind != "return" {
				continue
			}
			st := o.St
			seen := map[string]bool{}
			det := ""
			for _, ev := range st.events {
				switch ev.Kind {
				case "lit", "with", "de":
					if !seen["level0"] {
						det = "activation literals change while assumptions hold"
					} else if !seen["tables"] {
						det = "the tables may not exist"
					}
				}
				seen[ev.Kind] = true
			}
			one := func(kind string, want V) {
				if x := evsOf(st.events, kind); det == "" && (len(x) != 1 || want != nil && !sameV(x[0].Args[0], want)) {
					det = fmt.Sprintf("step %s is not done once for the literal", kind)
				}
			}
			switch name {
			case "Activate":
				one("lit", nil)
				one("with", got)
			case "ActivationLit":
				one("lit", nil)
			case "ActivateWith":
				one("with", m)
			case "Deactivate":
				one("de", m)
			}
			if f.Signature.Results().Len() == 1 && det == "" && !sameV(o.Ret[0], got) {
				det = "another literal is returned"
			}
			r.Ob("entry", fmt.Sprintf("%s: path %d", name, i), det == "", o.Pos, "%s", det)
		}
	}
	// the tables are shared
	r.Fn(ensA)
	e := newObserver(P)
	e.h.Nil["S.Active"] = true
	for i, o := range e.E.Run(newState(), ensA, []V{e.h.ptr("S")}, nil) {
		if o.Kind != "return" {
			continue
		}
		det := ""
		a, c := fieldV(o.St, P, xoPkg, "S", "Active"), fieldV(o.St, P, xoPkg, "Cdb", "Active")
		p, ok := a.(Ptr)
		if !ok {
			det = "there are no tables"
		} else if strings.Contains(p.o.id, "#") && !sameV(a, c) {
			det = "the clause database does not know the tables"
		}
		r.Ob("entry", fmt.Sprintf("tables: path %d", i), det == "", o.Pos, "%s", det)
	}
}
