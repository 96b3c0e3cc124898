package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C36", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of adding and learning a clause: one arbitrary literal of the clause under every value it may have, all paths after the loop, and the layout of the clause memory.",
		Run:  runC36})
}

func runC36(r *Report) {
	addLoop(r)
	learnClause(r)
	clauseMemory(r)
	solverAdd(r)
	pending(r)
	r.Floor("literals", 4)
	r.Floor("stored", 6)
	r.Floor("layout", 2)
	r.Floor("unit", 2)
}

// clauseOps replaces the operations below clauses by records of them.
func clauseOps(e *emitter) {
	P := e.P
	mkChd, mkW, addLits := P.Func(xoPkg, "MakeChd"), P.Func(xoPkg, "MakeWatch"), P.Func(xoPkg, "CDat.AddLits")
	tick := P.TryFunc(xoPkg, "Cgc.Tick")
	e.E.NoMods = map[*ssa.Function]bool{mkChd: true, mkW: true, addLits: true}
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case nil:
			return false, nil
		case mkChd:
			st.seq++
			u := linSym(&Sym{id: fmt.Sprintf("header#%d", st.seq), lo: i64(1), hi: i64(1<<32 - 1)})
			e.log(st, "chd", u, args[0], args[1], args[2])
			return one1(st, u)
		case mkW:
			st.seq++
			u := linSym(&Sym{id: fmt.Sprintf("watch#%d", st.seq), lo: i64(1)})
			e.log(st, "mkwatch", u, args[0], args[1], args[2])
			return one1(st, u)
		case addLits:
			st.seq++
			loc := linSym(&Sym{id: fmt.Sprintf("loc#%d", st.seq), lo: i64(1), hi: i64(1<<32 - 2)})
			e.log(st, "addlits", loc, args[1], args[2])
			return one1(st, loc)
		case tick:
			return one1(st, Tuple{})
		}
		return false, nil
	}
}

// watched tells what is wrong with the watches of a new clause of n literals.
func watched(e *emitter, st *State, evs []Event, loc V, list string, n Lin) string {
	E := e.E
	type w struct{ lit, other, bin V }
	var ws []w
	mk := map[string]Event{}
	for _, ev := range evsOf(evs, "mkwatch") {
		mk[ev.Args[0].String()] = ev
	}
	for _, ev := range evs {
		if ev.Kind != "set" {
			continue
		}
		o := ev.Args[0].(Ptr).o.id
		m, ok := mk[ev.Args[2].String()]
		if !ok {
			continue
		}
		if strings.Contains(o, "#") && !strings.HasPrefix(o, "Vars.Watches[") {
			continue // a temporary
		}
		if !strings.HasPrefix(o, "Vars.Watches[") {
			return "a watch is put elsewhere"
		}
		if !sameV(m.Args[1], loc) {
			return fmt.Sprintf("the watch refers to %v instead of %v", m.Args[1], loc)
		}
		// the row must be put back as the longer one
		back := false
		for _, f := range evs {
			if f.Kind == "set" && f.Args[0].(Ptr).o.id == "Vars.Watches" && o == "Vars.Watches["+f.Args[1].String()+"]" {
				s, ok := f.Args[2].(Slice)
				i, ok2 := ev.Args[1].(Lin)
				if ok && ok2 && s.o.id == o && E.eqLin(st, s.len, i.add(lin(1), 1)) {
					back = true
				}
			}
		}
		if !back {
			return "a watch list is not put back with the new watch"
		}
		ws = append(ws, w{lit: Strv(strings.TrimSuffix(strings.TrimPrefix(o, "Vars.Watches["), "]")), other: m.Args[2], bin: m.Args[3]})
	}
	if len(ws) != 2 {
		return fmt.Sprintf("the clause is put into %d watch lists", len(ws))
	}
	a, b := elem(st, list, lin(0)), elem(st, list, lin(1))
	if a == nil || b == nil {
		return "the first two literals are not the watched ones"
	}
	name := func(v V) Strv { return Strv(v.String()) }
	x, y := ws[0], ws[1]
	if x.lit == name(b) {
		x, y = y, x
	}
	if x.lit != name(a) || y.lit != name(b) {
		return fmt.Sprintf("the watched literals are %v and %v, the first ones of the clause are %v and %v", x.lit, y.lit, a, b)
	}
	if !sameV(x.other, b) || !sameV(y.other, a) {
		return "the blocking literal of a watch is not the other watched one"
	}
	for _, z := range ws {
		bin, ok := z.bin.(Boolv)
		two := E.eqLin(st, n, lin(2))
		more := E.geq0(st, n.add(lin(3), -1))
		if !ok || !two && !more || bool(bin) != two {
			return fmt.Sprintf("a watch says binary: %v for a clause of %v literals", z.bin, n)
		}
	}
	return ""
}

func addLoop(r *Report) {
	P := r.P
	e := newObserver(P)
	E := e.E
	e.h.Signs["Cdb.AddVals"] = true
	clauseOps(e)
	add := P.Func(xoPkg, "Cdb.Add")
	r.Fn(add)
	cdb := e.h.ptr("Cdb")
	// a literal is kept for the end of the clause
	m := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)})
	for _, l := range []Lin{m.scale(2), m.scale(2).add(lin(1), 1)} {
		for i, o := range E.Run(newState(), add, []V{cdb, l}, nil) {
			if o.Kind != "return" {
				continue
			}
			det := "the literal is not kept"
			ss := sets(o.St.events, "Cdb.AddLits")
			f, _ := fieldV(o.St, P, xoPkg, "Cdb", "AddLits").(Slice)
			if len(ss) == 1 && sameV(ss[0].Args[2], l) && f.o != nil && f.o.id == "Cdb.AddLits" {
				if at := ss[0].Args[1].(Lin); E.eqLin(o.St, at, linSym(&Sym{id: "len(Cdb.AddLits)", lo: i64(0)})) && E.eqLin(o.St, f.len, at.add(lin(1), 1)) {
					det = ""
				}
			}
			if len(o.Ret) != 2 || !sameV(o.Ret[1], lin(0)) {
				det = "a unit is reported before the clause ends"
			}
			r.Ob("literals", fmt.Sprintf("a literal: path %d", i), det == "", o.Pos, "%s", det)
		}
	}
	// the end of the clause
	outs := E.Run(newState(), add, []V{cdb, lin(0)}, nil)
	cleaned := map[string]bool{}
	n := 0
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			o, idx, lv := over(b, "Cdb.AddLits")
			if o == "" {
				continue
			}
			l, ok := lv.(Lin)
			v, neg, ok2 := half(l)
			if !ok || !ok2 {
				continue
			}
			pos := firstPos(b.hdr)
			if len(sets(b.evs, "Cdb.AddLits")) == 0 && onlyClears(b, v) {
				cleaned[id] = true
				continue
			}
			n++
			det := ""
			u, a := elem(b.st, "Vars.Vals", l), readOf(b, "Cdb.AddVals", v)
			kept := sets(b.evs, "Cdb.AddLits")
			// false: the value of the literal is false; dup: it is kept already
			isv := func(x V, k int64) bool { return x != nil && sameV(x, lin(k)) }
			s := int64(1)
			if neg {
				s = -1
			}
			if len(kept) > 0 {
				k := kept[0]
				j, _ := k.Args[1].(Lin)
				jn, okn := E.nextLin(b.st, b.phis, j)
				jf, okf := firstOf(b.st, j)
				switch {
				case len(kept) > 1 || !sameV(k.Args[2], l):
					det = fmt.Sprintf("%v is kept instead of %v", k.Args[2], l)
				case !okn || !E.eqLin(b.st, jn, j.add(lin(1), 1)):
					det = "the next kept literal does not follow this one"
				case !okf || !E.eqLin(b.st, jf, lin(0)):
					det = "the first kept literal is not the first of the clause"
				case !isv(u, 0) && !isv(u, 1):
					det = "a literal which may be false is kept"
				case !isv(a, 0) && !isv(a, -s):
					det = "a literal is kept twice"
				case !isv(elem(b.st, "Cdb.AddVals", v), s):
					det = fmt.Sprintf("literal %v is kept but noted as %v", l, elem(b.st, "Cdb.AddVals", v))
				}
			} else {
				switch {
				case !isv(u, -1) && !isv(a, s):
					det = fmt.Sprintf("a literal is left out whose value is %v and which occurred as %v", u, a)
				case len(sets(b.evs, "Cdb.AddVals")) > 0 && !isv(elem(b.st, "Cdb.AddVals", v), s):
					det = "a literal which is left out changes the notes"
				}
				if det == "" {
					det = keptSame(E, b)
				}
			}
			r.Ob("literals", fmt.Sprintf("iteration %d", n), det == "", pos, "%s", det)
			nx, ok1 := E.nextLin(b.st, b.phis, idx)
			f, ok3 := firstOf(b.st, idx)
			det = ""
			if !ok1 || !ok3 || !E.eqLin(b.st, nx, idx.add(lin(1), 1)) || !E.eqLin(b.st, f, lin(0)) {
				det = "the literals are not visited one after another from the first"
			}
			r.Ob("literals", fmt.Sprintf("order %d", n), det == "", pos, "%s", det)
		}
	}
	la := linSym(&Sym{id: "len(Cdb.AddLits)", lo: i64(0)})
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		ob := func(what, det string) {
			r.Ob("stored", fmt.Sprintf("%s: path %d", what, i), det == "", o.Pos, "%s", det)
		}
		add := evsOf(st.events, "addlits")
		switch len(add) {
		case 0:
			// only a clause which is true may be dropped
			ob("dropped", trueClause(E, st))
			det := ""
			if !sameV(o.Ret[1], lin(0)) {
				det = "a unit is reported for a clause which is dropped"
			} else if l, ok := o.Ret[0].(Lin); !ok || l.isConst() && l.c == 0 {
				det = "a clause which is true is reported as the empty one"
			}
			ob("answer", det)
		case 1:
			ms, ok := add[0].Args[2].(Slice)
			det := ""
			loc := add[0].Args[0]
			var j Lin
			if !ok || ms.o.id != "Cdb.AddLits" || !E.eqLin(st, ms.off, lin(0)) {
				det = "other literals are stored than the kept ones"
			} else {
				j, _ = ms.len.(Lin)
				if name := phiName(symName(j)); name == "" && !j.isConst() {
					det = fmt.Sprintf("%v literals are stored", j)
				}
			}
			hd := evsOf(st.events, "chd")
			if det == "" && (len(hd) != 1 || !sameV(hd[0].Args[0], add[0].Args[1]) || !sameV(hd[0].Args[1], Boolv(false)) || !E.eqLin(st, hd[0].Args[3], j)) {
				det = "the header does not say an added clause of this length"
			}
			ob("literals", det)
			det = "the clause is not among the added ones"
			for _, s := range sets(st.events, "Cdb.Added") {
				f, _ := fieldV(st, P, xoPkg, "Cdb", "Added").(Slice)
				if at := s.Args[1].(Lin); sameV(s.Args[2], loc) && f.o != nil && f.o.id == "Cdb.Added" && E.eqLin(st, f.len, at.add(lin(1), 1)) {
					det = ""
				}
			}
			if !sameV(o.Ret[0], loc) {
				det = "another clause is returned"
			}
			ob("added", det)
			det = ""
			switch {
			case E.eqLin(st, j, lin(0)):
				if b := fieldV(st, P, xoPkg, "Cdb", "Bot"); !sameV(b, loc) {
					det = fmt.Sprintf("the empty clause is recorded as %v", b)
				}
			case E.eqLin(st, j, lin(1)):
				if a := elem(st, "Cdb.AddLits", lin(0)); a == nil || !sameV(a, o.Ret[1]) {
					det = fmt.Sprintf("the literal of a unit clause is given as %v", o.Ret[1])
				}
			case E.geq0(st, j.add(lin(2), -1)):
				det = watched(e, st, st.events, loc, "Cdb.AddLits", j)
				if !sameV(o.Ret[1], lin(0)) {
					det = "a unit is reported for a longer clause"
				}
			default:
				det = fmt.Sprintf("a clause of %v literals is treated alike whatever its length %v %v", j, st.facts, st.neq)
			}
			if b := fieldV(st, P, xoPkg, "Cdb", "Bot"); det == "" && sameV(b, loc) && !E.eqLin(st, j, lin(0)) {
				det = "a clause with literals is recorded as the empty one"
			}
			ob("by length", det)
		default:
			ob("literals", "the clause is stored more than once")
		}
		// the notes are cleared and the literals forgotten
		det := "the notes of the literals are not cleared"
		for _, ev := range evsOf(st.events, "loop") {
			id := string(ev.Args[0].(Strv))
			if !cleaned[id] {
				continue
			}
			for _, b := range e.recs[id] {
				_, idx, _ := over(b, "Cdb.AddLits")
				det = e.covers(st, b, idx, la)
			}
		}
		ob("notes", det)
		det = ""
		if f, ok := fieldV(st, P, xoPkg, "Cdb", "AddLits").(Slice); !ok || !E.eqLin(st, f.len, lin(0)) {
			det = "the literals are not forgotten"
		}
		ob("forgotten", det)
	}
	r.Ob("literals", "loop", n >= 2, add.Pos(), "no loop over the literals was found")
}

// keptSame tells whether the number of kept literals stays as it is: no
// variable other than the position in the clause changes.
func keptSame(E *Interp, b *bodyRec) string {
	ch := 0
	for phi, nv := range b.phis {
		hv, ok := b.st.top().env[phi].(Lin)
		if !ok {
			continue
		}
		if nl, ok := nv.(Lin); !ok || !E.eqLin(b.st, nl, hv) {
			ch++
		}
	}
	if ch > 1 {
		return "a literal which is left out is counted as kept"
	}
	return ""
}

func symName(l Lin) string {
	if len(l.t) == 1 {
		return l.t[0].s.id
	}
	return ""
}

// readOf gives the value read in an iteration from a table, before it changed.
func readOf(b *bodyRec, table string, idx Lin) V {
	for _, e := range b.evs {
		if e.Kind == "read" && e.Args[0].(Ptr).o.id == table && sameV(e.Args[1], idx) {
			return e.Args[2]
		}
	}
	return nil
}

// onlyClears tells whether an iteration only forgets the note of v.
func onlyClears(b *bodyRec, v Lin) bool {
	n := 0
	for _, e := range b.evs {
		switch e.Kind {
		case "set":
			if e.Args[0].(Ptr).o.id != "Cdb.AddVals" || !sameV(e.Args[1], v) || !sameV(e.Args[2], lin(0)) {
				return false
			}
			n++
		case "fset", "copy":
			return false
		}
	}
	return n > 0
}

// trueClause tells whether a literal which is true, or one whose negation was
// kept, was seen.
func trueClause(E *Interp, st *State) string {
	for i := len(st.events) - 1; i >= 0; i-- {
		ev := st.events[i]
		if ev.Kind != "read" {
			continue
		}
		switch ev.Args[0].(Ptr).o.id {
		case "Vars.Vals":
			if sameV(ev.Args[2], lin(1)) && litRead(st, ev.Args[1]) {
				return ""
			}
		case "Cdb.AddVals":
			a, ok := ev.Args[2].(Lin)
			if !ok || !a.isConst() || a.c == 0 {
				continue
			}
			for _, l := range evsOf(st.events, "read") {
				if l.Args[0].(Ptr).o.id != "Cdb.AddLits" {
					continue
				}
				if m, ok := l.Args[2].(Lin); ok {
					v, neg, ok := half(m)
					if ok && sameV(v, ev.Args[1]) && neg == (a.c == 1) {
						return ""
					}
				}
			}
		}
	}
	return "a clause is dropped which need not be true"
}

// litRead tells whether a literal is one of the clause.
func litRead(st *State, m V) bool {
	for _, l := range evsOf(st.events, "read") {
		if l.Args[0].(Ptr).o.id == "Cdb.AddLits" && sameV(l.Args[2], m) {
			return true
		}
	}
	return false
}

func learnClause(r *Report) {
	P := r.P
	learn := P.Func(xoPkg, "Cdb.Learn")
	r.Fn(learn)
	e := newObserver(P)
	E := e.E
	clauseOps(e)
	e.h.Nil["Cdb.Active"] = true
	n := linSym(&Sym{id: "len(ms)", lo: i64(0)})
	lbd := linSym(&Sym{id: "lbd", lo: i64(0)})
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) { return false, nil }
	st0 := newState()
	st0.keep("n", n)
	for i, o := range E.Run(st0, learn, []V{e.h.ptr("Cdb"), Slice{obj("ms"), Lin{}, n, n}, lbd}, nil) {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		n, _ := st.kept("n").(Lin)
		ob := func(what, det string) {
			r.Ob("stored", fmt.Sprintf("learned: %s: path %d", what, i), det == "", o.Pos, "%s", det)
		}
		add, hd := evsOf(st.events, "addlits"), evsOf(st.events, "chd")
		if len(add) != 1 || len(hd) != 1 {
			ob("literals", "the clause is not stored once")
			continue
		}
		loc := add[0].Args[0]
		det := ""
		ms, ok := add[0].Args[2].(Slice)
		if !ok || ms.o.id != "ms" || !E.eqLin(st, ms.off, lin(0)) || !E.eqLin(st, ms.len, n) {
			det = fmt.Sprintf("other literals are stored: %v", add[0].Args[2])
		} else if !sameV(hd[0].Args[0], add[0].Args[1]) || !sameV(hd[0].Args[1], Boolv(true)) || !E.eqLin(st, hd[0].Args[3], n) {
			det = "the header does not say a learned clause of this length"
		}
		ob("literals", det)
		det = "the clause is not among the learned ones"
		for _, s := range sets(st.events, "Cdb.Learnts") {
			f, _ := fieldV(st, P, xoPkg, "Cdb", "Learnts").(Slice)
			if at := s.Args[1].(Lin); sameV(s.Args[2], loc) && f.o != nil && f.o.id == "Cdb.Learnts" && E.eqLin(st, f.len, at.add(lin(1), 1)) {
				det = ""
			}
		}
		if len(o.Ret) != 1 || !sameV(o.Ret[0], loc) {
			det = "another clause is returned"
		}
		ob("learnts", det)
		det = ""
		switch {
		case E.geq0(st, n.add(lin(2), -1)):
			det = watched(e, st, st.events, loc, "ms", n)
		case E.eqLin(st, n, lin(0)):
			if b := fieldV(st, P, xoPkg, "Cdb", "Bot"); !sameV(b, loc) {
				det = "the empty clause is not recorded"
			}
		case E.eqLin(st, n, lin(1)):
			if b := fieldV(st, P, xoPkg, "Cdb", "Bot"); sameV(b, loc) {
				det = "a unit clause is recorded as the empty one"
			}
		default:
			det = "the watches do not depend on the length of the clause"
		}
		ob("by length", det)
	}
}

func clauseMemory(r *Report) {
	P := r.P
	addLits, grow := P.Func(xoPkg, "CDat.AddLits"), P.TryFunc(xoPkg, "CDat.grow")
	r.Fn(addLits)
	e := newObserver(P)
	E := e.E
	cap0 := linSym(&Sym{id: "CDat.Cap", lo: i64(3), hi: i64(1 << 31)})
	len0 := linSym(&Sym{id: "CDat.Len", lo: i64(0), hi: i64(1 << 31)})
	n := linSym(&Sym{id: "len(ms)", lo: i64(0)})
	hdr := linSym(&Sym{id: "header", lo: i64(1), hi: i64(1<<32 - 1)})
	start := func() *State {
		st := newState()
		set := func(f string, v V) {
			p := Ptr{obj("CDat"), []pe{{f: fieldIndex(P, xoPkg, "CDat", f)}}}
			st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + P.Type(xoPkg, "CDat").String() + "." + f, v}
		}
		set("Cap", cap0)
		set("Len", len0)
		set("D", Slice{obj("CDat.D"), Lin{}, cap0, cap0})
		st.facts = append(st.facts, cap0.add(len0, -1))
		return st
	}
	field := func(st *State, f string) V { return fieldV(st, P, xoPkg, "CDat", f) }
	for i, o := range E.Run(start(), addLits, []V{e.h.ptr("CDat"), hdr, Slice{obj("ms"), Lin{}, n, n}}, nil) {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		ob := func(what, det string) {
			r.Ob("layout", fmt.Sprintf("%s: path %d", what, i), det == "", o.Pos, "%s", det)
		}
		d, ok := field(st, "D").(Slice)
		if !ok || !E.eqLin(st, d.off, lin(0)) {
			ob("memory", "the memory does not start where it did")
			continue
		}
		first := len0.add(lin(1), 1)
		det := ""
		if v := elem(st, d.o.id, len0); !sameV(v, hdr) {
			// the header may have been stored before the literals were copied
			det = "the header is not before the first literal"
			for _, s := range sets(st.events, d.o.id) {
				if E.eqLin(st, s.Args[1], len0) {
					det = ""
					if !sameV(s.Args[2], hdr) {
						det = fmt.Sprintf("%v is stored as the header", s.Args[2])
					}
				}
			}
		}
		ob("header", det)
		det = "the literals are not stored behind the header"
		end := first.add(n, 1)
		for _, c := range evsOf(st.events, "copy") {
			dst, ok1 := c.Args[0].(Slice)
			src, ok2 := c.Args[1].(Slice)
			if !ok1 || !ok2 || dst.o.id != d.o.id || !strings.HasPrefix(src.o.id, "ms") {
				continue
			}
			sl, _ := src.len.(Lin)
			dl, _ := dst.len.(Lin)
			switch {
			case !E.eqLin(st, dst.off, first) || !E.eqLin(st, src.off, lin(0)):
				det = fmt.Sprintf("the literals from %v are stored at %v", src.off, dst.off)
			case !E.geq0(st, sl.add(n, -1)) || !E.geq0(st, dl.add(n, -1)):
				det = fmt.Sprintf("only %v of %v literals are stored", dst.len, src.len)
			default:
				det = ""
				// the null literal behind them
				if E.eqLin(st, sl, n.add(lin(1), 1)) && E.geq0(st, dl.add(sl, -1)) {
					t := elem(st, src.o.id, n)
					if !sameV(t, lin(0)) {
						det = "the clause is not ended"
					}
				} else if t := elem(st, d.o.id, end); !sameV(t, lin(0)) {
					det = "the clause is not ended"
				}
			}
		}
		for _, ev := range evsOf(st.events, "loop") {
			for _, b := range e.recs[string(ev.Args[0].(Strv))] {
				for _, rd := range evsOf(b.evs, "read") {
					src := rd.Args[0].(Ptr).o.id
					idx, ok := rd.Args[1].(Lin)
					if !ok || !strings.HasPrefix(src, "ms") {
						continue
					}
					for _, s := range sets(b.evs, d.o.id) {
						if !sameV(s.Args[2], rd.Args[2]) || !E.eqLin(b.st, s.Args[1], first.add(idx, 1)) {
							continue
						}
						if e.covers(st, b, idx, n.add(lin(1), 1)) == "" && ended(E, st, src, n) {
							det = ""
						} else if det = e.covers(st, b, idx, n); det == "" && !sameV(elem(st, d.o.id, end), lin(0)) {
							det = "the clause is not ended"
						}
					}
				}
			}
		}
		ob("literals", det)
		det = ""
		if l := field(st, "Len"); !E.eqLin(st, l, end.add(lin(1), 1)) {
			det = fmt.Sprintf("the next clause is stored at %v instead of %v", l, end.add(lin(1), 1))
		} else if len(o.Ret) != 1 || !E.eqLin(st, o.Ret[0], first) {
			det = fmt.Sprintf("the clause is given as %v instead of %v", o.Ret, first)
		}
		ob("location", det)
		// room, and what was there before
		c, _ := field(st, "Cap").(Lin)
		dl, _ := d.len.(Lin)
		switch {
		case !E.geq0(st, dl.add(end, -1).add(lin(1), -1)):
			det = fmt.Sprintf("the memory of %v may be too small for %v", dl, end)
		case !E.eqLin(st, c, dl):
			det = fmt.Sprintf("the memory has length %v and is said to have %v", dl, c)
		case d.o.id != "CDat.D":
			det = "the clauses are not kept when the memory grows"
			for _, cp := range evsOf(st.events, "copy") {
				dst, ok1 := cp.Args[0].(Slice)
				src, ok2 := cp.Args[1].(Slice)
				if !ok1 || !ok2 || dst.o.id != d.o.id || src.o.id != "CDat.D" {
					continue
				}
				sl, _ := src.len.(Lin)
				if E.eqLin(st, dst.off, lin(0)) && E.eqLin(st, src.off, lin(0)) && E.geq0(st, sl.add(len0, -1)) {
					if dl, _ := dst.len.(Lin); E.geq0(st, dl.add(len0, -1)) {
						det = ""
					}
				}
			}
		}
		ob("room", det)
	}
	if grow != nil {
		r.Fn(grow)
	}
}

// ended tells whether the last element which was stored at n is the null
// literal.
func ended(E *Interp, st *State, o string, n Lin) bool {
	ok := false
	for _, s := range sets(st.events, o) {
		if E.eqLin(st, s.Args[1], n) {
			ok = sameV(s.Args[2], lin(0))
		}
	}
	return ok
}

func solverAdd(r *Report) {
	P := r.P
	add, cadd := P.Func(xoPkg, "S.Add"), P.Func(xoPkg, "Cdb.Add")
	ens, ens0, assign := P.Func(xoPkg, "S.ensureLitCap"), P.Func(xoPkg, "S.ensure0"), P.Func(xoPkg, "Trail.Assign")
	r.Fn(add)
	e := newObserver(P)
	E := e.E
	loc := linSym(&Sym{id: "loc", lo: i64(1), hi: i64(1<<32 - 2)})
	u := linSym(&Sym{id: "v(u)", lo: i64(1), hi: i64(1 << 30)})
	e.E.NoMods = map[*ssa.Function]bool{}
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case nil:
			return false, nil
		case ens:
			return one1(st, Tuple{})
		case ens0:
			e.log(st, "level0")
			return one1(st, Tuple{})
		case cadd:
			e.log(st, "add", args[1])
			if l, ok := args[1].(Lin); ok && !(l.isConst() && l.c == 0) {
				return one1(st, Tuple{linSym(&Sym{id: "inf", lo: i64(1)}), lin(0)})
			}
			_, os := opts(st, Tuple{loc, lin(0)}, Tuple{loc, u.scale(2)}, Tuple{loc, u.scale(2).add(lin(1), 1)})
			for i, o := range os {
				o.st.keep("unit", Boolv(i > 0))
				o.st.keep("unitlit", o.v.(Tuple)[1])
			}
			return true, os
		case assign:
			e.log(st, "assign", args[1], args[2])
			return one1(st, Tuple{})
		}
		return false, nil
	}
	m := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)})
	for _, l := range []Lin{lin(0), m.scale(2), m.scale(2).add(lin(1), 1)} {
		for i, o := range E.Run(newState(), add, []V{e.h.ptr("S"), l}, nil) {
			if o.Kind != "return" {
				continue
			}
			det := ""
			ad, as := evsOf(o.St.events, "add"), evsOf(o.St.events, "assign")
			if len(ad) != 1 || !sameV(ad[0].Args[0], l) {
				det = fmt.Sprintf("literal %v is not added once", l)
			}
			if l.isConst() {
				lv := false
				for _, ev := range o.St.events {
					if ev.Kind == "level0" {
						lv = true
					}
					if ev.Kind == "add" && !lv {
						det = "a clause is ended while assignments above level 0 hold"
					}
				}
			}
			if k, ok := o.St.kept("unit").(Boolv); det == "" && ok {
				switch {
				case bool(k) != (len(as) == 1) || len(as) > 1:
					det = fmt.Sprintf("the clause is unit: %v, literals are assigned: %d", k, len(as))
				case bool(k) && (!sameV(as[0].Args[0], o.St.kept("unitlit")) || !sameV(as[0].Args[1], loc)):
					det = fmt.Sprintf("%v is assigned for the reason %v", as[0].Args[0], as[0].Args[1])
				}
			} else if !ok && len(as) > 0 {
				det = "a literal is assigned before the clause ends"
			}
			r.Ob("unit", fmt.Sprintf("%v: path %d", l, i), det == "", o.Pos, "%s", det)
		}
	}
}

// pending: a clause which is being added is kept until it is ended: nothing but
// adding changes the literals collected so far.
func pending(r *Report) {
	P := r.P
	add := P.Func(xoPkg, "Cdb.Add")
	fld := P.Field(xoPkg, "Cdb", "AddLits")
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					if callee = ci.Common().StaticCallee(); callee != nil {
						callers[callee] = append(callers[callee], fn)
					}
				}
				for i, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && (f != callee || i > 0) {
						escapes[f] = true
					}
				}
			}
		}
	}
	memo := map[*ssa.Function]int{} // 1: below Add, 2: not
	var below func(fn *ssa.Function) bool
	below = func(fn *ssa.Function) bool {
		if fn == add {
			return true
		}
		if v := memo[fn]; v != 0 {
			return v == 1
		}
		memo[fn] = 1
		ok := len(callers[fn]) > 0 && !escapes[fn]
		for _, c := range callers[fn] {
			ok = ok && below(c)
		}
		if fn.Parent() != nil && below(fn.Parent()) {
			ok = true
		}
		if !ok {
			memo[fn] = 2
		}
		return ok
	}
	n := 0
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || fieldOf(s.Addr) != fld {
					continue
				}
				if _, fresh := s.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); fresh {
					continue
				}
				n++
				r.Fn(fn)
				r.Ob("pending", fmt.Sprintf("%s: literals of the clause being added", P.fname(fn)), below(fn), s.Pos(),
					"the literals collected for a clause which is not ended yet are changed by something else than adding")
			}
		}
	}
	r.Floor("pending", 2)
}
