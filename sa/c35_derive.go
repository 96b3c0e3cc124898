package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C35", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of conflict analysis.",
		Run:  runC35})
}

func runC35(r *Report) {
	deriveRules(r)
	minimizeRules(r)
	redundantRules(r)
	r.Floor("resolved", 6)
	r.Floor("trail", 8)
	r.Floor("result", 8)
	r.Floor("minimize", 6)
	r.Floor("redundant", 8)
}

func (e *emitter) dump(what string, outs []Outcome) {
	if os.Getenv("SA_DUMP") == "" {
		return
	}
	ev := func(x Event) string {
		s := x.Kind
		for _, a := range x.Args {
			s += fmt.Sprintf(" %v", a)
		}
		return s
	}
	for _, id := range sortedKeys(e.recs) {
		for i, b := range e.recs[id] {
			fmt.Printf("== %s %s rec %d %s\n", what, id, i, e.P.Pos(firstPos(b.hdr)))
			for phi, nv := range b.phis {
				fmt.Printf("   phi %s(%s): %v -> %v\n", phi.Name(), phi.Comment, b.st.top().env[phi], nv)
			}
			for _, x := range b.evs {
				fmt.Println("     ", ev(x))
			}
			fmt.Println("   facts", b.st.facts, b.st.neq)
		}
	}
	for i, o := range outs {
		fmt.Printf("== %s out %d %s %v\n", what, i, o.Kind, o.Ret)
		for _, x := range o.St.events {
			fmt.Println("     ", ev(x))
		}
	}
}

// fieldReads makes an observer record the reads of fields, too.
func (e *emitter) fieldReads() {
	e.E.Loaded = func(st *State, p Ptr, key string, v V) {
		if len(p.path) > 0 && p.path[len(p.path)-1].f >= 0 {
			e.log(st, "fread", Strv(cellName(p, key)), v)
		}
	}
}

// qty is something which changes from one iteration to the next.
type qty struct {
	id     string
	hv, nv V
}

// qtys gives the variables and fields of an iteration, before and after it.
func qtys(b *bodyRec) []qty {
	var r []qty
	for phi, nv := range b.phis {
		r = append(r, qty{phi.Parent().Name() + "." + phi.Name(), b.st.top().env[phi], nv})
	}
	seen := map[string]int{}
	for _, ev := range b.evs {
		if ev.Kind != "fread" && ev.Kind != "fset" {
			continue
		}
		n := string(ev.Args[0].(Strv))
		i, ok := seen[n]
		if !ok {
			if ev.Kind == "fset" {
				continue
			}
			i = len(r)
			seen[n] = i
			r = append(r, qty{"field " + n, ev.Args[1], ev.Args[1]})
		}
		r[i].nv = ev.Args[1]
	}
	return r
}

// appended gives what an iteration appends to a list of an object, nil if the
// list stays as it is, and what is wrong otherwise.
func appended(E *Interp, b *bodyRec, o string) (V, string) {
	ss := sets(b.evs, o)
	for _, q := range qtys(b) {
		h, ok1 := q.hv.(Slice)
		n, ok2 := q.nv.(Slice)
		if !ok1 || !ok2 || h.o.id != o {
			continue
		}
		hl, nl := h.len.(Lin), n.len.(Lin)
		switch {
		case n.o.id != o || !E.eqLin(b.st, h.off, n.off):
			return nil, "the list is another one afterwards"
		case len(ss) == 0 && E.eqLin(b.st, hl, nl):
			return nil, ""
		case len(ss) == 1 && E.eqLin(b.st, nl, hl.add(lin(1), 1)) && E.eqLin(b.st, ss[0].Args[1], hl):
			return ss[0].Args[2], ""
		}
		return nil, "the list is changed otherwise"
	}
	if len(ss) == 0 {
		return nil, ""
	}
	return nil, "an entry of the list is changed"
}

// frames keeps the values of all variables at a point.
func keepVars(st *State) {
	for _, f := range st.fr {
		for v, x := range f.env {
			if phi, ok := v.(*ssa.Phi); ok {
				switch x.(type) {
				case Lin, Slice:
					st.keep("at:"+phi.Parent().Name()+"."+phi.Name(), x)
				}
			}
		}
	}
}

func deriveRules(r *Report) {
	P := r.P
	derive, min, learn := P.Func(xoPkg, "Deriver.Derive"), P.Func(xoPkg, "Deriver.minimize"), P.Func(xoPkg, "Cdb.Learn")
	cbump, gbump := P.Func(xoPkg, "Cdb.Bump"), P.Func(xoPkg, "Guess.Bump")
	r.Fn(derive)
	e := newObserver(P)
	e.fieldReads()
	E := e.E
	e.h.Null["CDat.D"] = true
	E.NoMods = map[*ssa.Function]bool{cbump: true, gbump: true, learn: true, min: true}
	loc := linSym(&Sym{id: "learned", lo: i64(1), hi: i64(1<<32 - 2)})
	short := linSym(&Sym{id: "minimized", lo: i64(1)})
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case nil:
			return false, nil
		case cbump, gbump:
			return one1(st, Tuple{})
		case min:
			l, _ := fieldV(st, P, xoPkg, "Deriver", "CLits").(Slice)
			e.log(st, "minimize", l)
			keepVars(st)
			if l.o != nil {
				p := Ptr{obj("Deriver"), []pe{{f: fieldIndex(P, xoPkg, "Deriver", "CLits")}}}
				c := st.mem[cellKey(p)]
				c.v = Slice{l.o, l.off, short, short}
				st.mem[cellKey(p)] = c
			}
			return one1(st, linSym(&Sym{id: "removed", lo: i64(0)}))
		case learn:
			e.log(st, "learn", args[1])
			return one1(st, loc)
		}
		return false, nil
	}
	x := linSym(&Sym{id: "conflict", lo: i64(1), hi: i64(1<<32 - 2)})
	st0 := newState()
	outs := E.Run(st0, derive, []V{e.h.ptr("Deriver"), x}, nil)
	e.dump("derive", outs)

	// the lists which are cleared of notes at the end, on every path
	cleared := map[string]bool{}
	first := true
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		c := map[string]bool{}
		for _, ev := range evsOf(o.St.events, "loop") {
			for k := range e.clears(o.St, string(ev.Args[0].(Strv))) {
				c[k] = true
			}
		}
		if first {
			cleared, first = c, false
		}
		for k := range cleared {
			if !c[k] {
				delete(cleared, k)
			}
		}
	}

	// one literal of a clause which is resolved
	inner := map[string]string{} // loop: the variable at which the clause starts
	counters := map[string]bool{}
	target := map[string]bool{}
	none := true
	var recs []*bodyRec
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			o, idx, m := over(b, "CDat.D")
			if o == "" {
				continue
			}
			if t, _, _ := over(b, "Trail.D"); t != "" {
				continue
			}
			if _, _, ok := half(m.(Lin)); !ok {
				continue
			}
			if nx, ok := E.nextLin(b.st, b.phis, idx); !ok || sameV(nx, idx) {
				continue
			}
			f, ok := firstOf(b.st, idx)
			if !ok {
				continue
			}
			inner[id] = phiName(symName(f))
			recs = append(recs, b)
		}
	}
	level := func(b *bodyRec, v Lin) (zero, below, here bool) {
		l, ok := elem(b.st, "Vars.Levels", v).(Lin)
		if !ok {
			return
		}
		cur, ok := fieldV(b.st, P, xoPkg, "Trail", "Level").(Lin)
		zero = E.eqLin(b.st, l, lin(0))
		if !ok {
			return
		}
		d := l.add(cur, -1)
		here = E.eqLin(b.st, l, cur)
		below = b.st.notZero(d) || E.geq0(b.st, d.scale(-1).add(lin(1), -1))
		return
	}
	// what is counted: it grows by one with the literals of this level only
	for _, b := range recs {
		_, idx, m := over(b, "CDat.D")
		v, _, _ := half(m.(Lin))
		_, _, here := level(b, v)
		if readOf(b, "Deriver.Seen", v) != V(Boolv(false)) {
			continue
		}
		for _, q := range qtys(b) {
			h, ok1 := q.hv.(Lin)
			n, ok2 := q.nv.(Lin)
			if here && ok1 && ok2 && !sameV(h, idx) && E.eqLin(b.st, n, h.add(lin(1), 1)) {
				counters[q.id] = true
			}
		}
	}
	for _, b := range recs {
		for _, q := range qtys(b) {
			h, ok1 := q.hv.(Lin)
			n, ok2 := q.nv.(Lin)
			_, _, m := over(b, "CDat.D")
			v, _, _ := half(m.(Lin))
			_, _, here := level(b, v)
			fresh := readOf(b, "Deriver.Seen", v) == V(Boolv(false))
			if ok1 && ok2 && counters[q.id] {
				if want := h; !E.eqLin(b.st, n, want) && !(here && fresh) || here && fresh && !E.eqLin(b.st, n, h.add(lin(1), 1)) {
					delete(counters, q.id)
				}
			}
		}
	}
	for n, b := range recs {
		none = false
		_, idx, mv := over(b, "CDat.D")
		m := mv.(Lin)
		v, _, _ := half(m)
		det := ""
		nx, _ := E.nextLin(b.st, b.phis, idx)
		seen, zero, below, here := readOf(b, "Deriver.Seen", v), false, false, false
		zero, below, here = level(b, v)
		c, cd := appended(E, b, "Deriver.CLits")
		noted := sameV(elem(b.st, "Deriver.Seen", v), Boolv(true)) && seen != V(Boolv(true))
		listed := false
		for o := range cleared {
			if a, d := appended(E, b, o); d == "" && a != nil && sameV(a, m) {
				listed = true
			}
		}
		switch {
		case !E.eqLin(b.st, nx, idx.add(lin(1), 1)):
			det = fmt.Sprintf("after literal %v comes %v", idx, nx)
		case cd != "":
			det = "the clause: " + cd
		case c != nil && !sameV(c, m):
			det = fmt.Sprintf("%v is kept instead of %v", c, m)
		case seen == V(Boolv(true)):
			if c != nil {
				det = "a literal is kept twice"
			}
		case zero:
			if noted && listed {
				det = ""
			}
		case seen != V(Boolv(false)):
			det = "a literal is passed over which is not known to be counted already"
		case !noted:
			det = "a literal which is counted or kept is not noted"
		case !listed:
			det = "the note of a literal is not cleared afterwards"
		case here:
			if c != nil {
				det = "a literal of the current level is kept"
			}
			if len(counters) == 0 {
				det = "the literals of the current level are not counted, or others are, too"
			}
		case !below:
			det = "literals are treated alike whatever their level"
		case c == nil:
			det = "a literal of an earlier level is not kept"
		}
		r.Ob("resolved", fmt.Sprintf("literal: case %d", n), det == "", firstPos(b.hdr), "%s", det)
		if c == nil || here || det != "" {
			continue
		}
		// the level to go back to
		det = "the greatest level of the kept literals is not recorded"
		l, _ := elem(b.st, "Vars.Levels", v).(Lin)
		for _, q := range qtys(b) {
			h, ok1 := q.hv.(Lin)
			t, ok2 := q.nv.(Lin)
			if !ok1 || !ok2 || sameV(h, idx) {
				continue
			}
			if sameV(t, l) && E.geq0(b.st, l.add(h, -1)) || sameV(t, h) && E.geq0(b.st, h.add(l, -1)) {
				det = ""
				target[q.id] = true
			}
		}
		r.Ob("resolved", fmt.Sprintf("level: case %d", n), det == "", firstPos(b.hdr), "%s", det)
	}
	r.Ob("resolved", "clauses", !none, derive.Pos(), "no loop over the literals of a clause was found")

	// one literal of the trail
	outer := ""
	n := 0
	start := ""
	for _, s := range inner {
		start = s
	}
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			o, i, mv := over(b, "Trail.D")
			if o == "" {
				continue
			}
			m, ok := mv.(Lin)
			if !ok {
				continue
			}
			outer = id
			n++
			v, _, _ := half(m)
			det := ""
			nx, ok1 := E.nextLin(b.st, b.phis, i)
			f, ok2 := firstOf(b.st, i)
			tail, _ := fieldV(b.st, P, xoPkg, "Trail", "Tail").(Lin)
			if !ok1 || !ok2 || !E.eqLin(b.st, nx, i.add(lin(1), -1)) || !E.eqLin(b.st, f, tail.add(lin(1), -1)) {
				det = "the trail is not visited backwards from its end"
			}
			r.Ob("trail", fmt.Sprintf("order: case %d", n), det == "", firstPos(b.hdr), "%s", det)
			// the clause of this round is resolved before
			in := false
			for _, ev := range evsOf(b.evs, "loop") {
				if _, ok := inner[string(ev.Args[0].(Strv))]; ok {
					in = true
				}
			}
			var ph, pn, ch, cn V
			for phi, nv := range b.phis {
				name := phi.Parent().Name() + "." + phi.Name()
				h := b.st.top().env[phi]
				if name == start {
					ph, pn = h, nv
				}
				// the counter, or the one which goes on with it
				if l, ok := nv.(Lin); ok && len(l.t) == 1 {
					if counters[phiName(symName(lSym(l)))] {
						ch, cn = lSym(l), nv
					}
				}
				for c := range counters {
					if iv, ok := b.st.kept("init:" + c).(Lin); ok && phiName(symName(iv)) == name && cn == nil && in {
						ch, cn = h, nv
					}
				}
			}
			if !in {
				// without a clause the counter is the one of the outer loop
				for phi, nv := range b.phis {
					name := phi.Parent().Name() + "." + phi.Name()
					for c := range counters {
						if e.startsWith(c) == name {
							ch, cn = b.st.top().env[phi], nv
						}
					}
				}
			}
			det = ""
			switch {
			case start == "" || ph == nil:
				det = "it is not known which clause is resolved"
			case !in && !sameV(ph, lin(0)):
				det = "a clause is not resolved"
			}
			r.Ob("trail", fmt.Sprintf("clause: case %d", n), det == "", firstPos(b.hdr), "%s", det)
			det = ""
			cl, ok3 := ch.(Lin)
			cnl, ok4 := cn.(Lin)
			seen := readOf(b, "Deriver.Seen", v)
			switch {
			case !ok3 || !ok4:
				det = "it is not known how many literals of the level are left"
			case len(sets(b.evs, "Deriver.CLits")) > 0:
				det = "the clause changes while more literals of the level are left"
			case seen == V(Boolv(false)):
				if !E.eqLin(b.st, cnl, cl) {
					det = "a literal which was not counted is taken off"
				} else if !sameV(pn, lin(0)) {
					det = "a clause is resolved although its literal does not occur"
				}
			case seen == V(Boolv(true)):
				re, _ := elem(b.st, "Vars.Reasons", v).(Lin)
				switch {
				case !E.eqLin(b.st, cnl, cl.add(lin(1), -1)):
					det = "a literal which was counted is not taken off once"
				case !b.st.notZero(cl.add(lin(1), -1)):
					det = "the last literal of the level is resolved, too"
				case !E.eqLin(b.st, pn, re.add(lin(1), 1)):
					det = fmt.Sprintf("the literals from %v on are resolved instead of the other literals of the reason", pn)
				}
			default:
				det = "literals of the trail are treated alike whether they are counted or not"
			}
			r.Ob("trail", fmt.Sprintf("literal: case %d", n), det == "", firstPos(b.hdr), "%s", det)
		}
	}
	r.Ob("trail", "loop", n > 0, derive.Pos(), "no loop over the trail was found")

	// the result
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		ob := func(what, det string) {
			r.Ob("result", fmt.Sprintf("%s: path %d", what, i), det == "", o.Pos, "%s", det)
		}
		var rest []Event
		var after bool
		for _, ev := range st.events {
			if after {
				rest = append(rest, ev)
			}
			if ev.Kind == "loop" && string(ev.Args[0].(Strv)) == outer {
				after = true
			}
		}
		var lit, tr V
		for _, ev := range rest {
			if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == "Trail.D" {
				lit, tr = ev.Args[2], ev.Args[1]
			}
			if ev.Kind == "minimize" {
				break
			}
		}
		mi, le := evsOf(st.events, "minimize"), evsOf(st.events, "learn")
		if len(mi) != 1 || len(le) != 1 {
			ob("learned", "the clause is not minimized and learned once")
			continue
		}
		if lit == nil {
			// the end of the trail, which is never met
			det := "the search for the last literal of the level may stop too early"
			for phi, f := range e.indexOf("Trail.D", outer) {
				_ = f
				if l, ok := st.kept("at:" + phi).(Lin); ok && E.geq0(st, lin(-1).add(l, -1)) {
					det = ""
				}
			}
			ob("stop", det)
			continue
		}
		_ = tr
		l, _ := lit.(Lin)
		v, _, _ := half(l)
		neg := negation(l)
		// the last literal of the level
		det := "it is not known that the last counted literal of the level was met"
		for c := range counters {
			for _, name := range []string{c, e.startsWith(c)} {
				if k, ok := st.kept("at:" + name).(Lin); ok && E.eqLin(st, k, lin(1)) {
					det = ""
				}
			}
		}
		var seen V
		for _, ev := range rest {
			if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == "Deriver.Seen" && sameV(ev.Args[1], v) {
				seen = ev.Args[2]
				break
			}
		}
		if seen != V(Boolv(true)) {
			det = "the literal which stands for the level need not be one which is counted"
		}
		ob("stop", det)
		det = ""
		if a := elem(st, "Deriver.CLits", lin(0)); !sameV(a, neg) {
			det = fmt.Sprintf("the first literal is %v instead of the negation of %v", a, lit)
		}
		ob("asserting", det)
		s, ok := mi[0].Args[0].(Slice)
		det = ""
		if !ok || s.o.id != "Deriver.CLits" || !E.eqLin(st, s.off, lin(0)) || !listPhi(e, recs, s) {
			det = "another list of literals is minimized than the kept ones"
		}
		ob("minimized", det)
		s, ok = le[0].Args[0].(Slice)
		det = ""
		if !ok || s.o.id != "Deriver.CLits" || !E.eqLin(st, s.off, lin(0)) || !sameV(s.len, short) {
			det = fmt.Sprintf("%v is learned instead of the minimized clause", le[0].Args[0])
		}
		ob("learned", det)
		res, ok := o.Ret[0].(Ptr)
		if !ok {
			ob("answer", "the result is unknown")
			continue
		}
		get := func(f string) V {
			return st.mem[cellKey(Ptr{res.o, append(append([]pe{}, res.path...), pe{f: fieldIndex(P, xoPkg, "Derived", f)})})].v
		}
		det = ""
		if p := get("P"); !sameV(p, loc) {
			det = fmt.Sprintf("clause %v is returned instead of the learned one", p)
		} else if u := get("Unit"); !sameV(u, neg) {
			det = fmt.Sprintf("literal %v is returned instead of %v", u, neg)
		}
		ob("answer", det)
		det = ""
		t, ok := get("TargetLevel").(Lin)
		if !ok {
			// not read since the loops
			t = linSym(&Sym{id: "TargetLevel"})
		}
		if !e.follows(st, t, target) {
			det = fmt.Sprintf("level %v is returned instead of the greatest of the kept literals", t)
		}
		ob("level", det)
	}
	r.Ob("result", "notes", cleared["Deriver.CLits"], derive.Pos(), "the notes of the kept literals are not cleared")
}

// lSym gives the symbol of l without its constant.
func lSym(l Lin) Lin {
	if len(l.t) == 1 {
		return linSym(l.t[0].s)
	}
	return l
}

func negation(l Lin) Lin {
	if l.c%2 == 0 {
		return l.add(lin(1), 1)
	}
	return l.add(lin(1), -1)
}

// startsWith gives the variable with whose value a loop variable starts.
func (e *emitter) startsWith(name string) string {
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			for phi := range b.phis {
				if phi.Parent().Name()+"."+phi.Name() == name {
					if l, ok := b.st.kept("init:" + name).(Lin); ok {
						return phiName(symName(l))
					}
				}
			}
		}
	}
	return ""
}

// indexOf gives the variables which index a table in a loop.
func (e *emitter) indexOf(table, id string) map[string]bool {
	r := map[string]bool{}
	for _, b := range e.recs[id] {
		if o, idx, _ := over(b, table); o != "" {
			for _, t := range idx.t {
				if n := phiName(t.s.id); n != "" {
					r[n] = true
				}
			}
		}
	}
	return r
}

// listPhi tells whether s is the list to which the iterations append.
func listPhi(e *emitter, recs []*bodyRec, s Slice) bool {
	l, ok := s.len.(Lin)
	if !ok {
		return false
	}
	name := phiName(symName(l))
	for _, b := range recs {
		for _, q := range qtys(b) {
			h, ok := q.hv.(Slice)
			if !ok || h.o.id != s.o.id {
				continue
			}
			if q.id == name || e.startsWithSlice(q.id) == name {
				return true
			}
			if len(q.id) > 6 && q.id[:6] == "field " {
				return true
			}
		}
	}
	return false
}

func (e *emitter) startsWithSlice(name string) string {
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			for phi := range b.phis {
				if phi.Parent().Name()+"."+phi.Name() == name {
					if s, ok := b.st.kept("init:" + name).(Slice); ok {
						if l, ok := s.len.(Lin); ok {
							return phiName(symName(l))
						}
					}
				}
			}
		}
	}
	return ""
}

// follows tells whether a value at the end is the one of a quantity in a loop.
func (e *emitter) follows(st *State, t Lin, ids map[string]bool) bool {
	name := phiName(symName(t))
	for id := range ids {
		if id == name || e.startsWith(id) == name && name != "" {
			return true
		}
		if len(id) > 6 && id[:6] == "field " {
			// not set after the loops
			ok := true
			loops := 0
			for _, ev := range st.events {
				if ev.Kind == "loop" {
					loops++
				}
				if ev.Kind == "fset" && "field "+string(ev.Args[0].(Strv)) == id && loops > 0 {
					ok = false
				}
			}
			if ok && len(t.t) == 1 {
				return true
			}
		}
	}
	return false
}

// clears gives the lists of which a loop clears all notes.
func (e *emitter) clears(after *State, id string) map[string]bool {
	r := map[string]bool{}
	for _, b := range e.recs[id] {
		for _, o := range []string{"Deriver.CLits", "Deriver.SLits"} {
			t, idx, lv := over(b, o)
			if t == "" {
				continue
			}
			l, ok := lv.(Lin)
			if !ok {
				continue
			}
			v, _, ok := half(l)
			if !ok {
				continue
			}
			n := e.lastLen(after, o)
			if n == nil || !sameV(elem(b.st, "Deriver.Seen", v), Boolv(false)) || e.covers(after, b, idx, n) != "" {
				return map[string]bool{}
			}
			r[o] = true
		}
	}
	return r
}

// lastLen gives the length which a list has when the clause is complete.
func (e *emitter) lastLen(st *State, o string) V {
	var best string
	var n V
	names := map[string]bool{}
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			for phi := range b.phis {
				if s, ok := b.st.top().env[phi].(Slice); ok && s.o.id == o {
					names[phi.Parent().Name()+"."+phi.Name()] = true
				}
			}
		}
	}
	for _, q := range sortedKeys(names) {
		s, ok := st.kept("at:" + q).(Slice)
		if !ok || s.o.id != o {
			continue
		}
		if best == "" || e.startsWithSlice(q) == best {
			best, n = q, s.len
		}
	}
	if best != "" {
		return n
	}
	for _, ev := range st.events {
		if ev.Kind == "minimize" {
			break
		}
		if (ev.Kind == "fread" || ev.Kind == "fset") && string(ev.Args[0].(Strv)) == o {
			if s, ok := ev.Args[1].(Slice); ok && s.o.id == o {
				n = s.len
			}
		}
	}
	return n
}

func minimizeRules(r *Report) {
	P := r.P
	min, rec, gbump := P.Func(xoPkg, "Deriver.minimize"), P.Func(xoPkg, "Deriver.isRdntRec"), P.Func(xoPkg, "Guess.Bump")
	r.Fn(min)
	if f := P.TryFunc(xoPkg, "Deriver.isRdnt"); f != nil {
		r.Fn(f)
	}
	e := newObserver(P)
	e.fieldReads()
	E := e.E
	E.NoMods = map[*ssa.Function]bool{gbump: true}
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case nil:
			return false, nil
		case gbump:
			return one1(st, Tuple{})
		case rec:
			l, _ := args[1].(Lin)
			v, _, _ := half(l)
			var os []Opt
			for _, b := range []bool{true, false} {
				s := st.clone()
				e.log(s, "rdnt", l, Boolv(b), elem(s, "Deriver.Rdnt", v))
				E.dirtyElems(s, obj("Deriver.Rdnt"), "elem:int8")
				os = append(os, Opt{s, Boolv(b)})
			}
			return true, os
		}
		return false, nil
	}
	outs := E.Run(newState(), min, []V{e.h.ptr("Deriver")}, nil)
	e.dump("minimize", outs)
	n := 0
	var list string
	var lens = map[string]bool{}
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			o, idx, mv := over(b, "Deriver.CLits")
			if o == "" {
				continue
			}
			m, ok := mv.(Lin)
			if !ok {
				continue
			}
			v, _, ok := half(m)
			if !ok {
				continue
			}
			// only literals of the clause are taken as redundant without search
			det := ""
			for _, s := range sets(b.evs, "Deriver.Rdnt") {
				if !sameV(s.Args[1], v) {
					det = "the note of another variable is changed"
				}
			}
			rd := evsOf(b.evs, "rdnt")
			ss := sets(b.evs, "Deriver.CLits")
			if len(rd) == 0 && len(ss) == 0 {
				r.Ob("minimize", fmt.Sprintf("notes %s", id), det == "", firstPos(b.hdr), "%s", det)
				continue
			}
			n++
			list = id
			f, ok1 := firstOf(b.st, idx)
			nx, ok2 := E.nextLin(b.st, b.phis, idx)
			red := false
			for _, x := range rd {
				if sameV(x.Args[0], m) && sameV(x.Args[1], Boolv(true)) {
					red = true
					if k, ok := x.Args[2].(Lin); !ok || !k.isConst() || k.c == 1 {
						det = "a literal is taken as redundant because it is in the clause"
					}
				}
			}
			// where the kept literals go
			var j *Lin
			for _, q := range qtys(b) {
				h, ok1 := q.hv.(Lin)
				nn, ok2 := q.nv.(Lin)
				if !ok1 || !ok2 || E.eqLin(b.st, h, idx) {
					continue
				}
				if len(ss) == 1 && E.eqLin(b.st, ss[0].Args[1], h) && E.eqLin(b.st, nn, h.add(lin(1), 1)) {
					j = &h
					lens[q.id] = true
				}
			}
			switch {
			case det != "":
			case !ok1 || !ok2 || !E.eqLin(b.st, nx, idx.add(lin(1), 1)):
				det = "the literals are not visited one after another"
			case !E.eqLin(b.st, f, lin(1)):
				det = fmt.Sprintf("the first literal which may be dropped is number %v", f)
			case len(ss) > 1:
				det = "more than one literal is stored"
			case len(ss) == 0 && !red:
				det = "a literal is dropped which is not redundant"
			case len(ss) == 1 && !sameV(ss[0].Args[2], m):
				det = fmt.Sprintf("%v is kept instead of %v", ss[0].Args[2], m)
			case len(ss) == 1 && j == nil:
				det = "the kept literals are not stored one after another"
			case len(ss) == 1:
				if f, ok := firstOf(b.st, *j); !ok || !E.eqLin(b.st, f, lin(1)) {
					det = fmt.Sprintf("the first kept literal is stored at %v", f)
				}
			}
			r.Ob("minimize", fmt.Sprintf("literal: case %d", n), det == "", firstPos(b.hdr), "%s", det)
			// the place of the next kept literal stays if one is dropped
			if len(ss) == 0 {
				for _, q := range qtys(b) {
					if !lens[q.id] {
						continue
					}
					if !E.eqLin(b.st, q.nv, q.hv) {
						r.Ob("minimize", fmt.Sprintf("dropped: case %d", n), false, firstPos(b.hdr), "a place is left free for a dropped literal")
					}
				}
			}
		}
	}
	r.Ob("minimize", "loop", n > 1 && len(lens) > 0, min.Pos(), "no loop over the literals of the clause was found")
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		ob := func(what, det string) {
			r.Ob("minimize", fmt.Sprintf("%s: path %d", what, i), det == "", o.Pos, "%s", det)
		}
		// all literals are visited
		det := "not all literals are visited"
		for _, b := range e.recs[list] {
			_, idx, _ := over(b, "Deriver.CLits")
			for _, ev := range st.events {
				if ev.Kind != "fread" || string(ev.Args[0].(Strv)) != "Deriver.CLits" {
					continue
				}
				if s, ok := ev.Args[1].(Slice); ok {
					if l, ok := s.len.(Lin); ok && E.geq0(st, idx.add(l, -1)) {
						det = ""
					}
				}
			}
		}
		ob("all", det)
		det = ""
		f, ok := fieldV(st, P, xoPkg, "Deriver", "CLits").(Slice)
		if !ok || f.o.id != "Deriver.CLits" || !E.eqLin(st, f.off, lin(0)) {
			det = "the clause is another list"
		} else if l, ok := f.len.(Lin); !ok || !lens[phiName(symName(l))] || len(l.t) != 1 || l.c != 0 {
			det = fmt.Sprintf("the clause has %v literals instead of the kept ones", f.len)
		}
		ob("length", det)
		// the notes are cleared
		det = "the notes are not cleared"
		var last V
		for _, ev := range st.events {
			switch ev.Kind {
			case "fread":
				if string(ev.Args[0].(Strv)) == "Deriver.RLits" {
					last = ev.Args[1]
				}
			case "loop":
				for _, b := range e.recs[string(ev.Args[0].(Strv))] {
					t, idx, lv := over(b, "Deriver.RLits")
					l, ok := lv.(Lin)
					if t == "" || !ok {
						continue
					}
					v, _, _ := half(l)
					s, ok := last.(Slice)
					if !ok {
						continue
					}
					if det = e.covers(st, b, idx, s.len); det == "" && !sameV(elem(b.st, "Deriver.Rdnt", v), lin(0)) {
						det = "a note is not cleared"
					}
				}
			}
		}
		ob("notes", det)
	}
}

func redundantRules(r *Report) {
	P := r.P
	rec := P.Func(xoPkg, "Deriver.isRdntRec")
	r.Fn(rec)
	e := newObserver(P)
	e.fieldReads()
	E := e.E
	e.h.Null["CDat.D"] = true
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn != rec {
			return false, nil
		}
		var os []Opt
		for _, b := range []bool{true, false} {
			s := st.clone()
			e.log(s, "rdnt", args[1], Boolv(b))
			E.dirtyElems(s, obj("Deriver.Rdnt"), "elem:int8")
			os = append(os, Opt{s, Boolv(b)})
		}
		return true, os
	}
	v := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)})
	n := 0
	for k, m := range []Lin{v.scale(2), v.scale(2).add(lin(1), 1)} {
		outs := E.Run(newState(), rec, []V{e.h.ptr("Deriver"), m}, nil)
		e.dump("rec", outs)
		for i, o := range outs {
			if o.Kind != "return" || len(o.Ret) != 1 {
				continue
			}
			st := o.St
			ob := func(what, det string) {
				r.Ob("redundant", fmt.Sprintf("%s: path %d.%d", what, k, i), det == "", o.Pos, "%s", det)
			}
			var was V
			for _, ev := range st.events {
				if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == "Deriver.Rdnt" && sameV(ev.Args[1], v) {
					was = ev.Args[2]
					break
				}
			}
			why := e.justified(st, P, v, o.Env)
			now := elem(st, "Deriver.Rdnt", v)
			ss := sets(st.events, "Deriver.Rdnt")
			known := was != nil && sameV(was, lin(1))
			det := ""
			if !sameV(o.Ret[0], Boolv(false)) && !known {
				det = why
				n++
			}
			ob("answer", det)
			det = ""
			noted := false
			for _, s := range ss {
				if !sameV(s.Args[2], lin(0)) {
					noted = true
				}
				if !sameV(s.Args[1], v) {
					det = "the note of another variable is changed"
				} else if sameV(s.Args[2], lin(1)) && !known {
					det = why
				}
			}
			if noted && det == "" {
				det = "a variable with a note is not listed, so that it is not cleared"
				for _, s := range sets(st.events, "Deriver.RLits") {
					if sameV(s.Args[2], m) {
						det = ""
					}
				}
			}
			_ = now
			ob("notes", det)
		}
	}
	r.Ob("redundant", "search", n > 0, rec.Pos(), "no literal is found redundant by its reason")
}

// justified tells what is missing for all other literals of the reason of v to
// be redundant.
func (e *emitter) justified(st *State, P *Prog, v Lin, env map[ssa.Value]V) string {
	E := e.E
	re, ok := elem(st, "Vars.Reasons", v).(Lin)
	if !ok || !st.notZero(re) {
		return "a literal without a reason is taken as redundant"
	}
	det := "the literals of the reason are not searched"
	for _, ev := range evsOf(st.events, "loop") {
		for _, b := range e.recs[string(ev.Args[0].(Strv))] {
			t, idx, mv := over(b, "CDat.D")
			if t == "" {
				continue
			}
			f, ok1 := firstOf(b.st, idx)
			nx, ok2 := E.nextLin(b.st, b.phis, idx)
			rd := evsOf(b.evs, "rdnt")
			switch {
			case !ok1 || !E.eqLin(b.st, f, re.add(lin(1), 1)):
				return fmt.Sprintf("the search starts at %v", f)
			case !ok2 || !E.eqLin(b.st, nx, idx.add(lin(1), 1)):
				return "a literal of the reason is passed over"
			case len(rd) == 1 && sameV(rd[0].Args[0], mv) && stopped(b, env):
				// the answer shows that it did not happen
			case len(rd) != 1 || !sameV(rd[0].Args[0], mv) || !sameV(rd[0].Args[1], Boolv(true)):
				return "a literal is taken as redundant although one of its reason is not"
			}
			det = ""
			// it ends at the end of the clause
			end := false
			for _, x := range evsOf(st.events, "read") {
				if x.Args[0].(Ptr).o.id == "CDat.D" && sameV(x.Args[1], idx) && sameV(x.Args[2], lin(0)) {
					end = true
				}
			}
			if !end {
				return "the search may stop before the end of the reason"
			}
		}
	}
	return det
}

// stopped tells whether an iteration sets a variable to another value than it
// has at the end.
func stopped(b *bodyRec, env map[ssa.Value]V) bool {
	for phi, nv := range b.phis {
		n, ok1 := nv.(Boolv)
		x, ok2 := env[phi].(Boolv)
		if ok1 && ok2 && n != x {
			return true
		}
	}
	return false
}
