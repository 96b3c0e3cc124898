package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C38", Level: "other",
		Rule: "The walk over the clause memory, the reading of one clause, the visits of all, of the added and of the learned clauses, and the writing of the problem are followed from the source, with the memory as an arbitrary table and one arbitrary iteration per loop: the search for the end of a clause begins at the length its header gives and goes on by the modulus until the first null literal; the next clause is two places behind it; a clause is read from its first literal to the last; a visit starts with the first clause, goes on with the next one and ends with the memory, and passes on the place, header and literals of the clause; what is written is the header with the numbers of variables and of clauses, and then for each clause its literals and a zero; and every failed write is reported.",
		Run:  runC38})
}

type storeWalk struct {
	r *Report
	P *Prog
	e *emitter

	next, load, forall, size *ssa.Function
	inline                   map[*ssa.Function]bool
}

func runC38(r *Report) {
	P := r.P
	s := &storeWalk{r: r, P: P, e: newObserver(P), inline: map[*ssa.Function]bool{}}
	s.next, s.load = P.Func(xoPkg, "CDat.Next"), P.Func(xoPkg, "CDat.Load")
	s.forall, s.size = P.Func(xoPkg, "CDat.Forall"), P.Func(xoPkg, "Chd.Size")
	E := s.e.E
	E.NoMods = map[*ssa.Function]bool{s.next: true, s.size: true}
	s.e.h.Null["CDat.D"] = true
	s.e.Next = s.call
	E.OnText = func(st *State, bytes, text V) { st.keep("text:"+bytes.(Slice).o.id, text) }
	s.nexts()
	s.loads()
	s.lits()
	s.foralls()
	s.slices()
	s.dimacs()
	s.write()
	r.Floor("walk", 4)
	r.Floor("write", 4)
}

func (s *storeWalk) ob(rule, what, why, fine string, fn *ssa.Function) {
	s.r.Ob(rule, what, why == "", fn.Pos(), "%s", orElse(why, fine))
}

// call models what is called.
func (s *storeWalk) call(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e := s.e
	switch {
	case fn == s.size:
		st.seq++
		v := linSym(&Sym{id: fmt.Sprintf("size(%v)", args[0]), lo: i64(0), hi: i64(31)})
		e.log(st, "size", args[0], v)
		return one1(st, v)
	case fn == s.next && !s.inline[fn]:
		p, ok := args[1].(Lin)
		if !ok {
			return false, nil
		}
		n := linSym(&Sym{id: "next(" + p.String() + ")", lo: i64(0), hi: i64(1 << 31)})
		st.facts = append(st.facts, n.add(p, -1).add(lin(-2), 1))
		e.log(st, "next", p)
		return one1(st, n)
	case fn == s.load && !s.inline[fn]:
		p, ok := args[1].(Lin)
		d, ok2 := args[2].(Slice)
		if !ok || !ok2 {
			return false, nil
		}
		n := linSym(&Sym{id: "next(" + p.String() + ")", lo: i64(0), hi: i64(1 << 31)})
		size := n.add(p, -1).add(lin(-2), 1)
		st.facts = append(st.facts, size)
		e.log(st, "load", p, d)
		dl, _ := d.len.(Lin)
		st.seq++
		o := obj("clause")
		return one1(st, Slice{o, Lin{}, dl.add(size, 1), linSym(&Sym{id: fmt.Sprintf("cap#%d", st.seq), lo: i64(0)})})
	case fn == s.forall && !s.inline[fn]:
		return s.visitAll(st, args[1])
	}
	switch calleeName(ci, fn) {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		ok, os := s.tok(st, ci, fn, args)
		if !ok {
			return false, nil
		}
		for i, o := range os {
			bad := o.st.clone()
			e.log(bad, "fail")
			os[i].v = Tuple{Top{}, Nilv{}}
			os = append(os, Opt{bad, Tuple{Top{}, Tag{"uniq:a failed write"}}})
		}
		return true, os
	case ".Write":
		b, ok := args[1].(Slice)
		if !ok {
			return false, nil
		}
		st.seq++
		l, _ := b.len.(Lin)
		m := linSym(&Sym{id: fmt.Sprintf("written#%d", st.seq), lo: i64(0), hi: i64(1 << 30)})
		st.facts = append(st.facts, l.add(m, -1))
		e.log(st, "write", b, m)
		bad := st.clone()
		e.log(bad, "fail")
		return true, []Opt{{st, Tuple{m, Nilv{}}}, {bad, Tuple{m, Tag{"uniq:a failed write"}}}}
	case "":
		// the function which is given
		if fn == nil && !ci.Common().IsInvoke() {
			if _, ok := ci.Common().Value.(*ssa.Builtin); !ok {
				e.log(st, "visit", args...)
				return one1(st, Tuple{})
			}
		}
	}
	return false, nil
}

// tok is what is written as text.
func (s *storeWalk) tok(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e := s.e
	n := len(evsOf(st.events, "tok"))
	last := ci.Common().Signature().Params()
	t := last.At(last.Len() - 1).Type()
	switch fn.String() {
	case "fmt.Fprintf":
		f, ok := strConst(args[1])
		if !ok {
			return false, nil
		}
		v, ok := e.format(f, e.vararg(st, args[2], t))
		if !ok {
			return false, nil
		}
		e.log(st, "tok", v)
	case "io.WriteString":
		e.log(st, "tok", args[1])
	default:
		for i, a := range e.vararg(st, args[1], t) {
			if i > 0 {
				e.log(st, "tok", Strv(" "))
			}
			if _, ok := strConst(a); ok {
				e.log(st, "tok", a)
			} else {
				e.log(st, "tok", Tuple{Strv("fmt"), Tuple{Strv("%d"), a}})
			}
		}
		if fn.String() == "fmt.Fprintln" {
			e.log(st, "tok", Strv("\n"))
		}
	}
	_ = n
	return one1(st, Nilv{})
}

// visitAll is the visit of all clauses by a function.
func (s *storeWalk) visitAll(st *State, f V) (bool, []Opt) {
	e := s.e
	fv, ok := f.(Fnv)
	if !ok {
		return false, nil
	}
	clause := func(st *State) []V {
		st.seq++
		n := linSym(&Sym{id: "len(clause)", lo: i64(0)})
		return []V{linSym(&Sym{id: "the number of the clause", lo: i64(0)}), linSym(&Sym{id: "the place of the clause", lo: i64(1)}), Slice{obj("clause"), Lin{}, n, n}}
	}
	e.log(st, "all")
	var os []Opt
	run := func(st *State) []Outcome {
		depth := len(st.fr)
		var r []Outcome
		for _, o := range e.E.Run(st, fv.fn, clause(st), fv.b) {
			if o.Kind == "return" {
				o.St.fr = o.St.fr[:depth]
				r = append(r, o)
			}
		}
		return r
	}
	for _, o := range run(st) {
		if !has(o.St.events, "fail") {
			os = append(os, Opt{o.St, Tuple{}})
			continue
		}
		// nothing is written afterwards, and the failure stays
		n := len(o.St.events)
		for _, p := range run(o.St) {
			if text(p.St.events[n:]) != "" || has(p.St.events[n:], "loop") || has(p.St.events[n:], "fail") {
				e.log(p.St, "after failure")
			}
			os = append(os, Opt{p.St, Tuple{}})
		}
	}
	return true, os
}

// nexts judges the search for the next clause.
func (s *storeWalk) nexts() {
	e := s.e
	s.inline[s.next] = true
	defer func() { delete(s.inline, s.next) }()
	s.r.Fn(s.next)
	loc := linSym(&Sym{id: "arg:loc", lo: i64(1), hi: i64(1 << 31)})
	e.recs = map[string][]*bodyRec{}
	why := ""
	found := 0
	judge := func(st *State, evs []Event, end bool) (Lin, string) {
		var rs []Event
		for _, ev := range evsOf(evs, "read") {
			if ev.Args[0].(Ptr).o.id == "CDat.D" {
				if i, ok := ev.Args[1].(Lin); ok && !e.E.eqLin(st, i, loc.add(lin(-1), 1)) {
					rs = append(rs, ev)
				}
			}
		}
		if len(rs) != 1 {
			return Lin{}, "it does not look at one place after the other"
		}
		null := sameV(rs[0].Args[2], lin(0))
		if null != end {
			return Lin{}, "it does not end at the first null literal"
		}
		return rs[0].Args[1].(Lin), ""
	}
	for _, o := range e.E.Run(newState(), s.next, []V{Ptr{o: obj("CDat")}, loc}, nil) {
		if o.Kind != "return" {
			continue
		}
		evs := o.St.events
		sz := evsOf(evs, "size")
		if len(sz) != 1 {
			why = "it does not look at the length in the header"
			continue
		}
		hd := false
		for _, ev := range evsOf(evs, "read") {
			if ev.Args[0].(Ptr).o.id == "CDat.D" && e.E.eqLin(o.St, ev.Args[1], loc.add(lin(-1), 1)) && sameV(ev.Args[2], sz[0].Args[0]) {
				hd = true
			}
		}
		if !hd {
			why = "the length is not that in the header of the clause"
			continue
		}
		for i, ev := range evs {
			if ev.Kind != "loop" {
				continue
			}
			at, w := judge(o.St, evs[i+1:], true)
			if w != "" {
				why = w
				continue
			}
			if !e.E.eqLin(o.St, o.Ret[0], at.add(lin(2), 1)) {
				why = fmt.Sprintf("with the end at %v, it gives %v", at, o.Ret[0])
				continue
			}
			found++
			if f, ok := firstOf(o.St, at); !ok || !e.E.eqLin(o.St, f, loc.add(sz[0].Args[1].(Lin), 1)) {
				why = fmt.Sprintf("it begins at %v", f)
			}
			rs := e.recs[string(ev.Args[0].(Strv))]
			for _, b := range rs {
				at, w := judge(b.st, b.evs, false)
				if w != "" {
					why = w
					continue
				}
				if nx, ok := e.E.nextLin(b.st, b.phis, at); !ok || !e.E.eqLin(b.st, nx, at.add(lin(32), 1)) && !s.stepped(b, at, nx) {
					why = fmt.Sprintf("after %v it looks at %v", at, nx)
				}
			}
			if len(rs) == 0 {
				why = "it looks at one place only"
			}
		}
	}
	if found == 0 {
		why = orElse(why, "it never ends")
	}
	s.ob("walk", "next clause", why, "two places behind the first null literal which is as far away as the header says, or a multiple of the modulus farther", s.next)
}

// stepped tells whether the place at is the modulus times a counter behind the
// first place, where nx is the next place.
func (s *storeWalk) stepped(b *bodyRec, at, nx Lin) bool {
	e := s.e
	f, ok := firstOf(b.st, at)
	if _, _, one := symOf(at); !ok || !one {
		return false
	}
	for phi := range b.phis {
		i, ok := b.st.top().env[phi].(Lin)
		if !ok || len(i.t) != 1 {
			continue
		}
		n, ok := e.E.nextLin(b.st, b.phis, i)
		z, ok2 := firstOf(b.st, i)
		if ok && ok2 && e.E.eqLin(b.st, n, i.add(lin(1), 1)) && e.E.eqLin(b.st, nx.add(f, -1), n.add(z, -1).scale(32)) {
			return true
		}
	}
	return false
}

// loads judges the reading of one clause.
func (s *storeWalk) loads() {
	e := s.e
	s.inline[s.load] = true
	defer func() { delete(s.inline, s.load) }()
	s.r.Fn(s.load)
	loc := linSym(&Sym{id: "arg:loc", lo: i64(1), hi: i64(1 << 31)})
	nx := linSym(&Sym{id: "next(" + loc.String() + ")", lo: i64(0), hi: i64(1 << 31)})
	e.recs = map[string][]*bodyRec{}
	why, n := "", 0
	dst := argSlice("dst")
	for _, o := range e.E.Run(newState(), s.load, []V{Ptr{o: obj("CDat")}, loc, dst}, nil) {
		if o.Kind != "return" {
			continue
		}
		n++
		out, ok := o.Ret[0].(Slice)
		l := nx.add(loc, -1).add(lin(-2), 1)
		if !ok || !e.E.eqLin(o.St, out.off, dst.off) {
			why = fmt.Sprintf("it gives %v", o.Ret[0])
			continue
		}
		if cs := evsOf(o.St.events, "copy"); len(cs) == 1 && len(evsOf(o.St.events, "loop")) == 0 {
			src, ok1 := cs[0].Args[1].(Slice)
			d, ok2 := cs[0].Args[0].(Slice)
			switch {
			case !ok1 || !ok2 || src.o.id != "CDat.D" || d.o.id != out.o.id:
				why = "it copies something else"
			case !e.E.eqLin(o.St, src.off, loc) || !e.E.eqLin(o.St, src.len, l):
				why = fmt.Sprintf("it copies %v", src)
			case !e.E.eqLin(o.St, d.off, dst.off.add(dst.len.(Lin), 1)) || !e.E.eqLin(o.St, out.len, dst.len.(Lin).add(l, 1)):
				why = fmt.Sprintf("it gives %v", out)
			}
			continue
		}
		why = orElse(why, s.copies(o, loc, l))
	}
	if n == 0 {
		why = "it never ends"
	}
	s.ob("walk", "one clause", why, "appends the literals from the first to the last", s.load)
}

// copies judges a loop which appends literals one by one.
func (s *storeWalk) copies(o Outcome, loc, l Lin) string {
	e := s.e
	ls := evsOf(o.St.events, "loop")
	if len(ls) != 1 {
		return "the literals are not copied"
	}
	rs := e.recs[string(ls[0].Args[0].(Strv))]
	if len(rs) == 0 {
		return "the literals are not copied"
	}
	for _, b := range rs {
		x, i, v := over(b, "CDat.D")
		if x == "" {
			return "it copies something else"
		}
		nx, ok := e.E.nextLin(b.st, b.phis, i)
		f, ok2 := firstOf(b.st, i)
		switch {
		case !ok || !ok2 || !e.E.eqLin(b.st, nx, i.add(lin(1), 1)) || !e.E.eqLin(b.st, f, loc):
			return fmt.Sprintf("it begins at %v, and after %v it looks at %v", f, i, nx)
		case s.keptOne(b, v) != "":
			return s.keptOne(b, v)
		case l.isConst() && sameV(v, lin(0)):
			return "the null literal is copied"
		case !l.isConst() && !e.E.geq0(o.St, i.add(loc.add(l, 1), -1)):
			return "it may end before the last literal"
		case !l.isConst() && !e.E.geq0(b.st, loc.add(l, 1).add(i, -1).add(lin(-1), 1)):
			return "it may go on behind the last literal"
		}
	}
	return ""
}

// keptOne judges an iteration which appends v.
func (s *storeWalk) keptOne(b *bodyRec, v V) string {
	for phi, nv := range b.phis {
		a, ok1 := b.st.top().env[phi].(Slice)
		c, ok2 := nv.(Slice)
		if !ok1 || !ok2 {
			continue
		}
		ss := evsOf(b.evs, "set")
		al, ok1 := a.len.(Lin)
		if !ok1 || !s.e.E.eqLin(b.st, c.len, al.add(lin(1), 1)) || len(ss) == 0 {
			return "a literal is lost"
		}
		if !sameV(ss[len(ss)-1].Args[2], v) {
			return fmt.Sprintf("%v becomes %v", v, ss[len(ss)-1].Args[2])
		}
		return ""
	}
	return "no list grows"
}

// lits judges the reading of a clause up to the null literal.
func (s *storeWalk) lits() {
	e := s.e
	fn := s.P.TryFunc(xoPkg, "Cdb.Lits")
	if fn == nil {
		return
	}
	s.r.Fn(fn)
	loc := linSym(&Sym{id: "arg:loc", lo: i64(1), hi: i64(1 << 31)})
	e.recs = map[string][]*bodyRec{}
	why := ""
	n := 0
	for _, o := range e.E.Run(newState(), fn, []V{Ptr{o: obj("Cdb")}, loc, argSlice("dst")}, nil) {
		if o.Kind != "return" {
			continue
		}
		n++
		if len(evsOf(o.St.events, "loop")) == 0 {
			if ls := evsOf(o.St.events, "load"); len(ls) != 1 || !sameV(ls[0].Args[0], loc) {
				why = "the literals are not read"
			}
			continue
		}
		rs := evsOf(o.St.events, "read")
		if len(rs) == 0 || !sameV(rs[len(rs)-1].Args[2], lin(0)) {
			why = "it does not end at the null literal"
			continue
		}
		why = orElse(why, s.copies(o, loc, Lin{}))
	}
	if n == 0 {
		why = "it never ends"
	}
	s.ob("walk", "literals", why, "every literal up to the null literal", fn)
}

// foralls judges the visit of the whole memory.
func (s *storeWalk) foralls() {
	e := s.e
	s.inline[s.forall] = true
	defer func() { delete(s.inline, s.forall) }()
	s.r.Fn(s.forall)
	e.recs = map[string][]*bodyRec{}
	why, n := "", 0
	for _, o := range e.E.Run(newState(), s.forall, []V{Ptr{o: obj("CDat")}, Unk{"the visitor"}}, nil) {
		if o.Kind != "return" {
			continue
		}
		n++
		why = orElse(why, s.walk(o.St, o.St.events, func(b *bodyRec, p Lin) string {
			vs := evsOf(b.evs, "visit")
			if len(vs) != 1 || len(vs[0].Args) < 3 {
				return "a clause is not visited once"
			}
			a := vs[0].Args
			if !e.E.eqLin(b.st, a[1], p) {
				return fmt.Sprintf("the clause at %v is visited as %v", p, a[1])
			}
			if w := s.counted(b, a[0]); w != "" {
				return w
			}
			return s.whole(b.st, a[2], p)
		}))
	}
	if n == 0 {
		why = "it never ends"
	}
	s.ob("walk", "all clauses", why, "from the first to the last, with their places and literals", s.forall)
}

// counted judges the number of a clause.
func (s *storeWalk) counted(b *bodyRec, v V) string {
	l, ok := v.(Lin)
	if !ok {
		return "the clauses are not numbered"
	}
	nx, ok := s.e.E.nextLin(b.st, b.phis, l)
	f, ok2 := firstOf(b.st, l)
	if !ok || !ok2 || !s.e.E.eqLin(b.st, nx, l.add(lin(1), 1)) || !s.e.E.eqLin(b.st, f, lin(0)) {
		return fmt.Sprintf("the clauses are numbered from %v, and after %v comes %v", f, l, nx)
	}
	return ""
}

// whole tells whether v are just the literals of the clause at p.
func (s *storeWalk) whole(st *State, v V, p Lin) string {
	n := linSym(&Sym{id: "next(" + p.String() + ")"})
	l := n.add(p, -1).add(lin(-2), 1)
	x, ok := v.(Slice)
	if !ok || !s.e.E.eqLin(st, x.len, l) {
		return fmt.Sprintf("of the clause at %v, %v is passed on", p, v)
	}
	if x.o.id == "CDat.D" {
		if !s.e.E.eqLin(st, x.off, p) {
			return fmt.Sprintf("of the clause at %v, %v is passed on", p, v)
		}
		return ""
	}
	cs := evsOf(st.events, "copy")
	if len(cs) > 0 && cs[len(cs)-1].Args[0].(Slice).o.id == x.o.id {
		// copied from the memory
		d, ok1 := cs[len(cs)-1].Args[0].(Slice)
		src, ok2 := cs[len(cs)-1].Args[1].(Slice)
		if !ok1 || !ok2 || src.o.id != "CDat.D" || !s.e.E.eqLin(st, src.off, p) || !s.e.E.eqLin(st, src.len, l) || !s.e.E.eqLin(st, d.off, x.off) {
			return fmt.Sprintf("of the clause at %v, %v is passed on", p, v)
		}
		return ""
	}
	ld := evsOf(st.events, "load")
	if x.o.id != "clause" || !s.e.E.eqLin(st, x.off, lin(0)) || len(ld) == 0 || !s.e.E.eqLin(st, ld[len(ld)-1].Args[0], p) {
		return fmt.Sprintf("of the clause at %v, %v is passed on", p, v)
	}
	return ""
}

// walk judges a loop over the clause memory.
func (s *storeWalk) walk(after *State, evs []Event, body func(b *bodyRec, p Lin) string) string {
	e := s.e
	ls := evsOf(evs, "loop")
	if len(ls) != 1 {
		return "the clauses are not visited in one loop"
	}
	rs := e.recs[string(ls[0].Args[0].(Strv))]
	if len(rs) == 0 {
		return "no clause is visited"
	}
	end := linSym(&Sym{id: "CDat.Len"})
	for _, b := range rs {
		var p Lin
		ok := false
		for phi, nv := range b.phis {
			h, ok1 := b.st.top().env[phi].(Lin)
			n, ok2 := nv.(Lin)
			if ok1 && ok2 && len(h.t) > 0 && e.E.eqLin(b.st, n, linSym(&Sym{id: "next(" + h.String() + ")"})) {
				p, ok = h, true
			}
		}
		if !ok {
			return "it does not go on with the next clause"
		}
		if f, ok := firstOf(b.st, p); !ok || !e.E.eqLin(b.st, f, lin(1)) {
			return fmt.Sprintf("it begins at %v", f)
		}
		if !e.E.geq0(after, p.add(end, -1)) {
			return "it may end before the last clause"
		}
		if !e.E.geq0(b.st, end.add(p, -1).add(lin(-1), 1)) {
			return "it may go on behind the last clause"
		}
		if w := body(b, p); w != "" {
			return w
		}
	}
	return ""
}

// slices judges the visits of the added and of the learned clauses.
func (s *storeWalk) slices() {
	e := s.e
	for _, x := range []struct {
		name string
		over []string
	}{{"Cdb.ForallAdded", []string{"Cdb.Added"}}, {"Cdb.ForallLearnts", []string{"Cdb.Learnts"}}, {"Cdb.Forall", []string{"Cdb.Added", "Cdb.Learnts"}}} {
		fn := s.P.TryFunc(xoPkg, x.name)
		if fn == nil {
			continue
		}
		s.r.Fn(fn)
		e.recs = map[string][]*bodyRec{}
		why, n := "", 0
		for _, o := range e.E.Run(newState(), fn, []V{Ptr{o: obj("Cdb")}, Unk{"the visitor"}}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			ls := evsOf(o.St.events, "loop")
			if len(ls) != len(x.over) {
				why = fmt.Sprintf("there are %d loops", len(ls))
				continue
			}
			for i, l := range ls {
				rs := e.recs[string(l.Args[0].(Strv))]
				if len(rs) == 0 {
					why = "no clause is visited"
				}
				for _, b := range rs {
					t, idx, v := over(b, x.over[i])
					p, ok := v.(Lin)
					if t == "" || !ok {
						why = "it goes through something else than " + x.over[i]
						continue
					}
					if w := e.covers(o.St, b, idx, tableLen(o.St, x.over[i])); w != "" {
						why = w
						continue
					}
					vs := evsOf(b.evs, "visit")
					if len(vs) != 1 || len(vs[0].Args) < 3 || !sameV(vs[0].Args[0], p) {
						why = "a clause is not visited once"
						continue
					}
					hd := false
					for _, ev := range evsOf(b.evs, "read") {
						if ev.Args[0].(Ptr).o.id == "CDat.D" && e.E.eqLin(b.st, ev.Args[1], p.add(lin(-1), 1)) && sameV(ev.Args[2], vs[0].Args[1]) {
							hd = true
						}
					}
					if !hd {
						why = "the header of the clause is not passed on"
						continue
					}
					why = orElse(why, s.whole(b.st, vs[0].Args[2], p))
				}
			}
		}
		if n == 0 {
			why = "it never ends"
		}
		s.ob("walk", x.name, why, "each of the clauses, with its header and literals", fn)
	}
}

// clauseText judges what is written for a clause.
func (s *storeWalk) clauseText(after *State, evs []Event, table string, p *Lin) string {
	e := s.e
	ps := pieces(evs)
	if len(ps) != 2 || ps[0].Kind != "loop" || ps[1].Kind != "text" || strings.TrimSpace(string(ps[1].Args[0].(Strv))) != "0" || !strings.HasSuffix(string(ps[1].Args[0].(Strv)), "\n") {
		return fmt.Sprintf("a clause is written as %v", ps)
	}
	rs := e.recs[string(ps[0].Args[0].(Strv))]
	if len(rs) == 0 {
		return "no literal is written"
	}
	for _, b := range rs {
		t, i, v := over(b, table)
		l, ok := v.(Lin)
		if t == "" || !ok {
			return "the literals are not those of the clause"
		}
		if p == nil {
			if w := e.covers(after, b, i, linSym(&Sym{id: "len(clause)"})); w != "" {
				return w
			}
		}
		x, neg, ok := half(l)
		if !ok {
			return "a literal is not followed"
		}
		if neg {
			x = x.scale(-1)
		}
		got := text(b.evs)
		if strings.TrimRight(got, " \n") != numTok(x) || got == numTok(x) {
			return fmt.Sprintf("the literal %v is written as %q", l, got)
		}
	}
	return ""
}

// dimacs judges the writing of the clauses.
func (s *storeWalk) dimacs() {
	e := s.e
	fn := s.P.Func(xoPkg, "CDat.Dimacs")
	s.r.Fn(fn)
	null := e.h.Null["CDat.D"]
	e.h.Null["CDat.D"] = false
	defer func() { e.h.Null["CDat.D"] = null }()
	e.recs = map[string][]*bodyRec{}
	why, n := "", 0
	for _, o := range e.E.Run(newState(), fn, []V{Ptr{o: obj("CDat")}, Iface{v: Ptr{o: obj("w")}}}, nil) {
		if o.Kind != "return" {
			continue
		}
		evs := o.St.events
		if has(evs, "after failure") {
			why = "it goes on writing after a failure"
			continue
		}
		if has(evs, "fail") {
			if isNilV(o.Ret[0]) {
				why = "a failed write is not reported"
			}
			continue
		}
		n++
		if !isNilV(o.Ret[0]) {
			why = fmt.Sprintf("it reports %v", o.Ret[0])
			continue
		}
		at := -1
		for i, ev := range evs {
			if ev.Kind == "all" {
				at = i
			}
		}
		if at >= 0 {
			if len(evsOf(evs, "all")) != 1 || text(evs[:at]) != "" {
				why = "the clauses are not written once"
				continue
			}
			why = orElse(why, s.clauseText(o.St, evs[at+1:], "clause", nil))
			continue
		}
		why = "the clauses are not visited"
	}
	if n == 0 {
		why = orElse(why, "it never succeeds")
	}
	s.ob("write", "clauses", why, "each literal in order, then zero; failures are reported", fn)
}

// write judges the writing of the whole problem.
func (s *storeWalk) write() {
	e := s.e
	fn := s.P.Func(xoPkg, "Cdb.Write")
	dim := s.P.Func(xoPkg, "CDat.Dimacs")
	s.r.Fn(fn)
	e.E.NoMods[dim] = true
	next := e.Next
	e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f == dim {
			e.log(st, "clauses", args...)
			bad := st.clone()
			e.log(bad, "fail")
			return true, []Opt{{st, Nilv{}}, {bad, Tag{"uniq:a failed write"}}}
		}
		return next(st, ci, f, args)
	}
	defer func() { e.Next = next; delete(e.E.NoMods, dim) }()
	e.recs = map[string][]*bodyRec{}
	why, n, lost := "", 0, ""
	header := fmt.Sprintf("p cnf %s %s\n", numTok(linSym(&Sym{id: "Vars.Max"})), numTok(linSym(&Sym{id: "CDat.ClsLen"})))
	for _, o := range e.E.Run(newState(), fn, []V{Ptr{o: obj("Cdb")}, Iface{v: Ptr{o: obj("w")}}}, nil) {
		if o.Kind != "return" {
			continue
		}
		evs := o.St.events
		if has(evs, "fail") {
			if isNilV(o.Ret[0]) {
				lost = "a failed write is not reported"
			}
			continue
		}
		n++
		if !isNilV(o.Ret[0]) {
			lost = fmt.Sprintf("it reports %v", o.Ret[0])
			continue
		}
		before := ""
		seen := 0
		for _, ev := range evs {
			switch ev.Kind {
			case "tok":
				before += tokText(ev.Args[0])
				if seen > 0 {
					why = "something is written after the clauses"
				}
			case "write":
				b := ev.Args[0].(Slice)
				if t := o.St.kept("text:" + b.o.id); t != nil && sameV(b.off, Lin{}) {
					// all at once: what is not written is reported
					before += tokText(t)
				} else {
					why = "something else is written"
				}
			case "loop":
				for _, b := range e.recs[string(ev.Args[0].(Strv))] {
					t, w := s.inFull(o.St, b)
					if w != "" {
						why = w
					}
					before += t
				}
			case "clauses":
				seen++
				if before != header {
					why = fmt.Sprintf("before the clauses, it writes %q", before)
				}
			}
		}
		if seen != 1 {
			why = "the clauses are not written once"
		}
	}
	if n == 0 {
		why = orElse(why, "it never succeeds")
	}
	s.ob("write", "header", why, "the number of variables and of clauses, then the clauses", fn)
	s.ob("write", "failures", lost, "are reported", fn)
	s.r.Ob("write", "paths", n > 0, fn.Pos(), "%d", n)
}

// inFull judges a loop which writes a text until all of it is written.
func (s *storeWalk) inFull(after *State, b *bodyRec) (string, string) {
	e := s.e
	ws := evsOf(b.evs, "write")
	if len(ws) != 1 {
		return "", "a part of the header is not written once"
	}
	x := ws[0].Args[0].(Slice)
	t := b.st.kept("text:" + x.o.id)
	if t == nil {
		return "", "something else is written"
	}
	all := linSym(&Sym{id: "len(" + x.o.id + ")"})
	m := ws[0].Args[1].(Lin)
	for phi, nv := range b.phis {
		// the rest is kept as a list
		h, ok1 := b.st.top().env[phi].(Slice)
		n, ok2 := nv.(Slice)
		if !ok1 || !ok2 || h.o.id != x.o.id || !sameV(h.off, x.off) || !sameV(h.len, x.len) {
			continue
		}
		in, ok := b.st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Slice)
		hl, ok1 := h.len.(Lin)
		nl, ok2 := n.len.(Lin)
		il, ok3 := in.len.(Lin)
		switch {
		case !ok || !ok1 || !ok2 || !ok3 || !e.E.eqLin(b.st, in.off, lin(0)) || !e.E.eqLin(b.st, il, all):
			return "", fmt.Sprintf("it begins with %v", in)
		case n.o.id != h.o.id || !e.E.eqLin(b.st, n.off, h.off.add(m, 1)) || !e.E.eqLin(b.st, nl, hl.add(m, -1)):
			return "", "a part is left out, or written again"
		case !e.E.geq0(after, hl.scale(-1)):
			return "", "it may end before all is written"
		}
		return tokText(t), ""
	}
	nx, ok := e.E.nextLin(b.st, b.phis, x.off)
	f, ok2 := firstOf(b.st, x.off)
	switch {
	case !ok || !ok2 || !e.E.eqLin(b.st, f, lin(0)) || !e.E.eqLin(b.st, nx, x.off.add(m, 1)):
		return "", "a part is left out, or written again"
	case !e.E.eqLin(b.st, x.off.add(x.len.(Lin), 1), all):
		return "", "the end is not written"
	case !e.E.geq0(after, x.off.add(all, -1)):
		return "", "it may end before all is written"
	}
	return tokText(t), ""
}
