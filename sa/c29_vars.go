package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C29", Level: "other",
		Rule: "Abstract interpretation over go/ssa of the variable map and of the solver which uses it, with both tables of arbitrary contents: every entry which is added to one table is added, as a pair, to the other one, or is null; no entry is changed; the lookup is of the entry of the very variable, after it is there; fresh variables are given an entry of their own which is null; and the wrapping solver translates what goes in and what comes out.",
		Run:  runC29})
}

// varsWorld follows the variable map.
type varsWorld struct {
	r    *Report
	P    *Prog
	e    *emitter
	st   *types.Struct
	name string
	drop map[string]bool // what turned out not to be invariant
}

const (
	o2i = "Vars.o2i"
	i2o = "Vars.i2o"
)

func runC29(r *Report) {
	P := r.P
	w := &varsWorld{r: r, P: P, e: newObserver(P), drop: map[string]bool{}}
	T := P.Type("z", "Vars")
	w.name = "field:" + T.String() + "."
	w.st = T.Underlying().(*types.Struct)
	E := w.e.E
	E.Peel = func(fn *ssa.Function, hdr *ssa.BasicBlock) bool {
		return fn.Signature.Recv() != nil && isPtrTo(fn.Signature.Recv().Type(), T)
	}
	havoc, enter := E.Havoc, E.Enter
	E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		if l, isL := init.(Lin); isL {
			for _, t := range []string{o2i, i2o} {
				n := t + ":" + phi.Parent().Name() + "." + phi.Name()
				if m, ok := st.kept("entry:" + t).(Lin); ok && !w.drop[n] && E.eqLin(st, m, l) {
					// it is the length of the table in every iteration
					st.keep("tie:"+phi.Parent().Name()+"."+phi.Name(), Strv(t))
					return one1(st, w.now(st, t).len)
				}
			}
		}
		return havoc(st, phi, init)
	}
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		f := enter(st, hdr, blocks)
		for _, t := range []string{o2i, i2o} {
			st.keep("entry:"+t, w.now(st, t).len)
		}
		return func(s *State) {
			f(s)
			s.facts = append(s.facts, w.more(s))
		}
	}
	w.ops()
	w.wrapper()
	r.Floor("tables", 4)
	r.Floor("map", 6)
	r.Floor("solver", 10)
}

// now is a table as it is at the moment.
func (w *varsWorld) now(st *State, table string) Slice {
	f := strings.TrimPrefix(table, "Vars.")
	for i := 0; i < w.st.NumFields(); i++ {
		if w.st.Field(i).Name() == f {
			os := w.e.E.load(st, Ptr{obj("Vars"), []pe{{f: i}}}, w.name+f, w.st.Field(i).Type())
			if len(os) == 1 {
				if s, ok := os[0].v.(Slice); ok {
					if _, ok := s.len.(Lin); ok {
						return s
					}
				}
			}
		}
	}
	panic(undecided("the tables of the variable map"))
}

// more says that there are at least as many inner as outer variables.
func (w *varsWorld) more(st *State) Lin {
	return w.now(st, i2o).len.(Lin).add(w.now(st, o2i).len.(Lin), -1)
}

// run gives the paths of a function, with the invariants of its loops.
func (w *varsWorld) run(fn *ssa.Function, args []V) []Outcome {
	for {
		w.e.recs = map[string][]*bodyRec{}
		st := newState()
		st.facts = append(st.facts, w.more(st))
		os := w.e.E.Run(st, fn, args, nil)
		again := false
		for _, rs := range w.e.recs {
			for _, b := range rs {
				for phi, nv := range b.phis {
					t, ok := b.st.kept("tie:" + phi.Parent().Name() + "." + phi.Name()).(Strv)
					n := string(t) + ":" + phi.Parent().Name() + "." + phi.Name()
					if ok && !w.drop[n] && !w.e.E.eqLin(b.st, nv, w.now(b.st, string(t)).len) {
						w.drop[n], again = true, true
					}
				}
			}
		}
		if !again {
			return os
		}
	}
}

// growth judges how the tables change.
func (w *varsWorld) growth(st *State, evs []Event) string {
	e := w.e
	type entry struct{ at, v V }
	var o, i []entry
	for k, ev := range evs {
		switch ev.Kind {
		case "copy":
			if t := ev.Args[0].(Slice).o.id; t == o2i || t == i2o {
				return "entries are overwritten"
			}
		case "fset":
			if n := string(ev.Args[0].(Strv)); n == o2i || n == i2o {
				if s, ok := ev.Args[1].(Slice); !ok || s.o.id != n {
					return fmt.Sprintf("%s becomes %v", n, ev.Args[1])
				}
			}
		case "set":
			t := ev.Args[0].(Ptr).o.id
			if t != o2i && t != i2o {
				continue
			}
			at := ev.Args[1].(Lin)
			grown := false
			for _, nx := range evs[k+1:] {
				if nx.Kind == "fset" && string(nx.Args[0].(Strv)) == t {
					s, ok := nx.Args[1].(Slice)
					grown = ok && e.E.eqLin(st, s.len, at.add(lin(1), 1)) && e.E.eqLin(st, s.off, lin(0))
					break
				}
			}
			if !grown {
				return fmt.Sprintf("the entry %v of %s is changed", at, t)
			}
			if t == o2i {
				o = append(o, entry{at, ev.Args[2]})
			} else {
				i = append(i, entry{at, ev.Args[2]})
			}
		}
	}
	used := map[int]bool{}
	for _, x := range o {
		ok := false
		for k, y := range i {
			if !used[k] && e.E.eqLin(st, x.v, y.at) && e.E.eqLin(st, y.v, x.at) {
				used[k], ok = true, true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("the outer variable %v becomes the inner one %v, but not the other way round", x.at, x.v)
		}
	}
	for k, y := range i {
		if !used[k] && !sameV(y.v, lin(0)) {
			return fmt.Sprintf("the inner variable %v becomes the outer one %v, but not the other way round", y.at, y.v)
		}
	}
	if !e.E.geq0(st, w.more(st)) {
		return "there may be fewer inner than outer variables"
	}
	return ""
}

// tables judges all changes which the paths make.
func (w *varsWorld) tables(fn *ssa.Function, os []Outcome) {
	why := ""
	for _, rs := range w.e.recs {
		for _, b := range rs {
			why = orElse(why, w.growth(b.st, b.evs))
		}
	}
	n := 0
	for _, o := range os {
		switch o.Kind {
		case "return":
			n++
			why = orElse(why, w.growth(o.St, o.St.events))
		case "panic", "limit":
			why = orElse(why, "it may fail")
		}
	}
	if n == 0 {
		why = orElse(why, "it never returns")
	}
	w.ob("tables", w.P.fname(fn), why, "entries are added in pairs, and none is changed", fn)
}

func (w *varsWorld) ob(rule, what, why, fine string, fn *ssa.Function) {
	w.r.Ob(rule, what, why == "", fn.Pos(), "%s", orElse(why, fine))
}

// ops judges the operations of the map.
func (w *varsWorld) ops() {
	e, P := w.e, w.P
	recv := Ptr{o: obj("Vars")}
	fns := map[string]*ssa.Function{}
	ms := P.SSA.MethodSets.MethodSet(types.NewPointer(P.Type("z", "Vars")))
	for i := 0; i < ms.Len(); i++ {
		fn := P.SSA.MethodValue(ms.At(i))
		if fn == nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		fns[fn.Name()] = fn
	}
	u := linSym(&Sym{id: "arg:u", lo: i64(0), hi: i64(1 << 30)})
	for _, n := range []string{"ToInner", "ToOuter"} {
		fn := P.Func("z", "Vars."+n)
		w.r.Fn(fn)
		table := o2i
		if n == "ToOuter" {
			table = i2o
		}
		why := ""
		for s := int64(0); s < 2; s++ {
			os := w.run(fn, []V{recv, u.scale(2).add(lin(s), 1)})
			if s == 0 {
				w.tables(fn, os)
			}
			found := false
			for _, o := range os {
				if o.Kind != "return" {
					continue
				}
				var rd *Event
				for i, ev := range o.St.events {
					if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == table {
						rd = &o.St.events[i]
					}
				}
				if rd == nil || !e.E.eqLin(o.St, rd.Args[1], u) {
					// an entry which is not there, or which this call added last
					why = orElse(why, w.fresh(o, table, u, s))
					continue
				}
				if !e.E.geq0(o.St, w.now(o.St, table).len.(Lin).add(u, -1).add(lin(-1), 1)) {
					why = "there may be no such entry"
				}
				v, ok := rd.Args[2].(Lin)
				if !ok {
					why = "the entry is not followed"
					continue
				}
				want := v.scale(2).add(lin(s), 1)
				if n == "ToOuter" && e.E.eqLin(o.St, v, lin(0)) {
					want = Lin{}
				} else if n == "ToOuter" && !e.E.geq0(o.St, v.add(lin(-1), 1)) {
					why = "variables which are not mapped are not told apart"
				}
				if !e.E.eqLin(o.St, o.Ret[0], want) {
					why = fmt.Sprintf("for the entry %v it gives %v instead of %v", v, o.Ret[0], want)
				}
				found = true
			}
			if !found {
				why = orElse(why, "the entry is not looked up")
			}
		}
		w.ob("map", n, why, "the entry of the variable, with the sign", fn)
		delete(fns, n)
	}
	w.lists()
	delete(fns, "ToInners")
	delete(fns, "ToOuters")
	w.inner(P.Func("z", "Vars.Inner"))
	delete(fns, "Inner")

	fn := P.Func("z", "Vars.Free")
	w.r.Fn(fn)
	why := ""
	for s := int64(0); s < 2; s++ {
		for _, o := range w.run(fn, []V{recv, u.scale(2).add(lin(s), 1)}) {
			if o.Kind != "return" {
				continue
			}
			l := linSym(&Sym{id: "len(Vars.free)", lo: i64(0)})
			ss := sets(o.St.events, "Vars.free")
			if len(ss) != 1 || !e.E.eqLin(o.St, ss[0].Args[1], l) || !e.E.eqLin(o.St, ss[0].Args[2], u) || !e.E.eqLin(o.St, w.now(o.St, "Vars.free").len, l.add(lin(1), 1)) {
				why = "the variable is not kept"
			}
			if f := w.now(o.St, "Vars.free"); f.o.id != "Vars.free" {
				why = "other variables are forgotten"
			}
			why = orElse(why, w.growth(o.St, o.St.events))
		}
	}
	w.ob("map", "Free", why, "keeps the variable for the next request", fn)
	delete(fns, "Free")
	delete(fns, "Copy") // C01
	for n, fn := range fns {
		// what else there is leaves the tables in order
		if fn.Signature.Params().Len() == 0 && n != "Copy" {
			w.tables(fn, w.run(fn, []V{recv}))
		}
	}
}

// fresh judges an answer which is not looked up: that of an entry which has
// just been added, or of one which is not there.
func (w *varsWorld) fresh(o Outcome, table string, u Lin, s int64) string {
	e := w.e
	if table == i2o {
		if e.E.eqLin(o.St, o.Ret[0], lin(0)) && e.E.geq0(o.St, u.add(w.now(o.St, i2o).len.(Lin), -1)) {
			return ""
		}
		return "something else is looked up"
	}
	ss := sets(o.St.events, table)
	if len(ss) > 0 {
		l := ss[len(ss)-1]
		if v, ok := l.Args[2].(Lin); ok && e.E.eqLin(o.St, l.Args[1], u) && e.E.eqLin(o.St, o.Ret[0], v.scale(2).add(lin(s), 1)) {
			return ""
		}
	}
	return "something else is looked up"
}

// inner judges the request for a new variable.
func (w *varsWorld) inner(fn *ssa.Function) {
	e := w.e
	w.r.Fn(fn)
	os := w.run(fn, []V{Ptr{o: obj("Vars")}})
	w.tables(fn, os)
	why := ""
	freed, made := 0, 0
	l := linSym(&Sym{id: "len(Vars.free)", lo: i64(0)})
	for _, o := range os {
		if o.Kind != "return" {
			continue
		}
		res, ok := o.Ret[0].(Lin)
		if !ok || !res.divisible(2) || res.c%2 != 0 {
			why = "the literal is not positive"
			continue
		}
		v := divLin(res, 2)
		fr := w.now(o.St, "Vars.free")
		var rd *Event
		for i, ev := range o.St.events {
			if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == "Vars.free" {
				rd = &o.St.events[i]
			}
		}
		took := rd != nil
		for _, ev := range evsOf(o.St.events, "fset") {
			took = took || ev.Args[0] == V(Strv("Vars.free"))
		}
		if fl, _ := fr.len.(Lin); took {
			freed++
			switch {
			case rd == nil || !e.E.eqLin(o.St, rd.Args[2], v):
				why = "it is not one of the freed variables"
			case fr.o.id != "Vars.free" || !e.E.eqLin(o.St, fr.off, lin(0)) && !e.E.eqLin(o.St, rd.Args[1], lin(0)):
				why = "other freed variables are lost"
			case !e.E.eqLin(o.St, fl, l.add(lin(-1), 1)):
				why = fmt.Sprintf("of the freed variables, %v are left", fl)
			case e.E.eqLin(o.St, fr.off, lin(0)) && !e.E.eqLin(o.St, rd.Args[1], fl):
				why = fmt.Sprintf("the freed variable number %v is given again", rd.Args[1])
			case len(sets(o.St.events, "Vars.free")) > 0:
				why = "the freed variables change"
			}
			continue
		}
		made++
		if !e.E.geq0(o.St, v.add(lin(-1), 1)) {
			why = "it may be the null variable"
		}
		if !e.E.geq0(o.St, w.now(o.St, i2o).len.(Lin).add(v, -1).add(lin(-1), 1)) {
			why = fmt.Sprintf("the variable %v is not entered", v)
		}
		why = orElse(why, w.unused(o, v))
	}
	if freed == 0 && made == 0 {
		why = "it never returns"
	}
	w.ob("map", "Inner", why, "a freed variable, once, or one which is new and of no outer variable", fn)
}

// unused tells whether v is a place of the table which was added with null.
func (w *varsWorld) unused(o Outcome, v Lin) string {
	e := w.e
	for _, ev := range sets(o.St.events, i2o) {
		if e.E.eqLin(o.St, ev.Args[1], v) {
			if sameV(ev.Args[2], lin(0)) {
				return ""
			}
			return fmt.Sprintf("the new variable is that of %v", ev.Args[2])
		}
	}
	return "the new variable is not at the end of the table"
}

// lists judges the translation of lists.
func (w *varsWorld) lists() {
	e, P := w.e, w.P
	next := e.Next
	one := map[*ssa.Function]string{P.Func("z", "Vars.ToInner"): "inner", P.Func("z", "Vars.ToOuter"): "outer"}
	e.E.NoMods = map[*ssa.Function]bool{}
	for fn := range one {
		e.E.NoMods[fn] = true
	}
	e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		n := one[f]
		m, ok := args[len(args)-1].(Lin)
		if n == "" || !ok {
			return false, nil
		}
		s := linSym(&Sym{id: n + "(" + m.String() + ")", lo: i64(2), hi: i64(1<<32 - 1)})
		if n == "outer" {
			no := st.clone()
			no.keep("outer:null", Boolv(true))
			return true, []Opt{{st, s}, {no, Lin{}}}
		}
		return one1(st, s)
	}
	peel := e.E.Peel
	e.E.Peel = nil
	defer func() { e.Next, e.E.NoMods, e.E.Peel = next, nil, peel }()
	ms := argSlice("ms")
	for _, n := range []string{"ToInners", "ToOuters"} {
		fn := P.Func("z", "Vars."+n)
		w.r.Fn(fn)
		why, got := "", 0
		kind := strings.ToLower(n[2 : len(n)-1])
		for _, o := range w.run(fn, []V{Ptr{o: obj("Vars")}, ms}) {
			if o.Kind != "return" {
				continue
			}
			got++
			ls := evsOf(o.St.events, "loop")
			out, ok := o.Ret[0].(Slice)
			if len(ls) != 1 || !ok {
				why = "the literals are not translated in a loop"
				continue
			}
			rs := e.recs[string(ls[0].Args[0].(Strv))]
			if len(rs) == 0 {
				why = "no literal is translated"
			}
			for _, b := range rs {
				why = orElse(why, w.each(o, b, out, kind))
			}
		}
		if got == 0 {
			why = "it never returns"
		}
		w.ob("map", n, why, "each literal in order", fn)
	}
}

// each judges one iteration of the translation of a list.
func (w *varsWorld) each(o Outcome, b *bodyRec, out Slice, kind string) string {
	e := w.e
	t, i, m := over(b, "ms")
	if t == "" {
		return "the literals are not read"
	}
	if why := e.covers(o.St, b, i, tableLen(o.St, "ms")); why != "" {
		return why
	}
	var to Lin
	switch {
	case kind == "inner":
		to = linSym(&Sym{id: fmt.Sprintf("inner(%v)", m)})
	default:
		to = linSym(&Sym{id: fmt.Sprintf("outer(%v)", m)})
	}
	ss := sets(b.evs, out.o.id)
	for _, s := range ss {
		if !sameV(s.Args[2], to) {
			return fmt.Sprintf("%v becomes %v", m, s.Args[2])
		}
	}
	return w.placed(o, b, out, i, ss, kind)
}

// placed judges where the translated literal goes.
func (w *varsWorld) placed(o Outcome, b *bodyRec, out Slice, i Lin, ss []Event, kind string) string {
	e := w.e
	ol, ok := out.len.(Lin)
	if !ok {
		return "the result is not followed"
	}
	if len(ss) > 1 {
		return "a literal is stored twice"
	}
	// how many there are so far
	var n, nx, first Lin
	found := false
	for phi, nv := range b.phis {
		switch h := b.st.top().env[phi].(type) {
		case Lin:
			l, ok := nv.(Lin)
			f, ok2 := firstOf(b.st, h)
			if ok && ok2 && len(h.t) == 1 && e.E.eqLin(o.St, ol, h) {
				n, nx, first, found = h, l, f, true
			}
		case Slice:
			l, ok := nv.(Slice)
			in, ok2 := b.st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Slice)
			if !ok || !ok2 || h.o.id != out.o.id || !sameV(ol, h.len) {
				continue
			}
			hl, ok := h.len.(Lin)
			ll, ok2 := l.len.(Lin)
			il, ok3 := in.len.(Lin)
			if ok && ok2 && ok3 && l.o.id == out.o.id && e.E.eqLin(b.st, l.off, lin(0)) {
				n, nx, first, found = hl, ll, il, true
			}
		}
	}
	if !e.E.eqLin(o.St, out.off, lin(0)) {
		return "the result begins later"
	}
	if len(ss) == 0 {
		if kind == "inner" {
			return "a literal is not stored"
		}
		if w.outer(b) {
			return "a literal is lost"
		}
		if !found || !e.E.eqLin(b.st, n, nx) {
			return "a literal which is not mapped takes a place"
		}
		return ""
	}
	if kind == "inner" && e.E.eqLin(b.st, ss[0].Args[1], i) && e.E.eqLin(o.St, ol, linSym(&Sym{id: "len(ms)"})) {
		return ""
	}
	switch {
	case kind == "outer" && !w.outer(b):
		return "a literal which is not mapped is stored"
	case !found || !e.E.eqLin(b.st, first, lin(0)) || !e.E.eqLin(b.st, nx, n.add(lin(1), 1)):
		return "the literals are not counted"
	case !e.E.eqLin(b.st, ss[0].Args[1], n):
		return fmt.Sprintf("literal %v is stored at %v", n, ss[0].Args[1])
	}
	return ""
}

// outer tells whether there is an outer literal in this iteration.
func (w *varsWorld) outer(b *bodyRec) bool {
	return b.st.kept("outer:null") == nil
}

// wrapper judges the solver which uses a map.
func (w *varsWorld) wrapper() {
	e, P := w.e, w.P
	T := P.Type("", "svWrap")
	next := e.Next
	zT := P.Type("z", "Vars")
	e.E.NoMods = map[*ssa.Function]bool{}
	zs := P.SSA.MethodSets.MethodSet(types.NewPointer(zT))
	calls := map[*ssa.Function]string{}
	for i := 0; i < zs.Len(); i++ {
		if fn := P.SSA.MethodValue(zs.At(i)); fn != nil && fn.Object() != nil && fn.Object().Exported() && fn.Synthetic == "" {
			calls[fn] = "V." + fn.Name()
			e.E.NoMods[fn] = true
		}
	}
	e.E.Peel = nil
	solver := Iface{v: Ptr{o: obj("the solver")}}
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		switch name {
		case "svWrap.S":
			return one1(st, solver)
		case "svWrap.V":
			return one1(st, Ptr{o: obj("Vars")})
		}
		return false, nil
	}
	e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		n := calls[f]
		if f == nil && ci.Common().IsInvoke() {
			n = "S." + ci.Common().Method.Name()
		}
		if n == "" {
			return false, nil
		}
		e.log(st, "call", append([]V{Strv(n)}, args...)...)
		var out Tuple
		switch n {
		case "V.ToInner", "V.ToOuter":
			out = Tuple{linSym(&Sym{id: fmt.Sprintf("%s(%v)", n, args[1]), lo: i64(0)})}
		case "V.ToInners":
			if s, ok := args[1].(Slice); ok {
				out = Tuple{s}
			}
		case "V.ToOuters":
			out = Tuple{Tag{"outers of " + args[1].String()}}
		default:
			res := ci.Common().Signature().Results()
			for i := 0; i < res.Len(); i++ {
				st.seq++
				id := fmt.Sprintf("answer#%d", st.seq)
				if _, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
					out = append(out, argSlice(id))
				} else {
					out = append(out, Unk{id})
				}
			}
		}
		e.log(st, "answer", out...)
		if len(out) == 1 {
			return one1(st, out[0])
		}
		return one1(st, out)
	}
	defer func() { e.Next, e.E.NoMods, e.h.Extra = next, nil, nil }()
	ms := P.SSA.MethodSets.MethodSet(types.NewPointer(T))
	for i := 0; i < ms.Len(); i++ {
		fn := P.SSA.MethodValue(ms.At(i))
		if fn == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" || fn.Name() == "SCopy" {
			continue
		}
		w.r.Fn(fn)
		var given []V
		for i := 1; i < len(fn.Params); i++ {
			t := fn.Params[i].Type()
			switch {
			case isNamed(t, "z", "Lit"):
				given = append(given, linSym(&Sym{id: "arg:" + fn.Params[i].Name(), lo: i64(0)}))
			default:
				if _, ok := t.Underlying().(*types.Slice); ok {
					given = append(given, argSlice(fn.Params[i].Name()))
				} else {
					given = append(given, Unk{"arg:" + fn.Params[i].Name()})
				}
			}
		}
		e.recs = map[string][]*bodyRec{}
		why, n := "", 0
		for _, o := range e.E.Run(newState(), fn, append([]V{Ptr{o: obj("svWrap")}}, given...), nil) {
			if o.Kind == "return" {
				n++
				why = orElse(why, w.wrapped(fn.Name(), o, given))
			}
		}
		if n == 0 {
			why = "it never returns"
		}
		w.ob("solver", fn.Name(), why, "is asked of the solver, with the literals translated", fn)
	}
}

// wrapped judges a path of an operation of the solver which uses a map.
func (w *varsWorld) wrapped(name string, o Outcome, given []V) string {
	e := w.e
	evs := o.St.events
	for _, ev := range evs {
		if ev.Kind == "fset" && strings.HasPrefix(string(ev.Args[0].(Strv)), "svWrap.") {
			return fmt.Sprintf("it changes %v", ev.Args[0])
		}
		if ev.Kind == "set" || ev.Kind == "copy" {
			var to string
			if p, ok := ev.Args[0].(Ptr); ok {
				to = p.o.id
			} else {
				to = ev.Args[0].(Slice).o.id
			}
			for _, g := range given {
				if s, ok := g.(Slice); ok && s.o.id == to {
					return "it writes to what the caller gave"
				}
			}
		}
	}
	type call struct {
		name string
		args []V
		ans  []V
	}
	var cs []call
	for _, ev := range evs {
		switch ev.Kind {
		case "call":
			cs = append(cs, call{string(ev.Args[0].(Strv)), ev.Args[1:], nil})
		case "answer":
			cs[len(cs)-1].ans = ev.Args
		}
	}
	var asked *call
	for i := range cs {
		c := &cs[i]
		if strings.HasPrefix(c.name, "S.") || c.name == "V.Inner" || c.name == "V.Free" {
			if asked != nil {
				return "it asks for two things"
			}
			asked = c
		}
	}
	want := map[string]string{"Inner": "V.Inner", "FreeInner": "V.Free"}[name]
	if want == "" {
		want = "S." + name
	}
	if asked == nil || asked.name != want {
		return fmt.Sprintf("it does not ask for %s", want)
	}
	args := asked.args[1:]
	in := func(v V) V { return linSym(&Sym{id: fmt.Sprintf("V.ToInner(%v)", v)}) }
	var wantArgs, wantRet []V
	wantRet = asked.ans
	outers := func(v V) V { return Tag{"outers of " + v.String()} }
	switch name {
	case "Assume":
		return w.assumed(o, given[0].(Slice), args)
	case "Value":
		wantArgs = []V{in(given[0])}
	case "Reasons":
		wantArgs = []V{given[0], in(given[1])}
		wantRet = []V{outers(asked.ans[0])}
	case "Why":
		wantArgs = given
		wantRet = []V{outers(asked.ans[0])}
	case "Test":
		wantArgs = given
		wantRet = []V{asked.ans[0], outers(asked.ans[1])}
	default:
		wantArgs = given
	}
	if len(args) != len(wantArgs) {
		return "it passes something else on"
	}
	for i, x := range wantArgs {
		if !sameV(args[i], x) {
			return fmt.Sprintf("it passes on %v instead of %v", args[i], x)
		}
	}
	if len(o.Ret) != len(wantRet) {
		return "it answers something else"
	}
	for i, x := range wantRet {
		if !sameV(unwrap(o.Ret[i]), unwrap(x)) {
			return fmt.Sprintf("it answers %v instead of %v", o.Ret[i], x)
		}
	}
	_ = e
	return ""
}

// assumed judges the list which is passed on as assumptions.
func (w *varsWorld) assumed(o Outcome, given Slice, args []V) string {
	e := w.e
	if len(args) != 1 {
		return "it passes something else on"
	}
	s, ok := args[0].(Slice)
	same := ok && e.E.eqLin(o.St, s.len, given.len)
	if !ok || !e.E.eqLin(o.St, s.off, lin(0)) {
		return fmt.Sprintf("it passes on %v", args[0])
	}
	if s.o.id == given.o.id {
		return "the caller's list is passed on, and used as scratch space"
	}
	all, done := false, false
	for _, ev := range o.St.events {
		switch ev.Kind {
		case "copy":
			d, ok1 := ev.Args[0].(Slice)
			src, ok2 := ev.Args[1].(Slice)
			if ok1 && ok2 && d.o.id == s.o.id && src.o.id == given.o.id && e.E.eqLin(o.St, d.off, lin(0)) && e.E.eqLin(o.St, src.off, lin(0)) && e.E.eqLin(o.St, src.len, given.len) {
				all = true
			}
		case "call":
			if ev.Args[0] == V(Strv("V.ToInners")) && len(ev.Args) == 3 {
				if x, ok := ev.Args[2].(Slice); ok && x.o.id == s.o.id && sameV(x.len, s.len) && all && same {
					done = true
				}
			}
		case "loop":
			rs := e.recs[string(ev.Args[0].(Strv))]
			good := len(rs) > 0
			for _, b := range rs {
				t, i, v := over(b, given.o.id)
				ss := sets(b.evs, s.o.id)
				if t == "" || e.covers(o.St, b, i, given.len) != "" || len(ss) != 1 || !sameV(ss[0].Args[2], linSym(&Sym{id: fmt.Sprintf("V.ToInner(%v)", v)})) {
					good = false
					continue
				}
				if same && e.E.eqLin(b.st, ss[0].Args[1], i) {
					continue
				}
				// or appended
				if w.placed(o, b, s, i, ss, "append") != "" {
					good = false
				}
			}
			if good {
				all, done = true, true
			}
		}
	}
	if !all || !done {
		return "the assumptions are not translated one by one"
	}
	return ""
}
