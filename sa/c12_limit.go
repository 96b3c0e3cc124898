package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa with symbolic times: the state which each way into a solve leaves for the time limit is computed and the search is run on it; every path which gives up is matched against the comparison with the clock or the poll which allows it, and every iteration against the condition under which it may go without looking.",
		Run:  runC12})
}

// timed adds times to the model of the search.
type timed struct {
	*verdicts
	r     *Report
	tick  *ssa.Function
	solve *ssa.Function
	snaps []*State
	opq   bool
}

func isTime(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func timeV(v V) Lin {
	if l, ok := v.(Lin); ok {
		return l
	}
	if s, ok := v.(Struct); ok {
		zero := true
		for _, f := range s.f {
			if x := f.String(); x != "0" && x != lin(0).String() && x != (Nilv{}).String() {
				zero = false
			}
		}
		if zero {
			return lin(0)
		}
	}
	return linSym(&Sym{id: "time " + v.String()})
}

// timeCall models the functions of package time.
func (w *timed) timeCall(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	if fn == nil {
		return false, nil
	}
	now := func() Lin {
		st.seq++
		n := linSym(&Sym{id: fmt.Sprintf("now#%d", st.seq), lo: i64(1)})
		st.events = append(st.events, Event{Kind: "now", Args: []V{n}, Pos: ci.Pos()})
		return n
	}
	fork := func(d Lin) (bool, []Opt) { // d > 0 ?
		switch w.E.decide(st, d.add(lin(1), -1)) {
		case 1:
			return one1(st, Boolv(true))
		case -1:
			return one1(st, Boolv(false))
		}
		_, os := opts(st, Boolv(true), Boolv(false))
		os[0].st.facts = append(os[0].st.facts, d.add(lin(1), -1))
		os[1].st.facts = append(os[1].st.facts, d.scale(-1))
		return true, os
	}
	eq := func(d Lin) (bool, []Opt) {
		if w.E.eqLin(st, d, lin(0)) {
			return one1(st, Boolv(true))
		}
		if s := w.E.sign(st, d); s == "+" || s == "-" {
			return one1(st, Boolv(false))
		}
		_, os := opts(st, Boolv(true), Boolv(false))
		os[0].st.facts = append(os[0].st.facts, d, d.scale(-1))
		os[1].st.setNotZero(d)
		return true, os
	}
	switch calleeName(ci, fn) {
	case "time.Now":
		return one1(st, now())
	case "time.Until":
		return one1(st, timeV(args[0]).add(now(), -1))
	case "time.Since":
		return one1(st, now().add(timeV(args[0]), -1))
	case "(time.Time).Sub":
		return one1(st, timeV(args[0]).add(timeV(args[1]), -1))
	case "(time.Time).Add":
		if d, ok := args[1].(Lin); ok {
			return one1(st, timeV(args[0]).add(d, 1))
		}
	case "(time.Time).After":
		return fork(timeV(args[0]).add(timeV(args[1]), -1))
	case "(time.Time).Before":
		return fork(timeV(args[1]).add(timeV(args[0]), -1))
	case "(time.Time).Equal":
		return eq(timeV(args[0]).add(timeV(args[1]), -1))
	case "(time.Time).IsZero":
		return eq(timeV(args[0]))
	}
	return false, nil
}

func (w *timed) set(st *State, T, f string, v V) {
	p := Ptr{obj(T), []pe{{f: fieldIndex(w.P, xoPkg, T, f)}}}
	st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + w.P.Type(xoPkg, T).String() + "." + f, v}
}

func runC12(r *Report) {
	P := r.P
	w := &timed{verdicts: newVerdicts(r, "C12"), r: r, tick: P.Func(xoPkg, "Ctl.Tick"), solve: P.Func(xoPkg, "S.Solve")}
	base := w.E.Call
	w.E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if ok, os := w.timeCall(st, ci, fn, args); ok {
			return true, os
		}
		switch {
		case fn == nil:
			return false, nil
		case fn == w.tick:
			_, os := opts(st, Boolv(true), Boolv(false))
			for i := range os {
				os[i].st.seq++
				// while paused, the statistics may be read and reset
				w.set(os[i].st, "Trail", "Props", linSym(&Sym{id: fmt.Sprintf("Props#%d", os[i].st.seq), lo: i64(0)}))
				os[i].st.events = append(os[i].st.events, Event{Kind: "tick", Args: []V{os[i].v}, Pos: ci.Pos()})
			}
			return true, os
		case fn == w.anch.prop:
			old, _ := w.field(st, "Trail", "Props").(Lin)
			ok, os := base(st, ci, fn, args)
			for _, o := range os {
				o.st.seq++
				n := linSym(&Sym{id: fmt.Sprintf("Props#%d", o.st.seq), lo: i64(0)})
				w.set(o.st, "Trail", "Props", n)
				o.st.facts = append(o.st.facts, n.add(old, -1))
			}
			return ok, os
		case w.opq && fn == w.solve:
			st.seq++
			v := linSym(&Sym{id: fmt.Sprintf("solved#%d", st.seq)})
			st.events = append(st.events, Event{Kind: "solve", Args: []V{v, args[0]}, Pos: ci.Pos()})
			w.snaps = append(w.snaps, st.clone())
			return one1(st, v)
		case w.opq && P.inRepo(fn) && fn.Parent() == nil && !strings.HasPrefix(fn.Name(), "NewS") && fn.Signature.Results().Len() > 0:
			if !w.onSolver(fn) {
				rt := fn.Signature.Results()
				var t types.Type = rt
				if rt.Len() == 1 {
					t = rt.At(0).Type()
				}
				if p, ok := t.Underlying().(*types.Pointer); ok {
					return one1(st, Ptr{o: obj(tname(p.Elem()))})
				}
				return one1(st, w.E.Unknown(st, fn.Name(), t))
			}
		}
		return base(st, ci, fn, args)
	}
	w.ways()
	w.counts()
	r.Floor("way", 4)
	r.Floor("give-up", 2)
	r.Floor("iteration", 4)
	r.Floor("count", 1)
}

// onSolver tells whether a function works on a whole solver.
func (w *timed) onSolver(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil {
		return tname(deref(s.Recv().Type())) == "S"
	}
	for i := 0; i < s.Params().Len(); i++ {
		if tname(deref(s.Params().At(i).Type())) == "S" {
			return true
		}
	}
	return false
}

// limitCells gives the fields of a solver which may carry a time limit.
func (w *timed) limitFields() []string {
	var fs []string
	st := w.P.Type(xoPkg, "S").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		b, _ := f.Type().Underlying().(*types.Basic)
		if isTime(f.Type()) || b != nil && (isNamed(f.Type(), "time", "Duration") || b.Kind() == types.Bool) || strings.HasSuffix(f.Type().String(), "time.Duration") {
			fs = append(fs, f.Name())
		}
	}
	return fs
}

// limits reads the fields of a solver object.
func (w *timed) limits(st *State, o string) map[string]V {
	m := map[string]V{}
	for _, f := range w.limitFields() {
		i := fieldIndex(w.P, xoPkg, "S", f)
		ft := w.P.Type(xoPkg, "S").Underlying().(*types.Struct).Field(i).Type()
		p := Ptr{obj(o), []pe{{f: i}}}
		c, ok := st.mem[cellKey(p)]
		if isTime(ft) && !ok {
			for k := range st.mem {
				if strings.HasPrefix(k, cellKey(p)+".") {
					os := w.E.load(st.clone(), p, "field:"+w.P.Type(xoPkg, "S").String()+"."+f, ft)
					c.v, ok = os[0].v, true
					break
				}
			}
		}
		switch {
		case ok && isTime(ft):
			m[f] = timeV(c.v)
		case ok:
			m[f] = c.v
		case isTime(ft):
			m[f] = lin(0)
		default:
			m[f] = zeroOf(ft)
		}
	}
	return m
}

// with puts limits into a start state.
func (w *timed) with(st *State, m map[string]V, facts []Lin) *State {
	for f, v := range m {
		w.set(st, "S", f, v)
	}
	st.facts = append(st.facts, facts...)
	return st
}

// ways runs the search from every state of the limit.
func (w *timed) ways() {
	r, P, E := w.r, w.P, w.E
	peel, enter, back, havoc := E.Peel, E.Enter, E.Back, E.Havoc
	E.Peel, E.Enter, E.Back, E.Havoc = nil, nil, nil, nil
	w.opq = true
	// a new solver
	mk := P.Func(xoPkg, "NewSCdb")
	r.Fn(mk)
	var fresh map[string]V
	for _, o := range E.Run(newState(), mk, []V{w.h.ptr("Cdb")}, nil) {
		if p, ok := o.Ret[0].(Ptr); o.Kind == "return" && ok {
			fresh = w.limits(o.St, p.o.id)
		}
	}
	if fresh == nil {
		r.Ob("way", "a new solver", false, mk.Pos(), "the state of the limit is not found")
		return
	}
	E.Peel, E.Enter, E.Back, E.Havoc = peel, enter, back, havoc
	w.opq = false
	w.search("a new solver", fresh, nil, nil)
	// a copy of it
	cp := P.Func(xoPkg, "S.Copy")
	r.Fn(cp)
	E.Peel, E.Enter, E.Back, E.Havoc = nil, nil, nil, nil
	w.opq = true
	var copied map[string]V
	n := 0
	st := w.with(newState(), fresh, nil)
	for _, o := range E.Run(st, cp, []V{w.h.ptr("S")}, nil) {
		if o.Kind != "return" {
			continue
		}
		if p, ok := o.Ret[0].(Ptr); ok {
			n++
			copied = w.limits(o.St, p.o.id)
		}
	}
	E.Peel, E.Enter, E.Back, E.Havoc = peel, enter, back, havoc
	w.opq = false
	if n > 0 {
		w.search("a copy", copied, nil, nil)
	} else {
		r.Ob("way", "a copy", false, cp.Pos(), "the state of the limit is not found")
	}
	// within a solve with a limit, and after it
	try := P.Func(xoPkg, "S.Try")
	r.Fn(try)
	E.Peel, E.Enter, E.Back, E.Havoc = nil, nil, nil, nil
	w.opq = true
	w.snaps = nil
	d := linSym(&Sym{id: "duration"})
	outs := E.Run(w.with(newState(), fresh, nil), try, []V{w.h.ptr("S"), d}, nil)
	snaps := w.snaps
	w.opq = false
	E.Peel, E.Enter, E.Back, E.Havoc = peel, enter, back, havoc
	seen := map[string]bool{}
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		ss := evsOf(o.St.events, "solve")
		why := ""
		switch {
		case len(ss) > 1:
			why = "it solves more than once"
		case len(ss) == 1 && !sameV(o.Ret[0], ss[0].Args[0]):
			why = fmt.Sprintf("it solves and answers %v", o.Ret[0])
		case len(ss) == 0 && !E.geq0(o.St, d.scale(-1)):
			why = "it does not solve although there is time"
		case len(ss) == 0 && !E.eqLin(o.St, o.Ret[0], lin(0)):
			why = fmt.Sprintf("without solving it answers %v", o.Ret[0])
		}
		r.Ob("way", fmt.Sprintf("return %d of a solve with a limit", i+1), why == "", try.Pos(), "%s", orElse(why, "gives the answer of the solve"))
		m := w.limits(o.St, "S")
		if k := fmt.Sprint(m); !seen[k] {
			seen[k] = true
			w.search(fmt.Sprintf("after a solve with a limit (%d)", len(seen)), m, o.St.facts, nil)
		}
	}
	for i, s := range snaps {
		// the limit ends a duration after some moment of the call
		var ends []Lin
		for _, e := range evsOf(s.events, "now") {
			ends = append(ends, e.Args[0].(Lin).add(d, 1))
		}
		if len(ends) == 0 {
			r.Ob("way", "a solve with a limit", false, try.Pos(), "it does not look at the clock")
			continue
		}
		w.search(fmt.Sprintf("within a solve with a limit (%d)", i+1), w.limits(s, "S"), s.facts, ends)
	}
	r.Ob("way", "a solve with a limit", len(snaps) > 0, try.Pos(), "%d ways into the search", len(snaps))
}

// search runs the search; ends are the moments at which a limit may end, none
// when there is no limit.
func (w *timed) search(name string, m map[string]V, facts []Lin, ends []Lin) {
	r, E := w.r, w.E
	fn := w.solve
	r.Fn(fn)
	r.Ob("way", name, true, fn.Pos(), "the search is run with %v", m)
	props := func(st *State) Lin { l, _ := w.field(st, "Trail", "Props").(Lin); return l }
	// bounded tells that v is at most a constant above the work done so far
	bounded := func(v, done Lin) bool {
		d := v.add(done, -1)
		for _, t := range d.t {
			if !strings.HasPrefix(t.s.id, "g:") {
				return false
			}
		}
		return true
	}
	expired := func(st *State) bool {
		for _, e := range evsOf(st.events, "now") {
			for _, x := range ends {
				if E.geq0(st, e.Args[0].(Lin).add(x, -1)) {
					return true
				}
			}
		}
		return false
	}
	early := func(st *State) bool {
		for _, e := range evsOf(st.events, "now") {
			for _, x := range ends {
				if E.geq0(st, x.add(e.Args[0].(Lin), -1)) {
					return true
				}
			}
		}
		return false
	}
	stopped := func(st *State) bool {
		for _, e := range evsOf(st.events, "tick") {
			if e.Args[0] == V(Boolv(false)) {
				return true
			}
		}
		return false
	}
	ob := func(rule, n, why string, f *ssa.Function) {
		r.Ob(rule, name+": "+n, why == "", f.Pos(), "%s", orElse(why, "as required"))
	}
	polled, iters := 0, 0
	back, havoc, enter := E.Back, E.Havoc, E.Enter
	defer func() { E.Back, E.Havoc, E.Enter = back, havoc, enter }()
	var loop *ssa.BasicBlock
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		if calleesIn(blocks)[w.anch.guess] {
			st.keep("props0", props(st))
			loop = hdr
		}
		return enter(st, hdr, blocks)
	}
	E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		if l, ok := init.(Lin); ok {
			p0, _ := st.kept("props0").(Lin)
			st.keep("bounded:"+phi.Parent().Name()+"."+phi.Name(), Boolv(bounded(l, p0)))
		}
		return havoc(st, phi, init)
	}
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		if hdr != loop {
			return
		}
		from := 0
		for i, e := range st.events {
			if e.Kind == "search" {
				from = i
			}
		}
		evs := st.events[from:]
		iters++
		n := fmt.Sprintf("iteration %d", iters)
		why := ""
		conf := false
		for _, e := range evsOf(evs, "prop") {
			conf = e.Args[0].String() != "0"
		}
		ticks := len(evsOf(evs, "tick"))
		switch {
		case stopped(st):
			why = "the search goes on although it was asked to stop"
		case len(ends) > 0 && expired(st):
			why = "the search goes on although the time is over"
		case ticks > 0 && len(ends) > 0 && !early(st):
			why = "requests are looked for, but not the time"
		}
		if ticks > 0 && why == "" {
			polled++
		}
		gate, counted := false, false
		if why == "" {
			global := func(l Lin) bool {
				for _, t := range l.t {
					if !strings.HasPrefix(t.s.id, "g:") {
						return false
					}
				}
				return true
			}
			for phi, nv := range phis {
				hv, ok1 := st.top().env[phi].(Lin)
				nl, ok2 := nv.(Lin)
				if !ok1 || !ok2 || len(hv.t) == 0 {
					continue
				}
				b, ok := st.kept("bounded:" + phi.Parent().Name() + "." + phi.Name()).(Boolv)
				step := nl.add(hv, -1)
				for _, f := range st.facts {
					switch {
					// the work done has not reached the next look
					case ok && bool(b) && step.isConst() && step.c == 0 && global(f.add(hv.add(props(st), -1), -1)):
						gate = true
					// a counter has not reached its end
					case step.isConst() && step.c > 0 && global(f.add(hv, 1)):
						counted = true
					}
				}
				for _, d := range st.neq {
					for _, t := range d.t {
						if step.isConst() && step.c == 1 && strings.HasPrefix(t.s.id, "rem#") && strings.Contains(t.s.id, " of "+nl.String()) {
							counted = true
						}
					}
				}
			}
			// what decides when to look next stays within a constant of the work
			drift := ""
			okAny := false
			for phi, nv := range phis {
				hv, ok1 := st.top().env[phi].(Lin)
				nl, ok2 := nv.(Lin)
				b, ok3 := st.kept("bounded:" + phi.Parent().Name() + "." + phi.Name()).(Boolv)
				if !ok1 || !ok2 || !ok3 || !bool(b) {
					continue
				}
				switch {
				case E.eqLin(st, nl, hv):
				case bounded(nl, props(st)):
					okAny = true
				default:
					drift = fmt.Sprintf("the next look is at %v, the work done is %v: looks become rarer and rarer", nl, props(st))
				}
			}
			switch {
			case drift != "":
				why = drift
			case conf || ticks > 0 || gate:
			case !okAny || !counted:
				why = "an iteration neither looks for requests nor comes nearer to doing so"
			}
		}
		ob("iteration", n, why, hdr.Parent())
	}
	ret := 0
	st := w.with(w.starts()[0], m, facts)
	for _, o := range E.Run(st, fn, []V{w.h.ptr("S")}, nil) {
		if o.Kind != "return" {
			continue
		}
		res, ok := o.Ret[0].(Lin)
		if !ok || !res.isConst() {
			ob("give-up", "the answer", fmt.Sprintf("is %v", o.Ret[0]), fn)
			continue
		}
		if res.c != 0 {
			continue
		}
		ret++
		why := ""
		if !stopped(o.St) && !expired(o.St) {
			why = "the search is given up although nobody asked for it"
			if len(ends) > 0 {
				why = "the search is given up although there is time and nobody asked for it"
			}
		}
		ob("give-up", fmt.Sprintf("return %d", ret), why, fn)
	}
	ob("iteration", "looks for requests", orElse("", map[bool]string{false: "no iteration looks for requests"}[polled > 0]), fn)
}

// counts judges that propagation counts its work.
func (w *timed) counts() {
	r, P := w.r, w.P
	e := newObserver(P)
	prop := w.anch.prop
	r.Fn(prop)
	field := func(st *State, f string) Lin {
		v := fieldV(st, P, xoPkg, "Trail", f)
		if v == nil {
			v = e.h.at(st, xoPkg, "Trail", f)
		}
		l, _ := v.(Lin)
		return l
	}
	st := newState()
	st.keep("h0", field(st, "Head"))
	st.keep("p0", field(st, "Props"))
	for i, o := range e.E.Run(st, prop, []V{e.h.ptr("Trail")}, nil) {
		if o.Kind != "return" {
			continue
		}
		dh := field(o.St, "Head").add(o.St.kept("h0").(Lin), -1)
		dp := field(o.St, "Props").add(o.St.kept("p0").(Lin), -1)
		ok := e.E.geq0(o.St, dp.add(dh, -1))
		r.Ob("count", fmt.Sprintf("return %d of propagation", i+1), ok, prop.Pos(), "%v propagations are counted as %v", dh, dp)
	}
}
