package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C18", Level: "other",
		Rule: "Typestate and effect analysis by disjunctive abstract interpretation over go/ssa of the pool: every path of the dispatcher's iteration (all its callees inlined) must answer or hand over exactly what it received and keep the list of free units, every path of a unit's goroutine must give exactly one response made from the result of the one call it started, and the client's operations must return exactly what was exchanged.",
		Run:  runC18})
}

const axPkg = "ax"

// poolWorld follows the pool.
type poolWorld struct {
	*chanWorld
	closed map[string]bool // channels which Stop closes
	gos    []poolGo
	idx    map[string]Lin // units by their number
	resp   string         // the channel to the client
	req    string         // the channel from the client
	cancel V              // the channel which cancels the unit at hand
}

type poolGo struct {
	fn         *ssa.Function
	bind, args []V
	st         *State
}

func runC18(r *Report) {
	w := &poolWorld{chanWorld: newChanWorld(r), closed: map[string]bool{}, idx: map[string]Lin{}}
	e := w.e
	e.E.NoMods = nil
	e.h.Extra = w.extra
	e.E.Chan = w.chans
	e.E.OnGo = func(st *State, fn *ssa.Function, bind, args []V) {
		e.log(st, "go")
		w.gos = append(w.gos, poolGo{fn, bind, args, st.clone()})
	}
	e.Next = w.invoke
	enter := e.E.Enter
	e.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		f := enter(st, hdr, blocks)
		return func(s *State) {
			f(s)
			for _, n := range []string{"avail", "us", "pending"} {
				if v := e.h.at(s, axPkg, "ax", n); n == "avail" {
					s.keep("avail:"+hdr.Parent().Name(), v)
				} else {
					s.keep(n+":"+hdr.Parent().Name(), v)
				}
			}
		}
	}
	w.stop()
	w.client()
	w.serve()
	w.units()
	w.make()
	w.requests()
}

// extra gives the cells of units, responses and requests, each of its own.
func (w *poolWorld) extra(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
	id := p.o.id
	switch t.Underlying().(type) {
	case *types.Chan, *types.Interface:
		if len(p.path) > 0 && p.path[len(p.path)-1].f >= 0 {
			if n := namedOf(t); n != nil && n.Obj().Name() == "Solve" {
				// the solve of a unit, if it is at work
				_, os := opts(st, V(Nilv{}), V(Tag{id + strings.TrimPrefix(name, strings.SplitN(name, ".", 2)[0])}))
				return true, os
			}
			return one1(st, Tag{id + strings.TrimPrefix(name, strings.SplitN(name, ".", 2)[0])})
		}
		return one1(st, Tag{name})
	case *types.Signature:
		return one1(st, Unk{name})
	case *types.Pointer:
		if len(p.path) == 1 && p.path[0].f < 0 {
			id := tname(deref(t)) + "@" + strings.ReplaceAll(p.path[0].idx.String(), "#", "%")
			w.idx[id] = p.path[0].idx
			return one1(st, Ptr{o: obj(id)})
		}
	case *types.Basic:
		if b := t.Underlying().(*types.Basic); strings.Contains(id, "@") && b.Info()&types.IsInteger != 0 {
			return one1(st, mkUnknown(id+strings.TrimPrefix(name, strings.SplitN(name, ".", 2)[0]), t))
		}
	case *types.Slice:
		if strings.Contains(id, "@") {
			n := id + strings.TrimPrefix(name, strings.SplitN(name, ".", 2)[0])
			return one1(st, Slice{obj(n), Lin{}, linSym(&Sym{id: "len(" + n + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + n + ")", lo: i64(0)})})
		}
	}
	return false, nil
}

func (w *poolWorld) chans(st *State, kind string, ch V, v V, t types.Type) []Opt {
	e := w.e
	switch kind {
	case "recv":
		if isNilV(ch) {
			return nil // waits for ever
		}
		var x V = Top{}
		st.seq++
		if p, ok := t.Underlying().(*types.Pointer); ok {
			x = Ptr{o: obj(fmt.Sprintf("%s@in%d", tname(p.Elem()), st.seq))}
		}
		var os []Opt
		for _, ok := range []bool{true, false} {
			if !ok && !w.closed[ch.String()] && !isStructChan(t) || ok && isStructChan(t) {
				continue
			}
			s := st.clone()
			if !ok {
				x = Nilv{}
			}
			e.log(s, "recv", ch, x, Boolv(ok))
			os = append(os, Opt{s, Tuple{x, Boolv(ok)}})
		}
		return os
	case "send":
		if isNilV(ch) {
			return nil
		}
		e.log(st, "send", ch, v)
	default:
		e.log(st, kind, ch, v)
	}
	return nil
}

// isStructChan: channels on which nothing is ever sent.
func isStructChan(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// invoke follows the solvers of the units.
func (w *poolWorld) invoke(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e := w.e
	cc := ci.Common()
	if cc.IsInvoke() && fn == nil {
		n := cc.Method.Name()
		st.seq++
		switch n {
		case "SCopy", "GoSolve":
			v := Tag{fmt.Sprintf("%s%d", n, st.seq)}
			e.log(st, n, args[0], v)
			return one1(st, v)
		case "Stop":
			v := linSym(&Sym{id: fmt.Sprintf("result%d", st.seq)})
			if cc.Signature().Results().Len() == 0 {
				return one1(st, Tuple{})
			}
			e.log(st, n, args[0], v)
			return one1(st, v)
		case "Test":
			v := linSym(&Sym{id: fmt.Sprintf("result%d", st.seq)})
			s := st.clone()
			e.log(st, n, args[0], v, Boolv(true))
			e.log(s, n, args[0], v, Boolv(false))
			return true, []Opt{{st, Tuple{v, Boolv(true)}}, {s, Tuple{lin(0), Boolv(false)}}}
		case "Value":
			s := st.clone()
			e.log(st, n, args[0], args[1], Boolv(true))
			e.log(s, n, args[0], args[1], Boolv(false))
			return true, []Opt{{st, Boolv(true)}, {s, Boolv(false)}}
		case "Why":
			v := Slice{obj(fmt.Sprintf("why%d", st.seq)), Lin{}, linSym(&Sym{id: fmt.Sprintf("len(why%d)", st.seq), lo: i64(0)}), Top{}}
			e.log(st, n, args[0], args[1], v)
			return one1(st, v)
		case "MaxVar":
			return one1(st, linSym(&Sym{id: "maxvar of " + args[0].String(), lo: i64(0), hi: i64(1 << 30)}))
		}
		e.log(st, n, args...)
		return false, nil
	}
	if fn != nil {
		switch calleeName(ci, fn) {
		case "(*time.Ticker).Stop", "(*time.Timer).Stop":
			return one1(st, Boolv(true))
		}
		if rt := fn.Signature.Recv(); rt != nil && isNamed(rt.Type(), axPkg, "ReqFlag") && fn.Signature.Params().Len() == 0 && (fn.Name() == "Model" || fn.Name() == "Why") {
			s := st.clone()
			e.log(st, "flag", Strv(fn.Name()), Boolv(true), args[0])
			e.log(s, "flag", Strv(fn.Name()), Boolv(false), args[0])
			return true, []Opt{{st, Boolv(true)}, {s, Boolv(false)}}
		}
	}
	return w.call(st, ci, fn, args)
}

func (w *poolWorld) ob(rule, what, why, fine string, fn *ssa.Function) {
	w.r.Ob(rule, what, why == "", fn.Pos(), "%s", orElse(why, fine))
}

func (w *poolWorld) ax() Ptr { return Ptr{o: obj("ax")} }

func (w *poolWorld) stop() {
	fn := w.P.Func(axPkg, "ax.Stop")
	w.r.Fn(fn)
	why := ""
	for _, o := range w.e.E.Run(newState(), fn, []V{w.ax()}, nil) {
		if o.Kind != "return" {
			continue
		}
		n := map[string]int{}
		for _, ev := range evsOf(o.St.events, "close") {
			n[ev.Args[0].String()]++
		}
		for c, k := range n {
			w.closed[c] = true
			if k > 1 {
				why = c + " is closed twice"
			}
		}
	}
	if len(w.closed) == 0 {
		why = "nothing tells the pool to stop"
	}
	w.ob("stop", "Stop", why, fmt.Sprintf("closes %v", sortedKeys(w.closed)), fn)
}

// fld reads a field of an object.
func (w *poolWorld) fld(st *State, T string, p Ptr, f string) V {
	n := w.P.Type(axPkg, T)
	i := fieldIndex(w.P, axPkg, T, f)
	q := Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: i})}
	return w.e.E.load(st, q, "field:"+n.String()+"."+f, n.Underlying().(*types.Struct).Field(i).Type())[0].v
}

// client judges the operations of the client.
func (w *poolWorld) client() {
	e := w.e
	for _, n := range []string{"Ex", "TryEx"} {
		fn := w.P.Func(axPkg, "ax."+n)
		w.r.Fn(fn)
		for _, req := range []V{Nilv{}, Ptr{o: obj("Request@mine")}} {
			why := ""
			gave, got, none := 0, 0, 0
			for _, o := range e.E.Run(newState(), fn, []V{w.ax(), req}, nil) {
				if o.Kind != "return" {
					why = orElse(why, map[bool]string{true: "it may not end"}[o.Kind == "back"])
					continue
				}
				var xs []Event
				polls := false
				for _, ev := range o.St.events {
					switch ev.Kind {
					case "send", "recv":
						xs = append(xs, ev)
					case "poll":
						polls = true
					case "select":
					case "default":
					default:
						why = orElse(why, "it does something else: "+ev.Kind)
					}
				}
				if len(xs) > 1 {
					why = orElse(why, "there is more than one exchange")
					continue
				}
				var resp V = Nilv{}
				ok := len(xs) == 1
				if ok && xs[0].Kind == "recv" {
					got++
					if w.resp == "" {
						w.resp = xs[0].Args[0].String()
					}
					resp = xs[0].Args[1]
					if xs[0].Args[0].String() != w.resp {
						why = orElse(why, "it receives from another channel")
					}
				}
				if ok && xs[0].Kind == "send" {
					gave++
					if w.req == "" {
						w.req = xs[0].Args[0].String()
					}
					if isNilV(req) || !sameV(xs[0].Args[1], req) || xs[0].Args[0].String() != w.req {
						why = orElse(why, fmt.Sprintf("it submits %v", xs[0].Args[1]))
					}
				}
				if !ok {
					none++
				}
				if !sameV(o.Ret[0], resp) && !(isNilV(o.Ret[0]) && isNilV(resp)) {
					why = orElse(why, fmt.Sprintf("it returns %v instead of %v", o.Ret[0], resp))
				}
				if n == "TryEx" && o.Ret[1] != V(Boolv(ok)) {
					why = orElse(why, fmt.Sprintf("it says %v", o.Ret[1]))
				}
				if n == "TryEx" && !polls {
					why = orElse(why, "it blocks")
				}
				if n == "Ex" && (polls || !ok) {
					why = orElse(why, "it does not wait for an exchange")
				}
			}
			if got == 0 || !isNilV(req) && gave == 0 {
				why = orElse(why, "an exchange is not possible")
			}
			w.ob("client", fmt.Sprintf("%s(%v)", n, req), why, "returns exactly what was exchanged", fn)
		}
	}
	if w.closed[w.resp] {
		w.r.Ob("client", "Stop", false, w.P.Func(axPkg, "ax.Stop").Pos(), "the channel of the responses is closed")
	}
}

// serve judges the iterations of the dispatcher.
func (w *poolWorld) serve() {
	e := w.e
	fn := w.P.Func(axPkg, "ax.serve")
	w.r.Fn(fn)
	e.recs = map[string][]*bodyRec{}
	os := e.E.Run(newState(), fn, []V{w.ax()}, nil)
	recs := e.recs
	n := map[string]int{}
	main := map[*ssa.BasicBlock]bool{}
	for _, rs := range recs {
		for _, b := range rs {
			main[b.hdr] = main[b.hdr] || len(evsOf(b.evs, "recv")) > 0
		}
	}
	for _, rs := range recs {
		for _, b := range rs {
			if b.hdr.Parent() == fn && main[b.hdr] {
				kind, why := w.iteration(fn, b.st, b.evs, recs)
				n[kind]++
				w.ob("dispatch", fmt.Sprintf("%s, path %d", kind, n[kind]), why, "the request goes to one free unit; a response goes to the client, and its unit is free", fn)
			}
		}
	}
	ends := ""
	k := 0
	for _, o := range os {
		switch o.Kind {
		case "return":
			k++
			ends = orElse(ends, w.shutdown(o, recs))
		case "panic", "limit":
		}
	}
	if k == 0 {
		ends = "it never ends"
	}
	w.ob("stop", "the dispatcher ends", ends, "after Stop, and cancels every unit", fn)
	w.r.Floor("dispatch", 4)
	if n["request"] == 0 || n["response"] == 0 {
		w.ob("dispatch", "both kinds", "requests or responses are not handled", "", fn)
	}
}

// numOf gives the number of the unit whose solver this is.
func (w *poolWorld) numOf(st *State, evs []Event, s V) (Lin, bool) {
	l, _, ok := w.unitOf(st, evs, s)
	return l, ok
}

func (w *poolWorld) unitOf(st *State, evs []Event, s V) (Lin, Ptr, bool) {
	t, ok := s.(Tag)
	if !ok {
		return Lin{}, Ptr{}, false
	}
	if id := strings.TrimSuffix(t.id, ".S"); id != t.id {
		i, ok := w.idx[id]
		return i, Ptr{o: obj(id)}, ok
	}
	for _, ev := range sets(evs, "ax.us") {
		if p, ok := ev.Args[2].(Ptr); ok && sameV(w.fld(st, "unit", p, "S"), s) {
			return ev.Args[1].(Lin), p, true
		}
	}
	return Lin{}, Ptr{}, false
}

// iteration judges one iteration of the dispatcher.
func (w *poolWorld) iteration(fn *ssa.Function, st *State, evs []Event, recs map[string][]*bodyRec) (string, string) {
	E := w.e.E
	var req, resps []V
	var sent []Event
	var chosen, copied []V
	asked := 0
	gos := 0
	gone := false
	why := ""
	kind := ""
	bad := func(f string, a ...any) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	pend, _ := st.kept("pending:" + fn.Name()).(Lin)
	told := int64(0)
	for i, ev := range evs {
		switch ev.Kind {
		case "recv":
			if ev.Args[2] == V(Boolv(false)) {
				if len(sent) < len(resps) {
					sent = append(sent, ev) // the client has gone
				}
				gone = true
				continue
			}
			if ev.Args[0].String() != w.req && !w.stoppable(evs[:i]) {
				bad("it waits for a unit although the pool may be stopped")
			}
			p, ok := ev.Args[1].(Ptr)
			switch {
			case !ok:
				bad("it receives %v", ev.Args[1])
			case strings.HasPrefix(p.o.id, "Request@"):
				req = append(req, p)
				if kind == "" {
					kind = "request"
				}
			default:
				resps = append(resps, p)
				if kind == "" {
					kind = "response"
				}
			}
		case "send":
			if ev.Args[0].String() != w.resp {
				bad("it sends to %v", ev.Args[0])
				continue
			}
			if len(sent) >= len(resps) || !sameV(ev.Args[1], resps[len(sent)]) {
				bad("it gives the client %v", ev.Args[1])
			}
			if i == 0 || evs[i-1].Kind != "select" || !w.hasClosed(evs[i-1].Args[1].(Tuple)) {
				bad("nobody may receive the response after Stop")
			}
			sent = append(sent, ev)
		case "Assume":
			asked++
			if len(req) != 1 {
				bad("assumptions without a request")
				continue
			}
			s, ok := ev.Args[1].(Slice)
			id := req[0].(Ptr).o.id + ".Ms"
			if !ok || s.o.id != id || !E.eqLin(st, s.off, lin(0)) || !E.eqLin(st, s.len, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)})) {
				bad("it assumes %v", ev.Args[1])
			}
			chosen = append(chosen, ev.Args[0])
		case "GoSolve":
			if len(chosen) != 1 || !sameV(chosen[0], ev.Args[0]) {
				bad("it runs a solver which was not told the assumptions")
			}
			chosen = append(chosen, ev.Args[0])
		case "go":
			gos++
			if len(chosen) != 2 {
				bad("there is nothing to watch")
			}
		case "SCopy":
			copied = append(copied, ev.Args[0])
			if len(chosen) > 0 {
				bad("a solver is copied after the request was started")
			}
		case "fset":
			switch string(ev.Args[0].(Strv)) {
			case "Response.Pending":
				told++
				if p, ok := ev.Args[1].(Lin); !ok || !E.eqLin(st, p, pend.add(lin(-told), 1)) && (len(req) == 0 || !E.eqLin(st, p, pend.add(lin(1-told), 1))) {
					bad("the number of pending requests is said to be %v", ev.Args[1])
				}
			case "Response.Who", "Response.Res", "Response.Req", "Response.Ms", "ax.cap", "ax.respChn", "ax.uRespChn", "ax.reqChn", "ax.done":
				bad("%v is changed", ev.Args[0])
			}
		case "Add", "Test", "Untest", "Stop", "Why", "Value", "close", "poll", "Unpause", "Pause", "Wait", "Try", "Solve":
			bad("it does something else: %s", ev.Kind)
		}
	}
	if int(told) != len(resps) {
		bad("the number of pending requests is not told")
	}
	switch {
	case len(req)+len(resps) == 0:
		for _, ev := range evs {
			if ev.Kind == "fset" || ev.Kind == "set" {
				bad("it changes something although nothing was received")
			}
		}
		return "idle", why
	case len(sent) != len(resps):
		bad("%d of %d responses are given to the client", len(sent), len(resps))
	case len(req) > 1:
		bad("it takes a second request")
	case gone && asked == 0 && gos == 0:
		return kind, why // the dispatcher ends next
	case len(req) == 1 && (asked != 1 || len(chosen) != 2 || gos != 1):
		bad("the request is started %d times, and watched %d times", len(chosen)-asked, gos)
	case len(req) == 0 && (len(chosen) > 0 || gos > 0):
		bad("a solver is started without a request")
	}
	p0, ok := st.kept("pending:" + fn.Name()).(Lin)
	p1, ok1 := w.e.h.at(st, axPkg, "ax", "pending").(Lin)
	if !ok || !ok1 || !E.eqLin(st, p1, p0.add(lin(int64(len(req)-len(resps))), 1)) {
		bad("the number of pending requests becomes %v", p1)
	}
	// the list of the free units
	bad2 := w.free(fn, st, evs, recs, req, resps, chosen, copied)
	if bad2 != "" {
		bad("%s", bad2)
	}
	return kind, why
}

// stoppable tells whether a receipt is one alternative to the end of the pool.
func (w *poolWorld) stoppable(evs []Event) bool {
	return len(evs) > 0 && (evs[len(evs)-1].Kind == "poll" || evs[len(evs)-1].Kind == "select" && w.hasClosed(evs[len(evs)-1].Args[1].(Tuple)))
}

func (w *poolWorld) hasClosed(alts Tuple) bool {
	for c := range w.closed {
		if hasAlt(alts, "recv "+c) {
			return true
		}
	}
	return false
}

// free judges how the list of the free units and that of all units change.
func (w *poolWorld) free(fn *ssa.Function, st *State, evs []Event, recs map[string][]*bodyRec, req, resps, chosen, copied []V) string {
	E := w.e.E
	a0, ok := st.kept("avail:" + fn.Name()).(Slice)
	u0, ok2 := st.kept("us:" + fn.Name()).(Slice)
	if !ok || !ok2 {
		return "the lists are not followed"
	}
	type cellv struct {
		at Lin
		v  V
	}
	var over []cellv
	cur := a0.len.(Lin)
	units := u0.len.(Lin)
	var plus, minus, known []V
	type read struct {
		at Lin
		v  V
		n  int
	}
	var reads []read
	old := func(at Lin) V {
		for i := len(over) - 1; i >= 0; i-- {
			if E.eqLin(st, over[i].at, at) {
				return over[i].v
			}
		}
		for _, r := range reads {
			if E.eqLin(st, r.at, at) {
				return r.v
			}
		}
		return Tag{"free number " + at.String()}
	}
	lastLoop, changed := "", false
	var cand, candAt []Lin
	for k, ev := range evs {
		switch ev.Kind {
		case "loop":
			lastLoop, changed = string(ev.Args[0].(Strv)), false
			c, a := w.ties(st, lastLoop, recs)
			cand, candAt = append(cand, c...), append(candAt, a...)
			for i := range c {
				reads = append(reads, read{a[i], c[i], k})
				known = append(known, c[i])
			}
		case "read":
			if ev.Args[0].(Ptr).o.id != "ax.avail" {
				continue
			}
			at := ev.Args[1].(Lin)
			if !changed {
				for i := range cand {
					if E.eqLin(st, candAt[i], at) {
						// what the search has found
						st.facts = append(st.facts, cand[i].add(ev.Args[2].(Lin), -1), ev.Args[2].(Lin).add(cand[i], -1))
					}
				}
			}
			reads = append(reads, read{at, ev.Args[2], k})
			known = append(known, ev.Args[2])
		case "set":
			at, _ := ev.Args[1].(Lin)
			switch ev.Args[0].(Ptr).o.id {
			case "ax.avail":
				changed = true
				if E.eqLin(st, at, cur) {
					cur = cur.add(lin(1), 1)
				} else {
					minus = append(minus, old(at))
				}
				plus = append(plus, ev.Args[2])
				known = append(known, ev.Args[2])
				over = append(over, cellv{at, ev.Args[2]})
			case "ax.us":
				if !E.eqLin(st, at, units) {
					return fmt.Sprintf("unit number %v is replaced", at)
				}
				units = units.add(lin(1), 1)
				p, ok := ev.Args[2].(Ptr)
				if !ok || len(p.path) > 0 || !E.eqLin(st, w.fld(st, "unit", p, "I"), at) {
					return "a new unit has the wrong number"
				}
				s := w.fld(st, "unit", p, "S")
				if len(copied) != 1 || !strings.HasPrefix(s.String(), "#SCopy") {
					return "a new unit does not have a copy of its own"
				}
				cp, ok := w.e.h.at(st, axPkg, "ax", "cap").(Lin)
				if !ok || !E.geq0(st, cp.add(units, -1)) {
					return "there may be more units than wanted"
				}
			}
		case "fset":
			switch string(ev.Args[0].(Strv)) {
			case "ax.avail":
				changed = true
				s, ok := ev.Args[1].(Slice)
				n, ok2 := s.len.(Lin)
				switch {
				case !ok || !ok2 || s.o.id != "ax.avail" || !E.eqLin(st, s.off, lin(0)):
					return "the list of the free units is replaced"
				case E.eqLin(st, n, cur):
				case E.eqLin(st, n, cur.add(lin(-1), 1)):
					minus = append(minus, old(n))
					cur = n
				default:
					return fmt.Sprintf("the list of the free units gets the length %v", n)
				}
			case "ax.us":
				s, ok := ev.Args[1].(Slice)
				if !ok || s.o.id != "ax.us" || !E.eqLin(st, s.off, lin(0)) || !E.eqLin(st, s.len, units) {
					return "the list of the units is replaced"
				}
			}
		case "copy":
			d, ok1 := ev.Args[0].(Slice)
			s, ok2 := ev.Args[1].(Slice)
			if ok1 && d.o.id == "ax.us" {
				return "the list of the units is not followed"
			}
			if !ok1 || d.o.id != "ax.avail" {
				continue
			}
			if !ok2 || s.o.id != "ax.avail" || !E.eqLin(st, s.off, d.off.add(lin(1), 1)) || !E.eqLin(st, s.len, cur.add(s.off, -1)) {
				return "the list of the free units is not followed"
			}
			// what follows goes down by one
			changed = true
			last := old(cur.add(lin(-1), 1))
			minus = append(minus, old(d.off))
			plus = append(plus, last)
			over = append(over, cellv{cur.add(lin(-1), 1), last})
		}
	}
	// what is in and what is out
	cancel := func(x, y []V) ([]V, []V) {
		var r []V
		for _, v := range x {
			hit := false
			for i, u := range y {
				if E.eqLin(st, v, u) || sameV(v, u) {
					y = append(append([]V(nil), y[:i]...), y[i+1:]...)
					hit = true
					break
				}
			}
			if !hit {
				r = append(r, v)
			}
		}
		return r, y
	}
	var wantPlus, wantMinus []V
	for _, p := range resps {
		wantPlus = append(wantPlus, linSym(&Sym{id: p.(Ptr).o.id + ".Who"}))
	}
	for x := u0.len.(Lin); !E.eqLin(st, x, units); x = x.add(lin(1), 1) {
		wantPlus = append(wantPlus, x)
	}
	if len(chosen) > 0 {
		k, ok := w.numOf(st, evs, chosen[0])
		if !ok {
			return "it runs a solver which is not that of a unit"
		}
		wantMinus = append(wantMinus, k)
	}
	plus, minus = cancel(plus, minus)
	// both sides
	l := append(append([]V(nil), plus...), wantMinus...)
	r := append(append([]V(nil), minus...), wantPlus...)
	l, r = cancel(l, r)
	if len(l)+len(r) > 0 {
		return fmt.Sprintf("the free units: %v too many, %v missing", l, r)
	}
	for _, c := range copied {
		k, ok := w.numOf(st, evs, c)
		isFree := false
		for _, v := range known {
			isFree = isFree || ok && E.eqLin(st, v, k)
		}
		if !isFree {
			return "a solver is copied which may run"
		}
	}
	return ""
}

// ties finds pairs of variables of a loop: the second is the place of the first
// in the list of the free units.
func (w *poolWorld) ties(st *State, id string, recs map[string][]*bodyRec) (cand, at []Lin) {
	rs := recs[id]
	if len(rs) == 0 {
		return
	}
	for u := range rs[0].phis {
		for a := range rs[0].phis {
			if u == a {
				continue
			}
			ok := true
			var hu, ha Lin
			for _, b := range rs {
				x, ok1 := b.st.top().env[u].(Lin)
				y, ok2 := b.st.top().env[a].(Lin)
				if !ok1 || !ok2 || b.phis[u] == nil || b.phis[a] == nil {
					ok = false
					break
				}
				hu, ha = x, y
				if sameV(b.phis[u], x) && sameV(b.phis[a], y) {
					continue
				}
				hit := false
				for _, ev := range b.evs {
					if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == "ax.avail" && w.e.E.eqLin(b.st, ev.Args[1], b.phis[a]) && w.e.E.eqLin(b.st, ev.Args[2], b.phis[u]) {
						hit = true
					}
					if ev.Kind == "set" && ev.Args[0].(Ptr).o.id == "ax.avail" {
						hit = false
					}
				}
				ok = ok && hit
			}
			if ok && len(hu.t) == 1 && len(ha.t) == 1 {
				cand, at = append(cand, hu), append(at, ha)
			}
		}
	}
	return
}

// shutdown judges how the dispatcher ends.
func (w *poolWorld) shutdown(o Outcome, recs map[string][]*bodyRec) string {
	evs := o.St.events
	stopped := false
	all := false
	for _, ev := range evs {
		switch ev.Kind {
		case "recv":
			stopped = stopped || ev.Args[2] == V(Boolv(false))
		case "loop":
			id := string(ev.Args[0].(Strv))
			ok := len(recs[id]) > 0
			for _, b := range recs[id] {
				tab, i, v := over(b, "ax.us")
				if tab == "" || w.e.covers(o.St, b, i, w.e.h.at(o.St, axPkg, "ax", "us").(Slice).len) != "" {
					ok = false
					break
				}
				cs := evsOf(b.evs, "close")
				if len(cs) != 1 || !sameV(cs[0].Args[0], w.fld(b.st, "unit", v.(Ptr), "cancel")) {
					ok = false
				}
			}
			all = all || ok
		}
	}
	switch {
	case !stopped:
		return "it ends although it was not stopped"
	case !all:
		return "not every unit is cancelled"
	}
	return ""
}

// units judges the goroutines of the units.
func (w *poolWorld) units() {
	seen := map[string]bool{}
	n := 0
	for _, g := range w.gos {
		w.r.Fn(g.fn)
		limited := evsOf(g.st.events, "timer")
		key := fmt.Sprint(g.fn.String(), g.bind, g.args, limited)
		if seen[key] {
			continue
		}
		seen[key] = true
		n++
		w.unit(n, g)
	}
	w.r.Floor("unit", 2)
}

func (w *poolWorld) unit(n int, g poolGo) {
	e := w.e
	name := fmt.Sprintf("goroutine %d", n)
	// what it was started with
	evs := g.st.events
	var req, handle, solver, num V
	for _, ev := range evs {
		switch ev.Kind {
		case "recv":
			if p, ok := ev.Args[1].(Ptr); ok && strings.HasPrefix(p.o.id, "Request@") {
				req = p
			}
		case "GoSolve":
			solver, handle = ev.Args[0], ev.Args[1]
			if k, u, ok := w.unitOf(g.st, evs, solver); ok {
				num = k
				w.cancel = w.fld(g.st, "unit", u, "cancel")
			}
		}
	}
	if req == nil || handle == nil || num == nil {
		w.ob("unit", name, "it is not known what it works on", "", g.fn)
		return
	}
	lim, _ := w.fld(g.st, "Request", req.(Ptr), "Limit").(Lin)
	alarm, tick := V(nil), V(nil)
	whyT := ""
	for _, ev := range evsOf(evs, "timer") {
		if l, ok := ev.Args[0].(Lin); ok && e.E.eqLin(g.st, l, lim) && !l.isConst() {
			alarm = Tag{"timer"}
		} else if ok && l.isConst() && l.c > 0 {
			tick = l
		} else {
			whyT = fmt.Sprintf("it waits for %v", ev.Args[0])
		}
	}
	noLimit := e.E.eqLin(g.st, lim, lin(0))
	if !noLimit && alarm == nil {
		whyT = "the time limit of the request is not kept"
	}
	_ = tick
	w.ob("unit", name+": time", whyT, fmt.Sprintf("limited: %v", !noLimit), g.fn)
	st := g.st.clone()
	st.events = nil
	e.recs = map[string][]*bodyRec{}
	k := 0
	seen := map[string]bool{}
	for _, o := range e.E.Run(st, g.fn, g.args, g.bind) {
		switch o.Kind {
		case "return", "back":
		default:
			continue
		}
		k++
		why, how := w.answer(o, req.(Ptr), handle, solver, num.(Lin))
		seen[how] = true
		w.ob("unit", fmt.Sprintf("%s, path %d: %s", name, k, how), why, "as the request asks", g.fn)
	}
	why := ""
	for _, h := range []string{"result", "cancelled"} {
		if !seen[h] {
			why = "no path for: " + h
		}
	}
	if !noLimit && !seen["out of time"] {
		why = "the end of the time is not watched"
	}
	w.ob("unit", name, why, "ends with the result, at the end of the time, or when cancelled", g.fn)
}

// answer judges a path of the goroutine of a unit.
func (w *poolWorld) answer(o Outcome, req Ptr, handle, solver V, num Lin) (why, how string) {
	E := w.e.E
	bad := func(f string, a ...any) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	var result V
	cancelled, timeout, stopped, late := false, false, false, false
	var sends []Event
	flags := map[string]V{}
	flagOf := map[string]V{}
	var whys, loops []Event
	for i, ev := range o.St.events {
		switch ev.Kind {
		case "recv":
			switch {
			case sameV(ev.Args[0], w.cancel) || w.closed[ev.Args[0].String()]:
				if result != nil && len(sends) == 0 {
					late = true // nobody waits for the response
				}
				cancelled = true
			case ev.Args[0].String() == "#timer" || strings.Contains(ev.Args[0].String(), "Timer."):
				timeout = true
			case w.isTimer(ev.Args[0]):
			default:
				bad("it waits for %v", ev.Args[0])
			}
		case "select":
			if !w.hasCancel(ev.Args[1].(Tuple)) {
				bad("it may wait although it is cancelled")
			}
		case "Test", "Stop":
			if !sameV(ev.Args[0], handle) {
				bad("it asks %v for the result", ev.Args[0])
			}
			if ev.Kind == "Stop" {
				stopped = true
				if !timeout && !cancelled {
					bad("it stops the solver too early")
				}
			}
			if ev.Kind == "Stop" || ev.Args[2] == V(Boolv(true)) {
				if result != nil {
					bad("it asks again after the result")
				}
				result = ev.Args[1]
			}
		case "send":
			if i == 0 || o.St.events[i-1].Kind != "select" {
				bad("it waits for the dispatcher although it may be cancelled")
			}
			sends = append(sends, ev)
		case "flag":
			flags[string(ev.Args[0].(Strv))] = ev.Args[1]
			flagOf[string(ev.Args[0].(Strv))] = ev.Args[2]
		case "Why":
			whys = append(whys, ev)
		case "loop":
			loops = append(loops, ev)
		case "Add", "Assume", "GoSolve", "Solve", "SCopy", "Untest", "Pause", "Unpause", "Wait", "Try", "close", "go", "poll":
			bad("it does something else: %s", ev.Kind)
		}
		if k := ev.Kind; (k == "Why" || k == "Value") && !sameV(ev.Args[0], solver) {
			bad("it asks another solver")
		}
	}
	if o.Kind == "back" {
		if result != nil && len(sends) == 0 && len(loops) == 1 {
			bad("it goes on after the result")
		}
		if len(sends) > 0 {
			bad("it goes on after the response")
		}
		return why, "goes on"
	}
	switch {
	case cancelled && !late:
		if len(sends) > 0 {
			bad("it answers although it was cancelled")
		}
		if !stopped {
			bad("the solver goes on after it was cancelled")
		}
		return why, "cancelled"
	case late:
		return why, "cancelled late"
	}
	how = "result"
	if stopped {
		how = "out of time"
	}
	if result == nil {
		bad("it ends without a result")
	}
	if len(sends) != 1 {
		bad("it gives %d responses", len(sends))
		return
	}
	if !w.isURespChn(sends[0].Args[0]) {
		bad("it gives the response to %v", sends[0].Args[0])
	}
	p, ok := sends[0].Args[1].(Ptr)
	if !ok {
		bad("it gives %v", sends[0].Args[1])
		return
	}
	if v := w.fld(o.St, "Response", p, "Req"); !sameV(v, req) {
		bad("the response is for %v", v)
	}
	if v := w.fld(o.St, "Response", p, "Who"); !w.isNum(o.St, v, num) {
		bad("the response says that unit %v was at work", v)
	}
	if v := w.fld(o.St, "Response", p, "Res"); !sameV(v, result) {
		bad("the response has the result %v instead of %v", v, result)
	}
	for _, f := range flagOf {
		if !sameV(f, w.fld(o.St, "Request", req, "Flag")) {
			bad("it looks at other flags: %v", f)
		}
	}
	res, _ := result.(Lin)
	is := func(c int64) bool { return E.eqLin(o.St, res, lin(c)) }
	ms := w.fld(o.St, "Response", p, "Ms")
	switch s := ms.(type) {
	case Nilv:
	case Slice:
		if len(whys) > 0 && sameV(ms, whys[len(whys)-1].Args[2]) {
			if !is(-1) || flags["Why"] != V(Boolv(true)) {
				bad("a reason is given although there is none, or none was wanted")
			}
			if a, ok := whys[0].Args[1].(Slice); ok && !E.eqLin(o.St, a.len, lin(0)) {
				bad("the reason has further literals: %v", a)
			}
			return
		}
		if !is(1) || flags["Model"] != V(Boolv(true)) {
			if !E.eqLin(o.St, s.len, lin(0)) {
				bad("a model %v is given although there is none (%v), or none was wanted %v", s, res, flags)
			}
			break
		}
		if m := w.model(o, s, loops, solver); m != "" {
			bad("%s", m)
		}
		return
	default:
		bad("the response has %v", ms)
		return
	}
	// nothing is given
	if !(flags["Model"] == V(Boolv(false)) || w.not(o.St, res, 1)) {
		bad("no model although it was wanted")
	}
	if !(flags["Why"] == V(Boolv(false)) || w.not(o.St, res, -1)) {
		bad("no reason although it was wanted")
	}
	return
}

// not tells whether l is known to differ from c.
func (w *poolWorld) not(st *State, l Lin, c int64) bool {
	d := l.add(lin(c), -1)
	if d.isConst() {
		return d.c != 0
	}
	g := w.e.E.sign(st, d)
	return g == "+" || g == "-" || st.notZero(d)
}

func (w *poolWorld) hasCancel(alts Tuple) bool {
	for _, a := range alts {
		if s := string(a.(Strv)); s == "recv "+w.cancel.String() || w.closed[strings.TrimPrefix(s, "recv ")] {
			return true
		}
	}
	return false
}

func (w *poolWorld) isURespChn(c V) bool {
	return strings.HasPrefix(c.String(), "#ax.") && c.String() != w.resp && c.String() != w.req
}

// isNum: the unit with this number says so of itself.
func (w *poolWorld) isNum(st *State, v V, num Lin) bool {
	if w.e.E.eqLin(st, v, num) {
		return true
	}
	l, ok := v.(Lin)
	if !ok || len(l.t) != 1 || l.c != 0 || l.t[0].k != 1 {
		return false
	}
	id := strings.TrimSuffix(l.t[0].s.id, ".I")
	k, ok := w.idx[id]
	return ok && id != l.t[0].s.id && w.e.E.eqLin(st, k, num)
}

// model judges how a model is written.
func (w *poolWorld) model(o Outcome, s Slice, loops []Event, solver V) string {
	why := "there is no loop which writes the model"
	for _, lp := range loops {
		rs := w.e.recs[string(lp.Args[0].(Strv))]
		if len(rs) == 0 {
			continue
		}
		bad := ""
		writes := false
		for _, b := range rs {
			vs := evsOf(b.evs, "Value")
			ss := sets(b.evs, s.o.id)
			if len(ss) == 0 && len(vs) == 0 {
				bad = orElse(bad, "a variable is left out")
				continue
			}
			writes = true
			if len(ss) != 1 || len(vs) != 1 || !sameV(vs[0].Args[0], solver) {
				bad = orElse(bad, "a variable is not written once, by its value")
				continue
			}
			q, ok1 := vs[0].Args[1].(Lin)
			m, ok2 := ss[0].Args[2].(Lin)
			if !ok1 || !ok2 {
				bad = orElse(bad, "the literals are not followed")
				continue
			}
			E := w.e.E
			val := vs[0].Args[2] == V(Boolv(true))
			// q is v.Pos() or v.Neg()
			neg := int64(0)
			v := q
			if q.c%2 != 0 {
				neg, v = 1, q.add(lin(-1), 1)
			}
			if !v.divisible(2) {
				bad = orElse(bad, "the literals are not followed")
				continue
			}
			half := Lin{c: v.c / 2}
			for _, t := range v.t {
				half = half.add(linSym(t.s), t.k/2)
			}
			want := q
			if !val {
				want = v.add(lin(1-neg), 1)
			}
			if !E.eqLin(b.st, m, want) {
				bad = orElse(bad, fmt.Sprintf("for %v being %v it writes %v", q, val, m))
			}
			nx, ok := E.nextLin(b.st, b.phis, half)
			f, okf := firstOf(b.st, half)
			last := linSym(&Sym{id: "maxvar of " + solver.String(), lo: i64(0), hi: i64(1 << 30)})
			switch {
			case !ok || !E.eqLin(b.st, nx, half.add(lin(1), 1)):
				bad = orElse(bad, "not every variable is written")
			case !okf || !E.eqLin(b.st, f, lin(1)):
				bad = orElse(bad, fmt.Sprintf("the first variable is %v", f))
			case !E.geq0(o.St, half.add(last, -1).add(lin(-1), 1)):
				bad = orElse(bad, "the last variable is left out")
			}
		}
		if writes {
			return bad
		}
	}
	return why
}

// make judges how a pool begins.
func (w *poolWorld) make() {
	e := w.e
	fn := w.P.Func(axPkg, "NewT")
	w.r.Fn(fn)
	c := linSym(&Sym{id: "cap", lo: i64(-1 << 30), hi: i64(1 << 30)})
	w.gos = nil
	why := ""
	k, refused := 0, 0
	proto := Tag{"proto"}
	for _, o := range e.E.Run(newState(), fn, []V{proto, c}, nil) {
		if o.Kind == "panic" {
			refused++
			if e.E.geq0(o.St, c.add(lin(-1), 1)) {
				why = orElse(why, "it refuses although some units are wanted")
			}
			continue
		}
		if o.Kind != "return" {
			continue
		}
		k++
		p, ok := unwrap(o.Ret[0]).(Ptr)
		if !ok {
			why = orElse(why, "it gives something else")
			continue
		}
		if !e.E.geq0(o.St, c.add(lin(-1), 1)) {
			why = orElse(why, "it does not refuse to have no units")
		}
		us, ok1 := w.fld(o.St, "ax", p, "us").(Slice)
		av, ok2 := w.fld(o.St, "ax", p, "avail").(Slice)
		if !ok1 || !ok2 || !e.E.eqLin(o.St, us.len, lin(1)) || !e.E.eqLin(o.St, av.len, lin(1)) {
			why = orElse(why, "it does not begin with one free unit")
			continue
		}
		at := func(s Slice, t types.Type) V {
			return e.E.load(o.St, Ptr{s.o, []pe{{f: -1, idx: s.off}}}, "elem:"+t.String(), t)[0].v
		}
		n := w.P.Type(axPkg, "ax").Underlying().(*types.Struct)
		elem := func(f string) types.Type {
			return n.Field(fieldIndex(w.P, axPkg, "ax", f)).Type().Underlying().(*types.Slice).Elem()
		}
		u, ok := at(us, elem("us")).(Ptr)
		switch {
		case !ok || !sameV(w.fld(o.St, "unit", u, "S"), proto) || !e.E.eqLin(o.St, w.fld(o.St, "unit", u, "I"), lin(0)):
			why = orElse(why, "the first unit is not that of the solver, with the number zero")
		case !e.E.eqLin(o.St, at(av, elem("avail")), lin(0)):
			why = orElse(why, "the first unit is not free")
		case !e.E.eqLin(o.St, w.fld(o.St, "ax", p, "cap"), c):
			why = orElse(why, "the number of units is not kept")
		case !e.E.eqLin(o.St, w.fld(o.St, "ax", p, "pending"), lin(0)):
			why = orElse(why, "requests are pending at the beginning")
		case len(evsOf(o.St.events, "go")) != 1:
			why = orElse(why, "the dispatcher is not started once")
		}
		cs := map[string]bool{}
		for _, f := range []string{"reqChn", "respChn", "uRespChn", "done"} {
			ch := w.fld(o.St, "ax", p, f)
			if isNilV(ch) || cs[ch.String()] {
				why = orElse(why, "the channels are not made, each of its own")
			}
			cs[ch.String()] = true
		}
	}
	serve := w.P.Func(axPkg, "ax.serve")
	for _, g := range w.gos {
		ok := g.fn == serve
		if !ok && g.fn != nil {
			for _, b := range g.fn.Blocks {
				for _, in := range b.Instrs {
					if c, isc := in.(ssa.CallInstruction); isc && c.Common().StaticCallee() == serve {
						ok = true
					}
				}
			}
		}
		if !ok {
			why = orElse(why, "the dispatcher is not started")
		}
	}
	if k == 0 || refused == 0 {
		why = orElse(why, "it never begins, or accepts any number")
	}
	w.ob("make", "NewT", why, "begins with one free unit, which has the solver", fn)
}

// requests judges how requests are made.
func (w *poolWorld) requests() {
	e := w.e
	fn := w.P.Func(axPkg, "RequestGen.New")
	w.r.Fn(fn)
	g := Ptr{o: obj("RequestGen")}
	ms := Slice{obj("mine"), Lin{}, linSym(&Sym{id: "len(mine)", lo: i64(0)}), linSym(&Sym{id: "len(mine)", lo: i64(0)})}
	n := 0
	why := ""
	base := e.E.Load
	defer func() { e.E.Load = base }()
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if cellName(p, key) == "RequestGen.count" {
			e.log(st, "counted")
		}
		return base(st, p, key, t)
	}
	gf := func(st *State, f string) V {
		i := fieldIndex(w.P, axPkg, "RequestGen", f)
		T := w.P.Type(axPkg, "RequestGen")
		return e.E.load(st, Ptr{g.o, []pe{{f: i}}}, "field:"+T.String()+"."+f, T.Underlying().(*types.Struct).Field(i).Type())[0].v
	}
	for _, o := range e.E.Run(newState(), fn, []V{g, ms}, nil) {
		if o.Kind != "return" {
			continue
		}
		n++
		why = orElse(why, balanced(o.St.events, ""))
		if len(evsOf(o.St.events, "lock")) == 0 {
			why = orElse(why, "two requests may get the same number")
		}
		first, last := -1, -1
		for i, ev := range o.St.events {
			if ev.Kind == "counted" || ev.Kind == "fset" && ev.Args[0] == V(Strv("RequestGen.count")) {
				if last = i; first < 0 {
					first = i
				}
			}
		}
		for i := first; i >= 0 && i < last; i++ {
			if o.St.events[i].Kind == "unlock" {
				why = orElse(why, "the counter is read and advanced in two steps, so two requests may get the same number")
			}
		}
		p, ok := o.Ret[0].(Ptr)
		if !ok {
			why = orElse(why, "it gives something else")
			continue
		}
		id, ok := w.fld(o.St, "Request", p, "Id").(Lin)
		next, ok2 := gf(o.St, "count").(Lin)
		was, ok3 := gf(newState(), "count").(Lin)
		if !ok || !ok2 || !ok3 {
			why = orElse(why, "the number is not followed")
		} else if d, k := next.add(was, -1), id.add(was, -1); !d.isConst() || !k.isConst() || d.c <= 0 {
			why = orElse(why, fmt.Sprintf("the number is %v, and the counter goes from %v to %v", id, was, next))
		}
		for _, f := range [][2]string{{"Flag", "flag"}, {"Limit", "limit"}} {
			if v := w.fld(o.St, "Request", p, f[0]); !sameV(v, gf(o.St, f[1])) {
				why = orElse(why, fmt.Sprintf("%s is %v", f[0], v))
			}
		}
		s, ok := w.fld(o.St, "Request", p, "Ms").(Slice)
		if !ok {
			why = orElse(why, "the assumptions are lost")
			continue
		}
		if s.o.id == ms.o.id {
			why = orElse(why, "the request shares the assumptions with the caller")
		}
		if !e.E.eqLin(o.St, s.len, ms.len) || !e.E.eqLin(o.St, s.off, lin(0)) {
			why = orElse(why, "the assumptions are not all there")
		}
		cp := false
		for _, ev := range evsOf(o.St.events, "copy") {
			d, ok1 := ev.Args[0].(Slice)
			f, ok2 := ev.Args[1].(Slice)
			if ok1 && ok2 && d.o == s.o && f.o.id == ms.o.id && e.E.eqLin(o.St, d.off, lin(0)) && e.E.eqLin(o.St, f.off, lin(0)) && e.E.eqLin(o.St, f.len, ms.len) && e.E.eqLin(o.St, d.len, ms.len) {
				cp = true
			}
		}
		if !cp {
			for _, ev := range evsOf(o.St.events, "loop") {
				for _, b := range e.recs[string(ev.Args[0].(Strv))] {
					tab, i, v := over(b, ms.o.id)
					ss := sets(b.evs, s.o.id)
					if tab != "" && len(ss) == 1 && e.E.eqLin(b.st, ss[0].Args[1], i) && sameV(ss[0].Args[2], v) && e.covers(o.St, b, i, ms.len) == "" {
						cp = true
					}
				}
			}
		}
		if !cp {
			// an arbitrary one of them
			k := linSym(&Sym{id: "k", lo: i64(0)})
			st := o.St.clone()
			st.facts = append(st.facts, k, ms.len.(Lin).add(k, -1).add(lin(-1), 1))
			t := w.P.Type("z", "Lit")
			x := e.E.load(st, Ptr{ms.o, []pe{{f: -1, idx: k}}}, "elem:"+t.String(), t)
			st = x[0].st
			y := e.E.load(st, Ptr{s.o, []pe{{f: -1, idx: k}}}, "elem:"+t.String(), t)
			cp = len(y) == 1 && sameV(x[0].v, y[0].v)
		}
		if !cp {
			why = orElse(why, "the assumptions are not copied")
		}
	}
	if n == 0 {
		why = orElse(why, "it never returns")
	}
	w.ob("request", "New", why, "a number of its own, the flags and the limit at the time, a copy of the assumptions", fn)
	// the settings
	d := linSym(&Sym{id: "setting"})
	for _, f := range [][2]string{{"SetFlag", "flag"}, {"Limit", "limit"}} {
		fn := w.P.Func(axPkg, "RequestGen."+f[0])
		w.r.Fn(fn)
		why := ""
		for _, o := range e.E.Run(newState(), fn, []V{g, d}, nil) {
			if o.Kind != "return" {
				continue
			}
			why = orElse(why, balanced(o.St.events, ""))
			if !sameV(gf(o.St, f[1]), d) {
				why = orElse(why, fmt.Sprintf("it sets %v", gf(o.St, f[1])))
			}
		}
		w.ob("request", f[0], why, "sets what it is given", fn)
	}
	// the flags
	bits := map[string]int64{}
	for _, f := range []string{"Model", "Why"} {
		fn := w.P.Func(axPkg, "ReqFlag."+f)
		w.r.Fn(fn)
		why := ""
		cst, _ := w.P.Type(axPkg, "ReqFlag").Obj().Pkg().Scope().Lookup("Req" + f).(*types.Const)
		if cst == nil {
			continue
		}
		b, _ := constInt(cst.Val())
		bits[f] = b
		next := e.Next
		e.Next = w.call
		for v := int64(0); v < 4; v++ {
			for _, o := range e.E.Run(newState(), fn, []V{lin(v)}, nil) {
				if o.Kind == "return" && o.Ret[0] != V(Boolv(v&b != 0)) {
					why = orElse(why, fmt.Sprintf("for the flags %d it says %v", v, o.Ret[0]))
				}
			}
		}
		e.Next = next
		w.ob("request", "ReqFlag."+f, why, "looks at its own bit", fn)
	}
	if bits["Model"] == bits["Why"] || bits["Model"]&bits["Why"] != 0 || bits["Model"] <= 0 || bits["Why"] <= 0 {
		w.ob("request", "flags", "the flags are not told apart", "", fn)
	}
	w.r.Floor("request", 4)
}
