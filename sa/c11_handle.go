package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Level: "other",
		Rule: "Typestate analysis by disjunctive abstract interpretation over go/ssa of the channel and lock operations of a background solve: every path of every operation of the handle, of the poll within the solver and of the goroutine is matched against the protocol of the two channels.",
		Run:  runC11})
}

// chanWorld follows channel and lock operations.
type chanWorld struct {
	r      *Report
	P      *Prog
	e      *emitter
	result string // channels, by role
	ctl    string
	gofn   *ssa.Function
	gobind []V
	goargs []V
	gost   *State
}

func newChanWorld(r *Report) *chanWorld {
	P := r.P
	w := &chanWorld{r: r, P: P, e: newObserver(P)}
	e := w.e
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if _, ok := t.Underlying().(*types.Chan); ok {
			return one1(st, Tag{name})
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return one1(st, Unk{name})
		}
		return false, nil
	}
	e.E.Chan = func(st *State, kind string, ch V, v V, t types.Type) []Opt {
		switch kind {
		case "recv":
			name := ch.String()
			e.log(st, "recv", ch)
			at := len(st.events) - 1
			mk := func(s *State, v V, ok bool) Opt {
				s.events[at].Args = []V{ch, v, Boolv(ok)}
				return Opt{s, Tuple{v, Boolv(ok)}}
			}
			b, isb := t.Underlying().(*types.Basic)
			switch {
			case isb && b.Kind() == types.Bool:
				var os []Opt
				for i, x := range []struct{ v, ok bool }{{true, true}, {false, true}, {false, false}} {
					s := st
					if i < 2 {
						s = st.clone()
					}
					s.events = append([]Event(nil), s.events...)
					os = append(os, mk(s, Boolv(x.v), x.ok))
				}
				return os
			case isb && b.Info()&types.IsInteger != 0:
				st.seq++
				return []Opt{mk(st, linSym(&Sym{id: fmt.Sprintf("received %s %d", name, st.seq)}), true)}
			}
			st.seq++
			return []Opt{mk(st, e.E.Unknown(st, "received", t), true)}
		case "send":
			e.log(st, "send", ch, v)
		default:
			e.log(st, kind, ch, v)
		}
		return nil
	}
	e.E.OnGo = func(st *State, fn *ssa.Function, bind, args []V) {
		e.log(st, "go")
		w.gofn, w.gobind, w.goargs, w.gost = fn, bind, args, st.clone()
	}
	e.Next = w.call
	return w
}

// lockName names a lock by its place.
func lockName(v V) string {
	if p, ok := v.(Ptr); ok {
		return cellKey(p)
	}
	return v.String()
}

func (w *chanWorld) call(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e := w.e
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		if b.Name() == "close" {
			e.log(st, "close", args[0])
			return one1(st, Tuple{})
		}
		return false, nil
	}
	if fn == nil {
		return false, nil
	}
	switch calleeName(ci, fn) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		e.log(st, "lock", Strv(lockName(args[0])))
		return one1(st, Tuple{})
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		e.log(st, "unlock", Strv(lockName(args[0])))
		return one1(st, Tuple{})
	case "time.After", "time.Tick":
		e.log(st, "timer", args[0])
		return one1(st, Tag{"timer"})
	case "time.NewTimer", "time.NewTicker":
		e.log(st, "timer", args[0])
		st.seq++
		return one1(st, Ptr{o: obj(tname(deref(ci.Value().Type())))})
	}
	return false, nil
}

func (w *chanWorld) isTimer(ch V) bool {
	s := ch.String()
	return strings.Contains(s, "timer") || strings.Contains(s, "Timer.") || strings.Contains(s, "Ticker.")
}

// role names a channel by what it is for.
func (w *chanWorld) role(ch V) string {
	switch {
	case ch == nil:
		return ""
	case ch.String() == w.result:
		return "result"
	case ch.String() == w.ctl:
		return "control"
	case w.isTimer(ch):
		return "timer"
	}
	return "other"
}

// balanced tells what is wrong with the locks of a path; except are locks which
// it gives away or takes.
func balanced(evs []Event, except string) string {
	held := map[string]int{}
	for _, ev := range evs {
		switch ev.Kind {
		case "lock":
			n := string(ev.Args[0].(Strv))
			if n == except {
				continue
			}
			if held[n]++; held[n] > 1 {
				return "it locks " + n + " twice, and waits for itself"
			}
		case "unlock":
			n := string(ev.Args[0].(Strv))
			if n == except {
				continue
			}
			if held[n]--; held[n] < 0 {
				return "it unlocks " + n + " which it does not hold"
			}
		}
	}
	for _, n := range sortedKeys(held) {
		if held[n] > 0 {
			return "it ends with " + n + " locked"
		}
	}
	return ""
}

func runC11(r *Report) {
	w := newChanWorld(r)
	P := r.P
	tick := P.Func(xoPkg, "Ctl.Tick")
	w.roles(tick)
	w.goSolve()
	w.poll(tick)
	w.channels()
	run := w.runLock()
	for _, n := range []string{"Stop", "Wait", "Try", "Test", "Pause", "Unpause"} {
		w.op(n, run)
	}
	w.tryStats()
	r.Floor("result", 8)
	r.Floor("poll", 4)
	r.Floor("locks", 8)
	r.Floor("channel", 2)
	r.Floor("goroutine", 1)
	r.Floor("pause", 3)
}

// roles finds the channel which the solver polls and the one on which the
// goroutine gives the result.
func (w *chanWorld) roles(tick *ssa.Function) {
	for _, o := range w.e.E.Run(newState(), tick, []V{w.e.h.ptr("Ctl")}, nil) {
		if o.Kind != "return" {
			continue
		}
		for _, ev := range evsOf(o.St.events, "recv") {
			w.ctl = ev.Args[0].String()
		}
	}
}

func (w *chanWorld) goSolve() {
	r, P, e := w.r, w.P, w.e
	fn := P.Func(xoPkg, "S.GoSolve")
	r.Fn(fn)
	solve := P.Func(xoPkg, "S.Solve")
	e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f == solve {
			st.seq++
			v := linSym(&Sym{id: fmt.Sprintf("solved#%d", st.seq)})
			e.log(st, "solve", v, args[0])
			return one1(st, v)
		}
		return w.call(st, ci, f, args)
	}
	defer func() { e.Next = w.call }()
	why := ""
	n := 0
	for _, o := range e.E.Run(newState(), fn, []V{e.h.ptr("S")}, nil) {
		if o.Kind != "return" {
			continue
		}
		n++
		if p, ok := unwrap(o.Ret[0]).(Ptr); !ok || p.o.id != "Ctl" {
			why = "it does not give the handle of the solver"
		}
		if len(evsOf(o.St.events, "go")) != 1 {
			why = fmt.Sprintf("it starts %d goroutines", len(evsOf(o.St.events, "go")))
		}
		if len(evsOf(o.St.events, "solve")) > 0 {
			why = "it solves before it returns"
		}
	}
	r.Ob("goroutine", "GoSolve starts one solve", why == "" && n > 0, fn.Pos(), "%s", orElse(why, "one goroutine on every path"))
	if w.gofn == nil {
		r.Ob("goroutine", "the goroutine of GoSolve", false, fn.Pos(), "no goroutine found")
		return
	}
	g := w.gofn
	r.Fn(g)
	args := w.goargs
	st := w.gost.clone()
	st.events = nil
	n = 0
	why = ""
	var outs []Outcome
	if g == solve {
		why = "the result of the solve is lost"
	} else {
		outs = e.E.Run(st, g, args, w.gobind)
	}
	for _, o := range outs {
		switch o.Kind {
		case "return":
		case "back":
			why = "the goroutine may not end"
			continue
		default:
			continue
		}
		n++
		ss, sn := evsOf(o.St.events, "solve"), evsOf(o.St.events, "send")
		switch {
		case len(ss) != 1:
			why = fmt.Sprintf("it solves %d times", len(ss))
		case len(sn) != 1:
			why = fmt.Sprintf("it gives the result %d times", len(sn))
		case !sameV(sn[0].Args[1], ss[0].Args[0]):
			why = fmt.Sprintf("it gives %v as the result", sn[0].Args[1])
		case !strings.HasPrefix(sn[0].Args[0].String(), "#Ctl."):
			why = fmt.Sprintf("it gives the result to %v", sn[0].Args[0])
		default:
			w.result = sn[0].Args[0].String()
		}
		if p, ok := ss[0].Args[1].(Ptr); len(ss) == 1 && (!ok || p.o.id != "S") {
			why = "it solves another problem"
		}
	}
	if n == 0 && why == "" {
		why = "it does not end"
	}
	r.Ob("goroutine", "the goroutine of GoSolve", why == "", g.Pos(), "%s", orElse(why, "it solves once and gives the result once"))
}

// poll judges what the solver does with requests.
func (w *chanWorld) poll(tick *ssa.Function) {
	r := w.r
	r.Fn(tick)
	for i, o := range w.e.E.Run(newState(), tick, []V{w.e.h.ptr("Ctl")}, nil) {
		name := fmt.Sprintf("path %d of the poll", i+1)
		if o.Kind != "return" {
			r.Ob("poll", name, o.Kind == "panic" && false, tick.Pos(), "it may not end")
			continue
		}
		why := ""
		var ops []Event
		for _, ev := range o.St.events {
			switch ev.Kind {
			case "recv", "send":
				ops = append(ops, ev)
			case "select":
				why = "the solver waits for a request"
			}
		}
		ret, _ := o.Ret[0].(Boolv)
		goesOn := bool(ret)
		switch {
		case why != "":
		case len(ops) == 0:
			if len(evsOf(o.St.events, "default")) == 0 {
				why = "it does not look for a request"
			} else if !goesOn {
				why = "it stops without a request"
			}
		case ops[0].Kind != "recv" || w.role(ops[0].Args[0]) != "control":
			why = fmt.Sprintf("it begins with %v", ops[0].Args)
		default:
			if len(evsOf(o.St.events, "poll")) == 0 {
				why = "the solver waits for a request"
				break
			}
			stop := ops[0].Args[1] == V(Boolv(true)) || ops[0].Args[2] == V(Boolv(false))
			switch {
			case stop && len(ops) != 1:
				why = "after a stop request there are further exchanges"
			case stop && goesOn:
				why = "it goes on after a stop request"
			case stop:
			case !goesOn:
				why = "it stops when it should pause"
			case len(ops) != 2 || ops[1].Kind != "send" || w.role(ops[1].Args[0]) != "control":
				why = "after a pause request it does not wait to be resumed"
			}
		}
		r.Ob("poll", name, why == "", tick.Pos(), "%s", orElse(why, "as the protocol says"))
	}
}

// channels judges how the channels are made.
func (w *chanWorld) channels() {
	r, P := w.r, w.P
	fn := P.Func(xoPkg, "NewCtl")
	r.Fn(fn)
	for _, o := range w.e.E.Run(newState(), fn, []V{w.e.h.ptr("S")}, nil) {
		if o.Kind != "return" {
			continue
		}
		p, ok := o.Ret[0].(Ptr)
		if !ok {
			r.Ob("channel", "a new handle", false, fn.Pos(), "is %v", o.Ret[0])
			continue
		}
		size := map[string]V{}
		for _, ev := range evsOf(o.St.events, "makechan") {
			size[ev.Args[0].String()] = ev.Args[1]
		}
		made := map[string]string{}
		for role, name := range map[string]string{"result": w.result, "control": w.ctl} {
			i := fieldIndex(P, xoPkg, "Ctl", strings.TrimPrefix(name, "#Ctl."))
			why := ""
			c, ok := o.St.mem[fmt.Sprintf("%s.%d", p.o.id, i)]
			switch {
			case !ok:
				why = "is not made"
			case size[c.v.String()] == nil:
				why = fmt.Sprintf("is %v", c.v)
			case role == "control" && !sameV(size[c.v.String()], lin(0)):
				why = "keeps requests which the solver has not taken: they would meet the next solve, and a pause would begin before the solver waits"
			case made[c.v.String()] != "":
				why = "is the same as the other"
			default:
				made[c.v.String()] = role
			}
			r.Ob("channel", "the "+role+" channel of a new handle", why == "", fn.Pos(), "%s", orElse(why, "is made"))
		}
		// the solver of the handle
		why := "the handle is not connected with its solver"
		for k, c := range o.St.mem {
			if q, ok := c.v.(Ptr); ok && q.o.id == "S" && strings.HasPrefix(k, p.o.id+".") {
				why = ""
			}
		}
		r.Ob("channel", "the solver of a new handle", why == "", fn.Pos(), "%s", orElse(why, "is the one given"))
	}
}

// runLock finds the lock which a solve holds and which a copy takes.
func (w *chanWorld) runLock() string {
	r, P, e := w.r, w.P, w.e
	locks := func(name string, args ...V) (map[string]bool, string) {
		fn := P.Func(xoPkg, name)
		r.Fn(fn)
		h := map[string]bool{}
		why := ""
		e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, a []V) (bool, []Opt) {
			if ok, os := w.call(st, ci, f, a); ok {
				return true, os
			}
			// what is done in between does not matter here
			if f != nil && P.inRepo(f) && !touchesLocks(P, f, map[*ssa.Function]bool{}) {
				var rt types.Type = f.Signature.Results()
				if f.Signature.Results().Len() == 1 {
					rt = f.Signature.Results().At(0).Type()
				}
				if p, ok := rt.Underlying().(*types.Pointer); ok && tname(p.Elem()) != "" {
					return one1(st, Ptr{o: obj(tname(p.Elem()))})
				}
				return one1(st, e.E.Unknown(st, f.Name(), rt))
			}
			return false, nil
		}
		defer func() { e.Next = w.call }()
		first := true
		for _, o := range e.E.Run(newState(), fn, args, nil) {
			if o.Kind != "return" && o.Kind != "back" {
				continue
			}
			if o.Kind == "return" {
				if b := balanced(o.St.events, ""); b != "" {
					why = b
				}
			}
			here := map[string]bool{}
			for _, ev := range evsOf(o.St.events, "lock") {
				here[string(ev.Args[0].(Strv))] = true
			}
			if first {
				h, first = here, false
				continue
			}
			for n := range h {
				if !here[n] {
					delete(h, n)
				}
			}
		}
		return h, why
	}
	S := e.h.ptr("S")
	hs, why := locks("S.Solve", S)
	r.Ob("locks", "Solve", why == "", P.Func(xoPkg, "S.Solve").Pos(), "%s", orElse(why, "locks are released on every path"))
	hc, why := locks("S.Copy", S)
	r.Ob("locks", "Copy", why == "", P.Func(xoPkg, "S.Copy").Pos(), "%s", orElse(why, "locks are released on every path"))
	run := ""
	for _, n := range sortedKeys(hs) {
		if hc[n] {
			run = n
		}
	}
	r.Ob("locks", "Copy excludes Solve", run != "", P.Func(xoPkg, "S.Copy").Pos(), "a solve holds %v, a copy %v", sortedKeys(hs), sortedKeys(hc))
	for n := range hc {
		if n != run && hs[n] {
			r.Ob("locks", "Copy while paused", false, P.Func(xoPkg, "S.Copy").Pos(), "a copy takes two locks which a solve holds; a pause releases only one")
		}
	}
	return run
}

// touchesLocks tells whether a function may use locks or the handle.
func touchesLocks(P *Prog, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if strings.HasPrefix(g.String(), "(*sync.") {
					return true
				}
				if P.inRepo(g) && touchesLocks(P, g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// op judges an operation of the handle.
func (w *chanWorld) op(n, run string) {
	r, P, e := w.r, w.P, w.e
	fn := P.Func(xoPkg, "Ctl."+n)
	r.Fn(fn)
	args := []V{e.h.ptr("Ctl")}
	d := linSym(&Sym{id: "duration"})
	if n == "Try" {
		args = append(args, d)
	}
	paths := 0
	timed := false
	for _, o := range e.E.Run(newState(), fn, args, nil) {
		name := fmt.Sprintf("%s: path %d", n, paths+1)
		if o.Kind == "back" {
			r.Ob("result", name, false, fn.Pos(), "it may not end")
		}
		if o.Kind != "return" {
			continue
		}
		paths++
		except := ""
		if n == "Pause" || n == "Unpause" {
			except = run
		}
		lw := balanced(o.St.events, except)
		r.Ob("locks", name, lw == "", fn.Pos(), "%s", orElse(lw, "locks are released"))
		// the exchanges
		var ops []Event
		for _, ev := range o.St.events {
			switch ev.Kind {
			case "recv", "send", "select", "poll", "default", "close", "go":
				ops = append(ops, ev)
			case "lock", "unlock":
				if string(ev.Args[0].(Strv)) == run {
					ops = append(ops, ev)
				}
			}
		}
		var results []V
		why := ""
		stopped, paused, gotTimer, polled := false, false, false, false
		var alts Tuple
		for i, ev := range ops {
			if why != "" {
				break
			}
			inSel := i > 0 && (ops[i-1].Kind == "select" || ops[i-1].Kind == "poll")
			switch ev.Kind {
			case "select", "poll":
				alts = ev.Args[1].(Tuple)
				polled = polled || ev.Kind == "poll"
			case "default":
			case "recv":
				switch w.role(ev.Args[0]) {
				case "result":
					results = append(results, ev.Args[1])
				case "timer":
					gotTimer = true
				case "control":
					if n != "Unpause" {
						why = "it takes a request meant for the solver"
					} else if inSel || i != 1 || ops[0].Kind != "lock" {
						why = "the solver is resumed before its lock is taken"
					}
				default:
					why = fmt.Sprintf("it waits for %v", ev.Args[0])
				}
			case "send":
				if w.role(ev.Args[0]) != "control" {
					why = fmt.Sprintf("it sends to %v", ev.Args[0])
					break
				}
				if !inSel || !hasAlt(alts, "recv "+w.result) {
					why = "a request is sent although the solve may just have ended: it would wait for ever"
					break
				}
				if ops[i-1].Kind == "poll" {
					why = "a request is dropped when the solver does not look"
					break
				}
				switch ev.Args[1] {
				case V(Boolv(true)):
					stopped = true
				case V(Boolv(false)):
					paused = true
				default:
					why = fmt.Sprintf("it requests %v", ev.Args[1])
				}
			case "unlock":
				if n != "Pause" || !paused {
					why = "the lock of the solver is released although it is not paused"
				}
			case "lock":
				if n != "Unpause" {
					why = "it takes the lock of a solve which may run"
				}
			default:
				why = "it does something else: " + ev.Kind
			}
		}
		if n == "Unpause" {
			if why == "" && (len(ops) != 2 || ops[0].Kind != "lock" || ops[1].Kind != "recv" || w.role(ops[1].Args[0]) != "control") {
				why = "it does not take the lock and then resume the solver"
			}
			r.Ob("pause", name, why == "", fn.Pos(), "%s", orElse(why, "the lock is taken, then the solver is resumed"))
			continue
		}
		ret, _ := o.Ret[0].(Lin)
		second := V(nil)
		if len(o.Ret) > 1 {
			second = o.Ret[1]
		}
		switch {
		case why != "":
		case len(results) > 1:
			why = "it waits for a second result"
		case len(results) == 1 && !sameV(o.Ret[0], results[0]):
			why = fmt.Sprintf("it received a result and returns %v", o.Ret[0])
		case len(results) == 0 && (!ret.isConst() || ret.c != 0 || ret.t != nil):
			why = fmt.Sprintf("it returns %v without a result", o.Ret[0])
		}
		if why == "" {
			switch n {
			case "Stop", "Wait", "Try":
				switch {
				case len(results) == 0:
					why = "it returns before the solve has ended"
				case paused:
					why = "it pauses the solver"
				case stopped && n == "Wait", stopped && n == "Try" && !gotTimer:
					why = "it stops the solver too early"
				case n == "Try" && gotTimer && !stopped && len(ops) > 4:
					why = ""
				}
				if n == "Stop" && why == "" {
					// the request is one of the possibilities of the first wait
					if len(ops) == 0 || ops[0].Kind != "select" || !hasAlt(ops[0].Args[1].(Tuple), "send "+w.ctl) {
						why = "the solver is not asked to stop"
					}
				}
				if n == "Try" && why == "" {
					if ts := evsOf(o.St.events, "timer"); len(ts) == 0 || !sameV(ts[0].Args[0], d) {
						why = "it does not wait as long as it is told"
					} else if len(ops) == 0 || ops[0].Kind != "select" || !hasTimer(w, ops[0].Args[1].(Tuple)) || !hasAlt(ops[0].Args[1].(Tuple), "recv "+w.result) {
						why = "it does not wait for both the result and the end of the time"
					} else if gotTimer {
						timed = true
						// then it must stop the solver
						var sel []Event
						for _, ev := range ops {
							if ev.Kind == "select" {
								sel = append(sel, ev)
							}
						}
						if len(sel) < 2 || !hasAlt(sel[len(sel)-1].Args[1].(Tuple), "send "+w.ctl) {
							why = "the solver is not asked to stop when the time is over"
						}
					}
				}
			case "Test":
				switch {
				case !polled || stopped || paused:
					why = "it does not only look whether the result is there"
				case second != V(Boolv(len(results) == 1)):
					why = fmt.Sprintf("it says done: %v with %d results", second, len(results))
				}
			case "Pause":
				un := 0
				for _, ev := range ops {
					if ev.Kind == "unlock" {
						un++
					}
				}
				switch {
				case stopped:
					why = "it stops the solver"
				case paused && second != V(Boolv(true)), len(results) == 1 && second != V(Boolv(false)):
					why = fmt.Sprintf("it says paused: %v", second)
				case !paused && len(results) == 0:
					why = "it neither pauses nor gives a result"
				case paused && un != 1:
					why = fmt.Sprintf("the lock of the paused solver is released %d times", un)
				}
				r.Ob("pause", name, why == "", fn.Pos(), "%s", orElse(why, "the lock is released exactly when the solver is paused"))
			}
		}
		r.Ob("result", name, why == "", fn.Pos(), "%s", orElse(why, "the result is given exactly when it was received"))
	}
	if n == "Try" {
		r.Ob("result", "Try: the time can end", timed, fn.Pos(), "no path on which the time ends")
	}
	r.Ob("result", n+" returns", paths > 0, fn.Pos(), "%d paths", paths)
}

func hasAlt(t Tuple, s string) bool {
	for _, a := range t {
		if string(a.(Strv)) == s {
			return true
		}
	}
	return false
}

func hasTimer(w *chanWorld, t Tuple) bool {
	for _, a := range t {
		if s := string(a.(Strv)); strings.HasPrefix(s, "recv ") && w.isTimer(Strv(s)) {
			return true
		}
	}
	return false
}

// tryStats judges the goroutine which follows a solve.
func (w *chanWorld) tryStats() {
	r, P, e := w.r, w.P, w.e
	fn := P.TryFunc(xoPkg, "Ctl.TryStats")
	if fn == nil {
		return
	}
	r.Fn(fn)
	pause, unpause := P.Func(xoPkg, "Ctl.Pause"), P.Func(xoPkg, "Ctl.Unpause")
	e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		switch f {
		case pause:
			st.seq++
			s2 := st.clone()
			v := linSym(&Sym{id: fmt.Sprintf("received by pause %d", st.seq)})
			e.log(st, "pause", lin(0), Boolv(true))
			e.log(s2, "pause", v, Boolv(false))
			return true, []Opt{{st, Tuple{lin(0), Boolv(true)}}, {s2, Tuple{v, Boolv(false)}}}
		case unpause:
			e.log(st, "unpause")
			return one1(st, Tuple{})
		}
		if f != nil && P.inRepo(f) && !touchesLocks(P, f, map[*ssa.Function]bool{}) {
			var rt types.Type = f.Signature.Results()
			if f.Signature.Results().Len() == 1 {
				rt = f.Signature.Results().At(0).Type()
			}
			if p, ok := rt.Underlying().(*types.Pointer); ok && tname(p.Elem()) != "" {
				return one1(st, Ptr{o: obj(tname(p.Elem()))})
			}
			return one1(st, e.E.Unknown(st, f.Name(), rt))
		}
		return w.call(st, ci, f, args)
	}
	defer func() { e.Next = w.call }()
	w.gofn = nil
	outs := e.E.Run(newState(), fn, []V{e.h.ptr("Ctl"), linSym(&Sym{id: "timeout"}), linSym(&Sym{id: "freq"})}, nil)
	for _, o := range outs {
		if o.Kind == "return" && len(balanced(o.St.events, "")) > 0 {
			r.Ob("locks", "TryStats", false, fn.Pos(), "%s", balanced(o.St.events, ""))
		}
	}
	if w.gofn == nil {
		return
	}
	st := w.gost.clone()
	st.events = nil
	check := func(evs []Event, ends bool) string {
		paused := false
		var res V
		sent := map[string]bool{}
		closed := false
		for _, ev := range evs {
			switch ev.Kind {
			case "pause":
				if paused {
					return "a paused solver is paused again"
				}
				if ev.Args[1] == V(Boolv(true)) {
					paused = true
				} else {
					res = ev.Args[0]
				}
			case "unpause":
				if !paused {
					return "a running solver is resumed"
				}
				paused = false
			case "recv":
				if w.role(ev.Args[0]) == "result" {
					if res != nil {
						return "it waits for a second result"
					}
					res = ev.Args[1]
				}
			case "send":
				sent[ev.Args[1].String()] = true
				if closed {
					return "it sends after it closed"
				}
			case "close":
				if closed {
					return "it closes twice"
				}
				closed = true
			}
		}
		switch {
		case paused:
			return "the solver stays paused"
		case res != nil && !ends:
			return "it goes on after the result"
		case ends && !closed:
			return "it ends without closing"
		case !ends && closed:
			return "it goes on after closing"
		}
		if res != nil {
			for s := range sent {
				if strings.Contains(s, res.String()) {
					return ""
				}
			}
			return "the result is not given"
		}
		return ""
	}
	i := 0
	g := w.gofn
	r.Fn(g)
	seen := map[string]bool{}
	note := func(why string) {
		i++
		if why == "" || !seen[why] {
			r.Ob("stats", fmt.Sprintf("TryStats: path %d", i), why == "", g.Pos(), "%s", orElse(why, "pauses are ended, and the result is given"))
		}
		seen[why] = true
	}
	e.recs = map[string][]*bodyRec{}
	for _, o := range e.E.Run(st, g, w.goargs, w.gobind) {
		if o.Kind == "return" {
			note(check(o.St.events, true))
		}
	}
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			note(check(b.evs, false))
		}
	}
}
