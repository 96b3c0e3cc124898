package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Level: "other",
		Rule: "Every path of one request through the server's loop, for each request there is and any state of the last solve, and every path of each of the client's calls, is followed from the source with the words read and written, the operations of the solver and the channels as events. What the server reads, asks of the solver and answers must be what the request calls for, it must refuse exactly the requests which are out of order or about a result there is not, and send all it wrote before it waits; what the client writes and reads must be the same conversation seen from its side; truth values are packed and unpacked bit by bit, by remainders modulo 32; lists, the greeting, the codes, the life of a connection, and the handle of a solve in the background are judged the same way.",
		Run:  runC09})
}

const errConn = "uniq:a failed connection"

// crispWorld follows one end of a CRISP connection, with what is read and
// written as events.
type crispWorld struct {
	r      *Report
	P      *Prog
	e      *emitter
	points map[string]int64
	first  V               // the request which is read first
	outer  *ssa.BasicBlock // the first loop
	count  bool            // the first word read is a number, others are bits
	bits   bool            // loops which pack bits are followed bit by bit
	More   func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt)
}

func newCrisp(r *Report) *crispWorld {
	P := r.P
	w := &crispWorld{r: r, P: P, e: newObserver(P), points: map[string]int64{}}
	e := w.e
	prim := map[*ssa.Function]string{}
	e.E.NoMods = map[*ssa.Function]bool{}
	for _, n := range []string{"readu32", "writeu32", "flush", "send", "recv"} {
		fn := P.Func("crisp", "vu32io."+n)
		prim[fn] = n
		e.E.NoMods[fn] = true
	}
	gini := P.Type("", "Gini")
	ms := P.SSA.MethodSets.MethodSet(types.NewPointer(gini))
	ops := map[*ssa.Function]string{P.Func("", "New"): "New"}
	for i := 0; i < ms.Len(); i++ {
		if fn := P.SSA.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
			ops[fn] = fn.Name()
		}
	}
	for fn := range ops {
		e.E.NoMods[fn] = true
	}
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if w.More != nil {
			if ok, os := w.More(st, ci, fn, args); ok {
				return ok, os
			}
		}
		if n := prim[fn]; fn != nil && n != "" {
			return true, w.io(st, n, args[1:])
		}
		if n := ops[fn]; fn != nil && n != "" {
			if fn.Signature.Recv() != nil {
				args = args[1:]
			}
			return true, w.gini(st, n, fn, args)
		}
		return w.ext(st, ci, fn, args)
	}
	e.E.Havoc = w.havoc(e.E.Havoc)
	enter := e.E.Enter
	e.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		if w.outer == nil {
			w.outer = hdr
		}
		f := enter(st, hdr, blocks)
		return func(s *State) {
			s.unkeep("residue:" + hdr.Parent().String() + hdr.String())
			f(s)
		}
	}
	e.E.MapSet = func(st *State, m, k, v V, pos token.Pos) { e.log(st, "mapset", m, k, v) }
	e.E.Lookup = func(st *State, in *ssa.Lookup, m, k V) (bool, []Opt) {
		if !in.CommaOk {
			b, ok := in.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsBoolean == 0 {
				return false, nil
			}
		}
		_, os := opts(st, V(Boolv(true)), V(Boolv(false)))
		for i, o := range os {
			e.log(o.st, "lookup", k, o.v)
			if in.CommaOk {
				os[i].v = Tuple{Top{}, o.v}
			}
		}
		return true, os
	}
	sc := P.Func("crisp", "Handler.Crisp").Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && (isNamed(c.Type(), "crisp", "ProtoPoint") || isNamed(c.Type(), "crisp", "ProtoErr")) {
			if i, ok := constInt(c.Val()); ok {
				w.points[n] = i
			}
		}
	}
	return w
}

// io is a primitive of the connection.
func (w *crispWorld) io(st *State, n string, args []V) []Opt {
	e := w.e
	bad := st.clone()
	e.log(bad, "fail", Strv(n))
	err := V(Tag{errConn})
	st.seq++
	part := V(Nilv{})
	if n == "recv" {
		part = Slice{obj(fmt.Sprintf("part%d", st.seq)), Lin{}, linSym(&Sym{id: fmt.Sprintf("len(part%d)", st.seq), lo: i64(0)}), linSym(&Sym{id: fmt.Sprintf("cap(part%d)", st.seq), lo: i64(0)})}
	}
	switch n {
	case "readu32":
		v := V(linSym(&Sym{id: fmt.Sprintf("word#%d", st.seq), lo: i64(0), hi: i64(1<<32 - 1)}))
		if w.first != nil && len(evsOf(st.events, "r")) == 0 {
			v = w.first
		}
		if w.count {
			if len(evsOf(st.events, "r")) == 0 {
				v = linSym(&Sym{id: "the number of words", lo: i64(0), hi: i64(1 << 26)})
			} else {
				v = inputBits(32, 512+32, 32)
			}
		}
		e.log(st, "r", v)
		return []Opt{{st, Tuple{v, Nilv{}}}, {bad, Tuple{lin(0), err}}}
	case "recv":
		o := obj(fmt.Sprintf("list%d", st.seq))
		v := Slice{o, Lin{}, linSym(&Sym{id: "len(" + o.id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + o.id + ")", lo: i64(0)})}
		if w.bits {
			var os []Opt
			for _, x := range word32(st, "q("+o.id+")") {
				v := Slice{o, Lin{}, x.v, x.v}
				e.log(x.st, "rlist", args[0], v)
				os = append(os, Opt{x.st, Tuple{v, Nilv{}}})
			}
			return append(os, Opt{bad, Tuple{part, err}})
		}
		e.log(st, "rlist", args[0], v)
		return []Opt{{st, Tuple{v, Nilv{}}}, {bad, Tuple{part, err}}}
	case "writeu32":
		e.log(st, "w", args[0])
	case "send":
		e.log(st, "wlist", args[0])
	case "flush":
		e.log(st, "flush")
	}
	return []Opt{{st, Nilv{}}, {bad, err}}
}

// gini is an operation of the solver.
func (w *crispWorld) gini(st *State, n string, fn *ssa.Function, args []V) []Opt {
	w.e.log(st, "g", append([]V{Strv(n)}, args...)...)
	st.seq++
	id := fmt.Sprintf("%s#%d", n, st.seq)
	switch n {
	case "Value":
		_, os := opts(st, Boolv(true), Boolv(false))
		for _, o := range os {
			w.e.log(o.st, "value", args[0], o.v)
		}
		return os
	case "MaxVar":
		os := []Opt{{st, linSym(&Sym{id: "the largest variable", lo: i64(0), hi: i64(1 << 30)})}}
		if w.bits && len(evsOf(st.events, "rlist")) == 0 {
			os = word32(st, "q(the largest variable)")
		}
		for _, o := range os {
			w.e.log(o.st, "maxvar", o.v)
		}
		return os
	case "Assume":
		// one by one, or a list
		if s, ok := args[0].(Slice); ok {
			if n, ok := s.len.(Lin); ok && n.isConst() && n.c <= 8 {
				var ms []V
				for i := int64(0); i < n.c; i++ {
					q := Ptr{s.o, []pe{{f: -1, idx: s.off.add(lin(i), 1)}}}
					t := fn.Signature.Params().At(0).Type().(*types.Slice).Elem()
					ms = append(ms, w.e.E.load(st, q, "elem:"+t.String(), t)[0].v)
				}
				w.e.log(st, "assume", ms...)
			}
		}
		return []Opt{{st, Tuple{}}}
	case "GoSolve":
		return []Opt{{st, Iface{v: Ptr{o: obj("solve")}}}}
	case "New":
		return []Opt{{st, Ptr{o: obj(id)}}}
	case "Why":
		o := obj("why")
		return []Opt{{st, Slice{o, Lin{}, linSym(&Sym{id: "len(why)", lo: i64(0)}), linSym(&Sym{id: "cap(why)", lo: i64(0)})}}}
	}
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return []Opt{{st, Tuple{}}}
	case 1:
		return []Opt{{st, mkUnknown(id, res.At(0).Type())}}
	}
	return []Opt{{st, mkUnknown(id, res)}}
}

func (w *crispWorld) ext(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e := w.e
	n := calleeName(ci, fn)
	switch {
	case strings.HasPrefix(n, "log."):
		return one1(st, Tuple{})
	case n == "sync/atomic.LoadInt32":
		return one1(st, lin(0))
	case n == "fmt.Errorf" || n == "errors.New":
		return one1(st, Tag{"uniq:a report"})
	case n == ".Close":
		e.log(st, "close")
		return one1(st, Nilv{})
	case n == ".Test":
		_, os := opts(st, V(Tuple{lin(1), Boolv(true)}), V(Tuple{lin(-1), Boolv(true)}), V(Tuple{lin(0), Boolv(false)}))
		for _, o := range os {
			e.log(o.st, "test", o.v.(Tuple)...)
		}
		return true, os
	case n == ".Stop":
		_, os := opts(st, lin(1), lin(-1), lin(0))
		for _, o := range os {
			e.log(o.st, "stop", o.v)
		}
		return true, os
	}
	return false, nil
}

func runC09(r *Report) {
	w := newCrisp(r)
	w.codes()
	w.greets()
	w.lists()
	w.server()
	w.connection()
	w.client()
	w.handle()
	w.loads()
	r.Floor("server", 100)
	r.Floor("client", 40)
}

// codes judges the codes of requests, answers and errors.
func (w *crispWorld) codes() {
	r := w.r
	pos := w.P.Func("crisp", "ProtoPoint.String").Pos()
	seen := map[int64]string{}
	var ns []string
	for n := range w.points {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		v := w.points[n]
		if n == "Top" || n == "MinProto" || n == "NumExtProtos" || strings.HasPrefix(n, "Err") {
			continue
		}
		r.Ob("codes", n, seen[v] == "" && v >= w.points["MinProto"] && v < 1<<32, pos, "%#x %s", v, orElse(seen[v], "is no literal and no other code"))
		seen[v] = n
	}
	r.Floor("codes", 15)
}

// the part of a path which belongs to the last request, and how it began.
type request struct {
	o       Outcome
	evs     []Event
	running V // whether a solve was running: nil if it was not looked at
	proto   V
	last    V
}

// entry gives what a field was when it was first looked at.
func entry(evs []Event, name string) V {
	for _, ev := range evs {
		switch ev.Kind {
		case "entry":
			if ev.Args[0] == V(Strv(name)) {
				return ev.Args[1]
			}
		case "fset":
			if ev.Args[0] == V(Strv(name)) {
				return nil
			}
		}
	}
	return nil
}

// last gives what a field was last set to.
func lastSet(evs []Event, name string) V {
	var v V
	for _, ev := range evs {
		if ev.Kind == "fset" && ev.Args[0] == V(Strv(name)) {
			v = ev.Args[1]
		}
	}
	return v
}

// wire is what passes on the connection.
func wire(evs []Event) []Event {
	var r []Event
	for _, ev := range evs {
		switch ev.Kind {
		case "r", "w", "rlist", "wlist", "flush", "fail":
			r = append(r, ev)
		}
	}
	return r
}

func noFlush(evs []Event) []Event {
	var r []Event
	for _, ev := range evs {
		if ev.Kind != "flush" {
			r = append(r, ev)
		}
	}
	return r
}

func isNum(v V, n int64) bool { return sameV(v, lin(n)) }

func isW(ev Event, n int64) bool { return ev.Kind == "w" && isNum(ev.Args[0], n) }

func isNilV(v V) bool {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	_, ok := v.(Nilv)
	return ok
}

// unequal tells whether two numbers are known different.
func (w *crispWorld) unequal(st *State, v V, n int64) bool {
	l, ok := v.(Lin)
	if !ok {
		return false
	}
	d := l.add(lin(n), -1)
	if d.isConst() {
		return d.c != 0
	}
	s := w.e.E.sign(st, d)
	return s == "+" || s == "-" || st.notZero(d)
}

// flushed tells whether everything is sent before an answer is awaited.
func flushed(evs []Event) bool {
	pending := false
	for _, ev := range evs {
		switch ev.Kind {
		case "w", "wlist":
			pending = true
		case "flush":
			pending = false
		case "r", "rlist":
			if pending {
				return false
			}
		}
	}
	return true
}

// failed judges a path on which the connection fails.
func failedPath(o Outcome, evs []Event, err int) string {
	after := false
	for _, ev := range evs {
		switch ev.Kind {
		case "fail":
			after = true
		case "r", "w", "rlist", "wlist", "flush":
			if after {
				return "it goes on after the connection failed"
			}
		}
	}
	switch {
	case o.Kind != "return":
		return "it goes on after the connection failed"
	case isNilV(o.Ret[err]):
		return "the failure of the connection is not reported"
	}
	return ""
}

func hasFail(evs []Event) bool { return len(evsOf(evs, "fail")) > 0 }

// served are the requests, with whether a solve must be running ("running"),
// must not ("idle"), or has to be finished with a result ("sat", "unsat").
var served = []struct{ name, when string }{
	{"Key", "idle"}, {"Add", "idle"}, {"Assume", "idle"}, {"Solve", "idle"}, {"Ext", "idle"},
	{"Continue", "running"}, {"End", "running"},
	{"Model", "sat"}, {"ModelFor", "sat"}, {"Failed", "unsat"}, {"FailedFor", "unsat"},
	{"Reset", ""}, {"Quit", ""}, {"", "never"},
}

func (w *crispWorld) server() {
	r, P, e := w.r, w.P, w.e
	fn := P.Func("crisp", "Handler.Crisp")
	hello := P.Func("crisp", "Handler.Hello")
	r.Fn(fn)
	base := e.E.Load
	defer func() { e.E.Load = base; w.More = nil }()
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		c := cellName(p, key)
		var os []Opt
		switch c {
		case "Handler.solveConn":
			_, os = opts(st, Nilv{}, V(Iface{v: Ptr{o: obj("solve")}}))
		case "Handler.conn":
			return one1(st, Iface{v: Ptr{o: obj("conn")}})
		case "Handler.trace":
			return one1(st, Unk{"trace"})
		case "Handler.ms":
			return one1(st, Slice{obj("Handler.ms"), Lin{}, Lin{}, linSym(&Sym{id: "cap(Handler.ms)", lo: i64(0)})})
		default:
			ok, os := base(st, p, key, t)
			if c == "Handler.proto" || c == "Handler.lastRes" {
				for _, o := range os {
					e.log(o.st, "entry", Strv(c), o.v)
				}
			}
			return ok, os
		}
		for _, o := range os {
			e.log(o.st, "entry", Strv(c), o.v)
		}
		return true, os
	}
	w.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f == hello && f != nil {
			e.log(st, "hello")
			return one1(st, Nilv{})
		}
		return false, nil
	}
	e.E.NoMods[hello] = true
	for _, s := range served {
		w.first, w.outer = nil, nil
		if s.name != "" {
			w.first = lin(w.points[s.name])
		}
		w.bits = s.name == "Model" || s.name == "ModelFor"
		w.recs(func() {
			n := 0
			for _, o := range e.E.Run(newState(), fn, []V{e.h.ptr("Handler")}, nil) {
				q, ok := w.cut(o)
				if !ok {
					continue
				}
				n++
				why := w.request(q, s.name, s.when)
				r.Ob("server", fmt.Sprintf("%s path %d", orElse(s.name, "anything else"), n), why == "", fn.Pos(), "%s", orElse(why, "is served or refused as it has to be"))
			}
			r.Ob("server", fmt.Sprintf("%s is served", orElse(s.name, "anything else")), n >= 2, fn.Pos(), "%d paths", n)
		})
	}
	w.first, w.bits = nil, false
}

// recs runs f with its own loop records.
func (w *crispWorld) recs(f func()) {
	old := w.e.recs
	w.e.recs = map[string][]*bodyRec{}
	f()
	w.e.recs = old
}

// cut takes the last request of a path.
func (w *crispWorld) cut(o Outcome) (request, bool) {
	if o.Kind == "back" && o.Hdr != w.outer {
		return request{}, false
	}
	for i, ev := range o.St.events {
		if ev.Kind == "loop" {
			evs := o.St.events[i+1:]
			return request{o: o, evs: evs, running: entry(evs, "Handler.solveConn"), proto: entry(evs, "Handler.proto"), last: entry(evs, "Handler.lastRes")}, true
		}
	}
	return request{}, false
}

// refused tells whether a request is refused, with which reason, and what is
// wrong with it.
func (w *crispWorld) refused(q request) (bool, V, string) {
	ws := wire(q.evs)
	for i, ev := range ws {
		if !isW(ev, w.points["Error"]) {
			continue
		}
		switch {
		case len(ws) != i+3 || ws[i+1].Kind != "w" || ws[i+2].Kind != "flush":
			return true, nil, "the error is not sent"
		case q.o.Kind != "return" || isNilV(q.o.Ret[0]):
			return true, nil, "it goes on after an error"
		case len(evsOf(q.evs, "close")) == 0:
			return true, nil, "the connection is not closed after an error"
		}
		if q.running != nil && !isNilV(q.running) && len(evsOf(q.evs, "stop")) != 1 {
			return true, nil, "the running solve is left alone"
		}
		return true, ws[i+1].Args[0], ""
	}
	return false, nil, ""
}

func (w *crispWorld) request(q request, name, when string) string {
	evs := q.evs
	st := q.o.St
	if when == "never" && len(wire(evs)) > 0 {
		for _, s := range served {
			if s.name != "" && isNum(wire(evs)[0].Args[0], w.points[s.name]) {
				return ""
			}
		}
	}
	if q.o.Kind == "panic" {
		return "it may panic"
	}
	if hasFail(evs) {
		return failedPath(q.o, evs, 0)
	}
	if !flushed(wire(evs)[1:]) && name != "ModelFor" {
		return "it waits without having sent what it wrote"
	}
	idle := q.running != nil && isNilV(q.running)
	running := q.running != nil && !isNilV(q.running)
	no, code, why := w.refused(q)
	if why != "" {
		return why
	}
	code1 := func(n string) string {
		if !isNum(code, w.points[n]) {
			return fmt.Sprintf("it is refused with %v", code)
		}
		return ""
	}
	solved := func(res int64) string {
		last := w.e.E.eqLin(st, q.last, lin(res))
		if no {
			switch {
			case running || q.proto != nil && w.unequal(st, q.proto, w.points["Solve"]):
				return code1("ErrOutOfOrder")
			case q.last != nil && w.unequal(st, q.last, res):
				return code1(map[int64]string{1: "ErrNotSat", -1: "ErrNotUnsat"}[res])
			}
			return "it may be refused without a reason"
		}
		if !idle || q.proto == nil || !w.e.E.eqLin(st, q.proto, lin(w.points["Solve"])) || q.last == nil || !last {
			return "it may be served although there is no such result"
		}
		return ""
	}
	switch when {
	case "never":
		if !no {
			return fmt.Sprintf("%v is not refused", wire(evs)[0].Args[0])
		}
		return code1("ErrUnknownOp")
	case "idle":
		if no {
			if running {
				return code1("ErrOutOfOrder")
			}
			if name == "Add" {
				return w.addEnd(q, code)
			}
			return "it may be refused without a reason"
		}
		if !idle {
			return "it is served while a solve is running"
		}
	case "running":
		if no {
			if idle {
				return code1("ErrOutOfOrder")
			}
			return "it may be refused without a reason"
		}
		if !running {
			return "it is served although no solve is running"
		}
	case "sat":
		if why := solved(1); why != "" || no {
			return why
		}
	case "unsat":
		if why := solved(-1); why != "" || no {
			return why
		}
	default:
		if no {
			return "it may be refused without a reason"
		}
	}
	if name == "Quit" {
		if q.o.Kind != "return" || !isNilV(q.o.Ret[0]) || len(wire(evs)) != 1 {
			return "it does not just end"
		}
		return ""
	}
	if q.o.Kind == "return" {
		return "the connection ends"
	}
	// what is known about the solve afterwards
	proto := lastSet(evs, "Handler.proto")
	switch name {
	case "Solve":
		if !isNum(proto, w.points["Solve"]) {
			return fmt.Sprintf("the last request is taken as %v", proto)
		}
	case "Key", "Add", "Assume", "Reset":
		if proto == nil || !w.unequal(st, proto, w.points["Solve"]) {
			return "a result may be asked for after it"
		}
	case "Ext":
		if proto != nil && isNum(proto, w.points["Solve"]) {
			return "a result may be asked for after it"
		}
	default:
		if proto != nil && !isNum(proto, w.points["Solve"]) {
			return "no result can be asked for after it"
		}
	}
	if m, ok := lastSet(evs, "Handler.ms").(Slice); ok && !sameV(m.len, Lin{}) {
		return fmt.Sprintf("the list of literals is left with %v of them", m.len)
	}
	for _, ev := range evs {
		if ev.Kind == "rlist" {
			if s, ok := ev.Args[0].(Slice); !ok && !isNilV(ev.Args[0]) || ok && !sameV(s.len, Lin{}) {
				return fmt.Sprintf("literals are added to %v", ev.Args[0])
			}
		}
	}
	return w.serve(q, name)
}

// addEnd judges the end of a list of clauses.
func (w *crispWorld) addEnd(q request, code V) string {
	rs := evsOf(q.evs, "r")
	l, ok := rs[len(rs)-1].Args[0].(Lin)
	if len(rs) < 2 || !ok || !w.e.E.geq0(q.o.St, l.add(lin(w.points["MinProto"]), -1)) {
		return "it may be refused without a reason"
	}
	if w.e.E.eqLin(q.o.St, l, lin(w.points["End"])) {
		return "the end is refused"
	}
	return ""
}

// ops gives the operations of the solver on a path.
func ops(evs []Event) []Event { return evsOf(evs, "g") }

func (w *crispWorld) serve(q request, name string) string {
	e := w.e
	evs, st := q.evs, q.o.St
	ws := wire(evs)[1:]
	gs := ops(evs)
	loops := evsOf(evs, "loop")
	reply := func(ws []Event, res V, end string) string {
		p := map[int64]string{1: "Sat", -1: "Unsat", 0: end}
		l, ok := res.(Lin)
		if !ok || !l.isConst() {
			return "the answer is unknown"
		}
		if len(ws) != 2 || !isW(ws[0], w.points[p[l.c]]) || ws[1].Kind != "flush" {
			return fmt.Sprintf("the answer for %v is not %s", res, p[l.c])
		}
		return ""
	}
	step := func() string {
		ts := evsOf(evs, "test")
		if len(ts) != 1 {
			return fmt.Sprintf("it looks %d times for the result", len(ts))
		}
		if why := reply(ws, ts[0].Args[0], "Unknown"); why != "" {
			return why
		}
		conn := lastSet(evs, "Handler.solveConn")
		if sameV(ts[0].Args[1], Boolv(true)) {
			if conn == nil || !isNilV(conn) {
				return "the finished solve is kept"
			}
			if v := lastSet(evs, "Handler.lastRes"); !sameV(v, ts[0].Args[0]) {
				return fmt.Sprintf("the result is kept as %v", v)
			}
			return ""
		}
		if conn != nil && isNilV(conn) {
			return "the unfinished solve is forgotten"
		}
		return ""
	}
	switch name {
	case "Key":
		if len(gs) > 0 || len(ws) != 1 || ws[0].Kind != "r" || len(loops) != 1 {
			return "it does not read a number and words"
		}
		n, _ := ws[0].Args[0].(Lin)
		k := 0
		for _, b := range e.recs[string(loops[0].Args[0].(Strv))] {
			k++
			if bw := wire(b.evs); len(bw) != 1 || bw[0].Kind != "r" {
				return "the words are not read one by one"
			}
			if !w.counted(b, st, n) {
				return fmt.Sprintf("the words read may not be %v", n)
			}
		}
		if k == 0 {
			return "the words are not read"
		}
		return ""
	case "Ext":
		if len(ws) != 2 || !isW(ws[0], 0) || ws[1].Kind != "flush" || len(gs) > 0 {
			return "the answer is not the end of the list"
		}
		return ""
	case "Add":
		if len(loops) != 1 {
			return "the literals are not read one by one"
		}
		n := 0
		for _, b := range e.recs[string(loops[0].Args[0].(Strv))] {
			n++
			rs, gs := evsOf(b.evs, "r"), ops(b.evs)
			if len(rs) != 1 || len(wire(b.evs)) != 1 || len(gs) != 1 || gs[0].Args[0] != V(Strv("Add")) || !sameV(gs[0].Args[1], rs[0].Args[0]) {
				return "a literal is not added as it was read"
			}
			if l, ok := rs[0].Args[0].(Lin); !ok || !e.E.geq0(b.st, lin(w.points["MinProto"]-1).add(l, -1)) {
				return "something which is no literal is added"
			}
		}
		ends := evsOf(evs, "r")
		if n == 0 || !e.E.eqLin(st, ends[len(ends)-1].Args[0], lin(w.points["End"])) || len(ws) != 1 || len(gs) > 0 {
			return "it does not end with the end mark"
		}
		return ""
	case "Assume":
		if len(ws) != 1 || ws[0].Kind != "rlist" {
			return "the literals are not read"
		}
		list, _ := ws[0].Args[1].(Slice)
		if len(loops) == 0 {
			if len(gs) == 1 && gs[0].Args[0] == V(Strv("Assume")) && sameV(gs[0].Args[1], list) {
				return ""
			}
			return "the literals are not assumed"
		}
		if len(loops) != 1 || len(gs) > 0 {
			return "the literals are not assumed one by one"
		}
		n := 0
		for _, b := range e.recs[string(loops[0].Args[0].(Strv))] {
			n++
			o, i, v := over(b, list.o.id)
			if o == "" {
				return "it does not go through the literals"
			}
			if why := e.covers(st, b, i, list.len); why != "" {
				return why
			}
			as := evsOf(b.evs, "assume")
			if len(as) != 1 || len(as[0].Args) != 1 || !sameV(as[0].Args[0], v) {
				return "a literal is not assumed as it was read"
			}
		}
		if n == 0 {
			return "the literals are not assumed"
		}
		return ""
	case "Solve":
		if len(gs) != 1 || gs[0].Args[0] != V(Strv("GoSolve")) {
			return "no solve is started"
		}
		if c := entrySet(evs, "Handler.solveConn"); c == nil || isNilV(c) {
			return "the solve is not kept"
		}
		return step()
	case "Continue":
		if len(gs) > 0 {
			return "it does something else"
		}
		return step()
	case "End":
		ss := evsOf(evs, "stop")
		if len(ss) != 1 || len(gs) > 0 {
			return "the solve is not stopped"
		}
		if c := lastSet(evs, "Handler.solveConn"); c == nil || !isNilV(c) {
			return "the stopped solve is kept"
		}
		if v := lastSet(evs, "Handler.lastRes"); !sameV(v, ss[0].Args[0]) {
			return fmt.Sprintf("the result is kept as %v", v)
		}
		return reply(ws, ss[0].Args[0], "End")
	case "Reset":
		if q.running == nil {
			return "it does not look whether a solve is running"
		}
		if !isNilV(q.running) {
			if len(evsOf(evs, "stop")) != 1 {
				return "the running solve is left alone"
			}
			if c := lastSet(evs, "Handler.solveConn"); c == nil || !isNilV(c) {
				return "the stopped solve is kept"
			}
		}
		if len(ws) > 0 || len(gs) != 1 || gs[0].Args[0] != V(Strv("New")) || lastSet(evs, "Handler.gini") == nil {
			return "it does not begin with a new solver"
		}
		return ""
	case "Failed":
		if len(gs) != 1 || gs[0].Args[0] != V(Strv("Why")) || len(ws) != 2 || ws[0].Kind != "wlist" || ws[1].Kind != "flush" {
			return "the failed literals are not sent"
		}
		if s, ok := ws[0].Args[0].(Slice); !ok || s.o.id != "why" || !sameV(s.off, Lin{}) || !sameV(s.len, whyLen()) {
			return fmt.Sprintf("%v is sent", ws[0].Args[0])
		}
		return ""
	case "FailedFor":
		return w.failedFor(q, ws, gs)
	case "Model":
		return w.model(q, ws, nil)
	case "ModelFor":
		if len(ws) == 0 || ws[0].Kind != "rlist" {
			return "the literals are not read"
		}
		list, _ := ws[0].Args[1].(Slice)
		return w.model(q, ws[1:], &list)
	}
	return ""
}

// counted tells whether a loop runs exactly n times.
func (w *crispWorld) counted(b *bodyRec, after *State, n Lin) bool {
	e := w.e.E
	for phi, nv := range b.phis {
		l, ok := b.st.top().env[phi].(Lin)
		nx, ok2 := nv.(Lin)
		f, ok3 := firstOf(b.st, l)
		if !ok || !ok2 || !ok3 {
			continue
		}
		up := e.eqLin(b.st, nx, l.add(lin(1), 1)) && e.eqLin(b.st, f, lin(0)) && e.geq0(b.st, n.add(l, -1).add(lin(-1), 1)) && e.geq0(after, l.add(n, -1))
		down := e.eqLin(b.st, nx, l.add(lin(-1), 1)) && e.eqLin(b.st, f, n) && e.geq0(b.st, l.add(lin(-1), 1)) && e.geq0(after, l.scale(-1))
		if up || down {
			return true
		}
	}
	return false
}

func whyLen() Lin { return linSym(&Sym{id: "len(why)", lo: i64(0)}) }

// entrySet is the first value a field is set to.
func entrySet(evs []Event, name string) V {
	for _, ev := range evs {
		if ev.Kind == "fset" && ev.Args[0] == V(Strv(name)) {
			return ev.Args[1]
		}
	}
	return nil
}

// failedFor judges the selection of failed literals.
func (w *crispWorld) failedFor(q request, ws, gs []Event) string {
	e, st := w.e, q.o.St
	if len(gs) != 1 || gs[0].Args[0] != V(Strv("Why")) {
		return "the failed literals are not asked for once"
	}
	if len(ws) != 3 || ws[0].Kind != "rlist" || ws[1].Kind != "wlist" || ws[2].Kind != "flush" {
		return "no list is answered"
	}
	list, _ := ws[0].Args[1].(Slice)
	out, ok := ws[1].Args[0].(Slice)
	if !ok || !sameV(out.off, Lin{}) {
		return fmt.Sprintf("%v is sent", ws[1].Args[0])
	}
	// the buffers must not be shared while they are in use
	bufOf := func(v V) string {
		if s, ok := v.(Slice); ok {
			return s.o.id
		}
		return ""
	}
	shared := bufOf(gs[0].Args[1]) != "" && bufOf(gs[0].Args[1]) == bufOf(ws[0].Args[0])
	phase := 0
	why := ""
	set, sel := false, false
	for _, ev := range q.evs {
		switch ev.Kind {
		case "g":
			if phase |= 1; phase&2 != 0 && shared {
				return "the failed literals overwrite those asked about"
			}
		case "rlist":
			phase |= 2
		case "loop":
			for _, b := range e.recs[string(ev.Args[0].(Strv))] {
				o, i, v := over(b, "why", list.o.id)
				switch o {
				case "why":
					if phase&2 != 0 && shared {
						return "the literals asked about overwrite the failed ones"
					}
					set = true
					if c := e.covers(st, b, i, whyLen()); c != "" {
						why = "of the failed literals, " + c
					}
					ms := evsOf(b.evs, "mapset")
					if len(ms) != 1 || !sameV(ms[0].Args[1], v) {
						why = "a failed literal is not noted"
					}
				case list.o.id:
					sel = true
					if c := e.covers(st, b, i, list.len); c != "" {
						why = "of the literals asked about, " + c
					}
					if c := w.selects(b, v, out); c != "" {
						why = c
					}
				default:
					return "it goes through something else"
				}
			}
		}
	}
	switch {
	case why != "":
		return why
	case !set || !sel:
		return "the literals asked about are not compared with the failed ones"
	}
	return ""
}

// selects judges an iteration which keeps a literal if it was found.
func (w *crispWorld) selects(b *bodyRec, v V, out Slice) string {
	ls := evsOf(b.evs, "lookup")
	if len(ls) != 1 || !sameV(ls[0].Args[0], v) {
		return "a literal is not looked up"
	}
	found := sameV(ls[0].Args[1], Boolv(true))
	if len(evsOf(b.evs, "mapset")) > 0 {
		return "the failed literals change while they are looked up"
	}
	ss := sets(b.evs, out.o.id)
	// the length of what is kept: a variable, or that of a slice
	l, ok := out.len.(Lin)
	var now, next Lin
	okn := false
	for phi, nv := range b.phis {
		switch hv := b.st.top().env[phi].(type) {
		case Lin:
			if n, isl := nv.(Lin); isl && ok && sameV(hv, l) {
				now, next, okn = hv, n, true
			}
		case Slice:
			if n, iss := nv.(Slice); iss && sameV(hv.len, out.len) {
				a, ok1 := hv.len.(Lin)
				c, ok2 := n.len.(Lin)
				if ok1 && ok2 {
					now, next, okn = a, c, true
				}
			}
		}
	}
	if !okn {
		return "the number of literals kept is not counted"
	}
	if f, ok := firstOf(b.st, now); ok && !w.e.E.eqLin(b.st, f, lin(0)) {
		return fmt.Sprintf("%v literals are kept before the first", f)
	}
	if !found {
		if len(ss) > 0 || !w.e.E.eqLin(b.st, next, now) {
			return "a literal which is not failed is kept"
		}
		return ""
	}
	if !w.e.E.eqLin(b.st, next, now.add(lin(1), 1)) || len(ss) != 1 || !sameV(ss[0].Args[1], now) || !sameV(ss[0].Args[2], v) {
		return "a failed literal is not kept"
	}
	return ""
}

// word32 gives a number by its quotient and remainder by 32, for each remainder.
func word32(st *State, id string) []Opt {
	q := linSym(&Sym{id: id, lo: i64(0), hi: i64(1 << 24)})
	var vs []V
	for c := int64(0); c < 32; c++ {
		vs = append(vs, q.scale(32).add(lin(c), 1))
	}
	_, os := opts(st, vs...)
	return os
}

// residue gives c for 32q+c.
func residue(v V) (Lin, int64, bool) {
	l, ok := v.(Lin)
	if !ok {
		return Lin{}, 0, false
	}
	for _, t := range l.t {
		if t.k%32 != 0 {
			return Lin{}, 0, false
		}
	}
	c := ((l.c % 32) + 32) % 32
	return l.add(lin(c), -1), c, true
}

// use tells what a loop variable is for: "index" if it selects bits, "bits" if
// bits are selected from it.
func phiUse(phi *ssa.Phi) string {
	u, _ := phiUseAt(phi)
	return u
}

// phiUseAt also gives what is added before bits are selected.
func phiUseAt(phi *ssa.Phi) (string, int64) {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return "", 0
	}
	seen := map[ssa.Value]bool{}
	use := ""
	at := int64(0)
	var walk func(v ssa.Value, off int64)
	walk = func(v ssa.Value, off int64) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch in := ref.(type) {
			case *ssa.Convert:
				walk(in, off)
			case *ssa.ChangeType:
				walk(in, off)
			case *ssa.Phi:
				if in != phi {
					walk(in, off)
				}
			case *ssa.BinOp:
				_, kx := in.X.(*ssa.Const)
				_, ky := in.Y.(*ssa.Const)
				switch in.Op {
				case token.ADD, token.SUB:
					k, isk := in.Y.(*ssa.Const)
					if in.X != v {
						k, isk = in.X.(*ssa.Const)
						isk = isk && in.Op == token.ADD
					}
					if isk && k.Value != nil {
						n, ok := constInt(k.Value)
						if in.Op == token.SUB {
							n = -n
						}
						if ok {
							walk(in, off+n)
						}
					}
				case token.REM, token.QUO:
					if in.X == v && ky {
						use, at = "index", off
					}
				case token.SHL, token.SHR:
					if in.Y == v && off == 0 {
						use, at = "index", off
					}
				case token.AND, token.AND_NOT:
					if kx || ky {
						use, at = "index", off
						continue
					}
					if use == "" {
						use = "bits"
					}
				case token.OR:
					if use == "" {
						use = "bits"
					}
				}
			}
		}
	}
	walk(phi, 0)
	return use, at
}

// havoc gives the variables of loops which pack bits.
func (w *crispWorld) havoc(base func(*State, *ssa.Phi, V) (bool, []Opt)) func(*State, *ssa.Phi, V) (bool, []Opt) {
	return func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		base(st, phi, init)
		if !w.bits {
			return false, nil
		}
		id := phi.Parent().Name() + "." + phi.Name()
		hdr := "residue:" + phi.Parent().String() + phi.Block().String()
		switch phiUse(phi) {
		case "index":
			_, at := phiUseAt(phi)
			os := word32(st, "q("+id+")")
			for k, o := range os {
				_, c, _ := residue(o.v)
				os[k].v = o.v.(Lin).add(lin(at), -1)
				for _, in := range phi.Block().Instrs {
					if p, ok := in.(*ssa.Phi); ok && phiUse(p) == "bits" && o.st.top().env[p] == V(Unk{"bits"}) {
						o.st.top().env[p] = w.atoms(w.upTo(int(c)))
					}
				}
				o.st.keep(hdr, lin(c))
			}
			return true, os
		case "bits":
			// the bits of the values before this one in its word
			if c, ok := st.kept(hdr).(Lin); ok {
				return one1(st, w.atoms(w.upTo(int(c.c))))
			}
			return one1(st, Unk{"bits"})
		}
		return false, nil
	}
}

// atoms are the bits below c.
func (w *crispWorld) atoms(n int) Bits {
	return inputBits(32, 512, n)
}

// model judges the packing of truth values.
func (w *crispWorld) model(q request, ws []Event, list *Slice) string {
	e, st := w.e, q.o.St
	if len(ws) != 2 || ws[0].Kind != "w" || ws[1].Kind != "flush" {
		return "the answer is not a number and words"
	}
	var m Lin
	if list != nil {
		m, _ = list.len.(Lin)
	} else {
		mv := evsOf(q.evs, "maxvar")
		if len(mv) == 0 {
			return "it does not ask for the number of variables"
		}
		m = mv[0].Args[0].(Lin)
	}
	up := m.add(lin(31), 1)
	_, c, _ := residue(up)
	total := up.add(lin(c), -1)
	n, ok := ws[0].Args[0].(Lin)
	if !ok || !e.E.eqLin(st, n.scale(32), total) {
		return fmt.Sprintf("for %v truth values %v words are announced", m, ws[0].Args[0])
	}
	var id string
	seenLoop := false
	for _, ev := range q.evs {
		if ev.Kind == "loop" {
			if seenLoop {
				return "the values are not sent in one loop"
			}
			seenLoop = true
			id = string(ev.Args[0].(Strv))
		}
	}
	recs := e.recs[id]
	if !seenLoop || len(recs) == 0 {
		return "no values are sent"
	}
	done := map[int64]int{}
	for _, b := range recs {
		c, why := w.packs(b, st, m, total, list)
		if why != "" {
			return why
		}
		done[c]++
	}
	for c := int64(0); c < 32; c++ {
		if done[c] == 0 {
			return fmt.Sprintf("no value with the number %d in a word is sent", c)
		}
	}
	return ""
}

// lastReadIs0 tells that a loop ends with 0 in the variable for what its iterations
// read last.
func (w *crispWorld) lastReadIs0(o Outcome) bool {
	for _, ev := range o.St.events {
		if ev.Kind != "loop" {
			continue
		}
		recs := w.e.recs[string(ev.Args[0].(Strv))]
		if len(recs) == 0 {
			continue
		}
		for phi := range recs[0].phis {
			all := true
			for _, b := range recs {
				rs := evsOf(b.evs, "r")
				// not what is left by a failure
				failed := false
				for q, nv := range b.phis {
					if _, tag := nv.(Tag); !tag {
						continue
					}
					if v := o.St.kept("phi:" + q.Parent().Name() + "." + q.Name()); v != nil && isNilV(v) {
						failed = true
					}
				}
				if failed && len(rs) == 0 {
					continue
				}
				if len(rs) == 0 || !sameV(b.phis[phi], rs[len(rs)-1].Args[0]) {
					all = false
				}
				hv, ok := o.St.kept("phi:" + phi.Parent().Name() + "." + phi.Name()).(Lin)
				if !ok || !w.e.E.eqLin(o.St, hv, lin(0)) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// packs judges one iteration of packing: value i is bit i mod 32, and a word is
// sent after its last value.
func (w *crispWorld) packs(b *bodyRec, after *State, m, total Lin, list *Slice) (int64, string) {
	e := w.e
	var i, bits, nextBits V
	why := "no variable counts the values"
	for phi, nv := range b.phis {
		hv := b.st.top().env[phi]
		init := b.st.kept("init:" + phi.Parent().Name() + "." + phi.Name())
		switch phiUse(phi) {
		case "index":
			_, at := phiUseAt(phi)
			l, ok := hv.(Lin)
			nx, ok2 := nv.(Lin)
			l, nx = l.add(lin(at), 1), nx.add(lin(at), 1)
			q, _, ok3 := residue(l)
			switch {
			case !ok || !ok2 || !ok3 || !e.E.eqLin(b.st, nx, l.add(lin(1), 1)):
				why = fmt.Sprintf("after value %v comes %v", hv, nv)
			case !isNum(init, -at):
				why = fmt.Sprintf("the first is value %v", init)
			case !e.E.geq0(after, q.add(total, -1)):
				why = fmt.Sprintf("it may end before value %v", total)
			default:
				i = l
			}
		case "bits":
			if !isNum(init, 0) {
				return 0, "the first word has bits before any value"
			}
			bits, nextBits = hv, nv
		}
	}
	if i == nil {
		return 0, why
	}
	if bits == nil {
		return 0, "the bits are not collected"
	}
	_, c, _ := residue(i)
	// what the value is
	val := bit(0)
	vs := evsOf(b.evs, "value")
	want := i.(Lin).add(lin(1), 1).scale(2)
	if list != nil {
		o, k, v := over(b, list.o.id)
		if o != "" {
			if !e.E.eqLin(b.st, k, i) {
				return c, fmt.Sprintf("for value %v, literal %v of the list is taken", i, k)
			}
			want, _ = v.(Lin)
		} else if len(vs) > 0 {
			return c, "another literal is evaluated"
		}
		if len(vs) == 0 && !e.E.geq0(b.st, i.(Lin).add(m, -1)) {
			mv := evsOf(b.evs, "maxvar")
			if o == "" || len(mv) == 0 || !w.beyond(b.st, want, mv[len(mv)-1].Args[0].(Lin)) {
				return c, fmt.Sprintf("value %v may be left out", i)
			}
		}
	} else if len(vs) == 0 && !e.E.geq0(b.st, i.(Lin).add(m, -1)) {
		return c, fmt.Sprintf("value %v may be left out", i)
	}
	if len(vs) > 1 {
		return c, "two literals are evaluated for one value"
	}
	if len(vs) == 1 {
		if !sameV(vs[0].Args[0], want) {
			return c, fmt.Sprintf("for value %v, %v is evaluated", i, vs[0].Args[0])
		}
		if sameV(vs[0].Args[1], Boolv(true)) {
			val = 1
		}
	}
	now := w.atoms(int(c))
	now.b[c] = val
	ws := wire(b.evs)
	if c < 31 {
		if len(ws) > 0 {
			return c, fmt.Sprintf("a word is sent after the value with number %d in it", c)
		}
		if !sameV(nextBits, now) {
			return c, fmt.Sprintf("the value with number %d in a word is not kept as that bit", c)
		}
		return c, ""
	}
	switch {
	case len(ws) != 1 || ws[0].Kind != "w":
		return c, "a full word is not sent"
	case !sameV(ws[0].Args[0], now):
		return c, fmt.Sprintf("the word sent is not made of its values: %v %v %v", vs, ws[0].Args[0], now)
	case !isNum(nextBits, 0):
		return c, "the next word begins with bits of the last one"
	}
	return c, ""
}

// beyond tells whether the variable of a literal is beyond max.
func (w *crispWorld) beyond(st *State, m, max Lin) bool {
	// m >= 2(max+1)
	return w.e.E.geq0(st, m.add(max.add(lin(1), 1).scale(2), -1))
}

// client judges the requests of a client.
func (w *crispWorld) client() {
	r, P, e := w.r, w.P, w.e
	base, chanh, next := e.E.Load, e.E.Chan, w.More
	defer func() { e.E.Load, e.E.Chan, w.More = base, chanh, next; w.bits, w.count, w.first = false, false, nil }()
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		c := cellName(p, key)
		var os []Opt
		switch c {
		case "Client.proto":
			_, os = opts(st, lin(w.points["Add"]), lin(w.points["Model"]))
		case "Client.lastSat":
			_, os = opts(st, lin(1), lin(0), lin(-1))
		case "Client.model":
			m := argSlice("Client.model")
			m.len = linSym(&Sym{id: "len(Client.model)", lo: i64(1)})
			_, os = opts(st, Nilv{}, V(m))
		case "Client.conn":
			return one1(st, Iface{v: Ptr{o: obj("conn")}})
		case "Client.cancel", "Client.resChan":
			return one1(st, Tag{c})
		default:
			return base(st, p, key, t)
		}
		for _, o := range os {
			e.log(o.st, "entry", Strv(c), o.v)
		}
		return true, os
	}
	e.E.Chan = func(st *State, kind string, ch V, v V, t types.Type) []Opt {
		e.log(st, kind, ch, v)
		return []Opt{{st, Tuple{Unk{"received"}, Boolv(true)}}}
	}
	e.E.OnText = func(st *State, bytes, text V) { e.log(st, "text", bytes, text) }
	for _, n := range []string{"Add", "Assume", "Solve", "Model", "ModelFor", "Why", "WhySelect", "GetExts", "Reset", "Quit", "Value", "Hello"} {
		fn := P.Func("crisp", "Client."+n)
		r.Fn(fn)
		w.bits = n == "Model" || n == "ModelFor"
		w.count = w.bits
		w.More = nil
		if n == "Value" {
			w.More = w.askModel
		}
		if n == "Hello" {
			e.E.UnrollLoop = func(f *ssa.Function, _ *ssa.BasicBlock) (bool, int) { return true, 8 }
		}
		for sign := int64(0); sign < 2; sign++ {
			args := []V{e.h.ptr("Client")}
			lits := false
			for _, p := range fn.Params[1:] {
				if isLit(p.Type()) {
					lits = true
					args = append(args, linSym(&Sym{id: "var:" + p.Name(), lo: i64(0), hi: i64(1 << 30)}).scale(2).add(lin(sign), 1))
					continue
				}
				args = append(args, argSlice("arg:"+p.Name()))
			}
			if sign > 0 && !lits {
				break
			}
			st := newState()
			for i, a := range args {
				st.keep(fmt.Sprintf("arg%d", i), a)
			}
			w.recs(func() {
				k := 0
				for _, o := range e.E.Run(st, fn, args, nil) {
					if o.Kind != "return" && o.Kind != "panic" {
						continue
					}
					k++
					var given []V
					for i := range args[1:] {
						given = append(given, o.St.kept(fmt.Sprintf("arg%d", i+1)))
					}
					why := w.asks(o, n, given)
					r.Ob("client", fmt.Sprintf("%s path %d", n, k), why == "", fn.Pos(), "%s", orElse(why, "asks and understands as it has to"))
				}
				r.Ob("client", n+" asks", k >= 2, fn.Pos(), "%d paths", k)
			})
		}
		e.E.UnrollLoop = nil
	}
}

func argSlice(id string) Slice {
	return Slice{obj(id), Lin{}, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})}
}

// asks judges a path of a request of the client.
func (w *crispWorld) asks(o Outcome, name string, args []V) string {
	e, st := w.e, o.St
	evs := st.events
	if o.Kind == "panic" {
		return "it may panic"
	}
	err := len(o.Ret) - 1
	ok := isNilV(o.Ret[err])
	if hasFail(evs) {
		if name == "Solve" && !isNum(o.Ret[0], 0) {
			return "a failure has a result"
		}
		if name == "Solve" {
			if s := lastSet(evs, "Client.lastSat"); !isNum(s, 0) {
				return fmt.Sprintf("after a failure the last result is %v", s)
			}
		}
		return failedPath(o, evs, err)
	}
	all := wire(evs)
	if !flushed(all) {
		return "it waits for an answer without having sent the request"
	}
	ws := noFlush(all)
	if name == "Hello" {
		return w.hears(o, ws, ok)
	}
	proto := entry(evs, "Client.proto")
	lastSat := entry(evs, "Client.lastSat")
	need := map[string]int64{"Model": 1, "ModelFor": 1, "Why": -1, "WhySelect": -1}
	if n, is := need[name]; is {
		if lastSat == nil {
			return "it does not look at the last result"
		}
		if !isNum(lastSat, n) {
			if ok || len(ws) > 0 {
				return fmt.Sprintf("it asks although the last result is %v", lastSat)
			}
			return ""
		}
	}
	if name == "Value" {
		return w.value(o, ws, ok, args[0].(Lin))
	}
	if name == "Assume" && len(ws) == 0 && ok {
		if n, isl := args[0].(Slice).len.(Lin); isl && e.E.eqLin(st, n, lin(0)) {
			return ""
		}
		return "it may assume nothing"
	}
	// the request
	if proto == nil {
		return "it does not look at the request before"
	}
	open := isNum(proto, w.points["Add"])
	if open && name != "Add" {
		if len(ws) == 0 || !isW(ws[0], w.points["End"]) {
			return "the clauses are not ended"
		}
		ws = ws[1:]
	}
	req := map[string]string{"Why": "Failed", "WhySelect": "FailedFor", "GetExts": "Ext"}[name]
	req = orElse(req, name)
	if !(open && name == "Add") {
		if len(ws) == 0 || !isW(ws[0], w.points[req]) {
			return "the request is not sent"
		}
		ws = ws[1:]
	}
	now := lastSet(evs, "Client.proto")
	if now == nil {
		now = proto
	}
	if isNum(now, w.points["Add"]) != (name == "Add") || !isConstV(now) {
		return fmt.Sprintf("the request is kept as %v", now)
	}
	sent := func(list V) string {
		if len(ws) == 0 || ws[0].Kind != "wlist" || !sameV(ws[0].Args[0], list) {
			return "the literals are not sent"
		}
		ws = ws[1:]
		return ""
	}
	got := func(dst V) string {
		if len(ws) != 1 || ws[0].Kind != "rlist" {
			return "it does not read a list"
		}
		in, isS := ws[0].Args[0].(Slice)
		if d := dst.(Slice); !isS || in.o.id != d.o.id || !sameV(in.off, d.off) {
			return fmt.Sprintf("the list is put in %v", ws[0].Args[0])
		}
		if !ok || !sameV(o.Ret[0], ws[0].Args[1]) {
			return "the list is not given"
		}
		return ""
	}
	maxVar := func(m Lin) string {
		v := lastSet(evs, "Client.maxVar")
		if v == nil {
			v = fieldV(st, w.P, "crisp", "Client", "maxVar")
		}
		l, isl := v.(Lin)
		if !isl || !e.E.geq0(st, l.scale(2).add(lin(1), 1).add(m, -1)) {
			return fmt.Sprintf("the largest variable becomes %v", v)
		}
		return ""
	}
	switch name {
	case "Add":
		m := args[0].(Lin)
		if len(ws) != 1 || ws[0].Kind != "w" || !sameV(ws[0].Args[0], m) || !ok {
			return "the literal is not sent"
		}
		return maxVar(m)
	case "Assume":
		if why := sent(args[0]); why != "" || len(ws) > 0 || !ok {
			return orElse(why, "it does something else")
		}
		return ""
	case "Quit":
		if len(ws) > 0 || !ok || all[len(all)-1].Kind != "flush" {
			return "the request is not sent"
		}
		return ""
	case "Reset":
		if len(ws) > 0 || !ok {
			return "it does something else"
		}
		for _, f := range []string{"lastSat", "maxVar"} {
			if v := lastSet(evs, "Client."+f); !isNum(v, 0) {
				return fmt.Sprintf("%s is left as %v", f, v)
			}
		}
		if v := lastSet(evs, "Client.model"); v == nil || !isNilV(v) {
			return "the model is kept"
		}
		return ""
	case "Solve":
		return w.solves(o, ws, ok)
	case "Why":
		return got(args[0])
	case "WhySelect":
		if why := sent(args[1]); why != "" {
			return why
		}
		return got(args[0])
	case "Model":
		return w.unpacks(o, ws, ok, args[0].(Slice))
	case "ModelFor":
		if why := sent(args[1]); why != "" {
			return why
		}
		return w.unpacks(o, ws, ok, args[0].(Slice))
	case "GetExts":
		n := len(ws)
		if n == 0 || ws[n-1].Kind != "r" {
			return "it does not read the extensions"
		}
		if !ok {
			return "" // too many
		}
		if !e.E.eqLin(st, ws[n-1].Args[0], lin(0)) && !w.lastReadIs0(o) {
			return "it does not end with the end of the list"
		}
		return ""
	}
	return ""
}

func isConstV(v V) bool {
	l, ok := v.(Lin)
	return ok && l.isConst()
}

// solves judges the exchange with the server during a solve.
func (w *crispWorld) solves(o Outcome, ws []Event, ok bool) string {
	e, st, evs := w.e, o.St, o.St.events
	if v := lastSet(evs, "Client.model"); v == nil || !isNilV(v) {
		return "the model of the solve before is kept"
	}
	var last Event
	for _, ev := range ws {
		if ev.Kind == "r" {
			last = ev
		}
	}
	if last.Kind == "" || len(ws) == 0 || ws[len(ws)-1].Kind != "r" {
		return "it does not end with an answer"
	}
	res := int64(0)
	fine := true
	switch {
	case isNum(last.Args[0], w.points["Sat"]):
		res = 1
	case isNum(last.Args[0], w.points["Unsat"]):
		res = -1
	case isNum(last.Args[0], w.points["End"]):
	default:
		fine = false
	}
	if ok != fine || !isNum(o.Ret[0], res) {
		return fmt.Sprintf("after the answer %v the result is %v", last.Args[0], o.Ret[0])
	}
	if v := lastSet(evs, "Client.lastSat"); !isNum(v, res) {
		return fmt.Sprintf("the last result is kept as %v", v)
	}
	// what goes on in between
	for _, rs := range e.recs {
		for _, b := range rs {
			x := noFlush(wire(b.evs))
			if len(x) == 0 {
				continue
			}
			for i, ev := range x {
				if ev.Kind != "r" {
					continue
				}
				next := Event{}
				if i+1 < len(x) {
					next = x[i+1]
				}
				unknown := isNum(ev.Args[0], w.points["Unknown"])
				switch {
				case !unknown && (next.Kind == "w" || !isNum(ev.Args[0], 0)):
					return fmt.Sprintf("it goes on after %v", ev.Args[0])
				case unknown && !isW(next, w.points["Continue"]) && !isW(next, w.points["End"]):
					return "an unknown result is not answered"
				case unknown && isW(next, w.points["End"]) != (len(evsOf(b.evs, "recv")) == 1):
					return "the solve is not ended when asked to, and only then"
				}
			}
			if !flushed(wire(append(append([]Event(nil), b.evs...), Event{Kind: "r", Args: []V{Top{}}}))) {
				return "an answer is not sent"
			}
		}
	}
	_ = st
	return ""
}

// unpacks judges the reading of truth values.
func (w *crispWorld) unpacks(o Outcome, ws []Event, ok bool, dst Slice) string {
	e, st := w.e, o.St
	if len(ws) == 0 || ws[0].Kind != "r" {
		return "the number of words is not read"
	}
	n := ws[0].Args[0].(Lin)
	if !ok {
		// something which is no number
		if e.E.geq0(st, n.add(lin(w.points["MinProto"]), -1)) {
			return ""
		}
		return "it may fail without a reason"
	}
	out, isS := o.Ret[0].(Slice)
	if !isS || !sameV(out.off, Lin{}) || !e.E.eqLin(st, out.len, n.scale(32).add(lin(1), 1)) {
		return fmt.Sprintf("for %v words it gives %v", n, o.Ret[0])
	}
	if l := evsOf(o.St.events, "loop"); len(l) == 1 {
		recs := e.recs[string(l[0].Args[0].(Strv))]
		done := map[int64]bool{}
		for _, b := range recs {
			c, why := w.unpack(b, st, n.scale(32), out)
			if why != "" {
				return why
			}
			done[c] = true
		}
		if len(done) != 32 {
			return "not every bit of a word is looked at"
		}
		return ""
	}
	return "the values are not read in one loop"
}

func (w *crispWorld) unpack(b *bodyRec, after *State, total Lin, out Slice) (int64, string) {
	e := w.e
	var i Lin
	var bits, nextBits V
	why := "no variable counts the values"
	found := false
	for phi, nv := range b.phis {
		hv := b.st.top().env[phi]
		init := b.st.kept("init:" + phi.Parent().Name() + "." + phi.Name())
		switch phiUse(phi) {
		case "index":
			_, at := phiUseAt(phi)
			l, ok := hv.(Lin)
			nx, ok2 := nv.(Lin)
			l, nx = l.add(lin(at), 1), nx.add(lin(at), 1)
			q, _, ok3 := residue(l)
			switch {
			case !ok || !ok2 || !ok3 || !e.E.eqLin(b.st, nx, l.add(lin(1), 1)):
				why = fmt.Sprintf("after value %v comes %v", hv, nv)
			case !isNum(init, -at):
				why = fmt.Sprintf("the first is value %v", init)
			case !e.E.geq0(after, q.add(total, -1)):
				why = fmt.Sprintf("it may end before value %v", total)
			default:
				i, found = l, true
			}
		case "bits":
			bits, nextBits = hv, nv
		}
	}
	if !found {
		return 0, why
	}
	_, c, _ := residue(i)
	rs := wire(b.evs)
	word := bits
	if c == 0 {
		if len(rs) != 1 || rs[0].Kind != "r" {
			return c, "no word is read at its first value"
		}
		word = rs[0].Args[0]
	} else if len(rs) > 0 {
		return c, "a word is read within a word"
	}
	wb, ok := word.(Bits)
	if !ok {
		return c, fmt.Sprintf("the values are taken from %v", word)
	}
	if nextBits == nil || !sameV(nextBits, word) {
		return c, "the word is lost"
	}
	ss := sets(b.evs, out.o.id)
	if len(ss) != 1 || !sameV(ss[0].Args[1], i.add(lin(1), 1)) {
		return c, fmt.Sprintf("value %v is not put in its place", i)
	}
	// the bit may be known by a branch
	switch v := ss[0].Args[2].(type) {
	case Boolv:
		want := bit(0)
		if v {
			want = 1
		}
		if wb.b[c] != want {
			return c, fmt.Sprintf("the value with number %d is not that bit: %v", c, wb.b[c])
		}
	case BitBool:
		if v.b != wb.b[c] {
			return c, fmt.Sprintf("the value with number %d is not that bit", c)
		}
	default:
		return c, fmt.Sprintf("the value with number %d is %v", c, v)
	}
	return c, ""
}

// value judges the value of a literal.
func (w *crispWorld) value(o Outcome, ws []Event, ok bool, m Lin) string {
	evs := o.St.events
	asked := evsOf(evs, "askmodel")
	model := entry(evs, "Client.model")
	switch {
	case len(ws) > 0:
		return "it talks to the server by itself"
	case len(asked) > 1 || len(asked) == 1 && model != nil && !isNilV(model):
		return fmt.Sprintf("it asks for a model which is there %v %v", asked, model)
	case len(asked) == 0 && (model == nil || isNilV(model)):
		return "there may be no model"
	}
	if len(asked) == 1 && asked[0].Args[0] == V(Boolv(false)) {
		if ok {
			return "a failure is not reported"
		}
		return ""
	}
	if !ok {
		return "it may fail without a reason"
	}
	rs := evsOf(evs, "read")
	if len(rs) != 1 || rs[0].Args[0].(Ptr).o.id != "Client.model" {
		return "it does not look at the model once"
	}
	neg := m.c % 2
	if !w.e.E.eqLin(o.St, rs[0].Args[1].(Lin).scale(2).add(lin(neg), 1), m) {
		return fmt.Sprintf("for %v it looks at %v", m, rs[0].Args[1])
	}
	v, isB := rs[0].Args[2].(Boolv)
	if !isB || o.Ret[0] != V(Boolv(bool(v) != (neg == 1))) {
		return fmt.Sprintf("for %v and the value %v of its variable it answers %v", m, rs[0].Args[2], o.Ret[0])
	}
	return ""
}

// hears judges the greeting.
func (w *crispWorld) hears(o Outcome, ws []Event, ok bool) string {
	greeting := "CRISP"
	for _, ev := range ws {
		if ev.Kind != "r" {
			return "it does not only listen"
		}
	}
	texts := evsOf(o.St.events, "text")
	if !ok {
		if len(ws) > len(greeting) || len(texts) == 0 {
			return "it refuses a server without a reason"
		}
		return ""
	}
	if len(ws) != len(greeting)+1 {
		return fmt.Sprintf("%d numbers are read", len(ws))
	}
	var pos []Event
	for _, t := range texts {
		if s, is := strConst(t.Args[1]); is && s == greeting {
			pos = sets(o.St.events, t.Args[0].(Slice).o.id)
		}
	}
	if len(pos) != len(greeting) {
		return "it does not compare the greeting"
	}
	for i := range pos {
		if !isNum(pos[i].Args[1], int64(i)) || !sameV(pos[i].Args[2], ws[i].Args[0]) {
			return fmt.Sprintf("character %d of the greeting is %v", i, pos[i].Args[2])
		}
	}
	return ""
}

// greets judges what a server says first.
func (w *crispWorld) greets() {
	r, P, e := w.r, w.P, w.e
	fn := P.Func("crisp", "Handler.Hello")
	r.Fn(fn)
	e.E.UnrollLoop = func(f *ssa.Function, _ *ssa.BasicBlock) (bool, int) { return true, 8 }
	defer func() { e.E.UnrollLoop = nil }()
	greeting := "CRISP"
	n := 0
	why := ""
	for _, o := range e.E.Run(newState(), fn, []V{e.h.ptr("Handler")}, nil) {
		evs := o.St.events
		switch {
		case o.Kind != "return":
			why = "it does not end"
		case hasFail(evs):
			why = orElse(why, failedPath(o, evs, 0))
		default:
			n++
			ws := wire(evs)
			if len(ws) != len(greeting)+2 || ws[len(ws)-1].Kind != "flush" || !isNilV(o.Ret[0]) {
				why = "it does not send a greeting and a version"
				continue
			}
			for i := range ws[:len(ws)-1] {
				if i < len(greeting) && !isW(ws[i], int64(greeting[i])) || ws[i].Kind != "w" {
					why = fmt.Sprintf("number %d of the greeting is %v", i, ws[i].Args[0])
				}
			}
		}
	}
	r.Ob("server", "the greeting", why == "" && n > 0, fn.Pos(), "%s", orElse(why, "CRISP and the version"))
}

// lists judges the transfer of a list of literals.
func (w *crispWorld) lists() {
	r, P, e := w.r, w.P, w.e
	send, recv := P.Func("crisp", "vu32io.send"), P.Func("crisp", "vu32io.recv")
	r.Fn(send, recv)
	why := ""
	n := 0
	w.recs(func() {
		for _, o := range e.E.Run(newState(), send, []V{e.h.ptr("vu32io"), argSlice("list")}, nil) {
			evs := o.St.events
			if o.Kind == "back" {
				continue
			}
			if o.Kind != "return" {
				why = "it may panic"
				continue
			}
			if hasFail(evs) {
				why = orElse(why, failedPath(o, evs, 0))
				continue
			}
			n++
			ws := noFlush(wire(evs))
			ls := evsOf(evs, "loop")
			if len(ls) != 1 || len(ws) != 1 || !isW(ws[0], 0) || !isNilV(o.Ret[0]) {
				why = "the list does not end with zero"
				continue
			}
			rs := e.recs[string(ls[0].Args[0].(Strv))]
			if len(rs) == 0 {
				why = "the literals are not sent"
			}
			for _, b := range rs {
				x, i, v := over(b, "list")
				ws := noFlush(wire(b.evs))
				switch {
				case x == "" || len(ws) != 1 || ws[0].Kind != "w" || !sameV(ws[0].Args[0], v):
					why = "a literal is not sent as it is"
				default:
					why = orElse(why, e.covers(o.St, b, i, argSlice("list").len))
				}
			}
		}
	})
	r.Ob("lists", "sending", why == "" && n > 0, send.Pos(), "%s", orElse(why, "every literal in order, then zero"))
	why, n = "", 0
	w.recs(func() {
		st := newState()
		dst := argSlice("dst")
		for _, o := range e.E.Run(st, recv, []V{e.h.ptr("vu32io"), dst}, nil) {
			evs := o.St.events
			if o.Kind == "back" {
				continue
			}
			if o.Kind != "return" {
				why = "it may panic"
				continue
			}
			if hasFail(evs) {
				why = orElse(why, failedPath(o, evs, 1))
				continue
			}
			n++
			rs := evsOf(evs, "r")
			last, _ := rs[len(rs)-1].Args[0].(Lin)
			switch {
			case len(rs) != 1:
				why = "literals are lost"
			case isNilV(o.Ret[1]) && !e.E.eqLin(o.St, last, lin(0)):
				why = fmt.Sprintf("the list may end with %v", last)
			case !isNilV(o.Ret[1]) && !e.E.geq0(o.St, last.add(lin(w.points["MinProto"]), -1)):
				why = fmt.Sprintf("%v may be refused", last)
			}
			for _, ev := range evsOf(evs, "loop") {
				for _, b := range e.recs[string(ev.Args[0].(Strv))] {
					rs := evsOf(b.evs, "r")
					var now, next Slice
					for phi, nv := range b.phis {
						a, ok1 := b.st.top().env[phi].(Slice)
						c, ok2 := nv.(Slice)
						if ok1 && ok2 {
							now, next = a, c
						}
					}
					if len(rs) != 1 || now.o == nil {
						why = "a literal is lost"
						continue
					}
					l, _ := rs[0].Args[0].(Lin)
					ss := evsOf(b.evs, "set")
					a, ok1 := now.len.(Lin)
					c, ok2 := next.len.(Lin)
					switch {
					case !ok1 || !ok2 || !e.E.eqLin(b.st, c, a.add(lin(1), 1)) || len(ss) == 0:
						why = "a literal is not added"
					case !sameV(ss[len(ss)-1].Args[2], l) || !e.E.eqLin(b.st, ss[len(ss)-1].Args[1], now.off.add(a, 1)):
						why = fmt.Sprintf("%v is added", ss[len(ss)-1].Args[2])
					case e.E.geq0(b.st, l.scale(-1)) || !e.E.geq0(b.st, lin(w.points["MinProto"]-1).add(l, -1)):
						why = "what is no literal is added"
					}
				}
			}
		}
	})
	r.Ob("lists", "receiving", why == "" && n >= 2, recv.Pos(), "%s", orElse(why, "every literal up to zero"))
}

// connection judges the whole of a connection on the server.
func (w *crispWorld) connection() {
	r, P, e := w.r, w.P, w.e
	fn := P.Func("crisp", "Handler.serveConn")
	crisp := P.Func("crisp", "Handler.Crisp")
	newIo := P.Func("crisp", "newVu32Io")
	r.Fn(fn)
	protoErr := P.Type("crisp", "ProtoErr")
	base, more := e.E.Load, w.More
	defer func() { e.E.Load, w.More = base, more }()
	e.E.NoMods[crisp] = true
	delete(e.E.NoMods, crisp)
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		switch c := cellName(p, key); c {
		case "Handler.solveConn":
			_, os := opts(st, Nilv{}, V(Iface{v: Ptr{o: obj("solve")}}))
			for _, o := range os {
				e.log(o.st, "entry", Strv(c), o.v)
			}
			return true, os
		case "Handler.trace":
			return one1(st, Unk{"trace"})
		case "Handler.conn":
			return one1(st, Iface{v: Ptr{o: obj("old")}})
		case "Handler.ms":
			return one1(st, argSlice("Handler.ms"))
		}
		return base(st, p, key, t)
	}
	conn := Iface{v: Ptr{o: obj("conn")}}
	w.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		switch {
		case f == nil:
			return false, nil
		case f == newIo:
			e.log(st, "io", args[0])
			return one1(st, Ptr{o: obj("vu32io")})
		case f == crisp:
			e.log(st, "crisp")
			_, os := opts(st, V(Nilv{}), V(Iface{t: protoErr, v: linSym(&Sym{id: "reason", lo: i64(1), hi: i64(100)})}), V(Tag{errConn}))
			return true, os
		}
		return false, nil
	}
	n := 0
	for _, o := range e.E.Run(newState(), fn, []V{e.h.ptr("Handler"), conn}, nil) {
		if o.Kind == "back" {
			continue
		}
		n++
		why := ""
		evs := o.St.events
		var before, after []Event
		for i, ev := range evs {
			if ev.Kind == "crisp" {
				before, after = evs[:i], evs[i+1:]
			}
		}
		ios := evsOf(before, "io")
		running := entry(after, "Handler.solveConn")
		p := lastSet(before, "Handler.proto")
		switch {
		case o.Kind != "return":
			why = "it may panic"
		case len(evsOf(evs, "crisp")) != 1:
			why = "the connection is not served"
		case len(ios) != 1 || unwrap(ios[0].Args[0]) == nil || unwrap(ios[0].Args[0]).String() != unwrap(conn).String():
			why = "another connection is served"
		case len(ops(before)) != 1 || lastSet(before, "Handler.gini") == nil:
			why = "the client does not get a new solver"
		case p == nil || !w.unequal(o.St, p, w.points["Solve"]):
			why = "a result of the client before may be asked for"
		case len(evsOf(after, "close")) == 0:
			why = "the connection is left open"
		case running == nil:
			why = "it does not look whether a solve is running"
		case !isNilV(running) && (len(evsOf(after, "stop")) != 1 || lastSet(after, "Handler.solveConn") == nil || !isNilV(lastSet(after, "Handler.solveConn"))):
			why = "a running solve is left alone"
		}
		if m, ok := lastSet(after, "Handler.ms").(Slice); why == "" && (!ok || !sameV(m.len, Lin{})) {
			why = "literals of the client before are left"
		}
		r.Ob("connection", fmt.Sprintf("path %d", n), why == "", fn.Pos(), "%s", orElse(why, "begins afresh, and closes everything"))
	}
	r.Floor("connection", 3)
}

// handle judges the handle of a remote solve.
func (w *crispWorld) handle() {
	r, P, e := w.r, w.P, w.e
	base, chanh, more, ongo := e.E.Load, e.E.Chan, w.More, e.E.OnGo
	defer func() { e.E.Load, e.E.Chan, w.More, e.E.OnGo = base, chanh, more, ongo }()
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		c := cellName(p, key)
		if _, ok := t.Underlying().(*types.Chan); ok {
			if p.o.id == "timer" {
				return one1(st, Tag{"timer"})
			}
			return one1(st, Tag{map[string]string{"netsolve.cancel": "Client.cancel", "netsolve.result": "Client.resChan"}[c] + strings.TrimPrefix(c, "netsolve.")})
		}
		return base(st, p, key, t)
	}
	e.E.Chan = func(st *State, kind string, ch V, v V, t types.Type) []Opt {
		if kind != "recv" {
			e.log(st, kind, ch, v)
			return nil
		}
		st.seq++
		x := Struct{}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				x.f = append(x.f, Unk{fmt.Sprintf("received %d.%s", st.seq, s.Field(i).Type())})
			}
		}
		e.log(st, "recv", ch, x)
		return []Opt{{st, Tuple{x, Boolv(true)}}}
	}
	var gofn *ssa.Function
	var gobind, goargs []V
	var gost *State
	e.E.OnGo = func(st *State, fn *ssa.Function, bind, args []V) {
		e.log(st, "go")
		gofn, gobind, goargs, gost = fn, bind, args, st.clone()
	}
	solve := P.Func("crisp", "Client.Solve")
	w.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f == solve && f != nil {
			e.log(st, "solve", args[0])
			return one1(st, Tuple{Unk{"the result"}, Unk{"the error"}})
		}
		switch calleeName(ci, f) {
		case "time.After", "time.Tick":
			e.log(st, "timer", args[0])
			return one1(st, Tag{"timer"})
		case "time.NewTimer", "time.NewTicker":
			e.log(st, "timer", args[0])
			return one1(st, Ptr{o: obj("timer")})
		case "(*time.Timer).Stop", "(*time.Ticker).Stop":
			return one1(st, mkUnknown("stopped", types.Typ[types.Bool]))
		}
		return false, nil
	}
	e.E.NoMods[solve] = true
	fn := P.Func("crisp", "Client.GoSolve")
	r.Fn(fn)
	why := ""
	for _, o := range e.E.Run(newState(), fn, []V{e.h.ptr("Client")}, nil) {
		if o.Kind != "return" || len(evsOf(o.St.events, "go")) != 1 || len(evsOf(o.St.events, "solve")) > 0 {
			why = "it does not solve in the background"
		}
	}
	if gofn == nil {
		why = orElse(why, "it does not solve in the background")
	} else {
		gost.events = nil
		for _, o := range e.E.Run(gost, gofn, goargs, gobind) {
			so, se := evsOf(o.St.events, "solve"), evsOf(o.St.events, "send")
			if o.Kind != "return" || len(so) != 1 || len(se) != 1 {
				why = "it does not solve and give the result once"
				continue
			}
			if x, ok := se[0].Args[1].(Struct); !ok || len(x.f) != 2 || !sameV(x.f[0], Unk{"the result"}) && !sameV(x.f[1], Unk{"the result"}) || !sameV(x.f[0], Unk{"the error"}) && !sameV(x.f[1], Unk{"the error"}) {
				why = fmt.Sprintf("it gives %v as the result", se[0].Args[1])
			}
			if !strings.Contains(se[0].Args[0].String(), "resChan") {
				why = "it gives the result to something else"
			}
		}
	}
	r.Ob("handle", "GoSolve", why == "", fn.Pos(), "%s", orElse(why, "solves once and gives the result once"))
	for _, n := range []string{"Stop", "Try", "Test"} {
		fn := P.Func("crisp", "netsolve."+n)
		r.Fn(fn)
		args := []V{e.h.ptr("netsolve")}
		if n == "Try" {
			args = append(args, linSym(&Sym{id: "arg:d"}))
		}
		k := 0
		for _, o := range e.E.Run(newState(), fn, args, nil) {
			if o.Kind == "back" {
				continue
			}
			k++
			why := ""
			evs := o.St.events
			var got []Event
			cancelled := false
			timed := false
			for _, ev := range evs {
				switch {
				case ev.Kind == "recv" && strings.Contains(ev.Args[0].String(), "timer"):
					timed = true
				case ev.Kind == "recv" && strings.Contains(ev.Args[0].String(), "resChan"):
					got = append(got, ev)
				case ev.Kind == "send" && strings.Contains(ev.Args[0].String(), "cancel"):
					if cancelled || len(got) > 0 {
						why = "it stops what is finished"
					}
					cancelled = true
				case ev.Kind == "send" || ev.Kind == "recv":
					why = "it waits for something else"
				}
			}
			polls := len(evsOf(evs, "default")) > 0
			switch {
			case why != "":
			case o.Kind != "return":
				why = "it may panic"
			case n == "Test" && len(got) == 0:
				if !polls || !isNum(o.Ret[0], 0) || o.Ret[1] != V(Boolv(false)) || !isNilV(o.Ret[2]) {
					why = "without a result it answers something"
				}
			case len(got) != 1:
				why = fmt.Sprintf("it takes %d results", len(got))
			case n == "Test" && (cancelled || o.Ret[1] != V(Boolv(true))):
				why = "a result is not given"
			case n == "Try" && cancelled && !timed:
				why = "it stops the solve before the time is up"
			default:
				x := got[0].Args[1].(Struct)
				rs := map[string]bool{}
				for _, f := range x.f {
					rs[f.String()] = true
				}
				if !rs[o.Ret[0].String()] || !rs[o.Ret[len(o.Ret)-1].String()] || sameV(o.Ret[0], o.Ret[len(o.Ret)-1]) {
					why = fmt.Sprintf("it answers %v", o.Ret)
				}
			}
			// nothing is awaited while the other side may wait for something else
			for i, ev := range evs {
				if ev.Kind == "send" && (i == 0 || !inSelect(evs, i)) {
					why = orElse(why, "it may wait for ever to stop a solve which is finished")
				}
			}
			r.Ob("handle", fmt.Sprintf("%s path %d", n, k), why == "", fn.Pos(), "%s", orElse(why, "gives the result of the solve"))
		}
	}
	r.Floor("handle", 6)
}

// inSelect tells whether an operation is chosen among others which include
// taking the result.
func inSelect(evs []Event, i int) bool {
	return evs[i-1].Kind == "select" || evs[i-1].Kind == "poll"
}

// loads judges the sending of a whole problem.
func (w *crispWorld) loads() {
	r, P, e := w.r, w.P, w.e
	fn := P.TryFunc("crisp", "Client.fromXo")
	top := P.Func("crisp", "Client.Dimacs")
	r.Fn(top)
	add := P.Func("crisp", "Client.Add")
	read := P.Func("dimacs", "ReadCnf")
	more := w.More
	defer func() { w.More = more }()
	_ = fn
	w.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		switch {
		case f == nil:
			return false, nil
		case f == read:
			bad := st.clone()
			e.log(bad, "fail", Strv("read"))
			return true, []Opt{{st, Nilv{}}, {bad, Tag{errConn}}}
		case f == add:
			bad := st.clone()
			e.log(bad, "fail", Strv("add"))
			e.log(st, "add", args[1])
			return true, []Opt{{st, Nilv{}}, {bad, Tag{errConn}}}
		}
		return false, nil
	}
	e.E.NoMods[add], e.E.NoMods[read] = true, true
	w.recs(func() {
		n := 0
		for _, o := range e.E.Run(newState(), top, []V{e.h.ptr("Client"), Iface{v: Ptr{o: obj("reader")}}}, nil) {
			if o.Kind == "back" {
				continue
			}
			n++
			why := ""
			evs := o.St.events
			switch {
			case o.Kind != "return":
				why = "it may panic"
			case hasFail(evs):
				why = failedPath(o, evs, 0)
			default:
				ls := evsOf(evs, "loop")
				if len(ls) != 1 || len(evsOf(evs, "add")) > 0 || !isNilV(o.Ret[0]) {
					why = "the clauses are not sent one by one"
					break
				}
				rs := e.recs[string(ls[0].Args[0].(Strv))]
				if len(rs) == 0 {
					why = "no clause is sent"
				}
				for _, b := range rs {
					why = orElse(why, w.sends(o.St, b))
				}
			}
			r.Ob("client", fmt.Sprintf("Dimacs path %d", n), why == "", top.Pos(), "%s", orElse(why, "sends every clause"))
		}
	})
}

// sends judges the sending of one clause.
func (w *crispWorld) sends(after *State, b *bodyRec) string {
	e := w.e
	o, i, loc := over(b, "Cdb.Added")
	if o == "" {
		return "it does not go through the clauses"
	}
	if why := e.covers(after, b, i, tableLen(after, "Cdb.Added")); why != "" {
		return "of the clauses, " + why
	}
	ls := evsOf(b.evs, "loop")
	if len(ls) != 1 {
		return "a clause is not sent literal by literal"
	}
	// how it ends
	as := evsOf(b.evs, "add")
	if len(as) == 0 || !e.E.eqLin(b.st, as[len(as)-1].Args[0], lin(0)) {
		return "a clause does not end with zero"
	}
	for _, c := range e.recs[string(ls[0].Args[0].(Strv))] {
		x, p, m := over(c, "CDat.D")
		if x == "" {
			return "the literals are taken from something else"
		}
		nx, ok := e.E.nextLin(c.st, c.phis, p)
		f, ok2 := firstOf(c.st, p)
		as := evsOf(c.evs, "add")
		switch {
		case !ok || !e.E.eqLin(c.st, nx, p.add(lin(1), 1)):
			return fmt.Sprintf("after the literal at %v comes that at %v", p, nx)
		case !ok2 || !sameV(f, loc):
			return fmt.Sprintf("the first literal is that at %v", f)
		case len(as) != 1 || !sameV(as[0].Args[0], m):
			return "a literal is not sent as it is"
		case e.E.eqLin(c.st, m, lin(0)):
			return "it goes on after the end of a clause"
		}
	}
	return ""
}

func tableLen(st *State, table string) V {
	return linSym(&Sym{id: "len(" + table + ")", lo: i64(0)})
}

// upTo tells how many bits of a word there are before value c.
func (w *crispWorld) upTo(c int) int {
	if w.count {
		return 32
	}
	return c
}

// askModel is the model as it is asked for from the server.
func (w *crispWorld) askModel(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
	if f == nil || f != w.P.TryFunc("crisp", "Client.Model") {
		return false, nil
	}
	bad := st.clone()
	m := argSlice("Client.model")
	w.e.log(st, "askmodel", Boolv(true))
	w.e.log(bad, "askmodel", Boolv(false))
	n := w.P.Type("crisp", "Client")
	i := fieldIndex(w.P, "crisp", "Client", "model")
	ft := n.Underlying().(*types.Struct).Field(i).Type()
	w.e.E.store(st, Ptr{obj("Client"), []pe{{f: i}}}, "field:"+n.String()+".model", ft, m, token.NoPos)
	return true, []Opt{{st, Tuple{m, Nilv{}}}, {bad, Tuple{Nilv{}, Tag{errConn}}}}
}
