package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// emitter follows what a function writes (or reads) as a sequence of tokens and
// loops.  Every loop is analysed for one arbitrary iteration.
type emitter struct {
	P    *Prog
	h    *xoHeap
	E    *Interp
	recs map[string][]*bodyRec // the iterations of a loop, by the identity given on entry
	nid  int
	Next func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt)
}

type bodyRec struct {
	st   *State
	evs  []Event
	phis map[*ssa.Phi]V
	hdr  *ssa.BasicBlock
}

func (e *emitter) log(st *State, kind string, args ...V) {
	st.events = append(st.events, Event{Kind: kind, Args: args})
}

func newEmitter(P *Prog) *emitter {
	e := &emitter{P: P, h: newXO(P), recs: map[string][]*bodyRec{}}
	e.E = e.h.E
	E := e.E
	keepInit(E)
	e.h.OnLoad = func(st *State, p Ptr, name string, v V) {
		if len(p.path) == 1 && p.path[0].f < 0 {
			e.log(st, "read", Ptr{o: p.o}, p.path[0].idx, v)
		}
	}
	key := func(b *ssa.BasicBlock) string { return "lp:" + b.Parent().String() + "." + b.String() }
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		e.nid++
		id := fmt.Sprintf("loop%d", e.nid)
		return func(s *State) {
			e.log(s, "loop", Strv(id))
			s.keep(key(hdr), Tuple{Strv(id), lin(int64(len(s.events)))})
		}
	}
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		t, ok := st.kept(key(hdr)).(Tuple)
		if !ok {
			return
		}
		id := string(t[0].(Strv))
		c := st.clone()
		e.recs[id] = append(e.recs[id], &bodyRec{c, c.events[t[1].(Lin).c:], phis, hdr})
	}
	E.Store = nil
	E.Call = e.call
	return e
}

// vararg reads the arguments of a variadic call.
func (e *emitter) vararg(st *State, v V, t types.Type) []V {
	s, ok := v.(Slice)
	if !ok {
		return nil
	}
	n, ok := s.len.(Lin)
	if !ok || !n.isConst() || n.c > 16 {
		panic(undecided("arguments of a format"))
	}
	et := t.Underlying().(*types.Slice).Elem()
	var r []V
	for i := int64(0); i < n.c; i++ {
		q := Ptr{s.o, []pe{{f: -1, idx: s.off.add(lin(i), 1)}}}
		x := e.E.load(st, q, "elem:"+et.String(), et)[0].v
		if f, ok := x.(Iface); ok {
			x = f.v
		}
		r = append(r, x)
	}
	return r
}

// strOf is a formatted string: its pieces in order.
func (e *emitter) format(f string, args []V) (V, bool) {
	t := Tuple{Strv("fmt")}
	k := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			t = append(t, Strv(f))
			break
		}
		if i > 0 {
			t = append(t, Strv(f[:i]))
		}
		f = f[i+1:]
		if f == "" {
			return nil, false
		}
		if f[0] == '%' {
			t = append(t, Strv("%"))
			f = f[1:]
			continue
		}
		if k >= len(args) {
			return nil, false
		}
		switch f[0] {
		case 'd', 'c', 's', 'v':
			t = append(t, Tuple{Strv("%" + f[:1]), args[k]})
		default:
			return nil, false
		}
		k++
		f = f[1:]
	}
	return t, k == len(args)
}

func strConst(v V) (string, bool) {
	switch x := v.(type) {
	case Strv:
		return string(x), true
	case Other:
		if x.c.Kind() == constant.String {
			return constant.StringVal(x.c), true
		}
	}
	return "", false
}

// calleeName gives the full name of a function outside the repository, or of
// an interface method.
func calleeName(ci ssa.CallInstruction, fn *ssa.Function) string {
	if fn != nil {
		return fn.String()
	}
	if c := ci.Common(); c.IsInvoke() {
		return "." + c.Method.Name()
	}
	return ""
}

func (e *emitter) call(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	if e.Next != nil {
		if ok, os := e.Next(st, ci, fn, args); ok {
			return true, os
		}
	}
	if fn != nil && e.P.inRepo(fn) {
		return false, nil
	}
	n := calleeName(ci, fn)
	sig := ci.Common().Signature()
	last := func() types.Type { return sig.Params().At(sig.Params().Len() - 1).Type() }
	switch n {
	case "fmt.Sprintf":
		f, ok := strConst(args[0])
		if !ok {
			return false, nil
		}
		if v, ok := e.format(f, e.vararg(st, args[1], last())); ok {
			return one1(st, v)
		}
	case "fmt.Fprintf":
		f, ok := strConst(args[1])
		if !ok {
			return false, nil
		}
		if v, ok := e.format(f, e.vararg(st, args[2], last())); ok {
			e.log(st, "tok", v)
			return one1(st, Tuple{Top{}, Nilv{}})
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if len(args) > 1 && !sameV(args[1], lin(10)) {
			return false, nil
		}
		return one1(st, Tuple{Strv("fmt"), Tuple{Strv("%d"), args[0]}})
	case "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize":
		return one1(st, Unk{"bw"})
	case "(*bufio.Writer).WriteString", "io.WriteString":
		e.log(st, "tok", args[1])
		return one1(st, Tuple{Top{}, Nilv{}})
	case "(*bufio.Writer).WriteRune":
		e.log(st, "tok", Tuple{Strv("fmt"), Tuple{Strv("%c"), args[1]}})
		return one1(st, Tuple{Top{}, Nilv{}})
	case "(*bufio.Writer).WriteByte":
		e.log(st, "tok", Tuple{Strv("fmt"), Tuple{Strv("%c"), args[1]}})
		return one1(st, Nilv{})
	case "(*bufio.Writer).Flush":
		e.log(st, "flush")
		return one1(st, Nilv{})
	}
	return false, nil
}

// numTok prints a number token.
func numTok(v V) string {
	if l, ok := v.(Lin); ok && l.isConst() {
		return fmt.Sprint(l.c)
	}
	return "«" + v.String() + "»"
}

func tokText(v V) string {
	if s, ok := strConst(v); ok {
		return s
	}
	t, ok := v.(Tuple)
	if !ok || len(t) == 0 {
		return "?" + v.String()
	}
	if s, ok := t[0].(Strv); ok {
		switch {
		case s == "fmt":
			r := ""
			for _, x := range t[1:] {
				r += tokText(x)
			}
			return r
		case s == "%d" || s == "%v":
			return numTok(t[1])
		case s == "%c":
			if l, ok := t[1].(Lin); ok && l.isConst() {
				return string(rune(l.c))
			}
			return "«char " + t[1].String() + "»"
		case s == "%s":
			if c, ok := strConst(t[1]); ok {
				return c
			}
			return "«text " + t[1].String() + "»"
		}
		return "«" + string(s) + " " + Tuple(t[1:]).String() + "»"
	}
	return "?" + v.String()
}

// text is what is written by a sequence of events.
func text(evs []Event) string {
	r := ""
	for _, e := range evs {
		if e.Kind == "tok" {
			r += tokText(e.Args[0])
		}
	}
	return r
}

// pieces divides events at loops (and at other events of the given kinds).
func pieces(evs []Event, kinds ...string) []Event {
	var r []Event
	cur := ""
	flush := func() {
		if cur != "" {
			r = append(r, Event{Kind: "text", Args: []V{Strv(cur)}})
			cur = ""
		}
	}
	for _, e := range evs {
		switch e.Kind {
		case "tok":
			cur += tokText(e.Args[0])
			continue
		case "loop":
			flush()
			r = append(r, e)
			continue
		}
		for _, k := range kinds {
			if e.Kind == k {
				flush()
				r = append(r, e)
			}
		}
	}
	flush()
	return r
}

// silent tells whether a loop writes nothing.
func (e *emitter) silent(id string, kinds ...string) bool {
	for _, b := range e.recs[id] {
		for _, p := range pieces(b.evs, kinds...) {
			if p.Kind != "loop" || !e.silent(string(p.Args[0].(Strv)), kinds...) {
				return false
			}
		}
	}
	return true
}

// over gives the table which an iteration visits, with its index and value.
func over(b *bodyRec, objs ...string) (string, Lin, V) {
	for _, ev := range b.evs {
		if ev.Kind != "read" {
			continue
		}
		o := ev.Args[0].(Ptr).o.id
		for _, x := range objs {
			if o == x || strings.HasSuffix(x, "[") && strings.HasPrefix(o, x) {
				i, _ := ev.Args[1].(Lin)
				return o, i, ev.Args[2]
			}
		}
	}
	return "", Lin{}, nil
}

// covers tells what is missing for a loop to visit all of a table of length n,
// seen from the state after the loop.
func (e *emitter) covers(after *State, b *bodyRec, idx Lin, n V) string {
	E := e.E
	nx, ok := E.nextLin(b.st, b.phis, idx)
	f, ok2 := firstOf(b.st, idx)
	switch {
	case !ok || !E.eqLin(b.st, nx, idx.add(lin(1), 1)):
		return fmt.Sprintf("after number %v comes %v", idx, nx)
	case !ok2 || !E.eqLin(b.st, f, lin(0)):
		return fmt.Sprintf("the first is number %v", f)
	}
	l, ok := n.(Lin)
	if !ok || !E.geq0(after, idx.add(l, -1)) {
		return fmt.Sprintf("it may end before number %v", n)
	}
	return ""
}

// newObserver is an emitter which also records what is stored.
func newObserver(P *Prog) *emitter {
	e := newEmitter(P)
	e.h.FreshLen = true
	e.E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		switch {
		case len(p.path) == 1 && p.path[0].f < 0:
			e.log(st, "set", Ptr{o: p.o}, p.path[0].idx, v)
		case len(p.path) > 0 && p.path[len(p.path)-1].f >= 0:
			e.log(st, "fset", Strv(cellName(p, key)), v)
		}
	}
	return e
}

// sets gives the element stores into an object.
func sets(evs []Event, obj string) []Event {
	var r []Event
	for _, e := range evs {
		if e.Kind == "set" && e.Args[0].(Ptr).o.id == obj {
			r = append(r, e)
		}
	}
	return r
}

func evsOf(evs []Event, kind string) []Event {
	var r []Event
	for _, e := range evs {
		if e.Kind == kind {
			r = append(r, e)
		}
	}
	return r
}

// counts finds what a loop counts: a variable which goes from zero by one in
// every iteration, and which has reached n after the loop.
func (e *emitter) counts(after *State, b *bodyRec, n V) string {
	why := "no variable counts the iterations"
	for phi := range b.phis {
		hv, ok := b.st.top().env[phi].(Lin)
		if !ok || len(hv.t) == 0 {
			continue
		}
		// or the other way round
		if l, ok := n.(Lin); ok {
			nx, ok1 := e.E.nextLin(b.st, b.phis, hv)
			f, ok2 := firstOf(b.st, hv)
			if ok1 && ok2 && e.E.eqLin(b.st, nx, hv.add(lin(1), -1)) && e.E.eqLin(b.st, f, l) && e.E.geq0(after, hv.scale(-1)) {
				return ""
			}
		}
		// ranges begin before the first element
		for c := int64(0); c < 2; c++ {
			w := e.covers(after, b, hv.add(lin(c), 1), n)
			if w == "" {
				return ""
			}
			why = w
		}
	}
	return why
}
