package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// streamWorld follows what a reader takes from its input byte by byte, and what
// it passes on.
type streamWorld struct {
	r *Report
	P *Prog
	e *emitter
	// Visit tells which interface methods are followed, as events "vis".
	Visit map[string]bool
	More  func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt)
	// Enums gives loop variables which are states of a machine all their values.
	Enums bool
}

const (
	errEOF = "uniq:io.EOF"
	errIO  = "uniq:a failed read"
)

func newStream(r *Report) *streamWorld {
	w := &streamWorld{r: r, P: r.P, e: newObserver(r.P), Visit: map[string]bool{}}
	e := w.e
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if n := namedOf(t); n != nil && n.Obj().Name() == "error" && strings.HasPrefix(p.o.id, "g:") {
			return one1(st, Tag{"uniq:" + strings.TrimPrefix(p.o.id, "g:")})
		}
		return false, nil
	}
	e.Next = w.call
	enter := e.E.Enter
	e.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		f := enter(st, hdr, blocks)
		return func(s *State) {
			w.rotate(s, hdr, blocks)
			f(s)
			s.unkeep("back")
			s.unkeep("last")
		}
	}
	base := e.E.Havoc
	e.E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		base(st, phi, init)
		if i := w.rotated(st, phi); i >= 0 {
			if c, ok := st.kept("rot").(Tuple); ok {
				return one1(st, c[i])
			}
			os := w.readByte(st)
			for j := range os {
				os[j].st.keep("rot", os[j].v)
				os[j].v = os[j].v.(Tuple)[i]
			}
			return true, os
		}
		if vs := w.enum(phi.Type()); w.Enums && len(vs) > 0 {
			return opts(st, vs...)
		}
		return false, nil
	}
	back := e.E.Back
	e.E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		back(st, hdr, prev, phis)
		t, ok := st.kept("lp:" + hdr.Parent().String() + "." + hdr.String()).(Tuple)
		if !ok {
			return
		}
		rs := e.recs[string(t[0].(Strv))]
		rec := rs[len(rs)-1]
		any := false
		for phi := range phis {
			any = any || w.rotated(st, phi) >= 0
		}
		if !any {
			return
		}
		// it ends with the read which the next iteration begins with
		n := len(rec.evs) - 1
		for n >= 0 && !isRead(rec.evs[n]) {
			n--
		}
		lost := n < 0
		for phi, nv := range phis {
			i := w.rotated(st, phi)
			if i < 0 || lost {
				continue
			}
			lost = !sameV(nv, readResult(rec.evs[n])[i])
		}
		evs := append([]Event(nil), rec.evs...)
		if lost {
			rec.evs = append(evs, Event{Kind: "lost"})
			return
		}
		rec.evs = append(evs[:n], evs[n+1:]...)
	}
	return w
}

// enum gives the constants of an enumeration of the repository.
func (w *streamWorld) enum(t types.Type) []V {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	seen := map[int64]bool{}
	var vs []V
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), t) {
			if i, ok := constInt(c.Val()); ok && !seen[i] {
				seen[i] = true
				vs = append(vs, lin(i))
			}
		}
	}
	return vs
}

func (w *streamWorld) call(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e := w.e
	if w.More != nil {
		if ok, os := w.More(st, ci, fn, args); ok {
			return ok, os
		}
	}
	n := calleeName(ci, fn)
	if fn == nil && ci.Common().IsInvoke() && w.Visit[ci.Common().Method.Name()] {
		e.log(st, "vis", append([]V{Strv(ci.Common().Method.Name())}, args[1:]...)...)
		rt := ci.Common().Signature().Results()
		if rt.Len() == 0 {
			return one1(st, Tuple{})
		}
		return one1(st, e.E.Unknown(st, "vis", rt.At(0).Type()))
	}
	switch n {
	case "(*bufio.Reader).ReadByte":
		if b := st.kept("back"); b != nil {
			// what was given back
			st.unkeep("back")
			e.log(st, "in", b)
			return one1(st, Tuple{b, Nilv{}})
		}
		return true, w.readByte(st)
	case "(*bufio.Reader).UnreadByte":
		e.log(st, "unread")
		if b := st.kept("last"); b != nil {
			st.keep("back", b)
			st.unkeep("last")
		}
		return one1(st, Nilv{})
	case "fmt.Errorf", "errors.New":
		return one1(st, Tag{"uniq:a report"})
	}
	return false, nil
}

// readByte reads something, or not.
func (w *streamWorld) readByte(st *State) []Opt {
	st.seq++
	b := linSym(&Sym{id: fmt.Sprintf("byte#%d", st.seq), lo: i64(0), hi: i64(255)})
	s2, s3 := st.clone(), st.clone()
	w.e.log(st, "in", b)
	st.keep("last", b)
	w.e.log(s2, "eof")
	w.e.log(s3, "ioerr")
	return []Opt{{st, Tuple{b, Nilv{}}}, {s2, Tuple{lin(0), Tag{errEOF}}}, {s3, Tuple{lin(0), Tag{errIO}}}}
}

func isRead(ev Event) bool { return ev.Kind == "in" || ev.Kind == "eof" || ev.Kind == "ioerr" }

// readResult is what a read gave.
func readResult(ev Event) []V {
	switch ev.Kind {
	case "eof":
		return []V{lin(0), Tag{errEOF}}
	case "ioerr":
		return []V{lin(0), Tag{errIO}}
	}
	return []V{ev.Args[0], Nilv{}}
}

// rotate prepares a loop whose iterations begin with what was read before: the
// read is moved into the loop.
func (w *streamWorld) rotate(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) {
	st.unkeep("rot")
	for _, in := range hdr.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			st.unkeep("rot:" + phi.Parent().String() + "." + phi.Name())
		}
	}
	n := len(st.events) - 1
	for n >= 0 && !isRead(st.events[n]) {
		switch st.events[n].Kind {
		case "set", "fset", "read":
			n--
			continue
		}
		return
	}
	if n < 0 {
		return
	}
	got := readResult(st.events[n])
	pi := -1
	for i, p := range hdr.Preds {
		if !blocks[p] {
			if pi >= 0 {
				return
			}
			pi = i
		}
	}
	if pi < 0 {
		return
	}
	var phis []*ssa.Phi
	sure := false
	for _, in := range hdr.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		init := w.e.E.get(st, phi.Edges[pi])
		i := resultIndex(phi)
		if i < 0 || !sameV(init, got[i]) {
			continue
		}
		phis = append(phis, phi)
		sure = sure || (i == 0) == (st.events[n].Kind == "in")
	}
	if !sure {
		return
	}
	for _, phi := range phis {
		st.keep("rot:"+phi.Parent().String()+"."+phi.Name(), Boolv(true))
	}
	st.events = append(append([]Event(nil), st.events[:n]...), st.events[n+1:]...)
}

// resultIndex tells which result of a read a variable may hold.
func resultIndex(phi *ssa.Phi) int {
	if n := namedOf(phi.Type()); n != nil && n.Obj().Name() == "error" {
		return 1
	}
	if b, ok := phi.Type().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return 0
	}
	return -1
}

func (w *streamWorld) rotated(st *State, phi *ssa.Phi) int {
	if st.kept("rot:"+phi.Parent().String()+"."+phi.Name()) == nil {
		return -1
	}
	return resultIndex(phi)
}

// between tells that a value is surely in a range.
func (w *streamWorld) between(st *State, v V, lo, hi int64) bool {
	l, ok := v.(Lin)
	return ok && w.e.E.geq0(st, l.add(lin(lo), -1)) && w.e.E.geq0(st, lin(hi).add(l, -1))
}

// outside tells that a value is surely not in a range.
func (w *streamWorld) outside(st *State, v V, lo, hi int64) bool {
	l, ok := v.(Lin)
	if !ok {
		return false
	}
	if w.e.E.geq0(st, lin(lo-1).add(l, -1)) || w.e.E.geq0(st, l.add(lin(hi+1), -1)) {
		return true
	}
	if hi-lo < 8 {
		for c := lo; c <= hi; c++ {
			if !w.isNot(st, v, byte(c)) {
				return false
			}
		}
		return true
	}
	return false
}

func (w *streamWorld) is(st *State, v V, c byte) bool {
	return w.e.E.eqLin(st, v, lin(int64(c)))
}

func (w *streamWorld) isNot(st *State, v V, c byte) bool {
	l, ok := v.(Lin)
	if !ok {
		return false
	}
	d := l.add(lin(int64(c)), -1)
	if s := w.e.E.sign(st, d); s == "+" || s == "-" {
		return true
	}
	return st.notZero(d)
}

func (w *streamWorld) isWhite(st *State, v V) bool {
	for _, c := range []byte(" \n\t\r") {
		if w.is(st, v, c) {
			return true
		}
	}
	return w.between(st, v, '\t', '\n')
}

func (w *streamWorld) notWhite(st *State, v V) bool {
	for _, c := range []byte(" \n\t\r") {
		if !w.isNot(st, v, c) {
			return false
		}
	}
	return true
}

// has tells whether an event occurs.
func has(evs []Event, kind string) bool { return len(evsOf(evs, kind)) > 0 }
