package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C33", Level: "other",
		Rule: "Abstract interpretation over go/ssa of the operations on sequential circuits, for each kind of node with arbitrary operands.",
		Run:  runC33})
}

type seqKind struct {
	name string
	v    Lin // the variable
	a, b V
	typ  string // the name of the kind
}

func runC33(r *Report) {
	P := r.P
	c := newCirc(P)
	T, F := lin(2), lin(3)
	v := linSym(litSym("N", 2))
	nxt := litOf(litSym("next", 1), 0)
	A, B := litSym("A", 2), litSym("B", 3)
	var kinds []seqKind
	kinds = append(kinds, seqKind{"constant", lin(1), lin(0), lin(0), "SConst"}, seqKind{"input", v, lin(0), lin(0), "SInput"})
	for _, in := range []Lin{lin(0), T, F} {
		for _, b := range []Lin{nxt, nxt.add(lin(1), 1), v.scale(2)} {
			kinds = append(kinds, seqKind{fmt.Sprintf("latch (%v, %v)", in, b), v, in, b, "SLatch"})
		}
	}
	for s := int64(0); s < 4; s++ {
		kinds = append(kinds, seqKind{fmt.Sprintf("gate %d", s), v, litOf(A, s/2), litOf(B, s%2), "SAnd"})
	}
	nodes := &Obj{id: "nodes"}
	latches := linSym(&Sym{id: "len(S.Latches)", lo: i64(0)})
	nodeAt := func(i Lin, f int) Ptr { return Ptr{nodes, []pe{{f: -1, idx: i}, {f: f}}} }
	fa, fb := fieldIndex(P, "logic", "node", "a"), fieldIndex(P, "logic", "node", "b")
	newNode := P.Func("logic", "C.newNode")
	fresh := linSym(&Sym{id: "new", lo: i64(2), hi: i64(1 << 30)})
	S := Ptr{o: &Obj{id: "S"}}
	mk := func() (*Interp, *State) {
		E := newInterp(P)
		def := c.load(E)
		E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
			if key == "field:"+P.Type("logic", "S").String()+".Latches" && p.o.id == "S" {
				return one1(st, Slice{obj("S.Latches"), Lin{}, latches, linSym(&Sym{id: "cap(S.Latches)", lo: i64(0)})})
			}
			return def(st, p, key, t)
		}
		E.Store = func(st *State, p Ptr, key string, x V, pos token.Pos) {
			if strings.Contains(p.o.id, "#") {
				return
			}
			st.events = append(st.events, Event{Kind: "set", Args: []V{p, x}})
		}
		E.NoMods = map[*ssa.Function]bool{newNode: true}
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == newNode {
				st.events = append(st.events, Event{Kind: "new"})
				return one1(st, Tuple{Ptr{nodes, []pe{{f: -1, idx: fresh}}}, fresh})
			}
			return false, nil
		}
		return E, newState()
	}
	put := func(st *State, k seqKind) {
		for f, x := range map[int]V{fa: k.a, fb: k.b} {
			p := nodeAt(k.v, f)
			st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + P.Type("logic", "node").String() + "." + map[int]string{fa: "a", fb: "b"}[f], x}
		}
	}
	at := func(st *State, i Lin, f int) V { return st.mem[cellKey(nodeAt(i, f))].v }
	// stores to nodes other than one field of one node
	others := func(st *State, i Lin, f int) string {
		for _, ev := range st.events {
			p, ok := ev.Args, true
			if ev.Kind != "set" {
				continue
			}
			q := p[0].(Ptr)
			if q.o.id == "nodes" && len(q.path) == 2 && ok && !(sameV(q.path[0].idx, i) && (f < 0 || q.path[1].f == f)) {
				return "another part of the circuit changes"
			}
			if q.o.id != "nodes" {
				return "another part of the circuit changes"
			}
		}
		return ""
	}
	inits := []V{lin(0), T, F, litOf(A, 0), litOf(A, 1)}
	bad := func(x V) bool { l := x.(Lin); return !l.isConst() }

	// Latch
	f := P.Func("logic", "S.Latch")
	r.Fn(f)
	for i, in := range inits {
		E, st := mk()
		n := 0
		for j, o := range E.Run(st, f, []V{S, in}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			det := ""
			want := fresh.scale(2)
			news, app := 0, 0
			for _, ev := range o.St.events {
				switch ev.Kind {
				case "new":
					news++
				case "set":
					q := ev.Args[0].(Ptr)
					switch {
					case q.o.id == "S.Latches" && sameV(q.path[0].idx, latches) && sameV(ev.Args[1], want):
						app++
					case q.o.id == "S" && sameSliceLen(E, o.St, ev.Args[1], latches.add(lin(1), 1)):
						app++
					case q.o.id == "nodes" && len(q.path) == 2 && sameV(q.path[0].idx, fresh):
					default:
						det = "another part of the circuit changes"
					}
				}
			}
			switch {
			case det != "":
			case bad(in):
				det = fmt.Sprintf("%v is taken as an initial value", in)
			case news != 1:
				det = "no new node is made"
			case !sameV(at(o.St, fresh, fa), in):
				det = fmt.Sprintf("the initial value is %v instead of %v", at(o.St, fresh, fa), in)
			case !sameV(at(o.St, fresh, fb), want):
				det = "the next value of a new latch is not the latch itself"
			case app != 2:
				det = "the latch is not listed"
			case !sameV(o.Ret[0], want):
				det = "another literal is returned"
			}
			r.Ob("latch", fmt.Sprintf("Latch, initially %v: path %d", in, j), det == "", o.Pos, "%s", det)
		}
		if !bad(in) {
			r.Ob("latch", fmt.Sprintf("Latch, initially %v: made", in), n > 0, f.Pos(), "no latch is made for initial value %d", i)
		}
	}
	// SetInit
	f = P.Func("logic", "S.SetInit")
	r.Fn(f)
	for _, k := range kinds {
		if k.typ != "SLatch" {
			continue
		}
		for q, in := range append(append([]V{}, inits...), inits...) {
			E, st := mk()
			put(st, k)
			n := 0
			for j, o := range E.Run(st, f, []V{S, k.v.scale(2).add(lin(int64(q/len(inits))), 1), in}, nil) {
				if o.Kind != "return" {
					continue
				}
				n++
				det := others(o.St, k.v, -1)
				switch {
				case det != "":
				case bad(in):
					det = fmt.Sprintf("%v is taken as an initial value", in)
				case !sameV(at(o.St, k.v, fa), in):
					det = fmt.Sprintf("the initial value becomes %v instead of %v", at(o.St, k.v, fa), in)
				case !sameV(at(o.St, k.v, fb), k.b):
					det = "the next value changes"
				}
				r.Ob("latch", fmt.Sprintf("SetInit %s to %v: path %d", k.name, in, j), det == "", o.Pos, "%s", det)
			}
			if !bad(in) {
				r.Ob("latch", fmt.Sprintf("SetInit %s to %v: set", k.name, in), n > 0, f.Pos(), "the initial value cannot be set")
			}
		}
	}
	// SetNext
	f = P.Func("logic", "S.SetNext")
	r.Fn(f)
	to := litOf(litSym("to", 1), 0)
	for _, k := range kinds {
		if k.typ == "SConst" || k.typ == "SInput" {
			continue
		}
		for q := int64(0); q < 4; q++ {
			s := q % 2 // and the latch is given by either literal
			E, st := mk()
			put(st, k)
			n := 0
			for j, o := range E.Run(st, f, []V{S, k.v.scale(2).add(lin(q/2), 1), to.add(lin(s), 1)}, nil) {
				if o.Kind != "return" {
					continue
				}
				n++
				det := others(o.St, k.v, -1)
				switch {
				case det != "":
				case k.typ == "SAnd":
					det = "a gate is changed as if it were a latch"
				case !sameV(at(o.St, k.v, fb), to.add(lin(s), 1)):
					det = fmt.Sprintf("the next value becomes %v", at(o.St, k.v, fb))
				case !sameV(at(o.St, k.v, fa), k.a):
					det = "the initial value changes"
				}
				r.Ob("latch", fmt.Sprintf("SetNext %s: path %d.%d", k.name, s, j), det == "", o.Pos, "%s", det)
			}
			if k.typ == "SLatch" {
				r.Ob("latch", fmt.Sprintf("SetNext %s: set %d", k.name, s), n > 0, f.Pos(), "the next value cannot be set")
			}
		}
	}
	// Next and Init
	for _, name := range []string{"Next", "Init"} {
		f := P.Func("logic", "S."+name)
		r.Fn(f)
		for _, k := range kinds {
			if k.typ != "SLatch" && (k.typ != "SAnd" || name == "Init") {
				continue
			}
			n := 0
			for sg := int64(0); sg < 2; sg++ {
				E, st := mk()
				put(st, k)
				for j, o := range E.Run(st, f, []V{S, k.v.scale(2).add(lin(sg), 1)}, nil) {
					if o.Kind != "return" {
						continue
					}
					n++
					want := k.b
					if name == "Init" {
						want = k.a
					}
					det := ""
					switch {
					case k.typ == "SAnd":
						det = "a gate has a next value"
					case !sameV(o.Ret[0], want):
						det = fmt.Sprintf("the value is %v instead of %v", o.Ret[0], want)
					case len(o.St.events) > 0:
						det = "the circuit changes"
					}
					r.Ob("latch", fmt.Sprintf("%s of %s: path %d.%d", name, k.name, j, sg), det == "", o.Pos, "%s", det)
				}
			}
			if k.typ == "SLatch" {
				r.Ob("latch", fmt.Sprintf("%s of %s", name, k.name), n > 0, f.Pos(), "there is no answer")
			}
		}
	}
	// Type
	f = P.Func("logic", "S.Type")
	r.Fn(f)
	for _, k := range kinds {
		want := lin(P.ConstVal("logic", k.typ))
		for s := int64(0); s < 2; s++ {
			E, st := mk()
			put(st, k)
			for j, o := range E.Run(st, f, []V{S, k.v.scale(2).add(lin(s), 1)}, nil) {
				det := ""
				if o.Kind != "return" || !sameV(o.Ret[0], want) {
					det = fmt.Sprintf("the kind of a node is taken as %v instead of %v", o.Ret, want)
				}
				r.Ob("kind", fmt.Sprintf("%s: path %d.%d", k.name, s, j), det == "", f.Pos(), "%s", det)
			}
		}
	}
	// Ins
	f = P.Func("logic", "C.Ins")
	r.Fn(f)
	for _, k := range kinds {
		if k.typ != "SInput" && k.typ != "SAnd" {
			continue
		}
		for s := int64(0); s < 2; s++ {
			E, st := mk()
			put(st, k)
			for j, o := range E.Run(st, f, []V{S, k.v.scale(2).add(lin(s), 1)}, nil) {
				det := ""
				if o.Kind != "return" || !(sameV(o.Ret[0], k.a) && sameV(o.Ret[1], k.b) || sameV(o.Ret[0], k.b) && sameV(o.Ret[1], k.a)) {
					det = fmt.Sprintf("the operands are given as %v", o.Ret)
				}
				r.Ob("kind", fmt.Sprintf("operands of %s: path %d.%d", k.name, s, j), det == "", f.Pos(), "%s", det)
			}
		}
	}
	r.Floor("latch", 20)
	r.Floor("kind", 10)
}

func sameSliceLen(E *Interp, st *State, v V, n Lin) bool {
	s, ok := v.(Slice)
	return ok && s.o.id == "S.Latches" && E.eqLin(st, s.len, n)
}
