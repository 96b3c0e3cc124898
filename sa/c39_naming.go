package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C39", Level: "other",
		Rule: "Abstract interpretation over go/ssa of the operations which build and name an AIGER object, with arbitrary positions and names.",
		Run:  runC39})
}

func runC39(r *Report) {
	P := r.P
	T := Ptr{o: obj("T")}
	kinds := []string{"Input", "Latch", "Output", "Bad", "Constraint", "Justice", "Fair"}
	lists := map[string]string{"Input": "T.Inputs", "Latch": "S.Latches", "Output": "T.Outputs", "Bad": "T.Bad",
		"Constraint": "T.Constraints", "Justice": "T.Justice", "Fair": "T.Fair"}
	mk := func() (*emitter, *State) {
		e := newObserver(P)
		e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
			if strings.HasPrefix(p.o.id, "g:") && t.String() == "error" {
				return one1(st, Tag{"uniq:a named error " + p.o.id})
			}
			if name == "T.symbols" {
				return one1(st, Tag{"symbols"})
			}
			return false, nil
		}
		e.E.Lookup = func(st *State, in *ssa.Lookup, m, k V) (bool, []Opt) {
			if m.String() == (Tag{"symbols"}).String() {
				v := V(Tag{"table " + k.String()})
				if in.CommaOk {
					v = Tuple{v, Boolv(true)}
				}
				return one1(st, v)
			}
			v := V(Tuple{Strv("entry"), m, k})
			if in.CommaOk {
				s2 := st.clone()
				e.log(st, "has", m, k)
				e.log(s2, "hasnot", m, k)
				return true, []Opt{{st, Tuple{v, Boolv(true)}}, {s2, Tuple{Strv(""), Boolv(false)}}}
			}
			return one1(st, v)
		}
		set := func(st *State, m, k, v V) { e.log(st, "map", m, k, v) }
		e.E.MapSet = func(st *State, m, k, v V, pos token.Pos) { set(st, m, k, v) }
		return e, newState()
	}
	isNewline := func(v V) bool {
		if s, ok := strConst(v); ok {
			return s == "\n"
		}
		l, ok := v.(Lin)
		return ok && sameV(l, lin('\n'))
	}
	// whether the name has a line break
	model := func(e *emitter, nm V) {
		e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			n := calleeName(ci, fn)
			if !strings.HasPrefix(n, "strings.") || len(args) != 2 || !sameV(args[0], nm) || !isNewline(args[1]) {
				return false, nil
			}
			var y, no V
			switch strings.TrimPrefix(n, "strings.") {
			case "Contains", "ContainsRune", "ContainsAny":
				y, no = Boolv(true), Boolv(false)
			case "Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte":
				y, no = linSym(&Sym{id: "at", lo: i64(0)}), lin(-1)
			case "Count":
				y, no = linSym(&Sym{id: "count", lo: i64(1)}), lin(0)
			default:
				return false, nil
			}
			s2 := st.clone()
			e.log(st, "break")
			e.log(s2, "whole")
			return true, []Opt{{st, y}, {s2, no}}
		}
	}
	tables := map[string]string{}
	used := map[string]bool{}
	for _, k := range kinds {
		fn, get := P.Func(aigerPkg, "T.Name"+k), P.Func(aigerPkg, "T."+k+"Name")
		r.Fn(fn)
		r.Fn(get)
		idx, nm := linSym(&Sym{id: "index"}), Unk{"name"}
		e, st := mk()
		model(e, nm)
		n := linSym(&Sym{id: "len(" + lists[k] + ")", lo: i64(0)})
		seen := map[string]int{}
		tab, bad := "", ""
		for _, o := range e.E.Run(st, fn, []V{T, idx, nm}, nil) {
			if o.Kind != "return" {
				if o.Kind == "panic" {
					bad = "it may panic"
				} else {
					bad = "not analysed to its end"
				}
				continue
			}
			s, evs := o.St, o.St.events
			in := e.E.geq0(s, idx) && e.E.geq0(s, n.add(idx, -1).add(lin(1), -1))
			out := e.E.geq0(s, idx.scale(-1).add(lin(1), -1)) || e.E.geq0(s, idx.add(n, -1))
			brk, whole := len(evsOf(evs, "break")) > 0, len(evsOf(evs, "whole")) > 0
			ms := evsOf(evs, "map")
			_, isNil := o.Ret[0].(Nilv)
			switch {
			case len(evsOf(evs, "fset"))+len(evsOf(evs, "set")) > 0:
				bad = "something other than the name changes"
			case out || brk:
				seen["refused"]++
				if isNil || !nonNil(o.Ret[0]) {
					bad = fmt.Sprintf("no error for an index out of range or a name with a line break (%v)", o.Ret[0])
				} else if len(ms) > 0 {
					bad = "a name is entered and an error reported"
				}
			case in && whole:
				seen["named"]++
				if !isNil {
					bad = "an error for a name which is fine"
				} else if len(ms) == 0 {
					bad = "the name is not entered"
				} else {
					last := ms[len(ms)-1]
					if len(ms) > 1 || !sameV(last.Args[1], idx) || !sameV(last.Args[2], nm) {
						bad = fmt.Sprintf("%v is entered at %v", last.Args[2], last.Args[1])
					}
					if t := last.Args[0].String(); tab != "" && tab != t {
						bad = "the name is entered in different tables"
					} else {
						tab = t
					}
				}
			case !isNil && nonNil(o.Ret[0]):
				bad = "an error for a name which may be fine"
			default:
				bad = "a name is accepted without looking at the index and the name"
			}
		}
		if bad == "" && (seen["refused"] < 3 || seen["named"] == 0) {
			bad = "not all indices are decided"
		}
		r.Ob("name", k, bad == "", fn.Pos(), "%s", bad)
		for f := range e.E.Funcs {
			r.Fn(f)
		}

		// reading the name
		bad = ""
		e, st = mk()
		nr := 0
		for _, o := range e.E.Run(st, get, []V{T, idx}, nil) {
			if o.Kind != "return" {
				bad = "it does not return"
				continue
			}
			nr++
			v, ok := o.Ret[0].(Tuple)
			entry := ok && len(v) == 3 && v[0] == V(Strv("entry")) && v[1].String() == tab && sameV(v[2], idx)
			text, _ := strConst(o.Ret[0])
			has, hasnot := evsOf(o.St.events, "has"), evsOf(o.St.events, "hasnot")
			switch {
			case len(evsOf(o.St.events, "map"))+len(evsOf(o.St.events, "set"))+len(evsOf(o.St.events, "fset")) > 0:
				bad = "reading a name changes something"
			case len(has)+len(hasnot) != 1 || append(has, hasnot...)[0].Args[0].String() != tab || !sameV(append(has, hasnot...)[0].Args[1], idx):
				bad = "another entry is looked at"
			case len(has) == 1 && (!entry || !sameV(o.Ret[1], Boolv(true))):
				bad = fmt.Sprintf("an existing name gives %v, %v", o.Ret[0], o.Ret[1])
			case len(hasnot) == 1 && (!entry && text != "" || !sameV(o.Ret[1], Boolv(false))):
				bad = fmt.Sprintf("a name which does not exist gives %v, %v", o.Ret[0], o.Ret[1])
			}
		}
		r.Ob("read back", k, bad == "" && nr > 0, get.Pos(), "%s", bad)
		for k2, t2 := range tables {
			if t2 == tab {
				r.Ob("own table", k, false, fn.Pos(), "shares its table with %s", k2)
			}
		}
		want := Tag{"table " + lin(int64(strings.ToLower(k)[0])).String()}.String() // the letter of the format
		r.Ob("own table", k, tab == want, fn.Pos(), "the table is %s, not %s", tab, want)
		tables[k] = tab
		used[tab] = true
	}
	r.Floor("name", 7)
	r.Floor("read back", 7)
	r.Floor("own table", 7)

	// outputs and inputs which are added
	ext := func(name, fn, field string, self bool) {
		f := P.Func(aigerPkg, fn)
		r.Fn(f)
		e, st := mk()
		m := linSym(&Sym{id: "m", lo: i64(2), hi: i64(1 << 31)})
		lit := P.Func("logic", "C.Lit")
		fresh := linSym(&Sym{id: "fresh", lo: i64(2), hi: i64(1 << 30)}).scale(2)
		made := 0
		e.E.NoMods = map[*ssa.Function]bool{lit: true}
		e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == lit {
				made++
				return one1(st, fresh)
			}
			return false, nil
		}
		args, want := []V{T, m}, m
		if self {
			args, want = []V{T}, fresh
		}
		bad, n := "", 0
		l := linSym(&Sym{id: "len(" + field + ")", lo: i64(0)})
		for _, o := range e.E.Run(st, f, args, nil) {
			if o.Kind != "return" {
				bad = "it does not return"
				continue
			}
			n++
			fs := evsOf(o.St.events, "fset")
			if len(fs) != 1 || fs[0].Args[0] != V(Strv(field)) {
				bad = fmt.Sprintf("the list %s is not extended, or something else changes", field)
				continue
			}
			s, ok := fs[0].Args[1].(Slice)
			if !ok || !e.E.eqLin(o.St, s.len, l.add(lin(1), 1)) || s.o.id != field {
				bad = fmt.Sprintf("the list becomes %v", fs[0].Args[1])
				continue
			}
			x := elem(o.St, s.o.id, s.off.add(l, 1))
			if x == nil || !sameV(x, want) {
				bad = fmt.Sprintf("%v is added instead of %v", x, want)
			}
			if self && (len(o.Ret) != 1 || !sameV(o.Ret[0], want) || made == 0) {
				bad = "the result is not the new input"
			}
		}
		r.Ob("extend", name, bad == "" && n > 0, f.Pos(), "%s", bad)
	}
	ext("an output", "T.SetOutput", "T.Outputs", false)
	ext("an input", "T.NewIn", "T.Inputs", true)
	r.Floor("extend", 2)

	// an object for a circuit
	f := P.Func(aigerPkg, "MakeFor")
	r.Fn(f)
	e, st := mk()
	length, at, typ := P.Func("logic", "C.Len"), P.Func("logic", "C.At"), P.Func("logic", "S.Type")
	e.E.NoMods = map[*ssa.Function]bool{length: true, at: true, typ: true}
	nodes := linSym(&Sym{id: "nodes", lo: i64(2), hi: i64(1 << 30)})
	e.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case nil:
		case length:
			return one1(st, nodes)
		case at:
			l, ok := args[1].(Lin)
			if !ok {
				return false, nil
			}
			e.log(st, "at", l)
			return one1(st, l.scale(2))
		case typ:
			var os []Opt
			for _, n := range []string{"SInput", "SLatch", "SAnd", "SConst"} {
				s := st.clone()
				e.log(s, "type", args[1], Strv(n))
				os = append(os, Opt{s, lin(P.ConstVal("logic", n))})
			}
			return true, os
		}
		return false, nil
	}
	callsAt := func(fn *ssa.Function, hdr *ssa.BasicBlock) bool {
		bs := map[*ssa.BasicBlock]bool{}
		for _, t := range fn.Blocks {
			for _, s := range t.Succs {
				if s == hdr && hdr.Dominates(t) {
					for b := range loopBlocks(hdr, map[*ssa.BasicBlock]bool{t: true}) {
						bs[b] = true
					}
				}
			}
		}
		for b := range bs {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					return true
				}
			}
		}
		return false
	}
	e.E.UnrollLoop = func(fn *ssa.Function, hdr *ssa.BasicBlock) (bool, int) {
		if fn == f && !callsAt(fn, hdr) {
			return true, 9
		}
		return false, 0
	}
	n := linSym(&Sym{id: "len(ms)", lo: i64(0)})
	ms := Slice{obj("ms"), Lin{}, n, n}
	a := &aigerR{origin: map[string]string{}}
	bad, rets, badIn, iters := "", 0, "", 0
	for _, o := range e.E.Run(st, f, []V{Ptr{o: obj("S")}, ms}, nil) {
		if o.Kind == "limit" {
			bad = "not analysed to its end"
		}
		if o.Kind != "return" {
			continue
		}
		rets++
		res, ok := o.Ret[0].(Ptr)
		if !ok {
			bad = fmt.Sprintf("gives %v", o.Ret[0])
			continue
		}
		fld := func(n string) V {
			i := fieldIndex(P, aigerPkg, "T", n)
			if c, ok := o.St.mem[cellKey(Ptr{res.o, append(append([]pe(nil), res.path...), pe{f: i})})]; ok {
				return c.v
			}
			return nil
		}
		if p, ok := fld("S").(Ptr); !ok || p.o.id != "S" {
			bad = "it is of another circuit"
		}
		outs, ok := fld("Outputs").(Slice)
		switch {
		case !ok || !e.E.eqLin(o.St, outs.len, n):
			bad = "the outputs are not the literals given"
		case outs.o.id == "ms":
			bad = "the outputs share the memory of the literals given"
		default:
			b, ok := o.St.mem[outs.o.id+"#base"]
			t, ok2 := b.v.(Tuple)
			var src Slice
			if ok2 && len(t) == 3 {
				src, _ = t[0].(Slice)
			}
			if !ok || src.o == nil || src.o.id != "ms" || !sameV(src.off, lin(0)) || !sameV(t[1], lin(0)) || !e.E.eqLin(o.St, t[2], n) {
				bad = fmt.Sprintf("the outputs are not the literals given: %v", b.v)
			}
		}
		for _, n := range []string{"Bad", "Constraints", "Justice", "Fair"} {
			switch v := fld(n).(type) {
			case Slice:
				if !e.E.eqLin(o.St, v.len, lin(0)) {
					bad = n + " is not empty"
				}
			case nil, Nilv:
			default:
				bad = fmt.Sprintf("%s is %v", n, v)
			}
		}
		made := map[string]string{}
		sym := fld("symbols")
		for _, ev := range evsOf(o.St.events, "map") {
			if sym != nil && ev.Args[0].String() == sym.String() {
				made["table "+ev.Args[1].String()] = ev.Args[2].String()
			}
		}
		own := map[string]bool{}
		for t := range used {
			m := made[strings.TrimPrefix(t, "#")]
			if !strings.HasPrefix(m, "?map#") || own[m] {
				bad = fmt.Sprintf("%s has no table of its own (%v)", t, made)
			}
			own[m] = true
		}
		// the inputs
		in, _ := fld("Inputs").(Slice)
		for _, lp := range evsOf(o.St.events, "loop") {
			for _, b := range e.recs[string(lp.Args[0].(Strv))] {
				ats := evsOf(b.evs, "at")
				if len(ats) == 0 {
					continue
				}
				iters++
				i := ats[0].Args[0].(Lin)
				isIn := false
				for _, t := range evsOf(b.evs, "type") {
					if sameV(t.Args[0], i.scale(2)) && t.Args[1] == V(Strv("SInput")) {
						isIn = true
					}
				}
				ap := a.appended(b, i.scale(2))
				nx, ok := e.E.nextLin(b.st, b.phis, i)
				first, ok2 := firstOf(b.st, i)
				into := false
				for name, ob := range ap {
					into = into || name == "T.Inputs" || in.o == ob
				}
				switch {
				case !ok || !e.E.eqLin(b.st, nx, i.add(lin(1), 1)):
					badIn = fmt.Sprintf("after node %v comes %v", i, nx)
				case !ok2 || !first.isConst() || first.c > 2:
					badIn = fmt.Sprintf("the first node is %v", first)
				case !e.E.geq0(o.St, i.add(nodes, -1)):
					badIn = "it may end before the last node"
				case isIn && !into:
					badIn = "an input is left out"
				case !isIn && (len(ap) > 0 || len(grown(b)) > 0):
					badIn = "a node which is no input is among the inputs"
				}
			}
		}
	}
	r.Ob("new object", "what it holds", bad == "" && rets > 0, f.Pos(), "%s", bad)
	r.Ob("new object", "its inputs", badIn == "" && iters >= 4, f.Pos(), "%s (%d kinds of iteration)", badIn, iters)
	r.Floor("new object", 2)
	for g := range e.E.Funcs {
		r.Fn(g)
	}
	r.Assume("a table is made for every kind of name when the object is made")
}
