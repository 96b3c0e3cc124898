package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Level: "other",
		Rule: "The tables which the code indexes by a variable or a literal are found from the types of all index expressions; abstract interpretation over go/ssa of the growth of the solver then shows that each is long enough for every variable below the new capacity and keeps its entries, and that every literal which enters the solver is covered before it is used as an index.",
		Run:  runC16})
}

type table struct {
	T, f string
	k    int64
	uses int
}

// indexed finds the slice fields of components of pkg which are indexed by
// variables (1) or literals (2).
func indexed(P *Prog, pkg string) []*table {
	m := map[string]*table{}
	for _, f := range P.Funcs {
		if p := fnPkg(f); p == nil || p.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				var k int64
				switch {
				case isLit(ia.Index.Type()):
					k = 2
				case isVar(ia.Index.Type()):
					k = 1
				default:
					continue
				}
				u, ok := ia.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(deref(fa.X.Type()))
				if n == nil {
					continue
				}
				fl := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				id := n.Obj().Name() + "." + fl
				if m[id] == nil {
					m[id] = &table{T: n.Obj().Name(), f: fl}
				}
				if k > m[id].k {
					m[id].k = k
				}
				m[id].uses++
			}
		}
	}
	var r []*table
	for _, t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].T+r[i].f < r[j].T+r[j].f })
	return r
}

func runC16(r *Report) {
	P := r.P
	ens := P.Func(xoPkg, "S.ensureLitCap")
	push := P.Func(xoPkg, "Guess.Push")
	all := indexed(P, xoPkg)
	// components of a solver
	comp := map[string]bool{"Vars": true, "Cdb": true, "Trail": true, "Guess": true, "Deriver": true, "Active": true}
	var tabs []*table
	for _, t := range all {
		if comp[t.T] {
			tabs = append(tabs, t)
		}
	}
	byID := map[string]*table{}
	for _, t := range tabs {
		byID[t.T+"."+t.f] = t
	}
	for _, t := range []*table{{"Trail", "D", 1, 0}, {"Deriver", "Lvls", 1, 0}} {
		if byID[t.T+"."+t.f] == nil {
			P.Field(xoPkg, t.T, t.f)
			tabs = append(tabs, t)
		}
	}
	r.Count("tables", len(tabs))
	sym := func(n string, lo int64) Lin { return linSym(&Sym{id: n, lo: i64(lo), hi: i64(1 << 29)}) }
	top0 := linSym(&Sym{id: "Vars.Top", lo: i64(1), hi: i64(1 << 30)})
	setF := func(st *State, T, f string, v V) {
		p := Ptr{obj(T), []pe{{f: fieldIndex(P, xoPkg, T, f)}}}
		st.mem[cellKey(p)] = cell{p.o, p.path, "field:" + P.Type(xoPkg, T).String() + "." + f, v}
	}
	init := func() *State {
		st := newState()
		setF(st, "Vars", "Top", top0)
		mx := linSym(&Sym{id: "Vars.Max", lo: i64(0), hi: i64(1 << 30)})
		setF(st, "Vars", "Max", mx)
		st.facts = append(st.facts, top0.add(mx, -1).add(lin(1), -1))
		for _, t := range tabs {
			l := linSym(&Sym{id: "len(" + t.T + "." + t.f + ")", lo: i64(0)})
			st.facts = append(st.facts, l.add(top0.scale(t.k), -1))
		}
		return st
	}
	heap := func() *xoHeap {
		h := newXO(P)
		h.Nil["S.Active"] = true
		h.E.NoMods = map[*ssa.Function]bool{push: true}
		h.E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
			st.keep("init:"+phi.Parent().Name()+"."+phi.Name(), init)
			return false, nil
		}
		return h
	}
	v := sym("v(m)", 1)
	neg := v.scale(2).add(lin(1), 1)
	anyFunc := map[*ssa.Function]bool{}
	// growth: one run per table
	for _, t := range tabs {
		h := heap()
		E := h.E
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == push {
				return true, []Opt{{st, Tuple{}}}
			}
			return false, nil
		}
		if t.T != "Guess" {
			// the heap is not of interest
			skip := P.TryFunc(xoPkg, "Guess.growToVar")
			prev := E.Call
			E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
				if fn != nil && fn == skip {
					return true, []Opt{{st, Tuple{}}}
				}
				return prev(st, ci, fn, args)
			}
		} else if hp := P.TryFunc(xoPkg, "Guess.heapify"); hp != nil {
			prev := E.Call
			E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
				if fn == hp {
					return true, []Opt{{st, Tuple{}}}
				}
				return prev(st, ci, fn, args)
			}
		}
		name := t.T + "." + t.f
		ft := P.Type(xoPkg, t.T).Underlying().(*types.Struct).Field(fieldIndex(P, xoPkg, t.T, t.f)).Type()
		et := ft.Underlying().(*types.Slice).Elem()
		j := sym("j", 0)
		st := init()
		st.facts = append(st.facts, top0.scale(t.k).add(j, -1).add(lin(1), -1))
		key := "elem:" + et.String()
		n := 0
		for _, b := range E.load(st, Ptr{obj(name), []pe{{f: -1, idx: j}}}, key, et) {
			old := b.v
			b.st.keep("old", old)
			b.st.keep("j", j)
			b.st.keep("v", v)
			b.st.keep("top0", top0)
			for _, o := range E.Run(b.st, ens, []V{h.ptr("S"), neg}, nil) {
				if o.Kind != "return" {
					continue
				}
				s := o.St
				top, _ := fieldV(s, P, xoPkg, "Vars", "Top").(Lin)
				if t.T == "Active" {
					if c, ok := s.mem[fmt.Sprintf("S.%d", fieldIndex(P, xoPkg, "S", "Active"))]; ok {
						if _, null := c.v.(Nilv); null {
							continue
						}
					} else if !sameV(top, s.kept("top0")) {
						r.Ob("table", name, false, o.Pos, "the activation tables do not grow")
						continue
					}
				}
				n++
				sl, ok := fieldV(s, P, xoPkg, t.T, t.f).(Slice)
				if !ok {
					sl = Slice{obj(name), Lin{}, linSym(&Sym{id: "len(" + name + ")", lo: i64(0)}), Lin{}}
				}
				l, ok := sl.len.(Lin)
				vv, tt := s.kept("v").(Lin), s.kept("top0").(Lin)
				c := fmt.Sprintf("%s, path %d", name, n)
				switch {
				case !ok || !E.geq0(s, l.add(top.scale(t.k), -1)):
					r.Ob("table", c, false, o.Pos, "the table has length %v for capacity %v (%d entries per variable are used)", sl.len, top, t.k)
				case !E.geq0(s, top.add(vv, -1).add(lin(1), -1)):
					r.Ob("table", c, false, o.Pos, "the capacity %v may not cover variable %v", top, vv)
				default:
					r.Ob("table", c, true, o.Pos, "")
				}
				if sl.o.id == name || name == "Guess.pos" {
					continue
				}
				os := E.load(s, Ptr{sl.o, []pe{{f: -1, idx: sl.off.add(s.kept("j").(Lin), 1)}}}, key, et)
				same := len(os) > 0
				var got V
				for _, x := range os {
					if got = x.v; x.v.String() != x.st.kept("old").String() {
						same = false
					}
				}
				_ = tt
				r.Ob("content", c, same, o.Pos, "entry %v of the table was %v, after growing it is %v", s.kept("j"), s.kept("old"), got)
			}
		}
		r.Ob("grown", name, n > 1, ens.Pos(), "no path grows the table")
		for f := range E.Funcs {
			anyFunc[f] = true
		}
	}
	// the variables which become known are made decidable
	inPlace := false
	{
		h := heap()
		E := h.E
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == push {
				st.events = append(st.events, Event{Kind: "push", Args: []V{args[1]}})
				return true, []Opt{{st, Tuple{}}}
			}
			if fn != nil && fn.Name() == "growToVar" {
				if strings.Contains(fn.String(), "Vars)") {
					return false, nil
				}
				return true, []Opt{{st, Tuple{}}}
			}
			return false, nil
		}
		maxCell := Ptr{obj("Vars"), []pe{{f: fieldIndex(P, xoPkg, "Vars", "Max")}}}
		E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			if !calleesIn(blocks)[push] {
				return nil
			}
			iv := fieldV(st, P, xoPkg, "Vars", "Max")
			return func(s *State) {
				if fieldV(s, P, xoPkg, "Vars", "Max") != nil {
					return // not changed by the loop
				}
				s.keep("first", iv)
				os := E.load(s, maxCell, "field:"+P.Type(xoPkg, "Vars").String()+".Max", P.Type("z", "Var"))
				s.keep("at", os[0].v)
			}
		}
		n := 0
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			fs := calleesIn(loopBlocks(hdr, E.backEdges(hdr.Parent())[hdr]))
			if !fs[push] {
				return
			}
			n++
			if nv := fieldV(st, P, xoPkg, "Vars", "Max"); nv != nil {
				st.keep("now", nv)
				// counted up in place, never beyond the variable
				at, ok1 := st.kept("at").(Lin)
				now, ok2 := nv.(Lin)
				if ok1 && ok2 && E.eqLin(st, now, at.add(lin(1), 1)) && E.geq0(st, st.kept("v").(Lin).add(now, -1)) {
					inPlace = true
				}
			}
			det := "a new variable is not made decidable"
			for _, e := range st.events {
				if e.Kind != "push" {
					continue
				}
				l, ok := e.Args[0].(Lin)
				if !ok || !l.divisible(2) {
					continue
				}
				x := divLin(l, 2)
				for _, k := range counters(st, phis) {
					hv, nl, iv := k.at, k.next, k.first
					d := x.add(hv, -1)
					if !d.isConst() {
						continue
					}
					first := iv.add(d, 1)
					mx := linSym(&Sym{id: "Vars.Max", lo: i64(0), hi: i64(1 << 30)})
					switch {
					case E.eqLin(st, nl, hv.add(lin(1), 1)) && E.eqLin(st, first, mx.add(lin(1), 1)):
						det = ""
					case E.eqLin(st, nl, hv.add(lin(-1), 1)) && E.eqLin(st, first, v):
						det = ""
					}
				}
			}
			r.Ob("decidable", fmt.Sprintf("iteration %d", n), det == "", ens.Pos(), "%s", det)
		}
		k := 0
		st := init()
		st.keep("v", v)
		mx := linSym(&Sym{id: "Vars.Max", lo: i64(0), hi: i64(1 << 30)})
		st.keep("max", mx)
		for _, o := range E.Run(st, ens, []V{h.ptr("S"), neg}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			s := o.St
			vv, m0 := s.kept("v").(Lin), s.kept("max").(Lin)
			m1, _ := fieldV(s, P, xoPkg, "Vars", "Max").(Lin)
			det := ""
			if at, ok := s.kept("at").(Lin); ok && inPlace && sameV(at, m1) && E.geq0(s, m1.add(vv, -1)) {
				r.Ob("max", fmt.Sprintf("path %d", k), true, o.Pos, "")
				continue
			}
			grew := E.geq0(s, vv.add(m0, -1).add(lin(1), -1))
			switch {
			case grew && !E.eqLin(s, m1, vv):
				det = fmt.Sprintf("after variable %v the greatest variable is %v", vv, m1)
			case !grew && !(E.eqLin(s, m1, m0) && E.geq0(s, m0.add(vv, -1))):
				det = fmt.Sprintf("the greatest variable changes from %v to %v for variable %v", m0, m1, vv)
			}
			if grew && det == "" {
				// the loop over the new variables ran to its end
				det = "the variables which become known are not made decidable up to the last"
				if at, ok := s.kept("at").(Lin); ok && E.geq0(s, at.add(vv, -1)) {
					det = "" // counted up in place
				}
				for _, f := range s.facts {
					for _, t := range f.t {
						n := phiName(t.s.id)
						if n == "" {
							continue
						}
						x := linSym(t.s)
						iv, ok := s.mem["@init:"+n].v.(Lin)
						if !ok {
							continue
						}
						d := iv.add(m0, -1)
						up := d.isConst() && E.geq0(s, x.add(lin(1-d.c), 1).add(vv, -1).add(lin(1), -1))
						d2 := iv.add(vv, -1)
						down := d2.isConst() && E.geq0(s, m0.add(x, -1).add(lin(d2.c), 1))
						if up || down {
							det = ""
						}
					}
				}
			}
			r.Ob("max", fmt.Sprintf("path %d", k), det == "", o.Pos, "%s", det)
		}
		for f := range E.Funcs {
			anyFunc[f] = true
		}
	}
	// entries
	{
		mk := func(list bool) (*xoHeap, *int) {
			h := heap()
			n := new(int)
			adds := map[*ssa.Function]bool{P.Func(xoPkg, "Cdb.Add"): true, P.Func(xoPkg, "Active.ActivateWith"): true}
			h.E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
				switch {
				case fn == push:
					st.keep("pushed", args[1])
					return true, []Opt{{st, Tuple{}}}
				case fn != nil && fn.Name() == "growToVar" && !strings.Contains(fn.String(), "Vars)"):
					return true, []Opt{{st, Tuple{}}}
				case adds[fn]:
					top, ok := fieldV(st, P, xoPkg, "Vars", "Top").(Lin)
					l := args[1].(Lin)
					det := ""
					if ok2 := l.divisible(2); !ok || !ok2 || !h.E.geq0(st, top.add(divLin(l, 2), -1).add(lin(1), -1)) {
						det = fmt.Sprintf("literal %v is used although the capacity is %v", l, top)
					} else if mx, ok := fieldV(st, P, xoPkg, "Vars", "Max").(Lin); !ok || !h.E.geq0(st, mx.add(divLin(l, 2), -1)) {
						det = fmt.Sprintf("literal %v is used although the greatest variable is %v", l, mx)
					}
					*n++
					r.Ob("entry", fmt.Sprintf("%s from %s, path %d", fn.Name(), h.E.stack[0].Name(), *n), det == "", ci.Pos(), "%s", det)
					if fn.Name() == "Add" {
						return true, []Opt{{st, Tuple{lin(0), lin(0)}}}
					}
					return true, []Opt{{st, Tuple{}}}
				case fn != nil && fn.Name() == "ensure0":
					return true, []Opt{{st, Tuple{}}}
				}
				return false, nil
			}
			h.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
				if calleesIn(blocks)[push] {
					st.keep("pushloop", lin(1)) // judged above
				}
				return nil
			}
			return h, n
		}
		for _, c := range []string{"Add", "ActivateWith"} {
			h, n := mk(false)
			fn := P.Func(xoPkg, "S."+c)
			h.E.Run(init(), fn, []V{h.ptr("S"), neg}, nil)
			r.Ob("entry", c, *n > 0, fn.Pos(), "the literal is not passed on")
		}
		// assumptions
		h, _ := mk(true)
		h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
			if p.o.id == "ms" && isLit(t) {
				s := linSym(&Sym{id: "v(" + name + ")", lo: i64(1), hi: i64(1 << 29)})
				pos := p.path[0].idx
				_, os := opts(st, s.scale(2), s.scale(2).add(lin(1), 1))
				for _, o := range os {
					o.st.keep("lit", o.v)
					o.st.keep("pos", pos)
				}
				return true, os
			}
			return false, nil
		}
		fn := P.Func(xoPkg, "S.Assume")
		k := 0
		each, all := 0, 0
		asCell := Ptr{obj("S"), []pe{{f: fieldIndex(P, xoPkg, "S", "assumes")}}}
		asType := types.NewSlice(P.Type("z", "Lit"))
		h.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			if !calleesIn(blocks)[ens] {
				return nil
			}
			return func(s *State) {
				os := h.E.load(s, asCell, "field:"+P.Type(xoPkg, "S").String()+".assumes", asType)
				s.keep("assumes", os[0].v)
			}
		}
		h.E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			l, ok := st.mem["@lit"].v.(Lin)
			if !ok || !calleesIn(loopBlocks(hdr, h.E.backEdges(hdr.Parent())[hdr]))[ens] {
				return
			}
			k++
			top, _ := fieldV(st, P, xoPkg, "Vars", "Top").(Lin)
			det := ""
			if !h.E.geq0(st, top.add(divLin(l, 2), -1).add(lin(1), -1)) {
				det = fmt.Sprintf("assumption %v is not covered by the capacity %v", l, top)
			} else if mx, ok := fieldV(st, P, xoPkg, "Vars", "Max").(Lin); !ok || !h.E.geq0(st, mx.add(divLin(l, 2), -1)) {
				det = fmt.Sprintf("assumption %v is made although the greatest variable is %v", l, mx)
			}
			adv := false
			for phi, nv := range phis {
				hv, ok1 := st.top().env[phi].(Lin)
				nl, ok2 := nv.(Lin)
				iv, ok3 := st.mem["@init:"+string(phi2name(phi))].v.(Lin)
				if ok1 && ok2 && ok3 && iv.isConst() && h.E.eqLin(st, nl, hv.add(lin(1), 1)) && h.E.eqLin(st, st.kept("pos"), hv.add(lin(-iv.c), 1)) {
					adv = true
				}
			}
			if !adv && det == "" {
				det = "not every assumption is visited"
			}
			r.Ob("entry", fmt.Sprintf("Assume, iteration %d", k), det == "", fn.Pos(), "%s", det)
			all++
			was, ok1 := st.kept("assumes").(Slice)
			now, ok2 := fieldV(st, P, xoPkg, "S", "assumes").(Slice)
			if ok1 && ok2 && was.o.id == now.o.id && was.off.String() == now.off.String() {
				wl, ok1 := was.len.(Lin)
				if ok1 && h.E.eqLin(st, now.len, wl.add(lin(1), 1)) && h.E.eqLin(st, elem(st, now.o.id, now.off.add(wl, 1)), l) {
					each++
				}
			}
		}
		ms := Slice{obj("ms"), Lin{}, linSym(&Sym{id: "len(ms)", lo: i64(0)}), linSym(&Sym{id: "cap(ms)", lo: i64(0)})}
		n := 0
		for _, o := range h.E.Run(init(), fn, []V{h.ptr("S"), ms}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			as, ok := fieldV(o.St, P, xoPkg, "S", "assumes").(Slice)
			det := "the assumptions are not recorded"
			if all > 0 && each == all {
				det = ""
			}
			if ok {
				for _, e := range o.St.events {
					if e.Kind != "copy" {
						continue
					}
					d, ok1 := e.Args[0].(Slice)
					s, ok2 := e.Args[1].(Slice)
					if ok1 && ok2 && s.o.id == "ms" && sameV(s.len, ms.len) && sameV(s.off, lin(0)) && sameV(d.off, linSym(&Sym{id: "len(S.assumes)", lo: i64(0)})) &&
						sameV(as.len, linSym(&Sym{id: "len(S.assumes)", lo: i64(0)}).add(ms.len.(Lin), 1)) {
						det = ""
					}
				}
			}
			r.Ob("recorded", fmt.Sprintf("Assume, path %d", n), det == "", o.Pos, "%s", det)
		}
		r.Ob("entry", "Assume", k > 0 && n > 0, fn.Pos(), "no iteration over the assumptions was found")
		// fresh variables
		lf := P.Func(xoPkg, "S.Lit")
		h2, _ := mk(false)
		n = 0
		st := init()
		st.keep("max", linSym(&Sym{id: "Vars.Max", lo: i64(0), hi: i64(1 << 30)}))
		for _, o := range h2.E.Run(st, lf, []V{h2.ptr("S")}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			want := o.St.kept("max").(Lin).add(lin(1), 1).scale(2)
			top, _ := fieldV(o.St, P, xoPkg, "Vars", "Top").(Lin)
			m1, _ := fieldV(o.St, P, xoPkg, "Vars", "Max").(Lin)
			det := ""
			switch {
			case !h2.E.eqLin(o.St, o.Ret[0], want):
				det = fmt.Sprintf("the literal %v is not the next free one, %v", o.Ret[0], want)
			case !h2.E.geq0(o.St, top.add(divLin(want, 2), -1).add(lin(1), -1)):
				det = fmt.Sprintf("the capacity %v does not cover the fresh variable", top)
			case !h2.E.eqLin(o.St, m1, divLin(want, 2)) && !(inPlace && h2.E.geq0(o.St, m1.add(divLin(want, 2), -1))):
				det = fmt.Sprintf("the fresh variable is not recorded as used (%v)", m1)
			case o.St.kept("pushloop") == nil && !sameV(o.St.kept("pushed"), want):
				det = "the fresh variable is not made available for decisions"
			}
			r.Ob("fresh", fmt.Sprintf("path %d", n), det == "", o.Pos, "%s", det)
		}
		for _, e := range []*Interp{h.E, h2.E} {
			for f := range e.Funcs {
				anyFunc[f] = true
			}
		}
	}
	// new tables
	{
		h := heap()
		E := h.E
		at := func(st *State, p V, T, f string) V {
			q, ok := p.(Ptr)
			if !ok {
				return Top{}
			}
			i := fieldIndex(P, xoPkg, T, f)
			ft := P.Type(xoPkg, T).Underlying().(*types.Struct).Field(i).Type()
			os := E.load(st, Ptr{q.o, append(append([]pe(nil), q.path...), pe{f: i})}, "field:"+P.Type(xoPkg, T).String()+"."+f, ft)
			return os[0].v
		}
		covers := func(rule, name string, st *State, p V, t *table, top V, pos token.Pos) {
			sl, _ := at(st, p, t.T, t.f).(Slice)
			l, ok1 := sl.len.(Lin)
			tl, ok2 := top.(Lin)
			r.Ob(rule, name, ok1 && ok2 && E.geq0(st, l.add(tl.scale(t.k), -1)), pos, "the new table has length %v for capacity %v (%d entries per variable are used)", sl.len, top, t.k)
		}
		mk := P.Func(xoPkg, "NewSVc")
		n := 0
		for _, o := range E.Run(newState(), mk, []V{sym("vars", 0), sym("clauses", 0)}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			vars := at(o.St, o.Ret[0], "S", "Vars")
			top := at(o.St, vars, "Vars", "Top")
			parts := map[string]V{"Vars": vars, "Cdb": at(o.St, o.Ret[0], "S", "Cdb"), "Trail": at(o.St, o.Ret[0], "S", "Trail"),
				"Guess": at(o.St, o.Ret[0], "S", "Guess"), "Deriver": at(o.St, o.Ret[0], "S", "Driver")}
			for _, t := range tabs {
				if p, ok := parts[t.T]; ok {
					covers("new", fmt.Sprintf("%s.%s of a new solver, path %d", t.T, t.f, n), o.St, p, t, top, mk.Pos())
				}
			}
		}
		for _, c := range []string{"Activate", "ActivationLit", "ActivateWith", "Deactivate"} {
			fn := P.Func(xoPkg, "S."+c)
			h := heap()
			E = h.E
			E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
				switch {
				case fn == nil || fn.Signature.Recv() == nil:
				case isNamed(deref(fn.Signature.Recv().Type()), xoPkg, "Active"):
					vars := at(st, h.ptr("S"), "S", "Vars")
					top := at(st, vars, "Vars", "Top")
					if q, ok := args[0].(Ptr); ok && q.o.id != "Active" {
						for _, t := range tabs {
							if t.T == "Active" {
								covers("new", fmt.Sprintf("%s.%s when %s is called from %s", t.T, t.f, fn.Name(), c), st, q, t, top, ci.Pos())
							}
						}
					}
					if fn.Signature.Results().Len() == 0 {
						return true, []Opt{{st, Tuple{}}}
					}
					return true, []Opt{{st, E.Unknown(st, fn.Name(), fn.Signature.Results().At(0).Type())}}
				case fn == ens || fn.Name() == "ensure0":
					return true, []Opt{{st, Tuple{}}}
				}
				return false, nil
			}
			args := []V{h.ptr("S")}
			if fn.Signature.Params().Len() > 0 {
				args = append(args, neg)
			}
			E.Run(newState(), fn, args, nil)
			for f := range E.Funcs {
				anyFunc[f] = true
			}
		}
	}
	for f := range anyFunc {
		r.Fn(f)
	}
	r.Floor("table", 20)
	r.Floor("content", 8)
	r.Floor("grown", 10)
	r.Floor("decidable", 1)
	r.Floor("max", 2)
	r.Floor("entry", 6)
	r.Floor("recorded", 1)
	r.Floor("fresh", 1)
	r.Floor("new", 15)
	r.Assume("variables are below 2^29")
	_ = token.NoPos
}

type counter struct{ at, next, first Lin }

// counters are the integers which step in a loop: its phis, and the greatest
// variable if it is counted up in place.
func counters(st *State, phis map[*ssa.Phi]V) []counter {
	var r []counter
	for phi, nv := range phis {
		hv, ok1 := st.top().env[phi].(Lin)
		nl, ok2 := nv.(Lin)
		iv, ok3 := st.mem["@init:"+string(phi2name(phi))].v.(Lin)
		if ok1 && ok2 && ok3 {
			r = append(r, counter{hv, nl, iv})
		}
	}
	if at, ok := st.kept("at").(Lin); ok {
		iv, ok1 := st.kept("first").(Lin)
		nl, ok2 := st.kept("now").(Lin)
		if ok1 && ok2 {
			r = append(r, counter{at, nl, iv})
		}
	}
	return r
}

func phi2name(phi *ssa.Phi) nameV { return nameV(phi.Parent().Name() + "." + phi.Name()) }

type nameV string

func (n nameV) String() string { return string(n) }
