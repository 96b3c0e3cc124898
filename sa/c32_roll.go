package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C32", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of one arbitrary step of the unrolling, with its recursive calls replaced by their contract; every kind of node, every sign, every depth.",
		Run:  runC32})
}

func runC32(r *Report) {
	P := r.P
	c := newCirc(P)
	fn := P.Func("logic", "Roll.At")
	and, lit := P.Func("logic", "C.And"), P.Func("logic", "C.Lit")
	T := P.Type("logic", "Roll")
	fS, fC, fD := "field:"+T.String()+".S", "field:"+T.String()+".C", "field:"+T.String()+".dmap"
	P.Field("logic", "Roll", "dmap")
	n := 0
	kindsSeen := map[string]int{}
	for neg := int64(0); neg < 2; neg++ {
		v := linSym(&Sym{id: "v", lo: i64(1), hi: i64(1 << 30)})
		d := linSym(&Sym{id: "d", lo: i64(0), hi: i64(1 << 40)})
		rowObj := obj("row")
		have := linSym(&Sym{id: "len(dmap[v])", lo: i64(0), hi: i64(1 << 40)})
		E := newInterp(P)
		kinds := c.kinds(E)
		fresh := func(st *State, id string) (bool, []Opt) {
			st.seq++
			s := litSym(fmt.Sprintf("%s#%d", id, st.seq), 1)
			return opts(st, litOf(s, 0), litOf(s, 1))
		}
		E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
			switch {
			case key == fS:
				return one1(st, Ptr{o: &Obj{id: "S"}})
			case key == fC:
				return one1(st, Ptr{o: &Obj{id: "C"}})
			case key == fD:
				l := linSym(&Sym{id: "len(dmap)", lo: i64(1)})
				return one1(st, Slice{obj("dmap"), Lin{}, l, l})
			case p.o.id == "dmap" && len(p.path) == 1 && sameV(p.path[0].idx, st.kept("v")):
				return one1(st, Slice{rowObj, Lin{}, st.kept("have"), linSym(&Sym{id: "cap(dmap[v])", lo: i64(0)})})
			case p.o.id == "row" && isLit(t):
				for _, k := range sortedKeys(st.mem) {
					if q := st.mem[k]; q.o == p.o && len(q.path) == 1 && E.eqLin(st, q.path[0].idx, p.path[0].idx) {
						return one1(st, q.v)
					}
				}
				st.keep("stored:"+p.path[0].idx.String(), p.path[0].idx)
				_, os := fresh(st, "stored")
				for _, o := range os {
					o.st.keep("old", Tuple{p.path[0].idx, o.v})
				}
				return true, os
			}
			return kinds(st, p, key, t)
		}
		E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
			switch f {
			case fn:
				v, d := st.kept("v").(Lin), st.kept("d").(Lin)
				row := Ptr{obj("dmap"), []pe{{f: -1, idx: v}}}
				x, ok1 := args[1].(Lin)
				e, ok2 := args[2].(Lin)
				if !ok1 || !ok2 {
					panic(undecided("arguments of the recursion"))
				}
				xv, sg, ok := half(x)
				_, before := st.kept("before").(Lin)
				if ok && sameV(xv, v) && !before {
					// the earlier depths of the literal itself
					rl := E.load(st, row, "elem:[]"+P.Type("z", "Lit").String(), nil2(P))[0].v.(Slice)
					det := ""
					switch {
					case !E.eqLin(st, e, d.add(lin(-1), 1)):
						det = fmt.Sprintf("the literal is unrolled to depth %v first", e)
					case !E.geq0(st, e.add(rl.len.(Lin), -1)):
						return false, nil
					}
					r.Ob("earlier", "At", det == "", ci.Pos(), "%s", det)
					st.keep("before", e)
					st.mem[cellKey(row)] = cell{row.o, row.path, "elem:[]z.Lit", Slice{rl.o, rl.off, e.add(lin(1), 1), rl.cap}}
				}
				_, os := fresh(st, "at")
				for _, o := range os {
					o.st.events = append(o.st.events, Event{Kind: "at", Args: []V{xv, e, Boolv(sg), o.v}, Pos: ci.Pos()})
				}
				return true, os
			case and:
				_, os := fresh(st, "and")
				for _, o := range os {
					o.st.events = append(o.st.events, Event{Kind: "and", Args: []V{args[0], args[1], args[2], o.v}, Pos: ci.Pos()})
				}
				return true, os
			case lit:
				st.seq++
				x := litOf(litSym(fmt.Sprintf("input#%d", st.seq), 1), 0)
				st.events = append(st.events, Event{Kind: "lit", Args: []V{args[0], x}, Pos: ci.Pos()})
				return one1(st, x)
			}
			return false, nil
		}
		st0 := newState()
		st0.keep("v", v)
		st0.keep("d", d)
		st0.keep("have", have)
		m := v.scale(2).add(lin(neg), 1)
		for _, o := range E.Run(st0, fn, []V{Ptr{o: &Obj{id: "roll"}}, m, d}, nil) {
			if o.Kind != "return" {
				continue
			}
			st := o.St
			// what they are on this path
			v, d, have := st.kept("v").(Lin), st.kept("d").(Lin), st.kept("have").(Lin)
			n++
			kind, det := func() (string, string) {
				res, ok := o.Ret[0].(Lin)
				if !ok {
					return "?", fmt.Sprintf("the result is %v", o.Ret[0])
				}
				signed := func(x V) bool {
					l, ok := x.(Lin)
					if !ok {
						return false
					}
					// the same or the opposite literal
					h, s, ok := half(l)
					if !ok {
						return false
					}
					want := h.scale(2)
					if s != (neg == 1) {
						want = want.add(lin(1), 1)
					}
					return sameV(res, want)
				}
				// what became of the stored values
				var rs Slice
				stored := false
				for _, k := range sortedKeys(st.mem) {
					if q := st.mem[k]; q.o != nil && q.o.id == "dmap" && len(q.path) == 1 {
						rs, stored = q.v.(Slice)
					}
				}
				if old, ok := st.kept("old").(Tuple); ok && E.eqLin(st, old[0].(Lin), d) && signed(old[1]) {
					if stored && !sameV(rs.len, have) {
						return "stored", "a stored depth is stored again"
					}
					if !E.geq0(st, have.add(d, -1).add(lin(-1), 1)) {
						return "stored", "a depth is read which may not be stored"
					}
					return "stored", ""
				}
				if E.geq0(st, have.add(d, -1).add(lin(-1), 1)) {
					return "stored", "the stored literal is not the result"
				}
				// a new depth
				var want V
				kind := ""
				isConst := E.eqLin(st, v, lin(1))
				a, b := c.nodeIns(st, v)
				al, _ := a.(Lin)
				bl, _ := b.(Lin)
				calls := func(x, e Lin) V {
					xv, sg, _ := half(x)
					for _, ev := range st.events {
						if ev.Kind == "at" && sameV(ev.Args[0], xv) && E.eqLin(st, ev.Args[1].(Lin), e) {
							l := ev.Args[3].(Lin)
							if bool(ev.Args[2].(Boolv)) != sg {
								if h, s, _ := half(l); s {
									l = h.scale(2)
								} else {
									l = h.scale(2).add(lin(1), 1)
								}
							}
							return l
						}
					}
					return nil
				}
				input := func() V {
					for _, ev := range st.events {
						if p, ok := ev.Args[0].(Ptr); ev.Kind == "lit" && ok && p.o.id == "C" {
							return ev.Args[1]
						}
					}
					return nil
				}
				switch {
				case isConst:
					kind, want = "constant", lin(2)
				case !st.notZero(v.add(lin(-1), 1)) && !E.geq0(st, v.add(lin(-2), 1)):
					return "?", "the constant is not told from other variables"
				case a == nil && b == nil:
					return "?", "the node is not read"
				case b != nil && bl.isConst() && bl.c == 0:
					kind = "input"
					if a != nil && !(al.isConst() && al.c == 0) {
						return "skip", "" // no such node
					}
					want = input()
				case a != nil && isGate(E, st, a) > 0:
					kind = "gate"
					if b == nil {
						return kind, "the second operand of a gate is not read"
					}
					x, y := calls(al, d), calls(bl, d)
					if x == nil || y == nil {
						return kind, "an operand of a gate is not unrolled at the same depth"
					}
					for _, ev := range st.events {
						p, ok := ev.Args[0].(Ptr)
						if ev.Kind != "and" || !ok || p.o.id != "C" {
							continue
						}
						if sameV(ev.Args[1], x) && sameV(ev.Args[2], y) || sameV(ev.Args[1], y) && sameV(ev.Args[2], x) {
							want = ev.Args[3]
						}
					}
					if want == nil {
						return kind, "a gate is not the conjunction of its operands"
					}
				case a == nil && b != nil:
					// latch or gate: only the next state depends on it
					return "?", "the node kind is not decided"
				case isGate(E, st, a) < 0 && b != nil:
					switch {
					case E.eqLin(st, d, lin(0)):
						kind = "initial"
						switch al.c {
						case 0:
							want = input()
						default:
							want = al
						}
					case E.geq0(st, d.add(lin(-1), 1)) || st.notZero(d):
						kind = "next"
						want = calls(bl, d.add(lin(-1), 1))
						if want == nil {
							return kind, "the next state is not unrolled at the depth before"
						}
					default:
						return "latch", "the initial state is not told from later ones"
					}
				default:
					return "?", fmt.Sprintf("the node kind is not decided (%v, %v)", a, b)
				}
				if want == nil {
					return kind, "there is no new input"
				}
				if kind != "input" && !(kind == "initial" && al.c == 0) {
					for _, ev := range st.events {
						if ev.Kind == "lit" {
							return kind, "a new input is made"
						}
					}
				}
				if !signed(want) {
					return kind, fmt.Sprintf("the result is %v instead of %v with the sign of the literal", res, want)
				}
				// and it is stored, without the sign
				if !stored {
					return kind, "the result is not stored"
				}
				rl, ok := rs.len.(Lin)
				if !ok || !E.eqLin(st, rl, d.add(lin(1), 1)) {
					return kind, fmt.Sprintf("%v depths are stored after depth %v", rs.len, d)
				}
				var got V
				for _, k := range sortedKeys(st.mem) {
					q := st.mem[k]
					if q.o == rs.o && len(q.path) == 1 && E.eqLin(st, q.path[0].idx, rs.off.add(d, 1)) {
						got = q.v
					}
				}
				if !sameV(got, want) {
					return kind, fmt.Sprintf("%v is stored instead of %v", got, want)
				}
				return kind, ""
			}()
			if kind == "skip" {
				continue
			}
			kindsSeen[kind]++
			r.Ob("step", fmt.Sprintf("At: %s: path %d", kind, n), det == "", o.Pos, "%s", det)
		}
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	for _, k := range []string{"stored", "constant", "input", "initial", "next", "gate"} {
		r.Ob("kinds", k, kindsSeen[k] > 0, fn.Pos(), "no path handles this kind of node")
	}
	// the table covers every variable, and its length is reported
	{
		nr := P.Func("logic", "NewRoll")
		E := newInterp(P)
		E.Load = c.load(E)
		nodesLen := linSym(&Sym{id: "len(nodes)", lo: i64(2)})
		k := 0
		E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
			if f == nil || P.pkgOf(f) != "logic" || !strings.HasPrefix(f.Name(), "NewC") {
				return false, nil
			}
			return one1(st, Ptr{o: &Obj{id: "newC"}})
		}
		for _, o := range E.Run(newState(), nr, []V{Ptr{o: &Obj{id: "S"}}}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			p, ok := o.Ret[0].(Ptr)
			det := "the result is unknown"
			if ok {
				get := func(name string) V {
					q := Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: fieldIndex(P, "logic", "Roll", name)})}
					return o.St.mem[cellKey(q)].v
				}
				s, ok1 := get("dmap").(Slice)
				sp, ok2 := get("S").(Ptr)
				cp, ok3 := get("C").(Ptr)
				det = ""
				switch {
				case !ok1 || !E.geq0(o.St, s.len.(Lin).add(nodesLen, -1)) || !s.o.zero:
					det = "the table does not have an empty row for each variable"
				case !ok2 || sp.o.id != "S":
					det = "the sequential circuit is not recorded"
				case !ok3 || cp.o.id != "newC":
					det = "there is no new circuit"
				}
			}
			r.Ob("table", fmt.Sprintf("NewRoll: path %d", k), det == "", o.Pos, "%s", det)
		}
		r.Ob("table", "NewRoll", k > 0, nr.Pos(), "no path was found")
	}
	r.Floor("step", 12)
	r.Floor("earlier", 1)
	r.Assume("unrolling at a depth stores exactly the depths up to it and leaves longer rows as they are (the induction: what a gate depends on at one depth does not contain the gate itself)")
	_ = token.NoPos
}

// nil2 is the type of a row of literals.
func nil2(P *Prog) types.Type { return types.NewSlice(P.Type("z", "Lit")) }
