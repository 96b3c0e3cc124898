package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of one arbitrary iteration of the evaluation loops, for every truth value of the operands (booleans) and over truth tables per bit (words).",
		Run:  runC05})
}

// boolOps makes the negation and equality of booleans exact.
func runC05(r *Report) {
	P := r.P
	c := newCirc(P)
	C := Ptr{o: &Obj{id: "C"}}
	nodesLen := linSym(&Sym{id: "len(nodes)", lo: i64(2)})
	for _, name := range []string{"Eval", "Eval64"} {
		fn := P.Func("logic", "C."+name)
		word := name == "Eval64"
		E := newInterp(P)
		kinds := c.kinds(E)
		vsLen := linSym(&Sym{id: "len(vs)", lo: i64(2)})
		isVs := func(p Ptr) bool { return p.o.id == "vs" && len(p.path) == 1 }
		E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
			if !isVs(p) {
				return kinds(st, p, key, t)
			}
			k := "v:" + p.path[0].idx.String()
			if v := st.kept(k); v != nil {
				return one1(st, v)
			}
			if word {
				n := 0
				for q := range st.mem {
					if strings.HasPrefix(q, "@v:") {
						n++
					}
				}
				if n >= 2 {
					return false, nil
				}
				v := Tab(0xaaaaaaaaaaaaaaaa)
				if n == 1 {
					v = 0xcccccccccccccccc
				}
				st.keep(k, v)
				return one1(st, v)
			}
			_, os := opts(st, Boolv(false), Boolv(true))
			for _, o := range os {
				o.st.keep(k, o.v)
			}
			return true, os
		}
		keepInit(E)
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if isVs(p) {
				st.events = append(st.events, Event{Kind: "set", Args: []V{p.path[0].idx, v}, Pos: pos})
			}
		}
		truth := func(v V) bool {
			if word {
				t, ok := tabOf(v)
				return ok && t == 1<<64-1
			}
			b, ok := v.(Boolv)
			return ok && bool(b)
		}
		loops := 0
		E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			// the constant is set before any gate, and nothing else
			set, det := false, ""
			for _, e := range st.events {
				if l := e.Args[0].(Lin); l.isConst() && l.c == 1 {
					set = truth(e.Args[1])
				} else if !l.isConst() || l.c != 0 {
					det = fmt.Sprintf("the value of %v is changed before the gates", l)
				}
			}
			if !set {
				det = "the constant is not set to true before the gates"
			}
			loops++
			r.Ob("constant", fmt.Sprintf("%s: loop %d", name, loops), det == "", hdr.Instrs[0].Pos(), "%s", det)
			return func(s *State) {
				s.keep("ev", lin(int64(len(s.events))))
				for k := range s.mem {
					if strings.HasPrefix(k, "@v:") {
						delete(s.mem, k)
					}
				}
			}
		}
		n := 0
		var at []Lin
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			var idx Lin
			found := false
			for _, k := range sortedKeys(st.mem) {
				cl := st.mem[k]
				if cl.o != nil && cl.o.id == "nodes" && len(cl.path) >= 2 && cl.key == "field:"+c.node.String()+".a" {
					idx, found = cl.path[len(cl.path)-2].idx, true
				}
			}
			from := 0
			if l, ok := st.kept("ev").(Lin); ok {
				from = int(l.c)
			}
			n++
			det := func() string {
				evs := st.events[from:]
				if !found {
					if len(evs) > 0 {
						return "a value is set for no node"
					}
					// an iteration which skips: it must be one of the first two
					return ""
				}
				nx, ok := E.nextLin(st, phis, idx)
				f, ok2 := firstOf(st, idx)
				if !ok || !ok2 || !E.eqLin(st, nx, idx.add(lin(1), 1)) || !f.isConst() || f.c > 2 {
					return fmt.Sprintf("the nodes are not visited one by one upwards: first %v, %v after %v", f, nx, idx)
				}
				at = append(at, idx)
				a, b := c.nodeIns(st, idx)
				g := isGate(E, st, a)
				if E.geq0(st, lin(1).add(idx, -1)) {
					g = -1
				}
				var got V
				for _, e := range evs {
					l := e.Args[0].(Lin)
					switch {
					case sameV(l, idx):
						got = e.Args[1]
					case l.isConst() && l.c == 1 && truth(e.Args[1]):
					default:
						return fmt.Sprintf("the value of %v is changed at node %v", l, idx)
					}
				}
				switch {
				case g == 0:
					return fmt.Sprintf("the node kind is not decided (operand %v)", a)
				case g < 0 && got != nil:
					return fmt.Sprintf("the value of a node is changed which is not a gate (operand %v)", a)
				case g < 0:
					return ""
				case got == nil:
					return fmt.Sprintf("the value of a gate is not set (operands %v, %v)", a, b)
				}
				// the operands
				var vals [2]V
				for i, x := range []V{a, b} {
					l, ok := x.(Lin)
					if !ok {
						continue
					}
					if l.isConst() && l.c == 0 {
						return "" // a gate has two operands
					}
					v, neg, ok := half(l)
					if !ok {
						continue
					}
					w := st.kept("v:" + v.String())
					switch y := w.(type) {
					case Boolv:
						vals[i] = Boolv(bool(y) != neg)
					case Tab:
						vals[i] = y
						if neg {
							vals[i] = ^y
						}
					}
				}
				if word {
					x, ok1 := vals[0].(Tab)
					y, ok2 := vals[1].(Tab)
					z, ok3 := tabOf(got)
					switch {
					case !ok1 || !ok2:
						return "the value of an operand is not used"
					case !ok3:
						return fmt.Sprintf("the value of a gate is set to %v", got)
					case z != x&y:
						return fmt.Sprintf("the value of a gate with operands %v, %v is not their conjunction", a, b)
					}
					return ""
				}
				z, ok := got.(Boolv)
				if !ok {
					return fmt.Sprintf("the value of a gate is set to %v", got)
				}
				x, ok1 := vals[0].(Boolv)
				y, ok2 := vals[1].(Boolv)
				switch {
				case ok1 && ok2 && z == (x && y):
				case !bool(z) && (ok1 && !bool(x) || ok2 && !bool(y)):
				default:
					return fmt.Sprintf("the value of a gate is %v with operands %v, %v which are %v, %v", z, a, b, vals[0], vals[1])
				}
				return ""
			}()
			r.Ob("gates", fmt.Sprintf("%s: iteration %d", name, n), det == "", fn.Pos(), "%s", det)
		}
		k := 0
		vs := Slice{obj("vs"), Lin{}, vsLen, vsLen}
		for _, o := range E.Run(newState(), fn, []V{C, vs}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			done := false
			for _, i := range at {
				if E.geq0(o.St, i.add(nodesLen, -1)) {
					done = true
				}
			}
			r.Ob("end", fmt.Sprintf("%s: path %d", name, k), done, o.Pos, "the loop over the nodes may end before the last one")
		}
		r.Ob("end", name, k > 0 && n > 0 && loops > 0, fn.Pos(), "no gate is evaluated")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	r.Floor("gates", 8)
	r.Floor("constant", 2)
	r.Floor("end", 2)
	r.Assume("a node is a gate exactly if its first operand is neither null nor constant, and operands come before their gate (C03); the slice of values covers all nodes")
}
