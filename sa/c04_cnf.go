package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of the clause generation: one arbitrary iteration or recursive visit; the clauses sent are compared with the gate's definition by truth table over their symbolic literals.",
		Run:  runC04})
}

// clausesOf groups the literals sent since event number n into clauses.
func clausesOf(st *State, n int) (cs [][]Lin, open bool, bad string) {
	var cur []Lin
	for _, e := range st.events[n:] {
		if e.Kind != "lit" {
			continue
		}
		l, ok := e.Args[0].(Lin)
		if !ok {
			return nil, false, fmt.Sprintf("an unknown literal %v is sent", e.Args[0])
		}
		if l.isConst() && l.c == 0 {
			cs = append(cs, cur)
			cur = nil
			continue
		}
		cur = append(cur, l)
		open = true
	}
	return cs, len(cur) > 0, ""
}

// half gives the variable and the sign of a literal.
func half(l Lin) (Lin, bool, bool) {
	s := ((l.c % 2) + 2) % 2
	v := l.add(lin(s), -1)
	if !v.divisible(2) {
		return Lin{}, false, false
	}
	return divLin(v, 2), s == 1, true
}

// defines tells whether the clauses say exactly g = a and b.
func defines(cs [][]Lin, g, a, b Lin) string {
	vars := map[string]int{}
	num := func(l Lin) (int, bool, bool) {
		v, neg, ok := half(l)
		if !ok {
			return 0, false, false
		}
		k := v.String()
		if _, ok := vars[k]; !ok {
			vars[k] = len(vars)
		}
		return vars[k], neg, true
	}
	type sl struct {
		v   int
		neg bool
	}
	var all [][]sl
	gv, gn, ok1 := num(g)
	av, an, ok2 := num(a)
	bv, bn, ok3 := num(b)
	if !ok1 || !ok2 || !ok3 {
		return "the operands are not literals"
	}
	for _, c := range cs {
		var x []sl
		for _, l := range c {
			v, neg, ok := num(l)
			if !ok {
				return fmt.Sprintf("%v is not a literal", l)
			}
			x = append(x, sl{v, neg})
		}
		all = append(all, x)
	}
	if len(vars) > 8 {
		return "too many variables in the clauses of one gate"
	}
	for row := 0; row < 1<<uint(len(vars)); row++ {
		val := func(v int, neg bool) bool { return (row>>uint(v)&1 == 1) != neg }
		want := val(gv, gn) == (val(av, an) && val(bv, bn))
		got := true
		for _, c := range all {
			sat := false
			for _, l := range c {
				sat = sat || val(l.v, l.neg)
			}
			got = got && sat
		}
		if got != want {
			return fmt.Sprintf("the clauses do not define the gate: with gate %v, operands %v, %v they are %v", val(gv, gn), val(av, an), val(bv, bn), got)
		}
	}
	return ""
}

// nodeIns gives the operands which were read of node v.
func (c *circ) nodeIns(st *State, v Lin) (a, b V) {
	for _, k := range sortedKeys(st.mem) {
		cl := st.mem[k]
		if cl.o == nil || len(cl.path) < 2 {
			continue
		}
		n := len(cl.path)
		if cl.path[n-2].f >= 0 || cl.path[n-2].idx.String() != v.String() {
			continue
		}
		switch cl.key {
		case "field:" + c.node.String() + ".a":
			a = cl.v
		case "field:" + c.node.String() + ".b":
			b = cl.v
		}
	}
	return
}

// isGate: 1 if first operand a makes its node a gate, -1 if not, 0 if unknown.
func isGate(E *Interp, st *State, a V) int {
	l, ok := a.(Lin)
	if !ok {
		return 0
	}
	if l.isConst() {
		if l.c < 4 {
			return -1
		}
		return 1
	}
	if E.geq0(st, l.add(lin(4), -1)) {
		return 1
	}
	if E.geq0(st, lin(3).add(l, -1)) {
		return -1
	}
	// none of the values below 4 which its parity allows
	all := true
	for k := int64(0); k < 4; k++ {
		d := l.add(lin(k), -1)
		if d.c%2 == 0 && !st.notZero(d) && !st.notZero(d.scale(-1)) {
			all = false
		}
	}
	if all {
		return 1
	}
	return 0
}

// operands divides the kinds of nodes: inputs and latches, whose first operand
// is null or constant, and gates.
func (c *circ) kinds(E *Interp) func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
	base := c.load(E)
	return func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if c.isField(p, key, c.node, "a") && !(p.o.zero && !st.dirty[key]) {
			st.seq++
			s := &Sym{id: fmt.Sprintf("a%s#%d", pathStr(p.path), st.seq), lo: i64(2), hi: i64(1 << 30)}
			return opts(st, lin(0), lin(2), lin(3), litOf(s, 0), litOf(s, 1))
		}
		if c.isField(p, key, c.node, "b") && !(p.o.zero && !st.dirty[key]) {
			st.seq++
			s := &Sym{id: fmt.Sprintf("b%s#%d", pathStr(p.path), st.seq), lo: i64(1), hi: i64(1 << 30)}
			return opts(st, litOf(s, 0), litOf(s, 1), lin(0))
		}
		return base(st, p, key, t)
	}
}

// firstOf is the value of an index in the first iteration.
func firstOf(st *State, idx Lin) (Lin, bool) {
	r := idx
	for _, t := range idx.t {
		if n := phiName(t.s.id); n != "" {
			iv, ok := st.mem["@init:"+n].v.(Lin)
			if !ok {
				return r, false
			}
			r = r.add(linSym(t.s), -t.k).add(iv, t.k)
		}
	}
	return r, true
}

func keepInit(E *Interp) {
	E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		st.keep("init:"+phi.Parent().Name()+"."+phi.Name(), init)
		return false, nil
	}
}

func runC04(r *Report) {
	P := r.P
	c := newCirc(P)
	dst := Unk{"dst"}
	C := Ptr{o: &Obj{id: "C"}}
	nodesLen := linSym(&Sym{id: "len(nodes)", lo: i64(2)})
	toCnf, since, from := P.Func("logic", "C.ToCnf"), P.Func("logic", "C.CnfSince"), P.Func("logic", "C.ToCnfFrom")

	send := func(E *Interp, next func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt)) {
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "Add" {
				if u, ok := args[0].(Unk); ok && u.id == "dst" {
					st.events = append(st.events, Event{Kind: "lit", Args: []V{args[1]}, Pos: ci.Pos()})
					return true, []Opt{{st, Tuple{}}}
				}
			}
			if next != nil {
				return next(st, ci, fn, args)
			}
			return false, nil
		}
	}
	nev := func(st *State) int {
		l, _ := st.kept("ev").(Lin)
		return int(l.c)
	}
	// the constant is fixed: the unit clause of the true literal
	constant := func(st *State, n int) bool {
		cs, _, _ := clausesOf(st, n)
		for _, k := range cs {
			if len(k) == 1 && k[0].String() == "2" {
				return true
			}
		}
		return false
	}

	// the whole circuit
	{
		E := newInterp(P)
		E.Load = c.kinds(E)
		keepInit(E)
		send(E, nil)
		E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			return func(s *State) { s.keep("ev", lin(int64(len(s.events)))) }
		}
		var at []Lin
		n := 0
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			n++
			det := ""
			// the node of this iteration
			var idx Lin
			found := false
			for _, k := range sortedKeys(st.mem) {
				cl := st.mem[k]
				if cl.o != nil && cl.o.id == "nodes" && len(cl.path) >= 2 && cl.key == "field:"+c.node.String()+".a" {
					idx, found = cl.path[len(cl.path)-2].idx, true
				}
			}
			cs, open, bad := clausesOf(st, nev(st))
			switch {
			case bad != "":
				det = bad
			case open:
				det = "the last clause of a node is not ended"
			case !found:
				if len(cs) > 0 {
					det = "clauses are sent for no node"
				}
			default:
				a, b := c.nodeIns(st, idx)
				g := isGate(E, st, a)
				switch {
				case g > 0 && E.geq0(st, lin(1).add(idx, -1)):
					// the first two nodes are no gates
					return
				case g == 0:
					det = fmt.Sprintf("the node kind is not decided (operand %v)", a)
				case g < 0 && len(cs) > 0:
					det = fmt.Sprintf("clauses are sent for a node which is not a gate (operand %v)", a)
				case g > 0 && b == nil:
					det = "the clauses of a gate do not read its second operand"
				case g > 0:
					bl, ok := b.(Lin)
					if !ok {
						det = "the second operand is unknown"
					} else if bl.isConst() && bl.c == 0 {
						// a gate always has two operands
						return
					} else {
						det = defines(cs, idx.scale(2), a.(Lin), bl)
					}
				}
				if det == "" {
					nx, ok := E.nextLin(st, phis, idx)
					f, ok2 := firstOf(st, idx)
					at = append(at, idx)
					up := ok && ok2 && E.eqLin(st, nx, idx.add(lin(1), 1)) && f.isConst() && f.c <= 2
					down := ok && ok2 && E.eqLin(st, nx, idx.add(lin(-1), 1)) && E.eqLin(st, f, nodesLen.add(lin(-1), 1))
					if !up && !down {
						det = fmt.Sprintf("the nodes are not visited one by one: first %v, %v after %v", f, nx, idx)
					}
				}
			}
			r.Ob("all-gates", fmt.Sprintf("ToCnf: iteration %d", n), det == "", toCnf.Pos(), "%s", det)
		}
		k := 0
		for _, o := range E.Run(newState(), toCnf, []V{C, dst}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			det := ""
			if !constant(o.St, 0) {
				det = "the constant is not fixed"
			}
			done := false
			for _, i := range at {
				if E.geq0(o.St, i.add(nodesLen, -1)) || E.geq0(o.St, lin(2).add(i, -1)) {
					done = true
				}
			}
			if !done && det == "" {
				det = "the loop over the nodes may end before the last one"
			}
			r.Ob("end", fmt.Sprintf("ToCnf: path %d", k), det == "", o.Pos, "%s", det)
		}
		r.Ob("end", "ToCnf", k > 0 && n > 0, toCnf.Pos(), "nothing is sent")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}

	// the part reachable from roots
	{
		E := newInterp(P)
		kinds := c.kinds(E)
		markLen := linSym(&Sym{id: "len(mark)", lo: i64(0)})
		markCap := linSym(&Sym{id: "cap(mark)", lo: i64(0)})
		E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
			if p.o.id == "roots" && len(p.path) == 1 && isLit(t) {
				s := linSym(&Sym{id: "v(root" + p.path[0].idx.String() + ")", lo: i64(1), hi: i64(1 << 30)})
				st.keep("root", p.path[0].idx)
				st.facts = append(st.facts, nodesLen.add(s, -1).add(lin(1), -1))
				_, os := opts(st, s.scale(2), s.scale(2).add(lin(1), 1))
				for _, o := range os {
					o.st.keep("rootv", o.v)
				}
				return true, os
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int8 {
				if st.kept("old") != nil {
					return false, nil
				}
				// a mark: set by an earlier visit or call, or not
				_, os := opts(st, lin(0), lin(1))
				for _, o := range os {
					o.st.keep("mark:"+cellKey(p), o.v)
				}
				return true, os
			}
			return kinds(st, p, key, t)
		}
		keepInit(E)
		var vis *ssa.Function
		send(E, func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "logic" {
				return false, nil
			}
			for _, f := range E.stack {
				if f == fn {
					// a visit of an operand
					vis = fn
					l := args[len(args)-1]
					for _, a := range args {
						if x, ok := a.(Lin); ok {
							l = x
						}
					}
					st.events = append(st.events, Event{Kind: "visit", Args: []V{l}, Pos: ci.Pos()})
					if v := ci.Value(); v != nil && v.Type() != nil && fn.Signature.Results().Len() > 0 {
						return true, []Opt{{st, E.Unknown(st, "visit", v.Type())}}
					}
					return true, []Opt{{st, Tuple{}}}
				}
			}
			return false, nil
		})
		marks := func(st *State, v Lin) (was, now V) {
			for _, k := range sortedKeys(st.mem) {
				cl := st.mem[k]
				if cl.o == nil || len(cl.path) != 1 || !strings.HasSuffix(cl.key, "int8") || cl.path[0].idx.String() != v.String() {
					continue
				}
				now = cl.v
				if m, ok := st.mem["@mark:"+k]; ok {
					was = m.v
				}
			}
			return
		}
		// the mark of the constant, found and left
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if strings.HasSuffix(key, "int8") && len(p.path) == 1 && p.path[0].idx.String() == "1" {
				st.keep("cmark", v)
			}
		}
		n := 0
		judge := func(st *State, from int) string {
			m, ok := st.kept("rootv").(Lin)
			if !ok {
				return "a root is not visited"
			}
			v, _, _ := half(m)
			cs, open, bad := clausesOf(st, from)
			was, now := marks(st, v)
			switch {
			case bad != "":
				return bad
			case open:
				return "the last clause is not ended"
			case was == nil:
				return "it is not looked up whether the node was visited before"
			case was.String() == "1":
				if len(cs) > 0 {
					return "clauses are sent for a node which was visited before"
				}
				return ""
			case now == nil || now.String() != "1":
				return fmt.Sprintf("a visited node is left with mark %v", now)
			}
			a, b := c.nodeIns(st, v)
			switch g := isGate(E, st, a); {
			case g == 0:
				return fmt.Sprintf("the node kind is not decided (operand %v)", a)
			case g < 0:
				if len(cs) > 0 {
					return "clauses are sent for a node which is not a gate"
				}
				return ""
			}
			bl, ok := b.(Lin)
			if !ok {
				return "the clauses of a gate do not read its second operand"
			}
			if bl.isConst() && bl.c == 0 {
				return ""
			}
			for i, x := range []Lin{a.(Lin), bl} {
				xv, _, _ := half(x)
				done := false
				for _, e := range st.events[from:] {
					if l, ok := e.Args[0].(Lin); ok && e.Kind == "visit" {
						if ev, _, ok := half(l); ok && sameV(ev, xv) {
							done = true
						}
					}
				}
				if !done {
					return fmt.Sprintf("operand %d of a gate is not visited", i+1)
				}
			}
			return defines(cs, v.scale(2), a.(Lin), bl)
		}
		E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			return func(s *State) { s.keep("ev", lin(int64(len(s.events)))) }
		}
		var at []Lin
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			idx, ok := st.mem["@root"].v.(Lin)
			if !ok {
				return
			}
			n++
			det := judge(st, nev(st))
			if det == "" {
				at = append(at, idx)
				nx, ok1 := E.nextLin(st, phis, idx)
				f, ok2 := firstOf(st, idx)
				if !ok1 || !ok2 || !E.eqLin(st, nx, idx.add(lin(1), 1)) || !E.eqLin(st, f, lin(0)) {
					det = fmt.Sprintf("the roots are not visited one by one: first %v, %v after %v", f, nx, idx)
				}
			}
			r.Ob("reachable-gates", fmt.Sprintf("CnfSince: iteration %d", n), det == "", since.Pos(), "%s", det)
		}
		roots := Slice{obj("roots"), Lin{}, linSym(&Sym{id: "len(roots)", lo: i64(0)}), linSym(&Sym{id: "cap(roots)", lo: i64(0)})}
		st := newState()
		st.facts = append(st.facts, markCap.add(markLen, -1))
		mark := Slice{obj("mark"), Lin{}, markLen, markCap}
		k := 0
		for _, o := range E.Run(st, since, []V{C, dst, mark, roots}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			det := ""
			was, now := V(nil), V(nil)
			s, ok := o.Ret[0].(Slice)
			if ok {
				for _, k := range sortedKeys(o.St.mem) {
					if cl := o.St.mem[k]; strings.HasPrefix(k, "@mark:") && strings.HasSuffix(k, "[1]") {
						was = cl.v
					}
				}
				now = o.St.kept("cmark")
				if now == nil {
					now = was
				}
			}
			sent := constant(o.St, 0)
			switch {
			case !ok:
				det = fmt.Sprintf("the marks returned are %v", o.Ret[0])
			case !E.eqLin(o.St, s.len, nodesLen) || !E.eqLin(o.St, s.off, lin(0)):
				det = fmt.Sprintf("the marks returned have length %v", s.len)
			case now == nil || now.String() != "1":
				det = "the constant is not marked"
			case (was == nil || was.String() != "1") && !sent:
				det = "the constant is not fixed"
			}
			done := false
			for _, i := range at {
				if E.geq0(o.St, i.add(roots.len.(Lin), -1)) {
					done = true
				}
			}
			if !done && det == "" {
				det = "not every root is visited"
			}
			r.Ob("end", fmt.Sprintf("CnfSince: path %d", k), det == "", o.Pos, "%s", det)
		}
		r.Ob("end", "CnfSince", k > 0 && n > 0 && vis != nil, since.Pos(), "nothing is visited")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	// the marks of earlier calls are kept, and no other node is marked: the
	// marks at the return when there are no roots
	{
		E := newInterp(P)
		kinds := c.kinds(E)
		for _, later := range []bool{false, true} {
			markLen := linSym(&Sym{id: "len(mark)", lo: i64(0)})
			markCap := linSym(&Sym{id: "cap(mark)", lo: i64(0)})
			old := linSym(&Sym{id: "node", lo: i64(2)})
			val := linSym(&Sym{id: "mark of the node"})
			E = newInterp(P)
			E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
				if p.o.id == "mark" && len(p.path) == 1 {
					if sameV(p.path[0].idx, old) {
						return one1(st, val)
					}
					st.seq++
					return one1(st, linSym(&Sym{id: fmt.Sprintf("mark#%d", st.seq)}))
				}
				return kinds(st, p, key, t)
			}
			keepInit(E)
			zeroed := map[string][2]Lin{}
			E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
				if p.o.id == "mark" && len(p.path) == 1 && v.String() == "0" {
					st.keep("zero:"+p.path[0].idx.String(), p.path[0].idx)
				}
			}
			E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
				// a loop which clears marks
				for _, ks := range sortedKeys(st.mem) {
					cl := st.mem[ks]
					if cl.o == nil || cl.o.id != "mark" || len(cl.path) != 1 {
						continue
					}
					idx := cl.path[0].idx
					if _, is := firstOf(st, idx); !is || len(idx.t) == 0 {
						continue
					}
					f, _ := firstOf(st, idx)
					nx, ok := E.nextLin(st, phis, idx)
					if cl.v.String() == "0" && ok && E.eqLin(st, nx, idx.add(lin(1), 1)) && !sameV(f, idx) {
						zeroed[idx.String()] = [2]Lin{f, idx}
					}
				}
			}
			send(E, nil)
			// without roots nothing but the first test of the loop over them
			E.Peel = func(fn *ssa.Function, hdr *ssa.BasicBlock) bool { return true }
			roots := Slice{obj("roots"), Lin{}, lin(0), lin(0)}
			st := newState()
			st.facts = append(st.facts, markCap.add(markLen, -1), nodesLen.add(old, -1).add(lin(1), -1))
			if later {
				st.facts = append(st.facts, old.add(markLen, -1))
			} else {
				st.facts = append(st.facts, markLen.add(old, -1).add(lin(1), -1))
			}
			k := 0
			what := "earlier marks are kept"
			if later {
				what = "new nodes are not marked"
			}
			for _, o := range E.Run(st, since, []V{C, dst, Slice{obj("mark"), Lin{}, markLen, markCap}, roots}, nil) {
				if o.Kind != "return" {
					continue
				}
				k++
				det := ""
				s, ok := o.Ret[0].(Slice)
				if !ok {
					det = fmt.Sprintf("the marks returned are %v", o.Ret[0])
				} else {
					key := "elem:int8"
					now := E.load(o.St, Ptr{s.o, []pe{{f: -1, idx: s.off.add(old, 1)}}}, key, types.Typ[types.Int8])[0].v
					switch {
					case later && s.o.id == "mark":
						// the storage of the caller: cleared by a loop
						det = "the mark of a new node is what the storage held before"
						if now.String() == "0" {
							det = ""
						}
						for k, cl := range o.St.mem {
							if l, ok := cl.v.(Lin); ok && strings.HasPrefix(k, "@zero:") && E.eqLin(o.St, l, old) {
								det = ""
							}
						}
						for _, z := range zeroed {
							for {
								l, ok := o.St.kept("zero:" + z[0].add(lin(-1), 1).String()).(Lin)
								if !ok {
									break
								}
								z[0] = l
							}
							if E.geq0(o.St, old.add(z[0], -1)) && E.geq0(o.St, z[1].add(old, -1).add(lin(1), -1)) {
								det = ""
							}
						}
					case later:
						if now.String() != "0" {
							det = fmt.Sprintf("the mark of a new node is %v", now)
						}
					case s.o.id == "mark":
						// cleared by no loop
						for _, z := range zeroed {
							if !E.geq0(o.St, z[0].add(old, -1).add(lin(1), -1)) && !E.geq0(o.St, old.add(z[1], -1)) {
								det = "the mark of an earlier node is cleared"
							}
						}
						if !sameV(now, val) && len(zeroed) == 0 {
							det = fmt.Sprintf("the mark of an earlier node is %v", now)
						}
					default:
						if !sameV(now, val) {
							det = fmt.Sprintf("the mark of an earlier node is %v", now)
						}
					}
				}
				r.Ob("marks", fmt.Sprintf("%s: path %d", what, k), det == "", o.Pos, "%s", det)
			}
			r.Ob("marks", what, k > 0, since.Pos(), "no path was found")
		}
	}
	// from roots: all of the roots, no marks
	{
		E := newInterp(P)
		E.Load = c.load(E)
		n := 0
		roots := Slice{obj("roots"), Lin{}, linSym(&Sym{id: "len(roots)", lo: i64(0)}), linSym(&Sym{id: "cap(roots)", lo: i64(0)})}
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn != since {
				return false, nil
			}
			n++
			s, ok := args[3].(Slice)
			m := args[2]
			_, isnil := m.(Nilv)
			if ms, ok := m.(Slice); ok && E.eqLin(st, ms.len, lin(0)) {
				isnil = true
			}
			r.Ob("from", "ToCnfFrom", ok && s.o.id == "roots" && sameV(s.len, roots.len) && isnil && args[1].String() == dst.String(), ci.Pos(), "the roots %v are passed on with marks %v", args[3], m)
			return true, []Opt{{st, Tuple{m, lin(0)}}}
		}
		E.Run(newState(), from, []V{C, dst, roots}, nil)
		r.Ob("from", "ToCnfFrom passes on", n > 0, from.Pos(), "the roots are not visited")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	r.Floor("all-gates", 4)
	r.Floor("reachable-gates", 6)
	r.Floor("marks", 4)
	r.Floor("end", 4)
	r.Assume("a node is a gate exactly if its first operand is neither null nor constant (C03); a gate has a second operand; operands come before their gate, so that visits end; marks are 0 or 1")
}
