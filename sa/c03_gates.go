package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// circ prepares abstract circuits for the interpreter.
type circ struct {
	P              *Prog
	C, node        *types.Named
	fNodes, fF, fT int
	na, nb         *types.Var
}

func newCirc(P *Prog) *circ {
	c := &circ{P: P, C: P.Type("logic", "C"), node: P.Type("logic", "node")}
	c.fNodes = fieldIndex(P, "logic", "C", "nodes")
	c.fF = fieldIndex(P, "logic", "C", "F")
	c.fT = fieldIndex(P, "logic", "C", "T")
	c.na = P.Field("logic", "node", "a")
	c.nb = P.Field("logic", "node", "b")
	return c
}

func fieldIndex(P *Prog, pkg, typ, field string) int {
	v := P.Field(pkg, typ, field)
	st := P.Type(pkg, typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == v {
			return i
		}
	}
	panic(unresolved(field))
}

// isCField tells whether p addresses field i of a circuit.
func (c *circ) isField(p Ptr, key string, owner *types.Named, name string) bool {
	return key == "field:"+owner.String()+"."+name
}

func litSym(id string, lo int64) *Sym { return &Sym{id: id, lo: i64(lo), hi: i64(1 << 30)} }

// litOf is the literal of variable s with a sign.
func litOf(s *Sym, neg int64) Lin { return linSym(s).scale(2).add(lin(neg), 1) }

// load is the default view of a circuit in memory: constants are the fixed
// literals, operands of nodes are arbitrary.
func (c *circ) load(E *Interp) func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
	return func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		switch {
		case c.isField(p, key, c.C, "F"):
			return true, []Opt{{st, lin(3)}}
		case c.isField(p, key, c.C, "T"):
			return true, []Opt{{st, lin(2)}}
		case c.isField(p, key, c.C, "nodes"):
			if len(p.path) == 0 {
				return false, nil
			}
			return true, []Opt{{st, Slice{&Obj{id: "nodes"}, Lin{}, linSym(&Sym{id: "len(nodes)", lo: i64(2)}), linSym(&Sym{id: "cap(nodes)", lo: i64(2)})}}}
		case c.isField(p, key, c.node, "a") || c.isField(p, key, c.node, "b"):
			if p.o.zero && !st.dirty[key] {
				return false, nil
			}
			st.seq++
			s := &Sym{id: fmt.Sprintf("in%s#%d", pathStr(p.path), st.seq), lo: i64(0), hi: i64(1 << 30)}
			st2 := st.clone()
			return true, []Opt{{st, litOf(s, 0)}, {st2, litOf(s, 1)}}
		}
		return false, nil
	}
}

// value gives the truth value of literal v under the gates of memory.
func (c *circ) value(E *Interp, st *State, v V) (bool, bool) {
	if b, ok := E.tv(st, v); ok {
		return b, true
	}
	l, ok := v.(Lin)
	if !ok || !l.divisible(2) {
		return false, false
	}
	s := l.c & 1
	half := divLin(l.add(lin(s), -1), 2)
	a, b := V(nil), V(nil)
	for _, cl := range st.mem {
		if cl.o == nil || len(cl.path) == 0 {
			continue
		}
		n := len(cl.path)
		if n < 2 || cl.path[n-2].f >= 0 || cl.path[n-2].idx.String() != half.String() {
			continue
		}
		if cl.key == "field:"+c.node.String()+".a" {
			a = cl.v
		}
		if cl.key == "field:"+c.node.String()+".b" {
			b = cl.v
		}
	}
	if a == nil || b == nil {
		return false, false
	}
	x, ok1 := E.tv(st, a)
	y, ok2 := E.tv(st, b)
	if !ok1 || !ok2 {
		return false, false
	}
	return (x && y) != (s == 1), true
}

type litArg struct {
	name string
	v    V
	val  bool
}

// litArgs partitions the possible identities and values of two literals.
func litArgs() [][2]litArg {
	var firsts []litArg
	firsts = append(firsts, litArg{"true", lin(2), true}, litArg{"false", lin(3), false})
	for s := int64(0); s < 2; s++ {
		for v := 0; v < 2; v++ {
			firsts = append(firsts, litArg{fmt.Sprintf("a(sign %d, value %v)", s, v == 1), litOf(litSym("A", 2), s), v == 1})
		}
	}
	var res [][2]litArg
	for _, f := range firsts {
		res = append(res, [2]litArg{f, {"true", lin(2), true}}, [2]litArg{f, {"false", lin(3), false}})
		for s := int64(0); s < 2; s++ {
			for v := 0; v < 2; v++ {
				res = append(res, [2]litArg{f, {fmt.Sprintf("b(sign %d, value %v)", s, v == 1), litOf(litSym("B", 2), s), v == 1}})
			}
		}
		if l, ok := f.v.(Lin); ok && !l.isConst() {
			res = append(res, [2]litArg{f, {"same " + f.name, f.v, f.val}})
			n := l.add(lin(1), 1)
			if l.c == 1 {
				n = l.add(lin(1), -1)
			}
			res = append(res, [2]litArg{f, {"not " + f.name, n, !f.val}})
		}
	}
	return res
}

// setVal fixes the value of the variable of a symbolic literal.
func setVal(st *State, a litArg) {
	l, ok := a.v.(Lin)
	if !ok || l.isConst() {
		return
	}
	half := divLin(l.add(lin(l.c&1), -1), 2)
	st.val[half.String()] = nodeval{half, a.val != (l.c&1 == 1)}
}

func init() {
	register(&Check{ID: "C03", Level: "other",
		Rule: "Disjunctive abstract interpretation of the gate constructors over go/ssa in a domain of literal identities and truth values: for every partition of operand identity (constants, same, complement, distinct, both signs) and every truth value row, each feasible return of the binary conjunction denotes the conjunction, a reused node is one whose two stored operands equal the requested ones, new nodes store non-constant first operands; every derived gate is evaluated over its truth table with the conjunction as primitive.",
		Run:  runC03})
}

func runC03(r *Report) {
	P := r.P
	c := newCirc(P)
	// constants
	for _, ctor := range []string{"NewC", "NewCCap", "NewS", "NewSCap"} {
		f := P.Func("logic", ctor)
		E := newInterp(P)
		st := newState()
		var args []V
		for _, p := range f.Params {
			args = append(args, mkUnknown("arg", p.Type()))
		}
		outs := E.Run(st, f, args, nil)
		r.Fn(f)
		ok := len(outs) > 0
		det := ""
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			fs, ts, n := V(nil), V(nil), V(nil)
			for _, cl := range o.St.mem {
				switch cl.key {
				case "field:" + c.C.String() + ".F":
					fs = cl.v
				case "field:" + c.C.String() + ".T":
					ts = cl.v
				case "field:" + c.C.String() + ".nodes":
					n = cl.v
				}
			}
			sl, isl := n.(Slice)
			if fs == nil || ts == nil || fs.String() != "3" || ts.String() != "2" {
				ok, det = false, fmt.Sprintf("constants are T=%v F=%v, expected variable 1", ts, fs)
			} else if !isl || sl.len.String() != "2" {
				ok, det = false, fmt.Sprintf("a new circuit has nodes %v, expected the null node and the constant", n)
			}
		}
		r.Ob("constants", "logic."+ctor, ok, f.Pos(), "%s", det)
	}
	r.Floor("constants", 4)

	// the binary conjunction
	and := P.Func("logic", "C.And")
	rows := 0
	for _, ab := range litArgs() {
		E := newInterp(P)
		E.Load = c.load(E)
		storedConst := ""
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if key == "field:"+c.node.String()+".a" {
				if l, ok := v.(Lin); ok {
					if l.isConst() && l.c == 0 {
						return // a node which is still to be filled: its value is judged below
					}
					if lo, _ := l.bounds(); lo == nil || *lo < 4 {
						storedConst = fmt.Sprintf("a node with constant first operand %s is made at %s", v, P.Pos(pos))
					}
				}
			}
		}
		st := newState()
		setVal(st, ab[0])
		setVal(st, ab[1])
		want := ab[0].val && ab[1].val
		outs := E.Run(st, and, []V{Ptr{o: &Obj{id: "C"}}, ab[0].v, ab[1].v}, nil)
		for f := range E.Funcs {
			r.Fn(f)
		}
		nret := 0
		det := ""
		ok := true
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			nret++
			got, known := c.value(E, o.St, o.Ret[0])
			if !known {
				ok, det = false, fmt.Sprintf("the result %s is not a known function of the operands (return at %s)", o.Ret[0], P.Pos(o.Pos))
			} else if got != want {
				ok, det = false, fmt.Sprintf("the result %s is %v, expected %v (return at %s)", o.Ret[0], got, want, P.Pos(o.Pos))
			}
		}
		if nret == 0 {
			ok, det = false, "no return is reached"
		}
		rows++
		r.Ob("and-value", fmt.Sprintf("And(%s, %s)", ab[0].name, ab[1].name), ok, and.Pos(), "%s", det)
		r.Ob("gate-operands", fmt.Sprintf("And(%s, %s)", ab[0].name, ab[1].name), storedConst == "", and.Pos(), "%s", storedConst)
	}
	r.Floor("and-value", 40)
	r.Count("operand_partitions", rows)

	// derived gates with conjunction as primitive
	andHook := func(E *Interp) func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		return func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			if fn != and {
				return false, nil
			}
			a, ok1 := E.tv(st, args[1])
			b, ok2 := E.tv(st, args[2])
			switch {
			case ok1 && ok2:
				return true, []Opt{{st, TV(a && b)}}
			case ok1 && !a || ok2 && !b:
				return true, []Opt{{st, TV(false)}}
			}
			return true, []Opt{{st, E.Unknown(st, "and", ci.Value().Type())}}
		}
	}
	gate := func(name string, n int, spec func(v []bool) bool) {
		f := P.Func("logic", "C."+name)
		r.Fn(f)
		for row := 0; row < 1<<uint(n); row++ {
			vals := make([]bool, n)
			args := []V{Ptr{o: &Obj{id: "C"}}}
			for i := range vals {
				vals[i] = row>>uint(i)&1 == 1
				args = append(args, TV(vals[i]))
			}
			E := newInterp(P)
			E.Load = c.load(E)
			E.Call = andHook(E)
			ok, det, nret := true, "", 0
			for _, o := range E.Run(newState(), f, args, nil) {
				if o.Kind != "return" {
					continue
				}
				nret++
				got, known := E.tv(o.St, o.Ret[0])
				if !known || got != spec(vals) {
					ok, det = false, fmt.Sprintf("the result is %v, expected %v", o.Ret[0], spec(vals))
				}
			}
			if nret == 0 {
				ok, det = false, "no return is reached"
			}
			r.Ob("gate-value", fmt.Sprintf("%s%v", name, vals), ok, f.Pos(), "%s", det)
		}
	}
	gate("Or", 2, func(v []bool) bool { return v[0] || v[1] })
	gate("Xor", 2, func(v []bool) bool { return v[0] != v[1] })
	gate("Implies", 2, func(v []bool) bool { return !v[0] || v[1] })
	gate("Choice", 3, func(v []bool) bool {
		if v[0] {
			return v[1]
		}
		return v[2]
	})
	// n-ary gates
	nary := func(name string, all bool) {
		f := P.Func("logic", "C."+name)
		r.Fn(f)
		for n := 0; n <= 4; n++ {
			for row := 0; row < 1<<uint(n); row++ {
				E := newInterp(P)
				E.Unroll = 12
				E.Call = andHook(E)
				cl := c.load(E)
				vals := make([]bool, n)
				want := all
				for i := range vals {
					vals[i] = row>>uint(i)&1 == 1
					if all {
						want = want && vals[i]
					} else {
						want = want || vals[i]
					}
				}
				E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
					if p.o.id == "ms" && len(p.path) == 1 && p.path[0].idx.isConst() && p.path[0].idx.c >= 0 && int(p.path[0].idx.c) < n {
						return true, []Opt{{st, TV(vals[p.path[0].idx.c])}}
					}
					return cl(st, p, key, t)
				}
				ok, det, nret := true, "", 0
				args := []V{Ptr{o: &Obj{id: "C"}}, Slice{&Obj{id: "ms"}, Lin{}, lin(int64(n)), lin(int64(n))}}
				for _, o := range E.Run(newState(), f, args, nil) {
					if o.Kind == "limit" {
						ok, det = false, "the loop does not end with its operands"
					}
					if o.Kind != "return" {
						continue
					}
					nret++
					got, known := E.tv(o.St, o.Ret[0])
					if !known || got != want {
						ok, det = false, fmt.Sprintf("the result is %v, expected %v", o.Ret[0], want)
					}
				}
				if nret == 0 && ok {
					ok, det = false, "no return is reached"
				}
				r.Ob("nary-value", fmt.Sprintf("%s%v", name, vals), ok, f.Pos(), "%s", det)
			}
		}
	}
	nary("Ands", true)
	nary("Ors", false)
	// storage: growing keeps every node, and new variables are the next index
	for _, m := range []string{"Lit", "And"} {
		f := P.Func("logic", "C."+m)
		for _, full := range []bool{false, true} {
			E := newInterp(P)
			nl := linSym(&Sym{id: "len(nodes)", lo: i64(2), hi: i64(1 << 30)})
			var cp V = nl
			if !full {
				cp = nl.add(linSym(&Sym{id: "spare", lo: i64(1), hi: i64(1 << 30)}), 1)
			}
			E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
				if c.isField(p, key, c.C, "nodes") {
					return true, []Opt{{st, Slice{&Obj{id: "nodes"}, Lin{}, nl, cp}}}
				}
				if c.isField(p, key, c.C, "F") {
					return true, []Opt{{st, lin(3)}}
				}
				if c.isField(p, key, c.C, "T") {
					return true, []Opt{{st, lin(2)}}
				}
				return false, nil
			}
			args := []V{Ptr{o: &Obj{id: "C"}}}
			if m == "And" {
				args = append(args, litOf(litSym("A", 2), 0), litOf(litSym("B", 2), 0))
			}
			ok, det, nret := true, "", 0
			for _, o := range E.Run(newState(), f, args, nil) {
				if o.Kind != "return" {
					continue
				}
				st := o.St
				cl, has := st.mem["C."+fmt.Sprint(c.fNodes)]
				sl, iss := cl.v.(Slice)
				if !has || !iss {
					continue
				}
				if sl.len.String() == nl.String() {
					continue // no new node
				}
				nret++
				if got, isl := o.Ret[0].(Lin); !isl || got.String() != nl.scale(2).String() {
					ok, det = false, fmt.Sprintf("the new variable is %v, expected index %v", o.Ret[0], nl)
				}
				if sl.len.String() != nl.add(lin(1), 1).String() {
					ok, det = false, fmt.Sprintf("the circuit has %v nodes afterwards, expected %v", sl.len, nl.add(lin(1), 1))
				}
				// an arbitrary earlier node
				idx := linSym(&Sym{id: "old", lo: i64(0)})
				st.facts = append(st.facts, nl.add(idx, -1).add(lin(1), -1))
				for fi, fv := range []*types.Var{c.na, c.nb} {
					key := "field:" + c.node.String() + "." + fv.Name()
					_ = fi
					fidx := fieldIndex(P, "logic", "node", fv.Name())
					was := E.load(st, Ptr{&Obj{id: "nodes"}, []pe{{f: -1, idx: idx}, {f: fidx}}}, key, fv.Type())[0].v
					now := E.load(st, Ptr{sl.o, []pe{{f: -1, idx: sl.off.add(idx, 1)}, {f: fidx}}}, key, fv.Type())[0].v
					if was.String() != now.String() {
						ok, det = false, fmt.Sprintf("operand %s of an existing node is not kept (full storage: %v)", fv.Name(), full)
					}
				}
			}
			for fn := range E.Funcs {
				r.Fn(fn)
			}
			if nret == 0 {
				ok, det = false, "no new node is made"
			}
			r.Ob("node-storage", fmt.Sprintf("%s(full %v)", m, full), ok, f.Pos(), "%s", det)
		}
	}
	r.Floor("node-storage", 4)
	r.Floor("gate-value", 20)
	r.Floor("nary-value", 62)
	r.Assume("operands are literals of the circuit or its constants; integer arithmetic on literals does not overflow (variables below 2^30); n-ary gates are decided for up to 4 operands")
}
