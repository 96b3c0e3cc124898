package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C28", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of every operation of the decision heap, from an arbitrary heap in which positions and entries are inverse: at every loop head, back edge and return they are inverse again, no variable is lost, and a variable is only taken out if it is assigned or is the answer.",
		Run:  runC28})
}

// heapRun analyses operations on the decision heap.
type heapRun struct {
	r      *Report
	h      *xoHeap
	rej    map[string]bool // candidate invariants which are not inductive
	again  bool
	name   string
	n      int
	remove bool // variables may be taken out
	check  func(st *State, at string) string
	// loops which may change the length of the heap
	growing map[*ssa.BasicBlock]bool
}

const vhp, ppos = "Guess.vhp", "Guess.pos"

func newHeapRun(r *Report, name string) *heapRun {
	w := &heapRun{r: r, name: name, rej: map[string]bool{}, growing: map[*ssa.BasicBlock]bool{}}
	h := newXO(r.P)
	h.FreshLen = true
	w.h = h
	E := h.E
	E.Alias = func(o *Obj) bool { return o.id == vhp || o.id == ppos }
	E.Bounds = func(o *Obj) bool { return o.id == vhp }
	h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if len(p.path) != 1 || p.path[0].f >= 0 {
			return false, nil
		}
		switch p.o.id {
		case vhp:
			st.seq++
			s := linSym(&Sym{id: fmt.Sprintf("at#%d", st.seq), lo: i64(1), hi: i64(1 << 30)})
			for _, x := range w.known(st) {
				st.setNotZero(s.add(x, -1))
			}
			st.keep("home:"+s.String(), Tuple{s, p.path[0].idx})
			return one1(st, s)
		case ppos:
			x := p.path[0].idx
			if k, ok := w.home(st, x); ok {
				return one1(st, k)
			}
			// an arbitrary variable: outside the heap, or somewhere in it
			l := st.clone()
			var res []Opt
			for _, y := range w.known(l) {
				l.setNotZero(x.add(y, -1))
			}
			l.keep("home:"+x.String(), Tuple{x, lin(-1)})
			res = append(res, Opt{l, lin(-1)})
			var ks []Lin
			for _, k := range sortedKeys(st.mem) {
				c := st.mem[k]
				if c.o == nil || c.o.id != vhp || len(c.path) != 1 {
					continue
				}
				ks = append(ks, c.path[0].idx)
			}
			if len(w.known(st)) == 0 && len(ks) == 0 {
				st.seq++
				at := linSym(&Sym{id: fmt.Sprintf("pos#%d", st.seq), lo: i64(0)})
				if l, ok := w.len(st); ok {
					st.facts = append(st.facts, l.add(at, -1).add(lin(1), -1))
				}
				st.mem[vhp+"["+at.String()+"]"] = cell{obj(vhp), []pe{{f: -1, idx: at}}, "elem:" + t.String(), x}
				c := st.mem[vhp+"["+at.String()+"]"]
				c.key = "elem:" + r.P.Type("z", "Var").String()
				st.mem[vhp+"["+at.String()+"]"] = c
				st.keep("home:"+x.String(), Tuple{x, at})
				res = append(res, Opt{st, at})
			} else {
				st.seq++
				at := linSym(&Sym{id: fmt.Sprintf("pos#%d", st.seq), lo: i64(0)})
				for _, k := range ks {
					st.setNotZero(at.add(k, -1))
				}
				for _, y := range w.known(st) {
					st.setNotZero(x.add(y, -1))
				}
				if l, ok := w.len(st); ok {
					st.facts = append(st.facts, l.add(at, -1).add(lin(1), -1))
				}
				st.mem[vhp+"["+at.String()+"]"] = cell{obj(vhp), []pe{{f: -1, idx: at}}, "elem:" + r.P.Type("z", "Var").String(), x}
				st.keep("home:"+x.String(), Tuple{x, at})
				res = append(res, Opt{st, at})
			}
			return true, res
		}
		return false, nil
	}
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		w.consistent(st, fmt.Sprintf("before the loop of %s", hdr.Parent().Name()))
		before, okb := w.len(st)
		return func(s *State) {
			// what the loop writes is what the invariant tells of
			delete(s.dirty, w.dirtyVhp())
			delete(s.dirty, ppos+"|elem:int")
			if c, ok := s.mem[w.lenCell()]; !ok || c.o == nil {
				// read the new length
				h.at(s, xoPkg, "Guess", "vhp")
			}
			if l, ok := w.len(s); ok {
				if w.growing[hdr] = w.grows(blocks); okb && !w.growing[hdr] {
					// the length does not change (decided at the back edge)
					w.setLen(s, before)
					l = before
				}
				s.keep("L:"+hdr.Parent().Name()+fmt.Sprint(hdr.Index), l)
				s.keep("L", l)
			}
			for k := range s.mem {
				if strings.HasPrefix(k, "@home:") {
					if c, live := s.mem[k].v.(Tuple); live {
						if _, there := s.mem[vhp+"["+c[1].String()+"]"]; !there {
							delete(s.mem, k)
						}
					}
				}
			}
			if okb {
				s.keep("before", before)
			}
		}
	}
	E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		st.keep("init:"+phi.Parent().Name()+"."+phi.Name(), init)
		hdr := phi.Block()
		il, ok := init.(Lin)
		if !ok {
			return false, nil
		}
		if b, isb := phi.Type().Underlying().(*types.Basic); !isb || b.Kind() != types.Int {
			return false, nil
		}
		v := E.havocPhi(st, phi, init, hdr, E.backEdges(hdr.Parent())[hdr]).(Lin)
		id := w.phiID(phi)
		if E.geq0(st, il) && !w.rej["nonneg "+id] {
			st.facts = append(st.facts, v)
		}
		if b, ok := st.kept("before").(Lin); ok && w.growing[hdr] && w.remove && E.eqLin(st, b, il) && !w.rej["len "+id] {
			if E.assumeEq(st, st.kept("L"), v) {
				w.setLen(st, v)
				st.keep("L", v)
				st.keep("L:"+hdr.Parent().Name()+fmt.Sprint(hdr.Index), v)
			}
		}
		return true, []Opt{{st, v}}
	}
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		for phi, nv := range phis {
			id := w.phiID(phi)
			nl, ok := nv.(Lin)
			il, ok2 := st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Lin)
			if b, isb := phi.Type().Underlying().(*types.Basic); !ok2 || !isb || b.Kind() != types.Int {
				continue
			}
			if E.geq0(st, il) && !w.rej["nonneg "+id] && !(ok && E.geq0(st, nl)) {
				w.rej["nonneg "+id] = true
				w.again = true
			}
			if hl, isl := st.top().env[phi].(Lin); isl && w.remove && w.growing[hdr] && !w.rej["len "+id] {
				if b, ok := st.kept("L:" + hdr.Parent().Name() + fmt.Sprint(hdr.Index)).(Lin); ok && sameV(b, hl) {
					if l, ok := w.len(st); !ok || !E.eqLin(st, l, nl) {
						w.rej["len "+id] = true
						w.again = true
					}
				}
			}
		}
		w.consistent(st, fmt.Sprintf("at the end of the loop of %s", hdr.Parent().Name()))
		if w.check != nil {
			if det := w.check(st, "back"); det != "" {
				w.ob("answer", false, hdr.Parent().Pos(), "%s", det)
			}
		}
	}
	return w
}

func (w *heapRun) phiID(phi *ssa.Phi) string { return phi.Parent().String() + "." + phi.Name() }

func (w *heapRun) dirtyVhp() string { return vhp + "|elem:" + w.r.P.Type("z", "Var").String() }

func (w *heapRun) lenCell() string {
	return fmt.Sprintf("Guess.%d", fieldIndex(w.r.P, xoPkg, "Guess", "vhp"))
}

// grows tells whether a loop may change the length of the heap.
func (w *heapRun) grows(blocks map[*ssa.BasicBlock]bool) bool {
	fv := w.r.P.Field(xoPkg, "Guess", "vhp")
	has := func(bs []*ssa.BasicBlock) bool {
		for _, b := range bs {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa) == fv {
						return true
					}
				}
			}
		}
		return false
	}
	var bs []*ssa.BasicBlock
	for b := range blocks {
		bs = append(bs, b)
	}
	if has(bs) {
		return true
	}
	for f := range calleesIn(blocks) {
		if has(f.Blocks) {
			return true
		}
	}
	return false
}

func (w *heapRun) len(st *State) (Lin, bool) {
	s, ok := st.mem[w.lenCell()].v.(Slice)
	if !ok {
		return Lin{}, false
	}
	l, ok := s.len.(Lin)
	return l, ok
}

func (w *heapRun) setLen(st *State, l Lin) {
	c := st.mem[w.lenCell()]
	s, ok := c.v.(Slice)
	if ok {
		s.len = l
		c.v = s
		st.mem[w.lenCell()] = c
	}
}

// known are the variables met so far.
func (w *heapRun) known(st *State) []Lin {
	var r []Lin
	for _, k := range sortedKeys(st.mem) {
		if strings.HasPrefix(k, "@home:") {
			if t, ok := st.mem[k].v.(Tuple); ok {
				r = append(r, t[0].(Lin))
			}
		}
	}
	return r
}

func (w *heapRun) home(st *State, x Lin) (Lin, bool) {
	for _, k := range sortedKeys(st.mem) {
		if strings.HasPrefix(k, "@home:") {
			if t, ok := st.mem[k].v.(Tuple); ok && sameV(t[0], x) {
				return t[1].(Lin), true
			}
		}
	}
	return Lin{}, false
}

func (w *heapRun) ob(rule string, ok bool, pos token.Pos, f string, a ...interface{}) {
	w.n++
	w.r.Ob(rule, fmt.Sprintf("%s, %d", w.name, w.n), ok, pos, f, a...)
}

// inside tells whether index k is below the length l.
func (w *heapRun) inside(st *State, k, l Lin) bool {
	return !w.h.E.geq0(st, k.add(l, -1))
}

func (w *heapRun) consistent(st *State, at string) {
	if w.again {
		return
	}
	E := w.h.E
	det := ""
	l, ok := w.len(st)
	if !ok {
		// never read: nothing changed
		l = linSym(&Sym{id: "len(" + vhp + ")", lo: i64(0)})
	}
	cells := map[string][2]Lin{}
	poss := map[string][2]Lin{}
	for _, k := range sortedKeys(st.mem) {
		c := st.mem[k]
		if c.o == nil || len(c.path) != 1 || c.path[0].f >= 0 || c.o.id != vhp && c.o.id != ppos {
			continue
		}
		v, ok := c.v.(Lin)
		if !ok {
			det = fmt.Sprintf("%s holds %v", k, c.v)
			continue
		}
		if c.o.id == vhp {
			cells[c.path[0].idx.String()] = [2]Lin{c.path[0].idx, v}
		} else {
			poss[c.path[0].idx.String()] = [2]Lin{c.path[0].idx, v}
		}
	}
	posOf := func(x Lin) (Lin, bool) {
		if p, ok := poss[x.String()]; ok {
			return p[1], true
		}
		return w.home(st, x)
	}
	for _, k := range sortedKeys(cells) {
		c := cells[k]
		if !w.inside(st, c[0], l) {
			continue
		}
		if p, ok := posOf(c[1]); !ok || !E.eqLin(st, p, c[0]) {
			det = fmt.Sprintf("entry %v of the heap is variable %v, whose position is %v", c[0], c[1], p)
		}
	}
	for _, k := range sortedKeys(poss) {
		p := poss[k]
		if p[1].isConst() && p[1].c == -1 {
			for _, c := range cells {
				if sameV(c[1], p[0]) && w.inside(st, c[0], l) {
					det = fmt.Sprintf("variable %v is entry %v of the heap but marked as outside", p[0], c[0])
				}
			}
			continue
		}
		if c, ok := cells[p[1].String()]; !ok || !E.eqLin(st, c[1], p[0]) || !E.geq0(st, l.add(c[0], -1).add(lin(1), -1)) {
			det = fmt.Sprintf("the position of variable %v is %v, where another variable is, or the end of the heap", p[0], p[1])
		}
	}
	// nothing is lost
	for _, x := range w.known(st) {
		h, _ := w.home(st, x)
		if h.isConst() && h.c == -1 {
			continue
		}
		found := false
		for _, c := range cells {
			if sameV(c[1], x) && w.inside(st, c[0], l) {
				found = true
			}
		}
		p, wr := poss[x.String()]
		if !found && !(w.remove && wr && p[1].isConst() && p[1].c == -1) {
			det = fmt.Sprintf("variable %v is lost from the heap", x)
		}
	}
	if st.dirty[w.dirtyVhp()] || st.dirty[ppos+"|elem:int"] {
		det = "the heap is changed in a way which is not understood"
	}
	// the length changes only with entries which are accounted for
	if l0, ok := st.kept("L").(Lin); ok && det == "" && !E.eqLin(st, l, l0) {
		d := l.add(l0, -1)
		switch {
		case d.isConst() && d.c > 0 && d.c < 4:
			for i := int64(0); i < d.c; i++ {
				if _, ok := cells[l0.add(lin(i), 1).String()]; !ok {
					det = "the heap is extended by an unknown entry"
				}
			}
		case d.isConst() && d.c < 0 && d.c > -4 && w.remove:
			for i := int64(1); i <= -d.c; i++ {
				k := l0.add(lin(i), -1)
				c, ok := cells[k.String()]
				if p, ok2 := posOf(c[1]); !ok || !ok2 || !(p.isConst() && p.c == -1) {
					det = fmt.Sprintf("entry %v is cut off the heap but its variable is not marked as outside", k)
				}
			}
		default:
			det = fmt.Sprintf("the length of the heap changes from %v to %v", l0, l)
		}
	}
	if det != "" && dbgHeap {
		dumpState(st)
	}
	w.ob("inverse", det == "", token.NoPos, "%s: %s", at, det)
}

// run repeats an analysis until its candidate invariants are inductive.
func (w *heapRun) run(mk func() *State, fn *ssa.Function, args func() []V, each func(o Outcome)) {
	for try := 0; ; try++ {
		w.again = false
		mark := w.r.mark()
		n := w.n
		rets := 0
		st := mk()
		w.h.at(st, xoPkg, "Guess", "vhp")
		if l, ok := w.len(st); ok {
			st.keep("L", l)
			st.keep("L0", l)
		}
		for _, o := range w.h.E.Run(st, fn, args(), nil) {
			if o.Kind != "return" {
				continue
			}
			rets++
			w.consistent(o.St, fmt.Sprintf("return of %s", fn.Name()))
			if each != nil && !w.again {
				each(o)
			}
		}
		if w.again && try < 8 {
			w.r.reset(mark)
			w.n = n
			continue
		}
		if w.again || rets == 0 {
			w.ob("inverse", false, fn.Pos(), "the operation could not be analysed")
		}
		break
	}
	for f := range w.h.E.Funcs {
		w.r.Fn(f)
	}
}

func runC28(r *Report) {
	P := r.P
	push, bump, guess, has := P.Func(xoPkg, "Guess.Push"), P.Func(xoPkg, "Guess.Bump"), P.Func(xoPkg, "Guess.Guess"), P.TryFunc(xoPkg, "Guess.has")
	V_ := linSym(&Sym{id: "V", lo: i64(1), hi: i64(1 << 30)})
	// giving a variable back
	for s := int64(0); s < 2; s++ {
		w := newHeapRun(r, fmt.Sprintf("Push of sign %d", s))
		m := V_.scale(2).add(lin(s), 1)
		in := func(st *State) string {
			// before the first loop, or at the return: the variable is in the heap
			x := st.kept("V").(Lin)
			if p, ok := st.mem[ppos+"["+x.String()+"]"]; ok {
				if l, isl := p.v.(Lin); isl && l.isConst() && l.c == -1 {
					return fmt.Sprintf("variable %v is not put back into the heap", x)
				}
				return ""
			}
			return "it is not looked up whether the variable is in the heap"
		}
		enter := w.h.E.Enter
		w.h.E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			if st.kept("in") == nil {
				det := in(st)
				w.ob("push", det == "", push.Pos(), "%s", det)
				st.keep("in", Boolv(true))
			}
			return enter(st, hdr, blocks)
		}
		want := int64(1)
		if s == 1 {
			want = -1
		}
		w.run(func() *State {
			st := newState()
			st.keep("V", V_)
			return st
		}, push, func() []V { return []V{w.h.ptr("Guess"), m} }, func(o Outcome) {
			if o.St.kept("in") == nil {
				det := in(o.St)
				w.ob("push", det == "", o.Pos, "%s", det)
			}
			g := elem(o.St, "Guess.cache", V_)
			w.ob("push", g != nil && w.h.E.eqLin(o.St, g, lin(want)), o.Pos, "the remembered value of literal %v is %v", m, g)
		})
	}
	// heat
	{
		w := newHeapRun(r, "Bump")
		w.run(newState, bump, func() []V { return []V{w.h.ptr("Guess"), V_.scale(2)} }, nil)
	}
	if f := P.TryFunc(xoPkg, "Guess.heapify"); f != nil {
		w := newHeapRun(r, "heapify")
		w.run(newState, f, func() []V { return []V{w.h.ptr("Guess")} }, nil)
	}
	// guessing
	{
		w := newHeapRun(r, "Guess")
		w.remove = true
		w.h.Signs["vals"] = true
		var out []Lin
		removed := func(st *State) []Lin {
			out = nil
			for _, k := range sortedKeys(st.mem) {
				c := st.mem[k]
				if c.o == nil || c.o.id != ppos || len(c.path) != 1 {
					continue
				}
				if l, ok := c.v.(Lin); ok && l.isConst() && l.c == -1 {
					out = append(out, c.path[0].idx)
				}
			}
			return out
		}
		val := func(st *State, x Lin) (Lin, bool) {
			for _, i := range []int64{0, 1} {
				if l, ok := elem(st, "vals", x.scale(2).add(lin(i), 1)).(Lin); ok {
					return l, true
				}
			}
			return Lin{}, false
		}
		w.check = func(st *State, at string) string {
			for _, x := range removed(st) {
				if v, ok := val(st, x); !ok || !v.isConst() || v.c == 0 {
					return fmt.Sprintf("variable %v is taken out of the heap but it may be unassigned", x)
				}
			}
			return ""
		}
		vals := Slice{obj("vals"), Lin{}, linSym(&Sym{id: "len(vals)", lo: i64(0)}), linSym(&Sym{id: "cap(vals)", lo: i64(0)})}
		n := 0
		w.run(newState, guess, func() []V { return []V{w.h.ptr("Guess"), vals} }, func(o Outcome) {
			n++
			det := ""
			m, ok := o.Ret[0].(Lin)
			switch {
			case !ok:
				det = fmt.Sprintf("the answer is %v", o.Ret[0])
			case m.isConst() && m.c == 0:
				if l, ok := w.len(o.St); !ok || !w.h.E.geq0(o.St, l.scale(-1)) {
					det = fmt.Sprintf("no variable is left, but the heap has %v entries", l)
				}
				for _, x := range removed(o.St) {
					if v, ok := val(o.St, x); !ok || !v.isConst() || v.c == 0 {
						det = fmt.Sprintf("no variable is left, but %v was taken out and may be unassigned", x)
					}
				}
			case !m.divisible(2):
				det = fmt.Sprintf("the answer is %v", m)
			default:
				x := divLin(m.add(lin(((m.c%2)+2)%2), -1), 2)
				neg := m.c%2 != 0
				if v, ok := val(o.St, x); !ok || !v.isConst() || v.c != 0 {
					det = fmt.Sprintf("the answer is a literal of %v, which may be assigned", x)
				}
				for _, y := range removed(o.St) {
					if v, ok := val(o.St, y); !sameV(x, y) && (!ok || !v.isConst() || v.c == 0) {
						det = fmt.Sprintf("variable %v is taken out although it may be unassigned", y)
					}
				}
				if c, ok := elem(o.St, "Guess.cache", x).(Lin); !ok || c.isConst() && (c.c == -1) != neg && c.c != 0 {
					det = fmt.Sprintf("the answer is %v although the remembered value is %v", m, c)
				}
			}
			w.ob("answer", det == "", o.Pos, "%s", det)
		})
		w.ob("answer", n > 2, guess.Pos(), "too few answers")
	}
	// whether a variable is left
	if has != nil {
		w := newHeapRun(r, "has")
		w.h.Signs["vals"] = true
		vals := Slice{obj("vals"), Lin{}, linSym(&Sym{id: "len(vals)", lo: i64(0)}), linSym(&Sym{id: "cap(vals)", lo: i64(0)})}
		visited := func(st *State) (Lin, Lin, bool) {
			for _, k := range sortedKeys(st.mem) {
				c := st.mem[k]
				if c.o == nil || c.o.id != vhp {
					continue
				}
				x, ok := c.v.(Lin)
				if !ok {
					continue
				}
				for _, i := range []int64{0, 1} {
					if l, ok := elem(st, "vals", x.scale(2).add(lin(i), 1)).(Lin); ok {
						return c.path[0].idx, l, true
					}
				}
			}
			return Lin{}, Lin{}, false
		}
		E := w.h.E
		back := E.Back
		n, its := 0, 0
		dirs := map[string]bool{}
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			back(st, hdr, prev, phis)
			if w.again {
				return
			}
			its++
			k, v, ok := visited(st)
			det := ""
			switch {
			case !ok || !v.isConst() || v.c == 0:
				det = fmt.Sprintf("an entry is passed over which may be unassigned (%v)", v)
			default:
				nk, ok := E.nextLin(st, phis, k)
				first := k
				for phi := range phis {
					hv, ok1 := st.top().env[phi].(Lin)
					iv, ok2 := st.mem["@init:"+phi.Parent().Name()+"."+phi.Name()].v.(Lin)
					if ok1 && ok2 && len(hv.t) == 1 {
						for _, t := range k.t {
							if t.s.id == hv.t[0].s.id {
								first = first.add(linSym(t.s), -t.k).add(iv, t.k)
							}
						}
					}
				}
				l, _ := w.len(st)
				switch {
				case ok && E.eqLin(st, nk, k.add(lin(1), 1)) && E.eqLin(st, first, lin(0)):
					dirs["up"] = true
				case ok && E.eqLin(st, nk, k.add(lin(-1), 1)) && E.eqLin(st, first, l.add(lin(1), -1)):
					dirs["down"] = true
				default:
					det = fmt.Sprintf("the entries are not visited one after the other: %v after %v, first %v", nk, k, first)
				}
			}
			w.ob("left", det == "", has.Pos(), "%s", det)
		}
		w.run(newState, has, func() []V { return []V{w.h.ptr("Guess"), vals} }, func(o Outcome) {
			n++
			b, ok := o.Ret[0].(Boolv)
			_, v, vis := visited(o.St)
			det := ""
			switch {
			case !ok:
				det = fmt.Sprintf("the answer is %v", o.Ret[0])
			case bool(b) && !(vis && v.isConst() && v.c == 0):
				det = "the answer is that a variable is left although none was found"
			case !bool(b):
				// every entry was visited
				l, _ := w.len(o.St)
				det = "the answer is that no variable is left before all entries were visited"
				if E.geq0(o.St, l.scale(-1)) {
					det = ""
				}
				for _, f := range o.St.facts {
					for _, t := range f.t {
						if phiName(t.s.id) == "" {
							continue
						}
						x := linSym(t.s)
						iv, ok := o.St.mem["@init:"+phiName(t.s.id)].v.(Lin)
						if !ok {
							continue
						}
						// the counter ran over as many steps as there are entries
						if dirs["up"] && iv.isConst() && E.geq0(o.St, x.add(iv, -1).add(l, -1)) ||
							dirs["down"] && E.eqLin(o.St, iv, l) && E.geq0(o.St, x.scale(-1)) ||
							dirs["down"] && E.eqLin(o.St, iv, l.add(lin(1), -1)) && E.geq0(o.St, x.scale(-1).add(lin(1), -1)) {
							det = ""
						}
					}
				}
			}
			w.ob("left", det == "", o.Pos, "%s", det)
		})
		w.ob("left", n > 1 && its > 0, has.Pos(), "too few answers")
	}
	r.Floor("inverse", 20)
	r.Floor("push", 4)
	r.Floor("answer", 4)
	r.Floor("left", 3)
	r.Assume("variables are at least 1; the order of the heap (which variable is hottest) is not claimed")
}
