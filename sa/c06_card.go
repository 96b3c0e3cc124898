package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa with linear arithmetic: thresholds against the sorted outputs; comparators by truth table; sorting and merging against the induction of the odd-even merge.",
		Run:  runC06})
}

type cardW struct {
	P             *Prog
	c             *circ
	fN, fC, fMs   string
	and           *ssa.Function
	nLen, msLen   Lin
	signs         bool // outputs are literals of either sign
	ms            Slice
	sort, mrg     *ssa.Function
	card          Ptr
	intercept     map[*ssa.Function]string
	stores, keeps bool
}

func newCardW(P *Prog) *cardW {
	w := &cardW{P: P, c: newCirc(P), and: P.Func("logic", "C.And")}
	T := P.Type("logic", "CardSort")
	w.fN, w.fC, w.fMs = "field:"+T.String()+".n", "field:"+T.String()+".c", "field:"+T.String()+".ms"
	P.Field("logic", "CardSort", "n")
	P.Field("logic", "CardSort", "ms")
	w.nLen = linSym(&Sym{id: "n", lo: i64(0), hi: i64(1 << 40)})
	w.msLen = linSym(&Sym{id: "len(ms)", lo: i64(1), hi: i64(1 << 41)})
	w.ms = Slice{obj("ms"), Lin{}, w.msLen, w.msLen}
	w.sort, w.mrg = P.Func("logic", "CardSort.sort"), P.Func("logic", "CardSort.merge")
	w.card = Ptr{o: &Obj{id: "card"}}
	return w
}

// interp prepares an analysis: the outputs are literals named by position, and
// conjunctions are fresh literals whose operands are kept.
func (w *cardW) interp(cut map[*ssa.Function]string) *Interp {
	E := newInterp(w.P)
	base := w.c.load(E)
	E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		switch key {
		case w.fN:
			if p.o.id == "card" {
				return one1(st, w.nLen)
			}
		case w.fMs:
			if p.o.id == "card" {
				return one1(st, w.ms)
			}
		case w.fC:
			if p.o.id == "card" {
				return one1(st, Ptr{o: &Obj{id: "C"}})
			}
		}
		if p.o.id == "ms" && len(p.path) == 1 && isLit(t) {
			id := "ms[" + p.path[0].idx.String() + "]"
			st.keep("at:"+id, p.path[0].idx)
			pos := linSym(litSym(id, 1)).scale(2)
			if !w.signs {
				return one1(st, pos)
			}
			// the output is a literal of either sign
			if b, ok := st.kept("neg:" + id).(Boolv); ok {
				if bool(b) {
					return one1(st, pos.add(lin(1), 1))
				}
				return one1(st, pos)
			}
			_, os := opts(st, pos, pos.add(lin(1), 1))
			for i, o := range os {
				o.st.keep("neg:"+id, Boolv(i == 1))
			}
			return true, os
		}
		return base(st, p, key, t)
	}
	keepInit(E)
	E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if p.o.id == "ms" && len(p.path) == 1 {
			st.events = append(st.events, Event{Kind: "set", Args: []V{p.path[0].idx, v}, Pos: pos})
		}
	}
	E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn == nil {
			return false, nil
		}
		if fn == w.and {
			st.seq++
			id := fmt.Sprintf("and#%d", st.seq)
			st.keep("and:"+id, Tuple{args[1], args[2]})
			return one1(st, linSym(litSym(id, 1)).scale(2))
		}
		if k, ok := cut[fn]; ok {
			st.events = append(st.events, Event{Kind: k, Args: args[1:], Pos: ci.Pos()})
			return true, []Opt{{st, Tuple{}}}
		}
		return false, nil
	}
	return E
}

// val evaluates a literal over the outputs.
func (w *cardW) val(st *State, v V, of func(idx Lin) (bool, bool)) (bool, bool) {
	l, ok := v.(Lin)
	if !ok {
		return false, false
	}
	if l.isConst() && (l.c == 2 || l.c == 3) {
		return l.c == 2, true
	}
	h, neg, ok := half(l)
	if !ok || len(h.t) != 1 || h.t[0].k != 1 || h.c != 0 {
		return false, false
	}
	id := h.t[0].s.id
	if tu, ok := st.kept("and:" + id).(Tuple); ok {
		a, ok1 := w.val(st, tu[0], of)
		b, ok2 := w.val(st, tu[1], of)
		return (a && b) != neg, ok1 && ok2
	}
	idx, ok := st.kept("at:" + id).(Lin)
	if !ok {
		return false, false
	}
	b, ok := of(idx)
	return b != neg, ok
}

// comparator tells what is wrong if the stores do not place the conjunction of
// outputs i and j at i and their disjunction at j, for i = at, j = at + s.
func (w *cardW) comparator(E *Interp, st *State, evs []Event, s Lin) (Lin, string) {
	final := map[string]V{}
	var idx []Lin
	for _, e := range evs {
		i := e.Args[0].(Lin)
		if _, ok := final[i.String()]; !ok {
			idx = append(idx, i)
		}
		final[i.String()] = e.Args[1]
	}
	if len(idx) != 2 {
		return Lin{}, fmt.Sprintf("%d outputs are changed at once", len(idx))
	}
	lo, hi := idx[0], idx[1]
	if !E.eqLin(st, hi, lo.add(s, 1)) {
		lo, hi = hi, lo
	}
	if !E.eqLin(st, hi, lo.add(s, 1)) {
		return Lin{}, fmt.Sprintf("outputs %v and %v are compared, which are not the distance %v apart", idx[0], idx[1], s)
	}
	for row := 0; row < 4; row++ {
		x, y := row&1 == 1, row&2 == 2
		of := func(i Lin) (bool, bool) {
			switch {
			case sameV(i, lo):
				return x, true
			case sameV(i, hi):
				return y, true
			}
			return false, false
		}
		a, ok1 := w.val(st, final[lo.String()], of)
		b, ok2 := w.val(st, final[hi.String()], of)
		if !ok1 || !ok2 {
			return Lin{}, fmt.Sprintf("output %v or %v becomes something else than a function of the two", lo, hi)
		}
		if a != (x && y) || b != (x || y) {
			return Lin{}, fmt.Sprintf("comparing %v, %v gives %v, %v", x, y, a, b)
		}
	}
	return lo, ""
}

// pow2 tells that l is a power of two.
func pow2(l Lin, doubled map[string]bool) bool {
	if l.isConst() {
		return l.c > 0 && l.c&(l.c-1) == 0
	}
	if l.c != 0 || len(l.t) != 1 || l.t[0].k < 1 || l.t[0].k&(l.t[0].k-1) != 0 {
		return false
	}
	id := l.t[0].s.id
	return strings.HasPrefix(id, "2^(") || doubled[id]
}

func runC06(r *Report) {
	P := r.P
	w := newCardW(P)
	n := w.nLen
	b := linSym(&Sym{id: "b"})

	// thresholds
	for _, q := range []struct {
		name string
		// the count k satisfies the predicate if k <= b+d (le) or k >= b+d
		le bool
		d  int64
	}{{"Leq", true, 0}, {"Less", true, -1}, {"Geq", false, 0}, {"Gr", false, 1}} {
		fn := P.Func("logic", "CardSort."+q.name)
		w.signs = true
		E := w.interp(nil)
		st := newState()
		st.facts = append(st.facts, w.msLen.add(n, -1))
		k := 0
		outs := E.Run(st, fn, []V{w.card, b}, nil)
		w.signs = false
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			k++
			det := func() string {
				l, ok := o.Ret[0].(Lin)
				if !ok {
					return fmt.Sprintf("the answer is %v", o.Ret[0])
				}
				t := b.add(lin(q.d), 1) // k <= t or k >= t
				if l.isConst() {
					holds := l.c == 2
					if l.c != 2 && l.c != 3 {
						return fmt.Sprintf("the answer is the literal %v", l)
					}
					switch {
					case q.le && holds:
						ok = E.geq0(o.St, t.add(n, -1))
					case q.le:
						ok = E.geq0(o.St, lin(-1).add(t, -1))
					case holds:
						ok = E.geq0(o.St, lin(0).add(t, -1))
					default:
						ok = E.geq0(o.St, t.add(n, -1).add(lin(-1), 1))
					}
					if !ok {
						return fmt.Sprintf("the answer is %v for bounds for which it depends on the inputs", holds)
					}
					return ""
				}
				h, neg, ok := half(l)
				if !ok || len(h.t) != 1 || h.c != 0 {
					return fmt.Sprintf("the answer is %v", l)
				}
				i, ok := o.St.kept("at:" + h.t[0].s.id).(Lin)
				if !ok {
					return fmt.Sprintf("the answer is %v", l)
				}
				if !E.geq0(o.St, i) || !E.geq0(o.St, n.add(i, -1).add(lin(-1), 1)) {
					return fmt.Sprintf("output %v is not one of the first n for all bounds", i)
				}
				// output i is true iff the count is at least n-i
				at := n.add(i, -1)
				if b, ok := o.St.kept("neg:" + h.t[0].s.id).(Boolv); ok && bool(b) {
					neg = !neg
				}
				if neg != q.le {
					return "the answer has the wrong sign"
				}
				if q.le {
					at = at.add(lin(-1), 1)
				}
				if !E.eqLin(o.St, at, t) {
					return fmt.Sprintf("the answer compares the count with %v instead of %v", at, t)
				}
				return ""
			}()
			r.Ob("threshold", fmt.Sprintf("%s: path %d", q.name, k), det == "", o.Pos, "%s", det)
		}
		r.Ob("threshold", q.name, k > 0, fn.Pos(), "there is no answer")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	// the number of inputs
	{
		fn := P.Func("logic", "CardSort.N")
		E := w.interp(nil)
		for _, o := range E.Run(newState(), fn, []V{w.card}, nil) {
			if o.Kind == "return" {
				r.Ob("inputs", "N", sameV(o.Ret[0], n), o.Pos, "the number of inputs is %v", o.Ret[0])
			}
		}
	}
	// the inputs and the padding
	w.newCard(r)
	// sorting halves
	for _, short := range []bool{false, true} {
		E := w.interp(map[*ssa.Function]string{w.sort: "sort", w.mrg: "merge"})
		// sort itself is entered by Run, its calls to itself are cut
		l := linSym(&Sym{id: "l", lo: i64(0), hi: i64(1 << 40)})
		q := linSym(&Sym{id: "q", lo: i64(1), hi: i64(1 << 40)})
		h := l.add(q, 2)
		what := "an even number of outputs"
		if short {
			h, what = l.add(lin(1), 1), "one output"
		}
		k := 0
		for _, o := range E.Run(newState(), w.sort, []V{w.card, l, h}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			det := func() string {
				same := func(e Event, vs ...Lin) bool {
					for i, v := range vs {
						if len(e.Args) <= i {
							return false
						}
						x, ok := e.Args[i].(Lin)
						if !ok || !E.eqLin(o.St, x, v) {
							return false
						}
					}
					return true
				}
				low, high, merged := false, false, false
				for _, e := range o.St.events {
					m := l.add(q, 1)
					switch {
					case short:
						return "one output is sorted"
					case e.Kind == "sort" && !merged && same(e, l, m):
						low = true
					case e.Kind == "sort" && !merged && same(e, m, h):
						high = true
					case e.Kind == "merge" && low && high && same(e, l, h, lin(1)):
						merged = true
					default:
						return fmt.Sprintf("%s %v out of order or of other outputs than the halves", e.Kind, e.Args)
					}
				}
				if !short && !merged {
					return "the sorted halves are not merged"
				}
				return ""
			}()
			r.Ob("sort", fmt.Sprintf("%s: path %d", what, k), det == "", o.Pos, "%s", det)
		}
		r.Ob("sort", what, k > 0, w.sort.Pos(), "no path was found")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	w.merging(r)
	r.Floor("threshold", 8)
	r.Floor("sort", 4)
	r.Floor("merge", 4)
	r.Floor("inputs", 3)
	r.Assume("conjunction of circuits is C03's; bounds do not overflow; a merge with a power of two of sorted outputs at distance s is correct if it merges the even and the odd ones at distance 2s and then compares each odd one with the next even one (Batcher)")
}

// merging: one arbitrary merge of the outputs l, l+s, ... below h.
func (w *cardW) merging(r *Report) {
	E := w.interp(map[*ssa.Function]string{w.mrg: "merge"})
	l := linSym(&Sym{id: "l", lo: i64(0), hi: i64(1 << 40)})
	h := linSym(&Sym{id: "h", lo: i64(0), hi: i64(1 << 40)})
	s := linSym(&Sym{id: "s", lo: i64(1), hi: i64(1 << 40)})
	parts := func(st *State, evs []Event) string {
		even, odd := false, false
		for _, e := range evs {
			if e.Kind != "merge" {
				return "outputs are compared before their parts are merged"
			}
			a, ok1 := e.Args[0].(Lin)
			z, ok2 := e.Args[1].(Lin)
			d, ok3 := e.Args[2].(Lin)
			if !ok1 || !ok2 || !ok3 || !E.eqLin(st, z, h) || !E.eqLin(st, d, s.scale(2)) {
				return fmt.Sprintf("another part is merged: %v", e.Args)
			}
			switch {
			case E.eqLin(st, a, l):
				even = true
			case E.eqLin(st, a, l.add(s, 1)):
				odd = true
			default:
				return fmt.Sprintf("another part is merged: %v", e.Args)
			}
		}
		if !even || !odd {
			return "the even or the odd outputs are not merged"
		}
		if !E.geq0(st, h.add(l, -1).add(s, -2).add(lin(-1), 1)) {
			return "two outputs are left to the comparisons of odd with even ones"
		}
		return ""
	}
	nl := 0
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		nl++
		det := parts(st, st.events)
		r.Ob("merge", fmt.Sprintf("parts before the comparisons %d", nl), det == "", hdr.Instrs[0].Pos(), "%s", det)
		return func(x *State) { x.keep("ev", lin(int64(len(x.events)))) }
	}
	n := 0
	var at []Lin
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		n++
		from, _ := st.kept("ev").(Lin)
		i, det := w.comparator(E, st, st.events[from.c:], s)
		if det == "" {
			f, ok1 := firstOf(st, i)
			nx, ok2 := E.nextLin(st, phis, i)
			switch {
			case !ok1 || !E.eqLin(st, f, l.add(s, 1)):
				det = fmt.Sprintf("the first output which is compared with the next is %v", f)
			case !ok2 || !E.eqLin(st, nx, i.add(s, 2)):
				det = fmt.Sprintf("output %v is compared after %v", nx, i)
			case !E.geq0(st, h.add(i, -1).add(s, -1).add(lin(-1), 1)):
				det = "an output beyond the last is compared"
			}
			at = append(at, i)
		}
		r.Ob("merge", fmt.Sprintf("comparison %d", n), det == "", w.mrg.Pos(), "%s", det)
	}
	k := 0
	for _, o := range E.Run(newState(), w.mrg, []V{w.card, l, h, s}, nil) {
		if o.Kind != "return" {
			continue
		}
		k++
		det := ""
		_, looped := o.St.kept("ev").(Lin)
		sets := 0
		for _, e := range o.St.events {
			if e.Kind == "set" {
				sets++
			}
		}
		switch {
		case looped:
			ok := false
			for _, i := range at {
				if E.geq0(o.St, i.add(s, 1).add(h, -1)) {
					ok = true
				}
			}
			if !ok {
				det = "the comparisons may end before the last output"
			}
		case len(o.St.events) == 0:
			if !E.geq0(o.St, l.add(s, 1).add(h, -1)) {
				det = "more than one output is left as it is"
			}
		case sets == len(o.St.events):
			i, d := w.comparator(E, o.St, o.St.events, s)
			switch {
			case d != "":
				det = d
			case !E.eqLin(o.St, i, l):
				det = fmt.Sprintf("output %v is compared instead of the first", i)
			case !E.geq0(o.St, l.add(s, 2).add(h, -1)):
				det = "more than two outputs are sorted by one comparison"
			case !E.geq0(o.St, h.add(l, -1).add(s, -1).add(lin(-1), 1)):
				det = "an output beyond the last is compared"
			}
		default:
			det = parts(o.St, o.St.events)
			if det == "" {
				det = "the merged parts are not compared"
			}
		}
		r.Ob("merge", fmt.Sprintf("path %d", k), det == "", o.Pos, "%s", det)
	}
	r.Ob("merge", "merge", k > 0 && n > 0, w.mrg.Pos(), "nothing is compared")
	for f := range E.Funcs {
		r.Fn(f)
	}
}

// newCard: the network is set up over the inputs, padded with true to a power
// of two, and all of it is sorted.
func (w *cardW) newCard(r *Report) {
	P := w.P
	fn := P.Func("logic", "NewCardSort")
	E := newInterp(P)
	base := w.c.load(E)
	inLen := linSym(&Sym{id: "len(in)", lo: i64(0), hi: i64(1 << 40)})
	in := Slice{obj("in"), Lin{}, inLen, inLen}
	E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if p.o.id == "in" && len(p.path) == 1 && isLit(t) {
			id := "in[" + p.path[0].idx.String() + "]"
			st.keep("at:"+id, p.path[0].idx)
			return one1(st, linSym(litSym(id, 1)).scale(2))
		}
		return base(st, p, key, t)
	}
	keepInit(E)
	nev := func(st *State) int {
		l, _ := st.kept("ev").(Lin)
		return int(l.c)
	}
	E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if len(p.path) == 1 && p.path[0].f < 0 && strings.HasSuffix(key, "z.Lit") {
			st.events = append(st.events, Event{Kind: "set", Args: []V{p.path[0].idx, v, Ptr{o: p.o}}, Pos: pos})
		}
	}
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		return func(x *State) { x.keep("ev", lin(int64(len(x.events)))) }
	}
	type loop struct {
		f, at Lin
		o     string
		det   string
		input bool
	}
	var loops []loop
	gap, fills := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	doubled := map[string]bool{}
	other := map[string]bool{}
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		for phi := range phis {
			hv, ok := st.top().env[phi].(Lin)
			if !ok || len(hv.t) != 1 || hv.c != 0 || hv.t[0].k != 1 {
				continue
			}
			id := hv.t[0].s.id
			nx, ok1 := E.nextLin(st, phis, hv)
			f, ok2 := firstOf(st, hv)
			if ok1 && ok2 && E.eqLin(st, nx, hv.scale(2)) && f.isConst() && f.c > 0 && f.c&(f.c-1) == 0 {
				doubled[id] = true
			} else {
				other[id] = true
			}
		}
		some := false
		defer func() {
			if some {
				fills[hdr] = true
			} else {
				gap[hdr] = true
			}
		}()
		for _, e := range st.events[nev(st):] {
			if e.Kind != "set" {
				continue
			}
			some = true
			i := e.Args[0].(Lin)
			lp := loop{at: i, o: e.Args[2].(Ptr).o.id}
			f, ok1 := firstOf(st, i)
			nx, ok2 := E.nextLin(st, phis, i)
			lp.f = f
			switch {
			case !ok1 || !ok2 || !E.eqLin(st, nx, i.add(lin(1), 1)):
				lp.det = fmt.Sprintf("the places which are filled are not consecutive: %v after %v", nx, i)
			case e.Args[1].String() == "2":
				if !E.geq0(st, inLen.add(f, -1)) {
					lp.det = fmt.Sprintf("the padding starts at %v", f)
				} else if !E.geq0(st, i.add(inLen, -1)) {
					lp.det = "the place of an input is filled"
				}
			default:
				lp.det = fmt.Sprintf("a place is filled with %v", e.Args[1])
				if l, ok := e.Args[1].(Lin); ok {
					if h, neg, ok := half(l); ok && !neg && len(h.t) == 1 {
						if at, ok := st.kept("at:" + h.t[0].s.id).(Lin); ok && E.eqLin(st, at, i) && E.eqLin(st, f, lin(0)) {
							lp.det, lp.input = "", true
						}
					}
				}
			}
			loops = append(loops, lp)
		}
	}
	k := 0
	E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f != w.sort {
			return false, nil
		}
		k++
		det := func() string {
			p, ok := args[0].(Ptr)
			if !ok {
				return fmt.Sprintf("%v is sorted", args[0])
			}
			get := func(name string) V {
				fi := fieldIndex(P, "logic", "CardSort", name)
				q := Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: fi})}
				if cl, ok := st.mem[cellKey(q)]; ok {
					return cl.v
				}
				return nil
			}
			if cp, ok := get("c").(Ptr); !ok || cp.o.id != "C" {
				return "the circuit is not set"
			}
			st.keep("sorted", Ptr{o: p.o})
			s, ok := get("ms").(Slice)
			nn, ok2 := get("n").(Lin)
			if !ok || !ok2 {
				return "the number of inputs or the outputs are not set"
			}
			if !sameV(nn, inLen) {
				return fmt.Sprintf("the number of inputs is set to %v", nn)
			}
			sl, ok := s.len.(Lin)
			if !ok || !pow2(sl, doubled) && !pow2(sl, nil) {
				return fmt.Sprintf("%v outputs are not known to be a power of two", s.len)
			}
			if len(sl.t) == 1 && other[sl.t[0].s.id] {
				return fmt.Sprintf("%v outputs are not known to be a power of two", s.len)
			}
			if !E.geq0(st, sl.add(inLen, -1)) {
				return "there may be fewer outputs than inputs"
			}
			a, ok1 := args[1].(Lin)
			z, ok2 := args[2].(Lin)
			if !ok1 || !ok2 || !E.eqLin(st, a, s.off) || !E.eqLin(st, z, sl) {
				return fmt.Sprintf("outputs %v to %v are sorted", args[1], args[2])
			}
			copied := false
			for _, e := range st.events {
				if e.Kind != "copy" {
					continue
				}
				d, ok1 := e.Args[0].(Slice)
				src, ok2 := e.Args[1].(Slice)
				if ok1 && ok2 && d.o == s.o && src.o.id == "in" && E.eqLin(st, d.off, s.off) && E.eqLin(st, src.off, lin(0)) && sameV(src.len, inLen) {
					if dl, ok := d.len.(Lin); ok && E.geq0(st, dl.add(inLen, -1)) {
						copied = true
					}
				}
			}
			for _, lp := range loops {
				if lp.o == s.o.id && lp.input && lp.det == "" && E.geq0(st, lp.at.add(inLen, -1)) {
					copied = true
				}
			}
			if !copied {
				return "the inputs are not all taken"
			}
			for h := range fills {
				if gap[h] {
					return "a place may be left out"
				}
			}
			padded := E.eqLin(st, sl, inLen)
			for _, lp := range loops {
				if lp.o != s.o.id {
					continue
				}
				if lp.det != "" {
					return lp.det
				}
				if E.geq0(st, lp.at.add(sl, -1)) && !lp.input {
					padded = true
				}
			}
			if !padded {
				return "the places beyond the inputs are not all filled"
			}
			return ""
		}()
		r.Ob("inputs", fmt.Sprintf("NewCardSort: path %d", k), det == "", ci.Pos(), "%s", det)
		return true, []Opt{{st, Tuple{}}}
	}
	nr := 0
	for _, o := range E.Run(newState(), fn, []V{in, Ptr{o: &Obj{id: "C"}}}, nil) {
		if o.Kind == "return" {
			nr++
			sp, ok1 := o.St.kept("sorted").(Ptr)
			rp, ok2 := o.Ret[0].(Ptr)
			r.Ob("inputs", fmt.Sprintf("NewCardSort: result %d", nr), ok1 && ok2 && sp.o == rp.o, o.Pos, "the result is not what was sorted")
		}
	}
	r.Ob("inputs", "NewCardSort sorts", k > 0 && nr > 0, fn.Pos(), "the outputs are not sorted")
	for f := range E.Funcs {
		r.Fn(f)
	}
}
