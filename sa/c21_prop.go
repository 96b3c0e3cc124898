package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of one arbitrary step of unit propagation: an arbitrary watch of an arbitrary clause. Every feasible path must either keep the watch at the write cursor of the list, or move it to a non-false literal of the same clause; a literal is implied, or a conflict reported, only when the scan of the whole clause found every other literal false; a conflict keeps the unread rest of the list.",
		Run:  runC21})
}

// phiName gives the loop variable after which a symbol is named.
func phiName(id string) string {
	id = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(id, "len("), "off("), ")")
	if i := strings.IndexByte(id, '#'); i >= 0 {
		return id[:i]
	}
	return ""
}

// symOf gives the only symbol of l with coefficient one.
func symOf(v V) (*Sym, int64, bool) {
	l, ok := v.(Lin)
	if !ok || len(l.t) != 1 || l.t[0].k != 1 {
		return nil, 0, false
	}
	return l.t[0].s, l.c, true
}

type propIter struct {
	st   *State
	head map[string]V // loop variables at the head, by name
	next map[string]V
	hdr  *ssa.BasicBlock
}

func runC21(r *Report) {
	P := r.P
	const xo = "internal/xo"
	prop, assign := P.Func(xo, "Trail.Prop"), P.Func(xo, "Trail.Assign")
	fOther, fC, fBin, fMake := P.Func(xo, "Watch.Other"), P.Func(xo, "Watch.C"), P.Func(xo, "Watch.IsBinary"), P.Func(xo, "MakeWatch")
	h := newXO(P)
	E := h.E
	isList := func(id string) bool { return strings.HasPrefix(id, "Vars.Watches[") }
	// blocking gives the blocking literal of the watch
	blocking := func(st *State) []Opt {
		if o := st.mem["@o"].v; o != nil {
			return []Opt{{st, o}}
		}
		s := linSym(&Sym{id: "v(o)", lo: i64(1), hi: i64(1 << 30)})
		dv := s.add(divLin(st.kept("true").(Lin), 2), -1)
		st.setNotZero(dv)
		_, os := opts(st, s.scale(2), s.scale(2).add(lin(1), 1))
		for _, o := range os {
			o.st.keep("o", o.v)
		}
		return os
	}
	// kinds decides whether the clause is binary
	kinds := func(st *State) []*State {
		if st.mem["@bin"].v != nil {
			return []*State{st}
		}
		_, os := opts(st, Boolv(true), Boolv(false))
		for i := range os {
			os[i].st.keep("bin", os[i].v)
		}
		return []*State{os[0].st, os[1].st}
	}
	h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		switch {
		case isWatch(t) && isList(p.o.id):
			w := Tag{"w@" + p.o.id + pathStr(p.path)}
			if _, again := st.mem["@cur"]; again {
				if st.kept("cur").String() == w.String() {
					return one1(st, w)
				}
				return one1(st, Tag{"another " + w.id})
			}
			st.keep("cur", w)
			st.keep("list", Tag{p.o.id})
			st.keep("i", p.path[0].idx)
			return one1(st, w)
		case p.o.id == "Trail.D" && isLit(t):
			s := linSym(&Sym{id: "v(m)", lo: i64(1), hi: i64(1 << 30)})
			s2 := st.clone()
			var os []Opt
			for i, z := range []*State{st, s2} {
				lit := s.scale(2).add(lin(int64(i)), 1)
				z.keep("true", lit)
				z.keep("trailpos", p.path[0].idx)
				o := obj("Vars.Vals")
				for j := int64(0); j < 2; j++ {
					pp := []pe{{f: -1, idx: s.scale(2).add(lin(j), 1)}}
					v := lin(1)
					if j != int64(i) {
						v = lin(-1)
					}
					z.mem[cellKey(Ptr{o, pp})] = cell{o, pp, "elem:int8", v}
				}
				os = append(os, Opt{z, lit})
			}
			return true, os
		case p.o.id == "CDat.D" && isLit(t) && st.mem["@q"].v != nil:
			q := st.kept("q").(Lin)
			d := p.path[0].idx.add(q, -1)
			if !d.isConst() || d.c > 1 {
				if E.decide(st, d.add(lin(2), -1)) != 1 {
					return one1(st, Unk{"header"})
				}
				x := linSym(&Sym{id: "v(" + name + ")", lo: i64(1), hi: i64(1 << 30)})
				pos := p.path[0].idx
				ok, os := opts(st, x.scale(2), x.scale(2).add(lin(1), 1), lin(0))
				for _, o := range os {
					o.st.keep("n", o.v)
					o.st.events = append(o.st.events, Event{Kind: "lit", Args: []V{o.v, pos}})
				}
				return ok, os
			}
			if d.c < 0 {
				return one1(st, Unk{"header"})
			}
			m := E.negLit(st.kept("true"))
			// exactly one of the first two literals is the false one
			var os []Opt
			for _, sb := range kinds(st) {
				var xs []Opt
				if sb.kept("bin").(Boolv) {
					xs = blocking(sb)
				} else {
					x := linSym(&Sym{id: "v(x)", lo: i64(1), hi: i64(1 << 30)})
					_, xs = opts(sb, x.scale(2), x.scale(2).add(lin(1), 1))
				}
				for _, xo := range xs {
					for first := int64(0); first < 2; first++ {
						z, x := xo.st.clone(), xo.v
						z.keep("x", x)
						if xl, ok := x.(Lin); ok {
							dv := divLin(xl, 2).add(divLin(m.(Lin), 2), -1)
							z.setNotZero(dv)
						}
						for j := int64(0); j < 2; j++ {
							pp := []pe{{f: -1, idx: q.add(lin(j), 1)}}
							v := x
							if j == first {
								v = m
							}
							z.mem[cellKey(Ptr{p.o, pp})] = cell{p.o, pp, "elem:" + t.String(), v}
						}
						v := x
						if d.c == first {
							v = m
						}
						os = append(os, Opt{z, v})
					}
				}
			}
			return true, os
		}
		return false, nil
	}
	E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case fOther, fC, fBin:
			cur := st.mem["@cur"].v
			if cur == nil || args[0].String() != cur.String() {
				return false, nil
			}
		}
		switch fn {
		case fOther:
			return true, blocking(st)
		case fC:
			if st.mem["@q"].v == nil {
				st.keep("q", linSym(&Sym{id: "q", lo: i64(1), hi: i64(1 << 32)}))
			}
			return one1(st, st.kept("q"))
		case fBin:
			var os []Opt
			for _, z := range kinds(st) {
				os = append(os, Opt{z, z.kept("bin")})
			}
			return true, os
		case fMake:
			return one1(st, Tuple{Tag{"mw"}, args[0], args[1], args[2]})
		case assign:
			var was V
			if l, ok := args[1].(Lin); ok {
				was = elem(st, "Vars.Vals", l)
			}
			if was == nil {
				was = Top{}
			}
			st.events = append(st.events, Event{Kind: "assign", Args: []V{args[1], args[2], was}, Pos: ci.Pos()})
			return true, []Opt{{st, Tuple{}}}
		}
		return false, nil
	}
	E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if isList(p.o.id) && len(p.path) == 1 {
			st.events = append(st.events, Event{Kind: "put", Args: []V{Tag{p.o.id}, p.path[0].idx, v}, Pos: pos})
		}
		if p.o.id == "Vars.Watches" {
			st.events = append(st.events, Event{Kind: "list", Args: []V{p.path[0].idx, v}, Pos: pos})
		}
	}
	inits := map[string]map[string]V{} // by loop variable
	E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		n := phi.Parent().Name() + "." + phi.Name()
		if inits[n] == nil {
			inits[n] = map[string]V{}
		}
		inits[n][init.String()] = init
		st.keep("init:"+n, init)
		return false, nil
	}
	var iters []propIter
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		it := propIter{st: st.clone(), head: map[string]V{}, next: map[string]V{}, hdr: hdr}
		for phi, v := range phis {
			n := phi.Parent().Name() + "." + phi.Name()
			it.head[n], it.next[n] = st.top().env[phi], v
		}
		iters = append(iters, it)
	}
	outs := E.Run(newState(), prop, []V{h.ptr("Trail")}, nil)
	for f := range E.Funcs {
		r.Fn(f)
	}
	num := func(v V) (Lin, bool) {
		if s, ok := v.(Slice); ok {
			v = s.len
		}
		l, ok := v.(Lin)
		return l, ok
	}
	// the write cursors: what the final length of the list is made of
	cursors := map[string]bool{}
	addCursor := func(v V) {
		if l, ok := v.(Lin); ok {
			for _, t := range l.t {
				if n := phiName(t.s.id); n != "" && t.k == 1 {
					cursors[n] = true
				}
			}
		}
	}
	finals := func(st *State, k func(e Event, s Slice)) {
		list := st.mem["@list"].v
		for _, e := range st.events {
			if e.Kind != "list" {
				continue
			}
			s, ok := e.Args[1].(Slice)
			if ok && (list != nil && list.String() == "#"+s.o.id || list == nil && strings.Contains(s.len.String(), "#")) {
				k(e, s)
			}
		}
	}
	isOuter := func(it propIter) bool {
		// the loop over the trail stores the list back
		f := false
		finals(it.st, func(Event, Slice) { f = true })
		return f
	}
	for _, it := range iters {
		finals(it.st, func(e Event, s Slice) { addCursor(s.len) })
	}
	for _, o := range outs {
		finals(o.St, func(e Event, s Slice) {
			if l, ok := s.len.(Lin); ok && len(l.t) == 1 {
				addCursor(s.len)
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for c := range cursors {
			for _, iv := range inits[c] {
				if s, _, ok := symOf(iv); ok {
					if n := phiName(s.id); n != "" && !cursors[n] && inits[n] != nil {
						cursors[n], ch = true, true
					}
				}
			}
		}
	}
	starts := func(n string) bool { // starts at zero, or where another cursor is
		for _, iv := range inits[n] {
			l, ok := num(iv)
			if !ok {
				return false
			}
			if l.isConst() && l.c == 0 {
				continue
			}
			s, c, ok := symOf(l)
			if !ok || c != 0 || !cursors[phiName(s.id)] {
				return false
			}
		}
		return true
	}
	for c := range cursors {
		r.Ob("cursor", "start of "+c, starts(c), prop.Pos(), "the kept watches do not start at the front of the list")
	}
	r.Floor("cursor", 1)
	conflictTail := func(st *State, cur Lin, i Lin) string {
		// the rest of the list, from the current watch on, is moved to the cursor
		list := st.kept("list").(Tag).id
		n := Lin{}
		moved := false
		var fin Lin
		stored := false
		lenW := linSym(&Sym{id: "len(" + list + ")", lo: i64(0)})
		for _, e := range st.events {
			switch e.Kind {
			case "copy":
				d, ok1 := e.Args[0].(Slice)
				s, ok2 := e.Args[1].(Slice)
				if ok1 && ok2 && d.o.id == list && s.o.id == list {
					sl, ok := s.len.(Lin)
					if !ok {
						continue
					}
					end := s.off.add(sl, 1)
					// an open ended destination takes all of the source, as the cursor is not after the index
					if dl, ok := d.len.(Lin); !ok || !(E.eqLin(st, dl, sl) || E.eqLin(st, d.off.add(dl, 1), lenW) || E.geq0(st, dl.add(sl, -1))) {
						continue
					}
					if cl, ok := e.Args[len(e.Args)-1].(Lin); ok && len(e.Args) == 3 && !E.eqLin(st, cl, sl) {
						sl = cl
					}
					if E.eqLin(st, d.off, cur) && E.eqLin(st, s.off, i) && E.eqLin(st, end, lenW) {
						moved, n = true, cur.add(sl, 1)
					}
					// the current watch was kept already
					if E.eqLin(st, d.off, cur.add(lin(1), 1)) && E.eqLin(st, s.off, i.add(lin(1), 1)) && E.eqLin(st, end, lenW) {
						for _, p := range st.events {
							if p.Kind == "put" && p.Args[0].String() == "#"+list && E.eqLin(st, p.Args[1], cur) && p.Args[2].String() == st.kept("cur").String() {
								moved, n = true, cur.add(lin(1), 1).add(sl, 1)
							}
						}
					}
				}
			case "list":
				if s, ok := e.Args[1].(Slice); ok && s.o.id == list {
					fin, stored = s.len.(Lin)
				}
			}
		}
		switch {
		case !moved:
			return "the watches after the conflicting clause are not kept"
		case !stored || !E.eqLin(st, fin, n):
			return fmt.Sprintf("after a conflict the list has length %v, expected %v", fin, n)
		}
		return ""
	}
	val := func(st *State, l V) (int64, bool) {
		x, ok := l.(Lin)
		if !ok {
			return 0, false
		}
		v, ok := elem(st, "Vars.Vals", x).(Lin)
		if !ok || !v.isConst() {
			return 0, false
		}
		return v.c, true
	}
	litAt := func(st *State, pos Lin) (V, bool) {
		for _, e := range st.events {
			if e.Kind == "lit" && E.eqLin(st, e.Args[1].(Lin), pos) {
				return e.Args[0], true
			}
		}
		return nil, false
	}
	// scanBase gives the position of the first literal which the scan up to
	// pos has not passed in an earlier iteration.
	scanBase := func(st *State, pos Lin) (Lin, bool) {
		q, ok := st.mem["@q"].v.(Lin)
		if !ok {
			return Lin{}, false
		}
		if d := pos.add(q, -1); d.isConst() {
			return q.add(lin(2), 1), true
		}
		s, _, ok := symOf(pos)
		if !ok {
			return Lin{}, false
		}
		i, ok := st.mem["@init:"+phiName(s.id)].v.(Lin)
		if !ok {
			return Lin{}, false
		}
		c0 := i.add(q, -1)
		return linSym(s).add(lin(2-c0.c), 1), c0.isConst()
	}
	covered := func(st *State, pos Lin) bool {
		b, ok := scanBase(st, pos)
		if !ok {
			return false
		}
		n := pos.add(b, -1)
		if !n.isConst() || n.c < 0 {
			return false
		}
		for i := int64(0); i < n.c; i++ {
			l, ok := litAt(st, b.add(lin(i), 1))
			if !ok {
				return false
			}
			if v, known := val(st, l); !known || v != -1 {
				return false
			}
		}
		return true
	}
	// logic judges what the step did with the clause
	logic := func(st *State, kept bool, conflict V) string {
		if st.mem["@o"].v == nil {
			return "the watch is not looked at"
		}
		m := E.negLit(st.kept("true"))
		oval, ok := val(st, st.kept("o"))
		sat := ok && oval == 1
		x := st.mem["@x"].v
		if x != nil {
			if v, ok := val(st, x); ok && v == 1 {
				sat = true
			}
		}
		bin, _ := st.mem["@bin"].v.(Boolv)
		if bool(bin) {
			x = st.kept("o")
		}
		scanned := bool(bin)
		for _, e := range st.events {
			if e.Kind == "lit" && e.Args[0].String() == "0" && covered(st, e.Args[1].(Lin)) {
				scanned = true
			}
		}
		var asg *Event
		for i, e := range st.events {
			if e.Kind == "assign" {
				if asg != nil {
					return "two literals are assigned"
				}
				asg = &st.events[i]
			}
		}
		if asg != nil {
			q := st.mem["@q"].v
			switch {
			case conflict != nil || !kept:
				return "a literal is assigned by a clause whose watch is moved"
			case x == nil || !sameV(asg.Args[0], x):
				return fmt.Sprintf("the literal %v is implied, the other watched literal is %v", asg.Args[0], x)
			case q == nil || !sameV(asg.Args[1], q):
				return fmt.Sprintf("the reason of an implied literal is %v", asg.Args[1])
			case asg.Args[2].String() != "0":
				return fmt.Sprintf("a literal of value %v is implied", asg.Args[2])
			case !scanned:
				return "a literal is implied before the whole clause was found false"
			}
			ql := q.(Lin)
			if f := elem(st, "CDat.D", ql); f == nil {
				return "the implied literal is not moved to the front of its clause"
			} else if !sameV(f, x) {
				return "the implied literal is not the first of its clause"
			}
			return ""
		}
		if conflict != nil {
			q := st.mem["@q"].v
			if q == nil || !sameV(conflict, q) {
				return fmt.Sprintf("the conflict reported is %v", conflict)
			}
			if x == nil {
				return "a conflict is reported without looking at the clause"
			}
			if v, ok := val(st, x); !ok || v != -1 {
				return "a conflict is reported although the other watched literal is not false"
			}
			if !scanned {
				return "a conflict is reported before the whole clause was found false"
			}
			return ""
		}
		if kept {
			if !sat {
				return "the watch of a clause which is not satisfied is kept, but nothing is implied"
			}
			return ""
		}
		// moved
		q, okq := st.mem["@q"].v.(Lin)
		if !okq {
			return "a watch is dropped"
		}
		found := false
		var n, np Lin
		for _, e := range st.events {
			l, ok := e.Args[0].(Lin)
			if e.Kind != "lit" || !ok || l.isConst() {
				continue
			}
			for _, p := range st.events {
				if p.Kind == "put" && p.Args[0].String() == "#Vars.Watches["+l.String()+"]" {
					n, np = l, e.Args[1].(Lin)
				}
			}
		}
		for _, e := range st.events {
			if e.Kind != "put" || e.Args[0].String() == st.kept("list").String() {
				continue
			}
			mw, ok := e.Args[2].(Tuple)
			id := e.Args[0].(Tag).id
			if !ok || len(mw) != 4 || id != "Vars.Watches["+n.String()+"]" {
				continue
			}
			if !sameV(mw[1], q) || !(mw[3].String() == "false") {
				return fmt.Sprintf("the new watch refers to clause %v (binary: %v)", mw[1], mw[3])
			}
			in := false
			for _, c := range []V{m, x, st.mem["@o"].v} {
				if c != nil && sameV(mw[2], c) {
					in = true
				}
			}
			if !in {
				return fmt.Sprintf("the blocking literal of the new watch is %v", mw[2])
			}
			if !E.eqLin(st, e.Args[1], linSym(&Sym{id: "len(" + id + ")"})) {
				return "the new watch is not appended"
			}
			for _, l := range st.events {
				if s, ok := l.Args[len(l.Args)-1].(Slice); l.Kind == "list" && ok && s.o.id == id {
					if ll, ok := s.len.(Lin); ok && sameV(ll, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}).add(lin(1), 1)) {
						found = true
					}
				}
			}
		}
		if !found {
			return "a watch is dropped: it is not moved to another literal of the clause"
		}
		if v, ok := val(st, n); !ok || v == -1 {
			return "a watch is moved to a literal which may be false"
		}
		a, b, c := elem(st, "CDat.D", q), elem(st, "CDat.D", q.add(lin(1), 1)), elem(st, "CDat.D", np)
		if a == nil || b == nil || c == nil || !sameV(c, m) ||
			!(sameV(a, n) && sameV(b, x) || sameV(a, x) && sameV(b, n)) {
			return fmt.Sprintf("the clause becomes %v %v .. %v, the literals were %v %v .. %v", a, b, c, m, x, n)
		}
		return ""
	}
	nScan, nStep, nRest := 0, 0, 0
	restIdx := map[string]int64{} // loop variables which index the rest: offset of the entry read
	// restInit gives where a loop which keeps the rest of the list starts
	restInit := func(st *State, cn string) (Lin, bool) {
		l, ok := num(st.mem["@init:"+cn].v)
		if !ok || st.mem["@o"].v == nil {
			return Lin{}, false
		}
		s, _, ok := symOf(l)
		return l, ok && cursors[phiName(s.id)] && phiName(s.id) != cn
	}
	for _, it := range iters {
		if isOuter(it) {
			continue
		}
		hasWatch := it.st.mem["@cur"].v != nil
		hasLit := it.st.mem["@n"].v != nil
		var cn string
		for n := range it.head {
			if cursors[n] {
				cn = n
			}
		}
		switch {
		case hasLit && cn == "":
			nScan++
			st := it.st
			ok, det := false, "the scan of a clause skips a literal"
			for ph, hv := range it.head {
				hl, ok1 := hv.(Lin)
				nl, ok2 := it.next[ph].(Lin)
				if !ok1 || !ok2 {
					continue
				}
				b, okb := scanBase(st, hl)
				k := nl.add(hl, -1)
				if !okb || !k.isConst() || k.c < 1 || k.c > 8 {
					continue
				}
				ok, det = true, ""
				for i := int64(0); i < k.c; i++ {
					l, found := litAt(st, b.add(lin(i), 1))
					if !found {
						ok, det = false, "the scan of a clause skips a literal"
					} else if v, known := val(st, l); !known || v != -1 {
						ok, det = false, "the scan of a clause passes a literal which may not be false"
					}
				}
			}
			r.Ob("scan", fmt.Sprintf("literal %d", nScan), ok, prop.Pos(), "%s", det)
		case hasWatch && cn != "" && func() bool { _, ok := restInit(it.st, cn); return ok }():
			// after a conflict: entry k of the list becomes entry c
			st := it.st
			nRest++
			c0, _ := restInit(st, cn)
			c, _ := num(it.head[cn])
			nc, _ := num(it.next[cn])
			i := st.kept("i").(Lin)
			list := st.kept("list").(Tag).id
			det := "the rest of the list is not kept"
			for ph, hv := range it.head {
				hl, ok := hv.(Lin)
				nl, ok2 := it.next[ph].(Lin)
				k0, ok3 := st.mem["@init:"+ph].v.(Lin)
				if ph == cn || !ok || !ok2 || !ok3 || !E.eqLin(st, nl, hl.add(lin(1), 1)) || !E.eqLin(st, nc, c.add(lin(1), 1)) {
					continue
				}
				for _, e := range st.events {
					if e.Kind != "put" || e.Args[0].String() != "#"+list || !E.eqLin(st, e.Args[1], c) {
						continue
					}
					// the element stored is the one at hl + d
					for d := int64(0); d < 2; d++ {
						src := "#another w@" + list + pathStr([]pe{{f: -1, idx: hl.add(lin(d), 1)}})
						if e.Args[2].String() != src {
							continue
						}
						at := k0.add(lin(d), 1)
						restIdx[ph] = d
						if E.eqLin(st, at, i) {
							det = ""
						} else if E.eqLin(st, at, i.add(lin(1), 1)) {
							for _, p := range st.events {
								if p.Kind == "put" && p.Args[0].String() == "#"+list && E.eqLin(st, p.Args[1], c0.add(lin(1), -1)) && p.Args[2].String() == st.kept("cur").String() {
									det = ""
								}
							}
						}
					}
				}
			}
			r.Ob("rest", fmt.Sprintf("path %d", nRest), det == "", prop.Pos(), "%s", det)
		case hasWatch && cn != "":
			st := it.st
			i := st.kept("i").(Lin)
			c, _ := num(it.head[cn])
			nc, _ := num(it.next[cn])
			cur := st.kept("cur")
			kept := false
			det := ""
			d := nc.add(c, -1)
			switch {
			case d.isConst() && d.c == 1:
				puts := 0
				for _, e := range st.events {
					if e.Kind == "put" && e.Args[0].String() == st.kept("list").String() {
						puts++
						if E.eqLin(st, e.Args[1], c) && e.Args[2].String() == cur.String() {
							kept = true
						} else {
							det = fmt.Sprintf("entry %v of the list is overwritten by %v", e.Args[1], e.Args[2])
						}
					}
				}
				if puts == 0 && E.eqLin(st, c, i) {
					kept = true
				}
				if !kept && det == "" {
					det = "the cursor advances over a watch which is not kept"
				}
			case d.isConst() && d.c == 0:
				for _, e := range st.events {
					if e.Kind == "put" && e.Args[0].String() == st.kept("list").String() {
						det = "an entry is overwritten without advancing the cursor"
					}
				}
			default:
				det = fmt.Sprintf("the cursor moves from %v to %v", c, nc)
			}
			// the next watch read is the next of the list
			adv := false
			for ph, hv := range it.head {
				if cursors[ph] {
					continue
				}
				if hl, ok := hv.(Lin); ok {
					if nl, ok := it.next[ph].(Lin); ok && E.eqLin(st, nl, hl.add(lin(1), 1)) {
						if d := i.add(hl, -1); d.isConst() {
							adv = true
							for _, iv := range inits[ph] {
								if il, ok := iv.(Lin); !ok || (il.isConst() && il.c+d.c != 0) {
									det = fmt.Sprintf("the list is read from %v on", iv)
								}
							}
						}
					}
				}
			}
			if !adv && det == "" {
				det = "a watch is skipped"
			}
			nStep++
			if det == "" {
				det = logic(st, kept, nil)
			}
			r.Ob("step", fmt.Sprintf("path %d", nStep), det == "", prop.Pos(), "%s", det)
		default:
			r.Ob("step", "loop at "+P.Pos(firstPos(it.hdr)), false, firstPos(it.hdr), "a loop which is neither over the trail, the watches nor a clause")
		}
	}
	// ends of the function
	nConf, nDone := 0, 0
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		if l, ok := o.Ret[0].(Lin); ok && l.isConst() && l.c == 0 {
			nDone++
			hd, _ := fieldV(o.St, P, xo, "Trail", "Head").(Lin)
			tl, _ := fieldV(o.St, P, xo, "Trail", "Tail").(Lin)
			r.Ob("done", fmt.Sprintf("return %d", nDone), E.geq0(o.St, hd.add(tl, -1)), o.Pos, "propagation ends without conflict at head %v, tail %v", hd, tl)
			continue
		}
		nConf++
		st := o.St
		name := fmt.Sprintf("return %d", nConf)
		if st.mem["@cur"].v == nil {
			r.Ob("conflict", name, false, o.Pos, "the value %v is returned", o.Ret[0])
			continue
		}
		det := logic(st, true, o.Ret[0])
		if det == "" {
			// the cursor at this point
			i := st.kept("i").(Lin)
			det = "the watches after the conflicting clause are not kept"
			for _, e := range st.events {
				if e.Kind != "copy" {
					continue
				}
				if d, ok := e.Args[0].(Slice); ok {
					for _, t := range d.off.t {
						if cursors[phiName(t.s.id)] || len(d.off.t) == 1 {
							for k := int64(0); k < 2; k++ {
								if x := conflictTail(st, d.off.add(lin(k), -1), i); x == "" || k == 0 {
									det = x
									if x == "" {
										break
									}
								}
							}
						}
					}
				}
				if det == "" {
					break
				}
			}
			if nRest > 0 && det != "" {
				det = ""
				ok := false
				finals(st, func(e Event, s Slice) {
					sy, c, isS := symOf(s.len)
					if !isS || c != 0 || !cursors[phiName(sy.id)] {
						return
					}
					for _, f := range st.facts {
						for _, t := range f.t {
							if d, isR := restIdx[phiName(t.s.id)]; isR && t.k == 1 &&
								E.geq0(st, linSym(t.s).add(lin(d), 1).add(linSym(&Sym{id: "len(" + s.o.id + ")", lo: i64(0)}), -1)) {
								ok = true
							}
						}
					}
				})
				if !ok {
					det = "the list is not cut at its cursor after a conflict"
				}
			}
		}
		r.Ob("conflict", name, det == "", o.Pos, "%s", det)
	}
	// the loop over the trail
	nOut := 0
	for _, it := range iters {
		if !isOuter(it) {
			continue
		}
		nOut++
		st := it.st
		det := ""
		pos, _ := st.mem["@trailpos"].v.(Lin)
		hd, _ := fieldV(st, P, xo, "Trail", "Head").(Lin)
		if !E.eqLin(st, hd, pos.add(lin(1), 1)) {
			det = fmt.Sprintf("after trail entry %v the head is %v", pos, hd)
		}
		finals(st, func(e Event, s Slice) {
			m := E.negLit(st.kept("true"))
			if !sameV(e.Args[0], m) {
				det = fmt.Sprintf("the kept watches are stored for %v instead of %v", e.Args[0], m)
			}
			sy, c, ok := symOf(s.len)
			if !ok || c != 0 || !cursors[phiName(sy.id)] || !sameV(s.off, lin(0)) {
				det = fmt.Sprintf("the list is cut to %v", s)
			}
			// every watch was read
			full := false
			for _, f := range st.facts {
				for _, t := range f.t {
					if t.k == 1 && phiName(t.s.id) != "" && !cursors[phiName(t.s.id)] {
						x := linSym(t.s)
						for c := int64(0); c < 2; c++ {
							zero := false
							for _, iv := range inits[phiName(t.s.id)] {
								if il, ok := iv.(Lin); ok && il.isConst() && il.c+c == 0 {
									zero = true
								}
							}
							if zero && E.geq0(st, x.add(lin(c), 1).add(linSym(&Sym{id: "len(" + s.o.id + ")", lo: i64(0)}), -1)) {
								full = true
							}
						}
					}
				}
			}
			if !full && det == "" {
				det = "the list is cut before every watch was read"
			}
		})
		r.Ob("list", fmt.Sprintf("path %d", nOut), det == "", prop.Pos(), "%s", det)
	}
	r.Floor("step", 8)
	r.Floor("scan", 1)
	r.Floor("conflict", 2)
	r.Floor("done", 1)
	r.Floor("list", 1)
	r.Assume("invariant: a watch of m refers to a clause with m among its first two literals, and the blocking literal of a binary clause is its other literal; clauses contain no variable twice")
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// negLit negates a literal of known sign.
func (E *Interp) negLit(v V) V {
	l, ok := v.(Lin)
	if !ok || !l.divisible(2) {
		return Top{}
	}
	if l.c%2 == 0 {
		return l.add(lin(1), 1)
	}
	return l.add(lin(1), -1)
}
