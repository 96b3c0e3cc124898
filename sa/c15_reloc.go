package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa: one arbitrary entry of every table of clause locations under an arbitrary relocation map; one arbitrary clause of a compaction; typestate of the removal queue.",
		Run:  runC15})
}

// tableRec is what one iteration did to one table of clause locations.
type tableRec struct {
	obj    string
	idx    Lin
	status V // nil, "absent", "removed" or the new location
	write  bool
	w      Lin
	still  map[string]bool // loop variables which stay as they are
	det    string
}

type relocW struct {
	h    *xoHeap
	P    *Prog
	recs []tableRec
	// slices stored into the rows of a table of tables
	rowsAt map[string][]Lin
	rowDet []string
	rows   []func() string
	// the row of an iteration, from the loop variable at the head
	rowPhi map[*ssa.BasicBlock]map[string]rowVar
	skips  []skip
}

type rowVar struct {
	phi *ssa.Phi
	c   Lin
}

type skip struct {
	hdr *ssa.BasicBlock
	st  *State
}

// status of a location under the relocation map.
func (w *relocW) lookup(st *State, in *ssa.Lookup, m, k V) (bool, []Opt) {
	if u, ok := m.(Unk); !ok || u.id != "map" {
		return false, nil
	}
	mk := func(st *State, v V, ok bool) V {
		if in.CommaOk {
			return Tuple{v, Boolv(ok)}
		}
		return v
	}
	key := "map:" + k.String()
	switch s := st.kept(key).(type) {
	case Strv:
		return one1(st, mk(st, lin(0), s == "removed"))
	case Lin:
		return one1(st, mk(st, s, true))
	}
	st2, st3 := st.clone(), st.clone()
	st.keep(key, Strv("absent"))
	st2.keep(key, Strv("removed"))
	q := linSym(&Sym{id: "to(" + k.String() + ")", lo: i64(1), hi: i64(1<<32 - 1)})
	st3.keep(key, q)
	return true, []Opt{{st, mk(st, lin(0), false)}, {st2, mk(st2, lin(0), true)}, {st3, mk(st3, q, true)}}
}

// locOf is the location which an entry of a table refers to.
func locOf(st *State, v V) V {
	if l, ok := st.kept("loc:" + v.String()).(Lin); ok {
		return l
	}
	return v
}

func isLocTable(o string) bool {
	return o == "Cdb.Learnts" || o == "Cdb.Added" || o == "Vars.Reasons" || strings.HasPrefix(o, "Vars.Watches[") || strings.HasPrefix(o, "Active.Occs[")
}

func newReloc(P *Prog) *relocW {
	w := &relocW{h: newXO(P), P: P, rowsAt: map[string][]Lin{}, rowPhi: map[*ssa.BasicBlock]map[string]rowVar{}}
	E := w.h.E
	w.h.Nil["Cdb.Active"] = true
	E.Lookup = w.lookup
	E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if strings.HasPrefix(p.o.id, "Vars.Watches[") || strings.HasPrefix(p.o.id, "Active.Occs[") {
			name := cellName(p, key)
			ok, os := w.h.load1(st, p, name, key, t)
			for _, o := range os {
				w.h.OnLoad(o.st, p, name, o.v)
			}
			return ok, os
		}
		return w.h.load(st, p, key, t)
	}
	wc, wr := P.Func("internal/xo", "Watch.C"), P.Func("internal/xo", "Watch.Relocate")
	E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case wc:
			l := linSym(&Sym{id: "loc(" + args[0].String() + ")", lo: i64(1), hi: i64(1<<32 - 1)})
			st.keep("loc:"+args[0].String(), l)
			return one1(st, l)
		case wr:
			st.seq++
			x := linSym(&Sym{id: fmt.Sprintf("rel#%d", st.seq), lo: i64(0)})
			st.keep("rel:"+x.String(), Tuple{args[0], args[1]})
			return one1(st, x)
		}
		return false, nil
	}
	w.h.OnLoad = func(st *State, p Ptr, name string, v V) {
		if len(p.path) == 1 && p.path[0].f < 0 && isLocTable(p.o.id) {
			st.events = append(st.events, Event{Kind: "read", Args: []V{Ptr{o: p.o}, p.path[0].idx, v}})
		}
	}
	E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if len(p.path) == 1 && p.path[0].f < 0 {
			st.events = append(st.events, Event{Kind: "write", Args: []V{Ptr{o: p.o}, p.path[0].idx, v}, Pos: pos})
		}
	}
	keepInit(E)
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		return func(s *State) { s.keep("ev", lin(int64(len(s.events)))) }
	}
	E.Back = w.back
	return w
}

func (w *relocW) back(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
	E := w.h.E
	from, _ := st.kept("ev").(Lin)
	evs := st.events[from.c:]
	still := map[string]bool{}
	for phi, nv := range phis {
		switch hv := st.top().env[phi].(type) {
		case Lin:
			if n, ok := nv.(Lin); ok && len(hv.t) == 1 && E.eqLin(st, n, hv) {
				still[hv.t[0].s.id] = true
			}
		case Slice:
			n, ok := nv.(Slice)
			l, ok2 := hv.len.(Lin)
			if ok && ok2 && len(l.t) == 1 && E.eqLin(st, n.len, l) {
				still[l.t[0].s.id] = true
			}
		}
	}
	// rows of a table of tables
	skipped := true
	for _, e := range evs {
		if e.Kind != "write" {
			continue
		}
		o := e.Args[0].(Ptr).o.id
		if o != "Vars.Watches" && o != "Active.Occs" {
			continue
		}
		idx := e.Args[1].(Lin)
		row := o + "[" + idx.String() + "]"
		s, ok := e.Args[2].(Slice)
		if !ok || s.o.id != row || !E.eqLin(st, s.off, lin(0)) {
			w.rowDet = append(w.rowDet, fmt.Sprintf("%s becomes %v", row, e.Args[2]))
			continue
		}
		w.rows = append(w.rows, func() string { return w.closed(st, row, s.len) })
		w.stepped(st, phis, o, idx, 2)
		skipped = false
		for phi := range phis {
			if hv, ok := st.top().env[phi].(Lin); ok && len(hv.t) > 0 && idx.add(hv, -1).isConst() {
				if w.rowPhi[hdr] == nil {
					w.rowPhi[hdr] = map[string]rowVar{}
				}
				w.rowPhi[hdr][o] = rowVar{phi, idx.add(hv, -1)}
			}
		}
	}
	if skipped {
		// the frame changes after this
		w.skips = append(w.skips, skip{hdr, st.clone()})
	}
	recs := map[string]*tableRec{}
	var order []string
	for _, e := range evs {
		o := ""
		if p, ok := e.Args[0].(Ptr); ok {
			o = p.o.id
		}
		if !isLocTable(o) {
			continue
		}
		if e.Kind == "read" {
			if _, ok := recs[o]; !ok {
				recs[o] = &tableRec{obj: o, idx: e.Args[1].(Lin), status: e.Args[2], still: still}
				order = append(order, o)
			}
		}
	}
	for _, o := range order {
		r := recs[o]
		val := r.status
		loc := locOf(st, val)
		r.status = st.kept("map:" + loc.String())
		n := 0
		for _, e := range evs {
			if e.Kind == "write" && e.Args[0].(Ptr).o.id == o {
				n++
				r.write, r.w = true, e.Args[1].(Lin)
				want := val
				switch q := r.status.(type) {
				case Lin:
					want = q
					if loc.String() != val.String() {
						tu, ok := st.kept("rel:" + e.Args[2].String()).(Tuple)
						if !ok || !sameV(tu[0], val) || !sameV(tu[1], q) {
							r.det = "the entry of a moved clause is not the old one with the new location"
						}
						want = e.Args[2]
					}
				case Strv:
					if q == "removed" {
						if o == "Vars.Reasons" {
							want = lin(0)
						} else {
							r.det = "the entry of a removed clause is kept"
						}
					}
				case nil:
					r.det = "an entry is kept which is not looked up"
				}
				if r.det == "" && !sameV(e.Args[2], want) {
					r.det = fmt.Sprintf("the entry becomes %v instead of %v", e.Args[2], want)
				}
			}
		}
		if n > 1 {
			r.det = "several entries are written for one"
		}
		if r.status == nil && r.det == "" {
			r.det = "an entry is not looked up"
		}
		nx, ok := E.nextLin(st, phis, r.idx)
		f, ok2 := firstOf(st, r.idx)
		if r.det == "" && (!ok || !ok2 || !E.eqLin(st, nx, r.idx.add(lin(1), 1)) || !E.eqLin(st, f, lin(0))) {
			r.det = fmt.Sprintf("the entries are not visited one by one: first %v, %v after %v", f, nx, r.idx)
		}
		if o == "Vars.Reasons" {
			// in place, by variable
			switch s := r.status.(type) {
			case Strv:
				if s == "removed" && !r.write && r.det == "" {
					r.det = "the reason stays a removed clause"
				}
			case Lin:
				if !r.write && r.det == "" {
					r.det = "the reason of a moved clause stays at the old location"
				}
			}
			if r.write && r.det == "" && !sameV(r.w, r.idx) {
				r.det = "the reason becomes that of another variable"
			}
		} else {
			_, moved := r.status.(Lin)
			if s, ok := r.status.(Strv); (moved || ok && s == "absent") && !r.write && r.det == "" {
				r.det = "the entry of a remaining clause is lost"
			}
			if r.write && r.det == "" {
				nw, ok := w.next(st, phis, r.w)
				if !ok || !E.eqLin(st, nw, r.w.add(lin(1), 1)) {
					r.det = fmt.Sprintf("the next entry is written to %v after %v", nw, r.w)
				} else if fw, ok := w.first(st, r.w); !ok || !E.geq0(st, f.add(fw, -1)) {
					// each step adds one to the places read, and at most one to those written
					r.det = "entries which were not read yet are overwritten"
				}
			}
		}
		w.recs = append(w.recs, *r)
	}
}

// next is nextLin which also follows the length of a slice which grows.
func (w *relocW) next(st *State, phis map[*ssa.Phi]V, l Lin) (Lin, bool) {
	if len(l.t) == 1 {
		for phi, nv := range phis {
			hv, ok := st.top().env[phi].(Slice)
			n, ok2 := nv.(Slice)
			if !ok || !ok2 {
				continue
			}
			hl, ok := hv.len.(Lin)
			nl, ok2 := n.len.(Lin)
			if ok && ok2 && len(hl.t) == 1 && hl.t[0].s.id == l.t[0].s.id && hl.t[0].k == 1 && l.t[0].k == 1 {
				return nl.add(hl, -1).add(l, 1), true
			}
		}
	}
	return w.h.E.nextLin(st, phis, l)
}

// first is firstOf which also follows the length of a slice which grows.
func (w *relocW) first(st *State, l Lin) (Lin, bool) {
	if len(l.t) == 1 && strings.HasPrefix(l.t[0].s.id, "len(") {
		if n := phiName(strings.TrimPrefix(l.t[0].s.id, "len(")); n != "" {
			if s, ok := st.mem["@init:"+n].v.(Slice); ok {
				if sl, ok := s.len.(Lin); ok {
					return l.add(linSym(l.t[0].s), -1).add(sl, 1), true
				}
			}
		}
	}
	return firstOf(st, l)
}

// stepped records that the rows are visited one by one.
func (w *relocW) stepped(st *State, phis map[*ssa.Phi]V, o string, idx Lin, lim int64) {
	E := w.h.E
	nx, ok := E.nextLin(st, phis, idx)
	f, ok2 := firstOf(st, idx)
	if !ok || !ok2 || !E.eqLin(st, nx, idx.add(lin(1), 1)) || !f.isConst() || f.c > lim {
		w.rowDet = append(w.rowDet, fmt.Sprintf("the rows of %s are not visited one by one: first %v, %v after %v", o, f, nx, idx))
	}
	w.rowsAt[o] = append(w.rowsAt[o], idx)
}

// closed tells what is missing for table o to be relocated when it has length n.
func (w *relocW) closed(st *State, o string, n V) string {
	E := w.h.E
	E2 := E
	l := linSym(&Sym{id: "len(" + o + ")", lo: i64(0)})
	seen, end, pos := false, false, false
	for _, r := range w.recs {
		if r.obj != o {
			continue
		}
		seen = true
		if E2.geq0(st, r.idx.add(l, -1)) {
			end = true
		}
		if r.write && o != "Vars.Reasons" && E2.eqLin(st, n, r.w) {
			pos = true
		}
	}
	switch {
	case !seen:
		return o + " is not relocated"
	case !end:
		return "the last entries of " + o + " may be left as they are"
	case !pos && o != "Vars.Reasons":
		return fmt.Sprintf("%s ends at %v instead of after the last entry written", o, n)
	}
	return ""
}

func runC15(r *Report) {
	uniqs(r)
	P := r.P
	w := newReloc(P)
	E := w.h.E
	fn := P.Func("internal/xo", "Cgc.relocate")
	k := 0
	st0 := newState()
	st0.keep("maplen", linSym(&Sym{id: "len(" + Unk{"map"}.String() + ")", lo: i64(0)}))
	type ret struct {
		st *State
		p  token.Pos
	}
	var rets []ret
	for _, o := range E.Run(st0, fn, []V{w.h.ptr("Cgc"), w.h.ptr("Cdb"), Unk{"map"}}, nil) {
		if o.Kind == "return" {
			rets = append(rets, ret{o.St, o.Pos})
		}
	}
	for i, x := range w.recs {
		// what is removed leaves no gap
		det := x.det
		if s, ok := x.status.(Strv); ok && s == "removed" && !x.write && det == "" && x.obj != "Vars.Reasons" {
			ok := false
			for _, y := range w.recs {
				if y.obj == x.obj && y.write && len(y.w.t) > 0 {
					all := true
					for _, t := range y.w.t {
						all = all && x.still[t.s.id]
					}
					ok = ok || all
				}
			}
			if !ok {
				det = "the place of the next entry changes with a removed clause"
			}
		}
		o := x.obj
		if j := strings.IndexByte(o, '['); j >= 0 {
			o = o[:j] + "[i]"
		}
		r.Ob("entries", fmt.Sprintf("%s: iteration %d", o, i+1), det == "", fn.Pos(), "%s", det)
	}
	for _, f := range w.rows {
		w.rowDet = append(w.rowDet, f())
	}
	for _, s := range w.skips {
		for o, v := range w.rowPhi[s.hdr] {
			hv, ok := s.st.top().env[v.phi].(Lin)
			if !ok {
				continue
			}
			idx := hv.add(v.c, 1)
			empty := false
			if row, ok := elem(s.st, o, idx).(Slice); ok {
				empty = E.eqLin(s.st, row.len, lin(0))
			}
			if !E.geq0(s.st, lin(1).add(idx, -1)) && !empty {
				w.rowDet = append(w.rowDet, fmt.Sprintf("row %v of %s may be left as it is", idx, o))
			}
		}
	}
	for i, d := range w.rowDet {
		r.Ob("rows", fmt.Sprintf("row %d", i+1), d == "", fn.Pos(), "%s", d)
	}
	for _, x := range rets {
		k++
		st := x.st
		for _, o := range []string{"Cdb.Learnts", "Cdb.Added", "Vars.Reasons"} {
			T, f := o[:strings.IndexByte(o, '.')], o[strings.IndexByte(o, '.')+1:]
			var n V
			det := ""
			if v := fieldV(st, P, "internal/xo", T, f); v != nil {
				s, ok := v.(Slice)
				if !ok || s.o.id != o || !E.eqLin(st, s.off, lin(0)) {
					det = fmt.Sprintf("%s becomes %v", o, v)
				} else {
					n = s.len
				}
			}
			if det == "" {
				det = w.closed(st, o, n)
			}
			r.Ob("holders", fmt.Sprintf("%s: path %d", o, k), det == "", x.p, "%s", det)
		}
		// the empty clause
		det := "the location of the empty clause is not looked up"
		cell := st.mem[fmt.Sprintf("Cdb.%d", fieldIndex(P, "internal/xo", "Cdb", "Bot"))]
		for _, kk := range sortedKeys(st.mem) {
			if !strings.HasPrefix(kk, "@map:Cdb.Bot") {
				continue
			}
			det = ""
			switch s := st.mem[kk].v.(type) {
			case Lin:
				if !sameV(cell.v, s) {
					det = "the empty clause stays at the old location"
				}
			case Strv:
				if s == "absent" && cell.v != nil && cell.v.String() != strings.TrimPrefix(kk, "@map:") {
					det = fmt.Sprintf("the empty clause becomes %v", cell.v)
				}
			}
		}
		r.Ob("holders", fmt.Sprintf("Cdb.Bot: path %d", k), det == "", x.p, "%s", det)
		// rows
		for _, o := range []string{"Vars.Watches", "Active.Occs"} {
			if o == "Active.Occs" {
				if _, isnil := fieldV(st, P, "internal/xo", "Cdb", "Active").(Nilv); isnil {
					continue
				}
				if sameV(st.kept("maplen"), lin(0)) {
					continue
				}
			}
			l := linSym(&Sym{id: "len(" + o + ")", lo: i64(0)})
			det := "the rows of " + o + " may not all be relocated"
			for _, i := range w.rowsAt[o] {
				if E.geq0(st, i.add(l, -1)) {
					det = ""
				}
			}
			r.Ob("holders", fmt.Sprintf("%s: path %d", o, k), det == "", x.p, "%s", det)
		}
	}
	r.Ob("holders", "relocate", k > 0, fn.Pos(), "no path was found")
	for f := range E.Funcs {
		r.Fn(f)
	}
	compactData(r)
	queue(r)
	selection(r)
	unlinking(r)
	r.Floor("entries", 12)
	r.Floor("holders", 6)
	r.Floor("rows", 2)
}

// compactData: one arbitrary clause of the compaction of the clause memory.
func compactData(r *Report) {
	P := r.P
	fn := P.Func("internal/xo", "CDat.Compact")
	next := P.Func("internal/xo", "CDat.Next")
	h := newXO(P)
	E := h.E
	rmLen := linSym(&Sym{id: "len(rm)", lo: i64(0)})
	h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if p.o.id == "rm" && isC(t) {
			return one1(st, linSym(&Sym{id: "rm[" + p.path[0].idx.String() + "]", lo: i64(1), hi: i64(1<<32 - 1)}))
		}
		return false, nil
	}
	nextOf := func(l Lin) Lin { return linSym(&Sym{id: "next(" + l.String() + ")", lo: i64(3)}) }
	E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f != next {
			return false, nil
		}
		l, ok := args[1].(Lin)
		if !ok {
			return false, nil
		}
		n := nextOf(l)
		st.facts = append(st.facts, n.add(l, -1).add(lin(-2), 1))
		st.events = append(st.events, Event{Kind: "next", Args: []V{l}})
		return one1(st, n)
	}
	E.MapSet = func(st *State, m, k, v V, pos token.Pos) {
		st.events = append(st.events, Event{Kind: "map", Args: []V{k, v}, Pos: pos})
	}
	keepInit(E)
	loops := 0
	rm := func(i Lin) Lin {
		return linSym(&Sym{id: "rm[" + i.String() + "]", lo: i64(1), hi: i64(1<<32 - 1)})
	}
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		loops++
		// the first removed clause
		det := "the first removed clause is not mapped to nothing"
		for _, e := range st.events {
			if e.Kind != "map" {
				continue
			}
			if sameV(e.Args[0], rm(lin(0))) && sameV(e.Args[1], lin(0)) {
				if det != "" && len(st.events) > 0 {
					det = ""
				}
			} else {
				det = fmt.Sprintf("%v is mapped to %v before the first clause", e.Args[0], e.Args[1])
			}
		}
		r.Ob("compaction", fmt.Sprintf("first removed clause %d", loops), det == "", hdr.Instrs[0].Pos(), "%s", det)
		return func(s *State) { s.keep("ev", lin(int64(len(s.events)))) }
	}
	n := 0
	var ends []struct{ cur, dst Lin }
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		n++
		from, _ := st.kept("ev").(Lin)
		evs := st.events[from.c:]
		det := func() string {
			var cur, val Lin
			maps, cps := 0, 0
			var dst, src Slice
			for _, e := range evs {
				switch e.Kind {
				case "map":
					maps++
					var ok1, ok2 bool
					cur, ok1 = e.Args[0].(Lin)
					val, ok2 = e.Args[1].(Lin)
					if !ok1 || !ok2 {
						return "an unknown location is mapped"
					}
				case "copy":
					cps++
					dst, _ = e.Args[0].(Slice)
					src, _ = e.Args[1].(Slice)
				}
			}
			if maps != 1 || cps > 1 {
				return fmt.Sprintf("%d locations are mapped and %d blocks are copied for one clause", maps, cps)
			}
			if cur.isConst() && cur.c < 1 {
				return "" // no location of a clause
			}
			nx, ok := E.nextLin(st, phis, cur)
			if !ok || !E.eqLin(st, nx, nextOf(cur)) {
				return fmt.Sprintf("%v is visited after %v instead of the next clause", nx, cur)
			}
			f, ok := firstOf(st, cur)
			if !ok || !E.eqLin(st, f, nextOf(rm(lin(0)))) {
				return fmt.Sprintf("the first clause which is visited is %v", f)
			}
			// the place of the next clause, and of the next one to remove
			places := func() (dst, idx Lin, ok bool) {
				found := 0
				for phi := range phis {
					hv, ok := st.top().env[phi].(Lin)
					if !ok || len(hv.t) != 1 || sameV(hv, cur) {
						continue
					}
					f, ok := firstOf(st, hv)
					switch {
					case !ok:
					case E.eqLin(st, f, rm(lin(0)).add(lin(-1), 1)):
						dst, found = hv, found|1
					case f.isConst() && (f.c == 0 || f.c == 1):
						idx, found = hv.add(lin(1-f.c), 1), found|2
					}
				}
				return dst, idx, found == 3
			}
			d, i, ok := places()
			if !ok {
				return "the place of the next clause or the next removed clause is not followed"
			}
			nd, _ := E.nextLin(st, phis, d)
			ni, _ := E.nextLin(st, phis, i)
			ends = append(ends, struct{ cur, dst Lin }{cur, d})
			rm := func(i Lin) Lin {
				if l, ok := elem(st, "rm", i).(Lin); ok {
					return l
				}
				return rm(i)
			}
			if E.eqLin(st, val, lin(0)) {
				switch {
				case !E.eqLin(st, cur, rm(i)) || !E.geq0(st, rmLen.add(i, -1).add(lin(-1), 1)):
					return fmt.Sprintf("a clause %v is removed which is not the next one to remove, number %v", cur, i)
				case cps > 0 || !E.eqLin(st, nd, d):
					return "a removed clause is copied"
				case !E.eqLin(st, ni, i.add(lin(1), 1)):
					return fmt.Sprintf("the next clause to remove is number %v after number %v", ni, i)
				}
				return ""
			}
			// kept: it is none to remove
			if !E.geq0(st, i.add(rmLen, -1)) && !st.notZero(cur.add(rm(i), -1)) && !st.notZero(rm(i).add(cur, -1)) {
				return "a clause is kept which may be one to remove"
			}
			ln := nextOf(cur).add(cur, -1)
			dl, ok1 := dst.len.(Lin)
			sl, ok2 := src.len.(Lin)
			switch {
			case cps == 0 || dst.o == nil || src.o == nil || dst.o.id != "CDat.D" || src.o.id != "CDat.D":
				return "a kept clause is not copied"
			case !E.eqLin(st, dst.off, d) || !E.eqLin(st, src.off, cur.add(lin(-1), 1)):
				return fmt.Sprintf("a kept clause is copied from %v to %v", src.off, dst.off)
			case !ok1 || !ok2 || !(E.eqLin(st, sl, ln) && (E.geq0(st, dl.add(sl, -1)) || sameV(dl.add(dst.off, 1), linSym(&Sym{id: "len(CDat.D)", lo: i64(0)}))) || E.eqLin(st, dl, ln) && E.geq0(st, sl.add(dl, -1))):
				return fmt.Sprintf("%v of a clause with %v places are copied", src.len, ln)
			case !E.eqLin(st, val, d.add(lin(1), 1)):
				return fmt.Sprintf("a clause which is copied to %v is mapped to %v", d.add(lin(1), 1), val)
			case !E.eqLin(st, nd, d.add(ln, 1)):
				return fmt.Sprintf("the next clause is copied to %v", nd)
			case !E.eqLin(st, ni, i):
				return "a kept clause counts as removed"
			}
			return ""
		}()
		r.Ob("compaction", fmt.Sprintf("clause %d", n), det == "", fn.Pos(), "%s", det)
	}
	k := 0
	st0 := newState()
	st0.keep("rmlen", rmLen)
	for _, o := range E.Run(st0, fn, []V{h.ptr("CDat"), Slice{obj("rm"), Lin{}, rmLen, rmLen}}, nil) {
		if o.Kind != "return" {
			continue
		}
		k++
		det := ""
		st := o.St
		ln := fieldV(st, P, "internal/xo", "CDat", "Len")
		if _, looped := st.kept("ev").(Lin); !looped {
			if !st.reads(E, rmLen) {
				det = "nothing is compacted though clauses are to be removed"
			}
		} else {
			det = "the compaction may end before the last clause, or its end is not recorded"
			for _, e := range ends {
				was := linSym(&Sym{id: "CDat.Len"})
				_ = was
				if ll, ok := ln.(Lin); ok && sameV(ll, e.dst) && endBeyond(E, st, e.cur) {
					det = ""
				}
			}
		}
		r.Ob("compaction", fmt.Sprintf("end: path %d", k), det == "", o.Pos, "%s", det)
	}
	r.Ob("compaction", "Compact", k > 0 && n > 0, fn.Pos(), "nothing is compacted")
	for f := range E.Funcs {
		r.Fn(f)
	}
	r.Floor("compaction", 5)
}

// reads tells that l is zero on this path.
func (st *State) reads(E *Interp, l Lin) bool {
	return E.geq0(st, l.scale(-1)) || sameV(st.kept("rmlen"), lin(0))
}

// endBeyond tells that cur is at or beyond the old length.
func endBeyond(E *Interp, st *State, cur Lin) bool {
	for _, f := range st.facts {
		for _, t := range f.t {
			if t.k == -1 && strings.HasPrefix(t.s.id, "CDat.Len") {
				if E.geq0(st, cur.add(linSym(t.s), -1)) {
					return true
				}
			}
		}
	}
	return false
}

// gcWorld models the collector's parts which other rules decide.
func gcWorld(P *Prog, h *xoHeap) map[*ssa.Function]string {
	m := map[*ssa.Function]string{}
	for _, n := range []string{"CDat.Compact", "Cgc.relocate", "Cdb.Unlink", "CDat.CompactReady", "Cgc.CompactCDat", "Cdb.InUse", "uniq"} {
		m[P.Func("internal/xo", n)] = n
	}
	h.E.NoMods = map[*ssa.Function]bool{}
	for f := range m {
		h.E.NoMods[f] = true
	}
	return m
}

func sliceArg(v V) (Slice, bool) {
	switch x := v.(type) {
	case Slice:
		return x, true
	case Iface:
		return sliceArg(x.v)
	}
	return Slice{}, false
}

// queue: what is queued for removal is unlinked or compacted away at once, and
// a compaction removes all of the queue, in order and once.
func queue(r *Report) {
	P := r.P
	// a compaction
	{
		fn := P.Func("internal/xo", "Cgc.CompactCDat")
		h := newXO(P)
		E := h.E
		h.Nil["Cdb.Active"] = true
		m := gcWorld(P, h)
		delete(m, fn)
		E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
			if f == nil {
				return false, nil
			}
			if pk := P.pkgOf(f); f.Pkg != nil && (f.Pkg.Pkg.Path() == "sort" || f.Pkg.Pkg.Path() == "slices" || f.Origin() != nil) {
				_ = pk
				if s, ok := sliceArg(args[0]); ok {
					st.events = append(st.events, Event{Kind: "sort", Args: []V{s}, Pos: ci.Pos()})
					return true, []Opt{{st, Tuple{}}}
				}
			}
			switch m[f] {
			case "uniq":
				st.events = append(st.events, Event{Kind: "uniq", Args: []V{args[0]}, Pos: ci.Pos()})
				st.seq++
				return one1(st, Slice{obj("uniq"), Lin{}, linSym(&Sym{id: "len(uniq)", lo: i64(0)}), linSym(&Sym{id: "cap(uniq)", lo: i64(0)})})
			case "CDat.Compact":
				st.events = append(st.events, Event{Kind: "compact", Args: []V{args[1]}, Pos: ci.Pos()})
				return one1(st, Tuple{Unk{"map"}, E.Unknown(st, "freed", types.Typ[types.Int])})
			case "Cgc.relocate":
				st.events = append(st.events, Event{Kind: "relocate", Args: []V{args[1], args[2]}, Pos: ci.Pos()})
				return true, []Opt{{st, Tuple{}}}
			}
			return false, nil
		}
		k := 0
		for _, o := range E.Run(newState(), fn, []V{h.ptr("Cgc"), h.ptr("Cdb")}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			st := o.St
			det := func() string {
				sorted, once, done, moved := false, false, false, false
				for _, e := range st.events {
					switch e.Kind {
					case "sort":
						s := e.Args[0].(Slice)
						if s.o.id == "Cgc.rmq" && E.eqLin(st, s.len, linSym(&Sym{id: "len(Cgc.rmq)", lo: i64(0)})) {
							sorted = true
						}
					case "uniq":
						s, ok := e.Args[0].(Slice)
						if ok && s.o.id == "Cgc.rmq" && sorted {
							once = true
						}
					case "compact":
						s, ok := e.Args[0].(Slice)
						_, noAct := fieldV(st, P, "internal/xo", "Cdb", "Active").(Nilv)
						switch {
						case !ok || s.o.id != "Cgc.rmq" && s.o.id != "uniq":
							return fmt.Sprintf("%v is removed instead of the queue", e.Args[0])
						case s.o.id == "Cgc.rmq" && !E.eqLin(st, s.len, linSym(&Sym{id: "len(Cgc.rmq)", lo: i64(0)})):
							return "a part of the queue is removed"
						case !sorted:
							return "the queue is not sorted"
						case s.o.id == "Cgc.rmq" && !noAct:
							return "the queue may hold a clause twice"
						case s.o.id == "uniq" && !once:
							return "the queue is not sorted before doubles are dropped"
						}
						done = true
					case "relocate":
						c, ok := e.Args[0].(Ptr)
						u, ok2 := e.Args[1].(Unk)
						if !ok || !ok2 || c.o.id != "Cdb" || u.id != "map" || !done {
							return "the locations are not changed by what the compaction moved"
						}
						moved = true
					}
				}
				if !done || !moved {
					return "the clauses are moved but their locations are not changed"
				}
				q, ok := fieldV(st, P, "internal/xo", "Cgc", "rmq").(Slice)
				if !ok && fieldV(st, P, "internal/xo", "Cgc", "rmq") != nil {
					if _, isnil := fieldV(st, P, "internal/xo", "Cgc", "rmq").(Nilv); isnil {
						return ""
					}
				}
				if !ok || !E.eqLin(st, q.len, lin(0)) {
					return "the queue is not emptied"
				}
				return ""
			}()
			r.Ob("queue", fmt.Sprintf("CompactCDat: path %d", k), det == "", o.Pos, "%s", det)
		}
		r.Ob("queue", "CompactCDat", k > 0, fn.Pos(), "no path was found")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	// removal
	for _, name := range []string{"Remove", "Compact"} {
		fn := P.Func("internal/xo", "Cgc."+name)
		h := newXO(P)
		E := h.E
		m := gcWorld(P, h)
		E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
			switch m[f] {
			case "CDat.CompactReady":
				return opts(st, Boolv(false), Boolv(true))
			case "Cdb.Unlink":
				st.events = append(st.events, Event{Kind: "unlink", Args: []V{args[1]}, Pos: ci.Pos()})
				return true, []Opt{{st, Tuple{}}}
			case "Cgc.CompactCDat":
				st.events = append(st.events, Event{Kind: "compact", Pos: ci.Pos()})
				return one1(st, Tuple{E.Unknown(st, "n", types.Typ[types.Int]), E.Unknown(st, "n", types.Typ[types.Int])})
			case "Cdb.InUse":
				return opts(st, Boolv(false), Boolv(true))
			}
			return false, nil
		}
		lt := fmt.Sprintf("Cdb.%d", fieldIndex(P, "internal/xo", "Cdb", "Learnts"))
		rq := fmt.Sprintf("Cgc.%d", fieldIndex(P, "internal/xo", "Cgc", "rmq"))
		E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			switch cellKey(p) {
			case lt:
				st.events = append(st.events, Event{Kind: "learnts", Args: []V{v}, Pos: pos})
			case rq:
				st.events = append(st.events, Event{Kind: "queued", Args: []V{v}, Pos: pos})
			}
		}
		csLen := linSym(&Sym{id: "len(cs)", lo: i64(0)})
		args := []V{h.ptr("Cgc"), h.ptr("Cdb")}
		if name == "Remove" {
			args = append(args, Slice{obj("cs"), Lin{}, csLen, csLen})
		}
		k := 0
		for _, o := range E.Run(newState(), fn, args, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			st := o.St
			det := func() string {
				var rms *Slice
				queued, handled, set := false, false, false
				for _, e := range st.events {
					switch e.Kind {
					case "copy":
						// append to the queue
						d, ok1 := e.Args[0].(Slice)
						s, ok2 := e.Args[1].(Slice)
						if ok1 && ok2 && d.o.id != s.o.id && (d.o.id == "Cgc.rmq" || strings.HasPrefix(d.o.id, "append")) {
							rms = &s
						}
					case "queued":
						if rms != nil {
							queued = true
						}
					case "learnts":
						set = true
						if handled {
							return "the learned clauses are set after the compaction moved them"
						}
					case "unlink":
						s, ok := e.Args[0].(Slice)
						if !ok || rms == nil || s.o.id != rms.o.id || !sameV(s.len, rms.len) {
							return fmt.Sprintf("%v is unlinked instead of what is queued", e.Args[0])
						}
						if !queued {
							return "what is unlinked is not queued yet"
						}
						handled = true
					case "compact":
						if !queued {
							return "the queue is compacted before it has all"
						}
						handled = true
					}
				}
				switch {
				case rms == nil || !queued:
					return "what is removed is not queued"
				case name == "Remove" && (rms.o.id != "cs" || !sameV(rms.len, csLen)):
					return "other clauses are queued than those to remove"
				case !handled:
					return "what is queued is neither unlinked nor compacted away"
				case name == "Compact" && !set:
					return "the learned clauses keep the removed ones"
				}
				return ""
			}()
			if name == "Remove" && det != "" && len(st.events) == 0 && sameV(lin(0), csLen) {
				det = ""
			}
			r.Ob("queue", fmt.Sprintf("%s: path %d", name, k), det == "", o.Pos, "%s", det)
		}
		r.Ob("queue", name, k > 0, fn.Pos(), "no path was found")
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	r.Floor("queue", 5)
}

// selection: one arbitrary learned clause: it is removed from the learned
// clauses if and only if it is to be removed, which it is not while in use.
func selection(r *Report) {
	P := r.P
	fn := P.Func("internal/xo", "Cgc.Compact")
	h := newXO(P)
	E := h.E
	m := gcWorld(P, h)
	E.Call = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		switch m[f] {
		case "CDat.CompactReady", "Cdb.Unlink", "Cgc.CompactCDat":
			// the loops before are what matters
			v := ci.Value()
			if v == nil || f.Signature.Results().Len() == 0 {
				return true, []Opt{{st, Tuple{}}}
			}
			return one1(st, E.Unknown(st, "r", v.Type()))
		case "Cdb.InUse":
			_, oz := opts(st, Boolv(false), Boolv(true))
			for _, o := range oz {
				o.st.keep("use:"+args[1].String(), o.v)
			}
			return true, oz
		}
		return false, nil
	}
	E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if len(p.path) == 1 && p.path[0].f < 0 {
			st.events = append(st.events, Event{Kind: "write", Args: []V{Ptr{o: p.o}, p.path[0].idx, v}, Pos: pos})
		}
	}
	h.OnLoad = func(st *State, p Ptr, name string, v V) {
		if p.o.id == "Cdb.Learnts" && len(p.path) == 1 {
			st.keep("old:"+p.path[0].idx.String(), v)
			st.events = append(st.events, Event{Kind: "read", Args: []V{Ptr{o: p.o}, p.path[0].idx, v}})
		}
	}
	keepInit(E)
	E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
		return func(s *State) {
			s.keep("ev:"+hdr.String()+hdr.Parent().String(), lin(int64(len(s.events))))
			if len(blocks) == 0 || hdr.Parent() != fn || s.kept("in") != nil {
				return
			}
			s.keep("in", lin(1))
			for k := range s.mem {
				if strings.HasPrefix(k, "@old:") || strings.HasPrefix(k, "@use:") {
					delete(s.mem, k)
				}
			}
		}
	}
	n, removes := 0, 0
	E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
		if hdr.Parent() != fn {
			return
		}
		from, _ := st.kept("ev:" + hdr.String() + hdr.Parent().String()).(Lin)
		evs := st.events[from.c:]
		// the clause at hand
		var idx Lin
		var p V
		for _, e := range evs {
			if e.Kind == "read" {
				idx, p = e.Args[1].(Lin), e.Args[2]
				break
			}
		}
		if p == nil {
			return
		}
		n++

		removed := false
		final := map[string]Event{}
		for _, e := range evs {
			if e.Kind != "write" {
				continue
			}
			o := e.Args[0].(Ptr).o.id
			if o == "Cdb.Learnts" {
				final[e.Args[1].String()] = e
			} else if sameV(e.Args[2], p) {
				removed = true
			}
		}
		var lens, tops []int
		_ = lens
		_ = tops
		det := func() string {
			// the window of learned clauses which remain
			var old, now Lin
			found := false
			for phi, nv := range phis {
				a, ok := st.top().env[phi].(Slice)
				b, ok2 := nv.(Slice)
				if ok && ok2 && a.o.id == "Cdb.Learnts" && b.o.id == "Cdb.Learnts" {
					old, _ = a.len.(Lin)
					now, _ = b.len.(Lin)
					found = true
					if !E.eqLin(st, b.off, a.off) {
						return "the start of the learned clauses changes"
					}
				}
			}
			if !found {
				return "the remaining learned clauses are not followed"
			}
			nx, ok := E.nextLin(st, phis, idx)
			if !ok || !E.eqLin(st, nx, idx.add(lin(-1), 1)) {
				return fmt.Sprintf("the learned clauses are not visited one by one: %v after %v", nx, idx)
			}
			if !removed {
				if len(final) > 0 || !E.eqLin(st, old, now) {
					return "the learned clauses change though none is removed"
				}
				return ""
			}
			removes++
			if u, ok := st.kept("use:" + p.String()).(Boolv); !ok || bool(u) {
				return "a clause is removed which may be the reason of an assignment"
			}
			// the last one of the window takes its place
			c := elem(st, "Cdb.Learnts", idx)
			last := st.kept("old:" + now.String())
			if e, ok := final[idx.String()]; ok {
				c = e.Args[2]
			}
			if last == nil || !sameV(c, last) {
				return fmt.Sprintf("the place of a removed clause takes %v instead of the last one, %v", c, last)
			}
			// and the window ends before it
			for phi := range phis {
				hv, ok := st.top().env[phi].(Lin)
				if !ok || !E.eqLin(st, now, hv) {
					continue
				}
				nv, ok1 := E.nextLin(st, phis, hv)
				f, ok2 := firstOf(st, hv)
				if ok1 && ok2 && E.eqLin(st, nv, hv.add(lin(-1), 1)) && sameV(f.add(lin(1), 1), linSym(&Sym{id: "len(Cdb.Learnts)", lo: i64(0)})) {
					return ""
				}
			}
			if E.eqLin(st, now, old.add(lin(-1), 1)) {
				return ""
			}
			return fmt.Sprintf("%v of %v learned clauses remain", now, old)
		}()
		r.Ob("selection", fmt.Sprintf("clause %d", n), det == "", fn.Pos(), "%s", det)
	}
	E.Run(newState(), fn, []V{h.ptr("Cgc"), h.ptr("Cdb")}, nil)
	r.Ob("selection", "Compact", n > 0 && removes > 0, fn.Pos(), "no clause is selected")
	for f := range E.Funcs {
		r.Fn(f)
	}
	// in use: the reason of its first literal
	{
		fn := P.Func("internal/xo", "Cdb.InUse")
		h := newXO(P)
		E := h.E
		loc := linSym(&Sym{id: "p", lo: i64(1), hi: i64(1<<32 - 1)})
		h.Clocs = func(st *State, name string) []V {
			return []V{linSym(&Sym{id: name, lo: i64(0), hi: i64(1<<32 - 1)}), loc}
		}
		k := 0
		st0 := newState()
		st0.keep("p", loc)
		for _, o := range E.Run(st0, fn, []V{h.ptr("Cdb"), loc}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			st := o.St
			b, ok := o.Ret[0].(Boolv)
			det := ""
			first, _ := elem(st, "CDat.D", st.kept("p").(Lin)).(Lin)
			v, _, okv := half(first)
			rs := elem(st, "Vars.Reasons", v)
			switch {
			case !ok:
				det = fmt.Sprintf("the answer is unknown: %v", o.Ret[0])
			case !okv:
				det = "the first literal is not read"
			case first.isConst():
			case rs == nil:
				det = "the reason of the first literal is not read"
			case bool(b) != sameV(rs, st.kept("p")) && !(bool(b) && E.eqLin(st, rs, st.kept("p"))):
				det = fmt.Sprintf("a clause %v counts as in use: %v, with reason %v", st.kept("p"), b, rs)
			}
			r.Ob("selection", fmt.Sprintf("InUse: path %d", k), det == "", o.Pos, "%s", det)
		}
		r.Ob("selection", "InUse", k > 0, fn.Pos(), "no path was found")
	}
	r.Floor("selection", 4)
}

// unlinking: the clauses which are removed leave the watches of both literals
// they watch, and no other clause does.  The first two literals of up to three
// clauses are enumerated, the watch lists are arbitrary.
func unlinking(r *Report) {
	P := r.P
	fn := P.Func("internal/xo", "Cdb.Unlink")
	worlds := [][][2]int64{
		{{4, 6}}, {{5, 7}}, {{7, 4}},
		{{4, 6}, {5, 8}}, {{4, 6}, {6, 4}}, {{4, 6}, {7, 9}}, {{4, 6}, {8, 11}},
		{{4, 6}, {5, 6}, {4, 7}}, {{4, 6}, {5, 7}, {5, 6}}, {{5, 8}, {4, 9}, {4, 8}}, {{4, 6}, {5, 7}, {9, 11}},
	}
	k, n := 0, 0
	for wi, cls := range worlds {
		w := newReloc(P)
		E, h := w.h.E, w.h
		h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
			for i, c := range cls {
				for j, m := range c {
					if name == fmt.Sprintf("CDat.D[%d]", 10*(i+1)+j) {
						return one1(st, lin(m))
					}
				}
				if name == fmt.Sprintf("rms[%d]", i) {
					return one1(st, lin(int64(10*(i+1))))
				}
			}
			if name == "Cdb.AddLits" {
				return one1(st, Slice{o: obj(name), cap: linSym(&Sym{id: "cap(AddLits)", lo: i64(0)}), len: lin(0)})
			}
			if p.o.id == "Cdb.AddVals" && len(p.path) == 1 {
				return one1(st, lin(0))
			}
			return false, nil
		}
		E.MapSet = func(st *State, m, key, v V, pos token.Pos) { st.keep("rm:"+key.String(), v) }
		E.Lookup = func(st *State, in *ssa.Lookup, m, key V) (bool, []Opt) {
			mk := func(v V, ok bool) V {
				if in.CommaOk {
					return Tuple{v, Boolv(ok)}
				}
				return v
			}
			zero := zeroOf(in.X.Type().Underlying().(*types.Map).Elem())
			if kv := st.kept("rm:" + key.String()); kv != nil {
				return one1(st, mk(kv, true))
			}
			if l, ok := key.(Lin); ok && l.isConst() {
				return one1(st, mk(zero, false))
			}
			id := "map:" + key.String()
			if s, ok := st.kept(id).(Strv); ok {
				if s == "removed" {
					return one1(st, mk(st.kept("rm:10"), true))
				}
				return one1(st, mk(zero, false))
			}
			var v V
			for i := range cls {
				c := st.kept(fmt.Sprintf("rm:%d", 10*(i+1)))
				if c == nil || v != nil && !sameV(c, v) {
					return false, nil
				}
				v = c
			}
			s2 := st.clone()
			st.keep(id, Strv("absent"))
			s2.keep(id, Strv("removed"))
			return true, []Opt{{st, mk(zero, false)}, {s2, mk(v, true)}}
		}
		E.Back = func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V) {
			// what is found by comparison instead of by a map
			for _, kk := range sortedKeys(st.mem) {
				l, ok := st.mem[kk].v.(Lin)
				if !ok || !strings.HasPrefix(kk, "@loc:") || st.kept("map:"+l.String()) != nil {
					continue
				}
				rm, not := false, 0
				for i := range cls {
					d := l.add(lin(int64(10*(i+1))), -1)
					if d.isConst() && d.c == 0 {
						rm = true
					} else if E.cmp(st, token.EQL, l, lin(int64(10*(i+1))), types.Typ[types.Int]) == V(Boolv(false)) {
						not++
					}
				}
				switch {
				case rm:
					st.keep("map:"+l.String(), Strv("removed"))
				case not == len(cls):
					st.keep("map:"+l.String(), Strv("absent"))
				}
			}
			w.back(st, hdr, prev, phis)
		}
		arg := Slice{o: obj("rms"), len: lin(int64(len(cls))), cap: lin(int64(len(cls)))}
		outs := E.Run(newState(), fn, []V{h.ptr("Cdb"), arg}, nil)
		for i, x := range w.recs {
			n++
			r.Ob("unlinking", fmt.Sprintf("world %d: %s: entry %d", wi+1, x.obj, i+1), x.det == "", fn.Pos(), "%s", x.det)
		}
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			k++
			st := o.St
			det := ""
			for _, c := range cls {
				for _, m := range c {
					row := fmt.Sprintf("Vars.Watches[%d]", m)
					s, ok := elem(st, "Vars.Watches", lin(m)).(Slice)
					if !ok || s.o.id != row || !E.eqLin(st, s.off, lin(0)) {
						det = fmt.Sprintf("the watches of a literal of a removed clause (%d of %v) are left as they are", m, cls)
					} else if d := w.closed(st, row, s.len); d != "" {
						det = d
					}
				}
			}
			for v := int64(2); v < 6; v++ {
				if x := elem(st, "Cdb.AddVals", lin(v)); x != nil && !sameV(x, lin(0)) && det == "" {
					det = fmt.Sprintf("the mark of variable %d stays %v", v, x)
				}
			}
			if s, ok := fieldV(st, P, "internal/xo", "Cdb", "AddLits").(Slice); det == "" && ok && !sameV(s.len, lin(0)) {
				det = "the scratch literals are not emptied"
			}
			r.Ob("unlinking", fmt.Sprintf("world %d: path %d", wi+1, k), det == "", o.Pos, "%s", det)
		}
		for f := range E.Funcs {
			r.Fn(f)
		}
	}
	r.Ob("unlinking", "Unlink", k >= len(worlds) && n > 0, fn.Pos(), "nothing is unlinked")
	r.Floor("unlinking", 20)
}

// uniqs judges the function which leaves each clause of a sorted list once.
func uniqs(r *Report) {
	P := r.P
	fn := P.TryFunc(xoPkg, "uniq")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		return
	}
	r.Fn(fn)
	e := newObserver(P)
	E := e.E
	n := linSym(&Sym{id: "len(cs)", lo: i64(0), hi: i64(1 << 40)})
	in := Slice{obj("cs"), Lin{}, n, n}
	outs := E.Run(newState(), fn, []V{in}, nil)
	var w *Lin // the number of elements kept so far, less what the header counts
	bodies := 0
	for _, id := range sortedKeys(e.recs) {
		for bi, b := range e.recs[id] {
			o, idx, cv := over(b, "cs")
			cur, ok := cv.(Lin)
			if o == "" || !ok {
				continue
			}
			bodies++
			st := b.st
			// what the element may have been compared with
			var cmp []Lin
			for phi := range b.phis {
				if l, ok := st.top().env[phi].(Lin); ok && types.Identical(phi.Type(), fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()) {
					cmp = append(cmp, l)
				}
			}
			for _, ev := range b.evs {
				if ev.Kind == "read" && ev.Args[0].(Ptr).o.id == "cs" && !sameV(ev.Args[1], idx) {
					if l, ok := ev.Args[2].(Lin); ok {
						cmp = append(cmp, l)
					}
				}
			}
			same, differ := false, false
			for _, l := range cmp {
				same = same || E.eqLin(st, l, cur)
				differ = differ || st.notZero(l.add(cur, -1))
			}
			ss := sets(b.evs, "cs")
			det := ""
			switch {
			case len(ss) == 0 && !same:
				det = "a clause is left out which is not the one before"
			case len(ss) == 1 && !differ:
				det = "a clause which is the one before is kept once more"
			case len(ss) == 1 && !sameV(ss[0].Args[2], cv):
				det = "another clause is put in its place"
			case len(ss) > 1:
				det = "several clauses are put in its place"
			}
			if len(ss) == 1 && det == "" {
				at := ss[0].Args[1].(Lin)
				nx, ok := E.nextLin(st, b.phis, at)
				f, ok2 := firstOf(st, at)
				for phi, nv := range b.phis { // the length of what is kept
					h, isS := st.top().env[phi].(Slice)
					v, isS2 := nv.(Slice)
					if isS && isS2 && sameV(h.len, at) && h.o == v.o {
						if nx, ok = v.len.(Lin); !ok {
							break
						}
						f, ok2 = lin(1), false
						if t, k := h.len.(Lin); k {
							for i, p := range phi.Block().Preds {
								if c, isC := phi.Edges[i].(*ssa.Slice); isC && !phi.Block().Dominates(p) && c.Low == nil && c.High != nil {
									if k, isK := c.High.(*ssa.Const); isK && k.Int64() == 1 && len(t.t) == 1 {
										ok2 = true
									}
								}
							}
						}
					}
				}
				switch {
				case !ok || !E.eqLin(st, nx, at.add(lin(1), 1)):
					det = "the next clause which is kept is not put behind"
				case !ok2 || !E.eqLin(st, f, lin(1)):
					det = "the first clause which is kept is not put behind the first of all"
				}
				w = &at
			}
			if nx, ok := E.nextLin(st, b.phis, idx); !ok || !E.eqLin(st, nx, idx.add(lin(1), 1)) {
				det = "a clause is passed over"
			} else if f, ok := firstOf(st, idx); !ok || !E.eqLin(st, f, lin(1)) && !E.eqLin(st, f, lin(0)) {
				det = "the clauses are not gone through from the beginning"
			}
			r.Ob("uniq", fmt.Sprintf("an element: path %d", bi), det == "", firstPos(b.hdr), "%s", det)
		}
	}
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		s, ok := o.Ret[0].(Slice)
		det := ""
		switch {
		case !ok || s.o == nil || s.o.id != "cs" || !E.eqLin(o.St, s.off, lin(0)):
			det = "it gives another list"
		case E.geq0(o.St, lin(1).add(n, -1)):
			if !sameV(s.len, n) && !E.eqLin(o.St, s.len.(Lin), n) {
				det = "a list of at most one is changed"
			}
		case w == nil || !E.eqLin(o.St, s.len.(Lin), *w):
			det = fmt.Sprintf("its length is %v, not the number of clauses which are kept", s.len)
		}
		r.Ob("uniq", fmt.Sprintf("the list: path %d", i), det == "", o.Pos, "%s", det)
	}
	r.Ob("uniq", "each clause once", bodies > 0, fn.Pos(), "no loop goes over the clauses")
}
