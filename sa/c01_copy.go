package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa of the copy operations, comparing the heap of the result with that of the original field by field and element by element, and searching the result for memory of the original.",
		Run:  runC01})
}

type copyRoot struct {
	pkg, fn, typ string
	iface        bool
}

func runC01(r *Report) {
	for _, c := range []copyRoot{
		{xoPkg, "S.Copy", "S", false},
		{xoPkg, "S.SCopy", "S", true},
		{"", "Gini.Copy", "Gini", false},
		{"", "Gini.SCopy", "Gini", true},
		{"", "svWrap.SCopy", "svWrap", true},
		{"z", "Vars.Copy", "Vars", false},
		{"logic", "C.Copy", "C", false},
		{"logic", "S.Copy", "S", false},
		{aigerPkg, "Copy", "T", false},
		{xoPkg, "CDat.Copy", "CDat", false},
	} {
		copyOf(r, c)
	}
	r.Floor("copied", 60)
	r.Floor("separate", 10)
}

// copyJudge compares a copy with its original.
type copyJudge struct {
	r     *Report
	e     *emitter
	st    *State
	evs   []Event
	root  string
	pair  map[string]string // objects of the original, and of the copy
	fails map[string]string
	seen  map[string]bool
	nils  map[string]bool // parts which the original does not have
}

// own tells whether memory was made by the copy.
func own(o *Obj) bool { return strings.Contains(o.id, "#") }

func copyOf(r *Report, c copyRoot) {
	P := r.P
	fn := P.Func(c.pkg, c.fn)
	r.Fn(fn)
	e := newObserver(P)
	e.h.Nil["S.Active"] = true
	store := e.E.Store
	e.E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if !own(p.o) {
			e.log(st, "foreign", Strv(cellName(p, key)))
		}
		store(st, p, key, v, pos)
	}
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		// parts of the same type which are not the same
		if pt, ok := t.Underlying().(*types.Pointer); ok && (tname(pt.Elem()) == "Luby") {
			return one1(st, Ptr{o: obj("Luby of " + name)})
		}
		if strings.HasPrefix(p.o.id, "Luby of ") {
			return one1(st, mkUnknown(cellKey(p), t))
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return one1(st, Unk{name})
		}
		return false, nil
	}
	e.E.OnNext = func(st *State, m V, t Tuple) { e.log(st, "next", m, t) }
	e.E.MapSet = func(st *State, m, k, v V, pos token.Pos) {
		if !strings.Contains(m.String(), "#") {
			e.log(st, "foreign", Strv("map "+m.String()))
		}
		e.log(st, "mapset", m, k, v)
	}
	e.E.Lookup = func(st *State, in *ssa.Lookup, m, k V) (bool, []Opt) {
		if in.CommaOk {
			return false, nil
		}
		if strings.Contains(m.String(), "#") {
			for i := len(st.events) - 1; i >= 0; i-- {
				ev := st.events[i]
				if ev.Kind == "mapset" && sameV(ev.Args[0], m) && sameV(ev.Args[1], k) {
					return one1(st, ev.Args[2])
				}
			}
			return false, nil
		}
		// the source does not change
		return one1(st, Unk{strings.TrimPrefix(m.String(), "?") + "[" + k.String() + "]"})
	}
	sub := map[*ssa.Function]bool{}
	if c.pkg == "" {
		for _, n := range []string{"S.Copy", "S.SCopy"} {
			sub[P.Func(xoPkg, n)] = true
		}
	}
	e.Next = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		// copies which are judged on their own, and of what is behind an interface
		if f != nil && sub[f] || f == nil && ci.Common().IsInvoke() && ci.Common().Method.Name() == "SCopy" {
			st.seq++
			return one1(st, Tag{fmt.Sprintf("copy#%d of %v", st.seq, unwrap(args[0]))})
		}
		return false, nil
	}
	src := V(e.h.ptr(c.typ))
	done := 0
	for _, o := range e.E.Run(newState(), fn, []V{src}, nil) {
		if o.Kind == "back" {
			// the parts after a loop are in other outcomes
			if o.St != nil && len(evsOf(o.St.events, "foreign")) > 0 {
				r.Ob("separate", c.fn+": the original is left as it is", false, fn.Pos(), "%s writes to %v of the original", P.fname(fn), evsOf(o.St.events, "foreign")[0].Args[0])
			}
			continue
		}
		if o.Kind != "return" || len(o.Ret) != 1 {
			continue
		}
		dst := unwrap(o.Ret[0])
		if _, isnil := dst.(Nilv); isnil {
			continue
		}
		done++
		j := &copyJudge{r: r, e: e, st: o.St, evs: o.St.events, root: c.fn, pair: map[string]string{}, fails: map[string]string{}, seen: map[string]bool{}, nils: map[string]bool{}}
		t := P.Type(c.pkg, c.typ)
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				pt, ok := u.Field(i).Type().Underlying().(*types.Pointer)
				if c, ok2 := o.St.mem[fmt.Sprintf("%s.%d", c.typ, i)]; ok && ok2 {
					if _, isnil := c.v.(Nilv); isnil {
						j.nils[tname(pt.Elem())] = true
					}
				}
			}
		}
		j.same(src, dst, types.NewPointer(t), c.typ)
		for _, n := range sortedKeys(j.seen) {
			why := j.fails[n]
			r.Ob("copied", c.fn+": "+n, why == "", fn.Pos(), "%s: %s", n, orElse(why, "is copied"))
		}
		why := ""
		if fs := evsOf(o.St.events, "foreign"); len(fs) > 0 {
			why = fmt.Sprintf("%s writes to %v of the original", P.fname(fn), fs[0].Args[0])
		} else {
			why = j.shared(dst)
		}
		r.Ob("separate", c.fn+": no memory in common", why == "", fn.Pos(), "%s", orElse(why, "none of the memory reachable from the copy is the original's"))
	}
	r.Ob("separate", c.fn+": returns", done > 0, fn.Pos(), "%d ways to return a copy", done)
}

func orElse(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func unwrap(v V) V {
	if i, ok := v.(Iface); ok {
		return i.v
	}
	return v
}

// exempt tells why a field need not be copied.
func (j *copyJudge) exempt(n *types.Named, f *types.Var) string {
	switch u := f.Type().Underlying().(type) {
	case *types.Chan, *types.Signature:
		return "a handle"
	case *types.Interface:
		if f.Name() == "Tracer" {
			return "an observer"
		}
	case *types.Pointer:
		if isNamed(u.Elem(), "internal/xo", "Ctl") {
			return "a handle"
		}
	case *types.Struct:
		if m := namedOf(f.Type()); m != nil && m.Obj().Pkg() != nil {
			switch m.Obj().Pkg().Path() {
			case "sync":
				return "a lock"
			case "time":
				return "a time"
			}
		}
	}
	return ""
}

// statistic tells that the value of a field decides nothing: it is only
// counted up, reported and reset.
func (j *copyJudge) statistic(f *types.Var) bool {
	b, ok := f.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for _, fn := range j.r.P.Funcs {
		if !j.r.P.inRepo(fn) {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != f {
					continue
				}
				for _, u := range *fa.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok && decides(ld, f, map[ssa.Value]bool{}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// decides tells whether a value can have an influence other than on the
// counter itself, on a statistics record or on text.
func decides(v ssa.Value, f *types.Var, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, u := range *rs {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				if decides(x, f, seen) {
					return true
				}
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				// a maximum: the comparison only guards stores to the field
				if !guardsOnly(x, f) {
					return true
				}
			default:
				return true
			}
		case *ssa.Convert:
			if decides(x, f, seen) {
				return true
			}
		case *ssa.MakeInterface:
			// text
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || fieldOf(fa) != f && !strings.HasPrefix(tname(deref(fa.X.Type())), "Stats") {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func guardsOnly(c *ssa.BinOp, f *types.Var) bool {
	for _, u := range *c.Referrers() {
		iff, ok := u.(*ssa.If)
		if !ok {
			return false
		}
		t := iff.Block().Succs[0]
		for _, in := range t.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != f && !strings.HasPrefix(tname(deref(fa.X.Type())), "Stats") {
					return false
				}
			case *ssa.FieldAddr, *ssa.UnOp, *ssa.Jump, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

// scratch are the tables whose contents do not outlive the operation which
// fills them.
var scratch = map[string]string{
	"Deriver.SLits": "collected anew by every derivation",
	"Active.Ms":     "collected anew by every operation",
	"Trail.Props":   "only its growth during a solve matters",
}

func (j *copyJudge) fail(n, f string, a ...interface{}) {
	if j.fails[n] == "" {
		j.fails[n] = fmt.Sprintf(f, a...)
	}
}

// same compares two values of a type.
func (j *copyJudge) same(src, dst V, t types.Type, name string) {
	E := j.e.E
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		s, ok := src.(Ptr)
		if _, isnil := src.(Nilv); isnil {
			j.seen[name] = true
			j.nils[tname(u.Elem())] = true
			if _, ok := dst.(Nilv); !ok {
				j.fail(name, "nil becomes %v", dst)
			}
			return
		}
		if !ok {
			j.seen[name] = true
			j.fail(name, "what it refers to is not known")
			return
		}
		if tag, ok := dst.(Tag); ok {
			j.seen[name] = true
			if !strings.HasSuffix(tag.id, " of "+s.String()) {
				j.fail(name, "is a copy of something else")
			}
			return
		}
		d, ok := dst.(Ptr)
		if !ok {
			j.seen[name] = true
			j.fail(name, "is %v in the copy", dst)
			return
		}
		if !own(d.o) {
			j.seen[name] = true
			j.fail(name, "the copy refers to the original's")
			return
		}
		if q, ok := j.pair[cellKey(s)]; ok {
			j.seen[name] = true
			if q != cellKey(d) {
				j.fail(name, "two parts of the copy refer to different copies")
			}
			return
		}
		j.pair[cellKey(s)] = cellKey(d)
		st, ok := u.Elem().Underlying().(*types.Struct)
		if !ok {
			j.seen[name] = true
			j.fail(name, "not a record")
			return
		}
		j.fields(s, d, u.Elem(), st)
	case *types.Slice:
		j.seen[name] = true
		if why := j.table(src, dst, u, j.st, j.evs); why != "" {
			j.fail(name, "%s", why)
		}
	case *types.Map:
		j.seen[name] = true
		if why := j.mapping(src, dst, u, j.evs); why != "" {
			j.fail(name, "%s", why)
		}
	case *types.Interface:
		j.seen[name] = true
		tag, ok := dst.(Tag)
		if !ok || !strings.HasSuffix(tag.id, " of "+src.String()) {
			j.fail(name, "is not a copy of the original's")
		}
	default:
		j.seen[name] = true
		if !sameV(src, dst) && src.String() != dst.String() {
			j.fail(name, "is %v in the copy", dst)
		}
	}
	_ = E
}

func (j *copyJudge) fields(s, d Ptr, t types.Type, st *types.Struct) {
	E := j.e.E
	n := namedOf(t)
	tn := tname(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name := tn + "." + f.Name()
		key := "field:" + t.String() + "." + f.Name()
		sp := Ptr{s.o, append(append([]pe(nil), s.path...), pe{f: i})}
		dp := Ptr{d.o, append(append([]pe(nil), d.path...), pe{f: i})}
		if j.exempt(n, f) != "" {
			continue
		}
		if sub, ok := f.Type().Underlying().(*types.Struct); ok {
			j.fields(sp, dp, f.Type(), sub)
			continue
		}
		// whether the copy looked at the field at all
		_, read := j.st.mem[cellKey(sp)]
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok && !read {
			// an original in which the parts refer to each other
			var v V = Ptr{o: obj(tname(pt.Elem()))}
			if j.nils[tname(pt.Elem())] {
				v = Nilv{}
			}
			j.st.mem[cellKey(sp)] = cell{sp.o, sp.path, key, v}
			read = true
		}
		ds := E.load(j.st, dp, key, f.Type())
		if !read {
			if len(ds) == 1 && sameV(ds[0].v, zeroOf(f.Type())) || len(ds) == 1 && ds[0].v.String() == zeroOf(f.Type()).String() {
				if scratch[name] != "" || j.statistic(f) {
					continue
				}
			}
			if len(ds) == 1 && j.statistic(f) {
				continue
			}
			j.seen[name] = true
			j.fail(name, "is not copied")
			continue
		}
		ss := E.load(j.st, sp, key, f.Type())
		if len(ss) != 1 || len(ds) != 1 {
			j.seen[name] = true
			j.fail(name, "is not copied")
			continue
		}
		if scratch[name] != "" {
			continue
		}
		j.same(ss[0].v, ds[0].v, f.Type(), name)
	}
}

// table compares two slices: they must have the same elements in different
// memory.
func (j *copyJudge) table(src, dst V, t *types.Slice, st *State, evs []Event) string {
	E := j.e.E
	s, ok := src.(Slice)
	if !ok {
		return "the original is not known"
	}
	d, ok := dst.(Slice)
	if !ok {
		if _, isnil := dst.(Nilv); isnil && E.eqLin(st, s.len, lin(0)) {
			return ""
		}
		return fmt.Sprintf("is %v in the copy", dst)
	}
	if !own(d.o) {
		return "the copy has the memory of the original"
	}
	if !E.eqLin(st, s.len, d.len) {
		return fmt.Sprintf("has length %v in the copy", d.len)
	}
	if j.hashedByCap(t) && !E.eqLin(st, s.cap, d.cap) {
		return fmt.Sprintf("has capacity %v in the copy, by which its elements are found", d.cap)
	}
	deep := false
	switch t.Elem().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		deep = true
	}
	if c, ok := st.mem[d.o.id+"#base"]; ok && !deep {
		tu, ok := c.v.(Tuple)
		if !ok || len(tu) != 3 {
			return "its elements are not known"
		}
		b, ok := tu[0].(Slice)
		if !ok || b.o.id != s.o.id || !E.eqLin(st, b.off, s.off) || !E.eqLin(st, tu[1], d.off) || !E.eqLin(st, b.len, s.len) || !E.eqLin(st, tu[2], s.len) {
			return "other elements are copied"
		}
		if n := j.writes(evs, d.o.id, map[string]bool{}); n > 0 {
			return "an element is changed after it was copied"
		}
		return ""
	}
	return j.rows(s, d, t, st, evs)
}

// writes counts the stores to single elements of a table, other than the first
// copy into it.
func (j *copyJudge) writes(evs []Event, o string, seen map[string]bool) int {
	n, begun := 0, len(seen) > 0
	for _, ev := range evs {
		switch ev.Kind {
		case "set":
			if ev.Args[0].(Ptr).o.id == o {
				n++
			}
		case "copy":
			if d, ok := ev.Args[0].(Slice); ok && d.o.id == o {
				if begun {
					n++
				}
				begun = true
			}
		case "loop":
			id := string(ev.Args[0].(Strv))
			// before the copy, the table does not exist
			if !begun || seen[id] {
				continue
			}
			seen[id] = true
			for _, b := range j.e.recs[id] {
				n += j.writes(b.evs, o, seen)
			}
		}
	}
	return n
}

// rows compares two slices which are filled by a loop.
func (j *copyJudge) rows(s, d Slice, t *types.Slice, st *State, evs []Event) string {
	e := j.e
	why := "its elements are not copied"
	for _, l := range evsOf(evs, "loop") {
		recs := e.recs[string(l.Args[0].(Strv))]
		if len(recs) == 0 {
			continue
		}
		all := true
		for _, b := range recs {
			ok := false
			for _, w := range sets(b.evs, d.o.id) {
				idx, isl := w.Args[1].(Lin)
				if !isl {
					continue
				}
				rel := idx.add(d.off, -1)
				for _, rd := range b.evs {
					if rd.Kind != "read" || rd.Args[0].(Ptr).o.id != s.o.id {
						continue
					}
					i, isl := rd.Args[1].(Lin)
					if !isl || !e.E.eqLin(b.st, i.add(s.off, -1), rel) {
						continue
					}
					if w2 := e.covers(st, b, rel, s.len); w2 != "" {
						why = w2
						continue
					}
					v := w.Args[2]
					switch et := t.Elem().Underlying().(type) {
					case *types.Slice:
						if w3 := j.table(rd.Args[2], v, et, b.st, b.evs); w3 != "" {
							why = "a row: " + w3
							continue
						}
					default:
						if v.String() != rd.Args[2].String() {
							why = "an element differs in the copy"
							continue
						}
					}
					ok = true
				}
			}
			all = all && ok
		}
		if all {
			return ""
		}
	}
	return why
}

// mapping compares two maps.
func (j *copyJudge) mapping(src, dst V, t *types.Map, evs []Event) string {
	if !strings.Contains(dst.String(), "#") {
		if _, isnil := dst.(Nilv); isnil {
			return "is nil in the copy"
		}
		return "the copy has the memory of the original"
	}
	entry := func(srcv, v V, evs []Event) string {
		if mt, ok := t.Elem().Underlying().(*types.Map); ok {
			return j.mapping(srcv, v, mt, evs)
		}
		if v.String() != srcv.String() {
			return "an entry differs in the copy"
		}
		return ""
	}
	why := "its entries are not copied"
	// by walking through the original
	for _, l := range evsOf(evs, "loop") {
		recs := j.e.recs[string(l.Args[0].(Strv))]
		all := len(recs) > 0
		for _, b := range recs {
			ok := false
			for _, nx := range evsOf(b.evs, "next") {
				tu := nx.Args[1].(Tuple)
				if nx.Args[0].String() != src.String() {
					continue
				}
				for _, ms := range evsOf(b.evs, "mapset") {
					if ms.Args[0].String() != dst.String() || ms.Args[1].String() != tu[1].String() {
						continue
					}
					if why = entry(tu[2], ms.Args[2], b.evs); why == "" {
						ok = true
					}
				}
			}
			all = all && ok
		}
		if all {
			return ""
		}
	}
	// or entry by entry
	if t.Key().Underlying().(*types.Basic).Kind() != types.Uint8 {
		return why
	}
	for _, k := range "ilobcjf" {
		found := false
		for _, ms := range evsOf(evs, "mapset") {
			if ms.Args[0].String() != dst.String() || ms.Args[1].String() != lin(int64(k)).String() {
				continue
			}
			srcv := Unk{strings.TrimPrefix(src.String(), "?") + "[" + ms.Args[1].String() + "]"}
			w := entry(srcv, ms.Args[2], evs)
			if w != "" {
				return fmt.Sprintf("entry %c: %s", k, w)
			}
			found = true
		}
		if !found {
			return fmt.Sprintf("entry %c is not copied: %s", k, why)
		}
	}
	return ""
}

// hashedByCap tells whether elements of a table are found by its capacity.
func (j *copyJudge) hashedByCap(t *types.Slice) bool {
	n := namedOf(t.Elem())
	if n == nil || n.Obj().Name() != "node" || n.Obj().Pkg() == nil || relPath(n.Obj().Pkg().Path()) != "logic" {
		return false
	}
	for _, fn := range j.r.P.Funcs {
		if j.r.P.pkgOf(fn) != "logic" || fn.Name() == "Copy" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "cap" && types.Identical(c.Call.Args[0].Type(), t) {
					for _, u := range *c.Referrers() {
						if cv, ok := u.(*ssa.Convert); ok {
							for _, w := range *cv.Referrers() {
								if bo, ok := w.(*ssa.BinOp); ok && bo.Op == token.REM {
									return true
								}
							}
						}
						if bo, ok := u.(*ssa.BinOp); ok && bo.Op == token.REM {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// shared looks for memory of the original which the copy can reach.
func (j *copyJudge) shared(dst V) string {
	seen := map[string]bool{}
	why := ""
	var visit func(v V, from string)
	object := func(o *Obj, from string) {
		if o.id == "Location" {
			return // of a time
		}
		if !own(o) {
			if why == "" {
				why = fmt.Sprintf("%s of the original is reachable from the copy (%s)", o.id, from)
			}
			return
		}
		if seen[o.id] {
			return
		}
		seen[o.id] = true
		for _, k := range sortedKeys(j.st.mem) {
			c := j.st.mem[k]
			if c.o != nil && c.o.id == o.id {
				visit(c.v, k)
			}
		}
	}
	visit = func(v V, from string) {
		switch x := v.(type) {
		case Ptr:
			object(x.o, from)
		case Slice:
			object(x.o, from)
		case Iface:
			visit(x.v, from)
		case Fnv:
			for _, b := range x.b {
				visit(b, from)
			}
		case Tuple:
			for _, y := range x {
				visit(y, from)
			}
		case Struct:
			for _, y := range x.f {
				visit(y, from)
			}
		}
	}
	visit(dst, "")
	return why
}
