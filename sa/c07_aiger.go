package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const aigerPkg = "logic/aiger"

func init() {
	register(&Check{ID: "C07", Level: "other",
		Rule: "Disjunctive abstract interpretation over go/ssa: the token sequences which the AIGER writers emit and which the readers accept, one arbitrary iteration of every loop, against one description of the format.",
		Run:  runC07})
}

type aigerW struct {
	*emitter
	P    *Prog
	r    *Report
	dfsN int
	dfs  map[string][]*dfsRec
}

// dfsRec is what the function of a traversal does on one node.
type dfsRec struct {
	st    *State
	m     Lin
	evs   []Event
	delta string // the captured variables which change
	n     *int64 // by how much the counter changes
}

// lits are constants or literals of other variables.
func (a *aigerW) litOpts(st *State, id string) []V {
	st.seq++
	s := linSym(&Sym{id: fmt.Sprintf("%s#%d", id, st.seq), lo: i64(2), hi: i64(1 << 30)})
	return []V{s.scale(2), s.scale(2).add(lin(1), 1), lin(2), lin(3)}
}

func newAigerW(r *Report) *aigerW {
	P := r.P
	a := &aigerW{emitter: newEmitter(P), P: P, r: r, dfs: map[string][]*dfsRec{}}
	a.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		switch name {
		case "C.T":
			return one1(st, lin(2))
		case "C.F":
			return one1(st, lin(3))
		case "T.symbols":
			return one1(st, Unk{name})
		}
		if strings.HasPrefix(name, "T.") && isLit(t) {
			return opts(st, a.litOpts(st, "m")...)
		}
		if name == "S.Latches[" || strings.HasPrefix(name, "S.Latches[") && isLit(t) {
			st.seq++
			s := linSym(&Sym{id: fmt.Sprintf("latch#%d", st.seq), lo: i64(2), hi: i64(1 << 30)})
			return opts(st, s.scale(2), s.scale(2).add(lin(1), 1))
		}
		return false, nil
	}
	a.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if strings.HasPrefix(p.o.id, "T.Justice[") {
			name := cellName(p, key)
			ok, os := a.h.load1(st, p, name, key, t)
			for _, o := range os {
				a.h.OnLoad(o.st, p, name, o.v)
			}
			return ok, os
		}
		return a.h.load(st, p, key, t)
	}
	F := func(n string) *ssa.Function { return P.Func("logic", n) }
	next, ini, typ, ins, ln := F("S.Next"), F("S.Init"), F("S.Type"), F("C.Ins"), F("C.Len")
	post, reset, roots := P.Func(aigerPkg, "sDfs.post"), P.Func(aigerPkg, "sDfs.reset"), P.Func(aigerPkg, "T.roots")
	mapl, forLit, wlit, w7 := P.Func(aigerPkg, "aigerBinWriter.mapLit"), P.Func(aigerPkg, "aigerBinWriter.forLit"), P.Func(aigerPkg, "writeLit"), P.Func(aigerPkg, "write7")
	dfsT := P.Type(aigerPkg, "sDfs")
	a.E.NoMods = map[*ssa.Function]bool{next: true, ini: true, typ: true, ins: true, ln: true, roots: true, forLit: true, wlit: true, w7: true, mapl: true}
	memo := func(st *State, key string, mk func(*State) []V) (bool, []Opt) {
		if v := st.kept(key); v != nil {
			return one1(st, v)
		}
		_, os := opts(st, mk(st)...)
		for _, o := range os {
			o.st.keep(key, o.v)
		}
		return true, os
	}
	a.E.OnNext = func(st *State, m V, t Tuple) { a.log(st, "next", m, t) }
	a.E.Lookup = func(st *State, in *ssa.Lookup, m, k V) (bool, []Opt) {
		if in.CommaOk {
			return false, nil
		}
		return one1(st, Unk{strings.TrimPrefix(m.String(), "?") + "[" + k.String() + "]"})
	}
	a.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		switch fn {
		case next:
			return memo(st, "next:"+args[1].String(), func(s *State) []V { return a.litOpts(s, "next") })
		case ini:
			return memo(st, "init:"+args[1].String(), func(*State) []V { return []V{lin(3), lin(2), lin(0)} })
		case typ:
			v, _, ok := half(args[1].(Lin))
			if !ok {
				return false, nil
			}
			if v.isConst() && v.c == 1 {
				return one1(st, lin(P.ConstVal("logic", "SConst")))
			}
			return memo(st, "type:"+v.String(), func(*State) []V {
				var vs []V
				for _, n := range []string{"SInput", "SLatch", "SAnd"} {
					vs = append(vs, lin(P.ConstVal("logic", n)))
				}
				return vs
			})
		case ins:
			v, _, ok := half(args[1].(Lin))
			if !ok {
				return false, nil
			}
			return memo(st, "ins:"+v.String(), func(s *State) []V {
				s.seq++
				x := linSym(&Sym{id: fmt.Sprintf("in0#%d", s.seq), lo: i64(2), hi: i64(1 << 30)})
				y := linSym(&Sym{id: fmt.Sprintf("in1#%d", s.seq), lo: i64(2), hi: i64(1 << 30)})
				var vs []V
				for i := int64(0); i < 4; i++ {
					vs = append(vs, Tuple{x.scale(2).add(lin(i&1), 1), y.scale(2).add(lin(i>>1), 1)})
				}
				return vs
			})
		case ln:
			return one1(st, linSym(&Sym{id: "len(nodes)", lo: i64(2)}))
		case roots:
			return one1(st, Slice{obj("roots"), Lin{}, linSym(&Sym{id: "len(roots)", lo: i64(0)}), linSym(&Sym{id: "len(roots)", lo: i64(0)})})
		case wlit:
			a.log(st, "tok", Tuple{Strv("fmt"), Tuple{Strv("%d"), a.asciiCode(st, args[1], args[2])}})
			return one1(st, Nilv{})
		case forLit:
			return one1(st, a.binCode(st, args[1]))
		case mapl:
			p, _ := args[0].(Ptr)
			f := func(n string) V {
				i := fieldIndex(P, aigerPkg, "aigerBinWriter", n)
				b := P.Type(aigerPkg, "aigerBinWriter")
				return a.E.load(st, Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: i})}, "field:"+b.String()+"."+n, b.Underlying().(*types.Struct).Field(i).Type())[0].v
			}
			a.log(st, "map", args[1], f("id"), lenOf(f("idMap")))
			return one1(st, Tuple{})
		case w7:
			a.log(st, "tok", Tuple{Strv("fmt"), Tuple{Strv("7"), args[1]}})
			return one1(st, Nilv{})
		case reset:
			if p, ok := args[0].(Ptr); ok {
				st.keep("posted:"+p.o.id, Boolv(false))
			}
			return one1(st, Tuple{})
		case post:
			return a.traverse(st, ci, dfsT, args)
		}
		return false, nil
	}
	return a
}

// asciiCode: variables are numbered from one, and the constant is zero.
func (a *aigerW) asciiCode(st *State, m, t V) V {
	l, ok := m.(Lin)
	if !ok || !sameV(t, lin(2)) {
		return Top{}
	}
	if l.isConst() {
		switch l.c {
		case 2:
			return lin(1)
		case 3:
			return lin(0)
		}
	}
	return l.add(lin(2), -1)
}

// binCode: some even number of the variable, and the sign.
func (a *aigerW) binCode(st *State, m V) V {
	l, ok := m.(Lin)
	if !ok {
		return Top{}
	}
	if l.isConst() && l.c < 4 {
		return a.asciiCode(st, m, lin(2))
	}
	v, neg, ok := half(l)
	if !ok {
		return Top{}
	}
	c := linSym(&Sym{id: "code(" + v.String() + ")", lo: i64(1), hi: i64(1 << 30)}).scale(2)
	if neg {
		c = c.add(lin(1), 1)
	}
	return c
}

func (a *aigerW) traverse(st *State, ci ssa.CallInstruction, dfsT *types.Named, args []V) (bool, []Opt) {
	p, ok := args[0].(Ptr)
	s, ok2 := args[1].(Slice)
	if !ok || !ok2 {
		panic(undecided("traversal"))
	}
	det := ""
	if s.o.id != "roots" || !a.E.eqLin(st, s.off, lin(0)) || !sameV(s.len, linSym(&Sym{id: "len(roots)", lo: i64(0)})) {
		det = "the traversal does not start from all the roots"
	}
	if b, ok := st.kept("posted:" + p.o.id).(Boolv); ok && bool(b) {
		det = "the marks of the traversal before are still set"
	}
	a.r.Ob("traversal", a.P.Pos(ci.Pos()), det == "", ci.Pos(), "%s", det)
	st.keep("posted:"+p.o.id, Boolv(true))
	var fv Fnv
	found := false
	stt := dfsT.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if _, isf := stt.Field(i).Type().Underlying().(*types.Signature); isf {
			v := a.E.load(st, Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: i})}, "field:"+dfsT.String()+"."+stt.Field(i).Name(), stt.Field(i).Type())[0].v
			if f, ok := v.(Fnv); ok {
				fv, found = f, true
			}
		}
	}
	if !found {
		panic(undecided("function of a traversal"))
	}
	for _, b := range fv.b { // what was never written starts as zero
		q, ok := b.(Ptr)
		if !ok || len(q.path) > 0 || !q.o.zero {
			continue
		}
		if c, ok := st.mem[cellKey(q)]; ok && c.v != nil {
			continue
		}
		if v := a.E.load(st, q, "", types.Typ[types.Uint])[0].v; sameV(v, lin(0)) {
			a.E.store(st, q, "", types.Typ[types.Uint], v, ci.Pos())
		}
	}
	a.dfsN++
	id := fmt.Sprintf("dfs%d", a.dfsN)
	before := st.clone()
	from := len(st.events)
	changed := map[string]cell{}
	for _, isT := range []bool{false, true} {
		s := st.clone()
		m := linSym(&Sym{id: "node", lo: i64(2), hi: i64(1 << 30)}).scale(2)
		if isT {
			m = lin(2)
		}
		s.keep("node", m)
		for _, o := range a.E.Run(s, fv.fn, []V{Ptr{o: obj("S")}, m}, fv.b) {
			if o.Kind != "return" {
				continue
			}
			rec := &dfsRec{st: o.St, m: o.St.kept("node").(Lin), evs: o.St.events[from:]}
			var names []string
			for _, k := range sortedKeys(o.St.mem) {
				c := o.St.mem[k]
				if c.o == nil || strings.HasPrefix(c.o.id, "C.") || strings.HasPrefix(c.o.id, "S") {
					continue
				}
				if old, ok := before.mem[k]; ok && !sameV(old.v, c.v) {
					changed[k] = c
					names = append(names, k)
					if x, ok := old.v.(Lin); ok {
						if y, ok := c.v.(Lin); ok {
							if d := y.add(x, -1); d.isConst() {
								rec.n = i64(d.c)
							}
						}
					}
				} else if !ok && len(c.path) > 0 && c.path[len(c.path)-1].f < 0 {
					changed[k] = c
				}
			}
			rec.delta = strings.Join(names, ",")
			a.dfs[id] = append(a.dfs[id], rec)
		}
	}
	for _, k := range sortedKeys(changed) {
		c := changed[k]
		if len(c.path) > 0 && c.path[len(c.path)-1].f < 0 {
			a.E.dirtyElems(st, c.o, c.key)
			continue
		}
		if _, ok := c.v.(Lin); ok {
			old := before.mem[k]
			c.v = linSym(&Sym{id: "after(" + id + ")", lo: i64(0)})
			if o, ok := old.v.(Lin); ok {
				st.keep("before:"+id, o)
			}
			st.mem[k] = c
		}
	}
	a.log(st, "dfs", Strv(id))
	return one1(st, Tuple{})
}

func runC07(r *Report) {
	writers(r)
	litCodes(r)
	visits(r)
	r.Floor("sections", 20)
	r.Floor("latch-init", 2)
	r.Floor("numbering", 4)
	r.Floor("codes", 8)
	r.Floor("traversal", 6)
	r.Floor("roots", 6)
}

// section is what the format has for one list.
type section struct {
	name, obj string
	n         string // the symbol of its length
	want      func(a *aigerW, b *bodyRec, idx Lin, v V) string
}

func writers(r *Report) {
	for _, w := range []struct {
		name string
		bin  bool
	}{{"WriteAscii", false}, {"WriteBinary", true}} {
		a := newAigerW(r)
		fn := r.P.Func(aigerPkg, "T."+w.name)
		k := 0
		for _, o := range a.E.Run(newState(), fn, []V{a.h.ptr("T"), Unk{"w"}}, nil) {
			if o.Kind != "return" {
				continue
			}
			k++
			a.judgeWriter(o.St, o.Pos, w.name, w.bin, k)
		}
		r.Ob("sections", w.name, k > 0, fn.Pos(), "no path was found")
		for f := range a.E.Funcs {
			r.Fn(f)
		}
	}
}

func (a *aigerW) judgeWriter(st *State, pos token.Pos, name string, bin bool, k int) {
	r := a.r
	code := func(b *bodyRec, m V) string {
		if bin {
			return numTok(a.binCode(b.st, m))
		}
		return numTok(a.asciiCode(b.st, m, lin(2)))
	}
	line := func(b *bodyRec, idx Lin, v V) string { return code(b, v) + "\n" }
	inits := map[int64]string{}
	latch := func(b *bodyRec, idx Lin, v V) string {
		nx, ini := b.st.kept("next:"+v.String()), b.st.kept("init:"+v.String())
		if nx == nil || ini == nil {
			return "?"
		}
		c := code(b, v)
		if l, ok := ini.(Lin); ok && l.c != 0 {
			// which constant it is is a rule of its own
			c = "0"
			if g := text(b.evs); strings.HasSuffix(g, " 1\n") {
				c = "1"
			}
			inits[l.c] = c
		}
		s := code(b, nx) + " " + c + "\n"
		if !bin {
			s = code(b, v) + " " + s
		}
		return s
	}
	ls := pieces(st.events, "dfs", "flush")
	var seq []Event
	for _, p := range ls {
		if p.Kind == "loop" && a.silent(string(p.Args[0].(Strv)), "dfs", "flush") {
			continue
		}
		seq = append(seq, p)
	}
	i := 0
	ob := func(what, det string) {
		r.Ob("sections", fmt.Sprintf("%s: %s: path %d", name, what, k), det == "", pos, "%s", det)
	}
	peek := func(kind string) (Event, bool) {
		// traversals which write nothing are steps of their own
		for i < len(seq) && kind != "dfs" && seq[i].Kind == "dfs" && a.quietDfs(string(seq[i].Args[0].(Strv))) {
			i++
		}
		for kind == "dfs" && i < len(seq) && seq[i].Kind == "dfs" && a.quietDfs(string(seq[i].Args[0].(Strv))) {
			i++
		}
		if i < len(seq) && seq[i].Kind == kind {
			i++
			return seq[i-1], true
		}
		return Event{}, false
	}
	// the header
	ev, ok := peek("text")
	if !ok {
		ob("header", "no header is written first")
		return
	}
	ob("header", a.headerText(st, string(ev.Args[0].(Strv)), bin))
	loop := func(what string, objs []string, n func(b *bodyRec) V, want func(b *bodyRec, idx Lin, v V) string) {
		ev, ok := peek("loop")
		if !ok {
			got := "nothing"
			if i < len(seq) {
				got = seq[i].Kind
			}
			ob(what, fmt.Sprintf("the section of the %s is missing: %s", what, got))
			return
		}
		det := ""
		recs := a.recs[string(ev.Args[0].(Strv))]
		if len(recs) == 0 {
			det = "nothing is written"
		}
		for _, b := range recs {
			o, idx, v := over(b, objs...)
			if o == "" {
				det = fmt.Sprintf("another list is written in the section of the %s", what)
				break
			}
			if w, g := want(b, idx, v), text(b.evs); w != g {
				det = fmt.Sprintf("%q is written for %v instead of %q", g, v, w)
				break
			}
			if d := a.covers(st, b, idx, n(b)); d != "" {
				det = "of the " + what + " " + d
				break
			}
		}
		ob(what, det)
	}
	length := func(o string) func(*bodyRec) V {
		return func(*bodyRec) V { return linSym(&Sym{id: "len(" + o + ")", lo: i64(0)}) }
	}
	if !bin {
		loop("inputs", []string{"T.Inputs"}, length("T.Inputs"), line)
	}
	loop("latches", []string{"S.Latches"}, length("S.Latches"), latch)
	r.Ob("latch-init", fmt.Sprintf("%s: false is written as %s, true as %s", name, inits[3], inits[2]), inits[3] == "0" && inits[2] == "1", pos,
		"a latch which starts false is written with initial value %s, one which starts true with %s", inits[3], inits[2])
	loop("outputs", []string{"T.Outputs"}, length("T.Outputs"), line)
	loop("bad states", []string{"T.Bad"}, length("T.Bad"), line)
	loop("constraints", []string{"T.Constraints"}, length("T.Constraints"), line)
	loop("justice sizes", []string{"T.Justice"}, length("T.Justice"), func(b *bodyRec, idx Lin, v V) string {
		s, ok := v.(Slice)
		if !ok {
			return "?"
		}
		return numTok(s.len) + "\n"
	})
	// the literals of justice properties: a loop in a loop
	ev, ok = peek("loop")
	det := ""
	if !ok {
		det = "the justice properties are missing"
	} else {
		recs := a.recs[string(ev.Args[0].(Strv))]
		for _, b := range recs {
			o, idx, v := over(b, "T.Justice")
			row, isrow := v.(Slice)
			if o == "" || !isrow {
				det = "another list is written in the section of the justice properties"
				break
			}
			ps := pieces(b.evs, "dfs", "flush")
			if len(ps) != 1 || ps[0].Kind != "loop" {
				det = "a justice property is not only its literals"
				break
			}
			for _, c := range a.recs[string(ps[0].Args[0].(Strv))] {
				_, j, m := over(c, row.o.id)
				if m == nil {
					det = fmt.Sprintf("another list than %s is written in a justice property %v", row.o.id, c.evs)
					break
				}
				if w, g := line(c, j, m), text(c.evs); w != g {
					det = fmt.Sprintf("%q is written for %v instead of %q", g, m, w)
				} else if d := a.covers(b.st, c, j, row.len); d != "" {
					det = "of a justice property " + d
				}
			}
			if d := a.covers(st, b, idx, length("T.Justice")(b)); d != "" && det == "" {
				det = "of the justice properties " + d
			}
		}
		if len(recs) == 0 {
			det = "nothing is written"
		}
	}
	ob("justice", det)
	loop("fairness", []string{"T.Fair"}, length("T.Fair"), line)
	// the gates
	ev, ok = peek("dfs")
	if !ok {
		ob("gates", "no gates are written")
	} else {
		det := ""
		and := 0
		for _, d := range a.dfs[string(ev.Args[0].(Strv))] {
			t := text(d.evs)
			v, _, _ := half(d.m)
			if !sameV(d.st.kept("type:"+v.String()), lin(r.P.ConstVal("logic", "SAnd"))) {
				if t != "" {
					det = fmt.Sprintf("%q is written for a node which is no gate", t)
				}
				continue
			}
			and++
			in, ok := d.st.kept("ins:" + v.String()).(Tuple)
			if !ok {
				det = "a gate is written without its operands"
				continue
			}
			x, y := in[0], in[1]
			b := &bodyRec{st: d.st}
			var ok2 bool
			if bin {
				me, _ := a.binCode(d.st, d.m).(Lin)
				p, _ := a.binCode(d.st, x).(Lin)
				q, _ := a.binCode(d.st, y).(Lin)
				for i := 0; i < 2; i++ {
					w := "«7 " + Tuple{me.add(p, -1)}.String() + "»" + "«7 " + Tuple{p.add(q, -1)}.String() + "»"
					if t == w && a.E.geq0(d.st, p.add(q, -1)) && a.E.geq0(d.st, me.add(p, -1).add(lin(1), -1)) {
						ok2 = true
					}
					p, q = q, p
				}
			} else {
				ok2 = t == code(b, d.m)+" "+code(b, x)+" "+code(b, y)+"\n" || t == code(b, d.m)+" "+code(b, y)+" "+code(b, x)+"\n"
			}
			if !ok2 {
				det = fmt.Sprintf("%q is written for gate %v of %v and %v", t, d.m, x, y)
			}
		}
		if and == 0 && det == "" {
			det = "no gate is written"
		}
		ob("gates", det)
	}
	// symbols: two nested map iterations, whose order is free
	if ev, ok = peek("loop"); !ok {
		ob("symbols", "no symbols are written")
	} else {
		ob("symbols", a.symbols(string(ev.Args[0].(Strv))))
	}
	for i < len(seq) && seq[i].Kind == "flush" {
		i++
	}
	det = "no comment is written last"
	if ev, ok = peek("text"); ok && strings.HasPrefix(string(ev.Args[0].(Strv)), "c\n") && strings.HasSuffix(string(ev.Args[0].(Strv)), "\n") {
		det = "the rest is not flushed"
		for i < len(seq) && seq[i].Kind == "flush" {
			i++
			det = ""
		}
		if i < len(seq) {
			det = "more is written after the comment"
		}
	}
	ob("end", det)
	if bin {
		a.numbering(st, pos, k)
	}
}

func (a *aigerW) quietDfs(id string) bool {
	for _, d := range a.dfs[id] {
		if text(d.evs) != "" {
			return false
		}
	}
	return true
}

// symbols: for every kind of symbol and every index, one line.
func (a *aigerW) symbols(id string) string {
	next := func(b *bodyRec) (V, Tuple) {
		for _, e := range b.evs {
			if e.Kind == "next" {
				return e.Args[0], e.Args[1].(Tuple)
			}
		}
		return nil, nil
	}
	recs := a.recs[id]
	if len(recs) == 0 {
		return "no symbols are written"
	}
	for _, b := range recs {
		m, t := next(b)
		if m == nil || m.String() != "?T.symbols" {
			return fmt.Sprintf("the loop is not over the symbols but %v", m)
		}
		ps := pieces(b.evs)
		if len(ps) != 1 || ps[0].Kind != "loop" {
			return "the symbols of one kind are not only their lines"
		}
		in := a.recs[string(ps[0].Args[0].(Strv))]
		if len(in) == 0 {
			return "no symbols of one kind are written"
		}
		for _, c := range in {
			row, u := next(c)
			if row == nil || (row.String() != "?T.symbols["+t[1].String()+"]" && !sameV(row, t[2])) {
				return "the loop is not over the symbols of one kind"
			}
			w := "«char " + t[1].String() + "»" + numTok(u[1]) + " «text " + u[2].String() + "»\n"
			if g := text(c.evs); g != w {
				return fmt.Sprintf("%q is written for a symbol instead of %q", g, w)
			}
		}
	}
	return ""
}

// headerText compares the header with the counts of the sections.
func (a *aigerW) headerText(st *State, t string, bin bool) string {
	tag := "aag"
	if bin {
		tag = "aig"
	}
	f := strings.Split(strings.TrimSuffix(t, "\n"), " ")
	if len(f) != 10 || !strings.HasSuffix(t, "\n") {
		return fmt.Sprintf("the header is %q", t)
	}
	if f[0] != tag {
		return "the header has the tag " + f[0]
	}
	ands := ""
	for id, ds := range a.dfs {
		n, all := 0, true
		for _, d := range ds {
			v, _, _ := half(d.m)
			and := sameV(d.st.kept("type:"+v.String()), lin(a.r.P.ConstVal("logic", "SAnd")))
			want := int64(0)
			if and {
				want = 1
				n++
			}
			if got := d.n; (got == nil) != (want == 0) || got != nil && *got != want || text(d.evs) != "" {
				all = false
			}
		}
		if all && n > 0 && sameV(st.kept("before:"+id), lin(0)) && f[5] == "«after("+id+")»" {
			ands = f[5]
		}
	}
	want := []string{"", "«len(T.Inputs)»", "«len(S.Latches)»", "«len(T.Outputs)»", ands, "«len(T.Bad)»", "«len(T.Constraints)»", "«len(T.Justice)»", "«len(T.Fair)»"}
	what := []string{"", "inputs", "latches", "outputs", "gates", "bad states", "constraints", "justice properties", "fairness constraints"}
	for i := 1; i < 9; i++ {
		if f[i+1] != want[i] || want[i] == "" {
			return fmt.Sprintf("the header has %s for the number of %s", f[i+1], what[i])
		}
	}
	// the largest index, from the number of nodes, of which two have none
	switch f[1] {
	case "«len(nodes)-1»", "«len(nodes)-2»":
	default:
		return "the header has " + f[1] + " for the largest index"
	}
	return ""
}

// numbering: in the binary form the indices are not written; the constant, the
// inputs, the latches and the gates are numbered in this order.
func (a *aigerW) numbering(st *State, pos token.Pos, k int) {
	ob := func(what, det string) {
		a.r.Ob("numbering", fmt.Sprintf("%s: path %d", what, k), det == "", pos, "%s", det)
	}
	has := func(evs []Event) (n int) {
		for _, e := range evs {
			if e.Kind == "map" {
				n++
			}
		}
		return n
	}
	type step struct {
		kind string
		ev   Event
	}
	var seq []step
	for _, e := range st.events {
		switch e.Kind {
		case "map":
			seq = append(seq, step{"one", e})
		case "loop":
			for _, b := range a.recs[string(e.Args[0].(Strv))] {
				if has(b.evs) > 0 {
					seq = append(seq, step{"loop", e})
					break
				}
			}
		case "dfs":
			for _, d := range a.dfs[string(e.Args[0].(Strv))] {
				if has(d.evs) > 0 {
					seq = append(seq, step{"dfs", e})
					break
				}
			}
		}
	}
	if len(seq) != 4 || seq[0].kind != "one" || seq[1].kind != "loop" || seq[2].kind != "loop" || seq[3].kind != "dfs" {
		ob("order", fmt.Sprintf("the constant, the inputs, the latches and the gates are not numbered in four steps (%d)", len(seq)))
		return
	}
	det := ""
	if e := seq[0].ev; !sameV(e.Args[0], lin(2)) && !sameV(e.Args[0], lin(3)) || !sameV(e.Args[1], lin(0)) || !sameV(e.Args[2], linSym(&Sym{id: "len(nodes)", lo: i64(2)})) {
		det = fmt.Sprintf("the number of %v is %v, in a table of length %v", e.Args[0], e.Args[1], e.Args[2])
	}
	ob("constant", det)
	for i, tab := range []string{"T.Inputs", "S.Latches"} {
		det := ""
		for _, b := range a.recs[string(seq[i+1].ev.Args[0].(Strv))] {
			o, idx, v := over(b, tab)
			n := 0
			for _, e := range b.evs {
				if e.Kind == "map" {
					n++
					if !sameV(e.Args[0], v) {
						det = fmt.Sprintf("%v is numbered instead of %v", e.Args[0], v)
					}
				}
			}
			switch {
			case o == "":
				det = "the loop is not over " + tab
			case det == "" && n != 1:
				det = fmt.Sprintf("an element is numbered %d times", n)
			case det == "":
				if d := a.covers(st, b, idx, linSym(&Sym{id: "len(" + tab + ")", lo: i64(0)})); d != "" {
					det = "of " + tab + " " + d
				}
			}
		}
		ob(tab, det)
	}
	det = ""
	for _, d := range a.dfs[string(seq[3].ev.Args[0].(Strv))] {
		v, _, _ := half(d.m)
		and := sameV(d.st.kept("type:"+v.String()), lin(a.r.P.ConstVal("logic", "SAnd")))
		n := 0
		for _, e := range d.evs {
			if e.Kind == "map" {
				n++
				if !sameV(e.Args[0], d.m) {
					det = "another node is numbered"
				}
			}
		}
		if and != (n == 1) || n > 1 {
			det = fmt.Sprintf("a node is numbered %d times, it is a gate: %v", n, and)
		}
	}
	ob("gates", det)
}

// litCodes decides the contracts on the codes of single literals.
func litCodes(r *Report) {
	P := r.P
	s := linSym(&Sym{id: "var", lo: i64(2), hi: i64(1 << 29)})
	lits := []Lin{lin(2), lin(3), s.scale(2), s.scale(2).add(lin(1), 1)}
	a := &aigerW{emitter: newEmitter(P), P: P, r: r}
	wl := P.Func(aigerPkg, "writeLit")
	r.Fn(wl)
	for _, m := range lits {
		n := 0
		for _, o := range a.E.Run(newState(), wl, []V{Unk{"w"}, m, lin(2)}, nil) {
			if o.Kind != "return" || len(o.Ret) > 0 && !isNilErr(o.Ret[0]) {
				continue
			}
			n++
			w, g := numTok(a.asciiCode(o.St, m, lin(2))), text(o.St.events)
			r.Ob("codes", "writeLit: "+m.String(), w == g, o.Pos, "%q is written for literal %v instead of %q", g, m, w)
		}
		r.Ob("codes", "writeLit ends: "+m.String(), n > 0, wl.Pos(), "no path was found")
	}
	bw := P.Type(aigerPkg, "aigerBinWriter").Obj().Name()
	id := linSym(&Sym{id: "id", lo: i64(0), hi: i64(1 << 29)}).scale(2)
	a.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		switch {
		case name == bw+".trueLit":
			return one1(st, lin(2))
		case name == bw+".id":
			return one1(st, id)
		case strings.HasPrefix(name, bw+".idMap["):
			return one1(st, linSym(&Sym{id: "number" + name[len(bw+".idMap"):], lo: i64(0), hi: i64(1 << 29)}).scale(2))
		}
		return false, nil
	}
	fl := P.Func(aigerPkg, "aigerBinWriter.forLit")
	r.Fn(fl)
	for _, m := range lits {
		n := 0
		for _, o := range a.E.Run(newState(), fl, []V{a.h.ptr(bw), m}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			v, neg, _ := half(m)
			w := linSym(&Sym{id: "number[" + v.String() + "]"}).scale(2)
			if neg {
				w = w.add(lin(1), 1)
			}
			if m.isConst() {
				w = lin(3 - m.c)
			}
			r.Ob("codes", "forLit: "+m.String(), len(o.Ret) == 1 && sameV(o.Ret[0], w), o.Pos, "the code of literal %v is %v instead of %v", m, o.Ret, w)
		}
		r.Ob("codes", "forLit ends: "+m.String(), n > 0, fl.Pos(), "no path was found")
	}
	ml := P.Func(aigerPkg, "aigerBinWriter.mapLit")
	r.Fn(ml)
	for _, m := range []Lin{lin(2), s.scale(2)} {
		v, _, _ := half(m)
		n := 0
		for _, o := range a.E.Run(newState(), ml, []V{a.h.ptr(bw), m}, nil) {
			if o.Kind != "return" {
				continue
			}
			n++
			det := ""
			if e := elem(o.St, bw+".idMap", v); !sameV(e, id) {
				det = fmt.Sprintf("the number of %v is stored as %v", m, e)
			}
			if x := fieldV(o.St, P, aigerPkg, bw, "id"); !sameV(x, id.add(lin(2), 1)) {
				det = fmt.Sprintf("the next number after %v is %v", id, x)
			}
			r.Ob("codes", "mapLit: "+m.String(), det == "", o.Pos, "%s", det)
		}
		r.Ob("codes", "mapLit ends: "+m.String(), n > 0, ml.Pos(), "no path was found")
	}
}

// visits decides the traversal itself: every gate below the roots is visited
// once, after its operands, and nothing is left out of the roots.
func visits(r *Report) {
	P := r.P
	a := newAigerW(r)
	h := a.h
	vis, post, reset, mk, roots := P.Func(aigerPkg, "sDfs.vis"), P.Func(aigerPkg, "sDfs.post"), P.Func(aigerPkg, "sDfs.reset"), P.Func(aigerPkg, "newsDfs"), P.Func(aigerPkg, "T.roots")
	r.Fn(vis, post, reset, mk, roots)
	and := lin(P.ConstVal("logic", "SAnd"))
	base := h.Extra
	h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		switch {
		case name == "sDfs.fn":
			return one1(st, Unk{"fn"})
		case strings.HasPrefix(name, "sDfs.marks["):
			_, os := opts(st, lin(0), lin(1), lin(2))
			for _, o := range os {
				o.st.keep("mark:"+name, o.v)
			}
			return true, os
		}
		return base(st, p, name, t)
	}
	next := a.Next
	deep := false // inside vis
	a.Next = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn == vis && deep {
			a.log(st, "vis", args[1])
			// the marks of the nodes below it change
			return one1(st, Tuple{})
		}
		if fn == nil && len(args) >= 1 && sameV(a.E.get(st, ci.Common().Value), Unk{"fn"}) {
			a.log(st, "fn", args[len(args)-1])
			return one1(st, Tuple{})
		}
		if fn == post || fn == reset || fn == roots {
			return false, nil
		}
		return next(st, ci, fn, args)
	}
	a.E.NoMods[vis] = true
	deep = true
	m0 := linSym(&Sym{id: "node", lo: i64(2), hi: i64(1 << 29)})
	type res struct {
		st   *State
		pos  token.Pos
		m    Lin
		mark V
		end  V
	}
	var rs []res
	for _, m := range []Lin{m0.scale(2), m0.scale(2).add(lin(1), 1), lin(2), lin(3)} {
		for _, o := range a.E.Run(newState(), vis, []V{h.ptr("sDfs"), m}, nil) {
			if o.Kind != "return" {
				continue
			}
			v, _, _ := half(m)
			e := elem(o.St, "sDfs.marks", v)
			rs = append(rs, res{o.St, o.Pos, m, o.St.kept("mark:sDfs.marks[" + v.String() + "]"), e})
		}
	}
	// the mark of a finished node
	var done V
	quiet := func(x res) bool {
		for _, e := range x.st.events {
			if e.Kind == "vis" || e.Kind == "fn" {
				return false
			}
		}
		return true
	}
	for _, x := range rs {
		if !quiet(x) && sameV(x.mark, lin(0)) {
			done = x.end
		}
	}
	n := 0
	for i, x := range rs {
		det := ""
		v, _, _ := half(x.m)
		if quiet(x) {
			if done == nil || !sameV(x.mark, done) {
				det = fmt.Sprintf("a node with mark %v, which is not the mark %v of a finished one, is left out", x.mark, done)
			}
		} else {
			n++
			var ops []V
			fns := 0
			for _, e := range x.st.events {
				switch e.Kind {
				case "vis":
					if fns > 0 {
						det = "an operand is visited after the node"
					}
					ops = append(ops, e.Args[0])
				case "fn":
					fns++
					if !sameV(e.Args[0], v.scale(2)) {
						det = fmt.Sprintf("the function is called for %v at %v", e.Args[0], x.m)
					}
				}
			}
			if fns != 1 {
				det = fmt.Sprintf("the function is called %d times for a node", fns)
			}
			if sameV(x.mark, done) {
				det = "a finished node is visited again"
			}
			if !sameV(x.end, done) || sameV(x.end, lin(0)) {
				det = "the node is not marked as finished"
			}
			if sameV(x.st.kept("type:"+v.String()), and) {
				in, ok := x.st.kept("ins:" + v.String()).(Tuple)
				var t []string
				for _, o := range ops {
					if l, ok := o.(Lin); ok {
						w, _, _ := half(l)
						t = append(t, w.String())
					}
				}
				if !ok {
					det = "the operands of a gate are not visited"
				} else {
					for _, o := range in {
						w, _, _ := half(o.(Lin))
						f := false
						for _, s := range t {
							f = f || s == w.String()
						}
						if !f {
							det = fmt.Sprintf("operand %v of a gate is not visited before it", o)
						}
					}
				}
			}
		}
		r.Ob("traversal", fmt.Sprintf("vis: path %d", i), det == "", x.pos, "%s", det)
	}
	r.Ob("traversal", "vis", n > 0, vis.Pos(), "no path visits a node")
	// all the roots
	h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if strings.HasPrefix(name, "ms[") {
			return opts(st, a.litOpts(st, "m")...)
		}
		return base(st, p, name, t)
	}
	ln := linSym(&Sym{id: "len(ms)", lo: i64(0)})
	for i, o := range a.E.Run(newState(), post, []V{h.ptr("sDfs"), Slice{obj("ms"), Lin{}, ln, ln}}, nil) {
		if o.Kind != "return" {
			continue
		}
		det := "no loop visits the roots"
		for _, p := range pieces(o.St.events) {
			for _, b := range a.recs[string(p.Args[0].(Strv))] {
				_, idx, v := over(b, "ms")
				det = "a root is not visited"
				for _, e := range b.evs {
					if e.Kind == "vis" && v != nil && sameV(e.Args[0], v) {
						det = a.covers(o.St, b, idx, ln)
					}
				}
				if det != "" {
					break
				}
			}
		}
		r.Ob("traversal", fmt.Sprintf("post: path %d", i), det == "", o.Pos, "%s", det)
	}
	// all the marks
	var sets []Event
	a.E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if len(p.path) == 1 && p.path[0].f < 0 {
			a.log(st, "set", Ptr{o: p.o}, p.path[0].idx, v)
		}
	}
	_ = sets
	lm := linSym(&Sym{id: "len(sDfs.marks)", lo: i64(0)})
	for i, o := range a.E.Run(newState(), reset, []V{h.ptr("sDfs")}, nil) {
		if o.Kind != "return" {
			continue
		}
		det := "the marks are not cleared"
		if s, ok := fieldV(o.St, P, aigerPkg, "sDfs", "marks").(Slice); ok && s.o.zero && a.E.eqLin(o.St, s.len, lm) {
			det = ""
		}
		for _, p := range pieces(o.St.events) {
			for _, b := range a.recs[string(p.Args[0].(Strv))] {
				det = "a mark is not cleared"
				for _, e := range b.evs {
					if e.Kind == "set" && e.Args[0].(Ptr).o.id == "sDfs.marks" && sameV(e.Args[2], lin(0)) {
						det = a.covers(o.St, b, e.Args[1].(Lin), lm)
					}
				}
				if det != "" {
					break
				}
			}
		}
		r.Ob("traversal", fmt.Sprintf("reset: path %d", i), det == "", o.Pos, "%s", det)
	}
	for i, o := range a.E.Run(newState(), mk, []V{Ptr{o: obj("S")}, Unk{"fn"}}, nil) {
		if o.Kind != "return" {
			continue
		}
		det := "the traversal has no marks"
		if p, ok := o.Ret[0].(Ptr); ok {
			st := o.St
			f := func(n string) V {
				j := fieldIndex(P, aigerPkg, "sDfs", n)
				t := P.Type(aigerPkg, "sDfs").Underlying().(*types.Struct).Field(j)
				return a.E.load(st, Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: j})}, "field:"+P.Type(aigerPkg, "sDfs").String()+"."+n, t.Type())[0].v
			}
			if s, ok := f("marks").(Slice); ok && s.o.zero && a.E.eqLin(st, s.len, linSym(&Sym{id: "len(nodes)", lo: i64(2)})) {
				det = ""
			}
			if !sameV(f("fn"), Unk{"fn"}) {
				det = "the function of the traversal is another one"
			}
			if q, ok := f("s").(Ptr); !ok || q.o.id != "S" {
				det = "the traversal is of another system"
			}
		}
		r.Ob("traversal", fmt.Sprintf("newsDfs: path %d", i), det == "", o.Pos, "%s", det)
	}
	h.Extra = base
	for i, o := range a.E.Run(newState(), roots, []V{h.ptr("T")}, nil) {
		if o.Kind != "return" {
			continue
		}
		a.judgeRoots(o, i)
	}
}

func (a *aigerW) judgeRoots(o Outcome, k int) {
	ret, ok := o.Ret[0].(Slice)
	if !ok {
		a.r.Ob("roots", fmt.Sprintf("path %d", k), false, o.Pos, "the roots are %v", o.Ret[0])
		return
	}
	// src tells whether the events add all of the table src to the roots
	var has func(st *State, evs []Event, src string, n V, next bool) string
	has = func(st *State, evs []Event, src string, n V, next bool) string {
		why := "it is not added"
		for _, e := range evs {
			switch e.Kind {
			case "copy":
				d, ok1 := e.Args[0].(Slice)
				s, ok2 := e.Args[1].(Slice)
				if ok1 && ok2 && !next && d.o.id == ret.o.id && s.o.id == src && a.E.eqLin(st, s.off, lin(0)) && a.E.eqLin(st, s.len, n) {
					return ""
				}
			case "loop":
				recs := a.recs[string(e.Args[0].(Strv))]
				det := "its loop is empty"
				for _, b := range recs {
					x, idx, v := over(b, src)
					if x == "" {
						det = "-"
						break
					}
					want := v
					if next {
						want = b.st.kept("next:" + v.String())
					}
					det = ""
					if src == "T.Justice" {
						row, _ := v.(Slice)
						if row.o == nil {
							return "unknown rows"
						}
						det = has(b.st, b.evs, row.o.id, row.len, false)
					} else {
						det = "not every element is added"
						for _, e := range b.evs {
							if e.Kind == "set" && e.Args[0].(Ptr).o.id == ret.o.id && want != nil && sameV(e.Args[2], want) {
								det = ""
							}
						}
					}
					if det == "" {
						det = a.covers(st, b, idx, n)
					}
					if det != "" {
						break
					}
				}
				if det == "" {
					return ""
				}
				if det != "-" {
					why = det
				}
			}
		}
		return why
	}
	for _, t := range []string{"T.Outputs", "S.Latches", "T.Bad", "T.Constraints", "T.Justice", "T.Fair"} {
		why := has(o.St, o.St.events, t, linSym(&Sym{id: "len(" + t + ")", lo: i64(0)}), t == "S.Latches")
		a.r.Ob("roots", fmt.Sprintf("%s: path %d", t, k), why == "", o.Pos, "%s is not among the roots: %s", t, why)
	}
}
