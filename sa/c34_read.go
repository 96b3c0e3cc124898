package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C34", Level: "other",
		Rule: "Abstract interpretation over go/ssa of the AIGER readers with symbolic bytes and numbers: every path and one arbitrary iteration of every loop against the description of the format.",
		Run:  runC34})
}

// aigerR judges the readers of AIGER files.
type aigerR struct {
	*streamWorld
	origin map[string]string // what the objects of tables are named by
	texts  map[string]bool
	heads  [][2]string // per list of numbers, a table it was collected in by a variable
}

const maxAigerCount = 1<<30 - 1

func runC34(r *Report) {
	a := &aigerR{streamWorld: newStream(r), origin: map[string]string{}}
	a.world()
	a.number()
	a.header()
	if os.Getenv("SA_NUM") != "" {
		a.gate()
		return
	}
	for _, f := range []struct {
		name   string
		binary bool
	}{{"ReadAscii", false}, {"ReadBinary", true}} {
		a.file(f.name, f.binary)
	}
	a.gate()
	r.Floor("number", 4)
	r.Floor("header", 4)
	r.Floor("sections", 20)
	r.Floor("results", 10)
	r.Floor("refusals", 20)
	r.Floor("gates", 3)
}

func (a *aigerR) named(o *Obj) string {
	if n := a.origin[o.id]; n != "" {
		return n
	}
	return o.id
}

// numbers are constants, or the two literals of a variable.
func (a *aigerR) numbers(st *State, id string) []V {
	st.seq++
	s := linSym(&Sym{id: fmt.Sprintf("%s#%d", id, st.seq), lo: i64(1), hi: i64(1 << 40)}).scale(2)
	return []V{lin(0), lin(1), s, s.add(lin(1), 1)}
}

func (a *aigerR) load(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
	e := a.e
	if len(p.path) == 1 && p.path[0].f < 0 {
		logged := func(vs ...V) (bool, []Opt) {
			_, os := opts(st, vs...)
			for _, o := range os {
				e.log(o.st, "read", Ptr{o: p.o}, p.path[0].idx, o.v)
			}
			return true, os
		}
		switch {
		case isLit(t):
			st.seq++
			s := linSym(&Sym{id: fmt.Sprintf("lit#%d", st.seq), lo: i64(1), hi: i64(1<<30 - 1)}).scale(2)
			return logged(lin(0), s, s.add(lin(1), 1))
		case types.Identical(t, types.Typ[types.Uint]):
			return logged(a.numbers(st, "u")...)
		case types.Identical(t, types.Typ[types.Int]):
			st.seq++
			return logged(linSym(&Sym{id: fmt.Sprintf("c#%d", st.seq), lo: i64(0)}))
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			st.seq++
			id := fmt.Sprintf("%s[]#%d", p.o.id, st.seq)
			a.origin[id] = a.named(p.o) + "[]"
			return logged(Slice{obj(id), Lin{}, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})})
		}
	}
	if len(p.path) == 2 && p.path[0].f < 0 && p.path[1].f == fieldIndex(a.P, aigerPkg, "aigAnd", "defined") && a.named(p.o) == "aigerReader.AigAnds" {
		_, os := opts(st, Boolv(true), Boolv(false))
		for _, o := range os {
			e.log(o.st, "was", p.path[0].idx, o.v)
		}
		return true, os
	}
	if len(p.path) == 1 && p.path[0].f >= 0 && strings.Contains(p.o.id, "#") {
		if _, ok := t.Underlying().(*types.Slice); ok {
			if p.o.zero && e.E.clean(st, p, key) && !st.dirty[key] {
				return false, nil
			}
			st.seq++
			id := fmt.Sprintf("%s#%d", cellName(p, key), st.seq)
			a.origin[id] = cellName(p, key)
			return one1(st, Slice{obj(id), Lin{}, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})})
		}
	}
	return e.h.load(st, p, key, t)
}

func (a *aigerR) world() {
	P, e := a.P, a.e
	base := e.h.Extra
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		switch name {
		case "C.T":
			return one1(st, lin(2))
		case "C.F":
			return one1(st, lin(3))
		}
		if strings.HasPrefix(name, "aigerHeader.") && p.o.id == "hdr" {
			if name == "aigerHeader.Binary" {
				return opts(st, Boolv(true), Boolv(false))
			}
			return one1(st, linSym(&Sym{id: name, lo: i64(0), hi: i64(maxAigerCount)}))
		}
		return base(st, p, name, t)
	}
	e.E.Load = a.load
	store := e.E.Store
	e.E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if s, ok := v.(Slice); ok && len(p.path) == 1 && p.path[0].f >= 0 && a.origin[s.o.id] == "" {
			a.origin[s.o.id] = cellName(p, key)
		}
		if n := len(p.path); n == 2 && p.path[0].f < 0 && strings.HasPrefix(cellName(p, key), "aigAnd.") {
			e.log(st, "gatefield", Ptr{o: p.o}, p.path[0].idx, Strv(cellName(p, key)), v)
		}
		store(st, p, key, v, pos)
	}
	e.E.MapSet = func(st *State, m, k, v V, pos token.Pos) { e.log(st, "map", m, k, v) }
	e.E.Lookup = func(st *State, in *ssa.Lookup, m, k V) (bool, []Opt) {
		if in.CommaOk {
			return false, nil
		}
		return one1(st, Tuple{Strv("entry"), m, k})
	}
	havoc := e.E.Havoc
	e.E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		if ok, os := havoc(st, phi, init); ok {
			return ok, os
		}
		// what goes on by two from an even number is even
		l, ok := init.(Lin)
		if !ok || !l.divisible(2) || l.c%2 != 0 || !types.Identical(phi.Type(), types.Typ[types.Uint]) {
			return false, nil
		}
		even := false
		for i, x := range phi.Edges {
			b, ok := x.(*ssa.BinOp)
			if !ok || !phi.Block().Dominates(phi.Block().Preds[i]) {
				continue
			}
			c, ok2 := b.Y.(*ssa.Const)
			if b.Op != token.ADD || b.X != ssa.Value(phi) || !ok2 || c.Value == nil {
				return false, nil
			}
			n, _ := constInt(c.Value)
			if n%2 != 0 || n == 0 {
				return false, nil
			}
			even = true
		}
		if !even {
			return false, nil
		}
		st.seq++
		s := linSym(&Sym{id: fmt.Sprintf("%s.%s/2#%d", phi.Parent().Name(), phi.Name(), st.seq), lo: i64(0), hi: i64(1 << 40)}).scale(2)
		st.facts = append(st.facts, s.add(l, -1))
		st.keep("init:"+phi.Parent().Name()+"."+phi.Name()+"/2", divLin(l, 2))
		return one1(st, s)
	}
	F := func(n string) *ssa.Function { return P.Func("logic", n) }
	lit, latch, setInit, setNext, and := F("C.Lit"), F("S.Latch"), F("S.SetInit"), F("S.SetNext"), F("C.And")
	mk, ln, at, typ := F("NewSCap"), F("C.Len"), F("C.At"), F("S.Type")
	ru, r7, rh := P.Func(aigerPkg, "readUint"), P.Func(aigerPkg, "read7"), P.Func(aigerPkg, "readHeader")
	// what makes the object is taken round by round, since the system is new and
	// its length known.
	making := map[*ssa.Function]bool{}
	var gather func(f *ssa.Function)
	gather = func(f *ssa.Function) {
		if f == nil || making[f] || f.Blocks == nil || f.Pkg == nil || f.Pkg != P.Func(aigerPkg, "MakeFor").Pkg {
			return
		}
		making[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					gather(c.Common().StaticCallee())
				}
			}
		}
	}
	gather(P.Func(aigerPkg, "MakeFor"))
	e.E.UnrollLoop = func(f *ssa.Function, _ *ssa.BasicBlock) (bool, int) {
		if making[f] {
			return true, 12
		}
		return false, 0
	}
	e.E.NoMods = map[*ssa.Function]bool{}
	for _, f := range []*ssa.Function{lit, latch, setInit, setNext, and, mk, ln, at, typ, ru, r7, rh} {
		e.E.NoMods[f] = true
	}
	node := func(st *State, kind string, args ...V) (bool, []Opt) {
		st.seq++
		s := linSym(&Sym{id: fmt.Sprintf("%s#%d", kind, st.seq), lo: i64(2), hi: i64(1<<30 - 1)}).scale(2)
		e.log(st, kind, append([]V{s}, args...)...)
		return one1(st, s)
	}
	rec := P.TryFunc(aigerPkg, "aigerReader.mapAndsRec")
	a.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		switch f {
		case nil:
			return false, nil
		case lit:
			return node(st, "input")
		case latch:
			return node(st, "latch", args[1])
		case setInit, setNext:
			e.log(st, f.Name(), args[1:]...)
			return one1(st, Tuple{})
		case and:
			return node(st, "and", args[1:]...)
		case mk:
			return one1(st, Ptr{o: obj("sys")})
		case ln, at:
			return one1(st, lin(2))
		case typ:
			return one1(st, lin(P.ConstVal("logic", "SConst")))
		case ru, r7:
			st.unkeep("back")
			st.unkeep("last")
			s2 := st.clone()
			k := "int"
			if f == r7 {
				k = "delta"
			}
			e.log(s2, k+"err")
			_, os := opts(st, a.numbers(st, "n")...)
			for i := range os {
				e.log(os[i].st, k, os[i].v)
				os[i].v = Tuple{os[i].v, Nilv{}}
			}
			return true, append(os, Opt{s2, Tuple{lin(0), Tag{"uniq:a number error"}}})
		case rh:
			s2 := st.clone()
			e.log(st, "hdr")
			e.log(s2, "hdrerr")
			return true, []Opt{{st, Tuple{Ptr{o: obj("hdr")}, Nilv{}}}, {s2, Tuple{Nilv{}, Tag{"uniq:a header error"}}}}
		case rec:
			s2 := st.clone()
			e.log(st, "rec", args[1:]...)
			e.log(s2, "recerr")
			return true, []Opt{{st, Nilv{}}, {s2, Tag{"uniq:a gate error"}}}
		}
		switch calleeName(ci, f) {
		case "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadSlice":
			st.seq++
			n := linSym(&Sym{id: fmt.Sprintf("len(line#%d)", st.seq), lo: i64(1)})
			s2, s3 := st.clone(), st.clone()
			v := V(Slice{obj(fmt.Sprintf("line#%d", st.seq)), Lin{}, n, n})
			if strings.HasSuffix(f.Name(), "String") {
				v = Tuple{Strv("line"), n}
			}
			e.log(st, "line", v, args[1])
			e.log(s2, "eof")
			e.log(s3, "ioerr")
			return true, []Opt{{st, Tuple{v, Nilv{}}}, {s2, Tuple{v, Tag{errEOF}}}, {s3, Tuple{v, Tag{errIO}}}}
		}
		return false, nil
	}
}

// aigSection is a part of a file: what one of its entries is made of, and how many
// there are.
type aigSection struct {
	name  string
	forms []string // N is a number, D a delta
	count string   // the field of the header
	roles string   // of the numbers: g a definition, l a literal, c a count, i an initial value
}

func sectionsOf(binary bool) []aigSection {
	lits := func(n string) aigSection { return aigSection{n, []string{"N\n"}, n, "l"} }
	s := []aigSection{
		{"In", []string{"N\n"}, "In", "g"},
		{"Latch", []string{"N N\n", "N N N\n"}, "Latch", "gli"},
		lits("Out"), lits("Bad"), lits("Constraint"),
		{"Justice", []string{"N\n"}, "Justice", "c"},
		{"JusticeLits", []string{"N\n"}, "", "l"},
		lits("Fair"),
		{"And", []string{"N N N\n"}, "And", "gll"},
		{"Symbols", nil, "", ""},
	}
	if binary {
		s[0].forms, s[0].roles = []string{""}, ""
		s[1].forms, s[1].roles = []string{"N\n", "N N\n"}, "li"
		s[8].forms, s[8].roles = []string{"DD"}, "dd"
	}
	return s
}

// read goes through what an entry takes: whether it is complete, whether it
// surely departs from the forms, and its numbers.
func (a *aigerR) entry(st *State, evs []Event, forms []string) (complete, departs bool, nums []V, why string) {
	pos := 0
	live := append([]string(nil), forms...)
	keep := func(c byte) []string {
		var r []string
		for _, f := range live {
			if pos < len(f) && f[pos] == c {
				r = append(r, f)
			}
		}
		return r
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "in":
			var next []string
			sure, none := false, true
			for _, c := range []byte(" \n") {
				k := keep(c)
				if len(k) == 0 {
					continue
				}
				if a.is(st, ev.Args[0], c) {
					next, sure = k, true
				}
				none = none && a.isNot(st, ev.Args[0], c)
			}
			if none {
				return false, true, nums, ""
			}
			if !sure {
				return false, false, nums, "a byte is not looked at"
			}
			live = next
		case "int", "delta":
			c := byte('N')
			if ev.Kind == "delta" {
				c = 'D'
			}
			if live = keep(c); len(live) == 0 {
				return false, false, nums, "a number is read which is not there"
			}
			nums = append(nums, ev.Args[0])
		case "unread", "line":
			return false, false, nums, "what is read is not an entry"
		default:
			continue
		}
		pos++
	}
	for _, f := range live {
		complete = complete || len(f) == pos
	}
	return complete, false, nums, ""
}

func (a *aigerR) hdr(f string) Lin {
	return linSym(&Sym{id: "aigerHeader." + f, lo: i64(0), hi: i64(maxAigerCount)})
}

// unit is what a number must be like in its role: "" if it surely is, "!" if it
// surely is not, otherwise what may be wrong.
func (a *aigerR) fits(st *State, evs []Event, v V, role byte, all []V) string {
	E := a.e.E
	l := v.(Lin)
	var ok, not bool
	what := ""
	max := a.hdr("Max").scale(2).add(lin(1), 1)
	in := func(x, lo, hi Lin) (bool, bool) {
		return E.geq0(st, x.add(lo, -1)) && E.geq0(st, hi.add(x, -1)), E.geq0(st, lo.add(x, -1).add(lin(1), -1)) || E.geq0(st, x.add(hi, -1).add(lin(1), -1))
	}
	switch role {
	case 'l', 'g':
		what = "a literal may be out of range"
		ok, not = in(l, lin(0), max)
		if role == 'g' {
			if _, odd, o := half(l); o && odd {
				ok, not = false, true
				what = "a negated definition is accepted"
			}
		}
	case 'c':
		what = "a count may be out of range"
		ok, not = in(l, lin(0), lin(maxAigerCount))
	}
	switch {
	case ok:
		return ""
	case not:
		return "!" + what
	}
	return what
}

// appended gives the lists to which an iteration appends v.
func (a *aigerR) appended(b *bodyRec, v V) map[string]*Obj {
	r := map[string]*Obj{}
	last := func(s Slice, name string) {
		n, ok := s.len.(Lin)
		if !ok {
			return
		}
		x := elem(b.st, s.o.id, s.off.add(n, 1).add(lin(1), -1))
		if x == nil {
			return
		}
		if sv, ok := v.(Slice); ok {
			xs, ok := x.(Slice)
			if ok && xs.o == sv.o && sameV(xs.len, sv.len) {
				r[name] = s.o
			}
			return
		}
		if sameV(x, v) {
			r[name] = s.o
		}
	}
	for _, ev := range b.evs {
		if ev.Kind == "fset" {
			if s, ok := ev.Args[1].(Slice); ok {
				last(s, string(ev.Args[0].(Strv)))
			}
		}
	}
	for phi, nv := range b.phis {
		if s, ok := nv.(Slice); ok {
			if h, ok := b.st.top().env[phi].(Slice); ok && !sameV(h.len, s.len) {
				last(s, phi.Parent().Name()+"."+phi.Name())
			}
		}
	}
	return r
}

// grown gives the fields which an iteration makes longer.
func grown(b *bodyRec) map[string]bool {
	r := map[string]bool{}
	for _, ev := range b.evs {
		if ev.Kind == "fset" {
			if _, ok := ev.Args[1].(Slice); ok {
				r[string(ev.Args[0].(Strv))] = true
			}
		}
	}
	return r
}

// mapping is the literal which is entered for a number.
func (a *aigerR) mapping(evs []Event) []Event {
	var r []Event
	for _, ev := range evs {
		if ev.Kind == "set" && a.named(ev.Args[0].(Ptr).o) == "aigerReader.litMap" {
			r = append(r, ev)
		}
	}
	return r
}

// means is the literal which a number stands for.
func (a *aigerR) means(st *State, evs []Event, u Lin) (V, bool) {
	E := a.e.E
	x, odd, ok := half(u)
	if !ok {
		return nil, false
	}
	if E.eqLin(st, x, lin(0)) {
		if odd {
			return lin(2), true
		}
		return lin(3), true
	}
	for _, ev := range evs {
		if ev.Kind != "read" && ev.Kind != "set" || a.named(ev.Args[0].(Ptr).o) != "aigerReader.litMap" {
			continue
		}
		if i, ok := ev.Args[1].(Lin); !ok || !E.eqLin(st, i, x) {
			continue
		}
		m, ok := ev.Args[2].(Lin)
		if !ok || m.isConst() && m.c == 0 {
			return lin(0), true
		}
		if !odd {
			return m, true
		}
		v, neg, ok := half(m)
		if !ok {
			return nil, false
		}
		v = v.scale(2)
		if !neg {
			v = v.add(lin(1), 1)
		}
		return v, true
	}
	return nil, false
}

func (a *aigerR) reads(id string, seen map[string]bool) bool {
	if seen[id] {
		return false
	}
	seen[id] = true
	for _, b := range a.e.recs[id] {
		for _, ev := range b.evs {
			switch ev.Kind {
			case "in", "int", "delta", "input", "latch":
				return true
			case "loop":
				if a.reads(string(ev.Args[0].(Strv)), seen) {
					return true
				}
			}
		}
	}
	return false
}

func (a *aigerR) dump(outs []Outcome) {
	if os.Getenv("SA_DUMP") == "" {
		return
	}
	for _, id := range sortedKeys(a.e.recs) {
		for _, b := range a.e.recs[id] {
			fmt.Println("REC", id, b.evs)
		}
	}
	for _, o := range outs {
		if o.Kind == "return" {
			fmt.Println("OUT", o.Kind, o.Ret, o.St.events)
		} else if o.Kind != "back" {
			fmt.Println("OUT", o.Kind)
		}
	}
}

// file judges a reader of files.
func (a *aigerR) file(name string, binary bool) {
	r, e := a.r, a.e
	fn := a.P.Func(aigerPkg, name)
	r.Fn(fn)
	e.recs = map[string][]*bodyRec{}
	e.E.OnText = func(st *State, b, t V) { e.log(st, "text", b, t) }
	defer func() { e.E.OnText = nil }()
	outs := e.E.Run(newState(), fn, []V{Unk{"source"}}, nil)
	a.dump(outs)
	secs := sectionsOf(binary)
	num, bad := 0, map[string]bool{}
	lists := map[string]string{} // the list which a section is collected in
	roleOf := map[string]int{}   // of loops
	ob := func(rule, what string, why string) {
		k := rule + what + why
		if why != "" && bad[k] {
			return
		}
		bad[k] = why != ""
		num++
		r.Ob(rule, fmt.Sprintf("%s: %s %d", name, what, num), why == "", fn.Pos(), "%s", orElse(why, "as the format says"))
	}
	judged := map[string]bool{}
	good := 0
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		if _, isNil := o.Ret[1].(Nilv); !isNil {
			continue
		}
		good++
		if v, ok := o.St.mem[cellKey(Ptr{obj("hdr"), []pe{{f: fieldIndex(a.P, aigerPkg, "aigerHeader", "Binary")}}})]; !ok || v.v != V(Boolv(binary)) {
			ob("sections", "the kind of file", "the other kind of file is accepted")
		}
		var reading, rest []string
		for _, ev := range o.St.events {
			if ev.Kind == "loop" {
				id := string(ev.Args[0].(Strv))
				if a.reads(id, map[string]bool{}) {
					reading = append(reading, id)
				} else {
					rest = append(rest, id)
				}
			}
		}
		if len(reading) != len(secs) {
			ob("sections", "the sections", fmt.Sprintf("%d sections are read, there are %d", len(reading), len(secs)))
			continue
		}
		if sameV(o.Ret[0], Nilv{}) {
			ob("sections", "the result", "there is none")
		}
		for i, id := range reading {
			roleOf[id] = i + 1
			for _, b := range e.recs[id] {
				for _, ev := range evsOf(b.evs, "loop") {
					roleOf[string(ev.Args[0].(Strv))] = i + 1
				}
			}
			if judged[id] {
				continue
			}
			judged[id] = true
			if len(e.recs[id]) == 0 {
				ob("sections", secs[i].name, "no entry is ever read")
			}
			for _, b := range e.recs[id] {
				ob("sections", secs[i].name, a.section(o.St, b, &secs[i], binary, lists))
			}
		}
		done := map[string]bool{}
		for _, id := range rest {
			main := ""
			for _, b := range e.recs[id] {
				if what, _ := a.commit(o.St, b, binary, lists); what != "" {
					main = what
				}
			}
			for _, b := range e.recs[id] {
				what, why := a.commit(o.St, b, binary, lists)
				if what == "" {
					if main == "" {
						continue
					}
					what, why = main, "an entry is passed over"
				}
				if !judged[id] || why != "" {
					ob("results", what, why)
				}
				done[what] = true
			}
			judged[id] = true
		}
		want := []string{"T.Outputs", "T.Bad", "T.Constraints", "T.Justice", "T.Fair", "next states"}
		if !binary {
			want = append(want, "gates", "leaves In", "leaves Latch")
			ob("results", "the constant", a.constant(o.St))
		}
		for _, w := range want {
			if !done[w] {
				ob("results", w, "what was read is not passed on")
			}
		}
	}
	ob("sections", "accepted files", map[bool]string{true: "", false: "there are none"}[good > 0])
	for _, o := range outs {
		if o.Kind == "panic" {
			ob("refusals", "panics", "it may panic")
		}
		if o.Kind != "return" {
			continue
		}
		if _, isNil := o.Ret[1].(Nilv); isNil {
			ob("refusals", "errors", a.swallowed(o.St.events))
			continue
		}
		ob("refusals", "errors", a.excuse(o, secs, roleOf, binary))
	}
}

// constant tells what is missing for the constant to be an operand of gates.
func (a *aigerR) constant(st *State) string {
	marked := map[Strv]bool{}
	for _, ev := range st.events {
		switch ev.Kind {
		case "loop":
			for _, b := range a.e.recs[string(ev.Args[0].(Strv))] {
				if has(b.evs, "rec") && !(marked["aigAnd.defined"] && marked["aigAnd.mapped"]) {
					return "a gate whose operand is a constant is refused"
				}
			}
		case "gatefield":
			if a.named(ev.Args[0].(Ptr).o) == "aigerReader.AigAnds" && sameV(ev.Args[1], lin(0)) {
				marked[ev.Args[2].(Strv)] = ev.Args[3] == V(Boolv(true))
			}
		}
	}
	return ""
}

// swallowed tells of a failed read in an accepted file.
func (a *aigerR) swallowed(evs []Event) string {
	for _, ev := range evs {
		switch ev.Kind {
		case "interr", "deltaerr", "ioerr", "hdrerr", "recerr":
			return "a failed read is not reported"
		}
	}
	return ""
}

// excuse finds why a file is refused.
func (a *aigerR) excuse(o Outcome, secs []aigSection, roleOf map[string]int, binary bool) string {
	st, evs := o.St, o.St.events
	at, role, loop := -1, 0, ""
	for i, ev := range evs {
		switch ev.Kind {
		case "interr", "deltaerr", "ioerr", "eof", "hdrerr", "recerr":
			return ""
		case "loop":
			loop = string(ev.Args[0].(Strv))
			at, role = i, roleOf[loop]
		}
	}
	if at < 0 {
		// the kind of file
		if v, ok := st.mem[cellKey(Ptr{obj("hdr"), []pe{{f: fieldIndex(a.P, aigerPkg, "aigerHeader", "Binary")}}})]; ok && v.v == V(Boolv(!binary)) {
			return ""
		}
		return "a file is refused without a reason"
	}
	it := evs[at+1:]
	for _, ev := range it {
		// an undefined literal
		if ev.Kind == "read" && a.named(ev.Args[0].(Ptr).o) == "aigerReader.litMap" && sameV(ev.Args[2], lin(0)) && role == 0 {
			return ""
		}
	}
	if role == 0 {
		return "the results are refused without a reason"
	}
	s := secs[role-1]
	if s.name == "Symbols" {
		for _, ev := range it {
			if ev.Kind == "in" {
				c := ev.Args[0]
				if a.isNot(st, c, ' ') {
					after := false
					for _, x := range it {
						after = after || x.Kind == "int"
					}
					if after {
						return ""
					}
				}
			}
		}
		return "a name is refused without a reason"
	}
	_, departs, nums, why := a.entry(st, it, s.forms)
	if departs {
		return ""
	}
	if why != "" {
		return s.name + ": " + why
	}
	for i, v := range nums {
		if i >= len(s.roles) {
			break
		}
		switch s.roles[i] {
		case 'i':
			gs := []Lin{}
			if s.roles[0] == 'g' {
				gs = append(gs, nums[0].(Lin))
			} else {
				for _, c := range a.counters(loop) {
					gs = append(gs, a.hdr("In").add(c, 1).add(lin(1), 1).scale(2), a.hdr("In").add(c, 1).add(lin(2), 1).scale(2))
				}
			}
			for _, g := range gs {
				ok := true
				for _, x := range []Lin{lin(0), lin(1), g} {
					d := v.(Lin).add(x, -1)
					sg := a.e.E.sign(st, d)
					ok = ok && (sg == "+" || sg == "-" || st.notZero(d))
				}
				if ok {
					return ""
				}
			}
		case 'd':
			for _, id := range a.counters(loop) {
				x := id.add(nums[0].(Lin), -1)
				if i == 0 && (a.e.E.eqLin(st, v, lin(0)) || a.e.E.geq0(st, lin(-1).add(x, -1))) ||
					i == 1 && a.e.E.geq0(st, v.(Lin).add(x, -1).add(lin(1), -1)) {
					return ""
				}
			}
		default:
			if strings.HasPrefix(a.fits(st, it, v, s.roles[i], nums), "!") {
				return ""
			}
		}
	}
	if s.roles != "" && s.roles[0] == 'g' {
		for _, ev := range it {
			// defined before
			if ev.Kind == "read" && a.named(ev.Args[0].(Ptr).o) == "aigerReader.litMap" && !sameV(ev.Args[2], lin(0)) {
				return ""
			}
			if ev.Kind == "note" && ev.Args[0] == V(Strv("aigAnd.defined")) && ev.Args[2] == V(Boolv(true)) {
				return ""
			}
		}
		if a.isDefined(st, nums[0].(Lin)) {
			return ""
		}
	}
	return "an entry of " + s.name + " is refused without a reason"
}

// isDefined tells whether a gate was found to be defined before.
func (a *aigerR) isDefined(st *State, g Lin) bool {
	x, _, ok := half(g)
	if !ok {
		return false
	}
	f := fieldIndex(a.P, aigerPkg, "aigAnd", "defined")
	for _, c := range st.mem {
		if c.o != nil && a.named(c.o) == "aigerReader.AigAnds" && len(c.path) == 2 && c.path[0].f < 0 && c.path[1].f == f {
			if a.e.E.eqLin(st, c.path[0].idx, x) && c.v == V(Boolv(true)) {
				return true
			}
		}
	}
	return false
}

// counters are the variables of a loop.
func (a *aigerR) counters(id string) []Lin {
	var r []Lin
	for _, b := range a.e.recs[id] {
		for phi := range b.phis {
			if l, ok := b.st.top().env[phi].(Lin); ok {
				r = append(r, l)
			}
		}
		return r
	}
	return r
}

// section judges an entry.
func (a *aigerR) section(after *State, b *bodyRec, s *aigSection, binary bool, lists map[string]string) string {
	e, E, st := a.e, a.e.E, b.st
	if has(b.evs, "lost") {
		return "what is read is lost track of"
	}
	if s.name == "Symbols" {
		return a.symbol(b)
	}
	if why := a.swallowed(b.evs); why != "" {
		return why
	}
	if has(b.evs, "eof") {
		return "it goes on after the end"
	}
	if s.name == "JusticeLits" {
		return a.justice(after, b, lists)
	}
	complete, _, nums, why := a.entry(st, b.evs, s.forms)
	switch {
	case why != "":
		return why
	case !complete:
		return "an entry is accepted which is not complete or is malformed"
	}
	for i, v := range nums {
		if i < len(s.roles) && strings.IndexByte("lgc", s.roles[i]) >= 0 {
			if w := a.fits(st, b.evs, v, s.roles[i], nums); w != "" {
				return strings.TrimPrefix(w, "!")
			}
		}
	}
	if w := e.counts(after, b, a.hdr(s.count)); w != "" {
		return w
	}
	// what it is collected in
	collect := func(v V, key string) string {
		got := a.appended(b, v)
		for n := range got {
			if strings.HasPrefix(n, "T.") {
				continue
			}
			if lists[key] == "" || lists[key] == n {
				lists[key] = n
				for phi := range b.phis {
					if h, ok := b.st.top().env[phi].(Slice); ok && phi.Parent().Name()+"."+phi.Name() == n {
						a.heads = append(a.heads, [2]string{key, h.o.id})
					}
				}
				return a.fresh(after, b, n)
			}
		}
		return fmt.Sprintf("the number %v is not kept", v)
	}
	node := func(kind string) (V, string) {
		ns := evsOf(b.evs, kind)
		if len(ns) != 1 || len(evsOf(b.evs, "input"))+len(evsOf(b.evs, "latch"))+len(evsOf(b.evs, "and")) != 1 {
			return nil, fmt.Sprintf("an entry makes %d nodes", len(ns))
		}
		return ns[0].Args[0], ""
	}
	define := func(g Lin, m V) string {
		x, _, ok := half(g)
		ms := a.mapping(b.evs)
		if !ok || len(ms) != 1 {
			return fmt.Sprintf("an entry defines %d variables", len(ms))
		}
		i, ok := ms[0].Args[1].(Lin)
		if !ok || !E.eqLin(st, i, x) {
			return fmt.Sprintf("the number %v is defined instead of %v", ms[0].Args[1], x)
		}
		if !sameV(ms[0].Args[2], m) {
			return fmt.Sprintf("the number %v becomes %v", g, ms[0].Args[2])
		}
		return ""
	}
	cnt := func() (Lin, string) {
		// the number of the entry
		for phi := range b.phis {
			hv, ok := st.top().env[phi].(Lin)
			if !ok {
				continue
			}
			for c := int64(0); c < 2; c++ {
				if e.covers(after, b, hv.add(lin(c), 1), a.hdr(s.count)) == "" {
					return hv.add(lin(c), 1), ""
				}
			}
		}
		return Lin{}, "the number of the entry is not found"
	}
	// variables are defined once
	if s.roles != "" && s.roles[0] == 'g' {
		x, _, _ := half(nums[0].(Lin))
		if why := a.once(after, b, x, s.name == "And"); why != "" {
			return why
		}
	}
	switch s.name {
	case "In":
		m, why := node("input")
		if why != "" {
			return why
		}
		if a.appended(b, m)["T.Inputs"] == nil {
			return "an input is not among the inputs"
		}
		if w := a.fresh(after, b, "T.Inputs"); w != "" {
			return w
		}
		if !binary {
			if w := define(nums[0].(Lin), m); w != "" {
				return w
			}
			return collect(nums[0], "In")
		}
		i, why := cnt()
		if why != "" {
			return why
		}
		return define(i.add(lin(1), 1).scale(2), m)
	case "Latch":
		m, why := node("latch")
		if why != "" {
			return why
		}
		var g Lin
		if binary {
			i, why := cnt()
			if why != "" {
				return why
			}
			g = i.add(a.hdr("In"), 1).add(lin(1), 1).scale(2)
		} else {
			g = nums[0].(Lin)
			nums = nums[1:]
			if w := collect(g, "Latch"); w != "" {
				return w
			}
		}
		if w := define(g, m); w != "" {
			return w
		}
		if w := collect(nums[0], "Next"); w != "" {
			return w
		}
		want := lin(3)
		if len(nums) > 1 {
			v := nums[1].(Lin)
			switch {
			case E.eqLin(st, v, lin(0)):
			case E.eqLin(st, v, lin(1)):
				want = lin(2)
			case E.eqLin(st, v, g):
				want = lin(0)
			default:
				return fmt.Sprintf("the initial value %v of the latch %v is accepted", v, g)
			}
		}
		var got V
		for _, ev := range b.evs {
			if ev.Kind == "latch" {
				got = ev.Args[1]
			}
			if ev.Kind == "SetInit" {
				if !sameV(ev.Args[0], m) {
					return "the initial value of another latch is set"
				}
				got = ev.Args[1]
			}
		}
		if !sameV(got, want) {
			return fmt.Sprintf("with the numbers %v the initial value becomes %v", nums, got)
		}
		return ""
	case "Out", "Bad", "Constraint", "Fair", "Justice":
		return collect(nums[0], s.name)
	case "And":
		if !binary {
			return a.asciiAnd(b, nums)
		}
		m, why := node("and")
		if why != "" {
			return why
		}
		ms := a.mapping(b.evs)
		if len(ms) != 1 {
			return fmt.Sprintf("an entry defines %d variables", len(ms))
		}
		x, ok := ms[0].Args[1].(Lin)
		if !ok || !sameV(ms[0].Args[2], m) {
			return fmt.Sprintf("the gate %v is entered as %v", m, ms[0].Args[2])
		}
		f, ok1 := firstOf(st, x)
		nx, ok2 := E.nextLin(st, b.phis, x)
		// a variable which goes by two
		for phi, nv := range b.phis {
			if hv, ok := st.top().env[phi].(Lin); ok && sameV(hv, x.scale(2)) {
				if n, ok := nv.(Lin); ok && n.divisible(2) && n.c%2 == 0 {
					nx, ok2 = divLin(n, 2), true
					f, ok1 = st.kept("init:" + phi.Parent().Name() + "." + phi.Name() + "/2").(Lin)
				}
			}
		}
		if !ok1 || !E.eqLin(st, f, a.hdr("In").add(a.hdr("Latch"), 1).add(lin(1), 1)) {
			return fmt.Sprintf("the first gate is number %v", f)
		}
		if !ok2 || !E.eqLin(st, nx, x.add(lin(1), 1)) {
			return fmt.Sprintf("after gate number %v comes %v", x, nx)
		}
		d0, d1 := nums[0].(Lin), nums[1].(Lin)
		c0 := x.scale(2).add(d0, -1)
		c1 := c0.add(d1, -1)
		if !E.geq0(st, d0.add(lin(1), -1)) || !E.geq0(st, c0) || !E.geq0(st, c1) {
			return "a gate is accepted whose operands are out of order"
		}
		w0, ok0 := a.means(st, b.evs, c0)
		w1, ok3 := a.means(st, b.evs, c1)
		and := evsOf(b.evs, "and")[0]
		if !ok0 || !ok3 {
			return fmt.Sprintf("the operands %v and %v are not looked up", c0, c1)
		}
		if !(sameV(and.Args[1], w0) && sameV(and.Args[2], w1) || sameV(and.Args[1], w1) && sameV(and.Args[2], w0)) {
			return fmt.Sprintf("the gate has the operands %v and %v, not %v and %v", and.Args[1], and.Args[2], w0, w1)
		}
	}
	return ""
}

// once tells what is missing for a variable to be defined only once.
func (a *aigerR) once(after *State, b *bodyRec, x Lin, gate bool) string {
	E, st := a.e.E, b.st
	free, new := false, false
	for _, ev := range b.evs {
		switch ev.Kind {
		case "read":
			if i, ok := ev.Args[1].(Lin); ok && a.named(ev.Args[0].(Ptr).o) == "aigerReader.litMap" && E.eqLin(st, i, x) && sameV(ev.Args[2], lin(0)) {
				free = true
			}
		case "was":
			if i, ok := ev.Args[0].(Lin); ok && E.eqLin(st, i, x) && ev.Args[1] == V(Boolv(false)) {
				new = true
			}
		}
	}
	if !gate {
		if !free {
			return "a variable may be defined again"
		}
		return ""
	}
	if !new {
		return "a gate may be defined again"
	}
	if !free {
		// unless what is there is marked before
		n := 0
		for _, ev := range after.events {
			if ev.Kind != "loop" {
				continue
			}
			id := string(ev.Args[0].(Strv))
			for _, r := range a.e.recs[id] {
				if r == b {
					if n < 2 {
						return "a gate may be defined which is an input or a latch"
					}
					return ""
				}
				for _, c := range r.st.mem {
					if c.o != nil && a.named(c.o) == "aigerReader.AigAnds" && len(c.path) == 2 && c.path[1].f == fieldIndex(a.P, aigerPkg, "aigAnd", "mapped") && c.v == V(Boolv(true)) && !has(r.evs, "rec") {
						n++
						break
					}
				}
			}
		}
	}
	return ""
}

// fresh tells that a list was empty before the loop.
func (a *aigerR) fresh(after *State, b *bodyRec, name string) string {
	t, ok := b.st.kept("lp:" + b.hdr.Parent().String() + "." + b.hdr.String()).(Tuple)
	if !ok {
		return ""
	}
	n := t[1].(Lin).c
	var last V
	for i, ev := range b.st.events {
		if int64(i) < n && ev.Kind == "fset" && ev.Args[0] == V(Strv(name)) {
			last = ev.Args[1]
		}
	}
	if s, ok := last.(Slice); ok && !sameV(s.len, lin(0)) {
		return "the list " + name + " is not empty in the beginning"
	}
	return ""
}

// symbol judges an entry of the symbol table.
func (a *aigerR) symbol(b *bodyRec) string {
	st := b.st
	if why := a.swallowed(b.evs); why != "" {
		return why
	}
	if has(b.evs, "eof") {
		return "it goes on after the end"
	}
	in, ints, lines, maps := evsOf(b.evs, "in"), evsOf(b.evs, "int"), evsOf(b.evs, "line"), evsOf(b.evs, "map")
	if len(in) == 0 {
		return "" // comments
	}
	kind := in[0].Args[0]
	known := false
	for _, c := range []byte("ilobcjf") {
		known = known || a.is(st, kind, c)
	}
	if !known {
		for _, c := range []byte("ilobcjf") {
			if !a.isNot(st, kind, c) {
				return "a kind of name is not looked at"
			}
		}
		if len(maps) > 0 {
			return "something else is taken for a name"
		}
		return ""
	}
	if len(ints) != 1 || len(lines) != 1 || len(maps) != 1 {
		return fmt.Sprintf("an entry enters %d names", len(maps))
	}
	rest := in[1:]
	if a.is(st, kind, 'c') {
		if len(rest) != 2 || !has(b.evs, "unread") || !a.isNot(st, rest[0].Args[0], '\n') {
			return "the name of a constraint is not told from a comment"
		}
		rest = rest[1:]
	} else if has(b.evs, "unread") {
		return "a byte is read twice"
	}
	if len(rest) != 1 || !a.is(st, rest[0].Args[0], ' ') {
		return "the blank before a name is not looked at"
	}
	if !sameV(lines[0].Args[1], lin('\n')) {
		return "a name does not go to the end of the line"
	}
	m, ok := maps[0].Args[0].(Tuple)
	if !ok || len(m) != 3 || !sameV(m[2], kind) {
		return fmt.Sprintf("a name is entered into %v, its kind is %v", maps[0].Args[0], kind)
	}
	if !sameV(maps[0].Args[1], ints[0].Args[0]) {
		return fmt.Sprintf("name number %v is entered as %v", ints[0].Args[0], maps[0].Args[1])
	}
	line := lines[0].Args[0].(Slice)
	n := line.len.(Lin)
	name := maps[0].Args[2]
	for _, ev := range evsOf(b.evs, "text") {
		if sameV(ev.Args[1], name) {
			name = ev.Args[0]
		}
	}
	if s, ok := name.(Slice); ok {
		if s.o != line.o || !sameV(s.off, line.off) || !sameV(s.len, n.add(lin(1), -1)) {
			return "a name is not entered as it is written"
		}
	}
	return ""
}

// justice judges the literals of a justice property.
func (a *aigerR) justice(after *State, b *bodyRec, lists map[string]string) string {
	e, E, st := a.e, a.e.E, b.st
	// the number of literals
	var c, idx Lin
	found := false
	for _, ev := range b.evs {
		if ev.Kind == "read" {
			if v, ok := ev.Args[2].(Lin); ok {
				c, idx, found = v, ev.Args[1].(Lin), true
				break
			}
		}
	}
	if !found {
		return "the number of literals is not looked at"
	}
	if w := e.counts(after, b, a.hdr("Justice")); w != "" {
		// counted by the list of the counts
		if f, ok := firstOf(st, idx); !ok || !E.eqLin(st, f, lin(0)) {
			return w
		}
		if nx, ok := E.nextLin(st, b.phis, idx); !ok || !E.eqLin(st, nx, idx.add(lin(1), 1)) {
			return w
		}
	}
	inner := evsOf(b.evs, "loop")
	if len(inner) != 1 {
		return "the literals are not read in one loop"
	}
	var list Slice
	for _, n := range e.recs[string(inner[0].Args[0].(Strv))] {
		complete, _, nums, why := a.entry(n.st, n.evs, []string{"N\n"})
		switch {
		case why != "":
			return why
		case a.swallowed(n.evs) != "":
			return a.swallowed(n.evs)
		case has(n.evs, "eof"):
			return "it goes on after the end"
		case !complete:
			return "an entry is accepted which is not complete or is malformed"
		}
		if w := a.fits(n.st, n.evs, nums[0], 'l', nums); w != "" {
			return strings.TrimPrefix(w, "!")
		}
		if w := e.counts(st, n, c); w != "" {
			return w
		}
		ok := false
		for phi, nv := range n.phis {
			if s, o := nv.(Slice); o {
				if h, o := n.st.top().env[phi].(Slice); o && !sameV(h.len, s.len) {
					l := s.len.(Lin)
					if x := elem(n.st, s.o.id, s.off.add(l, 1).add(lin(1), -1)); x != nil && sameV(x, nums[0]) {
						ok, list = true, h
					}
				}
			}
		}
		if !ok {
			for _, ev := range n.evs {
				// entered at its number
				if ev.Kind == "set" && sameV(ev.Args[2], nums[0]) {
					if i, o := ev.Args[1].(Lin); o && e.covers(st, n, i, c) == "" {
						ok, list = true, Slice{o: ev.Args[0].(Ptr).o}
					}
				}
			}
		}
		if !ok {
			return "a literal is not kept"
		}
	}
	// the property
	kept, sized := false, false
	for _, ev := range b.evs {
		switch ev.Kind {
		case "fset":
			if s, ok := ev.Args[1].(Slice); ok && !strings.HasPrefix(string(ev.Args[0].(Strv)), "T.") {
				l, _ := s.len.(Lin)
				if x, ok := elem(st, s.o.id, s.off.add(l, 1).add(lin(1), -1)).(Slice); ok && list.o != nil && x.o.id == list.o.id {
					kept = true
					lists["JusticeLits"] = string(ev.Args[0].(Strv))
				}
			}
		case "set":
			if a.named(ev.Args[0].(Ptr).o) == "T.Justice" {
				i, ok1 := ev.Args[1].(Lin)
				s, ok2 := ev.Args[2].(Slice)
				if !ok1 || !ok2 || !E.eqLin(st, i, idx) {
					return "the property has another number"
				}
				l, _ := s.len.(Lin)
				sized = sized || E.eqLin(st, l, c) || list.len != nil && sameV(l, list.len)
			}
		}
	}
	switch {
	case !kept:
		return "the literals of a property are not kept"
	case !sized:
		return "there is no place for the literals of a property"
	}
	return ""
}

// asciiAnd judges the definition of a gate.
func (a *aigerR) asciiAnd(b *bodyRec, nums []V) string {
	g, _, ok := half(nums[0].(Lin))
	if !ok {
		return "the number of a gate is not followed"
	}
	st, E := b.st, a.e.E
	get := func(path ...pe) V {
		for _, c := range st.mem {
			if c.o == nil || a.named(c.o) != "aigerReader.AigAnds" || len(c.path) != len(path)+1 || c.path[0].f >= 0 || !E.eqLin(st, c.path[0].idx, g) {
				continue
			}
			same := true
			for i, p := range path {
				q := c.path[i+1]
				same = same && p.f == q.f && (p.f >= 0 || E.eqLin(st, p.idx, q.idx))
			}
			if same {
				return c.v
			}
		}
		return nil
	}
	f := func(n string) pe { return pe{f: fieldIndex(a.P, aigerPkg, "aigAnd", n)} }
	if get(f("defined")) != V(Boolv(true)) {
		return "the gate is not marked as defined"
	}
	for i := int64(0); i < 2; i++ {
		o0, o1 := get(f("children"), pe{f: -1, idx: lin(i)}), nums[i+1]
		if o0 == nil || !sameV(o0, o1) {
			return fmt.Sprintf("operand %d of the gate is %v, not %v", i, o0, o1)
		}
	}
	return ""
}

// pastAll tells whether an index is behind all elements of a table which is kept
// somewhere.
func pastAll(E *Interp, st *State, o *Obj, i Lin) bool {
	ok := false
	for _, k := range sortedKeys(st.mem) {
		if s, isS := st.mem[k].v.(Slice); isS && s.o == o && st.mem[k].o != nil {
			n, isL := s.len.(Lin)
			if !isL || !E.geq0(st, i.add(n, -1)) {
				return false
			}
			ok = true
		}
	}
	return ok
}

// commit judges a loop which passes on what was read.
func (a *aigerR) commit(after *State, b *bodyRec, binary bool, lists map[string]string) (string, string) {
	e, E, st := a.e, a.e.E, b.st
	// a list which a function collects and gives back has the name of what it is
	// put into
	for _, h := range a.heads {
		if f := a.origin[h[1]]; f != "" {
			lists[h[0]] = f
		}
	}
	// the list it goes over
	over := func(name string, n *bodyRec, fin *State) (V, Lin, string) {
		for _, ev := range n.evs {
			if ev.Kind == "read" && a.named(ev.Args[0].(Ptr).o) == name {
				i := ev.Args[1].(Lin)
				o := ev.Args[0].(Ptr).o
				nx, ok := E.nextLin(n.st, n.phis, i)
				f, ok2 := firstOf(n.st, i)
				ln := linSym(&Sym{id: "len(" + o.id + ")", lo: i64(0)})
				switch {
				case !ok || !E.eqLin(n.st, nx, i.add(lin(1), 1)) || !ok2 || !E.eqLin(n.st, f, lin(0)):
					return nil, i, fmt.Sprintf("after number %v comes %v", i, nx)
				case !E.geq0(fin, i.add(ln, -1)) && !pastAll(E, fin, o, i):
					return nil, i, "it may end early"
				}
				return ev.Args[2], i, ""
			}
		}
		return nil, Lin{}, "it does not go over " + name
	}
	if ev := evsOf(b.evs, "SetNext"); len(ev) > 0 {
		what := "next states"
		u, i, why := over(lists["Next"], b, after)
		if why != "" {
			return what, why
		}
		if len(ev) != 1 {
			return what, "more than one next state is set"
		}
		// the latch
		var m V
		ok := false
		if binary {
			for _, n := range []Lin{a.hdr("In"), linSym(&Sym{id: "?"})} {
				if n.t[0].s.id == "?" {
					// as many as there are inputs
					for _, c := range st.mem {
						if s, o := c.v.(Slice); o && c.o != nil && a.named(s.o) == "T.Inputs" {
							if l, o := s.len.(Lin); o {
								n = l
							}
						}
					}
				}
				if !ok {
					m, ok = a.means(st, b.evs, n.add(i, 1).add(lin(1), 1).scale(2))
				}
			}
		} else {
			var w string
			var g V
			var j Lin
			g, j, w = over(lists["Latch"], b, after)
			if g == nil || !E.eqLin(st, i, j) {
				// indexed by the number of the next state
				for _, x := range b.evs {
					if x.Kind == "read" && a.named(x.Args[0].(Ptr).o) == lists["Latch"] && E.eqLin(st, x.Args[1].(Lin), i) {
						g, w = x.Args[2], ""
					}
				}
			}
			if w != "" || g == nil {
				return what, "the latch is not looked up: " + w
			}
			m, ok = a.means(st, b.evs, g.(Lin))
		}
		if !ok || !sameV(m, ev[0].Args[0]) {
			return what, fmt.Sprintf("the next state of %v is set", ev[0].Args[0])
		}
		n, ok := a.means(st, b.evs, u.(Lin))
		if !ok || sameV(n, lin(0)) || !sameV(n, ev[0].Args[1]) {
			return what, fmt.Sprintf("the next state %v is set to %v", u, ev[0].Args[1])
		}
		return what, ""
	}
	if what, why := a.marks(after, b, lists); what != "" {
		return what, why
	}
	longer := grown(b)
	names := map[string]string{}
	for phi, nv := range b.phis {
		// a list which becomes the field afterwards
		s, ok := nv.(Slice)
		h, ok2 := st.top().env[phi].(Slice)
		if !ok || !ok2 || sameV(h.len, s.len) {
			continue
		}
		n := 0
		if t, ok := st.kept("lp:" + b.hdr.Parent().String() + "." + b.hdr.String()).(Tuple); ok {
			n = int(t[1].(Lin).c)
		}
		for i, ev := range after.events {
			if i < n || ev.Kind != "fset" {
				continue
			}
			if x, ok := ev.Args[1].(Slice); ok && x.o == h.o && sameV(x.len, h.len) {
				f := string(ev.Args[0].(Strv))
				longer[f], names[f] = true, phi.Parent().Name()+"."+phi.Name()
			}
		}
	}
	for f, sec := range map[string]string{"T.Outputs": "Out", "T.Bad": "Bad", "T.Constraints": "Constraint", "T.Fair": "Fair"} {
		if !longer[f] {
			continue
		}
		u, _, why := over(lists[sec], b, after)
		if why != "" {
			return f, why
		}
		n, ok := a.means(st, b.evs, u.(Lin))
		if !ok || sameV(n, lin(0)) || a.appended(b, n)[orElse(names[f], f)] == nil {
			return f, fmt.Sprintf("the number %v is not passed on as %v", u, n)
		}
		return f, a.fresh(after, b, f)
	}
	// justice
	inner := evsOf(b.evs, "loop")
	if len(inner) == 1 && lists["JusticeLits"] != "" {
		f := "T.Justice"
		_, i, why := over(lists["JusticeLits"], b, after)
		if why != "" {
			return "", ""
		}
		for _, n := range e.recs[string(inner[0].Args[0].(Strv))] {
			u, j, why := over(lists["JusticeLits"]+"[]", n, st)
			if why != "" {
				return f, why
			}
			w, ok := a.means(n.st, n.evs, u.(Lin))
			if !ok || sameV(w, lin(0)) {
				return f, fmt.Sprintf("the number %v is not looked up", u)
			}
			set := false
			for _, ev := range n.evs {
				if ev.Kind == "set" && a.named(ev.Args[0].(Ptr).o) == "T.Justice[]" && sameV(ev.Args[2], w) && sameV(ev.Args[1], j) {
					for _, x := range append(append([]Event(nil), b.evs...), n.evs...) {
						if x.Kind == "read" && a.named(x.Args[0].(Ptr).o) == "T.Justice" && E.eqLin(n.st, x.Args[1].(Lin), i) {
							if s, ok := x.Args[2].(Slice); ok && s.o == ev.Args[0].(Ptr).o {
								set = true
							}
						}
					}
				}
			}
			if !set {
				return f, fmt.Sprintf("the number %v is not passed on as %v", u, w)
			}
		}
		return f, ""
	}
	return "", ""
}

// cellOf gives what a field of a gate holds.
func (a *aigerR) gateField(st *State, i Lin, f string) V {
	n := fieldIndex(a.P, aigerPkg, "aigAnd", f)
	for _, c := range st.mem {
		if c.o != nil && a.named(c.o) == "aigerReader.AigAnds" && len(c.path) == 2 && c.path[0].f < 0 && c.path[1].f == n && a.e.E.eqLin(st, c.path[0].idx, i) {
			return c.v
		}
	}
	return nil
}

// marks judges the loops which make the gates of a file.
func (a *aigerR) marks(after *State, b *bodyRec, lists map[string]string) (string, string) {
	E, st := a.e.E, b.st
	t, _ := st.kept("lp:" + b.hdr.Parent().String() + "." + b.hdr.String()).(Tuple)
	gates := false
	if len(t) > 0 {
		for _, x := range a.e.recs[string(t[0].(Strv))] {
			gates = gates || has(x.evs, "rec")
		}
	}
	if gates {
		what := "gates"
		if has(b.evs, "recerr") {
			return what, "a failure is not reported"
		}
		// the number of the gate
		var idx Lin
		found := false
		for phi, nv := range b.phis {
			if h, ok := st.top().env[phi].(Lin); ok && len(h.t) == 1 && h.t[0].k == 1 {
				for c := int64(0); c < 2 && !found; c++ {
					i := h.add(lin(c), 1)
					if n, ok := nv.(Lin); ok && E.eqLin(st, n, h.add(lin(1), 1)) {
						if f, ok := firstOf(st, i); ok && f.isConst() && (f.c == 0 || f.c == 1) {
							idx, found = i, true
						}
					}
				}
			}
		}
		if !found {
			return what, "the gates are not gone through one by one"
		}
		if !E.geq0(after, idx.add(a.hdr("Max"), -1).add(lin(1), -1)) {
			return what, "it may end before the last gate"
		}
		rec := evsOf(b.evs, "rec")
		if len(rec) == 0 {
			if a.gateField(st, idx, "defined") == V(Boolv(false)) || a.gateField(st, idx, "mapped") == V(Boolv(true)) {
				return what, ""
			}
			return what, "a gate is left out"
		}
		p, ok := rec[0].Args[0].(Ptr)
		n, ok2 := rec[0].Args[1].(Lin)
		if len(rec) != 1 || !ok || !ok2 || a.named(p.o) != "aigerReader.AigAnds" || len(p.path) != 1 || !E.eqLin(st, p.path[0].idx, idx) || !E.eqLin(st, n, idx.scale(2)) {
			return what, fmt.Sprintf("for the gate %v it makes %v", idx, rec[0].Args)
		}
		if a.gateField(st, idx, "defined") != V(Boolv(true)) || a.gateField(st, idx, "mapped") != V(Boolv(false)) {
			return what, "something which is not a gate of the file is made"
		}
		return what, ""
	}
	for _, sec := range []string{"In", "Latch"} {
		for _, ev := range b.evs {
			if ev.Kind != "read" || a.named(ev.Args[0].(Ptr).o) != lists[sec] {
				continue
			}
			u, ok := ev.Args[2].(Lin)
			if !ok {
				continue
			}
			x, _, ok := half(u)
			if !ok || a.gateField(st, x, "defined") == nil && a.gateField(st, x, "mapped") == nil {
				continue
			}
			what := "leaves " + sec
			if a.gateField(st, x, "defined") != V(Boolv(true)) || a.gateField(st, x, "mapped") != V(Boolv(true)) {
				return what, "it is not marked as being there"
			}
			i := ev.Args[1].(Lin)
			nx, ok := E.nextLin(st, b.phis, i)
			f, ok2 := firstOf(st, i)
			ln := linSym(&Sym{id: "len(" + ev.Args[0].(Ptr).o.id + ")", lo: i64(0)})
			switch {
			case !ok || !E.eqLin(st, nx, i.add(lin(1), 1)) || !ok2 || !E.eqLin(st, f, lin(0)):
				return what, fmt.Sprintf("after number %v comes %v", i, nx)
			case !E.geq0(after, i.add(ln, -1)):
				return what, "it may end early"
			}
			return what, ""
		}
	}
	return "", ""
}

// number judges the reader of numbers.
func (a *aigerR) number() {
	r, e := a.r, a.e
	fn := a.P.Func(aigerPkg, "readUint")
	r.Fn(fn)
	E := e.E
	e.recs = map[string][]*bodyRec{}
	more, havoc := a.More, E.Havoc
	a.More = nil
	flag := map[string]bool{}
	E.Havoc = func(st *State, phi *ssa.Phi, init V) (bool, []Opt) {
		ok, os := havoc(st, phi, init)
		if b, isB := phi.Type().(*types.Basic); isB && b.Kind() == types.Bool && !ok {
			id := "flag:" + phi.Name()
			flag[id] = true
			s2 := st.clone()
			st.keep(id, Tuple{init, Boolv(true)})
			s2.keep(id, Tuple{init, Boolv(false)})
			return true, []Opt{{st, Boolv(true)}, {s2, Boolv(false)}}
		}
		return ok, os
	}
	defer func() { a.More, E.Havoc = more, havoc }()
	outs := E.Run(newState(), fn, []V{Unk{"rdr"}}, nil)
	a.dump(outs)
	folds := map[string]bool{}
	bad := func(why string) { r.Ob("number", "iteration", false, fn.Pos(), "%s", why) }
	turned := map[string]V{}
	n := 0
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			n++
			in := evsOf(b.evs, "in")
			if len(in) != 1 || has(b.evs, "unread") || has(b.evs, "lost") || has(b.evs, "eof") || has(b.evs, "ioerr") {
				bad(fmt.Sprintf("an iteration takes %d bytes", len(in)))
				continue
			}
			c := in[0].Args[0]
			if !a.between(b.st, c, '0', '9') {
				bad(fmt.Sprintf("it goes on after the byte %v", c))
				continue
			}
			ok := false
			for phi, nv := range b.phis {
				if _, isB := nv.(Boolv); isB {
					id := "flag:" + phi.Name()
					if x, o := turned[id]; o && x != nv {
						nv = Nilv{}
					}
					turned[id] = nv
				}
				hv, ok1 := b.st.top().env[phi].(Lin)
				nl, ok2 := nv.(Lin)
				if !ok1 || !ok2 || len(hv.t) != 1 || !E.eqLin(b.st, nl, hv.scale(10).add(c.(Lin), 1).add(lin('0'), -1)) {
					continue
				}
				ok = true
				folds[hv.String()] = true
				if !E.geq0(b.st, lin((1<<63-1)/10*2).add(hv, -1)) {
					bad("the value may wrap around")
				}
			}
			if !ok {
				bad("no variable takes the digit in")
			}
		}
	}
	r.Ob("number", "iterations", n > 0, fn.Pos(), "%d kinds of iteration: a digit is appended to the value", n)
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st, why := o.St, ""
		var first, last V
		eof, ioerr, looped, given := false, false, false, false
		for _, ev := range st.events {
			switch ev.Kind {
			case "loop":
				looped = true
			case "in":
				last = ev.Args[0]
				given = false
				if !looped && first == nil && a.between(st, last, '0', '9') {
					first = last
				}
			case "unread":
				given = true
			case "eof":
				eof = true
			case "ioerr":
				ioerr = true
			}
		}
		// whether there was a digit
		some, none := first != nil, !looped && first == nil
		for id := range flag {
			t, ok := st.kept(id).(Tuple)
			if !ok || turned[id] == nil || turned[id] == t[0] {
				continue
			}
			if t[1] == turned[id] {
				some = true
			} else {
				none = true
			}
		}
		_, isNil := o.Ret[1].(Nilv)
		overflow := false
		for k := range folds {
			for _, f := range st.facts {
				if len(f.t) == 1 && f.t[0].k > 0 && f.t[0].s.id == k && -f.c > 1<<31 {
					overflow = true
				}
			}
		}
		switch {
		case some && none:
			continue // contradictory
		case isNil:
			v, ok := o.Ret[0].(Lin)
			switch {
			case ioerr:
				why = "a failed read is not reported"
			case !some:
				why = "it may give a number without a digit"
			case !eof && (!given || !a.outside(st, last, '0', '9')):
				why = "it does not end at the first byte which is no digit, or takes it"
			case !ok:
				why = fmt.Sprintf("it gives %v", o.Ret[0])
			case !looped:
				if !E.eqLin(st, v, first.(Lin).add(lin('0'), -1)) {
					why = fmt.Sprintf("a single digit gives %v", v)
				}
			case !folds[v.String()]:
				why = fmt.Sprintf("it gives %v", v)
			default:
				want := lin(0)
				if first != nil {
					want = first.(Lin).add(lin('0'), -1)
				}
				if f, ok := firstOf(st, v); !ok || !E.eqLin(st, f, want) {
					why = fmt.Sprintf("the number begins with %v", f)
				}
			}
		case eof || ioerr:
		case overflow:
		case some || last == nil || !a.outside(st, last, '0', '9'):
			why = "it rejects a number"
		}
		r.Ob("number", fmt.Sprintf("return %d", i+1), why == "", fn.Pos(), "%s", orElse(why, "as the format says"))
	}
}

// header judges the reader of headers.
func (a *aigerR) header() {
	r, e := a.r, a.e
	fn := a.P.Func(aigerPkg, "readHeader")
	r.Fn(fn)
	E := e.E
	e.recs = map[string][]*bodyRec{}
	load := E.Load
	E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if n := len(p.path); n > 0 && p.path[n-1].f < 0 && types.Identical(t, types.Typ[types.Uint]) {
			st.seq++
			s := linSym(&Sym{id: fmt.Sprintf("count[%v]#%d", p.path[n-1].idx, st.seq), lo: i64(0), hi: i64(1 << 40)})
			e.log(st, "count", p.path[n-1].idx, s)
			return one1(st, s)
		}
		return load(st, p, key, t)
	}
	E.OnText = func(st *State, b, t V) { e.log(st, "word", t) }
	defer func() { E.Load, E.OnText = load, nil }()
	outs := E.Run(newState(), fn, []V{Unk{"rdr"}}, nil)
	a.dump(outs)
	num := 0
	ob := func(what, why string) {
		num++
		r.Ob("header", fmt.Sprintf("%s %d", what, num), why == "", fn.Pos(), "%s", orElse(why, "as the format says"))
	}
	// what counts the numbers
	index := map[string]bool{}
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			if !has(b.evs, "int") {
				continue
			}
			for _, ev := range evsOf(b.evs, "set") {
				if l, ok := ev.Args[1].(Lin); ok && len(l.t) == 1 {
					index[l.t[0].s.id] = true
				}
			}
		}
	}
	var flags []*ssa.Phi
	flip := map[*ssa.Phi][2]V{}
	for _, id := range sortedKeys(e.recs) {
		numbers := a.reads(id, map[string]bool{})
		for _, b := range e.recs[id] {
			if has(b.evs, "interr") {
				ob("iteration", "a failed read is not reported")
				continue
			}
			if !numbers || !has(b.evs, "int") && !has(b.evs, "in") {
				continue
			}
			if !has(b.evs, "int") && len(index) > 0 && a.wordLoop(id) {
				continue
			}
			shape, why := "", ""
			var v V
			for _, ev := range b.evs {
				switch ev.Kind {
				case "in":
					shape += " "
					if !a.is(b.st, ev.Args[0], ' ') {
						why = "numbers are separated by something else than a blank"
					}
				case "int":
					shape += "N"
					v = ev.Args[0]
				case "eof", "ioerr", "interr", "lost":
					why = "a failed read is not reported"
				}
			}
			var i Lin
			sets := evsOf(b.evs, "set")
			if v != nil {
				ok := len(sets) == 1 && sameV(sets[0].Args[2], v)
				if ok {
					i, ok = sets[0].Args[1].(Lin)
				}
				if !ok {
					why = "a number is not kept"
				} else if nx, o := E.nextLin(b.st, b.phis, i); !o || !E.eqLin(b.st, nx, i.add(lin(1), 1)) {
					why = "numbers are kept in the same place"
				} else if f, o := firstOf(b.st, i); !o || !E.eqLin(b.st, f, lin(0)) {
					why = fmt.Sprintf("the first is number %v", f)
				} else if !E.geq0(b.st, lin(8).add(i, -1)) {
					why = "there may be too many numbers"
				}
			} else if len(sets) > 0 {
				why = "something else is kept"
			}
			switch shape {
			case " N":
			case " ", "N":
				k := strings.Index(" N", shape)
				found := false
				for phi, nv := range b.phis {
					hv := b.st.top().env[phi]
					_, b1 := hv.(Boolv)
					_, b2 := nv.(Boolv)
					if b1 && b2 && hv != nv {
						found = true
						f := flip[phi]
						f[k] = hv
						flip[phi] = f
						flags = append(flags, phi)
					}
					if l, ok := hv.(Lin); ok && k == 0 && len(l.t) == 1 && index[l.t[0].s.id] && !sameV(hv, nv) {
						why = "a blank counts as a number"
					}
				}
				if !found && why == "" {
					why = "blanks and numbers do not alternate"
				}
			default:
				why = "blanks and numbers do not alternate"
			}
			ob("iteration", why)
		}
	}
	for _, phi := range flags {
		if flip[phi][0] == flip[phi][1] {
			ob("iteration", "blanks and numbers do not alternate")
		}
	}
	fields := []string{"Max", "In", "Latch", "Out", "And", "Bad", "Constraint", "Justice", "Fair"}
	few := func(st *State, most int64) bool {
		for _, f := range st.facts {
			if len(f.t) == 1 && index[f.t[0].s.id] && f.t[0].k < 0 && f.c <= most {
				return true
			}
		}
		return false
	}
	many := func(st *State, least int64) bool {
		for _, f := range st.facts {
			if len(f.t) == 1 && index[f.t[0].s.id] && f.t[0].k > 0 && -f.c >= least {
				return true
			}
		}
		return false
	}
	for _, o := range outs {
		if o.Kind == "panic" {
			ob("return", "it may panic")
		}
		if o.Kind != "return" {
			continue
		}
		st, why := o.St, ""
		word := ""
		var last V
		failed := false
		counts := map[int64]Lin{}
		for _, ev := range st.events {
			switch ev.Kind {
			case "word":
				if s, ok := ev.Args[0].(Strv); ok {
					word = string(s)
				}
			case "in":
				last = ev.Args[0]
			case "ioerr", "interr":
				failed = true
			case "eof":
				last = nil
			case "count":
				if i, ok := ev.Args[0].(Lin); ok && i.isConst() {
					counts[i.c] = ev.Args[1].(Lin)
				}
			}
		}
		field := func(n string) V {
			p, _ := o.Ret[0].(Ptr)
			if p.o == nil {
				return nil
			}
			return st.mem[cellKey(Ptr{p.o, []pe{{f: fieldIndex(a.P, aigerPkg, "aigerHeader", n)}}})].v
		}
		if _, isNil := o.Ret[1].(Nilv); !isNil {
			sum := lin(-1)
			large := false
			for i, c := range counts {
				large = large || E.geq0(st, c.add(lin(maxAigerCount+1), -1))
				if i == 1 || i == 2 || i == 4 {
					sum = sum.add(c, 1)
				}
			}
			if len(counts) == 9 {
				large = large || E.geq0(st, sum.add(counts[0], -1))
			}
			switch {
			case failed || last == nil || large:
			case word != "aag" && word != "aig":
			case a.isNot(st, last, ' ') && a.isNot(st, last, '\n'):
			case a.is(st, last, '\n') && few(st, 4), many(st, 9):
			default:
				why = "a header is refused without a reason"
			}
			ob("return", why)
			continue
		}
		in, la, an, max := counts[1], counts[2], counts[4], counts[0]
		switch {
		case failed || last == nil || !a.is(st, last, '\n'):
			why = "a header is accepted which does not end with a line"
		case word == "aag" && field("Binary") != V(Boolv(false)) && field("Binary") != nil || word == "aig" && field("Binary") != V(Boolv(true)) || word != "aag" && word != "aig":
			why = fmt.Sprintf("the word %q means %v", word, field("Binary"))
		case !many(st, 5):
			why = "a header is accepted with too few numbers"
		case len(counts) != 9:
			why = "not all numbers are looked at"
		case !E.geq0(st, max.add(in.add(la, 1).add(an, 1), -1)):
			why = "more variables are defined than there are"
		}
		for i, f := range fields {
			if why == "" && !sameV(field(f), counts[int64(i)]) {
				why = fmt.Sprintf("the count %s is %v", f, field(f))
			}
			if why == "" && !E.geq0(st, lin(maxAigerCount).add(counts[int64(i)], -1)) {
				why = fmt.Sprintf("the count %s may be too large", f)
			}
		}
		ob("return", why)
	}
}

// wordLoop tells a loop which takes characters other than blanks.
func (a *aigerR) wordLoop(id string) bool {
	for _, b := range a.e.recs[id] {
		for _, ev := range evsOf(b.evs, "in") {
			if !a.notWhite(b.st, ev.Args[0]) {
				return false
			}
		}
	}
	return true
}

// gate judges the construction of a gate from its definition.
func (a *aigerR) gate() {
	r, e := a.r, a.e
	fn := a.P.Func(aigerPkg, "aigerReader.mapAndsRec")
	r.Fn(fn)
	e.recs = map[string][]*bodyRec{}
	E := e.E
	fi := func(n string) int { return fieldIndex(a.P, aigerPkg, "aigAnd", n) }
	colour, defined, mapped, children := fi("dfsColor"), fi("defined"), fi("mapped"), fi("children")
	load := E.Load
	E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		n := len(p.path)
		if n > 0 && p.path[n-1].f == colour && isGateCell(p, colour) {
			_, os := opts(st, lin(0), lin(1), lin(2))
			for _, o := range os {
				e.log(o.st, "colour", p, o.v)
			}
			return true, os
		}
		if n > 1 && p.path[n-2].f == children && p.path[n-1].f < 0 {
			_, os := opts(st, a.numbers(st, "child")...)
			for _, o := range os {
				e.log(o.st, "child", p.path[n-1].idx, o.v)
			}
			return true, os
		}
		if n > 0 && (p.path[n-1].f == defined || p.path[n-1].f == mapped) && types.Identical(t, types.Typ[types.Bool]) {
			_, os := opts(st, Boolv(true), Boolv(false))
			k := "defined"
			if p.path[n-1].f == mapped {
				k = "mapped"
			}
			for _, o := range os {
				e.log(o.st, k, Ptr{p.o, p.path[:n-1]}, o.v)
			}
			return true, os
		}
		return load(st, p, key, t)
	}
	store := E.Store
	E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
		if n := len(p.path); n > 0 && p.path[n-1].f >= 0 {
			switch p.path[n-1].f {
			case colour, mapped:
				if isGateCell(p, p.path[n-1].f) {
					e.log(st, map[bool]string{true: "paint", false: "done"}[p.path[n-1].f == colour], Ptr{p.o, p.path[:n-1]}, v)
				}
			}
		}
		store(st, p, key, v, pos)
	}
	defer func() { E.Load, E.Store = load, store }()
	st0 := newState()
	ands, lits := obj("aigerReader.AigAnds"), obj("aigerReader.litMap")
	a.origin[ands.id], a.origin[lits.id] = "aigerReader.AigAnds", "aigerReader.litMap"
	g := linSym(&Sym{id: "gate", lo: i64(1), hi: i64(1 << 30)})
	self := Ptr{ands, []pe{{f: -1, idx: g}}}
	outs := E.Run(st0, fn, []V{Ptr{o: obj("rdr")}, self, g.scale(2)}, nil)
	a.dump(outs)
	num := 0
	ob := func(what, why string) {
		num++
		r.Ob("gates", fmt.Sprintf("%s %d", what, num), why == "", fn.Pos(), "%s", orElse(why, "as the definition says"))
	}
	whole := false
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st, why := o.St, ""
		c := int64(-1)
		var kids [2]Lin
		have := 0
		painted, undefined, failed := false, false, false
		for _, ev := range st.events {
			switch ev.Kind {
			case "colour":
				if sameV(ev.Args[0], self) || samePtr(ev.Args[0], Ptr{self.o, append(append([]pe(nil), self.path...), pe{f: colour})}) {
					c = ev.Args[1].(Lin).c
				}
			case "child":
				if i, ok := ev.Args[0].(Lin); ok && i.isConst() && i.c < 2 {
					kids[i.c] = ev.Args[1].(Lin)
					have |= 1 << uint(i.c)
				}
			case "paint":
				if l, ok := ev.Args[1].(Lin); ok && samePtr(ev.Args[0], self) && l.isConst() && l.c == 1 {
					painted = true
				}
			case "rec":
				if !painted {
					why = "it goes on to an operand before the gate is marked as visited"
				}
			case "recerr":
				failed = true
			case "defined":
				undefined = undefined || ev.Args[1] == V(Boolv(false))
			}
		}
		_, isNil := o.Ret[0].(Nilv)
		made := evsOf(st.events, "and")
		switch {
		case c < 0:
			why = "it is not looked at whether the gate was visited"
		case !isNil:
			if !(c == 1 || undefined || failed) {
				why = "a gate is refused without a reason"
			}
		case c == 1:
			why = "a gate which depends on itself is accepted"
		case c == 2:
			if len(made) > 0 {
				why = "a gate is made again"
			}
		case failed:
			why = "a failure is not reported"
		case have != 3:
			why = "not both operands are looked at"
		case len(made) != 1:
			why = fmt.Sprintf("%d nodes are made for a gate", len(made))
		default:
			whole = true
			for _, k := range kids {
				if w := a.operand(st, ands, k); w != "" && why == "" {
					why = w
				}
			}
			w0, ok0 := a.means(st, st.events, kids[0])
			w1, ok1 := a.means(st, st.events, kids[1])
			x, y := made[0].Args[1], made[0].Args[2]
			ms := a.mapping(st.events)
			switch {
			case why != "":
			case !ok0 || !ok1:
				why = fmt.Sprintf("the operands %v and %v are not looked up", kids[0], kids[1])
			case !(sameV(x, w0) && sameV(y, w1) || sameV(x, w1) && sameV(y, w0)):
				why = fmt.Sprintf("the operands of the gate are %v and %v, not %v and %v", x, y, w0, w1)
			case len(ms) != 1 || !sameV(ms[0].Args[1], g) || !sameV(ms[0].Args[2], made[0].Args[0]):
				why = "the gate is not entered under its number"
			case !a.late(st.events):
				why = "an operand is looked up before it is there"
			}
		}
		ob(map[bool]string{true: "made", false: "refused"}[isNil], why)
	}
	ob("gates", map[bool]string{true: "", false: "none is ever made"}[whole])
}

func isGateCell(p Ptr, f int) bool { return p.path[0].f < 0 }

func samePtr(x V, y Ptr) bool {
	p, ok := x.(Ptr)
	return ok && cellKey(p) == cellKey(y)
}

// late tells that nothing is looked up which is made only later.
func (a *aigerR) late(evs []Event) bool {
	read := map[string]bool{}
	for _, ev := range evs {
		switch ev.Kind {
		case "read":
			if a.named(ev.Args[0].(Ptr).o) == "aigerReader.litMap" {
				read[fmt.Sprint(ev.Args[1])] = true
			}
		case "rec":
			if p, ok := ev.Args[0].(Ptr); ok && len(p.path) > 0 && read[fmt.Sprint(p.path[0].idx)] {
				return false
			}
		}
	}
	return true
}

// operand tells what is missing for an operand to be there.
func (a *aigerR) operand(st *State, ands *Obj, k Lin) string {
	E := a.e.E
	x, _, ok := half(k)
	if !ok {
		return "an operand is not followed"
	}
	at := func(v V) bool {
		p, ok := v.(Ptr)
		return ok && p.o != nil && a.named(p.o) == "aigerReader.AigAnds" && len(p.path) == 1 && p.path[0].f < 0 && E.eqLin(st, p.path[0].idx, x)
	}
	def, there := false, false
	for _, ev := range st.events {
		switch ev.Kind {
		case "defined":
			def = def || at(ev.Args[0]) && ev.Args[1] == V(Boolv(true))
		case "mapped":
			there = there || at(ev.Args[0]) && ev.Args[1] == V(Boolv(true))
		case "rec":
			if l, ok := ev.Args[1].(Lin); ok && at(ev.Args[0]) && E.eqLin(st, l, x.scale(2)) {
				there = true
			}
		}
	}
	switch {
	case !def:
		return "it is not looked at whether an operand is defined"
	case !there:
		return fmt.Sprintf("the operand %v is not made before", k)
	}
	return ""
}
