package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20", Level: "other",
		Rule: "Abstract interpretation over go/ssa of the text readers with symbolic bytes: the comment filter is extracted as a transducer and compared with the specified one; the integer reader, the three file readers and their loops are judged path by path and for one arbitrary iteration, against the grammar and against what is passed on.",
		Run:  runC20})
}

func runC20(r *Report) {
	d := &dimacsReaders{streamWorld: newStream(r)}
	d.filter()
	d.integer()
	d.cnf()
	d.icnf()
	d.solution()
	r.Floor("comments", 10)
	r.Floor("integer", 6)
	r.Floor("cnf", 8)
	r.Floor("icnf", 4)
	r.Floor("output", 6)
}

type dimacsReaders struct{ *streamWorld }

// filter extracts the transducer of the comment filter.
func (d *dimacsReaders) filter() {
	P, r := d.P, d.r
	mk, read := P.Func("dimacs", "NewCommentFilter"), P.Func("dimacs", "CommentFilter.Read")
	r.Fn(mk)
	r.Fn(read)
	h := newXO(P)
	E := h.E
	E.Unroll = 8
	src := Tag{"uniq:source"}
	// the chunk which is read, and whether it comes with an error
	var chunk []V
	var facts []Lin
	var neq []Lin
	var withErr bool
	var again []*State
	E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		if fn == nil && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Read" {
			if st.mem["@read"].v != nil {
				// asks for more
				again = append(again, st.clone())
				return true, nil
			}
			st.keep("read", Boolv(true))
			buf, ok := args[1].(Slice)
			if !ok || !sameV(args[0], src) {
				return true, nil
			}
			for i, b := range chunk {
				p := Ptr{buf.o, []pe{{f: -1, idx: buf.off.add(lin(int64(i)), 1)}}}
				st.mem[cellKey(p)] = cell{p.o, p.path, "elem:byte", b}
			}
			var e V = Nilv{}
			if withErr {
				e = Tag{errEOF}
			}
			return one1(st, Tuple{lin(int64(len(chunk))), e})
		}
		return false, nil
	}
	// the start
	var init map[string]cell
	var self Ptr
	for _, o := range E.Run(newState(), mk, []V{src}, nil) {
		if o.Kind != "return" {
			continue
		}
		if p, ok := unwrap(o.Ret[0]).(Ptr); ok {
			self = p
			init = map[string]cell{}
			for k, c := range o.St.mem {
				if c.o != nil && c.o.id == p.o.id {
					init[k] = c
				}
			}
		}
	}
	if init == nil {
		r.Ob("comments", "the start of the filter", false, mk.Pos(), "is not found")
		return
	}
	key := func(m map[string]cell) string {
		s := ""
		for _, k := range sortedKeys(m) {
			if m[k].o != nil && m[k].o.id == self.o.id {
				s += k + "=" + m[k].v.String() + ";"
			}
		}
		return s
	}
	type res struct {
		out  string
		next map[string]cell
		end  string
	}
	run := func(m map[string]cell, bytes []V) []res {
		chunk = bytes
		again = nil
		st := newState()
		for k, c := range m {
			st.mem[k] = c
		}
		st.facts, st.neq = append(st.facts, facts...), append(st.neq, neq...)
		buf := Slice{obj("buf"), Lin{}, lin(64), lin(64)}
		var rs []res
		state := func(s *State) map[string]cell {
			n := map[string]cell{}
			for k, c := range s.mem {
				if c.o != nil && c.o.id == self.o.id {
					n[k] = c
				}
			}
			return n
		}
		outs := E.Run(st, read, []V{self, buf}, nil)
		for _, s := range again {
			rs = append(rs, res{"", state(s), "again"})
		}
		for _, o := range outs {
			if o.Kind != "return" {
				rs = append(rs, res{end: o.Kind})
				continue
			}
			n, ok := o.Ret[0].(Lin)
			if !ok || !n.isConst() {
				rs = append(rs, res{end: "the length is " + o.Ret[0].String()})
				continue
			}
			out := ""
			for i := int64(0); i < n.c; i++ {
				v := elem(o.St, "buf", lin(i))
				if v == nil {
					out += "?"
					continue
				}
				out += "<" + v.String() + ">"
			}
			end := "return"
			if _, ok := o.Ret[1].(Nilv); !ok {
				end = "error"
			}
			rs = append(rs, res{out, state(o.St), end})
		}
		return rs
	}
	// specified: 0 the beginning of a line, 1 within a line, 2 within a comment
	other := func(i int) V {
		return linSym(&Sym{id: fmt.Sprintf("other%d", i), lo: i64(0), hi: i64(255)})
	}
	spec := func(s int, c string) (int, bool) {
		switch {
		case s == 2 && c == "n":
			return 0, false
		case s == 2, s == 0 && c == "c":
			return 2, false
		case c == "n":
			return 0, true
		}
		return 1, true
	}
	byteOf := func(c string, i int) V {
		switch c {
		case "n":
			return lin('\n')
		case "c":
			return lin('c')
		}
		return other(i)
	}
	words := []string{""}
	for i := 0; i < len(words); i++ {
		if len(words[i]) < 3 {
			for _, c := range []string{"n", "c", "o"} {
				words = append(words, words[i]+c)
			}
		}
	}
	type pair struct {
		m map[string]cell
		s int
	}
	seen := map[string]bool{}
	todo := []pair{{init, 0}}
	for len(todo) > 0 && len(seen) < 40 {
		p := todo[0]
		todo = todo[1:]
		k := fmt.Sprintf("%s/%d", key(p.m), p.s)
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, word := range words {
			for _, withE := range []bool{false, true} {
				withErr = withE
				var bs []V
				facts, neq = nil, nil
				want := ""
				s := p.s
				for i, c := range strings.Split(word, "") {
					if c == "" {
						continue
					}
					b := byteOf(c, i)
					if c == "o" {
						neq = append(neq, b.(Lin).add(lin('\n'), -1), b.(Lin).add(lin('c'), -1))
					}
					bs = append(bs, b)
					n, emit := spec(s, c)
					if emit {
						want += "<" + b.String() + ">"
					}
					s = n
				}
				why := ""
				rs := run(p.m, bs)
				for _, x := range rs {
					switch {
					case x.end != "return" && x.end != "error" && x.end != "again":
						why = "it ends by " + x.end
					case x.end == "again" && withE:
						why = "an error is dropped"
					case x.end == "error" && !withE:
						why = "there is an error without a reason"
					case x.end == "return" && withE:
						why = "an error is dropped"
					case x.out != want:
						why = fmt.Sprintf("it gives %s, not %s", x.out, want)
					case x.end == "return" && x.out == "" && len(bs) > 0:
						why = "it gives nothing, although there is more to read"
					}
					if why == "" && !withE {
						todo = append(todo, pair{x.next, s})
					}
				}
				if len(rs) == 0 {
					why = "it has no result"
				}
				if len(word) < 2 || why != "" {
					r.Ob("comments", fmt.Sprintf("state %d, input %q, end %v, %d", p.s, word, withE, len(seen)), why == "", read.Pos(), "%s", orElse(why, "as specified"))
				}
				if why != "" {
					return
				}
			}
		}
	}
	r.Ob("comments", "the states of the filter", len(seen) < 40, read.Pos(), "%d states agree with the specified ones", len(seen))
}

// integer judges the reader of integers.
func (d *dimacsReaders) integer() {
	P, r, e := d.P, d.r, d.e
	fn := P.Func("dimacs", "readInt")
	r.Fn(fn)
	E := e.E
	e.recs = map[string][]*bodyRec{}
	isDigit := func(st *State, b V) bool { return d.between(st, b, '0', '9') }
	notDigit := func(st *State, b V) bool { return d.outside(st, b, '0', '9') }
	outs := E.Run(newState(), fn, []V{Unk{"rdr"}}, nil)
	// the loops
	folds := map[string]bool{}
	bad := func(why string) { r.Ob("integer", "iteration", false, fn.Pos(), "%s", why) }
	n := 0
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			n++
			in := evsOf(b.evs, "in")
			if len(in) != 1 || has(b.evs, "unread") || has(b.evs, "lost") {
				bad(fmt.Sprintf("an iteration takes %d bytes", len(in)))
				continue
			}
			c := in[0].Args[0]
			switch {
			case d.isWhite(b.st, c):
				for phi, nv := range b.phis {
					if hv, ok := b.st.top().env[phi].(Lin); ok && phi.Type().String() == "int" && !E.eqLin(b.st, hv, nv) {
						bad("a blank changes the value")
					}
				}
				folds["white:"+id] = true
			case isDigit(b.st, c):
				ok := false
				for phi, nv := range b.phis {
					hv, ok1 := b.st.top().env[phi].(Lin)
					nl, ok2 := nv.(Lin)
					if !ok1 || !ok2 || len(hv.t) != 1 {
						continue
					}
					want := hv.scale(10).add(c.(Lin), 1).add(lin('0'), -1)
					if E.eqLin(b.st, nl, want) {
						ok = true
						folds[hv.String()] = true
						if !E.geq0(b.st, lin(1<<31-1).add(nl, -1)) {
							bad("the value may be too large for a literal")
						}
					} else if phi.Type().String() == "int" {
						bad(fmt.Sprintf("a digit makes %v of %v", nl, hv))
					}
				}
				if !ok {
					bad("no variable takes the digit in")
				}
			default:
				bad(fmt.Sprintf("it goes on after the byte %v", c))
			}
		}
	}
	r.Ob("integer", "iterations", n >= 2, fn.Pos(), "%d kinds of iteration: blanks are skipped, a digit is appended to the value", n)
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		why := ""
		neg, first, done := false, V(nil), ""
		digits := ""
		var last V
		eof, ioerr := false, false
		for _, ev := range st.events {
			switch ev.Kind {
			case "loop":
				id := string(ev.Args[0].(Strv))
				if first != nil {
					digits = id
				} else if !folds["white:"+id] {
					why = "a loop before the first digit takes no blanks"
				}
			case "in":
				b := ev.Args[0]
				last = b
				switch {
				case first == nil && !neg && d.is(st, b, '-'):
					neg = true
				case first == nil && isDigit(st, b):
					first = b
				case first != nil && d.isWhite(st, b):
					done = "white"
				}
			case "unread":
				if done == "white" {
					done = "unread"
				} else {
					why = "a byte is given back which belongs to the number"
				}
			case "eof":
				eof = true
				done = "eof"
			case "ioerr":
				ioerr = true
			}
		}
		_, isNil := o.Ret[1].(Nilv)
		switch {
		case why != "":
		case ioerr:
			if t, ok := o.Ret[1].(Tag); !ok || t.id != errIO {
				why = fmt.Sprintf("a failed read is returned as %v", o.Ret[1])
			}
		case isNil:
			v, ok := o.Ret[0].(Lin)
			if neg {
				v = v.scale(-1)
			}
			switch {
			case first == nil:
				why = "it gives a number without a digit"
			case done != "unread" && done != "eof":
				why = "it ends the number before a blank or the end, or takes the blank"
			case !ok:
				why = fmt.Sprintf("it gives %v", o.Ret[0])
			case digits == "":
				if !E.eqLin(st, v, first.(Lin).add(lin('0'), -1)) {
					why = fmt.Sprintf("a single digit gives %v", v)
				}
			case !folds[v.String()]:
				why = fmt.Sprintf("it gives %v", o.Ret[0])
			default:
				f, ok := firstOf(st, v)
				if !ok || !E.eqLin(st, f, first.(Lin).add(lin('0'), -1)) {
					why = fmt.Sprintf("the number begins with %v", f)
				}
			}
		default:
			t, _ := o.Ret[1].(Tag)
			overflow := false
			for k := range folds {
				for _, f := range st.facts {
					// a large value
					if len(f.t) == 1 && f.t[0].k > 0 && f.t[0].s.id == k && -f.c > 10000000 {
						overflow = true
					}
				}
			}
			switch {
			case eof && first == nil && !neg && t.id != errEOF:
				why = "the end of the input is not reported as such"
			case eof && neg && t.id == errEOF:
				why = "a lone sign at the end of the input looks like its regular end"
			case eof && first != nil:
				why = "a number at the end of the input is rejected"
			case eof:
			case t.id == errEOF:
				why = "the end of the input is reported although there is more"
			case overflow:
			case last == nil:
				why = "it fails without a reason"
			case first == nil && !(notDigit(st, last) && (neg || d.isNot(st, last, '-') && d.notWhite(st, last))):
				why = "it rejects a number"
			case first != nil && !(notDigit(st, last) && d.notWhite(st, last)):
				why = "it rejects a number"
			}
		}
		r.Ob("integer", fmt.Sprintf("return %d", i+1), why == "", fn.Pos(), "%s", orElse(why, "as the grammar says"))
	}
}

// ints replaces the integer reader by what was shown of it.
func (d *dimacsReaders) ints() func() {
	e := d.e
	fn := d.P.Func("dimacs", "readInt")
	d.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f != fn {
			return false, nil
		}
		st.unkeep("back")
		st.unkeep("last")
		st.seq++
		n := linSym(&Sym{id: fmt.Sprintf("n#%d", st.seq), lo: i64(1), hi: i64(1<<30 - 1)})
		var os []Opt
		for _, x := range []struct {
			k string
			v Lin
			e V
		}{{"int", lin(0), Nilv{}}, {"int", n, Nilv{}}, {"int", n.scale(-1), Nilv{}}, {"eof", lin(0), Tag{errEOF}}, {"interr", lin(0), Tag{errIO}}} {
			s := st.clone()
			if x.k == "int" {
				e.log(s, x.k, x.v)
			} else {
				e.log(s, x.k)
			}
			os = append(os, Opt{s, Tuple{x.v, x.e}})
		}
		return true, os
	}
	return func() { d.More = nil }
}

// litFor is the literal of a number.
func litFor(v V) V {
	l := v.(Lin)
	switch {
	case l.isConst():
		return lin(0)
	case l.t[0].k > 0:
		return l.scale(2)
	}
	return l.scale(-2).add(lin(1), 1)
}

func (d *dimacsReaders) visits(evs []Event, name string) []Event {
	var r []Event
	for _, ev := range evsOf(evs, "vis") {
		if ev.Args[0] == V(Strv(name)) {
			r = append(r, ev)
		}
	}
	return r
}

// cnf judges the reader of formulas.
func (d *dimacsReaders) cnf() {
	P, r, e := d.P, d.r, d.e
	E := e.E
	defer d.ints()()
	d.Visit = map[string]bool{"Init": true, "Add": true, "Eof": true}
	fn := P.Func("dimacs", "ReadCnfStrict")
	r.Fn(fn)
	r.Fn(P.Func("dimacs", "cnfReader.readBody"))
	r.Fn(P.Func("dimacs", "cnfReader.readHeader"))
	r.Fn(P.Func("dimacs", "cnfReader.readP"))
	cells := func(st *State) map[string]V {
		m := map[string]V{}
		t := P.Type("dimacs", "cnfReader").Underlying().(*types.Struct)
		for k, c := range st.mem {
			if c.o != nil && strings.HasPrefix(c.o.id, "new") || c.o != nil && strings.Contains(c.o.id, "#") {
				if len(c.path) == 1 && c.path[0].f >= 0 && c.path[0].f < t.NumFields() && strings.Contains(c.key, "cnfReader.") {
					m[t.Field(c.path[0].f).Name()] = c.v
				}
			}
			_ = k
		}
		return m
	}
	num := 0
	for _, strict := range []bool{false, true} {
		e.recs = map[string][]*bodyRec{}
		enter := E.Enter
		E.Enter = func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State) {
			f := enter(st, hdr, blocks)
			was := cells(st)
			return func(s *State) {
				f(s)
				// what the loop changes is read, to see it change
				for _, name := range []string{"nCls", "vMax"} {
					for _, c := range s.mem {
						if c.o != nil && strings.Contains(c.key, "cnfReader.") {
							p := Ptr{c.o, []pe{{f: fieldIndex(P, "dimacs", "cnfReader", name)}}}
							v := E.load(s, p, "field:"+P.Type("dimacs", "cnfReader").String()+"."+name, types.Typ[types.Int])
							s.keep("head:"+name, v[0].v)
							s.keep("was:"+name, was[name])
							break
						}
					}
				}
			}
		}
		outs := E.Run(newState(), fn, []V{Unk{"source"}, Unk{"visitor"}, Boolv(strict)}, nil)
		E.Enter = enter
		for _, id := range sortedKeys(e.recs) {
			for _, b := range e.recs[id] {
				if !has(b.evs, "int") && !has(b.evs, "vis") {
					continue
				}
				num++
				why := ""
				in, add := evsOf(b.evs, "int"), d.visits(b.evs, "Add")
				c := cells(b.st)
				h1, _ := b.st.kept("head:nCls").(Lin)
				h2, _ := b.st.kept("head:vMax").(Lin)
				n1, ok1 := c["nCls"].(Lin)
				n2, ok2 := c["vMax"].(Lin)
				switch {
				case len(in) != 1 || len(add) != 1 || len(evsOf(b.evs, "vis")) != 1:
					why = fmt.Sprintf("for %d numbers %d literals are passed on", len(in), len(add))
				case !sameV(add[0].Args[1], litFor(in[0].Args[0])):
					why = fmt.Sprintf("for the number %v the literal %v is passed on", in[0].Args[0], add[0].Args[1])
				case !ok1 || !ok2:
					why = "what is counted is not found"
				}
				if why == "" {
					v := in[0].Args[0].(Lin)
					step := int64(0)
					if v.isConst() {
						step = 1
					} else if v.t[0].k < 0 {
						v = v.scale(-1)
					}
					switch {
					case !E.eqLin(b.st, n1, h1.add(lin(step), 1)):
						why = fmt.Sprintf("the number of clauses goes from %v to %v", h1, n1)
					case step == 1 && !E.eqLin(b.st, n2, h2):
						why = fmt.Sprintf("the largest variable goes from %v to %v by the end of a clause", h2, n2)
					case step == 1:
					case !E.geq0(b.st, n2.add(v, -1)) || !E.geq0(b.st, n2.add(h2, -1)) || !E.eqLin(b.st, n2, v) && !E.eqLin(b.st, n2, h2):
						why = fmt.Sprintf("the largest variable goes from %v to %v by %v", h2, n2, v)
					}
				}
				r.Ob("cnf", fmt.Sprintf("number %d, strict %v", num, strict), why == "", fn.Pos(), "%s", orElse(why, "is passed on and counted"))
			}
		}
		for i, o := range outs {
			if o.Kind != "return" {
				continue
			}
			why := d.cnfReturn(o, strict, cells(o.St))
			r.Ob("cnf", fmt.Sprintf("return %d, strict %v", i+1, strict), why == "", fn.Pos(), "%s", orElse(why, "as the grammar says"))
		}
	}
	// the other ways in
	g := P.Func("dimacs", "ReadCnf")
	r.Fn(g)
	strictFn := fn
	base := d.More
	d.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f == strictFn {
			e.log(st, "strict", args...)
			return one1(st, Tag{"uniq:the result"})
		}
		return base(st, ci, f, args)
	}
	for _, o := range E.Run(newState(), g, []V{Unk{"source"}, Unk{"visitor"}}, nil) {
		if o.Kind != "return" {
			continue
		}
		s := evsOf(o.St.events, "strict")
		if len(s) == 0 {
			continue // reads by itself
		}
		ok := len(s) == 1 && s[0].Args[2] == V(Boolv(false)) && sameV(s[0].Args[0], Unk{"source"}) && sameV(s[0].Args[1], Unk{"visitor"}) && sameV(o.Ret[0], Tag{"uniq:the result"})
		r.Ob("cnf", "reading without strictness", ok, g.Pos(), "reads as the strict reader does, without its demands")
	}
}

func (d *dimacsReaders) cnfReturn(o Outcome, strict bool, c map[string]V) string {
	st, E := o.St, d.e.E
	_, isNil := o.Ret[0].(Nilv)
	evs := st.events
	want := "p cnf "
	matched, mismatch, taken := 0, false, 0
	var hdr []V
	inits, eofs, adds := d.visits(evs, "Init"), d.visits(evs, "Eof"), d.visits(evs, "Add")
	body := -1
	eof, failed := false, false
	for i, ev := range evs {
		switch ev.Kind {
		case "in":
			taken++
			if matched < len(want) && d.is(st, ev.Args[0], want[matched]) {
				matched++
			} else {
				mismatch = true
			}
		case "unread":
			taken--
			if matched > taken {
				matched = taken
			}
			if mismatch && taken == 0 {
				mismatch = false
			}
		case "int":
			if body < 0 {
				hdr = append(hdr, ev.Args[0])
			}
		case "ioerr", "interr":
			failed = true
		case "eof":
			eof = true
		case "loop":
			if body < 0 {
				body = i
			}
		}
	}
	full := matched == len(want) && len(hdr) == 2
	for _, v := range hdr {
		if !E.geq0(st, v.(Lin)) {
			return "" // no numbers of things
		}
	}
	if isNil {
		switch {
		case failed:
			return "a failed read is not reported"
		case len(adds) > 0:
			return "a literal is passed on out of order"
		case len(inits) != 1:
			return fmt.Sprintf("the visitor is initialised %d times", len(inits))
		case len(eofs) != 1 || evs[len(evs)-1].Kind != "vis" && false:
			return fmt.Sprintf("the visitor is told of the end %d times", len(eofs))
		case mismatch || matched > 0 && !full:
			return "a malformed problem statement is accepted"
		case taken != matched:
			return "the first byte of the body is lost"
		case !eof:
			return "it ends before the end of the input"
		case full && (!sameV(inits[0].Args[1], hdr[0]) || !sameV(inits[0].Args[2], hdr[1])):
			return fmt.Sprintf("the visitor is initialised with %v and %v, the problem statement says %v and %v", inits[0].Args[1], inits[0].Args[2], hdr[0], hdr[1])
		case strict && !full:
			return "a formula without a problem statement is accepted"
		case strict && (!E.eqLin(st, hdr[0], c["vMax"]) || !E.eqLin(st, hdr[1], c["nCls"])):
			return "a formula which differs from its problem statement is accepted"
		}
		// order
		for i, ev := range evs {
			if ev.Kind == "vis" && (ev.Args[0] == V(Strv("Init"))) != (body < 0 || i < body) {
				return "the visitor is called out of order"
			}
		}
		for _, n := range []string{"nCls", "vMax"} {
			if w := st.kept("was:" + n); w == nil || !E.eqLin(st, w, lin(0)) {
				return fmt.Sprintf("what is counted does not begin at zero: %v", w)
			}
		}
		return ""
	}
	if failed || mismatch {
		return ""
	}
	if eof && (matched > 0 && !full || strict && taken == 0 && !full && body < 0) {
		return ""
	}
	if strict {
		differ := func(a, b V) bool {
			x, ok1 := a.(Lin)
			y, ok2 := b.(Lin)
			if !ok1 || !ok2 {
				return false
			}
			dd := x.add(y, -1)
			s := E.sign(st, dd)
			return st.notZero(dd) || s == "+" || s == "-"
		}
		if !full {
			return ""
		}
		if differ(hdr[0], c["vMax"]) || differ(hdr[1], c["nCls"]) {
			return ""
		}
	}
	if debugC20 {
		fmt.Println("CNF", evs, c, hdr, o.Ret[0])
	}
	return "a formula is rejected without a reason"
}

// icnf judges the reader of incremental problems.
func (d *dimacsReaders) icnf() {
	P, r, e := d.P, d.r, d.e
	E := e.E
	defer d.ints()()
	d.Visit = map[string]bool{"Add": true, "Assume": true, "Eof": true}
	fn := P.Func("dimacs", "ReadICnf")
	r.Fn(fn)
	r.Fn(P.Func("dimacs", "iCnfReader.read"))
	e.recs = map[string][]*bodyRec{}
	outs := E.Run(newState(), fn, []V{Unk{"source"}, Unk{"visitor"}}, nil)
	n := 0
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			if !has(b.evs, "int") {
				if has(b.evs, "vis") {
					r.Ob("icnf", "an iteration", false, fn.Pos(), "passes something on without reading it")
				}
				continue
			}
			n++
			why := ""
			ints := evsOf(b.evs, "int")
			mode, next := V(nil), V(nil)
			for phi, nv := range b.phis {
				if bt, ok := phi.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					mode, next = b.st.top().env[phi], nv
					if iv := b.st.kept("init:" + phi.Parent().Name() + "." + phi.Name()); iv != V(Boolv(false)) {
						why = "it begins with assumptions"
					}
				}
				if _, ok := phi.Type().Underlying().(*types.Signature); ok {
					// what is done with a number
					mode, next = passesTo(b.st.top().env[phi]), passesTo(nv)
					if iv := passesTo(b.st.kept("init:" + phi.Parent().Name() + "." + phi.Name())); iv != V(Boolv(false)) {
						why = "it begins with assumptions"
					}
				}
			}
			starts, back := false, false
			nb := 0
			for _, ev := range b.evs {
				switch ev.Kind {
				case "in":
					nb++
					starts = d.is(b.st, ev.Args[0], 'a')
					back = false
					if !starts && !d.isNot(b.st, ev.Args[0], 'a') {
						why = "an assumption may be taken for a clause"
					}
				case "unread":
					back = true
				}
			}
			vis := evsOf(b.evs, "vis")
			switch {
			case why != "":
			case len(ints) != 1 || len(vis) != 1 || nb != 1:
				why = fmt.Sprintf("for %d numbers %d literals are passed on", len(ints), len(vis))
			case starts == back:
				why = "a byte is lost or read twice"
			case !sameV(vis[0].Args[1], litFor(ints[0].Args[0])):
				why = fmt.Sprintf("for the number %v the literal %v is passed on", ints[0].Args[0], vis[0].Args[1])
			case mode == nil:
				why = "whether assumptions are read is not found"
			default:
				assume := starts || mode == V(Boolv(true))
				if !starts && mode != V(Boolv(true)) && mode != V(Boolv(false)) {
					why = "a clause and assumptions are not told apart"
					break
				}
				if got := vis[0].Args[0] == V(Strv("Assume")); got != assume {
					why = fmt.Sprintf("assumption: %v, passed on by %v", assume, vis[0].Args[0])
				}
				end := ints[0].Args[0].(Lin).isConst()
				if want := V(Boolv(assume && !end)); next != want && !(sameV(next, mode) && mode == want) {
					why = fmt.Sprintf("after the number %v assumptions are expected: %v", ints[0].Args[0], next)
				}
			}
			r.Ob("icnf", fmt.Sprintf("number %d", n), why == "", fn.Pos(), "%s", orElse(why, "is passed on"))
		}
	}
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		_, isNil := o.Ret[0].(Nilv)
		want := "p inccnf\n"
		matched, mismatch, odd := 0, false, false
		eof, failed, inBody, half := false, false, false, false
		for _, ev := range st.events {
			switch ev.Kind {
			case "loop":
				inBody = true
			case "in":
				if inBody {
					half = true
					break
				}
				if matched < len(want) && d.is(st, ev.Args[0], want[matched]) {
					matched++
				} else {
					mismatch = true
				}
			case "unread":
			case "int":
				odd = true
			case "ioerr", "interr":
				failed = true
			case "eof":
				eof = true
			}
		}
		why := ""
		switch {
		case isNil && failed:
			why = "a failed read is not reported"
		case isNil && (mismatch || matched != len(want)):
			why = "a wrong problem statement is accepted"
		case isNil && (!eof || half || odd):
			why = "it ends before the end of the input"
		case isNil && len(d.visits(st.events, "Eof")) != 1:
			why = "the visitor is not told of the end"
		case isNil:
		case failed || mismatch || eof && (matched != len(want) || half):
		default:
			why = "a problem is rejected without a reason"
		}
		if debugC20 && why != "" {
			fmt.Println("ICNF", st.events, o.Ret[0])
		}
		r.Ob("icnf", fmt.Sprintf("return %d", i+1), why == "", fn.Pos(), "%s", orElse(why, "as the grammar says"))
	}
}

// passesTo tells whether a function value passes on an assumption.
func passesTo(v V) V {
	if f, ok := v.(Fnv); ok && f.fn != nil {
		switch name, _, _ := strings.Cut(f.fn.Name(), "$"); name {
		case "Assume":
			return Boolv(true)
		case "Add":
			return Boolv(false)
		}
	}
	return v
}

// solution judges the reader of solver outputs.
func (d *dimacsReaders) solution() {
	P, r, e := d.P, d.r, d.e
	E := e.E
	defer d.ints()()
	base := d.More
	d.More = func(st *State, ci ssa.CallInstruction, f *ssa.Function, args []V) (bool, []Opt) {
		if f == nil && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Eof" {
			// what was collected when it ended
			for _, fr := range st.fr {
				for v, x := range fr.env {
					if phi, ok := v.(*ssa.Phi); ok {
						if _, ok := x.(Slice); ok {
							st.keep("text:"+phi.Parent().Name()+"."+phi.Name(), x)
						}
					}
				}
			}
		}
		if f != nil && f.String() == "strings.TrimSpace" {
			e.log(st, "word", args[0])
			return one1(st, args[0])
		}
		return base(st, ci, f, args)
	}
	d.Visit = map[string]bool{"Solution": true, "Value": true, "Eof": true}
	d.Enums = true
	defer func() { d.Enums = false }()
	fn := P.Func("dimacs", "ReadSolve")
	r.Fn(fn)
	r.Fn(P.Func("dimacs", "sRdr.read"))
	// the words
	if hs := P.TryFunc("dimacs", "sRdr.handleSolution"); hs != nil {
		r.Fn(hs)
		for word, want := range map[string]int64{"SATISFIABLE": 1, "UNSATISFIABLE": -1, "UNKNOWN": 0, "SATISFIED": 9} {
			st := newState()
			p := Ptr{o: obj("sRdr")}
			i := fieldIndex(P, "dimacs", "sRdr", "vis")
			q := Ptr{p.o, []pe{{f: i}}}
			st.mem[cellKey(q)] = cell{q.o, q.path, "field:" + P.Type("dimacs", "sRdr").String() + ".vis", Unk{"visitor"}}
			for _, o := range E.Run(st, hs, []V{p, Strv(word)}, nil) {
				if o.Kind != "return" {
					continue
				}
				_, isNil := o.Ret[0].(Nilv)
				s := d.visits(o.St.events, "Solution")
				ok := isNil && len(s) == 1 && sameV(s[0].Args[1], lin(want))
				if want == 9 {
					ok = !isNil && len(s) == 0
				}
				r.Ob("output", "the solution line "+word, ok, hs.Pos(), "passed on %v", s)
			}
		}
	}
	e.recs = map[string][]*bodyRec{}
	outs := E.Run(newState(), fn, []V{Unk{"source"}, Unk{"visitor"}}, nil)
	n := 0
	line := &lineMachine{d: d, next: map[string]V{}}
	for pass := 0; pass < 2; pass++ {
		for _, id := range sortedKeys(e.recs) {
			for _, b := range e.recs[id] {
				line.learn(b)
			}
		}
	}
	r.Ob("output", "the kinds of line", line.state == nil || line.next["s"] != nil && line.next["v"] != nil && !sameV(line.next["s"], line.next["v"]) &&
		!sameV(line.next["s"], line.init) && !sameV(line.next["v"], line.init), fn.Pos(), "a line begins in %v, a solution is read in %v, values in %v", line.init, line.next["s"], line.next["v"])
	for _, id := range sortedKeys(e.recs) {
		for _, b := range e.recs[id] {
			in, ints, vals := evsOf(b.evs, "in"), evsOf(b.evs, "int"), d.visits(b.evs, "Value")
			why := ""
			n++
			switch {
			case len(ints) != len(vals):
				why = fmt.Sprintf("for %d numbers %d values are passed on", len(ints), len(vals))
			case len(ints) > 1 || len(in) != 1:
				why = fmt.Sprintf("an iteration takes %d bytes and %d numbers", len(in), len(ints))
			case len(ints) == 1 && !sameV(vals[0].Args[1], litFor(ints[0].Args[0])):
				why = fmt.Sprintf("for the number %v the value %v is passed on", ints[0].Args[0], vals[0].Args[1])
			case len(ints) == 1 && !has(b.evs, "unread"), len(ints) == 0 && has(b.evs, "unread"):
				why = "a byte is lost or read twice"
			case len(ints) == 1 && !d.isNot(b.st, in[0].Args[0], '\n'):
				why = "a number may be read after the end of the line"
			case has(b.evs, "interr"), has(b.evs, "ioerr"), has(b.evs, "eof"):
				why = "it goes on after a failed read"
			case d.is(b.st, in[0].Args[0], '\n') && len(ints) > 0:
				why = "the end of a line is skipped"
			case has(b.evs, "lost"):
				why = "what is read is lost track of"
			default:
				why = line.step(b)
			}
			r.Ob("output", fmt.Sprintf("iteration %d", n), why == "", fn.Pos(), "%s", orElse(why, "as the grammar says"))
		}
	}
	for i, o := range outs {
		if o.Kind != "return" {
			continue
		}
		_, isNil := o.Ret[0].(Nilv)
		why := ""
		evs := o.St.events
		switch {
		case isNil && (has(evs, "interr") || has(evs, "ioerr")):
			why = "a failed read is not reported"
		case isNil && !has(evs, "eof"):
			why = "it ends before the end of the input"
		case isNil && len(d.visits(evs, "Eof")) != 1:
			why = "the visitor is not told of the end"
		case isNil:
			why = line.flushed(o.St, evs, nil)
		}
		r.Ob("output", fmt.Sprintf("return %d", i+1), why == "", fn.Pos(), "%s", orElse(why, "as the grammar says"))
	}
}

var debugC20 = os.Getenv("SA_DUMP") != ""

// lineMachine follows which kind of line the reader of outputs is in, and the
// text which it collects.
type lineMachine struct {
	d     *dimacsReaders
	state *ssa.Phi
	text  *ssa.Phi
	init  V
	next  map[string]V
}

func (l *lineMachine) learn(b *bodyRec) {
	for phi := range b.phis {
		if len(l.d.enum(phi.Type())) > 1 {
			l.state = phi
			l.init = b.st.kept("init:" + phi.Parent().Name() + "." + phi.Name())
		}
		if s, ok := phi.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			l.text = phi
		}
	}
	in := evsOf(b.evs, "in")
	if l.state == nil || len(in) != 1 || b.phis[l.state] == nil || !sameV(b.st.top().env[l.state], l.init) {
		return
	}
	for _, c := range "sv" {
		if l.d.is(b.st, in[0].Args[0], byte(c)) {
			l.next[string(c)] = b.phis[l.state]
		}
	}
}

func (l *lineMachine) step(b *bodyRec) string {
	if l.state == nil || b.phis[l.state] == nil {
		return ""
	}
	E, st := l.d.e.E, b.st
	c := evsOf(b.evs, "in")[0].Args[0]
	was, is := st.top().env[l.state], b.phis[l.state]
	var grown, same, empty bool
	if l.text != nil {
		x, ok1 := st.top().env[l.text].(Slice)
		y, ok2 := b.phis[l.text].(Slice)
		xl, ok3 := x.len.(Lin)
		if !ok1 || !ok2 || !ok3 {
			return fmt.Sprintf("the text is %v", b.phis[l.text])
		}
		same = x.o == y.o && E.eqLin(st, x.off, y.off) && E.eqLin(st, x.len, y.len)
		empty = E.eqLin(st, y.len, lin(0))
		grown = E.eqLin(st, y.off, x.off) && E.eqLin(st, y.len, xl.add(lin(1), 1)) && x.o == y.o
		if grown {
			v := elem(st, y.o.id, y.off.add(xl, 1))
			grown = v != nil && sameV(v, c)
		}
	}
	switch {
	case l.d.is(st, c, '\n'):
		switch {
		case !sameV(is, l.init):
			return "after the end of a line, a line does not begin"
		case l.text != nil && !empty:
			return "the text of a line is kept for the next"
		}
		return l.flushed(st, b.evs, st.top().env)
	case !l.d.isNot(st, c, '\n'):
		return "the end of a line may be missed"
	case len(evsOf(b.evs, "word")) > 0:
		return "a solution is passed on within a line"
	case sameV(was, l.init):
		switch {
		case len(evsOf(b.evs, "int")) > 0 || l.text != nil && !same:
			return "the first byte of a line is taken for what follows it"
		case l.d.is(st, c, 's') && sameV(is, l.next["s"]), l.d.is(st, c, 'v') && sameV(is, l.next["v"]):
			return ""
		}
		return fmt.Sprintf("a line begins with %v", c)
	case sameV(was, l.next["s"]):
		switch {
		case !sameV(is, was):
			return "the solution line ends early"
		case l.text != nil && !grown || len(evsOf(b.evs, "int")) > 0:
			return "a byte of the solution is lost"
		}
	case sameV(was, l.next["v"]):
		switch {
		case !sameV(is, was):
			return "the line of values ends early"
		case l.text != nil && !same:
			return "a value is taken for text"
		case len(evsOf(b.evs, "int")) == 0 && !l.d.isWhite(st, c):
			return "a byte of the values is lost"
		}
	}
	return ""
}

// flushed tells that the text of a solution line was passed on.
func (l *lineMachine) flushed(st *State, evs []Event, env map[ssa.Value]V) string {
	if l.text == nil {
		return ""
	}
	v := env[l.text]
	if env == nil {
		v = st.kept("text:" + l.text.Parent().Name() + "." + l.text.Name())
	}
	x, ok := v.(Slice)
	if !ok {
		return ""
	}
	i := len(evs) - 1
	for i >= 0 && evs[i].Kind != "loop" {
		i--
	}
	n := len(evsOf(evs[i+1:], "word"))
	if n == 0 && l.d.e.E.eqLin(st, x.len, lin(0)) || n == 1 {
		return ""
	}
	return fmt.Sprintf("the solution is passed on %d times", n)
}
