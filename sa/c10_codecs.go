package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10", Level: "other",
		Rule: "Abstract interpretation over go/ssa in a bit-provenance domain: for an integer with unknown bits every path of the encoder yields a byte sequence, and every path of the decoder over exactly these bytes gives back the input bits and consumes all of them; for unknown bytes, every path on which the decoder succeeds yields the concatenation of their payload bits with no bit dropped. The buffer layer is decided with symbolic buffer positions and partial reads and writes.",
		Run:  runC10})
}

// byteIO is a stream of abstract bytes in the state.
func putByte(st *State, v V) {
	n := 0
	if l, ok := st.mem["@bytes"]; ok {
		n = int(l.v.(Lin).c)
	}
	st.keep(fmt.Sprintf("byte%d", n), v)
	st.keep("bytes", lin(int64(n+1)))
}

func nBytes(st *State) int {
	if l, ok := st.mem["@bytes"]; ok {
		return int(l.v.(Lin).c)
	}
	return 0
}

func isNilErr(v V) bool { _, ok := v.(Nilv); return ok }

// errGlobals: error variables of a package are errors.
func errGlobals(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
	if strings.HasPrefix(p.o.id, "g:") && len(p.path) == 0 && types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true, []Opt{{st, Tag{p.o.id}}}
	}
	return false, nil
}

// payload for unknown bytes: want bits of the value.
func payload(st *State, n int, w int) (Bits, bool) {
	r := Bits{w: w}
	for i := 0; i < n; i++ {
		b, ok := st.kept(fmt.Sprintf("byte%d", i)).(Bits)
		if !ok {
			return r, false
		}
		for j := 0; j < 7; j++ {
			k := 7*i + j
			if k < w {
				r.b[k] = b.b[j]
			} else if b.b[j] != 0 {
				return r, false
			}
		}
		last := i == n-1
		if b.b[7] != 0 && last || b.b[7] != 1 && !last {
			return r, false
		}
	}
	return r, true
}

func runC10(r *Report) {
	P := r.P
	// crisp
	vio := P.Type("crisp", "vu32io")
	fld := map[string]int{}
	for _, n := range []string{"rw", "buf", "r", "w", "out", "n"} {
		fld[n] = fieldIndex(P, "crisp", "vu32io", n)
	}
	key := func(n string) string { return "field:" + vio.String() + "." + n }
	cell0 := func(st *State, n string) V { return st.mem["IO."+fmt.Sprint(fld[n])].v }
	set := func(st *State, n string, v V) {
		o := &Obj{id: "IO"}
		p := []pe{{f: fld[n]}}
		st.mem[cellKey(Ptr{o, p})] = cell{o, p, key(n), v}
	}
	io := Ptr{o: &Obj{id: "IO"}}
	fresh := func() *State {
		st := newState()
		set(st, "buf", Slice{&Obj{id: "BUF"}, Lin{}, lin(1024), lin(1024)})
		set(st, "out", Slice{&Obj{id: "OUT"}, Lin{}, lin(1024), lin(1024)})
		set(st, "r", lin(0))
		set(st, "w", lin(16))
		set(st, "n", lin(0))
		return st
	}
	in := func(i int) (*Obj, []pe, string) {
		o := &Obj{id: "BUF"}
		p := []pe{{f: -1, idx: lin(int64(i))}}
		return o, p, cellKey(Ptr{o, p})
	}
	wr, rd := P.Func("crisp", "vu32io.writeu32"), P.Func("crisp", "vu32io.readu32")
	{
		st := fresh()
		x := inputBits(32, 0, 32)
		st.keep("want", x)
		E, outs := call1(P, st, wr, io, x)
		for f := range E.Funcs {
			r.Fn(f)
		}
		good := 0
		for _, o := range outs {
			if o.Kind == "limit" {
				r.Ob("crisp-inverse", "writeu32", false, wr.Pos(), "the encoder does not end")
				continue
			}
			if o.Kind != "return" || !isNilErr(o.Ret[0]) {
				continue // a write error
			}
			n, ok := cell0(o.St, "n").(Lin)
			if !ok || !n.isConst() || n.c < 1 || n.c > 5 {
				r.Ob("crisp-inverse", "writeu32", false, wr.Pos(), "the encoder leaves %v bytes in the buffer, expected 1 to 5", cell0(o.St, "n"))
				continue
			}
			good++
			s2 := o.St
			for i := 0; i < int(n.c); i++ {
				ob, p, k := in(i)
				v := s2.mem["OUT["+fmt.Sprint(i)+"]"].v
				if v == nil {
					v = Top{}
				}
				s2.mem[k] = cell{ob, p, "elem:byte", v}
			}
			set(s2, "r", lin(0))
			set(s2, "w", lin(n.c)) // nothing more to read
			set(s2, "n", lin(0))
			s2.fr = nil
			_, o2 := call1(P, s2, rd, io)
			rets := 0
			okk, det := true, ""
			for _, q := range o2 {
				if q.Kind != "return" {
					okk, det = false, "the decoder ends with "+q.Kind
					continue
				}
				rets++
				if !isNilErr(q.Ret[1]) {
					okk, det = false, fmt.Sprintf("the decoder fails on %d written bytes", n.c)
				} else if !sameV(q.Ret[0], q.St.kept("want")) {
					okk, det = false, fmt.Sprintf("decoded %v from %v", q.Ret[0], q.St.kept("want"))
				} else if !sameV(cell0(q.St, "r"), lin(n.c)) {
					okk, det = false, fmt.Sprintf("decoder consumed %v of %d bytes", cell0(q.St, "r"), n.c)
				}
			}
			r.Ob("crisp-inverse", fmt.Sprintf("%d bytes", n.c), okk && rets > 0, rd.Pos(), "%s", det)
		}
		r.Floor("crisp-inverse", 5)
	}
	// decoding of arbitrary bytes
	{
		st := fresh()
		for i := 0; i < 16; i++ {
			ob, p, k := in(i)
			v := inputBits(8, 8*i, 8)
			st.mem[k] = cell{ob, p, "elem:byte", v}
			st.keep(fmt.Sprintf("byte%d", i), v)
		}
		_, outs := call1(P, st, rd, io)
		n := 0
		for _, o := range outs {
			if o.Kind == "limit" {
				r.Ob("crisp-decode", "readu32", false, rd.Pos(), "the decoder does not end")
			}
			if o.Kind != "return" || !isNilErr(o.Ret[1]) {
				continue
			}
			n++
			k, ok := cell0(o.St, "r").(Lin)
			ok = ok && k.isConst()
			det := "the number of consumed bytes is not known"
			if ok {
				var want Bits
				want, ok = payload(o.St, int(k.c), 32)
				det = fmt.Sprintf("%d bytes are accepted although they do not encode a 32 bit integer", k.c)
				if ok && !sameV(o.Ret[0], want) {
					ok, det = false, fmt.Sprintf("decoded %v from %d bytes, expected %v", o.Ret[0], k.c, want)
				}
			}
			if ok {
				det = ""
			}
			r.Ob("crisp-decode", fmt.Sprintf("path %d", n), ok, rd.Pos(), "%s", det)
		}
		r.Floor("crisp-decode", 1)
	}
	crispBuffer(r, io, fld, set, cell0)

	// aiger
	w7, r7 := P.Func("logic/aiger", "write7"), P.Func("logic/aiger", "read7")
	hook := func(E *Interp, limit func(st *State) int) {
		E.Load = errGlobals
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			name := ""
			if fn != nil {
				name = fn.Name()
			} else if ci.Common().IsInvoke() {
				name = ci.Common().Method.Name()
			}
			if fn != nil && P.inRepo(fn) {
				return false, nil
			}
			switch name {
			case "WriteByte":
				putByte(st, args[len(args)-1])
				bad := st.clone()
				bad.keep("failed", Boolv(true))
				return true, []Opt{{st, Nilv{}}, {bad, Tag{"write error"}}}
			case "ReadByte":
				i := 0
				if c, ok := st.mem["@read"]; ok {
					i = int(c.v.(Lin).c)
				}
				if i >= limit(st) {
					return true, []Opt{{st, Tuple{lin(0), Tag{"g:io.EOF"}}}}
				}
				st.keep("read", lin(int64(i+1)))
				return true, []Opt{{st, Tuple{st.kept(fmt.Sprintf("byte%d", i)), Nilv{}}}}
			}
			return false, nil
		}
	}
	E := newInterp(P)
	E.Unroll = 12
	hook(E, nBytes)
	st := newState()
	x := inputBits(64, 0, 62)
	st.keep("want", x)
	outs := E.Run(st, w7, []V{Unk{"w"}, x}, nil)
	r.Fn(w7, r7)
	for _, o := range outs {
		if o.Kind == "limit" {
			r.Ob("aiger-inverse", "write7", false, w7.Pos(), "the encoder does not end")
		}
		if o.Kind != "return" || !isNilErr(o.Ret[0]) {
			continue
		}
		if _, failed := o.St.mem["@failed"]; failed {
			continue
		}
		n := nBytes(o.St)
		o.St.fr = nil
		E2 := newInterp(P)
		E2.Unroll = 12
		hook(E2, nBytes)
		ok, det, rets := true, "", 0
		for _, q := range E2.Run(o.St, r7, []V{Unk{"r"}}, nil) {
			if q.Kind != "return" {
				ok, det = false, "the decoder ends with "+q.Kind
				continue
			}
			rets++
			if !isNilErr(q.Ret[1]) {
				ok, det = false, fmt.Sprintf("the decoder fails on %d written bytes", n)
			} else if !sameV(q.Ret[0], q.St.kept("want")) {
				ok, det = false, fmt.Sprintf("decoded %v from %v", q.Ret[0], q.St.kept("want"))
			} else if !sameV(q.St.kept("read"), lin(int64(n))) {
				ok, det = false, fmt.Sprintf("decoder consumed %v of %d bytes", q.St.kept("read"), n)
			}
		}
		r.Ob("aiger-inverse", fmt.Sprintf("%d bytes", n), ok && rets > 0, r7.Pos(), "%s", det)
	}
	r.Floor("aiger-inverse", 9)
	// arbitrary bytes
	E3 := newInterp(P)
	E3.Unroll = 16
	hook(E3, func(*State) int { return 14 })
	st3 := newState()
	for i := 0; i < 14; i++ {
		st3.keep(fmt.Sprintf("byte%d", i), inputBits(8, 8*i, 8))
	}
	n := 0
	for _, o := range E3.Run(st3, r7, []V{Unk{"r"}}, nil) {
		if o.Kind == "limit" {
			r.Ob("aiger-decode", "read7", false, r7.Pos(), "the decoder does not end")
		}
		if o.Kind != "return" || !isNilErr(o.Ret[1]) {
			continue
		}
		n++
		k := int(o.St.kept("read").(Lin).c)
		want, ok := payload(o.St, k, 64)
		det := fmt.Sprintf("%d bytes are accepted although they do not encode a machine integer", k)
		if ok && !sameV(o.Ret[0], want) {
			ok, det = false, fmt.Sprintf("decoded %v from %d bytes, expected %v", o.Ret[0], k, want)
		}
		if ok {
			det = ""
		}
		r.Ob("aiger-decode", fmt.Sprintf("path %d", n), ok, r7.Pos(), "%s", det)
	}
	r.Floor("aiger-decode", 5)
	r.Assume("bufio and the underlying connection deliver bytes in order; AIGER deltas are below 2^62")
}

// crispBuffer decides the buffer layer of the crisp stream.
func crispBuffer(r *Report, io Ptr, fld map[string]int, set func(*State, string, V), cell0 func(*State, string) V) {
	P := r.P
	sym := func(id string) Lin { return linSym(&Sym{id: id, lo: i64(0), hi: i64(1 << 30)}) }
	// writes: out[0:n] is sent, whatever the sizes of the partial writes
	fl := P.Func("crisp", "vu32io.flush")
	r.Fn(fl)
	N := sym("n")
	mkIO := func(unroll int) *Interp {
		E := newInterp(P)
		E.Unroll = unroll
		E.Call = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
			c := ci.Common()
			if !c.IsInvoke() {
				return false, nil
			}
			nm := c.Method.Name()
			if nm != "Read" && nm != "Write" {
				return false, nil
			}
			s, ok := args[1].(Slice)
			if !ok {
				return false, nil
			}
			st.seq++
			k := sym(fmt.Sprintf("%s#%d", nm, st.seq))
			if l, ok := s.len.(Lin); ok {
				st.facts = append(st.facts, l.add(k, -1))
			}
			st.events = append(st.events, Event{Kind: nm, Args: []V{s, k}, Pos: ci.Pos()})
			bad := st.clone()
			return true, []Opt{{st, Tuple{k, Nilv{}}}, {bad, Tuple{k, Tag{"io error"}}}}
		}
		return E
	}
	eq := func(E *Interp, st *State, a, b V) bool {
		x, ok1 := a.(Lin)
		y, ok2 := b.(Lin)
		if !ok1 || !ok2 {
			return false
		}
		d := x.add(y, -1)
		return E.geq0(st, d) && E.geq0(st, d.scale(-1))
	}
	{
		st := newState()
		set(st, "out", Slice{&Obj{id: "OUT"}, Lin{}, sym("cap"), sym("cap")})
		set(st, "n", N)
		E := mkIO(3)
		ok, det, rets := true, "", 0
		for _, o := range E.Run(st, fl, []V{io}, nil) {
			if o.Kind != "return" || !isNilErr(o.Ret[0]) {
				continue
			}
			rets++
			sent := lin(0)
			for _, e := range o.St.events {
				s := e.Args[0].(Slice)
				if s.o.id != "OUT" || !eq(E, o.St, s.off, sent) {
					ok, det = false, fmt.Sprintf("a write starts at %v where %v bytes are sent", s, sent)
				}
				sent = sent.add(e.Args[1].(Lin), 1)
			}
			if !eq(E, o.St, sent, N) {
				ok, det = false, fmt.Sprintf("flush succeeds with %v of %v bytes sent", sent, N)
			}
			if !sameV(cell0(o.St, "n"), lin(0)) {
				ok, det = false, fmt.Sprintf("%v bytes stay in the buffer after a successful flush", cell0(o.St, "n"))
			}
		}
		r.Ob("crisp-stream", "flush", ok && rets > 0, fl.Pos(), "%s", det)
	}
	{
		// writeByte
		f := P.Func("crisp", "vu32io.writeByte")
		r.Fn(f)
		st := newState()
		cp := linSym(&Sym{id: "cap", lo: i64(16), hi: i64(1 << 30)})
		set(st, "out", Slice{&Obj{id: "OUT"}, Lin{}, cp, cp})
		set(st, "n", N)
		st.facts = append(st.facts, cp.add(N, -1))
		E := mkIO(3)
		ok, det, rets := true, "", 0
		b := Tag{"the byte"}
		for _, o := range E.Run(st, f, []V{io, b}, nil) {
			if o.Kind != "return" || !isNilErr(o.Ret[0]) {
				continue
			}
			rets++
			n, isl := cell0(o.St, "n").(Lin)
			if !isl {
				ok, det = false, "the number of buffered bytes is lost"
				continue
			}
			flushed := len(o.St.events) > 0
			if !flushed && !eq(E, o.St, n, N.add(lin(1), 1)) {
				ok, det = false, fmt.Sprintf("%v bytes are buffered after %v and one more", n, N)
			}
			if flushed && !eq(E, o.St, n, lin(1)) {
				ok, det = false, fmt.Sprintf("%v bytes are buffered after a flush and one byte", n)
			}
			c, has := o.St.mem["OUT["+n.add(lin(1), -1).String()+"]"]
			if !has || !sameV(c.v, b) {
				ok, det = false, "the byte is not the last of the buffer"
			}
		}
		r.Ob("crisp-stream", "writeByte", ok && rets > 0, f.Pos(), "%s", det)
	}
	{
		// readByte: the next unconsumed byte, filling only an empty buffer
		f := P.Func("crisp", "vu32io.readByte")
		r.Fn(f)
		st := newState()
		cp := linSym(&Sym{id: "cap", lo: i64(16), hi: i64(1 << 30)})
		R, W := sym("r"), sym("w")
		set(st, "buf", Slice{&Obj{id: "BUF"}, Lin{}, cp, cp})
		set(st, "out", Slice{&Obj{id: "OUT"}, Lin{}, cp, cp})
		set(st, "r", R)
		set(st, "w", W)
		set(st, "n", lin(0))
		st.keep("r was", R)
		st.keep("w was", W)
		st.facts = append(st.facts, cp.add(W, -1), W.add(R, -1))
		E := mkIO(3)
		E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
			if p.o.id == "BUF" && len(p.path) == 1 {
				return true, []Opt{{st, Tag{"byte@" + p.path[0].idx.String()}}}
			}
			return false, nil
		}
		ok, det, rets := true, "", 0
		for _, o := range E.Run(st, f, []V{io}, nil) {
			if o.Kind != "return" {
				continue
			}
			if !isNilErr(o.Ret[1]) {
				for _, e := range o.St.events {
					if !E.geq0(o.St, e.Args[1].(Lin).scale(-1)) {
						ok, det = false, "bytes which come together with an error are lost"
					}
				}
				continue
			}
			rets++
			nr, ok1 := cell0(o.St, "r").(Lin)
			nw, ok2 := cell0(o.St, "w").(Lin)
			if !ok1 || !ok2 {
				ok, det = false, "the positions are lost"
				continue
			}
			R, W := o.St.kept("r was").(Lin), o.St.kept("w was").(Lin)
			was := nr.add(lin(1), -1)
			if o.Ret[0].String() != "#byte@"+was.String() {
				ok, det = false, fmt.Sprintf("the byte returned is %v, at read position %v", o.Ret[0], was)
			}
			if len(o.St.events) == 0 {
				if !eq(E, o.St, was, R) || !eq(E, o.St, nw, W) {
					ok, det = false, "the positions move by other than one byte"
				}
				if !E.geq0(o.St, nw.add(nr, -1)) {
					ok, det = false, "a byte is returned which was not read"
				}
				continue
			}
			// everything was consumed, and the fresh data starts at the read position
			end := was
			for i, e := range o.St.events {
				s := e.Args[0].(Slice)
				if i < len(o.St.events)-1 && !E.geq0(o.St, e.Args[1].(Lin).scale(-1)) {
					ok, det = false, "more bytes are waited for although there are some"
				}
				if l, isl := s.len.(Lin); !isl || !E.geq0(o.St, l.add(lin(1), -1)) {
					ok, det = false, "bytes are read into no space"
				}
				if s.o.id != "BUF" || !eq(E, o.St, s.off, end) {
					ok, det = false, fmt.Sprintf("data is read to %v, where %v is expected", s, end)
				}
				end = end.add(e.Args[1].(Lin), 1)
			}
			if !eq(E, o.St, end, nw) {
				ok, det = false, fmt.Sprintf("the write position is %v after data up to %v", nw, end)
			}
			if !E.geq0(o.St, R.add(W, -1)) && !eq(E, o.St, R, W) {
				ok, det = false, "unconsumed bytes are dropped"
			}
			if !E.geq0(o.St, nw.add(nr, -1)) {
				ok, det = false, "a byte is returned which was not read"
			}
		}
		r.Ob("crisp-stream", "readByte", ok && rets > 0, f.Pos(), "%s", det)
	}
	r.Floor("crisp-stream", 3)
}
