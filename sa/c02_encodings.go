package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C02", Level: "other",
		Rule: "Abstract interpretation of the encoding functions over go/ssa in the bit-provenance domain (every bit of a word is 0, 1, an input bit or its negation) and the linear-integer domain: decoding the abstract result of encoding must give back the input itself.",
		Run:  runC02})
}

func runC02(r *Report) {
	P := r.P
	rawZ = true
	defer func() { rawZ = false }()
	m := func(t, n string) *ssa.Function { return P.Func("z", t+"."+n) }
	pos, neg := m("Var", "Pos"), m("Var", "Neg")
	vr, not, sign, ispos, dim := m("Lit", "Var"), m("Lit", "Not"), m("Lit", "Sign"), m("Lit", "IsPos"), m("Lit", "Dimacs")
	d2l := P.Func("z", "Dimacs2Lit")
	one := func(f *ssa.Function) link { return link{f, recv} }

	// the same obligation may be provable in either domain
	type mk func() (V, V) // input, expectation
	ob := func(rule, name string, at *ssa.Function, links []link, ms ...mk) {
		ok, det := false, ""
		for _, f := range ms {
			in, want := f()
			st := newState()
			st.keep("want", want)
			o, d := evalChain(P, r, st, in, links, "want")
			if o {
				ok = true
				break
			}
			det = d
		}
		if ok {
			det = ""
		}
		r.Ob(rule, name, ok, at.Pos(), "%s", det)
	}
	vbits := func() V { return inputBits(32, 0, 31) }
	vsym := func() V { return linSym(&Sym{id: "v", lo: i64(1), hi: i64(1<<31 - 1)}) }
	litb := func() V { return inputBits(32, 0, 32) }
	same := func(f func() V) mk { return func() (V, V) { v := f(); return v, v } }
	to := func(f func() V, want V) mk { return func() (V, V) { return f(), want } }
	ob("literal", "Pos then Var is the variable", pos, []link{one(pos), one(vr)}, same(vbits), same(vsym))
	ob("literal", "Neg then Var is the variable", neg, []link{one(neg), one(vr)}, same(vbits), same(vsym))
	ob("literal", "Not twice is the identity", not, []link{one(not), one(not)}, same(litb))
	ob("literal", "Pos is positive", ispos, []link{one(pos), one(ispos)}, to(vbits, Boolv(true)), to(vsym, Boolv(true)))
	ob("literal", "Neg is not positive", ispos, []link{one(neg), one(ispos)}, to(vbits, Boolv(false)), to(vsym, Boolv(false)))
	ob("literal", "not Pos is not positive", not, []link{one(pos), one(not), one(ispos)}, to(vbits, Boolv(false)), to(vsym, Boolv(false)))
	ob("literal", "not Neg is positive", not, []link{one(neg), one(not), one(ispos)}, to(vbits, Boolv(true)), to(vsym, Boolv(true)))
	ob("literal", "not Pos keeps the variable", not, []link{one(pos), one(not), one(vr)}, same(vbits), same(vsym))
	ob("literal", "not Neg keeps the variable", not, []link{one(neg), one(not), one(vr)}, same(vbits), same(vsym))
	ob("literal", "Sign of Pos", sign, []link{one(pos), one(sign)}, to(vbits, lin(1)), to(vsym, lin(1)))
	ob("literal", "Sign of Neg", sign, []link{one(neg), one(sign)}, to(vbits, lin(-1)), to(vsym, lin(-1)))
	ob("dimacs", "Pos has its positive DIMACS code", dim, []link{one(pos), one(dim)}, same(vsym))
	ob("dimacs", "Neg has its negative DIMACS code", dim, []link{one(neg), one(dim)}, func() (V, V) {
		v := vsym().(Lin)
		return v, v.scale(-1)
	})
	ob("dimacs", "a positive code is read back as Pos", d2l, []link{one(d2l), one(dim)}, same(vsym))
	ob("dimacs", "a negative code is read back as Neg", d2l, []link{one(d2l), one(dim)}, func() (V, V) {
		v := vsym().(Lin)
		return v.scale(-1), v.scale(-1)
	})
	// the code of Pos(v) is v itself: Dimacs2Lit(v) = Pos(v)
	for i, f := range []*ssa.Function{pos, neg} {
		st := newState()
		v := vsym().(Lin)
		_, outs := call1(P, st, f, v)
		ok, det := len(outs) == 1 && outs[0].Kind == "return", "no single result"
		if ok {
			st2 := newState()
			st2.keep("want", outs[0].Ret[0])
			in := v
			if i == 1 {
				in = v.scale(-1)
			}
			ok, det = evalChain(P, r, st2, in, []link{one(d2l)}, "want")
		}
		r.Ob("dimacs", "code of "+f.Name(), ok, d2l.Pos(), "%s", det)
	}
	st0 := newState()
	st0.keep("want", lin(0))
	ok, det := evalChain(P, r, st0, lin(0), []link{one(d2l)}, "want")
	r.Ob("dimacs", "zero is the null literal", ok, d2l.Pos(), "%s", det)
	r.Floor("literal", 11)
	r.Floor("dimacs", 7)

	// watches: location 32 bits at inputs 0.., literal 31 bits at 32.., binary flag at 63
	mw := P.Func("internal/xo", "MakeWatch")
	wm := func(n string) *ssa.Function { return P.Func("internal/xo", "Watch."+n) }
	loc, other := inputBits(32, 0, 32), inputBits(32, 32, 31)
	bin := BitBool{bit(2 + 2*63)}
	loc2 := inputBits(32, 64, 32)
	watch := func(name string, at *ssa.Function, want V, links ...link) {
		st := newState()
		st.keep("want", want)
		ls := append([]link{{mw, func(V, *State) []V { return []V{loc, other, bin} }}}, links...)
		// the flag is a branch condition: keep the bit in the state
		st.keep("bin", bin)
		ls[0].args = func(_ V, s *State) []V { return []V{loc, other, s.kept("bin")} }
		o, d := evalChain(P, r, st, Nilv{}, ls, "want")
		r.Ob("watch", name, o, at.Pos(), "%s", d)
	}
	watch("location", wm("C"), loc, one(wm("C")))
	watch("blocking literal", wm("Other"), other, one(wm("Other")))
	watch("binary flag", wm("IsBinary"), bin, one(wm("IsBinary")))
	rel := link{wm("Relocate"), func(p V, _ *State) []V { return []V{p, loc2} }}
	watch("relocated location", wm("Relocate"), loc2, rel, one(wm("C")))
	watch("blocking literal after relocation", wm("Relocate"), other, rel, one(wm("Other")))
	watch("binary flag after relocation", wm("Relocate"), bin, rel, one(wm("IsBinary")))
	r.Floor("watch", 6)

	// clause headers: learnt flag 0, lbd 64 bits from 1, size 64 bits from 65
	mc := P.Func("internal/xo", "MakeChd")
	cm := func(n string) *ssa.Function { return P.Func("internal/xo", "Chd."+n) }
	wide := func(first int) Bits {
		b := inputBits(64, first, 63)
		b.s = true
		return b
	}
	low := func(first, n int) V { return inputBits(32, first, n) }
	lrn := BitBool{bit(2)}
	lbdBits := constOr(P, "internal/xo", "lbdBits", 4)
	szBits := constOr(P, "internal/xo", "szBits", 5)
	chd := func(name string, at *ssa.Function, want V, links ...link) {
		st := newState()
		st.keep("want", want)
		st.keep("lrn", lrn)
		ls := append([]link{{mc, func(_ V, s *State) []V { return []V{s.kept("lrn"), wide(1), wide(65)} }}}, links...)
		o, d := evalChain(P, r, st, Nilv{}, ls, "want")
		r.Ob("header", name, o, at.Pos(), "%s", d)
	}
	bump := link{cm("Bump"), func(p V, _ *State) []V { return []V{p, inputBits(32, 130, 32)} }}
	first := link{cm("Decay"), func(p V, _ *State) []V { return []V{p.(Tuple)[0]} }}
	tup := func(f *ssa.Function) link {
		return link{f, func(p V, _ *State) []V {
			if t, ok := p.(Tuple); ok {
				return []V{t[0]}
			}
			return []V{p}
		}}
	}
	for _, c := range []struct {
		name string
		f    *ssa.Function
		want V
	}{
		{"size", cm("Size"), low(65, szBits)},
		{"literal block distance", cm("Lbd"), low(1, lbdBits)},
		{"learnt flag", cm("Learnt"), lrn},
	} {
		chd(c.name, c.f, c.want, tup(c.f))
		chd(c.name+" after a bump", cm("Bump"), c.want, bump, tup(c.f))
		chd(c.name+" after a decay", cm("Decay"), c.want, one(cm("Decay")), tup(c.f))
		chd(c.name+" after bump and decay", cm("Decay"), c.want, bump, first, tup(c.f))
	}
	r.Floor("header", 12)
	inPlace(r, cm)
	r.Assume("variables are below 2^31; sizes and distances are stored modulo their documented widths")
	_ = token.NoPos
}

func constOr(P *Prog, pkg, name string, d int) (n int) {
	n = d
	defer func() { recover() }()
	n = int(P.ConstVal(pkg, name))
	return
}

// inPlace decides that the functions which raise or lower the heat of stored
// clauses write back headers which differ from what is stored in it alone.
func inPlace(r *Report, cm func(string) *ssa.Function) {
	P := r.P
	hdr := inputBits(32, 0, 32)
	parts := []string{"Size", "Lbd", "Learnt"}
	part := func(st *State, f *ssa.Function, v V) V {
		_, outs := call1(P, st.clone(), f, v)
		if len(outs) == 1 && outs[0].Kind == "return" && len(outs[0].Ret) == 1 {
			return outs[0].Ret[0]
		}
		return nil
	}
	for _, n := range []string{"CDat.Bump", "Cdb.Bump"} {
		f := P.Func(xoPkg, n)
		h := newXO(P)
		h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
			if p.o.id == "CDat.D" {
				return one1(st, hdr)
			}
			return false, nil
		}
		stores, bad, at := 0, "", f.Pos()
		h.E.Store = func(st *State, p Ptr, key string, v V, pos token.Pos) {
			if p.o.id != "CDat.D" {
				return
			}
			stores++
			for _, pn := range parts {
				x, y := part(st, cm(pn), hdr), part(st, cm(pn), v)
				if x == nil || y == nil || !sameV(x, y) {
					bad, at = fmt.Sprintf("the header written back may differ in its %s", pn), pos
				}
			}
		}
		for _, o := range h.E.Run(newState(), f, []V{h.ptr(strings.Split(n, ".")[0]), linSym(&Sym{id: "p", lo: i64(2), hi: i64(1<<32 - 1)})}, nil) {
			if o.Kind == "limit" {
				bad = "not analysed to its end"
			}
		}
		for g := range h.E.Funcs {
			r.Fn(g)
		}
		r.Ob("in place", fmt.Sprintf("%s: %d headers written", n, stores), bad == "", at, "%s", bad)
	}
	r.Floor("in place", 2)
}
