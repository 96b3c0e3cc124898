package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values of the interpreter in absint.go.

// V is an abstract value.  Its String is canonical: equal strings mean
// equal values.
type V interface{ String() string }

type (
	// Top is any value.
	Top struct{}
	// Undef is a value which cannot be observed.
	Undef struct{}
	// Boolv is a known Boolean.
	Boolv bool
	// BitBool is a Boolean equal to a bit of the input.
	BitBool struct{ b bit }
	// Strv is a known string.
	Strv string
	// Other is a constant of another kind (floats).
	Other struct{ c constant.Value }
	// Nilv is nil of any type.
	Nilv struct{}
	// Sym is a named unknown integer.
	Sym struct {
		id     string
		lo, hi *int64
	}
	// Lin is an integer: a linear combination of symbols.
	Lin struct {
		c int64
		t []term // sorted by symbol, coefficients non zero
	}
	// Tab is a word each of whose bits is the same function of the bits at its
	// place in up to six words: its truth table.
	Tab uint64
	// TV is a literal of which only the truth value is known.
	TV bool
	// Ptr points into an object.
	Ptr struct {
		o    *Obj
		path []pe
	}
	// Slice is a window into an object.
	Slice struct {
		o        *Obj
		off      Lin
		len, cap V
	}
	// Struct is a struct or array value.
	Struct struct{ f []V }
	// Fnv is a function with bindings.
	Fnv struct {
		fn *ssa.Function
		b  []V
	}
	// Tuple is a multiple result.
	Tuple []V
	// Iface is a value in an interface.
	Iface struct {
		v V
		t types.Type
	}
	// Tag is a named opaque value (non nil).
	Tag struct{ id string }
	// Bits is a machine word with known provenance of every bit.
	Bits struct {
		w int
		s bool
		b [64]bit
	}
)

type bit int16 // 0, 1, bTop, or 2+2i (input bit i), 3+2i (its negation)

const bTop bit = -1

type term struct {
	s *Sym
	k int64
}

// Obj is an abstract memory object.
type Obj struct {
	id   string
	zero bool // cells never written hold the zero value
}

type pe struct {
	f   int // field, or -1 for an index
	idx Lin
}

func (Top) String() string     { return "⊤" }
func (Undef) String() string   { return "undef" }
func (b Boolv) String() string { return fmt.Sprint(bool(b)) }
func (b BitBool) String() string {
	return fmt.Sprintf("bit(%d)", b.b)
}
func (s Strv) String() string  { return fmt.Sprintf("%q", string(s)) }
func (o Other) String() string { return o.c.ExactString() }
func (Nilv) String() string    { return "nil" }
func (t Tab) String() string   { return fmt.Sprintf("table %#x", uint64(t)) }
func (t TV) String() string    { return fmt.Sprintf("lit=%v", bool(t)) }
func (t Tag) String() string   { return "#" + t.id }
func (l Lin) String() string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.c)
	}
	var b strings.Builder
	for i, t := range l.t {
		if i > 0 {
			b.WriteByte('+')
		}
		if t.k != 1 {
			fmt.Fprintf(&b, "%d*", t.k)
		}
		b.WriteString(t.s.id)
	}
	if l.c != 0 {
		fmt.Fprintf(&b, "%+d", l.c)
	}
	return b.String()
}
func pathStr(p []pe) string {
	var b strings.Builder
	for _, e := range p {
		if e.f >= 0 {
			fmt.Fprintf(&b, ".%d", e.f)
		} else {
			fmt.Fprintf(&b, "[%s]", e.idx)
		}
	}
	return b.String()
}
func (p Ptr) String() string { return "&" + p.o.id + pathStr(p.path) }
func (s Slice) String() string {
	return fmt.Sprintf("%s[%s:%s:%s]", s.o.id, s.off, s.len, s.cap)
}
func (s Struct) String() string {
	var p []string
	for _, f := range s.f {
		p = append(p, f.String())
	}
	return "{" + strings.Join(p, ",") + "}"
}
func (f Fnv) String() string {
	var p []string
	for _, x := range f.b {
		p = append(p, x.String())
	}
	return "fn " + f.fn.String() + "(" + strings.Join(p, ",") + ")"
}
func (t Tuple) String() string {
	var p []string
	for _, x := range t {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, ",") + ")"
}
func (i Iface) String() string { return "iface(" + i.v.String() + ")" }
func (x Bits) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "bits%d:", x.w)
	for i := x.w - 1; i >= 0; i-- {
		switch v := x.b[i]; {
		case v == bTop:
			b.WriteByte('?')
		case v < 2:
			fmt.Fprintf(&b, "%d", v)
		case v%2 == 0:
			fmt.Fprintf(&b, "<%d>", v/2-1)
		default:
			fmt.Fprintf(&b, "<~%d>", v/2-1)
		}
	}
	return b.String()
}

func lin(c int64) Lin { return Lin{c: c} }

func linSym(s *Sym) Lin { return Lin{t: []term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.t) == 0 }

func (l Lin) add(o Lin, k int64) Lin {
	r := Lin{c: l.c + k*o.c}
	if len(o.t) == 0 {
		r.t = l.t
		return r
	}
	// both are sorted by symbol
	i, j := 0, 0
	for i < len(l.t) || j < len(o.t) {
		switch {
		case j == len(o.t) || i < len(l.t) && l.t[i].s.id < o.t[j].s.id:
			r.t = append(r.t, l.t[i])
			i++
		case i == len(l.t) || o.t[j].s.id < l.t[i].s.id:
			if k != 0 {
				r.t = append(r.t, term{o.t[j].s, k * o.t[j].k})
			}
			j++
		default:
			if c := l.t[i].k + k*o.t[j].k; c != 0 {
				r.t = append(r.t, term{l.t[i].s, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: l.c * k}
	for _, t := range l.t {
		r.t = append(r.t, term{t.s, t.k * k})
	}
	return r
}

func (l Lin) divisible(k int64) bool {
	for _, t := range l.t {
		if t.k%k != 0 {
			return false
		}
	}
	return true
}

func floordiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// bounds gives the interval of l from the bounds of its symbols.
func (l Lin) bounds() (lo, hi *int64) {
	a, b := l.c, l.c
	lok, hik := true, true
	for _, t := range l.t {
		slo, shi := t.s.lo, t.s.hi
		if t.k < 0 {
			slo, shi = shi, slo
		}
		if slo == nil {
			lok = false
		} else {
			a += t.k * *slo
		}
		if shi == nil {
			hik = false
		} else {
			b += t.k * *shi
		}
	}
	if lok {
		lo = &a
	}
	if hik {
		hi = &b
	}
	return
}

func constBits(v int64, w int, signed bool) Bits {
	r := Bits{w: w, s: signed}
	for i := 0; i < 64 && i < w; i++ {
		r.b[i] = bit((uint64(v) >> uint(i)) & 1)
	}
	return r
}

// inputBits makes a word whose low n bits are the inputs first, first+1, ...
func inputBits(w, first, n int) Bits {
	r := Bits{w: w}
	for i := 0; i < n && i < w; i++ {
		r.b[i] = bit(2 + 2*(first+i))
	}
	return r
}

func (x Bits) constant() (int64, bool) {
	var v uint64
	for i := 0; i < x.w; i++ {
		if x.b[i] != 0 && x.b[i] != 1 {
			return 0, false
		}
		v |= uint64(x.b[i]) << uint(i)
	}
	if x.s && x.w < 64 && x.b[x.w-1] == 1 {
		v |= ^uint64(0) << uint(x.w)
	}
	return int64(v), true
}

func (x Bits) resize(w int, signed bool) Bits {
	r := Bits{w: w, s: signed}
	for i := 0; i < w; i++ {
		switch {
		case i < x.w:
			r.b[i] = x.b[i]
		case x.s:
			r.b[i] = x.b[x.w-1]
		}
	}
	return r
}

func bnot(a bit) bit {
	if a == bTop {
		return bTop
	}
	return a ^ 1
}

func band(a, b bit) bit {
	switch {
	case a == 0 || b == 0:
		return 0
	case a == 1:
		return b
	case b == 1:
		return a
	case a == b && a != bTop:
		return a
	case a != bTop && b != bTop && a == bnot(b):
		return 0
	}
	return bTop
}

func bor(a, b bit) bit { return bnot(band(bnot(a), bnot(b))) }

func bxor(a, b bit) bit {
	switch {
	case a == 0:
		return b
	case b == 0:
		return a
	case a == 1:
		return bnot(b)
	case b == 1:
		return bnot(a)
	case a == bTop || b == bTop:
		return bTop
	case a == b:
		return 0
	case a == bnot(b):
		return 1
	}
	return bTop
}

func badd(x, y Bits, carry bit) Bits {
	r := Bits{w: x.w, s: x.s}
	for i := 0; i < x.w; i++ {
		a, b := x.b[i], y.b[i]
		r.b[i] = bxor(bxor(a, b), carry)
		// majority
		switch {
		case a == 0:
			carry = band(b, carry)
		case b == 0:
			carry = band(a, carry)
		case carry == 0:
			carry = band(a, b)
		case a == 1:
			carry = bor(b, carry)
		case b == 1:
			carry = bor(a, carry)
		case carry == 1:
			carry = bor(a, b)
		default:
			carry = bTop
		}
	}
	return r
}

func intWidth(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed, true
	case types.Int16, types.Uint16:
		return 16, signed, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, signed, true
	}
	return 64, signed, true
}
