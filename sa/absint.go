package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A forward abstract interpreter over SSA with disjunctive (powerset) states.
// Calls of functions of the repository are analysed in the context of the
// caller, so extracting a helper does not change what is derived.  Loops whose
// bound is not known are analysed for one generic iteration starting from
// an arbitrary state of what the loop changes.

// Unk is a named unknown value which is not an integer.
type Unk struct{ id string }

func (u Unk) String() string { return "?" + u.id }

type cell struct {
	o    *Obj
	path []pe
	key  string
	v    V
}

// Event is something observable which happened on a path.
type Event struct {
	Kind string
	Args []V
	Pos  token.Pos
	Fn   string
}

type nodeval struct {
	l Lin
	b bool
}

type frame struct {
	fn  *ssa.Function
	env map[ssa.Value]V
	cnt map[*ssa.BasicBlock]int
	dfr []deferred
}

type deferred struct {
	in   ssa.CallInstruction
	fn   *ssa.Function
	bind []V
	args []V
}

// State is one abstract state.
type State struct {
	fr     []*frame
	mem    map[string]cell
	val    map[string]nodeval // truth values of circuit variables
	facts  []Lin              // known to be >= 0
	neq    []Lin              // known to be different from 0
	events []Event
	dirty  map[string]bool
	wr     map[string][]Lin // indexes stored to since the object was made
	seq    int
	notes  map[string]string
}

func newState() *State {
	return &State{mem: map[string]cell{}, val: map[string]nodeval{}, dirty: map[string]bool{}, wr: map[string][]Lin{}, notes: map[string]string{}}
}

func (s *State) clone() *State {
	t := &State{mem: make(map[string]cell, len(s.mem)), val: make(map[string]nodeval, len(s.val)), seq: s.seq,
		dirty: make(map[string]bool, len(s.dirty)), notes: make(map[string]string, len(s.notes))}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	for k, v := range s.val {
		t.val[k] = v
	}
	for k, v := range s.dirty {
		t.dirty[k] = v
	}
	for k, v := range s.notes {
		t.notes[k] = v
	}
	t.wr = make(map[string][]Lin, len(s.wr))
	for k, v := range s.wr {
		t.wr[k] = append([]Lin(nil), v...)
	}
	t.facts = append([]Lin(nil), s.facts...)
	t.neq = append([]Lin(nil), s.neq...)
	t.events = append([]Event(nil), s.events...)
	for _, f := range s.fr {
		g := &frame{fn: f.fn, env: make(map[ssa.Value]V, len(f.env)), cnt: make(map[*ssa.BasicBlock]int, len(f.cnt))}
		for k, v := range f.env {
			g.env[k] = v
		}
		for k, v := range f.cnt {
			g.cnt[k] = v
		}
		g.dfr = append([]deferred(nil), f.dfr...)
		t.fr = append(t.fr, g)
	}
	return t
}

func (s *State) top() *frame { return s.fr[len(s.fr)-1] }

// Opt is one of several results.
type Opt struct {
	st *State
	v  V
}

// Outcome is one way a call ends.
type Outcome struct {
	Kind string // "return", "panic", "back", "limit"
	Ret  []V
	St   *State
	Hdr  *ssa.BasicBlock // for back
	Prev *ssa.BasicBlock
	Pos  token.Pos
	Env  map[ssa.Value]V // the variables on return
}

// Interp is a configured interpreter.
type Interp struct {
	P      *Prog
	Unroll int // >0: iterate loops up to this bound
	// Call may handle a call: it returns true and the results.
	Call func(st *State, c ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt)
	// Load gives the value of a cell which was never written.
	Load func(st *State, p Ptr, key string, t types.Type) (bool, []Opt)
	// Alias tells for which tables an access is divided by whether it meets
	// a cell which was accessed before.
	Alias func(o *Obj) bool
	// Bounds tells for which tables an access shows that the index is in range.
	Bounds func(o *Obj) bool
	// Lookup gives the result of a map lookup (a pair in its comma-ok form).
	Lookup func(st *State, in *ssa.Lookup, m, k V) (bool, []Opt)
	tabs   tabs
	// OnNext observes a step of the iteration over a map.
	OnNext func(st *State, m V, t Tuple)
	// Chan observes channel operations ("send", "recv", "select", "default",
	// "makechan"), and gives the value and success of a receive.
	Chan func(st *State, kind string, ch V, v V, t types.Type) []Opt
	// OnGo observes the start of a goroutine.
	OnGo func(st *State, fn *ssa.Function, bind, args []V)
	// MapSet observes the setting of a map entry, or its removal (v is "uniq:removed").
	OnText func(st *State, bytes, text V) // a text made of bytes
	MapSet func(st *State, m, k, v V, pos token.Pos)
	// Loaded observes a load.
	Loaded func(st *State, p Ptr, key string, v V)
	// Store observes a store.
	Store func(st *State, p Ptr, key string, v V, pos token.Pos)
	// Havoc gives the options of a loop variable at the head of the loop.
	Havoc func(st *State, phi *ssa.Phi, init V) (bool, []Opt)
	// Back observes a back edge of a loop with a generic iteration.
	Back func(st *State, hdr, prev *ssa.BasicBlock, phis map[*ssa.Phi]V)
	// Enter observes a state which enters a loop to be analysed for one
	// generic iteration; the result is called on the states at its head.
	Enter func(st *State, hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) func(*State)
	// Peel tells to analyse the first iteration of a loop on its own.
	Peel func(fn *ssa.Function, hdr *ssa.BasicBlock) bool
	// UnrollLoop overrides Unroll for one loop.
	UnrollLoop func(fn *ssa.Function, hdr *ssa.BasicBlock) (bool, int)

	budget int
	// NoMods are functions which a model replaces; what they change is up to it.
	NoMods    map[*ssa.Function]bool
	copyStore map[*ssa.Store]bool
	Funcs     map[*ssa.Function]bool
	back      map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	mods      map[*ssa.Function]map[string]bool
	stack     []*ssa.Function
}

type undecided string

func newInterp(P *Prog) *Interp {
	return &Interp{P: P, budget: 2000000, Funcs: map[*ssa.Function]bool{},
		back: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, mods: map[*ssa.Function]map[string]bool{}}
}

func i64(x int64) *int64 { return &x }

// Unknown makes a named unknown of a type.
func (E *Interp) Unknown(st *State, id string, t types.Type) V {
	st.seq++
	id = fmt.Sprintf("%s#%d", id, st.seq)
	return mkUnknown(id, t)
}

func mkUnknown(id string, t types.Type) V {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return Tuple{}
		}
		var r Tuple
		for i := 0; i < tt.Len(); i++ {
			r = append(r, mkUnknown(fmt.Sprintf("%s.%d", id, i), tt.At(i).Type()))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			s := &Sym{id: id}
			if u.Info()&types.IsUnsigned != 0 {
				s.lo = i64(0)
			}
			w, sg, _ := intWidth(t)
			switch {
			case w == 8 && !sg:
				s.hi = i64(255)
			case w == 32 && !sg:
				s.hi = i64(1<<32 - 1)
			}
			return linSym(s)
		}
	case *types.Slice:
		return Slice{o: &Obj{id: "o:" + id}, len: linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), cap: linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})}
	case *types.Struct:
		var f []V
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, mkUnknown(fmt.Sprintf("%s.%d", id, i), u.Field(i).Type()))
		}
		return Struct{f}
	}
	return Unk{id}
}

func zeroOf(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return lin(0)
		case u.Info()&types.IsBoolean != 0:
			return Boolv(false)
		case u.Info()&types.IsString != 0:
			return Strv("")
		case u.Info()&types.IsFloat != 0:
			return Other{constant.MakeFloat64(0)}
		}
		return Nilv{}
	case *types.Struct:
		var f []V
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, zeroOf(u.Field(i).Type()))
		}
		return Struct{f}
	case *types.Array:
		if u.Len() <= 64 {
			var f []V
			for i := int64(0); i < u.Len(); i++ {
				f = append(f, zeroOf(u.Elem()))
			}
			return Struct{f}
		}
		return Top{}
	}
	return Nilv{}
}

func (E *Interp) get(st *State, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				if i, ok := constInt(v.Value); ok {
					return lin(i)
				}
			case b.Info()&types.IsBoolean != 0:
				return Boolv(constant.BoolVal(v.Value))
			case b.Info()&types.IsString != 0:
				return Strv(constant.StringVal(v.Value))
			}
		}
		return Other{v.Value}
	case *ssa.Function:
		return Fnv{fn: v}
	case *ssa.Global:
		return Ptr{o: &Obj{id: "g:" + v.String()}}
	case *ssa.Builtin:
		return Top{}
	}
	if x, ok := st.top().env[v]; ok {
		return x
	}
	return Top{}
}

func cellKey(p Ptr) string { return p.o.id + pathStr(p.path) }

func addrKey(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return "field:" + deref(a.X.Type()).String() + "." + fieldOf(a).Name()
	case *ssa.IndexAddr:
		return "elem:" + deref(a.Type()).String()
	}
	return "var:" + deref(addr.Type()).String()
}

// load reads the cell at p.
func (E *Interp) load(st *State, p Ptr, key string, t types.Type) []Opt {
	// aggregates are read piecewise
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if _, ok := st.mem[cellKey(p)]; !ok {
			return E.loadParts(st, p, t, u.NumFields(), func(i int) (pe, types.Type, string) {
				return pe{f: i}, u.Field(i).Type(), "field:" + t.String() + "." + u.Field(i).Name()
			})
		}
	case *types.Array:
		if u.Len() <= 16 {
			return E.loadParts(st, p, t, int(u.Len()), func(i int) (pe, types.Type, string) {
				return pe{f: -1, idx: lin(int64(i))}, u.Elem(), "elem:" + u.Elem().String()
			})
		}
	}
	k := cellKey(p)
	if c, ok := st.mem[k]; ok {
		return []Opt{{st, c.v}}
	}
	outside := false
	// copied from another object?
	if n := len(p.path); n > 0 {
		if c, ok := st.mem[p.o.id+"#base"]; ok && p.path[0].f < 0 && !st.dirty[key] {
			if tu, ok := c.v.(Tuple); ok && E.clean(st, p, key) {
				s, doff := tu[0].(Slice), tu[1].(Lin)
				rel := p.path[0].idx.add(doff, -1)
				in := E.geq0(st, rel)
				for _, n := range []V{tu[2], s.len} {
					l, ok := n.(Lin)
					in = in && ok && E.geq0(st, l.add(rel, -1).add(lin(1), -1))
				}
				if in {
					q := Ptr{s.o, append([]pe{{f: -1, idx: s.off.add(rel, 1)}}, p.path[1:]...)}
					return E.load(st, q, key, t)
				}
				// beyond what was copied, as it was made
				out := E.geq0(st, lin(-1).add(rel, -1))
				for _, n := range []V{tu[2], s.len} {
					l, ok := n.(Lin)
					out = out || ok && E.geq0(st, rel.add(l, -1))
				}
				if out && p.o.zero {
					v := zeroOf(t)
					st.mem[k] = cell{p.o, p.path, key, v}
					return []Opt{{st, v}}
				}
				if E.Load == nil {
					v := E.Unknown(st, k, t)
					st.mem[k] = cell{p.o, p.path, key, v}
					return []Opt{{st, v}}
				}
				outside = true
			}
		}
	}
	if E.Load != nil {
		if ok, opts := E.Load(st, p, key, t); ok {
			for _, o := range opts {
				o.st.mem[k] = cell{p.o, p.path, key, o.v}
			}
			return opts
		}
	}
	if outside {
		v := E.Unknown(st, k, t)
		st.mem[k] = cell{p.o, p.path, key, v}
		return []Opt{{st, v}}
	}
	var v V
	if p.o.zero && E.clean(st, p, key) && !st.dirty[key] {
		v = zeroOf(t)
	} else {
		v = E.Unknown(st, k, t)
	}
	st.mem[k] = cell{p.o, p.path, key, v}
	return []Opt{{st, v}}
}

// short tells that a loop counts by one from a constant to a constant which is
// near: it is followed as it is.
func (E *Interp) short(st *State, hdr *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool, phis map[*ssa.Phi]V) bool {
	if len(hdr.Instrs) == 0 {
		return false
	}
	cond, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	if b, ok := cmp.Y.(ssa.Instruction); ok {
		if b.Block() == nil || b.Block() == hdr || !b.Block().Dominates(hdr) {
			return false
		}
	}
	up := func(v ssa.Value, phi *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != phi {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Value.String() == "1"
	}
	for phi, v := range phis {
		if cmp.X != ssa.Value(phi) && !up(cmp.X, phi) {
			continue
		}
		for i, p := range hdr.Preds {
			if tails[p] && !up(phi.Edges[i], phi) {
				return false
			}
		}
		at, ok := v.(Lin)
		if !ok || !at.isConst() {
			return false
		}
		n, ok := E.get(st, cmp.Y).(Lin)
		return ok && n.isConst() && n.c-at.c <= 12
	}
	return false
}

// exitsNow tells that a loop is left at once because of an error met before it.
func (E *Interp) exitsNow(st *State, hdr *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool, phis map[*ssa.Phi]V) bool {
	var cond *ssa.BinOp
	for _, in := range hdr.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			if cond != nil {
				return false
			}
			cond = in
		case *ssa.If:
			if cond == nil || in.Cond != ssa.Value(cond) {
				return false
			}
		default:
			return false
		}
	}
	if cond == nil || len(hdr.Succs) != 2 || cond.Op != token.EQL && cond.Op != token.NEQ {
		return false
	}
	of := func(v ssa.Value) V {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == hdr {
			return phis[p]
		}
		return E.get(st, v)
	}
	x, y := of(cond.X), of(cond.Y)
	if _, ok := y.(Nilv); !ok {
		return false
	}
	b, ok := E.cmp(st, cond.Op, x, y, cond.X.Type()).(Boolv)
	if !ok {
		return false
	}
	out := hdr.Succs[1]
	if b {
		out = hdr.Succs[0]
	}
	// it does not come back
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock) bool
	back = func(b *ssa.BasicBlock) bool {
		if b == hdr {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if hdr.Dominates(s) && back(s) {
				return true
			}
		}
		return false
	}
	return !back(out)
}

// clean tells that the cell at p was never stored to since its object was made.
func (E *Interp) clean(st *State, p Ptr, key string) bool {
	if st.dirty[p.o.id+"|"+key] {
		return false
	}
	for _, w := range st.wr[p.o.id+"|"+key] {
		if len(p.path) == 0 || p.path[0].f >= 0 {
			return false
		}
		d := p.path[0].idx.add(w, -1)
		if s := E.sign(st, d); s != "+" && s != "-" && !st.notZero(d) {
			return false
		}
	}
	return true
}

// splits divides st by whether an access meets a cell known so far, for
// objects chosen by Alias.
func (E *Interp) splits(st *State, addr ssa.Value) []*State {
	if E.Alias == nil {
		return []*State{st}
	}
	p, ok := E.get(st, addr).(Ptr)
	if !ok || len(p.path) != 1 || p.path[0].f >= 0 || !E.Alias(p.o) {
		return []*State{st}
	}
	for _, k := range sortedKeys(st.mem) {
		c := st.mem[k]
		if c.o == nil || c.o.id != p.o.id || len(c.path) != 1 || c.path[0].f >= 0 {
			continue
		}
		d := p.path[0].idx.add(c.path[0].idx, -1)
		if d.isConst() || st.notZero(d) || E.sign(st, d) != "" {
			continue
		}
		var r []*State
		eq := st.clone()
		if E.assumeEq(eq, p.path[0].idx, c.path[0].idx) && E.feasible(eq) {
			r = append(r, E.splits(eq, addr)...)
		}
		st.setNotZero(d)
		return append(r, E.splits(st, addr)...)
	}
	return []*State{st}
}

// feasible looks for a contradiction.
func (E *Interp) feasible(st *State) bool {
	for _, f := range st.facts {
		if E.geq0(st, f.scale(-1).add(lin(1), -1)) {
			return false
		}
	}
	return true
}

func (E *Interp) loadParts(st *State, p Ptr, t types.Type, n int, part func(i int) (pe, types.Type, string)) []Opt {
	opts := []Opt{{st, Struct{}}}
	for i := 0; i < n; i++ {
		e, ft, key := part(i)
		var nxt []Opt
		for _, o := range opts {
			q := Ptr{p.o, append(append([]pe(nil), p.path...), e)}
			for _, w := range E.load(o.st, q, key, ft) {
				f := append(append([]V(nil), o.v.(Struct).f...), w.v)
				nxt = append(nxt, Opt{w.st, Struct{f}})
			}
		}
		opts = nxt
	}
	return opts
}

// store writes v to the cell at p.
func (E *Interp) store(st *State, p Ptr, key string, t types.Type, v V, pos token.Pos) {
	if s, ok := v.(Struct); ok {
		delete(st.mem, cellKey(p))
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields() && i < len(s.f); i++ {
				q := Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: i})}
				E.store(st, q, "field:"+t.String()+"."+u.Field(i).Name(), u.Field(i).Type(), s.f[i], pos)
			}
			return
		case *types.Array:
			for i := 0; i < int(u.Len()) && i < len(s.f); i++ {
				q := Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: -1, idx: lin(int64(i))})}
				E.store(st, q, "elem:"+u.Elem().String(), u.Elem(), s.f[i], pos)
			}
			return
		}
	}
	// forget cells which may be the same
	for i, e := range p.path {
		if e.f >= 0 {
			continue
		}
		for k, c := range st.mem {
			if c.o == nil || c.o.id != p.o.id || len(c.path) <= i || c.path[i].f >= 0 {
				continue
			}
			if pathStr(c.path[:i]) != pathStr(p.path[:i]) || len(c.path) < len(p.path) {
				continue
			}
			if pathStr(dropIdx(c.path[:len(p.path)])) != pathStr(dropIdx(p.path)) {
				continue
			}
			d := c.path[i].idx.add(e.idx, -1)
			if len(d.t) == 0 {
				continue // equal (overwritten below) or different
			}
			if E.decide(st, d) != 0 || E.decide(st, d.scale(-1)) != 0 {
				if E.sign(st, d) == "+" || E.sign(st, d) == "-" {
					continue
				}
			}
			if st.notZero(d) {
				continue
			}
			delete(st.mem, k)
		}
		if i == 0 {
			st.wr[p.o.id+"|"+key] = append(st.wr[p.o.id+"|"+key], e.idx)
		} else {
			st.dirty[p.o.id+"|"+key] = true
		}
	}
	// drop parts of an overwritten aggregate
	k := cellKey(p)
	for kk, c := range st.mem {
		if c.o != nil && c.o.id == p.o.id && len(c.path) > len(p.path) && strings.HasPrefix(kk, k) {
			delete(st.mem, kk)
		}
	}
	st.mem[k] = cell{p.o, p.path, key, v}
	if E.Store != nil {
		E.Store(st, p, key, v, pos)
	}
}

func dropIdx(p []pe) []pe {
	r := make([]pe, len(p))
	for i, e := range p {
		r[i] = pe{f: e.f}
	}
	return r
}

// sign decides the sign of l: "+", "-", "0", or "".
func (E *Interp) sign(st *State, l Lin) string {
	if l.isConst() {
		switch {
		case l.c > 0:
			return "+"
		case l.c < 0:
			return "-"
		}
		return "0"
	}
	if E.geq0(st, l.add(lin(1), -1)) {
		return "+"
	}
	if E.geq0(st, l.scale(-1).add(lin(1), -1)) {
		return "-"
	}
	return ""
}

// tight gives the strongest form of l >= 0 over the integers.
func tight(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	var g int64
	for _, t := range l.t {
		if g = gcd(g, t.k); g == 1 {
			return l
		}
	}
	if g < 0 {
		g = -g
	}
	return divLin(l, g)
}

// geq0 tells whether l >= 0 is known.
func (E *Interp) geq0(st *State, l Lin) bool {
	l = tight(l)
	if lo, _ := l.bounds(); lo != nil && *lo >= 0 {
		return true
	}
	facts := st.facts
	for i, f := range facts {
		if t := tight(f); len(t.t) > 0 && t.t[0].k != f.t[0].k {
			if &facts[0] == &st.facts[0] {
				facts = append([]Lin(nil), facts...)
			}
			facts[i] = t
		}
	}
	for i, f := range facts {
		d := l.add(f, -1)
		if lo, _ := d.bounds(); lo != nil && *lo >= 0 {
			return true
		}
		for _, g := range facts[:i] {
			d2 := d.add(g, -1)
			if lo, _ := d2.bounds(); lo != nil && *lo >= 0 {
				return true
			}
		}
	}
	if entails(facts, l, 4, map[int]bool{}) {
		return true
	}
	l1 := l.add(lin(1), 1)
	return len(st.neq) > 0 && st.notZero(l1) && entails(facts, l1, 4, map[int]bool{})
}

// entails tells whether l >= 0 follows from the facts (all >= 0) and the
// bounds of the symbols, eliminating one symbol after the other.
func entails(facts []Lin, l Lin, depth int, used map[int]bool) bool {
	if lo, _ := l.bounds(); lo != nil && *lo >= 0 {
		return true
	}
	if depth == 0 || len(l.t) == 0 {
		return false
	}
	try := func(t term) bool {
		for i, f := range facts {
			if used[i] {
				continue
			}
			for _, u := range f.t {
				if u.s.id != t.s.id || (u.k > 0) != (t.k > 0) {
					continue
				}
				a, b := u.k, t.k
				if a < 0 {
					a, b = -a, -b
				}
				g := gcd(a, b)
				if a/g > 64 || b/g > 64 {
					continue
				}
				used[i] = true
				ok := entails(facts, l.scale(a/g).add(f, -b/g), depth-1, used)
				delete(used, i)
				if ok {
					return true
				}
			}
		}
		return false
	}
	for _, t := range l.t {
		if t.k > 0 && t.s.lo == nil || t.k < 0 && t.s.hi == nil {
			return try(t)
		}
	}
	for _, t := range l.t {
		if try(t) {
			return true
		}
	}
	return false
}

// decide: 1 if l >= 0, -1 if l < 0, 0 if unknown.
func (E *Interp) decide(st *State, l Lin) int {
	if E.geq0(st, l) {
		return 1
	}
	if E.geq0(st, l.scale(-1).add(lin(1), -1)) {
		return -1
	}
	return 0
}

// tv gives the truth value of a literal.
func (E *Interp) tv(st *State, v V) (bool, bool) {
	switch v := v.(type) {
	case TV:
		return bool(v), true
	case Lin:
		if v.isConst() {
			switch v.c {
			case 2:
				return true, true
			case 3:
				return false, true
			}
			if v.c < 2 {
				return false, false
			}
		}
		if !v.divisible(2) {
			return false, false
		}
		s := v.c & 1
		half := Lin{c: (v.c - s) / 2}
		for _, t := range v.t {
			half.t = append(half.t, term{t.s, t.k / 2})
		}
		if half.isConst() && half.c == 1 {
			return s == 0, true
		}
		if x, ok := st.val[half.String()]; ok {
			return x.b != (s == 1), true
		}
	}
	return false, false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func isLit(t types.Type) bool { return isNamed(t, "z", "Lit") }

// cmp evaluates a comparison.
func (E *Interp) cmp(st *State, op token.Token, x, y V, t types.Type) V {
	if bx, ok := x.(Bits); ok {
		v := cmpBits(op, bx, y, t)
		if _, top := v.(Top); top && st.knownNeq(bx, y) {
			l, _ := y.(Lin)
			switch {
			case op == token.EQL:
				return Boolv(false)
			case op == token.NEQ, op == token.GTR && l.c == 0 && !bx.s:
				return Boolv(true)
			case op == token.LEQ && l.c == 0 && !bx.s:
				return Boolv(false)
			}
		}
		return v
	}
	if _, ok := y.(Bits); ok {
		return E.cmp(st, flip(op), y, x, t)
	}
	lx, okx := x.(Lin)
	ly, oky := y.(Lin)
	if okx && oky {
		d := lx.add(ly, -1)
		switch op {
		case token.EQL, token.NEQ:
			r := 0 // unknown
			if d.isConst() {
				r = -1
				if d.c == 0 {
					r = 1
				}
			} else {
				var g int64
				for _, t := range d.t {
					g = gcd(g, t.k)
				}
				if d.c%g != 0 {
					r = -1
				}
				if s := E.sign(st, d); s == "+" || s == "-" {
					r = -1
				}
				if r == 0 && isLit(t) {
					a, ok1 := E.tv(st, x)
					b, ok2 := E.tv(st, y)
					if ok1 && ok2 && a != b {
						r = -1
					}
				}
				if r == 0 && E.geq0(st, d) && E.geq0(st, d.scale(-1)) {
					r = 1
				}
				if r == 0 && st.notZero(d) {
					r = -1
				}
			}
			if r == 0 {
				return Top{}
			}
			return Boolv((r == 1) == (op == token.EQL))
		case token.LSS: // x<y: y-x-1>=0
			return triBool(E.decide(st, d.scale(-1).add(lin(1), -1)))
		case token.LEQ:
			return triBool(E.decide(st, d.scale(-1)))
		case token.GTR:
			return triBool(E.decide(st, d.add(lin(1), -1)))
		case token.GEQ:
			return triBool(E.decide(st, d))
		}
		return Top{}
	}
	if op != token.EQL && op != token.NEQ {
		return Top{}
	}
	r := 0
	_, tx := x.(TV)
	_, ty := y.(TV)
	switch {
	case tx || ty:
		a, ok1 := E.tv(st, x)
		b, ok2 := E.tv(st, y)
		if ok1 && ok2 && a != b {
			r = -1
		}
	default:
		r = eqConst(x, y)
	}
	if r == 0 {
		return Top{}
	}
	return Boolv((r == 1) == (op == token.EQL))
}

// tabOf sees a word whose bits are all the same as a table.
func tabOf(v V) (Tab, bool) {
	switch x := v.(type) {
	case Tab:
		return x, true
	case Lin:
		if x.isConst() && (x.c == 0 || x.c == -1) {
			return Tab(x.c), true
		}
	case Other:
		if u, ok := constant.Uint64Val(x.c); ok && u == 1<<64-1 {
			return Tab(u), true
		}
	}
	return 0, false
}

func triBool(d int) V {
	switch d {
	case 1:
		return Boolv(true)
	case -1:
		return Boolv(false)
	}
	return Top{}
}

func nonNil(v V) bool {
	switch v := v.(type) {
	case Slice:
		// a slice of a length which is not zero
		l, ok := v.len.(Lin)
		if !ok {
			return false
		}
		lo, _ := l.bounds()
		return lo != nil && *lo > 0
	case Ptr, Fnv, Tag, Iface:
		return true
	}
	return false
}

// mayBe tells whether an error of some kind may be the named one.
func mayBe(kind, named string) bool {
	if strings.HasPrefix(named, "uniq:a ") {
		return false
	}
	switch {
	case strings.HasPrefix(kind, "uniq:a failed "):
		return named != "uniq:io.EOF" // the end is not a failure
	case kind == "uniq:a report":
		return false
	}
	return strings.HasPrefix(kind, "uniq:a ")
}

func eqConst(x, y V) int {
	_, nx := x.(Nilv)
	_, ny := y.(Nilv)
	switch {
	case nx && ny:
		return 1
	case nx && nonNil(y) || ny && nonNil(x):
		return -1
	}
	switch a := x.(type) {
	case Boolv, Strv, Other:
		switch y.(type) {
		case Boolv, Strv, Other:
			if x.String() == y.String() {
				return 1
			}
			return -1
		}
	case Tag:
		if b, ok := y.(Tag); ok {
			if a.id == b.id {
				return 1
			}
			if strings.HasPrefix(a.id, "uniq:") && strings.HasPrefix(b.id, "uniq:") && !mayBe(a.id, b.id) && !mayBe(b.id, a.id) {
				return -1
			}
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			if a.String() == b.String() {
				return 1
			}
		}
	case Unk:
		if b, ok := y.(Unk); ok && a.id == b.id {
			return 1
		}
	}
	return 0
}

// notZero tells whether d was assumed different from zero.
func (st *State) notZero(d Lin) bool {
	if d.isConst() {
		return d.c != 0
	}
	var g int64
	for _, t := range d.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		if d.c%g != 0 {
			return true
		}
		if st.notZero(divLin(d, g)) {
			return true
		}
	}
	x, y := d.String(), ""
	for _, n := range st.neq {
		switch z := n.String(); {
		case z == x:
			return true
		case y == "":
			y = d.scale(-1).String()
			fallthrough
		default:
			if z == y {
				return true
			}
		}
	}
	return false
}

// setNotZero records that d differs from zero.
func (st *State) setNotZero(d Lin) {
	if !d.isConst() && !st.notZero(d) {
		st.neq = append(st.neq, d)
	}
}

// knownNeq tells whether x was assumed different from the constant y.
func (st *State) knownNeq(x Bits, y V) bool {
	l, ok := y.(Lin)
	return ok && l.isConst() && st.notes["ne:"+x.String()+":"+l.String()] != ""
}

func (st *State) setNeq(x, y V) {
	b, ok1 := x.(Bits)
	l, ok2 := y.(Lin)
	if ok1 && ok2 && l.isConst() {
		for _, v := range b.b[:b.w] {
			if v == bTop { // nothing is known to be the same word
				return
			}
		}
		st.notes["ne:"+b.String()+":"+l.String()] = "y"
	}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpBits(op token.Token, x Bits, y V, t types.Type) V {
	yb, ok := y.(Bits)
	if !ok {
		l, isl := y.(Lin)
		if !isl || !l.isConst() {
			return Top{}
		}
		yb = constBits(l.c, x.w, x.s)
	}
	// equality, and ordering of unsigned words, from the top bit down
	switch op {
	case token.EQL, token.NEQ:
		eq := bit(1)
		for i := 0; i < x.w; i++ {
			eq = band(eq, bnot(bxor(x.b[i], yb.b[i])))
		}
		if op == token.NEQ {
			eq = bnot(eq)
		}
		return bitV(eq)
	case token.LSS, token.GEQ, token.GTR, token.LEQ:
		if x.s && (x.b[x.w-1] != 0 || yb.b[x.w-1] != 0) {
			return Top{}
		}
		a, b := x, yb
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		// a < b
		lt, eq := bit(0), bit(1)
		for i := x.w - 1; i >= 0; i-- {
			lt = bor(lt, band(eq, band(bnot(a.b[i]), b.b[i])))
			eq = band(eq, bnot(bxor(a.b[i], b.b[i])))
		}
		if op == token.GEQ || op == token.LEQ {
			lt = bnot(lt)
		}
		return bitV(lt)
	}
	return Top{}
}

func bitV(b bit) V {
	switch b {
	case 0:
		return Boolv(false)
	case 1:
		return Boolv(true)
	case bTop:
		return Top{}
	}
	return BitBool{b}
}

// binop evaluates an arithmetic operation.
func (E *Interp) binop(st *State, op token.Token, x, y V, t types.Type) V {
	if bx, ok := x.(Boolv); ok {
		if by, ok := y.(Boolv); ok {
			switch op {
			case token.AND, token.LAND:
				return bx && by
			case token.OR, token.LOR:
				return bx || by
			}
		}
	}
	if tvx, ok := x.(TV); ok {
		if l, ok := y.(Lin); ok && l.isConst() && l.c == 1 && op == token.XOR {
			return !tvx
		}
		return Top{}
	}
	_, tx := x.(Tab)
	_, ty := y.(Tab)
	if tx || ty {
		a, ok1 := tabOf(x)
		b, ok2 := tabOf(y)
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.XOR:
				return a ^ b
			case token.AND_NOT:
				return a &^ b
			}
		}
		return E.Unknown(st, "word", t)
	}
	bx, xb := x.(Bits)
	by, yb := y.(Bits)
	lx, xl := x.(Lin)
	ly, yl := y.(Lin)
	w, signed, isInt := intWidth(t)
	if !isInt {
		if sx, ok := x.(Strv); ok && op == token.ADD {
			if sy, ok := y.(Strv); ok {
				return sx + sy
			}
		}
		return E.Unknown(st, "op", t)
	}
	if xb || yb {
		if op == token.SHL || op == token.SHR {
			if !yl || !ly.isConst() || !xb {
				return E.unkBits(st, w, signed)
			}
			n := int(ly.c)
			r := Bits{w: w, s: signed}
			for i := 0; i < w; i++ {
				j := i - n
				if op == token.SHR {
					j = i + n
				}
				switch {
				case j >= 0 && j < bx.w:
					r.b[i] = bx.b[j]
				case j >= bx.w && bx.s:
					r.b[i] = bx.b[bx.w-1]
				}
			}
			return r
		}
		if !xb {
			if !xl || !lx.isConst() {
				return E.unkBits(st, w, signed)
			}
			bx = constBits(lx.c, w, signed)
		}
		if !yb {
			if !yl || !ly.isConst() {
				return E.unkBits(st, w, signed)
			}
			by = constBits(ly.c, w, signed)
		}
		r := Bits{w: w, s: signed}
		switch op {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			for i := 0; i < w; i++ {
				a, b := bx.b[i], by.b[i]
				switch op {
				case token.AND:
					r.b[i] = band(a, b)
				case token.OR:
					r.b[i] = bor(a, b)
				case token.XOR:
					r.b[i] = bxor(a, b)
				default:
					r.b[i] = band(a, bnot(b))
				}
			}
			return r
		case token.ADD:
			return badd(bx, by, 0)
		case token.SUB:
			n := by
			for i := 0; i < w; i++ {
				n.b[i] = bnot(by.b[i])
			}
			return badd(bx, n, 1)
		case token.MUL, token.QUO, token.REM:
			if c, ok := by.constant(); ok && c > 0 && c&(c-1) == 0 && !signed {
				k := int64(0)
				for c>>uint(k) > 1 {
					k++
				}
				switch op {
				case token.MUL:
					return E.binop(st, token.SHL, bx, lin(k), t)
				case token.QUO:
					return E.binop(st, token.SHR, bx, lin(k), t)
				}
				return E.binop(st, token.AND, bx, lin(c-1), t)
			}
			return E.unkBits(st, w, signed)
		}
		return E.unkBits(st, w, signed)
	}
	if !xl || !yl {
		return E.Unknown(st, "op", t)
	}
	switch op {
	case token.ADD:
		return lx.add(ly, 1)
	case token.SUB:
		return lx.add(ly, -1)
	case token.MUL:
		if ly.isConst() {
			return lx.scale(ly.c)
		}
		if lx.isConst() {
			return ly.scale(lx.c)
		}
	case token.SHL:
		if ly.isConst() && ly.c < 62 {
			return lx.scale(1 << uint(ly.c))
		}
		if lx.isConst() && lx.c == 1 {
			// a power of two, the same one for the same exponent
			return linSym(&Sym{id: "2^(" + ly.String() + ")", lo: i64(0)})
		}
	case token.SHR:
		if ly.isConst() && ly.c < 62 {
			k := int64(1) << uint(ly.c)
			if lx.divisible(k) {
				return divLin(lx, k)
			}
		}
	case token.QUO:
		if ly.isConst() && ly.c > 0 {
			if lx.isConst() {
				return lin(lx.c / ly.c)
			}
			if lx.divisible(ly.c) && (lx.c%ly.c == 0 || E.geq0(st, lx)) {
				return divLin(lx, ly.c)
			}
			if E.geq0(st, lx.add(lin(ly.c-1), 1)) {
				// truncation: k*q is within k-1 of x, and not negative
				st.seq++
				q := linSym(&Sym{id: fmt.Sprintf("quo#%d", st.seq), lo: i64(0)})
				st.facts = append(st.facts, q.scale(ly.c).add(lx, -1).add(lin(ly.c-1), 1))
				if E.geq0(st, lx) {
					st.facts = append(st.facts, lx.add(q, -ly.c))
				} else {
					st.facts = append(st.facts, lx.add(lin(ly.c-1), 1).add(q, -ly.c))
				}
				return q
			}
		}
	case token.REM:
		if ly.isConst() && ly.c > 0 {
			if lx.isConst() {
				return lin(lx.c % ly.c)
			}
			if lx.divisible(ly.c) && E.geq0(st, lx) {
				return lin(lx.c - ly.c*floordiv(lx.c, ly.c))
			}
			if E.geq0(st, lx) {
				st.seq++
				return linSym(&Sym{id: fmt.Sprintf("rem#%d of %v", st.seq, lx), lo: i64(0), hi: i64(ly.c - 1)})
			}
		}
		st.seq++
		return linSym(&Sym{id: fmt.Sprintf("rem#%d of %v", st.seq, lx)})
	case token.AND:
		if lx.isConst() && !ly.isConst() {
			lx, ly = ly, lx
		}
		if ly.isConst() {
			if lx.isConst() {
				return lin(lx.c & ly.c)
			}
			m := ly.c
			if m >= 0 && m&(m+1) == 0 && lx.divisible(m+1) {
				return lin(lx.c & m)
			}
			if m < 0 && (-m)&(-m-1) == 0 && lx.divisible(-m) { // clear low bits
				return lx.add(lin(lx.c&(-m-1)), -1)
			}
		}
	case token.OR, token.XOR, token.AND_NOT:
		if op != token.AND_NOT && lx.isConst() && !ly.isConst() {
			lx, ly = ly, lx
		}
		if op != token.AND_NOT && !lx.isConst() && !ly.isConst() {
			// with no bit in common, it is a sum
			for _, xy := range [][2]Lin{{lx, ly}, {ly, lx}} {
				for p := int64(2); p <= 1<<16; p *= 2 {
					if !xy[0].divisible(p) || xy[0].c%p != 0 {
						break
					}
					if E.geq0(st, xy[1]) && E.geq0(st, lin(p-1).add(xy[1], -1)) {
						return xy[0].add(xy[1], 1)
					}
				}
			}
		}
		if ly.isConst() {
			if lx.isConst() {
				switch op {
				case token.OR:
					return lin(lx.c | ly.c)
				case token.XOR:
					return lin(wrap(lx.c^ly.c, w, signed))
				}
				return lin(lx.c &^ ly.c)
			}
			m := ly.c
			if m >= 0 {
				p := int64(1)
				for p <= m {
					p *= 2
				}
				if lx.divisible(p) {
					low := lx.c & (p - 1)
					base := lx.add(lin(low), -1)
					switch op {
					case token.OR:
						low |= m
					case token.XOR:
						low ^= m
					default:
						low &^= m
					}
					return base.add(lin(low), 1)
				}
			}
		}
	}
	if lx.isConst() && ly.isConst() {
		switch op {
		case token.SHL:
			return lin(wrap(lx.c<<uint64(ly.c), w, signed))
		case token.SHR:
			return lin(lx.c >> uint64(ly.c))
		case token.QUO, token.REM:
			if ly.c != 0 {
				if op == token.QUO {
					return lin(lx.c / ly.c)
				}
				return lin(lx.c % ly.c)
			}
		}
	}
	return E.Unknown(st, "op", t)
}

func divLin(l Lin, k int64) Lin {
	r := Lin{c: floordiv(l.c, k)}
	for _, t := range l.t {
		r.t = append(r.t, term{t.s, t.k / k})
	}
	return r
}

func wrap(v int64, w int, signed bool) int64 {
	if w == 64 {
		return v
	}
	v &= 1<<uint(w) - 1
	if signed && v>>(uint(w)-1) != 0 {
		v -= 1 << uint(w)
	}
	return v
}

func (E *Interp) unkBits(st *State, w int, s bool) V {
	r := Bits{w: w, s: s}
	for i := 0; i < w; i++ {
		r.b[i] = bTop
	}
	return r
}

// mapV rebuilds v with f applied to integers and unknowns.
func mapV(v V, f func(V) V) V {
	switch x := v.(type) {
	case Lin, Unk, Bits, BitBool:
		return f(v)
	case Ptr:
		return Ptr{x.o, mapPath(x.path, f)}
	case Slice:
		return Slice{x.o, mapLin(x.off, f), mapV(x.len, f), mapV(x.cap, f)}
	case Struct:
		r := make([]V, len(x.f))
		for i := range x.f {
			r[i] = mapV(x.f[i], f)
		}
		return Struct{r}
	case Tuple:
		r := make(Tuple, len(x))
		for i := range x {
			r[i] = mapV(x[i], f)
		}
		return r
	case Fnv:
		r := make([]V, len(x.b))
		for i := range x.b {
			r[i] = mapV(x.b[i], f)
		}
		return Fnv{x.fn, r}
	case Iface:
		return Iface{mapV(x.v, f), x.t}
	}
	return v
}

func mapLin(l Lin, f func(V) V) Lin {
	if r, ok := f(l).(Lin); ok {
		return r
	}
	return l
}

func mapPath(p []pe, f func(V) V) []pe {
	r := make([]pe, len(p))
	for i, e := range p {
		r[i] = e
		if e.f < 0 {
			r[i].idx = mapLin(e.idx, f)
		}
	}
	return r
}

// rewrite applies f to the whole state.
func (st *State) rewrite(f func(V) V) bool {
	for _, fr := range st.fr {
		for k, v := range fr.env {
			fr.env[k] = mapV(v, f)
		}
		for i, d := range fr.dfr {
			fr.dfr[i].args = mapV(Tuple(d.args), f).(Tuple)
			fr.dfr[i].bind = mapV(Tuple(d.bind), f).(Tuple)
		}
	}
	mem := make(map[string]cell, len(st.mem))
	ok := true
	for _, k := range sortedKeys(st.mem) {
		c := st.mem[k]
		c.v = mapV(c.v, f)
		if c.o != nil {
			c.path = mapPath(c.path, f)
			k = cellKey(Ptr{c.o, c.path})
			if old, dup := mem[k]; dup && old.v.String() != c.v.String() {
				// two cells turned out to be the same: keep the known one
				if _, u := old.v.(Unk); !u {
					c.v = old.v
				}
			}
		}
		mem[k] = c
	}
	st.mem = mem
	for _, w := range st.wr {
		for i := range w {
			w[i] = mapLin(w[i], f)
		}
	}
	for i, l := range st.facts {
		st.facts[i] = mapLin(l, f)
		if st.facts[i].isConst() && st.facts[i].c < 0 {
			ok = false
		}
	}
	var neq []Lin
	for _, l := range st.neq {
		l = mapLin(l, f)
		if l.isConst() {
			ok = ok && l.c != 0
			continue
		}
		neq = append(neq, l)
	}
	st.neq = neq
	val := map[string]nodeval{}
	for _, n := range st.val {
		n.l = mapLin(n.l, f)
		k := n.l.String()
		if o, dup := val[k]; dup && o.b != n.b {
			ok = false
		}
		val[k] = n
	}
	st.val = val
	for i := range st.events {
		args := make([]V, len(st.events[i].Args))
		for j, a := range st.events[i].Args {
			args[j] = mapV(a, f)
		}
		st.events[i].Args = args
	}
	return ok
}

// substSym replaces a symbol.
func (st *State) substSym(s *Sym, by Lin) bool {
	return st.rewrite(func(v V) V {
		l, ok := v.(Lin)
		if !ok {
			return v
		}
		for _, t := range l.t {
			if t.s.id == s.id {
				r := l.add(linSym(t.s), -t.k)
				return r.add(by, t.k)
			}
		}
		return v
	})
}

func (st *State) substUnk(id string, by V) bool {
	return st.rewrite(func(v V) V {
		if u, ok := v.(Unk); ok && u.id == id {
			return by
		}
		return v
	})
}

func (st *State) substBit(b bit, to bit) bool {
	// b = input or negation; to is 0/1
	base := b &^ 1
	if b&1 == 1 {
		to = 1 - to
	}
	fix := func(x bit) bit {
		if x == base {
			return to
		}
		if x == base|1 {
			return 1 - to
		}
		return x
	}
	return st.rewrite(func(v V) V {
		switch x := v.(type) {
		case Bits:
			for i := 0; i < x.w; i++ {
				x.b[i] = fix(x.b[i])
			}
			return x
		case BitBool:
			return bitV(fix(x.b))
		}
		return v
	})
}

var counterID = regexp.MustCompile(`^[A-Za-z0-9_$]+\.t[0-9]+(/2)?#[0-9]+$`)

// assumeEq refines st with x = y; false if impossible.
func (E *Interp) assumeEq(st *State, x, y V) bool {
	lx, okx := x.(Lin)
	ly, oky := y.(Lin)
	if okx && oky {
		d := lx.add(ly, -1)
		if d.isConst() {
			return d.c == 0
		}
		// prefer to eliminate the youngest unit symbol
		var g int64
		for _, t := range d.t {
			g = gcd(g, t.k)
		}
		if d.c%g != 0 {
			return false
		}
		// and to keep the counters of loops
		for j := 2*len(d.t) - 1; j >= 0; j-- {
			t := d.t[j%len(d.t)]
			if j >= len(d.t) && counterID.MatchString(t.s.id) {
				continue
			}
			if t.k == g || t.k == -g {
				rest := d.add(linSym(t.s), -t.k) // t.k*s + rest = 0
				by := rest.scale(-1)
				by = divLin(by, t.k0())
				if t.k < 0 {
					by = divLin(rest, -t.k)
				}
				lo, hi := by.bounds()
				if t.s.lo != nil && (lo == nil || *lo < *t.s.lo) {
					st.facts = append(st.facts, by.add(lin(*t.s.lo), -1))
				}
				if t.s.hi != nil && (hi == nil || *hi > *t.s.hi) {
					st.facts = append(st.facts, lin(*t.s.hi).add(by, -1))
				}
				if lo != nil && t.s.hi != nil && *lo > *t.s.hi || hi != nil && t.s.lo != nil && *hi < *t.s.lo {
					return false
				}
				return st.substSym(t.s, by)
			}
		}
		st.facts = append(st.facts, d, d.scale(-1))
		return true
	}
	if bx, ok := x.(Bits); ok {
		return E.bitsEq(st, bx, y)
	}
	if by, ok := y.(Bits); ok {
		return E.bitsEq(st, by, x)
	}
	if u, ok := x.(Unk); ok {
		if _, top := y.(Top); !top {
			return st.substUnk(u.id, y)
		}
	}
	if u, ok := y.(Unk); ok {
		if _, top := x.(Top); !top {
			return st.substUnk(u.id, x)
		}
	}
	return true
}

// bitsEq refines st with x = y, where y is a constant word.
func (E *Interp) bitsEq(st *State, x Bits, y V) bool {
	var c int64
	switch y := y.(type) {
	case Lin:
		if !y.isConst() {
			return true
		}
		c = y.c
	case Bits:
		k, ok := y.constant()
		if !ok {
			return true
		}
		c = k
	default:
		return true
	}
	for i := 0; i < x.w; i++ {
		want := bit(uint64(c) >> uint(i) & 1)
		switch b := x.b[i]; {
		case b == bTop:
		case b < 2:
			if b != want {
				return false
			}
		default:
			if !st.substBit(b, want) {
				return false
			}
			for j := 0; j < x.w; j++ { // the word may repeat an input
				if x.b[j] == b {
					x.b[j] = want
				} else if x.b[j] == bnot(b) {
					x.b[j] = 1 - want
				}
			}
		}
	}
	return true
}

// assumeBitsBound refines the high bits of a word which is at most a constant.
func (E *Interp) assumeBitsBound(st *State, op token.Token, x, y V) bool {
	bx, ok := x.(Bits)
	if !ok {
		if by, isb := y.(Bits); isb {
			return E.assumeBitsBound(st, flip(op), by, x)
		}
		return true
	}
	l, ok := y.(Lin)
	if !ok || !l.isConst() || l.c < 0 || bx.s && bx.b[bx.w-1] != 0 {
		return true
	}
	if op == token.GTR && l.c == 0 && !bx.s {
		st.setNeq(bx, l)
	}
	up := l.c
	switch op {
	case token.LSS:
		up--
	case token.LEQ:
	default:
		return true
	}
	if up < 0 {
		return false
	}
	for i := 0; i < bx.w; i++ {
		if i < 62 && up>>uint(i) != 0 {
			continue
		}
		switch b := bx.b[i]; {
		case b == 1:
			return false
		case b > 1:
			if !st.substBit(b, 0) {
				return false
			}
		}
	}
	return true
}

func (t term) k0() int64 {
	if t.k < 0 {
		return -t.k
	}
	return t.k
}

func (E *Interp) assumeNeq(st *State, x, y V) bool {
	if u, ok := x.(Unk); ok {
		if _, n := y.(Nilv); n {
			return st.substUnk(u.id, Tag{u.id})
		}
	}
	if u, ok := y.(Unk); ok {
		if _, n := x.(Nilv); n {
			return st.substUnk(u.id, Tag{u.id})
		}
	}
	st.setNeq(x, y)
	st.setNeq(y, x)
	lx, okx := x.(Lin)
	ly, oky := y.(Lin)
	if okx && oky {
		d := lx.add(ly, -1)
		if !d.isConst() {
			st.setNotZero(d)
		}
		// tighten >=0 to >=1 where known
		if E.geq0(st, d) {
			st.facts = append(st.facts, d.add(lin(1), -1))
		} else if E.geq0(st, d.scale(-1)) {
			st.facts = append(st.facts, d.scale(-1).add(lin(1), -1))
		}
	}
	return true
}

// assume refines st with cond = want.
func (E *Interp) assume(st *State, cond ssa.Value, want bool) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return E.assume(st, c.X, !want)
		}
	case *ssa.BinOp:
		x, y := E.get(st, c.X), E.get(st, c.Y)
		op := c.Op
		if !want {
			op = negOp(op)
		}
		switch op {
		case token.EQL:
			if !E.assumeEq(st, x, y) {
				return false
			}
		case token.NEQ:
			if !E.assumeNeq(st, x, y) {
				return false
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if !E.assumeBitsBound(st, op, x, y) {
				return false
			}
			lx, ok1 := x.(Lin)
			ly, ok2 := y.(Lin)
			if ok1 && ok2 {
				d := lx.add(ly, -1)
				switch op {
				case token.LSS:
					st.facts = append(st.facts, d.scale(-1).add(lin(1), -1))
				case token.LEQ:
					st.facts = append(st.facts, d.scale(-1))
				case token.GTR:
					st.facts = append(st.facts, d.add(lin(1), -1))
				case token.GEQ:
					st.facts = append(st.facts, d)
				}
			}
		}
	}
	v := E.get(st, cond)
	switch v := v.(type) {
	case Unk:
		return st.substUnk(v.id, Boolv(want))
	case BitBool:
		to := bit(0)
		if want {
			to = 1
		}
		return st.substBit(v.b, to)
	}
	st.top().env[cond] = Boolv(want)
	return true
}

// kept says whether a condition is used other than by a branch.
func kept(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if kept(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

// convert evaluates a conversion.
func (E *Interp) convert(st *State, v V, from, to types.Type) V {
	w, s, ok := intWidth(to)
	if ok {
		switch x := v.(type) {
		case Bits:
			return x.resize(w, s)
		case Lin:
			if x.isConst() {
				return lin(wrap(x.c, w, s))
			}
			return x
		case TV:
			return x
		}
		if _, _, fi := intWidth(from); !fi {
			return E.Unknown(st, "conv", to)
		}
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return E.Unknown(st, "conv", to)
}

func (E *Interp) backEdges(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := E.back[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if m[s] == nil {
					m[s] = map[*ssa.BasicBlock]bool{}
				}
				m[s][b] = true
			}
		}
	}
	E.back[fn] = m
	return m
}

// loopBlocks gives the natural loop of header h.
func loopBlocks(h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for t := range tails {
		work = append(work, t)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

// modsOf gives the memory keys which fn may store to.
func (E *Interp) modsOf(fn *ssa.Function) map[string]bool {
	if m, ok := E.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	E.mods[fn] = m
	for _, b := range fn.Blocks {
		E.blockMods(b, m, nil)
	}
	return m
}

func (E *Interp) blockMods(b *ssa.BasicBlock, m map[string]bool, skip map[*ssa.Store]bool) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Store:
			if skip[in] {
				continue
			}
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				// the arguments of a variadic call are another object every time
				if a, ok := ia.X.(*ssa.Alloc); ok && a.Block() == b {
					continue
				}
			}
			m[addrKey(in.Addr)] = true
			t := deref(in.Addr.Type())
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					m["field:"+t.String()+"."+st.Field(i).Name()] = true
				}
			}
		case *ssa.MapUpdate:
			m["map:"+in.Map.Type().String()] = true
		case ssa.CallInstruction:
			if bi, ok := in.Common().Value.(*ssa.Builtin); ok {
				if bi.Name() == "copy" || bi.Name() == "append" {
					if s, ok := in.Common().Args[0].Type().Underlying().(*types.Slice); ok {
						m["elem:"+s.Elem().String()] = true
					}
				}
				continue
			}
			if f := in.Common().StaticCallee(); f != nil && f.Blocks != nil && E.P.inRepo(f) {
				if E.NoMods[f] {
					continue
				}
				for k := range E.modsOf(f) {
					m[k] = true
				}
			} else if f == nil && !in.Common().IsInvoke() {
				// a closure of this function, or a function value
				for _, a := range b.Parent().AnonFuncs {
					for k := range E.modsOf(a) {
						m[k] = true
					}
				}
			}
		}
	}
}

// Run analyses fn with arguments.
func (E *Interp) Run(st *State, fn *ssa.Function, args []V, bind []V) []Outcome {
	E.Funcs[fn] = true
	if len(st.fr) > 24 {
		panic(undecided("call depth in " + fn.String()))
	}
	fr := &frame{fn: fn, env: map[ssa.Value]V{}, cnt: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.env[f] = bind[i]
		}
	}
	st.fr = append(st.fr, fr)
	E.stack = append(E.stack, fn)
	defer func() { E.stack = E.stack[:len(E.stack)-1] }()
	type item struct {
		b, prev *ssa.BasicBlock
		st      *State
	}
	var outs []Outcome
	work := []item{{fn.Blocks[0], nil, st}}
	back := E.backEdges(fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []*State{it.st}
		if it.prev != nil {
			pi := -1
			for i, p := range it.b.Preds {
				if p == it.prev {
					pi = i
				}
			}
			phis := map[*ssa.Phi]V{}
			var order []*ssa.Phi
			for _, in := range it.b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					phis[phi] = E.get(it.st, phi.Edges[pi])
					order = append(order, phi)
				}
			}
			tails, isHdr := back[it.b]
			unroll := E.Unroll
			if isHdr && E.UnrollLoop != nil {
				if ok, n := E.UnrollLoop(fn, it.b); ok {
					unroll = n
				}
			}
			switch {
			case isHdr && unroll == 0 && E.short(it.st, it.b, tails, phis):
				for p, v := range phis {
					it.st.top().env[p] = v
				}
			case isHdr && !tails[it.prev] && E.exitsNow(it.st, it.b, tails, phis):
				for p, v := range phis {
					it.st.top().env[p] = v
				}
			case isHdr && unroll > 0:
				if !tails[it.prev] {
					it.st.top().cnt[it.b] = 0
				}
				it.st.top().cnt[it.b]++
				if it.st.top().cnt[it.b] > unroll {
					outs = append(outs, Outcome{Kind: "limit", St: pop(it.st)})
					continue
				}
				for p, v := range phis {
					it.st.top().env[p] = v
				}
			case isHdr && E.Peel != nil && E.Peel(fn, it.b) && (!tails[it.prev] || it.st.top().cnt[it.b] == 1):
				if !tails[it.prev] {
					it.st.top().cnt[it.b] = 1
					for p, v := range phis {
						it.st.top().env[p] = v
					}
				} else {
					it.st.top().cnt[it.b] = 2
					states = E.enterLoop(it.st, it.b, tails, order, phis)
				}
			case isHdr && tails[it.prev]:
				if E.Back != nil {
					E.Back(it.st, it.b, it.prev, phis)
				}
				outs = append(outs, Outcome{Kind: "back", St: pop(it.st), Hdr: it.b, Prev: it.prev})
				continue
			case isHdr:
				states = E.enterLoop(it.st, it.b, tails, order, phis)
			default:
				for p, v := range phis {
					it.st.top().env[p] = v
				}
			}
		}
		for _, s0 := range states {
			cur := []*State{s0}
			for _, in := range it.b.Instrs {
				if len(cur) == 0 {
					break
				}
				E.budget -= len(cur)
				if E.budget < 0 {
					panic(undecided("analysis budget in " + fn.String()))
				}
				switch in := in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.If:
					for _, s := range cur {
						v := E.get(s, in.Cond)
						if b, ok := v.(Boolv); ok {
							i := 1
							if b {
								i = 0
							}
							work = append(work, item{it.b.Succs[i], it.b, s})
							continue
						}
						t, f := s, s.clone()
						if E.assume(f, in.Cond, false) {
							work = append(work, item{it.b.Succs[1], it.b, f})
						}
						if E.assume(t, in.Cond, true) {
							work = append(work, item{it.b.Succs[0], it.b, t})
						}
					}
				case *ssa.Jump:
					for _, s := range cur {
						work = append(work, item{it.b.Succs[0], it.b, s})
					}
				case *ssa.Return:
					for _, s := range cur {
						var r []V
						for _, x := range in.Results {
							r = append(r, E.get(s, x))
						}
						env := s.top().env
						outs = append(outs, Outcome{Kind: "return", Ret: r, St: pop(s), Pos: in.Pos(), Env: env})
					}
				case *ssa.Panic:
					for _, s := range cur {
						outs = append(outs, Outcome{Kind: "panic", St: pop(s), Pos: in.Pos()})
					}
				default:
					var nxt []*State
					for _, s := range cur {
						ss, pans := E.step(s, in)
						nxt = append(nxt, ss...)
						for _, p := range pans {
							outs = append(outs, p)
						}
					}
					cur = nxt
				}
			}
		}
		if len(work) > 20000 || len(outs) > 50000 {
			panic(undecided("too many states in " + fn.String()))
		}
	}
	return outs
}

func pop(st *State) *State {
	st.fr = st.fr[:len(st.fr)-1]
	return st
}

func (E *Interp) enterLoop(st *State, h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool, order []*ssa.Phi, init map[*ssa.Phi]V) []*State {
	var after func(*State)
	if E.Enter != nil {
		after = E.Enter(st, h, loopBlocks(h, tails))
	}
	before := st.clone()
	mods := map[string]bool{}
	copies := E.loopCopies(st, h, tails, init)
	skip := map[*ssa.Store]bool{}
	for _, c := range copies {
		skip[c.st] = true
		if E.copyStore == nil {
			E.copyStore = map[*ssa.Store]bool{}
		}
		E.copyStore[c.st] = true
	}
	only := E.directStores(st, h, tails, skip)
	for _, d := range only {
		skip[d.st] = true
	}
	for b := range loopBlocks(h, tails) {
		E.blockMods(b, mods, skip)
	}
	for _, c := range copies {
		key := "elem:" + deref(c.st.Addr.Type()).String()
		E.dirtyElems(st, c.dst.o, key)
		E.setBase(st, c.dst, c.src, c.n, key)
	}
	for _, d := range only {
		key := "elem:" + deref(d.st.Addr.Type()).String()
		for k, c := range st.mem {
			if c.o != nil && c.o.id == d.o.id && c.key == key {
				delete(st.mem, k)
			}
		}
		if l, ok := init[d.phi].(Lin); ok && d.phi != nil {
			// some index which an earlier iteration used
			st.seq++
			w := linSym(&Sym{id: fmt.Sprintf("was#%d", st.seq)})
			st.facts = append(st.facts, w.add(l, -1))
			st.wr[d.o.id+"|"+key] = append(st.wr[d.o.id+"|"+key], d.off.add(w, 1))
		} else {
			st.dirty[d.o.id+"|"+key] = true
		}
	}
	for k, c := range st.mem {
		if c.o == nil {
			continue
		}
		if mods[c.key] {
			delete(st.mem, k)
		}
	}
	for k := range mods {
		st.dirty[k] = true
	}
	if after != nil {
		after(st)
	}
	states := []*State{st}
	for _, phi := range order {
		invariant := true
		for i, p := range h.Preds {
			if tails[p] && phi.Edges[i] != ssa.Value(phi) {
				invariant = false
			}
		}
		var nxt []*State
		for _, s := range states {
			if invariant {
				s.top().env[phi] = init[phi]
				nxt = append(nxt, s)
				continue
			}
			if fs := E.funcsInto(s, phi); fs != nil {
				if E.Havoc != nil {
					E.Havoc(s, phi, init[phi])
				}
				for _, f := range fs {
					s2 := s.clone()
					s2.top().env[phi] = f
					nxt = append(nxt, s2)
				}
				continue
			}
			if E.Havoc != nil {
				if ok, opts := E.Havoc(s, phi, init[phi]); ok {
					for _, o := range opts {
						o.st.top().env[phi] = o.v
						nxt = append(nxt, o.st)
					}
					continue
				}
			}
			s.top().env[phi] = E.havocPhi(s, phi, init[phi], h, tails)
			nxt = append(nxt, s)
		}
		states = nxt
	}
	for _, phi := range order {
		var nxt []*State
		for _, s := range states {
			p, ok := E.readAhead(before, s, phi, h, tails, init, mods)
			if !ok {
				nxt = append(nxt, s)
				continue
			}
			for _, o := range E.load(s, p, "elem:"+phi.Type().String(), phi.Type()) {
				o.st.top().env[phi] = o.v
				nxt = append(nxt, o.st)
			}
		}
		states = nxt
	}
	for _, phi := range order {
		for _, s := range states {
			switch v := s.top().env[phi].(type) {
			case Lin, Unk:
				s.keep("phi:"+h.Parent().Name()+"."+phi.Name(), v)
			}
		}
	}
	return states
}

// funcsInto gives the functions a variable of a loop may be, if all of them are
// known.
func (E *Interp) funcsInto(st *State, phi *ssa.Phi) []V {
	if _, ok := phi.Type().Underlying().(*types.Signature); !ok {
		return nil
	}
	var r []V
	seen := map[ssa.Value]bool{}
	add := func(v V) {
		for _, w := range r {
			if sameV(w, v) {
				return
			}
		}
		r = append(r, v)
	}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !walk(x) {
					return false
				}
			}
			return true
		case *ssa.Function:
			add(Fnv{fn: v})
			return true
		case *ssa.MakeClosure:
			f := Fnv{fn: v.Fn.(*ssa.Function)}
			for _, b := range v.Bindings {
				x, ok := st.top().env[b]
				if !ok {
					return false
				}
				f.b = append(f.b, x)
			}
			add(f)
			return true
		}
		return false
	}
	if !walk(phi) {
		return nil
	}
	return r
}

// directStore is a store of a loop into a table which is known on entry.
type directStore struct {
	st  *ssa.Store
	o   *Obj
	off Lin
	phi *ssa.Phi // the index, if it is a counter which steps up
}

// directStores finds the stores of a loop into tables known on its entry.
func (E *Interp) directStores(st *State, h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool, skip map[*ssa.Store]bool) []directStore {
	in := loopBlocks(h, tails)
	var r []directStore
	for b := range in {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || skip[s] {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if d, ok := ia.X.(ssa.Instruction); ok && in[d.Block()] {
				continue
			}
			if _, str := deref(s.Addr.Type()).Underlying().(*types.Struct); str {
				continue
			}
			sl, ok := E.get(st, ia.X).(Slice)
			if !ok {
				continue
			}
			d := directStore{st: s, o: sl.o, off: sl.off}
			if phi, ok := ia.Index.(*ssa.Phi); ok && phi.Block() == h {
				up := true
				for i, p := range h.Preds {
					if !tails[p] {
						continue
					}
					bo, ok := phi.Edges[i].(*ssa.BinOp)
					if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
						up = false
						break
					}
					c, ok := bo.Y.(*ssa.Const)
					n := int64(-1)
					if ok {
						n, _ = constInt(c.Value)
					}
					up = up && n >= 0
				}
				if up {
					d.phi = phi
				}
			}
			r = append(r, d)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].st.Pos() < r[j].st.Pos() })
	return r
}

// readAhead recognises a loop variable which is always the element of an
// array at the index given by another loop variable: x := a[i]; for .. { i++; x = a[i] }.
func (E *Interp) readAhead(st0, s *State, phi *ssa.Phi, h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool, init map[*ssa.Phi]V, mods map[string]bool) (Ptr, bool) {
	none := Ptr{}
	// the element cannot change between its read and the head of the loop
	for i, p := range h.Preds {
		if !tails[p] || !mods["elem:"+phi.Type().String()] {
			continue
		}
		u, ok := phi.Edges[i].(*ssa.UnOp)
		if !ok || u.Block() != p {
			return none, false
		}
		after := false
		for _, in := range p.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.Send:
				if after {
					return none, false
				}
			}
			after = after || in == ssa.Instruction(u)
		}
	}
	blocks := loopBlocks(h, tails)
	read := func(v ssa.Value) (*ssa.IndexAddr, bool) {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		return ia, ok
	}
	offset := func(v ssa.Value) (ssa.Value, int64) {
		for {
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB {
				return v, 0
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				return v, 0
			}
			n, ok := constInt(c.Value)
			if !ok {
				return v, 0
			}
			if b.Op == token.SUB {
				n = -n
			}
			return b.X, n
		}
	}
	var arr ssa.Value
	for _, in := range h.Instrs {
		ix, ok := in.(*ssa.Phi)
		if !ok || ix == phi {
			continue
		}
		if b, ok := ix.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		match, first := true, true
		var d int64
		var at Lin
		for i, p := range h.Preds {
			ia, ok := read(phi.Edges[i])
			if !ok {
				match = false
				break
			}
			if !tails[p] {
				a, ok1 := E.get(st0, ia.Index).(Lin)
				b, ok2 := init[ix].(Lin)
				if iv, ok := E.get(st0, phi.Edges[i]).(V); !ok || iv == nil || init[phi] == nil || iv.String() != init[phi].String() || !ok1 || !ok2 {
					// another entry
					continue
				}
				e := a.add(b, -1)
				if !e.isConst() || !first && e.c != d {
					match = false
					break
				}
				d, first, at = e.c, false, a
				if arr == nil {
					arr = ia.X
				}
				match = match && E.get(st0, arr).String() == E.get(st0, ia.X).String()
				continue
			}
			if in, ok := ia.X.(ssa.Instruction); ok && blocks[in.Block()] {
				match = false
				break
			}
			b1, k1 := offset(ia.Index)
			b2, k2 := offset(ix.Edges[i])
			if b1 != b2 || !first && k1-k2 != d {
				match = false
				break
			}
			d, first = k1-k2, false
			if arr == nil {
				arr = ia.X
			} else if E.get(st0, arr).String() != E.get(st0, ia.X).String() {
				match = false
				break
			}
		}
		if !match || arr == nil || len(at.t) == 0 && at.c == 0 && first {
			continue
		}
		sl, ok := E.get(s, arr).(Slice)
		cur, ok2 := s.top().env[ix].(Lin)
		if !ok || !ok2 {
			continue
		}
		// the variable holds the element now
		os := E.load(st0.clone(), Ptr{sl.o, []pe{{f: -1, idx: sl.off.add(at, 1)}}}, "elem:"+phi.Type().String(), phi.Type())
		if len(os) != 1 || os[0].v.String() != init[phi].String() {
			continue
		}
		return Ptr{sl.o, []pe{{f: -1, idx: sl.off.add(cur, 1).add(lin(d), 1)}}}, true
	}
	return none, false
}

// moves tells whether slice v may start elsewhere than the loop variable.
func moves(v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(phi) || seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Low != nil && !isConst(v.Low, 0) {
			return true
		}
		return moves(v.X, phi, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if moves(e, phi, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return moves(v.Call.Args[0], phi, seen)
		}
	}
	return true
}

// havocPhi makes the generic value of a loop variable.
func (E *Interp) havocPhi(st *State, phi *ssa.Phi, init V, h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool) V {
	st.seq++
	id := fmt.Sprintf("%s.%s#%d", h.Parent().Name(), phi.Name(), st.seq)
	if sl, ok := init.(Slice); ok {
		for i, p := range h.Preds {
			if tails[p] && moves(phi.Edges[i], phi, map[ssa.Value]bool{}) {
				sl.off = linSym(&Sym{id: "off(" + id + ")", lo: i64(0)})
				break
			}
		}
		return Slice{sl.o, sl.off, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})}
	}
	v := mkUnknown(id, phi.Type())
	if l, ok := v.(Lin); ok && len(l.t) == 1 {
		if il, ok := init.(Lin); ok {
			// monotone counters keep their start as a bound
			up, down := true, true
			for i, p := range h.Preds {
				if tails[p] {
					u, d := monotone(phi.Edges[i], phi, map[ssa.Value]bool{})
					up, down = up && u, down && d
				}
			}
			if up {
				if il.isConst() {
					l.t[0].s.lo = i64(il.c)
				} else {
					st.facts = append(st.facts, l.add(il, -1))
				}
			}
			if c, ok := countdown(phi, h, tails); ok && l.t[0].s.lo == nil && E.geq0(st, il.add(lin(c), -1)) {
				l.t[0].s.lo = i64(c)
			}
			if down {
				if il.isConst() {
					l.t[0].s.hi = i64(il.c)
				} else {
					st.facts = append(st.facts, il.add(l, -1))
				}
			}
		}
	}
	return v
}

// countdown tells of a loop variable which goes down by at most one in an
// iteration, and only while it is more than c.
func countdown(phi *ssa.Phi, h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool) (int64, bool) {
	if len(h.Instrs) == 0 {
		return 0, false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if y == ssa.Value(phi) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, isc := y.(*ssa.Const)
	if x != ssa.Value(phi) || !isc || k.Value == nil {
		return 0, false
	}
	c, ok := constInt(k.Value)
	if !ok {
		return 0, false
	}
	// the successor taken while the variable is more than c
	in := h.Succs[0]
	switch op {
	case token.GTR, token.NEQ:
	case token.GEQ:
		c--
	case token.EQL, token.LEQ:
		in = h.Succs[1]
	case token.LSS:
		in, c = h.Succs[1], c-1
	default:
		return 0, false
	}
	if len(in.Preds) != 1 {
		return 0, false
	}
	for t := range tails {
		if !in.Dominates(t) {
			return 0, false
		}
	}
	for i, p := range h.Preds {
		if !tails[p] {
			continue
		}
		if !stepsDown(phi.Edges[i], phi, h, map[ssa.Value]bool{}) {
			return 0, false
		}
	}
	return c, true
}

// stepsDown tells whether v is the loop variable or one less than it.
func stepsDown(v ssa.Value, phi *ssa.Phi, h *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(phi) || seen[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		k, ok := v.Y.(*ssa.Const)
		if !ok || v.X != ssa.Value(phi) {
			return false
		}
		n, ok := constInt(k.Value)
		return ok && (v.Op == token.SUB && n == 1 || v.Op == token.ADD && n == -1)
	case *ssa.Phi:
		if v.Block() == h {
			return false
		}
		seen[v] = true
		for _, e := range v.Edges {
			if !stepsDown(e, phi, h, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// monotone tells whether v, reaching the loop variable again, is at least or
// at most what the loop variable was.
func monotone(v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) (up, down bool) {
	if v == ssa.Value(phi) || seen[v] {
		return true, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		up, down = true, true
		for _, e := range v.Edges {
			u, d := monotone(e, phi, seen)
			up, down = up && u, down && d
		}
		return up, down
	case *ssa.BinOp:
		c, ok := v.Y.(*ssa.Const)
		if !ok || v.Op != token.ADD && v.Op != token.SUB {
			return false, false
		}
		n, _ := constInt(c.Value)
		if v.Op == token.SUB {
			n = -n
		}
		up, down = monotone(v.X, phi, seen)
		return up && n >= 0, down && n <= 0
	}
	return false, false
}

func (E *Interp) set(st *State, v ssa.Value, x V) { st.top().env[v] = x }

// step executes one instruction, returning the successor states and
// the outcomes which leave the function.
func (E *Interp) step(st *State, in ssa.Instruction) ([]*State, []Outcome) {
	one := func() ([]*State, []Outcome) { return []*State{st}, nil }
	switch in := in.(type) {
	case *ssa.Alloc:
		st.seq++
		o := &Obj{id: fmt.Sprintf("%s.%s#%d", in.Parent().Name(), in.Name(), st.seq), zero: true}
		E.set(st, in, Ptr{o: o})
		switch t := deref(in.Type()); t.Underlying().(type) {
		case *types.Struct, *types.Array:
		default:
			if st.dirty["var:"+t.String()] {
				st.mem[cellKey(Ptr{o: o})] = cell{o, nil, "var:" + t.String(), zeroOf(t)}
			}
		}
		if n, ok := deref(in.Type()).(*types.Named); ok {
			// fields which a loop has written in others are zero in this one
			if u, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					key := "field:" + n.String() + "." + u.Field(i).Name()
					switch u.Field(i).Type().Underlying().(type) {
					case *types.Struct, *types.Array:
						continue
					}
					if st.dirty[key] {
						p := []pe{{f: i}}
						st.mem[cellKey(Ptr{o, p})] = cell{o, p, key, zeroOf(u.Field(i).Type())}
					}
				}
			}
		}
		return one()
	case *ssa.FieldAddr:
		switch p := E.get(st, in.X).(type) {
		case Ptr:
			E.set(st, in, Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: in.Field})})
		default:
			E.set(st, in, Ptr{o: &Obj{id: "obj:" + p.String() + fmt.Sprintf("@%p", st.top())}, path: []pe{{f: in.Field}}})
			if u, ok := p.(Unk); ok {
				E.set(st, in, Ptr{o: &Obj{id: "obj:" + u.id}, path: []pe{{f: in.Field}}})
			}
		}
		return one()
	case *ssa.IndexAddr:
		idx, ok := E.get(st, in.Index).(Lin)
		if b, isb := E.get(st, in.Index).(Bits); isb {
			if c, isc := b.constant(); isc {
				idx, ok = lin(c), true
			}
		}
		if !ok {
			idx = E.Unknown(st, "idx", types.Typ[types.Int]).(Lin)
		}
		switch p := E.get(st, in.X).(type) {
		case Slice:
			E.set(st, in, Ptr{p.o, []pe{{f: -1, idx: p.off.add(idx, 1)}}})
			if l, isl := p.len.(Lin); isl && E.Bounds != nil && E.Bounds(p.o) {
				// an index out of range panics
				for _, f := range []Lin{idx, l.add(idx, -1).add(lin(1), -1)} {
					if !E.geq0(st, f) {
						if E.geq0(st, f.scale(-1).add(lin(1), -1)) {
							return nil, nil
						}
						st.facts = append(st.facts, f)
					}
				}
			}
		case Ptr:
			E.set(st, in, Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: -1, idx: idx})})
		default:
			E.set(st, in, Ptr{o: &Obj{id: "obj:" + p.String()}, path: []pe{{f: -1, idx: idx}}})
		}
		return one()
	case *ssa.Field:
		if s, ok := E.get(st, in.X).(Struct); ok && in.Field < len(s.f) {
			E.set(st, in, s.f[in.Field])
		} else {
			E.set(st, in, E.Unknown(st, "field", in.Type()))
		}
		return one()
	case *ssa.Index:
		x := E.get(st, in.X)
		idx, ok := E.get(st, in.Index).(Lin)
		if s, iss := x.(Strv); iss && ok && idx.isConst() && int(idx.c) < len(s) && idx.c >= 0 {
			E.set(st, in, lin(int64(s[idx.c])))
			return one()
		}
		if s, iss := x.(Struct); iss && ok && idx.isConst() && int(idx.c) < len(s.f) {
			E.set(st, in, s.f[idx.c])
			return one()
		}
		E.set(st, in, E.Unknown(st, "index", in.Type()))
		return one()
	case *ssa.UnOp:
		x := E.get(st, in.X)
		switch in.Op {
		case token.MUL:
			p, ok := x.(Ptr)
			if !ok {
				if u, isu := x.(Unk); isu {
					p, ok = Ptr{o: &Obj{id: "obj:" + u.id}}, true
				}
			}
			if !ok {
				E.set(st, in, E.Unknown(st, "deref", in.Type()))
				return one()
			}
			var res []*State
			for _, s := range E.splits(st, in.X) {
				if q, isp := E.get(s, in.X).(Ptr); isp {
					p = q
				}
				for _, o := range E.load(s, p, addrKey(in.X), in.Type()) {
					o.st.top().env[in] = o.v
					if E.Loaded != nil {
						E.Loaded(o.st, p, addrKey(in.X), o.v)
					}
					res = append(res, o.st)
				}
			}
			return res, nil
		case token.NOT:
			switch b := x.(type) {
			case Boolv:
				E.set(st, in, !b)
			case BitBool:
				E.set(st, in, bitV(bnot(b.b)))
			default:
				E.set(st, in, Top{})
			}
		case token.SUB:
			switch l := x.(type) {
			case Lin:
				E.set(st, in, l.scale(-1))
			case Bits:
				E.set(st, in, E.binop(st, token.SUB, constBits(0, l.w, l.s), l, in.Type()))
			default:
				E.set(st, in, E.Unknown(st, "neg", in.Type()))
			}
		case token.XOR:
			w, s, _ := intWidth(in.Type())
			switch l := x.(type) {
			case Lin:
				if l.isConst() {
					E.set(st, in, lin(wrap(^l.c, w, s)))
				} else {
					E.set(st, in, E.Unknown(st, "compl", in.Type()))
				}
			case Bits:
				for i := 0; i < l.w; i++ {
					l.b[i] = bnot(l.b[i])
				}
				E.set(st, in, l)
			case Tab:
				E.set(st, in, ^l)
			default:
				E.set(st, in, E.Unknown(st, "compl", in.Type()))
			}
		case token.ARROW:
			if E.Chan != nil {
				et := in.X.Type().Underlying().(*types.Chan).Elem()
				var res []*State
				for _, o := range E.Chan(st, "recv", E.get(st, in.X), nil, et) {
					v := o.v
					if t, ok := v.(Tuple); ok && !in.CommaOk {
						v = t[0]
					}
					E.set(o.st, in, v)
					res = append(res, o.st)
				}
				return res, nil
			}
			E.set(st, in, E.Unknown(st, "recv", in.Type()))
		default:
			E.set(st, in, E.Unknown(st, "unop", in.Type()))
		}
		return one()
	case *ssa.BinOp:
		x, y := E.get(st, in.X), E.get(st, in.Y)
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			v := E.cmp(st, in.Op, x, y, in.X.Type())
			E.set(st, in, v)
			if _, top := v.(Top); top && kept(in) {
				// a value in its own right: both are followed
				f := st.clone()
				var r []*State
				if E.assume(f, in, false) {
					r = append(r, f)
				}
				if E.assume(st, in, true) {
					r = append(r, st)
				}
				return r, nil
			}
		default:
			E.set(st, in, E.binop(st, in.Op, x, y, in.Type()))
		}
		return one()
	case *ssa.Convert:
		x := E.get(st, in.X)
		if c, ok := strConst(x); ok && len(c) <= 64 {
			if sl, ok := in.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				st.seq++
				o := &Obj{id: fmt.Sprintf("%s.bytes#%d", in.Parent().Name(), st.seq)}
				for i := range c {
					p := Ptr{o, []pe{{f: -1, idx: lin(int64(i))}}}
					st.mem[cellKey(p)] = cell{o, p.path, "elem:" + sl.Elem().String(), lin(int64(c[i]))}
				}
				n := lin(int64(len(c)))
				E.set(st, in, Slice{o, Lin{}, n, n})
				return one()
			}
		}
		if tx, ok := x.(Tuple); ok && len(tx) > 0 && tx[0] == V(Strv("fmt")) && E.OnText != nil {
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				st.seq++
				id := fmt.Sprintf("bytes#%d", st.seq)
				n := linSym(&Sym{id: "len(" + id + ")", lo: i64(0), hi: i64(1 << 30)})
				v := Slice{obj(id), Lin{}, n, n}
				E.OnText(st, v, x)
				E.set(st, in, v)
				return one()
			}
		}
		v := E.convert(st, x, in.X.Type(), in.Type())
		if _, ok := x.(Slice); ok && E.OnText != nil {
			E.OnText(st, x, v)
		}
		E.set(st, in, v)
		return one()
	case *ssa.ChangeType:
		E.set(st, in, E.get(st, in.X))
		return one()
	case *ssa.ChangeInterface:
		E.set(st, in, E.get(st, in.X))
		return one()
	case *ssa.MakeInterface:
		E.set(st, in, Iface{E.get(st, in.X), in.X.Type()})
		return one()
	case *ssa.TypeAssert:
		x := E.get(st, in.X)
		if i, ok := x.(Iface); ok && types.Identical(i.t, in.AssertedType) {
			if in.CommaOk {
				E.set(st, in, Tuple{i.v, Boolv(true)})
			} else {
				E.set(st, in, i.v)
			}
			return one()
		}
		E.set(st, in, E.Unknown(st, "assert", in.Type()))
		return one()
	case *ssa.MakeClosure:
		var b []V
		for _, x := range in.Bindings {
			b = append(b, E.get(st, x))
		}
		E.set(st, in, Fnv{in.Fn.(*ssa.Function), b})
		return one()
	case *ssa.MakeSlice:
		st.seq++
		E.set(st, in, Slice{&Obj{id: fmt.Sprintf("%s.make#%d", in.Parent().Name(), st.seq), zero: true}, Lin{}, E.get(st, in.Len), E.get(st, in.Cap)})
		return one()
	case *ssa.Slice:
		E.set(st, in, E.slice(st, in))
		return one()
	case *ssa.Lookup:
		if ok, ss := E.lookTable(st, in); ok {
			return ss, nil
		}
		if E.Lookup != nil {
			if ok, os := E.Lookup(st, in, E.get(st, in.X), E.get(st, in.Index)); ok {
				var res []*State
				for _, o := range os {
					E.set(o.st, in, o.v)
					res = append(res, o.st)
				}
				return res, nil
			}
		}
		E.set(st, in, E.Unknown(st, "lookup", in.Type()))
		return one()
	case *ssa.Send:
		if E.Chan != nil {
			E.Chan(st, "send", E.get(st, in.Chan), E.get(st, in.X), nil)
		}
		return one()
	case *ssa.MakeChan:
		if E.Chan != nil {
			st.seq++
			c := Tag{fmt.Sprintf("chan#%d", st.seq)}
			E.Chan(st, "makechan", c, E.get(st, in.Size), nil)
			E.set(st, in, c)
			return one()
		}
		E.set(st, in, E.Unknown(st, in.Name(), in.Type()))
		return one()
	case *ssa.Select:
		if E.Chan == nil {
			E.set(st, in, E.Unknown(st, in.Name(), in.Type()))
			return one()
		}
		tt := in.Type().(*types.Tuple)
		blocking := "select"
		if !in.Blocking {
			blocking = "poll"
		}
		var alts Tuple
		// a nil channel is never ready
		never := func(c ssa.Value) bool { _, ok := E.get(st, c).(Nilv); return ok }
		for _, s := range in.States {
			if never(s.Chan) {
				continue
			}
			k := "recv "
			if s.Dir == types.SendOnly {
				k = "send "
			}
			alts = append(alts, Strv(k+E.get(st, s.Chan).String()))
		}
		var res []*State
		n := len(in.States)
		for i := -1; i < n; i++ {
			if i < 0 && in.Blocking || i >= 0 && never(in.States[i].Chan) {
				continue
			}
			s := st.clone()
			E.Chan(s, blocking, nil, alts, nil)
			tu := Tuple{lin(int64(i)), Top{}}
			for j := 2; j < tt.Len(); j++ {
				tu = append(tu, E.Unknown(s, "unreceived", tt.At(j).Type()))
			}
			if i < 0 {
				E.Chan(s, "default", nil, nil, nil)
				E.set(s, in, tu)
				res = append(res, s)
				continue
			}
			c := in.States[i]
			if c.Dir == types.SendOnly {
				E.Chan(s, "send", E.get(s, c.Chan), E.get(s, c.Send), nil)
				E.set(s, in, tu)
				res = append(res, s)
				continue
			}
			at := 2
			for _, d := range in.States[:i] {
				if d.Dir != types.SendOnly {
					at++
				}
			}
			for _, o := range E.Chan(s, "recv", E.get(s, c.Chan), nil, tt.At(at).Type()) {
				t2 := append(Tuple(nil), tu...)
				if r, ok := o.v.(Tuple); ok {
					t2[at], t2[1] = r[0], r[1]
				}
				E.set(o.st, in, t2)
				res = append(res, o.st)
			}
		}
		return res, nil
	case *ssa.MakeMap:
		st.seq++
		E.set(st, in, Unk{fmt.Sprintf("map#%d", st.seq)})
		return one()
	case *ssa.Range:
		E.set(st, in, Tuple{Strv("range"), E.get(st, in.X)})
		return one()
	case *ssa.Next:
		v := E.Unknown(st, "next", in.Type())
		if t, ok := v.(Tuple); ok && len(t) == 3 && E.OnNext != nil && !in.IsString {
			if r, ok := E.get(st, in.Iter).(Tuple); ok && len(r) == 2 {
				E.OnNext(st, r[1], t)
			}
		}
		E.set(st, in, v)
		return one()
	case *ssa.MapUpdate:
		if E.MapSet != nil && E.table(in.Map) == nil {
			E.MapSet(st, E.get(st, in.Map), E.get(st, in.Key), E.get(st, in.Value), in.Pos())
		}
		return one()
	case *ssa.Extract:
		if t, ok := E.get(st, in.Tuple).(Tuple); ok && in.Index < len(t) {
			E.set(st, in, t[in.Index])
		} else {
			E.set(st, in, E.Unknown(st, "extract", in.Type()))
		}
		return one()
	case *ssa.Store:
		if E.copyStore[in] {
			return one() // accounted for at the head of its loop
		}
		v := E.get(st, in.Val)
		p, ok := E.get(st, in.Addr).(Ptr)
		if !ok {
			if u, isu := E.get(st, in.Addr).(Unk); isu {
				p, ok = Ptr{o: &Obj{id: "obj:" + u.id}}, true
			}
		}
		if ok && E.Alias != nil {
			ss := E.splits(st, in.Addr)
			for _, s := range ss {
				if q, isp := E.get(s, in.Addr).(Ptr); isp {
					p = q
				}
				v = E.get(s, in.Val)
				E.store(s, p, addrKey(in.Addr), deref(in.Addr.Type()), v, in.Pos())
			}
			return ss, nil
		}
		if ok {
			E.store(st, p, addrKey(in.Addr), deref(in.Addr.Type()), v, in.Pos())
		}
		return one()
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			if E.OnGo != nil {
				fn, bind, args := E.callee(st, in)
				E.OnGo(st, fn, bind, args)
			}
			return one()
		}
		fn, bind, args := E.callee(st, in)
		if _, ok := in.(*ssa.Defer); ok {
			st.top().dfr = append(st.top().dfr, deferred{in, fn, bind, args})
			return one()
		}
		return E.call(st, in, fn, bind, args)
	case *ssa.RunDefers:
		states := []*State{st}
		var outs []Outcome
		for {
			var nxt []*State
			more := false
			for _, s := range states {
				fr := s.top()
				if len(fr.dfr) == 0 {
					nxt = append(nxt, s)
					continue
				}
				more = true
				d := fr.dfr[len(fr.dfr)-1]
				fr.dfr = fr.dfr[:len(fr.dfr)-1]
				ss, oo := E.call(s, d.in, d.fn, d.bind, d.args)
				nxt = append(nxt, ss...)
				outs = append(outs, oo...)
			}
			states = nxt
			if !more {
				return states, outs
			}
		}
	case ssa.Value:
		E.set(st, in, E.Unknown(st, in.Name(), in.Type()))
		return one()
	}
	return one()
}

func (E *Interp) slice(st *State, in *ssa.Slice) V {
	x := E.get(st, in.X)
	low, high := V(lin(0)), V(nil)
	if in.Low != nil {
		low = E.get(st, in.Low)
	}
	if in.High != nil {
		high = E.get(st, in.High)
	}
	ll, ok := low.(Lin)
	if !ok {
		return E.Unknown(st, "slice", in.Type())
	}
	switch x := x.(type) {
	case Slice:
		if high == nil {
			high = x.len
		}
		var n, c V = E.Unknown(st, "len", types.Typ[types.Int]), E.Unknown(st, "cap", types.Typ[types.Int])
		if h, ok := high.(Lin); ok {
			n = h.add(ll, -1)
		}
		if h, ok := x.cap.(Lin); ok {
			c = h.add(ll, -1)
		}
		return Slice{x.o, x.off.add(ll, 1), n, c}
	case Nilv:
		return x
	case Ptr:
		if a, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
			if high == nil {
				high = lin(a.Len())
			}
			// an array object is indexed by its own path
			if len(x.path) == 0 {
				if h, ok := high.(Lin); ok {
					return Slice{x.o, ll, h.add(ll, -1), lin(a.Len()).add(ll, -1)}
				}
			}
		}
	case Strv:
		if h, ok := high.(Lin); high == nil || ok && h.isConst() {
			hi := int64(len(x))
			if high != nil {
				hi = h.c
			}
			if ll.isConst() && ll.c >= 0 && ll.c <= hi && hi <= int64(len(x)) {
				return x[ll.c:hi]
			}
		}
	}
	return E.Unknown(st, "slice", in.Type())
}

func lenOf(v V) V {
	switch s := v.(type) {
	case Slice:
		return s.len
	case Nilv:
		return lin(0)
	case Strv:
		return lin(int64(len(s)))
	case Struct:
		return lin(int64(len(s.f)))
	}
	return nil
}

// callee resolves a call and evaluates its arguments.
func (E *Interp) callee(st *State, in ssa.CallInstruction) (fn *ssa.Function, bind []V, args []V) {
	c := in.Common()
	if c.IsInvoke() {
		recv := E.get(st, c.Value)
		args = append(args, recv)
		if i, ok := recv.(Iface); ok && i.t != nil {
			// a known dynamic type
			ms := E.P.SSA.MethodSets.MethodSet(i.t)
			if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := E.P.SSA.MethodValue(sel); f != nil && f.Blocks != nil && E.P.inRepo(f) && f.Synthetic == "" {
					fn = f
					args[0] = i.v
				}
			}
		}
	} else if f := c.StaticCallee(); f != nil {
		fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if fv, ok := E.get(st, mc).(Fnv); ok {
				bind = fv.b
			}
		}
	} else if fv, ok := E.get(st, c.Value).(Fnv); ok {
		fn, bind = fv.fn, fv.b
	}
	for _, a := range c.Args {
		args = append(args, E.get(st, a))
	}
	if fn != nil && fn.Synthetic != "" {
		// a method used as a value
		if m, ok := fn.Object().(*types.Func); ok {
			if t := E.P.SSA.FuncValue(m); t != nil && t.Blocks != nil && len(bind)+len(args) == len(t.Params) {
				fn, args, bind = t, append(append([]V{}, bind...), args...), nil
			}
		}
	}
	return
}

// canonical computes the functions of literals and variables which C02 shows to
// be what they are, whatever form they have.
func (E *Interp) canonical(st *State, fn *ssa.Function, args []V) V {
	if rawZ || fn == nil || fn.Signature.Recv() == nil || len(args) != 1 || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/z" {
		return nil
	}
	t, r := fn.Signature.Recv().Type(), fn.Signature.Results()
	if r.Len() != 1 {
		return nil
	}
	n := namedOf(t)
	if n == nil {
		return nil
	}
	bin := func(op token.Token, x V, k int64) V { return E.binop(st, op, x, lin(k), t) }
	switch n.Obj().Name() + "." + fn.Name() {
	case "Lit.Not":
		return bin(token.XOR, args[0], 1)
	case "Lit.Var":
		return bin(token.SHR, args[0], 1)
	case "Var.Pos":
		return bin(token.SHL, args[0], 1)
	case "Var.Neg":
		return bin(token.OR, bin(token.SHL, args[0], 1), 1)
	}
	return nil
}

// rawZ asks for these functions as they are written.
var rawZ bool

// boundOf tells that fn stands for a method of an interface of the repository, used
// as a value.
func boundOf(fn *ssa.Function) bool {
	o := fn.Object()
	return strings.HasPrefix(fn.Synthetic, "bound method wrapper") && o != nil && o.Pkg() != nil &&
		(o.Pkg().Path() == modPath || strings.HasPrefix(o.Pkg().Path(), modPath+"/"))
}

func (E *Interp) call(st *State, in ssa.CallInstruction, fn *ssa.Function, bind []V, args []V) ([]*State, []Outcome) {
	c := in.Common()
	finish := func(opts []Opt) []*State {
		var res []*State
		for _, o := range opts {
			if v := in.Value(); v != nil {
				o.st.top().env[v] = o.v
			}
			res = append(res, o.st)
		}
		return res
	}
	if E.Call != nil {
		if ok, opts := E.Call(st, in, fn, args); ok {
			return finish(opts), nil
		}
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return finish([]Opt{{st, E.builtin(st, in, bi.Name(), args)}}), nil
	}
	if v := E.canonical(st, fn, args); v != nil {
		return finish([]Opt{{st, v}}), nil
	}
	if fn != nil && fn.Blocks != nil && (E.P.inRepo(fn) || boundOf(fn)) {
		rec := 0
		for _, f := range E.stack {
			if f == fn {
				rec++
			}
		}
		if rec == 0 || rec < 3 && E.Unroll > 0 {
			var res []*State
			var outs []Outcome
			for _, o := range E.Run(st, fn, args, bind) {
				switch o.Kind {
				case "return":
					if v := in.Value(); v != nil {
						switch len(o.Ret) {
						case 0:
							o.St.top().env[v] = Tuple{}
						case 1:
							o.St.top().env[v] = o.Ret[0]
						default:
							o.St.top().env[v] = Tuple(o.Ret)
						}
					}
					res = append(res, o.St)
				default:
					outs = append(outs, Outcome{Kind: o.Kind, St: pop(o.St), Hdr: o.Hdr, Prev: o.Prev, Pos: o.Pos})
				}
			}
			return res, outs
		}
	}
	if v := in.Value(); v != nil {
		name := "call"
		if fn != nil {
			name = fn.Name()
		} else if c.IsInvoke() {
			name = c.Method.Name()
		}
		return finish([]Opt{{st, E.Unknown(st, name, v.Type())}}), nil
	}
	return []*State{st}, nil
}

func (E *Interp) builtin(st *State, in ssa.CallInstruction, name string, args []V) V {
	var rt types.Type = types.Typ[types.Int]
	if v := in.Value(); v != nil {
		rt = v.Type()
	}
	switch name {
	case "delete":
		if E.MapSet != nil {
			E.MapSet(st, args[0], args[1], Tag{"uniq:removed"}, in.Pos())
		}
		return Tuple{}
	case "len":
		if l := lenOf(args[0]); l != nil {
			return l
		}
		return linSym(&Sym{id: "len(" + args[0].String() + ")", lo: i64(0)})
	case "cap":
		switch s := args[0].(type) {
		case Slice:
			return s.cap
		case Nilv:
			return lin(0)
		}
		return linSym(&Sym{id: "cap(" + args[0].String() + ")", lo: i64(0)})
	case "append":
		et := rt.Underlying().(*types.Slice).Elem()
		key := "elem:" + et.String()
		var d Slice
		switch s := args[0].(type) {
		case Slice:
			d = s
		case Nilv:
			st.seq++
			d = Slice{&Obj{id: fmt.Sprintf("append#%d", st.seq)}, Lin{}, lin(0), lin(0)}
		default:
			return E.Unknown(st, "append", rt)
		}
		st.seq++
		ncap := linSym(&Sym{id: fmt.Sprintf("cap#%d", st.seq), lo: i64(0)})
		s, ok := args[1].(Slice)
		dl, ok2 := d.len.(Lin)
		if _, isnil := args[1].(Nilv); isnil {
			return d
		}
		if !ok || !ok2 {
			E.dirtyElems(st, d.o, key)
			return Slice{d.o, d.off, E.Unknown(st, "len", types.Typ[types.Int]), ncap}
		}
		if n, ok := s.len.(Lin); ok && n.isConst() && n.c <= 8 {
			for i := int64(0); i < n.c; i++ {
				q := Ptr{s.o, []pe{{f: -1, idx: s.off.add(lin(i), 1)}}}
				opts := E.load(st, q, key, et)
				v := opts[0].v
				if len(opts) > 1 {
					panic(undecided("choice inside append"))
				}
				E.store(st, Ptr{d.o, []pe{{f: -1, idx: d.off.add(dl, 1).add(lin(i), 1)}}}, key, et, v, in.Pos())
			}
			return Slice{d.o, d.off, dl.add(n, 1), ncap}
		}
		E.dirtyElems(st, d.o, key)
		st.events = append(st.events, Event{Kind: "copy", Args: []V{Slice{d.o, d.off.add(dl, 1), s.len, s.len}, s}, Pos: in.Pos()})
		if n, ok := s.len.(Lin); ok {
			if dl.isConst() && dl.c == 0 && d.off.isConst() {
				E.setBase(st, d, s, n, key)
			}
			return Slice{d.o, d.off, dl.add(n, 1), ncap}
		}
		return Slice{d.o, d.off, E.Unknown(st, "len", types.Typ[types.Int]), ncap}
	case "copy":
		d, ok1 := args[0].(Slice)
		s, ok2 := args[1].(Slice)
		if ok1 {
			key := "elem:" + in.Common().Args[0].Type().Underlying().(*types.Slice).Elem().String()
			E.dirtyElems(st, d.o, key)
			if ok2 {
				E.setBase(st, d, s, d.len, key)
			}
			n := E.Unknown(st, "copy", rt)
			dl, okd := d.len.(Lin)
			if sl, oks := s.len.(Lin); ok2 && okd && oks {
				switch nl, isl := n.(Lin); {
				case E.geq0(st, dl.add(sl, -1)):
					n = sl
				case E.geq0(st, sl.add(dl, -1)):
					n = dl
				case isl:
					st.facts = append(st.facts, nl, dl.add(nl, -1), sl.add(nl, -1))
				}
			}
			st.events = append(st.events, Event{Kind: "copy", Args: []V{args[0], args[1], n}, Pos: in.Pos()})
			return n
		}
		return E.Unknown(st, "copy", rt)
	case "ssa:wrapnilchk":
		return args[0]
	}
	if in.Value() != nil {
		return E.Unknown(st, name, rt)
	}
	return Tuple{}
}

// setBase records that the first n elements of d are those of s.
func (E *Interp) setBase(st *State, d, s Slice, n V, key string) {
	st.mem[d.o.id+"#base"] = cell{nil, nil, "", Tuple{s, d.off, n}}
	for k := range st.dirty {
		if strings.HasPrefix(k, d.o.id+"|") {
			delete(st.dirty, k)
		}
	}
	for k := range st.wr {
		if strings.HasPrefix(k, d.o.id+"|") {
			delete(st.wr, k)
		}
	}
}

// elemCopy is a loop which copies elements one by one.
type elemCopy struct {
	st       *ssa.Store
	dst, src Slice
	n        V
}

// loopCopies recognises the element copies of a counted loop.
func (E *Interp) loopCopies(st *State, h *ssa.BasicBlock, tails map[*ssa.BasicBlock]bool, init map[*ssa.Phi]V) []elemCopy {
	in := loopBlocks(h, tails)
	for b := range in {
		for _, s := range b.Succs {
			if !in[s] && b != h {
				return nil
			}
		}
	}
	if len(h.Instrs) == 0 {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !in[h.Succs[0]] || in[h.Succs[1]] {
		return nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return nil
	}
	idx := cond.X
	// the counter starts at zero and steps by one
	var phi *ssa.Phi
	start := int64(0)
	if p, ok := idx.(*ssa.Phi); ok && p.Block() == h {
		phi = p
	} else if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.ADD && isConst(bo.Y, 1) {
		if p, ok := bo.X.(*ssa.Phi); ok && p.Block() == h {
			phi, start = p, -1
		}
	}
	if phi == nil {
		return nil
	}
	if l, ok := init[phi].(Lin); !ok || !l.isConst() || l.c != start {
		return nil
	}
	for i, p := range h.Preds {
		if !tails[p] {
			continue
		}
		bo, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) || !isConst(bo.Y, 1) {
			return nil
		}
	}
	mods := map[string]bool{}
	for b := range in {
		E.blockMods(b, mods, nil)
	}
	var outside func(v ssa.Value) V
	outside = func(v ssa.Value) V {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return E.get(st, v)
		case ssa.Instruction:
			if !in[x.Block()] {
				return E.get(st, v)
			}
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL || mods[addrKey(x.X)] {
				return nil
			}
			p, ok := outside(x.X).(Ptr)
			if !ok {
				return nil
			}
			if os := E.load(st, p, addrKey(x.X), x.Type()); len(os) == 1 {
				return os[0].v
			}
		case *ssa.FieldAddr:
			if p, ok := outside(x.X).(Ptr); ok {
				return Ptr{p.o, append(append([]pe(nil), p.path...), pe{f: x.Field})}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if s := outside(x.Call.Args[0]); s != nil {
					return lenOf(s)
				}
			}
		}
		return nil
	}
	n := outside(cond.Y)
	if n == nil {
		return nil
	}
	var res []elemCopy
	for b := range in {
		dom := true
		for t := range tails {
			dom = dom && b.Dominates(t)
		}
		if !dom {
			continue
		}
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			da, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || da.Index != idx {
				continue
			}
			ld, ok := s.Val.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			sa, ok := ld.X.(*ssa.IndexAddr)
			if !ok || sa.Index != idx {
				continue
			}
			d, ok1 := outside(da.X).(Slice)
			c, ok2 := outside(sa.X).(Slice)
			if ok1 && ok2 && d.o.id != c.o.id {
				res = append(res, elemCopy{s, d, c, n})
			}
		}
	}
	return res
}

func isConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	k, ok := constInt(c.Value)
	return ok && k == n
}

func (E *Interp) dirtyElems(st *State, o *Obj, key string) {
	for k, c := range st.mem {
		if c.o != nil && c.o.id == o.id {
			delete(st.mem, k)
		}
	}
	st.dirty[o.id+"|"+key] = true
}
