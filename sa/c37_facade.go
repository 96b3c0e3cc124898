package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C37", Level: "other",
		Rule: "Abstract interpretation over go/ssa of every operation of the public solver, with the operations of its engine as opaque events: on every path exactly the operation it stands for is called, with the caller's arguments, and what it answers is passed on.",
		Run:  runC37})
}

// facade follows the operations of a type which stands for another one.
type facade struct {
	*streamWorld
	engine *types.Named
}

func runC37(r *Report) {
	P := r.P
	f := &facade{streamWorld: newStream(r), engine: P.Type(xoPkg, "S")}
	e := f.e
	calls := map[*ssa.Function]string{}
	ms := P.SSA.MethodSets.MethodSet(types.NewPointer(f.engine))
	for i := 0; i < ms.Len(); i++ {
		if fn := P.SSA.MethodValue(ms.At(i)); fn != nil && fn.Object() != nil && fn.Object().Exported() && fn.Synthetic == "" {
			calls[fn] = fn.Name()
		}
	}
	for _, n := range []string{"NewS", "NewSV", "NewSVc"} {
		calls[P.Func(xoPkg, n)] = n
	}
	calls[P.Func(xoPkg, "Cdb.Write")] = "Write"
	delete(calls, P.Func(xoPkg, "S.Value"))
	delete(calls, P.Func(xoPkg, "S.MaxVar"))
	delete(calls, P.Func(xoPkg, "S.SCopy"))
	e.E.NoMods = map[*ssa.Function]bool{}
	for fn := range calls {
		e.E.NoMods[fn] = true
	}
	readCnf := P.Func("dimacs", "ReadCnf")
	e.E.NoMods[readCnf] = true
	eng := e.h.ptr("S")
	f.More = func(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
		n := calls[fn]
		switch {
		case fn == nil:
			return false, nil
		case fn == readCnf:
			s2 := st.clone()
			e.log(st, "call", append([]V{Strv("ReadCnf")}, args...)...)
			e.log(s2, "callerr", append([]V{Strv("ReadCnf")}, args...)...)
			return true, []Opt{{st, Nilv{}}, {s2, Tag{"uniq:a malformed text"}}}
		case n == "":
			return false, nil
		}
		e.log(st, "call", append([]V{Strv(n)}, args...)...)
		res := fn.Signature.Results()
		out := make(Tuple, res.Len())
		for i := range out {
			st.seq++
			if isPtrTo(res.At(i).Type(), f.engine) {
				out[i] = Ptr{o: obj(fmt.Sprintf("answer#%d", st.seq))}
			} else {
				out[i] = Unk{fmt.Sprintf("answer#%d", st.seq)}
			}
		}
		e.log(st, "answer", out...)
		switch len(out) {
		case 1:
			return one1(st, out[0])
		}
		return one1(st, out)
	}
	base := e.E.Load
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if len(p.path) > 0 && p.path[len(p.path)-1].f < 0 && types.Identical(t, types.Typ[types.Int8]) {
			_, os := opts(st, lin(1), lin(0), lin(-1))
			for _, o := range os {
				e.log(o.st, "value", Ptr{o: p.o}, p.path[len(p.path)-1].idx, o.v)
			}
			return true, os
		}
		switch c := cellName(p, key); c {
		case "Gini.xo", "DimacsVis.s":
			return one1(st, eng)
		case "Vars.Max":
			return one1(st, Unk{"the largest variable"})
		case "Vars.Vals":
			return one1(st, Slice{obj("Vars.Vals"), Lin{}, linSym(&Sym{id: "len(Vars.Vals)", lo: i64(0)}), linSym(&Sym{id: "cap(Vars.Vals)", lo: i64(0)})})
		}
		return base(st, p, key, t)
	}
	gini := P.Type("", "Gini")
	judge := func(fn *ssa.Function, want string) {
		r.Fn(fn)
		e.recs = map[string][]*bodyRec{}
		args := []V{}
		for i, p := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				if isPtrTo(p.Type(), f.engine) {
					args = append(args, eng)
				} else {
					args = append(args, Ptr{o: obj("self")})
				}
				continue
			}
			switch p.Type().Underlying().(type) {
			case *types.Slice:
				o := obj("arg:" + p.Name())
				args = append(args, Slice{o, Lin{}, linSym(&Sym{id: "len(" + o.id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + o.id + ")", lo: i64(0)})})
			case *types.Basic:
				x := &Sym{id: "arg:" + p.Name()} // any number
				if b := p.Type().Underlying().(*types.Basic); b.Info()&types.IsUnsigned != 0 {
					x.lo, x.hi = i64(0), i64(1<<32-1)
				}
				args = append(args, linSym(x))
			default:
				args = append(args, Unk{"arg:" + p.Name()})
			}
		}
		given := args
		if fn.Signature.Recv() != nil {
			given = args[1:]
		}
		outs := e.E.Run(newState(), fn, args, nil)
		n := 0
		for _, o := range outs {
			if o.Kind != "return" && o.Kind != "panic" {
				continue
			}
			n++
			why := ""
			if o.Kind == "panic" {
				why = "it may panic"
			} else {
				why = f.judge(fn, o, want, given, eng)
			}
			r.Ob("operations", fmt.Sprintf("%s path %d", P.fname(fn), n), why == "", fn.Pos(), "%s", orElse(why, "does what the engine's "+want+" does"))
		}
		r.Ob("operations", P.fname(fn), n > 0, fn.Pos(), "it has %d paths", n)
	}
	gs := P.SSA.MethodSets.MethodSet(types.NewPointer(gini))
	for i := 0; i < gs.Len(); i++ {
		fn := P.SSA.MethodValue(gs.At(i))
		if fn == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" {
			continue
		}
		judge(fn, fn.Name())
	}
	judge(P.Func("", "New"), "NewS")
	judge(P.Func("", "NewV"), "NewSV")
	judge(P.Func("", "NewVc"), "NewSVc")
	judge(P.Func("", "NewDimacs"), "NewDimacs")
	judge(P.Func(xoPkg, "S.Value"), "Value")
	judge(P.Func(xoPkg, "S.MaxVar"), "MaxVar")
	judge(P.Func(xoPkg, "S.SCopy"), "SCopy")
	vis := P.Type(xoPkg, "DimacsVis")
	vs := P.SSA.MethodSets.MethodSet(types.NewPointer(vis))
	for i := 0; i < vs.Len(); i++ {
		fn := P.SSA.MethodValue(vs.At(i))
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		switch fn.Name() {
		case "Init":
			judge(fn, "vis.Init")
		case "Add":
			judge(fn, "Add")
		case "S":
			judge(fn, "vis.S")
		case "Eof":
			judge(fn, "nothing")
		}
	}
	r.Floor("operations", 30)
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

// judge compares a path with what is wanted.
func (f *facade) judge(fn *ssa.Function, o Outcome, want string, given []V, eng Ptr) string {
	evs := o.St.events
	for _, ev := range evs {
		if ev.Kind == "set" || ev.Kind == "copy" || ev.Kind == "loop" {
			return "it does something else besides"
		}
		if ev.Kind == "fset" && !strings.HasPrefix(string(ev.Args[0].(Strv)), "Gini.") && !strings.HasPrefix(string(ev.Args[0].(Strv)), "DimacsVis.") {
			return fmt.Sprintf("it changes %v besides", ev.Args[0])
		}
	}
	cs := append(evsOf(evs, "call"), evsOf(evs, "callerr")...)
	// called is the one call which is made, and its answer
	called := func(name string, args ...V) (Tuple, string) {
		if len(cs) != 1 {
			return nil, fmt.Sprintf("%d operations of the engine are called", len(cs))
		}
		if cs[0].Args[0] != V(Strv(name)) {
			return nil, fmt.Sprintf("it calls %v", cs[0].Args[0])
		}
		if len(cs[0].Args) != len(args)+1 {
			return nil, "it passes something else on"
		}
		for i, x := range args {
			if !sameV(cs[0].Args[i+1], x) {
				return nil, fmt.Sprintf("it passes on %v instead of %v", cs[0].Args[i+1], x)
			}
		}
		a := evsOf(evs, "answer")
		if len(a) == 0 {
			return nil, ""
		}
		return Tuple(a[0].Args), ""
	}
	engineOf := func(v V) V {
		p, ok := v.(Ptr)
		if i, isI := v.(Iface); isI {
			p, ok = i.v.(Ptr)
		}
		if !ok {
			return nil
		}
		for _, ev := range evs {
			if ev.Kind == "fset" && ev.Args[0] == V(Strv("Gini.xo")) && p.o.id == f.owner(o.St, ev.Args[1]) {
				return ev.Args[1]
			}
		}
		return nil
	}
	plain := func(v V) V {
		if i, ok := v.(Iface); ok {
			return i.v
		}
		return v
	}
	switch want {
	case "nothing":
		if len(cs) > 0 {
			return "it calls something"
		}
		return ""
	case "Value":
		vs := evsOf(evs, "value")
		if len(vs) != 1 || len(cs) > 0 {
			return "it does not look at the value once"
		}
		switch {
		case vs[0].Args[0].(Ptr).o.id != "Vars.Vals" || !sameV(vs[0].Args[1], given[0]):
			return fmt.Sprintf("it looks at the value of %v", vs[0].Args[1])
		case o.Ret[0] != V(Boolv(sameV(vs[0].Args[2], lin(1)))):
			return fmt.Sprintf("for the value %v it answers %v", vs[0].Args[2], o.Ret[0])
		}
		return ""
	case "MaxVar":
		if len(cs) > 0 || o.Ret[0] != V(Unk{"the largest variable"}) {
			return fmt.Sprintf("it answers %v", o.Ret[0])
		}
		return ""
	case "Write":
		if len(cs) != 1 || cs[0].Args[0] != V(Strv("Write")) || len(cs[0].Args) != 3 || !sameV(cs[0].Args[2], given[0]) {
			return "it does not write the clauses"
		}
		if a := evsOf(evs, "answer"); !sameV(o.Ret[0], a[0].Args[0]) {
			return fmt.Sprintf("it answers %v", o.Ret[0])
		}
		return ""
	case "Copy", "SCopy":
		a, why := called("Copy", eng)
		if why != "" {
			return why
		}
		if recvName(fn) == "S" {
			if !sameV(plain(o.Ret[0]), a[0]) {
				return "it does not give the copy"
			}
			return ""
		}
		if got := engineOf(o.Ret[0]); got == nil || !sameV(got, a[0]) {
			return fmt.Sprintf("it gives a solver with the engine %v", got)
		}
		return ""
	case "NewS", "NewSV", "NewSVc":
		a, why := called(want, given...)
		if why != "" {
			return why
		}
		if got := engineOf(o.Ret[0]); got == nil || !sameV(got, a[0]) {
			return fmt.Sprintf("it gives a solver with the engine %v", got)
		}
		return ""
	case "NewDimacs":
		if len(cs) != 1 || cs[0].Args[0] != V(Strv("ReadCnf")) || !sameV(cs[0].Args[1], given[0]) {
			return "it does not read the text"
		}
		_, isNil := o.Ret[1].(Nilv)
		if cs[0].Kind == "callerr" {
			if isNil {
				return "an error is not reported"
			}
			return ""
		}
		if !isNil {
			return "a text is refused without a reason"
		}
		if got := engineOf(o.Ret[0]); got == nil || !sameV(got, eng) {
			return fmt.Sprintf("it gives a solver with the engine %v", got)
		}
		return ""
	case "vis.Init":
		a, why := called("NewSVc", given...)
		if why != "" {
			return why
		}
		for _, ev := range evsOf(evs, "fset") {
			if sameV(ev.Args[1], a[0]) {
				return ""
			}
		}
		return "the engine is not kept"
	case "vis.S":
		if len(cs) > 0 || !sameV(o.Ret[0], eng) {
			return fmt.Sprintf("it gives %v", o.Ret[0])
		}
		return ""
	}
	a, why := called(want, append([]V{eng}, given...)...)
	if why != "" {
		return why
	}
	if len(o.Ret) != len(a) {
		return "it answers something else"
	}
	for i := range a {
		if !sameV(plain(o.Ret[i]), a[i]) {
			return fmt.Sprintf("it answers %v", o.Ret[i])
		}
	}
	return ""
}

// owner is the object whose engine v is.
func (f *facade) owner(st *State, v V) string {
	for _, c := range st.mem {
		if c.o != nil && sameV(c.v, v) && cellName(Ptr{c.o, c.path}, c.key) == "Gini.xo" {
			return c.o.id
		}
	}
	return ""
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}
