package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C40", Level: "other",
		Rule: "Abstract interpretation over go/ssa of the command from its main function and of its icnf visitors, with every option and every answer: what is printed, and with which status the process ends, on every path.",
		Run:  runC40})
}

// cmdWorld models what the command is made of: options, files, solvers.
type cmdWorld struct {
	*Report
	e    *emitter
	ends []*State        // the process ended
	vis  map[string]V    // the visitors of icnf files
	opt  map[string]bool // options which are looked at
	lits map[string]bool // tables of literals
	max  map[string]Lin  // the largest variable of a solver
	fix  map[string]V    // options with a value
	one  bool            // there is one plain input, which can be read
}

const cmdPkg = "cmd/gini"

func newCmd(r *Report) *cmdWorld {
	w := &cmdWorld{Report: r, e: newObserver(r.P), vis: map[string]V{}, opt: map[string]bool{}}
	e := w.e
	w.max = map[string]Lin{
		"S":      linSym(&Sym{id: "the largest variable of the solver", lo: i64(0), hi: i64(1<<30 - 1)}),
		"client": linSym(&Sym{id: "the largest variable of the server", lo: i64(0), hi: i64(1<<30 - 1)}),
	}
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if strings.HasPrefix(p.o.id, "g:") && len(p.path) == 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Basic); ok {
					return one1(st, Ptr{o: obj("option " + p.o.id[strings.LastIndexByte(p.o.id, '.')+1:])})
				}
			}
			for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
				if strings.HasSuffix(p.o.id, "os."+n) {
					return one1(st, Tag{n})
				}
			}
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				return one1(st, Tag{"uniq:" + p.o.id})
			}
			if s, ok := t.Underlying().(*types.Slice); ok && isLit(s.Elem()) {
				return one1(st, w.table("assumptions"))
			}
		}
		if strings.HasPrefix(p.o.id, "option ") && len(p.path) == 0 {
			w.opt[p.o.id[7:]] = true
			if v, ok := w.fix[p.o.id[7:]]; ok {
				st.keep(p.o.id, v)
				return one1(st, v)
			}
			b, _ := t.Underlying().(*types.Basic)
			switch {
			case b == nil:
			case b.Info()&types.IsBoolean != 0:
				_, os := opts(st, Boolv(true), Boolv(false))
				for _, o := range os {
					o.st.keep(p.o.id, o.v)
				}
				return true, os
			case b.Info()&types.IsInteger != 0:
				return one1(st, linSym(&Sym{id: p.o.id, lo: i64(0)}))
			case b.Info()&types.IsString != 0:
				return opts(st, Strv(""), Strv("an address"))
			}
		}
		if name == "Vars.Max" {
			return one1(st, w.max["S"])
		}
		if strings.HasPrefix(p.o.id, "values of") && len(p.path) == 1 {
			_, os := opts(st, Boolv(true), Boolv(false))
			for _, o := range os {
				e.log(o.st, "value", p.path[0].idx.scale(2), o.v)
			}
			return true, os
		}
		return false, nil
	}
	load := e.E.Load
	e.E.Load = func(st *State, p Ptr, key string, t types.Type) (bool, []Opt) {
		if len(p.path) == 1 && p.path[0].f < 0 && types.Identical(t, types.Typ[types.Int]) {
			// a table of answers
			_, os := opts(st, lin(1), lin(0), lin(-1))
			for _, o := range os {
				e.log(o.st, "read", Ptr{o: p.o}, p.path[0].idx, o.v)
			}
			return true, os
		}
		return load(st, p, key, t)
	}
	e.Next = w.call
	e.E.NoMods = map[*ssa.Function]bool{}
	for _, f := range r.P.Funcs {
		if p := r.P.pkgOf(f); p != cmdPkg && p != "z" {
			e.E.NoMods[f] = true
		}
	}
	e.E.OnGo = func(st *State, fn *ssa.Function, bind, args []V) {}
	return w
}

func (w *cmdWorld) table(id string) Slice {
	return Slice{obj(id), Lin{}, linSym(&Sym{id: "len(" + id + ")", lo: i64(0)}), linSym(&Sym{id: "cap(" + id + ")", lo: i64(0)})}
}

// number is the number which is printed for a value.
func (w *cmdWorld) number(verb byte, v V, t types.Type) V {
	if isLit(t) && (verb == 's' || verb == 'v') {
		if l, ok := v.(Lin); ok {
			switch {
			case l.divisible(2) && l.c%2 == 0:
				return divLin(l, 2)
			case l.divisible(2):
				return divLin(l.add(lin(1), -1), 2).scale(-1)
			}
		}
		return Tuple{Strv("the literal"), v}
	}
	return v
}

// printed are the tokens of a print.
func (w *cmdWorld) printed(st *State, n string, args []V, last types.Type) {
	e := w.e
	var vals []V
	var ts []types.Type
	if s, ok := args[len(args)-1].(Slice); ok {
		k, ok := s.len.(Lin)
		if !ok || !k.isConst() || k.c > 16 {
			panic(undecided("arguments of a print"))
		}
		et := last.Underlying().(*types.Slice).Elem()
		for i := int64(0); i < k.c; i++ {
			x := e.E.load(st, Ptr{s.o, []pe{{f: -1, idx: s.off.add(lin(i), 1)}}}, "elem:"+et.String(), et)[0].v
			var t types.Type = et
			if f, ok := x.(Iface); ok {
				x, t = f.v, f.t
			}
			vals, ts = append(vals, x), append(ts, t)
		}
	}
	out := func(v V) { e.log(st, "tok", v) }
	num := func(verb byte, i int) V {
		v := w.number(verb, vals[i], ts[i])
		if _, ok := strConst(v); ok {
			return v
		}
		return Tuple{Strv("%d"), v}
	}
	switch {
	case strings.HasSuffix(n, "f"):
		f, ok := strConst(args[len(args)-2])
		if !ok {
			out(Unk{"format"})
			return
		}
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out(Strv(f[i : i+1]))
				continue
			}
			i++
			switch {
			case i < len(f) && f[i] == '%':
				out(Strv("%"))
			case i < len(f) && strings.IndexByte("dsv", f[i]) >= 0 && k < len(vals):
				out(num(f[i], k))
				k++
			default:
				out(Unk{"verb"})
				return
			}
		}
	default:
		for i := range vals {
			if i > 0 && strings.HasSuffix(n, "ln") {
				out(Strv(" "))
			}
			out(num('v', i))
		}
		if strings.HasSuffix(n, "ln") {
			out(Strv("\n"))
		}
	}
}

func (w *cmdWorld) call(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) (bool, []Opt) {
	e, P := w.e, w.P
	n := calleeName(ci, fn)
	sig := ci.Common().Signature()
	last := func() types.Type { return sig.Params().At(sig.Params().Len() - 1).Type() }
	logged := func(kind string, vs ...V) (bool, []Opt) {
		_, os := opts(st, vs...)
		for _, o := range os {
			e.log(o.st, kind, o.v)
		}
		return true, os
	}
	anErr := V(Tag{"uniq:err"})
	switch n {
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		w.printed(st, n, args, last())
		return one1(st, Tuple{Top{}, Nilv{}})
	case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString":
		if t, ok := args[0].(Iface); ok && t.v.String() == "#Stdout" {
			if n == "io.WriteString" {
				e.log(st, "tok", args[1])
			} else {
				w.printed(st, n, args[1:], last())
			}
		}
		return one1(st, Tuple{Top{}, Nilv{}})
	case "fmt.Errorf", "errors.New":
		return one1(st, anErr)
	case "os.Exit":
		e.log(st, "exit", args[0])
		w.ends = append(w.ends, st.clone())
		return true, nil
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		e.log(st, "exit", lin(1))
		w.ends = append(w.ends, st.clone())
		return true, nil
	case "flag.NArg":
		if w.one {
			return one1(st, lin(1))
		}
		return one1(st, linSym(&Sym{id: "the number of inputs", lo: i64(0), hi: i64(1 << 30)}))
	case "flag.Arg":
		if w.one {
			return one1(st, Strv("a.cnf"))
		}
		return one1(st, Tuple{Strv("input"), args[0]})
	case "strings.HasSuffix":
		s, ok := strConst(args[1])
		if !ok {
			return false, nil
		}
		if f, ok := strConst(args[0]); ok {
			e.log(st, "suffix", Strv(s), Boolv(strings.HasSuffix(f, s)), args[0])
			return one1(st, Boolv(strings.HasSuffix(f, s)))
		}
		k := "suffix " + s + " of " + args[0].String()
		if v := st.kept(k); v != nil {
			return one1(st, v)
		}
		_, os := opts(st, Boolv(true), Boolv(false))
		if t, ok := st.kept("ending of " + args[0].String()).(Strv); ok {
			switch {
			case strings.HasSuffix(string(t), s):
				_, os = opts(st, Boolv(true))
			case !strings.HasSuffix(s, string(t)):
				_, os = opts(st, Boolv(false))
			}
		}
		for _, o := range os {
			o.st.keep(k, o.v)
			e.log(o.st, "suffix", Strv(s), o.v, args[0])
			if sameV(o.v, Boolv(true)) {
				o.st.keep("ending of "+args[0].String(), Strv(s))
			}
		}
		return true, os
	case "path/filepath.Ext", "path.Ext":
		if f, ok := strConst(args[0]); ok {
			return one1(st, Strv(filepath.Ext(f)))
		}
		of := args[0].String()
		var os []Opt
		known, _ := st.kept("ending of " + of).(Strv)
		exts := []string{".gz", ".bz2", ".cnf", ".icnf", ".other"}
		for _, x := range exts {
			fits := known == "" || strings.HasSuffix(string(known), x)
			for _, y := range exts {
				if v := st.kept("suffix " + y + " of " + of); v != nil && !sameV(v, Boolv(x == y)) {
					fits = false
				}
			}
			if !fits {
				continue
			}
			s2 := st.clone()
			for _, y := range exts {
				s2.keep("suffix "+y+" of "+of, Boolv(x == y))
				e.log(s2, "suffix", Strv(y), Boolv(x == y), args[0])
			}
			s2.keep("ending of "+of, Strv(x))
			os = append(os, Opt{s2, Strv(x)})
		}
		if len(os) == 0 {
			return false, nil
		}
		return true, os
	case "os.Stat", "os.Lstat":
		if w.one {
			return one1(st, Tuple{Unk{"info"}, Nilv{}})
		}
	case "os.Open":
		e.log(st, "opened", args[0])
		if w.one {
			return one1(st, Tuple{Tag{"file"}, Nilv{}})
		}
		_, os := opts(st, V(Tuple{Nilv{}, anErr}), Tuple{Tag{"file"}, Nilv{}})
		return true, os
	case "compress/gzip.NewReader":
		_, os := opts(st, V(Tuple{Nilv{}, anErr}), Tuple{Tag{"gzip of " + inner(args[0])}, Nilv{}})
		return true, os
	case "compress/bzip2.NewReader":
		return one1(st, Tag{"bzip2 of " + inner(args[0])})
	}
	if strings.HasPrefix(n, "(time.Time).") || strings.HasPrefix(n, "time.") {
		switch strings.TrimPrefix(n, "(time.Time).") {
		case "Before", "After", "Equal":
			return logged("compared", Boolv(true), Boolv(false))
		}
		return false, nil
	}
	pkg, name, recv := "", "", ""
	if fn != nil && P.inRepo(fn) {
		pkg, name = P.pkgOf(fn), fn.Name()
		if pkg == "" {
			pkg = "."
		}
		if rv := fn.Signature.Recv(); rv != nil {
			recv = tname(deref(rv.Type()))
		}
	} else if c := ci.Common(); c.IsInvoke() {
		name = c.Method.Name()
		switch v := args[0].(type) {
		case Tag:
			recv = v.id
		case Iface:
			recv = v.v.String()
		case Ptr:
			recv = v.o.id
		}
		if c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), modPath) {
			pkg = relPath(c.Method.Pkg().Path())
			if pkg == "" {
				pkg = "."
			}
		}
	}
	if pkg == cmdPkg || pkg == "" || strings.HasSuffix(pkg, "/z") || pkg == "z" {
		return false, nil
	}
	arg := func(i int) V {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	answers := func(v func(V) V) (bool, []Opt) {
		_, os := opts(st, v(lin(1)), v(lin(0)), v(lin(-1)))
		for i, o := range os {
			e.log(o.st, "answer", lin([]int64{1, 0, -1}[i]))
		}
		return true, os
	}
	same := func(v V) V { return v }
	lits := func(kind string, v V) {
		s, ok := v.(Slice)
		if k, c := s.len.(Lin); ok && c && k.isConst() && k.c == 1 && !strings.HasPrefix(s.o.id, "assumptions") {
			t := types.Type(P.Type("z", "Lit"))
			e.log(st, kind, e.E.load(st, Ptr{s.o, []pe{{f: -1, idx: s.off}}}, "elem:"+t.String(), t)[0].v)
			return
		}
		e.log(st, kind+"*", v)
	}
	done := func() (bool, []Opt) {
		if v := ci.Value(); v != nil {
			if v.Type().String() == "error" {
				_, os := opts(st, V(Nilv{}), anErr)
				for _, o := range os {
					if !sameV(o.v, Nilv{}) {
						e.log(o.st, "failed")
					}
				}
				return true, os
			}
			return one1(st, e.E.Unknown(st, name, v.Type()))
		}
		return true, []Opt{{st, Tuple{}}}
	}
	switch name {
	case "NewSDimacs":
		e.log(st, "source", arg(0))
		if !w.one {
			e.log(st, "failed")
			return one1(st, Tuple{Nilv{}, anErr})
		}
		_, os := opts(st, V(Tuple{Nilv{}, anErr}), Tuple{Ptr{o: obj("S")}, Nilv{}})
		e.log(os[0].st, "failed")
		return true, os
	case "Dial":
		if !w.one {
			return one1(st, Tuple{Ptr{o: obj("client")}, Nilv{}})
		}
		_, os := opts(st, V(Tuple{Nilv{}, anErr}), Tuple{Ptr{o: obj("client")}, Nilv{}})
		e.log(os[0].st, "failed")
		return true, os
	case "Dimacs":
		if pkg == "crisp" {
			e.log(st, "source", arg(1))
			if !w.one {
				e.log(st, "failed")
				return one1(st, anErr)
			}
			return done()
		}
	case "ReadICnf":
		e.log(st, "isource", arg(0))
		if v, ok := arg(1).(Iface); ok {
			w.vis[v.t.String()] = v
			e.log(st, "visitor", Strv(v.t.String()))
		} else {
			e.log(st, "visitor", Strv("unknown"))
		}
		return done()
	case "Assume":
		lits2 := arg(1)
		if _, ok := lits2.(Slice); ok {
			lits("assume", lits2)
		} else {
			e.log(st, "assume", lits2)
		}
		return done()
	case "Add":
		e.log(st, "gadd", arg(1))
		return done()
	case "GoSolve":
		e.log(st, "start", arg(0))
		if ci.Value() != nil && pkg != "crisp" {
			return one1(st, Iface{Tag{"solve"}, types.NewPointer(P.Type("internal/xo", "Ctl"))})
		}
		return one1(st, Iface{v: Tag{"solve"}})
	case "Try", "Wait":
		if name == "Try" {
			e.log(st, "limit", arg(1))
		}
		if rs := sig.Results(); rs.Len() == 2 {
			_, os := answers(func(v V) V { return Tuple{v, Nilv{}} })
			s2 := st.clone()
			s2.events = s2.events[:len(s2.events)-1]
			e.log(s2, "failed")
			return true, append(os, Opt{s2, Tuple{lin(0), anErr}})
		}
		return answers(same)
	case "Solve":
		if sig.Results().Len() == 1 && ci.Value() != nil {
			return answers(same)
		}
	case "TryStats":
		e.log(st, "limit", arg(1))
		return one1(st, Tag{"stream of results"})
	case "Value":
		if sig.Results().Len() == 1 {
			_, os := opts(st, Boolv(true), Boolv(false))
			for _, o := range os {
				e.log(o.st, "value", arg(1), o.v)
			}
			return true, os
		}
	case "Model":
		_, os := opts(st, V(Tuple{Nilv{}, anErr}), Tuple{w.table("values of the server"), Nilv{}})
		e.log(os[0].st, "failed")
		return true, os
	case "MaxVar":
		if recv == "Client" {
			return one1(st, w.max["client"])
		}
	case "Why":
		e.log(st, "why", arg(0))
		t := w.table("the reasons")
		if d, ok := arg(1).(Slice); ok && !sameV(d.len, lin(0)) {
			t = w.table("more than the reasons")
		}
		if sig.Results().Len() == 2 {
			_, os := opts(st, V(Tuple{Nilv{}, anErr}), Tuple{t, Nilv{}})
			e.log(os[0].st, "failed")
			return true, os
		}
		return one1(st, t)
	case "NewT":
		e.log(st, "exchange", arg(0))
		return one1(st, Iface{v: Tag{"exchange"}})
	case "Stop":
		return done()
	case "Ex":
		s2 := st.clone()
		e.log(st, "taken", arg(1))
		e.log(s2, "response", arg(1))
		return true, []Opt{{st, Nilv{}}, {s2, Ptr{o: obj("Response")}}}
	case "NewRequest":
		st.seq++
		o := &Obj{id: fmt.Sprintf("req#%d", st.seq), zero: true}
		e.log(st, "request", Ptr{o: o}, arg(0))
		return one1(st, Ptr{o: o})
	case "New", "NewV", "NewVc":
		if pkg == "." {
			return one1(st, Ptr{o: obj("Gini")})
		}
	case "NewStats", "ReadStats", "String":
		return done()
	case "Quit", "Close":
		return one1(st, e.E.Unknown(st, name, types.Universe.Lookup("error").Type()))
	}
	e.log(st, "other", Strv(pkg+"."+name))
	return done()
}

func inner(v V) string {
	if f, ok := v.(Iface); ok {
		v = f.v
	}
	return strings.TrimPrefix(v.String(), "#")
}

var sLine = map[int64]string{1: "s SATISFIABLE\n", 0: "s UNKNOWN\n", -1: "s UNSATISFIABLE\n"}

func runC40(r *Report) {
	w := newCmd(r)
	w.command()
	w.icnf()
}

// outLoop judges a loop which prints the values of all variables or all reasons.
func (w *cmdWorld) outLoop(after *State, id string, max V, model bool) string {
	e := w.e
	recs := e.recs[id]
	if len(recs) == 0 {
		return "a loop without an iteration"
	}
	letter := "f"
	if model {
		letter = "v"
	}
	re := regexp.MustCompile(`^(\n` + letter + `)? +«?([^«» ]+)»?$`)
	for _, b := range recs {
		var want V
		if model {
			vs := evsOf(b.evs, "value")
			if len(vs) == 0 {
				return "a variable is printed without its value"
			}
			l, ok := vs[0].Args[0].(Lin)
			if !ok || !l.divisible(2) {
				return fmt.Sprintf("the value of %v is printed", vs[0].Args[0])
			}
			i := divLin(l, 2)
			if c := e.covers(after, b, i.add(lin(1), -1), max); c != "" {
				return "the variables: " + c
			}
			for _, v := range vs[1:] {
				if !sameV(v.Args[0], l) {
					return "the values of different variables"
				}
			}
			want = i
			if !bool(vs[0].Args[1].(Boolv)) {
				want = i.scale(-1)
			}
		} else {
			_, i, m := over(b, "the reasons")
			if m == nil {
				return "something which is no reason is printed"
			}
			if c := e.covers(after, b, i, max); c != "" {
				return "the reasons: " + c
			}
			want = w.number('s', m, w.P.Type("z", "Lit"))
		}
		ps := pieces(b.evs)
		t := ""
		for _, p := range ps {
			if p.Kind == "text" {
				t += string(p.Args[0].(Strv))
			} else if !e.silent(string(p.Args[0].(Strv))) {
				return "one variable is printed by a loop"
			}
		}
		m := re.FindStringSubmatch(strings.ReplaceAll(t, numTok(want), "N"))
		if m == nil || m[2] != "N" {
			return fmt.Sprintf("%q is printed for %s", t, numTok(want))
		}
	}
	return ""
}

// stream models the results which a monitored call gives: at most two.
func (w *cmdWorld) stream() {
	e := w.e
	e.E.Chan = func(st *State, kind string, ch V, v V, t types.Type) []Opt {
		if kind != "recv" {
			return []Opt{{st, v}}
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok || ch.String() != "#stream of results" {
			return []Opt{{st, Tuple{e.E.Unknown(st, "recv", t), Boolv(true)}}}
		}
		n := lin(0)
		if k, ok := st.kept("received").(Lin); ok {
			n = k
		}
		var r []Opt
		end := st.clone()
		z := make([]V, u.NumFields())
		for i := range z {
			z[i] = zeroOf(u.Field(i).Type())
		}
		e.log(end, "closed")
		r = append(r, Opt{end, Tuple{Struct{z}, Boolv(false)}})
		if n.c >= 2 {
			return r
		}
		for _, a := range []int64{1, 0, -1} {
			s := st.clone()
			f := make([]V, u.NumFields())
			for i := range f {
				switch ft := u.Field(i).Type(); {
				case types.Identical(ft, types.Typ[types.Int]):
					f[i] = lin(a)
				default:
					f[i] = e.E.Unknown(s, "received", ft)
				}
			}
			s.keep("received", n.add(lin(1), 1))
			e.log(s, "answer", lin(a))
			r = append(r, Opt{s, Tuple{Struct{f}, Boolv(true)}})
		}
		return r
	}
	e.E.UnrollLoop = func(fn *ssa.Function, hdr *ssa.BasicBlock) (bool, int) {
		if w.one && fn.Name() == "main" {
			return true, 4
		}
		for b := range loopBlocks(hdr, e.E.backEdges(fn)[hdr]) {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
					return true, 4
				}
			}
		}
		return false, 0
	}
}

func (w *cmdWorld) command() {
	e, P := w.e, w.P
	main := P.Func(cmdPkg, "main")
	w.Fn(main)
	w.stream()
	bads := map[string]map[string]bool{}
	note := func(rule, f string, a ...interface{}) {
		if bads[rule] == nil {
			bads[rule] = map[string]bool{}
		}
		bads[rule][fmt.Sprintf(f, a...)] = true
	}
	seen := map[string]int{}
	paths := 0
	pass := func() {
		w.ends, e.recs = nil, map[string][]*bodyRec{}
		for _, o := range e.E.Run(newState(), main, nil, nil) {
			switch o.Kind {
			case "return":
				w.judge(o.St, o.St.events, seen, note)
			case "panic":
				note("ends", "it may panic at %s", P.Pos(o.Pos))
			case "back":
				// an iteration, which is recorded
			default:
				note("ends", "not analysed to its end (%s in %v)", o.Kind, o.St.events)
			}
			paths++
		}
		for _, s := range w.ends {
			w.judge(s, s.events, seen, note)
			paths++
		}
		for _, rs := range e.recs {
			for _, b := range rs {
				if b.hdr.Parent() == main {
					w.judge(b.st, b.evs, seen, note)
					paths++
				}
			}
		}
	}
	// any inputs, which turn out not to be readable
	w.fix = map[string]V{"pprof": Strv("")}
	pass()
	// an input with every option
	w.one = true
	for _, satcomp := range []V{Boolv(true), Boolv(false)} {
		for _, crisp := range []V{Strv(""), Strv("an address")} {
			for _, mon := range []V{lin(0), lin(1000)} {
				for _, out := range []V{Boolv(true), Boolv(false)} {
					w.fix = map[string]V{"pprof": Strv(""), "satcomp": satcomp, "crisp": crisp, "mon": mon, "model": out, "failed": out}
					pass()
				}
			}
		}
	}
	w.fix, w.one = nil, false
	for _, rule := range []string{"ends", "files", "assumptions", "answers", "models", "reasons", "status", "time"} {
		why := sortedKeys(bads[rule])
		if len(why) > 3 {
			why = why[:3]
		}
		w.Ob(rule, "main", len(why) == 0, main.Pos(), "%s", strings.Join(why, "; "))
	}
	for _, k := range []string{"SATISFIABLE xo", "UNKNOWN xo", "UNSATISFIABLE xo", "SATISFIABLE crisp", "UNKNOWN crisp", "UNSATISFIABLE crisp", "models xo", "models crisp", "reasons xo", "reasons crisp",
		"exit 10", "exit 20", "exit 0", "icnf", "gzip", "bzip2", "file", "monitored"} {
		w.Ob("reached", k, seen[k] > 0, main.Pos(), "no path of the command for: %s", k)
	}
	w.Count("paths of the command", paths)
}

func (w *cmdWorld) judge(st *State, evs []Event, seen map[string]int, note func(rule, f string, a ...interface{})) {
	e := w.e
	isOpt := func(n string) (v, known bool) {
		b, ok := st.kept("option " + n).(Boolv)
		return bool(b), ok
	}
	at := func(kind string) int {
		for i, ev := range evs {
			if ev.Kind == kind {
				return i
			}
		}
		return -1
	}
	exit := evsOf(evs, "exit")
	code := func() string {
		if len(exit) == 0 {
			return "none"
		}
		return exit[0].Args[0].String()
	}
	satcomp, _ := isOpt("satcomp")
	src, isrc := at("source"), at("isource")
	// what is read, and as what
	for _, k := range []int{src, isrc} {
		if k < 0 {
			continue
		}
		got := inner(evs[k].Args[0])
		want, ext := "file", ""
		opened := func(v V) bool {
			for _, o := range evsOf(evs[:k], "opened") {
				if sameV(o.Args[0], v) {
					return true
				}
			}
			return false
		}
		for _, s := range evsOf(evs[:k], "suffix") {
			if !bool(s.Args[1].(Boolv)) {
				continue
			}
			switch string(s.Args[0].(Strv)) {
			case ".gz":
				if !opened(s.Args[2]) {
					continue
				}
				want = "gzip of file"
			case ".bz2":
				if !opened(s.Args[2]) {
					continue
				}
				want = "bzip2 of file"
			case ".cnf", ".icnf":
				// the name given, not what it links to
				if ext == "" && !strings.Contains(s.Args[2].String(), "Readlink") {
					ext = string(s.Args[0].(Strv))
				}
			}
		}
		switch got {
		case "file", "gzip of file", "bzip2 of file":
			seen[strings.TrimSuffix(got, " of file")]++
			if got != want {
				note("files", "the %s is read where it is the %s", got, want)
			}
		default:
			if !strings.Contains(got, "Stdin") {
				note("files", "%s is read", got)
			}
		}
		if k == src && ext == ".icnf" || k == isrc && ext != ".icnf" {
			note("files", "an input with extension %q is read as another format", ext)
		}
	}
	switch {
	case src < 0 && isrc < 0:
		if t := text(evs); strings.Contains(t, "SATISFIABLE") {
			note("answers", "%q is printed without an input", t)
		}
		if c := code(); c == "10" || c == "20" {
			note("status", "status %s without an input", c)
		}
		return
	case src < 0:
		seen["icnf"]++
		if t := text(evs); t != "" {
			note("answers", "%q is printed for an icnf input besides what its visitor prints", t)
		}
		if c := code(); c == "10" || c == "20" {
			note("status", "status %s for an icnf input", c)
		}
		return
	}
	if isrc >= 0 || len(evsOf(evs, "source")) > 1 {
		note("files", "an input is read twice")
	}
	for _, o := range evsOf(evs, "other") {
		note("assumptions", "%v is called", o.Args[0])
	}
	if len(evsOf(evs, "gadd")) > 0 {
		note("assumptions", "clauses are added")
	}
	start, ans := at("start"), at("answer")
	kind := "xo"
	if start >= 0 && evs[start].Args[0].String() == "&client" {
		kind = "crisp"
	}
	fail := at("failed")
	monitored := at("closed") >= 0
	if monitored {
		seen["monitored"]++
	}
	answered := start >= 0 && (ans >= 0 || monitored) && (fail < 0 || ans >= 0 && fail > ans)
	res := lin(0)
	if as := evsOf(evs, "answer"); len(as) > 0 {
		res = as[len(as)-1].Args[0].(Lin)
		if len(as) > 1 && !monitored {
			note("answers", "it solves more than once")
		}
	}
	if !answered {
		if t := text(evs); t != "" && t != sLine[0] {
			note("answers", "%q is printed without an answer", t)
		}
		if c := code(); c == "10" || c == "20" {
			note("status", "status %s without an answer", c)
		}
		if fail < 0 {
			note("answers", "no answer is sought")
		}
		return
	}
	// all assumptions before it starts
	assumed := false
	for i, ev := range evs {
		switch ev.Kind {
		case "assume*":
			s := ev.Args[0].(Slice)
			if s.o.id != "assumptions" || !sameV(s.off, lin(0)) || !e.E.eqLin(st, s.len, w.table("assumptions").len) || i > start {
				note("assumptions", "%v is assumed", s)
			}
			assumed = true
		case "assume":
			note("assumptions", "%v is assumed", ev.Args[0])
		case "loop":
			id := string(ev.Args[0].(Strv))
			n := 0
			for _, b := range e.recs[id] {
				n += len(evsOf(b.evs, "assume"))
			}
			if n == 0 {
				continue
			}
			if i > start {
				note("assumptions", "an assumption is made after the search has begun")
			}
			for _, b := range e.recs[id] {
				_, idx, m := over(b, "assumptions")
				as := evsOf(b.evs, "assume")
				if m == nil || len(as) != 1 || !sameV(as[0].Args[0], m) {
					note("assumptions", "an assumption is left out or another is made")
				} else if c := e.covers(st, b, idx, w.table("assumptions").len); c != "" {
					note("assumptions", "%s", c)
				}
			}
			assumed = true
		}
	}
	if !assumed {
		note("assumptions", "the assumptions are not made")
	}
	if l := evsOf(evs, "limit"); len(l) != 1 || l[0].Args[0].String() != "option timeout" {
		note("time", "the search is not limited by the timeout")
	}
	// what is printed
	last := ans
	if monitored {
		last = at("closed")
	}
	if t := text(evs[:last]); t != "" {
		note("answers", "%q is printed before the answer", t)
	}
	var ps []Event
	for _, p := range pieces(evs[last:]) {
		if p.Kind == "loop" && e.silent(string(p.Args[0].(Strv))) {
			continue
		}
		if n := len(ps); n > 0 && ps[n-1].Kind == "text" && p.Kind == "text" {
			ps[n-1] = Event{Kind: "text", Args: []V{ps[n-1].Args[0].(Strv) + p.Args[0].(Strv)}}
			continue
		}
		ps = append(ps, p)
	}
	name := strings.TrimSpace(sLine[res.c][2:])
	seen[name+" "+kind]++
	first := ""
	if len(ps) > 0 && ps[0].Kind == "text" {
		first = string(ps[0].Args[0].(Strv))
	}
	if !strings.HasPrefix(first, sLine[res.c]) {
		note("answers", "%q is printed for answer %d", first, res.c)
		return
	}
	rest := first[len(sLine[res.c]):]
	want := func(o, rule, letter, end string, model bool) {
		v, known := isOpt(o)
		switch {
		case !known:
			note(rule, "it does not depend on -%s", o)
		case !v || fail >= 0:
			if rest != "" || len(ps) > 1 {
				note(rule, "%q is printed without -%s", rest, o)
			}
		case len(ps) != 3 || ps[1].Kind != "loop" || ps[2].Kind != "text":
			note(rule, "%d pieces are printed", len(ps))
		case strings.TrimRight(rest, " ") != letter || string(ps[2].Args[0].(Strv)) != end:
			note(rule, "%q and %q are printed around it", rest, string(ps[2].Args[0].(Strv)))
		default:
			seen[rule+" "+kind]++
			max := V(w.max[map[string]string{"xo": "S", "crisp": "client"}[kind]])
			if !model {
				max = w.table("the reasons").len
			}
			if c := w.outLoop(st, string(ps[1].Args[0].(Strv)), max, model); c != "" {
				note(rule, "%s", c)
			}
		}
	}
	switch res.c {
	case 1:
		want("model", "models", "v", " 0\n", true)
	case -1:
		want("failed", "reasons", "f", "\n", false)
	default:
		if rest != "" || len(ps) > 1 {
			note("answers", "more than the answer is printed")
		}
	}
	// how it ends
	if _, known := isOpt("satcomp"); known {
		c := code()
		seen["exit "+c]++
		switch {
		case satcomp && fail < 0 && c != map[int64]string{1: "10", 0: "0", -1: "20"}[res.c]:
			note("status", "status %s for answer %d with -satcomp", c, res.c)
		case !satcomp && c != "none":
			note("status", "it ends with status %s", c)
		}
	}
}

// icnf judges what is done with the clauses and the assumptions of icnf files.
func (w *cmdWorld) icnf() {
	var names []string
	for t := range w.vis {
		names = append(names, t)
	}
	for _, t := range sortedKeys(w.vis) {
		v := w.vis[t].(Iface)
		short := t[strings.LastIndexByte(t, '.')+1:]
		m := map[string]*ssa.Function{}
		for _, n := range []string{"Add", "Assume", "Eof"} {
			sel := w.P.SSA.MethodSets.MethodSet(v.t).Lookup(nil, n)
			if sel == nil {
				w.Ob("visitor", short, false, 0, "it has no method %s", n)
				return
			}
			m[n] = w.P.SSA.MethodValue(sel)
			w.Fn(m[n])
		}
		self := Ptr{o: obj(tname(deref(v.t)))}
		exchange := false
		for _, s := range w.trace(m["Eof"], self) {
			exchange = exchange || len(evsOf(s.events, "exchange")) > 0
		}
		if exchange {
			w.exchanged(short, m, self)
		} else {
			w.direct(short, m, self)
		}
	}
	w.Ob("visitors", "icnf", len(names) == 2, 0, "%d visitors of icnf files: %v", len(names), names)
	w.Floor("direct", 4)
	w.Floor("exchange", 5)
}

// trace gives the states in which a function ends.
func (w *cmdWorld) trace(fn *ssa.Function, args ...V) []*State {
	w.e.recs, w.ends = map[string][]*bodyRec{}, nil
	var r []*State
	for _, o := range w.e.E.Run(newState(), fn, args, nil) {
		switch o.Kind {
		case "return":
			r = append(r, o.St)
		case "panic":
			w.e.log(o.St, "panics")
			r = append(r, o.St)
		case "limit":
			panic(undecided(fn.String()))
		}
	}
	for _, s := range w.ends {
		r = append(r, s)
	}
	return r
}

func (w *cmdWorld) direct(name string, m map[string]*ssa.Function, self V) {
	lit := linSym(&Sym{id: "m", lo: i64(2), hi: i64(1<<31 - 1)})
	only := func(s *State, kind string, v V) string {
		if t := text(s.events); t != "" {
			return fmt.Sprintf("%q is printed", t)
		}
		n := 0
		for _, ev := range s.events {
			switch ev.Kind {
			case "gadd", "assume":
				n++
				if ev.Kind != kind || !sameV(ev.Args[0], v) {
					return fmt.Sprintf("%s %v", ev.Kind, ev.Args[0])
				}
			case "assume*", "start", "answer", "loop", "exit", "panics", "other":
				return ev.Kind + " happens"
			}
		}
		if kind != "" && n != 1 {
			return fmt.Sprintf("it is passed on %d times", n)
		}
		return ""
	}
	for _, c := range []struct {
		rule, fn, kind string
		v              V
	}{{"clause", "Add", "gadd", lit}, {"end of clause", "Add", "gadd", lin(0)}, {"assumption", "Assume", "assume", lit}, {"end", "Eof", "", nil}} {
		args := []V{self}
		if c.v != nil {
			args = append(args, c.v)
		}
		bad := ""
		for _, s := range w.trace(m[c.fn], args...) {
			if x := only(s, c.kind, c.v); x != "" {
				bad = x
			}
		}
		w.Ob("direct", name+": "+c.rule, bad == "", m[c.fn].Pos(), "%s", bad)
	}
	bad := ""
	seen := map[int64]bool{}
	late := false
	for _, s := range w.trace(m["Assume"], self, lin(0)) {
		as, starts := evsOf(s.events, "answer"), evsOf(s.events, "start")
		switch {
		case len(evsOf(s.events, "panics"))+len(evsOf(s.events, "loop"))+len(evsOf(s.events, "exit"))+len(evsOf(s.events, "other")) > 0:
			bad = "it does not end"
		case len(evsOf(s.events, "gadd"))+len(evsOf(s.events, "assume"))+len(evsOf(s.events, "assume*")) > 0:
			bad = "something is added or assumed"
		case len(as) == 0 && len(starts) == 0:
			late = true
			if text(s.events) != sLine[0] {
				bad = fmt.Sprintf("%q is printed when it is not solved", text(s.events))
			}
			if len(evsOf(s.events, "compared")) == 0 {
				bad = "it is not solved though there is time"
			}
		case len(as) != 1:
			bad = fmt.Sprintf("it is solved %d times", len(as))
		default:
			a := as[0].Args[0].(Lin).c
			seen[a] = true
			if text(s.events) != sLine[a] {
				bad = fmt.Sprintf("%q is printed for answer %d", text(s.events), a)
			}
		}
	}
	if bad == "" && len(seen) != 3 {
		bad = "not every answer is printed"
	}
	_ = late
	w.Ob("direct", name+": solve", bad == "", m["Assume"].Pos(), "%s", bad)
}

func (w *cmdWorld) exchanged(name string, m map[string]*ssa.Function, self Ptr) {
	e, E := w.e, w.e.E
	lit := linSym(&Sym{id: "m", lo: i64(2), hi: i64(1<<31 - 1)})
	cubes := "" // the table of cubes
	report := func(rule, fn, bad string) { w.Ob("exchange", name+": "+rule, bad == "", m[fn].Pos(), "%s", bad) }
	cell := func(evs []Event, f string) V {
		var v V
		for _, ev := range evsOf(evs, "fset") {
			if string(ev.Args[0].(Strv)) == "Request."+f {
				v = ev.Args[1]
			}
		}
		return v
	}
	// request judges the requests of a piece of a path, and gives the
	// position of the last one and the request.
	request := func(st *State, evs []Event) (bad string, at Lin, req V) {
		for i, ev := range evs {
			if ev.Kind != "request" {
				continue
			}
			if req != nil {
				return "two requests are made at once", at, req
			}
			s, ok := ev.Args[1].(Slice)
			req = ev.Args[0]
			var k V
			for _, rd := range evs[:i] {
				if rd.Kind != "read" {
					continue
				}
				if c, ok2 := rd.Args[2].(Slice); ok && ok2 && c.o.id == s.o.id && sameV(s.off, lin(0)) && E.eqLin(st, s.len, c.len) {
					if cubes == "" {
						cubes = rd.Args[0].(Ptr).o.id
					}
					if rd.Args[0].(Ptr).o.id == cubes {
						k = rd.Args[1]
					}
				}
			}
			if k == nil {
				return fmt.Sprintf("a request is made of %v", ev.Args[1]), at, req
			}
			at = k.(Lin)
			if id := cell(evs[i:], "Id"); id == nil && !sameV(at, lin(0)) || id != nil && !E.eqLin(st, id, at) {
				return fmt.Sprintf("the request for number %v has identifier %v", at, id), at, req
			}
			if l := cell(evs[i:], "Limit"); l == nil || sameV(l, lin(0)) {
				return "a request without a limit", at, req
			}
			if !E.geq0(st, w.table(cubes).len.(Lin).add(at, -1).add(lin(1), -1)) {
				return "a request beyond the last", at, req
			}
		}
		return "", at, req
	}
	round := func(st *State, evs []Event) string {
		if t := text(evs); !regexp.MustCompile(`^(c [^\n]*\n)*$`).MatchString(t) {
			return fmt.Sprintf("%q is printed", t)
		}
		x := -1
		for i, ev := range evs {
			switch ev.Kind {
			case "exchange":
				if x >= 0 {
					return "more than one exchange"
				}
				x = i
			case "start", "assume", "assume*", "exit", "panics", "other", "answer":
				return ev.Kind + " happens"
			}
		}
		if x < 0 {
			return ""
		}
		bad, k, req := request(st, evs)
		if bad != "" {
			return bad
		}
		if req == nil || !sameV(k, lin(0)) {
			return "the first request is not the first one"
		}
		n := w.table(cubes).len.(Lin)
		solved, shown := "", ""
		for _, ev := range evs[x:] {
			if ev.Kind != "loop" {
				continue
			}
			id := string(ev.Args[0].(Strv))
			kinds := map[string]bool{}
			for _, b := range e.recs[id] {
				for _, v := range b.evs {
					kinds[v.Kind] = true
				}
			}
			switch {
			case kinds["taken"] || kinds["response"]:
				if solved != "" {
					return "two loops solve"
				}
				solved = id
				counted := map[*ssa.Phi]int{}
				for _, b := range e.recs[id] {
					tk, rs := evsOf(b.evs, "taken"), evsOf(b.evs, "response")
					if len(tk)+len(rs) != 1 {
						return "one exchange in every step"
					}
					x := append(tk, rs...)[0].Args[0]
					var next V
					for p := range b.phis {
						if sameV(b.st.top().env[p], x) {
							next = b.phis[p]
						}
						d, ok := b.phis[p].(Lin)
						h, ok2 := b.st.top().env[p].(Lin)
						if !ok || !ok2 {
							continue
						}
						f, ok3 := firstOf(b.st, h)
						step := int64(len(rs))
						down := ok3 && E.eqLin(b.st, f, n) && sameV(d, h.add(lin(step), -1)) && E.geq0(st, h.scale(-1))
						up := ok3 && E.eqLin(b.st, f, lin(0)) && sameV(d, h.add(lin(step), 1)) && E.geq0(st, h.add(n, -1))
						if down || up {
							counted[p]++
						}
					}
					bad, k, req := request(b.st, b.evs)
					if bad != "" {
						return bad
					}
					sets := evsOf(b.evs, "set")
					if len(rs) > 0 {
						if req != nil || next == nil || !sameV(next, x) {
							return "after a response the request which was not taken is not made again"
						}
						ok := len(sets) == 1 && strings.Contains(sets[0].Args[1].String(), "Request.Id") && len(evsOf(b.evs, "res")) == 1 && sameV(sets[0].Args[2], evsOf(b.evs, "res")[0].Args[0])
						if !ok {
							return "the response is not noted for the request it answers"
						}
						continue
					}
					if len(sets) > 0 {
						return "an answer is noted without a response"
					}
					if req == nil {
						if _, isNil := next.(Nilv); !isNil {
							return fmt.Sprintf("after a request was taken comes %v", next)
						}
						continue
					}
					if next == nil || !sameV(next, req) {
						return "a request is made and forgotten"
					}
					moved := false
					for _, f := range evsOf(b.evs, "fset") {
						moved = moved || sameV(f.Args[1], k.add(lin(1), 1))
					}
					if nx, ok := E.nextLin(b.st, b.phis, k); ok && sameV(nx, k.add(lin(1), 1)) && len(k.t) > 0 {
						moved = true
					}
					if !moved {
						return "the same request is made again"
					}
				}
				full := false
				for _, c := range counted {
					full = full || c == len(e.recs[id])
				}
				if !full {
					return "it does not wait for exactly all responses"
				}
			case !e.silent(id):
				if solved == "" || shown != "" {
					return "something else is printed"
				}
				shown = id
				seen := map[int64]bool{}
				for _, b := range e.recs[id] {
					var idx Lin
					var v V
					for _, rd := range evsOf(b.evs, "read") {
						if strings.Contains(rd.Args[0].(Ptr).o.id, "#") {
							idx, v = rd.Args[1].(Lin), rd.Args[2]
						}
					}
					l, ok := v.(Lin)
					if !ok || !l.isConst() {
						return "something is printed which is no result"
					}
					if c := e.covers(st, b, idx, n); c != "" {
						return "results: " + c
					}
					seen[l.c] = true
					if t := text(b.evs); t != sLine[l.c] {
						return fmt.Sprintf("%q is printed for answer %d", t, l.c)
					}
				}
				if len(seen) != 3 {
					return "not all results are printed"
				}
			}
		}
		if solved == "" || shown == "" {
			return "the cubes are not solved and printed"
		}
		// ready for the next round
		empty, zero := false, true
		for _, f := range evsOf(evs, "fset") {
			if string(f.Args[0].(Strv)) == cubes {
				s, ok := f.Args[1].(Slice)
				empty = ok && sameV(s.len, lin(0)) || sameV(f.Args[1], Nilv{})
			}
			if strings.HasPrefix(string(f.Args[0].(Strv)), self.o.id+".") && sameV(f.Args[1], lin(1)) {
				zero = false
			} else if sameV(f.Args[1], lin(0)) {
				zero = true
			}
		}
		if !empty {
			return "the cubes are not forgotten"
		}
		if !zero {
			return "the next round does not begin with the first cube"
		}
		return ""
	}
	old := e.h.Extra
	e.h.Extra = func(st *State, p Ptr, name string, t types.Type) (bool, []Opt) {
		if p.o.id == self.o.id && types.Identical(t, types.Typ[types.Int]) && !st.dirty["field:"+deref(w.vis["*"+modPath+"/"+cmdPkg+"."+self.o.id].(Iface).t).String()+"."+name[strings.LastIndexByte(name, '.')+1:]] {
			return one1(st, lin(0))
		}
		if types.Identical(t, types.Typ[types.Int]) && strings.HasSuffix(name, "Response.Res") {
			_, os := opts(st, lin(1), lin(0), lin(-1))
			for _, o := range os {
				e.log(o.st, "res", o.v)
			}
			return true, os
		}
		return old(st, p, name, t)
	}
	defer func() { e.h.Extra = old }()
	none := func(s *State) bool {
		for _, c := range s.mem {
			if c.o != nil && c.o.id == self.o.id {
				if sl, ok := c.v.(Slice); ok && sl.o.id == cubes {
					l, ok := sl.len.(Lin)
					return ok && E.geq0(s, l.scale(-1))
				}
			}
		}
		return false
	}
	bad := ""
	rounds := 0
	ends := w.trace(m["Eof"], self)
	for _, s := range ends {
		round(s, s.events) // finds the table of cubes
	}
	for _, s := range ends {
		if x := round(s, s.events); x != "" {
			bad = x
		}
		if len(evsOf(s.events, "exchange")) > 0 {
			rounds++
		} else if !none(s) {
			bad = "there may be cubes which are not solved"
		}
		if len(evsOf(s.events, "gadd")) > 0 {
			bad = "clauses are added"
		}
	}
	if bad == "" && rounds == 0 {
		bad = "no cubes are ever solved"
	}
	report("end", "Eof", bad)
	for _, v := range []V{lit, lin(0)} {
		bad = ""
		for _, s := range w.trace(m["Add"], self, v) {
			adds := 0
			for i, ev := range s.events {
				if ev.Kind != "gadd" {
					if adds > 0 && ev.Kind != "fset" {
						bad = "more happens after the clause is added to"
					}
					continue
				}
				adds++
				if !sameV(ev.Args[0], v) {
					bad = fmt.Sprintf("%v is added", ev.Args[0])
				}
				if x := round(s, s.events[:i]); x != "" {
					bad = x
				}
				if len(evsOf(s.events[:i], "exchange")) == 0 && !none(s) {
					bad = "a clause is added while there are cubes to solve"
				}
			}
			if adds != 1 {
				bad = fmt.Sprintf("it is passed on %d times", adds)
			}
		}
		report("add "+v.String(), "Add", bad)
	}
	quiet := func(s *State) string {
		for _, ev := range s.events {
			switch ev.Kind {
			case "tok", "gadd", "assume", "assume*", "exchange", "start", "panics", "loop", "exit", "other", "request":
				return ev.Kind + " happens"
			}
		}
		return ""
	}
	// grown gives the table which a field was and is made longer, and what is new.
	last := func(s *State, f string) V {
		var v V
		for _, ev := range evsOf(s.events, "fset") {
			if string(ev.Args[0].(Strv)) == f {
				v = ev.Args[1]
			}
		}
		return v
	}
	litT := types.Type(w.P.Type("z", "Lit"))
	cube := ""
	bad = ""
	for _, s := range w.trace(m["Assume"], self, lit) {
		if x := quiet(s); x != "" {
			bad = x
		}
		ok := false
		for _, ev := range evsOf(s.events, "fset") {
			f := string(ev.Args[0].(Strv))
			sl, isS := ev.Args[1].(Slice)
			if !isS || f == cubes || !E.eqLin(s, sl.len, w.table(f).len.(Lin).add(lin(1), 1)) {
				bad = fmt.Sprintf("%s becomes %v", f, ev.Args[1])
				continue
			}
			cube = f
			n := sl.len.(Lin)
			v := E.load(s, Ptr{sl.o, []pe{{f: -1, idx: sl.off.add(n, 1).add(lin(1), -1)}}}, "elem:"+litT.String(), litT)[0].v
			ok = sameV(v, lit)
		}
		if !ok && bad == "" {
			bad = "the literal is not the last of the cube"
		}
	}
	report("assumption", "Assume", bad)
	bad = ""
	for _, s := range w.trace(m["Assume"], self, lin(0)) {
		if x := quiet(s); x != "" {
			bad = x
		}
		sl, ok := last(s, cubes).(Slice)
		if !ok || !E.eqLin(s, sl.len, w.table(cubes).len.(Lin).add(lin(1), 1)) {
			bad = fmt.Sprintf("the cubes become %v", last(s, cubes))
			continue
		}
		n := sl.len.(Lin)
		t := types.NewSlice(litT)
		v := E.load(s, Ptr{sl.o, []pe{{f: -1, idx: sl.off.add(n, 1).add(lin(1), -1)}}}, "elem:"+t.String(), t)[0].v
		c, ok := v.(Slice)
		kept := ok && c.o.id == cube && E.eqLin(s, c.len, w.table(cube).len)
		copied := false
		if b, ok2 := s.mem[func() string {
			if c.o == nil {
				return ""
			}
			return c.o.id
		}()+"#base"]; ok && ok2 {
			t, _ := b.v.(Tuple)
			src, _ := t[0].(Slice)
			copied = src.o != nil && src.o.id == cube && E.eqLin(s, c.len, w.table(cube).len)
		}
		if !kept && !copied {
			bad = fmt.Sprintf("the last cube is %v", v)
		}
		switch x := last(s, cube).(type) {
		case Nilv:
		case Slice:
			if !sameV(x.len, lin(0)) || kept && x.o.id == c.o.id {
				bad = fmt.Sprintf("the next cube begins as %v", x)
			}
		default:
			bad = "the next cube begins with the last one"
		}
	}
	report("end of assumptions", "Assume", bad)
}
