// Command sa decides semantic properties of go-air/gini from its source.
//
// Every check loads and type checks the current tree of the repository,
// builds its SSA form and decides obligations about it.  No code of the
// repository is ever run.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-air/gini"

// Prog is the resolved program under analysis.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path relative to the module ("" is the root)
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	Funcs []*ssa.Function // every function of the repository with a body, sorted by position
	files int
}

func relPath(p string) string {
	if p == modPath {
		return ""
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func load(dir string) (*Prog, error) {
	fset := token.NewFileSet()
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Fset: fset,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not load: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) < 10 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P := &Prog{Dir: dir, Fset: fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, SSA: prog}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		P.Pkgs[relPath(pkgs[i].PkgPath)] = pkgs[i]
		P.SPkgs[relPath(pkgs[i].PkgPath)] = sp
		P.files += len(pkgs[i].Syntax)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || f.Pkg == nil && f.Parent() == nil {
			continue
		}
		if P.inRepo(f) && f.Synthetic == "" {
			P.Funcs = append(P.Funcs, f)
		}
	}
	// AllFunctions starts from reachable methods; add every declared one.
	seen := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Synthetic != "" {
			return
		}
		seen[f] = true
		P.Funcs = append(P.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range P.Pkgs {
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(o))
					}
				}
			}
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := fset.Position(P.Funcs[i].Pos()), fset.Position(P.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return P.Funcs[i].String() < P.Funcs[j].String()
	})
	return P, nil
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Parent() == nil {
			if o := f.Origin(); o != nil && o != f {
				f = o
				continue
			}
			return nil
		}
		f = f.Parent()
	}
	return nil
}

func (P *Prog) inRepo(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && (p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/"))
}

// rel gives the package path of f relative to the module.
func (P *Prog) pkgOf(f *ssa.Function) string {
	p := fnPkg(f)
	if p == nil {
		return "?"
	}
	return relPath(p.Pkg.Path())
}

// Pos formats a position relative to the repository.
func (P *Prog) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.Fset.Position(p)
	r, e := filepath.Rel(P.Dir, q.Filename)
	if e != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// unresolved is raised when an anchor of a rule does not exist.
type unresolved string

// Type resolves a named type.
func (P *Prog) Type(pkg, name string) *types.Named {
	p := P.Pkgs[pkg]
	if p == nil {
		panic(unresolved("package " + pkg))
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		panic(unresolved("type " + pkg + "." + name))
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		panic(unresolved("named type " + pkg + "." + name))
	}
	return n
}

// TryFunc resolves "Func" or "Type.Method" in package pkg, or returns nil.
func (P *Prog) TryFunc(pkg, name string) *ssa.Function {
	sp := P.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		o := sp.Pkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, sp.Pkg, name[i+1:])
		fo, ok := obj.(*types.Func)
		if !ok {
			return nil
		}
		f := P.SSA.FuncValue(fo)
		if f == nil || f.Blocks == nil {
			return nil
		}
		return f
	}
	return sp.Func(name)
}

// Func resolves "Func" or "Type.Method" in package pkg.
func (P *Prog) Func(pkg, name string) *ssa.Function {
	f := P.TryFunc(pkg, name)
	if f == nil || f.Blocks == nil {
		panic(unresolved("function " + pkg + "." + name))
	}
	return f
}

// Field resolves a struct field.
func (P *Prog) Field(pkg, typ, field string) *types.Var {
	n := P.Type(pkg, typ)
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		panic(unresolved("struct " + pkg + "." + typ))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	panic(unresolved("field " + pkg + "." + typ + "." + field))
}

// Const resolves an integer constant.
func (P *Prog) ConstVal(pkg, name string) int64 {
	p := P.Pkgs[pkg]
	if p == nil {
		panic(unresolved("package " + pkg))
	}
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(unresolved("constant " + pkg + "." + name))
	}
	v, ok := constInt(c.Val())
	if !ok {
		panic(unresolved("integer constant " + pkg + "." + name))
	}
	return v
}

// Obl is one decided obligation.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Where     string `json:"where,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

// Report collects what a check decided.
type Report struct {
	Prop  string
	P     *Prog
	Obls  []Obl
	funcs map[string]bool
	notes []string
	assum []string
	floor map[string]int
	stats map[string]int
}

// Ob records an obligation.
func (r *Report) Ob(rule, construct string, ok bool, pos token.Pos, format string, args ...interface{}) {
	o := Obl{Rule: rule, Construct: construct, OK: ok, Where: r.P.Pos(pos)}
	if format != "" {
		o.Detail = fmt.Sprintf(format, args...)
	}
	r.Obls = append(r.Obls, o)
}

// Fn notes that function f was analysed.
func (r *Report) Fn(fs ...*ssa.Function) {
	for _, f := range fs {
		if f != nil {
			r.funcs[r.P.fname(f)] = true
		}
	}
}

// Floor demands at least n obligations of rule.
func (r *Report) Floor(rule string, n int) { r.floor[rule] = n }

// Count adds to a measured count of the evidence.
func (r *Report) Count(k string, n int) { r.stats[k] += n }

func (r *Report) Assume(s string) { r.assum = append(r.assum, s) }

func (P *Prog) fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "gini")
	return s
}

type known struct{ prop, rule, construct, text string }

func readKnown(file string) []known {
	var res []known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C07 | rule | construct | text
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), "|", 4)
		if len(parts) != 4 {
			continue
		}
		for i := range parts {
			parts[i] = strings.TrimSpace(parts[i])
		}
		res = append(res, known{strings.TrimPrefix(parts[0], "property="), parts[1], parts[2], parts[3]})
	}
	return res
}

// Check is one registered property check.
type Check struct {
	ID    string
	Level string
	Rule  string // one sentence: what the check decides
	Run   func(r *Report)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// cached loads the program once, for a run of several checks.
func cached(dir string) (*Prog, error) {
	if loaded == nil {
		P, err := load(dir)
		if err != nil {
			return nil, err
		}
		loaded = P
	}
	return loaded, nil
}

var loaded *Prog

func run(c *Check, verif, repo, tier string, seed int) int {
	start := time.Now()
	r := &Report{Prop: c.ID, funcs: map[string]bool{}, floor: map[string]int{}, stats: map[string]int{}}
	var fatal string
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unresolved); ok {
					fatal = "unresolved anchor: " + string(u)
					return
				}
				fatal = fmt.Sprintf("the analysis did not finish: %v", x)
				if os.Getenv("SA_DEBUG") != "" {
					panic(x)
				}
			}
		}()
		P, err := cached(repo)
		if err != nil {
			r.P = &Prog{Dir: repo, Fset: token.NewFileSet()}
			fatal = err.Error()
			return
		}
		r.P = P
		c.Run(r)
	}()
	select {
	case <-done:
	case <-time.After(780 * time.Second):
		fatal = "the analysis did not finish in time"
		r = &Report{Prop: c.ID, P: &Prog{Dir: repo, Fset: token.NewFileSet()}, floor: map[string]int{}}
	}
	if fatal != "" {
		r.Obls = append(r.Obls, Obl{Rule: "decided", Construct: "analysis", Detail: fatal})
	}
	perRule := map[string]int{}
	for _, o := range r.Obls {
		perRule[o.Rule]++
	}
	if fatal == "" {
		for rule, n := range r.floor {
			if perRule[rule] < n {
				r.Obls = append(r.Obls, Obl{Rule: rule, Construct: "instances",
					Detail: fmt.Sprintf("only %d instances of the rule were found, at least %d are expected", perRule[rule], n)})
			}
		}
	}
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	bad, discharged := 0, 0
	var viol, knowns []string
	sort.SliceStable(r.Obls, func(i, j int) bool { return r.Obls[i].Rule < r.Obls[j].Rule })
outer:
	for _, o := range r.Obls {
		if o.OK {
			discharged++
			continue
		}
		for _, k := range kn {
			if k.prop == c.ID && k.rule == o.Rule && k.construct == o.Construct {
				knowns = append(knowns, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.ID, k.text))
				continue outer
			}
		}
		bad++
		viol = append(viol, fmt.Sprintf("%s: rule %s: %s: %s", o.Where, o.Rule, o.Construct, o.Detail))
	}
	cov := map[string]interface{}{
		"explanation": c.Rule,
		"obligations": len(r.Obls),
		"discharged":  discharged,
		"per_rule":    perRule,
		"functions":   sortedKeys(r.funcs),
		"samples":     samples(r.Obls),
	}
	if r.P != nil {
		cov["packages_loaded"] = len(r.P.Pkgs)
		cov["files_loaded"] = r.P.files
		cov["functions_loaded"] = len(r.P.Funcs)
	}
	for k, v := range r.stats {
		cov[k] = v
	}
	if bad > 0 {
		cov["violation_list"] = viol
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": bad,
	}
	if len(r.assum) > 0 {
		ev["assumptions"] = r.assum
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	evf := filepath.Join("evidence", c.ID+".json")
	if e := os.WriteFile(filepath.Join(verif, evf), append(b, '\n'), 0644); e != nil {
		fmt.Printf("cannot write evidence: %s\n", e)
	}
	for _, k := range knowns {
		fmt.Println(k)
	}
	if os.Getenv("SA_VERBOSE") != "" {
		for _, o := range r.Obls {
			fmt.Printf("  %v %s %s %s %s\n", o.OK, o.Where, o.Rule, o.Construct, o.Detail)
		}
	}
	for _, v := range viol {
		fmt.Println(v)
	}
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, evf)
		return 1
	}
	fmt.Printf("%s: %d obligations hold (%.1fs)\n", c.ID, discharged, time.Since(start).Seconds())
	return 0
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func samples(os []Obl) []Obl {
	per := map[string]int{}
	var res []Obl
	for _, o := range os {
		if per[o.Rule] < 4 || !o.OK {
			per[o.Rule]++
			res = append(res, o)
		}
	}
	if len(res) > 80 {
		res = res[:80]
	}
	return res
}

// mark and reset undo obligations of an analysis which is repeated.
func (r *Report) mark() int   { return len(r.Obls) }
func (r *Report) reset(n int) { r.Obls = r.Obls[:n] }
