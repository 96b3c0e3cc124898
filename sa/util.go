package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func constInt(v constant.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return 0, false
	}
	if i, ok := constant.Int64Val(v); ok {
		return i, true
	}
	if u, ok := constant.Uint64Val(v); ok {
		return int64(u), true
	}
	return 0, false
}

// deref gives the element of a pointer type, or the type itself.
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(deref(t)).(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Name() == name && (n.Obj().Pkg().Path() == pkg || relPath(n.Obj().Pkg().Path()) == pkg)
}

// fieldOf gives the struct field which v (a FieldAddr or Field) selects.
func fieldOf(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return deref(v.X.Type()).Underlying().(*types.Struct).Field(v.Field)
	case *ssa.Field:
		return v.X.Type().Underlying().(*types.Struct).Field(v.Field)
	}
	return nil
}

func dump(repo string, names []string) {
	P, err := load(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, f := range P.Funcs {
		for _, n := range names {
			if P.fname(f) == n || f.Name() == n {
				f.WriteTo(os.Stdout)
			}
		}
	}
	if len(names) == 0 {
		for _, f := range P.Funcs {
			fmt.Println(P.Pos(f.Pos()), P.fname(f))
		}
	}
}
