package main

// Loading and type-checking the repository, and mapping Go types to sorts.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/levilutz/basiccoin"

type Pkg struct {
	Path  string // import path
	Rel   string // relative to the module ("pkg/core")
	Name  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type FuncInfo struct {
	Key  string // "pkg/core.Tx.VSize" / "pkg/core.NextTarget"
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg // by import path
	Funcs map[*types.Func]*FuncInfo
	ByKey map[string]*FuncInfo
	std   types.Importer
	repo  string
}

type chainImporter struct{ p *Program }

func (c chainImporter) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, modPath) {
		pk, err := c.p.load(path)
		if err != nil {
			return nil, err
		}
		return pk.Types, nil
	}
	return c.p.std.Import(path)
}

func loadProgram(repo string, roots []string) (*Program, error) {
	build.Default.CgoEnabled = false
	p := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncInfo{}, ByKey: map[string]*FuncInfo{}, repo: repo}
	p.std = importer.ForCompiler(p.Fset, "source", nil)
	for _, r := range roots {
		if _, err := p.load(modPath + "/" + r); err != nil {
			return nil, err
		}
	}
	return p, nil
}

func (p *Program) load(path string) (*Pkg, error) {
	if pk, ok := p.Pkgs[path]; ok {
		if pk == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return pk, nil
	}
	p.Pkgs[path] = nil
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	dir := filepath.Join(p.repo, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	pk := &Pkg{Path: path, Rel: rel}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		ok, err := build.Default.MatchFile(dir, n)
		if err != nil {
			return nil, err
		}
		if !ok {
			continue
		}
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		pk.Files = append(pk.Files, f)
		pk.Name = f.Name.Name
	}
	pk.Info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	var terr error
	conf := types.Config{Importer: chainImporter{p}, GoVersion: "go1.20", Error: func(err error) {
		if terr == nil {
			terr = err
		}
	}}
	tp, _ := conf.Check(path, p.Fset, pk.Files, pk.Info)
	if terr != nil {
		return nil, terr
	}
	pk.Types = tp
	p.Pkgs[path] = pk
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj, _ := pk.Info.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			fi := &FuncInfo{Key: funcKey(obj), Pkg: pk, Decl: fd, Obj: obj}
			p.Funcs[obj] = fi
			p.ByKey[fi.Key] = fi
		}
	}
	return pk, nil
}

// funcKey names a function or method: "pkg/core.NextTarget", "pkg/core.Tx.Hash",
// "time.Time.Unix". Pointer and value receivers are not distinguished.
func funcKey(f *types.Func) string {
	f = f.Origin()
	path := ""
	if f.Pkg() != nil {
		path = strings.TrimPrefix(f.Pkg().Path(), modPath+"/")
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch n := t.(type) {
		case *types.Named:
			if n.Obj().Pkg() != nil {
				path = strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")
			}
			return path + "." + n.Obj().Name() + "." + f.Name()
		default:
			return path + ".?." + f.Name()
		}
	}
	return path + "." + f.Name()
}

func typeKey(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name()
}

// ---- type substitution ----

type tenv map[*types.TypeParam]types.Type

func substType(t types.Type, env tenv) types.Type {
	if len(env) == 0 || t == nil {
		return t
	}
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := env[x]; ok {
			return r
		}
		return x
	case *types.Named:
		if x.TypeArgs() == nil || x.TypeArgs().Len() == 0 {
			return x
		}
		args := make([]types.Type, x.TypeArgs().Len())
		ch := false
		for i := range args {
			args[i] = substType(x.TypeArgs().At(i), env)
			if args[i] != x.TypeArgs().At(i) {
				ch = true
			}
		}
		if !ch {
			return x
		}
		r, err := types.Instantiate(nil, x.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Alias:
		return substType(types.Unalias(x), env)
	case *types.Pointer:
		return types.NewPointer(substType(x.Elem(), env))
	case *types.Slice:
		return types.NewSlice(substType(x.Elem(), env))
	case *types.Array:
		return types.NewArray(substType(x.Elem(), env), x.Len())
	case *types.Map:
		return types.NewMap(substType(x.Key(), env), substType(x.Elem(), env))
	case *types.Chan:
		return types.NewChan(x.Dir(), substType(x.Elem(), env))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			v := x.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), env)))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, substType(x.Params(), env).(*types.Tuple), substType(x.Results(), env).(*types.Tuple), x.Variadic())
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), substType(f.Type(), env), f.Embedded()))
		}
		return types.NewStruct(fs, nil)
	}
	return t
}

// ---- sorts ----

// TypeCfg: classification of types by the contract files.
type TypeCfg struct {
	Ref       map[string]bool  // struct types reached by pointer as references (Burstall heap)
	Singleton map[string]bool  // reference types of which the process has one instance
	Opaque    map[string]*Sort // types given a sort directly
	Range     map[string]*Sort
	Dispatch  map[string]string
	Model     map[string]string // interface type -> "map"
}

var tcfg = TypeCfg{Ref: map[string]bool{}, Singleton: map[string]bool{}, Opaque: map[string]*Sort{}, Dispatch: map[string]string{}, Range: map[string]*Sort{}, Model: map[string]string{}}

var sortCache = map[types.Type]*Sort{}
var structSorts = map[string]*Sort{}
var inProgress = map[string]bool{}

func sortOf(t types.Type) *Sort {
	if s, ok := sortCache[t]; ok {
		return s
	}
	s := sortOf0(t)
	sortCache[t] = s
	return s
}

func isRepo(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func namedName(n *types.Named) string {
	s := typeKey(n)
	if n.TypeArgs() != nil {
		for i := 0; i < n.TypeArgs().Len(); i++ {
			s += "_" + sortOf(n.TypeArgs().At(i)).Name
		}
	}
	return s
}

func sortOf0(t types.Type) *Sort {
	switch x := t.(type) {
	case *types.Alias:
		return sortOf(types.Unalias(x))
	case *types.Basic:
		switch x.Kind() {
		case types.Bool, types.UntypedBool:
			return Bool
		case types.Int, types.Int64:
			return I64
		case types.Int8:
			return I8
		case types.Int16:
			return I16
		case types.Int32, types.UntypedRune:
			return I32
		case types.Uint, types.Uint64, types.Uintptr:
			return U64
		case types.Uint8:
			return U8
		case types.Uint16:
			return U16
		case types.Uint32:
			return U32
		case types.UntypedInt:
			return MInt
		case types.Float64, types.Float32, types.UntypedFloat:
			return F64
		case types.String, types.UntypedString:
			return Str
		case types.UntypedNil:
			return unint("NilT")
		}
		return unint("basic_" + x.Name())
	case *types.Named:
		key := typeKey(x)
		if s, ok := tcfg.Opaque[key]; ok {
			return s
		}
		if key == "error" {
			return ErrS
		}
		if m, ok := tcfg.Model[key]; ok && m == "map" {
			return arraySort(sortOf(x.TypeArgs().At(0)), Bool)
		}
		if st, ok := x.Underlying().(*types.Struct); ok {
			if !isRepo(x) {
				return unint("ext_" + namedName(x))
			}
			return structSort(namedName(x), st)
		}
		if _, ok := x.Underlying().(*types.Interface); ok {
			if _, ok := tcfg.Dispatch[key]; ok {
				return RefS
			}
			if x.Underlying().(*types.Interface).NumMethods() == 0 {
				return AnyS
			}
			if isRepo(x) {
				return AnyS
			}
			return unint("iface_" + namedName(x))
		}
		return sortOf(x.Underlying())
	case *types.Struct:
		if x.NumFields() == 0 {
			return UnitS
		}
		name := "anon"
		for i := 0; i < x.NumFields(); i++ {
			name += "_" + x.Field(i).Name() + "_" + sortOf(x.Field(i).Type()).Name
		}
		return structSort(name, x)
	case *types.Slice:
		return sliceSort(sortOf(x.Elem()))
	case *types.Array:
		if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && x.Len() == 32 {
			return B32
		}
		return sliceSort(sortOf(x.Elem())) // length fixed by type facts
	case *types.Map:
		return mapSort(sortOf(x.Key()), sortOf(x.Elem()))
	case *types.Pointer:
		el := types.Unalias(x.Elem())
		if n, ok := el.(*types.Named); ok {
			if tcfg.Ref[typeKey(n)] {
				return RefS
			}
			if _, isStruct := n.Underlying().(*types.Struct); isStruct && !isRepo(n) {
				if s, ok := tcfg.Opaque[typeKey(n)]; ok {
					return ptrSort(s)
				}
				return unint("extp_" + namedName(n))
			}
			k := typeKey(n)
			if inProgress[k] {
				panic("recursive owned type " + k)
			}
		}
		return ptrSort(sortOf(x.Elem()))
	case *types.Interface:
		if x.NumMethods() == 0 {
			return AnyS
		}
		return unint("iface_" + x.String())
	case *types.Signature:
		return unint("func")
	case *types.Chan:
		return unint("chan")
	case *types.TypeParam:
		return unint("T_" + x.Obj().Name())
	case *types.Tuple:
		return unint("tuple")
	}
	panic(fmt.Sprintf("no sort for %T %s", t, t))
}

func structSort(name string, st *types.Struct) *Sort {
	n := "S_" + mangle(name)
	if s, ok := structSorts[n]; ok {
		return s
	}
	if st.NumFields() == 0 {
		return UnitS
	}
	s := &Sort{Kind: SData, Name: n, Class: "struct"}
	inProgress[name] = true
	structSorts[n] = s
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs := sortOf(f.Type())
		if r := tcfg.Range[name+"."+f.Name()]; r != nil {
			fs = r
		}
		s.Fields = append(s.Fields, Field{f.Name(), fs})
	}
	delete(inProgress, name)
	sortTab[n] = s
	return s
}

// zero value of a sort
func zero(s *Sort) *Term {
	switch s.Kind {
	case SBool:
		return False
	case SInt:
		return intern(&Term{Op: "num", Num: bigZero, Sort: MInt})
	case SArray:
		return ConstArr(s, zero(s.Elem))
	case SUnint:
		switch s {
		case ErrS:
			return ErrNil
		case Str:
			return strLit("")
		}
		return intern(&Term{Op: "lit", Name: "zero_" + s.Name, Sort: s})
	case SData:
		switch s.Class {
		case "slice":
			return Mk(s, NumI(0), ConstArr(s.Fields[1].Sort, zero(s.El)))
		case "map":
			return Mk(s, ConstArr(s.Fields[0].Sort, False), ConstArr(s.Fields[1].Sort, zero(s.El)))
		case "ptr":
			return Mk(s, True, zero(s.El))
		}
		args := make([]*Term, len(s.Fields))
		for i, f := range s.Fields {
			args[i] = zero(f.Sort)
		}
		return Mk(s, args...)
	}
	panic("zero")
}

var strLits = map[string]*Term{}
var strVals = map[*Term]string{}

func strLit(v string) *Term {
	if t, ok := strLits[v]; ok {
		return t
	}
	t := intern(&Term{Op: "lit", Name: fmt.Sprintf("str_%d", len(strLits)), Sort: Str})
	strLits[v] = t
	strVals[t] = v
	return t
}
