package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type SType struct {
	S *Sort
	G types.Type // Go type when known (needed for reference types)
}

type SVal struct {
	t         *Term
	g         types.Type
	singleton string   // set for the name of a singleton type
	fn        *FuncVal // function-valued parameter
	isNil     bool
}

type LoopCtx struct {
	k       *Term
	xs      *Term // slice being ranged over / touched slice under test
	visited *Term // map ranges: keys already visited
	entry   *State
	mapv    *Term // map ranges: the map at entry
	xsG     types.Type
}

type Env struct {
	x     *Exec
	st    *State
	old   *Env
	vars  map[string]SVal
	pkg   string
	loops []*LoopCtx
	depth int
}

func (en *Env) sub() *Env {
	n := *en
	n.vars = map[string]SVal{}
	for k, v := range en.vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func sfail(e *SE, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: ", e.File, e.Line) + fmt.Sprintf(f, a...)})
}

// ---- types ----

type SpecDB struct {
	p        *Program
	sf       *SpecFile
	funcs    map[string]*SpecFunc
	con      map[string]*Contract
	ghosts   map[string]SType
	single   map[string]*types.Named // short name -> singleton type
	lemmas   []*LemmaDecl
	lemmaT   map[*LemmaDecl]*Term
	proph    map[string]string
	owns     map[string]bool
	guarded  map[string]string
	implied  map[string][]string
	tparams  map[string]SType
	ghostInv map[string]bool
}

var basicST = map[string]*Sort{"int": MInt, "bool": Bool, "u64": U64, "u32": U32, "u16": U16, "u8": U8, "i64": I64, "str": Str, "error": ErrS, "ref": RefS, "any": AnyS, "f64": F64, "nat": LenS, "unit": UnitS, "B32": B32}

func (db *SpecDB) resolveNamed(pkg, name string, args []*ST) (types.Type, bool) {
	path, tn := pkg, name
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		path, tn = name[:i], name[i+1:]
	}
	var obj types.Object
	for ip, pk := range db.p.Pkgs {
		if pk == nil {
			continue
		}
		if pk.Rel == path || (path != pkg && (pk.Name == path || ip == path)) {
			if o := pk.Types.Scope().Lookup(tn); o != nil {
				obj = o
				break
			}
		}
	}
	if obj == nil && path == pkg {
		// any loaded package: the domain types first, then by path
		best := ""
		for _, pk := range db.p.Pkgs {
			if pk == nil {
				continue
			}
			if o := pk.Types.Scope().Lookup(tn); o != nil {
				if _, ok := o.(*types.TypeName); ok {
					rank := "3" + pk.Rel
					switch pk.Rel {
					case "pkg/core":
						rank = "0"
					case "internal/inv":
						rank = "1"
					case "internal/bus":
						rank = "2"
					}
					if obj == nil || rank < best {
						obj, best = o, rank
					}
				}
			}
		}
	}
	if obj == nil && path != pkg {
		if tp, err := db.p.std.Import(path); err == nil {
			obj = tp.Scope().Lookup(tn)
		}
	}
	t, ok := obj.(*types.TypeName)
	if !ok {
		return nil, false
	}
	ty := t.Type()
	if len(args) > 0 {
		var as []types.Type
		for _, a := range args {
			at := db.stype(pkg, a)
			if at.G == nil {
				return nil, false
			}
			as = append(as, at.G)
		}
		r, err := types.Instantiate(nil, ty, as, false)
		if err != nil {
			panic(err)
		}
		ty = r
	}
	return ty, true
}

var basicG = map[string]types.Type{"bool": types.Typ[types.Bool], "u64": types.Typ[types.Uint64], "u8": types.Typ[types.Uint8], "str": types.Typ[types.String], "i64": types.Typ[types.Int]}

func (db *SpecDB) stype(pkg string, t *ST) SType {
	switch t.Op {
	case "name":
		if s, ok := db.tparams[t.S]; ok {
			return s
		}
		if s, ok := basicST[t.S]; ok {
			return SType{S: s, G: basicG[t.S]}
		}
		if t.S == "bytes" {
			return SType{sliceSort(U8), types.NewSlice(types.Typ[types.Uint8])}
		}
		if g, ok := db.resolveNamed(pkg, t.S, t.Args); ok {
			return SType{sortOf(g), g}
		}
		return SType{S: unint("U_" + t.S)}
	case "slice":
		e := db.stype(pkg, t.Args[0])
		var g types.Type
		if e.G != nil {
			g = types.NewSlice(e.G)
		}
		return SType{sliceSort(e.S), g}
	case "ptr":
		e := db.stype(pkg, t.Args[0])
		if e.G != nil {
			g := types.NewPointer(e.G)
			return SType{sortOf(g), g}
		}
		return SType{S: ptrSort(e.S)}
	case "map":
		k, v := db.stype(pkg, t.Args[0]), db.stype(pkg, t.Args[1])
		var g types.Type
		if k.G != nil && v.G != nil {
			g = types.NewMap(k.G, v.G)
		}
		return SType{mapSort(k.S, v.S), g}
	case "arr":
		k, v := db.stype(pkg, t.Args[0]), db.stype(pkg, t.Args[1])
		return SType{S: arraySort(normIdx(k.S), v.S)}
	case "pred":
		k := db.stype(pkg, t.Args[0])
		return SType{S: arraySort(normIdx(k.S), Bool)}
	}
	panic("stype")
}

func normIdx(s *Sort) *Sort { return s }

// ---- helpers on values ----

// unw removes pointers and single-field container structs.
func unw(t *Term) *Term {
	for t.Sort.Kind == SData {
		if t.Sort.Class == "ptr" {
			t = Sel(t, 1)
			continue
		}
		if t.Sort.Class == "struct" && len(t.Sort.Fields) == 1 {
			t = Sel(t, 0)
			continue
		}
		break
	}
	return t
}

func deref(t *Term) *Term {
	if t.Sort.Kind == SData && t.Sort.Class == "ptr" {
		return Sel(t, 1)
	}
	return t
}

func domOf(t *Term) *Term {
	t = unw(t)
	if t.Sort.Kind == SData && t.Sort.Class == "map" {
		return Sel(t, 0)
	}
	return t
}

func sliceElem(s, i *Term) *Term { return Select(Sel(s, 1), i) }

func coerceEq(a, b *Term) (*Term, *Term) {
	if sameSMT(a.Sort, b.Sort) {
		return a, b
	}
	if a.Sort.Kind == SData && a.Sort.Class == "ptr" && sameSMT(a.Sort.El, b.Sort) {
		return Sel(a, 1), b
	}
	if b.Sort.Kind == SData && b.Sort.Class == "ptr" && sameSMT(b.Sort.El, a.Sort) {
		return a, Sel(b, 1)
	}
	ua, ub := unw(a), unw(b)
	if sameSMT(ua.Sort, ub.Sort) {
		return ua, ub
	}
	return a, b
}

func isMap(t *Term) bool { return t.Sort.Kind == SData && t.Sort.Class == "map" }

// subslice returns s[lo:hi] as a canonical slice value.
func subSlice(s, lo, hi *Term) *Term {
	if lo.Op == "num" && lo.Num.Sign() == 0 && hi == Sel(s, 0) {
		return s
	}
	return App("sub_"+s.Sort.Name, s.Sort, s, lo, hi)
}

// ---- evaluation ----

func (en *Env) term(e *SE) *Term { return en.eval(e).t }

func (en *Env) boolT(e *SE) *Term {
	t := en.term(e)
	if t == nil || t.Sort != Bool {
		sfail(e, "boolean expected: %s", e)
	}
	return t
}

func (en *Env) intT(e *SE) *Term { return en.toInt(e, en.term(e)) }

func (en *Env) toInt(e *SE, t *Term) *Term {
	for t.Sort.Kind == SData && t.Sort.Class == "ptr" {
		t = Sel(t, 1)
	}
	if t.Sort.Kind != SInt {
		sfail(e, "integer expected: %s has sort %s", e, t.Sort.Name)
	}
	return t
}

func nilFor(e *SE, t *Term) *Term {
	switch {
	case t.Sort == ErrS:
		return ErrNil
	case t.Sort == RefS:
		return nilRef
	case t.Sort.Kind == SUnint:
		return zero(t.Sort)
	}
	sfail(e, "nil comparison with sort %s", t.Sort.Name)
	return nil
}

var nilRef = intern(&Term{Op: "lit", Name: "zero_" + RefS.Name, Sort: RefS})

func (en *Env) db() *SpecDB { return theDB }

var theDB *SpecDB

func (en *Env) eval(e *SE) SVal {
	en.depth++
	defer func() { en.depth-- }()
	if en.depth > 400 {
		sfail(e, "specification recursion too deep")
	}
	switch e.Op {
	case "num":
		return SVal{t: Num(e.N)}
	case "str":
		return SVal{t: strLit(e.S)}
	case "id":
		return en.ident(e)
	case "sel":
		return en.sel(e)
	case "index":
		b := en.eval(e.Args[0])
		t := unw(b.t)
		i := en.eval(e.Args[1]).t
		switch {
		case t.Sort.Kind == SArray:
			if sameIdx(t.Sort.Idx, i.Sort) {
				return SVal{t: Select(t, i)}
			}
		case isMap(t):
			var g types.Type
			if b.g != nil {
				if m, ok := underMap(b.g); ok {
					g = m.Elem()
				}
			}
			return SVal{t: Select(Sel(t, 1), i), g: g}
		case t.Sort.Kind == SData && t.Sort.Class == "slice":
			var g types.Type
			if b.g != nil {
				g = elemType(b.g)
			}
			return SVal{t: sliceElem(t, i), g: g}
		case t.Sort == Str:
			return SVal{t: App("str.at", U8, t, i)}
		}
		sfail(e, "cannot index %s of sort %s with %s", e.Args[0], t.Sort.Name, i.Sort.Name)
	case "list":
		var ts []*Term
		for _, a := range e.Args {
			ts = append(ts, en.term(a))
		}
		es := ts[0].Sort
		if es == MInt {
			es = U8 // a list of number literals is a byte string
		}
		ss := sliceSort(es)
		arr := Sel(zero(ss), 1)
		for i, t := range ts {
			arr = Store(arr, NumI(int64(i)), t)
		}
		return SVal{t: Mk(ss, NumI(int64(len(ts))), arr)}
	case "slice":
		b := en.eval(e.Args[0])
		t := unw(b.t)
		return SVal{t: subSlice(t, en.intT(e.Args[1]), en.intT(e.Args[2])), g: b.g}
	case "upd":
		b := en.eval(e.Args[0])
		k, v := en.term(e.Args[1]), en.term(e.Args[2])
		t := b.t
		switch {
		case t.Sort.Kind == SArray:
			return SVal{t: Store(t, k, v)}
		case isMap(t):
			return SVal{t: mapPut(t, k, v), g: b.g}
		case t.Sort.Kind == SData && t.Sort.Class == "slice":
			return SVal{t: WithField(t, 1, Store(Sel(t, 1), k, v)), g: b.g}
		}
		sfail(e, "cannot update sort %s", t.Sort.Name)
	case "un":
		if e.S == "!" {
			return SVal{t: Not(en.boolT(e.Args[0]))}
		}
		return SVal{t: Neg(en.intT(e.Args[0]))}
	case "bin":
		return SVal{t: en.bin(e)}
	case "quant":
		n := en.sub()
		var bv []*Term
		for _, v := range e.Vars {
			ty := en.db().stype(en.pkg, v.Type)
			b := BVar(v.Name, ty.S)
			bv = append(bv, b)
			n.vars[v.Name] = SVal{t: b, g: ty.G}
		}
		body := n.boolT(e.Args[0])
		var pats [][]*Term
		for _, tr := range e.Trig {
			var p []*Term
			for _, x := range tr {
				p = append(p, n.term(x))
			}
			pats = append(pats, p)
		}
		if e.S == "forall" {
			return SVal{t: Forall(bv, body, pats...)}
		}
		return SVal{t: Exists(bv, body, pats...)}
	case "call":
		return en.call(e)
	}
	sfail(e, "cannot evaluate %s", e.Op)
	return SVal{}
}

func sameIdx(a, b *Sort) bool { return a.SMT() == b.SMT() }

func underMap(g types.Type) (*types.Map, bool) {
	for {
		switch x := types.Unalias(g).(type) {
		case *types.Pointer:
			g = x.Elem()
			continue
		case *types.Named:
			if st, ok := x.Underlying().(*types.Struct); ok && st.NumFields() == 1 {
				g = st.Field(0).Type()
				continue
			}
			g = x.Underlying()
			continue
		case *types.Map:
			return x, true
		}
		return nil, false
	}
}

func elemType(g types.Type) types.Type {
	for {
		switch x := types.Unalias(g).(type) {
		case *types.Pointer:
			g = x.Elem()
		case *types.Named:
			if st, ok := x.Underlying().(*types.Struct); ok {
				if st.NumFields() == 1 {
					g = st.Field(0).Type()
					continue
				}
				return nil
			}
			g = x.Underlying()
		case *types.Slice:
			return x.Elem()
		case *types.Array:
			return x.Elem()
		default:
			return nil
		}
	}
}

func (en *Env) ident(e *SE) SVal {
	if v, ok := en.vars[e.S]; ok {
		return v
	}
	switch e.S {
	case "true":
		return SVal{t: True}
	case "false":
		return SVal{t: False}
	case "nil":
		return SVal{isNil: true}
	case "$k", "$xs", "$visited", "$map":
		if len(en.loops) == 0 {
			sfail(e, "%s outside a loop", e.S)
		}
		l := en.loops[len(en.loops)-1]
		return loopVar(e, l, e.S)
	case "$K", "$XS", "$VISITED":
		if len(en.loops) < 2 {
			sfail(e, "%s needs an enclosing loop", e.S)
		}
		l := en.loops[len(en.loops)-2]
		return loopVar(e, l, "$"+strings.ToLower(e.S[1:]))
	}
	if strings.HasPrefix(e.S, "$") {
		if ty, ok := en.db().ghosts[e.S]; ok {
			if en.st == nil {
				sfail(e, "no state for ghost %s", e.S)
			}
			return SVal{t: en.st.cell(e.S, ty.S), g: ty.G}
		}
		sfail(e, "unknown ghost %s", e.S)
	}
	if n, ok := en.db().single[e.S]; ok {
		return SVal{singleton: typeKey(n), g: n}
	}
	if f, ok := en.db().funcs[e.S]; ok && len(f.Params) == 0 {
		return en.call(&SE{Op: "call", S: e.S, Line: e.Line, File: e.File})
	}
	sfail(e, "unknown name %s", e.S)
	return SVal{}
}

func loopVar(e *SE, l *LoopCtx, n string) SVal {
	switch n {
	case "$k":
		if l.k != nil {
			return SVal{t: l.k}
		}
	case "$xs":
		if l.xs != nil {
			return SVal{t: l.xs, g: l.xsG}
		}
	case "$visited":
		if l.visited != nil {
			return SVal{t: l.visited}
		}
	case "$map":
		if l.mapv != nil {
			return SVal{t: l.mapv}
		}
	}
	sfail(e, "%s not available in this loop", n)
	return SVal{}
}

func fieldOf(g types.Type, name string) (int, types.Type, *types.Named, bool) {
	t := types.Unalias(g)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, nil, nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type(), n, true
		}
	}
	return 0, nil, nil, false
}

// concrete type behind a (possibly dispatching) type
func concreteNamed(g types.Type) *types.Named {
	t := types.Unalias(g)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	if d, ok := tcfg.Dispatch[typeKey(n)]; ok {
		return theDB.lookupType(d)
	}
	return n
}

func (db *SpecDB) lookupType(key string) *types.Named {
	i := strings.LastIndexByte(key, '.')
	for _, pk := range db.p.Pkgs {
		if pk != nil && pk.Rel == key[:i] {
			if o, ok := pk.Types.Scope().Lookup(key[i+1:]).(*types.TypeName); ok {
				n, _ := o.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

// heapCell names the cell holding a field of a reference type.
func heapCell(n *types.Named, field string) string { return typeKey(n) + "." + field }

func (en *Env) sel(e *SE) SVal {
	b := en.eval(e.Args[0])
	if b.singleton != "" || (b.t != nil && b.t.Sort == RefS) {
		if b.g == nil {
			sfail(e, "untyped reference in %s", e)
		}
		n := concreteNamed(b.g)
		if n == nil {
			sfail(e, "no concrete type for %s", e)
		}
		_, ft, _, ok := fieldOf(n, e.S)
		if !ok {
			sfail(e, "no field %s in %s", e.S, typeKey(n))
		}
		if en.st == nil {
			sfail(e, "heap read without a state: %s", e)
		}
		return SVal{t: en.st.readField(n, e.S, ft, b.t), g: ft}
	}
	if b.t == nil {
		sfail(e, "no value for %s", e)
	}
	t := deref(b.t)
	if t.Sort.Kind == SData && (t.Sort.Class == "struct") {
		if i := t.Sort.field(e.S); i >= 0 {
			var g types.Type
			if b.g != nil {
				if _, ft, _, ok := fieldOf(b.g, e.S); ok {
					g = ft
				}
			}
			return SVal{t: Sel(t, i), g: g}
		}
	}
	if t.Sort.Kind == SData {
		if i := t.Sort.field(e.S); i >= 0 {
			return SVal{t: Sel(t, i)}
		}
	}
	sfail(e, "no field %s in sort %s", e.S, t.Sort.Name)
	return SVal{}
}

func (en *Env) bin(e *SE) *Term {
	switch e.S {
	case "&&":
		return And(en.boolT(e.Args[0]), en.boolT(e.Args[1]))
	case "||":
		return Or(en.boolT(e.Args[0]), en.boolT(e.Args[1]))
	case "==>":
		return Implies(en.boolT(e.Args[0]), en.boolT(e.Args[1]))
	case "<==>":
		return Iff(en.boolT(e.Args[0]), en.boolT(e.Args[1]))
	case "==", "!=":
		a, b := en.eval(e.Args[0]), en.eval(e.Args[1])
		var r *Term
		switch {
		case a.isNil && b.isNil:
			r = True
		case a.isNil || b.isNil:
			t := a.t
			if a.isNil {
				t = b.t
			}
			if t.Sort.Kind == SData && t.Sort.Class == "ptr" {
				r = Sel(t, 0)
			} else if t.Sort.Kind == SData && t.Sort.Class == "slice" {
				r = Eq(Sel(t, 0), NumI(0))
			} else {
				r = Eq(t, nilFor(e, t))
			}
		default:
			x, y := coerceEq(a.t, b.t)
			if !sameSMT(x.Sort, y.Sort) {
				sfail(e, "comparing %s with %s: %s", x.Sort.Name, y.Sort.Name, e)
			}
			r = Eq(x, y)
		}
		if e.S == "!=" {
			return Not(r)
		}
		return r
	case "in":
		k := en.term(e.Args[0])
		c := unw(en.term(e.Args[1]))
		if isMap(c) {
			return Select(Sel(c, 0), k)
		}
		if c.Sort.Kind == SArray && c.Sort.Elem == Bool {
			return Select(c, k)
		}
		if c.Sort.Kind == SData && c.Sort.Class == "slice" {
			if n := Sel(c, 0); n.Op == "num" && n.Num.BitLen() <= 3 {
				r := False
				for i := int64(0); i < n.Num.Int64(); i++ {
					r = Or(r, Eq(sliceElem(c, NumI(i)), k))
				}
				return r
			}
			j := BVar("jin", MInt)
			return Exists([]*Term{j}, And(Le(NumI(0), j), Lt(j, Sel(c, 0)), Eq(sliceElem(c, j), k)))
		}
		sfail(e, "`in` over sort %s", c.Sort.Name)
	}
	a := en.term(e.Args[0])
	if e.S == "+" {
		if x := unw(a); x.Sort.Kind == SData && x.Sort.Class == "slice" {
			return catSlice(x, unw(en.term(e.Args[1])))
		} else if x.Sort == Str {
			return strCat(x, unw(en.term(e.Args[1])))
		}
	}
	a = en.toInt(e.Args[0], a)
	b := en.intT(e.Args[1])
	switch e.S {
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "*":
		return Mul(a, b)
	case "/":
		return Div(a, b)
	case "%":
		return Mod(a, b)
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Gt(a, b)
	case ">=":
		return Ge(a, b)
	}
	sfail(e, "operator %s", e.S)
	return nil
}

func (en *Env) call(e *SE) SVal {
	need := func(n int) {
		if len(e.Args) != n {
			sfail(e, "%s takes %d arguments", e.S, n)
		}
	}
	switch e.S {
	case "old":
		need(1)
		if en.old == nil {
			sfail(e, "old() not available")
		}
		o := en.old.sub()
		for k, v := range en.vars { // bound variables stay visible
			if _, ok := o.vars[k]; !ok {
				o.vars[k] = v
			}
		}
		for k, v := range en.vars {
			if v.t != nil && v.t.Op == "bvar" {
				o.vars[k] = v
			}
		}
		o.loops = en.loops
		return o.eval(e.Args[0])
	case "entry":
		need(1)
		if len(en.loops) == 0 {
			sfail(e, "entry() outside a loop")
		}
		o := en.sub()
		l := en.loops[len(en.loops)-1]
		o.st = l.entry
		if en.x != nil {
			en.x.refreshVars(o, l.entry)
		}
		for k, v := range en.vars {
			if v.t != nil && v.t.Op == "bvar" {
				o.vars[k] = v
			}
		}
		return o.eval(e.Args[0])
	case "len":
		need(1)
		v := unw(en.term(e.Args[0]))
		switch {
		case v.Sort == Str:
			return SVal{t: strLen(v)}
		case isMap(v):
			return SVal{t: cardApp(Sel(v, 0))}
		case v.Sort.Kind == SData && v.Sort.Class == "slice":
			return SVal{t: Sel(v, 0)}
		}
		sfail(e, "len of sort %s", v.Sort.Name)
	case "card":
		need(1)
		return SVal{t: cardApp(domOf(en.term(e.Args[0])))}
	case "dom":
		need(1)
		return SVal{t: domOf(en.term(e.Args[0]))}
	case "vals":
		need(1)
		return SVal{t: Sel(unw(en.term(e.Args[0])), 1)}
	case "ite":
		need(3)
		c := en.boolT(e.Args[0])
		a, b := en.eval(e.Args[1]), en.eval(e.Args[2])
		x, y := coerceEq(a.t, b.t)
		return SVal{t: Ite(c, x, y), g: a.g}
	case "min", "max":
		need(2)
		a, b := en.intT(e.Args[0]), en.intT(e.Args[1])
		if e.S == "min" {
			return SVal{t: Ite(Le(a, b), a, b)}
		}
		return SVal{t: Ite(Le(a, b), b, a)}
	case "wrap64":
		need(1)
		return SVal{t: Mod(en.intT(e.Args[0]), Num(pow2(64)))}
	case "pow2":
		need(1)
		n := en.intT(e.Args[0])
		return SVal{t: Num(pow2(uint(n.Num.Int64())))}
	case "deref":
		need(1)
		return SVal{t: deref(en.term(e.Args[0]))}
	case "isnil":
		need(1)
		t := en.term(e.Args[0])
		if t.Sort == RefS {
			return SVal{t: Eq(t, nilRef)}
		}
		return SVal{t: Sel(t, 0)}
	case "fresh":
		need(1)
		t := en.term(e.Args[0])
		if t.Sort != RefS {
			return SVal{t: True}
		}
		oa := en.old.st.cell("$alloc", arraySort(RefS, Bool))
		na := en.st.cell("$alloc", arraySort(RefS, Bool))
		return SVal{t: And(Not(Select(oa, t)), Select(na, t), Not(Eq(t, nilRef)))}
	case "box":
		need(1)
		v := en.eval(e.Args[0])
		return SVal{t: boxTerm(v.t, v.g)}
	case "asiface": // a value converted to the interface type of another
		need(2)
		v, to := en.term(e.Args[0]), en.term(e.Args[1]).Sort
		return SVal{t: App("conv_"+v.Sort.Name+"_"+to.Name, to, v)}
	case "addall": // a set (map to unit) with the elements of a list added
		need(2)
		return SVal{t: addAll(unw(en.term(e.Args[0])), unw(en.term(e.Args[1])))}
	case "store":
		need(3)
		return SVal{t: Store(unw(en.term(e.Args[0])), en.term(e.Args[1]), en.term(e.Args[2]))}
	case "sortasc":
		need(1)
		a := en.eval(e.Args[0])
		return SVal{t: App("sortasc_"+a.t.Sort.Name, a.t.Sort, a.t), g: a.g}
	case "mapdel":
		need(2)
		return SVal{t: mapDel(unw(en.term(e.Args[0])), en.term(e.Args[1]))}
	case "apply":
		f := en.eval(e.Args[0])
		var as []*Term
		for _, a := range e.Args[1:] {
			as = append(as, en.term(a))
		}
		if f.fn == nil {
			sfail(e, "apply of a non-function")
		}
		return SVal{t: en.x.applyPure(en.st, f.fn, as)}
	case "zerobytes":
		need(1)
		z := zero(sliceSort(U8))
		return SVal{t: Mk(z.Sort, en.intT(e.Args[0]), Sel(z, 1))}
	case "emptymap":
		need(1)
		t := en.term(e.Args[0])
		return SVal{t: zero(t.Sort)}
	case "zeroof":
		need(1)
		t := en.term(e.Args[0])
		return SVal{t: zero(t.Sort)}
	case "haselem": // nonnil etc.
	}
	if f, ok := en.db().funcs[e.S]; ok {
		if !f.ready {
			en.db().prepare(f)
		}
		if len(e.Args) != len(f.Params) {
			sfail(e, "%s takes %d arguments", e.S, len(f.Params))
		}
		args := make([]*Term, len(e.Args))
		vals := make([]SVal, len(e.Args))
		for i, a := range e.Args {
			v := en.eval(a)
			t := v.t
			want := f.ptys[i].S
			if v.isNil {
				t = zero(want)
			}
			if t == nil && v.singleton != "" {
				vals[i] = v
				continue
			}
			if t == nil {
				sfail(e, "argument %d of %s has no value", i, e.S)
			}
			if !sameSMT(t.Sort, want) {
				if t.Sort.Kind == SData && t.Sort.Class == "ptr" && sameSMT(t.Sort.El, want) {
					t = Sel(t, 1)
				} else if u := unw(t); sameSMT(u.Sort, want) {
					t = u
				} else if d := domOf(t); sameSMT(d.Sort, want) {
					t = d
				} else {
					sfail(e, "argument %d of %s: sort %s, want %s", i, e.S, t.Sort.Name, want.Name)
				}
			}
			args[i] = t
			g := v.g
			if g == nil {
				g = f.ptys[i].G
			}
			vals[i] = SVal{t: t, g: g}
		}
		if f.Kind == "def" {
			n := *en
			n.vars = map[string]SVal{}
			n.pkg = f.Pkg
			for i, p := range f.Params {
				n.vars[p.Name] = vals[i]
			}
			if en.old != nil { // defs may use old()
				o := *en.old
				o.vars = map[string]SVal{}
				o.pkg = f.Pkg
				for i, p := range f.Params {
					o.vars[p.Name] = vals[i]
				}
				n.old = &o
			}
			r := n.eval(f.Body)
			if r.g == nil {
				r.g = f.ret.G
			}
			if r.isNil {
				r = SVal{t: zero(f.ret.S), g: f.ret.G}
			}
			if !sameSMT(r.t.Sort, f.ret.S) {
				if u := unw(r.t); sameSMT(u.Sort, f.ret.S) {
					r.t = u
				} else {
					sfail(e, "%s: body has sort %s, declared %s", f.Name, r.t.Sort.Name, f.ret.S.Name)
				}
			}
			return r
		}
		return SVal{t: App(f.Name, f.ret.S, args...), g: f.ret.G}
	}
	// constructor of a struct type
	if g, ok := en.db().resolveNamed(en.pkg, e.S, nil); ok {
		s := sortOf(g)
		if s.Kind == SData && s.Class == "struct" && len(s.Fields) == len(e.Args) {
			args := make([]*Term, len(e.Args))
			for i, a := range e.Args {
				v := en.eval(a)
				if v.isNil {
					v.t = zero(s.Fields[i].Sort)
				}
				if !sameSMT(v.t.Sort, s.Fields[i].Sort) {
					sfail(e, "field %s of %s: sort %s, want %s", s.Fields[i].Name, e.S, v.t.Sort.Name, s.Fields[i].Sort.Name)
				}
				args[i] = v.t
			}
			return SVal{t: Mk(s, args...), g: g}
		}
	}
	sfail(e, "unknown function %s", e.S)
	return SVal{}
}

func strLen(t *Term) *Term {
	if v, ok := strVals[t]; ok {
		return NumI(int64(len(v)))
	}
	return App("str.len", LenS, t)
}

func addAll(m, xs *Term) *Term {
	if n := Sel(xs, 0); n.Op == "num" && n.Num.BitLen() <= 3 {
		d := Sel(m, 0)
		for i := int64(0); i < n.Num.Int64(); i++ {
			d = Store(d, sliceElem(xs, NumI(i)), True)
		}
		return Mk(m.Sort, d, Sel(m, 1))
	}
	d := Sel(m, 0)
	return Mk(m.Sort, App("addall_"+mangle(d.Sort.Idx.Name), d.Sort, d, xs), Sel(m, 1))
}

func mapPut(m, k, v *Term) *Term {
	return Mk(m.Sort, Store(Sel(m, 0), k, True), Store(Sel(m, 1), k, v))
}

func mapDel(m, k *Term) *Term {
	return Mk(m.Sort, Store(Sel(m, 0), k, False), Store(Sel(m, 1), k, zero(m.Sort.El)))
}

// ---- database ----

func (db *SpecDB) prepare(f *SpecFunc) {
	f.ready = true
	for _, p := range f.Params {
		f.ptys = append(f.ptys, db.stype(f.Pkg, p.Type))
	}
	f.ret = db.stype(f.Pkg, f.Ret)
	if f.Kind != "fold" {
		return
	}
	fd := &FoldDef{Name: f.Name, Sort: f.ret.S}
	en := &Env{vars: map[string]SVal{}, pkg: f.Pkg}
	for i, p := range f.Params {
		b := BVarN(f.Name+"!"+p.Name, f.ptys[i].S)
		en.vars[p.Name] = SVal{t: b, g: f.ptys[i].G}
		if i < len(f.Params)-1 {
			fd.Params = append(fd.Params, b)
		} else {
			fd.K = b
		}
	}
	fd.Acc = BVarN(f.Name+"!acc", f.ret.S)
	fd.Base = en.term(f.Base)
	en.vars["acc"] = SVal{t: fd.Acc, g: f.ret.G}
	folds[f.Name] = fd
	fd.Step = en.term(f.Step)
}

func newSpecDB(p *Program, sf *SpecFile) *SpecDB {
	db := &SpecDB{p: p, sf: sf, funcs: map[string]*SpecFunc{}, con: map[string]*Contract{}, ghosts: map[string]SType{}, single: map[string]*types.Named{}, lemmaT: map[*LemmaDecl]*Term{}, proph: map[string]string{}, owns: map[string]bool{}, guarded: map[string]string{}, ghostInv: map[string]bool{}}
	theDB = db
	for _, d := range sf.Direct {
		switch d[0] {
		case "prophecy":
			db.proph[d[1]] = d[2]
		case "owns":
			db.owns[d[1]] = true
		case "guarded":
			db.guarded[d[1]] = d[2]
		}
	}
	for _, f := range sf.Funcs {
		if _, dup := db.funcs[f.Name]; dup {
			panic("duplicate spec function " + f.Name)
		}
		db.funcs[f.Name] = f
	}
	for _, c := range sf.Contracts {
		if _, dup := db.con[c.Key]; dup {
			panic("duplicate contract " + c.Key)
		}
		db.con[c.Key] = c
	}
	return db
}

// applyDirectives fills tcfg; must run before any sort is computed.
func applyDirectives(sf *SpecFile) {
	for _, d := range sf.Direct {
		switch d[0] {
		case "ref":
			tcfg.Ref[d[1]] = true
		case "singleton":
			tcfg.Ref[d[1]] = true
			tcfg.Singleton[d[1]] = true
		case "opaque":
			switch d[2] {
			case "int":
				tcfg.Opaque[d[1]] = MInt
			case "B32":
				tcfg.Opaque[d[1]] = B32
			case "unit":
				tcfg.Opaque[d[1]] = UnitS
			default:
				tcfg.Opaque[d[1]] = unint(d[2])
			}
		case "range":
			lo, _ := new(big.Int).SetString(d[2], 10)
			var bits uint
			fmt.Sscan(d[3], &bits)
			tcfg.Range[d[1]] = intSort("range_"+mangle(d[1]), lo, new(big.Int).Sub(pow2(bits), big.NewInt(1)))
		case "dispatch":
			tcfg.Dispatch[d[1]] = d[2]
		case "model":
			tcfg.Model[d[1]] = d[2]
		}
	}
}

// finish resolves names that need the loaded program.
func (db *SpecDB) finish() {
	for k := range tcfg.Singleton {
		if n := db.lookupType(k); n != nil {
			db.single[n.Obj().Name()] = n
		}
	}
	for i, g := range db.sf.Ghosts {
		db.ghosts[g.Name] = db.stype(db.sf.GhostPkg[i], g.Type)
	}
}

// pkgLoaded reports whether declarations of a package can be evaluated.
func (db *SpecDB) pkgLoaded(rel string) bool {
	for _, pk := range db.p.Pkgs {
		if pk != nil && pk.Rel == rel {
			return true
		}
	}
	return rel == "" || rel == "base"
}

// registerLemmas turns axioms and lemmas into solver axioms.
func (db *SpecDB) registerLemmas() {
	for _, l := range db.sf.Lemmas {
		if !db.pkgLoaded(l.Pkg) {
			continue
		}
		t := db.lemmaTerm(l, nil)
		db.lemmaT[l] = t
		db.lemmas = append(db.lemmas, l)
		if strings.HasPrefix(l.Name, "finding_") {
			continue // does not hold; see known_findings.txt
		}
		ax := &Axiom{Name: l.Name, T: t, heads: map[string]bool{}, Lemma: !l.Trusted, inst: instHead(t)}
		q := t
		if q.Op == "forall" && len(q.Pats) > 0 {
			for _, p := range q.Pats[0] {
				symbols(p, ax.heads)
			}
		} else {
			symbols(t, ax.heads)
		}
		for h := range ax.heads { // literals and helper symbols do not gate
			if strings.HasPrefix(h, "zero_") || strings.HasPrefix(h, "str_") || strings.HasPrefix(h, "errnil") {
				delete(ax.heads, h)
			}
		}
		axioms = append(axioms, ax)
	}
}

func (db *SpecDB) lemmaTerm(l *LemmaDecl, bind map[string]*Term) *Term {
	en := &Env{vars: map[string]SVal{}, pkg: l.Pkg}
	if l.Trusted {
		return en.boolT(l.Ensures[0])
	}
	var bv []*Term
	for _, p := range l.Params {
		ty := db.stype(l.Pkg, p.Type)
		b := BVarN(l.Name+"!"+p.Name, ty.S)
		if r, ok := bind[p.Name]; ok {
			b = r
		} else {
			bv = append(bv, b)
		}
		en.vars[p.Name] = SVal{t: b, g: ty.G}
	}
	var req, ens []*Term
	for _, r := range l.Requires {
		req = append(req, en.boolT(r))
	}
	for _, r := range l.Ensures {
		ens = append(ens, en.boolT(r))
	}
	body := Implies(And(req...), And(ens...))
	if len(bv) == 0 {
		return body
	}
	var pats [][]*Term
	for _, tr := range l.Trig {
		var p []*Term
		for _, x := range tr {
			p = append(p, en.term(x))
		}
		pats = append(pats, p)
	}
	return Forall(bv, body, pats...)
}

// proveLemma returns the obligations of a lemma.
func (db *SpecDB) lemmaObls(l *LemmaDecl) []*Obl {
	bind := map[string]*Term{}
	for _, p := range l.Params {
		bind[p.Name] = Var("L_"+p.Name, db.stype(l.Pkg, p.Type).S)
	}
	goal := db.lemmaTerm(l, bind)
	var facts []*Term
	if l.Induct != "" {
		n := bind[l.Induct]
		b2 := map[string]*Term{}
		for k, v := range bind {
			if !l.Gen || k == l.Induct {
				b2[k] = v
			}
		}
		b2[l.Induct] = Sub(n, NumI(1))
		ih := db.lemmaTerm(l, b2)
		facts = append(facts, Implies(Lt(NumI(0), n), ih))
	}
	no := db.hiddenExcept(l.Uses)
	for _, o := range db.sf.Lemmas {
		if !o.Trusted && o.Order >= l.Order {
			no[o.Name] = true
		}
	}
	return []*Obl{{Fn: "lemma " + l.Name, Kind: "lemma", Label: l.Name, Facts: facts, Goal: goal, Props: l.Props, NoLemma: no}}
}

// hiddenExcept names the hidden axioms and lemmas that are not in uses.
func (db *SpecDB) hiddenExcept(uses []string) map[string]bool {
	no := map[string]bool{}
	for _, o := range db.sf.Lemmas {
		if o.Hidden && !has(uses, o.Name) {
			no[o.Name] = true
		}
	}
	return no
}
