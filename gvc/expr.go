package main

// Expression evaluation.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (x *Exec) constVal(v constant.Value, ty types.Type, pos token.Pos) Val {
	s := sortOf(ty)
	switch {
	case s == Bool:
		return Val{t: BoolT(constant.BoolVal(v)), ty: ty}
	case s == Str:
		return Val{t: strLit(constant.StringVal(v)), ty: ty}
	case s.Kind == SInt:
		iv := constant.ToInt(v)
		n, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			x.fail(pos, "constant %s", v)
		}
		return Val{t: Num(n), ty: ty}
	case s == F64:
		return Val{t: intern(&Term{Op: "lit", Name: "f_" + mangle(constant.ToFloat(v).ExactString()), Sort: F64}), ty: ty}
	case s == AnyS || s == ErrS || s.Kind == SUnint:
		// constant converted to an interface
		switch v.Kind() {
		case constant.String:
			return Val{t: boxTerm(strLit(constant.StringVal(v)), types.Typ[types.String]), ty: ty}
		case constant.Bool:
			return Val{t: boxTerm(BoolT(constant.BoolVal(v)), types.Typ[types.Bool]), ty: ty}
		case constant.Int:
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return Val{t: boxTerm(Num(n), types.Typ[types.Int]), ty: ty}
		}
	}
	x.fail(pos, "constant of type %s", ty)
	return Val{}
}

func (x *Exec) eval(st *State, f *Frame, e ast.Expr) Val {
	tv := f.info.Types[e]
	if tv.Value != nil {
		ty := f.typ(e)
		if b, ok := ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			switch b.Kind() {
			case types.UntypedFloat:
				ty = types.Typ[types.Float64]
			case types.UntypedString:
				ty = types.Typ[types.String]
			case types.UntypedBool:
				ty = types.Typ[types.Bool]
			case types.UntypedRune:
				ty = types.Typ[types.Int32]
			default:
				ty = types.Typ[types.Int]
			}
		}
		return x.constVal(tv.Value, ty, e.Pos())
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(st, f, e.X)
	case *ast.Ident:
		return x.ident(st, f, e)
	case *ast.SelectorExpr:
		return x.selector(st, f, e)
	case *ast.IndexExpr:
		return x.index(st, f, e)
	case *ast.SliceExpr:
		return x.sliceExpr(st, f, e)
	case *ast.StarExpr:
		v := x.eval(st, f, e.X)
		return x.derefVal(st, v, e.Pos())
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			v := x.eval(st, f, e.X)
			return Val{t: Not(v.t), ty: f.typ(e)}
		case token.SUB:
			v := x.eval(st, f, e.X)
			ty := f.typ(e)
			if sortOf(ty) == F64 {
				return Val{t: App("f.neg", F64, v.t), ty: ty}
			}
			return Val{t: x.arith(st, token.SUB, NumI(0), v.t, ty, e.Pos()), ty: ty}
		case token.ADD:
			return x.eval(st, f, e.X)
		case token.AND:
			return x.addrOf(st, f, e)
		case token.ARROW:
			x.fail(e.Pos(), "channel receive")
		}
		x.fail(e.Pos(), "unary %s", e.Op)
	case *ast.BinaryExpr:
		return x.binary(st, f, e)
	case *ast.CallExpr:
		return x.evalCall(st, f, e)
	case *ast.CompositeLit:
		return x.composite(st, f, e, f.typ(e))
	case *ast.FuncLit:
		return Val{ty: f.typ(e), fn: &FuncVal{lit: e, fr: f, sig: f.typ(e).(*types.Signature)}, t: intern(&Term{Op: "lit", Name: fmt.Sprintf("fn_%d", e.Pos()), Sort: unint("func")})}
	case *ast.TypeAssertExpr:
		v := x.eval(st, f, e.X)
		r, ok := x.typeAssert(st, v, f.typ(e), e.Pos())
		x.assert(st, ok, "panic", "type assertion holds", e.Pos(), nil)
		return r
	}
	x.fail(e.Pos(), "expression %T", e)
	return Val{}
}

func (x *Exec) ident(st *State, f *Frame, e *ast.Ident) Val {
	switch o := f.info.ObjectOf(e).(type) {
	case *types.Nil:
		return Val{ty: types.Typ[types.UntypedNil], t: nil}
	case *types.Var:
		k, c := x.lookup(st, f, o)
		if c == nil {
			if o.Parent() == o.Pkg().Scope() {
				ty := substType(o.Type(), f.tenv)
				return Val{t: App("gv_"+mangle(o.Pkg().Path()+"."+o.Name()), sortOf(ty)), ty: ty}
			}
			x.fail(e.Pos(), "variable %s not available", e.Name)
		}
		ty := substType(o.Type(), f.tenv)
		v := x.cellRead(st, c, ty, e.Pos())
		if v.pl == nil && v.addr == nil && c.fn == nil {
			v.pl = &Place{root: Root{local: true, v: k, sort: sortOf(ty)}}
		}
		x.touch(v)
		return v
	case *types.Func:
		return Val{ty: o.Type(), fn: x.funcVal(o, f, e)}
	}
	x.fail(e.Pos(), "identifier %s", e.Name)
	return Val{}
}

func (x *Exec) touch(v Val) {
	if v.t == nil || len(x.logs) == 0 || v.ty == nil {
		return
	}
	if v.t.Sort.Kind == SData && v.t.Sort.Class == "slice" {
		for _, l := range x.logs {
			l.touched[v.t] = v.ty
		}
	}
}

func (x *Exec) funcVal(o *types.Func, f *Frame, e ast.Expr) *FuncVal {
	return &FuncVal{fi: x.p.Funcs[o.Origin()], sig: substType(o.Type(), f.tenv).(*types.Signature), tenv: x.instEnv(o, f, e)}
}

func (x *Exec) instEnv(o *types.Func, f *Frame, e ast.Expr) tenv {
	var id *ast.Ident
	switch y := ast.Unparen(e).(type) {
	case *ast.Ident:
		id = y
	case *ast.SelectorExpr:
		id = y.Sel
	case *ast.IndexExpr:
		return x.instEnv(o, f, y.X)
	case *ast.IndexListExpr:
		return x.instEnv(o, f, y.X)
	}
	if id == nil {
		return nil
	}
	inst, ok := f.info.Instances[id]
	if !ok {
		return nil
	}
	tp := o.Origin().Type().(*types.Signature).TypeParams()
	env := tenv{}
	for i := 0; i < tp.Len(); i++ {
		env[tp.At(i)] = substType(inst.TypeArgs.At(i), f.tenv)
	}
	return env
}

func isPtr(t types.Type) (*types.Pointer, bool) {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		p, ok = t.Underlying().(*types.Pointer)
	}
	return p, ok
}

// derefVal: *p
func (x *Exec) derefVal(st *State, v Val, pos token.Pos) Val {
	p, ok := isPtr(v.ty)
	if !ok {
		x.fail(pos, "dereference of %s", v.ty)
	}
	el := p.Elem()
	if v.addr != nil {
		return Val{t: x.get(st, v.addr), ty: el, pl: v.addr}
	}
	if v.t == nil {
		x.fail(pos, "dereference of nil")
	}
	s := v.t.Sort
	if s == RefS {
		n, _ := types.Unalias(el).(*types.Named)
		sst := el.Underlying().(*types.Struct)
		ss := sortOf(el)
		args := make([]*Term, sst.NumFields())
		for i := range args {
			args[i] = st.readField(n, sst.Field(i).Name(), sst.Field(i).Type(), v.t)
		}
		return Val{t: Mk(ss, args...), ty: el}
	}
	if s.Kind == SData && s.Class == "ptr" {
		x.assert(st, Not(Sel(v.t, 0)), "nil", "dereferenced pointer is not nil", pos, nil)
		r := Val{t: Sel(v.t, 1), ty: el}
		if v.pl != nil {
			r.pl = v.pl.with(Step{kind: sDeref})
		}
		return r
	}
	x.fail(pos, "dereference of %s", v.ty)
	return Val{}
}

// fieldVal selects field i of a struct or pointer-to-struct value.
func (x *Exec) fieldVal(st *State, v Val, i int, pos token.Pos) Val {
	if p, ok := isPtr(v.ty); ok {
		if v.addr == nil && v.t != nil && v.t.Sort == RefS {
			n := types.Unalias(p.Elem()).(*types.Named)
			sst := n.Underlying().(*types.Struct)
			fd := sst.Field(i)
			fty := x.fieldType(n, i)
			if !tcfg.Singleton[typeKey(n)] {
				x.assert(st, Not(Eq(v.t, nilRef)), "nil", "dereferenced pointer is not nil", pos, nil)
			}
			if mu, ok := x.db.guarded[heapCell(n, fd.Name())]; ok {
				m := x.readFieldNamed(st, n, mu, v.t)
				x.assert(st, Or(Eq(m, NumI(1)), Eq(m, NumI(3))), "lock", fd.Name()+" is accessed only while its lock is held", pos, nil)
			}
			root := Root{cell: heapCell(n, fd.Name()), ref: v.t, sort: sortOf(fty)}
			if tcfg.Singleton[typeKey(n)] {
				root.ref = nil
			}
			pl := &Place{root: root}
			r := Val{t: x.get(st, pl), ty: fty, pl: pl}
			x.touch(r)
			return r
		}
		v = x.derefVal(st, v, pos)
	}
	sst, ok := v.ty.Underlying().(*types.Struct)
	if !ok {
		x.fail(pos, "field of %s", v.ty)
	}
	if v.t == nil {
		x.fail(pos, "field of a value without a term")
	}
	fty := sst.Field(i).Type()
	if v.t.Sort.Kind != SData {
		// opaque external struct
		return Val{t: App("fld_"+mangle(v.t.Sort.Name)+"_"+sst.Field(i).Name(), sortOf(fty), v.t), ty: fty}
	}
	r := Val{t: Sel(v.t, i), ty: fty}
	if v.pl != nil {
		r.pl = v.pl.with(Step{kind: sField, i: i})
	}
	if n, ok := types.Unalias(v.ty).(*types.Named); ok && x.db.owns[typeKey(n)+"."+sst.Field(i).Name()] {
		r.own = true
	}
	x.touch(r)
	return r
}

func (x *Exec) fieldType(n *types.Named, i int) types.Type {
	return n.Underlying().(*types.Struct).Field(i).Type()
}

func (x *Exec) selector(st *State, f *Frame, e *ast.SelectorExpr) Val {
	if id, ok := e.X.(*ast.Ident); ok {
		if _, ok := f.info.ObjectOf(id).(*types.PkgName); ok {
			switch o := f.info.ObjectOf(e.Sel).(type) {
			case *types.Var:
				ty := o.Type()
				return Val{t: App("gv_"+mangle(o.Pkg().Path()+"."+o.Name()), sortOf(ty)), ty: ty}
			case *types.Func:
				return Val{ty: o.Type(), fn: x.funcVal(o, f, e)}
			}
			x.fail(e.Pos(), "qualified identifier")
		}
	}
	sel := f.info.Selections[e]
	if sel == nil {
		x.fail(e.Pos(), "selector %s", e.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		v := x.eval(st, f, e.X)
		for _, i := range sel.Index() {
			v = x.fieldVal(st, v, i, e.Pos())
		}
		return v
	case types.MethodVal:
		v := x.eval(st, f, e.X)
		o := sel.Obj().(*types.Func)
		return Val{ty: f.typ(e), fn: &FuncVal{fi: x.p.Funcs[o.Origin()], recv: &v, sig: f.typ(e).(*types.Signature)}}
	}
	x.fail(e.Pos(), "selector %s", e.Sel.Name)
	return Val{}
}

func (x *Exec) addrOf(st *State, f *Frame, e *ast.UnaryExpr) Val {
	ty := f.typ(e)
	if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
		p, _ := isPtr(ty)
		if sortOf(ty) == RefS {
			return x.alloc(st, f, cl, p)
		}
		s := sortOf(ty)
		v := x.composite(st, f, cl, p.Elem())
		if s.Kind == SData && s.Class == "ptr" {
			return Val{t: Mk(s, False, v.t), ty: ty, own: true}
		}
		// external struct: unknown object
		return Val{t: x.fresh("ext", s), ty: ty, own: true}
	}
	v := x.evalPlaceVal(st, f, e.X)
	if v.pl == nil {
		x.fail(e.Pos(), "address of a non-addressable expression")
	}
	return Val{addr: v.pl, ty: ty, t: x.addrVal(st, v.pl, ty)}
}

// alloc creates an object of a reference type.
func (x *Exec) alloc(st *State, f *Frame, cl *ast.CompositeLit, p *types.Pointer) Val {
	n := types.Unalias(p.Elem()).(*types.Named)
	sst := n.Underlying().(*types.Struct)
	single := tcfg.Singleton[typeKey(n)]
	vals := make([]Val, sst.NumFields())
	for _, el := range cl.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			x.fail(cl.Pos(), "unkeyed literal of a reference type")
		}
		for i := range vals {
			if sst.Field(i).Name() == kv.Key.(*ast.Ident).Name {
				v := x.evalElem(st, f, kv.Value, sst.Field(i).Type())
				v = x.coerce(st, v, sst.Field(i).Type())
				x.checkStore(st, v, kv.Pos())
				x.disown(st, f, kv.Value)
				vals[i] = v
			}
		}
	}
	r := x.fresh("new_"+n.Obj().Name(), RefS)
	as := arraySort(RefS, Bool)
	al := st.cell("$alloc", as)
	x.assume(st, And(Not(Select(al, r)), Not(Eq(r, nilRef))))
	st.heap["$alloc"] = Store(al, r, True)
	x.log(&Place{root: Root{cell: "$alloc", sort: arraySort(RefS, Bool)}})
	for i := range vals {
		ft := sst.Field(i).Type()
		if vals[i].t == nil {
			if vals[i].fn != nil {
				continue
			}
			vals[i] = Val{t: zero(sortOf(ft)), ty: ft}
		}
		root := Root{cell: heapCell(n, sst.Field(i).Name()), ref: r, sort: sortOf(ft)}
		if single {
			root.ref = nil
		}
		pl := &Place{root: root}
		x.set(st, pl, vals[i].t, true)
		x.moved(st, vals[i], pl)
	}
	return Val{t: r, ty: p}
}

func (x *Exec) evalElem(st *State, f *Frame, e ast.Expr, ty types.Type) Val {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := isPtr(ty); ok {
			if sortOf(ty) == RefS {
				return x.alloc(st, f, cl, p)
			}
			v := x.composite(st, f, cl, p.Elem())
			return Val{t: Mk(sortOf(ty), False, v.t), ty: ty, own: true}
		}
		return x.composite(st, f, cl, ty)
	}
	return x.eval(st, f, e)
}

func (x *Exec) composite(st *State, f *Frame, e *ast.CompositeLit, ty types.Type) Val {
	s := sortOf(ty)
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if s == UnitS {
			return Val{t: zero(UnitS), ty: ty}
		}
		if s.Kind != SData {
			for _, el := range e.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					x.eval(st, f, kv.Value)
				} else {
					x.eval(st, f, el)
				}
			}
			if s.Kind == SInt { // opaque number type
				return Val{t: NumI(0), ty: ty, own: true}
			}
			return Val{t: x.fresh("ext", s), ty: ty, own: true}
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zero(s.Fields[i].Sort)
		}
		put := func(i int, el ast.Expr) {
			ft := u.Field(i).Type()
			v := x.coerce(st, x.evalElem(st, f, el, ft), ft)
			if v.fn != nil && v.t == nil {
				v.t = zero(s.Fields[i].Sort)
			}
			x.checkStore(st, v, el.Pos())
			if isRefLike(ft) && v.pl != nil {
				x.loseIdentity(st, v.pl)
			}
			if n, ok := types.Unalias(ty).(*types.Named); ok && x.db.owns[typeKey(n)+"."+u.Field(i).Name()] && !v.own {
				x.assert(st, False, "ownership", "stored slice may be shared with the caller", el.Pos(), nil)
			}
			x.disown(st, f, el)
			args[i] = v.t
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						put(j, kv.Value)
					}
				}
			} else {
				put(i, el)
			}
		}
		return Val{t: Mk(s, args...), ty: ty, own: true}
	case *types.Slice, *types.Array:
		var el types.Type
		n := int64(-1)
		if a, ok := u.(*types.Array); ok {
			el = a.Elem()
			n = a.Len()
		} else {
			el = u.(*types.Slice).Elem()
		}
		if s == B32 {
			if len(e.Elts) == 0 {
				return Val{t: zero(B32), ty: ty}
			}
			x.fail(e.Pos(), "array literal")
		}
		arr := ConstArr(s.Fields[1].Sort, zero(s.El))
		for i, x1 := range e.Elts {
			if _, ok := x1.(*ast.KeyValueExpr); ok {
				x.fail(e.Pos(), "keyed slice literal")
			}
			v := x.coerce(st, x.evalElem(st, f, x1, el), el)
			x.checkStore(st, v, x1.Pos())
			x.disown(st, f, x1)
			arr = Store(arr, NumI(int64(i)), v.t)
		}
		if n < 0 {
			n = int64(len(e.Elts))
		}
		return Val{t: Mk(s, NumI(n), arr), ty: ty, own: true}
	case *types.Map:
		m := zero(s)
		for _, x1 := range e.Elts {
			kv := x1.(*ast.KeyValueExpr)
			k := x.coerce(st, x.evalElem(st, f, kv.Key, u.Key()), u.Key())
			v := x.coerce(st, x.evalElem(st, f, kv.Value, u.Elem()), u.Elem())
			x.checkStore(st, v, x1.Pos())
			m = mapPut(m, k.t, v.t)
		}
		return Val{t: m, ty: ty, own: true}
	}
	x.fail(e.Pos(), "composite literal of %s", ty)
	return Val{}
}

// loseIdentity: the object moved into a value without a place.
func (x *Exec) loseIdentity(st *State, p *Place) {
	if p.root.local && len(p.path) == 0 {
		if c, ok := st.vars[p.root.v]; ok {
			n := *c
			n.frozen = true
			st.vars[p.root.v] = &n
		}
	}
}

// evalPlace yields the place of an assignable expression.
func (x *Exec) evalPlace(st *State, f *Frame, e ast.Expr) *Place {
	v := x.evalPlaceVal(st, f, e)
	if v.pl == nil {
		x.fail(e.Pos(), "not assignable")
	}
	return v.pl
}

func (x *Exec) evalPlaceVal(st *State, f *Frame, e ast.Expr) Val {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.Ident:
		return x.ident(st, f, e)
	case *ast.SelectorExpr:
		sel := f.info.Selections[e]
		if sel == nil {
			return x.eval(st, f, e)
		}
		if sel.Kind() != types.FieldVal {
			x.fail(e.Pos(), "selector in assignment")
		}
		var v Val
		if _, isp := isPtr(f.typ(e.X)); isp {
			v = x.eval(st, f, e.X)
		} else {
			v = x.evalPlaceVal(st, f, e.X)
		}
		for _, i := range sel.Index() {
			v = x.fieldVal(st, v, i, e.Pos())
		}
		return v
	case *ast.StarExpr:
		v := x.eval(st, f, e.X)
		return x.derefVal(st, v, e.Pos())
	case *ast.IndexExpr:
		bt := f.typ(e.X)
		switch bt.Underlying().(type) {
		case *types.Slice, *types.Array:
			b := x.evalPlaceVal(st, f, e.X)
			i := x.eval(st, f, e.Index)
			if b.pl == nil {
				x.fail(e.Pos(), "element of a temporary slice")
			}
			if b.t.Sort == B32 {
				x.fail(e.Pos(), "assignment to array element")
			}
			x.boundsCheck(st, i.t, Sel(b.t, 0), e.Pos())
			if isSlice(bt) {
				own := b.own
				if b.pl.root.local && len(b.pl.path) == 0 {
					if c := st.vars[b.pl.root.v]; c != nil {
						own = c.own
					}
				} else if x.nestedOwn(st, b.pl) {
					own = true
				}
				if !own {
					x.assert(st, False, "ownership", "write to an element of a slice that may be shared", e.Pos(), nil)
				}
			}
			p := b.pl.with(Step{kind: sIndex, k: i.t})
			return Val{t: x.get(st, p), ty: f.typ(e), pl: p}
		case *types.Map:
			return x.index(st, f, e)
		}
	case *ast.CompositeLit:
		return x.eval(st, f, e)
	}
	return x.eval(st, f, e)
}

// nestedOwn: an element slice of an owned slice-of-slices variable.
func (x *Exec) nestedOwn(st *State, p *Place) bool {
	if !p.root.local {
		return false
	}
	c := st.vars[p.root.v]
	if c == nil || !c.own {
		return false
	}
	for _, s := range p.path {
		if s.kind != sIndex && s.kind != sField && s.kind != sDeref {
			return false
		}
	}
	return true
}

func (x *Exec) boundsCheck(st *State, i, n *Term, pos token.Pos) {
	x.assert(st, And(Le(NumI(0), i), Lt(i, n)), "index", "index in range", pos, nil)
}

func (x *Exec) index(st *State, f *Frame, e *ast.IndexExpr) Val {
	if f.info.Types[e.X].IsType() {
		x.fail(e.Pos(), "type index")
	}
	bt := f.typ(e.X)
	if _, ok := bt.(*types.Signature); ok { // generic instantiation
		v := x.eval(st, f, e.X)
		return v
	}
	b := x.eval(st, f, e.X)
	if p, ok := isPtr(bt); ok {
		b = x.derefVal(st, b, e.Pos())
		bt = p.Elem()
	}
	switch u := bt.Underlying().(type) {
	case *types.Map:
		k := x.coerce(st, x.eval(st, f, e.Index), u.Key())
		r := Val{t: Select(Sel(b.t, 1), k.t), ty: u.Elem()}
		if b.pl != nil {
			r.pl = b.pl.with(Step{kind: sKey, k: k.t})
			if !isRefLike(u.Elem()) {
				r.pl = nil
			}
		}
		x.touch(r)
		return r
	case *types.Slice, *types.Array:
		i := x.eval(st, f, e.Index)
		var el types.Type
		if b.t.Sort == B32 {
			x.boundsCheck(st, i.t, NumI(32), e.Pos())
			return Val{t: App("b32at", U8, b.t, i.t), ty: f.typ(e)}
		}
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		x.boundsCheck(st, i.t, Sel(b.t, 0), e.Pos())
		r := Val{t: Select(Sel(b.t, 1), i.t), ty: el}
		if b.pl != nil {
			r.pl = b.pl.with(Step{kind: sIndex, k: i.t})
		}
		x.touch(r)
		return r
	case *types.Basic:
		i := x.eval(st, f, e.Index)
		x.boundsCheck(st, i.t, strLen(b.t), e.Pos())
		return Val{t: App("str.at", U8, b.t, i.t), ty: types.Typ[types.Uint8]}
	}
	x.fail(e.Pos(), "index of %s", bt)
	return Val{}
}

func (x *Exec) sliceExpr(st *State, f *Frame, e *ast.SliceExpr) Val {
	b := x.evalPlaceVal(st, f, e.X)
	bt := f.typ(e.X)
	if e.Slice3 {
		x.fail(e.Pos(), "three-index slice")
	}
	if b.t.Sort == B32 {
		if e.Low != nil || e.High != nil {
			x.fail(e.Pos(), "partial slice of an array")
		}
		return Val{t: App("b32bytes", sliceSort(U8), b.t), ty: f.typ(e), addr: b.pl}
	}
	var n *Term
	if b.t.Sort == Str {
		n = strLen(b.t)
	} else {
		n = Sel(b.t, 0)
	}
	lo, hi := NumI(0), n
	if e.Low != nil {
		lo = x.eval(st, f, e.Low).t
	}
	if e.High != nil {
		hi = x.eval(st, f, e.High).t
	}
	x.assert(st, And(Le(NumI(0), lo), Le(lo, hi), Le(hi, n)), "index", "slice bounds in range", e.Pos(), nil)
	if b.t.Sort == Str {
		return Val{t: App("str.sub", Str, b.t, lo, hi), ty: f.typ(e)}
	}
	own := b.own && e.High == nil
	if b.pl != nil && b.pl.root.local && len(b.pl.path) == 0 {
		if c := st.vars[b.pl.root.v]; c != nil {
			own = c.own && e.High == nil
		}
	}
	r := Val{t: subSlice(b.t, lo, hi), ty: f.typ(e), own: own}
	x.touch(r)
	_ = bt
	return r
}

// ---- arithmetic ----

func intRange(s *Sort) (lo, hi *big.Int) { return s.Lo, s.Hi }

func unsigned(s *Sort) bool { return s.Kind == SInt && s.Lo != nil && s.Lo.Sign() == 0 }

// wrapTo reduces a mathematical integer to an unsigned or signed machine type.
func wrapTo(t *Term, s *Sort) *Term {
	if s.Lo == nil || s.Hi == nil {
		return t
	}
	iv := ival(t)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(s.Lo) >= 0 && iv.hi.Cmp(s.Hi) <= 0 {
		return t
	}
	m := new(big.Int).Sub(s.Hi, s.Lo)
	m.Add(m, big.NewInt(1))
	mt := Num(m)
	if iv.lo != nil && iv.hi != nil {
		lo1 := new(big.Int).Sub(s.Lo, m)
		hi1 := new(big.Int).Add(s.Hi, m)
		if iv.lo.Cmp(lo1) >= 0 && iv.hi.Cmp(hi1) <= 0 {
			r := t
			if iv.hi.Cmp(s.Hi) > 0 {
				r = Ite(Le(t, Num(s.Hi)), r, Sub(t, mt))
			}
			if iv.lo.Cmp(s.Lo) < 0 {
				r = Ite(Le(Num(s.Lo), t), r, Add(t, mt))
			}
			return r
		}
	}
	if s.Lo.Sign() == 0 {
		return Mod(t, mt)
	}
	return Add(Mod(Sub(t, Num(s.Lo)), mt), Num(s.Lo))
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, ty types.Type, pos token.Pos) *Term {
	s := sortOf(ty)
	if s == F64 {
		n := map[token.Token]string{token.ADD: "f.add", token.SUB: "f.sub", token.MUL: "f.mul", token.QUO: "f.div"}[op]
		if n == "" {
			x.fail(pos, "float operator %s", op)
		}
		return App(n, F64, a, b)
	}
	if s == Str && op == token.ADD {
		return App("str.cat", Str, a, b)
	}
	if s.Kind != SInt {
		x.fail(pos, "arithmetic on %s", ty)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = Add(a, b)
	case token.SUB:
		r = Sub(a, b)
	case token.MUL:
		r = Mul(a, b)
	case token.QUO, token.REM:
		x.assert(st, Not(Eq(b, NumI(0))), "div", "divisor is not zero", pos, nil)
		ia, ib := ival(a), ival(b)
		if unsigned(s) || (ia.lo != nil && ia.lo.Sign() >= 0 && ib.lo != nil && ib.lo.Sign() >= 0) {
			if op == token.QUO {
				return Div(a, b)
			}
			return Mod(a, b)
		}
		// truncated division
		abs := func(t *Term) *Term { return Ite(Le(NumI(0), t), t, Neg(t)) }
		q := Div(abs(a), abs(b))
		neg := Not(Eq(Lt(a, NumI(0)), Lt(b, NumI(0))))
		qt := Ite(neg, Neg(q), q)
		if op == token.QUO {
			r = qt
		} else {
			return Sub(a, Mul(b, qt))
		}
	case token.SHL:
		if b.Op == "num" && b.Num.IsInt64() && b.Num.Int64() < 4096 {
			r = Mul(a, Num(pow2(uint(b.Num.Int64()))))
			if !unsigned(s) {
				return wrapTo(r, s)
			}
		} else {
			return App("shl_"+s.Name, s, a, b)
		}
	case token.SHR:
		if b.Op == "num" && b.Num.IsInt64() && b.Num.Int64() < 4096 {
			return Div(a, Num(pow2(uint(b.Num.Int64()))))
		}
		return App("shr_"+s.Name, s, a, b)
	case token.AND:
		if b.Op == "num" {
			m := new(big.Int).Add(b.Num, big.NewInt(1))
			if b.Num.Sign() > 0 && new(big.Int).And(m, b.Num).Sign() == 0 && unsigned(s) {
				return Mod(a, Num(m))
			}
		}
		return App("and_"+s.Name, s, a, b)
	case token.OR:
		return App("or_"+s.Name, s, a, b)
	case token.XOR:
		return App("xor_"+s.Name, s, a, b)
	default:
		x.fail(pos, "operator %s", op)
	}
	if unsigned(s) {
		return wrapTo(r, s)
	}
	if s.Lo != nil {
		x.assert(st, And(Le(Num(s.Lo), r), Le(r, Num(s.Hi))), "overflow", "no signed overflow", pos, nil)
	}
	return r
}

func (x *Exec) binop(st *State, f *Frame, op token.Token, a, b Val, ty types.Type, pos token.Pos) Val {
	return Val{t: x.arith(st, op, a.t, b.t, ty, pos), ty: ty}
}

func (x *Exec) binary(st *State, f *Frame, e *ast.BinaryExpr) Val {
	ty := f.typ(e)
	switch e.Op {
	case token.LAND, token.LOR:
		a := x.eval(st, f, e.X)
		guard := a.t
		if e.Op == token.LOR {
			guard = Not(a.t)
		}
		if guard == False {
			return Val{t: a.t, ty: ty}
		}
		if guard == True {
			return x.eval(st, f, e.Y)
		}
		rhs := st.clone()
		rhs.pc = And(st.pc, guard)
		if rhs.pc == False {
			return Val{t: a.t, ty: ty}
		}
		b := x.eval(rhs, f, e.Y)
		// side effects of the right operand
		other := st.clone()
		other.pc = And(st.pc, Not(guard))
		if changed(st, rhs) {
			if rhs.pc == False {
				*st = *other
				return Val{t: a.t, ty: ty}
			}
			m := x.merge(rhs, other)
			*st = *m
		}
		if e.Op == token.LAND {
			return Val{t: And(a.t, b.t), ty: ty}
		}
		return Val{t: Or(a.t, b.t), ty: ty}
	case token.EQL, token.NEQ:
		a := x.eval(st, f, e.X)
		b := x.eval(st, f, e.Y)
		r := x.eqVals(st, a, b, e.Pos())
		if e.Op == token.NEQ {
			r = Not(r)
		}
		return Val{t: r, ty: ty}
	}
	a := x.eval(st, f, e.X)
	b := x.eval(st, f, e.Y)
	if a.t == nil || b.t == nil {
		x.fail(e.Pos(), "operand without a term")
	}
	switch e.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.t.Sort == F64 || a.t.Sort == Str {
			p := "f"
			if a.t.Sort == Str {
				p = "s"
			}
			switch e.Op {
			case token.LSS:
				return Val{t: App(p+".lt", Bool, a.t, b.t), ty: ty}
			case token.GTR:
				return Val{t: App(p+".lt", Bool, b.t, a.t), ty: ty}
			case token.LEQ:
				return Val{t: App(p+".le", Bool, a.t, b.t), ty: ty}
			default:
				return Val{t: App(p+".le", Bool, b.t, a.t), ty: ty}
			}
		}
		switch e.Op {
		case token.LSS:
			return Val{t: Lt(a.t, b.t), ty: ty}
		case token.LEQ:
			return Val{t: Le(a.t, b.t), ty: ty}
		case token.GTR:
			return Val{t: Gt(a.t, b.t), ty: ty}
		default:
			return Val{t: Ge(a.t, b.t), ty: ty}
		}
	}
	return Val{t: x.arith(st, e.Op, a.t, b.t, ty, e.Pos()), ty: ty}
}

func changed(a, b *State) bool {
	if len(a.vars) != len(b.vars) || len(a.heap) != len(b.heap) {
		return true
	}
	for k, v := range a.vars {
		if b.vars[k] != v {
			return true
		}
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return true
		}
	}
	return false
}

func isNilVal(v Val) bool {
	b, ok := v.ty.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Exec) eqVals(st *State, a, b Val, pos token.Pos) *Term {
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		if a.addr != nil {
			return False
		}
		if a.t == nil {
			if a.fn != nil {
				return False
			}
			x.fail(pos, "nil comparison")
		}
		s := a.t.Sort
		switch {
		case s.Kind == SData && s.Class == "ptr":
			return Sel(a.t, 0)
		case s.Kind == SData && s.Class == "slice":
			return App("isnilslice_"+s.Name, Bool, a.t)
		case s.Kind == SData:
			return App("isnilmap_"+s.Name, Bool, a.t)
		}
		return Eq(a.t, zero(s))
	}
	if a.t == nil || b.t == nil {
		x.fail(pos, "comparison of values without terms")
	}
	if _, ok := isPtr(a.ty); ok && a.t.Sort != RefS && a.t.Sort.Kind == SData {
		x.fail(pos, "pointer comparison of owned values")
	}
	if a.t.Sort == AnyS && b.t.Sort != AnyS {
		b = x.coerce(st, b, a.ty)
	} else if b.t.Sort == AnyS && a.t.Sort != AnyS {
		a = x.coerce(st, a, b.ty)
	}
	if a.t.Sort == F64 {
		return App("f.eq", Bool, a.t, b.t)
	}
	return Eq(a.t, b.t)
}

// ---- conversions, boxing ----

var boxTypes = map[string]types.Type{}

func boxName(g types.Type) string {
	g = types.Unalias(g)
	return mangle(strings.ReplaceAll(types.TypeString(g, nil), modPath+"/", ""))
}

func tagLit(g types.Type) *Term {
	n := boxName(g)
	boxTypes[n] = g
	return intern(&Term{Op: "lit", Name: "tag_" + n, Sort: unint("Tag")})
}

func tagOf(t *Term) *Term {
	if t.Op == "app" && strings.HasPrefix(t.Name, "box_") {
		if g, ok := boxTypes[t.Name[4:]]; ok {
			return tagLit(g)
		}
	}
	return App("tagof", unint("Tag"), t)
}

func boxTerm(t *Term, g types.Type) *Term {
	if g == nil {
		panic("box of untyped term")
	}
	tagLit(g)
	return App("box_"+boxName(g), AnyS, t)
}

func unboxTerm(t *Term, g types.Type) *Term {
	if t.Op == "app" && t.Name == "box_"+boxName(g) {
		return t.Args[0]
	}
	return App("unbox_"+boxName(g), sortOf(g), t)
}

// coerce converts a value to a (possibly interface) type on assignment.
func (x *Exec) coerce(st *State, v Val, ty types.Type) Val {
	if ty == nil || v.multi != nil {
		return v
	}
	if isNilVal(v) {
		s := sortOf(ty)
		return Val{t: zero(s), ty: ty}
	}
	if v.fn != nil && v.t == nil {
		return v
	}
	if v.t == nil {
		return v
	}
	s := sortOf(ty)
	if sameSMT(s, v.t.Sort) || v.addr != nil {
		v.ty = ty
		return v
	}
	switch {
	case s == AnyS:
		in := v
		return Val{t: boxTerm(v.t, v.ty), ty: ty, inner: &in}
	case s == ErrS:
		return Val{t: x.freshApp("mkerr", ErrS), ty: ty}
	case s == RefS && v.t.Sort.Kind == SData:
		x.fail(token.NoPos, "conversion of %s to %s", v.ty, ty)
	case s.Kind == SUnint:
		return Val{t: App("conv_"+v.t.Sort.Name+"_"+s.Name, s, v.t), ty: ty}
	case s.Kind == SInt && v.t.Sort.Kind == SInt:
		v.ty = ty
		return v
	}
	x.fail(token.NoPos, "cannot convert %s (%s) to %s (%s)", v.ty, v.t.Sort.Name, ty, s.Name)
	return v
}

func (x *Exec) convert(st *State, v Val, ty types.Type, pos token.Pos) Val {
	if isNilVal(v) {
		return x.coerce(st, v, ty)
	}
	from, to := v.t.Sort, sortOf(ty)
	switch {
	case to.Kind == SInt && from.Kind == SInt:
		return Val{t: wrapTo(v.t, to), ty: ty}
	case to == F64 && from.Kind == SInt:
		return Val{t: App("i2f", F64, v.t), ty: ty}
	case to.Kind == SInt && from == F64:
		return Val{t: App("f2i_"+to.Name, to, v.t), ty: ty}
	case to == Str && from.Kind == SData && from.Class == "slice":
		return Val{t: App("strOf", Str, v.t), ty: ty}
	case from == Str && to.Kind == SData && to.Class == "slice":
		return Val{t: App("bytesOf", to, v.t), ty: ty, own: true}
	case to == B32 && from.Kind == SData && from.Class == "slice":
		x.assert(st, Eq(Sel(v.t, 0), NumI(32)), "index", "slice to array conversion length", pos, nil)
		return Val{t: App("b32of", B32, v.t), ty: ty}
	case to == Str && from.Kind == SInt:
		return Val{t: App("str.rune", Str, v.t), ty: ty}
	case sameSMT(from, to):
		v.ty = ty
		return v
	}
	return x.coerce(st, v, ty)
}

// implementers of an interface among loaded repository types that have contracts or bodies
func (x *Exec) implementers(it *types.Interface) []*types.Named {
	var out []*types.Named
	for _, path := range sortedKeys(x.p.Pkgs) {
		pk := x.p.Pkgs[path]
		if pk == nil {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || nm.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nm.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nm, it) {
				out = append(out, nm)
			}
		}
	}
	return out
}

func (x *Exec) typeAssert(st *State, v Val, ty types.Type, pos token.Pos) (Val, *Term) {
	if v.t.Sort != AnyS {
		// external interface values (crypto.PublicKey is `any`)
		return Val{t: App("assert_"+boxName(ty), sortOf(ty), v.t), ty: ty}, App("isT_"+boxName(ty), Bool, v.t)
	}
	if it, ok := ty.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return Val{t: v.t, ty: ty}, Not(Eq(v.t, zero(AnyS)))
		}
		ok := False
		for _, n := range x.implementers(it) {
			ok = Or(ok, Eq(tagOf(v.t), tagLit(n)))
		}
		return Val{t: v.t, ty: ty}, And(Not(Eq(v.t, zero(AnyS))), ok)
	}
	return Val{t: unboxTerm(v.t, ty), ty: ty}, Eq(tagOf(v.t), tagLit(ty))
}

func (x *Exec) readFieldNamed(st *State, n *types.Named, name string, ref *Term) *Term {
	sst := n.Underlying().(*types.Struct)
	for i := 0; i < sst.NumFields(); i++ {
		if sst.Field(i).Name() == name {
			return st.readField(n, name, x.fieldType(n, i), ref)
		}
	}
	panic("no field " + name)
}
