package main

// Calls: conversions, builtins, inlining, contracts, interface dispatch.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (x *Exec) evalCall(st *State, f *Frame, e *ast.CallExpr) Val {
	fun := ast.Unparen(e.Fun)
	if tv, ok := f.info.Types[fun]; ok && tv.IsType() {
		v := x.eval(st, f, e.Args[0])
		return x.convert(st, v, f.typ(fun), e.Pos())
	}
	base := fun
	switch ix := base.(type) {
	case *ast.IndexExpr:
		if _, ok := f.typ(ix.X).(*types.Signature); ok {
			base = ast.Unparen(ix.X)
		}
	case *ast.IndexListExpr:
		base = ast.Unparen(ix.X)
	}
	switch g := base.(type) {
	case *ast.Ident:
		switch o := f.info.ObjectOf(g).(type) {
		case *types.Builtin:
			return x.builtin(st, f, e, o.Name())
		case *types.Func:
			sig := f.typ(fun).(*types.Signature)
			args := x.evalArgs(st, f, e, sig)
			return x.callFunc(st, f, o, x.instEnv(o, f, base), nil, args, e.Pos())
		}
	case *ast.SelectorExpr:
		if id, ok := g.X.(*ast.Ident); ok {
			if _, ok := f.info.ObjectOf(id).(*types.PkgName); ok {
				if o, ok := f.info.ObjectOf(g.Sel).(*types.Func); ok {
					if v, done := x.specialFunc(st, f, e, o); done {
						return v
					}
					sig := f.typ(fun).(*types.Signature)
					args := x.evalArgs(st, f, e, sig)
					return x.callFunc(st, f, o, x.instEnv(o, f, base), nil, args, e.Pos())
				}
			}
		}
		if sel := f.info.Selections[g]; sel != nil && sel.Kind() == types.MethodVal {
			return x.methodCall(st, f, e, g, sel)
		}
	case *ast.FuncLit:
		fv := &FuncVal{lit: g, fr: f, sig: f.typ(g).(*types.Signature)}
		args := x.evalArgs(st, f, e, fv.sig)
		return x.callClosure(st, f, fv, args, e.Pos())
	}
	v := x.eval(st, f, fun)
	if v.fn == nil {
		x.fail(e.Pos(), "call of an unknown function value")
	}
	args := x.evalArgs(st, f, e, f.typ(fun).Underlying().(*types.Signature))
	return x.callValue(st, f, v.fn, args, e.Pos())
}

func (x *Exec) callValue(st *State, f *Frame, fn *FuncVal, args []Val, pos token.Pos) Val {
	switch {
	case fn.lit != nil:
		return x.callClosure(st, f, fn, args, pos)
	case fn.fi != nil:
		return x.callFunc(st, f, fn.fi.Obj, fn.tenv, fn.recv, args, pos)
	case fn.uf != "":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.t)
		}
		res := fn.sig.Results()
		if res.Len() == 1 {
			return Val{t: App("fnapp_"+fn.uf, sortOf(res.At(0).Type()), ts...), ty: res.At(0).Type()}
		}
		var out Val
		for i := 0; i < res.Len(); i++ {
			out.multi = append(out.multi, Val{t: App(fmt.Sprintf("fnapp_%s_%d", fn.uf, i), sortOf(res.At(i).Type()), ts...), ty: res.At(i).Type()})
		}
		return out
	}
	x.fail(pos, "call of an external function value")
	return Val{}
}

// evalArgs evaluates the arguments of a call, packaging variadic ones.
func (x *Exec) evalArgs(st *State, f *Frame, e *ast.CallExpr, sig *types.Signature) []Val {
	ps := sig.Params()
	n := ps.Len()
	var vals []Val
	if len(e.Args) == 1 && n > 1 {
		if c, ok := ast.Unparen(e.Args[0]).(*ast.CallExpr); ok {
			v := x.eval(st, f, c)
			vals = v.multi
		}
	}
	if vals == nil {
		for _, a := range e.Args {
			vals = append(vals, x.eval(st, f, a))
			if isSlice(f.typ(a)) && len(vals) > 0 {
				// the callee may keep the slice: handled by consumes
			}
		}
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		st_ := ps.At(n - 1).Type()
		el := st_.(*types.Slice).Elem()
		ss := sortOf(st_)
		extra := vals[n-1:]
		arr := ConstArr(ss.Fields[1].Sort, zero(ss.El))
		for i, v := range extra {
			if v.fn != nil && v.t == nil {
				continue
			}
			c := x.coerce(st, v, el)
			arr = Store(arr, NumI(int64(i)), c.t)
		}
		vals = append(append([]Val{}, vals[:n-1]...), Val{t: Mk(ss, NumI(int64(len(extra))), arr), ty: st_, own: true})
	}
	for i := range vals {
		if i < n {
			vals[i] = x.coerce(st, vals[i], ps.At(i).Type())
		}
	}
	return vals
}

func recvEnv(o *types.Func, recvT types.Type) tenv {
	t := types.Unalias(recvT)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.TypeArgs() == nil {
		return nil
	}
	rp := o.Origin().Type().(*types.Signature).RecvTypeParams()
	if rp == nil {
		return nil
	}
	env := tenv{}
	for i := 0; i < rp.Len(); i++ {
		env[rp.At(i)] = n.TypeArgs().At(i)
	}
	return env
}

func (x *Exec) methodCall(st *State, f *Frame, e *ast.CallExpr, g *ast.SelectorExpr, sel *types.Selection) Val {
	o := sel.Obj().(*types.Func)
	// receiver
	var rv Val
	rt := f.typ(g.X)
	_, isp := isPtr(rt)
	msig := o.Type().(*types.Signature)
	wantPtr := false
	if msig.Recv() != nil {
		_, wantPtr = isPtr(msig.Recv().Type())
	}
	if ix, ok := ast.Unparen(g.X).(*ast.IndexExpr); isp || ok && !wantPtr && ix != nil {
		rv = x.eval(st, f, g.X)
	} else {
		rv = x.evalPlaceVal(st, f, g.X)
	}
	idx := sel.Index()
	if isp && len(idx) > 1 && o.Pkg() != nil && !strings.HasPrefix(o.Pkg().Path(), modPath) {
		idx = idx[len(idx)-1:] // promoted method of an external type: its contract speaks about the outer object
	}
	for _, i := range idx[:len(idx)-1] {
		rv = x.fieldVal(st, rv, i, e.Pos())
	}
	if rv.fn == nil && rv.t == nil && rv.addr == nil {
		x.fail(e.Pos(), "method call on a value without a term")
	}
	sig := f.typ(g).(*types.Signature)
	if it, ok := rv.ty.Underlying().(*types.Interface); ok {
		return x.ifaceCall(st, f, e, rv, it, o, sig)
	}
	_, curPtr := isPtr(rv.ty)
	if wantPtr && !curPtr {
		if rv.pl == nil {
			x.fail(e.Pos(), "address of a temporary receiver")
		}
		pt := types.NewPointer(rv.ty)
		rv = Val{addr: rv.pl, ty: pt, t: x.addrVal(st, rv.pl, pt)}
	} else if !wantPtr && curPtr {
		rv = x.derefVal(st, rv, e.Pos())
	}
	args := x.evalArgs(st, f, e, sig)
	return x.callFunc(st, f, o, recvEnv(o, rv.ty), &rv, args, e.Pos())
}

func (x *Exec) ifaceCall(st *State, f *Frame, e *ast.CallExpr, rv Val, it *types.Interface, o *types.Func, sig *types.Signature) Val {
	n, _ := types.Unalias(rv.ty).(*types.Named)
	if n != nil {
		key := typeKey(n)
		if tcfg.Model[key] == "map" {
			return x.modelMap(st, f, e, rv, n, o.Name(), sig)
		}
		if d, ok := tcfg.Dispatch[key]; ok {
			cn := theDB.lookupType(d)
			obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(cn), true, cn.Obj().Pkg(), o.Name())
			m, ok := obj.(*types.Func)
			if !ok {
				x.fail(e.Pos(), "no method %s on %s", o.Name(), d)
			}
			rv.ty = types.NewPointer(cn)
			args := x.evalArgs(st, f, e, sig)
			return x.callFunc(st, f, m, nil, &rv, args, e.Pos())
		}
	}
	if rv.t.Sort == ErrS && o.Name() == "Error" {
		x.assert(st, Not(Eq(rv.t, ErrNil)), "nil", "error value is not nil", e.Pos(), nil)
		return Val{t: App("err.str", Str, rv.t), ty: types.Typ[types.String]}
	}
	if rv.t.Sort == AnyS {
		args := x.evalArgs(st, f, e, sig)
		if rv.inner != nil && rv.inner.t != nil {
			return x.boxedCall(st, f, *rv.inner, o.Name(), args, e.Pos())
		}
		x.assert(st, Not(Eq(rv.t, zero(AnyS))), "nil", "interface value is not nil", e.Pos(), nil)
		var res []*State
		rk := make([]VKey, sig.Results().Len())
		x.nframe++
		fid := x.nframe
		for i := range rk {
			rk[i] = VKey{frame: fid, name: fmt.Sprintf("$i%d", i)}
		}
		rest := st.clone()
		for _, im := range x.implementers(it) {
			c := Eq(tagOf(rv.t), tagLit(im))
			th := rest.clone()
			th.pc = And(rest.pc, c)
			rest.pc = And(rest.pc, Not(c))
			if th.pc == False {
				continue
			}
			r := x.boxedCall(th, f, Val{t: unboxTerm(rv.t, im), ty: im}, o.Name(), args, e.Pos())
			if th.pc == False {
				continue
			}
			rs := r.multi
			if rs == nil && len(rk) == 1 {
				rs = []Val{r}
			}
			for i := range rk {
				th.vars[rk[i]] = x.bind(th, sig.Results().At(i).Type(), rs[i])
			}
			res = append(res, th)
		}
		x.assume(rest, False) // closed world: every dynamic type is a repository type
		m := x.mergeAll(res)
		return x.takeResults(st, m, rk, sig.Results(), fid)
	}
	// external interface: contract by interface method key
	args := x.evalArgs(st, f, e, sig)
	return x.callFunc(st, f, o, nil, &rv, args, e.Pos())
}

func (x *Exec) boxedCall(st *State, f *Frame, in Val, name string, args []Val, pos token.Pos) Val {
	n, ok := types.Unalias(in.ty).(*types.Named)
	if !ok {
		x.fail(pos, "method %s of %s", name, in.ty)
	}
	obj, _, _ := types.LookupFieldOrMethod(in.ty, true, n.Obj().Pkg(), name)
	m, ok := obj.(*types.Func)
	if !ok {
		x.fail(pos, "no method %s on %s", name, in.ty)
	}
	return x.callFunc(st, f, m, recvEnv(m, in.ty), &in, args, pos)
}

// takeResults reads result variables from the merged state m into st.
func (x *Exec) takeResults(st *State, m *State, rk []VKey, res *types.Tuple, fid int) Val {
	if m == nil || m.pc == False {
		st.pc = False
		var out Val
		for i := 0; i < res.Len(); i++ {
			ty := res.At(i).Type()
			out.multi = append(out.multi, Val{t: zero(sortOf(ty)), ty: ty})
		}
		if len(out.multi) == 1 {
			return out.multi[0]
		}
		return out
	}
	var vals []Val
	for i, k := range rk {
		c := m.vars[k]
		vals = append(vals, x.cellRead(m, c, res.At(i).Type(), token.NoPos))
	}
	for k := range m.vars {
		if k.frame == fid {
			delete(m.vars, k)
		}
	}
	*st = *m
	if len(vals) == 1 {
		return vals[0]
	}
	return Val{multi: vals}
}

// callFunc calls a known function with evaluated arguments.
func (x *Exec) callFunc(st *State, f *Frame, o *types.Func, env tenv, recv *Val, args []Val, pos token.Pos) Val {
	key := funcKey(o)
	con := x.db.con[key]
	fi := x.p.Funcs[o.Origin()]
	if con != nil && !con.Inline {
		return x.applyContract(st, f, con, o, env, recv, args, pos)
	}
	if fi == nil {
		x.fail(pos, "call of %s, which has neither body nor contract", key)
	}
	return x.inlineCall(st, f, fi, env, recv, args, pos)
}

func (x *Exec) inlineCall(st *State, f *Frame, fi *FuncInfo, env tenv, recv *Val, args []Val, pos token.Pos) Val {
	x.inlined[fi.Key] = true
	nf := x.newFrame(fi, env, nil)
	nf.depth = f.depth + 1
	nf.at = f.at + " " + x.posStr(pos)
	if nf.depth > 24 {
		x.fail(pos, "inlining too deep at %s", fi.Key)
	}
	sig := nf.sig
	if recv != nil && sig.Recv() != nil {
		x.declare(st, nf, x.paramObj(fi, -1), *recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		v := args[i]
		x.declareParam(st, nf, x.paramObj(fi, i), v)
	}
	x.frameResults(st, nf, sig)
	return x.runBody(st, nf, fi.Decl.Body)
}

// declareParam binds an argument; slices passed by value are shared.
func (x *Exec) declareParam(st *State, f *Frame, v *types.Var, val Val) {
	if v == nil {
		return
	}
	x.declare(st, f, v, val)
}

// paramObj is the declared object of a parameter (-1: receiver).
func (x *Exec) paramObj(fi *FuncInfo, i int) *types.Var {
	sig := fi.Obj.Type().(*types.Signature)
	var v *types.Var
	if i < 0 {
		v = sig.Recv()
	} else {
		v = sig.Params().At(i)
	}
	if v.Name() == "_" || v.Name() == "" {
		return nil
	}
	return v
}

func (x *Exec) frameResults(st *State, f *Frame, sig *types.Signature) {
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		ty := substType(r.Type(), f.tenv)
		f.resTy = append(f.resTy, ty)
		if r.Name() != "" {
			k := VKey{frame: f.id, obj: r}
			if r.Name() == "_" {
				k = VKey{frame: f.id, name: fmt.Sprintf("_%d", i)}
			}
			f.results = append(f.results, k)
			st.vars[k] = &Cell{t: zero(sortOf(ty)), ty: ty, own: true}
		}
	}
}

func (x *Exec) runBody(st *State, nf *Frame, body *ast.BlockStmt) Val {
	end := x.block(st, nf, body.List)
	if alive(end) != nil {
		if len(nf.resTy) > 0 && len(nf.results) == 0 {
			end.pc = False
		} else {
			var vals []Val
			for i, k := range nf.results {
				vals = append(vals, x.cellRead(end, end.vars[k], nf.resTy[i], body.End()))
			}
			x.finish(end, nf, vals, body.Rbrace)
		}
	}
	rk := make([]VKey, len(nf.resTy))
	for i := range rk {
		rk[i] = VKey{frame: nf.id, name: fmt.Sprintf("$r%d", i)}
	}
	var sts []*State
	for _, r := range nf.rets {
		for i := range rk {
			v := r.vals[i]
			r.st.vars[rk[i]] = x.bind(r.st, nf.resTy[i], v)
			if !isRefLike(nf.resTy[i]) {
				r.st.vars[rk[i]].own = v.own
			}
		}
		sts = append(sts, r.st)
	}
	m := x.mergeAll(sts)
	var vs []*types.Var
	for _, t := range nf.resTy {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t))
	}
	return x.takeResults(st, m, rk, types.NewTuple(vs...), nf.id)
}

// settle detaches returned values from the frame that is about to disappear.
func (x *Exec) settle(st *State, f *Frame, v Val) Val {
	if v.addr != nil && v.addr.root.local && v.addr.root.v.frame == f.id {
		return Val{t: x.addrVal(st, v.addr, v.ty), ty: v.ty, own: true}
	}
	if v.pl != nil && v.pl.root.local && v.pl.root.v.frame == f.id {
		own := v.own || isRefLike(v.ty)
		if c := st.vars[v.pl.root.v]; c != nil && len(v.pl.path) == 0 && !isRefLike(v.ty) {
			own = c.own
		}
		return Val{t: v.t, ty: v.ty, own: own, fn: v.fn, inner: v.inner}
	}
	return v
}

func (x *Exec) callClosure(st *State, f *Frame, fn *FuncVal, args []Val, pos token.Pos) Val {
	def := fn.fr
	x.nframe++
	nf := &Frame{id: x.nframe, fi: def.fi, info: def.info, pkg: def.pkg, sig: fn.sig, tenv: def.tenv, parent: def, key: def.key, depth: f.depth + 1}
	if nf.depth > 24 {
		x.fail(pos, "closure nesting too deep")
	}
	i := 0
	for _, fl := range fn.lit.Type.Params.List {
		for _, nm := range fl.Names {
			v, _ := nf.info.Defs[nm].(*types.Var)
			if v != nil && nm.Name != "_" {
				x.declareParam(st, nf, v, args[i])
			}
			i++
		}
		if len(fl.Names) == 0 {
			i++
		}
	}
	// results: named results have their own objects
	if fn.lit.Type.Results != nil {
		for _, fl := range fn.lit.Type.Results.List {
			ty := nf.typ(fl.Type)
			if len(fl.Names) == 0 {
				nf.resTy = append(nf.resTy, ty)
			}
			for _, nm := range fl.Names {
				nf.resTy = append(nf.resTy, ty)
				v, _ := nf.info.Defs[nm].(*types.Var)
				k := VKey{frame: nf.id, obj: v}
				nf.results = append(nf.results, k)
				st.vars[k] = &Cell{t: zero(sortOf(ty)), ty: ty, own: true}
			}
		}
	}
	return x.runBody(st, nf, fn.lit.Body)
}

// applyPure evaluates a function value inside a specification.
func (x *Exec) applyPure(st *State, fn *FuncVal, args []*Term) *Term {
	if fn.uf != "" {
		return App("fnapp_"+fn.uf, sortOf(fn.sig.Results().At(0).Type()), args...)
	}
	lam := map[*Term]bool{}
	for _, a := range args {
		collectFree(a, lam)
	}
	var bv []*Term
	for _, a := range args {
		if lam[a] {
			bv = append(bv, a)
			delete(lam, a)
		}
	}
	if len(lam) > 0 {
		x.fail(token.NoPos, "closure applied to a compound bound term")
	}
	s2 := st.clone()
	if fn.when != nil {
		s2.pc = And(s2.pc, fn.when(args))
	}
	nf := len(x.facts)
	saveFacts := x.facts
	saveLam := x.lam
	x.lam = append(append([]*Term{}, x.lam...), bv...)
	x.sand++
	var vs []Val
	for i, a := range args {
		vs = append(vs, Val{t: a, ty: fn.sig.Params().At(i).Type()})
	}
	fr := fn.fr
	if fr == nil {
		fr = &Frame{}
	}
	r := x.callValue(s2, fr, fn, vs, token.NoPos)
	x.sand--
	x.lam = saveLam
	added := append([]*Term{}, x.facts[nf:]...)
	x.facts = saveFacts
	for _, a := range added {
		if len(bv) > 0 {
			a = Forall(bv, a)
		}
		if !a.fb {
			x.facts = append(x.facts, a)
		}
	}
	return r.t
}

// ---- model maps ----

func (x *Exec) modelMap(st *State, f *Frame, e *ast.CallExpr, rv Val, n *types.Named, name string, sig *types.Signature) Val {
	args := x.evalArgs(st, f, e, sig)
	k := args[0].t
	vt := n.TypeArgs().At(1)
	ps := ""
	if rv.pl != nil && !rv.pl.root.local {
		ps = x.db.proph[rv.pl.root.cell]
	}
	if ps == "" {
		x.fail(e.Pos(), "model map without a declared content function")
	}
	val := App(ps, sortOf(vt), k)
	switch name {
	case "Has":
		return Val{t: Select(rv.t, k), ty: types.Typ[types.Bool]}
	case "Get":
		x.assert(st, Select(rv.t, k), "panic", "stored record exists", e.Pos(), nil)
		return Val{t: val, ty: vt}
	case "Store":
		x.assert(st, Not(Select(rv.t, k)), "write-once", "record is stored only under a new key", e.Pos(), nil)
		x.set(st, rv.pl, Store(rv.t, k, True), true)
		x.assume(st, Eq(val, args[1].t))
		return Val{}
	}
	x.fail(e.Pos(), "model map method %s", name)
	return Val{}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, f *Frame, e *ast.CallExpr, name string) Val {
	ty := f.typ(e)
	switch name {
	case "len", "cap":
		v := x.eval(st, f, e.Args[0])
		at := f.typ(e.Args[0])
		if p, ok := isPtr(at); ok {
			v = x.derefVal(st, v, e.Pos())
			at = p.Elem()
		}
		switch {
		case v.t.Sort == B32:
			return Val{t: NumI(32), ty: ty}
		case v.t.Sort == Str:
			return Val{t: strLen(v.t), ty: ty}
		case isMap(v.t):
			return Val{t: cardApp(Sel(v.t, 0)), ty: ty}
		case v.t.Sort.Kind == SData && v.t.Sort.Class == "slice" && name == "len":
			return Val{t: Sel(v.t, 0), ty: ty}
		}
		x.fail(e.Pos(), "%s of %s", name, at)
	case "append":
		s := x.eval(st, f, e.Args[0])
		s = x.coerce(st, s, ty)
		own := s.own || zeroLen(s.t)
		if s.pl != nil && s.pl.root.local && len(s.pl.path) == 0 {
			if c := st.vars[s.pl.root.v]; c != nil {
				own = own || c.own
			}
		} else if s.pl != nil && x.nestedOwn(st, s.pl) {
			own = true
		}
		el := ty.Underlying().(*types.Slice).Elem()
		var r *Term
		if e.Ellipsis.IsValid() {
			o := x.eval(st, f, e.Args[1])
			ot := o.t
			if ot.Sort == Str {
				ot = App("bytesOf", s.t.Sort, ot)
			}
			o2 := x.coerce(st, Val{t: ot, ty: o.ty}, ty)
			r = catSlice(s.t, o2.t)
		} else {
			n, a := Sel(s.t, 0), Sel(s.t, 1)
			for i, ax := range e.Args[1:] {
				v := x.coerce(st, x.evalElem(st, f, ax, el), el)
				x.checkStore(st, v, ax.Pos())
				x.disown(st, f, ax)
				if isRefLike(el) && v.pl != nil {
					x.loseIdentity(st, v.pl)
				}
				a = Store(a, Add(n, NumI(int64(i))), v.t)
			}
			r = Mk(s.t.Sort, Add(n, NumI(int64(len(e.Args)-1))), a)
		}
		if !own {
			// appending may write into the backing array shared with the caller
			x.assert(st, Eq(Sel(r, 0), Sel(s.t, 0)), "ownership", "append to a slice that may be shared", e.Pos(), nil)
		}
		return Val{t: r, ty: ty, own: own}
	case "copy":
		dst := ast.Unparen(e.Args[0])
		srcV := x.eval(st, f, e.Args[1])
		d := x.eval(st, f, dst)
		if d.addr != nil && d.t.Op == "app" && d.t.Name == "b32bytes" {
			src := srcV.t
			x.assert(st, Ge(Sel(src, 0), NumI(32)), "bounded", "array is filled completely", e.Pos(), nil)
			x.set(st, d.addr, App("b32of", B32, src), false)
			return Val{t: NumI(32), ty: ty}
		}
		var pl *Place
		lo := NumI(0)
		if se, ok := dst.(*ast.SliceExpr); ok {
			b := x.evalPlaceVal(st, f, se.X)
			pl = b.pl
			if se.High != nil {
				x.fail(e.Pos(), "copy into a bounded slice")
			}
			if se.Low != nil {
				lo = x.eval(st, f, se.Low).t
			}
		} else {
			pl = d.pl
		}
		if pl == nil {
			x.fail(e.Pos(), "copy into a temporary")
		}
		own := d.own
		if pl.root.local && len(pl.path) == 0 {
			if c := st.vars[pl.root.v]; c != nil {
				own = c.own
			}
		}
		if !own {
			x.assert(st, False, "ownership", "copy into a slice that may be shared", e.Pos(), nil)
		}
		full := x.get(st, pl)
		src := srcV.t
		if src.Sort == Str {
			src = App("bytesOf", full.Sort, src)
		}
		if lo == NumI(0) && Eq(Sel(src, 0), Sel(full, 0)) == True {
			x.set(st, pl, src, true)
			return Val{t: Sel(src, 0), ty: ty}
		}
		n := Ite(Le(Sel(src, 0), Sub(Sel(full, 0), lo)), Sel(src, 0), Sub(Sel(full, 0), lo))
		x.set(st, pl, App("splice_"+full.Sort.Name, full.Sort, full, lo, src, n), true)
		return Val{t: n, ty: ty}
	case "make":
		switch u := ty.Underlying().(type) {
		case *types.Map:
			for _, a := range e.Args[1:] {
				x.eval(st, f, a)
			}
			return Val{t: zero(sortOf(ty)), ty: ty, own: true}
		case *types.Slice:
			n := x.eval(st, f, e.Args[1])
			lim := Num(pow2(46))
			_ = u
			x.assert(st, Le(NumI(0), n.t), "alloc", "allocation length is not negative", e.Pos(), nil)
			if iv := ival(n.t); iv.hi == nil || iv.hi.Cmp(pow2(46)) >= 0 {
				x.assert(st, Lt(n.t, lim), "alloc", "allocation length is bounded", e.Pos(), nil)
			}
			if len(e.Args) > 2 {
				c := x.eval(st, f, e.Args[2])
				x.assert(st, Le(n.t, c.t), "alloc", "length within capacity", e.Pos(), nil)
			}
			s := sortOf(ty)
			return Val{t: Mk(s, n.t, ConstArr(s.Fields[1].Sort, zero(s.El))), ty: ty, own: true}
		}
		if sortOf(ty).Kind == SUnint {
			return Val{t: x.fresh("chan", sortOf(ty)), ty: ty, own: true}
		}
		x.fail(e.Pos(), "make of %s", ty)
	case "new":
		p, _ := isPtr(ty)
		s := sortOf(ty)
		if s.Kind == SData && s.Class == "ptr" {
			return Val{t: Mk(s, False, zero(sortOf(p.Elem()))), ty: ty, own: true}
		}
		x.fail(e.Pos(), "new of %s", ty)
	case "delete":
		mt := f.typ(e.Args[0]).Underlying().(*types.Map)
		m := x.evalPlaceVal(st, f, e.Args[0])
		k := x.coerce(st, x.eval(st, f, e.Args[1]), mt.Key())
		if m.pl == nil {
			x.fail(e.Pos(), "delete from a temporary map")
		}
		x.overwritten(st, m.pl.with(Step{kind: sKey, k: k.t}))
		x.logElem(m.pl, k.t, nil, false)
		x.set(st, m.pl, mapDel(x.get(st, m.pl), k.t), true)
		return Val{}
	case "panic":
		v := x.eval(st, f, e.Args[0])
		msg := "panic is unreachable"
		if v.inner != nil && v.inner.t != nil {
			if s, ok := strVals[v.inner.t]; ok {
				msg += ": " + s
			}
		}
		x.assert(st, False, "panic", msg, e.Pos(), nil)
		st.pc = False
		return Val{}
	case "recover":
		return Val{t: zero(AnyS), ty: ty}
	case "close":
		x.eval(st, f, e.Args[0])
		return Val{}
	case "min", "max":
		a := x.eval(st, f, e.Args[0])
		for _, ax := range e.Args[1:] {
			b := x.eval(st, f, ax)
			if name == "min" {
				a = Val{t: Ite(Le(a.t, b.t), a.t, b.t), ty: ty}
			} else {
				a = Val{t: Ite(Le(b.t, a.t), a.t, b.t), ty: ty}
			}
		}
		return a
	}
	x.fail(e.Pos(), "builtin %s", name)
	return Val{}
}

func zeroLen(s *Term) bool { n := Sel(s, 0); return n.Op == "num" && n.Num.Sign() == 0 }

func catSlice(a, b *Term) *Term {
	if b.Op == "ite" {
		return Ite(b.Args[0], catSlice(a, b.Args[1]), catSlice(a, b.Args[2]))
	}
	if zeroLen(b) {
		return a
	}
	if zeroLen(a) {
		return b
	}
	if n := Sel(b, 0); n.Op == "num" && n.Num.BitLen() <= 4 {
		l, arr := Sel(a, 0), Sel(a, 1)
		for i := int64(0); i < n.Num.Int64(); i++ {
			arr = Store(arr, Add(l, NumI(i)), Select(Sel(b, 1), NumI(i)))
		}
		return Mk(a.Sort, Add(l, n), arr)
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], catSlice(a.Args[1], b), catSlice(a.Args[2], b))
	}
	return App("cat_"+a.Sort.Name, a.Sort, a, b)
}

// materialise gives a temporary map value a place (the write is then invisible).
func (x *Exec) materialise(st *State, f *Frame, e ast.Expr, v Val) Val {
	x.fail(e.Pos(), "write to a temporary map")
	return v
}

// ---- special functions ----

func (x *Exec) specialFunc(st *State, f *Frame, e *ast.CallExpr, o *types.Func) (Val, bool) {
	key := funcKey(o)
	switch key {
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		x.evalLoose(st, f, e.Args)
		return Val{multi: []Val{{t: x.fresh("pn", I64), ty: types.Typ[types.Int]}, {t: x.freshApp("mkioerr", ErrS), ty: nil}}}, true
	case "fmt.Errorf", "errors.New":
		x.evalLoose(st, f, e.Args)
		return Val{t: x.freshApp("mkerr", ErrS), ty: f.typ(e)}, true
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		if _, ok := x.db.con[key]; ok {
			return Val{}, false
		}
		vs := x.evalLoose(st, f, e.Args)
		var ts []*Term
		nm := "fmt." + o.Name()
		for _, v := range vs {
			if v.t == nil {
				ts = nil
				break
			}
			ts = append(ts, v.t)
			nm += "_" + v.t.Sort.Name
		}
		if ts == nil {
			return Val{t: x.fresh("str", Str), ty: f.typ(e)}, true
		}
		return Val{t: App(mangle(nm), Str, ts...), ty: f.typ(e)}, true
	case "sort.Slice":
		x.sortSlice(st, f, e)
		return Val{}, true
	}
	return Val{}, false
}

// evalLoose evaluates arguments for their effects; values that cannot be expressed are dropped.
func (x *Exec) evalLoose(st *State, f *Frame, es []ast.Expr) []Val {
	var out []Val
	for _, a := range es {
		v := x.eval(st, f, a)
		out = append(out, v)
	}
	return out
}

// sortSlice models sort.Slice: the result is a permutation of the input, sorted by less.
func (x *Exec) sortSlice(st *State, f *Frame, e *ast.CallExpr) {
	s := x.evalPlaceVal(st, f, e.Args[0])
	lv := x.eval(st, f, e.Args[1])
	if s.pl == nil || lv.fn == nil {
		x.fail(e.Pos(), "sort.Slice arguments")
	}
	old := s.t
	es := old.Sort.El
	// natural ascending order on integers?
	i, j := x.fresh("si", MInt), x.fresh("sj", MInt)
	n := Sel(old, 0)
	in := func(t *Term) *Term { return And(Le(NumI(0), t), Lt(t, n)) }
	test := st.clone()
	test.pc = And(test.pc, in(i), in(j))
	nf := len(x.facts)
	r := x.callValue(test, f, lv.fn, []Val{{t: i, ty: types.Typ[types.Int]}, {t: j, ty: types.Typ[types.Int]}}, e.Pos())
	_ = nf
	asc := r.t == Lt(Select(Sel(old, 1), i), Select(Sel(old, 1), j))
	if asc && es.Kind == SInt {
		x.set(st, s.pl, App("sortasc_"+old.Sort.Name, old.Sort, old), true)
		return
	}
	nw := x.freshVal("sorted", old.Sort)
	x.assume(st, Eq(Sel(nw, 0), n))
	// permutation witnessed by an index bijection
	x.cnt["perm"]++
	pn := fmt.Sprintf("perm!%d", x.cnt["perm"])
	p := func(t *Term) *Term { return App(pn, MInt, t) }
	q := func(t *Term) *Term { return App(pn+"inv", MInt, t) }
	b := BVarN("pi!"+pn, MInt)
	x.assume(st, Forall([]*Term{b}, Implies(in(b), And(in(p(b)), Eq(q(p(b)), b), Eq(Select(Sel(nw, 1), b), Select(Sel(old, 1), p(b))))), []*Term{p(b)}, []*Term{Select(Sel(nw, 1), b)}))
	x.assume(st, Forall([]*Term{b}, Implies(in(b), And(in(q(b)), Eq(p(q(b)), b), Eq(Select(Sel(nw, 1), q(b)), Select(Sel(old, 1), b)))), []*Term{q(b)}, []*Term{Select(Sel(old, 1), b)}))
	x.set(st, s.pl, nw, true)
	// sorted: not less(j, i) for i < j, with less evaluated on the sorted slice
	bi, bj := BVarN("pa!"+pn, MInt), BVarN("pb!"+pn, MInt)
	lv.fn.when = func(a []*Term) *Term { return And(in(a[0]), in(a[1])) }
	lt := x.applyPure(st, lv.fn, []*Term{bj, bi})
	x.assume(st, Forall([]*Term{bi, bj}, Implies(And(in(bi), in(bj), Lt(bi, bj)), Not(lt)), []*Term{Select(Sel(nw, 1), bi), Select(Sel(nw, 1), bj)}))
}

// canonOf gives, for the array of an unknown slice or map, the value it belongs to.
var canonOf = map[*Term]*Term{}

// freshVal is an unknown value whose datatype structure is expanded.
func (x *Exec) freshVal(base string, s *Sort) *Term {
	if s.Kind == SData && s != UnitS {
		args := make([]*Term, len(s.Fields))
		for i, fd := range s.Fields {
			args[i] = x.freshVal(base+"."+fd.Name, fd.Sort)
		}
		t := Mk(s, args...)
		if len(args) == 2 && (s.Class == "map" || s.Class == "slice") && args[1].Op == "var" {
			canonOf[args[1]] = t
		}
		return t
	}
	return x.fresh(base, s)
}

// ---- contracts ----

func (x *Exec) bindTParams(o *types.Func, env tenv) func() {
	save := x.db.tparams
	m := map[string]SType{}
	for k, v := range save {
		m[k] = v
	}
	for tp, ty := range env {
		m[tp.Obj().Name()] = SType{sortOf(ty), ty}
	}
	sig := o.Origin().Type().(*types.Signature)
	// contracts use the names of the type's declaration
	if rp := sig.RecvTypeParams(); rp != nil {
		for i := 0; i < rp.Len(); i++ {
			if ty, ok := env[rp.At(i)]; ok {
				m[rp.At(i).Obj().Name()] = SType{sortOf(ty), ty}
			}
		}
	}
	x.db.tparams = m
	return func() { x.db.tparams = save }
}

func svalOf(v Val) SVal { return SVal{t: v.t, g: v.ty, fn: v.fn} }

func (x *Exec) globalsIfDirty(st *State, pos token.Pos) {
	if x.noGlobals || len(x.db.sf.Globals) == 0 {
		return
	}
	dirty := false
	for _, c := range x.globalCells() {
		var a, b *Term
		if t, ok := st.heap[c]; ok {
			a = t
		}
		if t, ok := x.invState[c]; ok {
			b = t
		}
		if a != b {
			dirty = true
		}
	}
	if !dirty {
		return
	}
	for i, g := range x.db.sf.Globals {
		en := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: x.db.sf.GlobalPkg[i]}
		if !x.db.pkgLoaded(en.pkg) {
			continue
		}
		x.assert(st, en.boolT(g.E), "global", "global invariant: "+g.Label, pos, g.Props)
	}
	x.noteInv(st)
}

func (x *Exec) globalCells() []string {
	var out []string
	for _, n := range theDB.single {
		sst := n.Underlying().(*types.Struct)
		for i := 0; i < sst.NumFields(); i++ {
			out = append(out, heapCell(n, sst.Field(i).Name()))
		}
	}
	for g := range theDB.ghosts {
		if theDB.ghostInv[g] {
			out = append(out, g)
		}
	}
	return out
}

func (x *Exec) noteInv(st *State) {
	x.invState = map[string]*Term{}
	for _, c := range x.globalCells() {
		if t, ok := st.heap[c]; ok {
			x.invState[c] = t
		}
	}
}

func (x *Exec) assumeGlobals(st *State) {
	for i, g := range x.db.sf.Globals {
		en := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: x.db.sf.GlobalPkg[i]}
		if !x.db.pkgLoaded(en.pkg) {
			continue
		}
		for _, c := range conjuncts(en.boolT(g.E)) {
			x.assume(st, c)
		}
	}
	x.noteInv(st)
}

// specPlaces resolves a modifies expression to places.
func (x *Exec) specPlaces(st *State, en *Env, vals map[string]Val, e *SE) []*Place {
	switch e.Op {
	case "id":
		if strings.HasPrefix(e.S, "$") {
			g, ok := x.db.ghosts[e.S]
			if !ok {
				sfail(e, "unknown ghost %s", e.S)
			}
			return []*Place{{root: Root{cell: e.S, sort: g.S}}}
		}
		if v, ok := vals[e.S]; ok {
			if v.t != nil && v.t.Sort == RefS && v.addr == nil {
				n := concreteNamed(v.ty)
				return x.allFields(n, v.t)
			}
			if v.addr != nil {
				return []*Place{v.addr}
			}
			if v.pl == nil {
				return nil
			}
			if _, isp := isPtr(v.ty); isp {
				return []*Place{v.pl.with(Step{kind: sDeref})}
			}
			return []*Place{v.pl}
		}
		if n, ok := x.db.single[e.S]; ok {
			return x.allFields(n, nil)
		}
	case "sel":
		b := e.Args[0]
		if b.Op == "id" {
			if n, ok := x.db.single[b.S]; ok {
				_, ft, _, ok := fieldOf(n, e.S)
				if !ok {
					sfail(e, "no field %s", e.S)
				}
				return []*Place{{root: Root{cell: heapCell(n, e.S), sort: sortOf(ft)}}}
			}
		}
		bv := en.eval(b)
		if bv.t != nil && bv.t.Sort == RefS {
			n := concreteNamed(bv.g)
			_, ft, _, ok := fieldOf(n, e.S)
			if !ok {
				sfail(e, "no field %s", e.S)
			}
			r := Root{cell: heapCell(n, e.S), ref: bv.t, sort: sortOf(ft)}
			if tcfg.Singleton[typeKey(n)] {
				r.ref = nil
			}
			return []*Place{{root: r}}
		}
		ps := x.specPlaces(st, en, vals, b)
		var out []*Place
		for _, p := range ps {
			v := x.get(st, p)
			if v.Sort.Class == "ptr" {
				p = p.with(Step{kind: sDeref})
				v = Sel(v, 1)
			}
			i := v.Sort.field(e.S)
			if i < 0 {
				sfail(e, "no field %s in %s", e.S, v.Sort.Name)
			}
			out = append(out, p.with(Step{kind: sField, i: i}))
		}
		return out
	}
	sfail(e, "unsupported modifies expression %s", e)
	return nil
}

func (x *Exec) allFields(n *types.Named, ref *Term) []*Place {
	var out []*Place
	sst := n.Underlying().(*types.Struct)
	for i := 0; i < sst.NumFields(); i++ {
		ft := sst.Field(i).Type()
		r := Root{cell: heapCell(n, sst.Field(i).Name()), ref: ref, sort: sortOf(ft)}
		if tcfg.Singleton[typeKey(n)] {
			r.ref = nil
		}
		out = append(out, &Place{root: r})
	}
	return out
}

// staleAliases invalidates aliases strictly below a place changed by a callee.
func (x *Exec) staleAliases(st *State, p *Place) {
	for _, k := range sortedVKeys(st.vars) {
		c := st.vars[k]
		if c.alias == nil {
			continue
		}
		q := c.alias
		if sameRoot(p.root, q.root) == 0 || len(q.path) <= len(p.path) {
			continue
		}
		keyed := false
		for _, s := range q.path[len(p.path):] {
			if s.kind == sKey || s.kind == sIndex {
				keyed = true
			}
		}
		if !keyed {
			continue
		}
		n := *c
		n.stale = true
		st.vars[k] = &n
	}
}

func (x *Exec) applyContract(st *State, f *Frame, con *Contract, o *types.Func, env tenv, recv *Val, args []Val, pos token.Pos) Val {
	x.used[con.Key] = true
	if con.Async {
		if x.inGo == nil {
			x.fail(pos, "%s is called, not started", con.Key)
		}
		x.inGo = nil
	}
	defer x.bindTParams(o, env)()
	sig := o.Origin().Type().(*types.Signature)
	var vals []Val
	if recv != nil {
		vals = append(vals, *recv)
	}
	vals = append(vals, args...)
	if len(con.Params) != len(vals) {
		x.fail(pos, "contract of %s lists %d parameters, call has %d", con.Key, len(con.Params), len(vals))
	}
	en := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: con.Pkg}
	byName := map[string]Val{}
	for i, n := range con.Params {
		v := vals[i]
		if v.fn != nil {
			fv := *v.fn
			v.fn = &fv
			if cl, ok := con.Calls[n]; ok {
				cl := cl
				fv2 := &fv
				fv2.when = func(as []*Term) *Term {
					e2 := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: con.Pkg}
					for k, w := range en.vars {
						e2.vars[k] = w
					}
					for j, a := range cl.Vars {
						e2.vars[a.Name] = SVal{t: as[j], g: fv2.sig.Params().At(j).Type()}
					}
					return e2.boolT(cl.When)
				}
			}
		}
		if v.t == nil && v.fn == nil {
			x.fail(pos, "argument %s of %s has no value", n, con.Key)
		}
		en.vars[n] = svalOf(v)
		byName[n] = v
		if v.t != nil && v.addr == nil && !con.Nilable[n] {
			if _, isp := isPtr(v.ty); isp {
				s := v.t.Sort
				if s.Kind == SData && s.Class == "ptr" {
					x.assert(st, Not(Sel(v.t, 0)), "nil", "argument "+n+" of "+con.Key+" is not nil", pos, nil)
				} else if s == RefS {
					if nn := concreteNamed(v.ty); nn == nil || !tcfg.Singleton[typeKey(nn)] {
						x.assert(st, Not(Eq(v.t, nilRef)), "nil", "argument "+n+" of "+con.Key+" is not nil", pos, nil)
					}
				}
			}
		}
	}
	if !con.Extern {
		x.globalsIfDirty(st, pos)
	}
	for _, r := range con.Requires {
		if r.Free {
			continue
		}
		x.assert(st, en.boolT(r.E), "pre", "precondition of "+con.Key+": "+r.Label+" "+r.Text, pos, r.Props)
	}
	for i, n := range con.Params {
		if con.Consumes[n] && !vals[i].own && !zeroLen(vals[i].t) {
			own := false
			if pl := vals[i].pl; pl != nil && pl.root.local && len(pl.path) == 0 {
				own = st.vars[pl.root.v].own
				if own {
					c := *st.vars[pl.root.v]
					c.own = false
					st.vars[pl.root.v] = &c
				}
			}
			if !own {
				x.assert(st, False, "ownership", "argument "+n+" kept by "+con.Key+" is not shared", pos, nil)
			}
		}
	}
	// closures: check the body for an arbitrary argument
	for i, n := range con.Params {
		cl, ok := con.Calls[n]
		if !ok || vals[i].fn == nil || vals[i].fn.uf != "" {
			continue
		}
		fv := byName[n].fn
		s2 := st.clone()
		var as []Val
		var ats []*Term
		for j := range cl.Vars {
			ty := fv.sig.Params().At(j).Type()
			t := x.fresh("carg", sortOf(ty))
			as = append(as, Val{t: t, ty: ty})
			ats = append(ats, t)
		}
		s2.pc = And(s2.pc, fv.when(ats))
		before := s2.clone()
		x.callValue(s2, f, fv, as, pos)
		if s2.pc != False && changed(before, s2) {
			x.fail(pos, "closure passed to %s has side effects", con.Key)
		}
	}
	oldSt := st.clone()
	oldEn := *en
	oldEn.st = oldSt
	// results and modified places
	freshSet := map[*Term]bool{}
	mkFresh := func(base string, s *Sort) *Term {
		t := x.freshVal(base, s)
		leaves(t, freshSet)
		return t
	}
	var places []*Place
	globalDirty := false
	for _, m := range con.Modifies {
		for _, p := range x.specPlaces(st, en, byName, m) {
			places = append(places, p)
			if !p.root.local && p.root.ref == nil {
				globalDirty = true
			}
		}
	}
	newVals := make([]*Term, len(places))
	short := con.Key[strings.LastIndexByte(con.Key, '.')+1:]
	for i, p := range places {
		cur := x.get(oldSt, p)
		newVals[i] = mkFresh("m_"+short, cur.Sort)
		x.staleAliases(st, p)
		x.set(st, p, newVals[i], true)
	}
	if con.Allocates {
		al := st.cell("$alloc", arraySort(RefS, Bool))
		na := x.fresh("alloc", arraySort(RefS, Bool))
		b := BVarN("ra!", RefS)
		x.assume(st, Forall([]*Term{b}, Implies(Select(al, b), Select(na, b)), []*Term{Select(na, b)}))
		st.heap["$alloc"] = na
		x.log(&Place{root: Root{cell: "$alloc", sort: arraySort(RefS, Bool)}})
	}
	post := &Env{x: x, st: st, old: &oldEn, vars: map[string]SVal{}, pkg: con.Pkg}
	for n, v := range byName {
		sv := svalOf(v)
		written := v.addr == nil
		for _, m := range con.Modifies {
			written = written || m.Op == "id" && m.S == n
		}
		if written {
			sv.t = x.current(st, v)
			if v.addr == nil && v.pl != nil && isSlice(v.ty) {
				sv.t = x.get(st, v.pl)
			}
		}
		post.vars[n] = sv
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		ty := substType(sig.Results().At(i).Type(), env)
		v := Val{t: mkFresh("r_"+short, sortOf(ty)), ty: ty, own: !con.Shares}
		if con.RetRecv && i == 0 {
			v = *recv
			v.t = x.current(st, *recv)
		} else if v.t.Sort.Kind == SData && v.t.Sort.Class == "ptr" && !con.Nilable["result"] {
			v.t = Mk(v.t.Sort, False, Sel(v.t, 1))
		}
		if i >= len(con.Results) {
			x.fail(pos, "contract of %s lists too few results", con.Key)
		}
		post.vars[con.Results[i]] = svalOf(v)
		res = append(res, v)
	}
	var facts []*Term
	for _, c := range con.Ensures {
		if c.NoCall {
			continue
		}
		facts = append(facts, conjuncts(post.boolT(c.E))...)
	}
	// definitional substitution
	sub := map[*Term]*Term{}
	var ranges []*Term
	apply := func(t *Term) *Term { return Subst(t, sub) }
	define := func(v, r *Term) bool {
		if !freshSet[v] || sub[v] != nil {
			return false
		}
		if occurs(r, map[*Term]bool{v: true}) {
			return false
		}
		one := map[*Term]*Term{v: r}
		for k := range sub {
			sub[k] = Subst(sub[k], one)
		}
		sub[v] = r
		if v.Sort.Kind == SInt && v.Sort.Lo != nil {
			iv := ival(r)
			if iv.lo == nil || iv.lo.Cmp(v.Sort.Lo) < 0 || (v.Sort.Hi != nil && (iv.hi == nil || iv.hi.Cmp(v.Sort.Hi) > 0)) {
				ranges = append(ranges, v)
			}
		}
		return true
	}
	var unify func(a, b *Term) bool
	unify = func(a, b *Term) bool {
		if a.Op == "var" || (a.Op == "app" && freshSet[a]) {
			return define(a, b)
		}
		if a.Op == "mk" && a.Sort != UnitS {
			ls := map[*Term]bool{}
			leaves(a, ls)
			for l := range ls {
				if !freshSet[l] || sub[l] != nil || occurs(b, map[*Term]bool{l: true}) {
					return false
				}
			}
			if a.Sort.Class == "ptr" && Sel(a, 0) == False {
				return Sel(b, 0) == False && unify(Sel(a, 1), Sel(b, 1))
			}
			for i := range a.Args {
				if !unify(a.Args[i], Sel(b, i)) {
					return false
				}
			}
			return true
		}
		return false
	}
	for changedAny := true; changedAny; {
		changedAny = false
		var rest []*Term
		for _, fct := range facts {
			fct = apply(fct)
			for _, c := range conjuncts(fct) {
				done := false
				switch {
				case c == True:
					done = true
				case c.Op == "var" && freshSet[c]:
					done = define(c, True)
				case c.Op == "not" && c.Args[0].Op == "var" && freshSet[c.Args[0]]:
					done = define(c.Args[0], False)
				case c.Op == "not" && isNilEq(c.Args[0], freshSet) != nil:
					done = define(isNilEq(c.Args[0], freshSet), x.freshApp("mkerr", ErrS))
				case c.Op == "=" && isNilEq(c, freshSet) != nil:
					done = define(isNilEq(c, freshSet), ErrNil)
				case c.Op == "=" && c.Args[0].Sort == Bool && isNilEq(c.Args[0], freshSet) != nil && !occurs(c.Args[1], map[*Term]bool{isNilEq(c.Args[0], freshSet): true}):
					done = define(isNilEq(c.Args[0], freshSet), Ite(c.Args[1], ErrNil, x.freshApp("mkerr", ErrS)))
				case c.Op == "=" && c.Args[1].Sort == Bool && isNilEq(c.Args[1], freshSet) != nil && !occurs(c.Args[0], map[*Term]bool{isNilEq(c.Args[1], freshSet): true}):
					done = define(isNilEq(c.Args[1], freshSet), Ite(c.Args[0], ErrNil, x.freshApp("mkerr", ErrS)))
				case c.Op == "=":
					done = unify(c.Args[0], c.Args[1]) || unify(c.Args[1], c.Args[0])
				}
				if done {
					changedAny = true
				} else {
					rest = append(rest, c)
				}
			}
		}
		facts = rest
	}
	for i, p := range places {
		if nv := apply(newVals[i]); nv != newVals[i] {
			x.set(st, p, nv, true)
		}
	}
	for _, v := range ranges {
		r := apply(v)
		x.assume(st, And(intern(&Term{Op: "<=", Args: []*Term{Num(v.Sort.Lo), r}, Sort: Bool}), rangeHi(r, v.Sort)))
	}
	for _, c := range facts {
		x.assume(st, apply(c))
	}
	for i := range res {
		if res[i].t != nil {
			res[i].t = apply(res[i].t)
		}
	}
	if globalDirty && !con.Extern {
		x.assumeGlobals(st)
	}
	switch len(res) {
	case 0:
		return Val{}
	case 1:
		return res[0]
	}
	return Val{multi: res}
}

func rangeHi(r *Term, s *Sort) *Term {
	if s.Hi == nil {
		return True
	}
	return intern(&Term{Op: "<=", Args: []*Term{r, Num(s.Hi)}, Sort: Bool})
}

func isNilEq(t *Term, fr map[*Term]bool) *Term {
	if t.Op != "=" || t.Args[0].Sort != ErrS {
		return nil
	}
	if t.Args[0] == ErrNil && fr[t.Args[1]] {
		return t.Args[1]
	}
	if t.Args[1] == ErrNil && fr[t.Args[0]] {
		return t.Args[0]
	}
	return nil
}

func leaves(t *Term, out map[*Term]bool) {
	if t.Op == "mk" {
		for _, a := range t.Args {
			leaves(a, out)
		}
		return
	}
	if !isConst(t) {
		out[t] = true
	}
}

// current is the value of an argument in a later state.
func (x *Exec) current(st *State, v Val) *Term {
	if v.addr != nil {
		return x.addrVal(st, v.addr, v.ty)
	}
	if v.pl != nil && isRefLike(v.ty) {
		return x.get(st, v.pl)
	}
	return v.t
}
