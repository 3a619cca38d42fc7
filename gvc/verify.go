package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func newExec(p *Program, db *SpecDB, con *Contract) *Exec {
	return &Exec{p: p, db: db, con: con, fi: p.ByKey[con.Key], cnt: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{}, noLemma: db.hiddenExcept(con.Uses)}
}

type fnResult struct {
	con  *Contract
	x    *Exec
	obls []*Obl
	err  string // construct outside the subset
	pos  string
}

func verifyFunc(p *Program, db *SpecDB, con *Contract) (res *fnResult) {
	x := newExec(p, db, con)
	res = &fnResult{con: con, x: x}
	defer func() {
		res.obls = x.obls
		for _, o := range res.obls {
			o.NoLemma = x.noLemma
		}
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.err = e.msg
				res.pos = x.posStr(e.pos)
			case specErr:
				res.err = e.msg
			default:
				panic(r)
			}
		}
	}()
	if x.fi == nil {
		x.fail(token.NoPos, "function %s does not exist", con.Key)
	}
	x.run()
	return res
}

func (x *Exec) run() {
	con, fi := x.con, x.fi
	st := &State{pc: True, vars: map[VKey]*Cell{}, heap: map[string]*Term{}, defs: map[int][]*deferred{}, x: x}
	f := x.newFrame(fi, nil, nil)
	sig := f.sig
	env := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: con.Pkg}
	x.env0 = env
	// type parameters keep their own sorts; contracts may name them
	save := x.db.tparams
	x.db.tparams = map[string]SType{}
	defer func() { x.db.tparams = save }()
	addTP := func(l *types.TypeParamList) {
		for i := 0; l != nil && i < l.Len(); i++ {
			x.db.tparams[l.At(i).Obj().Name()] = SType{sortOf(l.At(i)), l.At(i)}
		}
	}
	addTP(sig.RecvTypeParams())
	addTP(sig.TypeParams())

	type par struct {
		v    *types.Var
		name string
	}
	var ps []par
	if sig.Recv() != nil {
		ps = append(ps, par{sig.Recv(), ""})
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, par{sig.Params().At(i), ""})
	}
	if len(ps) != len(con.Params) {
		x.fail(fi.Decl.Pos(), "contract of %s lists %d parameters, the function has %d", con.Key, len(con.Params), len(ps))
	}
	for i := range ps {
		ps[i].name = con.Params[i]
	}
	for _, p := range ps {
		ty := p.v.Type()
		pb := paramBind{name: p.name, ty: ty}
		sv := SVal{g: ty}
		k := VKey{frame: f.id, obj: p.v}
		pb.key = k
		if fs, ok := ty.Underlying().(*types.Signature); ok {
			fn := &FuncVal{uf: p.name, sig: fs}
			pb.fn = fn
			sv.fn = fn
			st.vars[k] = &Cell{ty: ty, fn: fn}
			env.vars[p.name] = sv
			x.pvars = append(x.pvars, pb)
			continue
		}
		s := sortOf(ty)
		t := x.freshVal(p.name, s)
		if s.Kind == SData && s.Class == "ptr" && !con.Nilable[p.name] {
			t = Mk(s, False, Sel(t, 1))
		}
		if s == RefS {
			n := concreteNamed(ty)
			if n == nil || !tcfg.Singleton[typeKey(n)] {
				al := Select(st.cell("$alloc", arraySort(RefS, Bool)), t)
				if con.Nilable[p.name] {
					x.assume(st, Implies(Not(Eq(t, nilRef)), al))
				} else {
					x.assume(st, And(al, Not(Eq(t, nilRef))))
				}
			}
		}
		pb.t0 = t
		if isRefLike(ty) {
			h := VKey{frame: 0, name: "$p_" + p.name}
			st.vars[h] = &Cell{t: t}
			pb.hid = &h
			st.vars[k] = &Cell{ty: ty, alias: &Place{root: Root{local: true, v: h, sort: s}}}
		} else {
			st.vars[k] = &Cell{ty: ty, t: t, own: con.Consumes[p.name]}
		}
		sv.t = t
		env.vars[p.name] = sv
		x.pvars = append(x.pvars, pb)
	}
	if !con.Establishes {
		x.assumeGlobals(st)
	}
	for _, r := range con.Requires {
		for _, c := range conjuncts(env.boolT(r.E)) {
			x.assume(st, c)
		}
	}
	x.entry = st.clone()
	env.st = x.entry
	pre := x.facts[:len(x.facts):len(x.facts)]
	x.guard("requires", "precondition is satisfiable", pre, True)

	x.frameResults(st, f, sig)
	end := x.block(st, f, fi.Decl.Body.List)
	if alive(end) != nil && (len(f.resTy) == 0 || len(f.results) > 0) {
		var vals []Val
		for i, k := range f.results {
			vals = append(vals, x.cellRead(end, end.vars[k], f.resTy[i], fi.Decl.Body.End()))
		}
		x.finish(end, f, vals, fi.Decl.Body.Rbrace)
	}
	if len(f.rets) == 0 {
		x.fail(fi.Decl.Pos(), "the function never returns")
	}
	var pcs []*Term
	for _, r := range f.rets {
		pcs = append(pcs, r.st.pc)
	}
	x.guard("reachable", "some return is reachable", x.facts[:len(x.facts):len(x.facts)], Or(pcs...))
	for _, r := range f.rets {
		x.checkReturn(f, r)
	}
}

// guard records a vacuity check: the facts must not be contradictory.
func (x *Exec) guard(kind, label string, facts []*Term, pc *Term) {
	x.obls = append(x.obls, &Obl{Fn: x.con.Key, Kind: "guard:" + kind, Label: label, Facts: facts, PC: pc, Goal: False})
}

func (x *Exec) checkReturn(f *Frame, r RetPt) {
	con, st := x.con, r.st
	post := &Env{x: x, st: st, old: x.env0, vars: map[string]SVal{}, pkg: con.Pkg}
	for k, v := range x.env0.vars {
		post.vars[k] = v
	}
	x.refreshVars(post, st)
	if len(con.Results) != len(f.resTy) {
		x.fail(x.fi.Decl.Pos(), "contract of %s lists %d results, the function has %d", con.Key, len(con.Results), len(f.resTy))
	}
	for i, n := range con.Results {
		v := r.vals[i]
		v.ty = f.resTy[i]
		if v.t == nil && v.fn == nil {
			x.fail(r.pos, "result %s has no term", n)
		}
		post.vars[n] = svalOf(v)
		s := sortOf(v.ty)
		if v.t != nil && s.Kind == SData && s.Class == "ptr" && !con.Nilable["result"] && !con.Nilable[n] {
			x.assert(st, Not(Sel(v.t, 0)), "post", "result "+n+" is not nil", r.pos, nil)
		}
		if con.RetRecv && i == 0 || con.Shares || v.t == nil {
			continue
		}
		if isSlice(v.ty) && !v.own && !zeroLen(v.t) {
			own := false
			if v.pl != nil && v.pl.root.local && len(v.pl.path) == 0 {
				if c := st.vars[v.pl.root.v]; c != nil && c.own {
					own = true
				}
			}
			if !own {
				x.assert(st, False, "ownership", "returned slice "+n+" shares memory with nothing else", r.pos, nil)
			}
		}
		if isRefLike(v.ty) && v.pl != nil && v.t != nil {
			if s.Class == "ptr" {
				x.assert(st, Sel(v.t, 0), "ownership", "returned reference "+n+" is not shared", r.pos, nil)
			} else {
				x.assert(st, False, "ownership", "returned reference "+n+" is not shared", r.pos, nil)
			}
		}
	}
	for i, c := range con.Ensures {
		if c.Free {
			continue
		}
		l := c.Label
		if l == "" {
			l = fmt.Sprintf("ensures #%d", i+1)
		}
		for _, g := range conjuncts(post.boolT(c.E)) {
			x.assert(st, g, "post", l+": "+c.Text, r.pos, c.Props)
		}
	}
	if !con.Establishes {
		x.globalsIfDirty(st, r.pos)
	} else {
		for i, g := range x.db.sf.Globals {
			en := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: x.db.sf.GlobalPkg[i]}
			if x.db.pkgLoaded(en.pkg) {
				for _, c := range conjuncts(en.boolT(g.E)) {
					x.assert(st, c, "global", "global invariant: "+g.Label, r.pos, g.Props)
				}
			}
		}
	}
	x.frameCheck(st, r.pos)
}

// frameCheck: nothing outside the modifies clause differs from the entry state.
func (x *Exec) frameCheck(st *State, pos token.Pos) {
	con := x.con
	vals := map[string]Val{}
	for _, p := range x.pvars {
		v := Val{t: p.t0, ty: p.ty}
		if p.hid != nil {
			v.pl = &Place{root: Root{local: true, v: *p.hid, sort: sortOf(p.ty)}}
		}
		vals[p.name] = v
	}
	var allowed []*Place
	for _, m := range con.Modifies {
		allowed = append(allowed, x.specPlaces(x.entry, x.env0, vals, m)...)
	}
	// owned parameters
	for _, p := range x.pvars {
		if p.hid == nil {
			continue
		}
		now, was := st.vars[*p.hid].t, x.entry.vars[*p.hid].t
		if now == was {
			continue
		}
		var rec func(now, was *Term, path []Step)
		rec = func(now, was *Term, path []Step) {
			if now == was {
				return
			}
			for _, a := range allowed {
				if !a.root.local || a.root.v != *p.hid || len(a.path) > len(path) {
					continue
				}
				same := true
				for i, s := range a.path {
					if norm(s) != norm(path[i]) {
						same = false
					}
				}
				if same {
					return
				}
			}
			if now.Sort.Kind == SData && now.Sort != UnitS {
				for i := range now.Sort.Fields {
					rec(Sel(now, i), Sel(was, i), append(append([]Step{}, path...), Step{kind: sField, i: i}))
				}
				return
			}
			x.assert(st, Eq(now, was), "frame", "argument "+p.name+" is not changed", pos, nil)
		}
		rec(now, was, nil)
	}
	// heap
	al := x.entry.cell("$alloc", arraySort(RefS, Bool))
	for _, c := range sortedKeys(st.heap) {
		now := st.heap[c]
		if c == "$alloc" {
			if !con.Allocates && now != al {
				x.assert(st, Eq(now, al), "frame", "nothing is allocated", pos, nil)
			}
			continue
		}
		was := x.entry.cell(c, now.Sort)
		if now == was {
			continue
		}
		whole := false
		var refs []*Term
		ref := false
		for _, a := range allowed {
			if a.root.local || a.root.cell != c {
				continue
			}
			if a.root.ref == nil {
				whole = whole || len(a.path) == 0
				if len(a.path) > 0 {
					x.fail(pos, "modifies of part of a shared cell")
				}
			} else {
				refs = append(refs, a.root.ref)
			}
		}
		if whole {
			continue
		}
		if now.Sort.Kind == SArray && now.Sort.Idx == RefS && x.isRefCell(c) {
			ref = true
		}
		if !ref {
			x.assert(st, Eq(now, was), "frame", c+" is not changed", pos, nil)
			continue
		}
		b := BVarN("fr!", RefS)
		cond := []*Term{Select(al, b)}
		for _, r := range refs {
			cond = append(cond, Not(Eq(b, r)))
		}
		// stores at references allocated by this function or allowed: syntactic shortcut
		t := now
		ok := true
		for t != was {
			if t.Op != "store" {
				ok = false
				break
			}
			i := t.Args[1]
			hit := strings.HasPrefix(i.Name, "new_")
			for _, r := range refs {
				if i == r {
					hit = true
				}
			}
			if !hit {
				ok = false
				break
			}
			t = t.Args[0]
		}
		if ok {
			continue
		}
		x.assert(st, Forall([]*Term{b}, Implies(And(cond...), Eq(Select(now, b), Select(was, b)))), "frame", c+" changes only where allowed", pos, nil)
	}
}

func (x *Exec) isRefCell(c string) bool {
	if strings.HasPrefix(c, "$") {
		return false
	}
	i := strings.LastIndexByte(c, '.')
	return !tcfg.Singleton[c[:i]]
}
