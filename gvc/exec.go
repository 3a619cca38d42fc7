package main

// Symbolic execution of function bodies: states, places, merging, statements.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type VKey struct {
	frame int
	obj   *types.Var
	name  string
}

type Cell struct {
	t      *Term
	ty     types.Type
	alias  *Place
	own    bool
	stale  bool
	frozen bool // value known, identity lost
	fn     *FuncVal
	bx     *Val // value before boxing into an interface, when known
}

type Root struct {
	local bool
	v     VKey
	cell  string
	ref   *Term // nil for singleton and ghost cells
	sort  *Sort // sort of the root value
}

const (
	sField = iota
	sKey
	sDeref
	sIndex
)

type Step struct {
	kind int
	i    int
	k    *Term
}

type Place struct {
	root  Root
	path  []Step
	konst *Term // not a place: a value that does not change
}

func (p *Place) with(s Step) *Place {
	n := &Place{root: p.root, path: make([]Step, len(p.path)+1)}
	copy(n.path, p.path)
	n.path[len(p.path)] = s
	return n
}

type State struct {
	pc    *Term
	vars  map[VKey]*Cell
	heap  map[string]*Term
	loops []*LoopCtx
	defs  map[int][]*deferred
	x     *Exec
}

type deferred struct {
	call *ast.CallExpr
	fr   *Frame
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, vars: make(map[VKey]*Cell, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), loops: s.loops, defs: map[int][]*deferred{}, x: s.x}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.defs {
		n.defs[k] = v
	}
	return n
}

func (s *State) cell(name string, sort *Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	return Var("H$"+name, sort)
}

func (s *State) readField(n *types.Named, field string, ft types.Type, ref *Term) *Term {
	name := heapCell(n, field)
	if tcfg.Singleton[typeKey(n)] {
		return s.cell(name, sortOf(ft))
	}
	return Select(s.cell(name, arraySort(RefS, sortOf(ft))), ref)
}

type Obl struct {
	Fn      string
	Kind    string
	Label   string
	Pos     string
	Facts   []*Term
	PC      *Term
	Goal    *Term
	Props   []string
	NoLemma map[string]bool
	Res     SolveResult
	OK      bool
	ms      float64
}

type FuncVal struct {
	lit  *ast.FuncLit
	fr   *Frame // defining frame
	fi   *FuncInfo
	recv *Val
	uf   string // uninterpreted function parameter
	sig  *types.Signature
	tenv tenv
	when func([]*Term) *Term
}

type Val struct {
	t     *Term
	ty    types.Type
	pl    *Place // place holding the value (lvalue)
	addr  *Place // the value is a pointer to this place
	own   bool
	fn    *FuncVal
	multi []Val
	inner *Val // value before boxing into an interface
}

type RetPt struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type Jump struct {
	label string
	st    *State
}

type Frame struct {
	id      int
	fi      *FuncInfo
	info    *types.Info
	pkg     *Pkg
	sig     *types.Signature
	tenv    tenv
	rets    []RetPt
	results []VKey // named results
	resTy   []types.Type
	breaks  []Jump
	conts   []Jump
	depth   int
	parent  *Frame
	key     string
	loopOrd int
	at      string // call site
}

type modLog struct {
	places  []*Place
	touched map[*Term]types.Type // slices read
	writes  []elemWrite
}

type elemWrite struct {
	pl  *Place
	idx *Term
	val *Term
	app bool // append
}

type Exec struct {
	inGo      *ast.CallExpr // the call being started by a go statement, until it is reached
	noLemma   map[string]bool
	p         *Program
	db        *SpecDB
	fi        *FuncInfo
	con       *Contract
	facts     []*Term
	obls      []*Obl
	cnt       map[string]int
	nframe    int
	dry       int
	kept      map[string]keptSet // outcome of the last attempt per loop
	sand      int                // sandbox depth: obligations are dropped
	logs      []*modLog
	entry     *State
	env0      *Env // entry environment
	pvars     []paramBind
	hints     []string
	used      map[string]bool // contracts used at call sites
	inlined   map[string]bool
	loopNotes []string
	noGlobals bool
	lam       []*Term          // bound variables of a closure evaluated inside a specification
	invState  map[string]*Term // global cells when the global invariants last held
	created   map[*Term]bool
}

type paramBind struct {
	name string
	key  VKey
	ty   types.Type
	t0   *Term
	hid  *VKey // hidden root of an owned reference parameter
	fn   *FuncVal
}

type unsupported struct {
	pos token.Pos
	msg string
}

func (x *Exec) fail(pos token.Pos, f string, a ...any) {
	panic(unsupported{pos, fmt.Sprintf(f, a...)})
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.p.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, x.p.repo+"/") + fmt.Sprintf(":%d", ps.Line)
}

func (x *Exec) fresh(base string, s *Sort) *Term {
	x.cnt[base]++
	var t *Term
	if len(x.lam) > 0 {
		t = App(fmt.Sprintf("%s!%d", base, x.cnt[base]), s, x.lam...)
	} else {
		t = Var(fmt.Sprintf("%s!%d", base, x.cnt[base]), s)
	}
	if x.created != nil {
		x.created[t] = true
	}
	return t
}

func (x *Exec) freshApp(base string, s *Sort) *Term {
	x.cnt[base]++
	t := App(fmt.Sprintf("%s!%d", base, x.cnt[base]), s, x.lam...)
	if x.created != nil {
		x.created[t] = true
	}
	return t
}

func (x *Exec) assume(st *State, t *Term) {
	f := Implies(st.pc, t)
	if f == True {
		return
	}
	x.facts = append(x.facts, f)
}

func (x *Exec) mark() (int, map[string]int, int, int) {
	c := map[string]int{}
	for k, v := range x.cnt {
		c[k] = v
	}
	return len(x.facts), c, x.nframe, len(x.obls)
}

func (x *Exec) rollback(nf int, c map[string]int, nfr int, no int) {
	x.facts = x.facts[:nf:nf]
	x.cnt = map[string]int{}
	for k, v := range c {
		x.cnt[k] = v
	}
	x.nframe = nfr
	x.obls = x.obls[:no:no]
}

// assert records an obligation and then assumes it.
func (x *Exec) assert(st *State, goal *Term, kind, label string, pos token.Pos, props []string) {
	if goal == True {
		if x.dry == 0 && x.sand == 0 {
			x.obls = append(x.obls, &Obl{Fn: x.con.Key, Kind: kind, Label: label, Pos: x.posStr(pos), PC: st.pc, Goal: True, Props: props, OK: true, Res: SolveResult{Status: "unsat", Solver: "simplifier"}})
		}
		return
	}
	if st.pc == False {
		return
	}
	if x.dry == 0 && x.sand == 0 {
		x.obls = append(x.obls, &Obl{Fn: x.con.Key, Kind: kind, Label: label, Pos: x.posStr(pos), Facts: x.facts[:len(x.facts):len(x.facts)], PC: st.pc, Goal: goal, Props: props})
	}
	x.assume(st, goal)
}

// ---- places ----

func (x *Exec) rootGet(st *State, r Root) *Term {
	if r.local {
		c := st.vars[r.v]
		if c == nil {
			panic("read of unknown local root")
		}
		return c.t
	}
	if r.ref == nil {
		return st.cell(r.cell, r.sort)
	}
	return Select(st.cell(r.cell, arraySort(RefS, r.sort)), r.ref)
}

func (x *Exec) rootSet(st *State, r Root, v *Term) {
	if r.local {
		c := *st.vars[r.v]
		if c.frozen {
			x.fail(token.NoPos, "mutation through a reference of unknown identity")
		}
		c.t = v
		st.vars[r.v] = &c
		return
	}
	if r.ref == nil {
		st.heap[r.cell] = v
		return
	}
	st.heap[r.cell] = Store(st.cell(r.cell, arraySort(RefS, r.sort)), r.ref, v)
}

func stepGet(v *Term, s Step) *Term {
	switch s.kind {
	case sField:
		return Sel(v, s.i)
	case sKey:
		return Select(Sel(v, 1), s.k)
	case sDeref:
		return Sel(v, 1)
	case sIndex:
		return Select(Sel(v, 1), s.k)
	}
	panic("step")
}

func (x *Exec) get(st *State, p *Place) *Term {
	if p.konst != nil {
		return p.konst
	}
	v := x.rootGet(st, p.root)
	for _, s := range p.path {
		v = stepGet(v, s)
	}
	return v
}

func setPath(v *Term, path []Step, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	in := setPath(stepGet(v, s), path[1:], nv)
	switch s.kind {
	case sField:
		return WithField(v, s.i, in)
	case sKey:
		return Mk(v.Sort, Store(Sel(v, 0), s.k, True), Store(Sel(v, 1), s.k, in))
	case sDeref:
		return WithField(v, 1, in)
	case sIndex:
		return WithField(v, 1, Store(Sel(v, 1), s.k, in))
	}
	panic("step")
}

func sameRoot(a, b Root) int { // 1 same, 0 different, -1 unknown
	if a.local != b.local {
		return 0
	}
	if a.local {
		if a.v == b.v {
			return 1
		}
		return 0
	}
	if a.cell != b.cell {
		return 0
	}
	if a.ref == b.ref {
		return 1
	}
	return -1
}

// overwritten updates aliases whose referent is replaced by a write to p.
func (x *Exec) overwritten(st *State, p *Place) {
	for _, k := range sortedVKeys(st.vars) {
		c := st.vars[k]
		if c.alias == nil {
			continue
		}
		q := c.alias
		sr := sameRoot(p.root, q.root)
		if sr == 0 || len(p.path) > len(q.path) {
			continue
		}
		unk := sr == -1
		same := true
		for i, s := range p.path {
			t := q.path[i]
			if s.kind != t.kind || s.i != t.i {
				same = false
				break
			}
			if s.k != t.k {
				if distinctConst(s.k, t.k) {
					same = false
					break
				}
				unk = true
			}
		}
		if !same {
			continue
		}
		n := *c
		n.t = x.get(st, q)
		if unk {
			n.stale = true
		} else {
			n.own = true
		}
		n.alias = nil
		st.vars[k] = &n
	}
}

// set writes a place; content: mutation through a pointer rather than replacement.
func (x *Exec) set(st *State, p *Place, v *Term, content bool) {
	if !content {
		x.overwritten(st, p)
	}
	x.log(p)
	old := x.rootGet(st, p.root)
	nv := setPath(old, p.path, v)
	x.rootSet(st, p.root, nv)
}

func (x *Exec) log(p *Place) {
	for _, l := range x.logs {
		l.places = append(l.places, p)
	}
}

// ---- merging ----

func splitCommon(a, b *Term) (c, ra, rb []*Term) {
	ca, cb := conjuncts(a), conjuncts(b)
	inb := map[*Term]bool{}
	for _, t := range cb {
		inb[t] = true
	}
	ina := map[*Term]bool{}
	for _, t := range ca {
		ina[t] = true
		if inb[t] {
			c = append(c, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !ina[t] {
			rb = append(rb, t)
		}
	}
	return
}

func (x *Exec) merge(a, b *State) *State {
	if a == nil || (a.pc == False && b != nil) {
		return b
	}
	if b == nil || b.pc == False {
		return a
	}
	com, ra, rb := splitCommon(a.pc, b.pc)
	cond := And(ra...)
	nb := map[*Term]bool{}
	for _, t := range rb {
		nb[Not(t)] = true
	}
	for _, t := range ra {
		if nb[t] {
			cond = t
			break
		}
	}
	n := a.clone()
	n.pc = And(append(append([]*Term{}, com...), Or(And(ra...), And(rb...)))...)
	for _, k := range sortedVKeys(a.vars) {
		ca := a.vars[k]
		cb, ok := b.vars[k]
		if !ok {
			delete(n.vars, k)
			continue
		}
		if ca == cb {
			continue
		}
		n.vars[k] = x.mergeCell(a, b, ca, cb, cond)
	}
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok {
			n.heap[k] = b.heap[k] // placeholder, merged below
		}
	}
	for _, k := range sortedKeys(n.heap) {
		ta, oka := a.heap[k]
		tb, okb := b.heap[k]
		if oka && okb {
			n.heap[k] = mergeT(cond, ta, tb)
			continue
		}
		var s *Sort
		if oka {
			s = ta.Sort
			n.heap[k] = mergeT(cond, ta, b.cell(k, s))
		} else {
			s = tb.Sort
			n.heap[k] = mergeT(cond, a.cell(k, s), tb)
		}
	}
	return n
}

// mergeT is ite, pushed below constructors and below stores to one location.
func mergeT(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Sort.Kind == SArray {
		// H vs H[i := v]  =>  H[i := ite(c, ..)]
		if a.Op == "store" && a.Args[0] == b {
			return Store(b, a.Args[1], mergeT(c, a.Args[2], Select(b, a.Args[1])))
		}
		if b.Op == "store" && b.Args[0] == a {
			return Store(a, b.Args[1], mergeT(c, Select(a, b.Args[1]), b.Args[2]))
		}
		if a.Op == "store" && b.Op == "store" && a.Args[1] == b.Args[1] {
			return Store(mergeT(c, a.Args[0], b.Args[0]), a.Args[1], mergeT(c, a.Args[2], b.Args[2]))
		}
	}
	if a.Sort.Kind == SData && (hasMk(a) || hasMk(b)) {
		args := make([]*Term, len(a.Sort.Fields))
		for i := range args {
			args[i] = mergeT(c, Sel(a, i), Sel(b, i))
		}
		return Mk(a.Sort, args...)
	}
	return Ite(c, a, b)
}

func samePlace(a, b *Place) bool {
	if a == nil || b == nil {
		return a == b
	}
	if sameRoot(a.root, b.root) != 1 || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func (x *Exec) cellVal(st *State, c *Cell) *Term {
	if c.alias != nil {
		return x.get(st, c.alias)
	}
	return c.t
}

func (x *Exec) mergeCell(a, b *State, ca, cb *Cell, cond *Term) *Cell {
	n := *ca
	n.own = ca.own && cb.own
	n.stale = ca.stale || cb.stale
	n.frozen = ca.frozen || cb.frozen
	if ca.bx != cb.bx {
		n.bx = nil
	}
	if ca.alias != nil || cb.alias != nil {
		if samePlace(ca.alias, cb.alias) {
			return &n
		}
		n.alias = nil
		n.frozen = true
		n.own = false
	}
	if ca.fn != cb.fn {
		n.fn = nil
	}
	ta, tb := x.cellVal(a, ca), x.cellVal(b, cb)
	if ta == nil || tb == nil || !sameSMT(ta.Sort, tb.Sort) {
		n.t = ta
		if ta != tb {
			n.t = nil
		}
		return &n
	}
	n.t = mergeT(cond, ta, tb)
	return &n
}

func (x *Exec) mergeAll(sts []*State) *State {
	var r *State
	for _, s := range sts {
		if s == nil || s.pc == False {
			continue
		}
		r = x.merge(r, s)
	}
	return r
}

// ---- frames and statements ----

func (x *Exec) newFrame(fi *FuncInfo, env tenv, parent *Frame) *Frame {
	x.nframe++
	f := &Frame{id: x.nframe, fi: fi, info: fi.Pkg.Info, pkg: fi.Pkg, sig: fi.Obj.Type().(*types.Signature), tenv: env, parent: parent, key: fi.Key}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (f *Frame) typ(e ast.Expr) types.Type { return substType(f.info.TypeOf(e), f.tenv) }

func (x *Exec) block(st *State, f *Frame, ss []ast.Stmt) *State {
	for _, s := range ss {
		if st == nil || st.pc == False {
			return nil
		}
		st = x.stmt(st, f, s, "")
	}
	return st
}

func (x *Exec) declare(st *State, f *Frame, v *types.Var, val Val) {
	if v == nil {
		return
	}
	k := VKey{frame: f.id, obj: v}
	ty := substType(v.Type(), f.tenv)
	st.vars[k] = x.bind(st, ty, val)
}

// bind makes a variable cell of type ty from a value: reference-like values
// coming from a place become aliases, slices lose ownership when copied.
func (x *Exec) bind(st *State, ty types.Type, val Val) *Cell {
	val = x.coerce(st, val, ty)
	c := &Cell{t: val.t, ty: ty, own: val.own, fn: val.fn, bx: val.inner}
	if isRefLike(ty) {
		if val.pl != nil {
			c.alias = val.pl
			c.t = nil
			c.own = false
		} else if val.addr != nil {
			// pointer to a variable or element
			c.alias = nil
			c.t = val.t
			c.bx = &Val{addr: val.addr, ty: ty, t: val.t}
		}
	} else if val.pl != nil {
		c.own = false
	}
	return c
}

// isRefLike: types whose values are mutable objects reached by reference and
// modelled by value (owned pointers, maps).
func isRefLike(t types.Type) bool {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Pointer:
		s := sortOf(t)
		return s.Kind == SData && s.Class == "ptr"
	case *types.Interface:
		_ = u
		if n, ok := t.(*types.Named); ok {
			if _, m := tcfg.Model[typeKey(n)]; m {
				return true
			}
		}
	}
	return false
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (x *Exec) stmt(st *State, f *Frame, s ast.Stmt, label string) *State {
	switch s := s.(type) {
	case *ast.ExprStmt:
		x.eval(st, f, s.X)
		return alive(st)
	case *ast.BlockStmt:
		return x.block(st, f, s.List)
	case *ast.EmptyStmt:
		return st
	case *ast.LabeledStmt:
		st = x.stmt(st, f, s.Stmt, s.Label.Name)
		return st
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						v, _ := f.info.Defs[n].(*types.Var)
						if v == nil {
							continue
						}
						ty := substType(v.Type(), f.tenv)
						x.declare(st, f, v, Val{t: zero(sortOf(ty)), ty: ty, own: true})
					}
					continue
				}
				vals := x.evalList(st, f, vs.Values, len(vs.Names))
				for i, n := range vs.Names {
					v, _ := f.info.Defs[n].(*types.Var)
					x.declare(st, f, v, vals[i])
				}
			}
		}
		return st
	case *ast.AssignStmt:
		x.assign(st, f, s)
		return alive(st)
	case *ast.IncDecStmt:
		v := x.eval(st, f, s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		ty := f.typ(s.X)
		r := x.arith(st, op, v.t, NumI(1), ty, s.Pos())
		x.store(st, f, s.X, Val{t: r, ty: ty})
		return st
	case *ast.IfStmt:
		if s.Init != nil {
			st = x.stmt(st, f, s.Init, "")
			if st == nil {
				return nil
			}
		}
		c := x.eval(st, f, s.Cond).t
		if alive(st) == nil {
			return nil
		}
		th := st.clone()
		th.pc = And(st.pc, c)
		el := st
		el.pc = And(st.pc, Not(c))
		var rt, re *State
		if th.pc != False {
			rt = x.block(th, f, s.Body.List)
		}
		if el.pc != False {
			if s.Else != nil {
				re = x.stmt(el, f, s.Else, "")
			} else {
				re = el
			}
		}
		return x.merge(rt, re)
	case *ast.ReturnStmt:
		x.ret(st, f, s)
		return nil
	case *ast.ForStmt:
		return x.forStmt(st, f, s, label)
	case *ast.RangeStmt:
		return x.rangeStmt(st, f, s, label)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			f.breaks = append(f.breaks, Jump{l, st})
			return nil
		case token.CONTINUE:
			f.conts = append(f.conts, Jump{l, st})
			return nil
		}
		x.fail(s.Pos(), "branch %s", s.Tok)
	case *ast.SwitchStmt:
		return x.switchStmt(st, f, s, label)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(st, f, s, label)
	case *ast.DeferStmt:
		st.defs[f.id] = append(append([]*deferred{}, st.defs[f.id]...), &deferred{s.Call, f})
		return st
	case *ast.GoStmt:
		// starting a routine: its contract says what starting it records; what it does is not part of this function
		was := x.inGo
		x.inGo = s.Call
		x.eval(st, f, s.Call)
		if x.inGo != nil {
			x.fail(s.Pos(), "go statement")
		}
		x.inGo = was
		return st
	case *ast.SelectStmt:
		x.fail(s.Pos(), "select statement")
	case *ast.SendStmt:
		x.fail(s.Pos(), "channel send")
	}
	x.fail(s.Pos(), "statement %T", s)
	return nil
}

func alive(st *State) *State {
	if st == nil || st.pc == False {
		return nil
	}
	return st
}

func (x *Exec) ret(st *State, f *Frame, s *ast.ReturnStmt) {
	var vals []Val
	if len(s.Results) == 0 && len(f.results) > 0 {
		for i, k := range f.results {
			c := st.vars[k]
			vals = append(vals, x.cellRead(st, c, f.resTy[i], s.Pos()))
		}
	} else if len(s.Results) > 0 {
		vs := x.evalList(st, f, s.Results, len(f.resTy))
		for i, v := range vs {
			vals = append(vals, x.coerce(st, v, f.resTy[i]))
		}
	}
	if alive(st) == nil {
		return
	}
	x.finish(st, f, vals, s.Pos())
}

func (x *Exec) finish(st *State, f *Frame, vals []Val, pos token.Pos) {
	for i, k := range f.results {
		if i < len(vals) {
			st.vars[k] = x.bind(st, f.resTy[i], vals[i])
		}
	}
	ds := st.defs[f.id]
	for i := len(ds) - 1; i >= 0; i-- {
		x.evalCall(st, ds[i].fr, ds[i].call)
	}
	delete(st.defs, f.id)
	if len(ds) > 0 {
		for i, k := range f.results {
			vals[i] = x.cellRead(st, st.vars[k], f.resTy[i], pos)
		}
	}
	for i := range vals {
		vals[i] = x.settle(st, f, vals[i])
	}
	f.rets = append(f.rets, RetPt{st, vals, pos})
}

// evalList evaluates expressions for n targets (handles multi-value calls).
func (x *Exec) evalList(st *State, f *Frame, es []ast.Expr, n int) []Val {
	if len(es) == 1 && n > 1 {
		e := ast.Unparen(es[0])
		switch e := e.(type) {
		case *ast.CallExpr:
			v := x.eval(st, f, e)
			if len(v.multi) != n {
				x.fail(e.Pos(), "expected %d values", n)
			}
			return v.multi
		case *ast.IndexExpr: // v, ok := m[k]
			m := x.eval(st, f, e.X)
			mt := f.typ(e.X).Underlying().(*types.Map)
			k := x.coerce(st, x.eval(st, f, e.Index), mt.Key())
			x.aliveVal(st, m, e.Pos())
			mv := m.t
			val := Val{t: Select(Sel(mv, 1), k.t), ty: mt.Elem()}
			if m.pl != nil && isRefLike(mt.Elem()) {
				val.pl = m.pl.with(Step{kind: sKey, k: k.t})
			}
			return []Val{val, {t: Select(Sel(mv, 0), k.t), ty: types.Typ[types.Bool]}}
		case *ast.TypeAssertExpr:
			v := x.eval(st, f, e.X)
			ty := f.typ(e)
			if tp, ok := ty.(*types.Tuple); ok {
				ty = tp.At(0).Type()
			}
			r, ok := x.typeAssert(st, v, ty, e.Pos())
			return []Val{r, {t: ok, ty: types.Typ[types.Bool]}}
		}
		x.fail(e.Pos(), "multi-value %T", e)
	}
	out := make([]Val, len(es))
	for i, e := range es {
		out[i] = x.eval(st, f, e)
	}
	return out
}

func (x *Exec) aliveVal(st *State, v Val, pos token.Pos) {
	if v.t == nil {
		x.fail(pos, "value without a term")
	}
}

func (x *Exec) assign(st *State, f *Frame, s *ast.AssignStmt) {
	switch s.Tok {
	case token.DEFINE, token.ASSIGN:
		vals := x.evalList(st, f, s.Rhs, len(s.Lhs))
		if len(vals) > 1 && len(s.Rhs) > 1 {
			// parallel assignment: fix the values before any store
			for i := range vals {
				if !isRefLike(vals[i].ty) {
					vals[i].pl = nil
				}
			}
		}
		for i, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok {
				if id.Name == "_" {
					continue
				}
				if v, ok := f.info.Defs[id].(*types.Var); ok && v != nil {
					x.declare(st, f, v, vals[i])
					x.unown(st, f, s.Rhs, i, len(s.Lhs))
					continue
				}
			}
			x.store(st, f, l, vals[i])
			x.unownX(st, f, s.Rhs, i, len(s.Lhs), l)
		}
		return
	}
	op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
	l := x.eval(st, f, s.Lhs[0])
	r := x.eval(st, f, s.Rhs[0])
	ty := f.typ(s.Lhs[0])
	v := x.binop(st, f, op, l, r, ty, s.Pos())
	x.store(st, f, s.Lhs[0], v)
}

// unown: a slice variable that has been copied is no longer exclusively owned.
func (x *Exec) unown(st *State, f *Frame, rhs []ast.Expr, i, n int) {
	if len(rhs) != n {
		return
	}
	x.disown(st, f, rhs[i])
}

func (x *Exec) unownX(st *State, f *Frame, rhs []ast.Expr, i, n int, l ast.Expr) {
	if len(rhs) != n {
		return
	}
	if li, ok := l.(*ast.Ident); ok {
		if ri, ok := ast.Unparen(rhs[i]).(*ast.Ident); ok && f.info.ObjectOf(li) == f.info.ObjectOf(ri) {
			return
		}
	}
	x.disown(st, f, rhs[i])
}

// disown drops exclusive ownership of a slice variable whose value escapes.
func (x *Exec) disown(st *State, f *Frame, e ast.Expr) {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.Ident:
		if v, ok := f.info.ObjectOf(e).(*types.Var); ok && isSlice(substType(v.Type(), f.tenv)) {
			if k, c := x.lookup(st, f, v); c != nil && c.own {
				n := *c
				n.own = false
				st.vars[k] = &n
			}
		}
	case *ast.SliceExpr:
		x.disown(st, f, e.X)
	case *ast.CompositeLit:
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				x.disown(st, f, kv.Value)
			} else {
				x.disown(st, f, el)
			}
		}
	case *ast.UnaryExpr:
		x.disown(st, f, e.X)
	}
}

// lookup finds the cell of a variable in the frame or an enclosing one (closures).
func (x *Exec) lookup(st *State, f *Frame, v *types.Var) (VKey, *Cell) {
	for g := f; g != nil; g = g.parent {
		k := VKey{frame: g.id, obj: v}
		if c, ok := st.vars[k]; ok {
			return k, c
		}
	}
	return VKey{}, nil
}

func (x *Exec) cellRead(st *State, c *Cell, ty types.Type, pos token.Pos) Val {
	if c.stale {
		x.fail(pos, "use of a reference whose container entry may have been replaced")
	}
	if c.bx != nil && c.bx.addr != nil {
		return Val{t: x.addrVal(st, c.bx.addr, ty), ty: ty, addr: c.bx.addr}
	}
	if c.alias != nil {
		return Val{t: x.get(st, c.alias), ty: ty, pl: c.alias}
	}
	return Val{t: c.t, ty: ty, own: c.own, fn: c.fn, inner: c.bx}
}

func (x *Exec) addrVal(st *State, p *Place, ty types.Type) *Term {
	s := sortOf(ty)
	if s.Kind == SData && s.Class == "ptr" {
		return Mk(s, False, x.get(st, p))
	}
	return x.get(st, p)
}

// store assigns to an lvalue expression.
func (x *Exec) store(st *State, f *Frame, l ast.Expr, v Val) {
	l = ast.Unparen(l)
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		vr, _ := f.info.ObjectOf(id).(*types.Var)
		k, c := x.lookup(st, f, vr)
		if c == nil {
			x.fail(l.Pos(), "assignment to unknown variable %s", id.Name)
		}
		if vr.Parent() != nil && vr.Parent().Parent() == types.Universe {
			x.fail(l.Pos(), "assignment to package variable %s", id.Name)
		}
		x.logVar(k, c)
		if !isRefLike(c.ty) {
			// plain variable: aliases into it keep their identity
			nc := x.bind(st, c.ty, v)
			x.overwritten(st, &Place{root: Root{local: true, v: k}})
			st.vars[k] = nc
			return
		}
		nc := x.bind(st, c.ty, v)
		if nc.alias != nil && nc.alias.root.local && nc.alias.root.v == k {
			return
		}
		x.overwritten(st, &Place{root: Root{local: true, v: k}})
		st.vars[k] = nc
		return
	}
	// m[k] = v
	if ix, ok := l.(*ast.IndexExpr); ok {
		if mt, ok := f.typ(ix.X).Underlying().(*types.Map); ok {
			m := x.eval(st, f, ix.X)
			k := x.coerce(st, x.eval(st, f, ix.Index), mt.Key())
			if m.pl == nil {
				m = x.materialise(st, f, ix.X, m)
			}
			v = x.coerce(st, v, mt.Elem())
			x.checkStore(st, v, l.Pos())
			p := m.pl.with(Step{kind: sKey, k: k.t})
			x.logElem(m.pl, k.t, v.t, false)
			x.set(st, p, v.t, false)
			x.moved(st, v, p)
			return
		}
	}
	lv := x.evalPlace(st, f, l)
	ty := f.typ(l)
	v = x.coerce(st, v, ty)
	x.checkStore(st, v, l.Pos())
	x.set(st, lv, v.t, false)
	x.moved(st, v, lv)
}

func (x *Exec) logVar(k VKey, c *Cell) {
	p := &Place{root: Root{local: true, v: k}}
	x.log(p)
}

func (x *Exec) logElem(p *Place, idx, val *Term, app bool) {
	for _, l := range x.logs {
		l.writes = append(l.writes, elemWrite{p, idx, val, app})
	}
}

// checkStore: storing a reference that is already held elsewhere would alias it.
func (x *Exec) checkStore(st *State, v Val, pos token.Pos) {
	if v.t == nil {
		x.fail(pos, "store of a value without a term")
	}
	if isRefLike(v.ty) && v.pl != nil && !(v.pl.root.local && len(v.pl.path) == 0) {
		if zeroish(v.t) {
			return
		}
		x.assert(st, False, "ownership", "mutable value stored in two places", pos, nil)
	}
}

func zeroish(t *Term) bool {
	return t.Sort.Kind == SData && t.Sort.Class == "ptr" && Sel(t, 0) == True
}

// moved: a local variable whose object was stored becomes an alias of the store.
func (x *Exec) moved(st *State, v Val, p *Place) {
	if !isRefLike(v.ty) {
		return
	}
	if v.pl != nil && v.pl.root.local && len(v.pl.path) == 0 {
		k := v.pl.root.v
		if c, ok := st.vars[k]; ok {
			if c.ty == nil { // hidden parameter root: caller still holds it
				return
			}
			n := *c
			n.alias = p
			n.t = nil
			st.vars[k] = &n
		}
	}
}

func (x *Exec) switchStmt(st *State, f *Frame, s *ast.SwitchStmt, label string) *State {
	if s.Init != nil {
		st = x.stmt(st, f, s.Init, "")
	}
	var tag Val
	if s.Tag != nil {
		tag = x.eval(st, f, s.Tag)
	}
	nb := len(f.breaks)
	var outs []*State
	rest := st
	var deflt *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			deflt = cc
			continue
		}
		if alive(rest) == nil {
			break
		}
		cond := False
		for _, e := range cc.List {
			v := x.eval(rest, f, e)
			if s.Tag != nil {
				cond = Or(cond, x.eqVals(rest, tag, v, e.Pos()))
			} else {
				cond = Or(cond, v.t)
			}
		}
		th := rest.clone()
		th.pc = And(rest.pc, cond)
		rest.pc = And(rest.pc, Not(cond))
		if th.pc != False {
			outs = append(outs, x.block(th, f, cc.Body))
		}
	}
	if alive(rest) != nil {
		if deflt != nil {
			outs = append(outs, x.block(rest, f, deflt.Body))
		} else {
			outs = append(outs, rest)
		}
	}
	outs = append(outs, x.takeBreaks(f, nb, label)...)
	return x.mergeAll(outs)
}

// takeBreaks removes the breaks recorded since mark that target this statement.
func (x *Exec) takeBreaks(f *Frame, mark int, label string) []*State {
	var keep []Jump
	var out []*State
	for _, j := range f.breaks[mark:] {
		if j.label == "" || j.label == label {
			out = append(out, j.st)
		} else {
			keep = append(keep, j)
		}
	}
	f.breaks = append(f.breaks[:mark:mark], keep...)
	return out
}

func (x *Exec) takeConts(f *Frame, mark int, label string) []*State {
	var keep []Jump
	var out []*State
	for _, j := range f.conts[mark:] {
		if j.label == "" || j.label == label {
			out = append(out, j.st)
		} else {
			keep = append(keep, j)
		}
	}
	f.conts = append(f.conts[:mark:mark], keep...)
	return out
}

func (x *Exec) typeSwitch(st *State, f *Frame, s *ast.TypeSwitchStmt, label string) *State {
	if s.Init != nil {
		st = x.stmt(st, f, s.Init, "")
	}
	var e ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := x.eval(st, f, e)
	nb := len(f.breaks)
	var outs []*State
	rest := st
	var deflt *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			deflt = cc
			continue
		}
		if alive(rest) == nil {
			break
		}
		cond := False
		var bound Val
		for _, te := range cc.List {
			tv := f.info.Types[te]
			if tv.IsNil() {
				cond = Or(cond, Eq(v.t, zero(AnyS)))
				bound = v
				continue
			}
			ty := substType(tv.Type, f.tenv)
			r, ok := x.typeAssert(rest, v, ty, te.Pos())
			cond = Or(cond, ok)
			bound = r
		}
		if len(cc.List) > 1 {
			bound = v
		}
		th := rest.clone()
		th.pc = And(rest.pc, cond)
		rest.pc = And(rest.pc, Not(cond))
		if th.pc != False {
			if o, ok := f.info.Implicits[cc].(*types.Var); ok {
				x.declare(th, f, o, bound)
			}
			outs = append(outs, x.block(th, f, cc.Body))
		}
	}
	if alive(rest) != nil {
		if deflt != nil {
			if o, ok := f.info.Implicits[deflt].(*types.Var); ok {
				x.declare(rest, f, o, v)
			}
			outs = append(outs, x.block(rest, f, deflt.Body))
		} else {
			outs = append(outs, rest)
		}
	}
	outs = append(outs, x.takeBreaks(f, nb, label)...)
	return x.mergeAll(outs)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedVKeys(m map[VKey]*Cell) []VKey {
	ks := make([]VKey, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.frame != b.frame {
			return a.frame < b.frame
		}
		if a.name != b.name {
			return a.name < b.name
		}
		var pa, pb token.Pos
		if a.obj != nil {
			pa = a.obj.Pos()
		}
		if b.obj != nil {
			pb = b.obj.Pos()
		}
		return pa < pb
	})
	return ks
}
