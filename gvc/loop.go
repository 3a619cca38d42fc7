package main

// Loops: constant unrolling, and invariants inferred by a checked candidate
// set (Houdini): every candidate that is kept has been proved to hold at loop
// entry and to be preserved by the body.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

var cntSort = intSort("cnt", bigZero, nil)

type loopDef struct {
	pos   token.Pos
	label string
	f     *Frame
	n     *Term
	xs    *Term
	xsG   types.Type
	mapv  *Term
	mapPl *Place
	keyS  *Sort
	bind  func(st *State, l *LoopCtx, key *Term)
	cond  func(st *State) *Term
	body  *ast.BlockStmt
	post  ast.Stmt
}

type iterOut struct {
	end, exit *State
	breaks    []*State
	next      *LoopCtx
	headPC    *Term
	key       *Term
}

func (x *Exec) forStmt(st *State, f *Frame, s *ast.ForStmt, label string) *State {
	if s.Init != nil {
		st = x.stmt(st, f, s.Init, "")
		if st == nil {
			return nil
		}
	}
	d := &loopDef{pos: s.Pos(), label: label, f: f, body: s.Body, post: s.Post}
	d.cond = func(st *State) *Term {
		if s.Cond == nil {
			return True
		}
		return x.eval(st, f, s.Cond).t
	}
	if s.Cond != nil {
		if r, ok := x.tryUnroll(st, d); ok {
			return r
		}
	}
	return x.loop(st, d)
}

func (x *Exec) rangeStmt(st *State, f *Frame, s *ast.RangeStmt, label string) *State {
	ty := f.typ(s.X)
	v := x.eval(st, f, s.X)
	d := &loopDef{pos: s.Pos(), label: label, f: f, body: s.Body}
	bindTo := func(st *State, e ast.Expr, val Val) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				v, _ := f.info.Defs[id].(*types.Var)
				x.declare(st, f, v, val)
				return
			}
		}
		x.store(st, f, e, val)
	}
	if p, ok := isPtr(ty); ok {
		v = x.derefVal(st, v, s.Pos())
		ty = p.Elem()
	}
	var kty types.Type = types.Typ[types.Int]
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			x.fail(s.Pos(), "range over %s", ty)
		}
		d.n = Ite(Le(NumI(0), v.t), v.t, NumI(0))
		kty = ty
		if u.Info()&types.IsUntyped != 0 {
			kty = types.Typ[types.Int]
		}
		d.bind = func(st *State, l *LoopCtx, _ *Term) {
			bindTo(st, s.Key, Val{t: l.k, ty: kty})
		}
	case *types.Slice, *types.Array:
		var el types.Type
		if a, ok := u.(*types.Array); ok {
			el = a.Elem()
		} else {
			el = u.(*types.Slice).Elem()
		}
		b32 := v.t.Sort == B32
		if b32 {
			d.n = NumI(32)
		} else {
			d.n = Sel(v.t, 0)
			d.xs = v.t
			d.xsG = ty
		}
		pl := v.pl
		d.bind = func(st *State, l *LoopCtx, _ *Term) {
			bindTo(st, s.Key, Val{t: l.k, ty: kty})
			if s.Value != nil {
				var ev Val
				if b32 {
					ev = Val{t: App("b32at", U8, v.t, l.k), ty: el}
				} else {
					// the slice header is fixed at entry; elements are read when reached
					cur := v.t
					if pl != nil {
						if c := x.get(st, pl); c.Sort == v.t.Sort {
							cur = Mk(v.t.Sort, Sel(v.t, 0), Sel(c, 1))
							if c == v.t {
								cur = v.t
							}
						}
					}
					ev = Val{t: Select(Sel(cur, 1), l.k), ty: el}
					if pl != nil && isRefLike(el) {
						ev.pl = pl.with(Step{kind: sIndex, k: l.k})
					}
				}
				x.touch(ev)
				bindTo(st, s.Value, ev)
			}
		}
	case *types.Map:
		d.mapv = v.t
		d.mapPl = v.pl
		d.keyS = sortOf(u.Key())
		d.bind = func(st *State, l *LoopCtx, key *Term) {
			bindTo(st, s.Key, Val{t: key, ty: u.Key()})
			if s.Value != nil {
				ev := Val{t: Select(Sel(v.t, 1), key), ty: u.Elem()}
				if v.pl != nil {
					cur := x.get(st, v.pl)
					ev.t = Select(Sel(cur, 1), key)
					if isRefLike(u.Elem()) {
						ev.pl = v.pl.with(Step{kind: sKey, k: key})
					}
				}
				bindTo(st, s.Value, ev)
			}
		}
		return x.loop(st, d)
	default:
		x.fail(s.Pos(), "range over %s", ty)
	}
	if r, ok := x.tryUnroll(st, d); ok {
		return r
	}
	return x.loop(st, d)
}

// tryUnroll executes loops whose number of iterations is a literal.
func (x *Exec) tryUnroll(st *State, d *loopDef) (*State, bool) {
	if d.n != nil && (d.n.Op != "num" || d.n.Num.BitLen() > 8 || d.n.Num.Int64() > 70) {
		return nil, false
	}
	f := d.f
	nf, c, nfr, no := x.mark()
	nr, nb, nc := len(f.rets), len(f.breaks), len(f.conts)
	work := st.clone()
	cur := work
	var outs []*State
	undo := func() (*State, bool) {
		x.rollback(nf, c, nfr, no)
		f.rets, f.breaks, f.conts = f.rets[:nr:nr], f.breaks[:nb:nb], f.conts[:nc:nc]
		return nil, false
	}
	for i := int64(0); ; i++ {
		if alive(cur) == nil {
			break
		}
		if d.n != nil {
			if i >= d.n.Num.Int64() {
				break
			}
			l := &LoopCtx{k: NumI(i), xs: d.xs, xsG: d.xsG, entry: st}
			d.bind(cur, l, nil)
		} else {
			g := d.cond(cur)
			if g == False {
				break
			}
			if g != True || i > 70 {
				return undo()
			}
		}
		mb, mc := len(f.breaks), len(f.conts)
		e := x.block(cur, f, d.body.List)
		e = x.mergeAll(append([]*State{e}, x.takeConts(f, mc, d.label)...))
		outs = append(outs, x.takeBreaks(f, mb, d.label)...)
		if e != nil && d.post != nil {
			e = x.stmt(e, f, d.post, "")
		}
		cur = e
	}
	r := x.mergeAll(append([]*State{cur}, outs...))
	return r, true
}

// ---- one iteration ----

func (x *Exec) iterate(d *loopDef, h *State, l *LoopCtx) iterOut {
	var o iterOut
	saved := h.loops
	h.loops = append(append([]*LoopCtx{}, h.loops...), l)
	headPC := h.pc
	var headMap *Term
	switch {
	case d.mapv != nil:
		o.key = x.fresh("key", d.keyS)
		m := d.mapv
		h.pc = And(h.pc, Select(Sel(m, 0), o.key), Not(Select(l.visited, o.key)))
		// visited is a proper subset of the keys here
		x.assume(h, intern(&Term{Op: "<", Args: []*Term{cardApp(l.visited), cardApp(Sel(m, 0))}, Sort: Bool}))
		if d.mapPl != nil {
			headMap = x.get(h, d.mapPl)
			x.assume(h, And(Select(Sel(headMap, 0), o.key), Eq(Select(Sel(headMap, 1), o.key), Select(Sel(m, 1), o.key))))
		}
		o.next = &LoopCtx{visited: Store(l.visited, o.key, True), entry: l.entry, mapv: l.mapv}
		d.bind(h, l, o.key)
	case d.n != nil:
		h.pc = And(h.pc, Lt(l.k, d.n))
		o.next = &LoopCtx{k: Add(l.k, NumI(1)), xs: l.xs, xsG: l.xsG, entry: l.entry}
		d.bind(h, l, nil)
	default:
		o.next = &LoopCtx{k: Add(l.k, NumI(1)), xs: l.xs, xsG: l.xsG, entry: l.entry}
		c := d.cond(h)
		o.exit = h.clone()
		o.exit.pc = And(h.pc, Not(c))
		o.exit.loops = saved
		h.pc = And(h.pc, c)
	}
	o.headPC = headPC
	f := d.f
	mb, mc := len(f.breaks), len(f.conts)
	e := x.block(h, f, d.body.List)
	e = x.mergeAll(append([]*State{e}, x.takeConts(f, mc, d.label)...))
	if e != nil && d.post != nil {
		e = x.stmt(e, f, d.post, "")
	}
	o.breaks = x.takeBreaks(f, mb, d.label)
	for _, b := range o.breaks {
		b.loops = saved
	}
	o.end = alive(e)
	if o.end != nil && headMap != nil {
		em := x.get(o.end, d.mapPl)
		if em != headMap {
			b := BVarN("mk!", d.keyS)
			x.assert(o.end, Forall([]*Term{b}, Implies(Not(Eq(b, o.key)), And(Eq(Select(Sel(em, 0), b), Select(Sel(headMap, 0), b)), Eq(Select(Sel(em, 1), b), Select(Sel(headMap, 1), b))))), "range", "a map is modified during iteration only at the current key", d.pos, nil)
		}
	}
	return o
}

func (x *Exec) newCtx(d *loopDef, st0 *State) *LoopCtx {
	l := &LoopCtx{xs: d.xs, xsG: d.xsG, entry: st0, mapv: d.mapv}
	if d.mapv != nil {
		l.visited = x.fresh("visited", arraySort(d.keyS, Bool))
		b := BVarN("vk!", d.keyS)
		x.assume(st0, Forall([]*Term{b}, Implies(Select(l.visited, b), Select(Sel(d.mapv, 0), b)), []*Term{Select(l.visited, b)}))
	} else {
		l.k = x.fresh("k", cntSort)
	}
	return l
}

// ---- modified places ----

type mods struct {
	places  []*Place // truncated places
	leaves  []*Place
	frozen  map[VKey]bool
	disown  map[VKey]bool
	whole   map[VKey]bool // variables assigned
	touched map[*Term]types.Type
}

func placeKey(p *Place) string {
	if p.konst != nil {
		return fmt.Sprintf("K%d", p.konst.id)
	}
	var b strings.Builder
	if p.root.local {
		fmt.Fprintf(&b, "L%d:%p:%s", p.root.v.frame, p.root.v.obj, p.root.v.name)
	} else {
		fmt.Fprintf(&b, "H%s:", p.root.cell)
		if p.root.ref != nil {
			fmt.Fprintf(&b, "%d", p.root.ref.id)
		}
	}
	for _, s := range p.path {
		fmt.Fprintf(&b, "/%d.%d", s.kind, s.i)
		if s.k != nil {
			fmt.Fprintf(&b, ".%d", s.k.id)
		}
	}
	return b.String()
}

func (x *Exec) sandbox(f *Frame, fn func()) {
	nf, c, nfr, no := x.mark()
	nr, nb, nc := len(f.rets), len(f.breaks), len(f.conts)
	inv := x.invState
	pc := x.created
	x.created = map[*Term]bool{}
	x.sand++
	fn()
	x.sand--
	for t := range x.created {
		if pc != nil {
			pc[t] = true
		}
	}
	x.created = pc
	x.invState = inv
	x.rollback(nf, c, nfr, no)
	f.rets, f.breaks, f.conts = f.rets[:nr:nr], f.breaks[:nb:nb], f.conts[:nc:nc]
}

func (x *Exec) sortOfPlace(st *State, p *Place) *Sort { return x.get(st, p).Sort }

func (x *Exec) findMods(st0 *State, d *loopDef) *mods {
	m := &mods{frozen: map[VKey]bool{}, disown: map[VKey]bool{}, whole: map[VKey]bool{}, touched: map[*Term]types.Type{}}
	have := map[string]bool{}
	wholeCell := map[string]bool{}
	for it := 0; ; it++ {
		if it > 6 {
			x.fail(d.pos, "modified set of the loop does not stabilise")
		}
		grew := false
		x.sandbox(d.f, func() {
			x.dry++
			lg := &modLog{touched: map[*Term]types.Type{}}
			x.logs = append(x.logs, lg)
			l := x.newCtx(d, st0)
			h := x.head(st0, m, l, nil)
			h0 := h.clone()
			o := x.iterate(d, h, l)
			x.logs = x.logs[:len(x.logs)-1]
			x.dry--
			for _, p := range lg.places {
				q := &Place{root: p.root}
				if p.root.local {
					c0, ok := st0.vars[p.root.v]
					if !ok {
						continue
					}
					if len(p.path) == 0 {
						if !m.whole[p.root.v] {
							m.whole[p.root.v] = true
							grew = true
						}
						if isRefLike(c0.ty) && o.end != nil && !m.frozen[p.root.v] {
							ce := o.end.vars[p.root.v]
							if c0.alias != nil || (ce != nil && (ce.alias != nil || ce.frozen)) {
								if ce == nil || !samePlace(c0.alias, ce.alias) || ce.frozen {
									m.frozen[p.root.v] = true
									grew = true
								} else {
									continue // still the same alias
								}
							}
						}
						if c0.alias != nil && !m.frozen[p.root.v] {
							continue
						}
						if c0.fn != nil || c0.t == nil && c0.alias == nil {
							x.fail(d.pos, "function variable assigned in a loop")
						}
					}
				} else if p.root.ref != nil && (occurs(p.root.ref, x.created) || x.created[p.root.ref]) {
					q.root.ref = nil
					q.root.sort = arraySort(RefS, p.root.sort)
					if !wholeCell[p.root.cell] {
						wholeCell[p.root.cell] = true
						grew = true
						var keep []*Place
						for _, z := range m.places {
							if !(!z.root.local && z.root.cell == p.root.cell) {
								keep = append(keep, z)
							}
						}
						m.places = append(keep, q)
					}
					continue
				} else if wholeCell[p.root.cell] && !p.root.local {
					continue
				}
				for _, s := range p.path {
					if s.kind != sField && s.kind != sDeref {
						break
					}
					q.path = append(q.path, s)
				}
				if k := placeKey(q); !have[k] {
					have[k] = true
					m.places = append(m.places, q)
					grew = true
				}
			}
			if o.end != nil {
				for k, c := range st0.vars {
					ce := o.end.vars[k]
					if c.own && ce != nil && !ce.own && !m.disown[k] {
						m.disown[k] = true
						grew = true
					}
				}
			}
			for t, ty := range lg.touched {
				m.touched[t] = ty
			}
			if !grew {
				// leaves that really change
				var ls []*Place
				seen := map[string]bool{}
				var expand func(p *Place)
				expand = func(p *Place) {
					s := x.sortOfPlace(h0, p)
					if s.Kind == SData && s != UnitS && len(s.Fields) > 0 {
						for i := range s.Fields {
							expand(p.with(Step{kind: sField, i: i}))
						}
						return
					}
					k := placeKey(p)
					if seen[k] {
						return
					}
					seen[k] = true
					if o.end == nil || x.get(h0, p) == x.get(o.end, p) {
						return
					}
					ls = append(ls, p)
				}
				for _, p := range m.places {
					q := &Place{root: p.root}
					for _, s := range p.path {
						q.path = append(q.path, norm(s))
					}
					expand(q)
				}
				m.leaves = ls
				for t := range m.touched {
					if occurs(t, x.created) || x.created[t] {
						delete(m.touched, t)
					}
				}
			}
		})
		if !grew {
			return m
		}
		m.leaves = nil
	}
}

func norm(s Step) Step {
	if s.kind == sDeref {
		return Step{kind: sField, i: 1}
	}
	return s
}

// head builds the state at the start of an arbitrary iteration.
func (x *Exec) head(st0 *State, m *mods, l *LoopCtx, defs map[string]*cand) *State {
	h := st0.clone()
	for k := range m.frozen {
		c := *h.vars[k]
		c.t = x.cellVal(st0, st0.vars[k])
		c.alias = nil
		c.frozen = true
		c.own = false
		c.bx = nil
		h.vars[k] = &c
	}
	for k := range m.disown {
		c := *h.vars[k]
		c.own = false
		h.vars[k] = &c
	}
	for k := range m.whole {
		c := *h.vars[k]
		c.bx = nil
		h.vars[k] = &c
	}
	leaves := m.leaves
	if leaves == nil {
		for _, p := range m.places {
			v := x.get(h, p)
			x.rawSet(h, p, x.freshVal("h", v.Sort))
		}
	}
	for _, p := range leaves {
		cur := x.get(h, p)
		if c, ok := defs[placeKey(p)]; ok {
			v := c.val(l)
			x.rawSet(h, p, v)
			if s := cur.Sort; s.Kind == SInt && s.Lo != nil {
				iv := ival(v)
				if iv.lo == nil || iv.lo.Cmp(s.Lo) < 0 || (s.Hi != nil && (iv.hi == nil || iv.hi.Cmp(s.Hi) > 0)) {
					x.assume(h, And(intern(&Term{Op: "<=", Args: []*Term{Num(s.Lo), v}, Sort: Bool}), rangeHi(v, s)))
				}
			}
			continue
		}
		so := cur.Sort
		if n := len(p.path); n > 0 && p.path[n-1].kind == sField && so.Kind == SInt {
			// the range is the field's, not that of the value it happens to hold
			if f := x.get(h, &Place{root: p.root, path: p.path[:n-1]}).Sort.Fields[p.path[n-1].i].Sort; f.Kind == SInt {
				so = f
			}
		}
		x.rawSet(h, p, x.fresh("h", so))
	}
	for _, p := range m.places {
		x.staleAliases(h, p)
	}
	return h
}

func (x *Exec) rawSet(st *State, p *Place, v *Term) {
	nv := setPath(x.rootGet(st, p.root), p.path, v)
	if p.root.local {
		c := *st.vars[p.root.v]
		c.t = nv
		st.vars[p.root.v] = &c
		return
	}
	x.rootSet(st, p.root, nv)
}

// ---- candidates ----

type cand struct {
	name string
	f    func(st *State, l *LoopCtx) *Term
	leaf *Place
	val  func(l *LoopCtx) *Term
	expl bool
	// of a stated clause: where it comes from and the places its variables stand for
	spec  *LoopSpec
	inv   int
	tuple []*Place
}

// agreeing drops the instances of stated clauses whose choice of variables leaves some other stated clause without an instance
func agreeing(cs []*cand) []*cand {
	compat := func(a, b []*Place) bool {
		for i := range a {
			if i < len(b) && a[i] != nil && b[i] != nil && placeKey(a[i]) != placeKey(b[i]) {
				return false
			}
		}
		return true
	}
	cur := cs
	for {
		var out []*cand
		n := map[*LoopSpec]int{}
		for _, c := range cur {
			ok := true
			if c.spec != nil {
				for k := range c.spec.Inv {
					found := false
					for _, o := range cur {
						if o.spec == c.spec && o.inv == k && compat(c.tuple, o.tuple) {
							found = true
							break
						}
					}
					if !found {
						ok = false
						break
					}
				}
			}
			if ok {
				out = append(out, c)
				n[c.spec]++
			}
		}
		for _, c := range cur {
			if c.spec != nil && n[c.spec] == 0 {
				return cs
			}
		}
		if len(out) == len(cur) {
			return out
		}
		cur = out
	}
}

func (x *Exec) topEnv(st *State) *Env {
	en := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: x.con.Pkg, old: x.env0}
	if x.env0 != nil {
		for k, v := range x.env0.vars {
			en.vars[k] = v
		}
	}
	x.refreshVars(en, st)
	en.loops = st.loops
	return en
}

// refreshVars rebinds reference-like parameters to their content in st.
func (x *Exec) refreshVars(en *Env, st *State) {
	if x.env0 == nil {
		return
	}
	for _, p := range x.pvars {
		v, ok := x.env0.vars[p.name]
		if !ok {
			continue
		}
		if p.hid != nil {
			if c := st.vars[*p.hid]; c != nil {
				v.t = c.t
			}
		}
		en.vars[p.name] = v
	}
}

func safeEval(fn func() *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				if traceLoops {
					fmt.Printf("  clause error: %v\n", r)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return fn()
}

// placesOf lists the modified places (or parts of them) of the given sort.
func (x *Exec) placesOf(st *State, m *mods, s *Sort) (ps []*Place) {
	seen := map[string]bool{}
	var expand func(p *Place)
	expand = func(p *Place) {
		t := x.sortOfPlace(st, p)
		if t == s {
			if k := placeKey(p); !seen[k] {
				seen[k] = true
				ps = append(ps, p)
			}
			return
		}
		if t.Kind == SData && t != UnitS {
			for i := range t.Fields {
				expand(p.with(Step{kind: sField, i: i}))
			}
		}
	}
	for _, p := range m.places {
		q := &Place{root: p.root}
		for _, s := range p.path {
			q.path = append(q.path, norm(s))
		}
		expand(q)
	}
	return
}

func mentions(e *SE, n string) bool {
	if e.Op == "id" && e.S == n {
		return true
	}
	for _, a := range e.Args {
		if mentions(a, n) {
			return true
		}
	}
	for _, t := range e.Trig {
		for _, a := range t {
			if mentions(a, n) {
				return true
			}
		}
	}
	return false
}

func sortedTerms(m map[*Term]types.Type) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// statedOnly: the contract says "infer none": its loop clauses are complete.
func (x *Exec) statedOnly() bool {
	return x.con.HasInfer && len(x.con.Infer) == 1 && x.con.Infer[0] == "none"
}

func (x *Exec) candidates(st0 *State, d *loopDef, m *mods, pre map[string]*cand) (cs []*cand, again bool) {
	add := func(c *cand) { cs = append(cs, c) }
	x.sandbox(d.f, func() {
		l := x.newCtx(d, st0)
		h := x.head(st0, m, l, nil)
		h0 := h.clone()
		if x.statedOnly() {
			x.dry++
		}
		o := x.iterate(d, h, l)
		if x.statedOnly() {
			x.dry--
		}
		if o.end == nil {
			return
		}
		created := map[*Term]bool{}
		for t := range x.created {
			created[t] = true
		}
		idx := l.k
		if d.mapv != nil {
			idx = o.key
		}
		delete(created, idx)
		delete(created, l.visited)
		inv := func(t *Term) bool { return !occurs(t, created) && !created[t] }
		S := map[*Term]*Term{}
		type lf struct {
			p       *Place
			h, e, v *Term
		}
		var lfs []lf
		for _, p := range m.leaves {
			lfs = append(lfs, lf{p, x.get(h0, p), x.get(o.end, p), x.get(st0, p)})
		}
		atK := func(t *Term, l2 *LoopCtx) *Term { return Subst(t, map[*Term]*Term{idx: l2.k}) }
		// values already known to follow a fold
		for _, q := range lfs {
			if c := pre[placeKey(q.p)]; c != nil {
				S[q.h] = c.val(l)
			}
		}
		S2 := map[*Term]*Term{}
		for _, q := range lfs {
			if c := pre[placeKey(q.p)]; c != nil {
				l2 := *l
				l2.k = Add(l.k, NumI(1))
				e, v := Subst(q.e, S), c.val(&l2)
				for strings.HasPrefix(e.Op, "sel") && e.Op == v.Op && e.Args[0].Sort == v.Args[0].Sort && len(e.Args[0].Sort.Fields) == 1 {
					e, v = e.Args[0], v.Args[0]
				}
				if e.Op != "num" && e.Sort.Kind != SInt {
					S2[e] = v
				}
			}
		}
		subS := func(t *Term) *Term { return Subst(Subst(t, S), S2) }
		// closed forms
		if d.mapv == nil {
			for _, q := range lfs {
				if q.h.Sort.Kind != SInt {
					continue
				}
				var incs []*Term
				var walk func(e *Term, dep int)
				walk = func(e *Term, dep int) {
					if e.Op == "ite" && dep < 4 {
						walk(e.Args[1], dep+1)
						walk(e.Args[2], dep+1)
						return
					}
					if e.Op == "mod" && dep < 4 {
						walk(e.Args[0], dep+1)
						return
					}
					c := Sub(e, q.h)
					if !occurs(c, created) && !occurs(c, map[*Term]bool{idx: true}) && c != idx && !created[c] {
						if c.Op == "num" && c.Num.BitLen() > 60 {
							return
						}
						if c.Op == "num" && c.Num.Sign() == 0 {
							return
						}
						incs = append(incs, c)
					}
				}
				walk(q.e, 0)
				if q.e.Op == "mod" && q.e.Args[1].Op == "num" {
					for _, c := range incs {
						c, q := c, q
						add(&cand{name: "closed form mod", leaf: q.p, f: func(st *State, l *LoopCtx) *Term {
							return Eq(x.get(st, q.p), Mod(Add(q.v, Mul(c, l.k)), q.e.Args[1]))
						}})
					}
				}
				for _, c := range incs {
					c, q := c, q
					val := func(l *LoopCtx) *Term { return Add(q.v, Mul(c, l.k)) }
					if _, ok := S[q.h]; !ok {
						S[q.h] = val(l)
					}
					add(&cand{name: "closed form", leaf: q.p, val: val, f: func(st *State, l *LoopCtx) *Term { return Eq(x.get(st, q.p), val(l)) }})
				}
			}
		}
		// counters and lists of the keys of a map loop
		if d.mapv != nil {
			for _, q := range lfs {
				if q.h.Sort.Kind == SInt {
					if c := Sub(q.e, q.h); c.Op == "num" && c.Num.BitLen() < 20 && c.Num.Sign() != 0 {
						q := q
						add(&cand{name: "counter", leaf: q.p, f: func(st *State, l *LoopCtx) *Term {
							return Eq(x.get(st, q.p), Add(q.v, Mul(c, cardApp(l.visited))))
						}})
					}
					continue
				}
				if q.h.Sort.Kind != SArray || q.e.Op != "store" || q.e.Args[0] != q.h || q.e.Args[2] != idx {
					continue
				}
				for _, r := range lfs {
					if r.h != q.e.Args[1] || r.h.Sort.Kind != SInt {
						continue
					}
					q, r := q, r
					get := func(st *State) (*Term, *Term) { return x.get(st, q.p), x.get(st, r.p) }
					add(&cand{name: "listed keys", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("ej!", MInt)
						a, n := get(st)
						return Forall([]*Term{b}, Implies(And(Le(r.v, b), Lt(b, n)), Select(l.visited, Select(a, b))), []*Term{Select(a, b)})
					}})
					add(&cand{name: "listed once", f: func(st *State, l *LoopCtx) *Term {
						b, c := BVarN("ej!", MInt), BVarN("ek!i", MInt)
						a, n := get(st)
						return Forall([]*Term{b, c}, Implies(And(Le(r.v, b), Lt(b, c), Lt(c, n)), Not(Eq(Select(a, b), Select(a, c)))), []*Term{Select(a, b), Select(a, c)})
					}})
					add(&cand{name: "all listed", f: func(st *State, l *LoopCtx) *Term {
						b, k := BVarN("ej!", MInt), BVarN("ekey!", d.keyS)
						a, n := get(st)
						return Forall([]*Term{k}, Implies(Select(l.visited, k), Exists([]*Term{b}, And(Le(r.v, b), Lt(b, n), Eq(Select(a, b), k)), []*Term{Select(a, b)})), []*Term{Select(l.visited, k)})
					}})
					add(&cand{name: "rest of list", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("ej!", MInt)
						a, n := get(st)
						return Forall([]*Term{b}, Implies(Or(Lt(b, r.v), Le(n, b)), Eq(Select(a, b), Select(q.v, b))), []*Term{Select(a, b)})
					}})
				}
			}
		}
		// element-wise writes
		for _, q := range lfs {
			if q.h.Sort.Kind != SArray || q.e.Op != "store" {
				if q.h.Sort.Kind == SArray && d.mapv != nil && q.h.Sort.Idx == d.keyS {
					// every visited key gets a value depending on the key only
					v := Subst(Select(q.e, o.key), map[*Term]*Term{Select(q.h, o.key): Select(q.v, o.key)})
					v = Subst(v, S)
					other := BVarN("ek!", d.keyS)
					_ = other
					if inv(v) {
						q, v := q, v
						add(&cand{name: "keywise", f: func(st *State, l *LoopCtx) *Term {
							b := BVarN("ek!", d.keyS)
							return Forall([]*Term{b}, Eq(Select(x.get(st, q.p), b), Ite(Select(l.visited, b), Subst(v, map[*Term]*Term{idx: b}), Select(q.v, b))), []*Term{Select(x.get(st, q.p), b)})
						}})
					}
				}
				continue
			}
			if q.e.Args[0] != q.h {
				continue
			}
			q := q
			at, v := subS(q.e.Args[1]), subS(q.e.Args[2])
			if d.mapv != nil && at == idx {
				v = Subst(v, map[*Term]*Term{Select(q.h, idx): Select(q.v, idx)})
			}
			if !inv(at) || !inv(v) {
				again = true
				continue
			}
			if d.mapv != nil {
				if at == idx {
					add(&cand{name: "keywise", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("ek!", d.keyS)
						return Forall([]*Term{b}, Eq(Select(x.get(st, q.p), b), Ite(Select(l.visited, b), Subst(v, map[*Term]*Term{idx: b}), Select(q.v, b))), []*Term{Select(x.get(st, q.p), b)})
					}})
				}
				continue
			}
			if v == True && q.v.Sort.Elem == Bool && occurs(at, map[*Term]bool{idx: true}) {
				add(&cand{name: "added", f: func(st *State, l *LoopCtx) *Term {
					b := BVarN("ej!", MInt)
					t := Subst(at, map[*Term]*Term{idx: b})
					var pats [][]*Term
					if t.Op == "select" && t.Args[1] == b {
						pats = [][]*Term{{t}}
					}
					return Forall([]*Term{b}, Implies(And(Le(NumI(0), b), Lt(b, l.k)), Select(x.get(st, q.p), t)), pats...)
				}})
				add(&cand{name: "only added", f: func(st *State, l *LoopCtx) *Term {
					b, k := BVarN("ej!", MInt), BVarN("ekey!", at.Sort)
					t := Subst(at, map[*Term]*Term{idx: b})
					var pats [][]*Term
					if t.Op == "select" && t.Args[1] == b {
						pats = [][]*Term{{t}}
					}
					cur := x.get(st, q.p)
					return Forall([]*Term{k}, Implies(Select(cur, k), Or(Select(q.v, k), Exists([]*Term{b}, And(Le(NumI(0), b), Lt(b, l.k), Eq(t, k)), pats...))), []*Term{Select(cur, k)})
				}})
				add(&cand{name: "none removed", f: func(st *State, l *LoopCtx) *Term {
					k := BVarN("ekey!", at.Sort)
					return Forall([]*Term{k}, Implies(Select(q.v, k), Select(x.get(st, q.p), k)), []*Term{Select(q.v, k)}, []*Term{Select(x.get(st, q.p), k)})
				}})
				add(&cand{name: "one new key each time", f: func(st *State, l *LoopCtx) *Term {
					return Eq(cardApp(x.get(st, q.p)), Add(cardApp(q.v), l.k))
				}})
				continue
			}
			if at.Sort.Kind == SInt {
				c := Sub(at, idx)
				if !occurs(c, map[*Term]bool{idx: true}) {
					add(&cand{name: "elementwise", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("ej!", MInt)
						j := Sub(b, c)
						return Forall([]*Term{b}, Eq(Select(x.get(st, q.p), b), Ite(And(Le(c, b), Lt(b, Add(c, l.k))), Subst(v, map[*Term]*Term{idx: j}), Select(q.v, b))), []*Term{Select(x.get(st, q.p), b)})
					}})
				} else if c := Add(at, idx); !occurs(c, map[*Term]bool{idx: true}) {
					add(&cand{name: "elementwise down", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("ej!", MInt)
						return Forall([]*Term{b}, Eq(Select(x.get(st, q.p), b), Ite(And(Le(b, c), Lt(Sub(c, l.k), b)), Subst(v, map[*Term]*Term{idx: Sub(c, b)}), Select(q.v, b))), []*Term{Select(x.get(st, q.p), b)})
					}})
				}
			}
		}
		// path condition of completed iterations
		hp := map[*Term]bool{}
		for _, c := range conjuncts(o.headPC) {
			hp[c] = true
		}
		for _, c := range conjuncts(o.end.pc) {
			if hp[c] {
				continue
			}
			c := subS(c)
			if !inv(c) {
				again = true
				continue
			}
			if !occurs(c, map[*Term]bool{idx: true}) {
				continue
			}
			if d.mapv != nil {
				if occurs(c, map[*Term]bool{l.visited: true}) {
					continue
				}
				add(&cand{name: "not exited", f: func(st *State, l *LoopCtx) *Term {
					b := BVarN("nk!", d.keyS)
					return Forall([]*Term{b}, Implies(Select(l.visited, b), Subst(c, map[*Term]*Term{idx: b})), []*Term{Select(l.visited, b)})
				}})
				continue
			}
			if d.n != nil && c == Lt(idx, d.n) {
				continue
			}
			off := idxOffset(c, idx)
			add(&cand{name: "not exited", f: func(st *State, l *LoopCtx) *Term {
				b := BVarN("nj!", MInt)
				j := Sub(b, off)
				return Forall([]*Term{b}, Implies(And(Le(NumI(0), j), Lt(j, l.k)), Subst(c, map[*Term]*Term{idx: j})))
			}})
		}
		// weakened loop condition
		if d.cond != nil && d.n == nil && d.mapv == nil {
			if g := x.condTerm(st0, d); g != nil && g != True {
				for _, c := range conjuncts(g) {
					if c.Op == "<" || c.Op == "<=" || (c.Op == "not" && c.Args[0].Op == "=" && c.Args[0].Args[0].Sort.Kind == SInt) {
						nth := c
						_ = nth
						add(&cand{name: "loop bound", f: func(st *State, l *LoopCtx) *Term {
							g := x.condTerm(st, d)
							if g == nil {
								return False
							}
							var out []*Term
							for _, c := range conjuncts(g) {
								if c.Op == "<" {
									out = append(out, Le(c.Args[0], c.Args[1]))
								}
								if c.Op == "not" && c.Args[0].Op == "<=" {
									out = append(out, Le(c.Args[0].Args[1], c.Args[0].Args[0]))
								}
								if c.Op == "<=" {
									out = append(out, Le(c.Args[0], Add(c.Args[1], NumI(1))))
								}
								if c.Op == "not" && c.Args[0].Op == "=" && c.Args[0].Args[0].Sort.Kind == SInt {
									out = append(out, Le(c.Args[0].Args[0], c.Args[0].Args[1]))
								}
							}
							return And(out...)
						}})
						break
					}
				}
			}
		}
		// objects that existed before the loop are not changed through fresh references
		for _, q := range lfs {
			q := q
			if q.h.Sort.Kind == SArray && q.h.Sort.Idx == RefS && !q.p.root.local {
				al := st0.cell("$alloc", arraySort(RefS, Bool))
				if q.p.root.cell == "$alloc" {
					add(&cand{name: "allocation grows", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("rf!", RefS)
						return Forall([]*Term{b}, Implies(Select(q.v, b), Select(x.get(st, q.p), b)), []*Term{Select(x.get(st, q.p), b)})
					}})
				} else {
					add(&cand{name: "old objects unchanged", f: func(st *State, l *LoopCtx) *Term {
						b := BVarN("rf!", RefS)
						return Forall([]*Term{b}, Implies(Select(al, b), Eq(Select(x.get(st, q.p), b), Select(q.v, b))), []*Term{Select(x.get(st, q.p), b)})
					}})
				}
			}
		}
		if x.statedOnly() {
			var ks []*cand
			for _, c := range cs {
				switch c.name {
				case "counter", "closed form", "loop bound", "allocation grows", "old objects unchanged":
					ks = append(ks, c)
				}
			}
			cs, again = ks, false
		}
		// folds declared in the specification
		if d.mapv == nil && !x.statedOnly() {
			cs = append(cs, x.foldCands(st0, d, m, inv)...)
		}
		// global invariants
		gdirty := false
		gc := map[string]bool{}
		for _, c := range x.globalCells() {
			gc[c] = true
		}
		for _, p := range m.leaves {
			if !p.root.local && gc[p.root.cell] {
				gdirty = true
			}
		}
		if gdirty {
			for i, g := range x.db.sf.Globals {
				i, g := i, g
				if !x.db.pkgLoaded(x.db.sf.GlobalPkg[i]) {
					continue
				}
				add(&cand{name: "global", expl: true, f: func(st *State, l *LoopCtx) *Term {
					en := &Env{x: x, st: st, vars: map[string]SVal{}, pkg: x.db.sf.GlobalPkg[i]}
					return en.boolT(g.E)
				}})
			}
		}
		_ = atK
		_ = lfs
	})
	// explicit clauses
	for li := range x.con.Loops {
		ls := &x.con.Loops[li]
		if ls.Depth > 0 && ls.Depth != len(st0.loops)+1 {
			continue
		}
		for ci, c := range ls.Inv {
			ci, c := ci, c
			xsList := []*Term{nil}
			if mentions(c.E, "$xs") {
				xsList = nil
				if d.xs != nil {
					xsList = append(xsList, d.xs)
				}
				for _, t := range sortedTerms(m.touched) {
					if t != d.xs {
						xsList = append(xsList, t)
					}
				}
			}
			var tuples [][]*Place
			tuples = append(tuples, nil)
			for _, v := range ls.Vars {
				if !mentions(c.E, v.Name) && !mentions(c.E, v.Name+"0") {
					for i := range tuples {
						tuples[i] = append(tuples[i], nil)
					}
					continue
				}
				ty := x.db.stype(x.con.Pkg, v.Type)
				var nt [][]*Place
				for _, tp := range tuples {
					var opts []*Place
					if v.Const {
						for _, t := range x.constPool(st0, d, m)[ty.S.SMT()] {
							opts = append(opts, &Place{konst: t})
						}
					} else {
						opts = x.placesOf(st0, m, ty.S)
					}
				next:
					for _, p := range opts {
						for _, o := range tp {
							if o != nil && placeKey(o) == placeKey(p) {
								continue next
							}
						}
						nt = append(nt, append(append([]*Place{}, tp...), p))
					}
				}
				tuples = nt
			}
			if traceLoops {
				fmt.Printf("  clause %s: %d tuples %d xs\n", c.Text, len(tuples), len(xsList))
			}
			for _, xs := range xsList {
				for _, tuple := range tuples {
					xs, tuple := xs, tuple
					ls := ls
					f := func(st *State, l *LoopCtx) *Term {
						en := x.topEnv(st)
						for i, v := range ls.Vars {
							if i < len(tuple) && tuple[i] != nil {
								ty := x.db.stype(x.con.Pkg, v.Type)
								en.vars[v.Name] = SVal{t: x.get(st, tuple[i]), g: ty.G}
								en.vars[v.Name+"0"] = SVal{t: x.get(st0, tuple[i]), g: ty.G}
							}
						}
						l2 := *l
						if xs != nil {
							l2.xs = xs
							l2.xsG = m.touched[xs]
							if xs == d.xs {
								l2.xsG = d.xsG
							}
						}
						en.loops = append(append([]*LoopCtx{}, st0.loops...), &l2)
						return en.boolT(c.E)
					}
					l0 := x.ctx0(d, st0)
					if safeEval(func() *Term { return f(st0, l0) }) == nil {
						continue
					}
					add(&cand{name: "inv " + c.Label + " " + c.Text, f: f, expl: true, spec: ls, inv: ci, tuple: tuple})
				}
			}
		}
	}
	return cs, again
}

func (x *Exec) condTerm(st *State, d *loopDef) (t *Term) {
	x.sandbox(d.f, func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); ok {
					t = nil
					return
				}
				panic(r)
			}
		}()
		t = d.cond(st.clone())
	})
	return t
}

func (x *Exec) ctx0(d *loopDef, st0 *State) *LoopCtx {
	l := &LoopCtx{xs: d.xs, xsG: d.xsG, entry: st0, mapv: d.mapv}
	if d.mapv != nil {
		l.visited = ConstArr(arraySort(d.keyS, Bool), False)
	} else {
		l.k = NumI(0)
	}
	return l
}

func (x *Exec) ctxN(d *loopDef, st0 *State) *LoopCtx {
	l := &LoopCtx{xs: d.xs, xsG: d.xsG, entry: st0, mapv: d.mapv}
	if d.mapv != nil {
		l.visited = Sel(d.mapv, 0)
	} else {
		l.k = d.n
	}
	return l
}

// foldCands proposes accumulators that follow a fold of the specification.
// constPool: loop-invariant values by sort
func (x *Exec) constPool(st0 *State, d *loopDef, m *mods) map[string][]*Term {
	pool := map[string][]*Term{}
	seen := map[*Term]bool{}
	put := func(t *Term) {
		for t != nil && !seen[t] {
			seen[t] = true
			pool[t.Sort.SMT()] = append(pool[t.Sort.SMT()], t)
			if t.Sort.Kind == SData && (t.Sort.Class == "ptr" || t.Sort.Class == "struct" && len(t.Sort.Fields) == 1) {
				t = unw(t)
				continue
			}
			if isMap(t) {
				t = Sel(t, 0)
				continue
			}
			break
		}
	}
	if d.xs != nil {
		put(d.xs)
	}
	for _, t := range sortedTerms(m.touched) {
		put(t)
	}
	for _, k := range sortedVKeys(st0.vars) {
		c := st0.vars[k]
		if m.whole[k] || c.stale {
			continue
		}
		if t := x.cellVal(st0, c); t != nil {
			put(t)
			if t.Sort.Kind == SData && t.Sort.Class == "struct" && len(t.Sort.Fields) > 1 {
				for i := range t.Sort.Fields {
					put(Sel(t, i))
				}
			}
		}
	}
	if x.env0 != nil {
		for _, p := range x.pvars {
			if p.t0 != nil {
				put(p.t0)
			}
		}
	}
	return pool
}

func (x *Exec) foldCands(st0 *State, d *loopDef, m *mods, inv func(*Term) bool) []*cand {
	var cs []*cand
	pool := x.constPool(st0, d, m)
	var names []string
	for n, f := range x.db.funcs {
		if x.con.HasInfer && !has(x.con.Infer, n) {
			continue
		}
		if f.Kind == "fold" && x.db.pkgLoaded(f.Pkg) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	eqSort := func(a, b *Sort) bool { return a.SMT() == b.SMT() }
	var parents []*Place
	for _, p := range m.leaves {
		if n := len(p.path); n > 0 && p.path[n-1].kind == sField {
			if s := x.sortOfPlace(st0, &Place{root: p.root, path: p.path[:n-1]}); s.Kind == SData && s.Class == "slice" {
				continue
			}
		}
		parents = append(parents, p)
	}
	for _, p := range m.places {
		s := x.sortOfPlace(st0, p)
		if s.Kind == SData && s.Class == "slice" {
			parents = append(parents, p)
		}
	}
	// other leaves with a spec-visible compound parent
	for _, fn := range names {
		sf := x.db.funcs[fn]
		if !sf.ready {
			x.db.prepare(sf)
		}
		np := len(sf.ptys) - 1
		// enumerate assignments of the parameters; hole: index of a parameter bound pointwise
		enum := func(want func(i int) []*Term) [][]*Term {
			res := [][]*Term{{}}
			for i := 0; i < np; i++ {
				opts := want(i)
				if len(opts) > 6 {
					opts = opts[:6]
				}
				var nr [][]*Term
				for _, r := range res {
					for _, o := range opts {
						nr = append(nr, append(append([]*Term{}, r...), o))
					}
				}
				res = nr
				if len(res) > 48 {
					res = res[:48]
				}
			}
			return res
		}
		for _, p := range parents {
			p := p
			v0 := x.get(st0, p)
			isLeaf := !(v0.Sort.Kind == SData)
			mk := func(args []*Term, l *LoopCtx) *Term {
				return App(fn, sf.ret.S, append(append([]*Term{}, args...), l.k)...)
			}
			wrapped := isLeaf && wrapsSort(sf.ret.S, v0.Sort)
			if wrapped {
				mk0 := mk
				mk = func(args []*Term, l *LoopCtx) *Term { return unwTo(mk0(args, l), v0.Sort) }
			}
			if eqSort(v0.Sort, sf.ret.S) || wrapped {
				for _, as := range enum(func(i int) []*Term {
					opts := pool[sf.ptys[i].S.SMT()]
					if eqSort(sf.ptys[i].S, v0.Sort) {
						opts = append([]*Term{v0}, opts...)
					}
					if wrapped && eqSort(sf.ptys[i].S, sf.ret.S) {
						opts = append([]*Term{wrapSort(v0, sf.ret.S)}, opts...)
					}
					return opts
				}) {
					as := as
					uses0 := false
					for _, a := range as {
						if a == v0 {
							uses0 = true
						}
					}
					forms := []func(l *LoopCtx) *Term{func(l *LoopCtx) *Term { return mk(as, l) }}
					if v0.Sort.Kind == SInt && !uses0 {
						if zeroTerm(v0) {
							forms = append(forms, func(l *LoopCtx) *Term { return Mod(mk(as, l), Num(pow2(64))) })
						} else {
							forms = append(forms, func(l *LoopCtx) *Term { return Add(v0, mk(as, l)) }, func(l *LoopCtx) *Term { return Mod(Add(v0, mk(as, l)), Num(pow2(64))) })
						}
					}
					if v0.Sort == Bool && !uses0 {
						forms = append(forms, func(l *LoopCtx) *Term { return Not(mk(as, l)) })
					}
					for _, val := range forms {
						val := val
						c := &cand{name: "fold " + fn, f: func(st *State, l *LoopCtx) *Term { return Eq(x.get(st, p), val(l)) }}
						if isLeaf {
							c.leaf = p
							c.val = val
						}
						cs = append(cs, c)
					}
				}
			}
			// pointwise
			if v0.Sort.Kind == SArray && eqSort(v0.Sort.Elem, sf.ret.S) {
				for hole := 0; hole < np; hole++ {
					if !eqSort(sf.ptys[hole].S, v0.Sort.Idx) {
						continue
					}
					hole := hole
					u := BVarN("fu!"+mangle(v0.Sort.Idx.Name), v0.Sort.Idx)
					init := Select(v0, u)
					for _, as := range enum(func(i int) []*Term {
						if i == hole {
							return []*Term{u}
						}
						opts := pool[sf.ptys[i].S.SMT()]
						if eqSort(sf.ptys[i].S, v0.Sort.Elem) {
							opts = append([]*Term{init}, opts...)
						}
						return opts
					}) {
						as := as
						uses0 := false
						for _, a := range as {
							if a == init {
								uses0 = true
							}
						}
						var forms []func(l *LoopCtx) *Term
						forms = append(forms, func(l *LoopCtx) *Term { return mk(as, l) })
						if v0.Sort.Elem == Bool && !uses0 {
							forms = append(forms, func(l *LoopCtx) *Term { return Or(init, mk(as, l)) }, func(l *LoopCtx) *Term { return And(init, Not(mk(as, l))) })
						}
						for _, val := range forms {
							val := val
							cs = append(cs, &cand{name: "pointwise " + fn, f: func(st *State, l *LoopCtx) *Term {
								cur := Select(x.get(st, p), u)
								return Forall([]*Term{u}, Eq(cur, val(l)), []*Term{cur}, []*Term{mk(as, l)})
							}})
						}
					}
				}
			}
		}
	}
	return cs
}

// idxOffset: the constant c when idx only occurs below functions as idx + c (so that
// quantifying over idx + c gives usable patterns), and 0 otherwise.
func idxOffset(t, idx *Term) *Term {
	var off *Term
	ok := true
	is := map[*Term]bool{idx: true}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !occurs(t, is) && t != idx {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			if a.Sort.Kind == SInt && (a == idx || occurs(a, is)) && (t.Op == "app" || t.Op == "select") {
				if c := Sub(a, idx); !occurs(c, is) && c != idx {
					if off == nil {
						off = c
					} else if off != c {
						ok = false
					}
					continue
				}
			}
			walk(a)
		}
	}
	walk(t)
	if off == nil || !ok || off.Op != "num" {
		return NumI(0)
	}
	return off
}

// foldApps calls f on every application of a fold in t.
func foldApps(t *Term, f func(*Term)) {
	if t.Op == "app" && folds[t.Name] != nil {
		f(t)
	}
	for _, a := range t.Args {
		foldApps(a, f)
	}
}

// wrapsSort: s is a chain of one-field structs around t.
func wrapsSort(s, t *Sort) bool {
	n := 0
	for s.Kind == SData && s.Class == "struct" && len(s.Fields) == 1 && s.SMT() != t.SMT() {
		s = s.Fields[0].Sort
		n++
	}
	return n > 0 && s.SMT() == t.SMT()
}

func unwTo(v *Term, t *Sort) *Term {
	for v.Sort.SMT() != t.SMT() {
		v = Sel(v, 0)
	}
	return v
}

func wrapSort(v *Term, s *Sort) *Term {
	if v.Sort.SMT() == s.SMT() {
		return v
	}
	return Mk(s, wrapSort(v, s.Fields[0].Sort))
}

func zeroTerm(t *Term) bool { return t.Op == "num" && t.Num.Sign() == 0 }

// ---- proving candidates ----

var lastQs []string

var traceLoops = os.Getenv("GVC_TRACE") != ""

type keptSet struct {
	all  []string
	kept []bool
}

type query struct {
	facts []*Term
	goal  *Term
}

func (x *Exec) proveMany(qs []query, timeout time.Duration) []bool {
	res := make([]bool, len(qs))
	texts := make([]string, len(qs))
	for i, q := range qs {
		if q.goal == True {
			res[i] = true
			continue
		}
		if q.goal == False {
			continue
		}
		texts[i] = buildQuery(q.facts, q.goal, x.noLemma)
	}
	var wg sync.WaitGroup
	for i := range qs {
		if texts[i] == "" {
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = solve(texts[i], 0, timeout).Status == "unsat"
		}()
	}
	wg.Wait()
	return res
}

var dumpNo int

const candTimeout = 3 * time.Second

func withPC(facts []*Term, pc *Term) []*Term {
	return append(append([]*Term{}, facts...), conjuncts(pc)...)
}

func (x *Exec) houdini(st0 *State, d *loopDef, m *mods, cs []*cand) []*cand {
	if len(cs) == 0 {
		return nil
	}
	// initiation
	l0 := x.ctx0(d, st0)
	facts := withPC(x.facts, st0.pc)
	var qs []query
	for _, c := range cs {
		qs = append(qs, query{facts, c.f(st0, l0)})
	}
	var kept []*cand
	for i, ok := range x.proveMany(qs, candTimeout) {
		if ok {
			kept = append(kept, cs[i])
		} else if traceLoops {
			fmt.Fprintf(os.Stderr, "  [%s] not initially: %s\n", x.posStr(d.pos), cs[i].name)
		}
	}
	kept = agreeing(kept)
	for len(kept) > 0 {
		var ok []bool
		done := false
		x.sandbox(d.f, func() {
			_, end, next, fs := x.runHead(st0, d, m, kept)
			if end == nil {
				done = true
				return
			}
			fs = withPC(fs, end.pc)
			var qs []query
			var all []*Term
			for _, c := range kept {
				g := c.f(end, next)
				qs = append(qs, query{fs, g})
				all = append(all, g)
			}
			if len(kept) <= 12 {
				if x.proveMany([]query{{fs, And(all...)}}, candTimeout)[0] {
					done = true
					return
				}
			}
			ok = x.proveMany(qs, candTimeout)
			if os.Getenv("GVC_DUMPC") != "" {
				lastQs = nil
				for _, q := range qs {
					lastQs = append(lastQs, buildQuery(q.facts, q.goal, nil))
				}
			}
		})
		if done {
			break
		}
		var nk []*cand
		dropInferred := false
		for i, k := range ok {
			if !k && !kept[i].expl {
				dropInferred = true
			}
		}
		for i, k := range ok {
			if k || kept[i].expl && dropInferred { // stated clauses get another chance without the noise
				nk = append(nk, kept[i])
			} else if traceLoops {
				fmt.Fprintf(os.Stderr, "  [%s] not preserved: %s\n", x.posStr(d.pos), kept[i].name)
				if dir := os.Getenv("GVC_DUMPC"); dir != "" && kept[i].expl && strings.HasSuffix(x.posStr(d.pos), os.Getenv("GVC_DUMPAT")) {
					dumpNo++
					os.WriteFile(fmt.Sprintf("%s/c%d.smt2", dir, dumpNo), []byte(lastQs[i]), 0644)
				}
			}
		}
		if len(nk) == len(kept) {
			break
		}
		kept = nk
	}
	if traceLoops {
		for _, c := range kept {
			fmt.Fprintf(os.Stderr, "  [%s] kept: %s\n", x.posStr(d.pos), c.name)
		}
	}
	return kept
}

func chooseDefs(kept []*cand) map[string]*cand {
	defs := map[string]*cand{}
	for _, c := range kept {
		if c.val != nil {
			k := placeKey(c.leaf)
			if _, ok := defs[k]; !ok {
				defs[k] = c
			}
		}
	}
	return defs
}

// assumeCands assumes the kept candidates at a head state.
func (x *Exec) assumeCands(h *State, l *LoopCtx, kept []*cand) {
	g := false
	for _, c := range kept {
		t := c.f(h, l)
		for _, cc := range conjuncts(t) {
			x.assume(h, cc)
		}
		if c.name == "global" {
			g = true
		}
	}
	if g {
		x.noteInv(h)
	}
}

func (x *Exec) runHead(st0 *State, d *loopDef, m *mods, kept []*cand) (iterOut, *State, *LoopCtx, []*Term) {
	l := x.newCtx(d, st0)
	h := x.head(st0, m, l, chooseDefs(kept))
	x.assumeCands(h, l, kept)
	for _, c := range kept { // definition of the folds followed, at the next iteration
		if (c.val != nil || c.expl) && l.k != nil {
			l2 := *l
			l2.k = Add(l.k, NumI(1))
			var v *Term
			if c.expl {
				v = c.f(h, &l2)
			} else {
				v = c.val(&l2)
			}
			foldApps(v, func(t *Term) {
				f := folds[t.Name]
				last := t.Args[len(t.Args)-1]
				if last != l2.k && occurs(last, map[*Term]bool{l.k: true}) { // counting down
					m := map[*Term]*Term{f.K: last}
					for i, p := range f.Params {
						m[p] = t.Args[i]
					}
					m[f.Acc] = t
					nx := App(f.Name, f.Sort, append(append([]*Term{}, t.Args[:len(t.Args)-1]...), Add(last, NumI(1)))...)
					def := Implies(Le(NumI(0), last), Eq(nx, Subst(f.Step, m)))
					if t.fb {
						fv := map[*Term]bool{}
						collectFree(t, fv)
						def = Forall(sortedT(fv), def, []*Term{nx})
					}
					x.assume(h, def)
				}
				if last == l2.k {
					m := map[*Term]*Term{f.K: l.k}
					for i, p := range f.Params {
						m[p] = t.Args[i]
					}
					m[f.Acc] = App(f.Name, f.Sort, append(append([]*Term{}, t.Args[:len(t.Args)-1]...), l.k)...)
					def := Implies(Le(NumI(0), l.k), Eq(t, Subst(f.Step, m)))
					if t.fb {
						fv := map[*Term]bool{}
						collectFree(t, fv)
						def = Forall(sortedT(fv), def, []*Term{t})
					}
					x.assume(h, def)
				}
			})
		}
	}
	o := x.iterate(d, h, l)
	return o, o.end, o.next, x.facts[:len(x.facts):len(x.facts)]
}

func (x *Exec) loop(st0 *State, d *loopDef) *State {
	saved := st0.loops
	m := x.findMods(st0, d)
	var kept []*cand
	if x.dry == 0 {
		cs, again := x.candidates(st0, d, m, nil)
		if again {
			// values that follow a fold can be substituted in the other candidates
			var fs []*cand
			for _, c := range cs {
				if c.val != nil {
					fs = append(fs, c)
				}
			}
			if pre := chooseDefs(x.houdini(st0, d, m, fs)); len(pre) > 0 {
				cs, _ = x.candidates(st0, d, m, pre)
			}
		}
		// within a loop, what failed under stronger assumptions fails again
		key := ""
		if len(st0.loops) > 0 && x.statedOnly() {
			key = x.posStr(d.pos) + d.f.at
			if ks, ok := x.kept[key]; ok {
				var nc []*cand
				for i, c := range cs {
					if len(ks.all) == len(cs) && ks.all[i] == c.name && !ks.kept[i] {
						continue
					}
					nc = append(nc, c)
				}
				if traceLoops && len(nc) < len(cs) {
					fmt.Fprintf(os.Stderr, "  [%s] %d candidates dropped before\n", x.posStr(d.pos), len(cs)-len(nc))
				}
				cs, key = nc, ""
			}
		}
		kept = x.houdini(st0, d, m, cs)
		if key != "" {
			ks := keptSet{}
			for _, c := range cs {
				ks.all = append(ks.all, c.name)
				in := false
				for _, k := range kept {
					in = in || k == c
				}
				ks.kept = append(ks.kept, in)
			}
			if x.kept == nil {
				x.kept = map[string]keptSet{}
			}
			x.kept[key] = ks
		}
	}
	f := d.f
	if x.dry == 0 && x.sand == 0 {
		l0 := x.ctx0(d, st0)
		for _, c := range kept {
			g := c.f(st0, l0)
			x.obls = append(x.obls, &Obl{Fn: x.con.Key, Kind: "loop-init", Label: "invariant holds on entry: " + c.name, Pos: x.posStr(d.pos), Facts: x.facts[:len(x.facts):len(x.facts)], PC: st0.pc, Goal: g})
		}
	}
	nf := len(x.facts)
	nr := len(f.rets)
	o, end, next, fs := x.runHead(st0, d, m, kept)
	if x.dry == 0 && x.sand == 0 && end != nil {
		for _, c := range kept {
			x.obls = append(x.obls, &Obl{Fn: x.con.Key, Kind: "loop-step", Label: "invariant preserved: " + c.name, Pos: x.posStr(d.pos), Facts: fs, PC: end.pc, Goal: c.f(end, next)})
		}
	}
	if x.dry == 0 && x.sand == 0 && end != nil && d.n == nil && d.mapv == nil && x.con.Steps != nil {
		n := x.topEnv(st0).term(x.con.Steps.E)
		x.obls = append(x.obls, &Obl{Fn: x.con.Key, Kind: "terminates", Label: "loop runs at most this often: " + x.con.Steps.Text, Pos: x.posStr(d.pos), Facts: fs, PC: end.pc, Goal: Le(next.k, n)})
	}
	var exit *State
	if d.n != nil || d.mapv != nil {
		if len(f.rets) == nr && len(o.breaks) == 0 {
			x.facts = x.facts[:nf:nf]
		}
		l := x.ctxN(d, st0)
		exit = x.head(st0, m, l, chooseDefs(kept))
		exit.loops = saved
		x.assumeCands(exit, l, kept)
	} else {
		exit = o.exit
		exit.loops = saved
	}
	if alive(exit) == nil {
		exit = nil
	}
	// variables declared by the loop body leave scope
	for _, b := range append([]*State{exit}, o.breaks...) {
		if b == nil {
			continue
		}
		for k := range b.vars {
			if _, ok := st0.vars[k]; !ok {
				delete(b.vars, k)
			}
		}
	}
	return x.mergeAll(append([]*State{exit}, o.breaks...))
}
