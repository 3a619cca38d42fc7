package main

// Query construction and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type FoldDef struct {
	Name   string
	Params []*Term // bvars (excluding index)
	K      *Term   // bvar: index of the step being applied (0-based)
	Acc    *Term   // bvar
	Base   *Term
	Step   *Term // over Params, K, Acc
	Sort   *Sort
	Props  []string
}

var folds = map[string]*FoldDef{}

type Axiom struct {
	Name  string
	T     *Term
	heads map[string]bool // symbols that make it relevant: all must be present in the query
	Lemma bool
	inst  string // head symbol of a trigger at which ground instances are stated outright
}

// instHead returns the symbol to instantiate t at, if t has a single trigger f(x1,..,xn) over
// distinct bound variables and defines list operations or folds under its binders, which are
// only given meaning for ground terms.
func instHead(t *Term) string {
	if t.Op != "forall" || len(t.Pats) != 1 || len(t.Pats[0]) != 1 || t.Pats[0][0].Op != "app" {
		return ""
	}
	p := t.Pats[0][0]
	vs := map[*Term]bool{}
	for _, a := range p.Args {
		if a.Op != "bvar" || vs[a] {
			return ""
		}
		vs[a] = true
	}
	if len(vs) != len(t.BV) {
		return ""
	}
	special := false
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.fb && x.Op != "forall" && x.Op != "exists" {
			return
		}
		seen[x] = true
		if x.Op == "app" {
			for _, pre := range []string{"cat_", "sub_", "splice_", "sortasc_"} {
				if strings.HasPrefix(x.Name, pre) {
					special = true
				}
			}
			if _, ok := folds[x.Name]; ok {
				special = true
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t.Args[0])
	if !special {
		return ""
	}
	return p.Name
}

var axioms []*Axiom

// symbols collects app/lit names in a term
func symbols(t *Term, out map[string]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" {
			out[t.Name] = true
		}
		if t.Op == "lit" {
			out[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				rec(a)
			}
		}
	}
	rec(t)
}

func sortHasArray(s *Sort) bool {
	if s.Kind == SArray {
		return true
	}
	for _, f := range s.Fields {
		if sortHasArray(f.Sort) {
			return true
		}
	}
	return false
}

type queryBuilder struct {
	asserts   []*Term
	seen      map[*Term]bool
	queue     []*Term // terms to scan
	emitted   map[*Term]bool
	syms      map[string]bool
	axDone    map[*Axiom]bool
	slices    []*Term // ground slice/map terms for canonicity
	mapsT     []*Term
	needExt   bool
	unfolds   map[*Term]int
	noLemma   map[string]bool
	selects   map[*Term][]*Term // array -> ground indices
	nunf      int
	ninst     map[*Axiom]int
	lists     map[string][]*Term
	ofSort    map[*Sort][]*Term
	chains    map[*Sort][][]int
	chainSeen map[string]bool
	nlist     int
}

func (q *queryBuilder) assert(t *Term) {
	if t == True || q.emitted[t] {
		return
	}
	q.emitted[t] = true
	q.asserts = append(q.asserts, t)
	q.scan(t)
}

func (q *queryBuilder) scan(t *Term) {
	if q.seen[t] {
		return
	}
	q.seen[t] = true
	for _, a := range t.Args {
		q.scan(a)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			q.scan(a)
		}
	}
	if t.Op == "app" {
		q.syms[t.Name] = true
	}
	if t.Op == "lit" {
		q.syms[t.Name] = true
	}
	if t.Op == "=" && sortHasArray(t.Args[0].Sort) {
		q.needExt = true
	}
	if t.Sort.Kind == SData && (t.Op == "var" || t.Op == "app" || t.Op == "sel" || t.Op == "select") && t.Op != "bvar" {
		q.noteTerm(t)
	}
	if t.fb {
		if (t.Op == "app" || t.Op == "sel" || t.Op == "select") && t.Sort.Kind == SInt && t.Sort.Lo != nil && !badPattern(t) {
			g := generalApp(t)
			// only what comes out of a function is in range whatever it is applied to: a bound variable
			// stands for any value of its SMT sort
			root := g
			for root.Op == "sel" || root.Op == "select" {
				root = root.Args[0]
			}
			if root.Op == "bvar" {
				q.noteChain(t)
				return
			}
			fv := map[*Term]bool{}
			collectFree(g, fv)
			var bv []*Term
			m := map[*Term]*Term{}
			for i, v := range sortedT(fv) {
				c := BVarN(fmt.Sprintf("rg!%d", i), v.Sort)
				m[v] = c
				bv = append(bv, c)
			}
			g = Subst(g, m)
			q.assert(Forall(bv, rangeFact(g), []*Term{g}))
		}
		return
	}
	q.queue = append(q.queue, t)
}

// noteChain: some fields of a bound variable are looked at; the range facts about the same fields of the
// terms it may stand for are stated one by one
func (q *queryBuilder) noteChain(t *Term) {
	var idx []int
	for t.Op == "sel" {
		idx = append([]int{t.Idx}, idx...)
		t = t.Args[0]
	}
	key := fmt.Sprint(t.Sort.Name, idx)
	if len(idx) == 0 || q.chainSeen[key] {
		return
	}
	if q.chainSeen == nil {
		q.chainSeen = map[string]bool{}
		q.chains = map[*Sort][][]int{}
	}
	q.chainSeen[key] = true
	q.chains[t.Sort] = append(q.chains[t.Sort], idx)
	for _, g := range q.ofSort[t.Sort] {
		q.chainOf(g, idx)
	}
}

func (q *queryBuilder) noteTerm(t *Term) {
	root := t
	for root.Op == "sel" || root.Op == "select" {
		root = root.Args[0]
	}
	if root.Op == "bvar" {
		return
	}
	if q.ofSort == nil {
		q.ofSort = map[*Sort][]*Term{}
	}
	q.ofSort[t.Sort] = append(q.ofSort[t.Sort], t)
	for _, idx := range q.chains[t.Sort] {
		q.chainOf(t, idx)
	}
}

func (q *queryBuilder) chainOf(t *Term, idx []int) {
	for _, i := range idx {
		t = Sel(t, i)
	}
	q.scan(t)
}

// generalApp: the same selections from the same function applied to anything
func generalApp(t *Term) *Term {
	var chain []*Term
	for t.Op == "sel" {
		chain = append(chain, t)
		t = t.Args[0]
	}
	if t.Op == "app" && t.fb {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = BVarN(fmt.Sprintf("ga!%d", i), a.Sort)
		}
		t = App(t.Name, t.Sort, args...)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		t = Sel(t, chain[i].Idx)
	}
	return t
}

func sortedT(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func rangeFact(t *Term) *Term {
	s := t.Sort
	if s.Kind != SInt || s.Lo == nil {
		return True
	}
	// build raw comparisons: the simplifier would use the range itself
	f := intern(&Term{Op: "<=", Args: []*Term{Num(s.Lo), t}, Sort: Bool})
	if s.Hi == nil {
		return f
	}
	return And(f, intern(&Term{Op: "<=", Args: []*Term{t, Num(s.Hi)}, Sort: Bool}))
}

func cardApp(dom *Term) *Term { return App("card_"+mangle(dom.Sort.Idx.Name), LenS, dom) }

func (q *queryBuilder) process() {
	for len(q.queue) > 0 {
		t := q.queue[0]
		q.queue = q.queue[1:]
		switch t.Op {
		case "var", "app", "sel", "select":
			q.assert(rangeFact(t))
			if t.Sort.Kind == SData && t.Sort.Class == "slice" {
				// range facts for length come from sel terms; make sure one exists
				q.scan(Sel(t, 0))
				q.slices = append(q.slices, t)
			}
			if c := canonOf[t]; c != nil && t.Op == "var" {
				if c.Sort.Class == "map" {
					q.mapsT = append(q.mapsT, c)
				} else {
					q.slices = append(q.slices, c)
				}
			}
			if t.Sort.Kind == SData && t.Sort.Class == "map" {
				q.mapsT = append(q.mapsT, t)
			}
		}
		if t.Op == "app" {
			if f, ok := folds[t.Name]; ok {
				q.unfold(f, t)
			}
			for _, ax := range axioms {
				if ax.inst == t.Name && !(q.noLemma != nil && q.noLemma[ax.Name]) && q.ninst[ax] < 30 {
					q.ninst[ax]++
					m := map[*Term]*Term{}
					for i, v := range ax.T.Pats[0][0].Args {
						m[v] = t.Args[i]
					}
					q.assert(Subst(ax.T.Args[0], m))
				}
			}
			if t.Name == "ishex" && t.Args[0].Op == "lit" {
				v := strVals[t.Args[0]]
				_, err := hex.DecodeString(v)
				q.assert(intern(&Term{Op: "=", Args: []*Term{t, BoolT(err == nil)}, Sort: Bool}))
				q.assert(intern(&Term{Op: "=", Args: []*Term{App("str.len", LenS, t.Args[0]), NumI(int64(len(v)))}, Sort: Bool}))
			}
			if strings.HasPrefix(t.Name, "card_") {
				q.cardFacts(t)
			}
			q.sliceFacts(t)
			if len(t.Args) == 1 && t.Args[0].Sort.Kind == SData && t.Args[0].Sort.Class == "slice" && t.Args[0].Sort.Name != "Slice_u8" {
				q.listExt(t)
			}
			if strings.HasPrefix(t.Name, "addall_") {
				q.addallFacts(t)
			}
		}
	}
}

// listExt: canonical slices handed to the same function are equal or differ in length or at an index in range
func (q *queryBuilder) listExt(t *Term) {
	if q.lists == nil {
		q.lists = map[string][]*Term{}
	}
	prev := q.lists[t.Name]
	if len(prev) >= 4 {
		return
	}
	q.lists[t.Name] = append(prev, t)
	b := t.Args[0]
	for _, o := range prev {
		a := o.Args[0]
		if a == b {
			continue
		}
		q.nlist++
		i := Var(fmt.Sprintf("sk!ext!%d", q.nlist), MInt)
		q.assert(Or(Eq(a, b), Not(Eq(Sel(a, 0), Sel(b, 0))), And(Le(NumI(0), i), Lt(i, Sel(a, 0)), Not(Eq(Select(Sel(a, 1), i), Select(Sel(b, 1), i))))))
	}
}

func (q *queryBuilder) addallFacts(t *Term) {
	d, xs := t.Args[0], t.Args[1]
	l, a := Sel(xs, 0), Sel(xs, 1)
	i := BVarN("aa!", MInt)
	k := BVarN("ak!"+mangle(d.Sort.Idx.Name), d.Sort.Idx)
	pos := App("addpos_"+mangle(d.Sort.Idx.Name), MInt, t, k)
	q.assert(Forall([]*Term{i}, Implies(And(Le(NumI(0), i), Lt(i, l)), Select(t, Select(a, i))), []*Term{Select(a, i)}))
	q.assert(Forall([]*Term{k}, Implies(Select(t, k), Or(Select(d, k), And(Le(NumI(0), pos), Lt(pos, l), Eq(Select(a, pos), k)))), []*Term{Select(t, k)}))
	q.assert(Forall([]*Term{k}, Implies(Select(d, k), Select(t, k)), []*Term{Select(d, k)}))
}

func (q *queryBuilder) cardFacts(t *Term) {
	d := t.Args[0]
	k := BVarN("kc!"+mangle(d.Sort.Idx.Name), d.Sort.Idx)
	switch d.Op {
	case "store":
		b := d.Args[0]
		i := d.Args[1]
		v := d.Args[2]
		had := Select(b, i)
		q.assert(Eq(t, Add(cardApp(b), Ite(v, NumI(1), NumI(0)), Neg(Ite(had, NumI(1), NumI(0))))))
	case "constarr":
		if d.Args[0] == False {
			q.assert(Eq(t, NumI(0)))
		}
	case "ite":
		q.assert(Eq(t, Ite(d.Args[0], cardApp(d.Args[1]), cardApp(d.Args[2]))))
	}
	if d.Op != "constarr" {
		q.assert(Forall([]*Term{k}, Implies(Select(d, k), intern(&Term{Op: "<", Args: []*Term{NumI(0), t}, Sort: Bool})), []*Term{Select(d, k)}))
		q.assert(Implies(Lt(NumI(0), t), Select(d, App("witness_"+mangle(d.Sort.Idx.Name), d.Sort.Idx, d))))
	}
}

// sliceFacts defines the built-in slice operations element by element.
func (q *queryBuilder) sliceFacts(t *Term) {
	if t.Sort.Kind != SData || t.Sort.Class != "slice" {
		return
	}
	raw := func(op string, a, b *Term) *Term { return intern(&Term{Op: op, Args: []*Term{a, b}, Sort: Bool}) }
	i := BVarN("is!", MInt)
	arr := Sel(t, 1)
	z := zero(t.Sort.El)
	within := func(l *Term) *Term { return And(Le(NumI(0), i), Lt(i, l)) }
	switch {
	case strings.HasPrefix(t.Name, "cat_"):
		a, b := t.Args[0], t.Args[1]
		la, lb := Sel(a, 0), Sel(b, 0)
		q.assert(raw("=", Sel(t, 0), Add(la, lb)))
		q.assert(Forall([]*Term{i}, Eq(Select(arr, i), Ite(within(la), Select(Sel(a, 1), i), Ite(And(Le(la, i), Lt(i, Add(la, lb))), Select(Sel(b, 1), Sub(i, la)), z))), []*Term{Select(arr, i)}))
		q.assert(Forall([]*Term{i}, Implies(within(la), Eq(Select(arr, i), Select(Sel(a, 1), i))), []*Term{Select(Sel(a, 1), i)}))
		q.assert(Forall([]*Term{i}, Implies(within(lb), Eq(Select(arr, Add(la, i)), Select(Sel(b, 1), i))), []*Term{Select(Sel(b, 1), i)}))
	case strings.HasPrefix(t.Name, "sub_"):
		a, lo, hi := t.Args[0], t.Args[1], t.Args[2]
		ok := And(Le(NumI(0), lo), Le(lo, hi), Le(hi, Sel(a, 0)))
		q.assert(Implies(ok, raw("=", Sel(t, 0), Sub(hi, lo))))
		q.assert(Implies(Not(ok), raw("=", Sel(t, 0), NumI(0))))
		q.assert(Forall([]*Term{i}, Implies(ok, Eq(Select(arr, i), Ite(within(Sub(hi, lo)), Select(Sel(a, 1), Add(lo, i)), z))), []*Term{Select(arr, i)}))
		q.assert(Forall([]*Term{i}, Implies(And(ok, Le(lo, i), Lt(i, hi)), Eq(Select(arr, Sub(i, lo)), Select(Sel(a, 1), i))), []*Term{Select(Sel(a, 1), i)}))
	case strings.HasPrefix(t.Name, "splice_"):
		a, lo, src, n := t.Args[0], t.Args[1], t.Args[2], t.Args[3]
		q.assert(raw("=", Sel(t, 0), Sel(a, 0)))
		q.assert(Forall([]*Term{i}, Eq(Select(arr, i), Ite(And(Le(lo, i), Lt(i, Add(lo, n))), Select(Sel(src, 1), Sub(i, lo)), Select(Sel(a, 1), i))), []*Term{Select(arr, i)}))
		q.assert(Forall([]*Term{i}, Implies(And(Le(NumI(0), i), Lt(i, n)), Eq(Select(arr, Add(lo, i)), Select(Sel(src, 1), i))), []*Term{Select(Sel(src, 1), i)}))
	case strings.HasPrefix(t.Name, "sortasc_"):
		a := t.Args[0]
		j := BVarN("js!", MInt)
		q.assert(raw("=", Sel(t, 0), Sel(a, 0)))
		sp := App("sortpos_"+mangle(t.Sort.Name), MInt, t, i)
		q.assert(Forall([]*Term{i}, Implies(within(Sel(a, 0)), And(Le(NumI(0), sp), Lt(sp, Sel(a, 0)), Eq(Select(arr, i), Select(Sel(a, 1), sp)))), []*Term{Select(arr, i)}))
		if t.Sort.El.Kind == SInt {
			q.assert(Forall([]*Term{i, j}, Implies(And(Le(NumI(0), i), Lt(i, j), Lt(j, Sel(a, 0))), raw("<=", Select(arr, i), Select(arr, j))), []*Term{Select(arr, i), Select(arr, j)}))
		}
	case t.Name == "bytesOf":
		q.assert(raw("=", Sel(t, 0), strLen(t.Args[0])))
		q.assert(Eq(App("strOf", Str, t), t.Args[0]))
	case t.Name == "b32bytes":
		q.assert(raw("=", Sel(t, 0), NumI(32)))
		q.assert(Eq(App("b32of", B32, t), t.Args[0]))
		q.assert(Forall([]*Term{i}, Eq(Select(arr, i), Ite(within(NumI(32)), App("b32at", U8, t.Args[0], i), z)), []*Term{Select(arr, i)}))
		q.assert(Forall([]*Term{i}, Implies(within(NumI(32)), Eq(Select(arr, i), App("b32at", U8, t.Args[0], i))), []*Term{App("b32at", U8, t.Args[0], i)}))
	}
}

func (q *queryBuilder) unfold(f *FoldDef, t *Term) {
	k := t.Args[len(t.Args)-1]
	params := t.Args[:len(t.Args)-1]
	inst := func(at *Term) *Term { // value at index `at` given acc at `at`-1... step index = at
		m := map[*Term]*Term{}
		for i, p := range f.Params {
			m[p] = params[i]
		}
		m[f.K] = at
		m[f.Acc] = App(f.Name, f.Sort, append(append([]*Term{}, params...), at)...)
		return Subst(f.Step, m)
	}
	base := func() *Term {
		m := map[*Term]*Term{}
		for i, p := range f.Params {
			m[p] = params[i]
		}
		return Subst(f.Base, m)
	}
	if k.Op == "num" {
		if k.Num.Sign() <= 0 {
			q.assert(Eq(t, base()))
		} else if k.Num.BitLen() < 10 {
			q.assert(Eq(t, inst(Sub(k, NumI(1)))))
		}
		return
	}
	// depth control: terms created by unfolding carry a budget
	d := q.unfolds[t]
	lk := linOf(k)
	if d >= 1 && lk.k.Sign() <= 0 {
		q.assert(Implies(Le(k, NumI(0)), Eq(t, base())))
		return
	}
	prev := Sub(k, NumI(1))
	pt := App(f.Name, f.Sort, append(append([]*Term{}, params...), prev)...)
	if _, ok := q.unfolds[pt]; !ok {
		q.unfolds[pt] = d + 1
	}
	q.assert(Implies(Le(k, NumI(0)), Eq(t, base())))
	q.assert(Implies(Lt(NumI(0), k), Eq(t, inst(prev))))
}

// buildQuery produces the SMT-LIB text for: facts |= goal
func buildQuery(facts []*Term, goal *Term, noLemma map[string]bool) string {
	q := &queryBuilder{seen: map[*Term]bool{}, emitted: map[*Term]bool{}, syms: map[string]bool{}, axDone: map[*Axiom]bool{}, unfolds: map[*Term]int{}, ninst: map[*Axiom]int{}, noLemma: noLemma}
	// terms whose folds are original must be registered before unfolding
	for _, f := range facts {
		if f == False {
			return "(assert false)\n"
		}
		q.assert(f)
	}
	sk := 0
	var refute func(g *Term)
	refute = func(g *Term) { // assert the negation of g, naming the witnesses
		switch {
		case g.Op == "forall":
			m := map[*Term]*Term{}
			for _, v := range g.BV {
				sk++
				m[v] = Var(fmt.Sprintf("sk!%d!%s", sk, mangle(v.Name)), v.Sort)
			}
			refute(Subst(g.Args[0], m))
		case g.Op == "=>" && len(g.Args) == 2:
			q.assert(g.Args[0])
			refute(g.Args[1])
		case g.Op == "or":
			for _, a := range g.Args {
				refute(a)
			}
		case g.Op == "=" && g.Args[0].Sort.Kind == SData && g.Args[0].Sort.Class == "slice":
			// slice values are canonical: they differ in length or at an index in range
			sk++
			i := Var(fmt.Sprintf("sk!%d!ix", sk), MInt)
			a, b := g.Args[0], g.Args[1]
			q.assert(Not(g))
			q.assert(Or(Not(Eq(Sel(a, 0), Sel(b, 0))), And(Le(NumI(0), i), Lt(i, Sel(a, 0)), Not(Eq(Select(Sel(a, 1), i), Select(Sel(b, 1), i))))))
		default:
			q.assert(Not(g))
			if g.Op == "exists" { // make possible witnesses named only inside the quantifier visible to the matcher
				done := map[*Term]bool{}
				var walk func(t *Term)
				walk = func(t *Term) {
					if done[t] {
						return
					}
					done[t] = true
					for _, p := range g.Pats {
						if len(p) == 1 && p[0].Op == "app" && t.Op == "app" && t.Name == p[0].Name && !t.fb {
							q.assert(App("seen!"+t.Name, Bool, t))
						}
					}
					for _, a := range t.Args {
						walk(a)
					}
				}
				walk(g)
			}
		}
	}
	refute(goal)
	for {
		q.process()
		n := len(q.asserts)
		for _, ax := range axioms {
			if q.axDone[ax] || (noLemma != nil && noLemma[ax.Name]) {
				continue
			}
			ok := true
			for h := range ax.heads {
				if !q.syms[h] {
					ok = false
					break
				}
			}
			if ok {
				q.axDone[ax] = true
				q.assert(ax.T)
			}
		}
		if len(q.queue) == 0 && n == len(q.asserts) {
			break
		}
	}
	if q.needExt {
		i := BVarN("ix!c", MInt)
		for _, s := range q.slices {
			q.emitCanonSlice(s, i)
		}
		for _, m := range q.mapsT {
			k := BVarN("kx!"+mangle(m.Sort.Key.Name), m.Sort.Key)
			d, v := Sel(m, 0), Sel(m, 1)
			q.assert(Forall([]*Term{k}, Or(Select(d, k), Eq(Select(v, k), zero(m.Sort.El))), []*Term{Select(v, k)}))
		}
		q.process()
	}
	return q.render()
}

func (q *queryBuilder) emitCanonSlice(s, i *Term) {
	l, a := Sel(s, 0), Sel(s, 1)
	q.assert(Forall([]*Term{i}, Or(And(Le(NumI(0), i), Lt(i, l)), Eq(Select(a, i), zero(s.Sort.El))), []*Term{Select(a, i)}))
}

func (q *queryBuilder) render() string {
	var b strings.Builder
	// sorts
	done := map[string]bool{}
	var declSort func(s *Sort)
	declSort = func(s *Sort) {
		switch s.Kind {
		case SArray:
			declSort(s.Idx)
			declSort(s.Elem)
		case SUnint:
			if !done[s.Name] {
				done[s.Name] = true
				fmt.Fprintf(&b, "(declare-sort %s 0)\n", s.Name)
			}
		case SData:
			if done[s.Name] {
				return
			}
			done[s.Name] = true
			for _, f := range s.Fields {
				declSort(f.Sort)
			}
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", s.Name, s.Name)
			for i, f := range s.Fields {
				fmt.Fprintf(&b, " (%s %s)", selName(s, i), f.Sort.SMT())
			}
			b.WriteString("))))\n")
		}
	}
	decl := map[string]string{}
	var order []string
	cnt := map[*Term]int{}
	var topo []*Term
	var lits []*Term
	visited := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t]++
		if visited[t] {
			return
		}
		visited[t] = true
		declSort(t.Sort)
		for _, v := range t.BV {
			declSort(v.Sort)
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				rec(a)
			}
		}
		switch t.Op {
		case "var", "lit":
			if _, ok := decl[t.Name]; !ok {
				decl[t.Name] = fmt.Sprintf("(declare-fun %s () %s)\n", quoteName(t.Name), t.Sort.SMT())
				order = append(order, t.Name)
				if t.Op == "lit" {
					lits = append(lits, t)
				}
			}
		case "app":
			d := fmt.Sprintf("(declare-fun %s (", quoteName(t.Name))
			for i, a := range t.Args {
				if i > 0 {
					d += " "
				}
				d += a.Sort.SMT()
			}
			d += ") " + t.Sort.SMT() + ")\n"
			if o, ok := decl[t.Name]; !ok {
				decl[t.Name] = d
				order = append(order, t.Name)
			} else if o != d {
				panic("inconsistent declaration of " + t.Name + ": " + o + d)
			}
		}
		topo = append(topo, t)
	}
	for _, a := range q.asserts {
		rec(a)
	}
	for _, n := range order {
		b.WriteString(decl[n])
	}
	// distinct literals of one sort
	bySort := map[string][]string{}
	for _, l := range lits {
		bySort[l.Sort.Name] = append(bySort[l.Sort.Name], quoteName(l.Name))
	}
	var sn []string
	for s := range bySort {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		if len(bySort[s]) > 1 {
			b.WriteString("(assert (distinct " + strings.Join(bySort[s], " ") + "))\n")
		}
	}
	names := map[*Term]string{}
	for _, t := range topo {
		if cnt[t] > 1 && !t.fb && len(t.Args) > 0 && termSize(t) > 4 {
			n := fmt.Sprintf("$t%d", t.id)
			var tb strings.Builder
			writeTermTop(&tb, t, names)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.SMT(), tb.String())
			names[t] = n
		}
	}
	for _, a := range q.asserts {
		b.WriteString("(assert ")
		writeTerm(&b, a, names)
		b.WriteString(")\n")
	}
	return b.String()
}

// ---- portfolio ----

type SolveResult struct {
	Status string // unsat sat unknown timeout error
	Solver string
	Time   float64
	Out    string
}

var (
	solverSem   = make(chan struct{}, 8)
	solveMemo   = map[string]SolveResult{}
	memoMu      sync.Mutex
	statQueries int64
	statTimeNs  int64
	solverUse   = map[string]int{}
	dumpDir     string
)

type strategy struct {
	name  string
	delay time.Duration
	args  []string
	pre   string
}

var strategies = []strategy{
	{"z3-new", 0, []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3", 700 * time.Millisecond, []string{"z3", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3-new-alt", 3 * time.Second, []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.case_split 3)\n"},
	{"cvc5", 5 * time.Second, []string{"cvc5", "--lang=smt2", "--arrays-exp", "--full-saturate-quant"}, "(set-logic ALL)\n"},
	{"z3-new-seed", 5 * time.Second, []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.case_split 3)\n(set-option :smt.relevancy 0)\n"},
}

func runSolver(st strategy, text string, timeout time.Duration) SolveResult {
	return runSolverCtx(context.Background(), st, text, timeout)
}

func runSolverCtx(parent context.Context, st strategy, text string, timeout time.Duration) SolveResult {
	select {
	case solverSem <- struct{}{}:
	case <-parent.Done():
		return SolveResult{Status: "cancelled", Solver: st.name}
	}
	defer func() { <-solverSem }()
	if parent.Err() != nil {
		return SolveResult{Status: "cancelled", Solver: st.name}
	}
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	args := append([]string{}, st.args...)
	if strings.HasPrefix(st.args[0], "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "-memory:4000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), "-")
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(st.pre + text + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	el := time.Since(t0)
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statTimeNs, int64(el))
	o := strings.TrimSpace(out.String())
	r := SolveResult{Solver: st.name, Time: el.Seconds(), Out: o}
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	switch {
	case parent.Err() != nil:
		r.Status = "cancelled"
	case first == "unsat":
		r.Status = "unsat"
	case first == "sat":
		r.Status = "sat"
	case first == "unknown":
		r.Status = "unknown"
	case strings.Contains(o, "error") && !strings.Contains(o, "timeout"):
		r.Status = "error"
		if len(r.Out) > 2000 {
			r.Out = r.Out[:2000]
		}
	default:
		r.Status = "timeout"
	}
	return r
}

// solve: level 0 = quick (first solver only), level 1 = full portfolio
func solve(text string, level int, timeout time.Duration) SolveResult {
	if text == "(assert false)\n" {
		return SolveResult{Status: "unsat", Solver: "simplifier"}
	}
	h := sha256.Sum256([]byte(text))
	key := fmt.Sprintf("%d|%x", level, h)
	memoMu.Lock()
	r, ok := solveMemo[key]
	if !ok && level == 0 {
		r, ok = solveMemo[fmt.Sprintf("1|%x", h)]
	}
	memoMu.Unlock()
	if ok {
		return r
	}
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, hex.EncodeToString(h[:6])+".smt2"), []byte(strategies[0].pre+text+"(check-sat)\n"), 0o644)
	}
	if left := time.Until(deadline); left < timeout {
		timeout = max(left, 200*time.Millisecond)
	}
	r = portfolio(text, level, timeout)
	if r.Status == "error" {
		os.WriteFile("/tmp/gvc_error.smt2", []byte(strategies[0].pre+text+"(check-sat)\n"), 0o644)
		panic("solver error: " + r.Out)
	}
	memoMu.Lock()
	solveMemo[key] = r
	if r.Status == "unsat" {
		solverUse[r.Solver]++
	}
	memoMu.Unlock()
	return r
}

// portfolio: strategies start one after another (each after its delay, or as soon as the earlier ones gave up); the first verdict wins
var deadline = time.Now().Add(600 * time.Second) // of the whole run: what is undecided by then fails

func portfolio(text string, level int, timeout time.Duration) SolveResult {
	n := 2
	if level > 0 {
		n = len(strategies)
	} else if timeout <= time.Second/2 {
		n = 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveResult, n)
	started, running := 0, 0
	var last SolveResult
	t0 := time.Now()
	for {
		if running == 0 && started == n {
			return last
		}
		if started < n && (running == 0 || time.Since(t0) >= strategies[started].delay) {
			st := strategies[started]
			started++
			running++
			go func() { ch <- runSolverCtx(ctx, st, text, timeout) }()
			continue
		}
		wait := time.Hour
		if started < n {
			wait = strategies[started].delay - time.Since(t0)
		}
		select {
		case x := <-ch:
			running--
			if x.Status == "unsat" || x.Status == "sat" || x.Status == "error" && x.Solver == strategies[0].name {
				return x
			}
			if last.Status == "" || x.Solver == strategies[0].name {
				last = x
			}
		case <-time.After(wait):
		}
	}
}
