package main

// Terms: hash-consed, sorted SMT-LIB terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SUnint
	SData
	SArray
)

type Field struct {
	Name string
	Sort *Sort
}

// Sort is an interned SMT sort. Integer sorts of different Go kinds print as Int
// but keep their range so that range facts can be generated.
type Sort struct {
	Kind   SortKind
	Name   string // unique
	Lo, Hi *big.Int
	Fields []Field // SData: single constructor
	Idx    *Sort   // SArray
	Elem   *Sort   // SArray
	// classification of datatypes
	Class string // "struct","slice","map","ptr","any"
	Key   *Sort  // map key
	El    *Sort  // slice/map/ptr element
}

func (s *Sort) SMT() string {
	switch s.Kind {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SArray:
		return "(Array " + s.Idx.SMT() + " " + s.Elem.SMT() + ")"
	}
	return s.Name
}

func (s *Sort) field(name string) int {
	for i, f := range s.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// sameSMT: interchangeable in SMT terms.
func sameSMT(a, b *Sort) bool { return a.SMT() == b.SMT() }

var pow2 = func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intSort(name string, lo, hi *big.Int) *Sort {
	return &Sort{Kind: SInt, Name: name, Lo: lo, Hi: hi}
}
func urange(n uint) (*big.Int, *big.Int) {
	return big.NewInt(0), new(big.Int).Sub(pow2(n), big.NewInt(1))
}
func srange(n uint) (*big.Int, *big.Int) {
	return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), big.NewInt(1))
}
func mkU(n uint) *Sort { lo, hi := urange(n); return intSort(fmt.Sprintf("u%d", n), lo, hi) }
func mkS(n uint) *Sort { lo, hi := srange(n); return intSort(fmt.Sprintf("i%d", n), lo, hi) }

var (
	Bool    = &Sort{Kind: SBool, Name: "Bool"}
	MInt    = intSort("mint", nil, nil)
	U8      = mkU(8)
	U16     = mkU(16)
	U32     = mkU(32)
	U64     = mkU(64)
	I8      = mkS(8)
	I16     = mkS(16)
	I32     = mkS(32)
	I64     = mkS(64)
	LenS    = intSort("len", big.NewInt(0), new(big.Int).Sub(pow2(46), big.NewInt(1)))
	RefS    = intSort("ref", big.NewInt(0), nil)
	F64     = &Sort{Kind: SUnint, Name: "F64"}
	Str     = &Sort{Kind: SUnint, Name: "Str"}
	ErrS    = &Sort{Kind: SUnint, Name: "Err"}
	B32     = &Sort{Kind: SUnint, Name: "B32"}
	AnyS    = &Sort{Kind: SUnint, Name: "AnyV"}
	UnitS   = &Sort{Kind: SData, Name: "UnitT", Class: "struct"}
	sortTab = map[string]*Sort{}
)

func arraySort(i, e *Sort) *Sort {
	// integer subranges of the element are kept; the index is normalised
	n := "Arr<" + i.Name + "," + e.Name + ">"
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SArray, Name: n, Idx: i, Elem: e}
	sortTab[n] = s
	return s
}

func mangle(s string) string {
	r := strings.NewReplacer("<", "_", ">", "_", ",", "_", "*", "P", "[", "_", "]", "_", "/", "_", ".", "_", " ", "_", "{", "_", "}", "_", "(", "_", ")", "_", "-", "_")
	return r.Replace(s)
}

func sliceSort(e *Sort) *Sort {
	n := "Slice_" + mangle(e.Name)
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SData, Name: n, Class: "slice", El: e}
	sortTab[n] = s
	s.Fields = []Field{{"len", LenS}, {"arr", arraySort(MInt, e)}}
	return s
}

func mapSort(k, v *Sort) *Sort {
	n := "Map_" + mangle(k.Name) + "_" + mangle(v.Name)
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SData, Name: n, Class: "map", Key: k, El: v}
	sortTab[n] = s
	s.Fields = []Field{{"dom", arraySort(k, Bool)}, {"val", arraySort(k, v)}}
	return s
}

func ptrSort(e *Sort) *Sort {
	n := "Ptr_" + mangle(e.Name)
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SData, Name: n, Class: "ptr", El: e}
	sortTab[n] = s
	s.Fields = []Field{{"isnil", Bool}, {"v", e}}
	return s
}

func unint(name string) *Sort {
	n := mangle(name)
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SUnint, Name: n}
	sortTab[n] = s
	return s
}

type Term struct {
	id   int
	Op   string // see below
	Args []*Term
	Sort *Sort
	Name string   // var / app name
	Num  *big.Int // "num"
	Idx  int      // "sel" field index
	BV   []*Term  // quantifier bound variables (Op "bvar")
	Pats [][]*Term
	fb   bool // contains free bound variables
	key  string
	ivl  *interval
}

// Ops: true false num var bvar app not and or => = ite + (linear, see lin) * div mod <= < select store constarr mk sel forall exists

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.Num != nil {
		b.WriteString(t.Num.String())
	}
	fmt.Fprintf(&b, "|%d|%s|", t.Idx, t.Sort.Name)
	for _, a := range t.Args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	if len(t.BV) > 0 {
		b.WriteByte('#')
		for _, a := range t.BV {
			fmt.Fprintf(&b, "%d,", a.id)
		}
		for _, p := range t.Pats {
			b.WriteByte(';')
			for _, a := range p {
				fmt.Fprintf(&b, "%d,", a.id)
			}
		}
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	t.key = k
	if t.Op == "bvar" {
		t.fb = true
	}
	if len(t.BV) == 0 {
		for _, a := range t.Args {
			if a.fb {
				t.fb = true
			}
		}
	} else {
		fv := map[*Term]bool{}
		collectFree(t.Args[0], fv)
		for _, v := range t.BV {
			delete(fv, v)
		}
		t.fb = len(fv) > 0
	}
	termTab[k] = t
	return t
}

func collectFree(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.fb || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "bvar" {
			out[t] = true
			return
		}
		if len(t.BV) > 0 {
			inner := map[*Term]bool{}
			collectFree(t.Args[0], inner)
			for _, v := range t.BV {
				delete(inner, v)
			}
			for v := range inner {
				out[v] = true
			}
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

var True = intern(&Term{Op: "true", Sort: Bool})
var False = intern(&Term{Op: "false", Sort: Bool})

func Num(n *big.Int) *Term        { return intern(&Term{Op: "num", Num: n, Sort: MInt}) }
func NumI(n int64) *Term          { return Num(big.NewInt(n)) }
func NumU(n uint64) *Term         { return Num(new(big.Int).SetUint64(n)) }
func Var(n string, s *Sort) *Term { return intern(&Term{Op: "var", Name: n, Sort: s}) }

var bvCount int

func BVar(n string, s *Sort) *Term {
	bvCount++
	return intern(&Term{Op: "bvar", Name: fmt.Sprintf("%s!%d", n, bvCount), Sort: s})
}
func BVarN(n string, s *Sort) *Term { return intern(&Term{Op: "bvar", Name: n, Sort: s}) }

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: name, Args: args, Sort: s})
}

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	case "<":
		return Le(a.Args[1], a.Args[0])
	}
	return intern(&Term{Op: "not", Args: []*Term{a}, Sort: Bool})
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "and", Args: out, Sort: Bool})
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False || seen[a] {
			return true
		}
		if a == True {
			return false
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (p&a)|(p&b) -> p&(a|b)
	var common []*Term
	first := conjuncts(out[0])
	for _, c := range first {
		all := true
		for _, o := range out[1:] {
			found := false
			for _, d := range conjuncts(o) {
				if d == c {
					found = true
					break
				}
			}
			if !found {
				all = false
				break
			}
		}
		if all {
			common = append(common, c)
		}
	}
	if len(common) > 0 {
		cs := map[*Term]bool{}
		for _, c := range common {
			cs[c] = true
		}
		var rest []*Term
		for _, o := range out {
			var r []*Term
			for _, d := range conjuncts(o) {
				if !cs[d] {
					r = append(r, d)
				}
			}
			rest = append(rest, And(r...))
		}
		return And(append(common, Or(rest...))...)
	}
	return intern(&Term{Op: "or", Args: out, Sort: Bool})
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.Op == "=>" {
		return Implies(And(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "and" {
		for _, c := range a.Args {
			if c == b {
				return True
			}
		}
	}
	return intern(&Term{Op: "=>", Args: []*Term{a, b}, Sort: Bool})
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if !sameSMT(a.Sort, b.Sort) {
		panic(fmt.Sprintf("Eq sort mismatch: %s : %s vs %s : %s", a, a.Sort.Name, b, b.Sort.Name))
	}
	if a.Sort == UnitS || a.Sort.Kind == SArray && a.Sort.Elem == UnitS {
		return True // only one value
	}
	if a.Sort.Kind == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.Op == "num" && b.Op == "num" {
		return BoolT(a.Num.Cmp(b.Num) == 0)
	}
	if a.Op == "lit" && b.Op == "lit" {
		return BoolT(a == b)
	}
	if a.Op == "mk" && b.Op == "mk" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort.Kind == SInt {
		// cancel common linear parts when difference is constant
		l := linSub(linOf(a), linOf(b))
		if len(l.c) == 0 {
			return BoolT(l.k.Sign() == 0)
		}
	}
	// ite with decidable branches
	if a.Op == "ite" && (isConst(b) || b.Op == "lit") && (isConst(a.Args[1]) || isConst(a.Args[2])) {
		return Or(And(a.Args[0], Eq(a.Args[1], b)), And(Not(a.Args[0]), Eq(a.Args[2], b)))
	}
	if b.Op == "ite" && (isConst(a) || a.Op == "lit") && (isConst(b.Args[1]) || isConst(b.Args[2])) {
		return Eq(b, a)
	}
	if a.Sort == AnyS && distinctConst(a, b) {
		return False
	}
	// error values: nil versus a definitely non-nil error
	if a.Sort == ErrS {
		if (a == ErrNil && definitelyErr(b)) || (b == ErrNil && definitelyErr(a)) {
			return False
		}
		if b == ErrNil && a.Op == "ite" {
			return Or(And(a.Args[0], Eq(a.Args[1], b)), And(Not(a.Args[0]), Eq(a.Args[2], b)))
		}
		if a == ErrNil && b.Op == "ite" {
			return Eq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Args: []*Term{a, b}, Sort: Bool})
}

var ErrNil = intern(&Term{Op: "lit", Name: "err_nil", Sort: ErrS})

func definitelyErr(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "mkerr!") }

func isConst(t *Term) bool {
	switch t.Op {
	case "num", "true", "false", "lit":
		return true
	case "mk":
		for _, a := range t.Args {
			if !isConst(a) {
				return false
			}
		}
		return true
	}
	return false
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if !sameSMT(a.Sort, b.Sort) {
		panic(fmt.Sprintf("Ite sort mismatch: %s vs %s (%s / %s)", a.Sort.Name, b.Sort.Name, a, b))
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort.Kind == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.Op == "mk" && b.Op == "mk" {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return Mk(a.Sort, args...)
	}
	// ite(c, store(A,i,v), A) -> store(A,i, ite(c,v,A[i]))
	if a.Op == "store" && a.Args[0] == b {
		return Store(b, a.Args[1], Ite(c, a.Args[2], Select(b, a.Args[1])))
	}
	if b.Op == "store" && b.Args[0] == a {
		return Store(a, b.Args[1], Ite(c, Select(a, b.Args[1]), b.Args[2]))
	}
	if a.Op == "store" && b.Op == "store" && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
		return Store(a.Args[0], a.Args[1], Ite(c, a.Args[2], b.Args[2]))
	}
	s := a.Sort
	if s.Kind == SInt && a.Sort != b.Sort {
		if a.Op == "num" {
			s = b.Sort
		} else if b.Op == "num" {
			s = a.Sort
		} else {
			s = MInt
		}
		if s != MInt && s.Lo != nil {
			// keep the range only if the constant fits
			n := a
			if b.Op == "num" {
				n = b
			}
			if n.Op == "num" && (n.Num.Cmp(s.Lo) < 0 || (s.Hi != nil && n.Num.Cmp(s.Hi) > 0)) {
				s = MInt
			}
		}
	}
	return intern(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: s})
}

// ---- linear arithmetic ----

type linear struct {
	k *big.Int
	c map[*Term]*big.Int
}

func linOf(t *Term) linear {
	switch t.Op {
	case "num":
		return linear{t.Num, nil}
	case "+":
		l := linear{new(big.Int), map[*Term]*big.Int{}}
		for _, a := range t.Args {
			x := linOf(a)
			l = linAdd(l, x)
		}
		return l
	case "*":
		if t.Args[0].Op == "num" {
			return linear{new(big.Int), map[*Term]*big.Int{t.Args[1]: t.Args[0].Num}}
		}
	}
	return linear{new(big.Int), map[*Term]*big.Int{t: big.NewInt(1)}}
}

func linAdd(a, b linear) linear {
	r := linear{new(big.Int).Add(a.k, b.k), map[*Term]*big.Int{}}
	for t, c := range a.c {
		r.c[t] = c
	}
	for t, c := range b.c {
		if o, ok := r.c[t]; ok {
			s := new(big.Int).Add(o, c)
			if s.Sign() == 0 {
				delete(r.c, t)
			} else {
				r.c[t] = s
			}
		} else {
			r.c[t] = c
		}
	}
	return r
}
func linScale(a linear, m *big.Int) linear {
	r := linear{new(big.Int).Mul(a.k, m), map[*Term]*big.Int{}}
	if m.Sign() == 0 {
		return r
	}
	for t, c := range a.c {
		r.c[t] = new(big.Int).Mul(c, m)
	}
	return r
}
func linSub(a, b linear) linear { return linAdd(a, linScale(b, big.NewInt(-1))) }

func (l linear) term() *Term {
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		c := l.c[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, intern(&Term{Op: "*", Args: []*Term{Num(c), t}, Sort: MInt}))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, Num(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: "+", Args: args, Sort: MInt})
}

func Add(as ...*Term) *Term {
	l := linear{new(big.Int), nil}
	for _, a := range as {
		l = linAdd(l, linOf(a))
	}
	return l.term()
}
func Sub(a, b *Term) *Term { return linSub(linOf(a), linOf(b)).term() }
func Neg(a *Term) *Term    { return linScale(linOf(a), big.NewInt(-1)).term() }
func Mul(a, b *Term) *Term {
	if a.Op == "num" {
		return linScale(linOf(b), a.Num).term()
	}
	if b.Op == "num" {
		return linScale(linOf(a), b.Num).term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("imul", MInt, a, b) // kept symbolic: see base.gvc for what is assumed of products
}

// Div and Mod are SMT-LIB (Euclidean); callers use them on non-negative operands or
// adjust for Go's truncation.
func Div(a, b *Term) *Term {
	if a.Op == "num" && b.Op == "num" && b.Num.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.Num, b.Num, m)
		return Num(q)
	}
	if b.Op == "num" && b.Num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.Op != "num" {
		return App("idiv", MInt, a, b)
	}
	return intern(&Term{Op: "div", Args: []*Term{a, b}, Sort: MInt})
}
func Mod(a, b *Term) *Term {
	if a.Op == "num" && b.Op == "num" && b.Num.Sign() > 0 {
		return Num(new(big.Int).Mod(a.Num, b.Num))
	}
	if b.Op == "num" {
		iv := ival(a)
		if iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(b.Num) < 0 {
			return a
		}
	}
	if b.Op != "num" {
		return App("imod", MInt, a, b)
	}
	return intern(&Term{Op: "mod", Args: []*Term{a, b}, Sort: MInt})
}

func Le(a, b *Term) *Term {
	l := linSub(linOf(b), linOf(a))
	if len(l.c) == 0 {
		return BoolT(l.k.Sign() >= 0)
	}
	ia, ib := ival(a), ival(b)
	if ia.hi != nil && ib.lo != nil && ia.hi.Cmp(ib.lo) <= 0 {
		return True
	}
	if ia.lo != nil && ib.hi != nil && ia.lo.Cmp(ib.hi) > 0 {
		return False
	}
	return intern(&Term{Op: "<=", Args: []*Term{a, b}, Sort: Bool})
}
func Lt(a, b *Term) *Term {
	l := linSub(linOf(b), linOf(a))
	if len(l.c) == 0 {
		return BoolT(l.k.Sign() > 0)
	}
	ia, ib := ival(a), ival(b)
	if ia.hi != nil && ib.lo != nil && ia.hi.Cmp(ib.lo) < 0 {
		return True
	}
	if ia.lo != nil && ib.hi != nil && ia.lo.Cmp(ib.hi) >= 0 {
		return False
	}
	return intern(&Term{Op: "<", Args: []*Term{a, b}, Sort: Bool})
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

type interval struct{ lo, hi *big.Int }

func ival(t *Term) interval {
	if t.ivl != nil {
		return *t.ivl
	}
	iv := ival0(t)
	t.ivl = &iv
	return iv
}

func ival0(t *Term) interval {
	base := interval{t.Sort.Lo, t.Sort.Hi}
	switch t.Op {
	case "num":
		return interval{t.Num, t.Num}
	case "+":
		r := interval{new(big.Int), new(big.Int)}
		for _, a := range t.Args {
			x := ival(a)
			if r.lo != nil && x.lo != nil {
				r.lo = new(big.Int).Add(r.lo, x.lo)
			} else {
				r.lo = nil
			}
			if r.hi != nil && x.hi != nil {
				r.hi = new(big.Int).Add(r.hi, x.hi)
			} else {
				r.hi = nil
			}
		}
		return r
	case "*":
		x, y := ival(t.Args[0]), ival(t.Args[1])
		if t.Args[0].Op == "num" {
			c := t.Args[0].Num
			m := func(b *big.Int) *big.Int {
				if b == nil {
					return nil
				}
				return new(big.Int).Mul(b, c)
			}
			if c.Sign() >= 0 {
				return interval{m(y.lo), m(y.hi)}
			}
			return interval{m(y.hi), m(y.lo)}
		}
		if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			r := interval{new(big.Int).Mul(x.lo, y.lo), nil}
			if x.hi != nil && y.hi != nil {
				r.hi = new(big.Int).Mul(x.hi, y.hi)
			}
			return r
		}
		return interval{}
	case "ite":
		x, y := ival(t.Args[1]), ival(t.Args[2])
		r := interval{}
		if x.lo != nil && y.lo != nil {
			r.lo = x.lo
			if y.lo.Cmp(x.lo) < 0 {
				r.lo = y.lo
			}
		}
		if x.hi != nil && y.hi != nil {
			r.hi = x.hi
			if y.hi.Cmp(x.hi) > 0 {
				r.hi = y.hi
			}
		}
		if base.lo != nil && (r.lo == nil || base.lo.Cmp(r.lo) > 0) {
			r.lo = base.lo
		}
		if base.hi != nil && (r.hi == nil || base.hi.Cmp(r.hi) < 0) {
			r.hi = base.hi
		}
		return r
	case "app":
		switch t.Name {
		case "imul":
			x, y := ival(t.Args[0]), ival(t.Args[1])
			if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 {
				r := interval{new(big.Int).Mul(x.lo, y.lo), nil}
				if x.hi != nil && y.hi != nil {
					r.hi = new(big.Int).Mul(x.hi, y.hi)
				}
				return r
			}
		case "imod":
			y := ival(t.Args[1])
			if y.lo != nil && y.lo.Sign() > 0 {
				r := interval{new(big.Int), nil}
				if y.hi != nil {
					r.hi = new(big.Int).Sub(y.hi, big.NewInt(1))
				}
				return r
			}
		case "idiv":
			x, y := ival(t.Args[0]), ival(t.Args[1])
			if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() > 0 {
				r := interval{new(big.Int), nil}
				if x.hi != nil {
					r.hi = new(big.Int).Div(x.hi, y.lo)
				}
				return r
			}
		}
	case "mod":
		if t.Args[1].Op == "num" && t.Args[1].Num.Sign() > 0 {
			return interval{new(big.Int), new(big.Int).Sub(t.Args[1].Num, big.NewInt(1))}
		}
		y := ival(t.Args[1])
		r := interval{new(big.Int), nil}
		if y.lo != nil && y.lo.Sign() > 0 && y.hi != nil {
			r.hi = new(big.Int).Sub(y.hi, big.NewInt(1))
		} else {
			r.lo = nil
		}
		return r
	case "div":
		x := ival(t.Args[0])
		y := ival(t.Args[1])
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() > 0 {
			r := interval{new(big.Int), nil}
			if x.hi != nil {
				r.hi = new(big.Int).Div(x.hi, y.lo)
			}
			if y.hi != nil {
				r.lo = new(big.Int).Div(x.lo, y.hi)
			}
			return r
		}
		return interval{}
	}
	return base
}

// ---- arrays and datatypes ----

func distinctConst(a, b *Term) bool {
	if a.Op == "num" && b.Op == "num" {
		return a.Num.Cmp(b.Num) != 0
	}
	if a.Sort.Kind == SInt {
		l := linSub(linOf(a), linOf(b))
		return len(l.c) == 0 && l.k.Sign() != 0
	}
	if a.Op == "mk" && b.Op == "mk" {
		for i := range a.Args {
			if distinctConst(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	if a.Op == "lit" && b.Op == "lit" {
		return a != b
	}
	if a.Sort == AnyS { // a boxed value is not the nil interface value
		if a.Op == "lit" && b.Op == "app" {
			a, b = b, a
		}
		return a.Op == "app" && b.Op == "lit" && strings.HasPrefix(a.Name, "box_")
	}
	return false
}

func Select(a, i *Term) *Term {
	switch a.Op {
	case "store":
		if Eq(a.Args[1], i) == True {
			return a.Args[2]
		}
		if distinctConst(a.Args[1], i) {
			return Select(a.Args[0], i)
		}
	case "constarr":
		return a.Args[0]
	case "ite":
		// push select through ite when it helps
		x, y := a.Args[1], a.Args[2]
		if x.Op == "store" || y.Op == "store" || x.Op == "constarr" || y.Op == "constarr" {
			return Ite(a.Args[0], Select(x, i), Select(y, i))
		}
	}
	return intern(&Term{Op: "select", Args: []*Term{a, i}, Sort: a.Sort.Elem})
}

func Store(a, i, v *Term) *Term {
	if !sameSMT(a.Sort.Elem, v.Sort) {
		panic(fmt.Sprintf("Store sort mismatch %s := %s (%s)", a.Sort.Name, v.Sort.Name, v))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == "constarr" && a.Args[0] == v {
		return a
	}
	return intern(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{Op: "constarr", Args: []*Term{v}, Sort: s})
}

func Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic(fmt.Sprintf("Mk %s: %d args", s.Name, len(args)))
	}
	for i, a := range args {
		if !sameSMT(a.Sort, s.Fields[i].Sort) {
			panic(fmt.Sprintf("Mk %s field %s: sort %s, want %s (%s)", s.Name, s.Fields[i].Name, a.Sort.Name, s.Fields[i].Sort.Name, a))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) -> x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Idx == 0 && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "sel" || a.Idx != i || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return intern(&Term{Op: "mk", Args: args, Sort: s})
}

func Sel(x *Term, i int) *Term {
	if x.Op == "mk" {
		return x.Args[i]
	}
	if x.Op == "ite" && hasMk(x) {
		return Ite(x.Args[0], Sel(x.Args[1], i), Sel(x.Args[2], i))
	}
	return intern(&Term{Op: "sel", Args: []*Term{x}, Idx: i, Sort: x.Sort.Fields[i].Sort})
}
func hasMk(x *Term) bool {
	if x.Op == "mk" {
		return true
	}
	if x.Op == "ite" {
		return hasMk(x.Args[1]) || hasMk(x.Args[2])
	}
	return false
}
func SelN(x *Term, name string) *Term {
	i := x.Sort.field(name)
	if i < 0 {
		panic(fmt.Sprintf("sort %s has no field %s", x.Sort.Name, name))
	}
	return Sel(x, i)
}
func WithField(x *Term, i int, v *Term) *Term {
	args := make([]*Term, len(x.Sort.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(x, j)
		}
	}
	return Mk(x.Sort, args...)
}

func Forall(bv []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", bv, body, pats)
}
func Exists(bv []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", bv, body, pats)
}
func quant(op string, bv []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	fv := map[*Term]bool{}
	collectFree(body, fv)
	var used []*Term
	for _, v := range bv {
		if fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	pats = splitPats(pats)
	var np [][]*Term
	for _, p := range pats {
		pv := map[*Term]bool{}
		for _, x := range p {
			collectFree(x, pv)
		}
		ok := true
		for _, v := range used {
			if !pv[v] {
				ok = false
			}
		}
		for _, v := range bv {
			if pv[v] && !fv[v] {
				ok = false
			}
		}
		for _, x := range p {
			if x.Op == "bvar" || !x.fb || badPattern(x) {
				ok = false
			}
		}
		if ok {
			np = append(np, p)
		}
	}
	pats = np
	return intern(&Term{Op: op, Args: []*Term{body}, BV: used, Pats: pats, Sort: Bool})
}

// badPattern: interpreted symbols at the top (or boolean structure inside) cannot be patterns.
// splitPats replaces a trigger that contains an if by one trigger per branch
func splitPats(pats [][]*Term) [][]*Term {
	for n := 0; n < 3; n++ {
		var out [][]*Term
		ch := false
		for _, p := range pats {
			var c *Term
			for _, x := range p {
				if c = findIte(x); c != nil {
					break
				}
			}
			if c == nil || len(pats) > 6 {
				out = append(out, p)
				continue
			}
			ch = true
			for _, br := range c.Args[1:3] {
				q := make([]*Term, len(p))
				for i, x := range p {
					q[i] = Subst(x, map[*Term]*Term{c: br})
				}
				out = append(out, q)
			}
		}
		pats = out
		if !ch {
			break
		}
	}
	return pats
}

func findIte(t *Term) *Term {
	if t.Op == "ite" {
		return t
	}
	if t.Op == "forall" || t.Op == "exists" {
		return nil
	}
	for _, a := range t.Args {
		if r := findIte(a); r != nil {
			return r
		}
	}
	return nil
}

func badPattern(t *Term) bool {
	switch t.Op {
	case "app", "select", "sel":
	default:
		return true
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch t.Op {
		case "and", "or", "not", "=>", "=", "ite", "<=", "<", "forall", "exists":
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- substitution ----

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var pats [][]*Term
		if len(t.BV) > 0 {
			for _, p := range t.Pats {
				var np []*Term
				for _, a := range p {
					x := rec(a)
					if x != a {
						ch = true
					}
					np = append(np, x)
				}
				pats = append(pats, np)
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "app":
		switch t.Name {
		case "imul":
			return Mul(args[0], args[1])
		case "idiv":
			return Div(args[0], args[1])
		case "imod":
			return Mod(args[0], args[1])
		}
		return App(t.Name, t.Sort, args...)
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "constarr":
		return ConstArr(t.Sort, args[0])
	case "mk":
		return Mk(t.Sort, args...)
	case "sel":
		return Sel(args[0], t.Idx)
	case "forall", "exists":
		return quant(t.Op, t.BV, args[0], pats)
	}
	panic("rebuild " + t.Op)
}

// occurs reports whether any of the given terms occurs in t.
func occurs(t *Term, vs map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if vs[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string {
	s := smt(t)
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func selName(s *Sort, i int) string { return s.Name + "." + s.Fields[i].Name }

// smt renders a term without sharing (for short terms and inside quantifiers).
func smt(t *Term) string {
	var b strings.Builder
	writeTerm(&b, t, nil)
	return b.String()
}

func writeNum(b *strings.Builder, n *big.Int) {
	if n.Sign() < 0 {
		b.WriteString("(- ")
		b.WriteString(new(big.Int).Neg(n).String())
		b.WriteString(")")
		return
	}
	b.WriteString(n.String())
}

func quoteName(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$~&^*-+", r)) {
			return "|" + n + "|"
		}
	}
	return n
}

func writeTerm(b *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	writeTermTop(b, t, names)
}

func writeTermTop(b *strings.Builder, t *Term, names map[*Term]string) {
	list := func(op string) {
		b.WriteString("(")
		b.WriteString(op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			writeTerm(b, a, names)
		}
		b.WriteString(")")
	}
	switch t.Op {
	case "true", "false":
		b.WriteString(t.Op)
	case "num":
		writeNum(b, t.Num)
	case "var", "bvar", "lit":
		b.WriteString(quoteName(t.Name))
	case "app":
		if len(t.Args) == 0 {
			b.WriteString(quoteName(t.Name))
		} else {
			list(quoteName(t.Name))
		}
	case "mk":
		if len(t.Args) == 0 {
			b.WriteString("mk_" + t.Sort.Name)
		} else {
			list("mk_" + t.Sort.Name)
		}
	case "sel":
		list(selName(t.Args[0].Sort, t.Idx))
	case "constarr":
		list("(as const " + t.Sort.SMT() + ")")
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.BV {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + quoteName(v.Name) + " " + v.Sort.SMT() + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		writeShared(b, t.Args[0], names)
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				writeTerm(b, x, names)
			}
			b.WriteString(")")
			// also match the array below the writes
			alt := false
			q := make([]*Term, len(p))
			for i, x := range p {
				q[i] = x
				if x.Op == "select" && x.Args[0].Op == "store" {
					a := x.Args[0]
					for a.Op == "store" {
						a = a.Args[0]
					}
					if !a.fb && a.Op != "constarr" {
						q[i] = intern(&Term{Op: "select", Args: []*Term{a, x.Args[1]}, Sort: x.Sort})
						alt = true
					}
				}
			}
			if alt {
				b.WriteString(" :pattern (")
				for i, x := range q {
					if i > 0 {
						b.WriteByte(' ')
					}
					writeTerm(b, x, names)
				}
				b.WriteString(")")
			}
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		list(t.Op)
	}
}

// writeShared writes a quantifier body with let-bindings for shared subterms that
// contain bound variables.
func writeShared(b *strings.Builder, t *Term, names map[*Term]string) {
	cnt := map[*Term]int{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if names != nil {
			if _, ok := names[t]; ok {
				return
			}
		}
		if len(t.Args) == 0 {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if len(t.BV) > 0 {
			return // inner quantifiers handled on their own
		}
		for _, a := range t.Args {
			rec(a)
		}
		order = append(order, t)
	}
	rec(t)
	local := map[*Term]string{}
	for k, v := range names {
		local[k] = v
	}
	n := 0
	for _, x := range order {
		if cnt[x] > 1 && termSize(x) > 6 && len(x.BV) == 0 {
			name := fmt.Sprintf("l!%d", x.id)
			b.WriteString("(let ((" + name + " ")
			writeTermTop(b, x, local)
			b.WriteString(")) ")
			local[x] = name
			n++
		}
	}
	writeTerm(b, t, local)
	for i := 0; i < n; i++ {
		b.WriteString(")")
	}
}

func termSize(t *Term) int {
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 20 {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return n
}
