package main

// Contract files: lexer, parser and declarations.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type tok struct {
	kind string // id num str op eof
	s    string
	line int
	file string
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line, file})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == 'x' || src[j] == '_') {
				j++
			}
			out = append(out, tok{"num", strings.ReplaceAll(src[i:j], "_", ""), line, file})
			i = j
		case isIdStart(c):
			j := i
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line, file})
			i = j
		default:
			done := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line, file})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				out = append(out, tok{"op", string(c), line, file})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line, file})
	return out
}

func isIdStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// ---- expression AST ----

type SE struct {
	Op   string // id num str call sel index un bin quant slice upd
	S    string
	N    *big.Int
	Args []*SE
	Vars []SVar
	Trig [][]*SE
	Line int
	File string
}

type SVar struct {
	Name  string
	Type  *ST
	Const bool // in loop clauses: any unchanged value of the type
}

// ST: type expression
type ST struct {
	Op   string // name slice map ptr pred arr
	S    string
	Args []*ST
}

func (e *SE) String() string {
	switch e.Op {
	case "id":
		return e.S
	case "num":
		return e.N.String()
	case "str":
		return "\"" + e.S + "\""
	case "call":
		var as []string
		for _, a := range e.Args {
			as = append(as, a.String())
		}
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "sel":
		return e.Args[0].String() + "." + e.S
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "slice":
		return e.Args[0].String() + "[" + e.Args[1].String() + ":" + e.Args[2].String() + "]"
	case "un":
		return e.S + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.S + " " + e.Args[1].String() + ")"
	case "quant":
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, v.Name)
		}
		return "(" + e.S + " " + strings.Join(vs, ", ") + " :: " + e.Args[0].String() + ")"
	}
	return "?"
}

type parser_ struct {
	t []tok
	p int
}

func (p *parser_) peek() tok { return p.t[p.p] }
func (p *parser_) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser_) fail(msg string) {
	t := p.peek()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", t.file, t.line, msg, t.s))
}
func (p *parser_) is(s string) bool { t := p.peek(); return t.kind != "str" && t.s == s }
func (p *parser_) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser_) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser_) ident() string {
	t := p.next()
	if t.kind != "id" {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}

func (p *parser_) mk(op string) *SE { t := p.peek(); return &SE{Op: op, Line: t.line, File: t.file} }

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser_) expr() *SE { return p.binary(1) }

func (p *parser_) binary(min int) *SE {
	l := p.unary()
	for {
		t := p.peek()
		if t.kind == "str" || t.kind == "num" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		e := p.mk("bin")
		p.next()
		e.S = t.s
		var r *SE
		if t.s == "==>" {
			r = p.binary(pr) // right assoc
		} else {
			r = p.binary(pr + 1)
		}
		e.Args = []*SE{l, r}
		l = e
	}
}

func (p *parser_) unary() *SE {
	e := p.mk("un")
	if p.accept("!") {
		e.S = "!"
		e.Args = []*SE{p.unary()}
		return e
	}
	if p.accept("-") {
		e.S = "-"
		e.Args = []*SE{p.unary()}
		return e
	}
	if p.is("forall") || p.is("exists") {
		e.Op = "quant"
		e.S = p.next().s
		for {
			names := []string{p.ident()}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			ty := p.typ()
			for _, n := range names {
				e.Vars = append(e.Vars, SVar{n, ty, false})
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var tr []*SE
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		e.Args = []*SE{p.expr()}
		return e
	}
	return p.postfix()
}

func (p *parser_) postfix() *SE {
	e := p.primary()
	for {
		switch {
		case p.is("."):
			n := p.mk("sel")
			p.next()
			n.S = p.ident()
			n.Args = []*SE{e}
			if p.is("(") { // qualified call pkg.f(...) or method-like
				p.next()
				c := &SE{Op: "call", S: e.String() + "." + n.S, Line: n.Line, File: n.File}
				c.Args = p.args()
				e = c
				continue
			}
			e = n
		case p.is("["):
			n := p.mk("index")
			p.next()
			if p.is(":") {
				p.next()
				n.Op = "slice"
				n.Args = []*SE{e, {Op: "num", N: bigZero, Line: n.Line, File: n.File}, p.expr()}
				p.expect("]")
				e = n
				continue
			}
			i := p.expr()
			if p.accept(":=") {
				n.Op = "upd"
				n.Args = []*SE{e, i, p.expr()}
			} else if p.accept(":") {
				n.Op = "slice"
				if p.is("]") {
					n.Args = []*SE{e, i, {Op: "call", S: "len", Args: []*SE{e}, Line: n.Line, File: n.File}}
				} else {
					n.Args = []*SE{e, i, p.expr()}
				}
			} else {
				n.Args = []*SE{e, i}
			}
			p.expect("]")
			e = n
		case p.is("(") && e.Op == "id":
			n := p.mk("call")
			p.next()
			n.S = e.S
			n.Args = p.args()
			e = n
		default:
			return e
		}
	}
}

func (p *parser_) args() []*SE {
	var out []*SE
	if p.accept(")") {
		return nil
	}
	for {
		out = append(out, p.expr())
		if p.accept(")") {
			return out
		}
		p.expect(",")
	}
}

func (p *parser_) primary() *SE {
	t := p.peek()
	e := p.mk("id")
	switch {
	case t.kind == "num":
		p.next()
		e.Op = "num"
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad number " + t.s)
		}
		e.N = n
		return e
	case t.kind == "str":
		p.next()
		e.Op = "str"
		e.S = t.s
		return e
	case p.accept("("):
		x := p.expr()
		p.expect(")")
		return x
	case p.accept("["):
		e.Op = "list"
		for {
			e.Args = append(e.Args, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
		return e
	case t.kind == "id":
		p.next()
		e.S = t.s
		return e
	}
	p.fail("unexpected token in expression")
	return nil
}

func (p *parser_) typ() *ST {
	if p.accept("[") {
		p.expect("]")
		return &ST{Op: "slice", Args: []*ST{p.typ()}}
	}
	if p.accept("*") {
		return &ST{Op: "ptr", Args: []*ST{p.typ()}}
	}
	n := p.ident()
	switch n {
	case "map", "arr":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &ST{Op: n, Args: []*ST{k, p.typ()}}
	case "pred":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &ST{Op: "pred", Args: []*ST{k}}
	}
	for p.is(".") {
		p.next()
		n += "." + p.ident()
	}
	for p.is("/") { // paths such as math/big.Int
		p.next()
		n += "/" + p.ident()
		for p.accept(".") {
			n += "." + p.ident()
		}
	}
	t := &ST{Op: "name", S: n}
	if p.is("[") {
		p.next()
		for {
			t.Args = append(t.Args, p.typ())
			if p.accept("]") {
				break
			}
			p.expect(",")
		}
	}
	return t
}

// ---- declarations ----

type Clause struct {
	E      *SE
	Props  []string // empty: belongs to every property of the function
	Label  string
	Free   bool // assumed by callers, not checked (trusted)
	NoCall bool // checked on the body, not assumed by callers
	Text   string
}

type LoopSpec struct {
	Depth int    // nesting level the clause is for, 0: any
	Vars  []SVar // bound to every tuple of modified places of these types; v0 is v's value at entry
	Inv   []Clause
}

type CallsSpec struct {
	Vars []SVar
	When *SE
}

type Contract struct {
	Key         string
	Pkg         string
	Params      []string
	Results     []string
	Requires    []Clause
	Ensures     []Clause
	Modifies    []*SE
	Loops       []LoopSpec
	Steps       *Clause // bound on the iterations of every loop whose end is not evident
	Extern      bool    // trusted, no body checked
	Trusted     bool
	Async       bool // only started with go: the clauses say what starting it records
	Infer       []string
	HasInfer    bool
	Inline      bool // has contract for verification but is inlined at call sites
	Pure        bool
	Consumes    map[string]bool
	Props       []string
	NoPanic     bool
	Uses        []string // lemmas to enable
	File        string
	Line        int
	Shares      bool // result may alias arguments (not fresh)
	RetRecv     bool // returns its receiver (aliasing)
	Optional    bool
	Nilable     map[string]bool
	Calls       map[string]*CallsSpec
	Allocates   bool
	Establishes bool // does not assume the global invariants at entry
}

type SpecFunc struct {
	Name   string
	Pkg    string
	Params []SVar
	Ret    *ST
	Body   *SE // macro
	Kind   string
	Base   *SE
	Step   *SE
	File   string
	Line   int
	sorts  []*Sort
	ret    SType
	ptys   []SType
	ready  bool
}

type LemmaDecl struct {
	Name     string
	Pkg      string
	Params   []SVar
	Induct   string
	Requires []*SE
	Ensures  []*SE
	Trig     [][]*SE
	Props    []string
	Uses     []string
	Hidden   bool
	File     string
	Line     int
	Trusted  bool
	Order    int
	Gen      bool
}

type SpecFile struct {
	Contracts []*Contract
	Funcs     []*SpecFunc
	Lemmas    []*LemmaDecl
	Ghosts    []SVar
	GhostPkg  []string
	Globals   []Clause // global invariants (over singletons/ghosts)
	GlobalPkg []string
	Consts    map[string]*SE
	Direct    [][]string
	Trusted   []string // human-readable list of trusted declarations
}

var declKw = map[string]bool{"package": true, "range": true, "ref": true, "singleton": true, "opaque": true, "dispatch": true, "model": true, "spec": true, "axiom": true, "lemma": true, "ghost": true, "func": true, "extern": true, "trusted": true, "inline": true, "global": true, "optional": true}

func parseSpecs(dir string) *SpecFile {
	sf := &SpecFile{Consts: map[string]*SE{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		parseSpecFile(sf, filepath.Base(f), string(b))
	}
	return sf
}

func (p *parser_) props() []string {
	var out []string
	if p.is("[") {
		p.next()
		for {
			out = append(out, p.ident())
			if p.accept("]") {
				break
			}
			p.expect(",")
		}
	}
	return out
}

func (p *parser_) svars() []SVar {
	var out []SVar
	p.expect("(")
	if p.accept(")") {
		return nil
	}
	for {
		konst := p.accept("const")
		names := []string{p.ident()}
		for p.accept(",") {
			names = append(names, p.ident())
		}
		ty := p.typ()
		for _, n := range names {
			out = append(out, SVar{n, ty, konst})
		}
		if p.accept(")") {
			return out
		}
		p.expect(",")
	}
}

func (p *parser_) names() []string {
	var out []string
	p.expect("(")
	if p.accept(")") {
		return nil
	}
	for {
		out = append(out, p.ident())
		if p.accept(")") {
			return out
		}
		p.expect(",")
	}
}

func (p *parser_) path() string {
	s := ""
	for {
		s += p.ident()
		if p.is("/") || p.is(".") || p.is("-") {
			s += p.next().s
			continue
		}
		return s
	}
}

func parseSpecFile(sf *SpecFile, file, src string) {
	p := &parser_{t: lexSpec(file, src)}
	pkg := ""
	hidden := false
	for p.peek().kind != "eof" {
		nl := len(sf.Lemmas)
		line := p.peek().line
		switch kw := p.ident(); kw {
		case "package":
			pkg = p.path()
		case "ref", "singleton":
			sf.Direct = append(sf.Direct, []string{kw, p.path()})
		case "owns":
			sf.Direct = append(sf.Direct, []string{kw, p.path()})
		case "guarded":
			a := p.path()
			p.expect("by")
			sf.Direct = append(sf.Direct, []string{kw, a, p.ident()})
		case "range": // range T.f = LO BITS: values of the field lie in [LO, 2^BITS)
			a := p.path()
			p.expect("=")
			lo := p.next().s
			sf.Direct = append(sf.Direct, []string{kw, a, lo, p.next().s})
		case "opaque", "dispatch", "model", "prophecy":
			a := p.path()
			p.expect("=")
			sf.Direct = append(sf.Direct, []string{kw, a, p.path()})
		case "ghost":
			p.expect("var")
			n := p.ident()
			sf.Ghosts = append(sf.Ghosts, SVar{n, p.typ(), false})
			sf.GhostPkg = append(sf.GhostPkg, pkg)
		case "global":
			p.expect("invariant")
			c := p.clause()
			sf.Globals = append(sf.Globals, c)
			sf.GlobalPkg = append(sf.GlobalPkg, pkg)
		case "spec":
			k := p.ident()
			f := &SpecFunc{Pkg: pkg, File: file, Line: line}
			f.Name = p.ident()
			f.Params = p.svars()
			f.Ret = p.typ()
			switch k {
			case "func":
				f.Kind = "uf"
				if p.accept("fold") {
					f.Kind = "fold"
					p.expect("{")
					p.expect("base")
					f.Base = p.expr()
					p.expect("step")
					f.Step = p.expr()
					p.expect("}")
				}
			case "def":
				f.Kind = "def"
				p.expect("=")
				f.Body = p.expr()
			default:
				p.fail("spec func/def expected")
			}
			sf.Funcs = append(sf.Funcs, f)
		case "hidden": // used only where a "uses" clause names it
			hidden = true
			continue
		case "axiom":
			l := &LemmaDecl{Pkg: pkg, File: file, Line: line, Trusted: true, Order: len(sf.Lemmas)}
			l.Name = p.ident()
			p.expect(":")
			l.Ensures = []*SE{p.expr()}
			sf.Lemmas = append(sf.Lemmas, l)
		case "lemma":
			l := &LemmaDecl{Pkg: pkg, File: file, Line: line, Order: len(sf.Lemmas)}
			l.Name = p.ident()
			l.Props = p.props()
			l.Params = p.svars()
			if p.accept("induct") {
				l.Induct = p.ident()
			}
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "requires":
					l.Requires = append(l.Requires, p.expr())
				case "ensures":
					l.Ensures = append(l.Ensures, p.expr())
				case "generalize":
					l.Gen = true
				case "trigger":
					p.expect("{")
					var tr []*SE
					for {
						tr = append(tr, p.expr())
						if !p.accept(",") {
							break
						}
					}
					p.expect("}")
					l.Trig = append(l.Trig, tr)
				case "uses":
					for {
						l.Uses = append(l.Uses, p.ident())
						if !p.accept(",") {
							break
						}
					}
				default:
					p.fail("unknown lemma clause " + k)
				}
			}
			sf.Lemmas = append(sf.Lemmas, l)
		case "func", "extern", "trusted", "inline", "optional":
			c := &Contract{Pkg: pkg, File: file, Line: line, Consumes: map[string]bool{}, Nilable: map[string]bool{}, Calls: map[string]*CallsSpec{}}
		mods:
			for kw != "func" {
				switch kw {
				case "extern":
					c.Extern = true
				case "trusted":
					c.Trusted = true
				case "inline":
					c.Inline = true
				case "optional":
					c.Optional = true
				}
				switch p.peek().s {
				case "func", "extern", "trusted", "inline", "optional":
					kw = p.ident()
					continue
				}
				break mods
			}
			name := p.path()
			if c.Extern && !strings.HasPrefix(name, "repo.") {
				c.Key = name
			} else {
				c.Key = pkg + "." + name
			}
			c.Params = p.names()
			if p.is("(") {
				c.Results = p.names()
			}
			c.Props = p.props()
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "requires":
					c.Requires = append(c.Requires, p.clause())
				case "ensures":
					c.Ensures = append(c.Ensures, p.clause())
				case "free":
					if p.accept("requires") {
						cl := p.clause()
						cl.Free = true
						c.Requires = append(c.Requires, cl)
						continue
					}
					p.expect("ensures")
					cl := p.clause()
					cl.Free = true
					c.Ensures = append(c.Ensures, cl)
				case "modifies":
					for {
						c.Modifies = append(c.Modifies, p.expr())
						if !p.accept(",") {
							break
						}
					}
				case "consumes":
					c.Consumes[p.ident()] = true
				case "nilable":
					for {
						c.Nilable[p.ident()] = true
						if !p.accept(",") {
							break
						}
					}
				case "calls":
					n := p.ident()
					cs := &CallsSpec{Vars: p.svars()}
					p.expect("when")
					cs.When = p.expr()
					c.Calls[n] = cs
				case "allocates":
					c.Allocates = true
				case "shows":
					cl := p.clause()
					cl.NoCall = true
					c.Ensures = append(c.Ensures, cl)
				case "establishes":
					c.Establishes = true
				case "shares":
					c.Shares = true
				case "async":
					c.Async = true
				case "returns_receiver":
					c.RetRecv = true
				case "uses":
					for {
						c.Uses = append(c.Uses, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case "infer": // the folds loops are matched with (default: all)
					c.HasInfer = true
					for {
						c.Infer = append(c.Infer, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case "steps":
					sc := p.clause()
					c.Steps = &sc
				case "loop":
					ls := LoopSpec{}
					t := p.next()
					if t.kind == "num" {
						fmt.Sscan(t.s, &ls.Depth)
					}
					if p.peek().s == "(" {
						ls.Vars = p.svars()
					}
					p.expect("{")
					for !p.accept("}") {
						p.expect("inv")
						ls.Inv = append(ls.Inv, p.clause())
					}
					c.Loops = append(c.Loops, ls)
				default:
					p.fail("unknown contract clause " + k)
				}
			}
			sf.Contracts = append(sf.Contracts, c)
		default:
			p.fail("unknown declaration " + kw)
		}
		if hidden && len(sf.Lemmas) > nl {
			sf.Lemmas[nl].Hidden = true
		}
		hidden = false
	}
}

func (p *parser_) clause() Clause {
	c := Clause{}
	c.Props = p.props()
	if p.peek().kind == "str" {
		c.Label = p.next().s
	}
	c.E = p.expr()
	c.Text = c.E.String()
	return c
}
