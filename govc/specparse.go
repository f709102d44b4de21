package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// ---- expression syntax ----

type Ex struct {
	Op   string // lit-int lit-str lit-bool nil id sel idx slice call un bin cond quant let
	Name string
	Val  string
	Args []*Ex
	Vars []Param
	Trig [][]*Ex
	Pos  string
}
type Param struct {
	Name string
	Type string
}

type lexer struct {
	toks []stok
	p    int
	pos  string
}
type stok struct {
	k byte // i ident, n number, s string, o operator, e eof
	s string
}

var reTok = regexp.MustCompile(`^(?:\s+|([A-Za-z_$][A-Za-z0-9_$]*)|([0-9]+)|("(?:[^"\\]|\\.)*")|(<==>|==>|::|==|!=|<=|>=|&&|\|\||\.\.\.|[-+*/%!<>?:.,()\[\]{}=#&|]))`)

func lex(s, pos string) (*lexer, error) {
	l := &lexer{pos: pos}
	for s != "" {
		m := reTok.FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("%s: bad token at %q", pos, s)
		}
		s = s[len(m[0]):]
		switch {
		case m[1] != "":
			l.toks = append(l.toks, stok{'i', m[1]})
		case m[2] != "":
			l.toks = append(l.toks, stok{'n', m[2]})
		case m[3] != "":
			u, err := strconv.Unquote(m[3])
			if err != nil {
				return nil, fmt.Errorf("%s: bad string %s", pos, m[3])
			}
			l.toks = append(l.toks, stok{'s', u})
		case m[4] != "":
			l.toks = append(l.toks, stok{'o', m[4]})
		}
	}
	return l, nil
}
func (l *lexer) peek() stok {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return stok{'e', ""}
}
func (l *lexer) next() stok { t := l.peek(); l.p++; return t }
func (l *lexer) is(op string) bool {
	t := l.peek()
	return t.k == 'o' && t.s == op
}
func (l *lexer) isID(id string) bool {
	t := l.peek()
	return t.k == 'i' && t.s == id
}
func (l *lexer) eat(op string) {
	if !l.is(op) {
		panic(fmt.Sprintf("%s: expected %q got %q", l.pos, op, l.peek().s))
	}
	l.p++
}
func (l *lexer) ident() string {
	t := l.next()
	if t.k != 'i' {
		panic(fmt.Sprintf("%s: expected identifier got %q", l.pos, t.s))
	}
	return t.s
}

// typeText consumes a Go type (or "list T", "#Sort").
func (l *lexer) typeText() string {
	switch {
	case l.is("*"):
		l.next()
		return "*" + l.typeText()
	case l.is("["):
		l.next()
		if l.is("]") {
			l.next()
			return "[]" + l.typeText()
		}
		n := l.next().s
		l.eat("]")
		return "[" + n + "]" + l.typeText()
	case l.is("#"):
		l.next()
		return "#" + l.ident()
	}
	id := l.ident()
	switch id {
	case "struct":
		l.eat("{")
		l.eat("}")
		return "struct{}"
	case "list":
		return "list " + l.typeText()
	case "map":
		l.eat("[")
		k := l.typeText()
		l.eat("]")
		return "map[" + k + "]" + l.typeText()
	case "func":
		// func(T) R
		l.eat("(")
		var ps []string
		for !l.is(")") {
			ps = append(ps, l.typeText())
			if l.is(",") {
				l.next()
			}
		}
		l.eat(")")
		s := "func(" + strings.Join(ps, ",") + ")"
		if t := l.peek(); t.k == 'i' || l.is("*") || l.is("[") {
			s += " " + l.typeText()
		}
		return s
	}
	if l.is(".") {
		l.next()
		return id + "." + l.ident()
	}
	return id
}

func (l *lexer) params() []Param {
	var ps []Param
	l.eat("(")
	for !l.is(")") {
		n := l.ident()
		t := ""
		if !l.is(",") && !l.is(")") {
			t = l.typeText()
		}
		ps = append(ps, Param{n, t})
		if l.is(",") {
			l.next()
		}
	}
	l.eat(")")
	// a b string  => share the type of the next
	for i := len(ps) - 2; i >= 0; i-- {
		if ps[i].Type == "" {
			ps[i].Type = ps[i+1].Type
		}
	}
	return ps
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (l *lexer) expr() *Ex { return l.cond() }
func (l *lexer) cond() *Ex {
	c := l.bin(1)
	if l.is("?") {
		l.next()
		a := l.cond()
		l.eat(":")
		b := l.cond()
		return &Ex{Op: "cond", Args: []*Ex{c, a, b}, Pos: l.pos}
	}
	return c
}
func (l *lexer) bin(min int) *Ex {
	left := l.unary()
	for {
		t := l.peek()
		if t.k != 'o' {
			return left
		}
		p, ok := binPrec[t.s]
		if !ok || p < min {
			return left
		}
		l.next()
		var right *Ex
		if t.s == "==>" {
			right = l.bin(p)
		} else {
			right = l.bin(p + 1)
		}
		// a <= b < c
		if p == 6 && left.Op == "bin" && binPrec[left.Name] == 6 && left.Val != "paren" {
			left = &Ex{Op: "bin", Name: "&&", Args: []*Ex{left, {Op: "bin", Name: t.s, Args: []*Ex{left.Args[1], right}, Pos: l.pos}}, Pos: l.pos}
			continue
		}
		left = &Ex{Op: "bin", Name: t.s, Args: []*Ex{left, right}, Pos: l.pos}
	}
}
func (l *lexer) unary() *Ex {
	if l.is("!") || l.is("-") {
		o := l.next().s
		return &Ex{Op: "un", Name: o, Args: []*Ex{l.unary()}, Pos: l.pos}
	}
	if l.is("*") {
		l.next()
		return &Ex{Op: "deref", Args: []*Ex{l.unary()}, Pos: l.pos}
	}
	return l.postfix(l.primary())
}
func (l *lexer) postfix(e *Ex) *Ex {
	for {
		switch {
		case l.is("."):
			l.next()
			if l.is("(") { // x.(T)
				l.next()
				t := l.typeText()
				l.eat(")")
				e = &Ex{Op: "assert", Name: t, Args: []*Ex{e}, Pos: l.pos}
				continue
			}
			e = &Ex{Op: "sel", Name: l.ident(), Args: []*Ex{e}, Pos: l.pos}
		case l.is("["):
			l.next()
			var lo, hi *Ex
			if !l.is(":") {
				lo = l.expr()
			}
			if l.is(":") {
				l.next()
				if !l.is("]") {
					hi = l.expr()
				}
				l.eat("]")
				e = &Ex{Op: "slice", Args: []*Ex{e, lo, hi}, Pos: l.pos}
				continue
			}
			l.eat("]")
			e = &Ex{Op: "idx", Args: []*Ex{e, lo}, Pos: l.pos}
		default:
			return e
		}
	}
}
func (l *lexer) primary() *Ex {
	t := l.peek()
	switch t.k {
	case 'n':
		l.next()
		return &Ex{Op: "lit-int", Val: t.s, Pos: l.pos}
	case 's':
		l.next()
		return &Ex{Op: "lit-str", Val: t.s, Pos: l.pos}
	case 'o':
		if t.s == "(" {
			l.next()
			e := l.expr()
			l.eat(")")
			if e.Op == "bin" {
				c := *e
				c.Val = "paren"
				return &c
			}
			return e
		}
	case 'i':
		switch t.s {
		case "forall", "exists":
			l.next()
			q := &Ex{Op: "quant", Name: t.s, Pos: l.pos}
			for {
				n := []string{l.ident()}
				for l.is(",") {
					l.next()
					n = append(n, l.ident())
				}
				ty := l.typeText()
				for _, x := range n {
					q.Vars = append(q.Vars, Param{x, ty})
				}
				if l.is(",") {
					l.next()
					continue
				}
				break
			}
			l.eat("::")
			for l.is("{") {
				l.next()
				var tr []*Ex
				for !l.is("}") {
					tr = append(tr, l.expr())
					if l.is(",") {
						l.next()
					}
				}
				l.eat("}")
				q.Trig = append(q.Trig, tr)
			}
			q.Args = []*Ex{l.expr()}
			return q
		case "let":
			l.next()
			n := l.ident()
			l.eat("=")
			v := l.bin(3)
			if !l.isID("in") {
				panic(l.pos + ": expected in")
			}
			l.next()
			return &Ex{Op: "let", Name: n, Args: []*Ex{v, l.expr()}, Pos: l.pos}
		case "true", "false":
			l.next()
			return &Ex{Op: "lit-bool", Val: t.s, Pos: l.pos}
		case "nil":
			l.next()
			return &Ex{Op: "nil", Pos: l.pos}
		}
		l.next()
		if l.is("(") {
			l.next()
			c := &Ex{Op: "call", Name: t.s, Pos: l.pos}
			if t.s == "typeis" || t.s == "cast" || t.s == "mkiface" {
				c.Args = append(c.Args, l.expr())
				l.eat(",")
				c.Val = l.typeText()
				l.eat(")")
				return c
			}
			if t.s == "zero" {
				c.Val = l.typeText()
				l.eat(")")
				return c
			}
			if t.s == "global" || t.s == "globalref" { // global(pkg.name) or global(name)
				n := l.ident()
				for l.is(".") {
					l.next()
					n += "." + l.ident()
				}
				c.Val = n
				l.eat(")")
				return c
			}
			for !l.is(")") {
				c.Args = append(c.Args, l.expr())
				if l.is(",") {
					l.next()
				}
			}
			l.eat(")")
			return c
		}
		return &Ex{Op: "id", Name: t.s, Pos: l.pos}
	}
	panic(fmt.Sprintf("%s: unexpected token %q", l.pos, t.s))
}

func parseExpr(s, pos string) (e *Ex, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v (in %q)", r, s)
		}
	}()
	l, err := lex(s, pos)
	if err != nil {
		return nil, err
	}
	e = l.expr()
	if l.peek().k != 'e' {
		return nil, fmt.Errorf("%s: trailing %q in %q", pos, l.peek().s, s)
	}
	return e, nil
}

// ---- spec files ----

type Clause struct {
	In     string
	Kind   string
	Labels map[string]bool // empty: always
	E      *Ex
	Text   string
	Pos    string
	Vars   []Param // loop invariant templates
	Name   string
}

func (c *Clause) applies(prop string) bool {
	return len(c.Labels) == 0 || c.Labels[prop]
}

type Contract struct {
	Pkg        string
	Key        string // "key" or "(*File).X" or "init#..."; extern ones carry the package path
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []*Ex // nil + ModNothing
	ModAll     bool
	ModAlts    []*ModAlt // labelled modifies clauses
	LoopInv    []*Clause
	LoopSkip   bool
	Uses       []*Clause
	Trusted    bool
	TrustedFor map[string]bool // properties that take the contract on trust
	MayPanic   bool
	Pure       bool // no heap effects and no allocation visible
	Quiet      bool // pure, except for the ghost state it lists
	Inline     bool
	NoErr      bool
	Heaps      []string // extra heaps havocked
	Pos        string
	Note       string
	Labels     map[string]bool
	Internal   bool            // helper: given up (inlined) when the code no longer has it
	Hide       map[string]bool // definitions the function's obligations do not look into
	Roots      []string        // properties that start at this function
	AllocBound *Clause         // no make in the function asks for more elements
	Panics     *Ex             // condition under which an extern panics
}

// ModAlt is a modifies clause that replaces the unlabelled one for some properties.
type ModAlt struct {
	Labels map[string]bool
	Locs   []*Ex
	All    bool
}

// forProp selects the modifies clause that holds for a property.
func (sp *Spec) forProp(prop string) {
	for _, c := range sp.Contracts {
		if c.TrustedFor[prop] {
			c.Trusted = true
		}
		first := true
		for _, a := range c.ModAlts {
			if a.Labels[prop] {
				if first {
					c.Modifies, c.ModAll = nil, false
				}
				first = false
				c.Modifies = append(c.Modifies, a.Locs...)
				c.ModAll = c.ModAll || a.All
			}
		}
	}
}

type SpecFn struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Ex
	Kind   string // fn rec ufn
	Pkg    string
	Pos    string
	Text   string
}
type Axiom struct {
	Pkg   string
	On    []string
	E     *Ex
	Pos   string
	Name  string
	Text  string
	Label map[string]bool
}
type Lemma struct {
	Pkg      string
	Name     string
	Params   []Param
	Requires []*Ex
	Ensures  []*Ex
	Induct   string
	Gen      []string
	Hide     []string
	On       []string
	Trig     [][]*Ex
	Uses     []*Ex
	Pos      string
	Text     string
	Labels   map[string]bool
}
type Spec struct {
	Contracts map[string]*Contract // pkgpath + "." + key
	Fns       map[string]*SpecFn   // pkg-qualified? global names
	Axioms    []*Axiom
	Lemmas    []*Lemma
	Impl      map[string][]string // interface -> implementers
	Imports   map[string]string
}

var reHead = regexp.MustCompile(`^(package|func|extern|iface|fn|rec|ufn|locs|axiom|lemma|implementers)\b`)
var reClause = regexp.MustCompile(`^(requires|ensures|assumes|modifies|loopinv|allocbound|trusted|maypanic|pure|quiet|inline|internal|root|heaps|note|induct|gen|hide|on|trigger|use|panics)\b`)
var reLabels = regexp.MustCompile(`^\{([A-Z0-9, ]+)\}\s*`)

func parseLabels(s string) (map[string]bool, string) {
	m := reLabels.FindStringSubmatch(s)
	if m == nil {
		return nil, s
	}
	l := map[string]bool{}
	for _, x := range strings.Split(m[1], ",") {
		l[strings.TrimSpace(x)] = true
	}
	return l, s[len(m[0]):]
}

type item struct {
	text string
	pos  string
}

func loadSpecs(dir string) (*Spec, error) {
	sp := &Spec{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Impl: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	if len(files) == 0 {
		return nil, fmt.Errorf("no spec files in %s", dir)
	}
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Spec) load(file string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s: %v", file, r)
		}
	}()
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var items []item
	base := filepath.Base(file)
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") || strings.HasPrefix(strings.TrimSpace(l), "//") {
			l = l[:strings.Index(l, "//")]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if reHead.MatchString(t) && !strings.HasPrefix(l, " ") && !strings.HasPrefix(l, "\t") || reClause.MatchString(t) {
			items = append(items, item{t, fmt.Sprintf("%s:%d", base, i+1)})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: stray text", base, i+1)
		}
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	ex := func(s, pos string) *Ex {
		e, err := parseExpr(s, pos)
		if err != nil {
			panic(err)
		}
		return e
	}
	for _, it := range items {
		w := it.text
		kw := w
		if k := strings.IndexAny(w, " \t({"); k >= 0 {
			kw = w[:k]
		}
		rest := strings.TrimSpace(w[len(kw):])
		switch kw {
		case "package":
			pkg = rest
			cur, lem = nil, nil
		case "func", "extern", "iface":
			lem = nil
			labels, r2 := parseLabels(rest)
			cur = parseHeader(r2, it.pos)
			cur.Labels = labels
			cur.Pkg = pkg
			if kw == "extern" {
				cur.Trusted = true
			}
			if kw == "iface" {
				cur.Trusted = true
				cur.Key = "iface " + cur.Key
			}
			k := pkg + "." + cur.Key
			if kw == "extern" || kw == "iface" {
				k = cur.Key
			}
			if _, dup := sp.Contracts[k]; dup {
				return fmt.Errorf("%s: duplicate contract %s", it.pos, k)
			}
			sp.Contracts[k] = cur
		case "locs":
			cur, lem = nil, nil
			l, err := lex(rest, it.pos)
			if err != nil {
				return err
			}
			f := &SpecFn{Kind: kw, Pkg: pkg, Pos: it.pos, Text: rest}
			f.Name = l.ident()
			f.Params = l.params()
			l.eat("=")
			f.Body = &Ex{Op: "locs"}
			for l.peek().k != 'e' {
				f.Body.Args = append(f.Body.Args, l.expr())
				if l.is(",") {
					l.next()
				}
			}
			if _, dup := sp.Fns[f.Name]; dup {
				return fmt.Errorf("%s: duplicate locs %s", it.pos, f.Name)
			}
			sp.Fns[f.Name] = f
		case "fn", "rec", "ufn":
			cur, lem = nil, nil
			l, err := lex(rest, it.pos)
			if err != nil {
				return err
			}
			f := &SpecFn{Kind: kw, Pkg: pkg, Pos: it.pos, Text: rest}
			f.Name = l.ident()
			f.Params = l.params()
			f.Ret = l.typeText()
			if kw != "ufn" {
				l.eat("=")
				f.Body = l.expr()
			}
			if l.peek().k != 'e' {
				return fmt.Errorf("%s: trailing %q", it.pos, l.peek().s)
			}
			if _, dup := sp.Fns[f.Name]; dup {
				return fmt.Errorf("%s: duplicate fn %s", it.pos, f.Name)
			}
			sp.Fns[f.Name] = f
		case "axiom":
			cur, lem = nil, nil
			a := &Axiom{Pkg: pkg, Pos: it.pos, Text: rest}
			// axiom on(f,g) :: expr
			if !strings.HasPrefix(rest, "on(") {
				return fmt.Errorf("%s: axiom needs on(...)", it.pos)
			}
			k := strings.Index(rest, ")")
			for _, n := range strings.Split(rest[3:k], ",") {
				a.On = append(a.On, strings.TrimSpace(n))
			}
			body := strings.TrimSpace(rest[k+1:])
			body = strings.TrimPrefix(body, "::")
			a.E = ex(body, it.pos)
			sp.Axioms = append(sp.Axioms, a)
		case "lemma":
			cur = nil
			labels, r2 := parseLabels(rest)
			l, err := lex(r2, it.pos)
			if err != nil {
				return err
			}
			lem = &Lemma{Pkg: pkg, Pos: it.pos, Text: rest, Labels: labels}
			lem.Name = l.ident()
			lem.Params = l.params()
			sp.Lemmas = append(sp.Lemmas, lem)
		case "implementers":
			k := strings.Index(rest, ":")
			for _, n := range strings.Split(rest[k+1:], ",") {
				sp.Impl[strings.TrimSpace(rest[:k])] = append(sp.Impl[strings.TrimSpace(rest[:k])], strings.TrimSpace(n))
			}
		default:
			labels, body := parseLabels(rest)
			if lem != nil {
				switch kw {
				case "requires":
					lem.Requires = append(lem.Requires, ex(body, it.pos))
				case "ensures":
					lem.Ensures = append(lem.Ensures, ex(body, it.pos))
				case "induct":
					lem.Induct = body
				case "hide":
					for _, g := range strings.Split(body, ",") {
						lem.Hide = append(lem.Hide, strings.TrimSpace(g))
					}
				case "gen":
					for _, g := range strings.Split(body, ",") {
						lem.Gen = append(lem.Gen, strings.TrimSpace(g))
					}
				case "use":
					lem.Uses = append(lem.Uses, ex(body, it.pos))
				case "on":
					for _, g := range strings.Split(body, ",") {
						lem.On = append(lem.On, strings.TrimSpace(g))
					}
				case "trigger":
					l, err := lex(body, it.pos)
					if err != nil {
						return err
					}
					var tr []*Ex
					for l.peek().k != 'e' {
						tr = append(tr, l.expr())
						if l.is(",") {
							l.next()
						}
					}
					lem.Trig = append(lem.Trig, tr)
				default:
					return fmt.Errorf("%s: %s in lemma", it.pos, kw)
				}
				continue
			}
			if cur == nil {
				return fmt.Errorf("%s: clause %s outside a contract", it.pos, kw)
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, &Clause{Kind: kw, Labels: labels, E: ex(body, it.pos), Text: body, Pos: it.pos})
			case "ensures", "assumes":
				cur.Ensures = append(cur.Ensures, &Clause{Kind: kw, Labels: labels, E: ex(body, it.pos), Text: body, Pos: it.pos})
			case "modifies":
				a := &ModAlt{Labels: labels, All: body == "anything"}
				if body != "nothing" && !a.All {
					l, err := lex(body, it.pos)
					if err != nil {
						return err
					}
					for l.peek().k != 'e' {
						a.Locs = append(a.Locs, l.expr())
						if l.is(",") {
							l.next()
						}
					}
				}
				if len(labels) > 0 {
					cur.ModAlts = append(cur.ModAlts, a)
				} else {
					cur.Modifies = append(cur.Modifies, a.Locs...)
					cur.ModAll = cur.ModAll || a.All
				}
			case "loopinv":
				c := &Clause{Kind: kw, Labels: labels, Text: body, Pos: it.pos}
				if strings.HasPrefix(body, "in ") { // only loops that call the function
					w := strings.Fields(body)
					c.In = w[1]
					body = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(body[3:]), w[1]))
				}
				if k := strings.Index(body, ":::"); k >= 0 {
					l, err := lex(body[:k], it.pos)
					if err != nil {
						return err
					}
					for l.peek().k != 'e' {
						n := l.ident()
						pre := "" // phi: carried by the loop; fix: not assigned by it
						if l.isID("phi") || l.isID("fix") || l.isID("over") {
							pre = l.ident() + " "
						}
						c.Vars = append(c.Vars, Param{n, pre + l.typeText()})
						if l.is(",") {
							l.next()
						}
					}
					body = body[k+3:]
				}
				c.E = ex(body, it.pos)
				cur.LoopInv = append(cur.LoopInv, c)
			case "use":
				cur.Uses = append(cur.Uses, &Clause{Kind: kw, Labels: labels, E: ex(body, it.pos), Text: body, Pos: it.pos})
			case "trusted":
				if len(labels) > 0 {
					cur.TrustedFor = labels
				} else {
					cur.Trusted = true
				}
				cur.Note = body
			case "note":
				cur.Note = body
			case "hide":
				if cur.Hide == nil {
					cur.Hide = map[string]bool{}
				}
				for _, g := range strings.Split(body, ",") {
					cur.Hide[strings.TrimSpace(g)] = true
				}
			case "maypanic":
				cur.MayPanic = true
			case "panics":
				cur.Panics = ex(body, it.pos)
			case "allocbound":
				cur.AllocBound = &Clause{Kind: kw, Labels: labels, E: ex(body, it.pos), Text: body, Pos: it.pos}
			case "quiet": // pure but for ghost state
				cur.Quiet = true
			case "pure":
				cur.Pure = true
			case "inline":
				cur.Inline = true
			case "internal":
				cur.Internal = true
			case "root":
				for _, h := range strings.Split(body, ",") {
					cur.Roots = append(cur.Roots, strings.TrimSpace(h))
				}
			case "heaps":
				for _, h := range strings.Split(body, ",") {
					cur.Heaps = append(cur.Heaps, strings.TrimSpace(h))
				}
			default:
				return fmt.Errorf("%s: unknown clause %s", it.pos, kw)
			}
		}
	}
	return nil
}

// parseHeader: (*File).X(file, a, b) (r, err)   |  strings.Index(s, sep) (r) | (*sync.Map).Load(m, k) (v, ok)
func parseHeader(s, pos string) *Contract {
	c := &Contract{Pos: pos}
	// name: up to the parameter parenthesis
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		panic(pos + ": bad header " + s)
	}
	c.Key = strings.TrimSpace(s[:i+j])
	rest := s[i+j:]
	k := strings.Index(rest, ")")
	names := func(t string) (r []string) {
		for _, x := range strings.Split(t, ",") {
			if x = strings.TrimSpace(x); x != "" {
				r = append(r, strings.Fields(x)[0])
			}
		}
		return
	}
	c.Params = names(rest[1:k])
	rest = strings.TrimSpace(rest[k+1:])
	if strings.HasPrefix(rest, "(") {
		c.Results = names(rest[1:strings.Index(rest, ")")])
	}
	return c
}
