package main

// C03, C04: an evaluator of C expressions over 64-bit integers, written from
// the C precedence table.

import (
	"context"
	"fmt"
	"math"
	"strings"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

type cx struct {
	op   string // "n", "int", unary "u-", binary "+", "?"
	v    int64
	kids []*cx
}

// levels of the binary operators, loosest first
var cLevels = [][]string{{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

// the repository's grammar splits the relational level in two
var gLevels = [][]string{{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<=", ">="}, {"<", ">"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

type cparser struct {
	toks   []string
	pos    int
	levels [][]string
	incs   bool
}

func ctokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			if i+1 < len(s) {
				switch t := s[i : i+2]; t {
				case "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||":
					out = append(out, t)
					i += 2
					continue
				}
			}
			if !strings.ContainsRune("n()+-~!*/%<>&^|?:", rune(c)) {
				c = '@' // no token
			}
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func (p *cparser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}
func (p *cparser) cond() *cx {
	c := p.bin(0)
	if c == nil || p.peek() != "?" {
		return c
	}
	p.pos++
	a := p.cond()
	if a == nil || p.peek() != ":" {
		return nil
	}
	p.pos++
	b := p.cond()
	if b == nil {
		return nil
	}
	return &cx{op: "?", kids: []*cx{c, a, b}}
}
func (p *cparser) bin(l int) *cx {
	if l == len(p.levels) {
		return p.unary()
	}
	a := p.bin(l + 1)
	for a != nil && isIn(p.peek(), p.levels[l]) {
		op := p.peek()
		p.pos++
		b := p.bin(l + 1)
		if b == nil {
			return nil
		}
		a = &cx{op: op, kids: []*cx{a, b}}
	}
	return a
}
func (p *cparser) unary() *cx {
	switch t := p.peek(); t {
	case "+", "-", "~", "!", "++", "--":
		p.pos++
		k := p.unary()
		if k == nil {
			return nil
		}
		if len(t) == 2 {
			p.incs = true
		}
		return &cx{op: "u" + t, kids: []*cx{k}}
	}
	e := p.primary()
	for e != nil && (p.peek() == "++" || p.peek() == "--") {
		e = &cx{op: "p" + p.peek(), kids: []*cx{e}}
		p.incs = true
		p.pos++
	}
	return e
}
func (p *cparser) primary() *cx {
	switch t := p.peek(); {
	case t == "n":
		p.pos++
		return &cx{op: "n"}
	case t == "(":
		p.pos++
		e := p.cond()
		if e == nil || p.peek() != ")" {
			return nil
		}
		p.pos++
		return e
	case t != "" && t[0] >= '0' && t[0] <= '9':
		p.pos++
		e := &cx{op: "int"}
		for _, d := range t {
			if e.v > (math.MaxInt64-int64(d-'0'))/10 {
				return &cx{op: "big"}
			}
			e.v = e.v*10 + int64(d-'0')
		}
		return e
	}
	return nil
}

// cparse: the tree, whether all input was used, and whether ++ or -- occurs
func cparse(s string, levels [][]string) (e *cx, all, incs bool) {
	toks := ctokens(s)
	p := &cparser{toks: toks, levels: levels}
	e = p.cond()
	return e, p.pos == len(toks), p.incs
}

type undef struct{ what string }

// ceval: C semantics; panics with undef where C gives no value. strict
// evaluates every operand, xorAnd computes ^ as &.
func (e *cx) ceval(n int64, strict, xorAnd bool) int64 {
	k := func(i int) int64 { return e.kids[i].ceval(n, strict, xorAnd) }
	switch e.op {
	case "n":
		return n
	case "int":
		return e.v
	case "big":
		panic(undef{"literal"})
	case "u+":
		return k(0)
	case "u-":
		return -k(0)
	case "u~":
		return -1 - k(0)
	case "u!":
		return b2i(k(0) == 0)
	case "u++", "p++", "u--", "p--":
		panic(undef{"increment"})
	}
	a := k(0)
	if !strict {
		switch e.op {
		case "&&":
			return b2i(a != 0 && k(1) != 0)
		case "||":
			return b2i(a != 0 || k(1) != 0)
		case "?":
			if a != 0 {
				return k(1)
			}
			return k(2)
		}
	}
	b := k(1)
	switch e.op {
	case "?":
		if c := k(2); a == 0 {
			return c
		}
		return b
	case "&&":
		return b2i(a != 0 && b != 0)
	case "||":
		return b2i(a != 0 || b != 0)
	case "*":
		return a * b
	case "/", "%":
		if b == 0 {
			panic(undef{"division by zero"})
		}
		if e.op == "/" {
			return a / b
		}
		return a % b
	case "+":
		return a + b
	case "-":
		return a - b
	case "<<", ">>":
		if b < 0 {
			panic(undef{"negative shift"})
		}
		if b > 63 {
			panic(undef{"wide shift"})
		}
		if e.op == "<<" {
			return int64(uint64(a) << uint(b))
		}
		return a >> uint(b)
	case "<":
		return b2i(a < b)
	case ">":
		return b2i(a > b)
	case "<=":
		return b2i(a <= b)
	case ">=":
		return b2i(a >= b)
	case "==":
		return b2i(a == b)
	case "!=":
		return b2i(a != b)
	case "&":
		return a & b
	case "|":
		return a | b
	case "^":
		if xorAnd {
			return a & b
		}
		return a ^ b
	}
	panic("op " + e.op)
}
func (e *cx) try(n int64, strict, xorAnd bool) (v int64, why string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undef); ok {
				why = u.what
				return
			}
			panic(r)
		}
	}()
	return e.ceval(n, strict, xorAnd), ""
}

var stockExprs = []string{"0", "n != 1", "n>1", "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2", "n==1 ? 0 : n==2 ? 1 : 2",
	"n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2", "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
	"(n != 1)", "n!=1 ? 1:0", "(n==1 ? 0 : 1)", "(n==1)?0:((n==2)?1:2)", "n>1?1:0", "n"}

var binOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"}

// expression text of the given depth
func (h *H) cexpr(d int) string {
	sp := func() string { return pick(h, []string{"", "", " ", "  ", "\t"}) }
	if d == 0 || h.chance(0.15) {
		if h.chance(0.45) {
			return "n"
		}
		return fmt.Sprint(pick(h, []int64{0, 1, 2, 3, 4, 5, 7, 10, 11, 20, 62, 63, 64, 100, 255, 1 << 31, math.MaxInt64, int64(h.Intn(1000))}))
	}
	switch x := h.Intn(10); {
	case x == 0:
		return "(" + sp() + h.cexpr(d-1) + sp() + ")"
	case x == 1:
		op := pick(h, []string{"-", "!", "~", "+"})
		return op + pick(h, []string{" ", "(", "("}) + func() string { return h.cexpr(d - 1) }() // closed below when needed
	case x <= 3:
		return h.atom(d) + sp() + "?" + sp() + h.atom(d) + sp() + ":" + sp() + h.atom(d)
	}
	op := pick(h, binOps)
	return h.atom(d) + sp() + op + pick(h, []string{"", " ", "\t"}) + h.atom(d)
}

func (h *H) atom(d int) string {
	s := h.cexpr(d - 1)
	if h.chance(0.4) {
		return "(" + s + ")"
	}
	return s
}

// balance closes what cexpr left open
func balance(s string) string {
	if k := strings.Count(s, "(") - strings.Count(s, ")"); k > 0 {
		s += strings.Repeat(")", k)
	}
	return s
}

func (h *H) num() int64 {
	switch h.Intn(6) {
	case 0:
		return pick(h, []int64{0, 1, 2, -1, math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 1 << 32, 1 << 31, -1 << 31, 63, 64})
	case 1:
		return int64(h.Uint64())
	case 2:
		return -int64(h.Intn(300))
	}
	return int64(h.Intn(300))
}

func init() {
	eval := func(s string, n int64) (int64, error) { return plurals.Eval(context.Background(), s, n) }
	reg("C03", "C expressions of depth up to 5 over every operator (blanks and redundant parentheses varied) and the stock formulas with n from -300..600 and the 64-bit boundaries; nontrivial: distinct (expression, n)", func(h *H) {
		one := func(s string, n int64) {
			in := map[string]any{"exp": s, "n": n}
			ref, all, incs := cparse(s, cLevels)
			if ref == nil || !all || incs {
				return
			}
			for i := 1; i < len(s); i++ { // octal literals are left alone
				if s[i] >= '0' && s[i] <= '9' && s[i-1] == '0' && (i < 2 || s[i-2] < '0' || s[i-2] > '9') {
					return
				}
			}
			want, why := ref.try(n, false, false)
			if why != "" {
				return // C gives no value: C04
			}
			h.run(in, func() {
				got, err := eval(s, n)
				if err == nil && got == want {
					return
				}
				g, _, _ := cparse(s, gLevels)
				for m := 1; m < 8 && g != nil; m++ {
					e := ref
					if m&1 != 0 {
						e = g
					}
					v, why := e.try(n, m&2 != 0, m&4 != 0)
					if why == "" && err == nil && v == got || why != "" && (err != nil || why == "wide shift") {
						if m&1 != 0 {
							h.known("F24", fmt.Sprintf("plurals.Eval(%q, %d) = %d, %v, want %d", s, n, got, err, want))
						}
						if m&2 != 0 {
							h.known("F9", fmt.Sprintf("plurals.Eval(%q, %d) = %d, %v, want %d", s, n, got, err, want))
						}
						if m&4 != 0 {
							h.known("F6", fmt.Sprintf("plurals.Eval(%q, %d) = %d, %v, want %d", s, n, got, err, want))
						}
						return
					}
				}
				h.fail(in, "value", fmt.Sprint(got, " ", err), fmt.Sprint(want))
			})
		}
		one("n^1", 3)
		one("n==0?0:100/n", 0)
		one("n >= 0 < 0", 0)
		for _, s := range stockExprs {
			for n := int64(-300); n <= 600 && h.more(); n++ {
				one(s, n)
			}
			for _, n := range []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 8, 1 << 32, 1<<32 + 1, 1<<31 + 1, -1 << 31} {
				one(s, n)
			}
			one(strings.ReplaceAll(s, " ", ""), h.num())
		}
		for h.more() {
			s := balance(h.cexpr(1 + h.Intn(5)))
			if h.chance(0.1) {
				s = pick(h, stockExprs)
			}
			for k := 0; k < 3; k++ {
				one(s, h.num())
			}
			if h.chance(0.5) { // single operators at many operands
				op := pick(h, binOps)
				a, b := h.num(), h.num()
				if a < 0 {
					a = -(a + 1)
				}
				one(fmt.Sprintf("%d%sn", a, op), b)
				one(fmt.Sprintf("n%s%d", op, a), b)
				one(fmt.Sprintf("(n-1)%s(n+1)", op), b)
			}
		}
	})
	reg("C04", "well-formed expressions that fail (zero divisors, negative shifts, huge literals), mutated and random expression strings, n from the 64-bit range; catalogs whose rule fails; nontrivial: distinct (expression, n)", func(h *H) {
		stripped := map[string]bool{}
		for _, s := range stockExprs {
			stripped[strings.ReplaceAll(s, " ", "")] = true
		}
		if got, err := eval("n n", 5); err == nil {
			h.known("F25", fmt.Sprintf("plurals.Eval(%q, 5) = %d, no error", "n n", got))
		}
		for h.more() {
			s := balance(h.cexpr(1 + h.Intn(4)))
			switch h.Intn(6) {
			case 0:
				b := []byte(s)
				for k := 0; k <= h.Intn(3); k++ {
					i := h.Intn(len(b) + 1)
					if h.chance(0.5) && i < len(b) {
						b = append(b[:i:i], b[i+1:]...)
					} else {
						b = append(b[:i:i], append([]byte{pick(h, []byte("n()+-~!*/%<>&^|?:0129 \t;=@x\x00\xff"))}, b[i:]...)...)
					}
				}
				s = string(b)
			case 1:
				s = h.atom(2) + pick(h, []string{"/", "%"}) + pick(h, []string{"0", "(n-n)", "n", "(n%2)"})
			case 2:
				s = h.atom(2) + pick(h, []string{"<<", ">>"}) + pick(h, []string{"(-1)", "(n-10)", "-n", "n"})
			case 3:
				s = pick(h, []string{"", " ", "\t", "(", ")", "()", "?:", "n?", "n?1", "n?1:", "9223372036854775808", "99999999999999999999", "n==", "==n", "m", "n1", "1n", "n=1", "n!", "\n", "n;", "nplurals", "é"})
			}
			n := h.num()
			in := map[string]any{"exp": s, "n": n}
			ref, all, incs := cparse(s, gLevels)
			h.run(in, func() {
				got, err := eval(s, n)
				if incs || stripped[strings.ReplaceAll(s, " ", "")] {
					return
				}
				if ref == nil && err == nil {
					h.fail(in, "malformed expression", fmt.Sprint(got), "an error")
					return
				}
				if ref != nil && !all && err == nil {
					if strings.Contains(s, "++") || strings.Contains(s, "--") {
						return
					}
					h.known("F25", fmt.Sprintf("plurals.Eval(%q, %d) = %d, no error", s, n, got))
					return
				}
				if ref == nil || !all {
					return
				}
				// no operand order or laziness avoids the failure
				_, strict := ref.try(n, true, true)
				_, lazy := ref.try(n, false, true)
				_, lazyx := ref.try(n, false, false)
				if strict != "" && strict != "wide shift" && lazy != "" && lazyx != "" && lazy != "wide shift" && lazyx != "wide shift" && err == nil {
					if ref2, all2, _ := cparse(s, cLevels); ref2 != nil && all2 {
						h.fail(in, "failing expression ("+strict+")", fmt.Sprint(got), "an error")
					}
				}
				if strict == "" && err != nil {
					if _, x := ref.try(n, true, false); x == "" {
						h.fail(in, "well-defined expression", err.Error(), "no error")
					}
				}
			})
			// a catalog whose rule cannot be evaluated shows source text
			if strings.ContainsAny(s, "\n\r") || strings.TrimSpace(s) != s || h.chance(0.5) {
				continue
			}
			h.run(in, func() {
				f := new(translator.File)
				f.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=3; plural=" + s + ";\n"})
				f.AddEntry(&translator.Entry{MsgID: "one", IsPlural: true, MsgID2: "many", MsgStrN: []string{"f0", "f1", "f2"}})
				want := "many"
				if n == 1 {
					want = "one"
				}
				if s != "" {
					if v, err := eval(s, n); err == nil && v >= 0 && v < 3 {
						want = fmt.Sprint("f", v)
					}
				}
				h.eq(in, "XN64", f.XN64("", "one", "many", n), want)
			})
		}
	})
}
