package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is the SMT-LIB text of a sort.
type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "String"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SBV    Sort = "(_ BitVec 64)"
)

var (
	sortMu  sync.Mutex
	arrTab  = map[Sort][2]Sort{}
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq = 0
)

func arr(k, v Sort) Sort {
	s := "(Array " + k + " " + v + ")"
	sortMu.Lock()
	arrTab[s] = [2]Sort{k, v}
	sortMu.Unlock()
	return s
}
func arrParts(s Sort) (k, v Sort, ok bool) {
	sortMu.Lock()
	defer sortMu.Unlock()
	p, ok := arrTab[s]
	return p[0], p[1], ok
}

// Term is a hash-consed SMT term.
type Term struct {
	Op    string // operator or symbol or literal text
	Args  []*Term
	Sort  Sort
	ID    int
	Kind  byte // 'v' symbol, 'l' literal, 'a' application, 'q' quantifier, 'b' bound variable
	Vars  []*Term
	Pats  [][]*Term
	Str   string // value of a string literal
	bound bool   // contains bound variables
	rank  int    // allocation rank: every reference inside was allocated no later

	alloc  bool // allocation-base symbol
	parent *Term
	low    bool    // the frame covers only what existed when the function was entered
	fRank  int     // parent frame: refs of rank <= fRank (except exc) read the parent
	exc    []*Term // exceptions of the frame
	frMin  int     // >0: symbol is nil, one of frExc, or allocated after rank frMin
	frExc  []*Term
	isHeap bool
	lim    *Term      // with parent: references below lim existed before the havoc
	top    *Term      // heap symbol: every reference stored in it is below top
	el     types.Type // heap symbol: type of the values stored
}

const rankBound = 1 << 40

func mkRank(kind byte, op string, args []*Term) int {
	switch {
	case kind == 'b':
		return rankBound
	case kind == 'a' && op == "select":
		return args[0].rank
	case kind == 'a' && op == "ite":
		if args[1].rank > args[2].rank {
			return args[1].rank
		}
		return args[2].rank
	case kind == 'a' && op == "store":
		if args[0].rank > args[2].rank {
			return args[0].rank
		}
		return args[2].rank
	}
	r := 0
	for _, a := range args {
		if a.rank > r {
			r = a.rank
		}
	}
	return r
}

func mk(kind byte, op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(kind)
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: args, Sort: s, ID: termSeq, Kind: kind}
	t.bound = kind == 'b'
	t.rank = mkRank(kind, op, args)
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

func Sym(name string, s Sort) *Term { return mk('v', name, s) }
func SymR(name string, s Sort, rank int) *Term {
	t := mk('v', name, s)
	t.rank = rank
	return t
}
func Bnd(name string, s Sort) *Term { return mk('b', name, s) }
func lit(text string, s Sort) *Term { return mk('l', text, s) }
func App(op string, s Sort, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			panic("nil arg to " + op)
		}
	}
	return mk('a', op, s, args...)
}

var (
	True  = lit("true", SBool)
	False = lit("false", SBool)
	Zero  = Int(0)
	One   = Int(1)
)

func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	if n.Sign() < 0 {
		return lit("(- "+new(big.Int).Neg(n).String()+")", SInt)
	}
	return lit(n.String(), SInt)
}
func BVc(n *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	x := new(big.Int).Mod(n, m)
	return lit(fmt.Sprintf("#x%016x", x), SBV)
}
func intVal(t *Term) (*big.Int, bool) {
	if t.Kind != 'l' || t.Sort != SInt {
		return nil, false
	}
	s := t.Op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	n, ok := new(big.Int).SetString(s, 10)
	if neg && ok {
		n.Neg(n)
	}
	return n, ok
}

func Str(s string) *Term {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c >= 0x20 && c < 0x7f && c != '\\':
			sb.WriteByte(c)
		default:
			fmt.Fprintf(&sb, "\\u{%x}", c)
		}
	}
	sb.WriteByte('"')
	t := lit(sb.String(), SStr)
	t.Str = s
	return t
}
func strVal(t *Term) (string, bool) {
	if t.Kind == 'l' && t.Sort == SStr {
		return t.Str, true
	}
	return "", false
}

func isLit(t *Term) bool { return t.Kind == 'l' }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not" && a.Kind == 'a':
		return a.Args[0]
	}
	return App("not", SBool, a)
}
func flat(op string, as []*Term, out []*Term) []*Term {
	for _, a := range as {
		if a.Kind == 'a' && a.Op == op {
			out = flat(op, a.Args, out)
		} else {
			out = append(out, a)
		}
	}
	return out
}
func And(as ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	for _, a := range flat("and", as, nil) {
		if a == False {
			return False
		}
		if a == True || seen[a.ID] {
			continue
		}
		seen[a.ID] = true
		r = append(r, a)
	}
	for _, a := range r {
		if a.Kind == 'a' && a.Op == "not" && seen[a.Args[0].ID] {
			return False
		}
	}
	switch len(r) {
	case 0:
		return True
	case 1:
		return r[0]
	}
	return App("and", SBool, r...)
}
func Or(as ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	for _, a := range flat("or", as, nil) {
		if a == True {
			return True
		}
		if a == False || seen[a.ID] {
			continue
		}
		seen[a.ID] = true
		r = append(r, a)
	}
	for _, a := range r {
		if a.Kind == 'a' && a.Op == "not" && seen[a.Args[0].ID] {
			return True
		}
	}
	switch len(r) {
	case 0:
		return False
	case 1:
		return r[0]
	}
	return App("or", SBool, r...)
}
func Implies(a, b *Term) *Term {
	switch {
	case a == True:
		return b
	case a == False || b == True:
		return True
	case b == False:
		return Not(a)
	case a == b:
		return True
	}
	return App("=>", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if c.Kind == 'a' && c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return App("ite", a.Sort, c, a, b)
}

// linear decomposition: term = base + const
func splitAdd(t *Term) (*Term, *big.Int) {
	if v, ok := intVal(t); ok {
		return nil, v
	}
	if t.Kind == 'a' && t.Op == "+" && len(t.Args) == 2 {
		if v, ok := intVal(t.Args[1]); ok {
			return t.Args[0], v
		}
	}
	return t, big.NewInt(0)
}
func Add(a, b *Term) *Term {
	if a.Sort == SBV {
		return App("bvadd", SBV, a, b)
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	c := new(big.Int).Add(ac, bc)
	var base *Term
	switch {
	case ab == nil:
		base = bb
	case bb == nil:
		base = ab
	default:
		// x + (-1*x)
		if bb.Kind == 'a' && bb.Op == "-" && len(bb.Args) == 1 && bb.Args[0] == ab {
			return BigInt(c)
		}
		if bb.Kind == 'a' && bb.Op == "-" && len(bb.Args) == 2 && bb.Args[1] == ab {
			return Add(bb.Args[0], BigInt(c))
		}
		base = App("+", SInt, ab, bb)
	}
	if base == nil {
		return BigInt(c)
	}
	if c.Sign() == 0 {
		return base
	}
	return App("+", SInt, base, BigInt(c))
}
func Sub(a, b *Term) *Term {
	if a.Sort == SBV {
		return App("bvsub", SBV, a, b)
	}
	if a == b {
		return Zero
	}
	if v, ok := intVal(b); ok {
		return Add(a, BigInt(new(big.Int).Neg(v)))
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ab == bb {
		return BigInt(new(big.Int).Sub(ac, bc))
	}
	// (x+y) - x
	if ab != nil && ab.Kind == 'a' && ab.Op == "+" && len(ab.Args) == 2 {
		if ab.Args[0] == bb {
			return Add(ab.Args[1], BigInt(new(big.Int).Sub(ac, bc)))
		}
		if ab.Args[1] == bb {
			return Add(ab.Args[0], BigInt(new(big.Int).Sub(ac, bc)))
		}
	}
	if ab == nil {
		return App("-", SInt, a, b)
	}
	return Add(App("-", SInt, ab, bb), BigInt(new(big.Int).Sub(ac, bc)))
}
func Mul(a, b *Term) *Term {
	if a.Sort == SBV {
		return App("bvmul", SBV, a, b)
	}
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 {
		return BigInt(new(big.Int).Mul(x, y))
	}
	if ok2 && y.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if ok1 && x.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if (ok1 && x.Sign() == 0) || (ok2 && y.Sign() == 0) {
		return Zero
	}
	return App("*", SInt, a, b)
}
func Lt(a, b *Term) *Term {
	if a.Sort == SBV {
		return App("bvslt", SBool, a, b)
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ab == bb {
		if ac.Cmp(bc) < 0 {
			return True
		}
		return False
	}
	if ac.Sign() != 0 && ab != nil && bb != nil && ac.Cmp(bc) == 0 {
		return App("<", SBool, ab, bb)
	}
	return App("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a.Sort == SBV {
		return App("bvsle", SBool, a, b)
	}
	return Not(Lt(b, a))
}

// distinctHook lets the executor decide reference disequality.
func ctorApp(t *Term) bool { return t.Kind == 'a' && strings.HasPrefix(t.Op, "mk_") }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if a == False {
			return Not(b)
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb && ac.Cmp(bc) != 0 {
			return False
		}
	}
	if ctorApp(a) && ctorApp(b) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort == SStr {
		x, okx := strVal(a)
		y, oky := strVal(b)
		if oky && !okx {
			a, b = b, a
			x, okx, y, oky = y, oky, x, okx
		}
		_ = y
		// literal vs concat starting/ending with a different literal
		if okx && b.Kind == 'a' && b.Op == "str.++" {
			if p, ok := strVal(b.Args[0]); ok && !strings.HasPrefix(x, p) {
				return False
			}
			if p, ok := strVal(b.Args[len(b.Args)-1]); ok && !strings.HasSuffix(x, p) {
				return False
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

func Concat(as ...*Term) *Term {
	var r []*Term
	for _, a := range flat("str.++", as, nil) {
		if s, ok := strVal(a); ok {
			if s == "" {
				continue
			}
			if n := len(r); n > 0 {
				if p, ok := strVal(r[n-1]); ok {
					r[n-1] = Str(p + s)
					continue
				}
			}
		}
		r = append(r, a)
	}
	switch len(r) {
	case 0:
		return Str("")
	case 1:
		return r[0]
	}
	return App("str.++", SStr, r...)
}
func StrLen(a *Term) *Term {
	if s, ok := strVal(a); ok {
		return Int(int64(len(s)))
	}
	if a.Kind == 'a' && a.Op == "str.++" {
		r := Zero
		for _, x := range a.Args {
			r = Add(r, StrLen(x))
		}
		return r
	}
	return App("str.len", SInt, a)
}
func Substr(s, off, n *Term) *Term {
	if off == Zero && n == StrLen(s) {
		return s
	}
	if x, ok := strVal(s); ok {
		o, ok1 := intVal(off)
		l, ok2 := intVal(n)
		if ok1 && ok2 && o.IsInt64() && l.IsInt64() && o.Int64() >= 0 && l.Int64() >= 0 && o.Int64()+l.Int64() <= int64(len(x)) {
			return Str(x[o.Int64() : o.Int64()+l.Int64()])
		}
	}
	// a literal window of a literal window
	if s.Kind == 'a' && s.Op == "str.substr" {
		a, ok1 := intVal(s.Args[1])
		m, ok2 := intVal(s.Args[2])
		o, ok3 := intVal(off)
		l, ok4 := intVal(n)
		if ok1 && ok2 && ok3 && ok4 && a.Sign() >= 0 && o.Sign() >= 0 && l.Sign() >= 0 && o.Int64()+l.Int64() <= m.Int64() {
			return App("str.substr", SStr, s.Args[0], Int(a.Int64()+o.Int64()), n)
		}
		// (a window at a symbolic place, read at a literal offset)
		if ok2 && ok3 && ok4 && !ok1 && o.Sign() > 0 && l.Sign() >= 0 && o.Int64()+l.Int64() <= m.Int64() && nonNeg(s.Args[1]) {
			return App("str.substr", SStr, s.Args[0], Add(s.Args[1], off), n)
		}
		if ok2 && ok3 && ok4 && !ok1 && o.Sign() == 0 && l.Sign() >= 0 && l.Int64() <= m.Int64() {
			return App("str.substr", SStr, s.Args[0], s.Args[1], n)
		}
	}
	return App("str.substr", SStr, s, off, n)
}

// nonNeg: syntactically known not to be negative
func nonNeg(t *Term) bool { return false }

func heapRoot(a *Term) *Term {
	for {
		switch {
		case a.Kind == 'a' && (a.Op == "store"):
			a = a.Args[0]
		default:
			return a
		}
	}
}

// allocBase splits an allocation reference A_e + k.
func allocBase(t *Term) (*Term, bool) {
	b, _ := splitAdd(t)
	if b != nil && b.Kind == 'v' && b.alloc {
		return b, true
	}
	return nil, false
}

// refDistinct reports that two references are certainly different objects.
// Sound for references that are actually dereferenced (never nil).
func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if a.Kind == 'a' && a.Op == "ite" {
		return refDistinct(a.Args[1], b) && refDistinct(a.Args[2], b)
	}
	if b.Kind == 'a' && b.Op == "ite" {
		return refDistinct(a, b.Args[1]) && refDistinct(a, b.Args[2])
	}
	ba, oka := allocBase(a)
	bb, okb := allocBase(b)
	if oka && okb {
		if ba != bb {
			return true
		}
		_, ca := splitAdd(a)
		_, cb := splitAdd(b)
		return ca.Cmp(cb) != 0
	}
	if oka && b.rank < ba.rank {
		return true
	}
	if okb && a.rank < bb.rank {
		return true
	}
	fr := func(x, y *Term) bool {
		if x.frMin > 0 && y.rank <= x.frMin {
			for _, e := range x.frExc {
				if !refDistinct(e, y) {
					return false
				}
			}
			return true
		}
		return false
	}
	return fr(a, b) || fr(b, a)
}

// selRef reads a heap (an array indexed by references).
func selRef(a, i *Term) *Term {
	for {
		if a.Kind == 'a' && a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if refDistinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			break
		}
		if a.Kind == 'v' && a.parent != nil && i.rank <= a.fRank {
			ok := true
			for _, e := range a.exc {
				if !refDistinct(e, i) {
					ok = false
					break
				}
			}
			if ok {
				a = a.parent
				continue
			}
			if len(a.exc) <= 4 {
				var hit []*Term
				for _, e := range a.exc {
					if !refDistinct(e, i) {
						hit = append(hit, Eq(i, e))
					}
				}
				_, vs, _ := arrParts(a.Sort)
				c := Or(hit...)
				if c == True {
					break
				}
				return Ite(c, App("select", vs, a, i), selRef(a.parent, i))
			}
		}
		if a.Kind == 'v' && a.parent != nil && i.Kind == 'a' && i.Op == "ite" && i.rank > a.fRank &&
			(i.Args[1].rank <= a.fRank || i.Args[2].rank <= a.fRank) {
			return Ite(i.Args[0], selRef(a, i.Args[1]), selRef(a, i.Args[2]))
		}
		break
	}
	if a.Kind == 'a' && strings.HasPrefix(a.Op, "(as const") {
		return a.Args[0]
	}
	_, v, ok := arrParts(a.Sort)
	if !ok {
		panic("selRef on non array " + a.String())
	}
	return App("select", v, a, i)
}

func Select(a, i *Term) *Term {
	_, v, ok := arrParts(a.Sort)
	if !ok {
		panic("select on non array sort " + a.Sort + " term " + a.String())
	}
	if heapRoot(a).isHeap {
		return selRef(a, i)
	}
	for a.Kind == 'a' && a.Op == "store" {
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Kind == 'a' && strings.HasPrefix(a.Op, "(as const") {
		return a.Args[0]
	}
	return App("select", v, a, i)
}
func Store(a, i, x *Term) *Term {
	if a.Kind == 'a' && a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if a.Kind == 'a' && a.Op == "select" && false {
		return a
	}
	if x.Kind == 'a' && x.Op == "select" && x.Args[0] == a && x.Args[1] == i {
		return a
	}
	return App("store", a.Sort, a, i, x)
}
func ConstArr(s Sort, v *Term) *Term { return App("(as const "+s+")", s, v) }

func Quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	op := q
	var sb strings.Builder
	sb.WriteString(op)
	for _, v := range vars {
		fmt.Fprintf(&sb, "|%d", v.ID)
	}
	for _, p := range pats {
		sb.WriteString("|p")
		for _, x := range p {
			fmt.Fprintf(&sb, ",%d", x.ID)
		}
	}
	fmt.Fprintf(&sb, "|%d", body.ID)
	k := "Q" + sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: []*Term{body}, Sort: SBool, ID: termSeq, Kind: 'q', Vars: vars, Pats: pats}
	t.bound = freeBound(t)
	termTab[k] = t
	return t
}
func freeBound(t *Term) bool {
	// conservatively: bound variables other than own ones
	own := map[int]bool{}
	for _, v := range t.Vars {
		own[v.ID] = true
	}
	seen := map[int]bool{}
	var rec func(x *Term, own map[int]bool) bool
	rec = func(x *Term, own map[int]bool) bool {
		if !x.bound {
			return false
		}
		if x.Kind == 'b' {
			return !own[x.ID]
		}
		if x.Kind == 'q' {
			o2 := map[int]bool{}
			for k := range own {
				o2[k] = true
			}
			for _, v := range x.Vars {
				o2[v.ID] = true
			}
			return rec(x.Args[0], o2)
		}
		if seen[x.ID] {
			return false
		}
		for _, a := range x.Args {
			if rec(a, own) {
				return true
			}
		}
		return false
	}
	return rec(t.Args[0], own)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil)
	return sb.String()
}

func sym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.$!~+-*/<>=?@%&^", c) >= 0) {
			return "|" + strings.ReplaceAll(s, "|", "") + "|"
		}
	}
	return s
}

func (t *Term) write(sb *strings.Builder, names map[int]string) {
	if names != nil {
		if n, ok := names[t.ID]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeDef(sb, names)
}
func (t *Term) writeDef(sb *strings.Builder, names map[int]string) {
	switch t.Kind {
	case 'v', 'b':
		sb.WriteString(sym(t.Op))
	case 'l':
		sb.WriteString(t.Op)
	case 'q':
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + sym(v.Op) + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].write(sb, names)
		for _, p := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				x.write(sb, names)
			}
			sb.WriteByte(')')
		}
		if len(t.Pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.Args) == 0 {
			sb.WriteString(sym(t.Op))
			return
		}
		sb.WriteByte('(')
		if strings.HasPrefix(t.Op, "(as ") || strings.HasPrefix(t.Op, "(_ ") {
			sb.WriteString(t.Op)
		} else {
			sb.WriteString(sym(t.Op))
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, names)
		}
		sb.WriteByte(')')
	}
}

// Subst replaces terms (by identity) in t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func rebuild(t *Term, args []*Term) *Term {
	if t.Kind == 'q' {
		return Quant(t.Op, t.Vars, t.Pats, args[0])
	}
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "str.++":
		return Concat(args...)
	case "str.len":
		return StrLen(args[0])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "<":
		return Lt(args[0], args[1])
	}
	return App(t.Op, t.Sort, args...)
}

// collect all symbols (kind v) and operator names used
func walk(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				rec(x)
			}
		}
		for _, v := range t.Vars {
			rec(v)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// printShared renders assertions using define-fun for shared closed subterms.
func printShared(ts []*Term) string {
	cnt := map[int]int{}
	var order []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t.ID]++
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				rec(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		rec(t)
	}
	// ground parts of triggers with an if-then-else get a name of their own: the
	// solvers refuse such triggers
	constant := map[int]bool{}
	hasIte := func(t *Term) (r bool) {
		walk([]*Term{t}, func(x *Term) { r = r || x.Kind == 'a' && x.Op == "ite" })
		return
	}
	var trig func(t *Term)
	trig = func(t *Term) {
		if !t.bound {
			if t.Kind == 'a' && hasIte(t) {
				constant[t.ID] = true
			}
			return
		}
		for _, a := range t.Args {
			trig(a)
		}
	}
	for _, t := range order {
		for _, p := range t.Pats {
			for _, x := range p {
				trig(x)
			}
		}
	}
	names := map[int]string{}
	var sb strings.Builder
	for _, t := range order {
		if constant[t.ID] {
			n := fmt.Sprintf("$t%d", t.ID)
			sb.WriteString("(declare-fun " + n + " () " + t.Sort + ")\n(assert (= " + n + " ")
			t.writeDef(&sb, names)
			sb.WriteString("))\n")
			names[t.ID] = n
		} else if t.Kind == 'a' && len(t.Args) > 0 && cnt[t.ID] > 1 && !t.bound {
			n := fmt.Sprintf("$t%d", t.ID)
			sb.WriteString("(define-fun " + n + " () " + t.Sort + " ")
			t.writeDef(&sb, names)
			sb.WriteString(")\n")
			names[t.ID] = n
		}
	}
	for _, t := range ts {
		sb.WriteString("(assert ")
		t.write(&sb, names)
		sb.WriteString(")\n")
	}
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
