package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SV is a value of the specification language.
type SV struct {
	T    *Term
	Typ  types.Type // nil for raw sorts
	Addr *Addr
	Fn   *FnVal
	// list: an array window starting at Off
	IsList bool
	Off    *Term
	Lit    bool // untyped integer literal
	Nil    bool
	It     *IterVal
}

type Env struct {
	x     *Exec
	vars  map[string]SV
	st    *State
	old   *State
	pkg   *types.Package
	depth int
	goal  bool // evaluating a goal: function values may be executed
	rec   *recCtx
	pre   *Env // state and values at the loop entry
}
type recCtx struct {
	heaps map[string]*Term // formal heap symbols used
	order []string
}

func (ev *Env) with(n string, v SV) *Env {
	c := *ev
	c.vars = make(map[string]SV, len(ev.vars)+1)
	for k, x := range ev.vars {
		c.vars[k] = x
	}
	c.vars[n] = v
	return &c
}
func (ev *Env) fail(e *Ex, f string, a ...any) {
	panic(SpecError{fmt.Sprintf("%s: %s", e.Pos, fmt.Sprintf(f, a...))})
}

type SpecError struct{ Msg string }

func (ev *Env) typ(e *Ex, s string) types.Type {
	t, err := ev.x.V.resolveType(ev.pkg, s)
	if err != nil {
		ev.fail(e, "type %s: %v", s, err)
	}
	return t
}

// sortOfSpec gives the sort of a spec type text.
func (ev *Env) specSort(e *Ex, s string) (Sort, types.Type) {
	switch s {
	case "#Strs":
		return arr(SInt, SStr), nil
	case "#Ints":
		return arr(SInt, SInt), nil
	case "#Ifaces":
		return arr(SInt, SIface), nil
	case "#StrSet":
		return arr(SStr, SBool), nil
	case "#Seq":
		return ev.x.w.Opaque("Win"), nil
	}
	if strings.HasPrefix(s, "#") {
		return ev.x.w.Opaque(s[1:]), nil
	}
	t := ev.typ(e, s)
	return ev.x.w.SortOf(t), t
}

func (ev *Env) Bool(e *Ex) *Term {
	v := ev.eval(e)
	if v.T == nil || v.T.Sort != SBool {
		ev.fail(e, "not a boolean: %v", v.T)
	}
	return v.T
}

func (ev *Env) coerce(e *Ex, a, b SV) (SV, SV) {
	fix := func(l SV, o SV) SV {
		if l.Lit && o.T != nil && o.T.Sort == SBV {
			n, _ := intVal(l.T)
			return SV{T: BVc(n), Typ: o.Typ}
		}
		if l.Nil && o.T != nil {
			switch o.T.Sort {
			case SSlice:
				return SV{T: NilSlice, Typ: o.Typ, Nil: true}
			case SIface:
				return SV{T: NilIface, Typ: o.Typ}
			}
		}
		return l
	}
	a, b = fix(a, b), fix(b, a)
	return a, b
}

func (ev *Env) deref(e *Ex, v SV) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	p, ok := v.Typ.Underlying().(*types.Pointer)
	if !ok {
		ev.fail(e, "not a pointer: %v", v.Typ)
	}
	return ev.x.addrOf(Val{T: v.T}, p.Elem())
}

func (ev *Env) loadAddr(a *Addr) SV {
	return SV{T: ev.load(a), Typ: a.T}
}
func (ev *Env) load(a *Addr) *Term { return ev.x.load(ev.st, a) }

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (ev *Env) sel(e *Ex, v SV, name string) SV {
	if v.Typ == nil {
		ev.fail(e, "field %s of untyped value", name)
	}
	t := v.Typ
	pk := ev.pkg
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pk, name)
	if obj == nil {
		// unexported field of another package
		bt := t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			bt = p.Elem()
		}
		if n, ok := types.Unalias(bt).(*types.Named); ok && n.Obj().Pkg() != nil {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok || obj == nil {
		ev.fail(e, "no field %s in %s", name, t)
	}
	for _, i := range idx {
		if p, ok := v.Typ.Underlying().(*types.Pointer); ok {
			a := ev.x.addrOf(Val{T: v.T, Addr: v.Addr}, p.Elem())
			fa := ev.x.fieldAddr(a, i)
			v = ev.loadAddr(fa)
			continue
		}
		s, _ := asStruct(v.Typ)
		if transparent(v.Typ) {
			v = SV{T: ev.x.w.Acc(i, v.T), Typ: s.Field(i).Type()}
		} else {
			f := s.Field(i)
			v = SV{T: ev.x.w.Fun("fld!"+tname(v.Typ)+"."+f.Name(), ev.x.w.SortOf(f.Type()), v.T), Typ: f.Type()}
		}
	}
	return v
}

func (ev *Env) heapTerm(name string, s Sort) *Term { return ev.x.heap(ev.st, name, s) }

func (ev *Env) sliceArr(v SV) (arrT, off *Term, elem types.Type) {
	if v.IsList {
		return v.T, v.Off, v.Typ.Underlying().(*types.Slice).Elem()
	}
	if v.Typ == nil && v.T != nil && v.T.Sort == arr(SInt, SStr) {
		return v.T, Zero, strTyp
	}
	st, ok := v.Typ.Underlying().(*types.Slice)
	if !ok {
		panic(SpecError{"not a slice: " + fmt.Sprint(v.Typ)})
	}
	h := ev.x.heapFor(ev.st, elemHeap(st.Elem()), st.Elem())
	return selRef(h, SRef(v.T)), SOff(v.T), st.Elem()
}

var intTyp = types.Typ[types.Int]
var strTyp = types.Typ[types.String]
var boolTyp = types.Typ[types.Bool]

func (ev *Env) eval(e *Ex) SV {
	x := ev.x
	w := x.w
	switch e.Op {
	case "lit-int":
		n, _ := new(big.Int).SetString(e.Val, 10)
		return SV{T: BigInt(n), Typ: intTyp, Lit: true}
	case "lit-str":
		return SV{T: Str(e.Val), Typ: strTyp}
	case "lit-bool":
		if e.Val == "true" {
			return SV{T: True, Typ: boolTyp}
		}
		return SV{T: False, Typ: boolTyp}
	case "nil":
		return SV{T: Zero, Nil: true}
	case "id":
		if v, ok := ev.vars[e.Name]; ok {
			return v
		}
		if f, ok := x.V.spec.Fns[e.Name]; ok && len(f.Params) == 0 {
			return ev.callFn(e, f, nil)
		}
		// package constant
		if ev.pkg != nil {
			if c, ok := ev.pkg.Scope().Lookup(e.Name).(*types.Const); ok {
				return SV{T: x.constTerm(c.Val(), c.Type()), Typ: c.Type(), Lit: c.Val().Kind() == 3}
			}
		}
		ev.fail(e, "unknown name %s", e.Name)
	case "sel":
		return ev.sel(e, ev.eval(e.Args[0]), e.Name)
	case "deref":
		return ev.loadAddr(ev.deref(e, ev.eval(e.Args[0])))
	case "assert":
		v := ev.eval(e.Args[0])
		t := ev.typ(e, e.Name)
		return SV{T: w.Unbox(IVal(v.T), w.SortOf(t)), Typ: t}
	case "idx":
		v := ev.eval(e.Args[0])
		i := ev.eval(e.Args[1])
		if v.IsList {
			et := v.Typ.Underlying().(*types.Slice).Elem()
			return SV{T: Select(v.T, Add(v.Off, i.T)), Typ: et}
		}
		if v.Typ == nil {
			_, _, ok := arrParts(v.T.Sort)
			if !ok {
				ev.fail(e, "index of %s", v.T.Sort)
			}
			r := SV{T: Select(v.T, i.T)}
			switch r.T.Sort {
			case SInt:
				r.Typ = intTyp
			case SStr:
				r.Typ = strTyp
			case SBool:
				r.Typ = boolTyp
			}
			return r
		}
		switch u := v.Typ.Underlying().(type) {
		case *types.Map:
			val, _ := x.mapGet(ev.st, u, v.T, i.T)
			return SV{T: val, Typ: u.Elem()}
		case *types.Slice:
			a, o, et := ev.sliceArr(v)
			return SV{T: Select(a, Add(o, i.T)), Typ: et}
		case *types.Basic:
			return SV{T: strAt(v.T, i.T), Typ: types.Typ[types.Uint8]}
		case *types.Array:
			return SV{T: Select(v.T, i.T), Typ: u.Elem()}
		}
		ev.fail(e, "cannot index %s", v.Typ)
	case "slice":
		v := ev.eval(e.Args[0])
		lo := Zero
		if e.Args[1] != nil {
			lo = ev.eval(e.Args[1]).T
		}
		if v.T.Sort == SStr {
			hi := StrLen(v.T)
			if e.Args[2] != nil {
				hi = ev.eval(e.Args[2]).T
			}
			return SV{T: Substr(v.T, lo, Sub(hi, lo)), Typ: v.Typ}
		}
		if v.IsList {
			return SV{T: v.T, Off: Add(v.Off, lo), IsList: true, Typ: v.Typ}
		}
		hi := SLen(v.T)
		if e.Args[2] != nil {
			hi = ev.eval(e.Args[2]).T
		}
		return SV{T: MkSlice(SRef(v.T), Add(SOff(v.T), lo), Sub(hi, lo), Sub(SCap(v.T), lo)), Typ: v.Typ}
	case "un":
		v := ev.eval(e.Args[0])
		if e.Name == "!" {
			return SV{T: Not(v.T), Typ: boolTyp}
		}
		if v.T.Sort == SBV {
			return SV{T: App("bvneg", SBV, v.T), Typ: v.Typ}
		}
		return SV{T: Sub(Zero, v.T), Typ: v.Typ, Lit: v.Lit}
	case "cond":
		c := ev.Bool(e.Args[0])
		if c == True {
			return ev.eval(e.Args[1])
		}
		if c == False {
			return ev.eval(e.Args[2])
		}
		a, b := ev.coerce(e, ev.eval(e.Args[1]), ev.eval(e.Args[2]))
		if a.T.Sort != b.T.Sort {
			ev.fail(e, "branches of different sorts %s %s", a.T.Sort, b.T.Sort)
		}
		return SV{T: Ite(c, a.T, b.T), Typ: a.Typ}
	case "let":
		return ev.with(e.Name, ev.eval(e.Args[0])).eval(e.Args[1])
	case "quant":
		ne := ev
		var bs []*Term
		var guards []*Term
		for _, p := range e.Vars {
			s, t := ev.specSort(e, p.Type)
			b := Bnd(x.uniq("?"+p.Name), s)
			bs = append(bs, b)
			ne = ne.with(p.Name, SV{T: b, Typ: t})
		}
		_ = guards
		var pats [][]*Term
		for _, tr := range e.Trig {
			var ps []*Term
			for _, t := range tr {
				ps = append(ps, trigTerm(ne.eval(t).T))
			}
			pats = append(pats, ps)
		}
		body := ne.Bool(e.Args[0])
		return SV{T: Quant(e.Name, bs, pats, body), Typ: boolTyp}
	case "bin":
		return ev.bin(e)
	case "call":
		return ev.call(e)
	}
	ev.fail(e, "bad expression %s", e.Op)
	return SV{}
}

func strAt(s, i *Term) *Term {
	if v, ok := strVal(s); ok {
		if n, ok := intVal(i); ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < int64(len(v)) {
			return Int(int64(v[n.Int64()]))
		}
	}
	return App("str.to_code", SInt, App("str.at", SStr, s, i))
}

func (ev *Env) bin(e *Ex) SV {
	x := ev.x
	switch e.Name {
	case "&&":
		a := ev.Bool(e.Args[0])
		if a == False {
			return SV{T: False, Typ: boolTyp}
		}
		return SV{T: And(a, ev.Bool(e.Args[1])), Typ: boolTyp}
	case "||":
		a := ev.Bool(e.Args[0])
		if a == True {
			return SV{T: True, Typ: boolTyp}
		}
		return SV{T: Or(a, ev.Bool(e.Args[1])), Typ: boolTyp}
	case "==>":
		a := ev.Bool(e.Args[0])
		if a == False {
			return SV{T: True, Typ: boolTyp}
		}
		return SV{T: Implies(a, ev.Bool(e.Args[1])), Typ: boolTyp}
	case "<==>":
		return SV{T: Eq(ev.Bool(e.Args[0]), ev.Bool(e.Args[1])), Typ: boolTyp}
	}
	a, b := ev.eval(e.Args[0]), ev.eval(e.Args[1])
	a, b = ev.coerce(e, a, b)
	if a.T == nil || b.T == nil {
		ev.fail(e, "operand without value in %s", e.Name)
	}
	switch e.Name {
	case "==", "!=":
		var t *Term
		switch {
		case a.T.Sort == SSlice && (a.Nil || b.Nil):
			if a.Nil {
				a = b
			}
			t = Eq(SRef(a.T), Zero)
		case a.T.Sort == SIface && b.T == NilIface:
			t = Eq(ITag(a.T), Zero)
		case b.T.Sort == SIface && a.T == NilIface:
			t = Eq(ITag(b.T), Zero)
		default:
			if a.T.Sort != b.T.Sort {
				ev.fail(e, "comparing %s with %s", a.T.Sort, b.T.Sort)
			}
			if isPtr(a.Typ) && isPtr(b.Typ) && (func() bool { _, o := allocBase(a.T); _, o2 := allocBase(b.T); return o || o2 })() && refDistinct(a.T, b.T) {
				t = False
			} else {
				t = Eq(a.T, b.T)
			}
		}
		if e.Name == "!=" {
			t = Not(t)
		}
		return SV{T: t, Typ: boolTyp}
	case "<", "<=", ">", ">=":
		p, q := a.T, b.T
		if e.Name[0] == '>' {
			p, q = q, p
		}
		if p.Sort == SStr {
			if len(e.Name) == 2 {
				return SV{T: Not(x.strLt(q, p)), Typ: boolTyp}
			}
			return SV{T: x.strLt(p, q), Typ: boolTyp}
		}
		if len(e.Name) == 2 {
			return SV{T: Le(p, q), Typ: boolTyp}
		}
		return SV{T: Lt(p, q), Typ: boolTyp}
	case "+":
		if a.T.Sort == SStr {
			return SV{T: Concat(a.T, b.T), Typ: a.Typ}
		}
		return SV{T: Add(a.T, b.T), Typ: a.Typ, Lit: a.Lit && b.Lit}
	case "-":
		return SV{T: Sub(a.T, b.T), Typ: a.Typ, Lit: a.Lit && b.Lit}
	case "*":
		return SV{T: Mul(a.T, b.T), Typ: a.Typ}
	case "/":
		if a.T.Sort == SBV {
			return SV{T: App("bvsdiv", SBV, a.T, b.T), Typ: a.Typ}
		}
		return SV{T: goDiv(a.T, b.T), Typ: a.Typ}
	case "%":
		if a.T.Sort == SBV {
			return SV{T: App("bvsrem", SBV, a.T, b.T), Typ: a.Typ}
		}
		return SV{T: goMod(a.T, b.T), Typ: a.Typ}
	}
	ev.fail(e, "operator %s", e.Name)
	return SV{}
}

func (x *Exec) strLt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if s, ok := strVal(a); ok {
		if t, ok := strVal(b); ok {
			if s < t {
				return True
			}
			return False
		}
		if s == "" {
			return Not(Eq(b, a))
		}
	}
	if s, ok := strVal(b); ok && s == "" {
		return False
	}
	return App("str.<", SBool, a, b)
}

func goDiv(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 && y.Sign() != 0 {
		return BigInt(new(big.Int).Quo(x, y))
	}
	if ok2 && y.Sign() > 0 {
		return Ite(Le(Zero, a), App("div", SInt, a, b), Sub(Zero, App("div", SInt, Sub(Zero, a), b)))
	}
	ab := Ite(Le(Zero, a), a, Sub(Zero, a))
	bb := Ite(Le(Zero, b), b, Sub(Zero, b))
	q := App("div", SInt, ab, bb)
	return Ite(Eq(Le(Zero, a), Le(Zero, b)), q, Sub(Zero, q))
}
func goMod(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 && y.Sign() != 0 {
		return BigInt(new(big.Int).Rem(x, y))
	}
	bb := b
	if !ok2 {
		bb = Ite(Le(Zero, b), b, Sub(Zero, b))
	} else if y.Sign() < 0 {
		bb = BigInt(new(big.Int).Neg(y))
	}
	return Ite(Le(Zero, a), App("mod", SInt, a, bb), Sub(Zero, App("mod", SInt, Sub(Zero, a), bb)))
}

func (ev *Env) args(e *Ex) []SV {
	var r []SV
	for _, a := range e.Args {
		r = append(r, ev.eval(a))
	}
	return r
}

func (x *Exec) ghostSort(name string) Sort {
	switch name {
	case "buf", "out", "rdc":
		return SStr
	case "rdp", "fspos":
		return SInt
	case "smd":
		return arr(SIface, SBool)
	case "smv":
		return arr(SIface, SIface)
	case "log":
		return SInt
	case "sorted":
		return arr(SInt, SInt)
	}
	return SInt
}

func (ev *Env) refOf(v SV) *Term {
	if v.Addr != nil {
		if v.Addr.Idx != nil || v.Addr.Path != nil {
			panic(SpecError{"interior address has no reference"})
		}
		return v.Addr.Ref
	}
	switch v.T.Sort {
	case SSlice:
		return SRef(v.T)
	case SIface:
		return IVal(v.T)
	}
	return v.T
}

func (ev *Env) call(e *Ex) SV {
	x := ev.x
	w := x.w
	need := func(n int) {
		if len(e.Args) != n {
			ev.fail(e, "%s needs %d arguments", e.Name, n)
		}
	}
	switch e.Name {
	case "old":
		need(1)
		c := *ev
		if ev.old == nil {
			ev.fail(e, "old() not available here")
		}
		c.st = ev.old
		return c.eval(e.Args[0])
	case "pre":
		need(1)
		if ev.pre == nil {
			ev.fail(e, "pre() outside a loop invariant")
		}
		pe := *ev.pre
		pe.vars = make(map[string]SV, len(ev.vars))
		for n, v := range ev.vars {
			pe.vars[n] = v
		}
		for n, v := range ev.pre.vars {
			pe.vars[n] = v
		}
		return pe.eval(e.Args[0])
	case "len":
		need(1)
		v := ev.eval(e.Args[0])
		switch {
		case v.T.Sort == SStr:
			return SV{T: StrLen(v.T), Typ: intTyp}
		case v.T.Sort == SSlice:
			return SV{T: SLen(v.T), Typ: intTyp}
		}
		if mt, ok := v.Typ.Underlying().(*types.Map); ok {
			_, _, d, _ := x.mapHeaps(ev.st, mt)
			return SV{T: Ite(Eq(v.T, Zero), Zero, x.card(selRef(d, v.T))), Typ: intTyp}
		}
		ev.fail(e, "len of %v", v.Typ)
	case "cap":
		return SV{T: SCap(ev.eval(e.Args[0]).T), Typ: intTyp}
	case "seen", "iterdom": // keys a map iteration has passed
		it := ev.eval(e.Args[0])
		if it.It == nil {
			ev.fail(e, "%s needs a map iteration", e.Name)
		}
		k := ev.eval(e.Args[1])
		if e.Name == "iterdom" {
			return SV{T: Select(it.It.Dom, k.T), Typ: boolTyp}
		}
		return SV{T: And(Not(Eq(it.It.M, Zero)), Select(it.It.Dom, k.T), Le(Zero, Select(it.It.Pos, k.T)), Lt(Select(it.It.Pos, k.T), it.T)), Typ: boolTyp}
	case "iterkey", "iterpos", "itern": // the order a map iteration takes
		it := ev.eval(e.Args[0])
		if it.It == nil {
			ev.fail(e, "%s needs a map iteration", e.Name)
		}
		switch e.Name {
		case "itern":
			return SV{T: it.T, Typ: intTyp}
		case "iterpos":
			return SV{T: Select(it.It.Pos, ev.eval(e.Args[1]).T), Typ: intTyp}
		}
		return SV{T: Select(it.It.Ord, ev.eval(e.Args[1]).T), Typ: it.It.KT}
	case "has":
		need(2)
		m := ev.eval(e.Args[0])
		k := ev.eval(e.Args[1])
		if m.Typ == nil {
			return SV{T: Select(m.T, k.T), Typ: boolTyp}
		}
		mt, ok := m.Typ.Underlying().(*types.Map)
		if !ok {
			ev.fail(e, "has on %v", m.Typ)
		}
		_, h := x.mapGet(ev.st, mt, m.T, k.T)
		return SV{T: h, Typ: boolTyp}
	case "dom": // domain array of a map
		m := ev.eval(e.Args[0])
		_, _, d, _ := x.mapHeaps(ev.st, m.Typ.Underlying().(*types.Map))
		return SV{T: selRef(d, m.T)}
	case "vals":
		m := ev.eval(e.Args[0])
		_, _, _, d := x.mapHeaps(ev.st, m.Typ.Underlying().(*types.Map))
		return SV{T: selRef(d, m.T)}
	case "tag":
		return SV{T: ITag(ev.eval(e.Args[0]).T), Typ: intTyp}
	case "payload":
		return SV{T: IVal(ev.eval(e.Args[0]).T), Typ: intTyp}
	case "typeis":
		v := ev.eval(e.Args[0])
		return SV{T: Eq(ITag(v.T), Int(int64(w.Tag(ev.typ(e, e.Val))))), Typ: boolTyp}
	case "mkiface":
		v := ev.eval(e.Args[0])
		return SV{T: MkIface(Int(int64(w.Tag(ev.typ(e, e.Val)))), w.Box(v.T)), Typ: types.Universe.Lookup("any").Type()}
	case "cast":
		v := ev.eval(e.Args[0])
		t := ev.typ(e, e.Val)
		if v.T.Sort != w.SortOf(t) {
			ev.fail(e, "cast changes sort %s to %s", v.T.Sort, w.SortOf(t))
		}
		return SV{T: v.T, Typ: t, Addr: v.Addr}
	case "zero":
		t := ev.typ(e, e.Val)
		return SV{T: w.ZeroOf(t), Typ: t}
	case "global":
		g := x.V.findGlobal(ev.pkg, e.Val)
		if g == nil {
			ev.fail(e, "no global %s", e.Val)
		}
		if v, ok := x.globalTerm(g); ok {
			return SV{T: v.T, Fn: v.Fn, Typ: g.Type().(*types.Pointer).Elem()}
		}
		a := x.globalAddr(g)
		return ev.loadAddr(a)
	case "globalref":
		g := x.V.findGlobal(ev.pkg, e.Val)
		if g == nil {
			ev.fail(e, "no global %s", e.Val)
		}
		return SV{T: Int(int64(x.w.GlobalRef(g.String()))), Typ: g.Type()}
	case "ref":
		return SV{T: ev.refOf(ev.eval(e.Args[0])), Typ: intTyp}
	case "arr":
		a, _, _ := ev.sliceArr(ev.eval(e.Args[0]))
		return SV{T: a}
	case "off":
		v := ev.eval(e.Args[0])
		if v.IsList {
			return SV{T: v.Off, Typ: intTyp}
		}
		return SV{T: SOff(v.T), Typ: intTyp}
	case "seq":
		v := ev.eval(e.Args[0])
		a, o, _ := ev.sliceArr(v)
		n := Zero
		if len(e.Args) > 1 {
			n = ev.eval(e.Args[1]).T
		} else {
			n = SLen(v.T)
		}
		return SV{T: x.seqOf(a, o, n)}
	case "seqapp": // the window followed by one more element
		v := ev.eval(e.Args[0])
		a, o, et := ev.sliceArr(v)
		n := SLen(v.T)
		el := ev.eval(e.Args[1])
		if types.IsInterface(et) && el.T.Sort != SIface {
			el.T = MkIface(Int(int64(w.Tag(el.Typ))), w.Box(el.T))
		}
		return SV{T: x.seqOf(Store(a, Add(o, n), el.T), o, Add(n, Int(1)))}
	case "bytes":
		v := ev.eval(e.Args[0])
		a, o, _ := ev.sliceArr(v)
		return SV{T: x.bstr(a, o, SLen(v.T)), Typ: strTyp}
	case "fresh":
		v := ev.eval(e.Args[0])
		r := ev.refOf(v)
		if ev.old == nil {
			ev.fail(e, "fresh outside a postcondition")
		}
		return SV{T: x.isFresh(r, ev.old), Typ: boolTyp}
	case "allocated":
		v := ev.eval(e.Args[0])
		return SV{T: Lt(ev.refOf(v), ev.st.cur()), Typ: boolTyp}
	case "ghost":
		if e.Args[0].Op != "lit-str" {
			ev.fail(e, "ghost name")
		}
		n := e.Args[0].Val
		v := ev.eval(e.Args[1])
		s := x.ghostSort(n)
		r := SV{T: x.ghostGet(ev.st, n, s, ev.refOf(v))}
		switch s {
		case SStr:
			r.Typ = strTyp
		case SInt:
			r.Typ = intTyp
		}
		return r
	case "prefixof":
		return SV{T: strPrefix(ev.eval(e.Args[0]).T, ev.eval(e.Args[1]).T), Typ: boolTyp}
	case "suffixof":
		return SV{T: App("str.suffixof", SBool, ev.eval(e.Args[0]).T, ev.eval(e.Args[1]).T), Typ: boolTyp}
	case "contains":
		return SV{T: App("str.contains", SBool, ev.eval(e.Args[0]).T, ev.eval(e.Args[1]).T), Typ: boolTyp}
	case "indexof":
		from := Zero
		if len(e.Args) > 2 {
			from = ev.eval(e.Args[2]).T
		}
		return SV{T: App("str.indexof", SInt, ev.eval(e.Args[0]).T, ev.eval(e.Args[1]).T, from), Typ: intTyp}
	case "itoa":
		return SV{T: x.itoa(ev.eval(e.Args[0]).T), Typ: strTyp}
	case "same": // the two are visibly the same value (loop invariant templates only)
		a, b := ev.eval(e.Args[0]), ev.eval(e.Args[1])
		if a.T == nil || b.T == nil || Eq(a.T, b.T) != True {
			ev.fail(e, "not visibly the same")
		}
		return SV{T: True, Typ: boolTyp}
	case "fmtverb": // rendering of a value under a directive with flags, as "10d"
		v := ev.eval(e.Args[1])
		if v.T.Sort != SIface {
			v.T = MkIface(Int(int64(w.Tag(v.Typ))), w.Box(v.T))
		}
		return SV{T: w.Fun("fmtv!"+e.Args[0].Val, SStr, v.T), Typ: strTyp}
	case "fmtv": // rendering of an interface value under %v
		v := ev.eval(e.Args[0])
		if v.T.Sort != SIface {
			v.T = MkIface(Int(int64(w.Tag(v.Typ))), w.Box(v.T))
		}
		return SV{T: x.fmtV(v.T), Typ: strTyp}
	case "call":
		f := ev.eval(e.Args[0])
		var as []*Term
		for _, a := range e.Args[1:] {
			as = append(as, ev.eval(a).T)
		}
		sig := f.Typ.Underlying().(*types.Signature)
		rt := sig.Results().At(0).Type()
		fv := f.Fn
		if fv == nil {
			fv = x.fnOf(f.T)
		}
		if fv != nil && ev.goal {
			return SV{T: x.pureApply(ev.st, fv, as), Typ: rt}
		}
		return SV{T: x.funApp(sig, f.T, as), Typ: rt}
	case "invoke": // invoke("pkg.Iface.Method", recv, args...)
		n := e.Args[0].Val
		vs := ev.args(&Ex{Args: e.Args[1:]})
		var as []*Term
		var sig *types.Signature
		mt := vs[0].Typ
		obj, _, _ := types.LookupFieldOrMethod(mt, true, ev.pkg, n)
		if obj == nil {
			ev.fail(e, "no method %s", n)
		}
		sig = obj.Type().(*types.Signature)
		for _, v := range vs {
			as = append(as, v.T)
		}
		return SV{T: x.invokeTerm(ev.st, n, sig, as), Typ: sig.Results().At(0).Type()}
	case "ite":
		c := *e
		c.Op = "cond"
		return ev.eval(&c)
	}
	f, ok := x.V.spec.Fns[e.Name]
	if !ok {
		ev.fail(e, "unknown function %s", e.Name)
	}
	return ev.callFn(e, f, ev.args(e))
}

func strPrefix(p, s *Term) *Term {
	if a, ok := strVal(p); ok {
		if a == "" {
			return True
		}
		if b, ok := strVal(s); ok {
			if strings.HasPrefix(b, a) {
				return True
			}
			return False
		}
		if s.Kind == 'a' && s.Op == "str.++" {
			if b, ok := strVal(s.Args[0]); ok {
				if strings.HasPrefix(b, a) {
					return True
				}
				if !strings.HasPrefix(a, b) {
					return False
				}
			}
		}
	}
	if p == s {
		return True
	}
	return App("str.prefixof", SBool, p, s)
}

func (ev *Env) callFn(e *Ex, f *SpecFn, args []SV) SV {
	x := ev.x
	if len(args) != len(f.Params) {
		ev.fail(e, "%s needs %d arguments", f.Name, len(f.Params))
	}
	fpkg := x.V.pkgByPath(f.Pkg)
	fe := &Env{x: x, pkg: fpkg, st: ev.st, old: ev.old, depth: ev.depth + 1, goal: ev.goal, rec: ev.rec}
	if fe.depth > 60 {
		ev.fail(e, "recursion in fn %s", f.Name)
	}
	// convert arguments
	conv := func(i int) SV {
		a := args[i]
		pt := f.Params[i].Type
		if strings.HasPrefix(pt, "list ") {
			et := fe.typ(e, pt[5:])
			if a.IsList {
				return a
			}
			ar, off, _ := ev.sliceArr(a)
			return SV{T: ar, Off: off, IsList: true, Typ: types.NewSlice(et)}
		}
		if strings.HasPrefix(pt, "#") {
			a.Typ = nil
			return a
		}
		t := fe.typ(e, pt)
		if a.Lit && x.w.SortOf(t) == SBV {
			n, _ := intVal(a.T)
			return SV{T: BVc(n), Typ: t}
		}
		if a.Nil {
			a.T = x.w.ZeroOf(t)
		}
		if a.T != nil && a.T.Sort != x.w.SortOf(t) {
			ev.fail(e, "argument %s of %s has sort %s, want %s", f.Params[i].Name, f.Name, a.T.Sort, x.w.SortOf(t))
		}
		a.Typ = t
		a.Lit = false
		return a
	}
	if f.Kind == "fn" {
		fe.vars = map[string]SV{}
		for i := range f.Params {
			fe.vars[f.Params[i].Name] = conv(i)
		}
		r := fe.eval(f.Body)
		_, t := fe.specSort(e, f.Ret)
		if t != nil {
			if r.Nil {
				r.T = x.w.ZeroOf(t)
			}
			if r.Lit && x.w.SortOf(t) == SBV {
				n, _ := intVal(r.T)
				r.T = BVc(n)
			}
			r.Typ = t
			r.Lit = false
		}
		return r
	}
	var ts []*Term
	for i := range f.Params {
		a := conv(i)
		ts = append(ts, a.T)
		if a.IsList {
			ts = append(ts, a.Off)
		}
	}
	rs, rt := fe.specSort(e, f.Ret)
	if f.Kind == "ufn" {
		return SV{T: x.w.Fun(f.Name, rs, ts...), Typ: rt}
	}
	hs := x.V.recDef(x, f)
	var all []*Term
	for _, h := range hs.heaps {
		all = append(all, ev.x.heap(ev.st, h, hs.sorts[h]))
	}
	all = append(all, ts...)
	return SV{T: x.w.Fun(f.Name, rs, all...), Typ: rt}
}

// RecDef is a recursive spec function with its implicit heap parameters.
type RecDef struct {
	f       *SpecFn
	heaps   []string
	sorts   map[string]Sort
	formals []*Term
	body    *Term
	busy    bool
	ready   bool
	flat    bool // does not reach itself
}

func (d *RecDef) evalBody(v *V) {
	x := v.newSpecExec()
	st := &State{heaps: map[string]*Term{}, ghost: map[string]*Term{}}
	st.A = SymR("A!rec", SInt, 1)
	st.A.alloc = true
	// formal heaps
	for _, h := range d.heaps {
		s := SymR("$h!"+h, d.sorts[h], 0)
		s.isHeap = true
		st.heaps[h] = s
		x.heapSorts[h] = d.sorts[h]
	}
	fe := &Env{x: x, pkg: v.pkgByPath(d.f.Pkg), st: st, vars: map[string]SV{}}
	d.formals = nil
	for _, h := range d.heaps {
		d.formals = append(d.formals, st.heaps[h])
	}
	e := &Ex{Pos: d.f.Pos}
	for _, p := range d.f.Params {
		if strings.HasPrefix(p.Type, "list ") {
			et := fe.typ(e, p.Type[5:])
			a := Sym("$"+d.f.Name+"."+p.Name, arr(SInt, x.w.SortOf(et)))
			o := Sym("$"+d.f.Name+"."+p.Name+".off", SInt)
			d.formals = append(d.formals, a, o)
			fe.vars[p.Name] = SV{T: a, Off: o, IsList: true, Typ: types.NewSlice(et)}
			continue
		}
		s, t := fe.specSort(e, p.Type)
		a := Sym("$"+d.f.Name+"."+p.Name, s)
		d.formals = append(d.formals, a)
		fe.vars[p.Name] = SV{T: a, Typ: t}
	}
	r := fe.eval(d.f.Body)
	if r.Nil {
		_, t := fe.specSort(e, d.f.Ret)
		r.T = x.w.ZeroOf(t)
	}
	d.body = r.T
	// heaps that were touched
	for _, h := range sortedKeys(st.heaps) {
		if _, ok := d.sorts[h]; !ok {
			d.sorts[h] = x.heapSorts[h]
			d.heaps = append(d.heaps, h)
		}
	}
}

// trigTerm drops the connectives (nil checks and defaults) around a trigger.
func trigTerm(t *Term) *Term {
	for t.Kind == 'a' {
		switch t.Op {
		case "and":
			t = t.Args[len(t.Args)-1]
		case "ite":
			t = t.Args[1]
		case "<", "<=", "not":
			k := 0
			for i, a := range t.Args {
				if a.bound {
					k = i
				}
			}
			t = t.Args[k]
		default:
			return t
		}
	}
	return t
}
