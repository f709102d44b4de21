package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unsupported is raised when the engine meets something outside its subset.
type Unsupported struct{ Msg string }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type Addr struct {
	Heap string // heap of the location
	Ref  *Term
	Idx  *Term // element index for A: heaps (absolute)
	Path []int // struct field path inside the value
	Base types.Type
	T    types.Type // type of the addressed variable
}

type FnVal struct {
	Fn    *ssa.Function
	Binds []Val
}
type IterVal struct {
	Key string // ghost counter name
	M   *Term  // map ref
	KT  types.Type
	VT  types.Type
	Ord *Term // enumeration of the keys
	Pos *Term // its inverse
	N   *Term
	Dom *Term
	Str bool
}
type Val struct {
	T    *Term
	Tup  []Val
	Addr *Addr
	Fn   *FnVal
	It   *IterVal
}

type State struct {
	facts []*Term
	heaps map[string]*Term
	A     *Term
	epoch int
	k     int64
	ghost map[string]*Term
	calls int
	br    []*Term
	trace []*Term
}

func (s *State) clone() *State {
	n := *s
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.heaps = make(map[string]*Term, len(s.heaps)+4)
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}
func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	s.facts = append(s.facts, t)
}
func (s *State) branch(t *Term) {
	s.assume(t)
	s.br = append(s.br[:len(s.br):len(s.br)], t)
}
func (s *State) cur() *Term { return Add(s.A, Int(s.k)) }
func (s *State) alloc() *Term {
	r := Add(s.A, Int(s.k))
	s.k++
	return r
}
func (s *State) rank() int { return 2 * s.epoch }

func (x *Exec) uniq(n string) string {
	x.symN++
	return fmt.Sprintf("%s!%d.%d", n, x.id, x.symN)
}

func (x *Exec) newEpoch(st *State) {
	old := st.cur()
	st.epoch++
	a := SymR(x.uniq("A"), SInt, 2*st.epoch+1)
	a.alloc = true
	st.A, st.k = a, 0
	st.assume(Le(old, a))
}

// fresh symbolic value of a type, exploded into its components.
func (x *Exec) freshTerm(st *State, n string, s Sort) *Term {
	w := x.w
	switch s {
	case SSlice:
		return MkSlice(x.freshTerm(st, n+".ref", SInt), x.freshTerm(st, n+".off", SInt), x.freshTerm(st, n+".len", SInt), x.freshTerm(st, n+".cap", SInt))
	case SIface:
		return MkIface(x.freshTerm(st, n+".tag", SInt), x.freshTerm(st, n+".val", SInt))
	}
	if d := w.dt(s); d != nil {
		var as []*Term
		for i, f := range d.Fields {
			as = append(as, x.freshTerm(st, n+"."+f[strings.LastIndex(f, ".")+1:], d.Sorts[i]))
		}
		return App(d.Ctor, s, as...)
	}
	return SymR(x.uniq(n), s, st.rank())
}
func (x *Exec) freshVal(st *State, n string, t types.Type) *Term {
	v := x.freshTerm(st, n, x.w.SortOf(t))
	x.typeFacts(st, v, t, 2)
	return v
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	one := big.NewInt(1)
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(sh(n - 1)), new(big.Int).Sub(sh(n-1), one), true
	}
	u := func(n uint) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(sh(n), one), true }
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}

// typeFacts assumes what every value of the type satisfies.
func (x *Exec) typeFacts(st *State, v *Term, t types.Type, depth int) {
	for _, f := range x.typeFactList(st, v, t, depth) {
		st.assume(f)
	}
}
func (x *Exec) typeFactList(st *State, v *Term, t types.Type, depth int) (fs []*Term) {
	add := func(f *Term) {
		if f != True {
			fs = append(fs, f)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if v.Sort == SInt && !isLit(v) {
			if lo, hi, ok := intRange(u); ok {
				add(Le(BigInt(lo), v))
				add(Le(v, BigInt(hi)))
			}
		}
	case *types.Pointer, *types.Map:
		if !isLit(v) {
			if _, ok := allocBase(v); !ok {
				add(Le(Zero, v))
				add(Lt(v, st.cur()))
			}
		}
	case *types.Slice:
		r, o, n, c := SRef(v), SOff(v), SLen(v), SCap(v)
		add(Le(Zero, n))
		add(Le(n, c))
		add(Le(Zero, o))
		add(Implies(Lt(Zero, c), Lt(Zero, r)))
		add(Implies(Eq(r, Zero), Eq(n, Zero)))
		add(Implies(Eq(r, Zero), Eq(o, Zero)))
		add(Implies(Eq(r, Zero), Eq(c, Zero)))
		add(Le(Zero, r))
		add(Lt(r, st.cur()))
		add(Le(c, BigInt(new(big.Int).Lsh(big.NewInt(1), 62))))
	case *types.Interface:
		add(Le(Zero, ITag(v)))
		add(Implies(Eq(ITag(v), Zero), Eq(IVal(v), Zero)))
	case *types.Struct:
		if depth > 0 && transparent(t) && u.NumFields() > 0 {
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, x.typeFactList(st, x.w.Acc(i, v), u.Field(i).Type(), depth-1)...)
			}
		}
	}
	return
}

// ---- heaps ----

func (x *Exec) heapSort(name string) Sort {
	s, ok := x.heapSorts[name]
	if !ok {
		panic("unknown heap " + name)
	}
	return s
}
func (x *Exec) heap(st *State, name string, s Sort) *Term {
	x.heapSorts[name] = s
	if h, ok := st.heaps[name]; ok {
		return h
	}
	h, ok := x.entryHeaps[name]
	if !ok {
		h = SymR("H0!"+name, s, 0)
		h.isHeap = true
		if x.entry != nil {
			h.top = x.entry.A
		} else if st.epoch == 0 {
			h.top = st.A
		}
		h.el = x.heapElem(name)
		h.rank = 0
		x.entryHeaps[name] = h
	}
	// a heap first mentioned after an epoch change still is the entry heap: nothing wrote it
	st.heaps[name] = h
	return h
}
func heapArr(elem Sort) Sort { return arr(SInt, elem) }

func (x *Exec) fieldHeap(t types.Type, i int) (string, types.Type) {
	st, _ := asStruct(t)
	return "F:" + tname(t) + "." + st.Field(i).Name(), st.Field(i).Type()
}

// heapElem is the type of the values a heap stores (nil if unknown)
func (x *Exec) heapElem(name string) types.Type {
	if t, ok := x.V.elems.Load(name); ok {
		return t.(types.Type)
	}
	return nil
}
func (x *Exec) heapFor(st *State, name string, elem types.Type) *Term {
	x.V.elems.Store(name, elem)
	if strings.HasPrefix(name, "A:") {
		return x.heap(st, name, heapArr(arr(SInt, x.w.SortOf(elem))))
	}
	return x.heap(st, name, heapArr(x.w.SortOf(elem)))
}

func elemHeap(t types.Type) string { return "A:" + tname(t) }

// addrOf builds the address of variable *p of type t given a pointer value.
func (x *Exec) addrOf(p Val, t types.Type) *Addr {
	if p.Addr != nil {
		return p.Addr
	}
	if p.T == nil {
		unsup("pointer without a term")
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return &Addr{Heap: "ARR", Ref: p.T, T: t, Base: t}
	}
	return &Addr{Heap: "P:" + tname(t), Ref: p.T, T: t, Base: t}
}

// fieldAddr is &(*a).f_i
func (x *Exec) fieldAddr(a *Addr, i int) *Addr {
	stt, ok := asStruct(a.T)
	if !ok {
		unsup("field address of %s", a.T)
	}
	ft := stt.Field(i).Type()
	if strings.HasPrefix(a.Heap, "P:") && a.Path == nil {
		return &Addr{Heap: "F:" + tname(a.T) + "." + stt.Field(i).Name(), Ref: a.Ref, T: ft, Base: ft}
	}
	if strings.HasPrefix(a.Heap, "F:") && a.Path == nil {
		if _, ok := asStruct(a.T); ok && transparent(a.T) {
			return &Addr{Heap: a.Heap + "." + stt.Field(i).Name(), Ref: a.Ref, T: ft, Base: ft}
		}
	}
	return &Addr{Heap: a.Heap, Ref: a.Ref, Idx: a.Idx, Path: append(append([]int{}, a.Path...), i), T: ft, Base: a.Base}
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := asStruct(t)
	if !ok || !transparent(t) {
		return nil, false
	}
	return s, true
}

func (x *Exec) load(st *State, a *Addr) *Term {
	w := x.w
	if a.Heap == "ARR" {
		at := a.T.Underlying().(*types.Array)
		return selRef(x.heapFor(st, elemHeap(at.Elem()), at.Elem()), a.Ref)
	}
	if a.Path != nil {
		v := x.load(st, &Addr{Heap: a.Heap, Ref: a.Ref, Idx: a.Idx, T: a.Base, Base: a.Base})
		for _, i := range a.Path {
			v = w.Acc(i, v)
		}
		return v
	}
	if a.Idx == nil {
		if s, ok := structOf(a.T); ok {
			var as []*Term
			for i := 0; i < s.NumFields(); i++ {
				as = append(as, x.load(st, x.fieldAddr(a, i)))
			}
			if len(as) == 0 {
				return w.ZeroOf(a.T)
			}
			w.SortOf(a.T)
			return w.Mk(w.SortOf(a.T), as...)
		}
	}
	h := x.heapFor(st, a.Heap, a.T)
	v := selRef(h, a.Ref)
	if a.Idx != nil {
		v = Select(v, a.Idx)
	}
	return v
}

func (x *Exec) store(st *State, a *Addr, v *Term) {
	w := x.w
	if a.Heap == "ARR" {
		at := a.T.Underlying().(*types.Array)
		x.setHeap(st, elemHeap(at.Elem()), at.Elem(), a.Ref, v)
		return
	}
	if a.Path != nil {
		base := &Addr{Heap: a.Heap, Ref: a.Ref, Idx: a.Idx, T: a.Base, Base: a.Base}
		old := x.load(st, base)
		var upd func(cur *Term, t types.Type, path []int) *Term
		upd = func(cur *Term, t types.Type, path []int) *Term {
			if len(path) == 0 {
				return v
			}
			s, _ := asStruct(t)
			var as []*Term
			for i := 0; i < s.NumFields(); i++ {
				c := w.Acc(i, cur)
				if i == path[0] {
					c = upd(c, s.Field(i).Type(), path[1:])
				}
				as = append(as, c)
			}
			return w.Mk(cur.Sort, as...)
		}
		x.store(st, base, upd(old, a.Base, a.Path))
		return
	}
	if a.Idx == nil {
		if s, ok := structOf(a.T); ok {
			for i := 0; i < s.NumFields(); i++ {
				x.store(st, x.fieldAddr(a, i), w.Acc(i, v))
			}
			return
		}
		x.setHeap(st, a.Heap, a.T, a.Ref, v)
		return
	}
	h := x.heapFor(st, a.Heap, a.T)
	x.setHeap(st, a.Heap, a.T, a.Ref, Store(selRef(h, a.Ref), a.Idx, v))
}

func (x *Exec) setHeap(st *State, name string, elem types.Type, ref, v *Term) {
	h := x.heapFor(st, name, elem)
	x.setHeapRaw(st, name, h, ref, v)
}
func (x *Exec) setHeapRaw(st *State, name string, h, ref, v *Term) {
	if h.Kind == 'a' && h.Op == "store" && h.Args[1] != ref {
		// collapse an older store to the same reference when only distinct ones lie between
		chain := h
		var mids []*Term
		for chain.Kind == 'a' && chain.Op == "store" {
			if chain.Args[1] == ref {
				nh := chain.Args[0]
				for i := len(mids) - 1; i >= 0; i-- {
					nh = Store(nh, mids[i].Args[1], mids[i].Args[2])
				}
				h = nh
				break
			}
			if !refDistinct(chain.Args[1], ref) {
				break
			}
			mids = append(mids, chain)
			chain = chain.Args[0]
		}
	}
	st.heaps[name] = Store(h, ref, v)
}

// ghost heaps: name -> element sort
func (x *Exec) ghostHeap(st *State, name string, s Sort) *Term {
	return x.heap(st, "G:"+name, heapArr(s))
}
func (x *Exec) ghostGet(st *State, name string, s Sort, ref *Term) *Term {
	return selRef(x.ghostHeap(st, name, s), ref)
}
func (x *Exec) ghostSet(st *State, name string, s Sort, ref, v *Term) {
	x.setHeapRaw(st, "G:"+name, x.ghostHeap(st, name, s), ref, v)
}

// maps
func (x *Exec) mapHeaps(st *State, mt *types.Map) (dn, vn string, d, v *Term) {
	n := tname(mt.Key()) + "," + tname(mt.Elem())
	ks, vs := x.w.SortOf(mt.Key()), x.w.SortOf(mt.Elem())
	dn, vn = "MD:"+n, "MV:"+n
	x.V.elems.Store(vn, mt.Elem())
	return dn, vn, x.heap(st, dn, heapArr(arr(ks, SBool))), x.heap(st, vn, heapArr(arr(ks, vs)))
}
func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (v, has *Term) {
	_, _, d, vv := x.mapHeaps(st, mt)
	return Select(selRef(vv, m), k), And(Not(Eq(m, Zero)), Select(selRef(d, m), k))
}
func (x *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	dn, vn, d, vv := x.mapHeaps(st, mt)
	x.setHeapRaw(st, dn, d, m, Store(selRef(d, m), k, True))
	x.setHeapRaw(st, vn, vv, m, Store(selRef(vv, m), k, v))
}
func (x *Exec) mapDel(st *State, mt *types.Map, m, k *Term) {
	dn, _, d, _ := x.mapHeaps(st, mt)
	x.setHeapRaw(st, dn, d, m, Store(selRef(d, m), k, False))
}
func (x *Exec) card(d *Term) *Term {
	return x.w.Fun("card!"+d.Sort, SInt, d)
}

// ---- types in specs ----

func (x *V) resolveType(pkg *types.Package, s string) (types.Type, error) {
	if s == "iter" {
		return types.Typ[types.Int], nil
	}
	key := s
	if pkg != nil {
		key = pkg.Path() + "|" + s
	}
	x.typMu.Lock()
	defer x.typMu.Unlock()
	if t, ok := x.typCache[key]; ok {
		return t, nil
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, err
	}
	t, err := x.typeOfAst(pkg, e)
	if err == nil {
		x.typCache[key] = t
	}
	return t, err
}
func (x *V) typeOfAst(pkg *types.Package, e ast.Expr) (types.Type, error) {
	switch e := e.(type) {
	case *ast.StarExpr:
		t, err := x.typeOfAst(pkg, e.X)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ParenExpr:
		return x.typeOfAst(pkg, e.X)
	case *ast.ArrayType:
		t, err := x.typeOfAst(pkg, e.Elt)
		if err != nil {
			return nil, err
		}
		if e.Len != nil {
			var n int64
			fmt.Sscan(e.Len.(*ast.BasicLit).Value, &n)
			return types.NewArray(t, n), nil
		}
		return types.NewSlice(t), nil
	case *ast.StructType:
		if e.Fields.NumFields() == 0 {
			return types.NewStruct(nil, nil), nil
		}
	case *ast.MapType:
		k, err := x.typeOfAst(pkg, e.Key)
		if err != nil {
			return nil, err
		}
		v, err := x.typeOfAst(pkg, e.Value)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case *ast.FuncType:
		var ps, rs []*types.Var
		for _, f := range e.Params.List {
			t, err := x.typeOfAst(pkg, f.Type)
			if err != nil {
				return nil, err
			}
			ps = append(ps, types.NewVar(token.NoPos, nil, "", t))
		}
		if e.Results != nil {
			for _, f := range e.Results.List {
				t, err := x.typeOfAst(pkg, f.Type)
				if err != nil {
					return nil, err
				}
				rs = append(rs, types.NewVar(token.NoPos, nil, "", t))
			}
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false), nil
	case *ast.Ident:
		if pkg != nil {
			if o, ok := pkg.Scope().Lookup(e.Name).(*types.TypeName); ok {
				return o.Type(), nil
			}
		}
		if o, ok := types.Universe.Lookup(e.Name).(*types.TypeName); ok {
			return o.Type(), nil
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			cands := x.allPkgs
			if pkg != nil {
				cands = append(append([]*types.Package{}, pkg.Imports()...), x.allPkgs...)
			}
			for _, p := range cands {
				if p.Name() == id.Name {
					if o, ok := p.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
						return o.Type(), nil
					}
				}
			}
		}
	}
	return nil, fmt.Errorf("unknown type %v", types.ExprString(e))
}
