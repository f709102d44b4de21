package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// World holds the sort and function declarations of a run (bv: int64 as 64-bit vectors).
type World struct {
	bv     bool
	mu     sync.Mutex
	dts    map[string]*Datatype // by sort name
	order  []string
	funs   map[string]*FunDecl
	opaque map[string]bool
	tags   map[string]int
	tagT   map[int]types.Type
	globs  map[string]int
}
type Datatype struct {
	Name   string
	Ctor   string
	Fields []string // accessor names
	Sorts  []Sort
}
type FunDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

func newWorld() *World {
	w := &World{dts: map[string]*Datatype{}, funs: map[string]*FunDecl{}, opaque: map[string]bool{}, tags: map[string]int{}, tagT: map[int]types.Type{}, globs: map[string]int{}}
	w.addDT(&Datatype{"Slice", "mk_slice", []string{"s_ref", "s_off", "s_len", "s_cap"}, []Sort{SInt, SInt, SInt, SInt}})
	w.addDT(&Datatype{"Iface", "mk_iface", []string{"i_tag", "i_val"}, []Sort{SInt, SInt}})
	return w
}
func (w *World) addDT(d *Datatype) {
	w.dts[d.Name] = d
	w.order = append(w.order, d.Name)
}

// Fun declares (once) and applies an uninterpreted function.
func (w *World) Fun(name string, ret Sort, args ...*Term) *Term {
	w.mu.Lock()
	if _, ok := w.funs[name]; !ok {
		d := &FunDecl{Name: name, Ret: ret}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		w.funs[name] = d
	}
	w.mu.Unlock()
	return App(name, ret, args...)
}

func shortQual(p *types.Package) string {
	s := p.Path()
	s = strings.TrimPrefix(s, "github.com/youthlin/t/")
	if s == "github.com/youthlin/t" {
		return "t"
	}
	s = strings.TrimPrefix(s, "cmd/xtemplate/")
	return s
}
func tname(t types.Type) string {
	return reByte.ReplaceAllStringFunc(types.TypeString(types.Unalias(t), shortQual), func(m string) string {
		if strings.HasSuffix(m, "byte") {
			return m[:len(m)-4] + "uint8"
		}
		return m[:len(m)-4] + "int32"
	})
}

// byte and uint8 (rune and int32) are one type but print differently
var reByte = regexp.MustCompile(`(^|[^.\w])(byte|rune)\b`)

func (w *World) Tag(t types.Type) int {
	n := tname(t)
	w.mu.Lock()
	defer w.mu.Unlock()
	if k, ok := w.tags[n]; ok {
		return k
	}
	k := len(w.tags) + 1
	w.tags[n] = k
	w.tagT[k] = t
	return k
}

func (w *World) GlobalRef(name string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if k, ok := w.globs[name]; ok {
		return k
	}
	k := len(w.globs) + 1
	w.globs[name] = k
	return k
}

func isRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/youthlin/t")
}

func asStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// transparent reports whether struct values of type t are modelled field by field.
func transparent(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil && !isRepo(n.Obj().Pkg()) {
			return false
		}
	}
	return true
}

func (w *World) SortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			if w.bv && u.Kind() == types.Int64 {
				return SBV
			}
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
		return w.Opaque("O!" + tname(t))
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Struct:
		if !transparent(t) {
			return w.Opaque("O!" + tname(t))
		}
		return w.StructSort(t, u)
	case *types.Array:
		return arr(SInt, w.SortOf(u.Elem()))
	case *types.Tuple:
		return "Tuple"
	}
	return w.Opaque("O!" + tname(t))
}

func (w *World) Opaque(n string) Sort {
	n = "|" + n + "|"
	w.mu.Lock()
	w.opaque[n] = true
	w.mu.Unlock()
	return n
}

func (w *World) StructSort(t types.Type, u *types.Struct) Sort {
	n := "|S!" + tname(t) + "|"
	w.mu.Lock()
	_, ok := w.dts[n]
	w.mu.Unlock()
	if ok {
		return n
	}
	d := &Datatype{Name: n, Ctor: "mk_" + tname(t)}
	for i := 0; i < u.NumFields(); i++ {
		d.Fields = append(d.Fields, fmt.Sprintf("%s.%s", tname(t), u.Field(i).Name()))
		d.Sorts = append(d.Sorts, w.SortOf(u.Field(i).Type()))
	}
	w.mu.Lock()
	if _, ok := w.dts[n]; !ok {
		w.addDT(d)
	}
	w.mu.Unlock()
	return n
}

func (w *World) dt(s Sort) *Datatype {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.dts[s]
}

func (w *World) Acc(i int, t *Term) *Term {
	d := w.dt(t.Sort)
	if d == nil {
		panic("accessor on non datatype " + t.Sort + ": " + t.String())
	}
	if t.Kind == 'a' && t.Op == d.Ctor {
		return t.Args[i]
	}
	if t.Kind == 'a' && t.Op == "ite" {
		return Ite(t.Args[0], w.Acc(i, t.Args[1]), w.Acc(i, t.Args[2]))
	}
	return App(d.Fields[i], d.Sorts[i], t)
}
func (w *World) Mk(s Sort, args ...*Term) *Term {
	d := w.dt(s)
	// eta: mk(acc0 x, acc1 x ...) = x
	if len(args) > 0 && args[0].Kind == 'a' && args[0].Op == d.Fields[0] {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Kind != 'a' || a.Op != d.Fields[i] || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return App(d.Ctor, s, args...)
}

func MkSlice(ref, off, n, c *Term) *Term { return App("mk_slice", SSlice, ref, off, n, c) }
func MkIface(tag, val *Term) *Term       { return App("mk_iface", SIface, tag, val) }

func accS(i int, name string, t *Term) *Term {
	if t.Kind == 'a' && t.Op == "mk_slice" {
		return t.Args[i]
	}
	if t.Kind == 'a' && t.Op == "ite" {
		return Ite(t.Args[0], accS(i, name, t.Args[1]), accS(i, name, t.Args[2]))
	}
	return App(name, SInt, t)
}
func SRef(t *Term) *Term { return accS(0, "s_ref", t) }
func SOff(t *Term) *Term { return accS(1, "s_off", t) }
func SLen(t *Term) *Term { return accS(2, "s_len", t) }
func SCap(t *Term) *Term { return accS(3, "s_cap", t) }
func accI(i int, name string, t *Term) *Term {
	if t.Kind == 'a' && t.Op == "mk_iface" {
		return t.Args[i]
	}
	if t.Kind == 'a' && t.Op == "ite" {
		return Ite(t.Args[0], accI(i, name, t.Args[1]), accI(i, name, t.Args[2]))
	}
	return App(name, SInt, t)
}
func ITag(t *Term) *Term { return accI(0, "i_tag", t) }
func IVal(t *Term) *Term { return accI(1, "i_val", t) }

var (
	NilSlice = MkSlice(Zero, Zero, Zero, Zero)
	NilIface = MkIface(Zero, Zero)
)

// Zero value of a type.
func (w *World) ZeroOf(t types.Type) *Term {
	s := w.SortOf(t)
	switch s {
	case SBool:
		return False
	case SStr:
		return Str("")
	case SInt:
		return Zero
	case SBV:
		return lit("#x0000000000000000", SBV)
	case SSlice:
		return NilSlice
	case SIface:
		return NilIface
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return ConstArr(s, w.ZeroOf(a.Elem()))
	}
	if st, ok := asStruct(t); ok && transparent(t) {
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, w.ZeroOf(st.Field(i).Type()))
		}
		if len(as) == 0 {
			return App(w.dt(s).Ctor, s)
		}
		return w.Mk(s, as...)
	}
	return Sym("zero!"+s, s)
}

// box / unbox values stored in interfaces.
func (w *World) Box(t *Term) *Term {
	if t.Sort == SInt {
		return t
	}
	if t.Kind == 'a' && t.Op == "unbox!"+t.Sort {
		return t.Args[0]
	}
	return w.Fun("box!"+t.Sort, SInt, t)
}
func (w *World) Unbox(t *Term, s Sort) *Term {
	if s == SInt {
		return t
	}
	if t.Kind == 'a' && t.Op == "box!"+s {
		return t.Args[0]
	}
	if t.Kind == 'a' && t.Op == "ite" {
		return Ite(t.Args[0], w.Unbox(t.Args[1], s), w.Unbox(t.Args[2], s))
	}
	return w.Fun("unbox!"+s, s, t)
}

func (w *World) prelude(ts []*Term) string {
	sorts := map[string]bool{}
	funs := map[string]bool{}
	syms := map[string]Sort{}
	var noteSort func(s Sort)
	noteSort = func(s Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if k, v, ok := arrParts(s); ok {
			noteSort(k)
			noteSort(v)
		}
		if d := w.dt(s); d != nil {
			for _, x := range d.Sorts {
				noteSort(x)
			}
		}
	}
	w.mu.Lock()
	fd := map[string]*FunDecl{}
	for k, v := range w.funs {
		fd[k] = v
	}
	w.mu.Unlock()
	walk(ts, func(t *Term) {
		noteSort(t.Sort)
		switch t.Kind {
		case 'v':
			syms[t.Op] = t.Sort
		case 'a':
			if _, ok := fd[t.Op]; ok {
				funs[t.Op] = true
			}
		}
	})
	for f := range funs {
		d := fd[f]
		for _, a := range d.Args {
			noteSort(a)
		}
		noteSort(d.Ret)
	}
	var sb strings.Builder
	w.mu.Lock()
	ops := sortedKeys(w.opaque)
	order := append([]string{}, w.order...)
	w.mu.Unlock()
	for _, o := range ops {
		if sorts[o] {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", o)
		}
	}
	// datatypes: nested ones were registered first (fields sorted before)
	emitted := map[string]bool{}
	var emit func(n string)
	emit = func(n string) {
		if emitted[n] || !sorts[n] {
			return
		}
		emitted[n] = true
		d := w.dt(n)
		for _, s := range d.Sorts {
			if w.dt(s) != nil {
				emit(s)
			}
			if _, v, ok := arrParts(s); ok && w.dt(v) != nil {
				emit(v)
			}
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", d.Name, sym(d.Ctor))
		for i := range d.Fields {
			fmt.Fprintf(&sb, " (%s %s)", sym(d.Fields[i]), d.Sorts[i])
		}
		sb.WriteString("))))\n")
	}
	for _, n := range order {
		emit(n)
	}
	for _, f := range sortedKeys(funs) {
		d := fd[f]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(d.Name), strings.Join(d.Args, " "), d.Ret)
	}
	var ss []string
	for s := range syms {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", sym(s), syms[s])
	}
	return sb.String()
}
