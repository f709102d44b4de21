package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Static over-approximation of the heaps that a piece of code may write.
// Writes to objects the code allocates itself count as well.

type modSet map[string]Sort

func (m modSet) addAll(o modSet) {
	for k, v := range o {
		m[k] = v
	}
}

func (x *Exec) leafHeaps(a *Addr, m modSet) {
	if a.Heap == "ARR" {
		at := a.T.Underlying().(*types.Array)
		m[elemHeap(at.Elem())] = heapArr(arr(SInt, x.w.SortOf(at.Elem())))
		return
	}
	if a.Path == nil && a.Idx == nil {
		if s, ok := structOf(a.T); ok {
			for i := 0; i < s.NumFields(); i++ {
				x.leafHeaps(x.fieldAddr(a, i), m)
			}
			return
		}
	}
	t := a.T
	if a.Path != nil {
		t = a.Base
	}
	if strings.HasPrefix(a.Heap, "A:") {
		m[a.Heap] = heapArr(arr(SInt, x.w.SortOf(t)))
	} else {
		m[a.Heap] = heapArr(x.w.SortOf(t))
	}
}

func (x *Exec) staticAddr(v ssa.Value) *Addr {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return x.fieldAddr(x.staticAddr(v.X), v.Field)
	case *ssa.IndexAddr:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			return &Addr{Heap: elemHeap(u.Elem()), Ref: Zero, Idx: Zero, T: u.Elem(), Base: u.Elem()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			return &Addr{Heap: elemHeap(at.Elem()), Ref: Zero, Idx: Zero, T: at.Elem(), Base: at.Elem()}
		}
	}
	el := v.Type().Underlying().(*types.Pointer).Elem()
	return x.addrOf(Val{T: Zero}, el)
}

func (x *Exec) typeHeaps(t types.Type, m modSet) {
	x.leafHeaps(x.addrOf(Val{T: Zero}, t), m)
}
func (x *Exec) mapMods(mt *types.Map, m modSet) {
	n := tname(mt.Key()) + "," + tname(mt.Elem())
	ks, vs := x.w.SortOf(mt.Key()), x.w.SortOf(mt.Elem())
	m["MD:"+n] = heapArr(arr(ks, SBool))
	m["MV:"+n] = heapArr(arr(ks, vs))
}
func (x *Exec) ghostMods(m modSet, names ...string) {
	for _, n := range names {
		m["G:"+n] = heapArr(x.ghostSort(n))
	}
}

func (x *Exec) instrMods(in ssa.Instruction, m modSet, rec func(*ssa.Function, modSet)) {
	switch in := in.(type) {
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		x.typeHeaps(el, m)
		if g := x.V.ghostInit(el); g != "" {
			x.ghostMods(m, g)
		}
	case *ssa.Store:
		x.leafHeaps(x.staticAddr(in.Addr), m)
	case *ssa.MapUpdate:
		x.mapMods(in.Map.Type().Underlying().(*types.Map), m)
	case *ssa.MakeMap:
		x.mapMods(in.Type().Underlying().(*types.Map), m)
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		m[elemHeap(el)] = heapArr(arr(SInt, x.w.SortOf(el)))
	case *ssa.Convert:
		if s, ok := in.Type().Underlying().(*types.Slice); ok {
			m[elemHeap(s.Elem())] = heapArr(arr(SInt, x.w.SortOf(s.Elem())))
		}
	case *ssa.MakeClosure:
		// the closure may be called by whoever receives it
		rec(in.Fn.(*ssa.Function), m)
	case ssa.CallInstruction:
		x.callMods(in.Common(), m, rec)
	}
}

func (x *Exec) callMods(c *ssa.CallCommon, m modSet, rec func(*ssa.Function, modSet)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				m[elemHeap(s.Elem())] = heapArr(arr(SInt, x.w.SortOf(s.Elem())))
			}
		case "delete":
			x.mapMods(c.Args[0].Type().Underlying().(*types.Map), m)
		case "clear":
			if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				x.mapMods(mt, m)
			} else if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				m[elemHeap(s.Elem())] = heapArr(arr(SInt, x.w.SortOf(s.Elem())))
			}
		}
		return
	}
	if c.IsInvoke() {
		switch c.Method.Name() {
		case "Write":
			x.ghostMods(m, "out", "buf")
		}
		for _, f := range x.V.implementers(c) {
			rec(f, m)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		for _, a := range c.Args {
			if fn, ok := a.(*ssa.Function); ok {
				rec(fn, m)
			}
		}
		rec(f, m)
		if f.Blocks == nil || !isRepo(pkgOf(f)) {
			x.externMods(f, c, m)
		}
		return
	}
	// a function value: any function whose address is taken in the repository with this signature
	for _, f := range x.V.bySignature(c.Signature()) {
		rec(f, m)
	}
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (v *V) implementers(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, k := range sortedKeys(v.byKey) {
		f := v.byKey[k]
		if f.Signature.Recv() != nil && f.Name() == c.Method.Name() && types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

func (v *V) bySignature(s *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	for _, k := range sortedKeys(v.byKey) {
		f := v.byKey[k]
		if f.Signature.Recv() == nil && types.Identical(f.Signature, s) && f.Parent() != nil {
			out = append(out, f)
		}
	}
	return out
}

// modsOf is the static write set of a call of fn.
func (x *Exec) modsOf(fn *ssa.Function) modSet { return x.modsOfBody(fn, false) }

// modsOfBody with body set takes fn's own body, whatever its contract.
func (x *Exec) modsOfBody(fn *ssa.Function, body bool) modSet {
	if body {
		m := modSet{}
		x.walkMods(fn, m, fn)
		return m
	}
	x.V.modMu.Lock()
	if m, ok := x.V.mods[fn]; ok {
		x.V.modMu.Unlock()
		return m
	}
	x.V.modMu.Unlock()
	m := modSet{}
	x.walkMods(fn, m, nil)
	x.V.modMu.Lock()
	x.V.mods[fn] = m
	x.V.modMu.Unlock()
	return m
}

func (x *Exec) walkMods(fn *ssa.Function, m modSet, root *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, m modSet)
	rec = func(f *ssa.Function, m modSet) {
		if md := x.V.model(f); md != nil {
			f = md
		}
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil || !isRepo(pkgOf(f)) {
			return
		}
		if c := x.V.contract(f); f != root && c != nil && (c.Pure || c.Quiet) && !c.Internal {
			x.ghostMods(m, quietGhosts(c)...)
			return
		}
		if c := x.V.contract(f); c != nil && c.Trusted {
			if c.Pure || (len(c.Modifies) == 0 && len(c.Heaps) == 0) {
				return
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x.instrMods(in, m, rec)
			}
		}
	}
	rec(fn, m)
}

func (x *Exec) loopMods(body map[*ssa.BasicBlock]bool, fr *Frame) modSet {
	m := modSet{}
	rec := func(f *ssa.Function, m modSet) { m.addAll(x.modsOf(f)) }
	for b := range body {
		for _, in := range b.Instrs {
			x.instrMods(in, m, rec)
			// calls of closures known in this frame
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == nil && !c.Common().IsInvoke() {
				if v, ok := fr.env[c.Common().Value]; ok && v.Fn != nil {
					rec(v.Fn.Fn, m)
				}
			}
		}
	}
	return m
}

var _ = token.ADD

// quietGhosts names the ghost state a quiet contract changes.
func quietGhosts(c *Contract) (out []string) {
	if c.Pure {
		return nil
	}
	for _, e := range c.Modifies {
		if e.Op != "call" || e.Name != "ghost" || (e.Args[0].Val != "buf" && e.Args[0].Val != "out") {
			panic(SpecError{c.Pos + ": quiet allows changes of ghost text only"})
		}
		out = append(out, e.Args[0].Val)
	}
	return
}
