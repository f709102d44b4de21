package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contract of a function, nil when it is to be inlined.
func (v *V) contract(f *ssa.Function) *Contract {
	k := fnKey(f)
	if c, ok := v.spec.Contracts[k]; ok && !v.inlined[k] && !c.Inline && (len(c.Labels) == 0 || c.Labels[v.prop]) {
		return c
	}
	if c, ok := v.spec.Contracts[f.String()]; ok && !isRepo(pkgOf(f)) {
		return c
	}
	return nil
}

func (x *Exec) call(fr *Frame, st *State, in ssa.Value, c *ssa.CallCommon, k func(*Frame, *State, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, in, b.Name(), c, k)
		return
	}
	var args []Val
	var fn *FnVal
	if c.IsInvoke() {
		args = append(args, x.get(fr, c.Value))
	} else {
		fv := x.get(fr, c.Value)
		fn = fv.Fn
		if fn == nil {
			fn = x.fnOf(fv.T)
		}
	}
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	x.dispatch(fr, st, in, c, fn, args, k)
}

func callPos(in ssa.Value, c *ssa.CallCommon) token.Pos { return c.Pos() }

func (x *Exec) dispatch(fr *Frame, st *State, in ssa.Value, c *ssa.CallCommon, fn *FnVal, args []Val, k func(*Frame, *State, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok { // deferred builtin
		x.builtin(fr, st, in, b.Name(), c, k)
		return
	}
	if c.IsInvoke() {
		x.invoke(fr, st, c, args, k)
		return
	}
	if fn == nil {
		// unknown function value: nil check, then an uninterpreted pure application
		fv := x.get(fr, c.Value)
		if fv.T == nil {
			unsup("call of %s", c.Value)
		}
		x.nilCheck(fr, st, fv.T, "call of nil function", c.Pos())
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.valTerm(a))
		}
		sig := c.Signature()
		if con, ok := x.V.spec.Contracts["iface "+tname(c.Value.Type())+".call"]; ok {
			x.applySig(fr, st, c.Pos(), tname(c.Value.Type())+".call", sig, c.Value.Type(), con, append([]Val{fv}, args...), k)
			return
		}
		x.notes["a call of an unknown function value is a pure function of the value and its arguments"] = true
		if sig.Results().Len() != 1 {
			unsup("call of unknown function with %d results", sig.Results().Len())
		}
		r := x.funApp(sig, fv.T, ts)
		x.typeFacts(st, r, sig.Results().At(0).Type(), 1)
		k(fr, st, Val{T: r})
		return
	}
	x.callFunc(fr, st, c.Pos(), fn, args, c, k)
}

func (x *Exec) valTerm(a Val) *Term {
	if a.T != nil {
		return a.T
	}
	if a.Addr != nil {
		return x.addrTerm(a.Addr)
	}
	unsup("argument without a term")
	return nil
}

func (x *Exec) funApp(sig *types.Signature, f *Term, args []*Term) *Term {
	rs := x.w.SortOf(sig.Results().At(0).Type())
	return x.w.Fun("call!"+types.TypeString(sig, shortQual), rs, append([]*Term{f}, args...)...)
}

func packResults(rs []Val) Val {
	switch len(rs) {
	case 0:
		return Val{}
	case 1:
		return rs[0]
	}
	return Val{Tup: rs}
}

func (x *Exec) callFunc(fr *Frame, st *State, pos token.Pos, fn *FnVal, args []Val, c *ssa.CallCommon, k func(*Frame, *State, Val)) {
	f := fn.Fn
	if m := x.V.model(f); m != nil {
		x.trusted["model of "+f.String()] = true
		f = m
		fn = &FnVal{Fn: m}
	}
	// bound methods and thunks
	if con := x.V.contract(f); con != nil {
		x.applyContract(fr, st, pos, f, con, args, fn.Binds, k)
		return
	}
	if f.Blocks == nil || !isRepo(pkgOf(f)) && !strings.HasPrefix(f.Synthetic, "bound") {
		if x.extern(fr, st, pos, f, args, c, k) {
			return
		}
		if f.Blocks == nil || !(f.Synthetic != "" && strings.Contains(f.Synthetic, "instantiat")) {
			unsup("external function %s", f)
		}
	}
	for p := fr; p != nil; p = p.up {
		if p.fn == f {
			unsup("recursive call of %s without a contract", f)
		}
	}
	x.used["inline "+x.V.fname(f)] = true
	x.runFunc(f, args, fn.Binds, st, fr, func(st2 *State, rs []Val) {
		k(fr.clone(), st2, packResults(rs))
	})
}

// ---- interface calls ----

func (x *Exec) invokeTerm(st *State, name string, sig *types.Signature, args []*Term) *Term {
	var as []*Term
	for i, a := range args {
		if a.Sort == SSlice && i > 0 {
			if sl, ok := sig.Params().At(i - 1).Type().Underlying().(*types.Slice); ok {
				as = append(as, x.seqOf(selRef(x.heapFor(st, elemHeap(sl.Elem()), sl.Elem()), SRef(a)), SOff(a), SLen(a)))
				continue
			}
		}
		as = append(as, a)
	}
	return x.w.Fun("invoke!"+name, x.w.SortOf(sig.Results().At(0).Type()), as...)
}

func (x *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, args []Val, k func(*Frame, *State, Val)) {
	recv := x.valTerm(args[0])
	mname := c.Method.Name()
	x.check(fr, st, Not(Eq(ITag(recv), Zero)), "method call on nil interface", c.Pos())
	if n, ok := intVal(ITag(recv)); ok && n.Sign() > 0 {
		if types.Identical(x.w.TagType(int(n.Int64())), errType) && x.invokeExtern(fr, st, c, recv, args, k) {
			return
		}
		x.invokeKnown(fr, st, c, x.w.TagType(int(n.Int64())), recv, args, k)
		return
	}
	if x.invokeExtern(fr, st, c, recv, args, k) {
		return
	}
	// candidates among the declared implementers
	itn := tname(c.Value.Type())
	cands := x.V.spec.Impl[itn]
	var rec func(fr *Frame, st *State, i int)
	rec = func(fr *Frame, st *State, i int) {
		if i == len(cands) {
			sig := c.Signature()
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.valTerm(a))
			}
			if con, ok := x.V.spec.Contracts["iface "+itn+"."+mname]; ok {
				x.applySig(fr, st, c.Pos(), itn+"."+mname, sig, c.Value.Type(), con, args, k)
				return
			}
			if sig.Results().Len() != 1 {
				unsup("interface call %s.%s", itn, mname)
			}
			x.notes["a call of "+itn+"."+mname+" on an implementation outside the repository is a pure function of its arguments"] = true
			r := x.invokeTerm(st, mname, sig, ts)
			x.typeFacts(st, r, sig.Results().At(0).Type(), 1)
			k(fr, st, Val{T: r})
			return
		}
		t, err := x.V.resolveType(nil, cands[i])
		if err != nil {
			unsup("implementer %s: %v", cands[i], err)
		}
		cond := Eq(ITag(recv), Int(int64(x.w.Tag(t))))
		x.fork(fr, st, cond, func(fr *Frame, st *State, b bool) {
			if b {
				x.invokeKnown(fr, st, c, t, recv, args, k)
			} else {
				rec(fr, st, i+1)
			}
		})
	}
	rec(fr, st, 0)
}

func (x *Exec) invokeKnown(fr *Frame, st *State, c *ssa.CallCommon, t types.Type, recv *Term, args []Val, k func(*Frame, *State, Val)) {
	sel := x.V.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		unsup("no method %s on %s", c.Method.Name(), t)
	}
	fn := x.V.prog.MethodValue(sel)
	if fn == nil {
		unsup("no method value %s", sel)
	}
	// synthetic wrappers: call the declared method directly when the receiver matches
	u := x.w.Unbox(IVal(recv), x.w.SortOf(t))
	x.typeFacts(st, u, t, 1)
	as := append([]Val{{T: u}}, args[1:]...)
	if o, ok := sel.Obj().(*types.Func); ok && fn.Synthetic != "" && len(sel.Index()) == 1 {
		if d := x.V.prog.FuncValue(o); d != nil {
			if types.Identical(d.Signature.Recv().Type(), t) {
				fn = d
			} else if p, ok := t.Underlying().(*types.Pointer); ok && types.Identical(d.Signature.Recv().Type(), p.Elem()) {
				x.nilCheck(fr, st, u, "nil pointer dereference", c.Pos())
				as[0] = Val{T: x.load(st, x.addrOf(Val{T: u}, p.Elem()))}
				fn = d
			}
		}
	}
	if !isRepo(pkgOf(fn)) {
		if x.invokeExtern(fr, st, c, recv, args, k) {
			return
		}
	}
	x.callFunc(fr, st, c.Pos(), &FnVal{Fn: fn}, as, c, k)
}

// ---- contracts ----

type modLoc struct {
	heap string
	ref  *Term
}

func (ev *Env) modLocs(e *Ex) (out []modLoc) {
	x := ev.x
	leaf := func(a *Addr) {
		var rec func(a *Addr)
		rec = func(a *Addr) {
			if a.Heap == "ARR" {
				at := a.T.Underlying().(*types.Array)
				out = append(out, modLoc{elemHeap(at.Elem()), a.Ref})
				return
			}
			if a.Path == nil && a.Idx == nil {
				if s, ok := structOf(a.T); ok {
					for i := 0; i < s.NumFields(); i++ {
						rec(x.fieldAddr(a, i))
					}
					return
				}
			}
			x.heapFor(ev.st, a.Heap, map[bool]types.Type{true: a.Base, false: a.T}[a.Path != nil])
			out = append(out, modLoc{a.Heap, a.Ref})
		}
		rec(a)
	}
	switch {
	case e.Op == "deref":
		leaf(ev.deref(e, ev.eval(e.Args[0])))
	case e.Op == "sel":
		b := ev.eval(e.Args[0])
		p, ok := b.Typ.Underlying().(*types.Pointer)
		if !ok {
			ev.fail(e, "modifies needs a pointer base")
		}
		obj, idx, _ := types.LookupFieldOrMethod(b.Typ, true, ev.pkg, e.Name)
		if obj == nil {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
				obj, idx, _ = types.LookupFieldOrMethod(b.Typ, true, n.Obj().Pkg(), e.Name)
			}
		}
		if obj == nil || len(idx) != 1 {
			ev.fail(e, "no field %s", e.Name)
		}
		leaf(x.fieldAddr(x.addrOf(Val{T: b.T, Addr: b.Addr}, p.Elem()), idx[0]))
	case e.Op == "call" && e.Name == "mapof":
		m := ev.eval(e.Args[0])
		dn, vn, _, _ := x.mapHeaps(ev.st, m.Typ.Underlying().(*types.Map))
		out = append(out, modLoc{dn, m.T}, modLoc{vn, m.T})
	case e.Op == "call" && e.Name == "elems":
		s := ev.eval(e.Args[0])
		el := s.Typ.Underlying().(*types.Slice).Elem()
		x.heapFor(ev.st, elemHeap(el), el)
		out = append(out, modLoc{elemHeap(el), SRef(s.T)})
	case e.Op == "call" && e.Name == "ghost":
		n := e.Args[0].Val
		x.ghostHeap(ev.st, n, x.ghostSort(n))
		out = append(out, modLoc{"G:" + n, ev.refOf(ev.eval(e.Args[1]))})
	case e.Op == "call" && e.Name == "heap":
		out = append(out, modLoc{e.Args[0].Val, nil})
	case e.Op == "cond":
		for _, m := range ev.modLocs(e.Args[1]) {
			c := ev.Bool(e.Args[0])
			out = append(out, modLoc{m.heap, Ite(c, m.ref, Int(-1))})
		}
	case e.Op == "call" && e.Name == "global":
		g := x.V.findGlobal(ev.pkg, e.Val)
		if g == nil {
			ev.fail(e, "no global %s", e.Val)
		}
		leaf(x.globalAddr(g))
	case e.Op == "call" && x.V.spec.Fns[e.Name] != nil && x.V.spec.Fns[e.Name].Kind == "locs":
		f := x.V.spec.Fns[e.Name]
		args := ev.args(e)
		if len(args) != len(f.Params) {
			ev.fail(e, "%s needs %d arguments", f.Name, len(f.Params))
		}
		fe := &Env{x: x, pkg: x.V.pkgByPath(f.Pkg), st: ev.st, old: ev.old, depth: ev.depth + 1, goal: ev.goal, rec: ev.rec, vars: map[string]SV{}}
		for i := range f.Params {
			a := args[i]
			if !strings.HasPrefix(f.Params[i].Type, "#") {
				a.Typ = fe.typ(e, f.Params[i].Type)
			}
			fe.vars[f.Params[i].Name] = a
		}
		for _, l := range f.Body.Args {
			out = append(out, fe.modLocs(l)...)
		}
	default:
		ev.fail(e, "modifies clause %s", e.Op)
	}
	return
}

func recvAndParams(f *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range f.Params {
		ts = append(ts, p.Type())
	}
	if f.Blocks == nil {
		ts = nil
		if r := f.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			ts = append(ts, f.Signature.Params().At(i).Type())
		}
	}
	return ts
}

func (x *Exec) applyContract(fr *Frame, st *State, pos token.Pos, f *ssa.Function, con *Contract, args []Val, binds []Val, k func(*Frame, *State, Val)) {
	ts := recvAndParams(f)
	if len(ts) != len(con.Params) {
		panic(SpecError{fmt.Sprintf("%s: contract of %s names %d parameters, the code has %d", con.Pos, f, len(con.Params), len(ts))})
	}
	vars := map[string]SV{}
	for i, n := range con.Params {
		a := args[i]
		sv := SV{T: a.T, Typ: ts[i], Addr: a.Addr, Fn: a.Fn}
		if a.T == nil && a.Addr == nil {
			sv.T = x.valTerm(a)
		}
		vars[n] = sv
	}
	for i, fv := range f.FreeVars {
		if i < len(binds) {
			vars[fv.Name()] = SV{T: binds[i].T, Typ: fv.Type(), Addr: binds[i].Addr}
		}
	}
	var mods modSet
	if !con.Trusted && !con.Pure && !con.Quiet {
		mods = x.modsOf(f)
	}
	if con.Trusted {
		x.trusted[f.String()] = true
	} else {
		x.used[fnKey(f)] = true
	}
	pkg := x.V.pkgByPath(con.Pkg)
	if pkg == nil {
		pkg = pkgOf(f)
	}
	x.apply(fr, st, pos, x.V.fname(f), f.Signature, pkg, con, vars, mods, k)
}

func (x *Exec) applySig(fr *Frame, st *State, pos token.Pos, name string, sig *types.Signature, recv types.Type, con *Contract, args []Val, k func(*Frame, *State, Val)) {
	vars := map[string]SV{}
	ts := []types.Type{recv}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(con.Params) != len(ts) {
		panic(SpecError{fmt.Sprintf("%s: parameters of %s", con.Pos, name)})
	}
	for i, n := range con.Params {
		vars[n] = SV{T: x.valTerm(args[i]), Typ: ts[i]}
	}
	x.trusted["interface "+name] = true
	x.apply(fr, st, pos, name, sig, x.V.pkgByPath(con.Pkg), con, vars, nil, k)
}

func conjs(e *Ex) []*Ex {
	if e.Op == "bin" && e.Name == "&&" {
		return append(conjs(e.Args[0]), conjs(e.Args[1])...)
	}
	return []*Ex{e}
}
func mentions(e *Ex, names map[string]bool) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" && names[e.Name] {
		return true
	}
	for _, a := range e.Args {
		if mentions(a, names) {
			return true
		}
	}
	for _, t := range e.Trig {
		for _, a := range t {
			if mentions(a, names) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) apply(fr *Frame, st *State, pos token.Pos, name string, sig *types.Signature, pkg *types.Package, con *Contract, vars map[string]SV, mods modSet, k func(*Frame, *State, Val)) {
	prop := x.V.prop
	ev := &Env{x: x, vars: vars, st: st, pkg: pkg, goal: true}
	for _, r := range con.Requires {
		if !r.applies(prop) {
			continue
		}
		x.oblige(st, "pre", "precondition of "+name+": "+r.Text, pos, ev.Bool(r.E))
	}
	if con.Panics != nil {
		c := ev.Bool(con.Panics)
		if x.feasible(st, c) {
			fr2, st2 := fr.clone(), st.clone()
			st2.assume(c)
			x.doPanic(fr2, st2, "panic in "+name, pos, nil)
		}
		st.assume(Not(c))
	}
	if con.MayPanic && con.Panics == nil {
		if fr.panics != nil {
			st2 := st.clone()
			x.newEpoch(st2)
			for h, s := range mods {
				x.havocHeap(st2, h, s, nil, false)
			}
			v := MkIface(SymR(x.uniq("pan.tag"), SInt, st2.rank()), SymR(x.uniq("pan.val"), SInt, st2.rank()))
			x.doPanic(fr.clone(), st2, "panic in "+name, pos, v)
		} else if !(x.con != nil && x.con.MayPanic) {
			x.oblige(st, "panic", name+" may panic", pos, False)
		}
	}
	old := st.clone()
	if !con.Pure {
		var locs []modLoc
		for _, m := range con.Modifies {
			locs = append(locs, ev.modLocs(m)...)
		}
		if mods == nil {
			mods = modSet{}
			for _, l := range locs {
				mods[l.heap] = x.heapSort(l.heap)
			}
		}
		exc := map[string][]*Term{}
		all := map[string]bool{}
		for _, l := range locs {
			if l.ref == nil {
				all[l.heap] = true
			} else {
				exc[l.heap] = append(exc[l.heap], l.ref)
			}
		}
		for _, h := range con.Heaps {
			all[h] = true
			if s, ok := x.heapSorts[h]; ok {
				mods[h] = s
			}
		}
		if con.ModAll {
			for h := range mods {
				all[h] = true
			}
		}
		if len(mods) > 0 {
			er := 2*st.epoch + 1
			x.newEpoch(st)
			for _, h := range sortedKeys(mods) {
				x.havoc(st, h, mods[h], er, exc[h], all[h])
				st.heaps[h].lim = old.cur()
			}
		} else {
			x.newEpoch(st)
		}
	}
	// results
	post := &Env{x: x, vars: map[string]SV{}, st: st, old: old, pkg: pkg, goal: true}
	for n, v := range vars {
		post.vars[n] = v
	}
	rnames := map[string]bool{}
	for _, n := range con.Results {
		rnames[n] = true
	}
	n := sig.Results().Len()
	if len(con.Results) != n {
		panic(SpecError{fmt.Sprintf("%s: contract of %s names %d results, the code has %d", con.Pos, name, len(con.Results), n)})
	}
	rs := make([]Val, n)
	skip := map[*Ex]bool{}
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		rn := con.Results[i]
		done := false
		for _, c := range con.Ensures {
			if done || !c.applies(prop) {
				continue
			}
			for _, e := range conjs(c.E) {
				if e.Op == "bin" && e.Name == "==" && e.Args[0].Op == "id" && e.Args[0].Name == rn && !mentions(e.Args[1], rnames) {
					if rt.Underlying() != nil {
						if _, isSl := rt.Underlying().(*types.Slice); isSl {
							continue
						}
					}
					v := post.eval(e.Args[1])
					if v.Nil {
						v.T = x.w.ZeroOf(rt)
					}
					if v.T == nil || v.T.Sort != x.w.SortOf(rt) {
						continue
					}
					rs[i] = Val{T: v.T, Fn: x.fnOf(v.T)}
					x.typeFacts(st, v.T, rt, 1)
					skip[e] = true
					done = true
					break
				}
			}
		}
		if !done {
			rs[i] = Val{T: x.freshVal(st, "r!"+rn, rt)}
			for _, c := range con.Ensures {
				if !c.applies(prop) {
					continue
				}
				for _, e := range conjs(c.E) {
					// r == nil || fresh(r)
					if e.Op == "bin" && e.Name == "||" && e.Args[0].Op == "bin" && e.Args[0].Name == "==" && e.Args[0].Args[0].Op == "id" && e.Args[0].Args[0].Name == rn && (e.Args[0].Args[1].Op == "nil" || e.Args[0].Args[1].Op == "id" && e.Args[0].Args[1].Name == "nil") {
						e = e.Args[1]
					}
					if e.Op == "call" && e.Name == "fresh" && e.Args[0].Op == "id" && e.Args[0].Name == rn {
						r := post.refOf(SV{T: rs[i].T, Typ: rt})
						if r.Kind == 'v' {
							r.frMin = 2*old.epoch + 1
							st.assume(Or(Eq(r, Zero), Le(old.cur(), r)))
						}
					}
				}
			}
		}
		post.vars[rn] = SV{T: rs[i].T, Typ: rt}
	}
	for _, c := range con.Ensures {
		if !c.applies(prop) {
			continue
		}
		if c.Kind == "assumes" {
			x.trusted["assumed of "+name+": "+c.Text] = true
		}
		for _, e := range conjs(c.E) {
			if skip[e] {
				continue
			}
			st.assume(post.Bool(e))
		}
	}
	k(fr, st, packResults(rs))
}

// havoc replaces a heap by a fresh one that agrees with the old one on objects
// that existed before (rank <= er) except the listed ones.
func (x *Exec) havoc(st *State, h string, s Sort, er int, exc []*Term, all bool) {
	old := x.heap(st, h, s)
	n := SymR(x.uniq("H!"+h), s, st.rank())
	n.isHeap = true
	n.top, n.el = st.A, x.heapElem(h)
	if !all {
		n.parent = old
		n.fRank = er
		n.exc = exc
	}
	st.heaps[h] = n
}
func (x *Exec) havocHeap(st *State, h string, s Sort, exc []*Term, keep bool) {
	x.havoc(st, h, s, 0, exc, true)
}

func (x *Exec) isFresh(r *Term, old *State) *Term {
	if b, ok := allocBase(r); ok {
		if b != old.A {
			if b.rank > old.A.rank {
				return True
			}
		} else {
			_, c := splitAdd(r)
			if c.Cmp(big.NewInt(old.k)) >= 0 {
				return True
			}
			return False
		}
	}
	if r.frMin > 0 && r.frMin >= old.A.rank && len(r.frExc) == 0 {
		return Lt(Zero, r)
	}
	return Le(old.cur(), r)
}

// ---- windows of arrays as values ----

func (x *Exec) seqOf(a, off, n *Term) *Term {
	if n == Zero {
		return x.w.Fun("seqnil!"+a.Sort, x.w.Opaque("Win"))
	}
	return x.w.Fun("seq!"+a.Sort, x.w.Opaque("Win"), a, off, n)
}

func (x *Exec) sliceSeq(st *State, v *Term, t types.Type) *Term {
	el := t.Underlying().(*types.Slice).Elem()
	return x.seqOf(selRef(x.heapFor(st, elemHeap(el), el), SRef(v)), SOff(v), SLen(v))
}

func (x *Exec) itoa(n *Term) *Term {
	if v, ok := intVal(n); ok {
		return Str(v.String())
	}
	return x.w.Fun("itoa", SStr, n)
}

func (x *Exec) fmtV(v *Term) *Term { return x.fmtVerb('v', v) }
func (x *Exec) fmtVerb(verb byte, v *Term) *Term {
	if n, ok := intVal(ITag(v)); ok && n.Sign() > 0 {
		t := x.w.TagType(int(n.Int64()))
		if b, ok := t.Underlying().(*types.Basic); ok && types.NewMethodSet(t).Len() == 0 {
			switch {
			case b.Info()&types.IsString != 0 && (verb == 'v' || verb == 's'):
				return x.w.Unbox(IVal(v), SStr)
			case b.Info()&types.IsString != 0 && verb == 'q':
				return x.w.Fun("quote", SStr, x.w.Unbox(IVal(v), SStr))
			case b.Info()&types.IsInteger != 0 && (verb == 'v' || verb == 'd') && x.w.SortOf(t) == SInt:
				return x.itoa(IVal(v))
			}
		}
	}
	return x.w.Fun("fmtv!"+string(verb), SStr, v)
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, in ssa.Value, name string, c *ssa.CallCommon, k func(*Frame, *State, Val)) {
	arg := func(i int) *Term { return x.term(fr, c.Args[i]) }
	switch name {
	case "len":
		v := arg(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			k(fr, st, Val{T: StrLen(v)})
		case *types.Slice:
			k(fr, st, Val{T: SLen(v)})
		case *types.Map:
			_, _, d, _ := x.mapHeaps(st, u)
			cd := x.card(selRef(d, v))
			st.assume(Le(Zero, cd))
			k(fr, st, Val{T: Ite(Eq(v, Zero), Zero, cd)})
		case *types.Array:
			k(fr, st, Val{T: Int(u.Len())})
		case *types.Pointer:
			k(fr, st, Val{T: Int(u.Elem().Underlying().(*types.Array).Len())})
		default:
			unsup("len of %s", c.Args[0].Type())
		}
	case "cap":
		k(fr, st, Val{T: SCap(arg(0))})
	case "append":
		x.appendTo(fr, st, c, k)
	case "copy":
		dst := arg(0)
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		src := arg(1)
		hn := elemHeap(el)
		h := x.heapFor(st, hn, el)
		var sa, so, sl *Term
		if src.Sort == SStr {
			sa, so, sl = x.w.Fun("sbytes", arr(SInt, SInt), src), Zero, StrLen(src)
		} else {
			sa, so, sl = selRef(h, SRef(src)), SOff(src), SLen(src)
		}
		n := Ite(Le(SLen(dst), sl), SLen(dst), sl)
		na := SymR(x.uniq("copied"), arr(SInt, x.w.SortOf(el)), st.rank())
		oldA := selRef(h, SRef(dst))
		i := Bnd("?c", SInt)
		st.assume(Quant("forall", []*Term{i}, [][]*Term{{App("select", x.w.SortOf(el), na, i)}},
			Eq(App("select", x.w.SortOf(el), na, i), Ite(And(Le(SOff(dst), i), Lt(i, Add(SOff(dst), n))), Select(sa, Add(so, Sub(i, SOff(dst)))), Select(oldA, i)))))
		x.setHeapRaw(st, hn, h, SRef(dst), na)
		k(fr, st, Val{T: n})
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, key := arg(0), arg(1)
		x.fork(fr, st, Eq(m, Zero), func(fr *Frame, st *State, b bool) {
			if !b {
				x.mapDel(st, mt, m, key)
			}
			k(fr, st, Val{})
		})
	case "clear":
		mt, ok := c.Args[0].Type().Underlying().(*types.Map)
		if !ok {
			unsup("clear of a slice")
		}
		m := arg(0)
		dn, _, d, _ := x.mapHeaps(st, mt)
		x.setHeapRaw(st, dn, d, m, ConstArr(arr(x.w.SortOf(mt.Key()), SBool), False))
		k(fr, st, Val{})
	case "recover":
		f := fr
		// recover is called in a deferred function: the panic belongs to its caller
		if f.up != nil && f.up.inPan != nil {
			v := f.up.inPan
			*f.up.recov = true
			k(fr, st, Val{T: v})
			return
		}
		k(fr, st, Val{T: NilIface})
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(c.Args); i++ {
			y := arg(i)
			if name == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(r, y), y, r)
			}
		}
		k(fr, st, Val{T: r})
	case "print", "println":
		k(fr, st, Val{})
	case "ssa:wrapnilchk":
		p := arg(0)
		x.nilCheck(fr, st, p, "nil pointer dereference", c.Pos())
		k(fr, st, x.get(fr, c.Args[0]))
	default:
		unsup("builtin %s", name)
	}
}

func (x *Exec) appendTo(fr *Frame, st *State, c *ssa.CallCommon, k func(*Frame, *State, Val)) {
	w := x.w
	s := x.term(fr, c.Args[0])
	if len(c.Args) == 1 {
		k(fr, st, Val{T: s})
		return
	}
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	t := x.term(fr, c.Args[1])
	hn := elemHeap(el)
	h := x.heapFor(st, hn, el)
	var n *Term
	var at func(i *Term) *Term
	if t.Sort == SStr {
		n = StrLen(t)
		sb := w.Fun("sbytes", arr(SInt, SInt), t)
		at = func(i *Term) *Term { return Select(sb, i) }
	} else {
		n = SLen(t)
		src := selRef(h, SRef(t))
		at = func(i *Term) *Term { return Select(src, Add(SOff(t), i)) }
	}
	r := x.appendVals(st, s, el, n, at)
	if x.w.SortOf(el) == SStr && x.V.recs["catS"] != nil && x.V.catFacts() {
		// the concatenation of the elements (lemma catApp)
		var tail []*Term
		if v, ok := intVal(n); ok && v.IsInt64() && v.Int64() <= 16 {
			for i := int64(0); i < v.Int64(); i++ {
				tail = append(tail, at(Int(i)))
			}
		} else {
			tail = append(tail, x.catS(selRef(h, SRef(t)), SOff(t), n))
		}
		st.assume(Eq(w.Fun("catS", SStr, selRef(st.heaps[hn], SRef(r)), SOff(r), SLen(r)),
			Concat(append([]*Term{x.catS(selRef(h, SRef(s)), SOff(s), SLen(s))}, tail...)...)))
	}
	if t.Sort == SStr {
		st.assume(Eq(x.bstr(selRef(st.heaps[hn], SRef(r)), SOff(r), SLen(r)), Concat(x.bstr(selRef(h, SRef(s)), SOff(s), SLen(s)), t)))
	}
	k(fr, st, Val{T: r})
}

func (x *Exec) appendVals(st *State, s *Term, el types.Type, n *Term, at func(*Term) *Term) *Term {
	hn := elemHeap(el)
	h := x.heapFor(st, hn, el)
	if n == Zero {
		return s
	}
	oldLen := SLen(s)
	newLen := Add(oldLen, n)
	fits := Le(newLen, SCap(s))
	if SRef(s) == Zero || x.entails0(st, Not(fits)) {
		fits = False
	}
	fresh := st.alloc()
	ref := Ite(fits, SRef(s), fresh)
	base := selRef(h, SRef(s))
	if SRef(s) == Zero {
		base = ConstArr(arr(SInt, x.w.SortOf(el)), x.w.ZeroOf(el))
	}
	off := SOff(s)
	var inner *Term
	if v, ok := intVal(n); ok && v.IsInt64() && v.Int64() <= 16 {
		inner = base
		for i := int64(0); i < v.Int64(); i++ {
			inner = Store(inner, Add(Add(off, oldLen), Int(i)), at(Int(i)))
		}
	} else {
		inner = SymR(x.uniq("app"), arr(SInt, x.w.SortOf(el)), st.rank())
		i := Bnd("?a", SInt)
		sel := App("select", x.w.SortOf(el), inner, i)
		lo := Add(off, oldLen)
		st.assume(Quant("forall", []*Term{i}, [][]*Term{{sel}},
			And(Implies(Lt(i, lo), Eq(sel, Select(base, i))), Implies(And(Le(lo, i), Lt(i, Add(lo, n))), Eq(sel, at(Sub(i, lo)))), Implies(And(fits, Le(Add(lo, n), i)), Eq(sel, Select(base, i))))))
	}
	capN := SCap(s)
	if fits != True {
		fc := SymR(x.uniq("cap"), SInt, st.rank())
		st.assume(Le(newLen, fc))
		st.assume(Le(fc, BigInt(new(big.Int).Lsh(big.NewInt(1), 62))))
		capN = Ite(fits, SCap(s), fc)
	}
	x.setHeapRaw(st, hn, h, ref, inner)
	if n.Kind != 'l' {
		st.assume(Le(Zero, n))
		// appending nothing keeps the slice
		return Ite(Eq(n, Zero), s, MkSlice(ref, off, newLen, capN))
	}
	return MkSlice(ref, off, newLen, capN)
}

// entails0: syntactic or literal entailment only
func (x *Exec) entails0(st *State, g *Term) bool {
	if g == True {
		return true
	}
	for _, f := range st.facts {
		if f == g {
			return true
		}
	}
	return false
}

// pureApply evaluates a known function on terms, merging its paths into one term.
func (x *Exec) pureApply(st *State, fv *FnVal, args []*Term) *Term {
	type path struct {
		c *Term
		r *Term
	}
	var ps []path
	s2 := st.clone()
	s2.br = nil
	x.dry++
	defer func() { x.dry-- }()
	start := x.symN
	var as []Val
	for _, a := range args {
		as = append(as, Val{T: a, Fn: x.fnOf(a)})
	}
	fr := &Frame{fn: x.pureRoot(fv.Fn), panics: func(*State, *Term) {}}
	x.callFunc(fr, s2, fv.Fn.Pos(), fv, as, nil, func(_ *Frame, st3 *State, v Val) {
		ps = append(ps, path{And(st3.br...), x.valTerm(v)})
	})
	if len(ps) == 0 {
		unsup("closure %s has no result", fv.Fn)
	}
	r := ps[len(ps)-1].r
	for i := len(ps) - 2; i >= 0; i-- {
		r = Ite(ps[i].c, ps[i].r, r)
	}
	// a result that is not a function of the arguments must not be used: as a
	// constant it would be the same for all of them
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == 'v' {
			var id, n int
			if k := strings.LastIndex(t.Op, "!"); k >= 0 {
				if c, _ := fmt.Sscanf(t.Op[k+1:], "%d.%d", &id, &n); c == 2 && id == x.id && n > start {
					unsup("the value of closure %s is not determined by contracts (%s)", fv.Fn, t.Op)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(r)
	return r
}

func (x *Exec) onMakeSlice(fr *Frame, st *State, in *ssa.MakeSlice, c *Term) {
	if x.con == nil {
		return
	}
	if x.allocBound != nil {
		if _, ok := intVal(c); !ok {
			x.oblige(st, "alloc", "allocation bounded by the input", in.Pos(), Le(c, x.allocBound))
		}
	}
}

func (w *World) TagType(k int) types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.tagT[k]
}

var _ = strings.HasPrefix

// pureRoot is the function a pure application is attributed to.
func (x *Exec) pureRoot(f *ssa.Function) *ssa.Function {
	if x.fn != nil && x.fn != f {
		return x.fn
	}
	return f
}

// catFacts tells whether the property speaks about concatenated elements.
func (v *V) catFacts() bool {
	switch v.prop {
	case "C15", "C16", "C17", "C19":
		return true
	}
	return false
}

// catS is the concatenation of n elements.
func (x *Exec) catS(a, off, n *Term) *Term {
	if v, ok := intVal(n); ok && v.IsInt64() && v.Int64() <= 16 {
		var ps []*Term
		for i := int64(0); i < v.Int64(); i++ {
			ps = append(ps, Select(a, Add(off, Int(i))))
		}
		return Concat(ps...)
	}
	return x.w.Fun("catS", SStr, a, off, n)
}
