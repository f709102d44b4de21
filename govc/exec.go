package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type K func(st *State, res []Val)

type deferred struct {
	fn   *FnVal
	call *ssa.CallCommon
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	depth  int
	k      K
	up     *Frame
	defers []deferred
	loops  []*loopCtx
	panics func(st *State, v *Term)
	inPan  *Term // non-nil while running deferred calls for a panic
	recov  *bool
	id     int
	names  map[string]Val
	unr    map[*ssa.BasicBlock]int // passes of loops executed literally
}
type loopCtx struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	end  func(fr *Frame, st *State, phis map[*ssa.Phi]*Term)
	exit func(fr *Frame, st *State, b, prev *ssa.BasicBlock)
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.loops = fr.loops[:len(fr.loops):len(fr.loops)]
	n.unr = nil
	for k, v := range fr.unr {
		if n.unr == nil {
			n.unr = map[*ssa.BasicBlock]int{}
		}
		n.unr[k] = v
	}
	return &n
}

// Obl is one proof obligation: facts entail the goal.
type Obl struct {
	Func  string
	Kind  string
	Text  string
	Pos   string
	Facts []*Term
	Goal  *Term
	Ans   Answer
	By    string
	Ms    int64
	Model string
	Query string
}

type Exec struct {
	probe *probe

	V          *V
	w          *World
	fn         *ssa.Function
	con        *Contract
	heapSorts  map[string]Sort
	entryHeaps map[string]*Term
	entry      *State
	obls       []*Obl
	trivial    int
	dry        int
	fnTab      map[string]*FnVal
	frames     int
	used       map[string]bool
	trusted    map[string]bool
	notes      map[string]bool
	params     []Val
	pvars      map[string]SV
	returns    int
	panicsN    int
	invs       int
	steps      int
	deadline   time.Time
	allocBound *Term
	seqs       map[string]bool
	loopN      int
	id         int
	symN       int
	loopsN     int
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.V.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, "/repo/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) oblige(st *State, kind, text string, p token.Pos, goal *Term) {
	if x.dry > 0 {
		if goal != True {
			st.assume(goal)
		}
		return
	}
	if goal == True {
		x.trivial++
		return
	}
	fs := make([]*Term, len(st.facts))
	copy(fs, st.facts)
	x.obls = append(x.obls, &Obl{Func: x.V.fname(x.fn), Kind: kind, Text: text, Pos: x.pos(p), Facts: fs, Goal: goal})
	st.assume(goal)
}

// query texts ------------------------------------------------------------

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == False {
		return false
	}
	if c == True {
		return true
	}
	for _, f := range st.facts {
		if f == c {
			return true
		}
		if f == Not(c) {
			return false
		}
	}
	if time.Now().After(x.deadline) {
		unsup("time limit")
	}
	if x.V.debug && os.Getenv("GOVC_SLOW") != "" {
		t0 := time.Now()
		r := x.V.sol.Quick(x.V.queryTextH(x.w, st.facts, c, 1, x.hide()), 150) != Unsat
		fmt.Printf("    feas %dms %v\n", time.Since(t0).Milliseconds(), r)
		return r
	}
	return x.V.sol.Quick(x.V.queryTextH(x.w, st.facts, c, 1, x.hide()), 150) != Unsat
}

// entails is used for invariant inference and simplification.
func (x *Exec) entails(st *State, g *Term, ms int) bool { return x.entailsH(st, g, ms, false) }

// entailsH tries harder when asked to (invariants the specification states)
func (x *Exec) entailsH(st *State, g *Term, ms int, hard bool) bool {
	if g == True {
		return true
	}
	if x.V.debug && os.Getenv("GOVC_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 30*time.Millisecond {
				fmt.Printf("    slow %dms dry=%d hard=%v: %.300s\n", d.Milliseconds(), x.dry, hard, g)
			}
		}()
	}
	if g == False {
		return x.V.sol.Quick(x.V.queryTextH(x.w, st.facts, True, 1, x.hide()), ms) == Unsat
	}
	for _, f := range st.facts {
		if f == g {
			return true
		}
	}
	if g.Kind == 'q' || g.Kind == 'a' && (g.Op == "and" || g.Op == "=>") && topQuant(g) {
		var qs []string
		x.splitGoal(st, st.facts, g, func(fs []*Term, g *Term) {
			if g == True {
				return
			}
			for _, f := range fs {
				if f == g {
					return
				}
			}
			qs = append(qs, x.V.queryTextH(x.w, fs, Not(g), 2, x.hide()))
		})
		var bad atomic.Bool
		var wg sync.WaitGroup
		lim := make(chan bool, 6)
		for _, q := range qs {
			wg.Add(1)
			lim <- true
			go func() {
				defer func() { <-lim; wg.Done() }()
				if bad.Load() {
					return
				}
				t0 := time.Now()
				a := x.V.sol.Decide(q, ms)
				if x.V.debug && time.Since(t0) > time.Second {
					fmt.Printf("    decide: %v in %v\n", a, time.Since(t0))
				}
				if a == Unknown && hard && !bad.Load() {
					t0 := time.Now()
					a, _, _ = x.V.sol.Prove(q, 20*time.Second)
					if x.V.debug {
						fmt.Printf("    hard: %v in %v\n", a, time.Since(t0))
						if a == Unknown && os.Getenv("GOVC_DUMP") != "" {
							os.WriteFile(fmt.Sprintf("/tmp/hard%d.smt2", hardN.Add(1)), []byte(q), 0644)
						}
					}
				}
				if a != Unsat {
					bad.Store(true)
				}
			}()
		}
		wg.Wait()
		ok := !bad.Load()
		return ok
	}
	return x.V.sol.Decide(x.V.queryTextH(x.w, st.facts, Not(g), 2, x.hide()), ms) == Unsat
}

var hardN atomic.Int64

func topQuant(t *Term) bool {
	if t.Kind == 'q' {
		return true
	}
	if t.Kind == 'a' && (t.Op == "and" || t.Op == "=>") {
		for _, a := range t.Args {
			if topQuant(a) {
				return true
			}
		}
	}
	return false
}

// constants --------------------------------------------------------------

func (x *Exec) constTerm(c constant.Value, t types.Type) *Term {
	if c == nil {
		return x.w.ZeroOf(t)
	}
	switch c.Kind() {
	case constant.Bool:
		if constant.BoolVal(c) {
			return True
		}
		return False
	case constant.String:
		return Str(constant.StringVal(c))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.ExactString(), 10)
		if x.w.SortOf(t) == SBV {
			return BVc(n)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 && b.Info()&types.IsUntyped == 0 {
			break
		}
		return BigInt(n)
	}
	return x.w.Fun("const!"+sanitize(c.ExactString()), x.w.SortOf(t))
}
func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s)
}

func (x *Exec) globalAddr(g *ssa.Global) *Addr {
	el := g.Type().(*types.Pointer).Elem()
	ref := Int(int64(x.w.GlobalRef(g.String())))
	return x.addrOf(Val{T: ref}, el)
}

func (x *Exec) get(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return Val{T: x.constTerm(v.Value, v.Type())}
	case *ssa.Global:
		return Val{T: Int(int64(x.w.GlobalRef(v.String())))}
	case *ssa.Function:
		return Val{Fn: &FnVal{Fn: v}, T: x.fnTerm(&FnVal{Fn: v})}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s of %s not available", v.Name(), fr.fn)
	}
	return r
}
func (x *Exec) fnTerm(f *FnVal) *Term {
	// known functions are large literals
	for k, v := range x.fnTab {
		if v == f || (v.Fn == f.Fn && len(v.Binds) == 0 && len(f.Binds) == 0) {
			return lit(k, SInt)
		}
	}
	k := fmt.Sprint(900000000 + x.V.fnSeq.Add(1))
	x.fnTab[k] = f
	return lit(k, SInt)
}
func (x *Exec) fnOf(t *Term) *FnVal {
	if t != nil && t.Kind == 'l' {
		return x.fnTab[t.Op]
	}
	return nil
}

func (x *Exec) term(fr *Frame, v ssa.Value) *Term {
	r := x.get(fr, v)
	if r.T != nil {
		return r.T
	}
	if r.Addr != nil {
		return x.addrTerm(r.Addr)
	}
	unsup("no term for %s", v)
	return nil
}
func (x *Exec) addrTerm(a *Addr) *Term {
	if a.Idx == nil && a.Path == nil && strings.HasPrefix(a.Heap, "P:") || a.Heap == "ARR" {
		return a.Ref
	}
	unsup("interior pointer %s escapes", a.Heap)
	return nil
}

// blocks -------------------------------------------------------------------

func (x *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State, up *Frame, k K) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	x.frames++
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, k: k, up: up, id: x.frames}
	if up != nil {
		fr.depth = up.depth + 1
		fr.panics = up.panics
		fr.inPan = nil
	}
	if fr.depth > 14 {
		unsup("inlining too deep at %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	x.enter(fr, st, fn.Blocks[0], nil)
}

func (x *Exec) tick() {
	x.steps++
	if x.steps&255 == 0 && time.Now().After(x.deadline) {
		unsup("time limit")
	}
}

func (x *Exec) enter(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	x.tick()
	// leaving loops?
	if n := len(fr.loops); n > 0 {
		l := fr.loops[n-1]
		if !l.body[b] {
			l.exit(fr, st, b, prev)
			return
		}
		if b == l.head {
			phis := x.phiVals(fr, b, prev)
			pt := map[*ssa.Phi]*Term{}
			for p, v := range phis {
				if v.T == nil {
					unsup("loop-carried address")
				}
				pt[p] = v.T
			}
			l.end(fr, st, pt)
			return
		}
	}
	if prev != nil {
		if body := x.V.loopsOf(fr.fn)[b]; body != nil {
			if x.unroll(fr, st, b, prev, body) {
				return
			}
			x.runLoop(fr, st, b, prev, body)
			return
		}
	}
	if prev != nil {
		for p, v := range x.phiVals(fr, b, prev) {
			fr.env[p] = v
		}
	}
	x.run(fr, st, b, 0)
}

func (x *Exec) phiVals(fr *Frame, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	r := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r[p] = x.get(fr, p.Edges[pi])
	}
	return r
}

// run executes instructions of b from index i.
func (x *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.tick()
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.enter(fr, st, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.term(fr, in.Cond)
			if x.probe != nil && x.probe.blk == b {
				x.probe.n++
				x.probe.fr, x.probe.st, x.probe.c = fr, st, c
				return
			}
			if c == True {
				x.enter(fr, st, b.Succs[0], b)
				return
			}
			if c == False {
				x.enter(fr, st, b.Succs[1], b)
				return
			}
			t := x.feasible(st, c)
			f := true
			if t {
				f = x.feasible(st, Not(c))
			}
			if t && f {
				if x.fuse(fr, st, b, c) {
					return
				}
				fr2, st2 := fr.clone(), st.clone()
				st2.branch(c)
				x.enter(fr2, st2, b.Succs[0], b)
				st.branch(Not(c))
				x.enter(fr, st, b.Succs[1], b)
			} else if t {
				st.assume(c)
				x.enter(fr, st, b.Succs[0], b)
			} else {
				st.assume(Not(c))
				x.enter(fr, st, b.Succs[1], b)
			}
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.get(fr, r))
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			x.doPanic(fr, st, "panic", in.Pos(), x.term(fr, in.X))
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, func(fr2 *Frame, st2 *State) { x.run(fr2, st2, b, i+1) })
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call}
			if in.Call.IsInvoke() {
				d.args = append(d.args, x.get(fr, in.Call.Value))
			} else {
				fv := x.get(fr, in.Call.Value)
				d.fn = fv.Fn
				if d.fn == nil {
					d.fn = x.fnOf(fv.T)
				}
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.get(fr, a))
			}
			fr.defers = append(fr.defers, d)
			if fr.fn.Recover != nil && hasRecover(fr.fn) {
				x.installRecover(fr)
			}
		case *ssa.Call:
			ii := i
			x.call(fr, st, in, &in.Call, func(fr2 *Frame, st2 *State, v Val) {
				fr2.env[in] = v
				x.run(fr2, st2, b, ii+1)
			})
			return
		case *ssa.Store:
			a := x.addr(fr, st, in.Addr, in.Pos())
			v := x.get(fr, in.Val)
			t := v.T
			if t == nil && v.Addr != nil {
				t = x.addrTerm(v.Addr)
			}
			if t == nil {
				unsup("storing %s", in.Val)
			}
			x.store(st, a, t)
		case *ssa.MapUpdate:
			m := x.term(fr, in.Map)
			x.nilCheck(fr, st, m, "assignment to entry in nil map", in.Pos())
			mt := in.Map.Type().Underlying().(*types.Map)
			x.mapSet(st, mt, m, x.term(fr, in.Key), x.term(fr, in.Value))
		case *ssa.Next:
			it := x.get(fr, in.Iter).It
			if it == nil || it.Str {
				unsup("range over string")
			}
			c := st.ghost[it.Key]
			ok := Lt(c, it.N)
			key := Select(it.Ord, c)
			mt := types.NewMap(it.KT, it.VT)
			_, _, d, v := x.mapHeaps(st, mt)
			if selRef(d, it.M) != it.Dom {
				// the map must not have been modified during the iteration
				if !x.entails(st, Eq(selRef(d, it.M), it.Dom), 2000) {
					unsup("map modified while ranging over it")
				}
			}
			val := Select(selRef(v, it.M), key)
			tf, ff := x.feasible(st, ok), true
			if tf {
				ff = x.feasible(st, Not(ok))
			}
			do := func(fr *Frame, st *State, has bool) {
				if has {
					st.assume(ok)
					st.assume(Select(it.Dom, key))
					st.ghost[it.Key] = Add(c, One)
					x.typeFacts(st, val, it.VT, 1)
					fr.env[in] = Val{Tup: []Val{{T: True}, {T: key}, {T: val}}}
				} else {
					st.assume(Not(ok))
					fr.env[in] = Val{Tup: []Val{{T: False}, {T: x.w.ZeroOf(it.KT)}, {T: x.w.ZeroOf(it.VT)}}}
				}
				x.run(fr, st, b, i+1)
			}
			if tf && ff {
				fr2, st2 := fr.clone(), st.clone()
				do(fr2, st2, true)
				do(fr, st, false)
			} else {
				do(fr, st, tf)
			}
			return
		case *ssa.TypeAssert:
			x.typeAssert(fr, st, in, func(fr2 *Frame, st2 *State) { x.run(fr2, st2, b, i+1) })
			return
		case ssa.Value:
			if bop, ok := in.(*ssa.BinOp); ok && (bop.Op == token.QUO || bop.Op == token.REM || bop.Op == token.SHL || bop.Op == token.SHR) {
				if x.divPanic(fr, st, bop) {
					continue
				}
				return
			}
			fr.env[in] = x.value(fr, st, in)
		default:
			unsup("instruction %T", in)
		}
	}
}

// divPanic executes a division or shift; false: the path ends in a panic.
func (x *Exec) divPanic(fr *Frame, st *State, in *ssa.BinOp) bool {
	y := x.term(fr, in.Y)
	var bad *Term
	msg := "integer divide by zero"
	zero := x.w.ZeroOf(in.Y.Type())
	if in.Op == token.QUO || in.Op == token.REM {
		if y.Sort != SInt && y.Sort != SBV {
			unsup("division of %s", y.Sort)
		}
		bad = Eq(y, zero)
	} else {
		msg = "negative shift amount"
		bad = Lt(y, zero)
	}
	if bad != False && x.feasible(st, bad) {
		fr2, st2 := fr.clone(), st.clone()
		st2.assume(bad)
		x.doPanic(fr2, st2, msg, in.Pos(), nil)
		if !x.feasible(st, Not(bad)) {
			return false
		}
	}
	st.assume(Not(bad))
	fr.env[in] = Val{T: x.binop(st, in.Op, x.term(fr, in.X), y, in.X.Type(), in.Type())}
	return true
}

// check obliges a run-time check; failing paths panic.
func (x *Exec) check(fr *Frame, st *State, ok *Term, msg string, p token.Pos) {
	if ok == True {
		x.trivial++
		return
	}
	if x.panicMatters(fr) {
		x.oblige(st, "panic", msg, p, ok)
		return
	}
	if fr.panics != nil && x.feasible(st, Not(ok)) {
		st2 := st.clone()
		st2.assume(Not(ok))
		x.doPanic(fr.clone(), st2, msg, p, nil)
	}
	st.assume(ok)
}
func (x *Exec) panicMatters(fr *Frame) bool {
	return fr.panics == nil && !(x.con != nil && x.con.MayPanic)
}

func (x *Exec) nilCheck(fr *Frame, st *State, p *Term, msg string, pos token.Pos) {
	if isLit(p) && p != Zero {
		return
	}
	if _, ok := allocBase(p); ok {
		return
	}
	x.check(fr, st, Not(Eq(p, Zero)), msg, pos)
}

func (x *Exec) doPanic(fr *Frame, st *State, msg string, p token.Pos, v *Term) {
	if fr.panics != nil {
		if v == nil {
			v = MkIface(Int(int64(x.w.Tag(types.Typ[types.String]))), x.w.Box(Str("runtime error: "+msg)))
		}
		st.assume(Not(Eq(ITag(v), Zero)))
		fr.panics(st, v)
		return
	}
	x.panicsN++
	if x.con != nil && x.con.MayPanic {
		return
	}
	x.oblige(st, "panic", msg, p, False)
}

func hasRecover(fn *ssa.Function) bool {
	for _, a := range fn.AnonFuncs {
		for _, b := range a.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *Exec) installRecover(fr *Frame) {
	snap := fr // frame at this point; env is only extended later
	outer := fr.panics
	fr.panics = func(st *State, v *Term) {
		f2 := snap.clone()
		f2.panics = outer
		f2.inPan = v
		rec := false
		f2.recov = &rec
		x.runDefers(f2, st, func(f3 *Frame, st3 *State) {
			if !*f3.recov {
				x.doPanic(f3, st3, "panic passes through", snap.fn.Pos(), v)
				return
			}
			// return the named results
			f3.inPan = nil
			rb := snap.fn.Recover
			x.run(f3, st3, rb, 0)
		})
	}
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	next := func(fr2 *Frame, st2 *State, _ Val) { x.runDefers(fr2, st2, k) }
	x.dispatch(fr, st, nil, d.call, d.fn, d.args, next)
}

// addr evaluates an address operand, checking nil.
func (x *Exec) addr(fr *Frame, st *State, v ssa.Value, p token.Pos) *Addr {
	pv := x.get(fr, v)
	el := v.Type().Underlying().(*types.Pointer).Elem()
	a := x.addrOf(pv, el)
	if pv.Addr == nil {
		x.nilCheck(fr, st, pv.T, "nil pointer dereference", p)
	}
	return a
}

func (x *Exec) value(fr *Frame, st *State, in ssa.Value) Val {
	w := x.w
	switch in := in.(type) {
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		r := st.alloc()
		a := x.addrOf(Val{T: r}, el)
		x.store(st, a, w.ZeroOf(el))
		if g := x.V.ghostInit(el); g != "" {
			x.ghostSet(st, g, x.ghostSort(g), r, zeroSort(x.ghostSort(g)))
		}
		return Val{T: r}
	case *ssa.BinOp:
		return Val{T: x.binop(st, in.Op, x.term(fr, in.X), x.term(fr, in.Y), in.X.Type(), in.Type())}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				if v, ok := x.globalTerm(g); ok {
					return v
				}
			}
			a := x.addr(fr, st, in.X, in.Pos())
			v := x.load(st, a)
			x.typeFacts(st, v, in.Type(), 1)
			r := Val{T: v}
			if f := x.fnOf(v); f != nil {
				r.Fn = f
			}
			return r
		case token.NOT:
			return Val{T: Not(x.term(fr, in.X))}
		case token.SUB:
			v := x.term(fr, in.X)
			if v.Sort == SBV {
				return Val{T: App("bvneg", SBV, v)}
			}
			return Val{T: Sub(Zero, v)}
		case token.XOR:
			v := x.term(fr, in.X)
			if v.Sort == SBV {
				return Val{T: App("bvnot", SBV, v)}
			}
			if v.Sort == SInt {
				return Val{T: Sub(Sub(Zero, v), One)}
			}
		}
		unsup("unary %s", in.Op)
	case *ssa.ChangeType:
		r := x.get(fr, in.X)
		return r
	case *ssa.ChangeInterface:
		return x.get(fr, in.X)
	case *ssa.MakeInterface:
		v := x.get(fr, in.X)
		t := v.T
		if t == nil && v.Addr != nil {
			t = x.addrTerm(v.Addr)
		}
		if t == nil {
			unsup("boxing %s", in.X)
		}
		return Val{T: MkIface(Int(int64(w.Tag(in.X.Type()))), w.Box(t))}
	case *ssa.MakeClosure:
		f := &FnVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Binds = append(f.Binds, x.get(fr, b))
		}
		return Val{Fn: f, T: x.fnTerm(f)}
	case *ssa.MakeMap:
		r := st.alloc()
		mt := in.Type().Underlying().(*types.Map)
		dn, vn, d, v := x.mapHeaps(st, mt)
		ks, vs := w.SortOf(mt.Key()), w.SortOf(mt.Elem())
		x.setHeapRaw(st, dn, d, r, ConstArr(arr(ks, SBool), False))
		x.setHeapRaw(st, vn, v, r, ConstArr(arr(ks, vs), w.ZeroOf(mt.Elem())))
		return Val{T: r}
	case *ssa.MakeSlice:
		n, c := x.term(fr, in.Len), x.term(fr, in.Cap)
		x.check(fr, st, And(Le(Zero, n), Le(n, c)), "makeslice: len out of range", in.Pos())
		x.onMakeSlice(fr, st, in, c)
		r := st.alloc()
		el := in.Type().Underlying().(*types.Slice).Elem()
		x.setHeap(st, elemHeap(el), el, r, ConstArr(arr(SInt, w.SortOf(el)), w.ZeroOf(el)))
		return Val{T: MkSlice(r, Zero, n, c)}
	case *ssa.FieldAddr:
		pv := x.get(fr, in.X)
		el := in.X.Type().Underlying().(*types.Pointer).Elem()
		if pv.Addr == nil {
			x.nilCheck(fr, st, pv.T, "nil pointer dereference", in.Pos())
		}
		return Val{Addr: x.fieldAddr(x.addrOf(pv, el), in.Field)}
	case *ssa.Field:
		v := x.term(fr, in.X)
		if !transparent(in.X.Type()) {
			s, _ := asStruct(in.X.Type())
			f := s.Field(in.Field)
			return Val{T: w.Fun("fld!"+tname(in.X.Type())+"."+f.Name(), w.SortOf(f.Type()), v)}
		}
		return Val{T: w.Acc(in.Field, v)}
	case *ssa.IndexAddr:
		i := x.term(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(fr, in.X)
			x.check(fr, st, And(Le(Zero, i), Lt(i, SLen(s))), "index out of range", in.Pos())
			return Val{Addr: &Addr{Heap: elemHeap(u.Elem()), Ref: SRef(s), Idx: Add(SOff(s), i), T: u.Elem(), Base: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.check(fr, st, And(Le(Zero, i), Lt(i, Int(at.Len()))), "index out of range", in.Pos())
			p := x.term(fr, in.X)
			return Val{Addr: &Addr{Heap: elemHeap(at.Elem()), Ref: p, Idx: i, T: at.Elem(), Base: at.Elem()}}
		}
		unsup("indexaddr %s", in.X.Type())
	case *ssa.Index:
		i := x.term(fr, in.Index)
		v := x.term(fr, in.X)
		if v.Sort == SStr {
			x.check(fr, st, And(Le(Zero, i), Lt(i, StrLen(v))), "index out of range", in.Pos())
			r := strAt(v, i)
			x.typeFacts(st, r, in.Type(), 1)
			return Val{T: r}
		}
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			x.check(fr, st, And(Le(Zero, i), Lt(i, Int(at.Len()))), "index out of range", in.Pos())
			return Val{T: Select(v, i)}
		}
		unsup("index of %s", in.X.Type())
	case *ssa.Lookup:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			m := x.term(fr, in.X)
			v, has := x.mapGet(st, mt, m, x.term(fr, in.Index))
			x.typeFacts(st, v, mt.Elem(), 1)
			val := Ite(has, v, w.ZeroOf(mt.Elem()))
			if in.CommaOk {
				return Val{Tup: []Val{{T: val}, {T: has}}}
			}
			return Val{T: val}
		}
		i := x.term(fr, in.Index)
		v := x.term(fr, in.X)
		x.check(fr, st, And(Le(Zero, i), Lt(i, StrLen(v))), "index out of range", in.Pos())
		r := strAt(v, i)
		x.typeFacts(st, r, in.Type(), 1)
		return Val{T: r}
	case *ssa.Extract:
		t := x.get(fr, in.Tuple)
		if in.Index >= len(t.Tup) {
			unsup("extract %d of %s", in.Index, in.Tuple)
		}
		return t.Tup[in.Index]
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.Convert:
		return Val{T: x.convert(st, x.term(fr, in.X), in.X.Type(), in.Type())}
	case *ssa.Range:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			return x.mapRange(st, x.term(fr, in.X), mt, fr, in)
		}
		unsup("range over %s", in.X.Type())
	}
	unsup("value %T %s", in, in)
	return Val{}
}

func zeroSort(s Sort) *Term {
	switch s {
	case SStr:
		return Str("")
	case SInt:
		return Zero
	case SBool:
		return False
	}
	if _, v, ok := arrParts(s); ok {
		return ConstArr(s, zeroSort(v))
	}
	panic("zero of " + s)
}

func (x *Exec) mapRange(st *State, m *Term, mt *types.Map, fr *Frame, in *ssa.Range) Val {
	w := x.w
	_, _, d, _ := x.mapHeaps(st, mt)
	dom := selRef(d, m)
	ks := w.SortOf(mt.Key())
	// an arbitrary enumeration of the keys
	ord := SymR(x.uniq("ord"), arr(SInt, ks), st.rank())
	pos := SymR(x.uniq("pos"), arr(ks, SInt), st.rank())
	n := Ite(Eq(m, Zero), Zero, x.card(dom))
	st.assume(Le(Zero, n))
	i, j := Bnd("?i", SInt), Bnd("?j", SInt)
	k := Bnd("?k", ks)
	_ = j
	st.assume(Quant("forall", []*Term{i}, [][]*Term{{App("select", ks, ord, i)}},
		Implies(And(Le(Zero, i), Lt(i, n)), And(App("select", SBool, dom, App("select", ks, ord, i)), Eq(App("select", SInt, pos, App("select", ks, ord, i)), i)))))
	st.assume(Implies(Not(Eq(m, Zero)), Quant("forall", []*Term{k}, [][]*Term{{App("select", SInt, pos, k)}, {App("select", SBool, dom, k)}},
		Implies(App("select", SBool, dom, k), And(Le(Zero, App("select", SInt, pos, k)), Lt(App("select", SInt, pos, k), n), Eq(App("select", ks, ord, App("select", SInt, pos, k)), k))))))
	key := fmt.Sprintf("it:%d:%s", fr.id, in.Name())
	st.ghost[key] = Zero
	return Val{It: &IterVal{Key: key, M: m, KT: mt.Key(), VT: mt.Elem(), Ord: ord, Pos: pos, N: n, Dom: dom}}
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	lo := Zero
	if in.Low != nil {
		lo = x.term(fr, in.Low)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(fr, in.X)
		hi := StrLen(s)
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		x.check(fr, st, And(Le(Zero, lo), Le(lo, hi), Le(hi, StrLen(s))), "slice bounds out of range", in.Pos())
		return Val{T: Substr(s, lo, Sub(hi, lo))}
	case *types.Slice:
		s := x.term(fr, in.X)
		hi := SLen(s)
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		if in.Max != nil {
			mx := x.term(fr, in.Max)
			x.check(fr, st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, SCap(s))), "slice bounds out of range", in.Pos())
			if in.High != nil {
				x.check(fr, st, Le(hi, SLen(s)), "slice beyond length (outside the verified subset)", in.Pos())
			}
			return Val{T: MkSlice(SRef(s), Add(SOff(s), lo), Sub(hi, lo), Sub(mx, lo))}
		}
		// reslicing beyond len (up to cap) is outside the subset: require hi <= len
		x.check(fr, st, And(Le(Zero, lo), Le(lo, hi), Le(hi, SLen(s))), "slice bounds out of range", in.Pos())
		return Val{T: MkSlice(SRef(s), Add(SOff(s), lo), Sub(hi, lo), Sub(SCap(s), lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		r := x.term(fr, in.X)
		hi := Int(at.Len())
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		x.check(fr, st, And(Le(Zero, lo), Le(lo, hi), Le(hi, Int(at.Len()))), "slice bounds out of range", in.Pos())
		return Val{T: MkSlice(r, lo, Sub(hi, lo), Sub(Int(at.Len()), lo))}
	}
	unsup("slice of %s", in.X.Type())
	return Val{}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if v.Sort == SBV || x.w.SortOf(to) == SBV {
			if v.Sort == SBV && x.w.SortOf(to) == SBV {
				return v
			}
			if v.Sort == SBV {
				return x.w.Fun("bv2i", SInt, v)
			}
			if n, ok := intVal(v); ok {
				return BVc(n)
			}
			return x.w.Fun("i2bv", SBV, v)
		}
		flo, fhi, _ := intRange(fb)
		tlo, thi, _ := intRange(tb)
		if flo != nil && tlo != nil && (flo.Cmp(tlo) < 0 || fhi.Cmp(thi) > 0) {
			if n, ok := intVal(v); ok && n.Cmp(tlo) >= 0 && n.Cmp(thi) <= 0 {
				return v
			}
			size := new(big.Int).Add(new(big.Int).Sub(thi, tlo), big.NewInt(1))
			m := App("mod", SInt, v, BigInt(size))
			if tlo.Sign() == 0 {
				return m
			}
			return Ite(Le(m, BigInt(thi)), m, Sub(m, BigInt(size)))
		}
		return v
	}
	if fok && fb.Info()&types.IsString != 0 {
		if tok && tb.Info()&types.IsString != 0 {
			return v
		}
		if ts, ok := tu.(*types.Slice); ok {
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				r := st.alloc()
				a := x.w.Fun("sbytes", arr(SInt, SInt), v)
				x.setHeap(st, elemHeap(ts.Elem()), ts.Elem(), r, a)
				st.assume(Eq(x.bstr(a, Zero, StrLen(v)), v))
				return MkSlice(r, Zero, StrLen(v), StrLen(v))
			}
		}
	}
	if fs, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if b, ok := fs.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r := x.bstr(selRef(x.heapFor(st, elemHeap(fs.Elem()), fs.Elem()), SRef(v)), SOff(v), SLen(v))
			st.assume(Eq(StrLen(r), SLen(v)))
			return r
		}
	}
	if x.w.SortOf(from) == x.w.SortOf(to) && x.w.SortOf(from) != SInt {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// bstr is the string formed by a window of a byte array.
func (x *Exec) bstr(a, o, n *Term) *Term {
	if a.Kind == 'a' && a.Op == "sbytes" && o == Zero && n == StrLen(a.Args[0]) {
		return a.Args[0]
	}
	if n == Zero {
		return Str("")
	}
	return x.w.Fun("bstr", SStr, a, o, n)
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	if a.Sort != b.Sort && op != token.SHL && op != token.SHR {
		if a.Sort == SIface && b == Zero {
			b = NilIface
		} else if b.Sort == SIface && a == Zero {
			a = NilIface
		} else if a.Sort == SSlice && b == Zero {
			b = NilSlice
		} else {
			unsup("operands of sorts %s and %s", a.Sort, b.Sort)
		}
	}
	bv := a.Sort == SBV
	switch op {
	case token.EQL, token.NEQ:
		var t *Term
		switch {
		case a.Sort == SSlice:
			if b == NilSlice {
				t = Eq(SRef(a), Zero)
			} else {
				t = Eq(SRef(b), Zero)
			}
		case a.Sort == SIface && b == NilIface:
			t = Eq(ITag(a), Zero)
		case a.Sort == SIface && a == NilIface:
			t = Eq(ITag(b), Zero)
		default:
			_, o1 := allocBase(a)
			_, o2 := allocBase(b)
			if (o1 || o2) && isPtr(xt) && (b == Zero || a == Zero || refDistinct(a, b)) {
				t = False
			} else {
				t = Eq(a, b)
			}
		}
		if op == token.NEQ {
			return Not(t)
		}
		return t
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		strict := op == token.LSS || op == token.GTR
		if a.Sort == SStr {
			if strict {
				return x.strLt(a, b)
			}
			return Not(x.strLt(b, a))
		}
		if strict {
			return Lt(a, b)
		}
		return Le(a, b)
	case token.ADD:
		if a.Sort == SStr {
			return Concat(a, b)
		}
		return x.wrapSmall(Add(a, b), rt)
	case token.SUB:
		return x.wrapSmall(Sub(a, b), rt)
	case token.MUL:
		return x.wrapSmall(Mul(a, b), rt)
	case token.QUO:
		if bv {
			return App("bvsdiv", SBV, a, b)
		}
		return goDiv(a, b)
	case token.REM:
		if bv {
			return App("bvsrem", SBV, a, b)
		}
		return goMod(a, b)
	case token.SHL:
		if bv {
			if b.Sort != SBV {
				unsup("shift by %s", b.Sort)
			}
			return App("bvshl", SBV, a, b)
		}
		if n, ok := intVal(b); ok && n.IsInt64() && n.Int64() < 62 && n.Sign() >= 0 {
			return Mul(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(n.Int64()))))
		}
	case token.SHR:
		if bv {
			if b.Sort != SBV {
				unsup("shift by %s", b.Sort)
			}
			return App("bvashr", SBV, a, b)
		}
		if n, ok := intVal(b); ok && n.IsInt64() && n.Int64() < 62 && n.Sign() >= 0 {
			return App("div", SInt, a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(n.Int64()))))
		}
	case token.AND:
		if bv {
			return App("bvand", SBV, a, b)
		}
	case token.OR:
		if bv {
			return App("bvor", SBV, a, b)
		}
	case token.XOR:
		if bv {
			return App("bvxor", SBV, a, b)
		}
	case token.AND_NOT:
		if bv {
			return App("bvand", SBV, a, App("bvnot", SBV, b))
		}
	}
	if a.Sort == SInt {
		return x.w.Fun("intop!"+op.String(), SInt, a, b)
	}
	unsup("operator %s on %s", op, a.Sort)
	return nil
}

func (x *Exec) wrapSmall(t *Term, rt types.Type) *Term {
	return t
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(*Frame, *State)) {
	w := x.w
	v := x.term(fr, in.X)
	set := func(fr *Frame, val *Term, ok *Term) {
		if in.CommaOk {
			fr.env[in] = Val{Tup: []Val{{T: val}, {T: ok}}}
		} else {
			fr.env[in] = Val{T: val}
		}
	}
	if types.IsInterface(in.AssertedType) {
		ok := w.Fun("implements!"+tname(in.AssertedType), SBool, ITag(v))
		if types.AssignableTo(in.X.Type(), in.AssertedType) {
			ok = Not(Eq(ITag(v), Zero))
		}
		if n, isn := intVal(ITag(v)); isn && n.Sign() > 0 {
			ct := w.TagType(int(n.Int64()))
			if types.AssignableTo(ct, in.AssertedType) {
				ok = True
			} else {
				ok = False
			}
		}
		ok = And(Not(Eq(ITag(v), Zero)), ok)
		if !in.CommaOk {
			x.check(fr, st, ok, "interface conversion", in.Pos())
			set(fr, v, True)
			k(fr, st)
			return
		}
		x.fork(fr, st, ok, func(fr *Frame, st *State, b bool) {
			if b {
				set(fr, v, True)
			} else {
				set(fr, NilIface, False)
			}
			k(fr, st)
		})
		return
	}
	ok := Eq(ITag(v), Int(int64(w.Tag(in.AssertedType))))
	s := w.SortOf(in.AssertedType)
	if !in.CommaOk {
		x.check(fr, st, ok, "interface conversion", in.Pos())
		u := w.Unbox(IVal(v), s)
		x.typeFacts(st, u, in.AssertedType, 1)
		set(fr, u, True)
		k(fr, st)
		return
	}
	x.fork(fr, st, ok, func(fr *Frame, st *State, b bool) {
		if b {
			u := w.Unbox(IVal(v), s)
			x.typeFacts(st, u, in.AssertedType, 1)
			set(fr, u, True)
		} else {
			set(fr, w.ZeroOf(in.AssertedType), False)
		}
		k(fr, st)
	})
}

func (x *Exec) fork(fr *Frame, st *State, c *Term, k func(*Frame, *State, bool)) {
	if c == True {
		k(fr, st, true)
		return
	}
	if c == False {
		k(fr, st, false)
		return
	}
	t := x.feasible(st, c)
	f := true
	if t {
		f = x.feasible(st, Not(c))
	}
	if t && f {
		fr2, st2 := fr.clone(), st.clone()
		st2.branch(c)
		k(fr2, st2, true)
		st.branch(Not(c))
		k(fr, st, false)
	} else if t {
		st.assume(c)
		k(fr, st, true)
	} else {
		st.assume(Not(c))
		k(fr, st, false)
	}
}

// hide gives the definitions the obligations of the function do not look into.
func (x *Exec) hide() map[string]bool {
	if x.con == nil {
		return nil
	}
	return x.con.Hide
}
