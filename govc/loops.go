package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are cut at their head. The heaps and variables a loop may change are
// replaced by fresh ones; what is assumed about them is a set of candidate
// invariants (from the code's comparisons and from loopinv templates of the
// contract) from which every candidate that does not hold on entry or is not
// preserved by the body is removed until the rest is inductive (Houdini).
// The body is explored without emitting obligations while candidates are
// being removed, and once more with obligations when the set is inductive.

type loopCand struct {
	name string
	user bool
	err  any
	eval func(st *State, phi func(*ssa.Phi) Val) *Term
}

type heapFrame struct {
	all bool
	low bool // what is written was allocated since the function was entered, perhaps before the loop
	exc []*Term
	ver int
}

// loopStable: the term only mentions symbols that existed at the loop entry.
func loopStable(t *Term, er int) bool {
	ok := true
	walk([]*Term{t}, func(s *Term) {
		if s.Kind == 'v' && s.rank > er || s.Kind == 'b' {
			ok = false
		}
	})
	return ok
}

// unroll executes one pass over the head of a loop whose condition is decided
// literally there (a range over a list written out in the code); after a dozen
// passes the loop is cut like any other.
func (x *Exec) unroll(fr *Frame, st *State, head, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	if x.V.noUnroll {
		return false
	}
	for i, in := range head.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			switch in.Op {
			case token.ADD, token.SUB, token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				continue
			}
			return false
		case *ssa.If:
			if i != len(head.Instrs)-1 {
				return false
			}
			continue
		}
		return false
	}
	n := 0
	if body[prev] {
		n = fr.unr[head]
	}
	if n >= 12 {
		return false
	}
	f2, s2 := fr.clone(), st.clone()
	for p, v := range x.phiVals(fr, head, prev) {
		f2.env[p] = v
	}
	old := x.probe
	p := &probe{blk: head}
	x.probe = p
	obls := len(x.obls)
	x.run(f2, s2, head, 0)
	x.probe = old
	if p.n != 1 || len(x.obls) != obls || p.c != True && p.c != False {
		return false
	}
	if p.fr.unr == nil {
		p.fr.unr = map[*ssa.BasicBlock]int{}
	}
	p.fr.unr[head] = n + 1
	to := head.Succs[0]
	if p.c == False {
		to = head.Succs[1]
	}
	x.enter(p.fr, p.st, to, head)
	return true
}

func (x *Exec) runLoop(fr *Frame, st *State, head, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].head == head {
		unsup("loop re-entered")
	}
	x.loopN++
	lid := fmt.Sprintf("%d.%d", x.id, x.loopN)
	inits := x.phiVals(fr, head, prev)
	var phis []*ssa.Phi
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if inits[p].T == nil {
			unsup("loop-carried address %s", p.Name())
		}
		phis = append(phis, p)
	}
	W := x.loopMods(body, fr)
	er := 2*st.epoch + 1
	frames := map[string]*heapFrame{}
	for h, s := range W {
		x.heap(st, h, s)
		frames[h] = &heapFrame{}
	}
	// map iterations advanced by this loop
	var iters []*IterVal
	for b := range body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, ok := fr.env[n.Iter]; ok && v.It != nil {
					if r, ok := n.Iter.(*ssa.Range); ok && !body[r.Block()] {
						iters = append(iters, v.It)
					}
				}
			}
		}
	}
	refFlag := map[*ssa.Phi]bool{} // reference of the phi is nil, initial or allocated by the loop
	for _, p := range phis {
		switch p.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map:
			refFlag[p] = true
		}
	}
	cands := x.loopCands(fr, st, phis, inits, body, iters)
	initVal := func(p *ssa.Phi) Val { return inits[p] }
	// hold on entry?
	var alive []*loopCand
	for _, c := range cands {
		t := c.tryEval(st, initVal)
		if t == nil {
			if x.V.debug && c.user {
				fmt.Printf("    [loop %s] cannot state %s: %v\n", lid, c.name, c.err)
			}
			continue
		}
		if x.onEntry(st, t, c.user) {
			alive = append(alive, c)
		} else if x.V.debug && c.user && x.dry == 0 {
			fmt.Printf("    [loop %s] not on entry: %s\n", lid, c.name)
			if os.Getenv("GOVC_DUMP") != "" {
				os.WriteFile("/tmp/entry.smt2", []byte("(set-logic ALL)\n"+x.V.queryTextH(x.w, st.facts, Not(t), 2, x.hide())+"(check-sat)\n"), 0644)
			}
		}
	}
	refOf := func(t *Term) *Term {
		if t.Sort == SSlice {
			return SRef(t)
		}
		return t
	}
	// havoc to the loop head
	headState := func(round int) (*Frame, *State, map[*ssa.Phi]Val, map[string]*Term) {
		s1 := st.clone()
		f1 := fr.clone()
		x.newEpoch(s1)
		hs := map[string]*Term{}
		for _, h := range sortedKeys(W) {
			f := frames[h]
			old := s1.heaps[h]
			n := SymR(fmt.Sprintf("L!%s!%s!%d", h, lid, f.ver), W[h], s1.rank())
			n.isHeap = true
			n.top, n.el = s1.A, x.heapElem(h)
			n.parent, n.exc, n.lim = nil, nil, st.cur()
			if !f.all {
				n.parent, n.fRank, n.exc = old, er, append([]*Term{}, f.exc...)
				if f.low {
					n.fRank, n.lim, n.low = 2*x.entry.epoch, x.entry.cur(), true
				}
			}
			s1.heaps[h] = n
			hs[h] = n
		}
		pv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			t := x.freshTerm(s1, fmt.Sprintf("phi!%s.%s", p.Name(), lid), x.w.SortOf(p.Type()))
			if refFlag[p] {
				if r := refOf(t); r.Kind == 'v' {
					r.frMin = er
					if i := refOf(inits[p].T); i != Zero {
						r.frExc = []*Term{i}
					}
				}
			}
			x.typeFacts(s1, t, p.Type(), 2)
			pv[p] = Val{T: t, Fn: nil}
			f1.env[p] = pv[p]
		}
		for i, it := range iters {
			c := SymR(x.uniq(fmt.Sprintf("it!%s.%d", lid, i)), SInt, s1.rank())
			s1.ghost[it.Key] = c
			s1.assume(Le(Zero, c))
			s1.assume(Le(c, it.N))
		}
		for _, c := range alive {
			if t := c.tryEval(s1, func(p *ssa.Phi) Val { return pv[p] }); t != nil {
				s1.assume(t)
			}
		}
		return f1, s1, pv, hs
	}
	var classify func(h string, r *Term, s1 *State) bool // true: frame unchanged
	classify = func(h string, r *Term, s1 *State) bool {
		f := frames[h]
		if r.Kind == 'a' && r.Op == "ite" {
			a := classify(h, r.Args[1], s1)
			b := classify(h, r.Args[2], s1)
			return a && b
		}
		if b, ok := allocBase(r); ok && b.rank > er {
			return true
		}
		if r.Kind == 'v' && r.frMin >= er && r.frMin > 0 {
			ok := true
			for _, e := range r.frExc {
				ok = classify(h, e, s1) && ok
			}
			return ok
		}
		for _, e := range f.exc {
			if e == r {
				return true
			}
		}
		if loopStable(r, er) && len(f.exc) < 12 {
			f.exc = append(f.exc, r)
			f.ver++
			return false
		}
		if x.entry != nil && x.con != nil && len(x.con.LoopInv) > 0 && x.entails(s1, Or(Eq(r, Zero), Le(x.entry.cur(), r)), 1000) {
			if f.low {
				return true
			}
			f.low = true
			f.ver++
			return false
		}
		f.all = true
		f.ver++
		return false
	}
	checkHeap := func(h string, endH, headH *Term, s1 *State) bool {
		f := frames[h]
		ok := true
		for endH != headH {
			if f.all {
				return ok
			}
			switch {
			case endH.Kind == 'a' && endH.Op == "store":
				ok = classify(h, endH.Args[1], s1) && ok
				endH = endH.Args[0]
			case endH.Kind == 'v' && endH.parent != nil:
				if endH.low && !f.low {
					f.low = true
					f.ver++
					ok = false
				}
				for _, e := range endH.exc {
					ok = classify(h, e, s1) && ok
				}
				endH = endH.parent
			default:
				f.all = true
				f.ver++
				return false
			}
		}
		return ok
	}
	okRef := func(p *ssa.Phi, cur, next *Term) bool {
		var rec func(r *Term) bool
		init := refOf(inits[p].T)
		rec = func(r *Term) bool {
			if r == Zero || r == init || r == cur {
				return true
			}
			if r.Kind == 'a' && r.Op == "ite" {
				return rec(r.Args[1]) && rec(r.Args[2])
			}
			if b, ok := allocBase(r); ok && b.rank > er {
				return true
			}
			if r.Kind == 'v' && r.frMin >= er && r.frMin > 0 {
				for _, e := range r.frExc {
					if !rec(e) {
						return false
					}
				}
				return true
			}
			return false
		}
		return rec(next)
	}
	noop := func(*Frame, *State, *ssa.BasicBlock, *ssa.BasicBlock) {}
	for round := 0; ; round++ {
		if round > 60 {
			unsup("loop invariant inference does not settle")
		}
		stable := true
		f1, s1, pv, hs := headState(round)
		f1.k = func(*State, []Val) {}
		if f1.panics != nil {
			f1.panics = func(*State, *Term) {}
		}
		dead := map[*loopCand]bool{}
		end := func(_ *Frame, se *State, next map[*ssa.Phi]*Term) {
			for _, h := range sortedKeys(W) {
				if !checkHeap(h, se.heaps[h], hs[h], se) {
					stable = false
				}
			}
			// heaps outside the static write set must be untouched
			for h, t := range se.heaps {
				if _, ok := W[h]; !ok {
					if o, ok := s1.heaps[h]; ok && o != t {
						unsup("internal: heap %s written outside the static write set of the loop", h)
					}
				}
			}
			for _, p := range phis {
				if refFlag[p] && !okRef(p, refOf(pv[p].T), refOf(next[p])) {
					refFlag[p] = false
					stable = false
				}
			}
			nv := func(p *ssa.Phi) Val { return Val{T: next[p], Fn: x.fnOf(next[p])} }
			var todo []*Term
			var cs []*loopCand
			for _, c := range alive {
				if dead[c] {
					continue
				}
				t := c.tryEval(se, nv)
				if t == nil || t == False {
					if x.V.debug && c.user && t == nil {
						fmt.Printf("    [loop %s] cannot state again %s: %v\n", lid, c.name, c.err)
					}
					dead[c] = true
					continue
				}
				if t != True {
					todo = append(todo, t)
					cs = append(cs, c)
				}
			}
			if len(todo) == 0 {
				return
			}
			if !stable {
				return // the frames still move: there is another round
			}
			quick := make([]bool, len(todo))
			proved := map[string]bool{} // clauses one of whose bindings holds
			for i, t := range todo {
				quick[i] = x.entails(se, t, 2500)
				if quick[i] {
					proved[clauseOf(cs[i].name)] = true
				}
			}
			for i, t := range todo {
				if !quick[i] && cs[i].user && !proved[clauseOf(cs[i].name)] && x.entailsH(se, t, 2500, true) {
					quick[i] = true
					proved[clauseOf(cs[i].name)] = true
				}
				if !quick[i] {
					dead[cs[i]] = true
					if os.Getenv("GOVC_DUMP") != "" && cs[i].user {
						dumpN++
						x.splitGoal(se, se.facts, t, func(fs []*Term, g *Term) {
							if x.V.sol.Quick(x.V.queryTextH(x.w, fs, Not(g), 2, x.hide()), 2500) != Unsat {
								os.WriteFile(fmt.Sprintf("/tmp/drop%d.smt2", dumpN), []byte("; "+cs[i].name+"\n(set-logic ALL)\n"+x.V.queryTextH(x.w, fs, Not(g), 2, x.hide())+"(check-sat)\n"), 0644)
							}
						})
					}
				}
			}
		}
		f1.loops = append(f1.loops, &loopCtx{head: head, body: body, end: end, exit: noop})
		x.dry++
		x.run(f1, s1, head, 0)
		x.dry--
		if len(dead) > 0 {
			stable = false
			var keep []*loopCand
			for _, c := range alive {
				if !dead[c] {
					keep = append(keep, c)
				} else if x.V.debug && c.user {
					fmt.Printf("    [loop %s] dropped %s\n", lid, c.name)
				}
			}
			alive = keep
		}
		if stable {
			break
		}
	}
	if x.dry == 0 {
		x.invs += len(alive)
		x.loopsN++
		if x.V.debug {
			for _, c := range alive {
				fmt.Printf("    [loop %s] invariant %s\n", lid, c.name)
			}
			for _, h := range sortedKeys(W) {
				if frames[h].all {
					fmt.Printf("    [loop %s] unframed %s\n", lid, h)
				}
			}
		}
	}
	f1, s1, _, _ := headState(1000)
	f1.loops = append(f1.loops, &loopCtx{head: head, body: body,
		end: func(*Frame, *State, map[*ssa.Phi]*Term) {},
		exit: func(f *Frame, s *State, b, pr *ssa.BasicBlock) {
			f.loops = f.loops[:len(f.loops)-1]
			x.enter(f, s, b, pr)
		}})
	x.run(f1, s1, head, 0)
}

// onEntry: the candidate holds where the loop is entered. Most of the derived
// candidates that do not hold are refuted by the facts at once.
func (x *Exec) onEntry(st *State, t *Term, user bool) bool {
	if user || t == True || topQuant(t) {
		return x.entails(st, t, 2500)
	}
	if negLen(t) {
		return false
	}
	if x.entails(st, t, 300) {
		return true
	}
	if x.entails(st, Not(t), 300) {
		return false
	}
	return x.entails(st, t, 2500)
}

// negLen: a length is at most some negative number
func negLen(t *Term) bool {
	if t.Kind == 'a' && t.Op == "not" && t.Args[0].Kind == 'a' && t.Args[0].Op == "<" {
		l := t.Args[0]
		return negLit(l.Args[0]) && isLen(l.Args[1])
	}
	if t.Kind == 'a' && (t.Op == "<" || t.Op == "<=") {
		return negLit(t.Args[1]) && isLen(t.Args[0])
	}
	return false
}

func negLit(t *Term) bool { return t.Kind == 'l' && strings.HasPrefix(t.Op, "(- ") }

func isLen(t *Term) bool {
	return t.Kind == 'a' && t.Op == "s_len" || t.Kind == 'v' && strings.Contains(t.Op, ".len!")
}

func (c *loopCand) tryEval(st *State, phi func(*ssa.Phi) Val) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case SpecError, Unsupported:
				t = nil
				c.err = r
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, phi)
}

// step: how the loop changes an integer variable (+1, -1, 0 unknown)
func phiStep(p *ssa.Phi, body map[*ssa.BasicBlock]bool) int {
	s := 0
	for i, e := range p.Edges {
		if !body[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != p {
			return 0
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.ExactString() != "1" {
			return 0
		}
		d := 0
		if b.Op == token.ADD {
			d = 1
		} else if b.Op == token.SUB {
			d = -1
		}
		if d == 0 || s != 0 && s != d {
			return 0
		}
		s = d
	}
	return s
}

var dumpN int

type provider struct {
	name string
	typ  types.Type
	get  func(st *State, phi func(*ssa.Phi) Val) SV
	iter bool
	phi  bool // carried by the loop
	cell bool // held in a cell
	over bool // a slice whose length bounds the loop

	mapit bool
}

func (x *Exec) loopCands(fr *Frame, st *State, phis []*ssa.Phi, inits map[*ssa.Phi]Val, body map[*ssa.BasicBlock]bool, iters []*IterVal) []*loopCand {
	var out []*loopCand
	add := func(name string, f func(st *State, phi func(*ssa.Phi) Val) *Term) {
		out = append(out, &loopCand{name: name, eval: f})
	}
	var provs []*provider
	isInt := func(t types.Type) bool { return x.w.SortOf(t) == SInt && isIntegerType(t) }
	type ctr struct {
		name string
		get  func(st *State, phi func(*ssa.Phi) Val) *Term
	}
	var ctrs []ctr
	for _, p := range phis {
		p := p
		init := inits[p].T
		if isInt(p.Type()) {
			s := phiStep(p, body)
			if s >= 0 {
				add(p.Name()+" >= init", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Le(init, phi(p).T) })
			}
			if s <= 0 {
				add(p.Name()+" <= init", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Le(phi(p).T, init) })
			}
			if s == 1 {
				ctrs = append(ctrs, ctr{p.Name() + "-init", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Sub(phi(p).T, init) }})
			} else if s == -1 {
				ctrs = append(ctrs, ctr{"init-" + p.Name(), func(_ *State, phi func(*ssa.Phi) Val) *Term { return Sub(init, phi(p).T) }})
			}
		}
	}
	for _, it := range iters {
		it := it
		ctrs = append(ctrs, ctr{"iterations", func(st *State, _ func(*ssa.Phi) Val) *Term { return st.ghost[it.Key] }})
	}
	// equal counters
	for i := range ctrs {
		for j := 0; j < i; j++ {
			a, b := ctrs[i], ctrs[j]
			add(a.name+" == "+b.name, func(st *State, phi func(*ssa.Phi) Val) *Term { return Eq(a.get(st, phi), b.get(st, phi)) })
		}
	}
	// lengths
	for _, p := range phis {
		p := p
		if x.w.SortOf(p.Type()) == SSlice {
			init := inits[p].T
			add("off "+p.Name(), func(_ *State, phi func(*ssa.Phi) Val) *Term { return Eq(SOff(phi(p).T), SOff(init)) })
			add("len "+p.Name()+" >= init", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Le(SLen(init), SLen(phi(p).T)) })
			for _, c := range ctrs {
				c := c
				add("len "+p.Name()+" == init+"+c.name, func(st *State, phi func(*ssa.Phi) Val) *Term {
					return Eq(SLen(phi(p).T), Add(SLen(init), c.get(st, phi)))
				})
				add("len "+p.Name()+" <= init+"+c.name, func(st *State, phi func(*ssa.Phi) Val) *Term {
					return Le(SLen(phi(p).T), Add(SLen(init), c.get(st, phi)))
				})
			}
		}
	}
	// comparisons of the body against loop-invariant values
	inv := func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Const:
			return x.constTerm(v.Value, v.Type())
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if in, ok := v.Call.Args[0].(ssa.Instruction); ok && body[in.Block()] {
					return nil
				}
				if a, ok := fr.env[v.Call.Args[0]]; ok && a.T != nil {
					switch a.T.Sort {
					case SStr:
						return StrLen(a.T)
					case SSlice:
						return SLen(a.T)
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return nil
		}
		if a, ok := fr.env[v]; ok && a.T != nil {
			return a.T
		}
		return nil
	}
	phiOf := func(v ssa.Value) *ssa.Phi {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, c := b.Y.(*ssa.Const); c {
				v = b.X
			}
		}
		if p, ok := v.(*ssa.Phi); ok {
			if _, ok := inits[p]; ok {
				return p
			}
		}
		return nil
	}
	seen := map[string]bool{}
	bounds := map[*Term]bool{} // what iterations are compared with
	for _, b := range sortedBlocks(body) {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for k := 0; k < 2; k++ {
				a, c := bo.X, bo.Y
				if k == 1 {
					a, c = c, a
				}
				p := phiOf(a)
				t := inv(c)
				if p == nil || t == nil || t.Sort != SInt || !isInt(p.Type()) {
					continue
				}
				bounds[t] = true
				key := fmt.Sprintf("%s|%d", p.Name(), t.ID)
				if seen[key] {
					continue
				}
				seen[key] = true
				add(p.Name()+" < bound", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Lt(phi(p).T, t) })
				add(p.Name()+" <= bound", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Le(phi(p).T, t) })
				add(p.Name()+" > bound", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Lt(t, phi(p).T) })
				add(p.Name()+" >= bound", func(_ *State, phi func(*ssa.Phi) Val) *Term { return Le(t, phi(p).T) })
			}
		}
	}
	// templates
	if x.con == nil {
		return out
	}
	for _, c := range ctrs {
		c := c
		provs = append(provs, &provider{name: c.name, typ: intTyp, iter: true, get: func(st *State, phi func(*ssa.Phi) Val) SV {
			return SV{T: c.get(st, phi), Typ: intTyp}
		}})
	}
	for _, it := range iters {
		it := it
		provs = append(provs, &provider{name: it.Key, typ: types.Typ[types.Int], mapit: true, get: func(st *State, phi func(*ssa.Phi) Val) SV {
			return SV{It: it, T: st.ghost[it.Key]}
		}})
	}
	for _, p := range phis {
		p := p
		provs = append(provs, &provider{name: p.Name(), typ: p.Type(), phi: true, get: func(_ *State, phi func(*ssa.Phi) Val) SV {
			v := phi(p)
			return SV{T: v.T, Typ: p.Type(), Fn: v.Fn}
		}})
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	done := map[string]bool{}
	type ev struct {
		v  ssa.Value
		fr *Frame
	}
	var evs []ev
	for f := fr; f != nil; f = f.up {
		for _, v := range sortedEnv(f) {
			evs = append(evs, ev{v, f})
		}
		if !strings.HasPrefix(f.fn.Name(), "verif") {
			break // only models see the variables of their caller
		}
	}
	for _, ve := range evs {
		v := ve.v
		if isPhi[v] {
			continue
		}
		val := ve.fr.env[v]
		if val.It != nil || val.Tup != nil {
			continue
		}
		if val.T != nil {
			k := fmt.Sprintf("%d|%s", val.T.ID, tname(v.Type()))
			if done[k] {
				continue
			}
			done[k] = true
		}
		if val.T != nil || val.Addr != nil {
			provs = append(provs, &provider{name: v.Name(), typ: v.Type(), over: val.T != nil && val.T.Sort == SSlice && bounds[SLen(val.T)], get: func(*State, func(*ssa.Phi) Val) SV {
				return SV{T: val.T, Addr: val.Addr, Fn: val.Fn, Typ: v.Type()}
			}})
		}
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			_, isAlloc := v.(*ssa.Alloc)
			_, isFree := v.(*ssa.FreeVar)
			if isAlloc || isFree {
				provs = append(provs, &provider{name: "*" + v.Name(), typ: pt.Elem(), cell: true, get: func(st *State, _ func(*ssa.Phi) Val) SV {
					return SV{T: x.load(st, x.addrOf(val, pt.Elem())), Typ: pt.Elem()}
				}})
			}
		}
	}
	pre := st.clone()
	pkg := x.specPkg()
	for _, cl := range x.con.LoopInv {
		if cl.In != "" && loopCalls(body, strings.TrimPrefix(cl.In, "!"), fr.fn.Pkg, map[*ssa.Function]bool{}) == strings.HasPrefix(cl.In, "!") {
			continue
		}
		if !cl.applies(x.V.prop) {
			continue
		}
		var opts [][]*provider
		n := 1
		for _, vr := range cl.Vars {
			var os []*provider
			if vr.Type == "iter" {
				for _, p := range provs {
					if p.iter {
						os = append(os, p)
					}
				}
			} else if vr.Type == "miter" {
				for _, p := range provs {
					if p.mapit {
						os = append(os, p)
					}
				}
			} else {
				vt, want := vr.Type, 0
				if strings.HasPrefix(vt, "phi ") {
					vt, want = vt[4:], 1
				} else if strings.HasPrefix(vt, "fix ") {
					vt, want = vt[4:], 2
				} else if strings.HasPrefix(vt, "over ") {
					vt, want = vt[5:], 3
				}
				t, err := x.V.resolveType(pkg, vt)
				if err != nil {
					panic(SpecError{cl.Pos + ": " + err.Error()})
				}
				for _, p := range provs {
					if want == 1 && !p.phi && !p.cell || want == 2 && p.phi || want == 3 && !p.over {
						continue
					}
					if !p.iter && !p.mapit && types.Identical(types.Unalias(p.typ), types.Unalias(t)) {
						os = append(os, p)
					}
				}
			}
			opts = append(opts, os)
			n *= len(os)
		}
		if n > 400 {
			n = 400
		}
		for i := 0; i < n; i++ {
			sel := make([]*provider, len(opts))
			k := i
			name := cl.Text
			usesLoop := len(opts) == 0
			for j := range opts {
				sel[j] = opts[j][k%len(opts[j])]
				k /= len(opts[j])
				name += fmt.Sprintf(" [%s=%s]", cl.Vars[j].Name, sel[j].name)
			}
			_ = usesLoop
			cl := cl
			out = append(out, &loopCand{name: name, user: true, eval: func(s *State, phi func(*ssa.Phi) Val) *Term {
				vars := map[string]SV{}
				pvars := map[string]SV{}
				for k, v := range x.pvars {
					vars[k] = v
					pvars[k] = v
				}
				for j := range sel {
					vars[cl.Vars[j].Name] = sel[j].get(s, phi)
					pvars[cl.Vars[j].Name] = sel[j].get(pre, func(p *ssa.Phi) Val { return inits[p] })
				}
				ev := &Env{x: x, vars: vars, st: s, old: x.entry, pkg: pkg, goal: true}
				ev.pre = &Env{x: x, vars: pvars, st: pre, old: x.entry, pkg: pkg, goal: true}
				return ev.Bool(cl.E)
			}})
		}
	}
	return out
}

func isIntegerType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var fn *ssa.Function
	for b := range m {
		fn = b.Parent()
	}
	var r []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if m[b] {
			r = append(r, b)
		}
	}
	return r
}

// sortedEnv lists the available values in a deterministic order.
func sortedEnv(fr *Frame) []ssa.Value {
	var r []ssa.Value
	for _, p := range fr.fn.Params {
		r = append(r, p)
	}
	for _, p := range fr.fn.FreeVars {
		r = append(r, p)
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := fr.env[v]; ok {
					r = append(r, v)
				}
			}
		}
	}
	return r
}

func (x *Exec) specPkg() *types.Package {
	if x.con != nil && x.con.Pkg != "" {
		if p := x.V.pkgByPath(x.con.Pkg); p != nil {
			return p
		}
	}
	if x.fn != nil {
		return pkgOf(x.fn)
	}
	return nil
}

// clauseOf is the text of a candidate without its binding
func clauseOf(name string) string {
	if i := strings.Index(name, " ::: "); i >= 0 {
		if j := strings.LastIndex(name, " ["); j > i {
			for {
				k := strings.LastIndex(name[:j], " [")
				if k < i || !strings.HasSuffix(strings.TrimSpace(name[k:j]), "]") || !strings.Contains(name[k:j], "=") {
					break
				}
				j = k
			}
			return name[:j]
		}
	}
	return name
}

// loopCalls: the loop calls the function, possibly through helpers of the package
func loopCalls(body map[*ssa.BasicBlock]bool, name string, pkg *ssa.Package, seen map[*ssa.Function]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil {
				if c.Common().IsInvoke() && c.Common().Method.Name() == name {
					return true
				}
				continue
			}
			if f.Name() == name {
				return true
			}
			if f.Pkg == pkg && pkg != nil && !seen[f] {
				seen[f] = true
				all := map[*ssa.BasicBlock]bool{}
				for _, b := range f.Blocks {
					all[b] = true
				}
				if loopCalls(all, name, pkg, seen) {
					return true
				}
			}
		}
	}
	return false
}
