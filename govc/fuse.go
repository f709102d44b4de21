package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Short-circuit conditions are one branch, not two: `if a && b` compiles to two
// tests that share a successor. Executing both tests before branching halves
// the paths. The second test must be free of effects; whatever it proves about
// its operands is kept under the first condition.

type probe struct {
	blk *ssa.BasicBlock
	n   int
	fr  *Frame
	st  *State
	c   *Term
}

// onlyTests: the block computes a condition and nothing else
func onlyTests(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 {
		return false
	}
	for i, in := range b.Instrs {
		if i == len(b.Instrs)-1 {
			_, ok := in.(*ssa.If)
			return ok
		}
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.ChangeType:
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
		default:
			return false
		}
	}
	return false
}

func hasPhi(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

// fuse executes the test blocks that follow b's condition c and share one of
// its successors; it reports false when there is nothing to fuse.
func (x *Exec) fuse(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) bool {
	try := func(next, shared *ssa.BasicBlock, c *Term) bool {
		body := x.V.loopsOf(fr.fn)
		if !onlyTests(next) || hasPhi(shared) || next == shared || body[next] != nil || body[shared] != nil {
			return false
		}
		if n := len(fr.loops); n > 0 && (!fr.loops[n-1].body[next] || !fr.loops[n-1].body[shared]) {
			return false
		}
		var to *ssa.BasicBlock
		neg := false
		switch shared {
		case next.Succs[0]:
			to, neg = next.Succs[1], true
		case next.Succs[1]:
			to = next.Succs[0]
		default:
			return false
		}
		if to == shared {
			return false
		}
		f2, s2 := fr.clone(), st.clone()
		s2.branch(c)
		old := x.probe
		p := &probe{blk: next}
		x.probe = p
		obls := len(x.obls)
		x.run(f2, s2, next, 0)
		x.probe = old
		if p.n != 1 || len(x.obls) != obls || p.st.k != st.k || p.st.epoch != st.epoch || p.st.A != st.A || len(p.st.heaps) != len(s2.heaps) {
			return false
		}
		for h, t := range p.st.heaps {
			if o, ok := st.heaps[h]; ok && o != t {
				return false
			}
		}
		for h, t := range p.st.ghost {
			if st.ghost[h] != t {
				return false
			}
		}
		c2 := p.c
		if neg {
			c2 = Not(c2)
		}
		if c2 == True || c2 == False {
			return false
		}
		// what the tests learned holds whenever they run
		base := len(st.facts) + 1
		if len(p.st.facts) < base {
			return false
		}
		sh := st.clone()
		for _, f := range p.st.facts[base:] {
			sh.assume(Implies(c, f))
		}
		if x.feasible(p.st, c2) {
			ft, stt := p.fr, p.st.clone()
			stt.branch(c2)
			x.enter(ft, stt, to, next)
		}
		nc := Not(And(c, c2))
		if x.feasible(sh, nc) {
			sh.branch(nc)
			x.enter(fr, sh, shared, b)
		}
		return true
	}
	return try(b.Succs[0], b.Succs[1], c) || try(b.Succs[1], b.Succs[0], Not(c))
}
