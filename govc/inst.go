package main

import (
	"go/types"
	"sort"
	"strings"
)

// Ground instances of universally quantified facts whose trigger is an array
// access at "offset + variable": the solvers' matching is purely syntactic and
// misses an access at "offset + x + 1".

func linVar(idx, v *Term) (rest *Term, ok bool) {
	base, c := splitAdd(idx)
	if base == nil {
		return nil, false
	}
	if base == v {
		return BigInt(c), true
	}
	if base.Kind == 'a' && base.Op == "+" && len(base.Args) == 2 {
		if base.Args[1] == v && !base.Args[0].bound {
			return Add(base.Args[0], BigInt(c)), true
		}
		if base.Args[0] == v && !base.Args[1].bound {
			return Add(base.Args[1], BigInt(c)), true
		}
	}
	return nil, false
}

func (v *V) instances(ts []*Term) (out []*Term) {
	ground := map[*Term][]*Term{}
	seenSel := map[*Term]bool{}
	scan := func(ts []*Term) {
		walk(ts, func(t *Term) {
			if t.Kind == 'a' && t.Op == "select" && !t.bound && !seenSel[t] && t.Args[1].Sort == SInt {
				seenSel[t] = true
				ground[t.Args[0]] = append(ground[t.Args[0]], t.Args[1])
			}
		})
	}
	var foralls []*Term
	seenQ := map[*Term]bool{}
	var addQ func(t *Term)
	addQ = func(t *Term) {
		switch {
		case t.Kind == 'a' && t.Op == "and":
			for _, a := range t.Args {
				addQ(a)
			}
		case t.Kind == 'q' && t.Op == "forall" && len(t.Vars) <= 2 && !t.bound && !seenQ[t]:
			seenQ[t] = true
			foralls = append(foralls, t)
		}
	}
	for _, t := range ts {
		addQ(t)
	}
	if len(foralls) == 0 {
		return nil
	}
	scan(ts)
	done := map[*Term]bool{}
	for round := 0; round < 2; round++ {
		var fresh []*Term
		for _, q := range foralls {
			for _, p := range q.Pats {
				if len(p) != len(q.Vars) {
					continue
				}
				// which variable each trigger term fixes
				cand := map[*Term][]*Term{}
				good, shifted := true, false
				for _, pt := range p {
					if pt.Kind != 'a' || pt.Op != "select" || pt.Args[0].bound {
						good = false
						break
					}
					found := false
					for _, qv := range q.Vars {
						if cand[qv] != nil {
							continue
						}
						rest, ok := linVar(pt.Args[1], qv)
						if !ok {
							continue
						}
						found = true
						if rest != Zero {
							shifted = true
						}
						cs := []*Term{}
						for _, g := range ground[pt.Args[0]] {
							cs = append(cs, Sub(g, rest))
						}
						cand[qv] = cs
						break
					}
					if !found {
						good = false
						break
					}
				}
				if !good || !shifted {
					continue
				}
				n := 1
				for _, qv := range q.Vars {
					n *= len(cand[qv])
				}
				if n == 0 || n > 64 {
					continue
				}
				emit := func(m map[*Term]*Term) {
					t := Subst(q.Args[0], m)
					if t != True && !done[t] && !t.bound {
						done[t] = true
						fresh = append(fresh, t)
					}
				}
				for _, a := range cand[q.Vars[0]] {
					if len(q.Vars) == 1 {
						emit(map[*Term]*Term{q.Vars[0]: a})
						continue
					}
					for _, b := range cand[q.Vars[1]] {
						emit(map[*Term]*Term{q.Vars[0]: a, q.Vars[1]: b})
					}
				}
			}
		}
		if len(fresh) == 0 || len(out) > 400 {
			break
		}
		out = append(out, fresh...)
		scan(fresh)
	}
	return out
}

// frameFacts links accesses through a havocked heap to the heap it replaced (for
// references that existed before), and bounds the references read from a heap.
func (v *V) frameFacts(ts []*Term) (out []*Term) {
	seen := map[*Term]bool{}
	ptrTags := func(t *Term) *Term {
		var cs []*Term
		v.w.mu.Lock()
		for k, ty := range v.w.tagT {
			switch ty.Underlying().(type) {
			case *types.Pointer, *types.Map:
				cs = append(cs, Eq(t, Int(int64(k))))
			}
		}
		v.w.mu.Unlock()
		sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
		return Or(cs...)
	}
	index := map[*Term]bool{} // terms used as references
	done := map[*Term]bool{}
	linked := false
	type rowOf struct {
		t, h *Term
		ks   Sort
	}
	front := ts
	for round := 0; round < 8 && len(front) > 0 && len(out) < 600; round++ {
		walk(front, func(t *Term) {
			if t.Kind == 'a' && t.Op == "select" && !t.bound && t.Args[1].Sort == SInt {
				index[t.Args[1]] = true
			}
		})
		var fresh []*Term
		var rows []rowOf
		emit := func(t *Term) {
			if t != True && !done[t] {
				done[t] = true
				fresh = append(fresh, t)
			}
		}
		walk(append(append([]*Term{}, ts...), out...), func(t *Term) {
			if t.Kind != 'a' || t.Op != "select" || t.bound {
				return
			}
			a, i := t.Args[0], t.Args[1]
			// a read behind writes elsewhere: name the read of the base
			if a.Kind == 'a' && a.Op == "store" && i.Sort == SInt && (t.Sort == SInt && index[t] || t.Sort == SSlice && index[SRef(t)]) {
				root := a
				var eqs []*Term
				for root.Kind == 'a' && root.Op == "store" && len(eqs) < 6 {
					eqs = append(eqs, Eq(i, root.Args[1]))
					root = root.Args[0]
				}
				if root.Kind == 'v' && root.isHeap && root.el != nil {
					b := App("select", t.Sort, root, i)
					if t.Sort == SInt {
						index[b] = true
					} else {
						index[SRef(b)] = true
					}
					emit(Or(append(eqs, Eq(t, b))...))
				}
			}
			if a.Kind == 'v' && a.isHeap && a.top != nil && a.el != nil {
				if ks, _, arr := arrParts(t.Sort); arr {
					rows = append(rows, rowOf{t, a, ks})
				}
			}
			if !seen[t] && a.Kind == 'v' && a.parent != nil && a.lim != nil && i.rank > a.fRank {
				seen[t] = true
				c := []*Term{Lt(i, a.lim)}
				for _, e := range a.exc {
					if !refDistinct(e, i) {
						c = append(c, Not(Eq(i, e)))
					}
				}
				if g := And(c...); g != False {
					b := selRef(a.parent, i)
					emit(Implies(g, Eq(t, b)))
					if b.Kind == 'a' && b.Op == "select" { // what the old heap holds is allocated in it
						if t.Sort == SSlice && index[SRef(t)] {
							index[SRef(b)] = true
						} else if t.Sort == SInt && index[t] {
							index[b] = true
						}
					}
					if strings.HasPrefix(a.Op, "H!") {
						linked = true
					}
				}
			}
			h := a
			if a.Kind == 'a' && a.Op == "select" && a.Args[0].Kind == 'v' && a.Args[0].isHeap {
				h = a.Args[0]
			}
			if h.Kind != 'v' || !h.isHeap || h.top == nil || h.el == nil {
				return
			}
			if _, _, arr := arrParts(t.Sort); arr {
				return
			}
			switch h.el.Underlying().(type) {
			case *types.Pointer, *types.Map:
				if index[t] {
					emit(And(Le(Zero, t), Lt(t, h.top)))
				}
			case *types.Slice:
				if index[SRef(t)] {
					emit(And(Le(Zero, SRef(t)), Lt(SRef(t), h.top), Le(Zero, SOff(t)), Le(Zero, SLen(t))))
				}
			case *types.Interface:
				if index[IVal(t)] {
					emit(Implies(ptrTags(ITag(t)), And(Le(Zero, IVal(t)), Lt(IVal(t), h.top))))
				}
			}
		})
		if linked {
			for _, r := range rows {
				k := Bnd("?fk", r.ks)
				e := App("select", v.w.SortOf(r.h.el), r.t, k)
				switch r.h.el.Underlying().(type) {
				case *types.Pointer, *types.Map:
					emit(Quant("forall", []*Term{k}, [][]*Term{{e}}, And(Le(Zero, e), Lt(e, r.h.top))))
				case *types.Slice:
					emit(Quant("forall", []*Term{k}, [][]*Term{{e}}, And(Le(Zero, SRef(e)), Lt(SRef(e), r.h.top))))
				case *types.Interface:
					emit(Quant("forall", []*Term{k}, [][]*Term{{e}}, Implies(ptrTags(ITag(e)), And(Le(Zero, IVal(e)), Lt(IVal(e), r.h.top)))))
				}
			}
		}
		out = append(out, fresh...)
		front = fresh
	}
	return
}
