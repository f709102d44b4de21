package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnResult is what verifying one function against its contract gave.
type FnResult struct {
	hide    map[string]bool
	Key     string
	Name    string
	Pos     string
	Obls    []*Obl
	Trivial int
	Err     string // outside the subset, or a contract that does not fit the code
	Returns int
	Loops   int
	Invs    int
	Ms      int64
	used    map[string]bool
	trusted map[string]bool
	notes   map[string]bool
}

func (r *FnResult) failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if o.Ans != Unsat {
			out = append(out, o)
		}
	}
	return out
}
func (r *FnResult) ok() bool { return r.Err == "" && len(r.failed()) == 0 }

// splitGoal breaks a goal into smaller ones, moving antecedents to the facts
// and replacing outermost universal variables by constants.
func (x *Exec) splitGoal(st *State, facts []*Term, g *Term, emit func(facts []*Term, g *Term)) {
	switch {
	case g == True:
		emit(facts, True)
	case g.Kind == 'a' && g.Op == "and":
		for _, a := range g.Args {
			x.splitGoal(st, facts, a, emit)
		}
	case g.Kind == 'a' && g.Op == "=>":
		f2 := append(facts[:len(facts):len(facts)], conjTerms(g.Args[0])...)
		x.splitGoal(st, f2, g.Args[1], emit)
	case g.Kind == 'q' && g.Op == "forall":
		m := map[*Term]*Term{}
		for _, v := range g.Vars {
			m[v] = SymR(x.uniq("sk!"+strings.TrimPrefix(v.Op, "?")), v.Sort, st.rank())
		}
		x.splitGoal(st, facts, Subst(g.Args[0], m), emit)
	case g.Kind == 'a' && g.Op == "ite":
		x.splitGoal(st, append(facts[:len(facts):len(facts)], g.Args[0]), g.Args[1], emit)
		x.splitGoal(st, append(facts[:len(facts):len(facts)], Not(g.Args[0])), g.Args[2], emit)
	default:
		emit(facts, g)
	}
}
func conjTerms(t *Term) []*Term {
	if t.Kind == 'a' && t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// goal adds the obligations of one postcondition.
func (x *Exec) goal(st *State, kind, text, pos string, g *Term) {
	n := 0
	x.splitGoal(st, st.facts, g, func(fs []*Term, g *Term) {
		if g == True {
			x.trivial++
			return
		}
		for _, f := range fs {
			if f == g {
				x.trivial++
				return
			}
		}
		n++
		c := make([]*Term, len(fs))
		copy(c, fs)
		t := text
		if n > 1 {
			t = fmt.Sprintf("%s [part %d]", text, n)
		}
		x.obls = append(x.obls, &Obl{Func: x.V.fname(x.fn), Kind: kind, Text: t, Pos: pos, Facts: c, Goal: g})
	})
}

// frame obliges that a heap only changed at fresh objects and allowed places.
func (x *Exec) frame(st *State, h string, allowed []*Term, all bool, entry *State) {
	if all {
		return
	}
	cur, old := st.heaps[h], x.heap(entry, h, x.heapSorts[h])
	name := "modifies: " + h
	ref := func(r *Term, conds []*Term) {
		for _, a := range allowed {
			if a == r {
				x.trivial++
				return
			}
		}
		f := x.isFresh(r, entry)
		if f == True {
			x.trivial++
			return
		}
		var or []*Term
		or = append(or, f, Eq(r, Zero)) // nothing lives at nil
		for _, a := range allowed {
			or = append(or, Eq(r, a))
		}
		g := Or(or...)
		for i := len(conds) - 1; i >= 0; i-- {
			g = Implies(conds[i], g)
		}
		x.goal(st, "frame", name, x.con.Pos, g)
	}
	var refs func(r *Term, conds []*Term)
	refs = func(r *Term, conds []*Term) {
		for _, a := range allowed {
			if a == r {
				x.trivial++
				return
			}
		}
		if r.Kind == 'a' && r.Op == "ite" {
			refs(r.Args[1], append(conds[:len(conds):len(conds)], r.Args[0]))
			refs(r.Args[2], append(conds[:len(conds):len(conds)], Not(r.Args[0])))
			return
		}
		if r == Int(-1) {
			return
		}
		ref(r, conds)
	}
	for cur != old {
		switch {
		case cur.Kind == 'a' && cur.Op == "store":
			refs(cur.Args[1], nil)
			cur = cur.Args[0]
		case cur.Kind == 'v' && cur.parent != nil:
			for _, e := range cur.exc {
				refs(e, nil)
			}
			cur = cur.parent
		default:
			x.goal(st, "frame", name+" (arbitrary writes)", x.con.Pos, False)
			return
		}
	}
}

func holdsRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (v *V) contractPkg(con *Contract, fn *ssa.Function) *types.Package {
	if p := v.pkgByPath(con.Pkg); p != nil {
		return p
	}
	return pkgOf(fn)
}

func (v *V) verifyFn(key string, con *Contract, limit time.Duration) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Key: key, Name: key}
	fn := v.byKey[key]
	if fn == nil {
		res.Err = "the function does not exist"
		return
	}
	res.Name = v.fname(fn)
	x := v.newSpecExec()
	x.fn, x.con = fn, con
	res.hide = con.Hide
	x.deadline = t0.Add(limit)
	res.Pos = x.pos(fn.Pos())
	covered := false
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case Unsupported:
				res.Err = "outside the subset: " + r.Msg
			case SpecError:
				res.Err = "contract does not fit: " + r.Msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if v.debug {
					debug.PrintStack()
				}
			}
		}
		res.Obls, res.Trivial, res.Returns, res.Loops, res.Invs = x.obls, x.trivial, x.returns, x.loopsN, x.invs
		res.used, res.trusted, res.notes = x.used, x.trusted, x.notes
		res.Ms = time.Since(t0).Milliseconds()
		if res.Err == "" && x.returns > 0 && !covered {
			res.Err = "vacuous: no return of the function is reachable under the assumptions"
		}
	}()
	st := &State{heaps: map[string]*Term{}, ghost: map[string]*Term{}}
	st.A = SymR(x.uniq("A"), SInt, 1)
	st.A.alloc = true
	st.assume(Lt(Int(1000000000), st.A))
	ts := recvAndParams(fn)
	if len(ts) != len(con.Params) {
		panic(SpecError{fmt.Sprintf("%s: the contract names %d parameters, the code has %d", con.Pos, len(con.Params), len(ts))})
	}
	if fn.Signature.Results().Len() != len(con.Results) {
		panic(SpecError{fmt.Sprintf("%s: the contract names %d results, the code has %d", con.Pos, len(con.Results), fn.Signature.Results().Len())})
	}
	x.pvars = map[string]SV{}
	var args, binds []Val
	for i, n := range con.Params {
		val := Val{T: x.freshVal(st, "p!"+n, ts[i])}
		args = append(args, val)
		x.pvars[n] = SV{T: val.T, Typ: ts[i]}
	}
	for _, fv := range fn.FreeVars {
		val := Val{T: x.freshVal(st, "fv!"+fv.Name(), fv.Type())}
		if isPtr(fv.Type()) {
			st.assume(Not(Eq(val.T, Zero)))
		}
		binds = append(binds, val)
		x.pvars[fv.Name()] = SV{T: val.T, Typ: fv.Type()}
	}
	x.params = args
	pkg := v.contractPkg(con, fn)
	pre := &Env{x: x, vars: x.pvars, st: st, pkg: pkg, goal: true}
	for _, r := range con.Requires {
		if r.applies(v.prop) {
			st.assume(pre.Bool(r.E))
		}
	}
	if !x.feasible(st, True) || v.sol.Quick(v.queryTextH(x.w, st.facts, True, 1, con.Hide), 400) == Unsat {
		panic(SpecError{"the preconditions are contradictory"})
	}
	if con.AllocBound != nil && con.AllocBound.applies(v.prop) {
		x.allocBound = pre.eval(con.AllocBound.E).T
	}
	// the places it may modify, in the entry state
	var locs []modLoc
	for _, m := range con.Modifies {
		locs = append(locs, pre.modLocs(m)...)
	}
	allowed := map[string][]*Term{}
	all := map[string]bool{}
	for _, l := range locs {
		if l.ref == nil {
			all[l.heap] = true
		} else {
			allowed[l.heap] = append(allowed[l.heap], l.ref)
		}
	}
	for _, h := range con.Heaps {
		all[h] = true
	}
	if con.Pure || con.Quiet {
		quietGhosts(con)
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if holdsRefs(fn.Signature.Results().At(i).Type()) {
				panic(SpecError{"a pure contract on a function that returns references"})
			}
		}
	}
	x.entry = st.clone()
	mods := x.modsOfBody(fn, true)
	x.runFunc(fn, args, binds, st, nil, func(s *State, rs []Val) {
		x.returns++
		if !covered && v.sol.Quick(v.queryTextH(x.w, s.facts, True, 1, con.Hide), 400) != Unsat {
			covered = true
		}
		post := &Env{x: x, vars: map[string]SV{}, st: s, old: x.entry, pkg: pkg, goal: true}
		for n, val := range x.pvars {
			post.vars[n] = val
		}
		for i, n := range con.Results {
			sv := SV{T: rs[i].T, Addr: rs[i].Addr, Fn: rs[i].Fn, Typ: fn.Signature.Results().At(i).Type()}
			if sv.T == nil {
				sv.T = x.valTerm(rs[i])
			}
			post.vars[n] = sv
		}
		for _, u := range con.Uses {
			if u.applies(v.prop) {
				s.assume(x.useLemma(post, u.E))
			}
		}
		for _, c := range con.Ensures {
			if !c.applies(v.prop) || c.Kind == "assumes" {
				continue
			}
			x.goal(s, "post", c.Text, c.Pos, post.Bool(c.E))
		}
		if !con.ModAll {
			for _, h := range sortedKeys(s.heaps) {
				if s.heaps[h] == x.heap(x.entry, h, x.heapSorts[h]) {
					continue
				}
				if _, ok := mods[h]; !ok && !strings.HasPrefix(h, "P:") {
					if v.debug {
						fmt.Println("   write set lacks", h, "in", x.V.fname(fn))
					}
					panic(Unsupported{"internal: heap " + h + " written outside the static write set"})
				}
				x.frame(s, h, allowed[h], all[h], x.entry)
			}
		}
	})
	return
}

// prove discharges the obligations in parallel.
func (v *V) prove(obls []*Obl, limit time.Duration, hid map[string]bool) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 16)
	for _, o := range obls {
		o := o
		if o.Ans == Unsat {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					o.Model = fmt.Sprintf("internal error: %v", r)
				}
			}()
			t0 := time.Now()
			text := v.queryTextH(v.w, o.Facts, Not(o.Goal), 2, hid)
			lim := limit
			if !v.deadline.IsZero() {
				if d := time.Until(v.deadline); d < lim {
					lim = d
				}
				if lim < 2*time.Second {
					lim = 2 * time.Second
				}
			}
			o.Ans, o.By, o.Model = v.sol.Prove(text, lim)
			o.Ms = time.Since(t0).Milliseconds()
			if o.Ans == Unsat {
				o.Model = ""
				v.sol.note(o.By)
			} else {
				o.Query = text
			}
		}()
	}
	wg.Wait()
}

// roots are the contracts that carry a clause of the property.
func (v *V) roots() []string {
	var out []string
	for k, c := range v.spec.Contracts {
		if c.Trusted {
			continue
		}
		if len(c.Labels) > 0 && !c.Labels[v.prop] {
			continue
		}
		hit := c.Labels[v.prop]
		for _, l := range [][]*Clause{c.Ensures, c.Requires} {
			for _, e := range l {
				hit = hit || e.Labels[v.prop]
			}
		}
		for _, l := range c.Roots {
			hit = hit || l == v.prop
		}
		if hit {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// run verifies everything the property depends on.
func (v *V) run(fnLimit, oblLimit time.Duration, log func(string, ...any)) (results []*FnResult) {
	for {
		v.modMu.Lock()
		v.mods = map[*ssa.Function]map[string]Sort{}
		v.modMu.Unlock()
		results = v.runOnce(fnLimit, oblLimit, log)
		again := false
		for _, r := range results {
			c := v.spec.Contracts[r.Key]
			if c != nil && c.Internal && !r.ok() && !v.inlined[r.Key] {
				v.inlined[r.Key] = true
				again = true
				log("%s: internal contract given up (%s); its callers are verified against its body", r.Name, r.why())
			}
		}
		if !again {
			return
		}
	}
}

func (r *FnResult) why() string {
	if r.Err != "" {
		return r.Err
	}
	for _, o := range r.failed() {
		return o.Kind + ": " + o.Text
	}
	return ""
}

func (v *V) runOnce(fnLimit, oblLimit time.Duration, log func(string, ...any)) (results []*FnResult) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	seen := map[string]bool{}
	var add func(k string)
	add = func(k string) {
		c := v.spec.Contracts[k]
		if c == nil || c.Trusted || c.Inline || seen[k] || v.inlined[k] {
			return
		}
		if c.Internal && v.byKey[k] == nil {
			return
		}
		seen[k] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r := v.verifyFn(k, c, fnLimit)
			<-sem
			v.prove(r.Obls, oblLimit, r.hide)
			mu.Lock()
			defer mu.Unlock()
			results = append(results, r)
			st := "ok"
			if !r.ok() {
				st = "FAILED"
			}
			log("%-8s %s: %d obligations, %d trivial, %d loops, %d returns, %d ms %s", st, r.Name, len(r.Obls), r.Trivial, r.Loops, r.Returns, r.Ms, r.Err)
			for _, o := range r.failed() {
				log("   %s %s at %s: %s (%s, %d ms)", o.Ans, o.Kind, o.Pos, o.Text, o.By, o.Ms)
			}
			for u := range r.used {
				if !strings.HasPrefix(u, "inline ") {
					add(u)
				}
			}
		}()
	}
	mu.Lock()
	for _, k := range v.roots() {
		add(k)
	}
	mu.Unlock()
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Key < results[j].Key })
	return
}
